// S02: phase volumes over histories of the real incompressible simulator.
#include "props/world.hpp"
#include "props/libcall.hpp"

namespace {
struct StepRec { std::vector<dvec> sats; dvec s0, flux, perf, p; bool open = false; };

struct Watch {
    World& w; Opm::TwophaseState& st; Opm::WellState& ws; bool perSolve;
    std::vector<StepRec> steps; dvec last;
    Watch(World& w_, bool per) : w(w_), st(w_.state), ws(w_.wstate), perSolve(per) {}
    void look() { NoFault nf; if (!sameBits(st.saturation(), last)) { last = st.saturation(); if (!steps.empty()) steps.back().sats.push_back(last); } }
    void close() { if (!steps.empty() && steps.back().open) { StepRec& r = steps.back(); r.flux = st.faceflux(); r.perf = ws.perfRates(); r.p = st.pressure(); r.open = false; } }
    void solveBegins() { NoFault nf; look(); if (perSolve || steps.empty() || !steps.back().sats.empty()) { close(); StepRec r; r.s0 = last; r.open = true; steps.push_back(r); } }
};

struct Report { double sat[2], inj[2], prod[2], tinj[2], tprod[2], bal[2]; int have = 0; };
std::vector<Report> parse(const std::string& out) {
    std::vector<Report> v; std::istringstream is(out); std::string l;
    while (std::getline(is, l)) {
        if (l.find("Volume balance report") != std::string::npos) { v.push_back(Report()); continue; }
        if (v.empty()) continue;
        Report& r = v.back();
        static const char* lab[] = {"Saturated volumes:", "Injected volumes:", "Produced volumes:", "Total inj volumes:", "Total prod volumes:", "Init - now - pr + inj:"};
        double* dst[] = {r.sat, r.inj, r.prod, r.tinj, r.tprod, r.bal};
        for (int i = 0; i < 6; ++i) { size_t k = l.find(lab[i]); if (k != std::string::npos) { std::istringstream n(l.substr(k + strlen(lab[i]))); std::string a, b; if (n >> a >> b) { dst[i][0] = strtod(a.c_str(), 0); dst[i][1] = strtod(b.c_str(), 0); r.have |= 1 << i; } } }
    }
    return v;
}
bool close5(double printed, double v, double tol) { return std::fabs(printed - v) <= tol + 6e-5 * std::fabs(v); }

struct Account { double inj, prod[2], tol; bool ok; };

void run(Sim& s) {
    NoFault nf;
    mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000);
    WorldOpt o; o.maxcells = 40; o.smooth_relperm = true;
    World w(drawWorld(s, o));
    const int nc = w.spec.nc; const UnstructuredGrid& g = *w.grid;
    if (nc == 1 && !w.pressureFixed() && !w.rockActive()) throw Discard{"single cell"};
    const bool seg = w.spec.kind != 2 && w.spec.dim == 3 && w.spec.grav && s.chance(1, 2);
    const bool newton = !seg && !w.rockActive() && s.chance(1, 4);     // implicit transport instead of reordering
    const int N = s.chance(1, 3) ? s.range(2, 4) : 1;
    Opm::parameter::ParameterGroup p; p.disableOutput();
    p.insertParameter("output", "false"); p.insertParameter("nl_maxiter", s.chance(1, 4) ? "30" : "200");
    if (seg) { p.insertParameter("use_segregation_split", "true"); s.cover("gravity-segregation"); }
    if (newton) { p.insertParameter("use_reorder", "false"); if (s.chance(1, 2)) p.insertParameter("guess_old_solution", "true"); s.cover("implicit-transport"); }
    p.insertParameter("num_transport_substeps", std::to_string(N));
    p.insertParameter("nl_pressure_change_tolerance", "0.01"); p.insertParameter("nl_pressure_maxiter", "30");
    if (N > 1) s.cover("substeps");
    SimLinSolver ls;
    std::unique_ptr<Opm::SimulatorIncompTwophase> sim(new Opm::SimulatorIncompTwophase(p, g, *w.props, w.rock.get(), *w.wm, w.src, w.bcs.get(), ls, w.g()));
    const int chunks = s.range(1, 4);
    const double T = w.transScale();
    for (int ch = 0; ch < chunks; ++ch) {
        // changes between runs: controls, sources, step length
        if (ch) {
            if (Wells* W = w.mwells()) for (int k = 0; k < W->number_of_wells; ++k) if (s.chance(1, 3)) set_current_control(k, s.chance(1, 4) ? -1 : int(s.choose(W->ctrls[k]->num)), W);
            if (s.chance(1, 4)) w.src[s.choose(nc)] += w.spec.Q * s.real(-1, 1);
            if (s.chance(1, 6)) randomSat(s, w.state.saturation());
        }
        w.balanceSource(int(s.choose(nc)));
        const int nsteps = s.range(1, 4);
        const double dt = w.spec.dt * s.logreal(0.05, 5);
        Opm::parameter::ParameterGroup tp; tp.disableOutput();
        { std::ostringstream a; a.precision(17); a << dt / 86400; tp.insertParameter("num_psteps", std::to_string(nsteps)); tp.insertParameter("stepsize_days", a.str()); }
        Opm::SimulatorTimer timer; timer.init(tp);
        const double step = timer.currentStepLength();
        ls.plan.clear();
        bool planned = false;
        if (s.faults_enabled && s.chance(1, 3)) { const int k = ls.calls + int(s.choose(nsteps * (w.rockActive() ? 3 : 1))); ls.plan[k] = 1 + int(s.choose(SimLinSolver::NKINDS - 1)); ls.where = int(s.choose(1000)); planned = true; }
        const bool mf = s.faults_enabled && !planned && s.chance(1, 6);
        dvec pv0(nc), pend;
        for (int c = 0; c < nc; ++c) pv0[c] = w.spec.poro[c] * g.cell_volumes[c] * (w.rockActive() ? w.rock->poroMult(w.state.pressure()[c]) : 1.0);
        Watch wa(w, !w.rockActive()); wa.last = w.state.saturation();
        ls.before = [&] { wa.solveBegins(); };
        w.props->onRelperm = [&] { wa.look(); };
        std::string text;
        const int fired0 = ls.fired;
        Call c; { CoutCapture cap; c = libcall(s, mf ? long(s.choose(20)) * long(s.choose(40)) : -1, [&] { sim->run(timer, w.state, w.wstate); }); text = cap.str(); }
        ls.before = nullptr; w.props->onRelperm = nullptr;
        wa.look(); wa.close();
        s.event("chunk %d steps=%d dt=%g N=%d seg=%d threw=%d observed=%zu", ch, nsteps, dt, N, seg, c.threw, wa.steps.size());
        s.eventData("s", w.state.saturation().data(), w.state.saturation().size());
        if (c.threw) {
            if (!planned && !c.failed) s.cover("gave-up");
        } else if (ls.fired == fired0 && !c.failed)
            s.require(w.rockActive() || wa.steps.size() == size_t(nsteps), "steps", "%d steps requested, %zu pressure solves made", nsteps, wa.steps.size());
        // a step of a run with compressible rock is recognised by its change of saturations
        const bool merged = w.rockActive() && wa.steps.size() != size_t(nsteps);
        if (merged && !c.threw) s.cover("steps-ambiguous");
        const std::vector<Report> rep = parse(text);
        std::vector<int> flags; for (size_t k = text.find("Convergence flag:"); k != std::string::npos; k = text.find("Convergence flag:", k + 1)) flags.push_back(std::atoi(text.c_str() + k + 17));
        double pvtot0 = 0; for (double v : pv0) pvtot0 += v;
        double tinj = 0, tprod[2] = {0, 0}; bool runok = true; double runtol = 0;
        const size_t nd = c.threw ? (wa.steps.empty() ? 0 : wa.steps.size() - 1) : wa.steps.size();
        for (size_t i = 0; i < wa.steps.size(); ++i) {
            StepRec& r = wa.steps[i];
            s.step(); s.simTime(step);
            for (auto& sv : r.sats) for (int q = 0; q < nc; ++q)
                s.require(sv[2 * q] >= 0 && sv[2 * q] <= 1 && sv[2 * q + 1] >= 0 && sv[2 * q + 1] <= 1 && std::fabs(sv[2 * q] + sv[2 * q + 1] - 1) < 1e-12, "saturation-range", "saturations %.17g %.17g in cell %d", sv[2 * q], sv[2 * q + 1], q);
            if (i >= nd || (merged && (!c.threw || nsteps > 1))) continue;
            if (newton) {
                s.require(i + 1 < wa.steps.size() || c.threw || flags.size() == wa.steps.size() * size_t(N), "steps", "%zu transport steps were made in %zu steps with %d substeps", flags.size(), wa.steps.size(), N);
                bool conv = true; for (size_t k = i * N; k < (i + 1) * N; ++k) conv = conv && k < flags.size() && (flags[k] == 1 || flags[k] == 2);
                if (!conv) { s.cover("implicit-not-converged"); runok = false; continue; }
                s.cover("implicit-converged");
            }
            if (i && w.rockActive()) for (int k = 0; k < nc; ++k) pv0[k] = w.spec.poro[k] * g.cell_volumes[k] * w.rock->poroMult(wa.steps[i - 1].p[k]);
            // net source of every cell
            dvec q(nc, 0.0); bool xf = false;
            for (int k = 0; k < nc; ++k) q[k] = w.src[k];
            for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0) q[b] += r.flux[f]; else if (b < 0) q[a] -= r.flux[f]; }
            if (const Wells* W = w.wells()) for (int k = 0; k < W->number_of_wells; ++k) for (int j = W->well_connpos[k]; j < W->well_connpos[k + 1]; ++j) { if (W->type[k] == PRODUCER && r.perf[j] > 0) xf = true; q[W->well_cells[j]] += r.perf[j]; }
            if (xf) { s.cover("crossflow-skipped"); runok = false; continue; }
            dvec pv1 = pv0;
            if (w.rockActive()) for (int k = 0; k < nc; ++k) pv1[k] = w.spec.poro[k] * g.cell_volumes[k] * w.rock->poroMult(r.p[k]);
            // residual volume balance of the fluxes
            dvec div(nc, 0.0); double fsum = 0, qsum = 0;
            for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a >= 0 && b >= 0) { div[a] += r.flux[f]; div[b] -= r.flux[f]; fsum += std::fabs(r.flux[f]); } }
            double imb = 0, pvs = 0, pmax = 0; for (double x : r.p) pmax = std::max(pmax, std::fabs(x));
            for (int k = 0; k < nc; ++k) { imb += std::fabs(div[k] - q[k] + (pv1[k] - pv0[k]) / step); pvs += pv0[k]; qsum += std::fabs(q[k]); }
            const double imbtol = nc * (1e-7 * (fsum + qsum) + 1e-11 * T * pmax) + (w.rockActive() ? pvs / step * 1e-9 : 0);
            if (!w.wells()) s.require(imb <= imbtol, "volume-balance", "step %zu: total volume imbalance %g (flux scale %g)", i, imb, fsum + qsum);
            const double amp = 1 + 40 * (w.spec.mu[1] / w.spec.mu[0] + w.spec.mu[0] / w.spec.mu[1]);
            const double tol = imb * step * 1.5 + N * (2e-8 * pvs + 1e-8 * amp * step / N * fsum) + 1e-12 * step * qsum
                + (newton ? N * (nc * std::max(1e-6, 5e-7 * (pvs + step / N * (2 * fsum + qsum))) + 1.1e-5 * pvs) : 0);
            runtol += tol;
            double inj = 0; for (int k = 0; k < nc; ++k) inj += step * std::max(q[k], 0.0);
            auto water = [&](const dvec& pv, const dvec& sv, int ph) { double t = 0; for (int k = 0; k < nc; ++k) t += pv[k] * sv[2 * k + ph]; return t; };
            const dvec& end = r.sats.empty() ? r.s0 : r.sats.back();
            const double w0[2] = {water(pv0, r.s0, 0), water(pv0, r.s0, 1)}, w1[2] = {water(pv1, end, 0), water(pv1, end, 1)};
           
            // states the production of each substep is taken from
            std::vector<std::vector<const dvec*>> hyp;
            const size_t n = r.sats.size();
            auto at = [&](long k) { return k < 0 ? &r.s0 : &r.sats[size_t(k)]; };
            if (!seg) {
                std::vector<const dvec*> h;
                if (n <= size_t(N) && (n == size_t(N) || !w.rockActive())) { for (int k = 0; k < N; ++k) h.push_back(at(std::min<long>(k, long(n) - 1))); hyp.push_back(h); }
                else s.require(n <= size_t(N), "steps", "step %zu: saturations changed %zu times in %d substeps", i, n, N);
            } else if (n == size_t(2 * N)) { std::vector<const dvec*> h; for (int k = 0; k < N; ++k) h.push_back(at(2 * k)); hyp.push_back(h); }
            else if (n == 0) hyp.push_back(std::vector<const dvec*>(N, &r.s0));
            else if (n == size_t(N)) { std::vector<const dvec*> a, b; for (int k = 0; k < N; ++k) { a.push_back(at(k)); b.push_back(at(k - 1)); } hyp.push_back(a); hyp.push_back(b); }
            if (hyp.empty()) { s.cover("substep-ambiguous"); runok = false; continue; }
            double best = 1e300, berr[2] = {0, 0}, bprod[2] = {0, 0};
            for (auto& h : hyp) {
                double prod[2] = {0, 0};
                for (const dvec* sv : h) for (int k = 0; k < nc; ++k) if (q[k] < 0) { const double f = w.props->frac((*sv)[2 * k]); prod[0] += -q[k] * step / N * f; prod[1] += -q[k] * step / N * (1 - f); }
                const double e0 = w1[0] - w0[0] - inj + prod[0], e1 = w1[1] - w0[1] + prod[1];
                if (std::max(std::fabs(e0), std::fabs(e1)) < best) { best = std::max(std::fabs(e0), std::fabs(e1)); berr[0] = e0; berr[1] = e1; bprod[0] = prod[0]; bprod[1] = prod[1]; }
            }
            s.require(std::fabs(berr[0]) <= tol, "water-volume", "step %zu: water in place is off by %g of %g (tolerance %g) injected %g produced %g", i, berr[0], w0[0], tol, inj, bprod[0]);
            s.require(std::fabs(berr[1]) <= tol, "oil-volume", "step %zu: oil in place is off by %g of %g (tolerance %g) produced %g", i, berr[1], w0[1], tol, bprod[1]);
            tinj += inj; tprod[0] += bprod[0]; tprod[1] += bprod[1];
            if (inj + bprod[0] + bprod[1] > 1e-6 * pvs || seg) s.nontrivial();
            s.state(mix64(mix64(nc, n * 64 + N * 4 + seg * 2 + w.rockActive()), uint64_t(w.spec.has_wells * 2 + w.spec.has_bcs)));
            if (runok && i < rep.size() && rep[i].have == 63) {
                const Report& R = rep[i]; const double P = pvtot0, t = runtol / P + 1e-12;
                const double sat[2] = {w1[0] / P, w1[1] / P};
                bool ok = true; for (int a = 0; a < 2; ++a) ok = ok && close5(R.sat[a], sat[a], t) && close5(R.inj[a], a ? 0 : inj / P, t) && close5(R.prod[a], bprod[a] / P, t) && close5(R.tinj[a], a ? 0 : tinj / P, t) && close5(R.tprod[a], tprod[a] / P, t) && std::fabs(R.bal[a]) <= 2 * t + 1e-4 * std::fabs(R.bal[a]);
                s.require(ok, "report", "step %zu: the printed balance (in place %g %g, injected %g, produced %g %g, error %g %g) disagrees with the states (%g %g, %g, %g %g)", i, R.sat[0], R.sat[1], R.inj[0], R.prod[0], R.prod[1], R.bal[0], R.bal[1], sat[0], sat[1], inj / P, bprod[0] / P, bprod[1] / P);
                s.cover("report-checked");
            }
        }
        if (c.threw) {       // go on from a consistent state
            for (double& x : w.state.pressure()) if (!isFin(x)) { w.state.pressure() = w.spec.p0; break; }
            if (s.chance(1, 2)) sim.reset(new Opm::SimulatorIncompTwophase(p, g, *w.props, w.rock.get(), *w.wm, w.src, w.bcs.get(), ls, w.g()));
        }
    }
}
Register reg("S02", run,
    "SimulatorIncompTwophase, IncompTpfa, TransportSolverTwophaseReorder, computeTransportSource, computeInjectedProduced, wells and grids, UMFPACK",
    "linear-solver failure reports, memory allocator (injected failures and fresh-memory contents)");
}
