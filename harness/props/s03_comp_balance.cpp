// S03: surface volumes over histories of the real compressible simulator.
#include "props/simrun.hpp"
#include <opm/core/grid/ColumnExtract.hpp>

namespace {
// The properties of the world, with the simulator watching every query.
struct WatchedProps : Opm::BlackoilPropertiesInterface {
    const Opm::BlackoilPropertiesInterface& p; std::function<void()> on;
    explicit WatchedProps(const Opm::BlackoilPropertiesInterface& q) : p(q) {}
    void look() const { if (on) on(); }
    int numDimensions() const override { return p.numDimensions(); }
    int numCells() const override { return p.numCells(); }
    const double* porosity() const override { return p.porosity(); }
    const double* permeability() const override { return p.permeability(); }
    int numPhases() const override { return p.numPhases(); }
    void viscosity(const int n, const double* a, const double* z, const int* c, double* m, double* d) const override { look(); p.viscosity(n, a, z, c, m, d); }
    void matrix(const int n, const double* a, const double* z, const int* c, double* m, double* d) const override { look(); p.matrix(n, a, z, c, m, d); }
    void density(const int n, const double* A, double* r) const override { look(); p.density(n, A, r); }
    const double* surfaceDensity() const override { return p.surfaceDensity(); }
    void relperm(const int n, const double* s, const int* c, double* k, double* d) const override { look(); p.relperm(n, s, c, k, d); }
    void capPress(const int n, const double* s, const int* c, double* k, double* d) const override { p.capPress(n, s, c, k, d); }
    void satRange(const int n, const int* c, double* a, double* b) const override { p.satRange(n, c, a, b); }
};
struct StepRec { dvec s0, z0, p0; std::vector<dvec> sats, zs; dvec p, flux, perf, pp; };

struct Report { double inj[2], prod[2], tinj[2], tprod[2], bal[2]; int have = 0; };
std::vector<Report> parse(const std::string& out) {
    std::vector<Report> v; std::istringstream is(out); std::string l;
    while (std::getline(is, l)) {
        if (l.find("Mass balance report") != std::string::npos) { v.push_back(Report()); continue; }
        if (v.empty()) continue;
        Report& r = v.back();
        static const char* lab[] = {"Injected surface volumes:", "Produced surface volumes:", "Total inj surface volumes:", "Total prod surface volumes:", "Initial - inplace + inj - prod:"};
        double* dst[] = {r.inj, r.prod, r.tinj, r.tprod, r.bal};
        for (int i = 0; i < 5; ++i) { size_t k = l.find(lab[i]); if (k != std::string::npos) { std::istringstream n(l.substr(k + strlen(lab[i]))); std::string a, b; if (n >> a >> b) { dst[i][0] = strtod(a.c_str(), 0); dst[i][1] = strtod(b.c_str(), 0); r.have |= 1 << i; } } }
    }
    return v;
}
bool close5(double printed, double v, double tol) { return std::fabs(printed - v) <= tol + 6e-5 * std::fabs(v); }

void run(Sim& s) {
    NoFault nf;
    mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000);
    CompWorld w(drawCompWorld(s, 40));
    const int nc = w.spec.base.nc; const UnstructuredGrid& g = *w.grid;
    WatchedProps props(*w.props);
    const bool seg = w.spec.base.grav && s.chance(1, 2);
    const int N = s.chance(1, 3) ? s.range(2, 4) : 1;
    Opm::parameter::ParameterGroup p; p.disableOutput();
    p.insertParameter("output", "false"); p.insertParameter("nl_maxiter", s.chance(1, 4) ? "30" : "200");
    if (seg) { p.insertParameter("use_segregation_split", "true"); s.cover("gravity-segregation"); }
    p.insertParameter("num_transport_substeps", std::to_string(N));
    p.insertParameter("nl_pressure_change_tolerance", "0.01"); p.insertParameter("nl_pressure_maxiter", "30");
    if (N > 1) s.cover("substeps");
    SimLinSolver ls;
    auto make = [&] { return new Opm::SimulatorCompressibleTwophase(p, g, props, w.rock.get(), *w.wm, w.src, nullptr, ls, w.g()); };
    std::unique_ptr<Opm::SimulatorCompressibleTwophase> sim(make());
    std::vector<std::vector<int>> columns; if (seg) Opm::extractColumn(g, columns);
    ivec all(nc); for (int c = 0; c < nc; ++c) all[c] = c;
    const int chunks = s.range(1, 4);
    for (int ch = 0; ch < chunks; ++ch) {
        if (ch) {
            if (Wells* W = w.mwells()) for (int k = 0; k < W->number_of_wells; ++k) if (s.chance(1, 3)) set_current_control(k, s.chance(1, 4) ? -1 : int(s.choose(W->ctrls[k]->num)), W);
            if (s.chance(1, 6)) { randomSat(s, w.state.saturation()); Opm::initBlackoilSurfvol(g, *w.props, w.state); }
        }
        const int nsteps = s.range(1, 4);
        const double dt = w.spec.dt * s.logreal(0.05, 3);
        Opm::parameter::ParameterGroup tp; tp.disableOutput();
        { std::ostringstream a; a.precision(17); a << dt / 86400; tp.insertParameter("num_psteps", std::to_string(nsteps)); tp.insertParameter("stepsize_days", a.str()); }
        Opm::SimulatorTimer timer; timer.init(tp);
        const double step = timer.currentStepLength();
        ls.plan.clear();
        bool planned = false;
        if (s.faults_enabled && s.chance(1, 3)) { ls.plan[ls.calls + int(s.choose(nsteps * 4))] = 1 + int(s.choose(SimLinSolver::NKINDS - 1)); ls.where = int(s.choose(1000)); planned = true; }
        const bool mf = s.faults_enabled && !planned && s.chance(1, 6);
        std::vector<StepRec> steps;
        auto look = [&] {
            NoFault n;
            const size_t k = size_t(timer.currentStepNum());
            if (k < size_t(nsteps) && steps.size() <= k) {
                if (!steps.empty()) { StepRec& r = steps.back(); r.p = w.state.pressure(); r.flux = w.state.faceflux(); r.perf = w.wstate.perfRates(); r.pp = w.wstate.perfPress(); }
                StepRec r; r.s0 = w.state.saturation(); r.z0 = w.state.surfacevol(); r.p0 = w.state.pressure(); steps.push_back(r);
                return;
            }
            if (steps.empty()) return;
            StepRec& r = steps.back();
            const dvec& ls0 = r.sats.empty() ? r.s0 : r.sats.back(); const dvec& lz = r.zs.empty() ? r.z0 : r.zs.back();
            if (!sameBits(w.state.surfacevol(), lz) || !sameBits(w.state.saturation(), ls0)) { r.sats.push_back(w.state.saturation()); r.zs.push_back(w.state.surfacevol()); }
        };
        std::string text; Call c;
        {
            StreamWatch buf; buf.on = look; props.on = look; ls.before = look; buf.start();
            c = libcall(s, mf ? long(s.choose(20)) * long(s.choose(40)) : -1, [&] { sim->run(timer, w.state, w.wstate); });
            buf.stop(); props.on = nullptr; ls.before = nullptr; text = buf.s;
        }
        look();
        if (!steps.empty() && steps.back().p.empty()) { StepRec& r = steps.back(); r.p = w.state.pressure(); r.flux = w.state.faceflux(); r.perf = w.wstate.perfRates(); r.pp = w.wstate.perfPress(); }
        s.event("chunk %d steps=%d dt=%g N=%d seg=%d threw=%d observed=%zu", ch, nsteps, dt, N, seg, c.threw, steps.size());
        s.eventData("s", w.state.saturation().data(), w.state.saturation().size());
        if (c.threw) { if (!planned && !c.failed) s.cover("gave-up"); }
        else s.require(steps.size() == size_t(nsteps) && timer.done(), "steps", "%d steps requested, %zu made", nsteps, steps.size());
        const std::vector<Report> rep = parse(text);
        const size_t nd = c.threw ? (steps.empty() ? 0 : steps.size() - 1) : steps.size();
        double tinj = 0, tprod[2] = {0, 0}, tlost = 0, tmoved = 0, runtol = 0, initial = 0; bool runok = true, lossy = false;
        for (size_t i = 0; i < nd; ++i) {
            StepRec& r = steps[i];
            s.step(); s.simTime(step);
            const dvec pv0 = w.porevol(r.p0), pv1 = w.porevol(r.p);
            dvec A(4 * nc), mu(2 * nc);
            w.props->matrix(nc, r.p.data(), nullptr, all.data(), A.data(), 0);
            w.props->viscosity(nc, r.p.data(), nullptr, all.data(), mu.data(), 0);
            auto b = [&](int k, int ph) { return A[4 * k + 3 * ph]; };
            for (size_t q = 0; q < r.sats.size(); ++q) for (int k = 0; k < nc; ++k) {
                const dvec& sv = r.sats[q];
                s.require(sv[2 * k] >= 0 && sv[2 * k] <= 1 && sv[2 * k + 1] >= 0 && sv[2 * k + 1] <= 1 && std::fabs(sv[2 * k] + sv[2 * k + 1] - 1) < 1e-12, "saturation-range", "saturations %.17g %.17g in cell %d", sv[2 * k], sv[2 * k + 1], k);
            }
            const dvec& end = r.sats.empty() ? r.s0 : r.sats.back(); const dvec& zend = r.zs.empty() ? r.z0 : r.zs.back();
            for (int k = 0; k < nc; ++k) for (int a = 0; a < 2; ++a)
                s.require(std::fabs(zend[2 * k + a] - b(k, a) * end[2 * k + a]) <= 1e-9, "surface-volume", "step %zu: cell %d holds %.12g surface volumes of phase %d, its saturation and pressure imply %.12g", i, k, zend[2 * k + a], a, b(k, a) * end[2 * k + a]);
            // sources: surface rate of injected water, total reservoir rate of production
            dvec q(nc, 0.0); bool xf = false; double qsum = 0;
            if (const Wells* W = w.wells()) {
                std::vector<char> has(nc, 0);
                for (int k = 0; k < W->number_of_wells; ++k) for (int j = W->well_connpos[k]; j < W->well_connpos[k + 1]; ++j) {
                    const int cell = W->well_cells[j]; const double f = r.perf[j];
                    if (f == 0) continue;
                    if ((f > 0) != (W->type[k] == INJECTOR)) { xf = true; continue; }
                    if (has[cell] && has[cell] != 1 + (f > 0)) xf = true;     // a cell both injected into and produced from
                    has[cell] = char(1 + (f > 0));
                    if (f > 0) { double B[4]; w.props->matrix(1, &r.pp[j], W->comp_frac + 2 * k, &cell, B, 0); q[cell] += f * W->comp_frac[2 * k] * B[0]; } else q[cell] += f;
                    qsum += std::fabs(f);
                }
            }
            double fsum = 0; for (double f : r.flux) fsum += std::fabs(f);
            double pvs = 0; for (int k = 0; k < nc; ++k) pvs += pv0[k] + pv1[k];
            if (i == 0) for (int k = 0; k < nc; ++k) initial += pv0[k] * r.z0[2 * k];
            double bmax = 1; for (int k = 0; k < nc; ++k) bmax = std::max(bmax, b(k, 0));
            if (xf) { s.cover("crossflow-skipped"); runok = false; continue; }
            const double amp = 1 + 40 * (w.spec.base.mu[1] / w.spec.base.mu[0] + w.spec.base.mu[0] / w.spec.base.mu[1]);
            const double tol = bmax * N * (2e-8 * pvs + 1e-8 * amp * step / N * (fsum + qsum)) + 1e-11 * step * qsum;
            runtol += tol;
            // states after transport and after segregation, substep by substep
            const size_t n = r.sats.size();
            auto at = [&](long k) { return k < 0 ? &r.s0 : &r.sats[size_t(k)]; };
            struct Sub { const dvec *tr, *gr, *from; };
            std::vector<Sub> sub;
            if (!seg) { if (n == size_t(N)) for (int k = 0; k < N; ++k) sub.push_back({at(k), at(k), at(k)});
                        else if (n == 0) for (int k = 0; k < N; ++k) sub.push_back({&r.s0, &r.s0, &r.s0});
                        else s.require(n < size_t(N), "steps", "step %zu: saturations changed %zu times in %d substeps", i, n, N); }
            else if (n == size_t(2 * N)) for (int k = 0; k < N; ++k) sub.push_back({at(2 * k), at(2 * k + 1), at(2 * k)});
            else if (n == 0) for (int k = 0; k < N; ++k) sub.push_back({&r.s0, &r.s0, &r.s0});
            if (sub.empty()) { s.cover("substep-ambiguous"); runok = false; continue; }
            double w0 = 0, w1 = 0; for (int k = 0; k < nc; ++k) { w0 += pv0[k] * r.z0[2 * k]; w1 += pv1[k] * zend[2 * k]; }
            double inj = 0, prod[2] = {0, 0}, moved = 0; bool full = false;
            for (int k = 0; k < nc; ++k) inj += step * std::max(q[k], 0.0);
            auto frac = [&](int k, double sw) { double sat[2] = {sw, 1 - sw}, kr[2]; w.props->relperm(1, sat, &k, kr, 0); kr[0] /= mu[2 * k]; kr[1] /= mu[2 * k + 1]; return kr[0] / (kr[0] + kr[1]); };
            for (size_t u = 0; u < sub.size(); ++u) {
                const dvec& t = *sub[u].tr; const dvec& e = *sub[u].gr;
                for (int k = 0; k < nc; ++k) {
                    if (t[2 * k] > 1 - 1e-8) full = true;
                    if (q[k] < 0) { const double f = frac(k, t[2 * k]); prod[0] += -q[k] * step / N * f * b(k, 0); prod[1] += -q[k] * step / N * (1 - f) * b(k, 1); }
                }
                if (seg && n) {
                    const double fr = double(u + 1) / N;
                    for (auto& col : columns) {
                        double dv = 0, cv = 0, cb = 0;
                        for (int k : col) { const double pv = pv0[k] + fr * (pv1[k] - pv0[k]), d = pv * (e[2 * k] - t[2 * k]); dv += d; cv += pv; cb += std::fabs(d); moved += pv * b(k, 0) * (e[2 * k] - t[2 * k]); }
                        s.require(std::fabs(dv) <= 1e-6 * cv + 1e-9 * cb, "segregation-volume", "step %zu: segregation changed the water in a column of volume %g by %g", i, cv, dv);
                    }
                }
            }
            // where a cell is full the transport step gives up the excess
            double lost = 0; bool percell = false;
            if (N == 1 && n) {
                percell = true;
                const dvec& t = *sub[0].tr;
                for (int k = 0; k < nc; ++k) {
                    double in = 0, out = 0, scale = 0;
                    for (int j = g.cell_facepos[k]; j < g.cell_facepos[k + 1]; ++j) {
                        const int f = g.cell_faces[j]; const double v = (g.face_cells[2 * f] == k ? 1 : -1) * r.flux[f]; const int o = g.face_cells[2 * f] == k ? g.face_cells[2 * f + 1] : g.face_cells[2 * f];
                        if (o < 0) continue;
                        scale += std::fabs(v);
                        if (v < 0) in += -v * frac(o, t[2 * o]) * b(o, 0); else out += v * frac(k, t[2 * k]) * b(k, 0);
                    }
                    if (q[k] > 0) in += q[k]; else out += -q[k] * frac(k, t[2 * k]) * b(k, 0);
                    scale += std::fabs(q[k]);
                    const double e = pv1[k] * t[2 * k] * b(k, 0) - pv0[k] * r.z0[2 * k] - step * (in - out);
                    const double ct = bmax * 1e-7 * (pv0[k] + pv1[k] + amp * step * scale);
                    if (t[2 * k] > 1 - 1e-8 && e < 0) { lost -= e; if (e < -ct) s.cover("overfull-cell"); continue; }
                    s.require(std::fabs(e) <= ct, "cell-water", "step %zu: the water in cell %d is off by %g of %g (tolerance %g), saturation %.12g", i, k, e, pv1[k] * t[2 * k] * b(k, 0), ct, t[2 * k]);
                }
            }
            const double err = w1 - w0 - inj + prod[0] - moved + lost;
            s.require(err <= tol, "water-mass", "step %zu: %g surface volumes of water appeared (in place %g, injected %g, produced %g, tolerance %g)", i, err, w0, inj, prod[0], tol);
            if (percell || !full || n == 0) s.require(err >= -tol, "water-mass", "step %zu: %g surface volumes of water disappeared (in place %g, injected %g, produced %g, tolerance %g)", i, -err, w0, inj, prod[0], tol);
            else { s.cover("full-cell-substeps"); lossy = true; }
            if (!full && !lost) s.cover("two-sided");
            tinj += inj; tprod[0] += prod[0]; tprod[1] += prod[1]; tlost += lost; tmoved += moved;
            if (inj + prod[0] + prod[1] > 1e-6 * pvs || seg) s.nontrivial();
            s.state(mix64(mix64(nc, n * 64 + N * 4 + seg * 2 + w.rockActive()), uint64_t(w.spec.base.has_wells * 2 + (lost > 0))));
            if (runok && i < rep.size() && rep[i].have == 31) {
                const Report& R = rep[i]; const double t = runtol + 1e-12;
                const double bal = initial - w1 - tprod[0] + tinj;
                bool ok = close5(R.inj[0], inj, t) && close5(R.inj[1], 0, t) && close5(R.tinj[0], tinj, t) && close5(R.tinj[1], 0, t) && std::fabs(R.bal[0] - bal) <= t + 6e-5 * std::fabs(bal) + 1e-10 * initial;
                for (int a = 0; a < 2; ++a) ok = ok && close5(R.prod[a], prod[a], t) && close5(R.tprod[a], tprod[a], t);
                s.require(ok, "report", "step %zu: the printed balance (injected %g %g, produced %g %g, total %g %g, error %g) disagrees with the states (%g, %g %g, %g %g, %g)", i, R.inj[0], R.inj[1], R.prod[0], R.prod[1], R.tprod[0], R.tprod[1], R.bal[0], inj, prod[0], prod[1], tprod[0], tprod[1], bal);
                s.cover("report-checked");
            }
        }
        (void)lossy; (void)tlost; (void)tmoved;
        if (c.threw) {
            bool bad = !allFinite(w.state.pressure()); for (double x : w.state.surfacevol()) bad = bad || !isFin(x);
            if (bad) w.state.pressure() = w.spec.base.p0;
            Opm::initBlackoilSurfvol(g, *w.props, w.state);
            if (s.chance(1, 2)) sim.reset(make());
        }
    }
}
Register reg("S03", run,
    "SimulatorCompressibleTwophase, CompressibleTpfa, TransportSolverCompressibleTwophaseReorder, computeTransportSource, computeInjectedProduced, deck-defined fluid and rock, wells and grids, UMFPACK",
    "linear-solver failure reports, memory allocator (injected failures and fresh-memory contents)");
}
