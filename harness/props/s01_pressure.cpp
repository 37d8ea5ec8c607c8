// S01: histories of pressure solves over a failing linear solver.
#include "props/world.hpp"
#include "props/compworld.hpp"

namespace {
void randomSat(Sim& s, dvec& sat) { for (size_t c = 0; c < sat.size() / 2; ++c) if (s.chance(1, 2)) { double v = s.real(0, 1); sat[2 * c] = v; sat[2 * c + 1] = 1 - v; } }

void planFault(Sim& s, SimLinSolver& ls, int from, int span) {
    const int k = from + int(s.choose(span));
    ls.plan[k] = 1 + int(s.choose(SimLinSolver::NKINDS - 1));
    ls.where = int(s.choose(1000));
}

void checkAccepted(Sim& s, const World& w, const Opm::TwophaseState& st, const Opm::WellState& ws, const dvec& pv0, double dt, const char* what) {
    s.require(allFinite(st.pressure()), "finite", "%s: returned normally with a non-finite cell pressure", what);
    s.require(allFinite(st.faceflux()), "finite", "%s: returned normally with a non-finite flux", what);
    double pmax = 0, fmax = 0;
    for (double p : st.pressure()) pmax = std::max(pmax, std::fabs(p));
    for (double f : st.faceflux()) fmax = std::max(fmax, std::fabs(f));
    for (double q : w.src) fmax = std::max(fmax, std::fabs(q));
    double wimax = 0;
    if (const Wells* W = w.wells()) {
        for (int i = 0; i < W->well_connpos[W->number_of_wells]; ++i) { s.require(isFin(ws.perfRates()[i]), "finite", "%s: returned normally with a non-finite well rate", what); fmax = std::max(fmax, std::fabs(ws.perfRates()[i])); wimax = std::max(wimax, W->WI[i]); }
        for (int i = 0; i < W->number_of_wells; ++i) { s.require(isFin(ws.bhp()[i]), "finite", "%s: returned normally with a non-finite bottom-hole pressure", what); pmax = std::max(pmax, std::fabs(ws.bhp()[i])); }
    }
    const double T = w.transScale() + wimax / std::min(w.spec.mu[0], w.spec.mu[1]);
    // rock compressibility: Newton stops at a pressure change of 1 Pa or less; its last quadratic correction bounds the residual
    double tol = 1e-7 * fmax + 1e-11 * T * pmax;
    if (w.rockActive()) { double pvc = 0; for (double v : pv0) pvc = std::max(pvc, v); tol += pvc / dt * (w.spec.crock * w.spec.crock * 10 + 1e-12) ; }
    const dvec r = cellImbalance(w, st, ws, pv0, dt);
    for (size_t c = 0; c < r.size(); ++c)
        s.require(std::fabs(r[c]) <= tol, "balance", "%s: returned normally but cell %zu has a volume imbalance of %g (largest flux %g)", what, c, r[c], fmax);
    if (const Wells* W = w.wells()) for (int i = 0; i < W->number_of_wells; ++i) {
        const WellControls* c = W->ctrls[i];
        double q = 0; for (int k = W->well_connpos[i]; k < W->well_connpos[i + 1]; ++k) q += ws.perfRates()[k];
        if (c->current < 0) s.require(q == 0.0, "well-target", "%s: shut well %d flows %g", what, i, q);
        else if (c->type[c->current] == BHP) s.require(std::fabs(ws.bhp()[i] - c->target[c->current]) <= 1e-7 * pmax + (w.rockActive() ? 1.0 : 0.0), "well-target", "%s: well %d has bottom-hole pressure %.12g, target %.12g", what, i, ws.bhp()[i], c->target[c->current]);
        else s.require(std::fabs(q - c->target[c->current]) <= tol * (1 + W->well_connpos[i + 1] - W->well_connpos[i]), "well-target", "%s: well %d flows %g, target %g", what, i, q, c->target[c->current]);
    }
}

void incompressible(Sim& s) {
    WorldOpt o; o.maxcells = 40;
    World w(drawWorld(s, o));
    const bool faults = s.faults_enabled && s.chance(4, 5);
    SimLinSolver ls;
    const int maxit = s.chance(1, 5) ? s.range(1, 4) : 30;
    std::unique_ptr<Opm::IncompTpfa> ps;
    if (w.rockActive()) ps.reset(new Opm::IncompTpfa(*w.grid, *w.props, w.rock.get(), ls, 0.0, 1e-2, maxit, w.g(), w.wells(), w.src, w.bcs.get()));
    else ps.reset(new Opm::IncompTpfa(*w.grid, *w.props, ls, w.g(), w.wells(), w.src, w.bcs.get()));
    const int n = s.range(1, 5);
    for (int i = 0; i < n; ++i) {
        s.step(); s.simTime(w.spec.dt);
        randomSat(s, w.state.saturation());
        if (Wells* W = w.mwells()) for (int k = 0; k < W->number_of_wells; ++k) if (s.chance(1, 4)) set_current_control(k, s.chance(1, 4) ? -1 : int(s.choose(W->ctrls[k]->num)), W);
        w.src = w.spec.src; w.balanceSource(int(s.choose(w.spec.nc)));
        const double dt = w.spec.dt * s.logreal(0.1, 10);
        if (faults && s.chance(1, 2)) planFault(s, ls, ls.calls, w.rockActive() ? 4 : 1);
        // an attempt, and after a failed one a retry from the state before it
        for (int attempt = 0; attempt < 2; ++attempt) {
            const Opm::TwophaseState st0 = w.state; const Opm::WellState ws0 = w.wstate;
            dvec pv0(w.spec.nc); for (int c = 0; c < w.spec.nc; ++c) pv0[c] = w.spec.poro[c] * w.grid->cell_volumes[c] * (w.rockActive() ? w.rock->poroMult(st0.pressure()[c]) : 1.0);
            const int fired0 = ls.fired, calls0 = ls.calls;
            bool threw = false; std::string msg;
            mem.suspend = 0;
            try { ps->solve(dt, w.state, w.wstate); } catch (const std::exception& e) { threw = true; msg = e.what(); }
            const bool fired = ls.fired > fired0;
            s.event("solve %d.%d dt=%g calls=%d fired=%d threw=%d", i, attempt, dt, ls.calls - calls0, fired, threw);
            s.eventData("p", w.state.pressure().data(), w.state.pressure().size());
            s.state(mix64(mix64(w.spec.nc, fired ? ls.lastKind : 0), mix64(threw, ls.calls - calls0)));
            if (fired) {
                s.nontrivial();
                s.require(threw, "failure-accepted", "incompressible pressure solve %d returned normally although the linear solve failed (%s)", i, SimLinSolver::kindName(ls.lastKind));
                w.state = st0; w.wstate = ws0;
                continue;
            }
            if (threw) {
                if (w.rockActive()) s.cover("newton-gave-up");
                // A lone closed cell has no equation at all; and the Newton iteration may legitimately give up.
                const bool nosys = w.spec.nc == 1 && !w.pressureFixed() && !w.rockActive();
                s.require(nosys || w.rockActive(), "spurious-failure", "incompressible pressure solve %d failed although nothing went wrong: %s", i, msg.c_str());
                w.state = st0; w.wstate = ws0;
                break;
            }
            checkAccepted(s, w, w.state, w.wstate, pv0, dt, "incompressible pressure solve");
            break;
        }
    }
}

void compressible(Sim& s) {
    CompWorld w(drawCompWorld(s, 24));
    const bool faults = s.faults_enabled && s.chance(4, 5);
    SimLinSolver ls;
    const int maxit = s.chance(1, 5) ? s.range(1, 4) : 30;
    Opm::CompressibleTpfa ps(*w.grid, *w.props, w.rock.get(), ls, 0.0, 1e-2, maxit, w.g(), w.wells());
    const int n = s.range(1, 4);
    for (int i = 0; i < n; ++i) {
        s.step(); s.simTime(w.spec.dt);
        const double dt = w.spec.dt * s.logreal(0.1, 3);
        if (faults && s.chance(1, 2)) planFault(s, ls, ls.calls, 4);
        for (int attempt = 0; attempt < 2; ++attempt) {
            const Opm::BlackoilState st0 = w.state; const Opm::WellState ws0 = w.wstate;
            const int fired0 = ls.fired, calls0 = ls.calls;
            bool threw = false; std::string msg;
            mem.suspend = 0;
            try { ps.solve(dt, w.state, w.wstate); } catch (const std::exception& e) { threw = true; msg = e.what(); }
            const bool fired = ls.fired > fired0;
            s.event("comp solve %d.%d dt=%g calls=%d fired=%d threw=%d", i, attempt, dt, ls.calls - calls0, fired, threw);
            s.eventData("p", w.state.pressure().data(), w.state.pressure().size());
            s.state(mix64(mix64(w.spec.base.nc + 1000, fired ? ls.lastKind : 0), mix64(threw, ls.calls - calls0)));
            if (fired) {
                s.nontrivial();
                s.require(threw, "failure-accepted", "compressible pressure solve %d returned normally although the linear solve failed (%s)", i, SimLinSolver::kindName(ls.lastKind));
                w.state = st0; w.wstate = ws0;
                continue;
            }
            if (threw) {
                s.cover("newton-gave-up");
                w.state = st0; w.wstate = ws0;
                break;
            }
            w.checkAccepted(s, st0, dt, "compressible pressure solve");
            break;
        }
    }
}

// The same through the whole simulator: a failed solve must end the run with an error.
void simulator(Sim& s) {
    WorldOpt o; o.maxcells = 24; o.smooth_relperm = true;
    World w(drawWorld(s, o));
    w.balanceSource(int(s.choose(w.spec.nc)));
    if (w.spec.nc == 1) throw Discard{"single cell"};
    SimLinSolver ls;
    Opm::parameter::ParameterGroup p; p.disableOutput();
    p.insertParameter("output", "false"); p.insertParameter("nl_pressure_maxiter", "30");
    const int steps = s.range(1, 4);
    p.insertParameter("num_psteps", std::to_string(steps));
    p.insertParameter("stepsize_days", std::to_string(w.spec.dt / 86400));
    const bool split = w.spec.grav && w.spec.kind == 0 && s.chance(1, 3);
    if (split) p.insertParameter("use_segregation_split", "true");
    if (s.faults_enabled && s.chance(4, 5)) planFault(s, ls, 0, steps * 2);
    bool threw = false; std::string msg;
    try {
        Opm::SimulatorTimer t; t.init(p);
        Opm::SimulatorIncompTwophase sim(p, *w.grid, *w.props, w.rock.get(), *w.wm, w.src, w.bcs.get(), ls, w.g());
        sim.run(t, w.state, w.wstate);
    } catch (const std::exception& e) { threw = true; msg = e.what(); }
    s.simTime(w.spec.dt * steps);
    s.event("simulator steps=%d calls=%d fired=%d threw=%d", steps, ls.calls, ls.fired, threw);
    s.eventData("s", w.state.saturation().data(), w.state.saturation().size());
    s.state(mix64(mix64(w.spec.nc + 5000, ls.fired ? ls.lastKind : 0), mix64(threw, ls.calls)));
    if (ls.fired) { s.nontrivial(); s.require(threw, "failure-accepted", "the simulator finished normally although linear solve %d of the run failed (%s)", ls.calls - 1, SimLinSolver::kindName(ls.lastKind)); }
    else if (!threw) s.require(allFinite(w.state.pressure()) && allFinite(w.state.saturation()) && allFinite(w.state.faceflux()), "finite", "the simulator finished normally with a non-finite state");
}

void run(Sim& s) {
    NoFault nf;
    switch (s.choose(4)) {
    case 0: case 1: s.cover("incompressible"); incompressible(s); break;
    case 2: s.cover("compressible"); compressible(s); break;
    default: s.cover("simulator"); simulator(s);
    }
}
Register reg("S01", run,
    "IncompTpfa, CompressibleTpfa, ifs_tpfa, cfs_tpfa_residual, trans_tpfa, LinearSolverUmfpack, call_umfpack, SuiteSparse UMFPACK, SimulatorIncompTwophase, reorder transport, wells, grids",
    "linear-solver failure reports and memory allocation of UMFPACK (injected); rock properties array");
}
