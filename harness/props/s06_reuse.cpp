// S06: call histories on one solver object; the model is the same call on a fresh object.
#include "props/compworld.hpp"
#include "props/libcall.hpp"
#include <opm/core/tof/TofReorder.hpp>
#include <opm/core/tof/TofDiscGalReorder.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>
#include <opm/core/grid/ColumnExtract.hpp>
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>

namespace {
void incompPressure(Sim& s) {
    WorldOpt o; o.maxcells = 30; World w(drawWorld(s, o));
    SimLinSolver ls;
    const int maxit = s.chance(1, 5) ? s.range(1, 3) : 20;
    auto make = [&]() { return std::unique_ptr<Opm::IncompTpfa>(w.rockActive() ? new Opm::IncompTpfa(*w.grid, *w.props, w.rock.get(), ls, 0.0, 1e-2, maxit, w.g(), w.wells(), w.src, w.bcs.get())
                                                                             : new Opm::IncompTpfa(*w.grid, *w.props, ls, w.g(), w.wells(), w.src, w.bcs.get())); };
    auto reused = make();
    const int n = s.range(2, 5);
    for (int i = 0; i < n; ++i) {
        s.step(); s.simTime(w.spec.dt);
        randomSat(s, w.state.saturation());
        if (s.chance(1, 3)) for (auto& p : w.state.pressure()) p += 1e4 * s.real(-1, 1);
        if (Wells* W = w.mwells()) for (int k = 0; k < W->number_of_wells; ++k) if (s.chance(1, 3)) set_current_control(k, s.chance(1, 4) ? -1 : int(s.choose(W->ctrls[k]->num)), W);
        if (s.chance(1, 3)) w.src[s.choose(w.spec.nc)] += w.spec.Q * s.real(-1, 1);
        w.balanceSource(int(s.choose(w.spec.nc)));
        const double dt = w.spec.dt * s.logreal(0.1, 10);
        Opm::TwophaseState a = w.state, b = w.state; Opm::WellState wa = w.wstate, wb = w.wstate;
        if (memFault(s)) {      // a call that runs out of memory; then the same call again
            Opm::TwophaseState d = w.state; Opm::WellState wd = w.wstate;
            libcall(s, position(s), [&] { reused->solve(dt, d, wd); });
        }
        int kind = 0, at = 0;
        if (s.faults_enabled && s.chance(1, 4)) { kind = 1 + int(s.choose(SimLinSolver::Throw)); at = int(s.choose(w.rockActive() ? 3 : 1)); ls.where = int(s.choose(1000)); }
        ls.plan.clear(); ls.calls = 0; if (kind) ls.plan[at] = kind;
        Call ra = libcall(s, -1, [&] { reused->solve(dt, a, wa); });
        if (w.rockActive() && !ra.threw && w.wells()) {}
        ls.calls = 0;
        Call rb = libcall(s, -1, [&] { auto f = make(); f->solve(dt, b, wb); });
        s.event("pressure %d dt=%g kind=%d threw=%d", i, dt, kind, ra.threw);
        s.eventData("p", a.pressure().data(), a.pressure().size());
        s.state(mix64(mix64(w.spec.nc, kind), ra.threw * 4 + i));
        sameOutcome(s, ra, rb, "IncompTpfa::solve", i);
        sameVec(s, a.pressure(), b.pressure(), "pressure", "IncompTpfa::solve", i); sameVec(s, a.faceflux(), b.faceflux(), "flux", "IncompTpfa::solve", i);
        sameVec(s, wa.bhp(), wb.bhp(), "bhp", "IncompTpfa::solve", i); sameVec(s, wa.perfRates(), wb.perfRates(), "perforation rate", "IncompTpfa::solve", i);
        if (i) s.nontrivial();
        if (!ra.threw) { w.state = a; w.wstate = wa; }
    }
}

void compPressure(Sim& s) {
    CompWorld w(drawCompWorld(s, 20));
    SimLinSolver ls;
    const int maxit = s.chance(1, 4) ? s.range(1, 4) : 20;
    auto make = [&]() { return std::unique_ptr<Opm::CompressibleTpfa>(new Opm::CompressibleTpfa(*w.grid, *w.props, w.rock.get(), ls, 0.0, 1e-2, maxit, w.g(), w.wells())); };
    auto reused = make();
    const int n = s.range(2, 5);
    for (int i = 0; i < n; ++i) {
        s.step(); s.simTime(w.spec.dt);
        if (s.chance(1, 2)) { randomSat(s, w.state.saturation()); Opm::initBlackoilSurfvol(*w.grid, *w.props, w.state); }
        if (Wells* W = w.mwells()) for (int k = 0; k < W->number_of_wells; ++k) if (s.chance(1, 3)) set_current_control(k, s.chance(1, 4) ? -1 : int(s.choose(W->ctrls[k]->num)), W);
        const double dt = w.spec.dt * s.logreal(0.1, 3);
        Opm::BlackoilState a = w.state, b = w.state; Opm::WellState wa = w.wstate, wb = w.wstate;
        if (memFault(s)) { Opm::BlackoilState d = w.state; Opm::WellState wd = w.wstate; libcall(s, position(s), [&] { reused->solve(dt, d, wd); }); }
        int kind = 0, at = 0;
        if (s.faults_enabled && s.chance(1, 4)) { kind = 1 + int(s.choose(SimLinSolver::Throw)); at = int(s.choose(3)); ls.where = int(s.choose(1000)); }
        ls.plan.clear(); ls.calls = 0; if (kind) ls.plan[at] = kind;
        Call ra = libcall(s, -1, [&] { reused->solve(dt, a, wa); });
        const bool sa = reused->singularPressure();
        ls.calls = 0; bool sb = false;
        Call rb = libcall(s, -1, [&] { auto f = make(); try { f->solve(dt, b, wb); } catch (...) { sb = f->singularPressure(); throw; } sb = f->singularPressure(); });
        s.event("comp pressure %d dt=%g kind=%d threw=%d", i, dt, kind, ra.threw);
        s.eventData("p", a.pressure().data(), a.pressure().size());
        s.state(mix64(mix64(w.spec.base.nc + 100, kind), ra.threw * 4 + i));
        sameOutcome(s, ra, rb, "CompressibleTpfa::solve", i);
        s.require(sa == sb, "differs", "CompressibleTpfa::solve call %d: pressure reported %ssingular by the reused object only", i, sa ? "" : "not ");
        sameVec(s, a.pressure(), b.pressure(), "pressure", "CompressibleTpfa::solve", i); sameVec(s, a.faceflux(), b.faceflux(), "flux", "CompressibleTpfa::solve", i);
        if (!ra.threw) sameVec(s, a.facepressure(), b.facepressure(), "face pressure", "CompressibleTpfa::solve", i);
        sameVec(s, wa.bhp(), wb.bhp(), "bhp", "CompressibleTpfa::solve", i); sameVec(s, wa.perfRates(), wb.perfRates(), "perforation rate", "CompressibleTpfa::solve", i);
        if (!ra.threw) sameVec(s, wa.perfPress(), wb.perfPress(), "perforation pressure", "CompressibleTpfa::solve", i);
        if (i) s.nontrivial();
        if (!ra.threw) { w.state = a; w.wstate = wa; }
    }
}

void fluxes(Sim& s, World& w, int i) {
    SimLinSolver ls; randomSat(s, w.state.saturation());
    if (i) w.src[s.choose(w.spec.nc)] += w.spec.Q * s.real(-1, 1);
    w.balanceSource(int(s.choose(w.spec.nc)));
    Opm::IncompTpfa ps(*w.grid, *w.props, ls, w.g(), w.wells(), w.src, w.bcs.get());
    ps.solve(w.spec.dt, w.state, w.wstate);
    // circulation on top of the potential flow: around a random pair of rings
    if (s.chance(1, 2)) for (auto& f : w.state.faceflux()) if (f != 0 && s.chance(1, 4)) f *= s.real(-2, 2);
}

void transport(Sim& s) {
    WorldOpt o; o.maxcells = 30; o.rockcomp = false; o.smooth_relperm = true;
    World w(drawWorld(s, o));
    if (w.spec.nc == 1 && !w.pressureFixed()) throw Discard{"single cell"};
    const bool columns = w.spec.kind != 2 && w.spec.dim == 3 && s.chance(1, 2);
    const double grav[3] = {0, 0, 9.80665};
    const int maxit = s.chance(1, 3) ? s.range(1, 20) : 200;
    auto make = [&]() { return std::unique_ptr<Opm::TransportSolverTwophaseReorder>(new Opm::TransportSolverTwophaseReorder(*w.grid, *w.props, columns ? grav : nullptr, 1e-9, maxit)); };
    auto reused = make();
    dvec pv; Opm::computePorevolume(*w.grid, w.props->porosity(), pv);
    const int n = s.range(2, 5);
    for (int i = 0; i < n; ++i) {
        s.step(); s.simTime(w.spec.dt);
        fluxes(s, w, i);
        dvec ts; Opm::computeTransportSource(*w.grid, w.src, w.state.faceflux(), 1.0, w.wells(), w.wstate.perfRates(), ts);
        const double dt = w.spec.dt * s.logreal(0.01, 10);
        Opm::TwophaseState a = w.state, b = w.state;
        const bool grv = columns && s.chance(1, 2);
        if (memFault(s)) { Opm::TwophaseState d = w.state; libcall(s, position(s), [&] { grv ? reused->solveGravity(&pv[0], dt, d) : reused->solve(&pv[0], &ts[0], dt, d); }); }
        Call ra = libcall(s, -1, [&] { grv ? reused->solveGravity(&pv[0], dt, a) : reused->solve(&pv[0], &ts[0], dt, a); });
        ivec ib;
        Call rb = libcall(s, -1, [&] { auto f = make(); grv ? f->solveGravity(&pv[0], dt, b) : f->solve(&pv[0], &ts[0], dt, b); ib = f->getReorderIterations(); });
        s.event("transport %d dt=%g gravity=%d threw=%d", i, dt, grv, ra.threw);
        s.eventData("s", a.saturation().data(), a.saturation().size());
        s.state(mix64(mix64(w.spec.nc + 200, grv), ra.threw * 4 + i));
        if (ra.threw) s.cover("transport-gave-up");
        sameOutcome(s, ra, rb, grv ? "solveGravity" : "transport solve", i);
        sameVec(s, a.saturation(), b.saturation(), "saturation", grv ? "solveGravity" : "transport solve", i);
        if (!grv && !ra.threw) s.require(reused->getReorderIterations() == ib, "differs", "transport solve call %d: iteration counts differ from those of a fresh object", i);
        if (i) s.nontrivial();
        w.state = a;
    }
}

void compTransport(Sim& s) {
    CompWorld w(drawCompWorld(s, 20));
    const bool columns = s.chance(1, 2);
    const double grav[3] = {0, 0, 9.80665};
    const int maxit = s.chance(1, 3) ? s.range(1, 20) : 200;
    std::vector<std::vector<int> > cols; if (columns) Opm::extractColumn(*w.grid, cols);
    auto make = [&]() { auto t = std::unique_ptr<Opm::TransportSolverCompressibleTwophaseReorder>(new Opm::TransportSolverCompressibleTwophaseReorder(*w.grid, *w.props, 1e-9, maxit)); if (columns) t->initGravity(grav); return t; };
    auto reused = make();
    const int n = s.range(2, 4);
    for (int i = 0; i < n; ++i) {
        s.step(); s.simTime(w.spec.dt);
        const double dt = w.spec.dt * s.logreal(0.1, 3);
        const dvec pv0 = w.porevol(w.state.pressure());
        SimLinSolver ls;
        try { Opm::CompressibleTpfa ps(*w.grid, *w.props, w.rock.get(), ls, 0.0, 1e-2, 30, w.g(), w.wells()); ps.solve(dt, w.state, w.wstate); }
        catch (const std::exception&) { throw Discard{"pressure"}; }
        if (s.chance(1, 2)) { randomSat(s, w.state.saturation()); Opm::initBlackoilSurfvol(*w.grid, *w.props, w.state); }
        const dvec pv = w.porevol(w.state.pressure());
        dvec ts; Opm::computeTransportSource(*w.props, w.wells(), w.wstate, ts);
        Opm::BlackoilState a = w.state, b = w.state;
        const bool grv = columns && s.chance(1, 2);
        auto go = [&](Opm::TransportSolverCompressibleTwophaseReorder& t, Opm::BlackoilState& st) {
            t.solve(&st.faceflux()[0], &st.pressure()[0], &pv0[0], &pv[0], &ts[0], dt, st.saturation(), st.surfacevol());
            if (grv) t.solveGravity(cols, dt, st.saturation(), st.surfacevol());
        };
        if (ts.size() != size_t(w.spec.base.nc)) ts.assign(w.spec.base.nc, 0.0);
        if (memFault(s)) { Opm::BlackoilState d = w.state; libcall(s, position(s), [&] { go(*reused, d); }); }
        Call ra = libcall(s, -1, [&] { go(*reused, a); });
        Call rb = libcall(s, -1, [&] { auto f = make(); go(*f, b); });
        s.event("comp transport %d dt=%g gravity=%d threw=%d", i, dt, grv, ra.threw);
        s.eventData("s", a.saturation().data(), a.saturation().size());
        s.state(mix64(mix64(w.spec.base.nc + 300, grv), ra.threw * 4 + i));
        if (ra.threw) s.cover("transport-gave-up");
        sameOutcome(s, ra, rb, "compressible transport", i);
        sameVec(s, a.saturation(), b.saturation(), "saturation", "compressible transport", i);
        sameVec(s, a.surfacevol(), b.surfacevol(), "surface volume", "compressible transport", i);
        if (i) s.nontrivial();
        if (!ra.threw) w.state = a;
    }
}

void tof(Sim& s) {
    WorldOpt o; o.maxcells = 30; o.rockcomp = false; o.smooth_relperm = true; o.cornerpoint = false; o.wells = false;
    World w(drawWorld(s, o));
    if (w.spec.nc == 1) throw Discard{"single cell"};
    const bool dg = s.chance(1, 2);
    const bool multidim = !dg && s.chance(1, 3);
    Opm::parameter::ParameterGroup p; p.disableOutput();
    if (dg) {
        p.insertParameter("dg_degree", s.chance(1, 2) ? "1" : "0");
        if (s.chance(1, 3)) p.insertParameter("use_tensorial_basis", "true");
        else if (s.chance(1, 2)) { p.insertParameter("use_limiter", "true"); p.insertParameter("dg_degree", "1");
            p.insertParameter("limiter_method", s.chance(1, 2) ? "MinUpwindFace" : "MinUpwindAverage");
            static const char* us[] = {"DuringComputations", "AsPostProcess", "AsSimultaneousPostProcess"}; p.insertParameter("limiter_usage", us[s.choose(3)]); }
        if (s.chance(1, 4)) p.insertParameter("use_cvi", "true");
    }
    std::unique_ptr<Opm::TofReorder> rt; std::unique_ptr<Opm::TofDiscGalReorder> rd;
    if (dg) rd.reset(new Opm::TofDiscGalReorder(*w.grid, p)); else rt.reset(new Opm::TofReorder(*w.grid, multidim));
    dvec pv; Opm::computePorevolume(*w.grid, w.props->porosity(), pv);
    dvec ta, tb, ra_, rb_;
    const int n = s.range(2, 5);
    for (int i = 0; i < n; ++i) {
        s.step();
        if (w.spec.has_bcs) { for (int b = 0; b < w.bcs->nbc; ++b) if (i && s.chance(1, 2)) w.bcs->value[b] += (w.bcs->type[b] == BC_PRESSURE ? 1e6 : w.spec.Q) * s.real(-1, 1);
            if (s.chance(2, 3)) w.src.assign(w.spec.nc, 0.0); }
        fluxes(s, w, i);
        if (w.spec.has_bcs && w.pressureFixed() && s.chance(1, 3)) { for (auto& f : w.state.faceflux()) f = -f; for (auto& q : w.src) q = -q; }   // flow reversed
        if (s.chance(1, 8)) w.src[0] += w.spec.Q;       // sources that do not balance are refused
        const bool tracer = !dg && s.chance(1, 3);
        tb.assign(s.choose(3), 7.0); rb_.clear();
        auto go = [&](Opm::TofReorder* t, Opm::TofDiscGalReorder* d, dvec& x, dvec& y) {
            const double* f = &w.state.faceflux()[0];
            if (d) d->solveTof(f, &pv[0], &w.src[0], x); else if (tracer) t->solveTofTracer(f, &pv[0], &w.src[0], x, y); else t->solveTof(f, &pv[0], &w.src[0], x);
        };
        if (memFault(s)) { dvec x, y; libcall(s, position(s), [&] { go(rt.get(), rd.get(), x, y); }); }
        Call ra = libcall(s, -1, [&] { go(rt.get(), rd.get(), ta, ra_); });
        Call rb = libcall(s, -1, [&] { if (dg) { Opm::TofDiscGalReorder d(*w.grid, p); go(nullptr, &d, tb, rb_); } else { Opm::TofReorder t(*w.grid, multidim); go(&t, nullptr, tb, rb_); } });
        s.event("tof %d dg=%d tracer=%d threw=%d", i, dg, tracer, ra.threw);
        s.state(mix64(mix64(w.spec.nc + 400, dg * 2 + tracer), ra.threw * 4 + i));
        sameOutcome(s, ra, rb, "time-of-flight", i);
        if (!ra.threw) { s.eventData("t", ta.data(), ta.size()); sameVec(s, ta, tb, "time of flight", "time-of-flight", i); if (tracer) sameVec(s, ra_, rb_, "tracer", "time-of-flight", i); }
        if (i) s.nontrivial();
    }
}

void run(Sim& s) {
    NoFault nf;
    mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000);
    switch (s.choose(6)) {
    case 0: s.cover("incompressible-pressure"); incompPressure(s); break;
    case 1: s.cover("compressible-pressure"); compPressure(s); break;
    case 2: s.cover("transport"); transport(s); break;
    case 3: s.cover("compressible-transport"); compTransport(s); break;
    default: s.cover("time-of-flight"); tof(s);
    }
}
Register reg("S06", run,
    "IncompTpfa, CompressibleTpfa, TransportSolverTwophaseReorder, TransportSolverCompressibleTwophaseReorder, TofReorder, TofDiscGalReorder and everything below them, UMFPACK",
    "linear-solver failure reports, memory allocator (injected failures and fresh-memory contents)");
}
