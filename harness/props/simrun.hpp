// Both simulators behind one face: worlds, instances, observed runs.
#pragma once
#include "props/compworld.hpp"
#include "props/libcall.hpp"
#include "props/timerdeck.hpp"

// std::cout of the library as an observation point and capture.
struct StreamWatch : CoutCapture::Buf {
    std::function<void()> on; std::streambuf* old = nullptr;
    int overflow(int c) override { if (on) on(); return CoutCapture::Buf::overflow(c); }
    std::streamsize xsputn(const char* p, std::streamsize n) override { if (on) on(); return CoutCapture::Buf::xsputn(p, n); }
    void start() { old = std::cout.rdbuf(this); }
    void stop() { if (old) std::cout.rdbuf(old); old = nullptr; }
    ~StreamWatch() { stop(); }
};

struct SimSpec {
    bool comp = false; WorldSpec w; CompSpec c;
    std::vector<std::pair<std::string, std::string>> params;
    int nsteps = 1; double dt = 86400; bool seg = false; int N = 1, interval = 1; bool vtk = false; int balance = 0;
    dvec steps; std::string date;              // explicit schedule, given through a deck
    const WorldSpec& base() const { return comp ? c.base : w; }
};
struct SimOpt { int maxcells = 24, maxsteps = 4; bool comp = true, incomp = true; bool implicit = false; int comp_num = 1, comp_den = 3; };

inline SimSpec drawSim(Sim& s, const SimOpt& o) {
    SimSpec p;
    p.comp = o.comp && (!o.incomp || s.chance(o.comp_num, o.comp_den));
    if (p.comp) { p.c = drawCompWorld(s, o.maxcells); p.dt = p.c.dt; }
    else { WorldOpt wo; wo.maxcells = o.maxcells; wo.smooth_relperm = true; wo.two_d = false; p.w = drawWorld(s, wo); p.dt = p.w.dt; }
    const WorldSpec& w = p.base();
    if (!p.comp && w.nc == 1) throw Discard{"single cell"};
    std::vector<WellSpec>& ws = p.comp ? p.c.base.wells : p.w.wells;
    if (ws.size() > 1 && s.chance(1, 3)) { std::reverse(ws.begin(), ws.end()); s.cover("producer-first"); }
    p.seg = w.kind != 2 && w.dim == 3 && w.grav && s.chance(1, 3);
    p.N = s.chance(1, 4) ? s.range(2, 3) : 1;
    p.nsteps = s.range(1, o.maxsteps);
    p.dt *= s.logreal(0.05, 3);
    auto add = [&](const char* a, const std::string& b) { p.params.push_back({a, b}); };
    add("nl_maxiter", "200"); add("nl_pressure_change_tolerance", "0.01"); add("nl_pressure_maxiter", "30");
    add("num_transport_substeps", std::to_string(p.N));
    if (p.seg) { add("use_segregation_split", "true"); s.cover("gravity-segregation"); }
    if (!p.comp) { p.balance = int(s.choose(w.nc)); }
    return p;
}

// One world with one simulator in it.
struct Instance {
    SimSpec sp; std::unique_ptr<World> w; std::unique_ptr<CompWorld> c; SimLinSolver ls;
    std::unique_ptr<Opm::SimulatorIncompTwophase> si; std::unique_ptr<Opm::SimulatorCompressibleTwophase> sc;
    Opm::SimulatorTimer timer;
    explicit Instance(const SimSpec& p) : sp(p) {
        if (sp.comp) c.reset(new CompWorld(sp.c)); else { w.reset(new World(sp.w)); w->balanceSource(sp.balance); }
        initTimer(timer);
    }
    void initTimer(Opm::SimulatorTimer& t, int upto = -1) const {      // the first upto steps of the schedule
        if (!sp.steps.empty()) { initFromDeck(t, dvec(sp.steps.begin(), upto < 0 ? sp.steps.end() : sp.steps.begin() + upto), sp.date); return; }
        Opm::parameter::ParameterGroup tp; tp.disableOutput();
        std::ostringstream a; a.precision(17); a << sp.dt / 86400;
        tp.insertParameter("num_psteps", std::to_string(upto < 0 ? sp.nsteps : upto)); tp.insertParameter("stepsize_days", a.str());
        t.init(tp);
    }
    void construct(const std::string& dir) {       // the simulator object; creates the output directory
        Opm::parameter::ParameterGroup p; p.disableOutput();
        for (auto& x : sp.params) p.insertParameter(x.first, x.second);
        if (dir.empty()) p.insertParameter("output", "false");
        else { p.insertParameter("output", "true"); p.insertParameter("output_dir", dir); p.insertParameter("output_vtk", sp.vtk ? "true" : "false"); p.insertParameter("output_interval", std::to_string(sp.interval)); }
        if (sp.comp) sc.reset(new Opm::SimulatorCompressibleTwophase(p, *c->grid, *c->props, c->rock.get(), *c->wm, c->src, nullptr, ls, c->g()));
        else si.reset(new Opm::SimulatorIncompTwophase(p, *w->grid, *w->props, w->rock.get(), *w->wm, w->src, w->bcs.get(), ls, w->g()));
    }
    Opm::SimulatorReport run(Opm::SimulatorTimer& t) { return sp.comp ? sc->run(t, c->state, c->wstate) : si->run(t, w->state, w->wstate); }
    Opm::SimulatorReport run() { return run(timer); }
    const UnstructuredGrid& grid() const { return sp.comp ? *c->grid : *w->grid; }
    dvec& sat() { return sp.comp ? c->state.saturation() : w->state.saturation(); }
    dvec& press() { return sp.comp ? c->state.pressure() : w->state.pressure(); }
    dvec& flux() { return sp.comp ? c->state.faceflux() : w->state.faceflux(); }
    dvec& fpress() { return sp.comp ? c->state.facepressure() : w->state.facepressure(); }
    dvec& surfvol() { static dvec none; return sp.comp ? c->state.surfacevol() : none; }
    Opm::WellState& wells() { return sp.comp ? c->wstate : w->wstate; }
    const Wells* cwells() { return sp.comp ? c->wells() : w->wells(); }
};

struct Snap {
    dvec sat, press, flux, fpress, surfvol, bhp, rates, pp;
    void take(Instance& i) { sat = i.sat(); press = i.press(); flux = i.flux(); fpress = i.fpress(); surfvol = i.surfvol(); bhp = i.wells().bhp(); rates = i.wells().perfRates(); pp = i.wells().perfPress(); }
    void put(Instance& i) const { i.sat() = sat; i.press() = press; i.flux() = flux; i.fpress() = fpress; if (i.sp.comp) i.surfvol() = surfvol; i.wells().bhp() = bhp; i.wells().perfRates() = rates; i.wells().perfPress() = pp; }
    // name of the first field that differs
    const char* differs(const Snap& o, long* at, double* a, double* b) const {
        const dvec* x[] = {&sat, &press, &flux, &fpress, &surfvol, &bhp, &rates, &pp}; const dvec* y[] = {&o.sat, &o.press, &o.flux, &o.fpress, &o.surfvol, &o.bhp, &o.rates, &o.pp};
        static const char* n[] = {"saturation", "pressure", "flux", "face pressure", "surface volume", "bottom-hole pressure", "well rate", "perforation pressure"};
        for (int i = 0; i < 8; ++i) { const long d = firstDiff(*x[i], *y[i]); if (d >= 0) { *at = d; *a = d < long(x[i]->size()) ? (*x[i])[d] : 0; *b = d < long(y[i]->size()) ? (*y[i])[d] : 0; return n[i]; } }
        return nullptr;
    }
};

// States at the beginning of every step, and at the end.
struct StepWatch {
    Instance& in; std::vector<Snap> snaps; StreamWatch out; Opm::SimulatorTimer* t;
    explicit StepWatch(Instance& i, Opm::SimulatorTimer* timer = nullptr) : in(i), t(timer ? timer : &i.timer) { first = t->currentStepNum(); out.on = [this] { look(); }; in.ls.before = [this] { look(); }; out.start(); }
    ~StepWatch() { out.stop(); in.ls.before = nullptr; }
    int first;
    void look() { NoFault nf; const int k = t->currentStepNum() - first; while (int(snaps.size()) <= k && k < t->numSteps() - first) { Snap n; n.take(in); snaps.push_back(n); } }
    void end() { NoFault nf; out.stop(); in.ls.before = nullptr; Snap n; n.take(in); snaps.push_back(n); }
};
