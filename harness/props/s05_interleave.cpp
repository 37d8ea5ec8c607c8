// S05: several jobs of one process, interleaved; the model is each job alone in a process of its own.
#include "props/simrun.hpp"
#include "core/fiber.hpp"
#include <opm/core/io/vtk/writeVtkData.hpp>
#include <opm/core/tof/TofReorder.hpp>
#include <opm/core/tof/TofDiscGalReorder.hpp>
#include <opm/core/utility/miscUtilitiesBlackoil.hpp>
#include <sys/wait.h>
#include <unistd.h>

namespace {
typedef std::map<std::string, std::string> Result;
// ---- turns
long budget = -1;            // yields of the running job until the next one gets its turn; negative: no scheduler
long yields = 0;
void turn() { if (budget < 0 || Fibers::current() < 0) return; ++yields; if (budget-- == 0) { budget = 0; Fibers::yield(); } }
struct YieldBuf : std::stringbuf { int n = 0; int overflow(int c) override { turn(); return std::stringbuf::overflow(c); } std::streamsize xsputn(const char* p, std::streamsize k) override { if (n++ % 4 == 0) turn(); return std::stringbuf::xsputn(p, k); } };

struct Job {
    int kind; SimSpec sp; int fill[2]; uint64_t fillSeed[2];
    int lin = -1, linKind = 0; long mfail = -1; std::map<long, DiskSeam::F> plan; int chunk = 0;
    std::vector<double> data; ivec dims; std::string text; int ops = 0;
};
std::string raw(const dvec& v) { return std::string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(double)); }
void put(Result& r, const Snap& q, const std::string& at) {
    r[at + "saturation"] = raw(q.sat); r[at + "pressure"] = raw(q.press); r[at + "flux"] = raw(q.flux); r[at + "face pressure"] = raw(q.fpress); r[at + "surface volume"] = raw(q.surfvol); r[at + "bhp"] = raw(q.bhp); r[at + "well rate"] = raw(q.rates); r[at + "perforation pressure"] = raw(q.pp);
}
void files(Result& r, const std::string& dir) { for (auto& n : listTree(dir)) r["file " + n] = readFile(dir + "/" + n); }
void failure(Result& r, const std::string& what, const Call& c) { if (c.threw) r[what] = "failed"; if (c.failed) r["allocation"] = std::to_string(c.failed); }

// ---- jobs
void simJob(Sim& s, const Job& j, const std::string& dir, Result& r) {
    std::unique_ptr<Instance> in(new Instance(j.sp)); turn();
    if (j.lin >= 0) in->ls.plan[j.lin] = j.linKind;
    in->ls.before = [] { turn(); }; if (in->w) in->w->props->onRelperm = turn;
    diskReset(dir); disk.plan = j.plan; disk.max_chunk = j.chunk; disk.keep_log = false; disk.on = true;
    Call c = libcall(s, j.mfail, [&] { in->construct(dir); turn(); in->run(); });
    disk.on = false; failure(r, "run", c);
    Snap q; q.take(*in); put(r, q, "final "); r["step"] = std::to_string(in->timer.currentStepNum());
    turn(); in.reset();
    files(r, dir);
}
void vtkJob(Sim& s, const Job& j, const std::string& dir, Result& r) {
    WorldSpec w = j.sp.base(); GridPtr g = makeGrid(w); turn();
    for (int i = 0; i < j.ops; ++i) {
        YieldBuf b; std::ostream os(&b); Opm::DataMap dm; dm["pressure"] = &j.data;
        Call c = libcall(s, i == 0 ? j.mfail : -1, [&] {
            if (i % 2 == 0 && w.dim == 3) Opm::writeVtkData(*g, dm, os);
            else { const std::tr1::array<int, 3> d = {{j.dims[0], j.dims[1], j.dims[2]}}; const std::tr1::array<double, 3> h = {{1, 2, 3}}; std::vector<double> f(size_t(d[0] * d[1] * d[2]), 1.25); Opm::DataMap d2; d2["f"] = &f; Opm::writeVtkData(d, h, d2, os); } });
        failure(r, "vtk " + std::to_string(i), c); if (!c.threw) r["text " + std::to_string(i)] = b.str();
        turn();
    }
    (void)dir;
}
void paramJob(Sim& s, const Job& j, const std::string& dir, Result& r) {
    makeDirs(dir); writeFile(dir + "/in.param", j.text);
    diskReset(dir); disk.plan = j.plan; disk.max_chunk = j.chunk; disk.keep_log = false; disk.on = true;
    Opm::parameter::ParameterGroup* p = nullptr;
    Call c = libcall(s, -1, [&] {
        p = new Opm::parameter::ParameterGroup(); turn(); p->readParam(dir + "/in.param"); turn();
        const double a = p->getDefault("a/x", 1.5); turn(); const int n = p->getDefault<int>("n", 3); turn(); p->insertParameter("sum", std::to_string(a + n)); p->writeParam(dir + "/out.param"); turn(); });
    failure(r, "param", c); 
    Call d = libcall(s, -1, [&] { if (p) { turn(); p->writeParam(dir + "/again.param"); } delete p; });
    failure(r, "again", d);
    disk.on = false; files(r, dir);
}
void deckJob(Sim& s, const Job& j, const std::string& dir, Result& r) {
    makeDirs(dir); writeFile(dir + "/deck.data", j.text);
    diskReset(dir); disk.plan = j.plan; disk.max_chunk = j.chunk; disk.keep_log = false; disk.on = true;
    std::unique_ptr<Opm::EclipseGridParser> d;
    Call c = libcall(s, -1, [&] { d.reset(new Opm::EclipseGridParser(dir + "/deck.data")); });
    disk.on = false; failure(r, "deck", c); turn();
    if (d) {
        std::ostringstream o; o.precision(17); bool ok = !c.threw;
        if (ok) libcall(s, -1, [&] {
            for (int e = 0; e < d->numberOfEpochs(); ++e) {
                d->setCurrentEpoch(e); turn();
                if (d->hasField("PORO")) { const dvec& v = d->getFloatingPointValue("PORO"); for (double x : v) o << x << ' '; }
                if (d->hasField("PERMX")) { const dvec& v = d->getFloatingPointValue("PERMX"); for (double x : v) o << x << ' '; }
                if (d->hasField("ACTNUM")) { const ivec& v = d->getIntegerValue("ACTNUM"); for (int x : v) o << x << ' '; }
                if (d->hasField("TSTEP")) for (double x : d->getTSTEP().tstep_) o << x << ' ';
                if (d->hasField("START")) o << d->getStartDate();
                for (auto& f : d->fieldNames()) o << f << ' ';
            }
        });
        r["contents"] = o.str();
    }
    files(r, dir);
}
// pressure, transport and time of flight on objects that live across turns
void solverJob(Sim& s, const Job& j, const std::string& dir, Result& r) {
    (void)dir;
    World w(j.sp.w); w.balanceSource(j.sp.balance);
    SimLinSolver ls; ls.before = [] { turn(); }; w.props->onRelperm = turn; if (j.lin >= 0) ls.plan[j.lin] = j.linKind;
    std::unique_ptr<Opm::IncompTpfa> ps; std::unique_ptr<Opm::TransportSolverTwophaseReorder> ts; std::unique_ptr<Opm::TofReorder> tr; std::unique_ptr<Opm::TofDiscGalReorder> td;
    const double grav[3] = {0, 0, 9.80665}; dvec pv; Opm::computePorevolume(*w.grid, w.props->porosity(), pv);
    const bool cols = j.sp.seg; Opm::parameter::ParameterGroup p; p.disableOutput();
    Call c = libcall(s, -1, [&] {
        ps.reset(w.rockActive() ? new Opm::IncompTpfa(*w.grid, *w.props, w.rock.get(), ls, 0.0, 1e-2, 20, w.g(), w.wells(), w.src, w.bcs.get()) : new Opm::IncompTpfa(*w.grid, *w.props, ls, w.g(), w.wells(), w.src, w.bcs.get())); turn();
        ts.reset(new Opm::TransportSolverTwophaseReorder(*w.grid, *w.props, cols ? grav : nullptr, 1e-9, 100)); turn();
        tr.reset(new Opm::TofReorder(*w.grid, j.ops % 2)); turn();
        td.reset(new Opm::TofDiscGalReorder(*w.grid, p)); turn(); });
    failure(r, "construction", c);
    for (int i = 0; i < j.ops && !c.threw; ++i) {
        const std::string at = "call " + std::to_string(i) + " ";
        const double dt = j.sp.dt * (1 + i);
        Call a = libcall(s, -1, [&] { ps->solve(dt, w.state, w.wstate); }); failure(r, at + "pressure", a); turn();
        dvec src; Opm::computeTransportSource(*w.grid, w.src, w.state.faceflux(), 1.0, w.wells(), w.wstate.perfRates(), src);
        Call b = libcall(s, -1, [&] { ts->solve(&pv[0], &src[0], dt, w.state); }); failure(r, at + "transport", b); turn();
        if (!b.threw) { std::string o; for (int x : ts->getReorderIterations()) o += std::to_string(x) + " "; r[at + "iterations"] = o; }
        if (cols) { Call g = libcall(s, -1, [&] { ts->solveGravity(&pv[0], dt, w.state); }); failure(r, at + "gravity", g); turn(); }
        dvec t, tt, tc; Call d = libcall(s, -1, [&] { if (i % 2) tr->solveTofTracer(&w.state.faceflux()[0], &pv[0], &src[0], t, tc); else tr->solveTof(&w.state.faceflux()[0], &pv[0], &src[0], t); }); failure(r, at + "tof", d); turn();
        Call e = libcall(s, -1, [&] { td->solveTof(&w.state.faceflux()[0], &pv[0], &src[0], tt); }); failure(r, at + "dg", e); turn();
        if (!d.threw) { r[at + "tof"] = raw(t); r[at + "tracer"] = raw(tc); } if (!e.threw) r[at + "dg"] = raw(tt);
        r[at + "saturation"] = raw(w.state.saturation()); r[at + "pressure"] = raw(w.state.pressure()); r[at + "flux"] = raw(w.state.faceflux()); r[at + "bhp"] = raw(w.wstate.bhp());
    }
}
void execute(Sim& s, const Job& j, int which, const std::string& dir, Result& r) {
    mem.fill = j.fill[which]; mem.fill_state = j.fillSeed[which]; mem.suspend = 0;
    switch (j.kind) { case 0: simJob(s, j, dir, r); break; case 1: vtkJob(s, j, dir, r); break; case 2: paramJob(s, j, dir, r); break; case 3: deckJob(s, j, dir, r); break; default: solverJob(s, j, dir, r); }
}
const char* kindName[] = {"simulation", "vtk-writer", "parameter-files", "deck-reader", "solvers"};

// ---- drawing
std::string paramText(Sim& s) { std::ostringstream o; const int n = s.range(1, 12); static const char* nm[] = {"a/x", "n", "a/b/c", "name", "z", "a/y"}; for (int i = 0; i < n; ++i) { if (s.chance(1, 6)) o << "# remark\n"; const char* k = nm[s.choose(6)]; o << k << "=" << (k[0] == 'n' && !k[1] ? std::to_string(s.range(0, 99)) : std::to_string(s.real(0, 9))) << "\n"; } return o.str(); }
std::string deckText(Sim& s) {
    std::ostringstream o; const int n = s.range(1, 5) * s.range(1, 4); std::string date; drawDate(s, &date);
    o << "RUNSPEC\nOIL\nWATER\n" << (s.chance(1, 2) ? "METRIC" : "FIELD") << "\nDIMENS\n " << n << " 1 1 /\nSTART\n " << date << " /\nGRID\nPORO\n";
    for (int i = 0; i < n; ++i) o << " " << s.real(0.1, 0.4); o << " /\n";
    if (s.chance(1, 2)) { o << "PERMX\n " << n << "*" << s.range(1, 500) << " /\n"; }
    if (s.chance(1, 2)) { o << "ACTNUM\n " << n << "*1 /\n"; }
    if (s.chance(1, 3)) o << "NOSUCHKW\n 1 2 3 /\n";
    o << "SCHEDULE\n"; const int e = s.range(1, 3);
    for (int i = 0; i < e; ++i) { if (s.chance(1, 3)) o << "WELSPECS\n 'W" << i << "' 'G' 1 1 1* OIL /\n/\n"; o << "TSTEP\n "; for (int k = s.range(1, 4); k > 0; --k) o << s.real(1, 50) << " "; o << "/\n"; }
    if (s.chance(1, 10)) o << "PORO\n 0.1 x /\n";
    o << "END\n"; return o.str();
}
Job drawJob(Sim& s) {
    Job j; const int k = int(s.choose(8)); j.kind = k < 3 ? 0 : k - 3;
    if (j.kind == 0) {
        SimOpt o; o.maxcells = 16; o.maxsteps = 3; o.comp_num = 2; o.comp_den = 5; j.sp = drawSim(s, o); j.sp.vtk = j.sp.base().dim == 3 && s.chance(1, 2);
        if (s.chance(1, 3)) { j.sp.steps = dvec(size_t(j.sp.nsteps), j.sp.dt); for (double& x : j.sp.steps) x *= s.real(0.3, 1.5); drawDate(s, &j.sp.date); }
    } else if (j.kind == 1 || j.kind == 4) {
        WorldOpt o; o.maxcells = 16; o.smooth_relperm = true; o.two_d = false; if (j.kind == 4) o.cornerpoint = false; j.sp.w = drawWorld(s, o); j.sp.dt = j.sp.w.dt; j.sp.balance = int(s.choose(j.sp.w.nc));
        if (j.kind == 4 && j.sp.w.nc == 1) throw Discard{"single cell"};
        j.sp.seg = j.sp.w.kind != 2 && j.sp.w.dim == 3 && s.chance(1, 2); j.ops = s.range(1, 4);
        j.data.resize(size_t(j.sp.w.nc)); for (double& x : j.data) x = s.real(-1, 1); for (int i = 0; i < 3; ++i) j.dims.push_back(s.range(1, 4));
    } else if (j.kind == 2) j.text = paramText(s);
    else j.text = deckText(s);
    for (int i = 0; i < 2; ++i) { j.fill[i] = int(s.choose(5)); j.fillSeed[i] = 1 + s.choose(1000); }
    if (s.chance(1, 4)) j.chunk = s.range(1, 200);
    if (s.faults_enabled && s.chance(1, 3)) {
        const int f = int(s.choose(3));
        if (f == 0) { j.lin = s.range(0, 5); j.linKind = 1 + int(s.choose(SimLinSolver::Throw)); }
        else if (f == 1) { static const int e[] = {EIO, ENOSPC}; j.plan[long(s.choose(20)) * s.range(1, 5)] = {DiskSeam::Err, e[s.choose(2)], s.chance(1, 2)}; }
        else j.mfail = long(s.choose(60)) * long(s.choose(60));
    }
    return j;
}

// The same job with other numbers: what is shared between runs of equal shape shows.
void vary(Sim& s, Job& j) {
    WorldSpec& w = j.kind == 0 && j.sp.comp ? j.sp.c.base : j.sp.w; const double a = s.real(0.8, 1.25), b = s.real(0.8, 1.25), c = s.real(0.8, 1.25);
    for (double& x : w.p0) x *= a; for (double& x : w.src) x *= b; for (double& x : w.perm) x *= c; j.sp.dt *= s.real(0.7, 1.2); for (double& x : j.sp.steps) x *= s.real(0.7, 1.2);
    for (size_t i = 0; i + 1 < w.s0.size(); i += 2) if (s.chance(1, 2)) std::swap(w.s0[i], w.s0[i + 1]);
    for (double& x : j.data) x *= a;
    s.cover("same-shape");
}

// ---- one process per experiment
std::string pack(const std::vector<Result>& v, long y) { std::string o; auto num = [&](uint64_t x) { o.append(reinterpret_cast<const char*>(&x), 8); }; num(uint64_t(y)); num(v.size()); for (auto& r : v) { num(r.size()); for (auto& e : r) { num(e.first.size()); o += e.first; num(e.second.size()); o += e.second; } } return o; }
std::vector<Result> unpack(const std::string& t, long* y) { size_t i = 0; auto num = [&]() { uint64_t x; memcpy(&x, t.data() + i, 8); i += 8; return x; }; *y = long(num()); std::vector<Result> v(num()); for (auto& r : v) for (uint64_t n = num(); n; --n) { const uint64_t a = num(); std::string k = t.substr(i, a); i += a; const uint64_t b = num(); r[k] = t.substr(i, b); i += b; } return v; }
extern "C" void onHangS05(int) { const char m[] = "HANG: no progress within the CPU budget of one simulated run\n"; realWrite(2, m, sizeof m - 1); _exit(77); }
template <class F> std::vector<Result> inProcess(Sim& s, const std::string& tag, long* y, F f) {
    const std::string out = scratchRoot() + "/" + tag + ".out";
    unlink(out.c_str());
    const pid_t pid = fork();
    if (pid == 0) {
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_PROF, &it, nullptr);
        std::vector<Result> v; int rc = 0; yields = 0;
        try { v = f(); } catch (const Violation& e) { v.clear(); v.push_back({{"violation", e.detail}}); } catch (const std::exception& e) { v.clear(); v.push_back({{"violation", std::string("escaped: ") + e.what()}}); } catch (const Discard& d) { v.clear(); v.push_back({{"discard", d.why}}); }
        disk.on = false; mem.on = false;
        if (!writeFile(out, pack(v, yields))) rc = 5;
        _exit(rc);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { removeTree(scratchRoot()); _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); }    // the report is on stderr
    std::vector<Result> v = unpack(readFile(out), y);
    unlink(out.c_str());
    if (v.size() == 1 && v[0].count("violation")) s.require(false, "unexpected-exception", "%s: %s", tag.c_str(), v[0]["violation"].c_str());
    if (v.size() == 1 && v[0].count("discard")) throw Discard{v[0]["discard"]};
    return v;
}

void run(Sim& s) {
    NoFault nf;
    const int n = s.range(2, 4);
    clk = ClockSeam(); clk.on = true; clk.utc_us = 1300000000000000LL;       // time stands still: run times are not compared
    std::vector<Job> jobs;
    for (int i = 0; i < n; ++i) {
        if (i && s.chance(1, 2)) { Job j = jobs[s.choose(jobs.size())]; if (s.chance(2, 3)) vary(s, j); for (int k = 0; k < 2; ++k) { j.fill[k] = int(s.choose(5)); j.fillSeed[k] = 1 + s.choose(1000); } if (s.chance(1, 2)) { j.lin = -1; j.mfail = -1; j.plan.clear(); } jobs.push_back(j); s.cover("same-job-twice"); }
        else jobs.push_back(drawJob(s));
        s.cover(kindName[jobs.back().kind]);
    }
    // who runs, and for how many of its turns
    const int style = int(s.choose(4));
    std::vector<std::pair<int, long>> sched;
    if (style == 0) { s.cover("one-after-the-other"); for (int i = 0; i < n; ++i) sched.push_back({int(s.choose(n)), 1L << 40}); }
    else { const int m = style == 1 ? 10 : 60; for (int i = 0; i < m; ++i) sched.push_back({int(s.choose(n)), style == 3 ? long(s.choose(3)) : long(s.choose(4)) * long(s.choose(12)) * long(s.choose(6))}); }
    const long tail = style == 0 ? 1L << 40 : long(s.choose(30));
    std::vector<Result> solo;
    for (int i = 0; i < n; ++i) {
        long y; const std::string tag = "solo" + std::to_string(i);
        solo.push_back(inProcess(s, tag, &y, [&] { const std::string d = scratchRoot() + "/" + tag; removeTree(d); std::vector<Result> v(1); StreamWatch q; q.start(); execute(s, jobs[i], 0, d, v[0]); q.stop(); removeTree(d); return v; })[0]);
        s.event("%s alone: %zu results", kindName[jobs[i].kind], solo[i].size());
        for (auto& e : solo[i]) { uint64_t h = 77; for (char c : e.second) h = h * 1099511628211ull + (unsigned char)c; s.event(" %s %016llx", e.first.c_str(), (unsigned long long)h); }
        s.step();
    }
    long y = 0;
    const std::vector<Result> mix = inProcess(s, "mixed", &y, [&] {
        std::vector<Result> v(n); Fibers fb; StreamWatch q; q.on = [] { turn(); }; q.start(); diskHook = turn;
        for (int i = 0; i < n; ++i) fb.spawn([&, i] { const std::string d = scratchRoot() + "/mixed" + std::to_string(i); removeTree(d); execute(s, jobs[i], 1, d, v[i]); removeTree(d); });
        auto resume = [&](int i, long b) { if (fb.done(i)) return; budget = b; fb.resume(i); };
        for (auto& x : sched) resume(x.first, x.second);
        for (bool left = true; left;) { left = false; for (int i = 0; i < n; ++i) if (!fb.done(i)) { left = true; resume(i, tail); } }
        budget = -1; q.stop(); diskHook = nullptr;
        for (int i = 0; i < n; ++i) fb.rethrow(i);
        return v; });
    s.event("interleaved: %ld points", y);
    uint64_t h = uint64_t(n); for (auto& x : sched) h = mix64(h, uint64_t(x.first) * 1000003 + uint64_t(x.second)); s.state(h);
    for (int i = 0; i < n; ++i) {
        const Job& j = jobs[i]; s.step();
        if (j.kind == 0) s.simTime(j.sp.dt * j.sp.nsteps);
        if (j.lin >= 0 && j.linKind && j.kind % 4 == 0) s.fault("linear-solver-plan"); if (!j.plan.empty()) s.fault("disk-plan");
        if (solo[i].count("allocation") || mix[i].count("allocation")) { s.fault("allocation-failure"); continue; }     // where it strikes may depend on what is allocated once per process
        for (auto& e : solo[i]) {
            auto it = mix[i].find(e.first);
            s.require(it != mix[i].end(), "differs", "%s %d has no %s when interleaved with %d others", kindName[j.kind], i, e.first.c_str(), n - 1);
            s.require(it->second == e.second, "differs", "%s of %s %d is not what the job gives alone", e.first.c_str(), kindName[j.kind], i);
        }
        for (auto& e : mix[i]) s.require(solo[i].count(e.first) > 0, "differs", "%s %d gives %s only when interleaved with %d others", kindName[j.kind], i, e.first.c_str(), n - 1);
    }
    if (y > 20) s.nontrivial();
}
Register reg("S05", run, "both simulators with their solvers and output code, IncompTpfa, TransportSolverTwophaseReorder, TofReorder, TofDiscGalReorder, writeVtkData, ParameterGroup, EclipseGridParser", "linear solver front end (real UMFPACK behind it), disk below the system-call wrappers, memory allocator");
}
