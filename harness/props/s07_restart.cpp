// S07: a run cut at step boundaries, or interrupted in the middle of a step, and continued from what was stored.
#include "props/simrun.hpp"

namespace {
typedef std::map<std::string, std::string> Files;
Files slurp(const std::string& dir) { Files f; for (auto& n : listTree(dir)) f[n] = readFile(dir + "/" + n); return f; }
int stepOf(const std::string& n) { const size_t e = n.rfind('.'); size_t b = e; while (b > 0 && isdigit((unsigned char)n[b - 1])) --b; return b < e ? atoi(n.c_str() + b) : -1; }
bool perStep(const std::string& n) { return n.find('/') != std::string::npos && n.compare(0, 10, "reorder_it") != 0; }
std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; std::istringstream is(t); std::string l; while (std::getline(is, l)) v.push_back(l); return v; }
void world(Sim& s) { mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000); clk = ClockSeam(); clk.on = true; clk.utc_us = 1300000000000000LL + int64_t(s.choose(1000)) * 86400000000LL; clk.tick_max = int64_t(s.choose(1000)); }

void run(Sim& s) {
    NoFault nf;
    SimOpt o; o.maxcells = 20; o.maxsteps = 6; o.comp_num = 2; o.comp_den = 5;
    SimSpec sp = drawSim(s, o);
    if (sp.nsteps < 2) sp.nsteps = 2;
    if (s.chance(1, 2)) { sp.steps = dvec(size_t(sp.nsteps), sp.dt); for (double& x : sp.steps) x *= s.real(0.2, 1.6); drawDate(s, &sp.date); s.cover("varying-step-lengths"); }
    sp.vtk = sp.base().dim == 3 && s.chance(1, 3);
    const std::string A = scratchRoot() + "/a", B = scratchRoot() + "/b";
    removeTree(A); removeTree(B);
    const int n = sp.nsteps;
    std::vector<Snap> ref; std::vector<double> times; Files fa;
    world(s);
    {
        Instance in(sp);
        diskReset(A); disk.on = true; Call c;
        { StepWatch w(in); c = libcall(s, -1, [&] { in.construct(A); in.run(); }); w.end(); ref = w.snaps; }
        disk.on = false;
        if (c.threw) throw Discard{"the undisturbed run fails"};
        s.require(int(ref.size()) == n + 1, "steps", "%zu states seen in a run of %d steps", ref.size(), n);
        s.require(in.timer.done() && in.timer.currentStepNum() == n, "timer", "the timer stands at step %d after a run of %d", in.timer.currentStepNum(), n);
        fa = slurp(A); s.step();
    }
    for (auto& q : ref) s.eventData("s", q.sat.data(), q.sat.size());
    sp.interval = s.chance(1, 3) ? s.range(2, 3) : 1;
    int at = 0; std::set<int> expectSteps; int crashes = 0, segs = 0; Snap durable = ref[0]; std::unique_ptr<Instance> kept; bool constructed = false, keptOut = false;
    while (at < n) {
        const int to = s.chance(1, 5) ? n : s.range(at + 1, n);
        const bool crash = s.faults_enabled && crashes < 4 && s.chance(1, 2);
        world(s);
        // a new process, or the same simulator object going on
        const bool again = kept && s.chance(1, 3);
        if (!again) { kept.reset(new Instance(sp)); constructed = false; } else s.cover("same-object");
        Instance& in = *kept; in.ls.plan.clear(); in.ls.calls = 0;
        if (at > 0 || again || s.chance(1, 2)) durable.put(in);
        Opm::SimulatorTimer timer; in.initTimer(timer, to);
        if (at > 0) timer.setCurrentStepNum(at);
        const bool wout = again && constructed ? keptOut : !crash || s.chance(1, 2);
        // the interruption
        long mfail = -1; int lin = -1; 
        diskReset(B);
        if (crash) {
            const int kind = int(s.choose(3));
            if (kind == 0) { lin = s.range(0, 6); }
            else if (kind == 1) mfail = long(s.choose(60)) * long(s.choose(60));
            else { static const int errs[] = {EIO, ENOSPC}; disk.plan[long(s.choose(20)) * s.range(1, 5)] = {DiskSeam::Err, errs[s.choose(2)], s.chance(1, 2)}; }
            if (lin >= 0) in.ls.plan[lin] = SimLinSolver::Throw;
        }
        disk.on = true; Call c; std::vector<Snap> got; int reached = at;
        { StepWatch w(in, &timer); c = libcall(s, mfail, [&] { if (!constructed) { in.construct(wout ? B : std::string()); constructed = true; keptOut = wout; } in.run(timer); }); reached = timer.currentStepNum(); if (!c.threw) w.end(); got = w.snaps; }
        disk.on = false; ++segs;
        const bool interrupted = c.threw;
        s.event("steps %d to %d: %s at %d", at, to, interrupted ? "interrupted" : "complete", reached);
        s.step();
        if (interrupted) { s.require(crash, "refused", "continuing at step %d of %d fails: %s", at, n, c.what.c_str()); ++crashes; s.fault("interrupted-run"); s.nontrivial(); }
        // states at the boundaries passed
        for (size_t k = 0; k < got.size() && at + int(k) <= n; ++k) {
            long i; double a, b; const char* d = got[k].differs(ref[size_t(at) + k], &i, &a, &b);
            s.require(!d, "differs", "%s[%ld] at step %zu is %.17g in the run continued from step %d and %.17g in the uninterrupted one", d ? d : "", i, at + k, a, at, b);
        }
        if (!interrupted) {
            s.require(int(got.size()) == to - at + 1, "steps", "%zu states seen from step %d to %d", got.size(), at, to);
            s.require(timer.done() && reached == to, "timer", "the timer stands at step %d instead of %d", reached, to);
            if (wout) {
                for (int k = at; k < to; ++k) if (k % sp.interval == 0) expectSteps.insert(k);
                expectSteps.insert(to);
                // curves of the part: its own steps, with the times of the whole run
                for (const char* f : {"wellreport.txt", "watercut.txt"}) {
                    if (!fa.count(f)) continue;
                    const auto la = lines(fa.at(f)), lb = lines(readFile(B + "/" + f));
                    s.require(int(lb.size()) == to - at + 1, "report", "%s has %zu lines for steps %d to %d", f, lb.size(), at, to);
                    for (int k = 0; k <= to - at; ++k) {
                        std::string x = la[size_t(at + k)], y = lb[size_t(k)];
                        if (f[1] == 'a') { x = std::to_string(strtod(x.c_str(), 0)); y = std::to_string(strtod(y.c_str(), 0)); }
                        s.require(x == y, "report", "%s of the run continued at step %d says for step %d: %s instead of %s", f, at, at + k, y.c_str(), x.c_str());
                    }
                }
            }
            if (to < n || at > 0) s.nontrivial();
            durable.take(in); at = to;
        } else {
            // what a driver stored at the last boundary it looked at survives
            const int keep = got.empty() ? 0 : int(s.choose(got.size()));
            if (!got.empty()) { if (wout) for (int k = at; k < at + keep; ++k) if (k % sp.interval == 0) expectSteps.insert(k); durable = got[size_t(keep)]; at += keep; }
            if (wout) expectSteps.erase(expectSteps.lower_bound(at), expectSteps.end());      // the next part writes them again
        }
        s.state(mix64(uint64_t(at), uint64_t(interrupted)));
    }
    for (int k = 1; k <= n; ++k) s.simTime(sp.steps.empty() ? sp.dt : sp.steps[size_t(k - 1)]);
    s.cover(segs > 1 ? "several-parts" : "one-part");
    // the directory: every step that was to be written, with the contents of the uninterrupted run
    const Files fb = slurp(B);
    for (auto& f : fa) if (perStep(f.first) && expectSteps.count(stepOf(f.first))) {
        auto it = fb.find(f.first);
        s.require(it != fb.end(), "missing-file", "%s was not written by the continued runs", f.first.c_str());
        s.require(it->second == f.second, "file-differs", "%s differs between the continued and the uninterrupted run", f.first.c_str());
    }
    for (auto& f : fb) if (perStep(f.first)) {
        s.require(fa.count(f.first) > 0, "stray-file", "%s was written by the continued runs only", f.first.c_str());
        // files of interrupted steps may have been left unfinished when the disk or memory failed; all others are right
    }
    removeTree(A); removeTree(B);
}
Register reg("S07", run, "SimulatorIncompTwophase, SimulatorCompressibleTwophase with all their solvers and output code, SimulatorTimer, TSTEP of EclipseGridParser", "linear solver front end (real UMFPACK behind it), disk below the system-call wrappers, clock, memory allocator");
}
