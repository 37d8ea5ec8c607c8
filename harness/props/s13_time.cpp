// S13: stop watches and simulation timers under any clock and operation history.
#include "props/simrun.hpp"
#include <opm/core/utility/StopWatch.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>

namespace {
// ---- stop watches: every reading is the time that passed
void watches(Sim& s) {
    struct Model { Opm::time::StopWatch w; int st = 0; int64_t start = 0, last = 0, stop = 0; };
    std::vector<std::unique_ptr<Model>> ws; const int nw = s.range(1, 3);
    for (int i = 0; i < nw; ++i) ws.emplace_back(new Model);
    clk = ClockSeam(); clk.on = true;
    clk.utc_us = 1000000000000000LL + int64_t(s.choose(1 << 20)) * 1000003LL;
    const int64_t t0 = clk.utc_us;
    static const int zones[] = {0, 3600, 7200, -18000, 20700, -34200};
    clk.zone_before = zones[s.choose(6)]; clk.zone_after = clk.zone_before;
    if (s.faults_enabled && s.chance(3, 4)) { clk.zone_at_us = t0 + int64_t(s.choose(1000)) * int64_t(s.choose(20000000)); clk.zone_after = clk.zone_before + (s.chance(1, 2) ? 3600 : -3600) * (s.chance(1, 6) ? 3 : 1); }
    const int n = s.range(2, 30); bool crossed = false;
    for (int i = 0; i < n; ++i) {
        Model& m = *ws[s.choose(ws.size())];
        const int64_t b4 = clk.utc_us;
        const int sc = int(s.choose(4));
        clk.advance(sc == 0 ? 0 : sc == 1 ? int64_t(s.choose(1000)) : sc == 2 ? int64_t(s.choose(3000)) * 1009 : int64_t(s.choose(1000)) * 11111111LL);
        if (b4 < clk.zone_at_us && clk.utc_us >= clk.zone_at_us && clk.zone_after != clk.zone_before) { if (!crossed) s.fault("clock:zone-change"); crossed = true; }
        const int64_t now = clk.utc_us;
        const int op = int(s.choose(4)); double got = 0; bool threw = false;
        try { if (op == 0) m.w.start(); else if (op == 1) m.w.stop(); else if (op == 2) got = m.w.secsSinceLast(); else got = m.w.secsSinceStart(); } catch (const std::exception&) { threw = true; }
        static const char* nm[] = {"start", "stop", "secsSinceLast", "secsSinceStart"};
        s.event("watch op %s at %+.6f: %.9g%s", nm[op], (now - t0) / 1e6, got, threw ? " threw" : ""); s.step();
        const bool bad = op == 1 ? m.st != 1 : op >= 2 && m.st == 0;
        s.require(threw == bad, "refusal", "%s on a watch in state %d %s", nm[op], m.st, threw ? "was refused" : "was accepted");
        if (bad) { s.cover("refused-watch-operation"); continue; }
        const int64_t run = m.st == 1 ? now : m.stop;
        if (op == 0) { m.start = m.last = now; m.st = 1; }
        else if (op == 1) { m.stop = now; m.st = 2; }
        else {
            const double want = double(run - (op == 2 ? m.last : m.start)) / 1e6;
            if (op == 2) m.last = run;
            s.require(std::fabs(got - want) < 2e-6, "duration", "%s reports %.6f s after %.6f s%s", nm[op], got, want, crossed ? " (the local time zone changed in between)" : "");
            if (crossed) { s.cover("zone-change-inside-measurement"); s.nontrivial(); }
        }
        s.state(mix64(m.st, uint64_t(crossed) * 8 + op));
    }
    s.simTime((clk.utc_us - t0) / 1e6);
    if (!s.faults_enabled) s.nontrivial();
}

// ---- simulation timers
void timers(Sim& s) {
    NoFault nf;
    clk = ClockSeam(); clk.on = true; clk.utc_us = 1350000000000000LL;
    struct Model { Opm::SimulatorTimer t; dvec steps; int k = 0; double total = 0; bool init = false; boost::gregorian::date start = boost::gregorian::date(2012, 1, 1); };
    std::vector<std::unique_ptr<Model>> ts; const int nt = s.range(1, 2);
    for (int i = 0; i < nt; ++i) ts.emplace_back(new Model);
    const int n = s.range(4, 50);
    auto timeAt = [](const Model& m, int k) { long double t = 0; for (int i = 0; i < k; ++i) t += m.steps[size_t(i)]; return t; };
    auto check = [&](Model& m, const char* after) {
        if (!m.init) return;
        const int N = int(m.steps.size());
        s.require(m.t.numSteps() == N, "steps", "after %s: %d steps instead of %d", after, m.t.numSteps(), N);
        s.require(m.t.currentStepNum() == m.k, "step-number", "after %s: step number %d instead of %d", after, m.t.currentStepNum(), m.k);
        const long double want = timeAt(m, m.k);
        s.require(std::fabs(double(m.t.currentTime() - want)) <= 1e-12 * double(timeAt(m, N)), "time", "after %s: current time is %.17g s instead of %.17g s at step %d", after, m.t.currentTime(), double(want), m.k);
        s.require(m.t.done() == (m.k == N), "done", "after %s: done() is %d at step %d of %d", after, int(m.t.done()), m.k, N);
        if (m.k < N) s.require(m.t.currentStepLength() == m.steps[size_t(m.k)], "length", "after %s: step %d has length %.17g instead of %.17g", after, m.k, m.t.currentStepLength(), m.steps[size_t(m.k)]);
        s.require(std::fabs(m.t.totalTime() - m.total) <= 1e-12 * std::fabs(m.total), "total", "after %s: total time %.17g instead of %.17g", after, m.t.totalTime(), m.total);
        const boost::posix_time::time_duration since = m.t.currentDateTime() - boost::posix_time::ptime(m.start);
        s.require(std::fabs(double(since.total_seconds()) - double(want)) <= 1.0 + 1e-12 * double(want), "date", "after %s: the date is %lld s after the start instead of %.0f s", after, (long long)since.total_seconds(), double(want));
        if (double(want) > 2147483647.0) s.cover("more-than-68-years");
    };
    for (int i = 0; i < n; ++i) {
        Model& m = *ts[s.choose(ts.size())];
        const int op = m.init ? int(s.choose(7)) : int(s.choose(2));
        bool threw = false; int arg = 0;
        if (op <= 1) {
            m.steps = drawSteps(s, op == 1); 
            const int k0 = m.init && !m.steps.empty() ? int(s.choose(m.steps.size() + 1)) : 0;
            if (op == 0) {
                Opm::parameter::ParameterGroup p; p.disableOutput(); std::ostringstream a; a.precision(17); a << m.steps[0] / 86400;
                p.insertParameter("num_psteps", std::to_string(m.steps.size())); p.insertParameter("stepsize_days", a.str()); const double d = strtod(a.str().c_str(), 0) * 86400; for (double& x : m.steps) x = d;
                m.t.init(p);
            } else { std::string date; m.start = drawDate(s, &date); m.steps = initFromDeck(m.t, m.steps, date); }
            m.total = double(timeAt(m, int(m.steps.size())));
            // a timer that was in use is positioned explicitly, as the drivers do for every epoch
            if (m.init) { m.t.setCurrentStepNum(k0); s.cover("reinitialised-timer"); }
            m.k = k0; m.init = true;
        } else if (op == 2 || op == 3) {
            if (m.k == int(m.steps.size())) continue;      // not allowed
            ++m.t; ++m.k;
        } else if (op == 4 || op == 5) {
            const int N = int(m.steps.size());
            arg = s.chance(1, 3) ? (s.chance(1, 2) ? -s.range(1, 5) : N + s.range(1, 5)) : s.range(0, N);
            const int before = m.k;
            try { m.t.setCurrentStepNum(arg); m.k = arg; } catch (const std::exception&) { threw = true; }
            const bool bad = arg < 0 || arg > N;
            s.require(threw == bad, "refusal", "step %d of a schedule of %d was %s at step %d", arg, N, threw ? "refused" : "accepted", before);
            if (bad) { s.cover("refused-step"); s.nontrivial(); } else if (arg != before) s.nontrivial();
        } else { m.total = double(s.choose(1000)) * 86400; m.t.setTotalTime(m.total); }
        static const char* nm[] = {"init", "init from a deck", "++", "++", "setCurrentStepNum", "setCurrentStepNum", "setTotalTime"};
        s.event("timer %s %d -> step %d of %zu%s", nm[op], arg, m.k, m.steps.size(), threw ? " refused" : ""); s.step();
        if (op == 4 && s.chance(1, 2)) { std::ostringstream os; if (m.k < int(m.steps.size())) { m.t.report(os); s.require(os.str().find("step number " + std::to_string(m.k)) != std::string::npos, "report", "the report does not name step %d", m.k); } }
        for (auto& x : ts) check(*x, nm[op]);
        s.state(mix64(uint64_t(m.k), m.steps.size()));
    }
    for (auto& x : ts) if (x->init) s.simTime(double(timeAt(*x, x->k)));
}

// ---- times reported by runs whose clock advances at every reading
std::vector<std::array<double, 3>> stepTimes(const std::string& text) {
    std::vector<std::array<double, 3>> v; std::istringstream is(text); std::string l;
    while (std::getline(is, l)) { const size_t e = l.find('='); if (e == std::string::npos) continue; const std::string k = l.substr(0, e); const double x = strtod(l.c_str() + e + 1, 0);
        if (k == "/timing/total_time") v.push_back({x, -1, -1}); else if (!v.empty() && k == "/timing/pressure/total_time") v.back()[1] = x; else if (!v.empty() && k == "/timing/transport/total_time") v.back()[2] = x; }
    return v;
}
void runs(Sim& s) {
    NoFault nf; SimOpt o; o.maxcells = 10; o.maxsteps = 4;
    SimSpec sp = drawSim(s, o); if (s.chance(1, 2)) { sp.steps = dvec(size_t(sp.nsteps), sp.dt); for (double& x : sp.steps) x *= s.real(0.3, 1.5); drawDate(s, &sp.date); }
    const std::string D = scratchRoot() + "/t"; removeTree(D);
    clk = ClockSeam(); clk.utc_us = 1200000000000000LL; clk.tick_min = s.range(0, 1000); clk.tick_max = clk.tick_min + int64_t(s.choose(1000)) * int64_t(s.choose(1000)) + 1; clk.state = 1 + s.choose(1000);
    static const int zones[] = {0, 3600, -18000};
    clk.zone_before = clk.zone_after = zones[s.choose(3)];
    if (s.faults_enabled && s.chance(3, 4)) { clk.zone_at_us = clk.utc_us + int64_t(s.choose(60)) * (clk.tick_min + clk.tick_max) / 2; clk.zone_after += s.chance(1, 2) ? 3600 : -3600; }
    Instance in(sp); diskReset(D); disk.on = true; clk.on = true;
    const int64_t t0 = clk.utc_us; int64_t t1 = 0; Opm::SimulatorReport rep;
    { StreamWatch quiet; quiet.start(); Call c = libcall(s, -1, [&] { in.construct(D); rep = in.run(); }); t1 = clk.utc_us; disk.on = false; if (c.threw) throw Discard{"the run fails"}; }
    if (t0 < clk.zone_at_us && t1 >= clk.zone_at_us && clk.zone_after != clk.zone_before) { s.fault("clock:zone-change"); s.nontrivial(); } else if (!s.faults_enabled) s.nontrivial();
    const double real = (t1 - t0) / 1e6;
    s.event("run of %d steps takes %.6f s: total %.6f pressure %.6f transport %.6f", sp.nsteps, real, rep.total_time, rep.pressure_time, rep.transport_time);
    s.require(rep.pressure_time >= 0 && rep.transport_time >= 0 && rep.pressure_time + rep.transport_time <= rep.total_time + 1e-5 && rep.total_time <= real + 1e-5, "report", "a run of %.6f s reports total %.6f s, pressure %.6f s, transport %.6f s", real, rep.total_time, rep.pressure_time, rep.transport_time);
    const auto st = stepTimes(readFile(D + "/step_timing.param"));
    s.require(int(st.size()) == sp.nsteps, "report", "%zu steps timed of %d", st.size(), sp.nsteps);
    double sum[3] = {0, 0, 0};
    for (auto& x : st) { s.require(x[1] >= 0 && x[2] >= 0 && x[1] + x[2] <= x[0] * (1 + 1e-5) + 1e-5, "report", "a step of %.6f s reports pressure %.6f s, transport %.6f s", x[0], x[1], x[2]); for (int i = 0; i < 3; ++i) sum[i] += x[size_t(i)]; }
    s.require(sum[0] <= rep.total_time * (1 + 1e-5) + 1e-5, "report", "steps take %.6f s of %.6f s", sum[0], rep.total_time);
    s.require(std::fabs(sum[1] - rep.pressure_time) <= 1e-5 * sum[1] + 1e-5 && std::fabs(sum[2] - rep.transport_time) <= 1e-5 * sum[2] + 1e-5, "report", "pressure and transport times of the steps add up to %.6f and %.6f s, the run reports %.6f and %.6f s", sum[1], sum[2], rep.pressure_time, rep.transport_time);
    s.step(); s.simTime(sp.nsteps * sp.dt);
    removeTree(D);
}

void run(Sim& s) { const int k = int(s.choose(9)); if (k < 4) timers(s); else if (k < 8) watches(s); else runs(s); }
Register reg("S13", run, "StopWatch, SimulatorTimer, both simulators with their step reports, EclipseGridParser (TSTEP and START), boost date_time", "wall clock, time zone");
}
