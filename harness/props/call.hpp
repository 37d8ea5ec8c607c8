// One call into the library: memory seam armed, with an optional failing allocation.
#pragma once
#include "core/sim.hpp"
#include "core/seams.hpp"
#include <exception>
#include <string>

struct Call { bool threw = false; long failed = 0, allocs = 0; std::string what; };
template <class F> Call libcall(Sim& s, long fail_at, F f) {
    Call r;
    const int sus = mem.suspend;
    mem.suspend = 0; mem.on = true; mem.count = 0; mem.failed = 0; mem.fail_at = fail_at; mem.fail_len = 1;
    try { f(); } catch (const std::exception& e) { r.threw = true; mem.suspend = 1; r.what = e.what(); }
    mem.suspend = sus; mem.on = false; mem.fail_at = -1;
    r.failed = mem.failed; r.allocs = mem.count;
    if (r.failed) s.fault("allocation-failure");
    return r;
}
inline long position(Sim& s) { const int k = int(s.choose(4)); return long(s.choose(k == 0 ? 4 : k == 1 ? 20 : k == 2 ? 80 : 400)); }
inline bool memFault(Sim& s) { return s.faults_enabled && s.chance(1, 5); }
