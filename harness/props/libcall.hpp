// Calls into the library, and comparing what two of them gave.
#pragma once
#include "props/world.hpp"
#include "props/call.hpp"

inline void sameVec(Sim& s, const dvec& a, const dvec& b, const char* what, const char* call, int i) {
    const long d = firstDiff(a, b);
    ++s.oracle_checks;
    if (d >= 0) s.require(false, "differs", "%s call %d: %s[%ld] is %.17g on the reused object, %.17g on a fresh one", call, i, what, d, d < long(a.size()) ? a[d] : 0.0, d < long(b.size()) ? b[d] : 0.0);
}
inline void sameOutcome(Sim& s, const Call& a, const Call& b, const char* call, int i) {
    s.require(a.threw == b.threw, "outcome-differs", "%s call %d %s on the reused object and %s on a fresh one", call, i, a.threw ? "failed" : "succeeded", b.threw ? "failed" : "succeeded");
}
inline void randomSat(Sim& s, dvec& sat) { for (size_t c = 0; c < sat.size() / 2; ++c) if (s.chance(1, 2)) { double v = s.real(0, 1); sat[2 * c] = v; sat[2 * c + 1] = 1 - v; } }
