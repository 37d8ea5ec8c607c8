// Deterministic simulation context: every choice the simulated world makes
// (workload, schedule, fault) is one bounded integer drawn through Sim::choose.
// A run is therefore exactly its list of choices: generated from a seed, or
// replayed from a recorded (possibly minimised) list.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <exception>

struct Violation {
    std::string oracle;   // stable name of the oracle clause that failed
    std::string detail;
};
// The run is not interesting (generated world outside the property's scope).
struct Discard { std::string why; };

struct Prng {
    uint64_t s;
    explicit Prng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

inline uint64_t mix64(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    return h;
}

class Sim {
public:
    // --- choices
    uint64_t choose(uint64_t n);                 // in [0,n); 0 is the simplest choice
    int range(int lo, int hi) { return lo + int(choose(uint64_t(hi - lo + 1))); }   // inclusive
    bool chance(int num, int den) {              // true with probability num/den; choice 0 => false
        return choose(uint64_t(den)) >= uint64_t(den - num);
    }
    double real(double lo, double hi) { return lo + (hi - lo) * (double(choose(1025)) / 1024.0); }
    double logreal(double lo, double hi);
    template <class T> T pick(const std::vector<T>& v) { return v[size_t(choose(v.size()))]; }

    // --- history
    void event(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void eventData(const char* tag, const double* p, size_t n);
    void eventData(const char* tag, const int* p, size_t n);
    void fault(const std::string& kind);         // a fault that really fired
    void cover(const std::string& what);         // coverage dimension (counted)
    void state(uint64_t h) { states.insert(h); } // distinct system states reached
    void nontrivial() { is_nontrivial = true; }
    void simTime(double secs) { sim_seconds += secs; }
    void step() { ++steps; }

    // --- oracles
    void require(bool ok, const char* oracle, const char* fmt, ...) __attribute__((format(printf, 4, 5)));

    // bookkeeping
    bool faults_enabled = true;                  // fault-free runs of the same worlds
    uint64_t seed = 0;
    bool replaying = false;
    std::vector<uint64_t> in;                    // replay input
    size_t in_pos = 0;
    std::vector<uint64_t> out;                   // recorded choices
    int trace_fd = -1;                           // choices mirrored here (survives a crash)
    Prng prng{1};
    uint64_t hash = 0x1234;
    std::vector<std::string> log;                // tail of the event history
    bool keep_log = false;
    std::map<std::string, uint64_t> faults, covers;
    std::set<uint64_t> states;
    uint64_t steps = 0, events = 0;
    double sim_seconds = 0;
    uint64_t oracle_checks = 0;
    bool is_nontrivial = false;
};

extern Sim* g_sim;   // the run in progress (or null)

struct Property {
    std::string id;
    void (*run)(Sim&);
    std::string real, stub;      // components that ran real code / a stub
};
std::vector<Property>& properties();
struct Register {
    Register(const std::string& id, void (*run)(Sim&), const std::string& real, const std::string& stub) {
        properties().push_back(Property{id, run, real, stub});
    }
};
