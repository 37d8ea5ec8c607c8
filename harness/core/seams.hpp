// The seams behind which the simulator puts memory, disk and clocks.
#pragma once
#include "core/sim.hpp"
#include <sys/types.h>
#include <sys/time.h>

// ---------------------------------------------------------------- memory
// malloc/calloc/realloc/free of everything linked statically (library and
// harness) via -Wl,--wrap, the global operator new/delete, and the allocator
// hooks of SuiteSparse.
struct MemSeam {
    bool on = false;            // armed: count and possibly fail
    int suspend = 0;            // >0: harness code running
    long count = 0;             // allocations seen while armed
    long fail_at = -1;          // fail this one (0-based); -1 never
    long fail_len = 1;          // number of consecutive failures from there
    long failed = 0;
    size_t max_size = 0;        // >0: a larger allocation fails (armed only)
    long toolarge = 0;
    bool fail_c = true, fail_new = true, fail_umf = true;
    bool track = false;         // leak tracking of allocations made while armed
    int fill = 0;               // contents of fresh memory: 0 untouched, 1 zeros, 2 ones, 3 random, 4 0x7f
    uint64_t fill_state = 1;
};
extern MemSeam mem;
void memReset();
long memLive();                 // tracked and not yet freed
std::string memLiveDesc();

struct NoFault { NoFault() { ++mem.suspend; } ~NoFault() { --mem.suspend; } };
// Arms the memory seam for a scope of library code.
struct ArmMem { bool o; ArmMem() : o(mem.on) { mem.on = true; } ~ArmMem() { mem.on = o; } };

// ---------------------------------------------------------------- disk
struct DiskSeam {
    bool on = false;
    std::string root;           // only paths below root are simulated
    long ops = 0;               // operations seen while on
    // planned faults: operation index -> what happens
    struct F { int kind; int err; bool sticky; };
    enum { Err = 1, Short = 2, Eintr = 3 };
    std::map<long, F> plan;
    bool dead = false; int dead_errno = 5;          // sticky device failure
    long space = -1;            // bytes left on the device; -1 unlimited
    long crash_at = -1;         // from this operation on nothing reaches the disk
    bool crashed = false;
    int max_chunk = 0;          // >0: a transfer moves at most this many bytes
    // history
    struct Op { std::string kind, path; long n; long r; int err; };
    std::vector<Op> log;
    bool keep_log = true;
    std::set<std::string> failed_paths;             // files some operation of which failed
    std::map<std::string, long> fired;              // per kind
    long errors = 0;            // hard errors returned to the program
};
extern DiskSeam disk;
extern void (*diskHook)();      // called before every simulated operation
void diskReset(const std::string& root);
int realWrite(int fd, const void* p, size_t n);
std::string readFile(const std::string& path, bool* ok = nullptr);
bool writeFile(const std::string& path, const std::string& data);
void removeTree(const std::string& dir);            // only below the scratch root
void makeDirs(const std::string& dir);
std::vector<std::string> listTree(const std::string& dir); // relative file paths, sorted
const std::string& scratchRoot();

// ---------------------------------------------------------------- clocks
struct ClockSeam {
    bool on = false;
    int64_t utc_us = 0;         // simulated universal time
    int64_t mono_us = 0;        // simulated monotonic time
    int64_t tick_min = 0, tick_max = 0;
    int64_t true_us = 0;        // elapsed simulated time (never jumps)
    long reads = 0;
    // local time zone: offset before / after the transition instant
    int64_t zone_at_us = INT64_MAX; int zone_before = 0, zone_after = 0;
    // steps of the wall clock at a given read
    std::map<long, int64_t> jumps;
    uint64_t state = 1;
    void advance(int64_t us) { utc_us += us; mono_us += us; true_us += us; }
};
extern ClockSeam clk;
void clockReset();
