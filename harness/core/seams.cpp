#include "core/seams.hpp"
#include "core/fiber.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <dirent.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
extern "C" {
#include <SuiteSparse_config.h>
}

// =====================================================================
//                                memory
// =====================================================================
MemSeam mem;

extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t); void __real_free(void*);
}

namespace {
// Open addressing table of live tracked allocations, in raw memory of its own.
struct Track { void* p; long idx; size_t n; };
Track* tab = nullptr; size_t tab_cap = 0, tab_n = 0, tab_used = 0;
void* const TOMB = (void*)1;
size_t hp(void* p) { uint64_t x = (uint64_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 29; return size_t(x); }
void tabInsertRaw(Track* t, size_t cap, Track v) {
    size_t i = hp(v.p) & (cap - 1);
    while (t[i].p && t[i].p != TOMB) i = (i + 1) & (cap - 1);
    t[i] = v;
}
void trackAdd(void* p, long idx, size_t n) {
    if (tab_used * 2 + 2 > tab_cap) {
        size_t nc = tab_cap ? tab_cap * 2 : 4096;
        Track* nt = (Track*)__real_calloc(nc, sizeof(Track));
        size_t u = 0;
        for (size_t i = 0; i < tab_cap; ++i) if (tab[i].p && tab[i].p != TOMB) { tabInsertRaw(nt, nc, tab[i]); ++u; }
        __real_free(tab); tab = nt; tab_cap = nc; tab_used = u;
    }
    tabInsertRaw(tab, tab_cap, Track{p, idx, n}); ++tab_n; ++tab_used;
}
void trackDel(void* p) {
    if (!tab_n) return;
    size_t i = hp(p) & (tab_cap - 1);
    while (tab[i].p) {
        if (tab[i].p == p) { tab[i].p = TOMB; --tab_n; return; }
        i = (i + 1) & (tab_cap - 1);
    }
}
void fillMem(void* p, size_t n) {
    unsigned char* c = (unsigned char*)p;
    switch (mem.fill) {
    case 1: memset(p, 0, n); break;
    case 2: memset(p, 0xff, n); break;
    case 3: for (size_t i = 0; i < n; ++i) { mem.fill_state = mem.fill_state * 6364136223846793005ull + 1442695040888963407ull; c[i] = (unsigned char)(mem.fill_state >> 56); } break;
    case 4: memset(p, 0x7f, n); break;
    default: break;
    }
}
// Returns true if this allocation must fail.
bool gate(bool kindEnabled, const char* kind) {
    if (!mem.on || mem.suspend) return false;
    long i = mem.count++;
    if (mem.fail_at >= 0 && i >= mem.fail_at && i < mem.fail_at + mem.fail_len && kindEnabled) {
        ++mem.failed;
        if (g_sim) g_sim->fault(kind);
        return true;
    }
    return false;
}
bool tooLarge(size_t n) {
    if (!mem.max_size || n <= mem.max_size || !mem.on || mem.suspend) return false;
    ++mem.toolarge;
    if (g_sim) g_sim->fault("alloc:too-large");
    return true;
}
void* post(void* p, size_t n) {
    if (!p) return p;
    if (mem.fill && !mem.suspend) fillMem(p, n);
    if (mem.on && mem.track && !mem.suspend) trackAdd(p, mem.count - 1, n);
    return p;
}
void* cMalloc(size_t n) {
    if (gate(mem.fail_c, "alloc:malloc") || tooLarge(n)) { errno = ENOMEM; return nullptr; }
    return post(__real_malloc(n), n);
}
void* umfMalloc(size_t n) {
    if (gate(mem.fail_umf, "alloc:umfpack")) { errno = ENOMEM; return nullptr; }
    return post(__real_malloc(n), n);
}
void* umfCalloc(size_t a, size_t b) {
    if (gate(mem.fail_umf, "alloc:umfpack")) { errno = ENOMEM; return nullptr; }
    void* p = __real_calloc(a, b);
    if (p && mem.on && mem.track && !mem.suspend) trackAdd(p, mem.count - 1, a * b);
    return p;
}
void* umfRealloc(void* q, size_t n) {
    if (gate(mem.fail_umf, "alloc:umfpack")) { errno = ENOMEM; return nullptr; }
    void* p = __real_realloc(q, n);
    if (p && tab_n) { if (q) trackDel(q); }
    if (p && mem.on && mem.track && !mem.suspend) trackAdd(p, mem.count - 1, n);
    return p;
}
void umfFree(void* p) { if (p) trackDel(p); __real_free(p); }
struct InitUmf { InitUmf() {
    SuiteSparse_config_malloc_func_set(umfMalloc);
    SuiteSparse_config_calloc_func_set(umfCalloc);
    SuiteSparse_config_realloc_func_set(umfRealloc);
    SuiteSparse_config_free_func_set(umfFree);
} } init_umf;
}

extern "C" {
void* __wrap_malloc(size_t n) { return cMalloc(n); }
void* __wrap_calloc(size_t a, size_t b) {
    if (gate(mem.fail_c, "alloc:calloc") || tooLarge(b && a > size_t(-1) / b ? size_t(-1) : a * b)) { errno = ENOMEM; return nullptr; }
    void* p = __real_calloc(a, b);
    if (p && mem.on && mem.track && !mem.suspend) trackAdd(p, mem.count - 1, a * b);
    return p;
}
void* __wrap_realloc(void* q, size_t n) {
    if (gate(mem.fail_c, "alloc:realloc") || tooLarge(n)) { errno = ENOMEM; return nullptr; }
    size_t old = q ? malloc_usable_size(q) : 0;
    void* p = __real_realloc(q, n);
    if (p || n == 0) { if (q) trackDel(q); }
    if (p) {
        if (mem.fill && !mem.suspend && n > old) fillMem((char*)p + old, n - old);
        if (mem.on && mem.track && !mem.suspend) trackAdd(p, mem.count - 1, n);
    }
    return p;
}
void __wrap_free(void* p) { if (p) trackDel(p); __real_free(p); }
}

static void* cxxNew(size_t n) {
    if (gate(mem.fail_new, "alloc:new") || tooLarge(n)) throw std::bad_alloc();
    void* p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return post(p, n);
}
void* operator new(size_t n) { return cxxNew(n); }
void* operator new[](size_t n) { return cxxNew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return cxxNew(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return cxxNew(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { if (p) trackDel(p); __real_free(p); }
void operator delete[](void* p) noexcept { if (p) trackDel(p); __real_free(p); }
void operator delete(void* p, size_t) noexcept { if (p) trackDel(p); __real_free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) trackDel(p); __real_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) trackDel(p); __real_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) trackDel(p); __real_free(p); }

void memReset() {
    int s = mem.suspend; mem = MemSeam(); mem.suspend = s;
    if (tab) memset((void*)tab, 0, tab_cap * sizeof(Track));
    tab_n = tab_used = 0;
}
long memLive() { return (long)tab_n; }
std::string memLiveDesc() {
    NoFault nf;
    std::vector<std::pair<long, size_t>> v;
    for (size_t i = 0; i < tab_cap; ++i) if (tab[i].p && tab[i].p != TOMB) v.push_back({tab[i].idx, tab[i].n});
    std::sort(v.begin(), v.end());
    std::string s;
    for (size_t i = 0; i < v.size() && i < 6; ++i) s += " #" + std::to_string(v[i].first) + "(" + std::to_string(v[i].second) + "B)";
    return s;
}

// =====================================================================
//                                disk
// =====================================================================
DiskSeam disk;
void (*diskHook)() = nullptr;

namespace {
template <class F> F next(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name, ...) static auto real_##name = next<__VA_ARGS__>(#name)
std::map<int, std::string>& fds() { static auto* m = new std::map<int, std::string>; return *m; }

bool simulated(const char* path) {
    return disk.on && path && !disk.root.empty() && strncmp(path, disk.root.c_str(), disk.root.size()) == 0;
}
std::string rel(const std::string& p) {
    return p.compare(0, disk.root.size(), disk.root) == 0 ? p.substr(disk.root.size()) : p;
}
void note(const char* kind, const std::string& path, long n, long r, int err) {
    if (g_sim) g_sim->event("io %s %s n=%ld r=%ld e=%d", kind, rel(path).c_str(), n, r, r < 0 ? err : 0);
    if (disk.keep_log && disk.log.size() < 200000) disk.log.push_back(DiskSeam::Op{kind, path, n, r, err});
}
void fired(const std::string& k) { ++disk.fired[k]; if (g_sim) g_sim->fault("disk:" + k); }

struct Decision { bool err = false; int e = 0; bool shrt = false; bool drop = false; };
Decision decide(const char* kind, const std::string& path) {
    Decision d;
    if (diskHook) diskHook();
    long i = disk.ops++;
    if (disk.crash_at >= 0 && i >= disk.crash_at) {
        if (!disk.crashed) { disk.crashed = true; fired("crash"); }
    }
    if (disk.crashed) { d.drop = true; return d; }
    auto it = disk.plan.find(i);
    std::string k = kind;
    if (it != disk.plan.end()) {
        const DiskSeam::F& f = it->second;
        bool xfer = k == "read" || k == "write";
        if (f.kind == DiskSeam::Err) {
            d.err = true; d.e = f.err;
            if (f.sticky) { disk.dead = true; disk.dead_errno = f.err; }
        } else if (f.kind == DiskSeam::Short && xfer) {
            d.shrt = true;
        } else if (f.kind == DiskSeam::Eintr && k == "write") {
            d.err = true; d.e = EINTR;
        }
    }
    if (disk.dead && !d.err && k != "close") { d.err = true; d.e = disk.dead_errno; }
    if (d.err) {
        fired(k + (d.e == ENOSPC ? "-ENOSPC" : d.e == EIO ? "-EIO" : d.e == EINTR ? "-EINTR" : d.e == EACCES ? "-EACCES" : "-ERR"));
        if (d.e != EINTR) { disk.failed_paths.insert(path); ++disk.errors; }
    }
    if (d.shrt) fired("short-" + k);
    return d;
}

// One simulated write of n bytes to fd.
ssize_t simWrite(int fd, const std::string& path, const char* p, size_t n) {
    REAL(write, ssize_t(*)(int, const void*, size_t));
    Decision d = decide("write", path);
    if (d.drop) return (ssize_t)n;
    if (d.err) { note("write", path, n, -1, d.e); errno = d.e; return -1; }
    size_t m = n;
    if (d.shrt && n > 1) m = n / 2;
    if (disk.max_chunk > 0 && m > (size_t)disk.max_chunk) m = disk.max_chunk;
    if (disk.space >= 0) {
        if (disk.space == 0 && m > 0) {
            fired("write-ENOSPC"); disk.failed_paths.insert(path); ++disk.errors;
            note("write", path, n, -1, ENOSPC); errno = ENOSPC; return -1;
        }
        if ((long)m > disk.space) { m = disk.space; fired("short-write"); }
        disk.space -= (long)m;
    }
    ssize_t r = real_write(fd, p, m);
    note("write", path, n, r, errno);
    return r;
}
ssize_t simRead(int fd, const std::string& path, char* p, size_t n) {
    REAL(read, ssize_t(*)(int, void*, size_t));
    Decision d = decide("read", path);
    if (d.drop) return 0;
    if (d.err) { note("read", path, n, -1, d.e); errno = d.e; return -1; }
    size_t m = n;
    if (d.shrt && m > 1) m = m > 64 ? 17 : m / 2;
    if (disk.max_chunk > 0 && m > (size_t)disk.max_chunk) m = disk.max_chunk;
    ssize_t r = real_read(fd, p, m);
    note("read", path, n, r, errno);
    return r;
}

struct Cookie { int fd; std::string path; };
ssize_t ckRead(void* c, char* b, size_t n) { NoFault nf; Cookie* k = (Cookie*)c; return simRead(k->fd, k->path, b, n); }
ssize_t ckWrite(void* c, const char* b, size_t n) {
    NoFault nf; Cookie* k = (Cookie*)c; size_t done = 0;
    while (done < n) {
        ssize_t r = simWrite(k->fd, k->path, b + done, n - done);
        if (r < 0) { if (errno == EINTR) continue; return done ? (ssize_t)done : 0; }
        done += r;
    }
    return (ssize_t)done;
}
int ckSeek(void* c, off64_t* o, int w) { Cookie* k = (Cookie*)c; off64_t r = lseek64(k->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
int ckClose(void* c) {
    NoFault nf; Cookie* k = (Cookie*)c; int rc = 0;
    Decision d = decide("close", k->path);
    ::syscall(SYS_close, k->fd);
    if (d.err) { note("close", k->path, 0, -1, d.e); errno = d.e; rc = -1; }
    delete k; return rc;
}
}

extern "C" FILE* fopen(const char* path, const char* mode) {
    REAL(fopen, FILE*(*)(const char*, const char*));
    NoFault nf;
    if (!simulated(path)) return real_fopen(path, mode);
    bool wr = strpbrk(mode, "wa+") != nullptr;
    Decision d = decide(wr ? "open-w" : "open-r", path);
    if (d.drop) { FILE* f = real_fopen("/dev/null", mode); if (f) fds()[fileno(f)] = path; return f; }
    if (d.err) { note("open", path, 0, -1, d.e); errno = d.e; return nullptr; }
    FILE* f = real_fopen(path, mode);
    note(wr ? "open-w" : "open-r", path, 0, f ? 0 : -1, errno);
    if (f) fds()[fileno(f)] = path;
    return f;
}
extern "C" FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
// C code of the library (linked with --wrap=fopen): a cookie stream whose
// transfers go through the seam.
extern "C" FILE* __wrap_fopen(const char* path, const char* mode) {
    REAL(fopen, FILE*(*)(const char*, const char*));
    NoFault nf;
    if (!simulated(path)) return real_fopen(path, mode);
    bool wr = strpbrk(mode, "wa+") != nullptr;
    Decision d = decide(wr ? "open-w" : "open-r", path);
    if (d.drop) return real_fopen("/dev/null", mode);
    if (d.err) { note("open", path, 0, -1, d.e); errno = d.e; return nullptr; }
    FILE* f = real_fopen(path, mode);
    note(wr ? "open-w" : "open-r", path, 0, f ? 0 : -1, errno);
    if (!f) return nullptr;
    int fd = dup(fileno(f));
    static int (*real_fclose)(FILE*) = next<int(*)(FILE*)>("fclose");
    real_fclose(f);
    cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
    return fopencookie(new Cookie{fd, path}, mode, io);
}
extern "C" int fclose(FILE* f) {
    REAL(fclose, int(*)(FILE*));
    if (!disk.on) return real_fclose(f);
    NoFault nf;
    int fd = fileno(f);
    auto it = fd >= 0 ? fds().find(fd) : fds().end();
    if (it == fds().end()) return real_fclose(f);
    std::string path = it->second;
    fds().erase(it);
    Decision d = decide("close", path);
    int r = real_fclose(f);
    if (d.err) { note("close", path, 0, -1, d.e); errno = d.e; return EOF; }
    return r;
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
    REAL(write, ssize_t(*)(int, const void*, size_t));
    if (!disk.on) return real_write(fd, p, n);
    NoFault nf;
    auto it = fds().find(fd);
    if (it == fds().end()) return real_write(fd, p, n);
    return simWrite(fd, it->second, (const char*)p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    REAL(writev, ssize_t(*)(int, const struct iovec*, int));
    if (!disk.on) return real_writev(fd, v, c);
    NoFault nf;
    auto it = fds().find(fd);
    if (it == fds().end()) return real_writev(fd, v, c);
    std::string all;
    for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
    return simWrite(fd, it->second, all.data(), all.size());
}
extern "C" ssize_t read(int fd, void* p, size_t n) {
    REAL(read, ssize_t(*)(int, void*, size_t));
    if (!disk.on) return real_read(fd, p, n);
    NoFault nf;
    auto it = fds().find(fd);
    if (it == fds().end()) return real_read(fd, p, n);
    return simRead(fd, it->second, (char*)p, n);
}
extern "C" int mkdir(const char* path, mode_t m) {
    REAL(mkdir, int(*)(const char*, mode_t));
    if (!simulated(path)) return real_mkdir(path, m);
    NoFault nf;
    Decision d = decide("mkdir", path);
    if (d.drop) return 0;
    if (d.err) { note("mkdir", path, 0, -1, d.e); errno = d.e; return -1; }
    int r = real_mkdir(path, m);
    int e = errno;
    note("mkdir", path, 0, r, e);
    errno = e;
    return r;
}
// Harness-side copies that never pass a fault.
int realWrite(int fd, const void* p, size_t n) { return (int)::syscall(SYS_write, fd, p, n); }

void diskReset(const std::string& root) {
    NoFault nf;
    if (Fibers::current() < 0) fds().clear();       // descriptors belong to the whole process
    disk = DiskSeam();
    disk.root = root;
}
std::string readFile(const std::string& path, bool* ok) {
    NoFault nf;
    std::string s; char b[65536];
    int fd = ::open(path.c_str(), O_RDONLY);
    if (ok) *ok = fd >= 0;
    if (fd < 0) return s;
    ssize_t r;
    while ((r = ::syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, r);
    ::close(fd);
    return s;
}
bool writeFile(const std::string& path, const std::string& data) {
    NoFault nf;
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return false;
    size_t o = 0;
    while (o < data.size()) { ssize_t r = realWrite(fd, data.data() + o, data.size() - o); if (r <= 0) break; o += r; }
    ::close(fd);
    return o == data.size();
}
static std::string& scratch() { static std::string s; return s; }
const std::string& scratchRoot() {
    NoFault nf;
    if (scratch().empty()) {
        char b[] = "/tmp/dst-scratch-XXXXXX";
        if (!mkdtemp(b)) { perror("mkdtemp"); _exit(3); }
        scratch() = std::string(b);
    }
    return scratch();
}
static void rmrf(const std::string& d) {
    DIR* dp = opendir(d.c_str());
    if (!dp) return;
    while (struct dirent* e = readdir(dp)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmrf(p); else unlink(p.c_str());
    }
    closedir(dp);
    rmdir(d.c_str());
}
void removeTree(const std::string& d) {
    NoFault nf;
    if (scratch().empty() || d.compare(0, scratch().size(), scratch()) != 0) return;
    rmrf(d);
}
void makeDirs(const std::string& d) {
    NoFault nf;
    bool o = disk.on; disk.on = false;
    std::string cur;
    for (size_t i = 1; i <= d.size(); ++i)
        if (i == d.size() || d[i] == '/') ::mkdir(d.substr(0, i).c_str(), 0755);
    disk.on = o;
}
static void lsr(const std::string& base, const std::string& r, std::vector<std::string>& out) {
    DIR* dp = opendir((base + r).c_str());
    if (!dp) return;
    while (struct dirent* e = readdir(dp)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        std::string p = r + "/" + n;
        struct stat st;
        if (lstat((base + p).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) lsr(base, p, out); else out.push_back(p.substr(1));
    }
    closedir(dp);
}
std::vector<std::string> listTree(const std::string& d) {
    NoFault nf; std::vector<std::string> v; lsr(d, "", v); std::sort(v.begin(), v.end()); return v;
}

// =====================================================================
//                                clocks
// =====================================================================
ClockSeam clk;
void clockReset() { NoFault nf; clk = ClockSeam(); }
namespace {
void clockRead() {
    NoFault nf;
    long i = clk.reads++;
    if (clk.tick_max > 0) {
        clk.state = mix64(clk.state, uint64_t(i) + 77);
        clk.advance(clk.tick_min + int64_t(clk.state % uint64_t(clk.tick_max - clk.tick_min + 1)));
    }
    auto it = clk.jumps.find(i);
    if (it != clk.jumps.end()) { clk.utc_us += it->second; if (g_sim) g_sim->fault("clock:wall-jump"); }
}
}
extern "C" int gettimeofday(struct timeval* tv, void* tz) {
    REAL(gettimeofday, int(*)(struct timeval*, void*));
    if (!clk.on) return real_gettimeofday(tv, tz);
    clockRead();
    tv->tv_sec = clk.utc_us / 1000000; tv->tv_usec = clk.utc_us % 1000000;
    return 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
    REAL(clock_gettime, int(*)(clockid_t, struct timespec*));
    if (!clk.on) return real_clock_gettime(id, ts);
    clockRead();
    int64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? clk.utc_us : clk.mono_us;
    ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000;
    return 0;
}
extern "C" time_t time(time_t* p) {
    REAL(time, time_t(*)(time_t*));
    if (!clk.on) return real_time(p);
    clockRead();
    time_t t = clk.utc_us / 1000000; if (p) *p = t; return t;
}
extern "C" struct tm* localtime_r(const time_t* t, struct tm* out) {
    REAL(localtime_r, struct tm*(*)(const time_t*, struct tm*));
    if (!clk.on) return real_localtime_r(t, out);
    time_t x = *t;
    bool after = int64_t(x) * 1000000 >= clk.zone_at_us;
    if (after && clk.zone_after != clk.zone_before) { NoFault nf; if (g_sim) g_sim->fault("clock:zone-change"); }
    x += after ? clk.zone_after : clk.zone_before;
    return gmtime_r(&x, out);
}
extern "C" struct tm* localtime(const time_t* t) {
    REAL(localtime, struct tm*(*)(const time_t*));
    if (!clk.on) return real_localtime(t);
    static struct tm b; return localtime_r(t, &b);
}
