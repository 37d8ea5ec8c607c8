// Command line of the simulator: search over seeds, single runs, replays.
#include "core/sim.hpp"
#include "core/seams.hpp"
#include "core/fiber.hpp"
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:exitcode=66:detect_stack_use_after_return=0:"
           "alloc_dealloc_mismatch=0:quarantine_size_mb=16:print_summary=1:max_allocation_size_mb=2048:"
           "handle_abort=0:detect_odr_violation=0:check_initialization_order=0:strict_string_checks=0:"
           "intercept_tls_get_addr=0:max_malloc_fill_size=262144";
}

namespace {
struct NullBuf : std::streambuf { int overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
NullBuf* nullbuf = new NullBuf;

std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
double now() { struct timespec t; ::syscall(SYS_clock_gettime, 1, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

void onHang(int) {
    const char m[] = "HANG: no progress within the CPU budget of one simulated run\n";
    realWrite(2, m, sizeof m - 1);
    _exit(77);
}
void armWatchdog(int secs) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &it, nullptr);
}

struct Outcome { bool violation = false, discard = false; Violation v; std::string why; };

Outcome runOnce(const Property& p, Sim& s) {
    Outcome o;
    g_sim = &s;
    memReset(); diskReset(""); clockReset();
    std::cout.rdbuf(nullbuf); if (!getenv("DST_CERR")) std::cerr.rdbuf(nullbuf);
    std::cout.clear(); std::cerr.clear();
    for (std::ostream* o : {&std::cout, &std::cerr}) { o->flags(std::ios::skipws | std::ios::dec); o->precision(6); o->fill(32); }
    armWatchdog(25);
    try { p.run(s); }
    catch (const Violation& v) { o.violation = true; o.v = v; }
    catch (const Discard& d) { o.discard = true; o.why = d.why; }
    catch (const std::exception& e) {
        mem.on = false; disk.on = false; clk.on = false;
        o.violation = true; o.v = Violation{"unexpected-exception", std::string("escaped the simulated world: ") + e.what()};
    }
    armWatchdog(0);
    mem.on = false; disk.on = false; clk.on = false; mem.suspend = 0;
    memReset(); diskReset(""); clockReset();
    g_sim = nullptr;
    return o;
}

void jmap(std::string& out, const std::map<std::string, uint64_t>& m) {
    out += "{"; bool f = true;
    for (auto& kv : m) { if (!f) out += ","; f = false; out += jstr(kv.first) + ":" + std::to_string(kv.second); }
    out += "}";
}

std::string result(const Outcome& o, const Sim& s) {
    std::string r = "{\"violation\":" + std::string(o.violation ? "true" : "false");
    if (o.violation) r += ",\"oracle\":" + jstr(o.v.oracle) + ",\"detail\":" + jstr(o.v.detail);
    if (o.discard) r += ",\"discard\":" + jstr(o.why);
    char h[32]; snprintf(h, sizeof h, "%016llx", (unsigned long long)s.hash);
    r += ",\"seed\":" + std::to_string(s.seed) + ",\"hash\":\"" + h + "\",\"events\":" + std::to_string(s.events);
    r += ",\"faults\":"; jmap(r, s.faults);
    r += ",\"faults_enabled\":" + std::string(s.faults_enabled ? "true" : "false");
    r += ",\"choices\":[";
    for (size_t i = 0; i < s.out.size(); ++i) r += (i ? "," : "") + std::to_string(s.out[i]);
    r += "]";
    if (s.keep_log) {
        r += ",\"log\":[";
        for (size_t i = 0; i < s.log.size(); ++i) r += (i ? "," : "") + jstr(s.log[i]);
        r += "]";
    }
    return r + "}\n";
}
const char* arg(int c, char** v, const char* k, const char* d) {
    for (int i = 1; i + 1 < c; ++i) if (!strcmp(v[i], k)) return v[i + 1];
    return d;
}
}

int main(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "list") { for (auto& p : properties()) printf("%s\t%s\t%s\n", p.id.c_str(), p.real.c_str(), p.stub.c_str()); return 0; }
    // same addresses in every process, so that a run of code with a memory error can be repeated too (where the kernel allows it)
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1 && !getenv("DST_REEXEC")) {
        setenv("DST_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    std::string id = arg(argc, argv, "--prop", "");
    const Property* P = nullptr;
    for (auto& p : properties()) if (p.id == id) P = &p;
    if (!P) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 3; }
    std::string outp = arg(argc, argv, "--out", "/dev/stdout");
    int ofd = ::open(outp.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (!getenv("DST_NOISY")) { int n = ::open("/dev/null", O_WRONLY); dup2(n, 1); if (!getenv("DST_STDERR")) dup2(n, 2); }
    if (const char* ef = arg(argc, argv, "--stderr", nullptr)) { int e = ::open(ef, O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2); }
    signal(SIGPROF, onHang);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    std::string scr = scratchRoot();
    auto put = [&](const std::string& s) { size_t o = 0; while (o < s.size()) { int r = realWrite(ofd, s.data() + o, s.size() - o); if (r <= 0) break; o += r; } };
    int rc = 0;

    if (mode == "run" || mode == "replay") {
        Sim s;
        s.seed = strtoull(arg(argc, argv, "--seed", "0"), nullptr, 10);
        s.prng = Prng(s.seed * 0x2545F4914F6CDD1Dull + 99);
        s.faults_enabled = (s.seed % 4) != 0;
        if (const char* f = arg(argc, argv, "--faults", nullptr)) s.faults_enabled = atoi(f);
        s.keep_log = atoi(arg(argc, argv, "--log", "0"));
        if (const char* t = arg(argc, argv, "--trace-out", nullptr)) s.trace_fd = ::open(t, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (mode == "replay") {
            s.replaying = true;
            bool ok; std::string txt = readFile(arg(argc, argv, "--choices", ""), &ok);
            if (!ok) { fprintf(stderr, "no choices file\n"); return 3; }
            const char* c = txt.c_str(); char* e;
            for (;;) { while (*c && !isdigit((unsigned char)*c)) ++c; if (!*c) break; s.in.push_back(strtoull(c, &e, 10)); c = e; }
        }
        if (const char* pf = arg(argc, argv, "--prelude", nullptr)) {    // runs that came before in the same process: seed faults [choices]
            std::istringstream ps(readFile(pf)); std::string l;
            while (std::getline(ps, l)) {
                std::istringstream ls(l); Sim q; int f = 1; uint64_t c; if (!(ls >> q.seed >> f)) continue;
                q.prng = Prng(q.seed * 0x2545F4914F6CDD1Dull + 99); q.faults_enabled = f;
                while (ls >> c) { q.replaying = true; q.in.push_back(c); }
                runOnce(*P, q);
            }
        }
        Outcome o = runOnce(*P, s);
        put(result(o, s));
        rc = o.violation ? 10 : 0;
    } else if (mode == "search") {
        uint64_t base = strtoull(arg(argc, argv, "--base", "0"), nullptr, 10);
        uint64_t off = strtoull(arg(argc, argv, "--offset", "0"), nullptr, 10), stride = strtoull(arg(argc, argv, "--stride", "1"), nullptr, 10);
        uint64_t maxn = strtoull(arg(argc, argv, "--max", "1000000000"), nullptr, 10);
        double secs = atof(arg(argc, argv, "--secs", "10"));
        const char* stf = arg(argc, argv, "--status", nullptr);
        const char* hf = arg(argc, argv, "--hashes", nullptr);
        int sfd = stf ? ::open(stf, O_WRONLY | O_CREAT, 0644) : -1;
        double t0 = now();
        std::map<std::string, uint64_t> faults, covers, discards;
        std::set<uint64_t> hist, states, nontriv;
        uint64_t runs = 0, discarded = 0, steps = 0, events = 0, checks = 0, recheck = 0, faulted = 0, faultfree = 0;
        double simsec = 0;
        std::map<std::string, uint64_t> knownhit;
        std::vector<std::pair<std::string, std::string>> known;
        if (const char* kf = arg(argc, argv, "--known", nullptr)) {
            std::string t = readFile(kf); size_t i = 0;
            while (i < t.size()) {
                size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size();
                std::string l = t.substr(i, e - i); i = e + 1;
                size_t tb = l.find('\t'); if (tb != std::string::npos) known.push_back({l.substr(0, tb), l.substr(tb + 1)});
            }
        }
        for (uint64_t k = off; runs + discarded < maxn && now() - t0 < secs; k += stride) {
            uint64_t seed = base + k;
            if (sfd >= 0) (void)!pwrite(sfd, &seed, 8, 0);
            auto mk = [&](Sim& s) { s.seed = seed; s.prng = Prng(seed * 0x2545F4914F6CDD1Dull + 99); s.faults_enabled = (seed % 4) != 0; };
            Sim s; mk(s);
            Outcome o = runOnce(*P, s);
            if (o.violation) {
                bool kn = false;
                for (auto& k : known) if (k.first == o.v.oracle && o.v.detail.find(k.second) != std::string::npos) { kn = true; ++knownhit[k.first + ": " + k.second]; break; }
                if (kn) { ++runs; continue; }
                put(result(o, s)); rc = 10; ++runs; break;
            }
            if (o.discard) { ++discarded; ++discards[o.why]; continue; }
            if (runs % 16 == 0) {   // determinism self-check: same seed, same process
                Sim s2; mk(s2);
                Outcome o2 = runOnce(*P, s2);
                ++recheck;
                if (o2.violation || s2.hash != s.hash || s2.out != s.out) {
                    if (rc != 11) put("{\"nondeterministic\":true,\"seed\":" + std::to_string(seed) + "}\n");
                    rc = 11;
                }
            }
            ++runs;
            hist.insert(s.hash);
            if (s.is_nontrivial) nontriv.insert(s.hash);
            if (states.size() < 400000) states.insert(s.states.begin(), s.states.end());
            for (auto& f : s.faults) faults[f.first] += f.second;
            for (auto& f : s.covers) covers[f.first] += f.second;
            if (!s.faults.empty()) ++faulted; else ++faultfree;
            steps += s.steps; events += s.events; simsec += s.sim_seconds; checks += s.oracle_checks;
        }
        std::string r = "{\"stats\":true,\"runs\":" + std::to_string(runs) + ",\"discarded\":" + std::to_string(discarded) +
            ",\"steps\":" + std::to_string(steps) + ",\"events\":" + std::to_string(events) + ",\"oracle_checks\":" + std::to_string(checks) +
            ",\"recheck\":" + std::to_string(recheck) + ",\"runs_with_faults\":" + std::to_string(faulted) + ",\"runs_without_faults\":" + std::to_string(faultfree) +
            ",\"sim_seconds\":" + std::to_string(simsec) + ",\"wall\":" + std::to_string(now() - t0) + ",\"faults\":";
        jmap(r, faults); r += ",\"covers\":"; jmap(r, covers); r += ",\"discards\":"; jmap(r, discards); r += ",\"known\":"; jmap(r, knownhit);
        r += "}\n";
        put(r);
        if (hf) {
            FILE* f = std::fopen(hf, "wb");
            auto dump = [&](char tag, const std::set<uint64_t>& h) { for (uint64_t x : h) { fputc(tag, f); fwrite(&x, 8, 1, f); } };
            dump('h', hist); dump('n', nontriv); dump('s', states);
            std::fclose(f);
        }
    }
    removeTree(scr);
    _exit(rc);
}
