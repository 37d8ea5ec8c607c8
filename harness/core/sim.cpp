#include "core/sim.hpp"
#include "core/seams.hpp"
#include <cmath>
#include <unistd.h>

Sim* g_sim = nullptr;

std::vector<Property>& properties() { static std::vector<Property> p; return p; }

uint64_t Sim::choose(uint64_t n) {
    NoFault nf;
    uint64_t v;
    if (n <= 1) return 0;
    if (replaying) {
        v = in_pos < in.size() ? in[in_pos] % n : 0;
        ++in_pos;
    } else {
        v = prng.next() % n;
    }
    out.push_back(v);
    if (trace_fd >= 0) { char t[32]; int k = snprintf(t, sizeof t, "%llu ", (unsigned long long)v); (void)!realWrite(trace_fd, t, k); }
    return v;
}

double Sim::logreal(double lo, double hi) {
    double a = std::log(lo), b = std::log(hi);
    return std::exp(real(a, b));
}

void Sim::event(const char* fmt, ...) {
    NoFault nf;
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    uint64_t h = hash;
    for (const char* p = buf; *p; ++p) h = mix64(h, (unsigned char)*p);
    hash = h; ++events;
    if (keep_log && log.size() < 4000) log.push_back(buf);
}

void Sim::eventData(const char* tag, const double* p, size_t n) {
    NoFault nf;
    uint64_t h = hash;
    for (size_t i = 0; i < n; ++i) {
        uint64_t b; double d = p[i]; if (d == 0) d = 0; if (d != d) b = 0x7ff8; else memcpy(&b, &d, 8);
        h = mix64(h, b);
    }
    hash = h;
    event("%s[%zu] %016llx", tag, n, (unsigned long long)h);
}
void Sim::eventData(const char* tag, const int* p, size_t n) {
    NoFault nf;
    uint64_t h = hash;
    for (size_t i = 0; i < n; ++i) h = mix64(h, uint64_t(uint32_t(p[i])));
    hash = h;
    event("%s[%zu] %016llx", tag, n, (unsigned long long)h);
}

void Sim::fault(const std::string& kind) {
    NoFault nf;
    ++faults[kind];
    event("FAULT %s", kind.c_str());
}
void Sim::cover(const std::string& w) { NoFault nf; ++covers[w]; }

void Sim::require(bool ok, const char* oracle, const char* fmt, ...) {
    ++oracle_checks;
    if (ok) return;
    NoFault nf;
    char buf[1500];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    event("VIOLATION %s: %s", oracle, buf);
    throw Violation{oracle, buf};
}
