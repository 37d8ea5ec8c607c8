// S11: the kind whose header cannot be combined with flow_bc.h.
#include "props/memkinds.hpp"
#include <opm/core/pressure/tpfa/compr_bc.h>

namespace {
struct ComprBC : MemItemOf<ComprBC> {
    int np, n; compr_bc* b = nullptr;
    ComprBC(Sim& s, const MemBase&) : np(s.range(1, 3)), n(s.range(0, 3)) {}
    void reset() { b = nullptr; }
    bool create() override { b = compr_bc_allocate(np, n); return b != nullptr; }
    void destroy() override { compr_bc_deallocate(b); }
    void dump(std::vector<double>& v) override { put(v, b->nbc); put(v, b->nphases); putN(v, b->type, b->nbc); putN(v, b->face, b->nbc); putN(v, b->press, b->nbc); putN(v, b->flux, b->nbc); putN(v, b->saturation, size_t(b->nbc) * np); }
    void draw(Sim& s, MemOp& o) override { o.kind = s.chance(1, 12); o.i = {int(s.choose(2)), s.range(0, 999)}; for (int p = 0; p < 2 + np; ++p) o.d.push_back(s.real(-1, 1)); }
    bool op(const MemOp& o) override { if (o.kind == 1) { compr_bc_clear(b); return true; } return compr_bc_append((enum compr_bc_type)o.i[0], o.i[1], np, o.d[0], o.d[1], o.d.data() + 2, b) > 0; }
};
MemKindReg<ComprBC> k1("compressible-bc");
}
