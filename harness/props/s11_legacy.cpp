// S11: the kinds built on the older well description, and the coarse-grid kinds.
#include "props/memkinds.hpp"
#include <opm/core/linalg/call_umfpack.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/fsh.h>
#include <opm/core/pressure/legacy_well.h>
#include <opm/core/pressure/mimetic/mimetic.h>
#include <opm/core/pressure/msmfem/coarse_conn.h>
#include <opm/core/pressure/msmfem/coarse_sys.h>
#include <opm/core/pressure/msmfem/hash_set.h>
#include <opm/core/pressure/msmfem/ifsh_ms.h>
#include <opm/core/pressure/msmfem/partition.h>
#include <opm/core/pressure/tpfa/cfs_tpfa.h>
#include <opm/core/pressure/tpfa/compr_quant.h>
#include <algorithm>

namespace {
typedef std::vector<double> dvec;
typedef std::vector<int> ivec;
struct LWell { LegacyWellCompletions w; bool on; explicit LWell(const MemBase& b, bool o) : on(o && b.wells()) { w.number_of_wells = int(b.connpos.size()) - 1; w.well_connpos = const_cast<int*>(b.connpos.data()); w.well_cells = const_cast<int*>(b.cells.data()); } well_t* p() { return on ? &w : nullptr; } };

struct CellWells : MemItemOf<CellWells> {
    const MemBase* b; LWell w; int *pos = nullptr, *cw = nullptr; ivec one{0, 1}, c0{0};
    CellWells(Sim&, const MemBase& base) : b(&base), w(base, true) { if (!w.on) { w.w.number_of_wells = 1; w.w.well_connpos = one.data(); w.w.well_cells = c0.data(); } }
    CellWells(const CellWells& o) : b(o.b), w(o.w), one(o.one), c0(o.c0) { if (!w.on) { w.w.well_connpos = one.data(); w.w.well_cells = c0.data(); } }
    void reset() { pos = cw = nullptr; }
    bool create() override { const int n = allocate_cell_wells(b->g->number_of_cells, &w.w, &pos, &cw); if (!n) return pos || cw; derive_cell_wells(b->g->number_of_cells, &w.w, pos, cw); return true; }
    void destroy() override { deallocate_cell_wells(pos, cw); }
    void dump(dvec& v) override { const int nc = b->g->number_of_cells; putN(v, pos, nc + 1); putN(v, cw, 2 * pos[nc]); }
};

double frac(uint64_t& st) { st = st * 6364136223846793005ull + 1442695040888963407ull; return double(st >> 40) / double(1 << 24); }
dvec innerProducts(const MemBase& b) {
    UnstructuredGrid* g = b.g; int mx = 0; size_t sum = 0; for (int c = 0; c < g->number_of_cells; ++c) { const int n = g->cell_facepos[c + 1] - g->cell_facepos[c]; mx = std::max(mx, n); sum += size_t(n) * n; }
    dvec B(sum, 0.0);
    for (int c = 0, p = 0; c < g->number_of_cells; ++c) { const int a = g->cell_facepos[c], n = g->cell_facepos[c + 1] - a; for (int i = 0; i < n; ++i) B[p + i * (n + 1)] = b.htrans[a + i] * b.totmob[c]; p += n * n; }
    return B;
}
struct Mimetic : MemItemOf<Mimetic> {                  // incompressible and compressible hybrid systems
    const MemBase* b; bool comp; LWell w; fsh_data* h = nullptr; int stage = 0; dvec B, cp, ff, wp, wf;
    Mimetic(Sim& s, const MemBase& base) : b(&base), comp(s.chance(1, 2)), w(base, s.chance(2, 3)), B(innerProducts(base)) { tol = 1e-9; }
    void reset() { h = nullptr; stage = 0; cp.clear(); ff.clear(); wp.clear(); wf.clear(); }
    bool create() override { h = comp ? cfsh_construct(b->g, w.p()) : ifsh_construct(b->g, w.p()); return h != nullptr; }
    void destroy() override { fsh_destroy(h); }
    void dump(dvec& v) override { put(v, h->max_ngconn); put(v, double(h->sum_ngconn2)); putCsr(v, h->A, stage > 0); if (stage) putN(v, h->b, h->A->m); putN(v, cp.data(), cp.size()); putN(v, ff.data(), ff.size()); putN(v, wp.data(), wp.size()); putN(v, wf.data(), wf.size()); }
    void draw(Sim& s, MemOp& o) override { o.kind = comp && w.on ? -1 : 0; o.i = {s.range(1, 1 << 20)}; }
    bool op(const MemOp& o) override {
        NoFault nf; UnstructuredGrid* g = b->g; const int nc = g->number_of_cells, nhf = g->cell_facepos[nc]; uint64_t st = uint64_t(o.i[0]);
        dvec src(nc), gp(nhf, 0.0), Biv(nhf), P(nc), wdp(b->cells.size() + 1, 0.0); for (auto& x : src) x = frac(st) - 0.5; for (auto& x : Biv) x = 0.01 * frac(st); for (auto& x : P) x = 0.1 + frac(st);
        const size_t nw = w.on ? b->bhp.size() : 0; std::vector<enum well_type> wt(nw + 1, INJECTOR); std::vector<enum well_control> wc(nw + 1, BHP); well_control_t ctl; ctl.type = wt.data(); ctl.ctrl = wc.data(); ctl.target = const_cast<double*>(b->bhp.data()); ctl.zfrac = nullptr;
        int face = 0; while (g->face_cells[2 * face] >= 0 && g->face_cells[2 * face + 1] >= 0) ++face;
        FlowBoundaryConditions* bc = flow_conditions_construct(0); flow_conditions_append(BC_PRESSURE, face, 1.0, bc);
        csrmatrix_zero(h->A); vector_zero(h->A->m, h->b);
        { const int sv = mem.suspend; mem.suspend = 0;
            if (comp) cfsh_assemble(bc, src.data(), B.data(), Biv.data(), P.data(), gp.data(), nullptr, nullptr, nullptr, nullptr, h);
            else ifsh_assemble(bc, src.data(), B.data(), gp.data(), w.on ? &ctl : nullptr, b->WI.data(), wdp.data(), h);
            mem.suspend = sv; }
        call_UMFPACK(h->A, h->b, h->x);
        cp.assign(nc, 0); ff.assign(g->number_of_faces, 0); wp.assign(nw, 0); wf.assign(w.on ? b->cells.size() : 0, 0);
        fsh_press_flux(g, B.data(), gp.data(), h, cp.data(), ff.data(), wp.data(), wf.data()); stage = 1;
        flow_conditions_destroy(bc); return true;
    }
};
struct CfsTpfa : MemItemOf<CfsTpfa> {
    const MemBase* b; LWell w; int np; cfs_tpfa_data* h = nullptr; bool assembled = false;
    CfsTpfa(Sim& s, const MemBase& base) : b(&base), w(base, s.chance(2, 3)), np(s.range(1, 3)) {}
    void reset() { h = nullptr; assembled = false; }
    bool create() override { h = cfs_tpfa_construct(b->g, w.p(), np); return h != nullptr; }
    void destroy() override { cfs_tpfa_destroy(h); }
    void dump(dvec& v) override { putCsr(v, h->A, assembled); if (assembled) putN(v, h->b, h->A->m); }
    void draw(Sim& s, MemOp& o) override { o.kind = w.on ? -1 : 0; o.i = {s.range(1, 1 << 20)}; }
    bool op(const MemOp& o) override {
        NoFault nf; const int nc = b->g->number_of_cells, nfc = b->g->number_of_faces; uint64_t st = uint64_t(o.i[0]);
        auto rnd = [&](size_t n, double lo, double hi) { dvec v(n); for (auto& x : v) x = lo + (hi - lo) * frac(st); return v; };
        auto diag = [&](size_t n) { dvec v(n * np * np, 0.0), d = rnd(n * np, 0.5, 2); for (size_t i = 0; i < n; ++i) for (int p = 0; p < np; ++p) v[(i * np + p) * np + p] = d[i * np + p]; return v; };
        dvec tc = rnd(nc, 0.01, 0.1), vd = rnd(nc, -0.1, 0.1), Ac = diag(nc), Af = diag(nfc), mob = rnd(size_t(nfc) * np, 0.5, 2), gc = rnd(size_t(nfc) * np, -0.1, 0.1), p0 = rnd(nc, 1, 2), pv = rnd(nc, 0.1, 0.3);
        compr_quantities q; q.nphases = np; q.totcompr = tc.data(); q.voldiscr = vd.data(); q.Ac = Ac.data(); q.Af = Af.data(); q.phasemobf = mob.data();
        { const int sv = mem.suspend; mem.suspend = 0; cfs_tpfa_assemble(b->g, 1.0, nullptr, nullptr, b->src.data(), &q, b->trans.data(), gc.data(), nullptr, nullptr, p0.data(), pv.data(), h); mem.suspend = sv; }
        assembled = true; return true;
    }
};

// ---------------------------------------------------------------- coarse grids
ivec connectedPartition(const MemBase& b) { ivec p = b.part; NoFault nf; if (b.g->number_of_cells > 1) partition_split_disconnected(b.g->number_of_cells, b.g->number_of_faces, b.g->face_cells, p.data()); partition_compress(int(p.size()), p.data()); return p; }
struct Partition : MemItemOf<Partition> {
    const MemBase* b; int how; ivec p, p0, idx, coarse; int ret = 0, *pi = nullptr, *inv = nullptr;
    Partition(Sim& s, const MemBase& base) : b(&base), how(int(s.choose(4))), p0(base.part) {
        for (size_t c = 0; c < p0.size(); ++c) { const int g = b->g->global_cell ? b->g->global_cell[c] : int(c); idx.push_back(g); }
        for (int d : base.dims) coarse.push_back(s.range(1, d));
        if (how == 1) for (auto& x : p0) x = 3 * x + int(s.choose(2));      // gaps in the numbering
        p = p0;
    }
    void reset() { p = p0; pi = inv = nullptr; ret = 0; }
    bool create() override {
        const int nc = b->g->number_of_cells;
        if (how == 0) { ret = partition_unif_idx(int(b->dims.size()), nc, b->dims.data(), coarse.data(), idx.data(), p.data()); return ret == nc; }
        if (how == 1) { ret = partition_compress(nc, p.data()); return ret >= 0; }
        if (how == 2) { ret = partition_split_disconnected(nc, b->g->number_of_faces, b->g->face_cells, p.data()); return ret >= 0; }
        int mx = 0; for (int x : p) mx = std::max(mx, x);
        ret = partition_allocate_inverse(nc, mx, &pi, &inv); if (ret != nc) return pi || inv; partition_invert(nc, p.data(), pi, inv); return true;
    }
    void destroy() override { partition_deallocate_inverse(pi, inv); }
    void dump(dvec& v) override { put(v, ret); putN(v, p.data(), p.size()); if (pi) { int mx = 0; for (int x : p) mx = std::max(mx, x); putN(v, pi, mx + 2); putN(v, inv, p.size()); } }
};
struct CoarseTopo : MemItemOf<CoarseTopo> {
    const MemBase* b; ivec p; int expct; coarse_topology* t = nullptr;
    CoarseTopo(Sim& s, const MemBase& base) : b(&base), p(s.chance(1, 2) ? connectedPartition(base) : base.part), expct(s.chance(1, 5) ? 0 : s.range(1, 20)) {}
    void reset() { t = nullptr; }
    bool create() override { t = coarse_topology_create(b->g->number_of_cells, b->g->number_of_faces, expct, p.data(), b->g->face_cells); return t != nullptr; }
    void destroy() override { coarse_topology_destroy(t); }
    void dump(dvec& v) override {
        put(v, t->nblocks); put(v, t->nfaces); putN(v, t->neighbours, 2 * t->nfaces); putN(v, t->blkfacepos, t->nblocks + 1); putN(v, t->blkfaces, t->blkfacepos[t->nblocks]);
        putN(v, t->subfacepos, t->nfaces + 1); putN(v, t->subfaces, t->subfaces ? t->subfacepos[t->nfaces] : 0);
    }
};
void localSolve(CSRMatrix* A, double* b, double* x) { NoFault nf; call_UMFPACK(A, b, x); }
// A coarse system with one degree of freedom only, or of unconnected parts, does not determine the pressure.
bool solvable(const MemBase& b, const ivec& p) {
    const int nb = *std::max_element(p.begin(), p.end()) + 1; if (nb < 3) return false;
    dvec w(nb, 0.0); std::vector<char> has(nb, 0); for (size_t c = 0; c < p.size(); ++c) { w[p[c]] += b.src[c]; has[p[c]] |= b.src[c] != 0; }
    for (int i = 0; i < nb; ++i) if (has[i] && w[i] == 0) return false; // nothing to weight such a block by
    ivec r(nb); for (int i = 0; i < nb; ++i) r[i] = i; int parts = nb;
    for (int f = 0; f < b.g->number_of_faces; ++f) { int x = b.g->face_cells[2 * f], y = b.g->face_cells[2 * f + 1]; if (x < 0 || y < 0) continue; x = p[x]; y = p[y]; while (r[x] != x) x = r[x]; while (r[y] != y) y = r[y]; if (x != y) { r[x] = y; --parts; } }
    return parts == 1;
}
struct MultiScale : MemItemOf<MultiScale> {
    const MemBase* b; ivec p; bool sys; ifsh_ms_data* h = nullptr; coarse_topology* t = nullptr; coarse_sys* cs = nullptr; bool solved = false; dvec cp, ff;
    MultiScale(Sim& s, const MemBase& base) : b(&base), p(connectedPartition(base)), sys(s.chance(1, 3)) { tol = 1e-8; usable = solvable(base, p); }
    bool usable = true;
    void reset() { h = nullptr; t = nullptr; cs = nullptr; solved = false; cp.clear(); ff.clear(); }
    bool create() override {
        if (!usable) return true;
        if (!sys) { h = ifsh_ms_construct(b->g, p.data(), b->perm.data(), b->src.data(), b->totmob.data(), localSolve); return h != nullptr; }
        t = coarse_topology_create(b->g->number_of_cells, b->g->number_of_faces, 10, p.data(), b->g->face_cells); if (!t) return false;
        cs = coarse_sys_construct(b->g, p.data(), t, b->perm.data(), b->src.data(), b->totmob.data(), localSolve);
        if (!cs) { coarse_topology_destroy(t); t = nullptr; } return cs != nullptr;
    }
    void destroy() override { ifsh_ms_destroy(h); coarse_sys_destroy(cs); coarse_topology_destroy(t); }
    void dump(dvec& v) override {
        if (h) { putCsr(v, h->A, solved); putN(v, cp.data(), cp.size()); putN(v, ff.data(), ff.size()); }
        if (cs) { const int nb = t->nblocks; putN(v, cs->blkdof_pos, nb + 1); putN(v, cs->blkdof, cs->blkdof_pos[nb]); putN(v, cs->basis_pos, nb + 1); putN(v, cs->cell_ip_pos, nb + 1); putN(v, cs->basis, cs->basis_pos[nb]); putN(v, cs->cell_ip, cs->cell_ip_pos[nb]);
            int nd = 0; for (int i = 0; i < cs->blkdof_pos[nb]; ++i) nd = std::max(nd, cs->blkdof[i] + 1); putN(v, cs->dof2conn, nd); }
    }
    void draw(Sim& s, MemOp& o) override { o.kind = h ? 0 : -1; o.i = {s.range(1, 1 << 20)}; }
    bool op(const MemOp& o) override {
        NoFault nf; uint64_t st = uint64_t(o.i[0]); dvec mob(b->g->number_of_cells); for (auto& x : mob) x = 0.5 + frac(st);
        { const int sv = mem.suspend; mem.suspend = 0; ifsh_ms_assemble(b->src.data(), mob.data(), h); mem.suspend = sv; }
        call_UMFPACK(h->A, h->b, h->x); cp.assign(mob.size(), 0); ff.assign(b->g->number_of_faces, 0);
        { const int sv = mem.suspend; mem.suspend = 0; ifsh_ms_press_flux(b->g, h, cp.data(), ff.data()); mem.suspend = sv; }
        solved = true; return true;
    }
};
struct HashSet : MemItemOf<HashSet> {
    int n; hash_set* h = nullptr;
    HashSet(Sim& s, const MemBase&) : n(s.range(1, 9)) {}
    void reset() { h = nullptr; }
    bool create() override { h = hash_set_allocate(n); return h != nullptr; }
    void destroy() override { hash_set_deallocate(h); }
    void dump(dvec& v) override { ivec e; for (size_t i = 0; i < h->m; ++i) if (h->s[i] != -1) e.push_back(h->s[i]); std::sort(e.begin(), e.end()); put(v, double(hash_set_count_elms(h))); putN(v, e.data(), e.size()); }
    void draw(Sim& s, MemOp& o) override { o.kind = 0; o.i = {s.range(0, s.chance(1, 2) ? 20 : 5000)}; }
    bool op(const MemOp& o) override { return hash_set_insert(o.i[0], h) == o.i[0]; }
};
MemKindReg<CellWells> k1("cell-wells"); MemKindReg<Mimetic> k2("hybrid-system"); MemKindReg<CfsTpfa> k3("cfs-tpfa"); MemKindReg<Partition> k4("partition"); MemKindReg<CoarseTopo> k5("coarse-topology");
MemKindReg<MultiScale> k6("multiscale-system"); MemKindReg<HashSet> k7("hash-set");
}
