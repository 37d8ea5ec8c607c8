// S11: histories of constructions and growing objects under failing allocations.
#include "props/libcall.hpp"
#include "props/memkinds.hpp"
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/linalg/LinearSolverFactory.hpp>
#include <opm/core/pressure/CompressibleTpfa.hpp>
#include <opm/core/pressure/FlowBCManager.hpp>
#include <opm/core/pressure/tpfa/cfs_tpfa_residual.h>
#include <opm/core/pressure/tpfa/compr_quant_general.h>
#include <opm/core/pressure/tpfa/compr_source.h>
#include <opm/core/pressure/tpfa/ifs_tpfa.h>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>
#include <opm/core/tof/TofDiscGalReorder.hpp>
#include <opm/core/tof/TofReorder.hpp>
#include <opm/core/transport/implicit/transport_source.h>

std::vector<MemKind>& memKinds() { static std::vector<MemKind> k; return k; }

namespace {
void putGrid(dvec& v, const UnstructuredGrid* g) {
    const int d = g->dimensions, nf = g->number_of_faces, nc = g->number_of_cells, nn = g->number_of_nodes;
    put(v, d); put(v, nf); put(v, nc); put(v, nn); putN(v, g->cartdims, d);
    putN(v, g->node_coordinates, size_t(nn) * d); putN(v, g->face_nodepos, nf + 1); putN(v, g->face_nodes, g->face_nodepos[nf]);
    putN(v, g->face_cells, 2 * size_t(nf)); putN(v, g->face_centroids, size_t(nf) * d); putN(v, g->face_areas, nf); putN(v, g->face_normals, size_t(nf) * d);
    putN(v, g->cell_facepos, nc + 1); putN(v, g->cell_faces, g->cell_facepos[nc]); putN(v, g->cell_facetag, g->cell_facetag ? g->cell_facepos[nc] : 0);
    putN(v, g->cell_centroids, size_t(nc) * d); putN(v, g->cell_volumes, nc); putN(v, g->global_cell, g->global_cell ? nc : 0);
}

// ---------------------------------------------------------------- grids
struct CartGrid : MemItemOf<CartGrid> {
    int kind, n[3]; dvec x, y, z, dz; double h[3]; UnstructuredGrid* g = nullptr;
    CartGrid(Sim& s, const MemBase&) {
        kind = int(s.choose(5));
        for (int d = 0; d < 3; ++d) { n[d] = s.range(1, s.chance(1, 4) ? 6 : 3); h[d] = s.real(0.5, 20); }
        x = coords(s, n[0], h[0], false, s.real(-5, 5)); y = coords(s, n[1], h[1], false, s.real(-5, 5)); z = coords(s, n[2], h[2], false, s.real(0, 50));
        if (s.chance(1, 2)) for (int i = 0; i < (n[0] + 1) * (n[1] + 1); ++i) dz.push_back(s.real(0, 10));
    }
    void reset() { g = nullptr; }
    bool create() override {
        if (kind == 0) g = create_grid_cart2d(n[0], n[1], h[0], h[1]);
        else if (kind == 1) g = create_grid_cart3d(n[0], n[1], n[2]);
        else if (kind == 2) g = create_grid_hexa3d(n[0], n[1], n[2], h[0], h[1], h[2]);
        else if (kind == 3) g = create_grid_tensor2d(n[0], n[1], x.data(), y.data());
        else g = create_grid_tensor3d(n[0], n[1], n[2], x.data(), y.data(), z.data(), dz.empty() ? nullptr : dz.data());
        return g != nullptr;
    }
    void destroy() override { destroy_grid(g); }
    void dump(dvec& v) override { putGrid(v, g); }
};
struct Corner {
    int n[3]; dvec coord, zcorn; ivec act; double tol;
    explicit Corner(Sim& s) {
        for (int d = 0; d < 3; ++d) n[d] = s.range(1, s.chance(1, 4) ? 7 : 3);
        dvec x = coords(s, n[0], 10, false), y = coords(s, n[1], 10, false);
        for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) { const double a = s.chance(1, 3) ? s.real(-2, 2) : 0; coord.insert(coord.end(), {x[i], y[j], 0.0, x[i] + a, y[j] + a, 100.0}); }
        zcorn.resize(size_t(8) * n[0] * n[1] * n[2]);
        const bool rough = s.chance(1, 2);              // corners at any depth: faults that cross layers
        const int nx2 = 2 * n[0], ny2 = 2 * n[1];
        for (int j = 0; j < ny2; ++j) for (int i = 0; i < nx2; ++i) {
            double zz = 10 + (rough ? s.real(0, 12) : 4.0 * ((i / 2) % 2));
            for (int k = 0; k < 2 * n[2]; ++k) { if (k % 2 == 1) zz += s.chance(1, 8) && (k > 1 || i > 1 || j > 1) ? 0 : s.real(1, 6); else if (k && s.chance(1, 10)) zz += 1; zcorn[(size_t(k) * ny2 + j) * nx2 + i] = zz; }
        }
        if (s.chance(1, 2)) { for (int c = 0; c < n[0] * n[1] * n[2]; ++c) act.push_back(!s.chance(1, 5)); act[0] = 1; }   // a grid has at least one active cell
        tol = s.chance(1, 4) ? 0.5 : 0.0;
    }
};
struct CornerGrid : MemItemOf<CornerGrid> {
    Corner c; UnstructuredGrid* g = nullptr;
    CornerGrid(Sim& s, const MemBase&) : c(s) {}
    void reset() { g = nullptr; }
    bool create() override {
        struct grdecl d; memset(&d, 0, sizeof d); for (int i = 0; i < 3; ++i) d.dims[i] = c.n[i];
        d.coord = c.coord.data(); d.zcorn = c.zcorn.data(); d.actnum = c.act.empty() ? nullptr : c.act.data();
        g = create_grid_cornerpoint(&d, c.tol); return g != nullptr;
    }
    void destroy() override { destroy_grid(g); }
    void dump(dvec& v) override { putGrid(v, g); }
};

// ---------------------------------------------------------------- boundary conditions, sources, matrices
struct FlowBC : MemItemOf<FlowBC> {
    int n; FlowBoundaryConditions* b = nullptr;
    FlowBC(Sim& s, const MemBase&) : n(s.range(0, 6)) {}
    void reset() { b = nullptr; }
    bool create() override { b = flow_conditions_construct(n); return b != nullptr; }
    void destroy() override { flow_conditions_destroy(b); }
    void dump(dvec& v) override { put(v, double(b->nbc)); if (b->nbc || b->cond_pos) putN(v, b->cond_pos, b->nbc + 1); putN(v, b->type, b->nbc); putN(v, b->value, b->nbc); putN(v, b->face, b->nbc ? b->cond_pos[b->nbc] : 0); }
    void draw(Sim& s, MemOp& o) override {
        o.kind = s.chance(1, 10) ? 2 : int(s.choose(2)); const int nf = o.kind == 0 ? 1 : s.range(0, 12);
        o.i.push_back(int(s.choose(3))); for (int k = 0; k < nf; ++k) o.i.push_back(s.range(0, 999)); o.d.push_back(s.real(-1, 1));
    }
    bool op(const MemOp& o) override {
        if (o.kind == 2) { flow_conditions_clear(b); return true; }
        if (o.kind == 0) return flow_conditions_append((enum FlowBCType)o.i[0], o.i[1], o.d[0], b);
        return flow_conditions_append_multi((enum FlowBCType)o.i[0], o.i.size() - 1, o.i.data() + 1, o.d[0], b);
    }
};
struct Csr : MemItemOf<Csr> {
    bool count; std::vector<ivec> rows; CSRMatrix* A = nullptr;
    Csr(Sim& s, const MemBase&) : count(s.chance(2, 3)) {
        const int m = s.range(1, 12);
        for (int i = 0; i < m; ++i) { ivec r(1, i); for (int j = 0; j < m; ++j) if (j != i && s.chance(1, 3)) r.insert(s.chance(1, 2) ? r.begin() : r.end(), j); rows.push_back(r); }
    }
    void reset() { A = nullptr; }
    bool create() override {
        const size_t m = rows.size(); size_t nnz = 0; for (auto& r : rows) nnz += r.size();
        if (count) {
            A = csrmatrix_new_count_nnz(m); if (!A) return false;
            for (size_t i = 0; i < m; ++i) A->ia[i + 1] = int(rows[i].size());
            if (csrmatrix_new_elms_pushback(A) == 0) { csrmatrix_delete(A); A = nullptr; return false; }
            for (size_t i = 0; i < m; ++i) for (int j : rows[i]) A->ja[A->ia[i + 1]++] = j;
        } else {
            A = csrmatrix_new_known_nnz(m, nnz); if (!A) return false;
            A->ia[0] = 0; int k = 0; for (size_t i = 0; i < m; ++i) { for (int j : rows[i]) A->ja[k++] = j; A->ia[i + 1] = k; }
        }
        csrmatrix_sortrows(A); csrmatrix_zero(A); return true;
    }
    void destroy() override { csrmatrix_delete(A); }
    void dump(dvec& v) override { putCsr(v, A, true); }
    void draw(Sim& s, MemOp& o) override { const int i = int(s.choose(rows.size())); o.kind = 0; o.i = {i, rows[i][s.choose(rows[i].size())]}; o.d = {s.real(-1, 1)}; }
    bool op(const MemOp& o) override { A->sa[csrmatrix_elm_index(o.i[0], o.i[1], A)] += o.d[0]; return true; }
};
struct ComprSrc : MemItemOf<ComprSrc> {
    int np, n; compr_src* b = nullptr;
    ComprSrc(Sim& s, const MemBase&) : np(s.range(1, 3)), n(s.range(0, 3)) {}
    void reset() { b = nullptr; }
    bool create() override { b = compr_src_allocate(np, n); return b != nullptr; }
    void destroy() override { compr_src_deallocate(b); }
    void dump(dvec& v) override { put(v, b->nsrc); put(v, b->nphases); putN(v, b->cell, b->nsrc); putN(v, b->flux, b->nsrc); putN(v, b->saturation, size_t(b->nsrc) * np); }
    void draw(Sim& s, MemOp& o) override { o.kind = s.chance(1, 12); o.i = {s.range(0, 999)}; o.d = {s.real(-1, 1)}; for (int p = 0; p < np; ++p) o.d.push_back(s.real(0, 1)); }
    bool op(const MemOp& o) override { if (o.kind == 1) { clear_compr_source_term(b); return true; } return append_compr_source_term(o.i[0], np, o.d[0], o.d.data() + 1, b) > 0; }
};
struct TransSrc : MemItemOf<TransSrc> {
    int np, n; TransportSource* b = nullptr;
    TransSrc(Sim& s, const MemBase&) : np(s.range(1, 3)), n(s.range(0, 3)) {}
    void reset() { b = nullptr; }
    bool create() override { b = create_transport_source(n, np); return b != nullptr; }
    void destroy() override { destroy_transport_source(b); }
    void dump(dvec& v) override { put(v, b->nsrc); put(v, b->nphase); putN(v, b->cell, b->nsrc); putN(v, b->pressure, b->nsrc); putN(v, b->flux, b->nsrc); putN(v, b->saturation, size_t(b->nsrc) * np); putN(v, b->surfvolume, size_t(b->nsrc) * np); }
    void draw(Sim& s, MemOp& o) override { o.kind = s.chance(1, 12); o.i = {s.range(0, 999)}; for (int p = 0; p < 2 + 2 * np; ++p) o.d.push_back(s.real(-1, 1)); }
    bool op(const MemOp& o) override { if (o.kind == 1) { clear_transport_source(b); return true; } return append_transport_source(o.i[0], np, o.d[0], o.d[1], o.d.data() + 2, o.d.data() + 2 + np, b) > 0; }
};
struct ComprQuant : MemItemOf<ComprQuant> {
    int np, nc, nf; compr_quantities_gen* q = nullptr;
    ComprQuant(Sim& s, const MemBase&) : np(s.range(1, 3)), nc(s.range(1, 6)), nf(s.range(1, 9)) {}
    void reset() { q = nullptr; }
    bool create() override { q = compr_quantities_gen_allocate(nc, nf, np); return q != nullptr; }
    void destroy() override { compr_quantities_gen_deallocate(q); }
    void dump(dvec& v) override { put(v, q->nphases); putN(v, q->Ac, nc * np * np); putN(v, q->dAc, nc * np * np); putN(v, q->Af, nf * np * np); putN(v, q->phasemobf, nf * np); putN(v, q->voldiscr, nc); }
    void draw(Sim& s, MemOp& o) override { o.kind = 0; const int a = int(s.choose(5)); static const int per[] = {2, 2, 2, 1, 0}; int n = a == 2 || a == 3 ? nf : nc; for (int k = 0; k < per[a]; ++k) n *= np; o.i = {a, int(s.choose(n))}; o.d = {s.real(-1, 1)}; }
    bool op(const MemOp& o) override { double* p[] = {q->Ac, q->dAc, q->Af, q->phasemobf, q->voldiscr}; p[o.i[0]][o.i[1]] = o.d[0]; return true; }
};

// ---------------------------------------------------------------- discretisations
struct BaseWells { std::shared_ptr<Wells> W; };
std::shared_ptr<Wells> baseWells(const MemBase& b, int np) {
    if (!b.wells()) return nullptr;
    Wells* W = create_wells(np, int(b.connpos.size()) - 1, int(b.cells.size()));
    const dvec fr(np, 1.0 / np);
    for (size_t w = 0; w + 1 < b.connpos.size(); ++w) {
        add_well(w % 2 ? PRODUCER : INJECTOR, 0, b.connpos[w + 1] - b.connpos[w], fr.data(), b.cells.data() + b.connpos[w], b.WI.data() + b.connpos[w], nullptr, W);
        append_well_controls(BHP, b.bhp[w], fr.data(), int(w), W); set_current_control(int(w), 0, W);
    }
    return std::shared_ptr<Wells>(W, destroy_wells);
}
struct IfsTpfa : MemItemOf<IfsTpfa> {
    const MemBase* b; std::shared_ptr<Wells> W; ifs_tpfa_data* h = nullptr; bool assembled = false;
    IfsTpfa(Sim& s, const MemBase& base) : b(&base) { if (s.chance(2, 3)) W = baseWells(base, 2); }
    void reset() { h = nullptr; assembled = false; }
    bool create() override { h = ifs_tpfa_construct(b->g, W.get()); return h != nullptr; }
    void destroy() override { ifs_tpfa_destroy(h); }
    void dump(dvec& v) override { putCsr(v, h->A, assembled); if (assembled) putN(v, h->b, h->A->m); }
    void draw(Sim& s, MemOp& o) override { o.kind = int(s.choose(2)); o.d.push_back(s.real(0.5, 2)); for (int f = 0; f < b->g->cell_facepos[b->g->number_of_cells]; ++f) o.d.push_back(s.real(-1, 1)); }
    bool op(const MemOp& o) override {
        const int nc = b->g->number_of_cells; dvec pv, rc, p, wdp;
        { NoFault nf; pv.assign(nc, 0.2); rc.assign(nc, 1e-3 * o.d[0]); p.assign(nc, 1.0); wdp.assign(b->cells.size() + 1, 0.1); }
        ifs_tpfa_forces F; memset(&F, 0, sizeof F); F.src = b->src.data(); F.W = W.get(); F.totmob = b->totmob.data(); F.wdp = wdp.data();
        const int ok = o.kind == 0 ? ifs_tpfa_assemble(b->g, &F, b->trans.data(), o.d.data() + 1, h) : ifs_tpfa_assemble_comprock(b->g, &F, b->trans.data(), o.d.data() + 1, pv.data(), rc.data(), 1.0, p.data(), h);
        assembled = true; NoFault nf; { dvec().swap(pv); dvec().swap(rc); dvec().swap(p); dvec().swap(wdp); } return ok;
    }
};
struct CfsRes : MemItemOf<CfsRes> {
    const MemBase* b; std::shared_ptr<Wells> W; int np; cfs_tpfa_res_data* h = nullptr; cfs_tpfa_res_wells rw; CompletionData cd; bool assembled = false;
    CfsRes(Sim& s, const MemBase& base) : b(&base), np(s.range(1, 3)) { if (s.chance(2, 3)) W = baseWells(base, np); memset(&rw, 0, sizeof rw); memset(&cd, 0, sizeof cd); }
    void reset() { h = nullptr; assembled = false; }
    bool create() override { rw.W = W.get(); rw.data = &cd; h = cfs_tpfa_res_construct(b->g, W ? &rw : nullptr, np); return h != nullptr; }
    void destroy() override { cfs_tpfa_res_destroy(h); }
    void dump(dvec& v) override { putCsr(v, h->J, assembled); if (assembled) putN(v, h->F, h->J->m); }
    void draw(Sim& s, MemOp& o) override { o.kind = int(s.choose(2)); o.i = {s.range(1, 1 << 20)}; }
    bool op(const MemOp& o) override {
        NoFault nf;
        const int nc = b->g->number_of_cells, nfc = b->g->number_of_faces, nperf = W ? int(b->cells.size()) : 0; uint64_t st = uint64_t(o.i[0]);
        auto rnd = [&](size_t n, double lo, double hi) { dvec v(n); for (auto& x : v) { st = st * 6364136223846793005ull + 1442695040888963407ull; x = lo + (hi - lo) * double(st >> 40) / double(1 << 24); } return v; };
        auto diag = [&](size_t n) { dvec v(n * np * np, 0.0), d = rnd(n * np, 0.5, 2); for (size_t i = 0; i < n; ++i) for (int p = 0; p < np; ++p) v[(i * np + p) * np + p] = d[i * np + p]; return v; };
        dvec Ac = diag(nc), dAc = diag(nc), Af = diag(nfc), mob = rnd(size_t(nfc) * np, 0.5, 2), vd = rnd(nc, -0.1, 0.1), z = rnd(size_t(nc) * np, 0.1, 1), gc = rnd(size_t(nfc) * np, -0.1, 0.1), p = rnd(nc, 1, 2), wp = rnd(b->connpos.size(), 1, 2), pv = rnd(nc, 0.1, 0.3), pv0 = rnd(nc, 0.1, 0.3), rc = rnd(nc, 0, 0.01), wdp = rnd(size_t(nperf) * np + 1, -0.1, 0.1), wA = diag(nperf + 1), wm = rnd(size_t(nperf) * np + 1, 0.5, 2);
        compr_quantities_gen q; q.nphases = np; q.Ac = Ac.data(); q.dAc = dAc.data(); q.Af = Af.data(); q.phasemobf = mob.data(); q.voldiscr = vd.data();
        cd.wdp = wdp.data(); cd.A = wA.data(); cd.phasemob = wm.data();
        cfs_tpfa_res_forces F; F.wells = W ? &rw : nullptr; F.src = nullptr;
        int ok = 1; { const int sv = mem.suspend; mem.suspend = 0;
            if (o.kind == 0) cfs_tpfa_res_assemble(b->g, 1.0, &F, z.data(), &q, b->trans.data(), gc.data(), p.data(), wp.data(), pv.data(), h);
            else cfs_tpfa_res_comprock_assemble(b->g, 1.0, &F, z.data(), &q, b->trans.data(), gc.data(), p.data(), wp.data(), pv.data(), pv0.data(), rc.data(), h);
            mem.suspend = sv; }
        assembled = true; return ok;
    }
};

// ---------------------------------------------------------------- C++ classes
template <class O> struct Cpp { O* p = nullptr; template <class F> bool make(F f) { try { p = f(); } catch (const std::exception&) { p = nullptr; } return p != nullptr; } void del() { delete p; p = nullptr; } };
std::shared_ptr<Opm::EclipseGridParser> readDeck(const std::string& t) { std::istringstream is(t); std::shared_ptr<Opm::EclipseGridParser> d(new Opm::EclipseGridParser); CoutCapture quiet; d->read(is); return d; }
std::string listOf(const dvec& v) { std::ostringstream o; o.precision(17); for (size_t i = 0; i < v.size(); ++i) o << v[i] << (i % 8 == 7 ? "\n" : " "); return o.str(); }

struct GridMan : MemItemOf<GridMan> {
    int kind, n[3]; double h[3]; std::shared_ptr<Opm::EclipseGridParser> deck; Cpp<Opm::GridManager> o;
    GridMan(Sim& s, const MemBase&) {
        kind = int(s.choose(6)); for (int d = 0; d < 3; ++d) { n[d] = s.range(1, 3); h[d] = s.real(1, 9); }
        std::ostringstream d; d.precision(17);
        if (kind == 4) { Corner c(s); d << "SPECGRID\n" << c.n[0] << " " << c.n[1] << " " << c.n[2] << " 1 F /\nCOORD\n" << listOf(c.coord) << "/\nZCORN\n" << listOf(c.zcorn) << "/\n"; if (!c.act.empty()) { d << "ACTNUM\n"; for (int a : c.act) d << a << " "; d << "/\n"; } }
        if (kind == 5) { d << "DIMENS\n" << n[0] << " " << n[1] << " " << n[2] << " /\n";
            static const char* k[] = {"DXV", "DYV", "DZV"}; for (int a = 0; a < 3; ++a) { d << k[a] << "\n"; for (int i = 0; i < n[a]; ++i) d << h[a] + i << " "; d << "/\n"; }
            if (s.chance(1, 2)) { d << "DEPTHZ\n"; for (int i = 0; i < (n[0] + 1) * (n[1] + 1); ++i) d << s.real(1, 9) << " "; d << "/\n"; } }
        if (kind >= 4) deck = readDeck(d.str());
    }
    void reset() { o.p = nullptr; }
    bool create() override {
        return o.make([&] { return kind == 0 ? new Opm::GridManager(n[0], n[1]) : kind == 1 ? new Opm::GridManager(n[0], n[1], h[0], h[1]) : kind == 2 ? new Opm::GridManager(n[0], n[1], n[2])
            : kind == 3 ? new Opm::GridManager(n[0], n[1], n[2], h[0], h[1], h[2]) : new Opm::GridManager(*deck); });
    }
    void destroy() override { o.del(); }
    void dump(dvec& v) override { putGrid(v, o.p->c_grid()); }
};
struct BCMan : MemItemOf<BCMan> {
    const MemBase* b; Cpp<Opm::FlowBCManager> o;
    BCMan(Sim&, const MemBase& base) : b(&base) {}
    void reset() { o.p = nullptr; }
    bool create() override { return o.make([] { return new Opm::FlowBCManager; }); }
    void destroy() override { o.del(); }
    void dump(dvec& v) override { const FlowBoundaryConditions* c = o.p->c_bcs(); put(v, double(c->nbc)); if (c->nbc) putN(v, c->cond_pos, c->nbc + 1); putN(v, c->type, c->nbc); putN(v, c->value, c->nbc); putN(v, c->face, c->nbc ? c->cond_pos[c->nbc] : 0); }
    void draw(Sim& s, MemOp& op) override { op.kind = s.chance(1, 10) ? 2 : int(s.choose(4)) % 3 == 2 ? 3 : int(s.choose(2)); op.i = {int(s.choose(3)), s.range(0, 999), int(s.choose(b->dims.size() == 3 ? 6 : 4))}; op.d = {s.real(-1, 1)}; op.whole = op.kind != 3; }
    bool op(const MemOp& m) override {
        try {
            if (m.kind == 2) o.p->clear();
            else if (m.kind == 3 && b->g->cell_facetag) o.p->pressureSide(*b->g, Opm::FlowBCManager::Side(m.i[2]), m.d[0]);
            else o.p->append((enum FlowBCType)m.i[0], m.i[1], m.d[0]);
        } catch (const std::exception&) { return false; }
        return true;
    }
};
// Fluid and well objects from a deck
struct DeckThing {
    std::shared_ptr<Opm::EclipseGridParser> deck; std::shared_ptr<UnstructuredGrid> g; int nc; dvec perm;
    DeckThing(Sim& s, bool comp) {
        int n[3]; for (int d = 0; d < 3; ++d) n[d] = s.range(1, 3); nc = n[0] * n[1] * n[2]; const int nt = s.range(1, 3);
        std::ostringstream d; d.precision(17);
        const bool gas = comp && s.chance(1, 3), ep = s.chance(1, 3);
        d << "RUNSPEC\nOIL\nWATER\n" << (gas ? "GAS\n" : "") << "METRIC\nDIMENS\n" << n[0] << " " << n[1] << " " << n[2] << " /\n";
        if (ep) d << "ENDSCALE\n/\n";
        d << "TABDIMS\n" << nt << " /\nGRID\nPORO\n"; dvec v; for (int i = 0; i < nc; ++i) v.push_back(s.real(0.1, 0.4)); d << listOf(v) << "/\n";
        static const char* k[] = {"PERMX", "PERMY", "PERMZ"}; for (int a = 0; a < (s.chance(1, 2) ? 3 : 1); ++a) { v.clear(); for (int i = 0; i < nc; ++i) v.push_back(s.real(10, 500)); d << k[a] << "\n" << listOf(v) << "/\n"; }
        d << "PROPS\nDENSITY\n"; d << s.real(700, 900) << " 1000 1 /\n";
        if (comp) {
            d << "PVTW\n100 1.0 4e-5 0.5 0 /\n";
            const int ok = int(s.choose(3));
            if (ok == 0) d << "PVCDO\n100 1.2 1e-4 2 0 /\n"; else if (ok == 1) d << "PVDO\n50 1.3 1\n100 1.2 1.1\n300 1.1 1.4 /\n"; else if (gas) d << "PVTO\n10 50 1.2 1.0\n 100 1.15 1.1 /\n40 100 1.3 0.9\n 200 1.2 1.0 /\n/\n"; else d << "PVCDO\n100 1.2 1e-4 2 0 /\n";
            if (gas) { if (s.chance(1, 2)) d << "PVDG\n50 0.05 0.01\n100 0.02 0.015\n300 0.01 0.02 /\n"; else d << "PVTG\n50 0.001 0.05 0.01\n 0 0.06 0.011 /\n100 0.002 0.02 0.015\n 0 0.03 0.016 /\n/\n"; }
        } else d << "PVTW\n100 1.0 0 0.5 0 /\nPVCDO\n100 1.0 0 2 0 /\n";
        d << "SWOF\n"; for (int t = 0; t < nt; ++t) { const int np = s.range(2, 6); for (int i = 0; i <= np; ++i) { const double x = double(i) / np; d << x << " " << x * x << " " << (1 - x) * (1 - x) << " " << 1 - x << "\n"; } d << "/\n"; }
        if (gas) { d << "SGOF\n"; for (int t = 0; t < nt; ++t) d << "0 0 1 0\n0.5 0.2 0.3 0.1\n1 1 0 0.4 /\n"; }
        if (ep) { static const char* e[] = {"SWL", "SWCR", "SWU"}; static const double lo[] = {0, 0.1, 0.9}; for (int q = 0; q < 3; ++q) { v.clear(); for (int i = 0; i < nc; ++i) v.push_back(lo[q] + s.real(0, 0.1)); d << e[q] << "\n" << listOf(v) << "/\n"; } }
        if (nt > 1) { d << "REGIONS\nSATNUM\n"; for (int i = 0; i < nc; ++i) d << 1 + s.choose(nt) << " "; d << "/\n"; }
        d << "SOLUTION\nSCHEDULE\n";
        d << "WELSPECS\n 'I' 'G' 1 1 1* 'WATER' /\n 'P' 'G' " << n[0] << " " << n[1] << " 1* 'OIL' /\n/\nCOMPDAT\n 'I' 1 1 1 " << n[2] << " 'OPEN' 1* 2* 0.2 /\n 'P' " << n[0] << " " << n[1] << " 1 " << n[2] << " 'OPEN' 1* 5 /\n/\n";
        d << "WCONINJE\n 'I' 'WATER' 'OPEN' 'RATE' 10 1* 500 /\n/\nWCONPROD\n 'P' 'OPEN' 'BHP' 50 4* 100 /\n/\n";
        if (s.chance(1, 2)) d << "GCONPROD\n 'G' 'ORAT' 100 3* 'RATE' /\n/\n";
        d << "TSTEP\n1 /\n";
        deck = readDeck(d.str());
        g.reset(create_grid_cart3d(n[0], n[1], n[2]), destroy_grid);
        for (int c = 0; c < nc; ++c) for (int i = 0; i < 9; ++i) perm.push_back(i % 4 ? 0 : 1e-13);
    }
};
struct BoProps : MemItemOf<BoProps> {
    DeckThing t; Cpp<Opm::BlackoilPropertiesFromDeck> o; bool init;
    BoProps(Sim& s, const MemBase&) : t(s, true) {}
    void reset() { o.p = nullptr; }
    bool create() override { return o.make([&] { return new Opm::BlackoilPropertiesFromDeck(*t.deck, *t.g); }); }
    void destroy() override { o.del(); }
    void dump(dvec& v) override {
        NoFault nf; const int np = o.p->numPhases(); put(v, np); putN(v, o.p->porosity(), t.nc); putN(v, o.p->permeability(), 9 * t.nc); putN(v, o.p->surfaceDensity(), np);
        for (int c = 0; c < t.nc; ++c) { const double p = 1.2e7; dvec z(np, 1.0 / np), mu(np), B(np * np), dB(np * np), s(z), kr(np), dk(np * np), mn(np), mx(np); z.assign(np, 0.3);
            o.p->viscosity(1, &p, &z[0], &c, &mu[0], 0); o.p->matrix(1, &p, &z[0], &c, &B[0], &dB[0]); try { o.p->relperm(1, &s[0], &c, &kr[0], &dk[0]); } catch (const std::exception&) { o.p->relperm(1, &s[0], &c, &kr[0], 0); }   // no derivatives with end point scaling
            o.p->satRange(1, &c, &mn[0], &mx[0]);
            for (auto* q : {&mu, &B, &dB, &kr, &dk, &mn, &mx}) putN(v, q->data(), q->size()); }
    }
};
struct IncProps : MemItemOf<IncProps> {
    DeckThing t; Cpp<Opm::IncompPropertiesFromDeck> o;
    IncProps(Sim& s, const MemBase&) : t(s, false) {}
    void reset() { o.p = nullptr; }
    bool create() override { return o.make([&] { return new Opm::IncompPropertiesFromDeck(*t.deck, *t.g); }); }
    void destroy() override { o.del(); }
    void dump(dvec& v) override {
        NoFault nf; putN(v, o.p->porosity(), t.nc); putN(v, o.p->permeability(), 9 * t.nc); putN(v, o.p->viscosity(), 2); putN(v, o.p->density(), 2);
        for (int c = 0; c < t.nc; ++c) { const double s[2] = {0.4, 0.6}; double kr[2], dk[4] = {}, mn[2], mx[2]; try { o.p->relperm(1, s, &c, kr, dk); } catch (const std::exception&) { o.p->relperm(1, s, &c, kr, 0); } o.p->satRange(1, &c, mn, mx); putN(v, kr, 2); putN(v, dk, 4); putN(v, mn, 2); putN(v, mx, 2); }
    }
};
struct WellMan : MemItemOf<WellMan> {
    DeckThing t; Cpp<Opm::WellsManager> o; std::shared_ptr<Wells> W0;
    WellMan(Sim& s, const MemBase& b) : t(s, false) { if (b.wells() && s.chance(1, 3)) W0 = baseWells(b, 2); }
    void reset() { o.p = nullptr; }
    bool create() override { return o.make([&] { return W0 ? new Opm::WellsManager(W0.get()) : new Opm::WellsManager(*t.deck, *t.g, t.perm.data()); }); }
    void destroy() override { o.del(); }
    void dump(dvec& v) override {
        NoFault nf; const Wells* W = o.p->c_wells(); const int nw = W->number_of_wells; put(v, nw); putN(v, W->type, nw); putN(v, W->depth_ref, nw); putN(v, W->comp_frac, nw * W->number_of_phases);
        putN(v, W->well_connpos, nw + 1); putN(v, W->well_cells, W->well_connpos[nw]); putN(v, W->WI, W->well_connpos[nw]);
        for (int w = 0; w < nw; ++w) { const auto* c = W->ctrls[w]; put(v, c->num); put(v, c->current); putN(v, c->type, c->num); putN(v, c->target, c->num); putN(v, c->distr, c->num * W->number_of_phases); }
        put(v, double(o.p->wellCollection().getLeafNodes().size()));
    }
};
struct SolverObj : MemItemOf<SolverObj> {              // solver classes over the shared grid
    const MemBase* b; int kind; std::shared_ptr<Opm::IncompPropertiesBasic> props; std::shared_ptr<Wells> W; std::shared_ptr<Opm::LinearSolverUmfpack> ls; std::shared_ptr<Opm::parameter::ParameterGroup> par;
    Cpp<Opm::IncompTpfa> tp; Cpp<Opm::TransportSolverTwophaseReorder> tr; Cpp<Opm::TofReorder> tf; Cpp<Opm::TofDiscGalReorder> td; Cpp<Opm::LinearSolverFactory> lf;
    SolverObj(Sim& s, const MemBase& base) : b(&base), kind(int(s.choose(5))), ls(new Opm::LinearSolverUmfpack), par(new Opm::parameter::ParameterGroup) {
        props.reset(new Opm::IncompPropertiesBasic(2, Opm::SaturationPropsBasic::Quadratic, {1000, 800}, {1e-3, 2e-3}, 0.25, 1e-13, b->g->dimensions, b->g->number_of_cells));
        if (s.chance(1, 2)) W = baseWells(base, 2);
        par->disableOutput(); if (s.chance(1, 2)) par->insertParameter("dg_degree", s.chance(1, 2) ? "0" : "1"); if (s.chance(1, 2)) par->insertParameter("use_limiter", "true"), par->insertParameter("limiter_relative_flux_threshold", "0.01");
        if (kind == 4) par->insertParameter("linsolver", "umfpack");
    }
    void reset() { tp.p = nullptr; tr.p = nullptr; tf.p = nullptr; td.p = nullptr; lf.p = nullptr; }
    bool create() override {
        static const double g[3] = {0, 0, 9.8}; static dvec none;
        if (kind == 0) return tp.make([&] { return new Opm::IncompTpfa(*b->g, *props, *ls, g, W.get(), b->src, nullptr); });
        if (kind == 1) return tr.make([&] { return new Opm::TransportSolverTwophaseReorder(*b->g, *props, g, 1e-9, 30); });
        if (kind == 2) return tf.make([&] { return new Opm::TofReorder(*b->g, true); });
        if (kind == 3) return td.make([&] { return new Opm::TofDiscGalReorder(*b->g, *par); });
        return lf.make([&] { return new Opm::LinearSolverFactory(*par); });
    }
    void destroy() override { tp.del(); tr.del(); tf.del(); td.del(); lf.del(); }
    void dump(dvec& v) override { put(v, kind); putN(v, sol.data(), sol.size()); }
    dvec sol;
    void draw(Sim&, MemOp& o) override { o.kind = kind == 0 && W ? 0 : -1; }
    bool op(const MemOp&) override {                   // a pressure solve through the built object
        NoFault nf; Opm::TwophaseState st; st.init(*b->g, 2); Opm::WellState ws; ws.init(W.get(), st);
        { const int sv = mem.suspend; mem.suspend = 0; bool ok = true; try { tp.p->solve(1.0, st, ws); } catch (const std::exception&) { ok = false; } mem.suspend = sv; if (!ok) return false; }
        sol = st.pressure(); sol.insert(sol.end(), st.faceflux().begin(), st.faceflux().end()); return true;
    }
};

MemKindReg<CartGrid> k1("cartesian-grid"); MemKindReg<CornerGrid> k2("corner-point-grid"); MemKindReg<CornerGrid> k2b("corner-point-grid"); MemKindReg<FlowBC> k3("flow-conditions"); MemKindReg<Csr> k4("sparse-matrix");
MemKindReg<ComprSrc> k5("compressible-source"); MemKindReg<TransSrc> k6("transport-source"); MemKindReg<ComprQuant> k7("fluid-quantities"); MemKindReg<IfsTpfa> k8("ifs-tpfa"); MemKindReg<CfsRes> k9("cfs-tpfa-residual");
MemKindReg<GridMan> k10("grid-manager"); MemKindReg<BCMan> k11("bc-manager"); MemKindReg<BoProps> k12("blackoil-properties"); MemKindReg<IncProps> k13("incompressible-properties"); MemKindReg<WellMan> k14("wells-manager"); MemKindReg<SolverObj> k15("solver-object");

// ---------------------------------------------------------------- the run
struct Live { std::unique_ptr<MemItem> a, b; size_t kind; int id; };

void same(Sim& s, MemItem& a, MemItem& b, const char* kind, int id, const char* after) {
    NoFault nf; dvec x, y; a.dump(x); b.dump(y);
    s.require(x.size() == y.size(), "contents", "%s %d after %s: %zu entries, %zu when memory is plentiful", kind, id, after, x.size(), y.size());
    for (size_t i = 0; i < x.size(); ++i) {
        const bool eq = a.tol == 0 ? !memcmp(&x[i], &y[i], 8) || x[i] == y[i] : std::fabs(x[i] - y[i]) <= a.tol * (std::fabs(x[i]) + std::fabs(y[i]) + 1e-30);
        if (!eq) s.require(false, "contents", "%s %d after %s: entry %zu is %.17g, %.17g when memory is plentiful", kind, id, after, i, x[i], y[i]);
    }
    ++s.oracle_checks;
}

MemBase drawBase(Sim& s, GridPtr& own) {
    WorldOpt o; o.maxcells = 20; o.src = o.bcs = o.gravity = o.rockcomp = false; WorldSpec w = drawWorld(s, o);
    own = makeGrid(w); UnstructuredGrid* g = own.get(); MemBase b; b.g = g; const int nc = g->number_of_cells;
    for (int d = 0; d < w.dim; ++d) b.dims.push_back(w.n[d]);
    b.perm = w.perm; for (auto& k : b.perm) k *= 1e13;
    for (int c = 0; c < nc; ++c) { b.totmob.push_back(s.real(0.5, 2)); b.src.push_back(0); }
    b.src[0] += 1; b.src[nc - 1] -= 1;
    b.connpos.push_back(0);
    for (auto& x : w.wells) { for (size_t q = 0; q < x.cells.size(); ++q) { b.cells.push_back(x.cells[q]); b.WI.push_back(s.real(0.5, 2)); } b.connpos.push_back(int(b.cells.size())); b.bhp.push_back(s.real(1, 2)); }
    b.htrans.resize(g->cell_facepos[nc]); b.trans.resize(g->number_of_faces); tpfa_htrans_compute(g, b.perm.data(), b.htrans.data()); tpfa_trans_compute(g, b.htrans.data(), b.trans.data());
    const int nb = s.range(1, std::min(nc, 5)); for (int c = 0; c < nc; ++c) b.part.push_back(c < nb ? c : int(s.choose(nb)));
    return b;
}

void run(Sim& s) {
    NoFault nf0;
    const bool faults = s.faults_enabled && s.chance(9, 10);
    GridPtr own; const MemBase base = drawBase(s, own);
    mem.track = true; mem.fill_state = s.choose(1 << 16) + 1;
    const int fillA = s.faults_enabled ? 1 + int(s.choose(4)) : 0; int fillB = fillA;
    std::vector<Live> live; int nextId = 0;
    const size_t nk = memKinds().size();
    auto lib = [&](long at, long len, int fill, const std::function<bool()>& f) {
        mem.fill = fill; mem.count = 0; mem.failed = 0; mem.fail_at = at; mem.fail_len = len;
        const int sv = mem.suspend; mem.suspend = 0; mem.on = true;
        const bool ok = f();
        mem.on = false; mem.suspend = sv; mem.fail_at = -1; if (mem.failed) s.fault("allocation-failure");
        return ok;
    };
    const int nops = s.range(3, 16);
    for (int step = 0; step < nops; ++step) {
        s.step();
        const int what = live.empty() ? 0 : int(s.choose(8));
        const bool fault = faults && s.chance(2, 3);
        const double where = s.real(0, 1); const long len = s.chance(1, 4) ? 100000 : s.range(1, 2);
        if (s.faults_enabled) fillB = 1 + int(s.choose(4));
        const char* after = "?";
        if (what <= 3) {
            if (live.size() >= 10) continue;
            const size_t k = s.choose(nk); const char* kn = memKinds()[k].name; after = kn;
            Live l; l.kind = k; l.id = nextId++; l.a.reset(memKinds()[k].make(s, base)); l.b.reset(l.a->twin());
            {   // once untracked: whatever the library keeps for the life of the process is not a leak
                const uint64_t fs = mem.fill_state; mem.track = false; std::unique_ptr<MemItem> w(l.a->twin());
                if (lib(-1, 0, fillB, [&] { return w->create(); })) lib(-1, 0, fillB, [&] { w->destroy(); return true; });
                mem.track = true; mem.fill_state = fs;
            }
            const bool okb = lib(-1, 0, fillA, [&] { return l.b->create(); }); const long n = mem.count; const long before = memLive();
            const long at = fault && n ? std::min(n - 1, long(where * double(n))) : -1;
            bool oka = lib(at, len, fillB, [&] { return l.a->create(); }); const long failed = mem.failed;
            s.event("create %d %s: ok=%d/%d at %ld of %ld failed=%ld", l.id, kn, oka, okb, at, n, failed);
            s.require(oka <= okb, "contents", "%s %d was built although the arguments are refused when memory is plentiful", kn, l.id);
            s.require(oka || failed || !okb, "spurious-failure", "building %s %d failed although no allocation failed", kn, l.id);
            if (!oka) s.require(memLive() <= before, "leak", "%ld allocations are lost when building %s %d fails:%s", memLive() - before, kn, l.id, memLiveDesc().c_str());
            if (oka && failed) s.cover(std::string("built-despite-failure:") + kn);
            if (!oka && failed) s.cover(std::string("failed:") + kn);
            if (!oka && okb && s.chance(1, 2)) {      // memory is back
                oka = lib(-1, 0, fillB, [&] { return l.a->create(); });
                s.require(oka, "spurious-failure", "building %s %d fails also once memory is plentiful again", kn, l.id); s.cover("built-after-failure");
            }
            if (oka) { same(s, *l.a, *l.b, kn, l.id, "construction"); s.state(mix64(k, uint64_t(n))); live.push_back(std::move(l)); }
            else if (okb) lib(-1, 0, fillA, [&] { l.b->destroy(); return true; });
        } else if (what <= 6) {
            Live& l = live[s.choose(live.size())]; const char* kn = memKinds()[l.kind].name; after = "an operation";
            const int m = s.range(1, 8);
            for (int q = 0; q < m; ++q) {
                MemOp o; l.a->draw(s, o); if (o.kind < 0) break;
                const bool fq = faults && s.chance(1, 3) && o.whole;
                const long at = fq ? long(s.choose(6)) : -1; const long fl = s.chance(1, 2) ? 1 : 100000;
                const bool oka = lib(at, fl, fillB, [&] { return l.a->op(o); }); const long failed = mem.failed;
                s.event("op %d %s kind=%d ok=%d failed=%ld", l.id, kn, o.kind, oka, failed);
                s.require(oka || failed, "spurious-failure", "an operation on %s %d failed although no allocation failed", kn, l.id);
                if (oka) { const bool okb = lib(-1, 0, fillA, [&] { return l.b->op(o); }); s.require(okb, "spurious-failure", "an operation on %s %d succeeds with failing allocations only", kn, l.id); }
                else s.cover(std::string("operation-failed:") + kn);
                same(s, *l.a, *l.b, kn, l.id, oka ? "an operation" : "an operation that failed");
            }
        } else {
            const size_t i = s.choose(live.size()); after = "destruction"; s.event("destroy %d", live[i].id);
            lib(-1, 0, fillB, [&] { live[i].a->destroy(); return true; }); lib(-1, 0, fillA, [&] { live[i].b->destroy(); return true; });
            live.erase(live.begin() + long(i));
        }
        for (auto& l : live) same(s, *l.a, *l.b, memKinds()[l.kind].name, l.id, after);
    }
    for (auto& l : live) { lib(-1, 0, fillB, [&] { l.a->destroy(); return true; }); lib(-1, 0, fillA, [&] { l.b->destroy(); return true; }); }
    mem.fill = 0;
    s.require(memLive() == 0, "leak", "%ld allocations never released after all objects were destroyed:%s", memLive(), memLiveDesc().c_str());
    if (s.faults.size()) s.nontrivial();
}
Register reg("S11", run, "grid and corner-point construction, boundary conditions, sources, sparse matrices, TPFA and mimetic discretisations, coarse grids and multiscale systems, managers and properties from decks", "allocator results (fault plan), contents of fresh memory");
}
