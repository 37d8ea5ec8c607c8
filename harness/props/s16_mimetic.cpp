// S16: hybrid (mimetic) and multiscale pressure systems, checked against the mixed equations they stand for.
#include "props/call.hpp"
#include "props/field.hpp"
#include <opm/core/linalg/call_umfpack.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/pressure/fsh.h>
#include <opm/core/pressure/legacy_well.h>
#include <opm/core/pressure/mimetic/mimetic.h>
#include <opm/core/pressure/msmfem/coarse_conn.h>
#include <opm/core/pressure/msmfem/ifsh_ms.h>
#include <opm/core/pressure/msmfem/partition.h>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <set>

namespace {
uint64_t hashVec(uint64_t h, const dvec& v) { for (double x : v) { uint64_t b; memcpy(&b, &x, 8); h = mix64(h, b); } return h; }
// The inner product the mimetic method documents: N K N' + (6 tr K / d) A (I - QQ') A, over the volume, Q spanning A C.
void checkInnerProduct(Sim& s, const Field& F, const dvec& B) {
    const UnstructuredGrid* g = F.g; const int d = F.d; size_t p2 = 0;
    for (int c = 0; c < F.nc; ++c) {
        const int p = g->cell_facepos[c], n = g->cell_facepos[c + 1] - p; dvec Q(n * d), N(n * d), A(n);
        bool ok = n >= d; dvec nrm(d);
        for (int i = 0; i < n; ++i) { const int f = g->cell_faces[p + i]; A[i] = g->face_areas[f]; for (int j = 0; j < d; ++j) { Q[i + j * n] = A[i] * (g->face_centroids[f * d + j] - g->cell_centroids[c * d + j]); N[i + j * n] = F.sgn(c, f) * g->face_normals[f * d + j]; } }
        for (int j = 0; j < d && ok; ++j) {
            double n0 = 0; for (int i = 0; i < n; ++i) n0 += Q[i + j * n] * Q[i + j * n];
            for (int pass = 0; pass < 2; ++pass) for (int k = 0; k < j; ++k) { double t = 0; for (int i = 0; i < n; ++i) t += Q[i + j * n] * Q[i + k * n]; for (int i = 0; i < n; ++i) Q[i + j * n] -= t * Q[i + k * n]; }
            double n1 = 0; for (int i = 0; i < n; ++i) n1 += Q[i + j * n] * Q[i + j * n];
            ok = n1 > 1e-8 * n0 && n0 > 0; for (int i = 0; i < n; ++i) Q[i + j * n] /= std::sqrt(n1);
        }
        if (ok) {
            const double v = g->cell_volumes[c], t = 6 * F.trK(c) / d; double mx = 0; dvec ref(n * n);
            for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) {
                double a = 0, q = i == k ? 1 : 0; const double* K = &F.K[c * d * d];
                for (int x = 0; x < d; ++x) for (int y = 0; y < d; ++y) a += N[i + x * n] * K[x + y * d] * N[k + y * n];
                for (int x = 0; x < d; ++x) q -= Q[i + x * n] * Q[k + x * n];
                ref[i + k * n] = (a + t * A[i] * A[k] * q) / v; mx = std::max(mx, std::fabs(ref[i + k * n]));
            }
            for (int i = 0; i < n * n; ++i) s.require(std::fabs(B[p2 + i] - ref[i]) <= 1e-7 * mx, "inner-product", "cell %d: entry (%d,%d) of the inverse inner product is %.12g, expected %.12g", c, i % n, i / n, B[p2 + i], ref[i]);
        }
        p2 += n * n;
    }
}

struct Obj { virtual ~Obj() {} virtual void build(Sim&) = 0; virtual void step(Sim&) = 0; virtual void destroy() = 0; int id = 0; };
void freshFill(Sim& s) { mem.fill = s.faults_enabled ? 1 + int(s.choose(4)) : 0; }

// Construction, with one or more allocations failing first.
template <class H> void construct(Sim& s, const char* what, int id, H& h, const std::function<void()>& f) {
    freshFill(s); h = nullptr;
    if (s.faults_enabled && s.chance(1, 3)) {
        const long at = position(s); const long before = memLive(); const Call c = libcall(s, at, f);
        s.event("%s %d construct fail_at=%ld failed=%ld built=%d", what, id, at, c.failed, h != nullptr);
        s.require(h || c.failed, "spurious-failure", "constructing %s %d failed although no allocation failed", what, id);
        if (!h) s.require(memLive() <= before, "leak", "%ld allocations lost when constructing %s %d failed:%s", memLive() - before, what, id, memLiveDesc().c_str());
        if (!h) s.cover(std::string("construct-failed:") + what);
    }
    if (!h) { freshFill(s); const Call c = libcall(s, -1, f); s.event("%s %d construct allocs=%ld", what, id, c.allocs); }
    s.require(h != nullptr, "spurious-failure", "constructing %s %d fails although memory is plentiful", what, id);
}

// ------------------------------------------------------------------ hybrid systems
struct Hybrid : Obj {
    const Field& F; bool comp, tpfa, wells; fsh_data* h = nullptr;
    ivec wpos, wcells; LegacyWellCompletions W; dvec B0, g0; size_t nn = 0;
    Hybrid(Sim& s, const Field& F_) : F(F_), comp(s.chance(1, 3)), tpfa(s.chance(1, 3)), wells(!comp && s.chance(3, 4)) {
        if (tpfa && !positiveHalfTrans(F)) tpfa = false;
        wpos.push_back(0);
        if (wells) {
            const bool crowd = s.chance(1, 4); const int nw = crowd ? s.range(5, 14) : s.range(1, 4), hot = int(s.choose(F.nc));
            for (int k = 0; k < nw; ++k) {
                std::set<int> in; const int np = s.range(1, std::min(4, F.nc)); if (crowd || s.chance(1, 4)) in.insert(hot);
                for (int t = 0; int(in.size()) < np && t < 20; ++t) in.insert(int(s.choose(F.nc)));
                ivec cs(in.begin(), in.end()); if (s.chance(1, 2)) std::reverse(cs.begin(), cs.end());
                wcells.insert(wcells.end(), cs.begin(), cs.end()); wpos.push_back(int(wcells.size()));
            }
            if (crowd) s.cover("many-wells-in-a-cell");
        }
        W.number_of_wells = int(wpos.size()) - 1; W.well_connpos = wpos.data(); W.well_cells = wcells.data();
    }
    void build(Sim& s) override {
        UnstructuredGrid* g = F.g; construct(s, comp ? "compressible system" : "hybrid system", id, h, [&] { h = comp ? cfsh_construct(g, nullptr) : ifsh_construct(g, wells ? &W : nullptr); });
        int mx = 0; size_t sum = 0; for (int c = 0; c < F.nc; ++c) { const int n = g->cell_facepos[c + 1] - g->cell_facepos[c]; mx = std::max(mx, n); sum += size_t(n) * n; }
        s.require(h->max_ngconn == mx && h->sum_ngconn2 == sum, "sizes", "system %d reports %d faces in the largest cell and %zu inner-product entries, the grid has %d and %zu", id, h->max_ngconn, h->sum_ngconn2, mx, sum);
        nn = sum; B0.assign(nn, 1e300);
        if (tpfa) { std::fill(B0.begin(), B0.end(), 0.0); for (int c = 0, p = 0; c < F.nc; ++c) { const int a = g->cell_facepos[c], n = g->cell_facepos[c + 1] - a; for (int i = 0; i < n; ++i) B0[p + i * (n + 1)] = F.h[a + i]; p += n * n; } }
        else {
            dvec K = F.K; libcall(s, -1, [&] { mim_ip_simple_all(F.nc, F.d, h->max_ngconn, g->cell_facepos, g->cell_faces, g->face_cells, g->face_centroids, g->face_normals, g->face_areas, g->cell_centroids, g->cell_volumes, K.data(), B0.data()); });
            checkInnerProduct(s, F, B0);
        }
        g0.assign(F.nhf, 1e300); double grav[3]; const bool on = s.chance(1, 2); for (double& x : grav) x = on ? s.real(-0.3, 0.3) : 0;
        libcall(s, -1, [&] { mim_ip_compute_gpress(F.nc, F.d, grav, g->cell_facepos, g->cell_faces, g->face_centroids, g->cell_centroids, g0.data()); });
        for (int c = 0; c < F.nc; ++c) for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) {
            double e = 0, m = 0; for (int j = 0; j < F.d; ++j) { const double a = grav[j] * g->face_centroids[g->cell_faces[i] * F.d + j], b = grav[j] * g->cell_centroids[c * F.d + j]; e += a - b; m += std::fabs(a) + std::fabs(b); }
            s.require(std::fabs(e - g0[i]) <= 1e-12 * m, "gravity", "half face %d of cell %d has gravity pressure %.12g, expected %.12g", i, c, g0[i], e);
        }
    }
    void destroy() override { libcall(*g_sim, -1, [&] { fsh_destroy(h); }); }
    void step(Sim& s) override {
        UnstructuredGrid* g = F.g; const int nc = F.nc, nf = F.nf, nw = W.number_of_wells; const int np = wpos.back();
        // --- the problem
        dvec mob(nc), om(nc), src(nc, 0.0), P(nc, 0.0), V(F.nhf, 0.0); for (int c = 0; c < nc; ++c) { mob[c] = s.real(0.3, 3); om[c] = s.real(0, 2); }
        for (int k = s.range(0, 3); k > 0; --k) src[s.choose(nc)] += s.real(-1, 1);
        struct Bc { int type; double v; ivec f; }; std::vector<Bc> bcs; std::map<int, std::pair<int, double>> at; const int nbc = s.choose(3) ? s.range(1, 4) : 0;
        auto add = [&](int type, double v, const ivec& fs) { Bc b{type, v, {}}; for (int f : fs) if (!at.count(f)) { at[f] = {type, v}; b.f.push_back(f); } if (!b.f.empty()) bcs.push_back(b); };
        for (int k = 0; k < nbc; ++k) { ivec fs; for (int q = s.chance(1, 2) ? 1 : s.range(1, 5); q > 0; --q) { const int f = s.pick(F.bdry); if (std::find(fs.begin(), fs.end(), f) == fs.end()) fs.push_back(f); } const int t = s.chance(1, 2) ? BC_PRESSURE : BC_FLUX_TOTVOL; add(t, t == BC_PRESSURE ? s.real(0, 3) : s.real(-1, 1), fs); }
        std::vector<enum well_type> wt(nw + 1, INJECTOR); std::vector<enum well_control> wc(nw + 1, BHP); dvec tgt(nw + 1, 0.0), WI(np + 1, 0.0), wdp(np + 1, 0.0); bool bhp = false;
        for (int w = 0; w < nw; ++w) { wc[w] = s.chance(1, 2) ? BHP : RATE; tgt[w] = wc[w] == BHP ? s.real(0, 3) : s.real(-1, 1); if (tgt[w] < 0) wt[w] = PRODUCER; bhp |= wc[w] == BHP; }
        for (int q = 0; q < np; ++q) { WI[q] = s.real(0.2, 3); wdp[q] = s.real(-0.5, 0.5); }
        if (comp) {
            const int pk = int(s.choose(3)); for (int c = 0; c < nc; ++c) if (pk == 0 || (pk == 1 && s.chance(1, 3))) P[c] = -s.real(0.05, 2);
            if (s.chance(2, 3)) for (auto& x : V) x = s.real(-0.1, 0.1);
        }
        // --- every part of the reservoir needs something that fixes its pressure, or balanced sources
        bool anyV = false; for (double x : V) anyV |= x != 0;
        for (int k = 0; k < F.ncomp; ++k) {
            bool fixed = bhp && F.ncomp == 1;
            for (auto& b : at) { const int c = std::max(g->face_cells[2 * b.first], g->face_cells[2 * b.first + 1]); fixed |= b.second.first == BC_PRESSURE && F.comp[c] == k; }
            for (int c = 0; c < nc; ++c) fixed |= F.comp[c] == k && P[c] != 0;
            if (fixed) continue;
            if (F.ncomp > 1 || anyV || s.chance(1, 2)) {
                ivec fs; for (int f : F.bdry) if (F.comp[std::max(g->face_cells[2 * f], g->face_cells[2 * f + 1])] == k && !at.count(f)) fs.push_back(f);
                if (fs.empty()) throw Discard{"no free boundary face"};
                add(BC_PRESSURE, s.real(0, 3), {s.pick(fs)});
            } else {
                double tot = 0; for (double x : src) tot += x; for (int w = 0; w < nw; ++w) tot += tgt[w]; for (auto& b : at) tot -= b.second.second;
                src[s.choose(nc)] -= tot; s.cover("floating-pressure");
            }
        }
        dvec Bi(nn, 1e300), gp(F.nhf, 1e300), Biv(F.nhf, 0.0);
        freshFill(s);
        libcall(s, -1, [&] { mim_ip_mobility_update(nc, g->cell_facepos, mob.data(), B0.data(), Bi.data()); mim_ip_density_update(nc, g->cell_facepos, om.data(), g0.data(), gp.data()); });
        for (int c = 0, p2 = 0; c < nc; ++c) { const int a = g->cell_facepos[c], n = g->cell_facepos[c + 1] - a;
            for (int i = 0; i < n; ++i) s.require(gp[a + i] == om[c] * g0[a + i], "density-update", "half face %d", a + i);
            for (int i = 0; i < n * n; ++i) s.require(Bi[p2 + i] == mob[c] * B0[p2 + i], "mobility-update", "cell %d entry %d", c, i);
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Biv[a + i] += Bi[p2 + i + j * n] * V[a + j];
            p2 += n * n; }
        FlowBoundaryConditions* bc = nullptr;
        if (!bcs.empty() || s.chance(1, 2)) { bc = flow_conditions_construct(0); for (auto& b : bcs) { if (b.f.size() == 1) flow_conditions_append(FlowBCType(b.type), b.f[0], b.v, bc); else flow_conditions_append_multi(FlowBCType(b.type), b.f.size(), b.f.data(), b.v, bc); } }
        LegacyWellControls ctl; ctl.type = wt.data(); ctl.ctrl = wc.data(); ctl.target = tgt.data(); ctl.zfrac = nullptr;
        s.event("solve %d comp=%d tpfa=%d nw=%d nbc=%zu", id, comp, tpfa, nw, at.size());
        dvec cp(nc, 1e300), ff(nf, 1e300), wp(nw + 1, 1e300), wf(np + 1, 1e300);
        csrmatrix_zero(h->A); vector_zero(h->A->m, h->b); vector_zero(h->A->m, h->x);
        libcall(s, -1, [&] { if (comp) cfsh_assemble(bc, src.data(), Bi.data(), Biv.data(), P.data(), gp.data(), nullptr, nullptr, nullptr, nullptr, h); else ifsh_assemble(bc, src.data(), Bi.data(), gp.data(), wells ? &ctl : nullptr, WI.data(), wdp.data(), h); });
        call_UMFPACK(h->A, h->b, h->x);
        libcall(s, -1, [&] { fsh_press_flux(g, Bi.data(), gp.data(), h, cp.data(), ff.data(), wp.data(), wf.data()); });
        flow_conditions_destroy(bc);
        // --- the equations, from the outputs
        const double* x = h->x; dvec scale(nc, 0.0); double all = 0; ivec p2s(nc);
        for (int c = 0, p2 = 0; c < nc; ++c) { const int a = g->cell_facepos[c], n = g->cell_facepos[c + 1] - a; p2s[c] = p2; for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < n; ++j) t += std::fabs(Bi[p2 + i + j * n]) * (std::fabs(gp[a + j]) + std::fabs(cp[c]) + std::fabs(x[g->cell_faces[a + j]])); scale[c] += t; } p2 += n * n; }
        for (int q = 0, w = 0; q < np; ++q) { while (q >= wpos[w + 1]) ++w; scale[wcells[q]] += WI[q] * (std::fabs(wp[w]) + std::fabs(cp[wcells[q]]) + std::fabs(wdp[q])); }
        for (int c = 0; c < nc; ++c) { scale[c] += std::fabs(src[c]) + std::fabs(P[c] * cp[c]); all = std::max(all, scale[c]); }
        s.require(all < 1e12, "finite", "system %d: the solution is not finite", id);
        const char* nm = comp ? "compressible" : "incompressible";
        for (int c = 0; c < nc; ++c) {
            const int a = g->cell_facepos[c], n = g->cell_facepos[c + 1] - a; double net = 0, vu = 0;
            for (int i = 0; i < n; ++i) {
                const int f = g->cell_faces[a + i], o = g->face_cells[2 * f] == c ? g->face_cells[2 * f + 1] : g->face_cells[2 * f]; double u = 0; for (int j = 0; j < n; ++j) u += Bi[p2s[c] + i + j * n] * (gp[a + j] + cp[c] - x[g->cell_faces[a + j]]);
                const double out = F.sgn(c, f) * ff[f]; const double tol = 1e-8 * std::max(scale[c], o >= 0 ? scale[o] : 0.0) + 1e-12 * all;
                s.require(std::fabs(out - u) <= tol, "flux-law", "%s system %d: face %d carries %.12g out of cell %d, the pressures there imply %.12g", nm, id, f, out, c, u);
                auto it = at.find(f);
                if (it != at.end() && it->second.first == BC_PRESSURE) s.require(std::fabs(x[f] - it->second.second) <= 1e-9 * (1 + std::fabs(it->second.second)), "boundary-pressure", "%s system %d: face %d has pressure %.12g, prescribed %.12g", nm, id, f, x[f], it->second.second);
                else if (o < 0) { const double want = it != at.end() ? it->second.second : 0.0; s.require(std::fabs(out - want) <= tol, "boundary-flux", "%s system %d: boundary face %d carries %.12g, prescribed %.12g", nm, id, f, out, want); }
                net += out; vu += V[a + i] * out;
            }
            double q = src[c]; for (int k = 0; k < np; ++k) if (wcells[k] == c) q += wf[k];
            s.require(std::fabs(net - vu - P[c] * cp[c] - q) <= 1e-8 * scale[c] + 1e-12 * all, "mass-balance", "%s system %d: cell %d lets out %.12g (accumulation %.12g), its sources give %.12g", nm, id, c, net, -vu - P[c] * cp[c], q);
        }
        for (int w = 0; w < nw; ++w) {
            double sum = 0, sc = 0;
            for (int q = wpos[w]; q < wpos[w + 1]; ++q) {
                const int c = wcells[q]; const double want = WI[q] * (wp[w] - cp[c] - wdp[q]), m = WI[q] * (std::fabs(wp[w]) + std::fabs(cp[c]) + std::fabs(wdp[q])); sum += wf[q]; sc += m;
                s.require(std::fabs(wf[q] - want) <= 1e-9 * m, "well-law", "system %d: perforation %d of well %d injects %.12g, its drawdown implies %.12g", id, q, w, wf[q], want);
            }
            if (wc[w] == BHP) s.require(std::fabs(wp[w] - tgt[w]) <= 1e-9 * (1 + std::fabs(tgt[w])), "well-bhp", "system %d: well %d has pressure %.12g, its target is %.12g", id, w, wp[w], tgt[w]);
            else s.require(std::fabs(sum - tgt[w]) <= 1e-8 * sc + 1e-12 * all, "well-rate", "system %d: well %d injects %.12g, its target is %.12g", id, w, sum, tgt[w]);
        }
        s.cover(std::string(nm) + (tpfa ? "-tpfa" : "-mimetic")); if (nw) s.cover(bhp ? "wells-bhp" : "wells-rate-only"); if (at.size()) s.cover("boundary-conditions");
        s.nontrivial(); s.state(mix64(hashVec(mix64(7, nc), src), mix64(uint64_t(nw), at.size())));
    }
};

// ------------------------------------------------------------------ partitions
// Renumbering, splitting and inverting a partition, each against its definition.
ivec drawPartition(Sim& s, const Field& F) {
    const UnstructuredGrid* g = F.g; const int nc = F.nc; ivec p(nc); freshFill(s);
    if (s.chance(1, 2)) {
        ivec fine, coarse, idx(nc); for (int i = 0; i < F.d; ++i) { fine.push_back(g->cartdims[i]); coarse.push_back(s.range(1, g->cartdims[i])); }
        for (int c = 0; c < nc; ++c) idx[c] = g->global_cell ? g->global_cell[c] : c;
        int r = -1; const Call k = libcall(s, memFault(s) ? 0 : -1, [&] { r = partition_unif_idx(F.d, nc, fine.data(), coarse.data(), idx.data(), p.data()); });
        if (k.failed) { s.require(r == -1, "partition", "a uniform partition that could not be made reports %d", r); r = partition_unif_idx(F.d, nc, fine.data(), coarse.data(), idx.data(), p.data()); }
        s.require(r == nc, "partition", "a uniform partition of %d cells reports %d", nc, r);
        for (int c = 0; c < nc; ++c) {
            int q = idx[c], want = 0, mul = 1;
            for (int i = 0; i < F.d; ++i) { const int k1 = q % fine[i]; q /= fine[i]; const int L = fine[i] / coarse[i], R = fine[i] % coarse[i]; int b = 0, left = k1; while (left >= L + (b < R ? 1 : 0)) { left -= L + (b < R ? 1 : 0); ++b; } want += mul * b; mul *= coarse[i]; }
            s.require(p[c] == want, "partition", "cell %d is in uniform block %d, expected %d", c, p[c], want);
        }
        s.cover("partition-uniform");
    } else {
        const int nb = s.range(1, std::min(nc, 7)), gap = s.range(1, 3); for (int c = 0; c < nc; ++c) p[c] = (c < nb ? c : s.chance(2, 3) ? p[c - 1] / gap : int(s.choose(nb))) * gap;
        s.cover("partition-random");
    }
    auto compress = [&] {
        const ivec q = p; int r = -1; const Call k = libcall(s, memFault(s) ? 0 : -1, [&] { r = partition_compress(nc, p.data()); });
        if (k.failed) { s.require(r == -1 && p == q, "partition", "a renumbering that could not be made reports %d", r); r = partition_compress(nc, p.data()); }
        std::map<int, int> m; for (int b : q) m[b] = 0; int n = 0; for (auto& e : m) e.second = n++;
        s.require(r == n - 1, "partition", "renumbering %d blocks reports %d as the highest number", n, r);
        for (int c = 0; c < nc; ++c) s.require(p[c] == m[q[c]], "partition", "cell %d is in block %d after renumbering, expected %d", c, p[c], m[q[c]]);
    };
    compress();
    {   // split
        const ivec q = p; const int mx = *std::max_element(q.begin(), q.end()); int r = -2;
        const Call k = libcall(s, memFault(s) ? long(s.choose(9)) : -1, [&] { r = partition_split_disconnected(nc, F.nf, g->face_cells, p.data()); });
        if (k.failed) { s.require(r == -1 && p == q, "partition", "a split that could not be made reports %d", r); r = partition_split_disconnected(nc, F.nf, g->face_cells, p.data()); }
        ivec R(nc); for (int c = 0; c < nc; ++c) R[c] = c;
        for (int f = 0; f < F.nf; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a >= 0 && b >= 0 && q[a] == q[b]) R[find(R, a)] = find(R, b); }
        std::map<int, int> root2new, new2root; std::set<int> kept; int comps = 0;
        for (int c = 0; c < nc; ++c) {
            const int t = find(R, c); if (!root2new.count(t)) { root2new[t] = p[c]; ++comps; s.require(!new2root.count(p[c]), "partition", "two unconnected parts share block %d after the split", p[c]); new2root[p[c]] = t; if (p[c] == q[c]) kept.insert(q[c]); else s.require(p[c] > mx, "partition", "cell %d moves from block %d to the existing block %d", c, q[c], p[c]); }
            s.require(root2new[t] == p[c], "partition", "connected cells of block %d are in blocks %d and %d after the split", q[c], root2new[t], p[c]);
        }
        s.require(int(kept.size()) == mx + 1, "partition", "%d of %d blocks keep their number through the split", int(kept.size()), mx + 1);
        s.require(r == comps - (mx + 1), "partition", "splitting %d blocks into %d reports %d new ones", mx + 1, comps, r);
        s.require(new2root.rbegin()->first == comps - 1, "partition", "the highest block number after the split is %d of %d", new2root.rbegin()->first, comps);
        if (r > 0) s.cover("partition-split");
    }
    {   // invert
        const int mx = *std::max_element(p.begin(), p.end()); int *pi = nullptr, *inv = nullptr, r = -2; ivec loc(nc, -1);
        Call k = libcall(s, memFault(s) ? long(s.choose(2)) : -1, [&] { r = partition_allocate_inverse(nc, mx, &pi, &inv); });
        if (k.failed) { s.require(r <= 0 && !pi && !inv, "partition", "an inversion that could not be made reports %d", r); r = partition_allocate_inverse(nc, mx, &pi, &inv); }
        s.require(r == nc && pi && inv, "partition", "an inversion of %d cells reports %d", nc, r);
        libcall(s, -1, [&] { partition_invert(nc, p.data(), pi, inv); partition_localidx(mx + 1, pi, inv, loc.data()); });
        std::set<int> seen; s.require(pi[0] == 0 && pi[mx + 1] == nc, "partition", "the blocks hold %d of %d cells", pi[mx + 1] - pi[0], nc);
        for (int b = 0; b <= mx; ++b) for (int i = pi[b]; i < pi[b + 1]; ++i) { const int c = inv[i]; s.require(c >= 0 && c < nc && p[c] == b && seen.insert(c).second, "partition", "block %d lists cell %d", b, c); s.require(loc[c] == i - pi[b] && (i == pi[b] || inv[i - 1] < c), "partition", "cell %d is number %d of its block, listed at %d", c, loc[c], i - pi[b]); }
        libcall(s, -1, [&] { partition_deallocate_inverse(pi, inv); });
    }
    return p;
}
void checkTopology(Sim& s, const Field& F, const ivec& p) {
    const UnstructuredGrid* g = F.g; coarse_topology* t = nullptr; const int expct = s.chance(1, 4) ? 0 : s.range(1, 20);
    construct(s, "coarse topology", 0, t, [&] { t = coarse_topology_create(F.nc, F.nf, expct, p.data(), g->face_cells); });
    std::map<std::pair<int, int>, std::set<int>> want; const int nb = *std::max_element(p.begin(), p.end()) + 1;
    for (int f = 0; f < F.nf; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1], x = a >= 0 ? p[a] : -1, y = b >= 0 ? p[b] : -1; if (x != y) want[{std::min(x, y), std::max(x, y)}].insert(f); }
    s.require(t->nblocks == nb && t->nfaces == int(want.size()), "topology", "%d blocks and %d interfaces, expected %d and %zu", t->nblocks, t->nfaces, nb, want.size());
    std::set<std::pair<int, int>> seen; std::vector<std::set<int>> bf(nb);
    for (int j = 0; j < t->nfaces; ++j) {
        const int x = t->neighbours[2 * j], y = t->neighbours[2 * j + 1]; const std::pair<int, int> key(std::min(x, y), std::max(x, y));
        s.require(want.count(key) && seen.insert(key).second, "topology", "interface %d is between blocks %d and %d", j, x, y);
        if (x >= 0) bf[x].insert(j); if (y >= 0) bf[y].insert(j);
        if (t->subfaces) { std::set<int> sub(t->subfaces + t->subfacepos[j], t->subfaces + t->subfacepos[j + 1]); s.require(sub == want[key] && int(sub.size()) == t->subfacepos[j + 1] - t->subfacepos[j], "topology", "interface %d between blocks %d and %d lists %d fine faces, expected %zu", j, x, y, t->subfacepos[j + 1] - t->subfacepos[j], want[key].size()); }
    }
    s.require(expct == 0 || t->subfaces, "topology", "the fine faces were asked for and are not there");
    for (int b = 0; b < nb; ++b) { std::set<int> is(t->blkfaces + t->blkfacepos[b], t->blkfaces + t->blkfacepos[b + 1]); s.require(is == bf[b] && int(is.size()) == t->blkfacepos[b + 1] - t->blkfacepos[b], "topology", "block %d lists %d interfaces, expected %zu", b, t->blkfacepos[b + 1] - t->blkfacepos[b], bf[b].size()); }
    libcall(s, -1, [&] { coarse_topology_destroy(t); }); s.cover("topology"); s.nontrivial();
}

// ------------------------------------------------------------------ multiscale systems
void localSolve(CSRMatrix* A, double* b, double* x) { NoFault nf; call_UMFPACK(A, b, x); }
bool dense(int n, dvec A, dvec b, dvec& x) {
    for (int i = 0; i < n; ++i) {
        int q = i; for (int k = i + 1; k < n; ++k) if (std::fabs(A[k * n + i]) > std::fabs(A[q * n + i])) q = k;
        if (!(std::fabs(A[q * n + i]) > 0)) return false;
        if (q != i) { for (int j = 0; j < n; ++j) std::swap(A[q * n + j], A[i * n + j]); std::swap(b[q], b[i]); }
        for (int k = i + 1; k < n; ++k) { const double m = A[k * n + i] / A[i * n + i]; if (m == 0) continue; for (int j = i; j < n; ++j) A[k * n + j] -= m * A[i * n + j]; b[k] -= m * b[i]; }
    }
    x.assign(n, 0); for (int i = n - 1; i >= 0; --i) { double t = b[i]; for (int j = i + 1; j < n; ++j) t -= A[i * n + j] * x[j]; x[i] = t / A[i * n + i]; } return true;
}
struct MultiScale : Obj {
    const Field& F; ivec p; int nb; dvec mob, w; ifsh_ms_data* h = nullptr; dvec src0;
    struct Basis { int a, b; dvec psi; }; std::vector<Basis> basis;      // unit flow from block a to block b
    static bool usable(const Field& F, const ivec& p) { return F.ncomp == 1 && positiveHalfTrans(F) && *std::max_element(p.begin(), p.end()) >= 2; }
    MultiScale(Sim& s, const Field& F_, const ivec& p_) : F(F_), p(p_), nb(*std::max_element(p.begin(), p.end()) + 1), mob(F.nc), w(F.nc, 0.0), src0(F.nc, 0.0) {
        const UnstructuredGrid* g = F.g; for (auto& x : mob) x = s.chance(1, 4) ? 1 : s.real(0.3, 3);
        std::vector<int> sg(nb, 0); for (int k = s.range(0, 4); k > 0; --k) { const int c = int(s.choose(F.nc)); if (!sg[p[c]]) sg[p[c]] = s.chance(1, 2) ? 1 : -1; src0[c] += sg[p[c]] * s.real(0.1, 1); }
        dvec bs(nb, 0.0), bk(nb, 0.0); for (int c = 0; c < F.nc; ++c) { bs[p[c]] += src0[c]; bk[p[c]] += F.trK(c) * g->cell_volumes[c]; }
        for (int c = 0; c < F.nc; ++c) w[c] = sg[p[c]] ? src0[c] / bs[p[c]] : F.trK(c) * g->cell_volumes[c] / bk[p[c]];
        std::set<std::pair<int, int>> pr; for (int f = 0; f < F.nf; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a >= 0 && b >= 0 && p[a] != p[b]) pr.insert({std::min(p[a], p[b]), std::max(p[a], p[b])}); }
        for (auto& e : pr) {
            ivec loc(F.nc, -1); int n = 0; for (int c = 0; c < F.nc; ++c) if (p[c] == e.first || p[c] == e.second) loc[c] = n++;
            dvec A(n * n, 0.0), b(n, 0.0), x, T(F.nf, 0.0); std::vector<char> in(F.nf, 0);
            for (int c = 0; c < F.nc; ++c) if (loc[c] >= 0) { b[loc[c]] = p[c] == e.first ? w[c] : -w[c]; for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { const int f = g->cell_faces[i], o = g->face_cells[2 * f] == c ? g->face_cells[2 * f + 1] : g->face_cells[2 * f]; if (o >= 0 && loc[o] >= 0) { T[f] += 1 / (mob[c] * F.h[i]); in[f] = 1; } } }
            for (int f = 0; f < F.nf; ++f) if (in[f]) { T[f] = 1 / T[f]; const int i = loc[g->face_cells[2 * f]], j = loc[g->face_cells[2 * f + 1]]; A[i * n + i] += T[f]; A[j * n + j] += T[f]; A[i * n + j] -= T[f]; A[j * n + i] -= T[f]; }
            A[0] *= 2; b[0] += 0; if (!dense(n, A, b, x)) throw Discard{"singular block pair"};
            Basis B{e.first, e.second, dvec(F.nf, 0.0)}; for (int f = 0; f < F.nf; ++f) if (in[f]) B.psi[f] = T[f] * (x[loc[g->face_cells[2 * f]]] - x[loc[g->face_cells[2 * f + 1]]]);
            basis.push_back(B);
        }
        if (basis.size() < 2) throw Discard{"one degree of freedom"};
    }
    void build(Sim& s) override { construct(s, "multiscale system", id, h, [&] { h = ifsh_ms_construct(F.g, p.data(), F.K.data(), src0.data(), mob.data(), localSolve); }); }
    void destroy() override { libcall(*g_sim, -1, [&] { ifsh_ms_destroy(h); }); }
    void step(Sim& s) override {
        UnstructuredGrid* g = F.g; const int nc = F.nc; dvec m = mob, src = src0, cp(nc, 1e300), ff(F.nf, 1e300);
        const bool newMob = s.chance(2, 3); if (newMob) for (auto& x : m) x = s.real(0.3, 3);
        if (s.chance(1, 2)) { std::fill(src.begin(), src.end(), 0.0); for (int k = s.range(1, 3); k > 0; --k) src[s.choose(nc)] += s.real(-1, 1); }
        double tot = 0; for (double x : src) tot += x; src[s.choose(nc)] -= tot;
        s.event("multiscale %d nb=%d newmob=%d", id, nb, newMob); freshFill(s);
        libcall(s, -1, [&] { ifsh_ms_assemble(src.data(), m.data(), h); }); call_UMFPACK(h->A, h->b, h->x);
        libcall(s, -1, [&] { ifsh_ms_press_flux(g, h, cp.data(), ff.data()); });
        dvec bs(nb, 0.0); double all = 1e-3; for (int c = 0; c < nc; ++c) bs[p[c]] += src[c]; for (double x : ff) { s.require(std::fabs(x) < 1e12, "finite", "multiscale system %d: the solution is not finite", id); all = std::max(all, std::fabs(x)); }
        double hl = 1e300, hm = 0; for (double x : F.h) { hl = std::min(hl, x); hm = std::max(hm, x); } const double eps = 1e-8 + 1e-13 * hm / hl;   // rounding of the local solves
        dvec div(nc, 0.0), rec(F.nf, 0.0);
        for (int f = 0; f < F.nf; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a >= 0) div[a] += ff[f]; if (b >= 0) div[b] -= ff[f]; if (a < 0 || b < 0) s.require(std::fabs(ff[f]) <= eps * all, "boundary-flux", "multiscale system %d: boundary face %d carries %.12g", id, f, ff[f]); }
        for (int c = 0; c < nc; ++c) s.require(std::fabs(div[c] - bs[p[c]] * w[c]) <= eps * all, "mass-balance", "multiscale system %d: cell %d lets out %.12g, its share of the source of block %d is %.12g", id, c, div[c], p[c], bs[p[c]] * w[c]);
        for (auto& B : basis) { double q = 0; for (int f = 0; f < F.nf; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; if (p[a] == B.a && p[b] == B.b) q += ff[f]; if (p[a] == B.b && p[b] == B.a) q -= ff[f]; } for (int f = 0; f < F.nf; ++f) rec[f] += q * B.psi[f]; }
        for (int f = 0; f < F.nf; ++f) s.require(std::fabs(rec[f] - ff[f]) <= eps * all, "basis", "multiscale system %d: face %d carries %.12g, the basis functions give %.12g", id, f, ff[f], rec[f]);
        dvec P(nb, 0.0); std::vector<char> has(nb, 0); for (int c = 0; c < nc; ++c) { if (has[p[c]]) s.require(cp[c] == P[p[c]], "block-pressure", "multiscale system %d: block %d has pressures %.12g and %.12g", id, p[c], P[p[c]], cp[c]); P[p[c]] = cp[c]; has[p[c]] = 1; }
        double pAll = 0; for (double x : P) pAll = std::max(pAll, std::fabs(x));
        for (auto& B : basis) {
            double e = 0, amp = 0, sc = std::fabs(P[B.a]) + std::fabs(P[B.b]);
            for (int c = 0; c < nc; ++c) if (p[c] == B.a || p[c] == B.b) for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { const int f = g->cell_faces[i]; const double t = B.psi[f] * ff[f] / (m[c] * F.h[i]); e += t; sc += std::fabs(t); amp += std::fabs(B.psi[f]) * all / (m[c] * F.h[i]); }
            s.require(std::fabs(e - (P[B.a] - P[B.b])) <= 1e-7 * sc + 1e-2 * eps * (pAll + amp), "flux-law", "multiscale system %d: blocks %d and %d differ in pressure by %.12g, the flow between them needs %.12g", id, B.a, B.b, P[B.a] - P[B.b], e);
        }
        s.cover(newMob ? "multiscale-new-mobility" : "multiscale"); if (nb == nc) s.cover("multiscale-identity"); s.nontrivial(); s.state(mix64(hashVec(mix64(9, nb), src), hashVec(nc, m)));
    }
};

void run(Sim& s) {
    NoFault nf0; Field F; drawField(s, F); mem.track = true; mem.fill_state = s.choose(1 << 16) + 1; freshFill(s);
    std::vector<std::unique_ptr<Obj>> live; int ids = 0; long base = -1;
    const int nops = s.range(2, 10);
    for (int k = 0; k < nops; ++k) {
        s.step(); s.simTime(86400);
        const int what = live.empty() ? int(s.choose(3)) : int(s.choose(8));
        if (base < 0) base = memLive();
        if (what <= 2) {
            if (live.size() >= 4) continue;
            std::unique_ptr<Obj> o;
            if (what == 0) o.reset(new Hybrid(s, F));
            else { const ivec p = drawPartition(s, F); if (what == 1 || !MultiScale::usable(F, p)) { checkTopology(s, F, p); continue; } o.reset(new MultiScale(s, F, p)); }
            o->id = ids++; o->build(s); o->step(s); live.push_back(std::move(o));
        } else if (what <= 6) live[s.choose(live.size())]->step(s);
        else { const size_t i = s.choose(live.size()); live[i]->destroy(); live.erase(live.begin() + long(i)); }
    }
    for (auto& o : live) o->destroy();
    if (base >= 0) s.require(memLive() <= base, "leak", "%ld allocations are left when every system is gone:%s", memLive() - base, memLiveDesc().c_str());
    mem.track = false; mem.fill = 0;
}
Register reg("S16", run, "hybrid system assembly and back-substitution (incompressible and compressible), mimetic inner product, boundary and well elimination, partitions, coarse topology, basis functions and multiscale system, UMFPACK", "allocator results (fault plan), contents of fresh memory");
}
