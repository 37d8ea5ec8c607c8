// S04: transport and segregation steps against their own equations, under every numbering.
#include "props/graph.hpp"
#include "props/compworld.hpp"
#include "props/libcall.hpp"
#include <opm/core/grid/ColumnExtract.hpp>
#include <opm/core/transport/reorder/ReorderSolverInterface.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>

namespace {
// ------------------------------------------------ the visiting schedule itself
struct Recorder : Opm::ReorderSolverInterface {
    std::vector<ivec> blocks;
    void go(const UnstructuredGrid& g, const double* f) { reorderAndTransport(g, f); }
    void solveSingleCell(const int c) override { NoFault nf; blocks.push_back(ivec(1, c)); }
    void solveMultiCell(const int n, const int* c) override { NoFault nf; blocks.push_back(ivec(c, c + n)); }
};
FlowKind drawKind(Sim& s) { const int k = int(s.choose(3)); return k == 0 ? Potential : k == 1 ? Free : Circulating; }

void schedule(Sim& s) {
    const int maxc = s.chance(1, 12) ? 900 : s.chance(1, 3) ? 8 : 60;
    GridCopyPtr base = randomGraph(s, maxc); Numbering num(s, base->g); GridCopyPtr G = renumber(base->g, num);
    const UnstructuredGrid& g = G->g; const int nc = g.number_of_cells;
    Recorder rec;
    const int n = s.range(1, 3);
    for (int i = 0; i < n; ++i) {
        s.step();
        const dvec f = num.toFaces(drawFlux(s, base->g, drawKind(s), 1.0, true));
        rec.blocks.clear();
        Call c = libcall(s, memFault(s) ? position(s) % 12 : -1, [&] { rec.go(g, f.data()); });
        s.event("schedule nc=%d threw=%d blocks=%zu", nc, c.threw, rec.blocks.size());
        if (c.threw) { s.require(c.failed > 0, "gave-up", "sequencing %d cells failed without cause: %s", nc, c.what.c_str()); continue; }
        ivec pos(nc, -1); int k = 0;
        for (auto& b : rec.blocks) { for (int q : b) { s.require(q >= 0 && q < nc && pos[q] < 0, "visit-once", "cell %d visited twice or unknown", q); pos[q] = k; } ++k; }
        for (int q = 0; q < nc; ++q) s.require(pos[q] >= 0, "visit-once", "cell %d of %d never visited", q, nc);
        int ncomp; const ivec lab = flowComponents(g, f, &ncomp);
        for (int j = 0; j < g.number_of_faces; ++j) {
            int a = g.face_cells[2 * j], b = g.face_cells[2 * j + 1]; if (a < 0 || b < 0 || f[j] == 0) continue; if (f[j] < 0) std::swap(a, b);
            s.require(pos[a] <= pos[b], "flow-order", "cell %d (visited in block %d) flows into cell %d (block %d)", a, pos[a], b, pos[b]);
            s.require((pos[a] == pos[b]) == (lab[a] == lab[b]), "blocks", "cells %d and %d: %s one block, but %s mutually connected by the flow", a, b, pos[a] == pos[b] ? "in" : "not in", lab[a] == lab[b] ? "are" : "are not");
        }
        s.require(int(rec.blocks.size()) == ncomp, "blocks", "%zu blocks for %d flow components", rec.blocks.size(), ncomp);
        s.state(mix64(nc, ncomp)); s.nontrivial();
        if (ncomp < nc) s.cover("circulating");
    }
}

bool same(const dvec& a, const dvec& b) { return sameBits(a, b); }

// ------------------------------------------------ incompressible transport
struct IncRes { dvec r, tol; bool ill = false; };
IncRes incResidual(const UnstructuredGrid& g, const HeteroProps& props, const dvec& flux, const dvec& pv, const dvec& q, double dt, const dvec& s0, const dvec& s1, double tol) {
    const int nc = g.number_of_cells; IncRes R; R.r.assign(nc, 0); R.tol.assign(nc, 0);
    const double M = props.viscosity()[1] / props.viscosity()[0], amp = 1 + 4 * (M + 1 / M);
    dvec in(nc, 0.0), out(nc, 0.0), inabs(nc, 0.0), net(nc, 0.0), fr(nc);
    for (int c = 0; c < nc; ++c) fr[c] = props.frac(s1[2 * c]);
    for (int f = 0; f < g.number_of_faces; ++f) {
        int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue;
        double v = flux[f]; if (v < 0) { std::swap(a, b); v = -v; }
        out[a] += v; in[b] += v * fr[a]; inabs[b] += v; net[a] += v; net[b] -= v;
    }
    for (int c = 0; c < nc; ++c) {
        // water flows in over faces and from positive sources, total fluid leaves with the cell's own fraction;
        // what is not balanced by sources compresses the cell's contents at constant saturation
        const double k = dt / pv[c];
        const double win = in[c] + std::max(q[c], 0.0), tout = out[c] + std::max(-q[c], 0.0);
        R.r[c] = s1[2 * c] - s0[2 * c] + k * (tout * fr[c] - win + (q[c] - net[c]) * s1[2 * c]);
        const double scale = 1 + k * (tout * amp + inabs[c] + std::fabs(q[c]) + std::fabs(net[c]));
        R.tol[c] = 1.01 * tol + 4e-9 * k * inabs[c] * amp + 3e-13 * scale;
        if (scale * 1e-13 > tol) R.ill = true;
    }
    return R;
}

void incomp(Sim& s) {
    const int maxc = s.chance(1, 10) ? 200 : 40;
    GridCopyPtr base = randomGraph(s, maxc); const UnstructuredGrid& g = base->g; const int nc = g.number_of_cells;
    const bool lin = s.chance(1, 2);
    dvec poro(nc, 0.2), perm(9 * nc, 0.0); for (int c = 0; c < nc; ++c) for (int i = 0; i < 3; ++i) perm[9 * c + 4 * i] = 1e-13;
    HeteroProps props(lin ? Opm::SaturationPropsBasic::Linear : Opm::SaturationPropsBasic::Quadratic, {1000, 800}, {s.logreal(3e-4, 3e-3), s.logreal(3e-4, 1e-2)}, poro, perm, 3);
    props.kind = lin ? 1 : 2;
    static const double tols[] = {1e-9, 1e-6, 1e-11}; const double tol = tols[s.choose(3)]; const int maxit = s.chance(1, 4) ? 30 : 300;
    Opm::TransportSolverTwophaseReorder ts(g, props, nullptr, tol, maxit);
    Opm::TwophaseState st; st.saturation().resize(2 * nc); st.faceflux().resize(g.number_of_faces); st.pressure().assign(nc, 1e7);
    for (int c = 0; c < nc; ++c) { st.saturation()[2 * c] = 0; st.saturation()[2 * c + 1] = 1; }
    const int steps = s.range(1, 3);
    for (int i = 0; i < steps; ++i) {
        s.step();
        const int sk = int(s.choose(3));
        if (sk == 0) randomSat(s, st.saturation()); else if (sk == 1) for (int c = 0; c < nc; ++c) { const double v = double(s.choose(2)); st.saturation()[2 * c] = v; st.saturation()[2 * c + 1] = 1 - v; }
        const double Q = 1.0; const FlowKind kind = drawKind(s);
        st.faceflux() = drawFlux(s, g, kind, Q, true);
        const bool balanced = s.chance(3, 4);
        dvec q = netOut(g, st.faceflux(), false); if (!balanced) for (auto& x : q) if (s.chance(1, 2)) x = Q * s.real(-1, 1);
        dvec pv(nc); for (auto& x : pv) x = s.logreal(0.3, 3);
        const double dt = s.logreal(0.01, 300); s.simTime(dt);
        const Opm::TwophaseState before = st;
        bool warned = false; Call c;
        { CerrCapture err; c = libcall(s, memFault(s) ? position(s) : -1, [&] { ts.solve(pv.data(), q.data(), dt, st); }); warned = err.has("Maximum number") || err.has("not bracketed"); }
        int ncomp; flowComponents(g, st.faceflux(), &ncomp);
        s.event("transport nc=%d comps=%d dt=%g tol=%g threw=%d warned=%d", nc, ncomp, dt, tol, c.threw, warned);
        if (c.threw) {
            s.require(same(st.saturation(), before.saturation()), "state-kept", "a failed transport step changed the saturations");
            if (!c.failed) { s.cover("gave-up"); s.require(ncomp < nc || warned, "gave-up", "a transport step without circulating flow failed: %s", c.what.c_str()); }
            continue;
        }
        s.eventData("s", st.saturation().data(), st.saturation().size());
        const IncRes R = incResidual(g, props, st.faceflux(), pv, q, dt, before.saturation(), st.saturation(), tol);
        if (warned) { s.cover("warned"); s.require(maxit == 30 || R.ill || !balanced, "warned", "the cell equations were not solved within %d iterations", maxit); continue; }
        for (int k = 0; k < nc; ++k) {
            s.require(st.saturation()[2 * k] >= 0 && st.saturation()[2 * k] <= 1 && std::fabs(st.saturation()[2 * k] + st.saturation()[2 * k + 1] - 1) < 1e-14, "range", "saturations %.17g %.17g in cell %d", st.saturation()[2 * k], st.saturation()[2 * k + 1], k);
            s.require(std::fabs(R.r[k]) <= R.tol[k], "equation", "cell %d of %d: residual %g (tolerance %g) after a transport step, saturation %.12g -> %.12g", k, nc, R.r[k], R.tol[k], before.saturation()[2 * k], st.saturation()[2 * k]);
        }
        s.state(mix64(mix64(nc, ncomp), uint64_t(kind * 8 + balanced * 4 + lin))); s.nontrivial();
        if (ncomp < nc) s.cover("circulating");
        // the same problem numbered differently: two solutions of a monotone scheme differ by no more than their residuals
        if (balanced && s.chance(1, 2)) {
            Numbering num(s, g); GridCopyPtr G2 = renumber(g, num);
            Opm::TransportSolverTwophaseReorder t2(G2->g, props, nullptr, tol, maxit);
            Opm::TwophaseState s2; s2.saturation() = num.toCells(before.saturation(), 2); s2.faceflux() = num.toFaces(st.faceflux()); s2.pressure() = st.pressure();
            const dvec pv2 = num.toCells(pv), q2 = num.toCells(q); bool w2; Call c2;
            { CerrCapture err; c2 = libcall(s, -1, [&] { t2.solve(pv2.data(), q2.data(), dt, s2); }); w2 = err.has("Maximum number") || err.has("not bracketed"); }
            if (!c2.threw && !w2) {
                const dvec sb = num.fromCells(s2.saturation(), 2); double d = 0, lim = 0;
                const IncRes R2 = incResidual(g, props, st.faceflux(), pv, q, dt, before.saturation(), sb, tol);
                for (int k = 0; k < nc; ++k) { d += pv[k] * std::fabs(sb[2 * k] - st.saturation()[2 * k]); lim += pv[k] * (std::fabs(R.r[k]) + std::fabs(R2.r[k]) + 1e-12 + R.tol[k]); }
                s.require(d <= 1.1 * lim, "numbering", "the same step under another numbering differs by %g (bound %g)", d, lim);
                s.cover("renumbered");
            } else if (c2.threw) s.require(ncomp < nc, "gave-up", "a renumbered transport step without circulating flow failed");
        }
    }
}

// ------------------------------------------------ segregation in columns
struct ColRes { double worst = 0; int cell = -1; double tol = 0, r = 0; double drift = 0; };
// flux of water from one cell to the next in a column, at the final saturations
template <class Mob> void columnCheck(Sim& s, const UnstructuredGrid& g, const std::vector<std::vector<int>>& cols, const dvec& gf, const dvec& pv, double dt, const dvec& s0, const dvec& s1, double tol, double mubound, Mob mob, const char* what) {
    const int nc = g.number_of_cells;
    dvec m(2 * nc); for (int c = 0; c < nc; ++c) mob(c, s1[2 * c], &m[2 * c]);
    dvec out(nc, 0.0), lip(nc, 0.0); ivec colOf(nc, -1), posIn(nc, -1);
    for (size_t i = 0; i < cols.size(); ++i) for (size_t j = 0; j < cols[i].size(); ++j) { colOf[cols[i][j]] = int(i); posIn[cols[i][j]] = int(j); }
    for (auto& col : cols) for (size_t j = 0; j + 1 < col.size(); ++j) {
        const int a = col[j], b = col[j + 1]; double G = 0;
        for (int i = g.cell_facepos[a]; i < g.cell_facepos[a + 1]; ++i) { const int f = g.cell_faces[i]; const int c1 = g.face_cells[2 * f], c2 = g.face_cells[2 * f + 1]; if (c1 == b || c2 == b) G = c1 == a ? gf[f] : -gf[f]; }
        const int w = G < 0 ? a : b, o = G < 0 ? b : a;     // where water and oil come from
        const double mw = m[2 * w], mo = m[2 * o + 1], F = mw + mo > 0 ? std::fabs(G) * mw * mo / (mw + mo) : 0.0;
        out[w] += F; out[o] -= F; lip[a] += std::fabs(G) * mubound; lip[b] += std::fabs(G) * mubound;
    }
    double tot0 = 0, tot1 = 0;
    for (int c = 0; c < nc; ++c) {
        const double k = dt / pv[c], r = s1[2 * c] - s0[2 * c] + k * out[c], t = 4 * tol * (1 + k * lip[c]) + 3e-13 * (1 + k * lip[c]);
        s.require(s1[2 * c] >= 0 && s1[2 * c] <= 1 && std::fabs(s1[2 * c] + s1[2 * c + 1] - 1) < 1e-14, "range", "%s: saturations %.17g %.17g in cell %d", what, s1[2 * c], s1[2 * c + 1], c);
        s.require(std::fabs(r) <= t, "equation", "%s: residual %g (tolerance %g) in cell %d, saturation %.12g -> %.12g", what, r, t, c, s0[2 * c], s1[2 * c]);
        tot0 += pv[c] * s0[2 * c]; tot1 += pv[c] * s1[2 * c];
    }
    (void)tot0; (void)tot1; (void)colOf; (void)posIn;
}
std::vector<std::vector<int>> myColumns(const UnstructuredGrid& g) {   // cells above each other that touch
    std::map<int, std::map<int, int>> m; const int n0 = g.cartdims[0], n1 = g.cartdims[1];
    for (int c = 0; c < g.number_of_cells; ++c) { const int i = g.global_cell ? g.global_cell[c] : c; m[i % (n0 * n1)][i / (n0 * n1)] = c; }
    std::vector<std::vector<int>> v;
    for (auto& p : m) { v.push_back({}); int last = -1;
        for (auto& q : p.second) { bool nb = last < 0; for (int i = g.cell_facepos[q.second]; i < g.cell_facepos[q.second + 1]; ++i) { const int f = g.cell_faces[i]; if (g.face_cells[2 * f] == last || g.face_cells[2 * f + 1] == last) nb = true; }
            if (!nb && !v.back().empty()) v.push_back({}); v.back().push_back(q.second); last = q.second; } }
    return v;
}

void gravity(Sim& s) {
    WorldOpt o; o.maxcells = 40; o.wells = o.src = o.bcs = o.rockcomp = false; o.two_d = false; o.smooth_relperm = true;
    WorldSpec spec = drawWorld(s, o); spec.grav = true; spec.g[2] = s.chance(1, 5) ? -9.8 : 9.8; if (s.chance(1, 4)) std::swap(spec.rho[0], spec.rho[1]);
    World w(spec); Numbering num(s, *w.grid); GridCopyPtr G = renumber(*w.grid, num); const UnstructuredGrid& g = G->g; const int nc = g.number_of_cells;
    const dvec poro = num.toCells(spec.poro), perm = num.toCells(spec.perm, 9);
    HeteroProps props(spec.relperm == 1 ? Opm::SaturationPropsBasic::Linear : Opm::SaturationPropsBasic::Quadratic, spec.rho, spec.mu, poro, perm, 3);
    static const double tols[] = {1e-9, 1e-6}; const double tol = tols[s.choose(2)]; const int maxit = s.chance(1, 2) ? 30 : 300;
    Opm::TransportSolverTwophaseReorder ts(g, props, spec.g, tol, maxit);
    dvec ht(g.cell_facepos[nc]), gf(g.number_of_faces);
    tpfa_htrans_compute(const_cast<UnstructuredGrid*>(&g), perm.data(), ht.data()); tpfa_trans_compute(const_cast<UnstructuredGrid*>(&g), ht.data(), gf.data());
    double T = 0;
    for (int f = 0; f < g.number_of_faces; ++f) { const int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; gf[f] *= a < 0 || b < 0 ? 0.0 : (spec.rho[0] - spec.rho[1]) * spec.g[2] * (g.cell_centroids[3 * a + 2] - g.cell_centroids[3 * b + 2]); T = std::max(T, std::fabs(gf[f])); }
    const auto cols = myColumns(g);
    Opm::TwophaseState st; st.saturation() = num.toCells(w.state.saturation(), 2); st.pressure().assign(nc, 1e7);
    const double mumin = std::min(spec.mu[0], spec.mu[1]);
    const int steps = s.range(1, 3);
    for (int i = 0; i < steps; ++i) {
        s.step(); if (i || s.chance(1, 2)) randomSat(s, st.saturation());
        dvec pv(nc); for (int c = 0; c < nc; ++c) pv[c] = poro[c] * g.cell_volumes[c] * (s.chance(1, 3) ? s.real(0.9, 1.1) : 1.0);
        double pvmin = 1e300; for (double x : pv) pvmin = std::min(pvmin, x);
        const double dt = s.logreal(0.01, 30) * pvmin * mumin / std::max(T, 1e-300); if (!(dt < 1e12)) throw Discard{"no gravity"}; s.simTime(dt);
        const Opm::TwophaseState before = st; bool warned; Call c;
        { CerrCapture err; c = libcall(s, memFault(s) ? position(s) % 40 : -1, [&] { ts.solveGravity(pv.data(), dt, st); }); warned = err.has("Maximum number") || err.has("not bracketed"); }
        s.event("segregation nc=%d columns=%zu threw=%d warned=%d", nc, cols.size(), c.threw, warned);
        if (c.threw) { s.require(same(st.saturation(), before.saturation()), "state-kept", "a failed segregation step changed the saturations"); if (!c.failed) s.cover("gave-up"); continue; }
        s.eventData("s", st.saturation().data(), st.saturation().size());
        if (warned) { s.cover("warned"); s.require(maxit == 30, "warned", "the cell equations were not solved within %d iterations", maxit); continue; }
        columnCheck(s, g, cols, gf, pv, dt, before.saturation(), st.saturation(), tol, 2 / mumin, [&](int, double sw, double* m) { const int e = spec.relperm; m[0] = (e == 1 ? sw : sw * sw) / spec.mu[0]; m[1] = (e == 1 ? 1 - sw : (1 - sw) * (1 - sw)) / spec.mu[1]; }, "segregation");
        s.state(mix64(nc, cols.size() * 8 + 1)); if (cols.size() < size_t(nc)) s.nontrivial();
    }
}

// ------------------------------------------------ compressible transport and segregation
void comp(Sim& s) {
    CompSpec spec = drawCompWorld(s, 30, false); spec.base.grav = true; spec.base.g[0] = spec.base.g[1] = 0; spec.base.g[2] = 9.8;
    CompWorld w(spec); const UnstructuredGrid& g = *w.grid; const int nc = g.number_of_cells;
    static const double tols[] = {1e-9, 1e-6, 1e-11}; const double tol = tols[s.choose(3)]; const int maxit = s.chance(1, 4) ? 30 : 300;
    Opm::TransportSolverCompressibleTwophaseReorder ts(g, *w.props, tol, maxit);
    ts.initGravity(spec.base.g);
    std::vector<std::vector<int>> lcols; Opm::extractColumn(g, lcols);
    const auto cols = myColumns(g);
    dvec trans(g.number_of_faces), ht(g.cell_facepos[nc]);
    tpfa_htrans_compute(const_cast<UnstructuredGrid*>(&g), w.props->permeability(), ht.data()); tpfa_trans_compute(const_cast<UnstructuredGrid*>(&g), ht.data(), trans.data());
    ivec all(nc); for (int c = 0; c < nc; ++c) all[c] = c;
    double pvt = 0; for (int c = 0; c < nc; ++c) pvt += spec.base.poro[c] * g.cell_volumes[c];
    dvec sat = w.state.saturation(), z = w.state.surfacevol(), p = spec.base.p0;
    dvec A(4 * nc), mu(2 * nc), rho(2 * nc);
    const int steps = s.range(1, 3);
    for (int i = 0; i < steps; ++i) {
        s.step();
        if (s.chance(1, 2)) { randomSat(s, sat); w.props->matrix(nc, p.data(), z.data(), all.data(), A.data(), 0); for (int c = 0; c < nc; ++c) for (int a = 0; a < 2; ++a) z[2 * c + a] = A[4 * c + 3 * a] * sat[2 * c + a]; }
        const dvec pv0 = w.porevol(p);
        if (s.chance(2, 3)) { const double a = s.logreal(1e3, 1e6); for (auto& x : p) x += a * s.real(-1, 1); }
        const dvec pv1 = w.porevol(p);
        const double dt = s.logreal(3600, 1e7), Q = s.logreal(0.01, 30) * pvt / nc / dt; s.simTime(dt);
        const FlowKind kind = drawKind(s);
        const dvec flux = drawFlux(s, g, kind, Q, false);
        w.props->matrix(nc, p.data(), z.data(), all.data(), A.data(), 0); w.props->viscosity(nc, p.data(), z.data(), all.data(), mu.data(), 0);
        dvec q = netOut(g, flux, false); if (s.chance(1, 4)) for (auto& x : q) if (s.chance(1, 3)) x = Q * s.real(-1, 1);
        for (int c = 0; c < nc; ++c) if (q[c] > 0) q[c] *= A[4 * c];     // inflow is a surface rate of water
        const dvec sb = sat, zb = z; bool warned, unbr; Call c;
        { CerrCapture err; c = libcall(s, memFault(s) ? position(s) : -1, [&] { ts.solve(flux.data(), p.data(), pv0.data(), pv1.data(), q.data(), dt, sat, z); }); warned = err.has("Maximum number"); unbr = err.has("not bracketed"); }
        int ncomp; flowComponents(g, flux, &ncomp);
        s.event("compressible transport nc=%d comps=%d threw=%d warned=%d unbracketed=%d", nc, ncomp, c.threw, warned, unbr);
        if (c.threw) {
            s.require(same(sat, sb) && same(z, zb), "state-kept", "a failed compressible transport step changed the state");
            if (!c.failed) { s.cover("gave-up"); s.require(ncomp < nc, "gave-up", "a compressible transport step without circulating flow failed: %s", c.what.c_str()); }
            continue;
        }
        s.eventData("s", sat.data(), sat.size());
        dvec kr(2 * nc), fr(nc); w.props->relperm(nc, sat.data(), all.data(), kr.data(), 0);
        for (int k = 0; k < nc; ++k) { const double a = kr[2 * k] / mu[2 * k], b = kr[2 * k + 1] / mu[2 * k + 1]; fr[k] = a / (a + b); }
        const double M = spec.base.mu[1] / spec.base.mu[0], amp = 1 + 12 * (M + 1 / M);
        bool ill = false; int overfull = 0;
        for (int k = 0; k < nc; ++k) {
            s.require(sat[2 * k] >= 0 && sat[2 * k] <= 1 && std::fabs(sat[2 * k] + sat[2 * k + 1] - 1) < 1e-14, "range", "saturations %.17g %.17g in cell %d", sat[2 * k], sat[2 * k + 1], k);
            for (int a = 0; a < 2; ++a) s.require(std::fabs(z[2 * k + a] - A[4 * k + 3 * a] * sat[2 * k + a]) <= 1e-14 * A[4 * k + 3 * a], "surface-volume", "cell %d: surface volume %.15g of phase %d, saturation and pressure give %.15g", k, z[2 * k + a], a, A[4 * k + 3 * a] * sat[2 * k + a]);
            double in = std::max(q[k], 0.0), out = std::max(-q[k], 0.0), inabs = in;
            for (int h = g.cell_facepos[k]; h < g.cell_facepos[k + 1]; ++h) { const int f = g.cell_faces[h]; const int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; const double v = a == k ? flux[f] : -flux[f]; if (v > 0) out += v; else { const int u = a == k ? b : a; in -= v * A[4 * u] * fr[u]; inabs -= v * A[4 * u]; } }
            const double b = A[4 * k], sc = pv0[k] * b;         // surface volume of water: before, in, out, after
            const double r = (pv1[k] * b * sat[2 * k] - pv0[k] * zb[2 * k] + dt * (out * b * fr[k] - in)) / sc;
            const double r1 = (pv1[k] * b - pv0[k] * zb[2 * k] + dt * (out * b - in)) / sc;       // at saturation one
            const double scale = 1 + dt / sc * (out * b * amp + inabs), t = 1.01 * tol + 4e-9 * dt / sc * inabs * amp + 3e-13 * scale;
            if (scale * 1e-13 > tol) ill = true;
            if (r1 < -t && sat[2 * k] == 1.0) { ++overfull; continue; }     // more water than the cell can hold
            if (warned) continue;
            s.require(std::fabs(r) <= t, "equation", "cell %d of %d: residual %g (tolerance %g) after a compressible transport step, saturation %.12g -> %.12g", k, nc, r, t, sb[2 * k], sat[2 * k]);
        }
        if (overfull) s.cover("overfull-cell");
        if (warned) { s.cover("warned"); s.require(maxit == 30 || ill, "warned", "the cell equations were not solved within %d iterations", maxit); }
        s.state(mix64(mix64(nc, ncomp), uint64_t(kind + 64))); s.nontrivial(); if (ncomp < nc) s.cover("circulating");
        if (s.chance(1, 2)) {
            if (s.chance(1, 3)) { randomSat(s, sat); for (int k = 0; k < nc; ++k) for (int a = 0; a < 2; ++a) z[2 * k + a] = A[4 * k + 3 * a] * sat[2 * k + a]; }
            w.props->density(nc, A.data(), rho.data());
            dvec gf(g.number_of_faces, 0.0); double T = 0, pvmin = 1e300; for (double x : pv1) pvmin = std::min(pvmin, x);
            for (int f = 0; f < g.number_of_faces; ++f) { const int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue;
                const double zf = g.face_centroids[3 * f + 2];
                gf[f] = trans[f] * spec.base.g[2] * ((rho[2 * a] - rho[2 * a + 1]) * (g.cell_centroids[3 * a + 2] - zf) + (rho[2 * b] - rho[2 * b + 1]) * (zf - g.cell_centroids[3 * b + 2])); T = std::max(T, std::fabs(gf[f])); }
            double mumin = 1e300; for (double x : mu) mumin = std::min(mumin, x);
            const double gdt = s.logreal(0.01, 30) * pvmin * mumin / std::max(T, 1e-300); if (!(gdt < 1e12)) continue;
            const dvec s0 = sat, z0 = z; Call cg; bool w2;
            { CerrCapture err; cg = libcall(s, memFault(s) ? position(s) % 40 : -1, [&] { ts.solveGravity(lcols, gdt, sat, z); }); w2 = err.has("Maximum number") || err.has("not bracketed"); }
            s.event("compressible segregation threw=%d warned=%d", cg.threw, w2);
            if (cg.threw) { s.require(same(sat, s0) && same(z, z0), "state-kept", "a failed compressible segregation step changed the state"); if (!cg.failed) s.cover("gave-up"); continue; }
            s.eventData("g", sat.data(), sat.size());
            if (w2) { s.cover("warned"); continue; }
            columnCheck(s, g, cols, gf, pv1, gdt, s0, sat, tol, 3 * 8 / mumin, [&](int k, double sw, double* m) { const double x[2] = {sw, 1 - sw}; w.props->relperm(1, x, &k, m, 0); m[0] /= mu[2 * k]; m[1] /= mu[2 * k + 1]; }, "compressible segregation");
            for (int k = 0; k < nc; ++k) for (int a = 0; a < 2; ++a) s.require(std::fabs(z[2 * k + a] - A[4 * k + 3 * a] * sat[2 * k + a]) <= 1e-14 * A[4 * k + 3 * a], "surface-volume", "cell %d after segregation: surface volume %.15g of phase %d, saturation and pressure give %.15g", k, z[2 * k + a], a, A[4 * k + 3 * a] * sat[2 * k + a]);
            s.cover("compressible-segregation");
        }
    }
}

void run(Sim& s) {
    NoFault nf;
    mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000);
    switch (s.choose(6)) {
    case 0: s.cover("schedule"); schedule(s); break;
    case 1: case 2: s.cover("transport"); incomp(s); break;
    case 3: s.cover("segregation"); gravity(s); break;
    default: s.cover("compressible-transport"); comp(s);
    }
}
Register reg("S04", run,
    "ReorderSolverInterface, compute_sequence, tarjan, TransportSolverTwophaseReorder, TransportSolverCompressibleTwophaseReorder, root finder, property classes",
    "flux fields and numberings (drawn), memory allocator (injected failures and fresh-memory contents)");
}
