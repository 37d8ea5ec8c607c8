// Loop-free flows and the times of flight and tracers that belong to them.
#pragma once
#include "props/graph.hpp"

// A loop-free flow: fluxes over faces and the sources that balance it (or none).
struct Flow { dvec flux, q; bool balanced, bsrc; double Q; };
inline Flow drawFlow(Sim& s, const UnstructuredGrid& g) {
    Flow w; w.Q = s.logreal(1e-6, 1e2); const bool bnd = s.chance(1, 2);
    w.flux = drawFlux(s, g, Potential, w.Q, bnd);
    w.balanced = s.chance(4, 5);
    ivec bf; for (int f = 0; f < g.number_of_faces; ++f) if (g.face_cells[2 * f] < 0 || g.face_cells[2 * f + 1] < 0) bf.push_back(f);
    if (bnd && bf.empty()) {}
    // the library wants the sources to sum to zero: let the boundary flow do so too
    double net = 0; for (int f : bf) net += g.face_cells[2 * f] < 0 ? -w.flux[f] : w.flux[f];
    if (!bf.empty()) { const int f = bf[0]; w.flux[f] += g.face_cells[2 * f] < 0 ? net : -net; if (std::fabs(w.flux[f]) < 1e-12 * w.Q) w.flux[f] = 0; }
    w.q = netOut(g, w.flux, true);
    for (double& x : w.q) if (std::fabs(x) < 1e-11 * w.Q) x = 0;
    if (!w.balanced) w.q.assign(g.number_of_cells, 0.0);
    w.bsrc = bnd && !bf.empty();
    return w;
}
struct Through { dvec in, out; ivec order; };   // flow through each cell and a visiting order
inline Through through(const UnstructuredGrid& g, const Flow& w) {
    const int nc = g.number_of_cells; Through t; t.in.assign(nc, 0); t.out.assign(nc, 0);
    std::vector<ivec> down(nc); ivec deg(nc, 0);
    for (int f = 0; f < g.number_of_faces; ++f) { int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; double v = w.flux[f]; if (v < 0) { std::swap(a, b); v = -v; } if (v == 0) continue; if (a >= 0) t.out[a] += v; if (b >= 0) t.in[b] += v; if (a >= 0 && b >= 0) { down[a].push_back(b); ++deg[b]; } }
    for (int c = 0; c < nc; ++c) { t.out[c] += std::max(-w.q[c], 0.0); t.in[c] += std::max(w.q[c], 0.0); if (!deg[c]) t.order.push_back(c); }
    for (size_t i = 0; i < t.order.size(); ++i) for (int e : down[t.order[i]]) if (!--deg[e]) t.order.push_back(e);
    return t;
}
inline bool agree(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b)); }

// The values the equations give when solved cell by cell downstream.
struct Exact { dvec tof, tracer; int nt = 0; };
inline Exact firstOrder(const UnstructuredGrid& g, const Flow& w, const Through& t, const dvec& pv, bool tracers) {
    const int nc = g.number_of_cells; Exact x; x.tof.assign(nc, 0);
    ivec head(nc, -1); if (tracers) for (int c = 0; c < nc; ++c) if (w.q[c] > 0) head[c] = x.nt++;
    x.tracer.assign(size_t(nc) * x.nt, 0);
    for (int c : t.order) {
        double up = pv[c]; std::vector<double> tr(x.nt, 0.0);
        for (int i = g.cell_facepos[c]; i < g.cell_facepos[c + 1]; ++i) { const int f = g.cell_faces[i]; const bool first = g.face_cells[2 * f] == c; const double v = first ? w.flux[f] : -w.flux[f]; const int o = first ? g.face_cells[2 * f + 1] : g.face_cells[2 * f]; if (v < 0 && o >= 0) { up -= v * x.tof[o]; for (int k = 0; k < x.nt; ++k) tr[k] -= v * x.tracer[size_t(o) * x.nt + k]; } }
        x.tof[c] = up / t.out[c];
        for (int k = 0; k < x.nt; ++k) x.tracer[size_t(c) * x.nt + k] = head[c] >= 0 ? (head[c] == k ? 1.0 : 0.0) : tr[k] / t.out[c];
    }
    return x;
}
// Multidimensional upwind: values on faces, weighted between the neighbouring inflow faces and the cell.
inline dvec multidim(const UnstructuredGrid& g, const Flow& w, const Through& t, const dvec& pv) {
    const int nc = g.number_of_cells; dvec tof(nc, 0), ft(g.number_of_faces, 0.0);
    auto nodes = [&](int f) { return std::set<int>(g.face_nodes + g.face_nodepos[f], g.face_nodes + g.face_nodepos[f + 1]); };
    for (int c : t.order) {
        double rhs = pv[c], den = std::max(-w.q[c], 0.0); std::vector<std::array<double, 3>> outs;
        for (int i = g.cell_facepos[c]; i < g.cell_facepos[c + 1]; ++i) {
            const int f = g.cell_faces[i]; const double v = g.face_cells[2 * f] == c ? w.flux[f] : -w.flux[f];
            if (v < 0) { rhs -= v * ft[f]; continue; }
            if (v == 0) continue;
            double a = 0, b = 0; int n = 0; const std::set<int> nf = nodes(f);
            for (int j = g.cell_facepos[c]; j < g.cell_facepos[c + 1]; ++j) { const int e = g.cell_faces[j]; if (e == f) continue; int common = 0; for (int q : nodes(e)) common += int(nf.count(q)); if (common != g.dimensions - 1) continue;
                ++n; const double inflow = g.face_cells[2 * e] == c ? -w.flux[e] : w.flux[e]; const double r = inflow / v, om = r > 0 ? r / (1 + r) : 0; a += om * ft[e]; b += 1 - om; }
            a /= n; b /= n; rhs -= v * a; den += v * b; outs.push_back({double(f), a, b});
        }
        tof[c] = rhs / den;
        for (auto& o : outs) ft[int(o[0])] = o[1] + o[2] * tof[c];
    }
    return tof;
}
