// Grids whose numbering the simulator owns: random graphs without geometry, and
// renumbered copies of real grids. The numbering decides the order in which the
// reordering solvers visit cells.
#pragma once
#include "props/world.hpp"

struct GridCopy {
    UnstructuredGrid g; ivec face_nodes, face_nodepos, face_cells, cell_faces, cell_facepos, global_cell, facetag;
    dvec nodes, fcent, farea, fnorm, ccent, cvol;
    GridCopy() { memset(&g, 0, sizeof g); }
    GridCopy(const GridCopy&) = delete;
    void bind() {
        auto ip = [](ivec& v) { return v.empty() ? nullptr : v.data(); };
        auto dp = [](dvec& v) { return v.empty() ? nullptr : v.data(); };
        g.face_nodes = ip(face_nodes); g.face_nodepos = ip(face_nodepos); g.face_cells = ip(face_cells); g.cell_faces = ip(cell_faces); g.cell_facepos = ip(cell_facepos);
        g.node_coordinates = dp(nodes); g.face_centroids = dp(fcent); g.face_areas = dp(farea); g.face_normals = dp(fnorm); g.cell_centroids = dp(ccent); g.cell_volumes = dp(cvol);
        g.global_cell = ip(global_cell); g.cell_facetag = ip(facetag);
    }
};
typedef std::unique_ptr<GridCopy> GridCopyPtr;

struct Numbering {
    ivec cell, face; std::vector<char> flip; uint64_t order = 0;   // old -> new
    Numbering(Sim& s, const UnstructuredGrid& g) {
        Prng r(1 + s.choose(1u << 20));
        auto shuffle = [&](ivec& v, int n) { v.resize(n); for (int i = 0; i < n; ++i) v[i] = i; for (int i = n - 1; i > 0; --i) std::swap(v[i], v[r.next() % uint64_t(i + 1)]); };
        const bool same = s.chance(1, 8);
        shuffle(cell, g.number_of_cells); shuffle(face, g.number_of_faces);
        if (same) for (int i = 0; i < g.number_of_cells; ++i) cell[i] = i;
        flip.resize(g.number_of_faces); for (auto& f : flip) f = r.next() & 1;
        order = r.next();
    }
    dvec toCells(const dvec& v, int n = 1) const { dvec o(v.size()); for (size_t c = 0; c < cell.size(); ++c) for (int i = 0; i < n; ++i) o[size_t(cell[c]) * n + i] = v[c * n + i]; return o; }
    dvec fromCells(const dvec& v, int n = 1) const { dvec o(v.size()); for (size_t c = 0; c < cell.size(); ++c) for (int i = 0; i < n; ++i) o[c * n + i] = v[size_t(cell[c]) * n + i]; return o; }
    dvec toFaces(const dvec& v) const { dvec o(v.size()); for (size_t f = 0; f < face.size(); ++f) o[face[f]] = flip[f] ? -v[f] : v[f]; return o; }
};

inline GridCopyPtr renumber(const UnstructuredGrid& g, const Numbering& n) {
    GridCopyPtr R(new GridCopy); GridCopy& r = *R;
    r.g = g;
    const int nc = g.number_of_cells, nf = g.number_of_faces, d = g.dimensions;
    ivec oldc(nc), oldf(nf); for (int c = 0; c < nc; ++c) oldc[n.cell[c]] = c; for (int f = 0; f < nf; ++f) oldf[n.face[f]] = f;
    r.face_cells.resize(2 * nf);
    for (int f = 0; f < nf; ++f) for (int q = 0; q < 2; ++q) { const int c = g.face_cells[2 * f + q]; r.face_cells[2 * n.face[f] + (n.flip[f] ? 1 - q : q)] = c < 0 ? -1 : n.cell[c]; }
    Prng p(n.order); r.cell_facepos.assign(1, 0);
    for (int c = 0; c < nc; ++c) {
        const int o = oldc[c]; ivec hf; for (int i = g.cell_facepos[o]; i < g.cell_facepos[o + 1]; ++i) hf.push_back(i);
        if (!g.cell_facetag) for (int i = int(hf.size()) - 1; i > 0; --i) std::swap(hf[i], hf[p.next() % uint64_t(i + 1)]);
        for (int i : hf) { r.cell_faces.push_back(n.face[g.cell_faces[i]]); if (g.cell_facetag) r.facetag.push_back(g.cell_facetag[i]); }
        r.cell_facepos.push_back(int(r.cell_faces.size()));
    }
    if (g.face_nodes) { r.face_nodepos.assign(1, 0);
        for (int f = 0; f < nf; ++f) { const int o = oldf[f]; for (int i = g.face_nodepos[o]; i < g.face_nodepos[o + 1]; ++i) r.face_nodes.push_back(g.face_nodes[i]);
            if (n.flip[o]) std::reverse(r.face_nodes.begin() + r.face_nodepos.back(), r.face_nodes.end());
            r.face_nodepos.push_back(int(r.face_nodes.size())); }
        r.nodes.assign(g.node_coordinates, g.node_coordinates + size_t(d) * g.number_of_nodes); }
    if (g.face_areas) for (int f = 0; f < nf; ++f) { const int o = oldf[f]; r.farea.push_back(g.face_areas[o]); for (int i = 0; i < d; ++i) { r.fcent.push_back(g.face_centroids[d * o + i]); r.fnorm.push_back(n.flip[o] ? -g.face_normals[d * o + i] : g.face_normals[d * o + i]); } }
    if (g.cell_volumes) for (int c = 0; c < nc; ++c) { const int o = oldc[c]; r.cvol.push_back(g.cell_volumes[o]); for (int i = 0; i < d; ++i) r.ccent.push_back(g.cell_centroids[d * o + i]); }
    for (int c = 0; c < nc; ++c) r.global_cell.push_back(g.global_cell ? g.global_cell[oldc[c]] : oldc[c]);
    r.bind();
    return R;
}

// A connected or disconnected multigraph with boundary faces; no geometry.
inline GridCopyPtr randomGraph(Sim& s, int maxcells) {
    GridCopyPtr R(new GridCopy); GridCopy& r = *R;
    const int nc = s.range(2, maxcells); Prng p(1 + s.choose(1u << 20));
    const int kind = int(s.choose(5)), extra = s.range(0, 2 * nc);
    std::vector<std::pair<int, int>> e;
    if (kind == 0) for (int c = 1; c < nc; ++c) e.push_back({c - 1, c});                                                  // a chain
    else if (kind == 1) { for (int c = 0; c < nc; ++c) e.push_back({c, (c + 1) % nc}); }                                   // a ring
    else if (kind == 2) { const int w = std::max(1, int(std::sqrt(double(nc)))); for (int c = 0; c < nc; ++c) { if (c % w) e.push_back({c - 1, c}); if (c >= w) e.push_back({c - w, c}); } }
    else if (kind == 3) for (int c = 1; c < nc; ++c) e.push_back({int(p.next() % uint64_t(c)), c});                        // a tree
    if (kind >= 3 || s.chance(1, 2)) for (int i = 0; i < extra; ++i) { int a = int(p.next() % uint64_t(nc)), b = int(p.next() % uint64_t(nc)); if (a != b) e.push_back({a, b}); }
    const int nb = s.range(0, 6); for (int i = 0; i < nb; ++i) { int a = int(p.next() % uint64_t(nc)); if (p.next() & 1) e.push_back({a, -1}); else e.push_back({-1, a}); }
    if (e.empty()) e.push_back({0, 1});
    r.g.dimensions = 3; r.g.number_of_cells = nc; r.g.number_of_faces = int(e.size()); r.g.cartdims[0] = nc; r.g.cartdims[1] = r.g.cartdims[2] = 1;
    std::vector<ivec> cf(nc);
    for (size_t f = 0; f < e.size(); ++f) { r.face_cells.push_back(e[f].first); r.face_cells.push_back(e[f].second); if (e[f].first >= 0) cf[e[f].first].push_back(int(f)); if (e[f].second >= 0) cf[e[f].second].push_back(int(f)); }
    r.cell_facepos.push_back(0);
    for (auto& v : cf) { r.cell_faces.insert(r.cell_faces.end(), v.begin(), v.end()); r.cell_facepos.push_back(int(r.cell_faces.size())); }
    r.bind();
    return R;
}

// Flux fields. The source that balances a cell is the net outflow over its faces.
enum FlowKind { Potential, Free, Circulating };
inline dvec drawFlux(Sim& s, const UnstructuredGrid& g, FlowKind k, double Q, bool boundary) {
    const int nc = g.number_of_cells, nf = g.number_of_faces;
    Prng p(1 + s.choose(1u << 20)); auto u = [&] { return double(p.next() >> 11) / 9007199254740992.0; };
    dvec phi(nc), f(nf, 0.0); for (auto& x : phi) x = u();
    if (s.chance(1, 3)) { ivec perm(nc); for (int i = 0; i < nc; ++i) phi[i] = 1 - double(i) / nc; }            // along the numbering
    const int stagnant = int(s.choose(4));             // share of faces without flow
    for (int i = 0; i < nf; ++i) {
        const int a = g.face_cells[2 * i], b = g.face_cells[2 * i + 1];
        const double t = Q * std::pow(10.0, -2 * u());
        if (a < 0 || b < 0) { f[i] = boundary ? Q * (2 * u() - 1) : 0.0; continue; }
        const double dice = u();
        if (dice < 0.15 * stagnant) continue;
        f[i] = k == Free ? t * (2 * u() - 1) : t * (phi[a] - phi[b]);
    }
    if (k == Circulating) {                            // closed circuits on top, found by walking the graph
        const int n = s.range(1, 4);
        for (int q = 0; q < n; ++q) {
            ivec seen(nc, -1), path, pf; int c = int(s.choose(nc)); const double amt = Q * (0.1 + 2 * u());
            while (seen[c] < 0) {
                seen[c] = int(path.size()); path.push_back(c);
                ivec opt; for (int i = g.cell_facepos[c]; i < g.cell_facepos[c + 1]; ++i) { const int ff = g.cell_faces[i]; if (g.face_cells[2 * ff] >= 0 && g.face_cells[2 * ff + 1] >= 0 && (pf.empty() || ff != pf.back())) opt.push_back(ff); }
                if (opt.empty()) break;
                const int ff = opt[p.next() % opt.size()]; pf.push_back(ff); c = g.face_cells[2 * ff] == c ? g.face_cells[2 * ff + 1] : g.face_cells[2 * ff];
            }
            if (pf.size() == path.size() && seen[c] >= 0) for (size_t i = seen[c]; i < pf.size(); ++i) f[pf[i]] += g.face_cells[2 * pf[i]] == path[i] ? amt : -amt;
        }
    }
    return f;
}
inline dvec netOut(const UnstructuredGrid& g, const dvec& f, bool boundary) {
    dvec d(g.number_of_cells, 0.0);
    for (int i = 0; i < g.number_of_faces; ++i) { const int a = g.face_cells[2 * i], b = g.face_cells[2 * i + 1]; if (!boundary && (a < 0 || b < 0)) continue; if (a >= 0) d[a] += f[i]; if (b >= 0) d[b] -= f[i]; }
    return d;
}
// Strongly connected components of the flow graph (Kosaraju), as a label per cell.
inline ivec flowComponents(const UnstructuredGrid& g, const dvec& f, int* count = nullptr) {
    const int nc = g.number_of_cells; std::vector<ivec> fw(nc), bw(nc);
    for (int i = 0; i < g.number_of_faces; ++i) { int a = g.face_cells[2 * i], b = g.face_cells[2 * i + 1]; if (a < 0 || b < 0 || f[i] == 0) continue; if (f[i] < 0) std::swap(a, b); fw[a].push_back(b); bw[b].push_back(a); }
    ivec order, lab(nc, -1); std::vector<char> seen(nc, 0);
    for (int r = 0; r < nc; ++r) if (!seen[r]) { std::vector<std::pair<int, size_t>> st(1, {r, 0}); seen[r] = 1;
        while (!st.empty()) { const int c = st.back().first; if (st.back().second < fw[c].size()) { const int e = fw[c][st.back().second++]; if (!seen[e]) { seen[e] = 1; st.push_back({e, 0}); } } else { order.push_back(c); st.pop_back(); } } }
    int n = 0;
    for (int i = nc - 1; i >= 0; --i) if (lab[order[i]] < 0) { ivec st(1, order[i]); lab[order[i]] = n; while (!st.empty()) { int c = st.back(); st.pop_back(); for (int e : bw[c]) if (lab[e] < 0) { lab[e] = n; st.push_back(e); } } ++n; }
    if (count) *count = n;
    return lab;
}

// What the library says on the error stream.
struct CerrCapture {
    CoutCapture::Buf os; std::streambuf* old;
    CerrCapture() : old(std::cerr.rdbuf(&os)) {}
    ~CerrCapture() { std::cerr.rdbuf(old); }
    bool has(const char* t) const { return os.s.find(t) != std::string::npos; }
};
