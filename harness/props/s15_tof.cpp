// S15: time of flight and tracers against their own equations, under every numbering.
#include "props/tofref.hpp"
#include "props/libcall.hpp"
#include <opm/core/tof/TofReorder.hpp>
#include <opm/core/tof/TofDiscGalReorder.hpp>

namespace {
void compare(Sim& s, const dvec& got, const dvec& want, const Through& t, const char* what, double tol, int per = 1) {
    s.require(got.size() == want.size(), "size", "%s: %zu values, expected %zu", what, got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i) { if (t.out[i / per] == 0) continue;
        s.require(agree(got[i], want[i], tol) || (per > 1 && std::fabs(got[i] - want[i]) < 1e-10), "equation", "%s: value %zu is %.15g, its equation gives %.15g", what, i, got[i], want[i]); }
}

void fv(Sim& s) {
    const bool geo = s.chance(1, 2); bool md = false;
    GridCopyPtr base; std::unique_ptr<World> w; const UnstructuredGrid* g0;
    if (geo) { WorldOpt o; o.maxcells = 40; o.wells = o.src = o.bcs = o.rockcomp = false; o.cornerpoint = false; w.reset(new World(drawWorld(s, o))); g0 = w->grid.get(); md = s.chance(1, 2); }
    else { base = randomGraph(s, s.chance(1, 10) ? 400 : 50); g0 = &base->g; }
    Numbering num(s, *g0); GridCopyPtr G = renumber(*g0, num); const UnstructuredGrid& g = G->g; const int nc = g.number_of_cells;
    Opm::TofReorder solver(g, md);
    const int n = s.range(1, 4);
    for (int i = 0; i < n; ++i) {
        s.step();
        Flow fl = drawFlow(s, *g0); Flow fn = fl; fn.flux = num.toFaces(fl.flux); fn.q = num.toCells(fl.q);
        dvec pv(nc); for (auto& x : pv) x = s.logreal(0.1, 10);
        const Through t = through(g, fn);
        s.require(int(t.order.size()) == nc, "harness", "the drawn flow circulates");
        const bool tracer = !md && s.chance(1, 2);
        dvec tof(s.choose(3), 5.0), tr(s.choose(3), 5.0);
        Call c = libcall(s, memFault(s) ? position(s) % 12 : -1, [&] { if (tracer) solver.solveTofTracer(fn.flux.data(), pv.data(), fn.q.data(), tof, tr); else solver.solveTof(fn.flux.data(), pv.data(), fn.q.data(), tof); });
        s.event("tof nc=%d md=%d tracer=%d threw=%d", nc, md, tracer, c.threw);
        if (c.threw) { s.require(c.failed > 0, "gave-up", "a time-of-flight computation failed without cause: %s", c.what.c_str()); continue; }
        s.eventData("t", tof.data(), tof.size()); if (tracer) s.eventData("r", tr.data(), tr.size());
        if (md) { compare(s, tof, multidim(g, fn, t, pv), t, "multidimensional upwind time of flight", 1e-7); s.cover("multidim"); }
        else {
            const Exact x = firstOrder(g, fn, t, pv, tracer);
            compare(s, tof, x.tof, t, "time of flight", 1e-9);
            if (tracer && x.nt) {
                s.cover("tracer");
                compare(s, tr, x.tracer, t, "tracer", 1e-9, x.nt);
                if (fl.balanced) for (int k = 0; k < nc; ++k) { if (t.out[k] == 0) continue; double sum = 0; for (int q = 0; q < x.nt; ++q) { const double v = tr[size_t(k) * x.nt + q]; sum += v; s.require(v >= -1e-9 && v <= 1 + 1e-9, "tracer-range", "tracer %d is %.15g in cell %d", q, v, k); }
                    if (!fl.bsrc) s.require(std::fabs(sum - 1) < 1e-6, "tracer-sum", "the tracers of cell %d sum to %.15g", k, sum); }
            } else if (tracer) s.require(tr.empty(), "size", "%zu tracer values without sources", tr.size());
            // the same flow on the original numbering
            if (s.chance(1, 3)) { Opm::TofReorder o(*g0, false); dvec t0; const dvec pv0 = num.fromCells(pv); Call c0 = libcall(s, -1, [&] { o.solveTof(fl.flux.data(), pv0.data(), fl.q.data(), t0); });
                s.require(!c0.threw, "numbering", "fails under another numbering"); const dvec back = num.fromCells(tof);
                for (int k = 0; k < nc; ++k) if (t.out[num.cell[k]] != 0) s.require(agree(t0[k], back[k], 1e-9), "numbering", "cell %d: %.15g, under another numbering %.15g", k, t0[k], back[k]);
                s.cover("renumbered"); }
        }
        s.state(mix64(mix64(nc, md * 2 + tracer), fl.balanced * 2 + fl.bsrc)); s.nontrivial();
    }
}

void dg(Sim& s) {
    WorldOpt o; o.maxcells = 30; o.wells = o.src = o.bcs = o.rockcomp = false; o.cornerpoint = false;
    World w(drawWorld(s, o)); Numbering num(s, *w.grid); GridCopyPtr G = renumber(*w.grid, num); const UnstructuredGrid& g = G->g; const int nc = g.number_of_cells, d = g.dimensions;
    const int deg = int(s.choose(2)); const int lim = deg == 1 && s.chance(1, 2) ? 1 + int(s.choose(6)) : 0; const bool tens = s.chance(1, 3), cvi = s.chance(1, 4);
    Opm::parameter::ParameterGroup p; p.disableOutput();
    p.insertParameter("dg_degree", deg ? "1" : "0"); if (tens) p.insertParameter("use_tensorial_basis", "true"); if (cvi) p.insertParameter("use_cvi", "true");
    const bool face_min = lim > 3; static const char* us[] = {"DuringComputations", "AsPostProcess", "AsSimultaneousPostProcess"}; const int use = lim ? (lim - 1) % 3 : 0;
    if (lim) { p.insertParameter("use_limiter", "true"); p.insertParameter("limiter_method", face_min ? "MinUpwindFace" : "MinUpwindAverage"); p.insertParameter("limiter_usage", us[use]); }
    Opm::TofDiscGalReorder solver(g, p);
    int nb = 1; if (deg) nb = tens ? (1 << d) : d + 1;
    const int n = s.range(1, 3);
    for (int i = 0; i < n; ++i) {
        s.step();
        Flow fl = drawFlow(s, *w.grid); fl.flux = num.toFaces(fl.flux); fl.q = num.toCells(fl.q);
        dvec pv(nc); for (int c = 0; c < nc; ++c) pv[c] = g.cell_volumes[c] * s.real(0.05, 0.4);
        const Through t = through(g, fl);
        dvec x(s.choose(3), 5.0);
        Call c = libcall(s, memFault(s) ? position(s) : -1, [&] { solver.solveTof(fl.flux.data(), pv.data(), fl.q.data(), x); });
        s.event("dg nc=%d degree=%d limiter=%d tensorial=%d threw=%d", nc, deg, lim, tens, c.threw);
        bool dead = false; for (double v : t.out) if (v == 0) dead = true;
        if (c.threw) { s.require(c.failed > 0 || dead || deg > 0, "gave-up", "a discontinuous Galerkin computation failed without cause: %s", c.what.c_str()); if (!c.failed) s.cover("gave-up"); continue; }
        s.eventData("t", x.data(), x.size());
        s.require(x.size() == size_t(nb) * nc, "size", "%zu coefficients for %d cells", x.size(), nc);
        s.state(mix64(mix64(nc, deg * 16 + lim), tens * 2 + cvi)); s.nontrivial(); s.cover(deg ? lim ? tens ? "dg1-multilinear-limited" : "dg1-limited" : tens ? "dg1-multilinear" : "dg1" : "dg0");
        if (deg == 0) { const Exact e = firstOrder(g, fl, t, pv, false); compare(s, x, e.tof, t, "discontinuous Galerkin degree zero", 1e-9); continue; }
        auto at = [&](int c2, const double* pt) {
            if (tens) { double v = 0; for (int b = 0; b < nb; ++b) { double u = x[size_t(c2) * nb + b]; for (int a = 0; a < d; ++a) { const double e = pt[a] - g.cell_centroids[d * c2 + a]; u *= (b >> (d - 1 - a)) & 1 ? 0.5 + e : 0.5 - e; } v += u; } return v; }
            double v = x[size_t(c2) * nb]; for (int a = 0; a < d; ++a) v += x[size_t(c2) * nb + 1 + a] * (pt[a] - g.cell_centroids[d * c2 + a]); return v;
        };
        auto slope = [&](int c2, const double* pt, int a) { if (!tens) return x[size_t(c2) * nb + 1 + a]; double p1[3], p2[3]; for (int i2 = 0; i2 < d; ++i2) p1[i2] = p2[i2] = pt[i2]; p1[a] -= 0.5; p2[a] += 0.5; return at(c2, p2) - at(c2, p1); };
        auto mean = [&](int c2) { return at(c2, g.cell_centroids + d * c2); };
        if (!lim) {
            // the constant test function: what flows in, plus the pore volume, is what flows out
            for (int k = 0; k < nc; ++k) {
                double in = pv[k], out = std::max(-fl.q[k], 0.0) * mean(k), scale = pv[k] + std::fabs(out); bool ok = std::fabs(out) < 1e300;
                for (int h = g.cell_facepos[k]; h < g.cell_facepos[k + 1]; ++h) { const int f = g.cell_faces[h]; const bool first = g.face_cells[2 * f] == k; const double v = first ? fl.flux[f] : -fl.flux[f]; const int ot = first ? g.face_cells[2 * f + 1] : g.face_cells[2 * f];
                    if (v > 0) { const double u = v * at(k, g.face_centroids + d * f); out += u; scale += std::fabs(u); } else if (v < 0 && ot >= 0) { const double u = -v * at(ot, g.face_centroids + d * f); in += u; scale += std::fabs(u); } }
                double grad = 0; for (int a = 0; a < d; ++a) grad += std::fabs(slope(k, g.cell_centroids + d * k, a)); scale += grad * 1e-3 * (t.out[k] + t.in[k]) * std::pow(g.cell_volumes[k], 1.0 / d);
                if (!ok || !isFin(scale) || t.out[k] <= 1e-6 * fl.Q) continue;
                // the linear test functions, integrated exactly over the box and its faces
                dvec h(d, 0.0), vel(d, 0.0); auto dir = [&](int f) { int j = 0; for (int a = 1; a < d; ++a) if (std::fabs(g.face_normals[d * f + a]) > std::fabs(g.face_normals[d * f + j])) j = a; return j; };
                for (int q = g.cell_facepos[k]; q < g.cell_facepos[k + 1]; ++q) { const int f = g.cell_faces[q]; const double v = g.face_cells[2 * f] == k ? fl.flux[f] : -fl.flux[f]; const int j = dir(f); h[j] = g.cell_volumes[k] / g.face_areas[f]; vel[j] += v * (g.face_centroids[d * f + j] - g.cell_centroids[d * k + j]) / g.cell_volumes[k]; }
                // solving with the multilinear basis, which does not scale with the cell, loses accuracy in small and large cells
                double rough = 0; if (tens) { rough = 1e-10 * (t.out[k] + t.in[k]); for (int a = 0; a < d; ++a) rough *= (0.5 + h[a] / 2) * (0.5 + h[a] / 2); double sum = 0; for (int b = 0; b < nb; ++b) sum += std::fabs(x[size_t(k) * nb + b]); rough *= sum * nb; }
                if (!cvi) for (int j = 0; j < d; ++j) {
                    const double m = h[j] * h[j] / 12;
                    double r = -vel[j] * g.cell_volumes[k] * mean(k) + std::max(-fl.q[k], 0.0) * slope(k, g.cell_centroids + d * k, j) * m, sc = scale * h[j];
                    for (int q = g.cell_facepos[k]; q < g.cell_facepos[k + 1]; ++q) {
                        const int f = g.cell_faces[q]; const bool first = g.face_cells[2 * f] == k; const double v = first ? fl.flux[f] : -fl.flux[f]; const int ot = first ? g.face_cells[2 * f + 1] : g.face_cells[2 * f];
                        const int u = v > 0 ? k : ot; if (u < 0 || v == 0) continue;
                        const double I = dir(f) == j ? (g.face_centroids[d * f + j] - g.cell_centroids[d * k + j]) * at(u, g.face_centroids + d * f) : slope(u, g.face_centroids + d * f, j) * m;
                        r += v * I; sc += std::fabs(v * I);
                    }
                    s.require(std::fabs(r) <= 1e-6 * sc + rough, "equation", "cell %d: first moment in direction %d does not balance: %g of %g (discontinuous Galerkin)", k, j, r, sc);
                }
                s.require(std::fabs(in - out) <= 1e-6 * scale + rough, "equation", "cell %d: %.12g flows in or ages, %.12g flows out (discontinuous Galerkin)", k, in, out);
            }
        } else if (fl.balanced) {
            // the limiter's promise: nowhere below zero, nor below the least upstream value
            for (int k = 0; k < nc; ++k) {
                if (t.out[k] < 1e-6 * fl.Q) continue;
                double lo = 1e300, hi = 0, up = 1e300; int nu = 0, thin = 0; double fi = 0, fo = 0;
                for (int h = g.cell_facepos[k]; h < g.cell_facepos[k + 1]; ++h) { const int f = g.cell_faces[h]; const double v = g.face_cells[2 * f] == k ? fl.flux[f] : -fl.flux[f]; (v < 0 ? fi : fo) += std::fabs(v); }
                const double tot = std::max(fi, fo);
                for (int h = g.cell_facepos[k]; h < g.cell_facepos[k + 1]; ++h) {
                    const int f = g.cell_faces[h]; const bool first = g.face_cells[2 * f] == k; const double v = first ? fl.flux[f] : -fl.flux[f]; const int ot = first ? g.face_cells[2 * f + 1] : g.face_cells[2 * f];
                    if (std::fabs(v + tot * 1e-3) < 1e-9 * tot) ++thin;
                    double fmin = 1e300; for (int q = g.face_nodepos[f]; q < g.face_nodepos[f + 1]; ++q) { const double* pt = g.node_coordinates + d * g.face_nodes[q]; const double v1 = at(k, pt); lo = std::min(lo, v1); hi = std::max(hi, std::fabs(v1)); if (ot >= 0) fmin = std::min(fmin, at(ot, pt)); }
                    if (v < -tot * 1e-3) { ++nu; up = std::min(up, ot < 0 ? 0.0 : face_min ? fmin : mean(ot)); }
                }
                if (!isFin(hi) || thin) continue;
                s.require(lo >= -1e-7 * (hi + 1e-300), "limiter", "cell %d: limited time of flight %g below zero at a corner", k, lo);
                // a post-processed value is limited against upstream values before or after their own limiting
                if (nu && use <= 1) s.require(lo >= std::max(0.0, up) - 1e-7 * (hi + std::fabs(up)), "limiter", "cell %d: limited time of flight %.12g at a corner, least upstream value %.12g", k, lo, up);
            }
        }
    }
}

void run(Sim& s) {
    NoFault nf;
    mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000);
    if (s.chance(1, 2)) dg(s); else fv(s);
}
Register reg("S15", run, "TofReorder, TofDiscGalReorder, DGBasis, quadrature, velocity interpolation, ReorderSolverInterface, compute_sequence, tarjan, LAPACK",
    "flux fields and numberings (drawn), memory allocator (injected failures and fresh-memory contents)");
}
