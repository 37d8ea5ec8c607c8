#include <map>
// S17: the implicit (Newton) transport of two incompressible phases, and the single-point upwind steps of transport/minimal.
#include "props/world.hpp"
#include "props/graph.hpp"
#include "props/libcall.hpp"
#include <opm/core/transport/implicit/TransportSolverTwophaseImplicit.hpp>
#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
#include <opm/core/grid/ColumnExtract.hpp>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/linalg/call_umfpack.h>
extern "C" {
#include <opm/core/transport/minimal/spu_explicit.h>
#include <opm/core/transport/minimal/spu_implicit.h>
}
#include <opm/core/utility/parameters/ParameterGroup.hpp>

namespace {
// A two-phase fluid with residual saturations, a capillary curve and its own closed forms.
struct Fluid : Opm::IncompPropertiesInterface {
    int nc = 0, dim = 3; double mu[2], rho[2]; dvec lo, hi; int ex = 2; double pc0 = 0; dvec zero;
    int numDimensions() const override { return dim; }
    int numCells() const override { return nc; }
    const double* porosity() const override { return zero.data(); }
    const double* permeability() const override { return zero.data(); }
    int numPhases() const override { return 2; }
    const double* viscosity() const override { return mu; }
    const double* density() const override { return rho; }
    const double* surfaceDensity() const override { return rho; }
    double norm(int c, double s) const { return (s - lo[c]) / (hi[c] - lo[c]); }
    double mob(int c, int ph, double s) const { const double e = ph == 0 ? norm(c, s) : 1 - norm(c, s); return (ex == 1 ? e : e * e) / mu[ph]; }
    double pc(int c, double s) const { return pc0 * (1 - norm(c, s)); }
    void relperm(const int n, const double* s, const int* cells, double* kr, double* d) const override {
        for (int i = 0; i < n; ++i) {
            const int c = cells[i]; const double w = hi[c] - lo[c], e = std::max(0.0, norm(c, s[2 * i])), r = std::max(0.0, (s[2 * i + 1] - (1 - hi[c])) / w);      // each from its own saturation
            kr[2 * i] = ex == 1 ? e : e * e; kr[2 * i + 1] = ex == 1 ? r : r * r;
            if (d) { d[4 * i + 1] = d[4 * i + 2] = 0; d[4 * i] = (ex == 1 ? 1 : 2 * e) / w; d[4 * i + 3] = (ex == 1 ? 1 : 2 * r) / w; }
        }
    }
    void capPress(const int n, const double* s, const int* cells, double* p, double* d) const override {
        for (int i = 0; i < n; ++i) { const int c = cells[i]; p[2 * i] = pc(c, s[2 * i]); p[2 * i + 1] = 0; if (d) { d[4 * i] = -pc0 / (hi[c] - lo[c]); d[4 * i + 1] = d[4 * i + 2] = d[4 * i + 3] = 0; } }
    }
    void satRange(const int n, const int* cells, double* a, double* b) const override {
        for (int i = 0; i < n; ++i) { const int c = cells[i]; a[2 * i] = lo[c]; b[2 * i] = hi[c]; a[2 * i + 1] = 1 - hi[c]; b[2 * i + 1] = 1 - lo[c]; }
    }
};

// The flow of water from the first cell to the second: each phase has the mobility of the cell it leaves.
double upwind(double v, double G, double wa, double wb, double oa, double ob) {
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
        const double mw = a ? wb : wa, mo = b ? ob : oa; if (!(mw + mo > 0)) continue;
        const double w = v + mo * G, o = v - mw * G;
        if ((a == 0 ? w >= 0 : w <= 0) && (b == 0 ? o >= 0 : o <= 0)) return mw / (mw + mo) * w;
    }
    return std::nan("");
}

struct Problem {
    const UnstructuredGrid* g = nullptr; GridPtr own; GridCopyPtr graph; Fluid fl; dvec pv, h, T, grav; bool oldGuess = false; int maxit = 20, maxls = 5;
    double gz(int a, int b) const { if (grav.empty()) return 0; double z = 0; for (int j = 0; j < g->dimensions; ++j) z += grav[j] * (g->cell_centroids[b * g->dimensions + j] - g->cell_centroids[a * g->dimensions + j]); return z * (fl.rho[0] - fl.rho[1]); }
    double water(int f, double v, const dvec& s) const {
        const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1];
        return upwind(v, T[f] * (gz(a, b) + fl.pc(b, s[b]) - fl.pc(a, s[a])), fl.mob(a, 0, s[a]), fl.mob(b, 0, s[b]), fl.mob(a, 1, s[a]), fl.mob(b, 1, s[b]));
    }
    dvec residual(const dvec& flux, const dvec& q, double dt, const dvec& s0, const dvec& ds, const dvec& s) const {
        const int nc = g->number_of_cells; dvec R(nc);
        for (int c = 0; c < nc; ++c) { const double mw = fl.mob(c, 0, s[c]), mo = fl.mob(c, 1, s[c]); R[c] = pv[c] * ds[c] - dt * (q[c] > 0 ? q[c] : q[c] * mw / (mw + mo)); }
        for (int f = 0; f < g->number_of_faces; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; const double w = water(f, flux[f], s); R[a] += dt * w; R[b] -= dt * w; }
        (void) s0; return R;
    }
};

struct Live { std::unique_ptr<Problem> P; std::unique_ptr<Opm::TransportSolverTwophaseImplicit> ts; Opm::TwophaseState st; int id; };

std::unique_ptr<Opm::TransportSolverTwophaseImplicit> build(const Problem& P) {
    Opm::parameter::ParameterGroup prm; prm.disableOutput();
    { NoFault nf; prm.insertParameter("guess_old_solution", P.oldGuess ? "true" : "false"); prm.insertParameter("max_it", std::to_string(P.maxit)); prm.insertParameter("max_it_ls", std::to_string(P.maxls)); }
    return std::unique_ptr<Opm::TransportSolverTwophaseImplicit>(new Opm::TransportSolverTwophaseImplicit(*P.g, P.fl, P.pv, P.grav.empty() ? nullptr : P.grav.data(), P.h, prm));
}

void drawProblem(Sim& s, Problem& P, bool cols = false) {
    if (!cols && s.chance(1, 2)) { P.graph = randomGraph(s, 24); P.g = &P.graph->g; }
    else { WorldOpt o; o.maxcells = 24; o.wells = o.src = o.bcs = o.gravity = o.rockcomp = false; o.two_d = !cols; const WorldSpec w = drawWorld(s, o); P.own = makeGrid(w); P.g = P.own.get(); }
    const int nc = P.g->number_of_cells, d = P.g->dimensions, nhf = P.g->cell_facepos[nc]; Fluid& F = P.fl; F.nc = nc; F.dim = d; F.zero.assign(nc * d * d, 0.0);
    F.ex = s.chance(1, 3) ? 1 : 2; F.mu[0] = s.logreal(0.3, 3); F.mu[1] = s.logreal(0.3, 3); F.rho[0] = s.real(0.9, 1.2); F.rho[1] = s.chance(1, 5) ? F.rho[0] : s.real(0.4, 1.3);
    const bool ends = s.chance(1, 2); F.lo.resize(nc); F.hi.resize(nc); for (int c = 0; c < nc; ++c) { F.lo[c] = ends ? s.real(0, 0.3) : 0; F.hi[c] = ends ? s.real(0.7, 1) : 1; }
    F.pc0 = s.chance(1, 4) ? s.logreal(0.01, 1) : 0;
    P.pv.resize(nc); for (auto& x : P.pv) x = s.logreal(0.3, 3);
    P.h.resize(nhf); for (auto& x : P.h) x = s.logreal(0.1, 10);
    P.T.assign(P.g->number_of_faces, 0.0); for (int i = 0; i < nhf; ++i) P.T[P.g->cell_faces[i]] += 1 / P.h[i]; for (auto& x : P.T) x = 1 / x;
    if (P.own && (cols || s.chance(1, 2))) { double ext = 1e-30; for (int i = 0; i < nc; ++i) for (int j = 0; j < nc; ++j) for (int k = 0; k < d; ++k) ext = std::max(ext, std::fabs(P.g->cell_centroids[i * d + k] - P.g->cell_centroids[j * d + k])); P.grav.assign(3, 0.0); const int dir = cols ? 2 : int(s.choose(d + 1)); for (int k = 0; k < d; ++k) if (dir == d || dir == k) P.grav[k] = s.real(-3, 3) / ext; }
    if (s.chance(1, 10)) { F.ex = 1; F.mu[1] = F.mu[0]; F.pc0 = 0; P.grav.clear(); F.lo.assign(nc, 0.0); F.hi.assign(nc, 1.0); }      // a linear problem
    P.oldGuess = s.chance(1, 2); P.maxit = s.chance(1, 4) ? s.range(1, 3) : 20; P.maxls = s.chance(1, 4) ? s.range(0, 2) : 5;
}

void step(Sim& s, Live& L) {
    const Problem& P = *L.P; const UnstructuredGrid& g = *P.g; const int nc = g.number_of_cells; const Fluid& F = P.fl; dvec& sat = L.st.saturation();
    if (s.chance(1, 3)) { const int k = int(s.choose(3)); for (int c = 0; c < nc; ++c) { const double v = k == 0 ? s.real(0, 1) : double(s.choose(2)); if (k == 2 && s.chance(1, 2)) continue; sat[2 * c] = F.lo[c] + v * (F.hi[c] - F.lo[c]); sat[2 * c + 1] = 1 - sat[2 * c]; } }
    const int fk = int(s.choose(5)); const FlowKind kind = fk == 0 ? Free : fk == 1 ? Circulating : Potential; const bool still = s.chance(1, 6);
    L.st.faceflux() = still ? dvec(g.number_of_faces, 0.0) : drawFlux(s, g, kind, 1.0, true);
    const dvec flux = L.st.faceflux(), q = netOut(g, flux, false), s0 = sat;
    double thru = 1e-3; { dvec t(nc, 0.0); for (int f = 0; f < g.number_of_faces; ++f) { const int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; const double x = std::fabs(flux[f]) + P.T[f] * (std::fabs(P.gz(a, b)) + F.pc0) / std::min(F.mu[0], F.mu[1]); t[a] += x; t[b] += x; } for (int c = 0; c < nc; ++c) thru = std::max(thru, (t[c] + std::fabs(q[c])) / P.pv[c]); }
    const double cfl = s.logreal(0.003, 30), dt = cfl / thru; s.simTime(dt);
    const bool moved = s.chance(1, 12); dvec pv = P.pv; if (moved) pv[0] *= 1.0 + 1e-9 * (1 + s.choose(1000));
    std::string out; Call c; { CoutCapture cap; c = libcall(s, memFault(s) ? position(s) : -1, [&] { L.ts->solve(pv.data(), q.data(), dt, L.st); }); out = cap.str(); }
    s.event("solver %d: nc=%d cfl=%g still=%d threw=%d", L.id, nc, cfl, still, c.threw);
    if (c.threw) {
        s.require(sameBits(sat, s0), "state-kept", "a failed step changed the saturations of solver %d", L.id);
        s.require(c.failed || moved, "spurious-failure", "a step of solver %d failed: %s", L.id, c.what.c_str());
        s.cover(moved ? "pore-volume-refused" : "failed"); return;
    }
    s.require(!moved, "pore-volume", "solver %d made a step with other pore volumes than it was built for", L.id);
    s.eventData("s", sat.data(), sat.size());
    s.require(sameBits(flux, L.st.faceflux()), "input-kept", "the fluxes were changed by a transport step");
    const size_t at = out.find("Convergence flag:"); s.require(at != std::string::npos, "report", "a step of solver %d gives no report", L.id);
    const int flag = std::atoi(out.c_str() + at + 17);
    dvec s1(nc), ds(nc), g0(nc), d0(nc);
    for (int k = 0; k < nc; ++k) {
        s1[k] = sat[2 * k]; ds[k] = s1[k] - s0[2 * k]; const double x = P.oldGuess ? s0[2 * k] : 0.5; d0[k] = x - s0[2 * k]; g0[k] = std::min(F.hi[k], std::max(F.lo[k], x));
        s.require(s1[k] >= F.lo[k] && s1[k] <= F.hi[k] && std::fabs(s1[k] + sat[2 * k + 1] - 1) < 1e-14, "range", "solver %d: saturations %.17g %.17g in cell %d, the water may be in %g..%g", L.id, s1[k], sat[2 * k + 1], k, F.lo[k], F.hi[k]);
    }
    if (flag == 1 || flag == 2) {
        const dvec r0 = P.residual(flux, q, dt, s0, d0, g0), R = P.residual(flux, q, dt, s0, ds, s1); double n0 = 0; for (double x : r0) n0 = std::max(n0, std::fabs(x));
        const double lim = std::max(1e-6, 5e-7 * n0) * (1 + 1e-6);
        for (int k = 0; k < nc; ++k) s.require(std::fabs(R[k]) <= lim + (s1[k] <= F.lo[k] || s1[k] >= F.hi[k] ? 1.001e-5 * P.pv[k] : 0) + 1e-12 * P.pv[k] * (1 + cfl), "equation", "solver %d, cell %d of %d: residual %g after a step reported as converged (flag %d, limit %g), saturation %.12g -> %.12g", L.id, k, nc, R[k], flag, lim, s0[2 * k], s1[k]);
        s.cover("converged"); s.nontrivial();
    } else s.cover(flag == 3 ? "increment-small" : "not-converged");
    if (cfl <= 0.02 && P.maxit == 20 && P.maxls == 5) s.require(flag > 0, "progress", "solver %d does not converge in a step with CFL number %g: %s", L.id, cfl, out.c_str());
    if (F.ex == 1 && F.mu[0] == F.mu[1] && F.pc0 == 0 && P.grav.empty() && F.hi == dvec(nc, 1.0) && F.lo == dvec(nc, 0.0)) {
        const size_t nl = out.find("Number of linear solves:"); const int nit = nl == std::string::npos ? -1 : std::atoi(out.c_str() + nl + 24); s.cover("linear");
        s.require(flag > 0 && nit <= 2, "progress", "solver %d needs %d linear solves (flag %d) for a linear problem, CFL number %g", L.id, nit, flag, cfl);
    }
    if (!P.grav.empty()) s.cover("gravity"); if (F.pc0 > 0) s.cover("capillary");
    s.state(mix64(mix64(nc, g.number_of_faces), uint64_t(flag + 8) * 64 + uint64_t(kind) * 16 + P.oldGuess * 8 + still * 4 + !P.grav.empty() * 2 + (F.pc0 > 0)));
    if (s.chance(1, 3)) {
        Opm::TwophaseState st = L.st; st.saturation() = s0; std::unique_ptr<Opm::TransportSolverTwophaseImplicit> t; Call k;
        { CoutCapture cap; k = libcall(s, -1, [&] { t = build(P); t->solve(pv.data(), q.data(), dt, st); }); }
        sameOutcome(s, c, k, "transport", L.id); sameVec(s, sat, st.saturation(), "saturation", "transport", L.id); s.cover("twin");
    }
}

// ------------------------------------------------ segregation in columns with the implicit model
void columns(Sim& s) {
    typedef Opm::SinglePointUpwindTwoPhase<Opm::SimpleFluid2pWrappingProps> Model;
    Problem P; drawProblem(s, P, true); const UnstructuredGrid& g = *P.g; const int nc = g.number_of_cells; const Fluid& F = P.fl;
    std::vector<ivec> all; libcall(s, -1, [&] { Opm::extractColumn(g, all); });
    { ivec seen(nc, 0); for (const ivec& c : all) for (int x : c) { s.require(x >= 0 && x < nc && !seen[x]++, "columns", "cell %d is in two columns", x); } for (int c = 0; c < nc; ++c) s.require(seen[c], "columns", "cell %d is in no column", c); }
    std::vector<ivec> cols; const bool part = s.chance(1, 3); for (ivec& c : all) { if (part && s.chance(1, 2)) continue; if (s.chance(1, 4)) std::reverse(c.begin(), c.end()); cols.push_back(c); }
    ivec other(nc, -2), of(nc, -1); for (size_t k = 0; k < cols.size(); ++k) for (int x : cols[k]) of[x] = int(k);
    const double tol = s.logreal(1e-11, 1e-5); const int maxit = s.chance(1, 6) ? s.range(1, 3) : 60; Opm::SimpleFluid2pWrappingProps wrap(F);
    std::unique_ptr<Model> m; libcall(s, -1, [&] { m.reset(new Model(wrap, g, P.pv, P.grav.empty() ? nullptr : P.grav.data(), P.oldGuess)); m->initGravityTrans(g, P.h); });
    Opm::GravityColumnSolver<Model> gs(*m, g, tol, maxit);
    dvec sat(2 * nc); for (int c = 0; c < nc; ++c) { const int e = int(s.choose(4)); sat[2 * c] = e == 0 ? F.lo[c] : e == 1 ? F.hi[c] : s.real(F.lo[c], F.hi[c]); sat[2 * c + 1] = 1 - sat[2 * c]; }
    double thru = 1e-3; { dvec t(nc, 0.0); for (int f = 0; f < g.number_of_faces; ++f) { const int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; const double x = P.T[f] * (std::fabs(P.gz(a, b)) + F.pc0) / std::min(F.mu[0], F.mu[1]); t[a] += x; t[b] += x; } for (int c = 0; c < nc; ++c) thru = std::max(thru, t[c] / P.pv[c]); }
    const int n = s.range(1, 4);
    for (int k = 0; k < n; ++k) {
        s.step(); if (s.faults_enabled) mem.fill = 1 + int(s.choose(4));
        const double cfl = s.logreal(0.003, 10), dt = cfl / thru; s.simTime(dt); const dvec s0 = sat; Call c;
        { CoutCapture cap; CerrCapture err; c = libcall(s, memFault(s) ? position(s) : -1, [&] { gs.solve(cols, dt, sat); }); }
        s.event("columns %zu nc=%d cfl=%g tol=%g threw=%d", cols.size(), nc, cfl, tol, c.threw);
        if (c.threw) { s.require(sameBits(sat, s0), "state-kept", "a failed segregation changed the saturations"); s.require(c.failed || maxit < 60 || cfl > 0.02, "progress", "segregation with CFL number %g does not converge: %s", cfl, c.what.c_str()); s.cover("columns-failed"); continue; }
        s.eventData("s", sat.data(), sat.size());
        dvec R(nc); double pvmax = 0, amp = 0; for (int q = 0; q < nc; ++q) { R[q] = P.pv[q] * (sat[2 * q] - s0[2 * q]); pvmax = std::max(pvmax, P.pv[q]); amp = std::max(amp, 1 / (F.hi[q] - F.lo[q])); }
        amp *= std::max(F.mu[0], F.mu[1]) / std::min(F.mu[0], F.mu[1]);
        dvec w(nc); for (int q = 0; q < nc; ++q) w[q] = sat[2 * q];
        for (const ivec& col : cols) for (size_t q = 0; q + 1 < col.size(); ++q) for (int i = g.cell_facepos[col[q]]; i < g.cell_facepos[col[q] + 1]; ++i) {
            const int f = g.cell_faces[i], a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a + b != col[q] + col[q + 1] || (a != col[q + 1] && b != col[q + 1])) continue;
            const double x = dt * P.water(f, 0.0, w); R[a] += x; R[b] -= x;
        }
        for (int q = 0; q < nc; ++q) {
            s.require(w[q] >= F.lo[q] && w[q] <= F.hi[q] && std::fabs(w[q] + sat[2 * q + 1] - 1) < 1e-14, "range", "saturation %.17g in cell %d", w[q], q);
            s.require(of[q] >= 0 || std::fabs(w[q] - s0[2 * q]) <= 1e-15, "columns", "cell %d of no column changed", q);
            s.require(std::fabs(R[q]) <= 10 * (tol + 1e-14) * pvmax * (1 + 20 * cfl * amp), "column-equation", "cell %d of %d: residual %g of segregation with tolerance %g, CFL number %g, saturation %.12g -> %.12g", q, nc, R[q], tol, cfl, s0[2 * q], w[q]);
        }
        s.nontrivial(); s.cover("columns"); s.state(mix64(mix64(nc, cols.size()), 77 + P.oldGuess));
    }
    mem.fill = 0;
}

// ------------------------------------------------ the steps of transport/minimal (unit pore volumes)
void umf(int n, int* ia, int* ja, double* sa, double* b, double* x) {     // sums entries given twice
    NoFault nf; std::vector<int> p(1, 0), c; dvec v;
    for (int i = 0; i < n; ++i) { std::map<int, double> row; for (int k = ia[i]; k < ia[i + 1]; ++k) row[ja[k]] += sa[k]; for (const auto& e : row) { c.push_back(e.first); v.push_back(e.second); } p.push_back(int(c.size())); }
    CSRMatrix A; A.m = n; A.nnz = c.size(); A.ia = p.data(); A.ja = c.data(); A.sa = v.data(); if (!call_UMFPACK(&A, b, x)) std::fill(x, x + n, 0.0);
}
void minimal(Sim& s) {
    GridCopyPtr G; GridPtr own; UnstructuredGrid* g;
    if (s.chance(1, 2)) { G = randomGraph(s, 24); g = &G->g; } else { WorldOpt o; o.maxcells = 40; o.wells = o.src = o.bcs = o.gravity = o.rockcomp = false; own = makeGrid(drawWorld(s, o)); g = own.get(); }
    const int nc = g->number_of_cells, nf = g->number_of_faces; dvec sat(nc); for (auto& x : sat) x = s.real(0, 1);
    const int nt = s.range(2, 12); const double h = 1.0 / (nt - 1), mu[2] = {s.logreal(0.3, 3), s.logreal(0.3, 3)}; dvec tab(2 * nt); const int ex = s.range(1, 2); for (int i = 0; i < nt; ++i) { const double e = double(i) / (nt - 1); tab[i] = (ex == 1 ? e : e * e) / mu[0]; tab[nt + i] = (ex == 1 ? 1 - e : (1 - e) * (1 - e)) / mu[1]; }
    auto mob = [&](int ph, double x) { const double t = x / h; int i = int(t); if (i + 1 > nt - 1) return tab[ph * nt + nt - 1]; const double a = t - i; return (1 - a) * tab[ph * nt + i] + a * tab[ph * nt + i + 1]; };
    const int n = s.range(1, 4);
    for (int k = 0; k < n; ++k) {
        s.step(); if (s.faults_enabled) mem.fill = 1 + int(s.choose(4));
        if (s.chance(1, 3)) for (auto& x : sat) x = double(s.choose(2));
        dvec v = s.chance(1, 5) ? dvec(nf, 0.0) : drawFlux(s, *g, s.chance(1, 3) ? Circulating : Potential, 1.0, true), gf(nf, 0.0), q = netOut(*g, v, false); if (s.chance(2, 3)) for (auto& x : gf) x = s.real(-2, 2);
        dvec thru(nc, 1e-3); for (int f = 0; f < nf; ++f) for (int e = 0; e < 2; ++e) { const int c = g->face_cells[2 * f + e]; if (c >= 0) thru[c] += std::fabs(v[f]) + std::fabs(gf[f]) * (1 / mu[0] + 1 / mu[1]); } double mt = 0; for (int c = 0; c < nc; ++c) mt = std::max(mt, thru[c] + std::fabs(q[c]));
        const double cfl = s.logreal(0.01, 3), dt = cfl / mt; dvec out(nc, 1e300), s0 = sat; s.simTime(dt);
        auto change = [&](const dvec& x) { dvec d(nc); for (int c = 0; c < nc; ++c) d[c] = dt * (q[c] > 0 ? q[c] : q[c] * mob(0, x[c]) / (mob(0, x[c]) + mob(1, x[c]))); for (int f = 0; f < nf; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a < 0 || b < 0) continue; const double w = dt * upwind(v[f], gf[f], mob(0, x[a]), mob(0, x[b]), mob(1, x[a]), mob(1, x[b])); d[a] -= w; d[b] += w; } return d; };
        if (s.chance(1, 2)) {
            dvec m(2 * nc); for (int c = 0; c < nc; ++c) { m[2 * c] = mob(0, sat[c]); m[2 * c + 1] = mob(1, sat[c]); }
            libcall(s, -1, [&] { spu_explicit(g, s0.data(), out.data(), m.data(), v.data(), gf.data(), q.data(), dt); });
            const dvec d = change(s0); for (int c = 0; c < nc; ++c) s.require(std::fabs(out[c] - s0[c] - d[c]) <= 1e-12, "explicit-step", "cell %d goes from %.12g to %.12g, expected %.12g", c, s0[c], out[c], s0[c] + d[c]);
            s.event("explicit nc=%d cfl=%g", nc, cfl); s.cover("explicit"); for (int c = 0; c < nc; ++c) sat[c] = std::min(1.0, std::max(0.0, out[c]));
        } else {
            out = s0; double r = 0; Call c; { CerrCapture err; c = libcall(s, memFault(s) ? long(s.choose(10)) : -1, [&] { r = spu_implicit(g, s0.data(), out.data(), h, 0.0, nt, tab.data(), v.data(), gf.data(), q.data(), dt, umf); }); }
            s.event("implicit nc=%d cfl=%g r=%g failed=%ld", nc, cfl, r, c.failed);
            if (c.failed) { s.require(r > 1e-9 && sameBits(out, s0), "state-kept", "a step that ran out of memory reports %g", r); s.cover("implicit-failed"); continue; }
            for (int k2 = 0; k2 < nc; ++k2) s.require(out[k2] >= 0 && out[k2] <= 1, "range", "saturation %.17g in cell %d", out[k2], k2);
            if (r <= 1e-9) { const dvec d = change(out); for (int c2 = 0; c2 < nc; ++c2) s.require(std::fabs(out[c2] - s0[c2] - d[c2]) <= 1e-8 * (1 + cfl * cfl), "implicit-step", "cell %d goes from %.12g to %.12g in a converged step, expected a change of %.12g", c2, s0[c2], out[c2], d[c2]); s.cover("implicit"); }
            else s.cover("implicit-not-converged");
            if (cfl < 0.05) s.require(r <= 1e-9, "progress", "no convergence in a step with CFL number %g: residual %g", cfl, r);
            sat = out;
        }
        s.nontrivial(); s.state(mix64(mix64(nc, nf), uint64_t(ex * 64 + nt)));
    }
    mem.fill = 0;
}

void run(Sim& s) {
    { const int k = int(s.choose(8)); if (k < 2) { minimal(s); return; } if (k == 2) { columns(s); return; } }
    std::vector<std::unique_ptr<Live>> live; int ids = 0; mem.fill_state = s.choose(1 << 16) + 1; const int nops = s.range(2, 9);
    for (int k = 0; k < nops; ++k) {
        s.step();
        if (s.faults_enabled) mem.fill = 1 + int(s.choose(4));
        if (live.empty() || (live.size() < 3 && s.chance(1, 4))) {
            std::unique_ptr<Live> L(new Live); L->id = ids++; L->P.reset(new Problem); Problem& P = *L->P; drawProblem(s, P); const int nc = P.g->number_of_cells;
            L->st.saturation().resize(2 * nc); L->st.faceflux().assign(P.g->number_of_faces, 0.0); L->st.pressure().assign(nc, 1.0);
            for (int c = 0; c < nc; ++c) { L->st.saturation()[2 * c] = P.fl.lo[c]; L->st.saturation()[2 * c + 1] = 1 - P.fl.lo[c]; }
            Call c = libcall(s, memFault(s) ? position(s) : -1, [&] { L->ts = build(P); });
            s.event("build %d nc=%d threw=%d", L->id, nc, c.threw);
            if (c.threw) { s.require(c.failed > 0, "spurious-failure", "building solver %d failed: %s", L->id, c.what.c_str()); c = libcall(s, -1, [&] { L->ts = build(P); }); s.require(!c.threw, "spurious-failure", "building solver %d failed: %s", L->id, c.what.c_str()); }
            live.push_back(std::move(L));
        }
        step(s, *live[s.choose(live.size())]);
        if (live.size() > 1 && s.chance(1, 6)) live.erase(live.begin() + long(s.choose(live.size())));
    }
    mem.fill = 0;
}
Register reg("S17", run, "implicit transport solver: assembly, Jacobian, upwinding, line search and Newton control, transport sources, explicit and implicit single-point upwind steps, UMFPACK", "flux fields and fluid (drawn), memory allocator (injected failures and fresh-memory contents)");
}
