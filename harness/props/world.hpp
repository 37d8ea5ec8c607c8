// Randomly drawn incompressible two-phase worlds and the simulated linear solver.
#pragma once
#include "core/sim.hpp"
#include "core/seams.hpp"
#include "core/fiber.hpp"
#include <opm/core/grid.h>
#include <opm/core/grid/cart_grid.h>
#include <opm/core/grid/cornerpoint_grid.h>
#include <opm/core/linalg/LinearSolverUmfpack.hpp>
#include <opm/core/pressure/IncompTpfa.hpp>
#include <opm/core/pressure/flow_bc.h>
#include <opm/core/props/IncompPropertiesBasic.hpp>
#include <opm/core/props/rock/RockCompressibility.hpp>
#include <opm/core/simulator/SimulatorIncompTwophase.hpp>
#include <opm/core/simulator/SimulatorReport.hpp>
#include <opm/core/simulator/SimulatorTimer.hpp>
#include <opm/core/simulator/TwophaseState.hpp>
#include <opm/core/simulator/WellState.hpp>
#include <opm/core/transport/reorder/TransportSolverTwophaseReorder.hpp>
#include <opm/core/utility/miscUtilities.hpp>
#include <opm/core/utility/parameters/ParameterGroup.hpp>
#include <opm/core/wells.h>
#include <opm/core/wells/WellsManager.hpp>
#include <array>
#include <cmath>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>

typedef std::vector<double> dvec;
typedef std::vector<int> ivec;

// Output of the library's chatter, captured where an oracle reads it.
struct CoutCapture {
    struct Buf : std::streambuf {
        std::string s;
        int overflow(int c) override { NoFault nf; if (c != EOF) s += char(c); return c == EOF ? 0 : c; }
        std::streamsize xsputn(const char* p, std::streamsize n) override { NoFault nf; s.append(p, size_t(n)); return n; }
    } os; std::streambuf* old;
    CoutCapture() : old(std::cout.rdbuf(&os)) {}
    ~CoutCapture() { std::cout.rdbuf(old); }
    std::string str() const { return os.s; }
};

inline bool isFin(double x) { return std::fabs(x) <= 1.7e308; }
inline bool allFinite(const dvec& v) { for (double x : v) if (!isFin(x)) return false; return true; }
inline uint64_t hashVec(uint64_t h, const dvec& v) { for (double x : v) { uint64_t b; memcpy(&b, &x, 8); h = mix64(h, b); } return h; }
inline bool sameBits(const dvec& a, const dvec& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
inline long firstDiff(const dvec& a, const dvec& b) { for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (memcmp(&a[i], &b[i], 8)) return long(i); return a.size() == b.size() ? -1 : long(std::min(a.size(), b.size())); }

// ------------------------------------------------------------------ rock and fluid
struct HeteroProps : Opm::IncompPropertiesBasic {
    dvec poro, perm;
    HeteroProps(Opm::SaturationPropsBasic::RelPermFunc f, const dvec& rho, const dvec& mu, const dvec& poro_, const dvec& perm_, int dim)
        : Opm::IncompPropertiesBasic(2, f, rho, mu, 0.5, 1e-13, dim, int(poro_.size())), poro(poro_), perm(perm_) {}
    const double* porosity() const override { return poro.data(); }
    const double* permeability() const override { return perm.data(); }
    std::function<void()> onRelperm;           // the simulator watches the state from here
    void relperm(const int n, const double* s, const int* cells, double* kr, double* dkrds) const override {
        if (onRelperm) onRelperm();
        Opm::IncompPropertiesBasic::relperm(n, s, cells, kr, dkrds);
    }
    // the model's own fractional flow of water
    int kind = 1; double frac(double sw) const {
        const double a = (kind == 0 ? 1 : kind == 1 ? sw : sw * sw) / viscosity()[0], b = (kind == 0 ? 1 : kind == 1 ? 1 - sw : (1 - sw) * (1 - sw)) / viscosity()[1];
        return a / (a + b);
    }
};

// ------------------------------------------------------------------ linear solver seam
// The real UMFPACK back end behind LinearSolverInterface, with failures injected.
struct SimLinSolver : Opm::LinearSolverInterface {
    enum Kind { Ok = 0, SayFailed, FailedGarbage, LieNaN, LieInf, LieAllNaN, Throw, UmfOom, COom, NKINDS };
    static const char* kindName(int k) {
        static const char* n[] = {"ok", "solver-reports-failure", "solver-fails-with-garbage", "solver-returns-nan", "solver-returns-inf", "solver-returns-all-nan", "solver-throws", "umfpack-out-of-memory", "matrix-copy-out-of-memory"};
        return n[k];
    }
    Opm::LinearSolverUmfpack real;
    mutable int calls = 0;
    mutable std::map<int, int> plan;       // call number -> Kind
    mutable int where = 0;                 // entry that is spoiled / allocation that fails
    mutable int fired = 0;
    mutable int lastKind = 0;
    mutable bool mustFail = false;         // the last solve cannot have succeeded
    std::function<void()> before;
    LinearSolverReport solve(const int size, const int nnz, const int* ia, const int* ja, const double* sa, const double* rhs, double* x) const override {
        if (before) before();
        const int k = calls++;
        auto it = plan.find(k);
        const int kind = it == plan.end() ? 0 : it->second;
        LinearSolverReport rep; rep.converged = false; rep.iterations = 0; rep.residual_reduction = 0;
        mustFail = false;
        const long fa = mem.fail_at; const bool on = mem.on, fc = mem.fail_c, fu = mem.fail_umf, fn = mem.fail_new; const long cnt = mem.count, fl = mem.fail_len;
        if (kind == UmfOom || kind == COom) {
            mem.count = 0; mem.fail_at = where % 8; mem.fail_len = 1 + where % 3; mem.on = true;
            mem.fail_c = kind == COom; mem.fail_umf = kind == UmfOom; mem.fail_new = false;
            const long f0 = mem.failed;
            const int sus = mem.suspend; mem.suspend = 0;
            rep = real.solve(size, nnz, ia, ja, sa, rhs, x);
            mem.suspend = sus; mem.on = on; mem.fail_at = fa; mem.fail_c = fc; mem.fail_umf = fu; mem.fail_new = fn; mem.count = cnt; mem.fail_len = fl;
            if (mem.failed > f0) { ++fired; lastKind = kind; if (g_sim) g_sim->fault(kindName(kind)); }
            return rep;
        }
        if (kind == Throw) { note(kind); throw std::runtime_error("simulated linear solver failure"); }
        if (kind == FailedGarbage) { note(kind); for (int i = 0; i < size; ++i) x[i] = 1e3 * ((i * 7919 + where) % 1000); return rep; }
        { NoFault nf; rep = real.solve(size, nnz, ia, ja, sa, rhs, x); }
        if (kind == SayFailed) { note(kind); rep.converged = false; }
        if (kind == LieNaN) { note(kind); x[where % size] = std::nan(""); rep.converged = true; }
        if (kind == LieInf) { note(kind); x[where % size] = (where & 1) ? INFINITY : -INFINITY; rep.converged = true; }
        if (kind == LieAllNaN) { note(kind); for (int i = 0; i < size; ++i) x[i] = std::nan(""); rep.converged = true; }
        return rep;
    }
    void note(int k) const { ++fired; lastKind = k; mustFail = true; if (g_sim) g_sim->fault(kindName(k)); }
    void setTolerance(const double) override {}
    double getTolerance() const override { return -1; }
};

// ------------------------------------------------------------------ the world
struct WellSpec {
    bool inj; double depth; ivec cells; dvec WI;
    struct Ctrl { int type; double target; }; std::vector<Ctrl> ctrls; int cur;
    std::string name;
};
struct BcSpec { int type; int face; double value; };

struct WorldOpt {
    int maxcells = 60;
    bool wells = true, src = true, bcs = true, gravity = true, rockcomp = true, two_d = true, cornerpoint = true;
    bool smooth_relperm = false;      // no Constant relperm
    bool crossflow_free = true;       // all-injectors/producers pressure ordering is not guaranteed either way
    bool shut_wells = true; int wells_num = 2, wells_den = 3;
};

struct WorldSpec {
    int dim = 3, n[3] = {1, 1, 1}, kind = 0;
    dvec x, y, z, coord, zcorn; ivec actnum;
    int relperm = 1; dvec rho, mu, poro, perm;
    bool grav = false; double g[3] = {0, 0, 0};
    bool rock = false; double pref = 1e7, crock = 0;
    std::vector<WellSpec> wells;
    dvec src; std::vector<BcSpec> bcs; bool has_bcs = false, has_wells = false;
    dvec p0, s0; double dt = 86400; double Q = 0, pv = 0;
    int nc = 0;
};

struct GridDel { void operator()(UnstructuredGrid* g) const { destroy_grid(g); } };
typedef std::unique_ptr<UnstructuredGrid, GridDel> GridPtr;

inline GridPtr makeGrid(const WorldSpec& w) {
    UnstructuredGrid* g = nullptr;
    if (w.kind == 2) {
        struct grdecl d; memset(&d, 0, sizeof d);
        for (int i = 0; i < 3; ++i) d.dims[i] = w.n[i];
        d.coord = w.coord.data(); d.zcorn = w.zcorn.data(); d.actnum = w.actnum.empty() ? nullptr : w.actnum.data();
        g = create_grid_cornerpoint(&d, 0.0);
    } else if (w.dim == 2) g = create_grid_tensor2d(w.n[0], w.n[1], w.x.data(), w.y.data());
    else g = create_grid_tensor3d(w.n[0], w.n[1], w.n[2], w.x.data(), w.y.data(), w.z.data(), nullptr);
    return GridPtr(g);
}

inline dvec coords(Sim& s, int n, double h, bool uniform, double start = 0) {
    dvec v(1, start);
    for (int i = 0; i < n; ++i) v.push_back(v.back() + (uniform ? h : h * s.real(0.4, 2.0)));
    return v;
}

inline WorldSpec drawWorld(Sim& s, const WorldOpt& o) {
    WorldSpec w;
    w.kind = int(s.choose(o.cornerpoint ? 3 : 2));
    w.dim = (o.two_d && w.kind != 2 && s.chance(1, 6)) ? 2 : 3;
    int cap = o.maxcells;
    const int shape = int(s.choose(4));
    for (int d = 0; d < w.dim; ++d) {
        int m = std::min(cap, shape == 1 && d > 0 ? 1 : shape == 2 && d < 2 ? 1 : 8);
        if (shape == 3) m = std::min(m, 5);
        w.n[d] = s.range(1, std::max(1, m)); cap /= w.n[d];
    }
    if (w.dim == 2) w.n[2] = 1;
    const double h = s.logreal(1.0, 100.0), hz = s.logreal(0.5, 20.0);
    const bool uni = w.kind == 0;
    if (w.kind != 2) {
        w.x = coords(s, w.n[0], h, uni); w.y = coords(s, w.n[1], h, uni);
        if (w.dim == 3) w.z = coords(s, w.n[2], hz, uni, s.real(0, 1000));
    } else {
        const int nx = w.n[0], ny = w.n[1], nz = w.n[2];
        w.x = coords(s, nx, h, false); w.y = coords(s, ny, h, false);
        const double top = s.real(100, 1000);
        for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
            w.coord.insert(w.coord.end(), {w.x[i], w.y[j], top - 1000, w.x[i], w.y[j], top + 3000});
        }
        // a depth per cell column (fault throws) and thickness per layer
        dvec throwz(nx * ny), th(nz);
        for (auto& t : throwz) t = s.chance(1, 3) ? hz * s.real(-1.2, 1.2) : 0.0;
        for (auto& t : th) t = hz * s.real(0.5, 1.5);
        w.zcorn.resize(size_t(8) * nx * ny * nz);
        for (int k = 0; k < nz; ++k) { double z0 = top; for (int q = 0; q < k; ++q) z0 += th[q];
            for (int kk = 0; kk < 2; ++kk) for (int j = 0; j < 2 * ny; ++j) for (int i = 0; i < 2 * nx; ++i) {
                const double slope = 0.02 * (w.x[(i + 1) / 2]);
                w.zcorn[(size_t(2 * k + kk) * 2 * ny + j) * 2 * nx + i] = z0 + kk * th[k] + throwz[(j / 2) * nx + i / 2] + slope;
            } }
        if (s.chance(1, 2)) { w.actnum.assign(nx * ny * nz, 1); for (auto& a : w.actnum) if (s.chance(1, 6)) a = 0; w.actnum[s.choose(w.actnum.size())] = 1; }
    }
    GridPtr g = makeGrid(w);
    if (!g) throw Discard{"grid"};
    w.nc = g->number_of_cells;
    const int nc = w.nc;
    if (nc < 1) throw Discard{"no active cells"};
    // connected components (a faulted grid may fall apart; each part is its own Neumann problem)
    ivec comp(nc, -1); int ncomp = 0;
    for (int c0 = 0; c0 < nc; ++c0) if (comp[c0] < 0) {
        ivec st(1, c0); comp[c0] = ncomp;
        while (!st.empty()) { int c = st.back(); st.pop_back();
            for (int i = g->cell_facepos[c]; i < g->cell_facepos[c + 1]; ++i) { int f = g->cell_faces[i];
                for (int q = 0; q < 2; ++q) { int e = g->face_cells[2 * f + q]; if (e >= 0 && comp[e] < 0) { comp[e] = ncomp; st.push_back(e); } } } }
        ++ncomp;
    }
    if (ncomp > 1) throw Discard{"disconnected grid"};
    // fluid and rock
    w.relperm = o.smooth_relperm ? 1 + int(s.choose(2)) : int(s.choose(3));
    w.rho = {s.real(900, 1100), s.real(600, 1000)};
    w.mu = {s.logreal(3e-4, 3e-3), s.logreal(3e-4, 1e-2)};
    const bool het = s.chance(1, 2);
    const double k0 = s.logreal(1e-15, 1e-11);
    for (int c = 0; c < nc; ++c) {
        w.poro.push_back(het ? s.real(0.05, 0.4) : 0.25);
        for (int i = 0; i < w.dim; ++i) for (int j = 0; j < w.dim; ++j)
            w.perm.push_back(i == j ? (het ? k0 * s.logreal(0.1, 10) : k0) : 0.0);
        w.pv += w.poro.back() * g->cell_volumes[c];
    }
    w.grav = o.gravity && s.chance(1, 2);
    if (w.grav) w.g[w.dim == 3 ? 2 : int(s.choose(2))] = 9.80665;
    w.rock = o.rockcomp && s.chance(1, 4);
    if (w.rock) { w.pref = 1e7; w.crock = s.logreal(1e-11, 1e-9); }
    w.dt = s.logreal(3600, 86400 * 100);
    // drive: total rate moves a drawn fraction of the pore volume per step
    w.Q = s.logreal(0.005, 1.0) * w.pv / w.dt;
    // pressures induced by Q across the domain decide the BHP offsets
    const double mumin = std::min(w.mu[0], w.mu[1]);
    const double L = h * std::max(w.n[0], w.n[1]);
    const double T = k0 * (hz * (w.dim == 3 ? 1 : 1)) / mumin;
    const double dp = std::min(1e7, w.Q / T + 1.0); (void)L;
    // wells
    w.has_wells = o.wells && s.chance(o.wells_num, o.wells_den);
    if (w.has_wells) {
        const int nw = s.range(1, std::min(4, nc));
        std::vector<char> used(nc, 0);
        double balance = 0; int lastRate = -1; bool anyBhp = false;
        for (int i = 0; i < nw; ++i) {
            WellSpec ws; ws.inj = i % 2 == 0; ws.name = (ws.inj ? "I" : "P") + std::to_string(i);
            const int np = s.range(1, std::min(4, nc));
            int c = int(s.choose(nc));
            for (int k = 0; k < np; ++k) { while (used[c] && !s.chance(1, 8)) { c = (c + 1) % nc; bool full = true; for (char u : used) full = full && u; if (full) break; }
                if (std::find(ws.cells.begin(), ws.cells.end(), c) != ws.cells.end()) break;
                used[c] = 1; ws.cells.push_back(c); ws.WI.push_back(k0 * hz * s.logreal(0.5, 20)); c = (c + 1) % nc; }
            ws.depth = w.dim == 3 ? g->cell_centroids[3 * ws.cells[0] + 2] + s.real(-1, 1) * hz : 0.0;
            const double q = w.Q * s.real(0.2, 1.0) * (ws.inj ? 1 : -1);
            const double bhp = 1e7 + (ws.inj ? dp : -dp) * s.real(0.5, 2.0);
            const bool isbhp = s.chance(1, 2);
            ws.ctrls.push_back({isbhp ? BHP : RESERVOIR_RATE, isbhp ? bhp : q});
            if (s.chance(1, 3)) ws.ctrls.push_back({isbhp ? RESERVOIR_RATE : BHP, isbhp ? q : bhp});
            ws.cur = 0;
            if (o.shut_wells && s.chance(1, 8)) ws.cur = -1;
            if (ws.cur == 0) { if (isbhp) anyBhp = true; else { balance += q; lastRate = i; } }
            w.wells.push_back(ws);
        }
        (void)balance; (void)lastRate; (void)anyBhp;
    }
    // sources
    w.src.assign(nc, 0.0);
    if (o.src && (!w.has_wells || s.chance(1, 4))) {
        const int ns = s.range(1, std::min(4, nc));
        for (int i = 0; i < ns; ++i) w.src[s.choose(nc)] += (i % 2 == 0 ? 1 : -1) * w.Q * s.real(0.1, 1.0);
    }
    // boundary conditions
    w.has_bcs = o.bcs && s.chance(1, 3);
    if (w.has_bcs) {
        ivec bf; for (int f = 0; f < g->number_of_faces; ++f) if ((g->face_cells[2 * f] < 0) != (g->face_cells[2 * f + 1] < 0)) bf.push_back(f);
        const int nb = s.range(0, std::min<int>(6, int(bf.size())));
        std::set<int> seen;
        for (int i = 0; i < nb; ++i) { int f = bf[s.choose(bf.size())]; if (!seen.insert(f).second) continue;
            if (s.chance(1, 2)) w.bcs.push_back({BC_PRESSURE, f, 1e7 + dp * s.real(-1, 1)});
            else w.bcs.push_back({BC_FLUX_TOTVOL, f, w.Q * s.real(-0.5, 0.5)}); }
    }
    // initial state
    const double sw0 = s.real(0, 1);
    const int sk = int(s.choose(3));
    for (int c = 0; c < nc; ++c) {
        w.p0.push_back(1e7);
        double sw = sk == 0 ? 0.0 : sk == 1 ? sw0 : s.real(0, 1);
        w.s0.push_back(sw); w.s0.push_back(1 - sw);
    }
    s.event("world kind=%d dim=%d n=%dx%dx%d nc=%d relperm=%d grav=%d rock=%d wells=%zu bcs=%zu", w.kind, w.dim, w.n[0], w.n[1], w.n[2], nc, w.relperm, w.grav, w.rock, w.wells.size(), w.bcs.size());
    s.cover(std::string("grid-") + (w.dim == 2 ? "2d" : w.kind == 0 ? "cartesian" : w.kind == 1 ? "tensor" : "cornerpoint"));
    if (w.has_wells) s.cover("wells"); if (w.grav) s.cover("gravity"); if (w.rock) s.cover("rock-compressibility"); if (w.has_bcs) s.cover("boundary-conditions");
    return w;
}

struct BcDel { void operator()(FlowBoundaryConditions* b) const { flow_conditions_destroy(b); } };
struct WellsDel { void operator()(Wells* w) const { destroy_wells(w); } };

inline Wells* makeWells(const WorldSpec& w) {
    int np = 0; for (auto& x : w.wells) np += int(x.cells.size());
    Wells* W = create_wells(2, int(w.wells.size()), np);
    const double dist[2] = {1.0, 1.0};
    for (size_t i = 0; i < w.wells.size(); ++i) {
        const WellSpec& x = w.wells[i];
        const double fi[2] = {1.0, 0.0}, fp[2] = {0.0, 0.0};
        add_well(x.inj ? INJECTOR : PRODUCER, x.depth, int(x.cells.size()), x.inj ? fi : fp, x.cells.data(), x.WI.data(), x.name.c_str(), W);
        for (auto& c : x.ctrls) append_well_controls((enum WellControlType)c.type, c.target, dist, int(i), W);
        set_current_control(int(i), x.cur, W);
    }
    return W;
}

// Everything a solver or simulator needs, owned.
struct World {
    WorldSpec spec;
    GridPtr grid;
    std::unique_ptr<HeteroProps> props;
    std::unique_ptr<Opm::RockCompressibility> rock;
    std::unique_ptr<Wells, WellsDel> cwells;
    std::unique_ptr<Opm::WellsManager> wm;
    std::unique_ptr<FlowBoundaryConditions, BcDel> bcs;
    dvec src;
    Opm::TwophaseState state; Opm::WellState wstate;
    explicit World(const WorldSpec& sp) : spec(sp), grid(makeGrid(sp)), src(sp.src) {
        static const Opm::SaturationPropsBasic::RelPermFunc rf[] = {Opm::SaturationPropsBasic::Constant, Opm::SaturationPropsBasic::Linear, Opm::SaturationPropsBasic::Quadratic};
        props.reset(new HeteroProps(rf[sp.relperm], sp.rho, sp.mu, sp.poro, sp.perm, sp.dim));
        props->kind = sp.relperm;
        if (sp.rock) {
            Opm::parameter::ParameterGroup p; p.disableOutput();
            std::ostringstream a, b; a.precision(17); b.precision(17); a << sp.pref / 1e5; b << sp.crock * 1e5;
            p.insertParameter("rock_compressibility_pref", a.str()); p.insertParameter("rock_compressibility", b.str());
            rock.reset(new Opm::RockCompressibility(p));
        }
        if (sp.has_wells) { cwells.reset(makeWells(sp)); wm.reset(new Opm::WellsManager(cwells.get())); }
        else wm.reset(new Opm::WellsManager());
        if (sp.has_bcs) { bcs.reset(flow_conditions_construct(0)); for (auto& b : sp.bcs) flow_conditions_append((enum FlowBCType)b.type, b.face, b.value, bcs.get()); }
        state.init(*grid, 2); state.pressure() = sp.p0; state.saturation() = sp.s0;
        wstate.init(wells(), state);
    }
    const Wells* wells() const { return wm->c_wells(); }
    Wells* mwells() { return const_cast<Wells*>(wm->c_wells()); }
    const double* g() const { return spec.grav ? spec.g : nullptr; }
    bool rockActive() const { return rock && rock->isActive(); }
    // Is a pressure level fixed by a boundary condition or an active BHP well?
    bool pressureFixed() const {
        for (auto& b : spec.bcs) if (b.type == BC_PRESSURE) return true;
        if (const Wells* W = wells()) for (int w = 0; w < W->number_of_wells; ++w) { auto* c = W->ctrls[w]; if (c->current >= 0 && c->type[c->current] == BHP) return true; }
        return false;
    }
    double netDrive() const {              // net volume rate into the domain from rate conditions
        double t = 0; for (double q : src) t += q;
        for (auto& b : spec.bcs) if (b.type == BC_FLUX_TOTVOL) t += b.value;
        if (const Wells* W = wells()) for (int w = 0; w < W->number_of_wells; ++w) { auto* c = W->ctrls[w]; if (c->current >= 0 && c->type[c->current] != BHP) t += c->target[c->current]; }
        return t;
    }
    // Make an incompressible world without a pressure condition solvable.
    void balanceSource(int cell) { if (!pressureFixed() && !rockActive()) src[cell] -= netDrive(); }
    double transScale() const {
        double k = 0; for (double p : spec.perm) k = std::max(k, p);
        double a = 0, v = 1e300; for (int f = 0; f < grid->number_of_faces; ++f) a = std::max(a, grid->face_areas[f]);
        for (int f = 0; f < grid->number_of_faces; ++f) for (int q = 0; q < 2; ++q) { int c = grid->face_cells[2 * f + q]; if (c < 0) continue;
            double d = 0; for (int i = 0; i < spec.dim; ++i) { double e = grid->face_centroids[f * spec.dim + i] - grid->cell_centroids[c * spec.dim + i]; d += e * e; }
            v = std::min(v, std::sqrt(d)); }
        return k * a / v / std::min(spec.mu[0], spec.mu[1]);
    }
};

// Volume balance of one cell: outflow over its faces - wells - sources + change of pore volume.
inline dvec cellImbalance(const World& w, const Opm::TwophaseState& st, const Opm::WellState& ws, const dvec& pv0, double dt) {
    const UnstructuredGrid& g = *w.grid;
    dvec r(g.number_of_cells, 0.0);
    for (int c = 0; c < g.number_of_cells; ++c)
        for (int i = g.cell_facepos[c]; i < g.cell_facepos[c + 1]; ++i) { const int f = g.cell_faces[i]; r[c] += (g.face_cells[2 * f] == c ? 1 : -1) * st.faceflux()[f]; }
    for (int c = 0; c < g.number_of_cells; ++c) r[c] -= w.src[c];
    if (const Wells* W = w.wells()) for (int i = 0; i < W->well_connpos[W->number_of_wells]; ++i) r[W->well_cells[i]] -= ws.perfRates()[i];
    if (w.rockActive()) for (int c = 0; c < g.number_of_cells; ++c)
        r[c] += (w.spec.poro[c] * g.cell_volumes[c] * w.rock->poroMult(st.pressure()[c]) - pv0[c]) / dt;
    return r;
}
