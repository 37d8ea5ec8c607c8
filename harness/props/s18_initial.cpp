// S18: initial states: contacts, hydrostatic pressures, decks, reused state objects; what is in equilibrium stays so.
#include "props/compworld.hpp"
#include "props/graph.hpp"
#include "props/libcall.hpp"
#include <opm/core/grid/ColumnExtract.hpp>
#include <opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.hpp>

namespace {
const double kG = 9.80665, kPsi = 4.4482216152605 / (0.0254 * 0.0254);

struct Ends { int nc = 0, np = 2, dim = 3; dvec lo, hi, rock, perm;
    void draw(Sim& s, int n, int d) { nc = n; dim = d; const bool e = s.chance(2, 3); for (int c = 0; c < n; ++c) { lo.push_back(e ? s.real(0, 0.4) : 0); hi.push_back(e ? s.real(0.6, 1) : 1); } }
    void range(int n, const int* cells, double* a, double* b) const { for (int i = 0; i < n; ++i) for (int q = 0; q < np; ++q) { const int c = cells[i]; a[np * i + q] = q == 0 ? lo[c] : q == 1 ? 1 - hi[c] : 0; b[np * i + q] = q == 0 ? hi[c] : q == 1 ? 1 - lo[c] : 1; } }
};
// Two incompressible phases with residual saturations.
struct Oilwater : Opm::IncompPropertiesInterface, Ends {
    double mu[2] = {1e-3, 2e-3}, rho[2] = {1000, 800};
    int numDimensions() const override { return dim; }
    int numCells() const override { return nc; }
    const double* porosity() const override { return rock.data(); }
    const double* permeability() const override { return perm.data(); }
    int numPhases() const override { return np; }
    const double* viscosity() const override { return mu; }
    const double* density() const override { return rho; }
    const double* surfaceDensity() const override { return rho; }
    void relperm(const int n, const double* s, const int* cells, double* kr, double* d) const override {
        for (int i = 0; i < n; ++i) { const int c = cells[i]; const double w = hi[c] - lo[c], x = std::min(1.0, std::max(0.0, (s[2 * i] - lo[c]) / w));
            kr[2 * i] = x * x; kr[2 * i + 1] = (1 - x) * (1 - x); if (d) { d[4 * i] = 2 * x / w; d[4 * i + 1] = -2 * (1 - x) / w; d[4 * i + 2] = d[4 * i + 3] = 0; } }
    }
    void capPress(const int n, const double*, const int*, double* p, double* d) const override { for (int i = 0; i < 2 * n; ++i) p[i] = 0; if (d) for (int i = 0; i < 4 * n; ++i) d[i] = 0; }
    void satRange(const int n, const int* cells, double* a, double* b) const override { range(n, cells, a, b); }
};
// Compressible phases, each dissolved in the others, with a factor per cell.
struct Blackoil : Opm::BlackoilPropertiesInterface, Ends {
    double b[3][3], c[3], rhos[3], pref = 1e7; dvec fac;
    double A(double p, int cell, int row, int col) const { return b[row][col] * (1 + c[col] * (p - pref)) * (cell < 0 ? 1 : fac[cell]); }
    double rho0(int ph) const { double r = 0; for (int i = 0; i < np; ++i) r += b[i][ph] * rhos[i]; return r; }
    int numDimensions() const override { return dim; }
    int numCells() const override { return nc; }
    const double* porosity() const override { return rock.data(); }
    const double* permeability() const override { return rock.data(); }
    int numPhases() const override { return np; }
    void viscosity(const int, const double*, const double*, const int*, double*, double*) const override { throw std::runtime_error("viscosity is not needed"); }
    void matrix(const int n, const double* p, const double*, const int* cells, double* a, double* da) const override {
        for (int i = 0; i < n; ++i) for (int r = 0; r < np; ++r) for (int k = 0; k < np; ++k) { a[(i * np + k) * np + r] = A(p[i], cells ? cells[i] : -1, r, k); if (da) da[(i * np + k) * np + r] = b[r][k] * c[k] * (cells ? fac[cells[i]] : 1); }
    }
    void density(const int n, const double* a, double* rho) const override { for (int i = 0; i < n; ++i) for (int k = 0; k < np; ++k) { rho[i * np + k] = 0; for (int r = 0; r < np; ++r) rho[i * np + k] += a[(i * np + k) * np + r] * rhos[r]; } }
    const double* surfaceDensity() const override { return rhos; }
    void relperm(const int, const double*, const int*, double*, double*) const override { throw std::runtime_error("relperm is not needed"); }
    void capPress(const int, const double*, const int*, double*, double*) const override { throw std::runtime_error("capPress is not needed"); }
    void satRange(const int n, const int* cells, double* lo_, double* hi_) const override { range(n, cells, lo_, hi_); }
};

// What the state has to be.
struct Want {
    bool refuse = false, pressure = true; std::string why;
    dvec sw, sg, p, tol; double ties = 0;              // water (and gas) saturations; pressures and their tolerances
    std::vector<char> tie;                             // on the contact: either side
};
struct Column {                                        // hydrostatic pressure below and above a contact
    double woc, g, zd, pd; double r[2], c[2], pref = 0, h = 0;
    double down(double p, int ph, double dz) const { const double u = 1 + c[ph] * (p - pref); return c[ph] == 0 ? p + r[ph] * g * dz : p + u * std::expm1(c[ph] * r[ph] * g * dz) / c[ph]; }
    double at(double z) const { const int a = zd > woc ? 0 : 1, b = z > woc ? 0 : 1; return a == b ? down(pd, a, z - zd) : down(down(pd, a, woc - zd), b, z - woc); }
    double tol(double z, double zlo, double zhi) const {
        const double p = at(z); double t = 1e-11 * (std::fabs(p) + std::fabs(pd) + r[0] * g * (std::fabs(z) + std::fabs(zd)));
        if (h > 0) { t += 4e-6 * h * g * (r[0] + r[1]); const double lo = std::min(zlo, zd), hi = std::max(zhi, zd); for (int q = 0; q < 2; ++q) { const double u = 1 + c[q] * (std::max(std::fabs(p), std::fabs(pd)) + r[q] * g * (hi - lo) + pref); t += c[q] * std::pow(r[q] * u * g, 2) * (hi - lo) * h; }
            if (std::fabs(z - woc) < 3 * h) t += std::fabs(r[0] * (1 + c[0] * (p - pref)) - r[1] * (1 + c[1] * (p - pref))) * g * h; }
        return t;
    }
};

double depth(const UnstructuredGrid& g, int c) { return g.cell_centroids[g.dimensions * c + g.dimensions - 1]; }

template <class State> void checkState(Sim& s, const UnstructuredGrid& g, const State& st, const Want& w, int np, const char* how) {
    const int nc = g.number_of_cells, nf = g.number_of_faces, d = g.dimensions; const dvec& S = st.saturation(); const dvec& p = st.pressure();
    s.require(st.numPhases() == np && int(S.size()) == np * nc && int(p.size()) == nc && int(st.facepressure().size()) == nf && int(st.faceflux().size()) == nf, "size", "%s: a state of %d phases with %zu saturations, %zu pressures, %zu face pressures and %zu fluxes on a grid of %d cells and %d faces", how, st.numPhases(), S.size(), p.size(), st.facepressure().size(), st.faceflux().size(), nc, nf);
    for (int c = 0; c < nc; ++c) {
        const int wp = np == 2 ? 0 : 0; double sum = 0; for (int q = 0; q < np; ++q) sum += S[np * c + q];
        if (!w.tie[c]) s.require(std::fabs(S[np * c + wp] - w.sw[c]) <= 1e-12, "saturation", "%s: cell %d at depth %.10g has first saturation %.10g, expected %.10g", how, c, depth(g, c), S[np * c], w.sw[c]);
        if (np == 3) s.require(std::fabs(S[3 * c + 2] - w.sg[c]) <= 1e-12, "saturation", "%s: cell %d has gas saturation %.10g, expected %.10g", how, c, S[3 * c + 2], w.sg[c]);
        s.require(std::fabs(sum - 1) <= 1e-12, "saturation-sum", "%s: saturations of cell %d add to %.17g", how, c, sum);
        s.require(std::fabs(p[c] - w.p[c]) <= w.tol[c], "pressure", "%s: cell %d at depth %.10g has pressure %.12g, expected %.12g (tolerance %g)", how, c, depth(g, c), p[c], w.p[c], w.tol[c]);
    }
    for (int f = 0; f < nf; ++f) {
        const int a = g.face_cells[2 * f], b = g.face_cells[2 * f + 1]; if (a < 0 && b < 0) continue;
        double e[2] = {0, 0}; for (int q = 0; q < 2; ++q) { const int c = q ? b : a; if (c < 0) continue; for (int k = 0; k < d; ++k) e[q] += std::pow(g.face_centroids[d * f + k] - g.cell_centroids[d * c + k], 2); e[q] = std::sqrt(e[q]); }
        const double x = a < 0 ? p[b] : b < 0 ? p[a] : (p[a] * e[1] + p[b] * e[0]) / (e[0] + e[1]);
        s.require(std::fabs(st.facepressure()[f] - x) <= 1e-11 * (std::fabs(x) + 1), "face-pressure", "%s: face %d between cells %d and %d has pressure %.12g, expected %.12g", how, f, a, b, st.facepressure()[f], x);
    }
    for (int f = 0; f < nf; ++f) s.require(st.faceflux()[f] == 0, "flux", "%s: face %d of a new state has flux %g", how, f, st.faceflux()[f]);
}

struct Param { Opm::parameter::ParameterGroup g; Param() { g.disableOutput(); }
    void put(const char* k, double v) { std::ostringstream o; o.precision(17); o << v; g.insertParameter(k, o.str()); }
    void flag(const char* k) { g.insertParameter(k, "true"); } };

void drawFluid(Sim&, Oilwater&, Column&); void drawFluid(Sim&, Blackoil&, Column&);
void surfvol(Sim&, const UnstructuredGrid&, const Oilwater&, Opm::TwophaseState&); void surfvol(Sim&, const UnstructuredGrid&, const Blackoil&, Opm::BlackoilState&);
template <class State> void wellStart(Sim&, const UnstructuredGrid&, const State&, int);
// Draws an initialisation, carries it out on the given state and judges the result.
template <class State, class Props, bool comp> void initialise(Sim& s, State& st, int id) {
    WorldOpt o; o.maxcells = 40; o.wells = o.src = o.bcs = o.gravity = o.rockcomp = false; const WorldSpec spec = drawWorld(s, o); GridPtr own = makeGrid(spec); UnstructuredGrid& g = *own;
    const int nc = g.number_of_cells; Props pr; pr.draw(s, nc, g.dimensions);
    const bool deck = s.chance(1, 2); const int phases = deck ? int(s.choose(comp ? 4 : 3)) : 0;            // water-oil twice as often, oil-gas, all three
    pr.np = phases == 3 ? 3 : 2; if (!deck && s.chance(1, 12)) pr.np = s.chance(1, 2) ? 1 : 3;
    const double gravity = s.chance(1, 6) ? 0.0 : s.chance(1, 6) ? s.real(0, 20) : kG;
    double zlo = 1e300, zhi = -1e300; for (int c = 0; c < nc; ++c) { zlo = std::min(zlo, depth(g, c)); zhi = std::max(zhi, depth(g, c)); }
    const double span = zhi > zlo ? zhi - zlo : 10.0; Column col; col.g = gravity;
    auto anywhere = [&] { const int k = int(s.choose(6)); return k == 0 ? zlo : k == 1 ? zhi : k == 2 ? depth(g, int(s.choose(nc))) : k == 3 ? s.real(zlo - 3 * span, zhi + 3 * span) : zlo + span * s.real(-0.1, 1.1); };
    drawFluid(s, pr, col); 
    Want w; w.sw.assign(nc, 0.0); w.sg.assign(nc, 0.0); w.p.assign(nc, 0.0); w.tol.assign(nc, 0.0); w.tie.assign(nc, 0);
    bool invert = false, hydro = false; const dvec &lo = pr.lo, &hi = pr.hi;
    auto contact = [&](double z) { for (int c = 0; c < nc; ++c) { const double d = depth(g, c) - z; w.tie[c] = std::fabs(d) <= 1e-9 * (std::fabs(z) + span); w.sw[c] = (d > 0) != invert ? hi[c] : lo[c]; } };
    auto hydrostatic = [&] { hydro = true; if (comp) col.h = std::max((zhi - zlo) / 100, (std::max(zhi, col.zd) - std::min(zlo, col.zd)) / 1e4); for (int c = 0; c < nc; ++c) { w.p[c] = col.at(depth(g, c)); w.tol[c] = col.tol(depth(g, c), zlo, zhi); } };
    Call call; std::string how; const int ref = int(s.choose(3)); const long fail = memFault(s) ? position(s) : -1; std::function<void(State&)> go;
    Param prm; std::shared_ptr<Opm::EclipseGridParser> parser;
    if (!deck) {
        const int kind = int(s.choose(comp ? 3 : 5)); double rp = 100e5; if (ref) { const double b = s.real(50, 400); prm.put("ref_pressure", b); rp = b * 1e5; }
        if (kind == 0) { how = "default"; w.sw = lo; col.zd = depth(g, 0); col.pd = rp; col.woc = 1e300; hydrostatic(); }
        else if (kind == 1) { how = "contact"; col.woc = col.zd = anywhere(); col.pd = rp; prm.put("water_oil_contact", col.woc); contact(col.woc); hydrostatic(); }
        else if (kind == 2) { how = "convection"; prm.flag("convection_testcase"); for (int c = 0; c < nc; ++c) { const int gc = g.global_cell ? g.global_cell[c] : c; w.sw[c] = gc % g.cartdims[0] < g.cartdims[0] / 2 ? hi[c] : lo[c]; w.p[c] = rp; w.tol[c] = 1e-11 * rp; } if (s.chance(1, 3)) prm.put("water_oil_contact", anywhere()); }
        else if (kind == 3) { how = "segregation"; prm.flag("segregation_testcase"); if (s.chance(1, 10)) { w.refuse = true; w.why = "no contact given"; } col.woc = col.zd = anywhere(); col.pd = rp; if (!w.refuse) prm.put("water_oil_contact", col.woc); invert = true; contact(col.woc); std::swap(col.r[0], col.r[1]); hydrostatic(); }
        else { how = "uniform"; const double v = s.real(0, 1); prm.put("init_saturation", v); w.sw.assign(nc, v); col.r[0] = col.r[1] = v * col.r[0] + (1 - v) * col.r[1]; col.zd = depth(g, 0); col.pd = rp; col.woc = 1e300; hydrostatic(); }
        if (pr.np != 2) { w.refuse = true; w.why = "not two phases"; }
        go = [&](State& x) { Opm::initStateBasic(g, pr, prm.g, gravity, x); };
    } else {
        static const char* const names[] = {"OIL\nWATER\n", "OIL\nWATER\n", "OIL\nGAS\n", "WATER\nOIL\nGAS\n"};
        const bool field = s.chance(1, 4); const double L = field ? 0.3048 : 1.0, P = field ? kPsi : 1e5;
        std::ostringstream d; d.precision(17); d << "RUNSPEC\n" << names[phases] << (field ? "FIELD" : "METRIC") << "\nSOLUTION\n";
        const int total = g.cartdims[0] * g.cartdims[1] * (g.dimensions == 3 ? g.cartdims[2] : 1); int need = 0; for (int c = 0; c < nc; ++c) need = std::max(need, 1 + (g.global_cell ? g.global_cell[c] : c));
        const int kind = int(s.choose(12)); how = kind < 6 ? "EQUIL" : "fields";
        if (kind < 6) {
            col.woc = s.chance(1, 8) ? (s.chance(1, 2) ? 0.0 : 1e5) : anywhere(); col.zd = s.chance(1, 4) ? col.woc : s.chance(1, 8) ? 0.0 : anywhere(); if (std::fabs(col.zd) > 3e3) col.zd = zlo; col.pd = s.real(50, 400) * 1e5;
            if (g.dimensions == 2 && comp && std::fabs(col.woc) > 1e4) col.woc = zhi;
            d << "EQUIL\n " << col.zd / L << " " << col.pd / P << " " << col.woc / L << " 0 " << (s.chance(1, 2) ? "/\n" : "0 0 /\n");
            contact(col.woc); hydrostatic(); if (phases >= 2) { w.refuse = true; w.why = "phases not handled"; }
        } else if (kind == 11) { w.refuse = true; w.why = "no initial state given"; }
        else {
            const int lack = s.chance(1, 8) ? s.range(1, need) : 0, which = int(s.choose(3)); const bool miss = s.chance(1, 10);
            if (lack) s.fault("deck-truncated");
            auto values = [&](const char* key, int n, double lo_, double hi_, double unit) { dvec v; d << key << "\n"; for (int i = 0; i < n; ++i) { const double x = s.real(lo_, hi_); std::ostringstream t; t.precision(17); t << x / unit; d << " " << t.str() << (i % 6 == 5 ? "\n" : ""); v.push_back(strtod(t.str().c_str(), 0) * unit); } d << " /\n"; v.resize(size_t(total), 0.0); return v; };
            const int full = total; auto count = [&](int k) { return lack && (which == k || phases < 3) ? need - lack : full; };
            const dvec pv = values("PRESSURE", phases < 3 && which ? full : count(0), 5e6, 4e7, P); dvec sw, sg; bool sat = false;
            if (phases != 2) { const bool skip = miss && (phases < 2 || which != 2); if (!skip) { sw = values("SWAT", count(1), 0, 0.5, 1); sat = true; } else { w.refuse = true; w.why = "no SWAT"; } }
            if (phases >= 2) { const bool skip = miss && (phases == 2 || which == 2); if (!skip) { sg = values("SGAS", count(2), 0, 0.5, 1); sat = true; } else { w.refuse = true; w.why = "no SGAS"; } }
            (void)sat; if (lack && !w.refuse) { w.refuse = true; w.why = "values missing"; }
            if (!w.refuse) for (int c = 0; c < nc; ++c) { const int k = g.global_cell ? g.global_cell[c] : c; w.p[c] = pv[k]; w.tol[c] = 1e-11 * pv[k]; if (phases == 2) w.sw[c] = 1 - sg[k]; else w.sw[c] = sw[k]; if (phases == 3) w.sg[c] = sg[k]; }
        }
        if (s.chance(1, 12)) { pr.np = pr.np == 2 ? 3 : 2; w.refuse = true; w.why = "number of phases differs"; }
        d << "SCHEDULE\n"; { std::istringstream is(d.str()); parser.reset(new Opm::EclipseGridParser); parser->read(is); }
        go = [&](State& x) { Opm::initStateFromDeck(g, pr, *parser, gravity, x); };
    }
    if (fail >= 0) { Call f; { CoutCapture cap; CerrCapture err; f = libcall(s, fail, [&] { go(st); }); } if (f.threw && f.failed) s.cover("retried"); else s.require(f.threw == w.refuse, "refusal", "%s (%s) was %s", how.c_str(), w.why.c_str(), f.threw ? "refused" : "accepted"); }
    { CoutCapture cap; CerrCapture err; call = libcall(s, -1, [&] { go(st); }); }
    s.event("object %d: %s nc=%d np=%d gravity=%g woc=%g datum=%g threw=%d", id, how.c_str(), nc, pr.np, gravity, hydro ? col.woc : 0, hydro ? col.zd : 0, call.threw);
    if (w.refuse) { s.require(call.threw, "refusal", "%s was accepted: %s", how.c_str(), w.why.c_str()); s.cover("refused"); return; }
    s.require(!call.threw, "spurious-failure", "%s failed: %s", how.c_str(), call.what.c_str());
    s.eventData("p", st.pressure().data(), st.pressure().size()); s.eventData("s", st.saturation().data(), st.saturation().size());
    checkState(s, g, st, w, pr.np, how.c_str()); s.cover(how); s.nontrivial(); if (hydro && col.woc > zlo && col.woc < zhi) s.cover("contact-inside");
    s.state(mix64(mix64(nc, uint64_t(phases) * 16 + ref), std::hash<std::string>()(how)));
    State fresh; { CoutCapture cap; CerrCapture err; libcall(s, -1, [&] { go(fresh); }); }
    sameVec(s, st.pressure(), fresh.pressure(), "pressure", how.c_str(), id); sameVec(s, st.saturation(), fresh.saturation(), "saturation", how.c_str(), id); sameVec(s, st.facepressure(), fresh.facepressure(), "face pressure", how.c_str(), id); sameVec(s, st.faceflux(), fresh.faceflux(), "flux", how.c_str(), id);
    surfvol(s, g, pr, st);
    // a simulation uses the object before it is initialised again
    for (auto& x : st.faceflux()) x = s.real(-1, 1); if (s.chance(1, 2)) for (auto& x : st.saturation()) x = s.real(0, 1);
    // wells start from the pressures just set
    if (nc > 0 && s.chance(1, 3)) wellStart(s, g, st, pr.np);
}
void drawFluid(Sim& s, Oilwater& f, Column& c) { f.rho[0] = s.real(950, 1150); f.rho[1] = s.real(600, 1050); f.rock.assign(f.nc, 0.2); for (int i = 0; i < 2; ++i) { c.r[i] = f.rho[i]; c.c[i] = 0; } }
void drawFluid(Sim& s, Blackoil& f, Column& c) {
    for (int i = 0; i < 3; ++i) { f.c[i] = s.chance(1, 5) ? 0.0 : s.logreal(1e-11, 3e-9); f.rhos[i] = i == 0 ? s.real(950, 1150) : i == 1 ? s.real(600, 900) : s.real(0.5, 2); for (int j = 0; j < 3; ++j) f.b[i][j] = i == j ? s.real(0.7, 1.1) : s.chance(1, 2) ? 0.0 : s.real(0, 0.1); }
    for (int k = 0; k < f.nc; ++k) f.fac.push_back(s.real(0.8, 1.2)); f.rock.assign(f.nc, 0.2);
    const int keep = f.np; f.np = 2; for (int i = 0; i < 2; ++i) { c.r[i] = f.rho0(i); c.c[i] = f.c[i]; } c.pref = f.pref; f.np = keep;
}
void surfvol(Sim&, const UnstructuredGrid&, const Oilwater&, Opm::TwophaseState&) {}
void surfvol(Sim& s, const UnstructuredGrid& g, const Blackoil& f, Opm::BlackoilState& st) {
    const int np = f.np, nc = g.number_of_cells; if (memFault(s)) libcall(s, position(s), [&] { Opm::initBlackoilSurfvol(g, f, st); });
    const Call c = libcall(s, -1, [&] { Opm::initBlackoilSurfvol(g, f, st); }); s.require(!c.threw && int(st.surfacevol().size()) == np * nc, "surface-volume", "surface volumes: %zu values, %s", st.surfacevol().size(), c.what.c_str());
    for (int k = 0; k < nc; ++k) for (int r = 0; r < np; ++r) { double z = 0; for (int q = 0; q < np; ++q) z += f.A(st.pressure()[k], k, r, q) * st.saturation()[np * k + q]; s.require(std::fabs(z - st.surfacevol()[np * k + r]) <= 1e-11 * (std::fabs(z) + 1), "surface-volume", "cell %d holds %.12g of component %d at surface conditions, expected %.12g", k, st.surfacevol()[np * k + r], r, z); }
    s.cover("surface-volumes");
}
template <class State> void wellStart(Sim& s, const UnstructuredGrid& g, const State& st, int np) {
    const int nc = g.number_of_cells, nw = s.range(1, 3); std::unique_ptr<Wells, WellsDel> W(create_wells(np, nw, 3 * nw)); const dvec mix(np, 1.0 / np), dist(np, 1.0); std::vector<double> want; int nperf = 0;
    for (int i = 0; i < nw; ++i) {
        ivec cells; dvec wi; const int n = s.range(1, 3); for (int k = 0; k < n; ++k) { cells.push_back(int(s.choose(nc))); wi.push_back(1e-12); } nperf += n;
        add_well(i % 2 ? PRODUCER : INJECTOR, 0, n, mix.data(), cells.data(), wi.data(), "w", W.get());
        const double bhp = s.real(1e7, 2e7); const int nct = s.range(1, 2), first = int(s.choose(2)), cur = s.chance(1, 6) ? -1 : int(s.choose(nct));
        for (int k = 0; k < nct; ++k) append_well_controls((k + first) % 2 ? BHP : RESERVOIR_RATE, (k + first) % 2 ? bhp : 1.0, dist.data(), i, W.get());
        set_current_control(i, cur, W.get()); want.push_back(cur >= 0 && (cur + first) % 2 ? bhp : st.pressure()[cells[0]]);
    }
    Opm::WellState ws; if (s.chance(1, 2)) { ws.bhp().assign(5, 7.0); ws.perfRates().assign(7, 7.0); ws.perfPress().assign(7, 7.0); }
    if (memFault(s)) libcall(s, position(s) % 4, [&] { ws.init(W.get(), st); });
    const Call c = libcall(s, -1, [&] { ws.init(W.get(), st); }); s.require(!c.threw && int(ws.bhp().size()) == nw && int(ws.perfRates().size()) == nperf && int(ws.perfPress().size()) == nperf, "wells", "a well state of %zu wells and %zu connections for %d wells and %d connections", ws.bhp().size(), ws.perfRates().size(), nw, nperf);
    for (int i = 0; i < nw; ++i) s.require(ws.bhp()[i] == want[size_t(i)], "wells", "well %d starts with bottom-hole pressure %.10g, expected %.10g", i, ws.bhp()[i], want[size_t(i)]);
    for (int k = 0; k < nperf; ++k) s.require(ws.perfRates()[k] == 0, "wells", "connection %d of a new well state flows %g", k, ws.perfRates()[k]);
    s.cover("well-state");
}

// ------------------------------------------------ what is in equilibrium stays so
void rest(Sim& s) {
    WorldOpt o; o.maxcells = 40; o.wells = o.src = o.bcs = o.gravity = o.rockcomp = o.cornerpoint = o.two_d = false; o.smooth_relperm = true;
    const WorldSpec spec = drawWorld(s, o); GridPtr own = makeGrid(spec); UnstructuredGrid& g = *own; const int nc = g.number_of_cells; if (nc == 1) throw Discard{"single cell"};
    Oilwater f; f.draw(s, nc, 3); f.rho[0] = s.real(950, 1150); f.rho[1] = s.real(600, 900); f.mu[0] = spec.mu[0]; f.mu[1] = spec.mu[1]; f.rock = spec.poro; f.perm = spec.perm;
    const bool noGrav = s.chance(1, 8); const double grav[3] = {0, 0, noGrav ? 0.0 : kG};
    const int nz = spec.n[2]; const bool interface_ = s.chance(2, 3); const double woc = interface_ ? spec.z[s.choose(nz + 1)] : s.real(spec.z[0], spec.z[nz]); Param prm; const bool all = s.chance(1, 5); if (!all) prm.put("water_oil_contact", woc);
    Opm::TwophaseState st; { CoutCapture cap; Call c = libcall(s, -1, [&] { Opm::initStateBasic(g, f, prm.g, grav[2], st); }); s.require(!c.threw, "spurious-failure", "initialisation failed: %s", c.what.c_str()); }
    const dvec s0 = st.saturation(), p0 = st.pressure(); SimLinSolver ls; const dvec src(nc, 0.0); Opm::WellState ws; ws.init(static_cast<Wells*>(nullptr), st);
    Opm::IncompTpfa ps(g, f, ls, grav, nullptr, src, nullptr); Opm::TransportSolverTwophaseReorder ts(g, f, grav, 1e-9, 60); dvec pv; Opm::computePorevolume(g, f.porosity(), pv);
    dvec ht(g.cell_facepos[nc]), tr(g.number_of_faces); tpfa_htrans_compute(&g, f.permeability(), ht.data()); tpfa_trans_compute(&g, ht.data(), tr.data());
    const double head = 1050 * kG * (spec.z[nz] - spec.z[0]), mm = std::min(f.mu[0], f.mu[1]); double pvmin = 1e300, tmax = 0; for (double v : pv) pvmin = std::min(pvmin, v); for (double v : tr) tmax = std::max(tmax, v);
    const int n = s.range(1, 8);
    for (int k = 0; k < n; ++k) {
        s.step(); if (s.faults_enabled) mem.fill = 1 + int(s.choose(4)); const double dt = spec.dt * s.logreal(1e-3, 1e3); s.simTime(dt);
        ls.plan.clear(); ls.calls = 0; if (s.faults_enabled && s.chance(1, 5)) { ls.plan[0] = 1 + int(s.choose(SimLinSolver::NKINDS - 1)); ls.where = int(s.choose(1000)); }
        Call c = libcall(s, memFault(s) ? position(s) : -1, [&] { ps.solve(dt, st, ws); });
        if (c.threw) { s.cover("retried"); ls.plan.clear(); c = libcall(s, -1, [&] { ps.solve(dt, st, ws); }); s.require(!c.threw, "spurious-failure", "a pressure solve of a system at rest failed: %s", c.what.c_str()); }
        for (int q = 0; q < g.number_of_faces; ++q) s.require(std::fabs(st.faceflux()[q]) <= 1e-7 * tmax / mm * (head + 1), "rest", "step %d: face %d of a system at rest carries flux %g (scale %g)", k, q, st.faceflux()[q], tmax / mm * head);
        if (interface_ || all) for (int q = 0; q < nc; ++q) s.require(std::fabs((st.pressure()[q] - st.pressure()[0]) - (p0[q] - p0[0])) <= 1e-6 * (head + 1) + 1e-9 * std::fabs(p0[0]), "rest", "step %d: the pressure differs by %.12g between cells 0 and %d, initially by %.12g", k, st.pressure()[q] - st.pressure()[0], q, p0[q] - p0[0]);
        // the round-off in the fluxes, over a long step
        double drift = 0; for (double x : st.faceflux()) drift = std::max(drift, std::fabs(x)); drift = drift * dt / pvmin; const double lim = 1e-7 + 10 * drift;
        { CoutCapture cap; CerrCapture err; c = libcall(s, -1, [&] { ts.solve(pv.data(), src.data(), dt, st); if (!noGrav) ts.solveGravity(pv.data(), dt, st); }); }
        s.event("rest nc=%d dt=%g threw=%d", nc, dt, c.threw); s.require(!c.threw, "spurious-failure", "transport of a system at rest failed: %s", c.what.c_str());
        for (int q = 0; q < nc; ++q) s.require(std::fabs(st.saturation()[2 * q] - s0[2 * q]) <= (k + 1) * lim, "rest", "step %d: the saturation of cell %d of a system at rest went from %.12g to %.12g (limit %g)", k, q, s0[2 * q], st.saturation()[2 * q], lim);
    }
    s.cover(all ? "rest-oil" : interface_ ? "rest-contact-at-layer" : "rest-contact-inside-layer"); s.nontrivial(); s.state(mix64(nc, uint64_t(n) * 8 + interface_ * 4 + all * 2 + noGrav)); mem.fill = 0;
}

// The same for compressible fluids: pressures and saturations stay where they are but for the difference between discrete and continuous balance.
void compRest(Sim& s) {
    CompSpec cs = drawCompWorld(s, 30, false); const WorldSpec& b = cs.base; const double rw = b.rho[0] / cs.Bw, ro = b.rho[1] / cs.Bo; if (rw < ro + 20 || b.nc == 1) throw Discard{"heavy oil"};
    const int nz = b.n[2]; const double woc = b.z[s.choose(nz + 1)], datum = s.real(b.z[0], b.z[nz]), pd = s.real(50, 400); if (rw * std::exp(cs.cw * (-5e6)) < ro * std::exp(cs.co * (pd * 1e5 + 1e6 - cs.pref)) + 20) throw Discard{"heavy oil under pressure"}; std::ostringstream d; d.precision(17); d << "SOLUTION\nEQUIL\n " << datum << " " << pd << " " << woc << " 0 /\n";
    cs.deck.replace(cs.deck.find("SOLUTION\n"), 9, d.str()); cs.base.grav = true; cs.base.g[0] = cs.base.g[1] = 0; cs.base.g[2] = kG; CompWorld w(cs); const UnstructuredGrid& g = *w.grid; const int nc = g.number_of_cells;
    if (s.chance(1, 2)) { for (auto& x : w.state.faceflux()) x = 1e-3; for (auto& x : w.state.saturation()) x = 0.5; }
    { CoutCapture cap; const Call c = libcall(s, -1, [&] { Opm::initStateFromDeck(g, *w.props, *w.deck, kG, w.state); Opm::initBlackoilSurfvol(g, *w.props, w.state); }); s.require(!c.threw, "spurious-failure", "initialisation failed: %s", c.what.c_str()); }
    const dvec s0 = w.state.saturation(), p0 = w.state.pressure(); double dz = 0, h = 0; for (int k = 0; k < nz; ++k) { dz = std::max(dz, b.z[k + 1] - b.z[k]); h += b.z[k + 1] - b.z[k]; }
    for (int c = 0; c < nc; ++c) s.require(s0[2 * c] == (depth(g, c) > woc ? 1.0 : 0.0), "saturation", "cell %d at depth %.10g has water saturation %.10g, the contact is at %.10g", c, depth(g, c), s0[2 * c], woc);
    // how far a balance in steps of a layer may be from the continuous one
    const double cm = std::max(cs.cw, cs.co), rm = 1200, gap = cm * std::pow(rm * kG, 2) * (dz * dz + dz * h + h * h / 50) + 0.2;
    ivec all(nc); for (int c = 0; c < nc; ++c) all[c] = c; std::vector<std::vector<int> > cols; Opm::extractColumn(g, cols); const double grav[3] = {0, 0, kG};
    SimLinSolver ls; Opm::CompressibleTpfa ps(g, *w.props, w.rockActive() ? w.rock.get() : nullptr, ls, 0.0, 1e-2, 30, grav, nullptr); Opm::TransportSolverCompressibleTwophaseReorder ts(g, *w.props, 1e-9, 60); ts.initGravity(grav); const dvec src(nc, 0.0);
    const int n = s.range(1, 6); double lim = 0;
    for (int k = 0; k < n; ++k) {
        s.step(); if (s.faults_enabled) mem.fill = 1 + int(s.choose(4)); const double dt = cs.dt * s.logreal(1e-3, 3); s.simTime(dt); const dvec pv0 = w.porevol(w.state.pressure());
        ls.plan.clear(); ls.calls = 0; if (s.faults_enabled && s.chance(1, 5)) { ls.plan[0] = 1 + int(s.choose(SimLinSolver::NKINDS - 1)); ls.where = int(s.choose(1000)); }
        Opm::BlackoilState keep = w.state; Call c; { CoutCapture cap; CerrCapture err; c = libcall(s, memFault(s) ? position(s) : -1, [&] { ps.solve(dt, w.state, w.wstate); }); }
        if (c.threw) { s.cover("retried"); ls.plan.clear(); w.state = keep; CoutCapture cap; CerrCapture err; c = libcall(s, -1, [&] { ps.solve(dt, w.state, w.wstate); }); if (c.threw) { s.cover("not-converged"); return; } }
        // the fluid's density is quadratic in the pressure and takes each value at a second, unphysical pressure: also a solution
        for (int q = 0; q < nc; ++q) if (std::max(cs.cw, cs.co) * (cs.pref - w.state.pressure()[q]) > 0.9) { s.cover("other-branch"); return; }
        // across the contact any difference between the head of oil and that of water is a balance: neither phase flows
        int top[2] = {-1, -1}; for (int q = 0; q < nc; ++q) { int& r = top[s0[2 * q] > 0.5]; if (r < 0) r = q; }
        for (int q = 0; q < nc; ++q) { const int r = top[s0[2 * q] > 0.5]; const double e = std::fabs((w.state.pressure()[q] - w.state.pressure()[r]) - (p0[q] - p0[r])); s.require(e <= 3 * gap, "rest", "step %d: the pressure differs by %.12g between cells %d and %d, initially by %.12g (limit %g)", k, w.state.pressure()[q] - w.state.pressure()[r], r, q, p0[q] - p0[r], 3 * gap); }
        const dvec pv = w.porevol(w.state.pressure()); double big = 0; for (double x : w.state.faceflux()) big = std::max(big, std::fabs(x)); lim += 1e-6 + cm * gap + 20 * big * dt / *std::min_element(pv.begin(), pv.end());
        { CoutCapture cap; CerrCapture err; c = libcall(s, -1, [&] { ts.solve(&w.state.faceflux()[0], &w.state.pressure()[0], pv0.data(), pv.data(), src.data(), dt, w.state.saturation(), w.state.surfacevol()); ts.solveGravity(cols, dt, w.state.saturation(), w.state.surfacevol()); }); }
        s.event("rest, compressible: nc=%d dt=%g threw=%d", nc, dt, c.threw); if (c.threw) { s.cover("not-converged"); return; }
        for (int q = 0; q < nc; ++q) { const double e = std::fabs(w.state.saturation()[2 * q] - s0[2 * q]); s.require(e <= lim, "rest", "step %d: the water saturation of cell %d of a system at rest went from %.12g to %.12g (limit %g)", k, q, s0[2 * q], w.state.saturation()[2 * q], lim); }
    }
    s.cover("rest-compressible"); s.nontrivial(); s.state(mix64(nc + 1000, uint64_t(n))); mem.fill = 0;
}

void run(Sim& s) {
    NoFault nf; { const int k = int(s.choose(8)); if (k >= 7) { compRest(s); return; } if (k >= 5) { rest(s); return; } }
    Opm::TwophaseState a[2]; Opm::BlackoilState b[2]; const int n = s.range(1, 6);
    for (int k = 0; k < n; ++k) { s.step(); if (s.faults_enabled) mem.fill = 1 + int(s.choose(4)); const int i = int(s.choose(2)); if (s.chance(1, 2)) initialise<Opm::BlackoilState, Blackoil, true>(s, b[i], 2 + i); else initialise<Opm::TwophaseState, Oilwater, false>(s, a[i], i); }
    mem.fill = 0;
}
Register reg("S18", run, "state initialisation from parameters and decks, TwophaseState, BlackoilState, WellState, EclipseGridParser, monotone interpolation; pressure and transport solvers for systems at rest", "fluid properties (closed forms), linear solver failures, memory allocator (injected failures and fresh-memory contents)");
}
