// Randomly drawn compressible two-phase worlds (fluid from a generated deck).
#pragma once
#include "props/world.hpp"
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/pressure/CompressibleTpfa.hpp>
#include <opm/core/pressure/tpfa/trans_tpfa.h>
#include <opm/core/props/BlackoilPropertiesFromDeck.hpp>
#include <opm/core/simulator/BlackoilState.hpp>
#include <opm/core/simulator/SimulatorCompressibleTwophase.hpp>
#include <opm/core/simulator/initState.hpp>

struct CompSpec { WorldSpec base; double dt; double cw, co, Bw, Bo, pref; bool rock; std::string deck; };

inline CompSpec drawCompWorld(Sim& s, int maxcells, bool wells = true) {
    WorldOpt o; o.maxcells = maxcells; o.src = false; o.bcs = false; o.cornerpoint = false; o.two_d = false; o.smooth_relperm = true; o.rockcomp = false; o.wells = wells; o.wells_num = 7; o.wells_den = 8;
    CompSpec c; c.base = drawWorld(s, o);
    WorldSpec& w = c.base;
    c.dt = w.dt;
    if (s.chance(1, 2)) { const double a = s.logreal(1e3, 1e6); for (auto& p : w.p0) p += a * s.real(-1, 1); }
    c.cw = s.chance(1, 6) ? 0.0 : s.logreal(1e-11, 1e-9); c.co = s.chance(1, 6) ? 0.0 : s.logreal(1e-11, 2e-9);
    c.Bw = s.real(0.95, 1.1); c.Bo = s.real(0.95, 1.5); c.pref = 1e7;
    c.rock = s.chance(1, 3); const double cr = s.logreal(1e-11, 1e-9);
    std::ostringstream d; d.precision(17);
    d << "RUNSPEC\nOIL\nWATER\nMETRIC\nDIMENS\n" << w.n[0] << " " << w.n[1] << " " << w.n[2] << " /\nGRID\nPORO\n";
    for (int i = 0; i < w.nc; ++i) d << w.poro[i] << (i % 8 == 7 ? "\n" : " ");
    d << "/\n";
    static const char* nm[] = {"PERMX", "PERMY", "PERMZ"};
    for (int a = 0; a < 3; ++a) { d << nm[a] << "\n"; for (int i = 0; i < w.nc; ++i) d << w.perm[9 * i + 4 * a] / 9.869232667160128e-16 << (i % 8 == 7 ? "\n" : " "); d << "/\n"; }
    d << "PROPS\nPVTW\n" << c.pref / 1e5 << " " << c.Bw << " " << c.cw * 1e5 << " " << w.mu[0] * 1e3 << " 0 /\n";
    d << "PVCDO\n" << c.pref / 1e5 << " " << c.Bo << " " << c.co * 1e5 << " " << w.mu[1] * 1e3 << " 0 /\n";
    d << "DENSITY\n" << w.rho[1] << " " << w.rho[0] << " 1 /\nSWOF\n";
    const int np = s.range(2, 8); const int ex = s.range(1, 3);
    for (int i = 0; i <= np; ++i) { const double x = double(i) / np; d << x << " " << std::pow(x, ex) << " " << std::pow(1 - x, ex) << " 0\n"; }
    d << "/\n";
    if (c.rock) d << "ROCK\n" << c.pref / 1e5 << " " << cr * 1e5 << " /\n";
    d << "SOLUTION\nSCHEDULE\n";
    c.deck = d.str();
    // a well's rate at surface conditions is another kind of control here
    for (auto& ws : w.wells) for (auto& k : ws.ctrls) if (k.type == RESERVOIR_RATE && s.chance(1, 3)) k.type = SURFACE_RATE;
    return c;
}

struct CompWorld {
    CompSpec spec;
    GridPtr grid;
    std::unique_ptr<Opm::EclipseGridParser> deck;
    std::unique_ptr<Opm::BlackoilPropertiesFromDeck> props;
    std::unique_ptr<Opm::RockCompressibility> rock;
    std::unique_ptr<Wells, WellsDel> cwells;
    std::unique_ptr<Opm::WellsManager> wm;
    Opm::BlackoilState state; Opm::WellState wstate;
    dvec src;
    explicit CompWorld(const CompSpec& sp) : spec(sp), grid(makeGrid(sp.base)), src(sp.base.nc, 0.0) {
        std::istringstream is(sp.deck);
        deck.reset(new Opm::EclipseGridParser); deck->read(is);
        props.reset(new Opm::BlackoilPropertiesFromDeck(*deck, *grid));
        rock.reset(new Opm::RockCompressibility(*deck));
        if (sp.base.has_wells) { cwells.reset(makeWells(sp.base)); setSurfaceDistr(cwells.get()); wm.reset(new Opm::WellsManager(cwells.get())); setSurfaceDistr(const_cast<Wells*>(wm->c_wells())); }
        else wm.reset(new Opm::WellsManager());
        state.init(*grid, 2); state.pressure() = sp.base.p0; state.saturation() = sp.base.s0;
        state.facepressure().assign(grid->number_of_faces, 1e7);
        Opm::initBlackoilSurfvol(*grid, *props, state);
        wstate.init(wells(), state);
    }
    static void setSurfaceDistr(Wells*) {}
    const Wells* wells() const { return wm->c_wells(); }
    Wells* mwells() { return const_cast<Wells*>(wm->c_wells()); }
    const double* g() const { return spec.base.grav ? spec.base.g : nullptr; }
    bool rockActive() const { return rock->isActive(); }
    dvec porevol(const dvec& p) const {
        dvec v(spec.base.nc);
        for (int c = 0; c < spec.base.nc; ++c) v[c] = props->porosity()[c] * grid->cell_volumes[c] * (rockActive() ? rock->poroMult(p[c]) : 1.0);
        return v;
    }
    // Reservoir well rates in the direction a well cannot deliver.
    bool crossflow() const {
        const Wells* W = wells(); if (!W) return false;
        for (int w = 0; w < W->number_of_wells; ++w) for (int i = W->well_connpos[w]; i < W->well_connpos[w + 1]; ++i)
            if ((wstate.perfRates()[i] > 0) != (W->type[w] == INJECTOR) && wstate.perfRates()[i] != 0) return true;
        return false;
    }
    // An accepted solve: finite, active well targets met, and in every cell the
    // fluid it holds after the step fills the pore volume at the new pressure.
    void checkAccepted(Sim& s, const Opm::BlackoilState& st0, double dt, const char* what) {
        const UnstructuredGrid& G = *grid;
        const int nc = G.number_of_cells, nf = G.number_of_faces;
        s.require(allFinite(state.pressure()) && allFinite(state.faceflux()), "finite", "%s: returned normally with a non-finite pressure or flux", what);
        s.require(allFinite(wstate.bhp()) && allFinite(wstate.perfRates()), "finite", "%s: returned normally with non-finite well results", what);
        const Wells* W = wells();
        const dvec& p = state.pressure();
        ivec all(nc); for (int c = 0; c < nc; ++c) all[c] = c;
        dvec A(4 * nc), mu(2 * nc), kr(2 * nc), rho(2 * nc);
        props->matrix(nc, p.data(), state.surfacevol().data(), all.data(), A.data(), 0);
        props->viscosity(nc, p.data(), state.surfacevol().data(), all.data(), mu.data(), 0);
        props->relperm(nc, state.saturation().data(), all.data(), kr.data(), 0);
        props->density(nc, A.data(), rho.data());
        dvec ht(G.cell_facepos[nc]), tr(nf);
        tpfa_htrans_compute(const_cast<UnstructuredGrid*>(&G), props->permeability(), ht.data());
        tpfa_trans_compute(const_cast<UnstructuredGrid*>(&G), ht.data(), tr.data());
        const double gz = g() ? g()[2] : 0.0;
        dvec z(2 * nc), tol(nc), pv0 = porevol(st0.pressure()), pv1 = porevol(p);
        for (int c = 0; c < nc; ++c) { for (int a = 0; a < 2; ++a) z[2 * c + a] = st0.surfacevol()[2 * c + a] * pv0[c]; tol[c] = 1e-8 * pv0[c]; }
        double maxflux = 0, sumScale = 0;
        for (int f = 0; f < nf; ++f) {
            const int c1 = G.face_cells[2 * f], c2 = G.face_cells[2 * f + 1];
            if (c1 < 0 || c2 < 0) { s.require(std::fabs(state.faceflux()[f]) <= 1e-9 * (std::fabs(tr[f]) * 1e10 + 1e-30), "balance", "%s: closed boundary face %d carries flux %g", what, f, state.faceflux()[f]); continue; }
            double tot = 0, mobs = 0;
            for (int a = 0; a < 2; ++a) {
                const double dz1 = G.face_centroids[3 * f + 2] - G.cell_centroids[3 * c1 + 2], dz2 = G.face_centroids[3 * f + 2] - G.cell_centroids[3 * c2 + 2];
                const double gc = gz * (rho[2 * c1 + a] * dz1 - rho[2 * c2 + a] * dz2);
                const double dp = p[c1] - p[c2] + gc;
                const int u = dp < 0 ? c2 : c1;
                const double u_a = tr[f] * kr[2 * u + a] / mu[2 * u + a] * dp;
                mobs += std::max(kr[2 * c1 + a] / mu[2 * c1 + a], kr[2 * c2 + a] / mu[2 * c2 + a]);
                tot += u_a;
                z[2 * c1 + a] -= dt * u_a * A[4 * u + 3 * a]; z[2 * c2 + a] += dt * u_a * A[4 * u + 3 * a];
            }
            // the last accepted Newton change is at most 0.01 Pa; a phase whose potential difference is that small may be upwinded either way
            const double t = tr[f] * mobs * (0.06 + 1e-10 * std::fabs(p[c1])) * dt;
            tol[c1] += t; tol[c2] += t; sumScale += t / dt;
            s.require(std::fabs(tot - state.faceflux()[f]) <= t / dt + 1e-8 * std::fabs(tot), "balance", "%s: face %d carries flux %.12g, the pressures imply %.12g", what, f, state.faceflux()[f], tot);
            maxflux = std::max(maxflux, std::fabs(tot));
        }
        const bool xf = crossflow();
        if (W) for (int w = 0; w < W->number_of_wells; ++w) {
            const WellControls* ct = W->ctrls[w];
            double q = 0, qs = 0, wt = 0;
            for (int i = W->well_connpos[w]; i < W->well_connpos[w + 1]; ++i) {
                const int c = W->well_cells[i];
                double B[4], m[2], k[2]; const double* cf = W->comp_frac + 2 * w; double pp = wstate.perfPress()[i];
                if (W->type[w] == INJECTOR) { props->matrix(1, &pp, cf, &c, B, 0); props->viscosity(1, &pp, cf, &c, m, 0); props->relperm(1, cf, &c, k, 0); }
                else { for (int a = 0; a < 4; ++a) B[a] = A[4 * c + a]; for (int a = 0; a < 2; ++a) { m[a] = mu[2 * c + a]; k[a] = kr[2 * c + a]; } }
                const double mt = k[0] / m[0] + k[1] / m[1];
                const double r = wstate.perfRates()[i]; q += r;
                const double t = W->WI[i] * mt * (0.05 + 1e-10 * std::fabs(pp)); wt += t + 1e-9 * std::fabs(r);
                for (int a = 0; a < 2; ++a) { z[2 * c + a] += dt * B[3 * a] * r * (k[a] / m[a]) / mt; qs += B[3 * a] * r * (k[a] / m[a]) / mt; }
                tol[c] += dt * t;
            }
            if (ct->current < 0) { s.require(q == 0.0, "well-target", "%s: shut well %d flows %g", what, w, q); continue; }
            const double target = ct->target[ct->current];
            if (ct->type[ct->current] == BHP) s.require(std::fabs(wstate.bhp()[w] - target) <= 0.05, "well-target", "%s: well %d has bottom-hole pressure %.10g, target %.10g", what, w, wstate.bhp()[w], target);
            else if (!xf) {
                const double got = ct->type[ct->current] == RESERVOIR_RATE ? q : qs;
                s.require(std::fabs(got - target) <= 4 * wt + 1e-7 * std::fabs(target), "well-target", "%s: well %d flows %g, target %g", what, w, got, target);
            }
        }
        if (xf) { s.cover("crossflow"); return; }
        for (int c = 0; c < nc; ++c) {
            const double vol = z[2 * c] / A[4 * c] + z[2 * c + 1] / A[4 * c + 3];
            s.require(std::fabs(vol - pv1[c]) <= tol[c] * 2, "balance", "%s: returned normally but the fluid in cell %d fills %.12g of %.12g pore volume (tolerance %g)", what, c, vol, pv1[c], tol[c]);
        }
        (void)maxflux; (void)sumScale;
    }
};
