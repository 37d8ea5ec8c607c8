// S16: the grids and permeability fields.
#include "props/world.hpp"
#include "props/field.hpp"
#include <opm/core/pressure/tpfa/trans_tpfa.h>

void drawField(Sim& s, Field& F) {
    WorldOpt o; o.maxcells = 24; o.src = o.bcs = o.gravity = o.rockcomp = o.wells = false; const WorldSpec w = drawWorld(s, o);
    F.own.reset(makeGrid(w).release(), GridDel()); F.g = F.own.get(); UnstructuredGrid* g = F.g; F.nc = g->number_of_cells; F.nf = g->number_of_faces; F.nhf = g->cell_facepos[F.nc]; F.d = g->dimensions;
    double amax = 0; for (int f = 0; f < F.nf; ++f) amax = std::max(amax, g->face_areas[f]);
    for (int f = 0; f < F.nf; ++f) if (g->face_areas[f] < 1e-9 * amax) throw Discard{"face without area"};
    for (int c = 0; c < F.nc; ++c) if (!(g->cell_volumes[c] > 0)) throw Discard{"cell without volume"};
    const int d = F.d; F.full = s.chance(1, 3); F.K.assign(F.nc * d * d, 0.0);
    for (int c = 0; c < F.nc; ++c) {
        double* K = &F.K[c * d * d];
        if (!F.full) { for (int i = 0; i < d * d; ++i) K[i] = w.perm[c * d * d + i] * 1e13; continue; }
        dvec R(d * d); for (auto& x : R) x = s.real(-1, 1);
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) { for (int k = 0; k < d; ++k) K[i + j * d] += R[i + k * d] * R[j + k * d]; if (i == j) K[i + j * d] += 0.3; }
    }
    F.h.resize(F.nhf); tpfa_htrans_compute(g, F.K.data(), F.h.data());
    ivec r(F.nc); for (int c = 0; c < F.nc; ++c) r[c] = c;
    for (int f = 0; f < F.nf; ++f) { const int a = g->face_cells[2 * f], b = g->face_cells[2 * f + 1]; if (a >= 0 && b >= 0) r[find(r, a)] = find(r, b); else F.bdry.push_back(f); }
    F.comp.resize(F.nc); std::map<int, int> id; for (int c = 0; c < F.nc; ++c) { const int q = find(r, c); if (!id.count(q)) id[q] = F.ncomp++; F.comp[c] = id[q]; }
}
bool positiveHalfTrans(const Field& F) { double mx = 0; for (double x : F.h) mx = std::max(mx, x); for (double x : F.h) if (!(x > 1e-6 * mx)) return false; return true; }

