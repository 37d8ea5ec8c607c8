// A randomly drawn grid with a permeability field, apart from world.hpp: that one cannot be used together with the older well description.
#pragma once
#include "core/sim.hpp"
#include <opm/core/grid.h>
#include <memory>
#include <vector>

typedef std::vector<double> dvec;
typedef std::vector<int> ivec;
inline int find(ivec& r, int x) { while (r[x] != x) x = r[x] = r[r[x]]; return x; }

struct Field {                                  // what all the systems of a run share
    std::shared_ptr<UnstructuredGrid> own; UnstructuredGrid* g = nullptr; int nc, nf, nhf, d;
    dvec K, h; ivec comp; int ncomp = 0; bool full = false;
    ivec bdry;
    double trK(int c) const { double t = 0; for (int i = 0; i < d; ++i) t += K[c * d * d + i * (d + 1)]; return t; }
    double sgn(int c, int f) const { return g->face_cells[2 * f] == c ? 1.0 : -1.0; }
};
void drawField(Sim& s, Field& F);
bool positiveHalfTrans(const Field& F);
