// Wells and groups written as the schedule section of a deck.
#pragma once
#include "props/world.hpp"
#include <array>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/wells/WellCollection.hpp>
#include <opm/core/wells/WellsGroup.hpp>

struct GroupD {
    std::string name; int parent = -1;
    bool prod = false, inj = false;
    std::string pmode = "NONE", proc = "NONE"; double plim[5] = {-1, -1, -1, -1, -1};      // ORAT WRAT GRAT LRAT RESV
    std::string itype = "WATER", imode = "NONE"; double irate = -1, iresv = -1, rein = 1, vrep = 1;
};
struct WellD {
    std::string name; int group = 0; bool inj = false; std::string itype = "WATER";
    bool shut = false;                                   // in its control keyword
    std::string mode; double lim[5] = {-1, -1, -1, -1, -1}; double bhp = 0;     // production: as above; injection: RATE RESV
    double guide = -1; std::string open;                 // WGRUPCON, WELOPEN
    int i = 0, j = 0, k1 = 0, k2 = 0; double depth = -1, wi = 1;
    std::vector<std::array<int, 3>> perf; dvec perfWI;   // instead of i, j, k1, k2, wi
    bool twice = false;                                  // a second WELSPECS line, which counts
    int own() const { int n = bhp > 0; for (double l : lim) n += l >= 0; return n; }
    bool isShut() const { return open.empty() ? shut : open == "SHUT"; }
    bool grup() const { return mode == "GRUP"; }
};
struct DeckWells { bool gas = false; bool tree = false; std::vector<GroupD> groups; std::vector<WellD> wells; };
static const char* const kProdMode[5] = {"ORAT", "WRAT", "GRAT", "LRAT", "RESV"};

inline std::string num17(double x) { if (x < 0) return "1*"; std::ostringstream o; o.precision(17); o << x; return o.str(); }
inline void writeSchedule(std::ostream& d, const DeckWells& w) {
    bool sub = false; for (auto& g : w.groups) sub |= g.parent >= 0;
    if (w.tree && sub) { d << "GRUPTREE\n"; for (auto& g : w.groups) if (g.parent >= 0) d << " '" << g.name << "' '" << w.groups[g.parent].name << "' /\n"; d << "/\n"; }
    d << "WELSPECS\n";
    for (int pass = 0; pass < 2; ++pass) for (auto& x : w.wells) if (pass == 0 || x.twice)
        d << " '" << x.name << "' '" << w.groups[pass == 0 && x.twice ? 0 : x.group].name << "' " << x.i + 1 << " " << x.j + 1 << " " << num17(x.depth) << " 'OIL' /\n";
    d << "/\nCOMPDAT\n";
    for (auto& x : w.wells) { for (size_t q = 0; q < x.perf.size(); ++q) d << " '" << x.name << "' " << x.perf[q][0] + 1 << " " << x.perf[q][1] + 1 << " " << x.perf[q][2] + 1 << " " << x.perf[q][2] + 1 << " 'OPEN' 1* " << num17(x.perfWI[q]) << " /\n";
        if (x.perf.empty()) d << " '" << x.name << "' " << x.i + 1 << " " << x.j + 1 << " " << x.k1 + 1 << " " << x.k2 + 1 << " 'OPEN' 1* " << num17(x.wi) << " /\n"; }
    d << "/\n";
    bool in = false, pr = false, gp = false, gi = false, gr = false, op = false;
    for (auto& x : w.wells) { (x.inj ? in : pr) = true; gr |= x.guide >= 0; op |= !x.open.empty(); }
    for (auto& g : w.groups) { gp |= g.prod; gi |= g.inj; }
    if (in) { d << "WCONINJE\n"; for (auto& x : w.wells) if (x.inj) d << " '" << x.name << "' '" << x.itype << "' '" << (x.shut ? "SHUT" : "OPEN") << "' '" << x.mode << "' " << num17(x.lim[0]) << " " << num17(x.lim[1]) << " " << num17(x.bhp) << " /\n"; d << "/\n"; }
    if (pr) { d << "WCONPROD\n"; for (auto& x : w.wells) if (!x.inj) { d << " '" << x.name << "' '" << (x.shut ? "SHUT" : "OPEN") << "' '" << x.mode << "'"; for (double l : x.lim) d << " " << num17(l); d << " " << num17(x.bhp) << " /\n"; } d << "/\n"; }
    if (gp) { d << "GCONPROD\n"; for (auto& g : w.groups) if (g.prod) { d << " '" << g.name << "' '" << g.pmode << "'"; for (int k = 0; k < 4; ++k) d << " " << num17(g.plim[k]); d << " '" << g.proc << "' 6* " << num17(g.plim[4]) << " /\n"; } d << "/\n"; }
    if (gi) { d << "GCONINJE\n"; for (auto& g : w.groups) if (g.inj) d << " '" << g.name << "' '" << g.itype << "' '" << g.imode << "' " << num17(g.irate) << " " << num17(g.iresv) << " " << num17(g.rein) << " " << num17(g.vrep) << " /\n"; d << "/\n"; }
    if (gr) { d << "WGRUPCON\n"; for (auto& x : w.wells) if (x.guide >= 0) d << " '" << x.name << "' 'YES' " << num17(x.guide) << " '" << (x.inj ? "RAT" : "OIL") << "' /\n"; d << "/\n"; }
    if (op) { d << "WELOPEN\n"; for (auto& x : w.wells) if (!x.open.empty()) d << " '" << x.name << "' '" << x.open << "' /\n"; d << "/\n"; }
}
inline std::string deckHead(const DeckWells& w) { return std::string("RUNSPEC\nOIL\nWATER\n") + (w.gas ? "GAS\n" : "") + "METRIC\nSCHEDULE\n"; }
