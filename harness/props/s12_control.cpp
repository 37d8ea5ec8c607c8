// S12: well and group control decisions under histories of well responses.
#include "props/deckwells.hpp"
#include "props/simrun.hpp"

namespace {
using Opm::ProductionSpecification; using Opm::InjectionSpecification; using Opm::WellsGroupInterface;
const ProductionSpecification::ControlMode PM[5] = {ProductionSpecification::ORAT, ProductionSpecification::WRAT, ProductionSpecification::GRAT, ProductionSpecification::LRAT, ProductionSpecification::RESV};
const InjectionSpecification::ControlMode IM[2] = {InjectionSpecification::RATE, InjectionSpecification::RESV};

// ------------------------------------------------------------------ generated input
double lim(Sim& s) { static const double v[] = {100, 50, 200, 20, 10, 400, 1000, 1}; return v[s.choose(8)] * (s.chance(1, 4) ? s.real(0.5, 1.5) : 1.0); }

DeckWells draw(Sim& s, bool calm) {
    DeckWells d; d.gas = s.chance(1, 3); d.tree = s.chance(3, 4);
    const int ng = s.range(1, 5);
    for (int i = 0; i < ng; ++i) { GroupD g; g.name = i == 0 ? "FIELD" : std::string(s.chance(1, 2) ? "G" : "A") + std::to_string(i); if (d.tree && i > 0) g.parent = int(s.choose(i)); d.groups.push_back(g); }
    auto anc = [&](int g, bool prod, bool self) { for (int p = self ? g : d.groups[g].parent; p >= 0; p = d.groups[p].parent) if (prod ? d.groups[p].pmode != "NONE" && d.groups[p].pmode != "FLD" : d.groups[p].imode != "NONE" && d.groups[p].imode != "FLD") return true; return false; };
    for (int i = 0; i < ng; ++i) {
        GroupD& g = d.groups[i];
        if (s.chance(1, 2)) {
            g.prod = true; const int only = int(s.choose(5));
            for (int k = 0; k < 5; ++k) if (!(k == 2 && !d.gas) && (calm ? k == only : s.chance(1, 3))) g.plim[k] = s.chance(1, 16) ? 0.0 : lim(s);
            g.proc = s.chance(1, 4) ? "NONE" : s.chance(1, 2) ? "RATE" : "WELL";
            if (!anc(i, true, false) && s.chance(1, 2)) for (int t = 0; t < 5; ++t) { const int k = int(s.choose(5)); if (k != 2 && g.plim[k] > 0) { g.pmode = kProdMode[k]; break; } }   // no gas rate as initial group control
            if (g.pmode == "NONE" && s.chance(1, 2)) g.pmode = "FLD";
        }
        if (s.chance(1, 2)) {
            g.inj = true; const bool r = s.chance(1, 2);
            if (!calm || r) if (calm || s.chance(1, 2)) g.irate = lim(s);
            if (!calm || !r) if (calm || s.chance(1, 2)) g.iresv = lim(s);
            g.rein = s.real(0, 1); g.vrep = s.real(0, 1.5);
            g.itype = d.gas && s.chance(1, 4) ? "GAS" : "WATER";
            if (!anc(i, false, false)) { const int k = int(s.choose(5)); if (k == 1 && g.irate > 0) g.imode = "RATE"; if (k == 2 && g.iresv > 0) g.imode = "RESV"; if (k == 3) g.imode = "VREP"; if (k == 4) g.imode = "REIN"; }
            if (g.imode == "NONE" && s.chance(1, 2)) g.imode = "FLD";
        }
    }
    const int nw = s.range(1, 6);
    for (int i = 0; i < nw; ++i) {
        WellD w; w.inj = s.chance(2, 5); w.name = (w.inj ? "I" : "P") + std::to_string(i); if (s.chance(1, 3)) w.name = "W" + std::to_string(9 - i);
        w.group = int(s.choose(ng)); if (s.chance(1, 2)) w.group = ng - 1;
        w.i = i % 3; w.j = i / 3; w.k1 = 0; w.k2 = s.range(0, 1); w.twice = s.chance(1, 10);
        ivec have;
        if (w.inj) {
            w.itype = d.gas && s.chance(1, 4) ? "GAS" : "WATER";
            for (int k = 0; k < 2; ++k) if (s.chance(1, 2)) { w.lim[k] = lim(s); have.push_back(k); }
        } else for (int k = 0; k < 5; ++k) if (!(k == 2 && !d.gas) && s.chance(1, 3)) { w.lim[k] = s.chance(1, 20) ? 0.0 : lim(s); have.push_back(k); }
        if (s.chance(2, 3) || have.empty()) w.bhp = w.inj ? 300 + 100 * s.real(0, 1) : 50 + 100 * s.real(0, 1);
        const int c = s.range(0, 3);
        if (c >= 2) { w.mode = "GRUP"; if (s.chance(1, 8)) { w.bhp = 0; for (double& l : w.lim) l = -1; } }
        else if (w.bhp > 0 && (c == 0 || have.empty())) w.mode = "BHP";
        else { const int k = have[s.choose(have.size())]; w.mode = w.inj ? (k ? "RESV" : "RATE") : kProdMode[k]; }
        w.shut = s.chance(1, 8);
        if (s.chance(1, 4)) w.guide = s.real(0.25, 4);
        if (s.chance(1, 8)) w.open = s.chance(1, 2) ? "SHUT" : "OPEN";
        if (w.open == "OPEN" && w.own() == 0) w.open = "";
        d.wells.push_back(w);
    }
    return d;
}

// ------------------------------------------------------------------ observation
struct Ctl { int type; double target; dvec distr; bool operator==(const Ctl& o) const { return type == o.type && target == o.target && distr == o.distr; } };
struct Obs {
    std::vector<std::vector<Ctl>> c; ivec cur; ivec pm, im;
    bool operator==(const Obs& o) const { return c == o.c && cur == o.cur && pm == o.pm && im == o.im; }
};

struct Box {
    Sim& s; DeckWells d; int np; GridPtr grid; std::unique_ptr<Opm::EclipseGridParser> deck; std::unique_ptr<Opm::WellsManager> own; Opm::WellsManager* wm = nullptr;
    std::vector<char> shut;                                    // by the user or a procedure
    dvec bhp, res, surf; dvec B;                               // the latest response
    dvec PI, pres, frac;                                       // the simulated reservoir
    explicit Box(Sim& s_) : s(s_) {}
    int nw() const { return int(d.wells.size()); }
    const Wells* W() const { return wm->c_wells(); }
    const WellsGroupInterface& node(const std::string& n) const { const WellsGroupInterface* x = wm->wellCollection().findNode(n); s.require(x != nullptr, "tree", "%s is not in the well collection", n.c_str()); return *x; }
    int pos(int ph) const { return ph; }                       // water, oil, gas
    bool in(int g, int root) const { for (; g >= 0; g = d.groups[g].parent) if (g == root) return true; return false; }
    bool has(int g) const { for (auto& w : d.wells) if (in(w.group, g)) return true; for (size_t i = 0; i < d.groups.size(); ++i) if (d.groups[i].parent == g || (int(i) == g && d.groups[i].parent >= 0)) return true; return false; }     // part of the tree
    Obs look() const {
        NoFault nf; Obs o; const Wells* w = W();
        for (int i = 0; i < nw(); ++i) { const WellControls& k = *w->ctrls[i]; std::vector<Ctl> v; for (int j = 0; j < k.num; ++j) v.push_back(Ctl{int(k.type[j]), k.target[j], dvec(k.distr + np * j, k.distr + np * (j + 1))}); o.c.push_back(v); o.cur.push_back(k.current); }
        for (size_t g = 0; g < d.groups.size(); ++g) { if (!has(int(g))) { o.pm.push_back(-1); o.im.push_back(-1); continue; } const WellsGroupInterface& n = node(d.groups[g].name); o.pm.push_back(n.prodSpec().control_mode_); o.im.push_back(n.injSpec().control_mode_); }
        return o;
    }
    double prate(int w, int k) const {
        const double* r = &res[w * np]; const double* q = &surf[w * np];
        switch (k) { case 0: return q[1]; case 1: return q[0]; case 2: return np > 2 ? q[2] : 0; case 3: return q[0] + q[1]; default: { double t = 0; for (int p = 0; p < np; ++p) t += r[p]; return t; } }
    }
    double irate(int w, int k) const { double t = 0; for (int p = 0; p < np; ++p) t += k ? res[w * np + p] : surf[w * np + p]; return t; }
    double plim(int g, int k) const { const ProductionSpecification& p = node(d.groups[g].name).prodSpec(); switch (k) { case 0: return p.oil_max_rate_; case 1: return p.water_max_rate_; case 2: return p.gas_max_rate_; case 3: return p.liquid_max_rate_; default: return p.reservoir_flow_max_rate_; } }
    double ilim(int g, int k) const { const InjectionSpecification& p = node(d.groups[g].name).injSpec(); return k ? p.reservoir_flow_max_rate_ : p.surface_flow_max_rate_; }
    double guide(int w) const { return d.wells[w].guide >= 0 ? d.wells[w].guide : 1.0; }

    // group control of well w in o as it must be for this share of a group's target
    bool groupCtl(const Obs& o, int w, bool inj, int k, double share, std::string& why) const {
        const int g = d.wells[w].own();
        if (int(o.c[w].size()) <= g) { why = "well " + d.wells[w].name + " has no group control"; return false; }
        const Ctl& c = o.c[w][g]; dvec dist(np, 0.0); int type = SURFACE_RATE;
        if (inj) { dist.assign(np, 1.0); if (k) type = RESERVOIR_RATE; }
        else if (k == 4) { dist.assign(np, 1.0); type = RESERVOIR_RATE; } else { if (k == 0 || k == 3) dist[1] = 1; if (k == 1 || k == 3) dist[0] = 1; if (k == 2) dist[2] = 1; }
        const double t = inj ? share : -share;
        if (c.type != type || c.distr != dist) { why = "well " + d.wells[w].name + " is controlled by another quantity than its group"; return false; }
        if (!(std::fabs(c.target - t) <= 1e-9 * std::fabs(t) + 1e-300)) { char b[200]; snprintf(b, sizeof b, "well %s is given the rate %.12g of the group's target, its share is %.12g", d.wells[w].name.c_str(), c.target, t); why = b; return false; }
        if (shut[w] ? o.cur[w] >= 0 : o.cur[w] != g) { char b[120]; snprintf(b, sizeof b, "control %d of well %s is active instead of its group control %d", o.cur[w], d.wells[w].name.c_str(), g); why = b; return false; }
        return true;
    }
    bool sameWell(const Obs& a, const Obs& b, int w) const { return a.c[w] == b.c[w] && a.cur[w] == b.cur[w]; }
    void shutStay(const Obs& o, const char* when) const { for (int w = 0; w < nw(); ++w) if (shut[w]) s.require(o.cur[w] < 0, "shut-well-opened", "%s: well %s, which is shut, has the active control %d", when, d.wells[w].name.c_str(), o.cur[w]); }
};

struct Viol { int well, ctl; int group; bool inj; int mode; bool must; };

std::vector<Viol> violations(Box& b, const Obs& o) {
    std::vector<Viol> v;
    auto judge = [](double rate, double limit) { const double a = std::fabs(rate), l = std::fabs(limit); if (a > l * (1 + 3e-6) + 1e-300) return 2; return a > l * (1 - 1e-12) ? 1 : 0; };
    for (int w = 0; w < b.nw(); ++w) { if (b.shut[w]) continue;
        for (int k = 0; k < b.d.wells[w].own(); ++k) { if (k == o.cur[w]) continue;
            const Ctl& c = o.c[w][k]; int j = 0;
            if (c.type == BHP) { const double x = b.d.wells[w].inj ? b.bhp[w] - c.target : c.target - b.bhp[w]; j = x > 1e-9 * std::fabs(c.target) ? 2 : x > -1e-9 * std::fabs(c.target) ? 1 : 0; }
            else { double r = 0; for (int p = 0; p < b.np; ++p) r += c.distr[p] * (c.type == SURFACE_RATE ? b.surf : b.res)[w * b.np + p]; j = judge(r, c.target); }
            if (j) v.push_back(Viol{w, k, -1, false, 0, j == 2}); } }
    for (size_t g = 0; g < b.d.groups.size(); ++g) { if (!b.has(int(g))) continue;
        for (int k = 0; k < 2; ++k) { const double l = b.ilim(int(g), k); if (l < 0 || o.im[g] == IM[k]) continue; double t = 0; for (int w = 0; w < b.nw(); ++w) if (b.d.wells[w].inj && b.in(b.d.wells[w].group, int(g))) t += b.irate(w, k); if (t <= 0) continue; if (const int j = judge(t, l)) v.push_back(Viol{-1, 0, int(g), true, k, j == 2}); }
        if (b.d.groups[g].proc != "NONE") for (int k = 0; k < 5; ++k) { const double l = b.plim(int(g), k); if (l < 0 || o.pm[g] == PM[k]) continue; double t = 0, sc = 0; for (int w = 0; w < b.nw(); ++w) if (!b.d.wells[w].inj && b.in(b.d.wells[w].group, int(g))) { t += b.prate(w, k); sc += std::fabs(b.prate(w, k)); } int j = judge(t, l); if (!j && std::fabs(t) + 1e-12 * sc > l) j = 1; if (j) v.push_back(Viol{-1, 0, int(g), false, k, j == 2}); } }
    return v;
}

// Is the change from a to z the answer to violation x?
bool answers(Box& b, const Obs& a, const Obs& z, const Viol& x, std::string& why, int* shutWell) {
    const DeckWells& d = b.d; *shutWell = -1;
    if (x.group < 0) {
        if (z.cur[x.well] != x.ctl) { why = "the violated limit of well " + d.wells[x.well].name + " is not its active control"; return false; }
        Obs e = a; e.cur[x.well] = x.ctl; if (!(e == z)) { why = "more than the control of the well changed"; return false; } return true;
    }
    ivec sub, mine; for (int w = 0; w < b.nw(); ++w) if (b.in(d.wells[w].group, x.group)) { sub.push_back(w); if (d.wells[w].inj == x.inj) mine.push_back(w); }
    if (!x.inj && d.groups[x.group].proc == "WELL") {
        double worst = -1; for (int w : mine) if (!b.shut[w]) worst = std::max(worst, std::fabs(b.prate(w, x.mode)));
        int n = 0, who = -1; for (int w = 0; w < b.nw(); ++w) if (!b.sameWell(a, z, w)) { ++n; who = w; }
        if (n != 1 || !(a.c == z.c) || a.pm != z.pm || a.im != z.im) { char t[120]; snprintf(t, sizeof t, "%d wells changed to answer a violated limit of group %s by shutting a well", n, d.groups[x.group].name.c_str()); why = t; return false; }
        if (z.cur[who] >= 0 || std::find(mine.begin(), mine.end(), who) == mine.end() || b.shut[who]) { why = "well " + d.wells[who].name + " is not a producer that group " + d.groups[x.group].name + " could shut"; return false; }
        if (std::fabs(b.prate(who, x.mode)) < worst * (1 - 1e-9)) { char t[200]; snprintf(t, sizeof t, "group %s shut well %s, which produces %g of the limited %s, another well produces %g", d.groups[x.group].name.c_str(), d.wells[who].name.c_str(), std::fabs(b.prate(who, x.mode)), kProdMode[x.mode], worst); why = t; return false; }
        *shutWell = who; return true;
    }
    for (int w = 0; w < b.nw(); ++w) if (std::find(mine.begin(), mine.end(), w) == mine.end() && !b.sameWell(a, z, w)) { why = "well " + d.wells[w].name + " changed, it is not limited by group " + d.groups[x.group].name; return false; }
    const double L = x.inj ? b.ilim(x.group, x.mode) : b.plim(x.group, x.mode); double tot = 0; for (int w : mine) tot += b.guide(w);
    for (int w : mine) if (!b.groupCtl(z, w, x.inj, x.mode, L * b.guide(w) / tot, why)) return false;
    for (size_t g = 0; g < d.groups.size(); ++g) { if (!b.in(int(g), x.group)) { if (a.pm[g] != z.pm[g] || a.im[g] != z.im[g]) { why = "the control mode of group " + d.groups[g].name + " changed"; return false; } }
        else if (x.inj ? a.pm[g] != z.pm[g] : a.im[g] != z.im[g]) { why = "the other control mode of group " + d.groups[g].name + " changed"; return false; } }
    return true;
}

// Initial and explicit group controls: shares of what a group's own control distributes.
// Groups inside it that have come to a limit of their own keep that.
bool follows(Box& b, const Obs& before, int w, int g, bool inj) { for (int p = b.d.wells[w].group; p >= 0 && p != g; p = b.d.groups[p].parent) if (inj ? before.im[p] != InjectionSpecification::NONE && before.im[p] != InjectionSpecification::FLD : before.pm[p] != ProductionSpecification::NONE && before.pm[p] != ProductionSpecification::FLD) return false; return true; }
void distributed(Box& b, const Obs& before, const Obs& o, int g, bool inj, int k, double target, const char* when) {
    double tot = 0; ivec m; for (int w = 0; w < b.nw(); ++w) if (b.d.wells[w].inj == inj && b.d.wells[w].grup() && b.in(b.d.wells[w].group, g)) { tot += b.guide(w); m.push_back(w); }
    std::string why;
    for (int w : m) { if (!follows(b, before, w, g, inj)) { b.s.cover("subgroup-keeps-limit"); continue; } const bool ok = b.groupCtl(o, w, inj, k, target * b.guide(w) / tot, why); b.s.require(ok, "group-target", "%s, group %s: %s", when, b.d.groups[g].name.c_str(), why.c_str()); }
    if (m.size() > 1) b.s.cover("shared-target");
}

void respond(Box& b, const Obs& o, bool calm) {
    Sim& s = b.s; const int np = b.np;
    for (int w = 0; w < b.nw(); ++w) {
        const WellD& x = b.d.wells[w]; double* r = &b.res[w * np]; double* q = &b.surf[w * np]; const double sg = x.inj ? 1 : -1;
        for (int p = 0; p < np; ++p) r[p] = q[p] = 0; b.bhp[w] = b.pres[w];
        if (o.cur[w] < 0) { if (!calm && s.chance(1, 2)) b.bhp[w] = 1e5 * s.real(0, 500); continue; }
        const Ctl& c = o.c[w][o.cur[w]];
        if (calm) {
            double t;
            if (c.type == BHP) { t = b.PI[w] * (c.target - b.pres[w]); if (t * sg < 0) t = 0; }
            else { double n = 0; for (int p = 0; p < np; ++p) n += c.distr[p] * b.frac[w * np + p] * (c.type == SURFACE_RATE ? b.B[p] : 1); t = n > 0 ? c.target / n : 0; }
            for (int p = 0; p < np; ++p) { r[p] = t * b.frac[w * np + p]; q[p] = r[p] * b.B[p]; }
            b.bhp[w] = c.type == BHP ? c.target : b.pres[w] + t / b.PI[w];
        } else {
            for (int p = 0; p < np; ++p) { if (x.inj && p != (x.itype == "GAS" ? 2 : 0)) continue; r[p] = s.chance(1, 8) ? 0.0 : sg * s.logreal(1, 500) / 86400; q[p] = r[p] * b.B[p]; }
            b.bhp[w] = 1e5 * s.real(0, 500);
            if (s.chance(3, 4)) {                              // meets its active control
                if (c.type == BHP) b.bhp[w] = c.target;
                else { dvec& f = c.type == SURFACE_RATE ? b.surf : b.res; double n = 0; for (int p = 0; p < np; ++p) n += c.distr[p] * f[w * np + p]; if (n != 0) for (int p = 0; p < np; ++p) { r[p] *= c.target / n; q[p] *= c.target / n; } }
            }
            if (s.chance(1, 6) && x.own()) { const Ctl& l = o.c[w][s.choose(x.own())]; if (l.type == BHP) b.bhp[w] = l.target; }   // exactly at a limit
        }
    }
}

void decide(Sim& s) {
    NoFault nf0; Box b(s); const bool calm = s.chance(1, 3);
    b.d = draw(s, calm); b.np = b.d.gas ? 3 : 2; const int np = b.np, nw = b.nw();
    mem.fill = s.faults_enabled ? int(s.choose(5)) : 0; mem.fill_state = s.choose(1 << 16) + 1;
    if (calm) s.cover("responding-reservoir");
    std::ostringstream t; t << deckHead(b.d); writeSchedule(t, b.d); t << "TSTEP\n 1 /\nEND\n";
    { const double x[] = {0, 100, 200, 300}, z[] = {1000, 1010, 1020}; b.grid.reset(create_grid_tensor3d(3, 2, 2, x, x, z, nullptr)); }
    CoutCapture quiet;
    if (getenv("DST_DECK")) fputs(t.str().c_str(), stderr);
    std::istringstream is(t.str()); b.deck.reset(new Opm::EclipseGridParser); b.deck->read(is);
    for (auto& w : b.d.wells) b.shut.push_back(w.isShut());
    dvec perm(9 * 12, 1e-13);
    // a group whose control has no well to distribute to is refused
    bool refuse = false;
    for (size_t g = 0; g < b.d.groups.size(); ++g) if (b.d.groups[g].pmode != "NONE" && b.d.groups[g].pmode != "FLD" && b.has(int(g))) { bool any = false; for (auto& w : b.d.wells) any |= !w.inj && w.grup() && (w.guide != 0) && b.in(w.group, int(g)); refuse |= !any; }
    try { b.own.reset(new Opm::WellsManager(*b.deck, *b.grid, perm.data())); b.wm = b.own.get(); }
    catch (const std::exception& e) { s.require(refuse, "refused", "the wells of the deck were refused (%s)", e.what()); s.cover("refused"); return; }
    s.require(b.W() && b.W()->number_of_wells == nw && b.W()->number_of_phases == np, "tree", "%d wells were made of %d", b.W() ? b.W()->number_of_wells : -1, nw);
    for (int w = 0; w < nw; ++w) s.require(b.d.wells[w].name == b.W()->name[w], "tree", "well %d is %s instead of %s", w, b.W()->name[w], b.d.wells[w].name.c_str());
    Obs now = b.look();
    b.shutStay(now, "after reading the deck");
    for (int w = 0; w < nw; ++w) {
        const WellD& x = b.d.wells[w]; const WellsGroupInterface* p = b.node(x.name).getParent();
        s.require(p && const_cast<WellsGroupInterface*>(p)->name() == b.d.groups[x.group].name, "tree", "well %s belongs to group %s", x.name.c_str(), p ? const_cast<WellsGroupInterface*>(p)->name().c_str() : "(none)");
        if (!x.grup()) s.require(int(now.c[w].size()) == x.own() && (b.shut[w] || (now.cur[w] >= 0 && now.cur[w] < x.own())), "group-target", "well %s, which is not under group control, has %zu controls of %d and control %d active", x.name.c_str(), now.c[w].size(), x.own(), now.cur[w]);
    }
    for (size_t g = 0; g < b.d.groups.size(); ++g) { if (!b.has(int(g))) continue; const GroupD& q = b.d.groups[g];
        for (int k = 0; k < 5; ++k) if (q.pmode == kProdMode[k]) distributed(b, now, now, int(g), false, k, b.plim(int(g), k), "after reading the deck");
        if (q.imode == "RATE" || q.imode == "RESV") distributed(b, now, now, int(g), true, q.imode == "RESV", b.ilim(int(g), q.imode == "RESV"), "after reading the deck"); }
    s.event("deck wells=%d groups=%zu np=%d calm=%d", nw, b.d.groups.size(), np, calm);
    b.bhp.assign(nw, 0); b.res.assign(nw * np, 0); b.surf.assign(nw * np, 0);
    for (int p = 0; p < np; ++p) b.B.push_back(s.chance(1, 3) ? 1.0 : s.real(0.5, 1.2));
    for (int w = 0; w < nw; ++w) {
        b.pres.push_back(1e5 * s.real(180, 250)); b.PI.push_back(s.logreal(0.2, 20) / 86400 / 1e5);
        if (b.d.wells[w].inj) for (int p = 0; p < np; ++p) b.frac.push_back(p == (b.d.wells[w].itype == "GAS" ? 2 : 0)); else { double sum = 0; dvec f(np); for (double& v : f) sum += v = s.real(0.1, 1); for (double v : f) b.frac.push_back(v / sum); }
    }
    // settling is promised for one limit per group and the simulated reservoir, whose wells do not influence each other
    const int bound = 4 * nw + 2 * int(b.d.groups.size()) + 4;
    const int rounds = s.range(1, 4);
    int changes = 0;
    for (int round = 0; round < rounds; ++round) {
        if (calm && s.chance(1, 2)) for (int w = 0; w < nw; ++w) b.pres[w] = 1e5 * s.real(180, 250);
        if (s.chance(2, 3)) {                                  // a new time step
            const long at = s.faults_enabled && s.chance(1, 8) ? position(s) % 6 : -1;
            const Obs a = now;
            const Call c = libcall(s, at, [&] { b.wm->applyExplicitReinjectionControls(b.res, b.surf); });
            now = b.look(); s.step();
            if (c.threw) { s.require(c.failed > 0, "spurious-failure", "applying the reinjection controls failed (%s)", c.what.c_str()); s.cover("reinjection-failed"); return; }
            std::vector<char> touched(nw, 0); bool any = false;
            for (size_t g = 0; g < b.d.groups.size(); ++g) {
                const bool v = now.im[g] == InjectionSpecification::VREP, r = now.im[g] == InjectionSpecification::REIN; if ((!v && !r) || !b.has(int(g))) continue;
                double tot = 0; for (int w = 0; w < nw; ++w) if (!b.d.wells[w].inj && b.in(b.d.wells[w].group, int(g))) { if (v) tot -= b.prate(w, 4); else tot -= b.surf[w * np + (b.d.groups[g].itype == "GAS" ? 2 : 0)]; }
                distributed(b, a, now, int(g), true, v, tot * (v ? b.d.groups[g].vrep : b.d.groups[g].rein), "reinjection"); any = true; if (b.d.groups[g].parent >= 0) s.cover("reinjection-in-subgroup");
                for (int w = 0; w < nw; ++w) if (b.in(b.d.wells[w].group, int(g)) && b.d.wells[w].inj && b.d.wells[w].grup() && follows(b, a, w, int(g), true)) touched[w] = 1;
            }
            for (int w = 0; w < nw; ++w) s.require(touched[w] || b.sameWell(a, now, w), "wrong-change", "reinjection changed well %s, which no reinjecting group controls", b.d.wells[w].name.c_str());
            for (size_t g = 0; g < b.d.groups.size(); ++g) {     // groups inside a reinjecting group are told to follow it
                bool inside = false; for (size_t r = 0; r < b.d.groups.size(); ++r) inside |= r != g && (a.im[r] == InjectionSpecification::VREP || a.im[r] == InjectionSpecification::REIN) && b.in(int(g), int(r));
                s.require(a.pm[g] == now.pm[g] && (a.im[g] == now.im[g] || (inside && now.im[g] == InjectionSpecification::FLD)), "wrong-change", "reinjection changed the control mode of group %s", b.d.groups[g].name.c_str());
            }
            b.shutStay(now, "reinjection"); if (any) s.cover("reinjection");
        }
        int it = 0;
        for (;; ++it) {
            respond(b, now, calm); s.step();
            s.eventData("bhp", b.bhp.data(), b.bhp.size()); s.eventData("res", b.res.data(), b.res.size());
            const Obs a = now; const std::vector<Viol> v = violations(b, a); bool must = false; for (auto& x : v) must |= x.must;
            const long at = s.faults_enabled && s.chance(1, 12) ? position(s) % 6 : -1; bool ok = false;
            const Call c = libcall(s, at, [&] { ok = b.wm->conditionsMet(b.bhp, b.res, b.surf); });
            now = b.look();
            if (c.threw) { s.require(c.failed > 0, "spurious-failure", "the control check failed (%s)", c.what.c_str()); s.cover("check-failed"); b.shutStay(now, "after a failed check"); return; }
            b.shutStay(now, "after a check");
            for (int w = 0; w < nw; ++w) s.require(now.cur[w] < int(now.c[w].size()), "active-control", "well %s has control %d of %zu active", b.d.wells[w].name.c_str(), now.cur[w], now.c[w].size());
            if (ok) {
                s.require(!must, "missed-violation", "the check reports that all conditions are met, %s", [&] { for (auto& x : v) if (x.must) { static char t[160]; if (x.group < 0) snprintf(t, sizeof t, "limit %d of well %s is violated", x.ctl, b.d.wells[x.well].name.c_str()); else snprintf(t, sizeof t, "the %s limit %s of group %s is violated", x.inj ? "injection" : "production", x.inj ? (x.mode ? "RESV" : "RATE") : kProdMode[x.mode], b.d.groups[x.group].name.c_str()); return (const char*)t; } return ""; }());
                s.require(a == now, "wrong-change", "the check reports that all conditions are met and changed a control");
                break;
            }
            s.require(!v.empty(), "false-violation", "the check reports a violated limit, none is");
            std::string why, w1; bool found = false; int sw = -1;
            for (auto& x : v) if (answers(b, a, now, x, w1, &sw)) { found = true; if (sw >= 0) { b.shut[sw] = 1; s.cover("well-shut-by-group"); } else s.cover(x.group < 0 ? "well-limit" : x.inj ? "group-injection" : "group-production"); break; } else if (why.empty() || x.must) why = w1;
            s.require(found, "wrong-change", "the change made by the check answers no violated limit: %s", why.c_str());
            ++changes; uint64_t h = 7; for (int w = 0; w < nw; ++w) h = mix64(h, uint64_t(now.cur[w] + 50)); s.state(h);
            if (calm) s.require(it < bound, "no-progress", "the controls do not settle within %d checks", bound); else if (it > 12) break;
        }
        if (calm) s.cover("settled");
    }
    if (changes) s.nontrivial();
    b.own.reset();
}

// ------------------------------------------------------------------ whole simulations with controls that change
void simulate(Sim& s) {
    NoFault nf; SimOpt o; o.maxcells = 16; o.maxsteps = 4; o.comp_den = 2;
    SimSpec sp = drawSim(s, o);
    WorldSpec& w = sp.comp ? sp.c.base : sp.w;
    if (!w.has_wells) throw Discard{"no wells"};
    if (!sp.comp && !w.rock && s.chance(1, 2)) { w.rock = true; w.pref = 1e7; w.crock = s.logreal(1e-11, 1e-9); }
    GridPtr g = makeGrid(w);
    if (!sp.comp && !w.rock) { bool fixed = false; for (auto& x : w.bcs) fixed |= x.type == BC_PRESSURE; if (!fixed) { w.has_bcs = true; for (int f = 0; f < g->number_of_faces; ++f) if ((g->face_cells[2 * f] < 0) != (g->face_cells[2 * f + 1] < 0)) { bool used = false; for (auto& x : w.bcs) used |= x.face == f; if (!used) { w.bcs.push_back({BC_PRESSURE, f, 1e7}); break; } } } }
    // the wells of the world, as a deck with limits and groups
    Box b(s); DeckWells& d = b.d; b.np = 2; d.tree = true;
    const int ng = s.range(1, 3);
    for (int i = 0; i < ng; ++i) { GroupD q; q.name = i == 0 ? "FIELD" : "G" + std::to_string(i); if (i) q.parent = int(s.choose(i)); d.groups.push_back(q); }
    const double day = 86400, unit = 1e-3 / day / 1e5;
    auto amount = [&] { return w.Q * s.logreal(0.02, 1.5) * day; };
    for (auto& q : d.groups) {
        const bool root = &q == &d.groups[0];
        if (s.chance(1, 2)) { q.prod = true; q.plim[4] = amount(); q.proc = s.chance(1, 2) ? "RATE" : "WELL"; q.pmode = root && s.chance(1, 3) ? "RESV" : "NONE"; }
        if (s.chance(1, 2)) { q.inj = true; q.iresv = amount(); q.vrep = s.real(0.5, 1.2); q.imode = root && s.chance(1, 2) ? s.chance(1, 2) ? "RESV" : "VREP" : "NONE"; }
    }
    for (auto& x : w.wells) {
        WellD y; y.name = x.name; y.inj = x.inj; y.group = int(s.choose(ng)); y.depth = x.depth; y.shut = x.cur < 0;
        for (auto& c : x.ctrls) (c.type == BHP ? y.bhp : y.lim[x.inj ? 1 : 4]) = c.type == BHP ? c.target / 1e5 : std::fabs(c.target) * day;
        const bool bhpFirst = x.ctrls[0].type == BHP;
        if (y.own() == 1 && s.chance(3, 4)) { if (bhpFirst) y.lim[x.inj ? 1 : 4] = amount(); else y.bhp = (x.inj ? 1.02e7 + 1e6 * s.real(0, 3) : 0.98e7 - 1e6 * s.real(0, 3)) / 1e5; }
        y.mode = bhpFirst ? "BHP" : "RESV";
        const GroupD& root = d.groups[0];
        if (x.inj ? root.imode != "NONE" : root.pmode != "NONE") if (s.chance(3, 4)) y.mode = "GRUP";
        if (s.chance(1, 3)) y.guide = s.real(0.3, 3);
        if (y.depth < 0) y.depth = -1;
        for (size_t q = 0; q < x.cells.size(); ++q) { const int cart = g->global_cell ? g->global_cell[x.cells[q]] : x.cells[q]; y.perf.push_back({{cart % w.n[0], cart / w.n[0] % w.n[1], cart / (w.n[0] * w.n[1])}}); y.perfWI.push_back(x.WI[q] / unit); }
        d.wells.push_back(y);
    }
    for (auto& q : d.groups) if (q.pmode == "RESV") { bool any = false; for (auto& x : d.wells) any |= !x.inj && x.grup(); if (!any) q.pmode = "NONE"; }
    std::ostringstream t; t << deckHead(d); writeSchedule(t, d); t << "TSTEP\n 1 /\nEND\n";
    if (getenv("DST_DECK")) fputs(t.str().c_str(), stderr);
    mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000); clk = ClockSeam(); clk.on = true; clk.utc_us = 1300000000000000LL; clk.tick_max = 10;
    Instance in(sp);
    std::unique_ptr<Opm::WellsManager>& wm = sp.comp ? in.c->wm : in.w->wm;
    Opm::EclipseGridParser deck; { CoutCapture quiet; std::istringstream is(t.str()); deck.read(is); wm.reset(new Opm::WellsManager(deck, in.grid(), nullptr)); }
    if (sp.comp) in.c->wstate.init(wm->c_wells(), in.c->state); else in.w->wstate.init(wm->c_wells(), in.w->state);
    b.wm = wm.get(); const int nw = b.nw(), np = 2;
    s.require(b.W() && b.W()->number_of_wells == nw && b.W()->well_connpos[nw] == in.cwells()->well_connpos[nw], "tree", "the deck's wells are not those of the model");
    const auto plain = in.sp.params;
    in.sp.params.push_back({"check_well_controls", "true"}); const int tries = s.chance(1, 4) ? s.range(1, 3) : 10; in.sp.params.push_back({"max_well_control_iterations", std::to_string(tries)});
    // the run; controls are noted at every step boundary
    std::vector<Obs> obs; std::vector<std::unique_ptr<Wells, WellsDel>> ctl; std::vector<int> solves; Call c; std::vector<Snap> snaps; Snap fin;
    {
        StepWatch sw(in);
        auto note = [&] { NoFault n2; sw.look(); while (obs.size() < sw.snaps.size()) { obs.push_back(b.look()); ctl.emplace_back(clone_wells(b.W())); solves.push_back(in.ls.calls); } };
        sw.out.on = note; in.ls.before = note;
        c = libcall(s, -1, [&] { in.construct(""); in.run(); });
        if (!c.threw) { sw.end(); obs.push_back(b.look()); ctl.emplace_back(clone_wells(b.W())); }
        snaps = sw.snaps;
    }
    if (c.threw) s.cover("controls-not-satisfied");
    const int done = int(snaps.size()) - 1;
    b.bhp.resize(nw); b.res.assign(nw * np, 0); b.surf.assign(nw * np, 0);
    bool changed = false;
    for (int k = 0; k < done; ++k) {
        s.step(); s.simTime(sp.dt);
        const Snap& z = snaps[k + 1]; const Obs& oz = obs[k + 1];
        s.eventData("bhp", z.bhp.data(), z.bhp.size()); s.eventData("rates", z.rates.data(), z.rates.size());
        // what was accepted keeps all limits
        for (int q = 0; q < nw; ++q) { double r = 0; for (int i = b.W()->well_connpos[q]; i < b.W()->well_connpos[q + 1]; ++i) r += z.rates[i]; b.bhp[q] = z.bhp[q]; b.res[q * np] = b.surf[q * np] = r; }
        b.shut.clear(); for (int q = 0; q < nw; ++q) b.shut.push_back(oz.cur[q] < 0);
        for (auto& v : violations(b, oz)) if (v.must) {
            if (v.group < 0) s.require(false, "limit-broken", "step %d was accepted with limit %d of well %s violated", k, v.ctl, d.wells[v.well].name.c_str());
            else s.require(false, "limit-broken", "step %d was accepted with the %s limit of group %s violated", k, v.inj ? "injection" : "production", d.groups[v.group].name.c_str());
        }
        for (int q = 0; q < nw; ++q) if (d.wells[q].isShut()) s.require(oz.cur[q] < 0 && b.res[q * np] == 0, "shut-well-opened", "well %s, which is shut, flows in step %d", d.wells[q].name.c_str(), k);
        // attempts with other controls leave no trace
        bool same = true; for (int q = 0; q < nw; ++q) same &= b.sameWell(obs[k], oz, q); if (!same) { changed = true; s.cover("controls-changed"); }
        Instance ib(sp); std::unique_ptr<Opm::WellsManager>& wb = sp.comp ? ib.c->wm : ib.w->wm; wb.reset(new Opm::WellsManager(ctl[k + 1].get()));
        if (sp.comp) ib.c->wstate.init(wb->c_wells(), ib.c->state); else ib.w->wstate.init(wb->c_wells(), ib.w->state);
        snaps[k].put(ib); Opm::SimulatorTimer tb; ib.initTimer(tb, k + 1); tb.setCurrentStepNum(k);
        CoutCapture quiet; const Call cb = libcall(s, -1, [&] { ib.construct(""); ib.run(tb); });
        s.require(!cb.threw, "retry-differs", "step %d fails when it is begun with the controls it was accepted with", k);
        Snap n; n.take(ib); long at; double x, y; const char* f = n.differs(z, &at, &x, &y);
        s.require(!f, "retry-differs", "%s[%ld] after step %d is %.17g, it is %.17g when the step is begun with the controls it was accepted with", f ? f : "", at, k, y, x);
        uint64_t h = 9; for (int q = 0; q < nw; ++q) h = mix64(h, uint64_t(oz.cur[q] + 50)); s.state(h);
    }
    if (changed) s.nontrivial();
    s.cover("simulation");
}
void run(Sim& s) { if (s.chance(1, 12)) simulate(s); else decide(s); }
Register reg("S12", run, "WellsManager, WellCollection, WellsGroup, wells.c, EclipseGridParser; in one run of twelve both whole simulators", "response of the wells (adversarial, or a reservoir with independent wells), or none in whole simulations; allocator, clock");
}
