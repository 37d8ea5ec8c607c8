// S14: schedules with several epochs, read from generated decks and replayed in any order.
#include "props/timerdeck.hpp"
#include "props/deckwells.hpp"
#include "props/libcall.hpp"

namespace {
// ------------------------------------------------------------------ reference model
struct Perf { int k1, k2, i, j; bool open; double wi; };             // 0 is defaulted, indices from 1; wi 0 is computed
struct MWell {
    std::string name, group; int I = 1, J = 1; double depth = -1; std::vector<Perf> perf;
    bool ctl = false, inj = false, shut = true; std::string itype, mode; double lim[5] = {-1, -1, -1, -1, -1}; double bhp = 0; double guide = -1;
};
struct MGroup { std::string name, parent; bool prod = false, inj = false; std::string pmode, proc, imode, itype; double plim[5]; double irate, iresv, rein, vrep; };
struct Model { std::vector<MWell> wells; std::vector<MGroup> groups; bool wcon = false; };
struct Unit { double len, lrat, grat, resv, pres, trans; bool field; };
Unit metric() { return Unit{1, 1 / 86400.0, 1 / 86400.0, 1 / 86400.0, 1e5, 1e-3 / (86400.0 * 1e5), false}; }
Unit fieldUnits() { const double ft = 0.3048, stb = 42 * 231 * std::pow(0.0254, 3), psi = 0.45359237 * 9.80665 / (0.0254 * 0.0254); return Unit{ft, stb / 86400, 1000 * ft * ft * ft / 86400, stb / 86400, psi, 1e-3 * stb / (86400 * psi), true}; }

// ------------------------------------------------------------------ text of the deck
typedef std::vector<std::string> Items;
struct Writer {
    Sim& s; std::ostringstream o; bool noise; explicit Writer(Sim& s_) : s(s_), noise(s_.chance(1, 2)) {}
    std::string q(const std::string& x) { return noise && s.chance(1, 3) ? x : "'" + x + "'"; }
    void comment() { if (noise && s.chance(1, 6)) { static const char* c[] = {"-- a comment /\n", "--\n", "\n", "-- 'W1' 1 2 3 /\n", "--'P1' /\n"}; o << c[s.choose(5)]; } }
    void junk() {            // keywords that are skipped; none of them starts an epoch
        if (!noise || !s.chance(1, 6)) return; static const char* c[] = {"RPTSCHED\n 'PRES' 1 /\n", "RPTRST\n BASIC=2 /\n", "NOECHO\n", "\n\n", "-- between keywords\n", "WBHP\n 'P1' /\n"};
        o << c[s.choose(6)];
    }
    void key(const char* k) { junk(); o << k << (noise && s.chance(1, 8) ? "  -- keyword\n" : "\n"); }
    // groups of items; the last ones may be left out if they are defaulted
    void rec(const std::vector<Items>& gs, bool cut = true) {
        comment(); size_t n = gs.size();
        if (cut && noise) while (n > 1 && s.chance(1, 2)) { bool d = true; for (auto& x : gs[n - 1]) d &= x == "1*"; if (!d) break; --n; }
        std::string line;
        for (size_t g = 0; g < n; ++g) for (size_t i = 0; i < gs[g].size();) {
            size_t e = i; if (gs[g][i] == "1*") { while (e + 1 < gs[g].size() && gs[g][e + 1] == "1*" && (!noise || s.chance(3, 4))) ++e; }
            if (cut && noise && g + 1 == n && gs[g][i] == "1*" && s.chance(1, 2)) { bool d = true; for (size_t r = i; r < gs[g].size(); ++r) d &= gs[g][r] == "1*"; if (d) break; }
            line += (noise && s.chance(1, 5) ? "   " : " ") + (e > i ? std::to_string(e - i + 1) + "*" : gs[g][i]); i = e + 1;
        }
        const bool star = line.back() == '*';
        o << line << (noise && !star && s.chance(1, 6) ? "/" : " /") << (noise && s.chance(1, 8) ? " -- end" : "") << "\n";
    }
    void end() { comment(); o << (noise && s.chance(1, 6) ? " /\n" : "/\n"); }
};

struct Gen {
    Sim& s; Writer w; DeckWells names; Unit u; bool gas, hasStart; int n[3];
    Model cur; std::vector<Model> epochs; std::vector<std::vector<long double>> steps; boost::gregorian::date start; long double now = 0; bool timed = false;
    explicit Gen(Sim& s_) : s(s_), w(s_) {}

    // every special keyword passes here: one that follows steps begins an epoch
    void special() { if (timed) { epochs.push_back(cur); steps.push_back(all); timed = false; ++nep; } }
    std::vector<long double> all; int nep = 0; int bad = -1; const char* badWhat = "";

    double amount() { static const double v[] = {100, 50, 200, 20, 10, 400, 1000, 1.5}; return v[s.choose(8)] * (s.chance(1, 4) ? s.real(0.5, 1.5) : 1.0); }
    std::string num(double x) { return x < 0 ? std::string("1*") : num17(x); }
    int grp() { return int(s.choose(cur.groups.size())); }
    MGroup& group(const std::string& g) { for (auto& x : cur.groups) if (x.name == g) return x; abort(); }
    void newWells() {
        const int k = s.range(1, 3); ivec mod;
        special(); w.key("WELSPECS");
        for (int q = 0; q < k; ++q) {
            int ix;
            if (!cur.wells.empty() && s.chance(1, 4)) { ix = int(s.choose(cur.wells.size())); s.cover("respecified-well"); }
            else { ix = int(cur.wells.size()); cur.wells.emplace_back(); cur.wells[ix].name = (s.chance(1, 2) ? "W" : s.chance(1, 2) ? "P" : "INJ") + std::to_string(s.chance(1, 3) ? 90 - ix : ix); cur.wells[ix].I = s.range(1, n[0]); cur.wells[ix].J = s.range(1, n[1]); mod.push_back(ix); }
            MWell& x = cur.wells[ix]; x.group = cur.groups[grp()].name; x.depth = s.chance(1, 2) ? -1 : 1000 + s.range(0, 500);
            w.rec({{w.q(x.name)}, {w.q(x.group)}, {std::to_string(x.I), std::to_string(x.J)}, {num(x.depth)}, {w.q(x.inj ? "WATER" : "OIL")}}, false);
        }
        w.end();
        if (mod.empty()) return;
        special(); w.key("COMPDAT");
        for (int ix : mod) complete(cur.wells[ix], true);
        w.end();
    }
    bool taken(const MWell& x, int i, int j, int k1, int k2) const { if (!k1) k1 = 1; if (!k2) k2 = n[2]; for (auto& p : x.perf) { const int a = p.k1 ? p.k1 : 1, b = p.k2 ? p.k2 : n[2]; if ((p.i ? p.i : x.I) == (i ? i : x.I) && (p.j ? p.j : x.J) == (j ? j : x.J) && k1 <= b && a <= k2) return true; } return false; }
    bool complete(MWell& x, bool first) {
        for (int t = 0; t < 6; ++t) {
            Perf p; const bool def = first && t == 0 ? s.chance(3, 4) : s.chance(1, 3);
            p.i = def ? 0 : s.range(1, n[0]); p.j = def ? 0 : s.range(1, n[1]); p.k1 = s.chance(1, 4) ? 0 : s.range(1, n[2]); p.k2 = s.chance(1, 4) ? 0 : s.range(p.k1 ? p.k1 : 1, n[2]);
            p.open = (first && x.perf.empty()) || !s.chance(1, 5); p.wi = s.chance(1, 4) ? 0 : s.real(1, 50);
            if (taken(x, p.i, p.j, p.k1, p.k2)) continue;
            x.perf.push_back(p); auto ix = [&](int v) { return v ? std::to_string(v) : std::string("1*"); };
            w.rec({{w.q(x.name)}, {ix(p.i), ix(p.j), ix(p.k1), ix(p.k2)}, {w.q(p.open ? s.chance(1, 8) ? "AUTO" : "OPEN" : "SHUT")}, {"1*"}, {p.wi > 0 ? num17(p.wi) : "1*", "1*"}});
            if (!p.open) s.cover("shut-connection");
            return true;
        }
        return false;
    }
    void moreCompletions() {
        if (cur.wells.empty()) return; special(); w.key("COMPDAT"); int k = s.range(1, 3);
        for (int q = 0; q < k; ++q) complete(cur.wells[s.choose(cur.wells.size())], false);
        w.end();
    }
    void rootCompletions() {        // a well name root
        if (cur.wells.size() < 2) return; const char c = cur.wells[s.choose(cur.wells.size())].name[0];
        Perf p; p.i = s.range(1, n[0]); p.j = s.range(1, n[1]); p.k1 = p.k2 = s.range(1, n[2]); p.open = true; p.wi = s.real(1, 50);
        for (auto& x : cur.wells) if (x.name[0] == c && taken(x, p.i, p.j, p.k1, p.k2)) return;
        special(); w.key("COMPDAT"); w.rec({{"'" + std::string(1, c) + "*'"}, {std::to_string(p.i), std::to_string(p.j), std::to_string(p.k1), std::to_string(p.k2)}, {"'OPEN'"}, {"1*"}, {num17(p.wi)}}); w.end();
        for (auto& x : cur.wells) if (x.name[0] == c) x.perf.push_back(p);
        s.cover("well-name-root");
    }
    void controls(bool inj) {
        ivec v; for (size_t i = 0; i < cur.wells.size(); ++i) if (!cur.wells[i].ctl || cur.wells[i].inj == inj) if (s.chance(1, 2)) v.push_back(int(i));
        if (v.empty()) return; special(); w.key(inj ? "WCONINJE" : "WCONPROD"); cur.wcon = true;
        if (s.chance(1, 6)) v.push_back(v[0]);
        for (int i : v) {
            MWell& x = cur.wells[i]; if (x.ctl) s.cover("changed-controls"); x.ctl = true; x.inj = inj; for (double& l : x.lim) l = -1; ivec have;
            for (int k = 0; k < (inj ? 2 : 5); ++k) if (!(k == 2 && !gas) && s.chance(1, 3)) { x.lim[k] = s.chance(1, 20) ? 0.0 : amount(); have.push_back(k); }
            const int b = s.chance(1, 4) || have.empty() ? int(s.choose(2)) : 2;        // explicit, defaulted, none
            x.bhp = b == 0 ? 50 + amount() : b == 1 ? (inj ? 6891 : 1) : 0;
            x.mode = x.bhp > 0 && (have.empty() || s.chance(1, 3)) ? "BHP" : inj ? (have[s.choose(have.size())] ? "RESV" : "RATE") : kProdMode[have[s.choose(have.size())]];
            const bool was = x.shut; x.shut = s.chance(1, 4); if (was && !x.shut) s.cover("opened-by-control"); x.itype = !inj ? "" : gas && s.chance(1, 3) ? "GAS" : "WATER";
            const std::string flag = w.q(x.shut ? "SHUT" : "OPEN"), bs = b == 1 ? "1*" : num17(x.bhp);
            if (inj) w.rec({{w.q(x.name)}, {w.q(x.itype)}, {flag}, {w.q(x.mode)}, {num(x.lim[0]), num(x.lim[1]), bs}});
            else w.rec({{w.q(x.name)}, {flag}, {w.q(x.mode)}, {num(x.lim[0]), num(x.lim[1]), num(x.lim[2]), num(x.lim[3]), num(x.lim[4]), bs}});
        }
        w.end();
    }
    void welopen() {
        ivec v; for (size_t i = 0; i < cur.wells.size(); ++i) if (cur.wells[i].ctl && s.chance(1, 2)) v.push_back(int(i));
        if (v.empty()) return; special(); w.key("WELOPEN");
        for (int i : v) { MWell& x = cur.wells[i]; x.shut = s.chance(1, 2); w.rec({{w.q(x.name)}, {w.q(x.shut ? "SHUT" : "OPEN")}}, false); }
        w.end(); s.cover("welopen");
    }
    void tree() {
        if (cur.groups.size() < 2) return; special(); w.key("GRUPTREE"); s.cover("group-tree");
        for (size_t g = 1; g < cur.groups.size(); ++g) if (s.chance(2, 3)) { cur.groups[g].parent = cur.groups[s.choose(g)].name; w.rec({{w.q(cur.groups[g].name)}, {w.q(cur.groups[g].parent)}}, false); }
        w.end();
    }
    void groupLimits(bool inj) {
        special(); w.key(inj ? "GCONINJE" : "GCONPROD"); const int k = s.range(1, 2); s.cover("group-limits");
        for (int q = 0; q < k; ++q) {
            MGroup& g = cur.groups[grp()];
            if (inj) {
                g.inj = true; g.imode = s.chance(1, 2) ? "NONE" : "FLD"; g.itype = gas && s.chance(1, 3) ? "GAS" : "WATER"; g.irate = s.chance(1, 2) ? amount() : -1; g.iresv = s.chance(1, 2) ? amount() : -1; g.rein = s.chance(1, 2) ? s.real(0, 1) : -1; g.vrep = s.chance(1, 2) ? s.real(0, 1) : -1;
                w.rec({{w.q(g.name)}, {w.q(g.itype)}, {w.q(g.imode)}, {num(g.irate), num(g.iresv), num(g.rein), num(g.vrep)}}); if (g.rein < 0) g.rein = 1; if (g.vrep < 0) g.vrep = 1;
            } else {
                g.prod = true; g.pmode = s.chance(1, 2) ? "NONE" : "FLD"; for (int t = 0; t < 5; ++t) g.plim[t] = !(t == 2 && !gas) && s.chance(1, 2) ? amount() : -1;
                const int pr = s.range(0, 3); g.proc = pr == 1 ? "RATE" : pr == 2 ? "WELL" : "NONE"; const bool tail = g.plim[4] >= 0 || s.chance(1, 2);
                std::vector<Items> r = {{w.q(g.name)}, {w.q(g.pmode)}, {num(g.plim[0]), num(g.plim[1]), num(g.plim[2]), num(g.plim[3])}};
                if (pr || tail) r.push_back({w.q(g.proc)});
                if (tail) { Items m(6, "1*"); if (w.noise && s.chance(1, 2)) m[0] = "'YES'"; if (w.noise && s.chance(1, 4)) m[1 + s.choose(5)] = "0.5"; m.push_back(num(g.plim[4])); const size_t stars = m.back() == "1*"; if (stars) m.pop_back(); for (auto& x : m) if (x == "1*") x = "1*"; r.push_back(m); }
                w.rec(r);
            }
        }
        w.end();
    }
    void guides() {
        ivec v; for (size_t i = 0; i < cur.wells.size(); ++i) if (cur.wells[i].ctl && s.chance(1, 2)) v.push_back(int(i));
        if (v.empty()) return; special(); w.key("WGRUPCON");
        for (int i : v) { MWell& x = cur.wells[i]; x.guide = s.real(0.25, 4); w.rec({{w.q(x.name)}, {s.chance(1, 2) ? "'YES'" : "1*"}, {num17(x.guide)}, {w.q(x.inj ? "RAT" : "OIL")}}, false); }
        w.end(); s.cover("guide-rates");
    }
    void tuning() { special(); w.key("TUNING"); w.o << " 1 10 0.1 /\n /\n 12 1 25 /\n"; s.cover("empty-epoch"); }
    // something that cannot be done, last of its epoch
    bool spoil() {
        ivec on, prod, inj; for (size_t i = 0; i < cur.wells.size(); ++i) if (cur.wells[i].ctl) { on.push_back(int(i)); (cur.wells[i].inj ? inj : prod).push_back(int(i)); }
        if (on.empty() || cur.wells.empty()) return false;
        const MWell& any = cur.wells[on[s.choose(on.size())]]; const bool p = !prod.empty() && (inj.empty() || s.chance(1, 2)); const MWell& one = p ? cur.wells[prod[s.choose(prod.size())]] : cur.wells[inj[s.choose(inj.size())]];
        auto put = [&](const char* what, const char* key, std::vector<Items> r) { special(); w.key(key); w.rec(r, false); w.end(); badWhat = what; bad = int(epochs.size()); };
        switch (s.choose(12)) {
        case 0: put("controls of an unknown well", p ? "WCONPROD" : "WCONINJE", p ? std::vector<Items>{{"'NOWELL'"}, {"'OPEN'"}, {"'BHP'"}, {"5*", "100"}} : std::vector<Items>{{"'NOWELL'"}, {"'WATER'"}, {"'OPEN'"}, {"'BHP'"}, {"2*", "300"}}); break;
        case 1: put("an unknown control mode", p ? "WCONPROD" : "WCONINJE", p ? std::vector<Items>{{w.q(one.name)}, {"'OPEN'"}, {"'XRAT'"}, {"5", "5", "1*", "5", "5", "100"}} : std::vector<Items>{{w.q(one.name)}, {"'WATER'"}, {"'OPEN'"}, {"'XRAT'"}, {"5", "5", "300"}}); break;
        case 2: { const int k = p ? int(s.choose(gas ? 5 : 4)) : int(s.choose(2)); Items v(p ? 5 : 2, "1*"); const int kk = p && !gas && k >= 2 ? k + 1 : k; for (size_t i = 0; i < v.size(); ++i) if (int(i) != kk && !(p && i == 2 && !gas) && s.chance(1, 2)) v[i] = "7"; v.push_back("150");
            put("a control mode without its rate", p ? "WCONPROD" : "WCONINJE", p ? std::vector<Items>{{w.q(one.name)}, {"'OPEN'"}, {std::string("'") + kProdMode[kk] + "'"}, v} : std::vector<Items>{{w.q(one.name)}, {"'WATER'"}, {"'OPEN'"}, {kk ? "'RESV'" : "'RATE'"}, v}); break; }
        case 3: put("a completion of an unknown well", "COMPDAT", {{"'NOWELL'"}, {"1", "1", "1", "1"}, {"'OPEN'"}, {"1*"}, {"2"}}); break;
        case 4: { const int d = int(s.choose(3)); std::string c[4] = {std::to_string(s.range(1, n[0])), std::to_string(s.range(1, n[1])), std::to_string(s.range(1, n[2])), ""}; c[d] = std::to_string(n[d] + 1 + int(s.choose(2))); c[3] = c[2]; if (d == 2 && s.chance(1, 2)) c[2] = "1";
            put("a completion outside the grid", "COMPDAT", {{w.q(any.name)}, {c[0], c[1], c[2], c[3]}, {"'OPEN'"}, {"1*"}, {"2"}}); break; }
        case 5: put("the opening of an unknown well", "WELOPEN", {{"'NOWELL'"}, {s.chance(1, 2) ? "'OPEN'" : "'SHUT'"}}); break;
        case 6: put("neither open nor shut", "WELOPEN", {{w.q(any.name)}, {"'AJAR'"}}); break;
        case 7: put("a guide rate of an unknown well", "WGRUPCON", {{"'NOWELL'"}, {"'YES'"}, {"2"}, {"'OIL'"}}); break;
        case 8: put("a guide rate of the wrong kind", "WGRUPCON", {{w.q(one.name)}, {"'YES'"}, {"2"}, {p ? "'RAT'" : "'OIL'"}}); break;
        case 9: put("a well that injects and produces", p ? "WCONINJE" : "WCONPROD", p ? std::vector<Items>{{w.q(one.name)}, {"'WATER'"}, {"'OPEN'"}, {"'BHP'"}, {"2*", "300"}} : std::vector<Items>{{w.q(one.name)}, {"'OPEN'"}, {"'BHP'"}, {"5*", "100"}}); break;
        case 10: if (gas) { put("a tubing head pressure limit", p ? "WCONPROD" : "WCONINJE", p ? std::vector<Items>{{w.q(one.name)}, {"'OPEN'"}, {"'BHP'"}, {"5*", "100", "20"}} : std::vector<Items>{{w.q(one.name)}, {"'WATER'"}, {"'OPEN'"}, {"'BHP'"}, {"2*", "300", "20"}}); break; }
            put("a phase that is not there", p ? "WCONPROD" : "WCONINJE", p ? std::vector<Items>{{w.q(one.name)}, {"'OPEN'"}, {"'GRAT'"}, {"2*", "5", "2*", "100"}} : std::vector<Items>{{w.q(one.name)}, {"'GAS'"}, {"'OPEN'"}, {"'BHP'"}, {"2*", "300"}}); break;
        case 11: put("a well target", "WELTARG", {{w.q(any.name)}, {"'BHP'"}, {"150"}}); break;
        }
        s.cover(badWhat); return true;
    }
    void time() {
        const int k = s.range(1, 2);
        for (int q = 0; q < k; ++q) {
            if (s.chance(1, 2)) {
                w.key("TSTEP"); const int m = s.range(1, 4); w.o << " ";
                for (int i = 0; i < m; ++i) { const double x = s.chance(1, 2) ? s.range(1, 60) : s.range(1, 800) / 8.0; const int rep = s.chance(1, 4) ? s.range(2, 4) : 1; if (rep > 1) w.o << rep << "*"; w.o << num17(x) << " "; if (w.noise && s.chance(1, 8)) w.o << "\n-- more steps\n"; for (int r = 0; r < rep; ++r) { all.push_back(x); now += x; } }
                w.o << "/\n";
            } else {
                w.key("DATES"); const int m = s.range(1, 3); s.cover("dates");
                for (int i = 0; i < m; ++i) {
                    const long day = long(std::floor(double(now))) + s.range(1, s.chance(1, 4) ? 2000 : 60); const boost::gregorian::date d = start + boost::gregorian::days(day);
                    static const char* mon[] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"}; std::string mm = mon[int(d.month()) - 1]; if (mm == "JUL" && s.chance(1, 2)) mm = "JLY";
                    w.o << " " << int(d.day()) << " " << w.q(mm) << " " << int(d.year()) << (w.noise && s.chance(1, 4) ? "/\n" : " /\n"); all.push_back(day - now); now = day;
                }
                w.o << "/\n";
            }
        }
        timed = true;
    }
    std::string deck(bool spoilt = false) {
        gas = s.chance(1, 3); u = s.chance(1, 3) ? fieldUnits() : metric();
        w.o << "RUNSPEC\nOIL\nWATER\n" << (gas ? "GAS\n" : "") << (u.field ? "FIELD\n" : s.chance(1, 2) ? "METRIC\n" : ""); hasStart = s.chance(2, 3); start = boost::gregorian::date(1983, 1, 1);
        if (hasStart) { std::string t; start = drawDate(s, &t); w.o << "START\n " << t << " /\n"; }
        w.o << "SCHEDULE\n";
        const int ng = s.range(1, 4); for (int g = 0; g < ng; ++g) { MGroup x; x.name = g == 0 ? "FIELD" : std::string(s.chance(1, 2) ? "G" : "A") + std::to_string(g); cur.groups.push_back(x); }
        const int blocks = s.range(1, 6);
        for (int b = 0; b < blocks; ++b) {
            int k = b == 0 ? s.range(1, 6) : s.range(0, 4); if (b == 0) { if (s.chance(7, 8)) newWells(); if (s.chance(3, 4)) { controls(false); controls(true); } }
            for (; k > 0; --k) switch (s.choose(11)) { case 0: newWells(); break; case 1: case 2: controls(false); break; case 3: controls(true); break; case 4: welopen(); break; case 5: tree(); break; case 6: groupLimits(false); break; case 7: groupLimits(true); break; case 8: guides(); break; case 9: if (s.chance(1, 2)) moreCompletions(); else rootCompletions(); break; default: if (s.chance(1, 2)) tuning(); }
            if (bad < 0 && spoilt && (b + 1 == blocks || s.chance(1, 3))) spoil();
            if (b + 1 < blocks || s.chance(1, 2)) time();
        }
        epochs.push_back(cur); steps.push_back(all);
        w.o << "END\n";
        return w.o.str();
    }
};

// ------------------------------------------------------------------ comparison of an epoch
struct Ctl { int type; double target; dvec d; };
struct Cmp {
    Sim& s; const Gen& g; const UnstructuredGrid& grid; const dvec& perm; int e; const char* when;
    bool eq(double a, double b) const { return std::fabs(a - b) <= 1e-11 * std::fabs(b) + 1e-300; }
    std::vector<Ctl> controls(const MWell& x, int* cur) const {
        std::vector<Ctl> v; *cur = -1; const Unit& u = g.u; const int np = g.gas ? 3 : 2;
        auto one = [&](std::initializer_list<int> on) { dvec d(np, 0.0); for (int i : on) d[i] = 1; return d; };
        if (!x.ctl) return v;
        if (x.inj) {
            if (x.lim[0] >= 0) { if (x.mode == "RATE") *cur = int(v.size()); v.push_back({SURFACE_RATE, x.lim[0] * (x.itype == "GAS" ? u.grat : u.lrat), dvec(np, 1.0)}); }
            if (x.lim[1] >= 0) { if (x.mode == "RESV") *cur = int(v.size()); v.push_back({RESERVOIR_RATE, x.lim[1] * u.resv, dvec(np, 1.0)}); }
        } else for (int k = 0; k < 5; ++k) if (x.lim[k] >= 0) {
            if (x.mode == kProdMode[k]) *cur = int(v.size());
            v.push_back({k == 4 ? RESERVOIR_RATE : SURFACE_RATE, -x.lim[k] * (k == 2 ? u.grat : k == 4 ? u.resv : u.lrat), k == 0 ? one({1}) : k == 1 ? one({0}) : k == 2 ? one({2}) : k == 3 ? one({0, 1}) : dvec(np, 1.0)});
        }
        if (x.bhp > 0) { if (x.mode == "BHP") *cur = int(v.size()); v.push_back({BHP, x.bhp * u.pres, {}}); }
        return v;
    }
    void wells(const Opm::WellsManager& wm) const {
        const Model& m = g.epochs[e]; const int nw = int(m.wells.size()), np = g.gas ? 3 : 2;
        if (nw == 0) { s.require(wm.empty(), "wells", "epoch %d (%s): there are wells before any is defined", e, when); return; }
        const Wells* w = wm.c_wells();
        s.require(w && w->number_of_wells == nw && w->number_of_phases == np, "wells", "epoch %d (%s): %d wells instead of %d", e, when, w ? w->number_of_wells : -1, nw);
        for (int i = 0; i < nw; ++i) {
            const MWell* mx = w->name[i] ? nullptr : &m.wells[i]; if (mx) s.cover("name-lost"); else for (auto& y : m.wells) if (y.name == w->name[i]) mx = &y;      // a name may be missing after a failed allocation
            s.require(mx != nullptr, "wells", "epoch %d (%s): unknown well %s", e, when, w->name[i]); const MWell& x = *mx; const char* nm = x.name.c_str();
            if (x.ctl) s.require((w->type[i] == INJECTOR) == x.inj, "type", "epoch %d (%s): well %s is %s", e, when, nm, x.inj ? "a producer instead of an injector" : "an injector instead of a producer");
            // completions
            std::map<int, double> want; double top = 1e100;
            for (auto& p : x.perf) { if (!p.open) continue; const int ii = (p.i ? p.i : x.I) - 1, jj = (p.j ? p.j : x.J) - 1; for (int k = p.k1 ? p.k1 - 1 : 0; k <= (p.k2 ? p.k2 - 1 : grid.cartdims[2] - 1); ++k) {
                const int c = ii + grid.cartdims[0] * (jj + grid.cartdims[1] * k); top = std::min(top, grid.cell_centroids[3 * c + 2]);
                if (p.wi > 0) want[c] = p.wi * g.u.trans; else { const double kk = perm[9 * c], dx = 10, dy = 20, dz = 2, r0 = 0.14 * std::sqrt(dx * dx + dy * dy); want[c] = 2 * M_PI * kk * dz / std::log(r0 / (0.5 * 0.3048)); } } }
            s.require(w->well_connpos[i + 1] - w->well_connpos[i] == int(want.size()), "completions", "epoch %d (%s): well %s has %d completions instead of %zu", e, when, nm, w->well_connpos[i + 1] - w->well_connpos[i], want.size());
            std::set<int> seen;
            for (int q = w->well_connpos[i]; q < w->well_connpos[i + 1]; ++q) { auto it = want.find(w->well_cells[q]); s.require(it != want.end() && seen.insert(w->well_cells[q]).second, "completions", "epoch %d (%s): well %s is completed in cell %d", e, when, nm, w->well_cells[q]); s.require(std::fabs(w->WI[q] - it->second) <= 1e-9 * it->second, "completions", "epoch %d (%s): well %s has the well index %.12g instead of %.12g in cell %d", e, when, nm, w->WI[q], it->second, w->well_cells[q]); }
            const double dep = x.depth < 0 ? top : x.depth * g.u.len; s.require(eq(w->depth_ref[i], dep), "depth", "epoch %d (%s): the reference depth of well %s is %.12g instead of %.12g", e, when, nm, w->depth_ref[i], dep);
            // controls
            int cur; const std::vector<Ctl> c = controls(x, &cur); const WellControls& k = *w->ctrls[i];
            s.require(k.num == int(c.size()), "controls", "epoch %d (%s): well %s has %d controls instead of %zu", e, when, nm, k.num, c.size());
            int active = k.current; for (int q = 0; q < k.num; ++q) {
                int at = -1; for (size_t r = 0; r < c.size(); ++r) if (c[r].type == int(k.type[q]) && (c[r].d.empty() || dvec(k.distr + np * q, k.distr + np * (q + 1)) == c[r].d)) at = int(r);
                s.require(at >= 0, "controls", "epoch %d (%s): control %d of well %s is none of those written", e, when, q, nm);
                s.require(eq(k.target[q], c[at].target), "controls", "epoch %d (%s): control %d of well %s has the target %.12g instead of %.12g", e, when, q, nm, k.target[q], c[at].target);
                if (k.current == q) active = at;
            }
            if (!x.ctl || x.shut) s.require(k.current < 0, "shut", "epoch %d (%s): well %s, which is shut, has the active control %d", e, when, nm, k.current);
            else s.require(k.current >= 0 && active == cur, "controls", "epoch %d (%s): control %d of well %s is active instead of %d", e, when, k.current, nm, cur);
            if (x.ctl && x.inj) { dvec f(np, 0.0); f[x.itype == "GAS" ? 2 : 0] = 1; s.require(dvec(w->comp_frac + np * i, w->comp_frac + np * (i + 1)) == f, "injected", "epoch %d (%s): well %s injects another fluid than %s", e, when, nm, x.itype.c_str()); }
            // place in the tree
            const Opm::WellsGroupInterface* n = wm.wellCollection().findNode(x.name); s.require(n != nullptr, "tree", "epoch %d (%s): well %s is not in the tree", e, when, nm);
            const Opm::WellsGroupInterface* p = n->getParent(); s.require(p && const_cast<Opm::WellsGroupInterface*>(p)->name() == x.group, "tree", "epoch %d (%s): well %s is in another group than %s", e, when, nm, x.group.c_str());
            if (x.ctl && x.guide >= 0) { const double gr = x.inj ? n->injSpec().guide_rate_ : n->prodSpec().guide_rate_; s.require(gr == x.guide, "guide", "epoch %d (%s): the guide rate of well %s is %.12g instead of %.12g", e, when, nm, gr, x.guide); }
        }
        for (auto& q : m.groups) {
            bool in = !q.parent.empty(); for (auto& x : m.wells) in |= x.group == q.name; for (auto& y : m.groups) in |= y.parent == q.name; if (!in) continue;
            const Opm::WellsGroupInterface* n = wm.wellCollection().findNode(q.name); const char* nm = q.name.c_str(); s.require(n != nullptr, "tree", "epoch %d (%s): group %s is not in the tree", e, when, nm);
            const Opm::WellsGroupInterface* p = n->getParent(); s.require(q.parent.empty() ? p == nullptr : p && const_cast<Opm::WellsGroupInterface*>(p)->name() == q.parent, "tree", "epoch %d (%s): group %s is not in group '%s'", e, when, nm, q.parent.c_str());
            auto lim = [&](double have, double want, double unit, const char* what) { s.require(want < 0 ? have < 0 : eq(have, want * unit), "group-limit", "epoch %d (%s): the %s limit of group %s is %.12g instead of %.12g", e, when, what, nm, have, want < 0 ? -1.0 : want * unit); };
            if (q.prod) { const auto& x = n->prodSpec(); lim(x.oil_max_rate_, q.plim[0], g.u.lrat, "oil"); lim(x.water_max_rate_, q.plim[1], g.u.lrat, "water"); lim(x.gas_max_rate_, q.plim[2], g.u.grat, "gas"); lim(x.liquid_max_rate_, q.plim[3], g.u.lrat, "liquid"); lim(x.reservoir_flow_max_rate_, q.plim[4], g.u.resv, "reservoir volume");
                const int pr = x.procedure_; s.require(pr == (q.proc == "RATE" ? Opm::ProductionSpecification::RATE : q.proc == "WELL" ? Opm::ProductionSpecification::WELL : Opm::ProductionSpecification::NONE_P), "group-limit", "epoch %d (%s): group %s has procedure %d instead of %s", e, when, nm, pr, q.proc.c_str());
                s.require(x.control_mode_ == (q.pmode == "FLD" ? Opm::ProductionSpecification::FLD : Opm::ProductionSpecification::NONE), "group-limit", "epoch %d (%s): production control of group %s is %d instead of %s", e, when, nm, int(x.control_mode_), q.pmode.c_str()); }
            if (q.inj) { const auto& x = n->injSpec(); lim(x.surface_flow_max_rate_, q.irate, q.itype == "GAS" ? g.u.grat : g.u.lrat, "injection"); lim(x.reservoir_flow_max_rate_, q.iresv, g.u.resv, "reservoir injection"); lim(x.reinjection_fraction_target_, q.rein, 1, "reinjection"); lim(x.voidage_replacment_fraction_, q.vrep, 1, "voidage"); }
        }
    }
    // step lengths, and the timer of the epoch as the drivers set it up
    void times(const Opm::EclipseGridParser& deck, int* from) const {
        const std::vector<long double>& st = g.steps[e]; const int N = int(st.size());
        s.require(deck.hasField("TSTEP") == (N > 0), "steps", "epoch %d (%s): steps are %s", e, when, N ? "missing" : "present, none is written"); if (!N) return;
        Opm::SimulatorTimer t; t.init(deck);
        s.require(t.numSteps() == N, "steps", "epoch %d (%s): %d steps up to its end instead of %d", e, when, t.numSteps(), N);
        long double sum = 0, at = 0; for (auto x : st) sum += x;
        t.setCurrentStepNum(*from);
        for (int i = 0; i < *from; ++i) at += st[i];
        for (int i = *from; i < N; ++i) {
            s.require(!t.done() && std::fabs(double(t.currentStepLength() - st[i] * 86400.0L)) <= 1e-9 * double(sum) * 86400, "steps", "epoch %d (%s): step %d takes %.12g days instead of %.12g", e, when, i, t.done() ? -1.0 : t.currentStepLength() / 86400, double(st[i]));
            s.require(std::fabs(double(t.currentTime() - at * 86400.0L)) <= 1e-9 * double(sum) * 86400, "steps", "epoch %d (%s): step %d begins after %.12g days instead of %.12g", e, when, i, t.currentTime() / 86400, double(at));
            at += st[i]; ++t;
        }
        s.require(t.done(), "steps", "epoch %d (%s): the timer goes on after its last step", e, when);
        s.require(t.currentDateTime().date() == g.start + boost::gregorian::days(long(std::floor(double(at) + 1e-9))) || std::fabs(double(at) - std::round(double(at))) < 1e-6, "dates", "epoch %d (%s): ends at the date %s", e, when, boost::gregorian::to_iso_extended_string(t.currentDateTime().date()).c_str());
        *from = N;
    }
};

Call parse(Sim& s, Opm::EclipseGridParser& p, const std::string& text, long fail) { std::istringstream is(text); CoutCapture quiet; return libcall(s, fail, [&] { p.read(is); }); }

void run(Sim& s) {
    Gen g(s); g.n[0] = s.range(2, 4); g.n[1] = s.range(1, 4); g.n[2] = s.range(1, 4);
    const bool spoilt = s.faults_enabled && s.chance(1, 6); const std::string text = g.deck(spoilt);
    if (getenv("DST_DECK")) fputs(text.c_str(), stderr);
    GridPtr grid(create_grid_hexa3d(g.n[0], g.n[1], g.n[2], 10, 20, 2)); const int nc = grid->number_of_cells;
    dvec perm(9 * size_t(nc), 0.0); for (int c = 0; c < nc; ++c) for (int d = 0; d < 3; ++d) perm[9 * c + 4 * d] = 1e-13 * (1 + c % 3);
    const int ne = int(g.epochs.size()); s.event("deck of %zu characters, %d epochs, %zu wells, %zu steps", text.size(), ne, g.cur.wells.size(), g.all.size());
    if (ne > 1) s.nontrivial();
    mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000);
    Opm::EclipseGridParser deck;
    // the parser may have been used before, or fail first
    if (s.chance(1, 4)) { Gen o(s); for (int d = 0; d < 3; ++d) o.n[d] = g.n[d]; std::string t = o.deck(); if (s.chance(1, 2)) t.resize(s.choose(t.size() + 1)); Call c = parse(s, deck, t, -1); s.cover(c.threw ? "parser-failed-before" : "parser-used-before"); }
    // a deck is read as a whole or refused
    bool read = false;
    while (!read && memFault(s)) { Call c = parse(s, deck, text, position(s) * long(1 + s.choose(8))); if (c.failed && !c.threw) s.cover("allocation-failure-survived"); read = !c.threw; s.require(c.failed || read, "refused", "a deck that is right is refused: %s", c.what.c_str()); }
    if (!read) { Call c = parse(s, deck, text, -1); s.require(!c.threw, "refused", "a deck that is right is refused: %s", c.what.c_str()); }
    s.require(deck.numberOfEpochs() == ne, "epochs", "the deck has %d epochs instead of %d", deck.numberOfEpochs(), ne);
    if (!g.all.empty()) s.require(deck.getStartDate() == g.start, "dates", "the start date is %s instead of %s", boost::gregorian::to_iso_extended_string(deck.getStartDate()).c_str(), boost::gregorian::to_iso_extended_string(g.start).c_str());
    auto visit = [&](int e, const char* when, int* from) {
        s.step(); deck.setCurrentEpoch(e); const Model& m = g.epochs[e]; Cmp c{s, g, *grid, perm, e, when}; c.times(deck, from);
        if (!m.wells.empty() && !m.wcon) { s.cover("no-controls-yet"); return; }
        std::unique_ptr<Opm::WellsManager> wm; CoutCapture quiet;
        while (memFault(s)) { const Call k = libcall(s, position(s) * long(1 + s.choose(8)), [&] { wm.reset(new Opm::WellsManager(deck, *grid, perm.data())); }); if (!k.failed) break; if (!k.threw) break; }
        if (g.bad >= 0 && e >= g.bad) {       // from there on the library must refuse; later lines may have mended it
            if (!wm) { const Call k = libcall(s, -1, [&] { wm.reset(new Opm::WellsManager(deck, *grid, perm.data())); }); s.event("%s: %s", g.badWhat, k.threw ? "refused" : "accepted"); }
            s.require(!wm || e > g.bad, "accepted", "epoch %d (%s): %s is accepted", e, when, g.badWhat); return;
        }
        if (!wm) { const Call k = libcall(s, -1, [&] { wm.reset(new Opm::WellsManager(deck, *grid, perm.data())); }); s.require(!k.threw, "refused", "epoch %d (%s): the wells are refused", e, when); }
        c.wells(*wm);
        uint64_t h = uint64_t(ne); for (auto& x : m.wells) h = mix64(h, uint64_t(x.shut) + 2 * x.inj + 4 * x.perf.size() + 64 * uint64_t(x.bhp)); s.state(h);
    };
    if (s.chance(1, 2)) { int from = 0; for (int e = 0; e < ne; ++e) visit(e, "in order", &from); s.require(from == int(g.all.size()), "steps", "%d steps were made in all epochs instead of %zu", from, g.all.size()); }
    const int k = s.range(1, 2 * ne); for (int i = 0; i < k; ++i) { const int e = int(s.choose(ne)); int from = int(s.choose(g.steps[e].size() + 1)); s.event("epoch %d", e); visit(e, i ? "again" : "first", &from); }
    s.simTime(double(g.now) * 86400);
}
Register reg("S14", run, "EclipseGridParser with the keywords of schedules, WellsManager, WellCollection, wells.c, SimulatorTimer", "deck text from memory; allocator");
}
