// S09: readers over a disk that delivers fragments, errors, truncated and damaged files.
#include "props/simrun.hpp"
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/io/eclipse/EclipseGridParser.hpp>
#include <opm/core/io/vag/vag.hpp>
#include <opm/core/utility/MonotCubicInterpolator.hpp>
#include <algorithm>
#include <fstream>

namespace {
// What a reader delivers, as named values.
typedef std::map<std::string, std::string> Contents;

// One file of the input; a text that ends in one of the ranges of cut positions is incomplete.
struct File { std::string name, text; std::vector<std::pair<size_t, size_t>> inside, tokens; };   // tokens: positions and lengths of words that cannot be left out
struct Doc { int kind = 0; std::vector<File> files; Contents want; int xcol = 1, fcol = 2; bool si = true; };
enum { Deck, GridFile, Param, Xml, Table, Vag, NumKinds };
const char* kindName[] = {"deck", "grid file", "parameter file", "XML parameter file", "table", "VAG file"};

std::string num(double x) { char b[40]; snprintf(b, sizeof b, "%.17g", x); return b; }
template <class T> std::string join(const std::vector<T>& v) { std::string r; for (auto& x : v) r += num(double(x)) + " "; return r; }

// ------------------------------------------------------------------ decks
struct DeckGen {
    Sim& s; Doc& d; std::string text; std::vector<std::pair<size_t, size_t>> inside, tokens; size_t start = 0;
    std::set<std::string> used;
    int n; int ninc = 0;
    DeckGen(Sim& s_, Doc& d_) : s(s_), d(d_) { n = s.range(1, 30); }
    const char* nl() { return s.chance(1, 8) ? "\n-- note / with 'marks' 5*\n" : "\n"; }
    std::string real() { char b[40]; const int k = int(s.choose(5)); snprintf(b, sizeof b, k == 0 ? "%.0f" : k == 1 ? "%.3f" : k == 2 ? "%.6g" : k == 3 ? "%.4e" : "%.12g", s.real(1, 1000) * (k == 3 ? 1e-7 : 1)); return b; }
    std::string sp() { return s.chance(1, 6) ? (s.chance(1, 2) ? "\n" : "\t  ") : " "; }
    bool open(const std::string& kw, bool many = false) {
        if (!used.insert(kw).second && !many) return false;
        text += kw; if (s.chance(1, 8)) text += "   "; text += nl(); start = text.size(); return true;
    }
    // data from start to here are inside the keyword, up to and including the slash that comes last
    void close() { const size_t q = text.rfind('/'); inside.push_back({start, q}); }
    void plain(const std::string& t) { text += t + "\n"; }
    void array(const std::string& kw, bool integer) {
        if (!open(kw)) return;
        std::vector<double> v; const int m = s.range(1, s.chance(1, 6) ? 400 : n);
        while (int(v.size()) < m) {
            std::string t = integer ? std::to_string(s.range(0, 9)) : real(); double x = strtod(t.c_str(), 0);
            if (s.chance(1, 4)) { const int r = s.range(1, 9); text += std::to_string(r) + "*"; v.insert(v.end(), size_t(r), x); } else v.push_back(x);
            text += t + sp();
            if (s.chance(1, 30)) text += "\n-- comment\n";
        }
        text += s.chance(1, 2) ? "/\n" : "\n/\n"; close();
        d.want[kw] = join(v);
    }
    void record(const std::vector<std::string>& items, bool slash = true) { for (auto& i : items) text += i + sp(); if (slash) text += s.chance(1, 6) ? "/ rest\n" : "/\n"; }
    // The contents of a keyword that is given once, before the first time keyword.
    bool timed = false; std::string cur, want;
    void begin(const std::string& kw) { cur = kw; want.clear(); }
    void keep() {
        if (timed) return;
        if (cur == "WCONINJE" || cur == "WCONPROD") d.want.erase("WELOPEN!");   // the later keyword decides
        const std::string k = cur + "!";
        if (!given.insert(k).second) d.want.erase(k); else d.want[k] = want;
    }
    std::set<std::string> given;
    void w(double x) { want += num(x) + " "; }
    void w(const std::string& x) { want += x + " "; }
    void word(const std::string& x) { text += q(x) + sp(); w(x); }
    // Numbers with defaults ("3*"), repeats and an early end of the record. True if all are given.
    bool numbers(std::vector<double> def, size_t least, bool integer = false, bool mayend = true, const std::set<size_t>& ints = {}) {
        const size_t n = def.size(); size_t i = 0;
        while (i < n) {
            if (mayend && i >= least && s.chance(1, 10)) break;
            if (i >= least && s.chance(1, 6)) { const size_t k = 1 + size_t(s.choose(n - i)); text += std::to_string(k) + "*" + sp(); i += k; continue; }
            const std::string v = integer || ints.count(i) || ints.count(i + 1) ? std::to_string(s.range(1, 30)) : real(); const double x = strtod(v.c_str(), 0);
            size_t k = 1; if (i + 1 < n && s.chance(1, 12)) { k = 2; text += "2*"; }
            text += v + sp(); while (k--) def[i++] = x;
        }
        for (double x : def) w(x);
        return i >= n;
    }
    void slash() { text += s.chance(1, 6) ? "/ rest\n" : "/\n"; want += ";"; }
    std::vector<std::string> reals(int k) { std::vector<std::string> v; while (k--) v.push_back(real()); return v; }
    void simple(const std::string& kw, int k) { if (!open(kw)) return; begin(kw); for (auto& x : reals(k)) { text += x + sp(); w(strtod(x.c_str(), 0)); } slash(); close(); keep(); }
    void regions(const std::string& kw, int k) {   // one record per region, the number of which is not known
        if (!open(kw)) return;
        begin(kw);
        for (int r = s.range(1, 3); r > 0; --r) {
            auto v = reals(k); for (auto& x : v) { text += x + sp(); w(strtod(x.c_str(), 0)); } if ((kw == "PVTW" || kw == "PVCDO") && k == 4) w(0.0);
            slash(); close(); if (r > 1 && s.chance(1, 4)) text += "-- next\n"; start = text.size() + 1;    // complete until a further record begins
        }
        keep();
    }
    void pvd(const std::string& kw, int cols) {
        if (!open(kw)) return;
        begin(kw);
        for (int r = s.range(1, 2); r > 0; --r) {
            const int rows = s.range(2, 5); std::vector<std::vector<double>> c(static_cast<size_t>(cols));
            for (int i = 0; i < rows; ++i) {
                text += std::to_string(10 * i + 1) + " "; c[0].push_back(10 * i + 1);
                for (int k = 1; k < cols; ++k) { const std::string v = real(); tokens.push_back({text.size(), v.size()}); text += v + " "; c[size_t(k)].push_back(strtod(v.c_str(), 0)); }
                if (i + 1 < rows) text += nl();
            }
            for (auto& v : c) want += join(v) + "; ";
            want += "| "; text += "/\n"; close(); start = text.size() + 1;
        }
        d.want[kw] = want;
    }
    void relperm(const std::string& kw) {
        if (!open(kw)) return;
        begin(kw);
        const int rows = s.range(2, 5); std::vector<std::vector<double>> c(4); std::vector<char> hole(static_cast<size_t>(rows), 0);
        for (int i = 0; i < rows; ++i) {
            char b[80]; const double x = double(i) / (rows - 1); snprintf(b, sizeof b, "%.3f %.3f ", x, x); text += b; double u; sscanf(b, "%lf", &u); c[0].push_back(u); c[1].push_back(u);
            if (i && i + 1 < rows && s.chance(1, 3)) { text += "1* "; c[2].push_back(0); hole[size_t(i)] = 1; } else { text += num(1 - x) + " "; c[2].push_back(1 - x); }
            const std::string v = real(); tokens.push_back({text.size(), v.size()}); text += v; c[3].push_back(strtod(v.c_str(), 0)); text += i + 1 < rows ? nl() : " ";
        }
        text += "/\n"; close();
        bool any = false; for (char h : hole) any = any || h;
        if (!any) { for (auto& v : c) want += join(v) + "; "; want += "| "; d.want[kw] = want; }
    }
    void pvt(const std::string& kw) {              // tables of records: a table ends with an empty record
        if (!open(kw)) return;
        begin(kw);
        for (int t = s.range(1, 2); t > 0; --t) {
            const size_t s0 = start;
            for (int r = s.range(2, 3); r > 0; --r) {
                text += std::to_string(10 * (4 - r)) + " "; w(10 * (4 - r));
                for (int q = s.range(1, 3); q > 0; --q) { for (int i = 0; i < 3; ++i) { const std::string v = real(); text += v + " "; w(strtod(v.c_str(), 0)); } if (q > 1) text += "\n"; }
                text += "/\n"; want += "; ";
            }
            text += "/\n"; want += "| "; inside.push_back({s0, text.size() - 2}); start = text.size() + 1;
        }
        d.want[kw] = want;
    }
    void vd(const std::string& kw, int cols) {
        if (!open(kw)) return;
        for (int r = s.range(2, 4); r > 0; --r) {
            std::vector<std::string> v; v.push_back(std::to_string(3000 - 100 * r)); 
            for (int c = 1; c < cols; ++c) { const bool dead = cols == 9 ? (c == 4 || c == 5 || c == 6 || c == 8) : (c == 2 || c == 5 || c == 6); v.push_back(dead ? "-1" : "0." + std::to_string(s.range(1, 9))); }
            for (auto& i : v) text += i + " "; text += "\n";
        }
        text += "/\n/\n"; close();
    }
    std::string q(const std::string& x) { return s.chance(1, 2) ? "'" + x + "'" : x; }
    std::string well() { return q("W" + std::to_string(s.range(1, 4))); }
    std::string group() { return q("G" + std::to_string(s.range(1, 3))); }
    void list(const std::string& kw, const std::function<void()>& line) {
        open(kw, true); begin(kw);
        for (int i = s.range(1, 3); i > 0; --i) { if (s.chance(1, 8)) text += "-- " + kw + " line\n"; line(); }
        text += s.chance(1, 6) ? "/ end\n" : "/\n"; close(); keep();
    }
    std::string wname() { const std::string n = std::to_string(s.range(1, 4)); if (s.chance(1, 8)) { text += "'W " + n + "' "; w("W " + n); } else word("W" + n); return n; }
    void gname() { word("G" + std::to_string(s.range(1, 3))); }
    void choice(const char* a, const char* b) { word(s.chance(1, 2) ? a : b); }
    void schedule() {
        switch (s.choose(11)) {
        case 0: list("WELSPECS", [&] {
            wname(); gname(); numbers({1, 1}, 0, true, false);
            if (s.chance(1, 5)) { text += "1* "; w(-1); } else { const std::string v = real(); text += v + sp(); w(strtod(v.c_str(), 0)); }
            choice("OIL", "WATER"); if (s.chance(1, 5)) text += "0.1 STD "; slash(); }); break;
        case 1: list("COMPDAT", [&] {
            wname(); std::vector<double> ijk = {0, 0, 0, 0}; for (auto& x : ijk) { x = s.range(1, 30); text += num(x) + " "; w(x); }
            if (s.chance(1, 6)) { w("OPEN"); w(-1); w(0); w(0); slash(); return; }
            choice("OPEN", "SHUT");
            if (numbers({-1, 0, 0}, 0, false, true, {0}) && s.chance(1, 4)) text += "1* 0.5 ";
            slash(); }); break;
        case 2: list("WCONINJE", [&] { wname(); choice("WATER", "GAS"); choice("OPEN", "SHUT"); choice("RATE", "BHP"); if (numbers({-1e20, -1e20, 6891, -1e20, 0, 0}, 0, false, true, {4}) && s.chance(1, 4)) text += "7 8 "; slash(); }); break;
        case 3: list("WCONPROD", [&] { wname(); choice("OPEN", "SHUT"); choice("ORAT", "BHP"); numbers({-1e20, -1e20, -1e20, -1e20, -1e20, 1, 0, 0, 0}, 0, false, true, {7}); slash(); }); break;
        case 4: list("WELOPEN", [&] { wname(); choice("OPEN", "SHUT"); if (s.chance(1, 4)) text += "1 2 3 "; slash(); }); break;
        case 5: list("WELTARG", [&] { wname(); choice("BHP", "ORAT"); const std::string v = real(); text += v + sp(); w(strtod(v.c_str(), 0)); slash(); }); break;
        case 6: { std::map<std::string, std::string> tree; list("GRUPTREE", [&] { want.clear(); gname(); const std::string g = want; want.clear(); word(s.chance(1, 2) ? "FIELD" : "PLAT"); tree[g] = want; slash(); want.clear(); for (auto& x : tree) want += x.first + ">" + x.second; }); break; }
        case 7: list("GCONINJE", [&] { gname(); choice("WATER", "GAS"); choice("RATE", "RESV"); numbers({-1e20, -1e20, 1, 1}, 0); slash(); }); break;
        case 8: list("GCONPROD", [&] { gname(); choice("ORAT", "NONE"); if (numbers({-1e20, -1e20, -1e20, -1e20}, 0, false, false) && text[text.size() - 2] != '*' && s.chance(1, 2)) choice("RATE", "NONE"); else w("NONE"); slash(); }); break;
        case 9: list("WGRUPCON", [&] { wname(); const bool y = s.chance(1, 2); text += y ? "YES " : "NO "; w(y); if (numbers({1e20}, 0) && text[text.size() - 2] != '*' && s.chance(1, 2)) choice("OIL", "LIQ"); else w(""); slash(); }); break;
        default: list("WPOLYMER", [&] {
            wname(); for (auto& x : reals(2)) { text += x + sp(); w(strtod(x.c_str(), 0)); }
            const int k = s.range(0, 2); if (k) word("P"); else w(""); if (k > 1) word("S"); else w(""); slash(); });
        }
    }
    int year = 2001;
    void time() {
        if (s.chance(1, 2)) { open("TSTEP", true); std::vector<double> v; for (int i = s.range(1, 4); i > 0; --i) { const int k = s.chance(1, 3) ? s.range(2, 4) : 1, x = s.range(1, 30); text += (k > 1 ? std::to_string(k) + "*" : "") + std::to_string(x) + " "; v.insert(v.end(), size_t(k), x); } if (!timed) d.want["TSTEP!"] = join(v); else d.want.erase("TSTEP!"); timed = true; text += "/\n"; close(); }
        else { static const char* mon[] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"}; open("DATES", true); timed = true; d.want.erase("TSTEP!"); for (int i = s.range(1, 2); i > 0; --i) { text += std::to_string(s.range(1, 28)) + " " + q(mon[s.choose(12)]) + " " + std::to_string(year++) + " /\n"; } text += "/\n"; close(); }
    }
    void keyword() {
        static const char* ints[] = {"ACTNUM", "SATNUM", "EQLNUM", "REGNUM", "ROCKTYPE", "DIMENS", "REGDIMS", "TABDIMS", "FIPNUM"};
        static const char* dbls[] = {"COORD", "ZCORN", "PERMX", "PERMY", "PERMZ", "PERMXY", "PORO", "MULTPV", "PRESSURE", "SGAS", "SWAT", "DXV", "DYV", "DZV", "DEPTHZ", "TOPS", "SWL", "SWCR"};
        switch (s.choose(24)) {
        case 0: case 1: array(ints[s.choose(9)], true); break;
        case 2: case 3: case 4: array(dbls[s.choose(18)], false); break;
        case 5: regions("PVTW", s.chance(1, 2) ? 5 : 4); break;
        case 6: regions("DENSITY", 3); break;
        case 7: regions("ROCK", 2); break;
        case 8: pvd("PVDO", 3); break;
        case 9: pvd("PVDG", 3); break;
        case 10: pvd("ROCKTAB", 3); break;
        case 11: relperm("SWOF"); break;
        case 12: relperm("SGOF"); break;
        case 13: pvt(s.chance(1, 2) ? "PVTO" : "PVTG"); break;
        case 14: if (open("SPECGRID")) { begin("SPECGRID"); for (int i = 0; i < 4; ++i) { const int v = s.range(1, 30); text += std::to_string(v) + " "; w(v); } text += "F /\n"; close(); keep(); } break;
        case 15: if (open("TITLE")) { const std::string l = "A title " + real() + "/2 of 'it'"; text += l + "\n"; d.want["TITLE"] = "TITLE\n" + l + "\n"; } break;
        case 16: if (open("START")) { const int day = s.range(1, 28); text += std::to_string(day) + " 'JUL' 2000 /\n"; close(); d.want["START"] = "START\n2000-Jul-" + std::string(day < 10 ? "0" : "") + std::to_string(day) + "\n"; } break;
        case 17: if (open("EQUIL")) { begin("EQUIL"); if (numbers({0, 0, 0, 0, 0, 0, 0, 0, 0}, 0, false, true, {6, 7, 8}) && s.chance(1, 4)) text += "1 0 "; slash(); close(); keep(); } break;
        case 18: switch (s.choose(5)) { case 0: simple("PLYVISC", 6); break; case 1: simple("PLYROCK", 5); break; case 2: simple("PLYADS", 4); break; case 3: simple("PLYMAX", 2); break; default: simple("TLMIXPAR", 2); } break;
        case 19: regions("PVCDO", s.chance(1, 2) ? 5 : 4); break;
        case 20: if (s.chance(1, 2)) vd("ENPTVD", 9); else vd("ENKRVD", 8); break;
        case 21: if (s.chance(1, 2)) list("FAULTS", [&] { const std::string f = "F" + std::to_string(s.range(1, 3)), x = q("X"); text += f + sp(); w(f); numbers({0, 0, 0, 0, 0, 0}, 6, true); text += x + sp(); w(x); slash(); }); else list("MULTFLT", [&] { text += "F1 "; w("F1"); numbers({1, 1}, 0); slash(); }); break;
        case 22: plain("RPTRST\n 'BASIC=2' /"); break;
        default: if (s.chance(1, 2)) { if (open("ENDSCALE")) { text += "'NODIR' 'REVERS' 1 20 /\n"; close(); inside.back().second -= 2; } } else if (open("SCALECRS")) { text += "YES /\n"; close(); inside.back().second -= 2; }
        }
    }
    void run() {
        if (s.chance(1, 4)) plain("FIELD"); else if (s.chance(1, 2)) plain("METRIC");
        std::vector<File> inc;
        for (int k = s.range(1, 8); k > 0; --k) {
            if (s.chance(1, 6)) {                  // a part of the deck in a file of its own
                std::string outer; outer.swap(text); auto oi = inside, ot = tokens; inside.clear(); tokens.clear();
                for (int j = s.range(1, 3); j > 0; --j) keyword();
                File f; f.name = "part" + std::to_string(ninc++) + ".inc"; f.text = text; f.inside = inside; f.tokens = tokens;
                text.swap(outer); inside = oi; tokens = ot; inc.push_back(f);
                text += "INCLUDE\n" + std::string(s.chance(1, 2) ? "'" + f.name + "'" : f.name) + " /\n";
            } else keyword();
        }
        if (s.chance(1, 2)) for (int k = s.range(1, 6); k > 0; --k) { if (s.chance(1, 3)) time(); else schedule(); }
        if (s.chance(1, 4)) plain("END");
        if (s.chance(1, 6)) { while (isspace((unsigned char)text.back())) text.pop_back(); s.cover("no-final-newline"); }
        File m; m.name = "deck.data"; m.text = text; m.inside = inside; m.tokens = tokens;
        d.files.push_back(m); for (auto& f : inc) d.files.push_back(f);
    }
};
struct Dump {
    Contents& c; std::ostringstream o;
    Dump(Contents& c_) : c(c_) { o.precision(17); }
    template <class T> void put(const std::string& k, const T& f) { o.str(""); f.write(o); c[k] = o.str(); }
};
void table(std::ostringstream& o, const std::vector<std::vector<std::vector<double>>>& t) { for (auto& a : t) { for (auto& b : a) { for (double x : b) o << x << " "; o << "; "; } o << "| "; } }
// Records field by field.
struct Fields {
    std::string t;
    Fields& operator()(double x) { t += num(x) + " "; return *this; }
    Fields& operator()(const std::string& x) { t += x + " "; return *this; }
    Fields& operator()(const std::vector<double>& v) { for (double x : v) (*this)(x); return *this; }
    Fields& operator()(const std::vector<int>& v) { for (int x : v) (*this)(x); return *this; }
    void end() { t += ";"; }
};
void dumpFields(Opm::EclipseGridParser& p, const std::string& k, Contents& c) {
    Fields f;
    if (k == "WELSPECS") for (auto& x : p.getWELSPECS().welspecs) f(x.name_)(x.group_)(x.I_)(x.J_)(x.datum_depth_BHP_)(x.pref_phase_).end();
    else if (k == "COMPDAT") for (auto& x : p.getCOMPDAT().compdat) f(x.well_)(x.grid_ind_)(x.open_shut_flag_)(x.sat_table_number_)(x.connect_trans_fac_)(x.diameter_).end();
    else if (k == "WCONINJE") for (auto& x : p.getWCONINJE().wconinje) f(x.well_)(x.injector_type_)(x.open_shut_flag_)(x.control_mode_)(x.surface_flow_max_rate_)(x.reservoir_flow_max_rate_)(x.BHP_limit_)(x.THP_limit_)(x.VFP_table_number_)(x.concentration_).end();
    else if (k == "WCONPROD") for (auto& x : p.getWCONPROD().wconprod) f(x.well_)(x.open_shut_flag_)(x.control_mode_)(x.oil_max_rate_)(x.water_max_rate_)(x.gas_max_rate_)(x.liquid_max_rate_)(x.reservoir_flow_max_rate_)(x.BHP_limit_)(x.THP_limit_)(x.VFP_table_number_)(x.artif_lift_quantity_).end();
    else if (k == "WELOPEN") for (auto& x : p.getWELOPEN().welopen) f(x.well_)(x.openshutflag_).end();
    else if (k == "WELTARG") for (auto& x : p.getWELTARG().weltarg) f(x.well_)(x.control_change_)(x.new_value_).end();
    else if (k == "GCONINJE") for (auto& x : p.getGCONINJE().gconinje) f(x.group_)(x.injector_type_)(x.control_mode_)(x.surface_flow_max_rate_)(x.resv_flow_max_rate_)(x.reinjection_fraction_target_)(x.voidage_replacement_fraction_).end();
    else if (k == "GCONPROD") for (auto& x : p.getGCONPROD().gconprod) f(x.group_)(x.control_mode_)(x.oil_max_rate_)(x.water_max_rate_)(x.gas_max_rate_)(x.liquid_max_rate_)(x.procedure_).end();
    else if (k == "WGRUPCON") for (auto& x : p.getWGRUPCON().wgrupcon) f(x.well_)(x.available_for_group_control_)(x.guide_rate_)(x.phase_).end();
    else if (k == "WPOLYMER") for (auto& x : p.getWPOLYMER().wpolymer_) f(x.well_)(x.polymer_concentration_)(x.salt_concentration_)(x.polymer_group_)(x.salt_group_).end();
    else if (k == "FAULTS") for (auto& x : p.getFAULTS().faults) f(x.fault_name)(x.ijk_coord)(x.face).end();
    else if (k == "MULTFLT") for (auto& x : p.getMULTFLT().multflts) f(x.fault_name)(x.transmis_multiplier)(x.diffusivity_multiplier).end();
    else if (k == "SPECGRID") f(p.getSPECGRID().dimensions)(p.getSPECGRID().numres);
    else if (k == "DENSITY") for (auto& x : p.getDENSITY().densities_) f(x).end();
    else if (k == "PVTW") for (auto& x : p.getPVTW().pvtw_) f(x).end();
    else if (k == "PVCDO") for (auto& x : p.getPVCDO().pvcdo_) f(x).end();
    else if (k == "ROCK") for (auto& x : p.getROCK().rock_compressibilities_) f(x).end();
    else if (k == "EQUIL") for (auto& x : p.getEQUIL().equil) f(x.datum_depth_)(x.datum_depth_pressure_)(x.water_oil_contact_depth_)(x.oil_water_cap_pressure_)(x.gas_oil_contact_depth_)(x.gas_oil_cap_pressure_)(x.live_oil_table_index_)(x.wet_gas_table_index_)(x.N_).end();
    else if (k == "PLYVISC") { auto& x = p.getPLYVISC(); for (size_t i = 0; i < x.concentration_.size(); ++i) f(x.concentration_[i])(x.factor_[i]); f.end(); }
    else if (k == "PLYADS") { auto& x = p.getPLYADS(); for (size_t i = 0; i < x.local_concentration_.size(); ++i) f(x.local_concentration_[i])(x.adsorbed_concentration_[i]); f.end(); }
    else if (k == "PLYROCK") f(p.getPLYROCK().plyrock_).end();
    else if (k == "PLYMAX") f(p.getPLYMAX().plymax_).end();
    else if (k == "TLMIXPAR") f(p.getTLMIXPAR().tlmixpar_).end();
    else if (k == "GRUPTREE") for (auto& x : p.getGRUPTREE().tree) f(x.first + " >" + x.second);
    else if (k == "TSTEP") f(p.getTSTEP().tstep_);
    else return;
    c[k + "!"] = f.t;
}
void dumpDeck(Opm::EclipseGridParser& p, Contents& c) {
    Dump d(c);
    const int ne = p.numberOfEpochs();
    for (int e = 0; e < ne; ++e) {
        p.setCurrentEpoch(e);
        for (auto& k : p.fieldNames()) {
            const Opm::FieldType t = Opm::EclipseGridParser::classifyKeyword(k);
            if (t == Opm::Integer) { c[k] = join(p.getIntegerValue(k)); continue; }
            if (t == Opm::FloatingPoint) { c[k] = join(p.getFloatingPointValue(k)); continue; }
            if (!e) dumpFields(p, k, c);
            const std::string n = e ? k + "#" + std::to_string(e) : k;
            if (t != Opm::SpecialField && t != Opm::Timestepping) { c[n] = "yes"; continue; }
#define W(K) else if (k == #K) d.put(n, p.get##K());
            if (k == "ENDSCALE") { auto& x = p.getENDSCALE(); c[n] = x.dir_switch_ + " " + x.revers_switch_ + " " + num(x.n_tab_) + " " + num(x.n_node_); }
            else if (k == "SCALECRS") c[n] = p.getSCALECRS().scalecrs_;
            else if (k == "ENPTVD") { d.o.str(""); table(d.o, p.getENPTVD().table_); c[n] = d.o.str(); }
            else if (k == "ENKRVD") { d.o.str(""); table(d.o, p.getENKRVD().table_); c[n] = d.o.str(); }
            else if (k == "PVDG") { d.o.str(""); table(d.o, p.getPVDG().pvdg_); c[n] = d.o.str(); }
            else if (k == "PVDO") { d.o.str(""); table(d.o, p.getPVDO().pvdo_); c[n] = d.o.str(); }
            else if (k == "PVTG") { d.o.str(""); table(d.o, p.getPVTG().pvtg_); c[n] = d.o.str(); }
            else if (k == "PVTO") { d.o.str(""); table(d.o, p.getPVTO().pvto_); c[n] = d.o.str(); }
            else if (k == "SGOF") { d.o.str(""); table(d.o, p.getSGOF().sgof_); c[n] = d.o.str(); }
            else if (k == "SWOF") { d.o.str(""); table(d.o, p.getSWOF().swof_); c[n] = d.o.str(); }
            else if (k == "ROCKTAB") { d.o.str(""); table(d.o, p.getROCKTAB().rocktab_); c[n] = d.o.str(); }
            else if (k == "GRUPTREE") { std::string r; for (auto& x : p.getGRUPTREE().tree) r += x.first + ">" + x.second + " "; c[n] = r; }
            W(SPECGRID) W(FAULTS) W(MULTFLT) W(TITLE) W(START) W(DENSITY) W(PVTW) W(ROCK) W(WELSPECS) W(COMPDAT)
            W(WCONINJE) W(WCONPROD) W(WELTARG) W(WELOPEN) W(EQUIL) W(PVCDO) W(TSTEP) W(PLYVISC) W(PLYROCK) W(PLYADS)
            W(PLYMAX) W(TLMIXPAR) W(WPOLYMER) W(GCONINJE) W(GCONPROD) W(WGRUPCON)
            else c[n] = "read";
#undef W
        }
    }
    c["epochs"] = std::to_string(ne);
}

// ------------------------------------------------------------------ grid files
template <class T> void out(std::string& t, const T* p, size_t n) { for (size_t i = 0; i < n; ++i) t += num(double(p[i])) + (i % 7 == 6 ? "\n" : " "); t += "\n"; }
template <class T> std::string arr(const T* p, size_t n) { std::string t; if (!p) return "none"; out(t, p, n); return t; }
void dumpGrid(const UnstructuredGrid& g, Contents& c) {
    const size_t nd = size_t(g.dimensions), nc = size_t(g.number_of_cells), nf = size_t(g.number_of_faces), nn = size_t(g.number_of_nodes);
    c["size"] = num(double(nd)) + " " + num(double(nc)) + " " + num(double(nf)) + " " + num(double(nn));
    c["cartdims"] = arr(g.cartdims, nd);
    c["nodes"] = arr(g.node_coordinates, nd * nn);
    c["face_nodepos"] = arr(g.face_nodepos, nf + 1); c["face_nodes"] = arr(g.face_nodes, size_t(g.face_nodepos[nf]));
    c["face_cells"] = arr(g.face_cells, 2 * nf); c["face_areas"] = arr(g.face_areas, nf); c["face_centroids"] = arr(g.face_centroids, nd * nf); c["face_normals"] = arr(g.face_normals, nd * nf);
    c["cell_facepos"] = arr(g.cell_facepos, nc + 1); c["cell_faces"] = arr(g.cell_faces, size_t(g.cell_facepos[nc])); c["cell_facetag"] = arr(g.cell_facetag, size_t(g.cell_facepos[nc]));
    c["global_cell"] = arr(g.global_cell, nc); c["cell_volumes"] = arr(g.cell_volumes, nc); c["cell_centroids"] = arr(g.cell_centroids, nd * nc);
}
GridPtr someGrid(Sim& s) {
    WorldOpt o; o.maxcells = 8; o.wells = o.src = o.bcs = false; return makeGrid(drawWorld(s, o));
}
void gridFile(Sim& s, Doc& d) {
    GridPtr gp = someGrid(s); UnstructuredGrid& g = *gp;
    const size_t nd = size_t(g.dimensions), nc = size_t(g.number_of_cells), nf = size_t(g.number_of_faces), nn = size_t(g.number_of_nodes);
    const bool tag = g.cell_facetag && s.chance(1, 2); ivec map; const bool hasmap = s.chance(1, 2);
    const size_t nfn = size_t(g.face_nodepos[nf]), ncf = size_t(g.cell_facepos[nc]);
    std::string t; const size_t dims[] = {nd, nc, nf, nn, nfn, ncf}; for (size_t x : dims) t += std::to_string(x) + " "; t += "\n" + std::to_string(tag) + " " + std::to_string(hasmap) + "\n";
    if (hasmap) for (size_t i = 0; i < nc; ++i) map.push_back(int(s.choose(1000)));
    dumpGrid(g, d.want); if (!tag) d.want["cell_facetag"] = "none"; d.want["global_cell"] = hasmap ? arr(map.data(), nc) : "none";
    out(t, g.cartdims, nd); out(t, g.node_coordinates, nd * nn);
    out(t, g.face_nodepos, nf + 1); out(t, g.face_nodes, nfn); out(t, g.face_cells, 2 * nf); out(t, g.face_areas, nf); out(t, g.face_centroids, nd * nf); out(t, g.face_normals, nd * nf);
    out(t, g.cell_facepos, nc + 1);
    if (tag) for (size_t i = 0; i < ncf; ++i) t += std::to_string(g.cell_faces[i]) + " " + std::to_string(g.cell_facetag[i]) + "\n"; else out(t, g.cell_faces, ncf);
    if (hasmap) out(t, map.data(), nc);
    const size_t tail = t.size();                // a value left out before would be made up for where integers meet reals
    out(t, g.cell_volumes, nc); out(t, g.cell_centroids, nd * nc);
    while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
    size_t last = t.find_last_of(" \n") + 1;
    File f; f.name = "grid.txt"; f.inside.push_back({0, last}); f.inside.push_back({last > 150 ? last - 150 : 0, last});
    for (size_t i = tail; i < t.size();) { size_t e = t.find_first_of(" \n", i); if (e == std::string::npos) e = t.size(); if (e > i) f.tokens.push_back({i, e - i}); i = e + 1; }
    f.text = t + (s.chance(1, 4) ? "" : "\n"); d.files.push_back(f);
}

// ------------------------------------------------------------------ parameters
std::map<std::string, std::string> someParams(Sim& s, int n) {
    std::map<std::string, std::string> m;
    static const char* grp[] = {"", "", "a/", "a/b/", "solver/"};
    for (; n > 0; --n) { std::string v; switch (s.choose(4)) { case 0: v = std::to_string(s.range(0, 99999)); break; case 1: v = num(s.real(0, 1)); break; case 2: v = "true"; break; default: v = std::string("text") + std::string(s.choose(s.chance(1, 5) ? 300 : 9), 'x'); } m[std::string(grp[s.choose(5)]) + "key" + std::to_string(s.choose(500))] = v; }
    return m;
}
void paramFile(Sim& s, Doc& d) {
    auto m = someParams(s, s.chance(1, 6) ? s.range(100, 400) : s.range(1, 12));
    File f; f.name = "p.param";
    for (auto& x : m) {
        if (s.chance(1, 6)) f.text += "// a comment with a=b\n";
        if (s.chance(1, 12)) f.text += "\n";
        f.inside.push_back({f.text.size(), f.text.size() + x.first.size()});     // a name without value adds nothing
        f.text += x.first + "=" + x.second + (s.chance(1, 8) ? "// note" : "") + "\n"; d.want[x.first] = x.second;
    }
    d.files.push_back(f);
}
void xmlGroup(Sim& s, Doc& d, File& f, const std::string& path, int depth, bool root) {
    auto open = [&](const std::string& t) { f.text += std::string(size_t(2 * depth), ' ') + t + "\n"; };
    std::set<std::string> names;
    for (int i = s.range(root ? 1 : 0, 5); i > 0; --i) {
        const std::string nm = "n" + std::to_string(s.choose(30)); if (!names.insert(nm).second) continue;
        const int k = depth < 3 ? int(s.choose(6)) : 0;
        if (k < 4) { const std::string v = s.chance(1, 4) ? "a &lt; b &amp; c" : std::to_string(s.range(0, 9999)); open("<Parameter type=\"" + std::string(s.chance(1, 2) ? "string" : "int") + "\" name=\"" + nm + "\" value=\"" + v + "\"/>"); d.want[path + nm] = v[0] == 'a' ? "a < b & c" : v; }
        else if (k == 4 || d.files.size() > 3) { open("<ParameterGroup name=\"" + nm + "\">"); xmlGroup(s, d, f, path + nm + "/", depth + 1, false); open("</ParameterGroup>"); }
        else {
            File g; g.name = "sub" + std::to_string(d.files.size()) + ".xml"; g.text = "<ParameterGroup name=\"x\">\n"; d.files.push_back(File());
            const size_t slot = d.files.size() - 1;
            const bool merge = s.chance(1, 2); const std::string pre = "m" + std::to_string(slot);
            (void)pre;
            if (merge) { const std::string pn = "in" + std::to_string(slot); g.text += "<Parameter type=\"int\" name=\"" + pn + "\" value=\"7\"/>\n"; d.want[path + pn] = "7"; open("<MergeWithFile value=\"" + g.name + "\"/>"); }
            else { g.text += "<Parameter type=\"int\" name=\"inner\" value=\"8\"/>\n"; d.want[path + nm + "/inner"] = "8"; open("<ParameterGroupFromFile name=\"" + nm + "\" value=\"" + g.name + "\"/>"); }
            g.text += "</ParameterGroup>"; g.inside.push_back({0, g.text.size() - 1}); g.text += "\n"; d.files[slot] = g;
        }
        if (s.chance(1, 8)) open("<!-- a comment -->");
    }
}
void xmlFile(Sim& s, Doc& d) {
    File f; f.name = "p.xml"; d.files.push_back(f); f.text = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<ParameterGroup name=\"root\">\n";
    xmlGroup(s, d, f, "", 1, true);
    f.text += "</ParameterGroup>"; f.inside.push_back({0, f.text.size() - 1}); f.text += "\n"; d.files[0] = f;
}
void dumpParams(const Opm::parameter::ParameterGroup& p, Contents& c) {
    std::ostringstream o; p.writeParamToStream(o); std::istringstream i(o.str()); std::string l;
    while (std::getline(i, l)) { const size_t e = l.find('='); std::string k = l.substr(0, e); while (!k.empty() && k[0] == '/') k.erase(0, 1); if (k != "dummy" && (k.size() < 6 || k.compare(k.size() - 6, 6, "/dummy"))) c[k] = e == std::string::npos ? "?" : l.substr(e + 1); }
}

// ------------------------------------------------------------------ tables
void tableFile(Sim& s, Doc& d) {
    const int cols = s.range(2, 4); d.xcol = s.range(1, cols); do d.fcol = s.range(1, cols); while (d.fcol == d.xcol);
    File f; f.name = "table.txt"; const char sep = s.chance(1, 3) ? ',' : ' ';
    const int rows = s.chance(1, 6) ? s.range(100, 300) : s.range(1, 8);
    for (int r = 0; r < rows; ++r) {
        if (s.chance(1, 8)) f.text += "# a comment 1 2 3\n";
        const size_t a = f.text.size(); double x = 0, y = 0; size_t need = 0;
        for (int c = 1; c <= cols; ++c) {
            const double v = c == d.xcol ? r + s.real(0, 0.5) : s.real(-5, 5); const std::string t = num(v);
            if (c == d.xcol) x = v; if (c == d.fcol) y = v;
            if (c > 1) f.text += sep; if (c == std::max(d.xcol, d.fcol)) need = f.text.size();
            f.text += t;
        }
        f.text += "\n"; f.inside.push_back({a, need}); d.want[num(x)] = num(y);      // less than the columns asked for adds nothing
    }
    d.files.push_back(f);
}

// ------------------------------------------------------------------ VAG
// The VAG description of a grid: the same numbers from one, and what can be derived from them.
void vagOf(Sim& s, const UnstructuredGrid& g, const Opm::VAG& v) {
    const int nc = g.number_of_cells, nf = g.number_of_faces, nn = g.number_of_nodes;
    auto from1 = [](const int* p, size_t n) { ivec x(p, p + n); for (int& i : x) ++i; return x; };
    auto pos = [](const int* p, int n) { return ivec(p, p + n + 1); };
    s.require(v.number_of_volumes == nc && v.number_of_faces == nf && v.number_of_vertices == nn, "conversion", "a grid of %d cells, %d faces, %d nodes became a VAG of %d, %d, %d", nc, nf, nn, v.number_of_volumes, v.number_of_faces, v.number_of_vertices);
    s.require(v.vertices == dvec(g.node_coordinates, g.node_coordinates + 3 * nn), "conversion", "VAG vertices differ from the grid's nodes");
    s.require(v.volumes_to_faces.pos == pos(g.cell_facepos, nc) && v.volumes_to_faces.value == from1(g.cell_faces, g.cell_facepos[nc]), "conversion", "VAG volumes to faces differ from the grid");
    s.require(v.faces_to_vertices.pos == pos(g.face_nodepos, nf) && v.faces_to_vertices.value == from1(g.face_nodes, g.face_nodepos[nf]), "conversion", "VAG faces to vertices differ from the grid");
    s.require(v.faces_to_volumes == from1(g.face_cells, 2 * nf), "conversion", "VAG faces to volumes differ from the grid");
    s.require(int(v.volumes_to_vertices.pos.size()) == nc + 1 && v.volumes_to_vertices.pos[0] == 0 && v.volumes_to_vertices.pos[nc] == int(v.volumes_to_vertices.value.size()), "conversion", "VAG volumes to vertices: positions do not fit");
    for (int c = 0; c < nc; ++c) {
        std::set<int> want; for (int h = g.cell_facepos[c]; h < g.cell_facepos[c + 1]; ++h) for (int q = g.face_nodepos[g.cell_faces[h]]; q < g.face_nodepos[g.cell_faces[h] + 1]; ++q) want.insert(g.face_nodes[q] + 1);
        ivec got(v.volumes_to_vertices.value.begin() + v.volumes_to_vertices.pos[c], v.volumes_to_vertices.value.begin() + v.volumes_to_vertices.pos[c + 1]); std::sort(got.begin(), got.end());
        s.require(got == ivec(want.begin(), want.end()), "conversion", "VAG vertices of volume %d differ from the nodes of its faces", c);
    }
    const int ne = v.number_of_edges; std::set<std::pair<int, int>> all;
    s.require(int(v.edges.size()) == 2 * ne, "conversion", "%d VAG edges have %zu ends", ne, v.edges.size());
    auto pr = [](int a, int b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
    for (int e = 0; e < ne; ++e) s.require(all.insert(pr(v.edges[2 * e], v.edges[2 * e + 1])).second, "conversion", "VAG edge %d is there twice", e);
    s.require(int(v.faces_to_edges.pos.size()) == nf + 1 && v.faces_to_edges.pos[0] == 0 && v.faces_to_edges.pos[nf] == int(v.faces_to_edges.value.size()), "conversion", "VAG faces to edges: positions do not fit");
    std::set<std::pair<int, int>> used;
    for (int f = 0; f < nf; ++f) {
        const int b = g.face_nodepos[f], n = g.face_nodepos[f + 1] - b; std::multiset<std::pair<int, int>> want, got;
        for (int j = 0; j < n; ++j) want.insert(pr(g.face_nodes[b + j] + 1, g.face_nodes[b + (j + 1) % n] + 1));
        for (int q = v.faces_to_edges.pos[f]; q < v.faces_to_edges.pos[f + 1]; ++q) { const int e = v.faces_to_edges.value[q] - 1; s.require(e >= 0 && e < ne, "conversion", "VAG face %d has edge %d", f, e); got.insert(pr(v.edges[2 * e], v.edges[2 * e + 1])); }
        s.require(want == got, "conversion", "VAG edges of face %d are not its sides", f); used.insert(want.begin(), want.end());
    }
    s.require(used == all, "conversion", "VAG has edges that belong to no face");
}
// A grid made from a VAG has its cells, faces and nodes, and the geometry they define.
void vagBack(Sim& s, const UnstructuredGrid& g, Opm::VAG& v) {
    const int nc = g.number_of_cells, nf = g.number_of_faces, nn = g.number_of_nodes;
    GridPtr u(allocate_grid(3, nc, nf, g.face_nodepos[nf], g.cell_facepos[nc], nn)); if (!u) return;
    Opm::vagToUnstructuredGrid(v, *u);
    auto same = [](const int* a, const int* b, size_t n) { return std::equal(a, a + n, b); };
    s.require(u->dimensions == 3 && u->number_of_cells == nc && u->number_of_faces == nf && u->number_of_nodes == nn && same(u->cell_facepos, g.cell_facepos, nc + 1) && same(u->cell_faces, g.cell_faces, g.cell_facepos[nc]) && same(u->face_cells, g.face_cells, 2 * nf)
        && same(u->face_nodepos, g.face_nodepos, nf + 1) && same(u->face_nodes, g.face_nodes, g.face_nodepos[nf]), "conversion", "a grid made from its VAG has other cells or faces");
    s.require(std::equal(g.node_coordinates, g.node_coordinates + 3 * nn, u->node_coordinates), "conversion", "a grid made from its VAG has other nodes");
    auto close = [](const double* a, const double* b, size_t n) { double m = 0, e = 0; for (size_t i = 0; i < n; ++i) { m = std::max(m, std::fabs(a[i])); e = std::max(e, std::fabs(a[i] - b[i])); } return e <= 1e-9 * m; };
    s.require(close(g.cell_volumes, u->cell_volumes, nc) && close(g.cell_centroids, u->cell_centroids, 3 * nc) && close(g.face_areas, u->face_areas, nf) && close(g.face_centroids, u->face_centroids, 3 * nf) && close(g.face_normals, u->face_normals, 3 * nf), "conversion", "a grid made from its VAG has another geometry");
    s.cover("vag-to-grid");
}
void vagFile(Sim& s, Doc& d, Opm::VAG& v) {
    WorldOpt o; o.maxcells = 6; o.two_d = o.wells = o.src = o.bcs = false; GridPtr g = makeGrid(drawWorld(s, o));
    v = Opm::VAG(); v.number_of_edges = 0; CoutCapture quiet;
    if (s.chance(1, 3)) { GridPtr g0 = makeGrid(drawWorld(s, o)); Opm::unstructuredGridToVag(*g0, v); s.cover("vag-reused"); }   // whatever was there before
    Opm::unstructuredGridToVag(*g, v); vagOf(s, *g, v); vagBack(s, *g, v);
    std::ostringstream os; os.precision(17); Opm::writeVagFormat(os, v);
    File f; f.name = "g.vag"; f.text = os.str();
    static const char* sect[] = {"Number of vertices", "Number of control", "Number of faces", "Number of edges", "Vertices  ", "Volumes->faces", "Volumes->Vertices", "Faces->edges", "Faces->vertices", "Faces->Control", "\nEdges ", "Edges "};
    std::set<size_t> at; for (const char* k : sect) { size_t q = f.text.find(k); while (q != std::string::npos && isspace((unsigned char)f.text[q])) ++q; if (q != std::string::npos && q > 0 && isspace((unsigned char)f.text[q - 1])) at.insert(q); }
    at.insert(f.text.size());
    for (auto i = at.begin(), j = std::next(i); j != at.end(); ++i, ++j) {        // from the end of the section's name to its last word
        size_t e = *j; while (isspace((unsigned char)f.text[e - 1])) --e; while (!isspace((unsigned char)f.text[e - 1])) --e;
        size_t b = *i; while (!isspace((unsigned char)f.text[b])) ++b;
        if (f.text.compare(*i, 6, "Number") == 0) { b = f.text.find('\n', *i) - 1; }
        if (b <= e) f.inside.push_back({b, e});
    }
    d.files.push_back(f);
}
std::string pos(const Opm::PosStruct& p) { return join(p.pos) + ": " + join(p.value); }
void dumpVag(const Opm::VAG& v, Contents& c) {
    c["number"] = num(v.number_of_vertices) + " " + num(v.number_of_volumes) + " " + num(v.number_of_faces) + " " + num(v.number_of_edges);
    c["vertices"] = join(v.vertices); c["volumes_to_faces"] = pos(v.volumes_to_faces); c["volumes_to_vertices"] = pos(v.volumes_to_vertices);
    c["faces_to_edges"] = pos(v.faces_to_edges); c["faces_to_vertices"] = pos(v.faces_to_vertices); c["edges"] = join(v.edges); c["faces_to_volumes"] = join(v.faces_to_volumes); c["material"] = join(v.material);
}

// ------------------------------------------------------------------ one reading
struct Got { bool refused = false; Contents c; Call call; };
Got readDoc(Sim& s, const Doc& d, const std::string& dir, long mfail) {
    Got g; const std::string fn = dir + "/" + d.files[0].name; StreamWatch quiet; quiet.start();
    mem.max_size = 64u << 20; mem.track = true;
    disk.on = true;
    struct Off { ~Off() { disk.on = false; mem.track = false; } } off;
    switch (d.kind) {
    case Deck: { std::unique_ptr<Opm::EclipseGridParser> p; g.call = libcall(s, mfail, [&] { p.reset(new Opm::EclipseGridParser(fn, d.si)); }); disk.on = false; g.refused = g.call.threw; if (!g.refused) dumpDeck(*p, g.c); break; }
    case GridFile: {
        UnstructuredGrid* u = nullptr; g.call = libcall(s, mfail, [&] { u = read_grid(fn.c_str()); }); disk.on = false; g.refused = !u;
        s.require(!g.call.threw, "crash", "read_grid threw");
        if (u) dumpGrid(*u, g.c);
        mem.suspend = 0; destroy_grid(u); mem.suspend = 1;
        break; }
    case Param: case Xml: { std::unique_ptr<Opm::parameter::ParameterGroup> p(new Opm::parameter::ParameterGroup); p->disableOutput(); g.call = libcall(s, mfail, [&] { if (d.kind == Param) p->readParam(fn); else p->readXML(fn); }); disk.on = false; g.refused = g.call.threw; if (!g.refused) dumpParams(*p, g.c); break; }
    case Table: { Opm::MonotCubicInterpolator m; bool ok = false; g.call = libcall(s, mfail, [&] { ok = m.read(fn, d.xcol, d.fcol); }); disk.on = false; g.refused = g.call.threw || !ok;
        if (!g.refused) { const std::vector<double> x = m.get_xVector(), y = m.get_fVector(); for (size_t i = 0; i < x.size(); ++i) g.c[num(x[i])] = num(y[i]); } break; }
    default: { Opm::VAG v; v.number_of_vertices = v.number_of_volumes = v.number_of_faces = v.number_of_edges = 0; g.call = libcall(s, mfail, [&] { std::ifstream is(fn.c_str()); Opm::readVagGrid(is, v); }); disk.on = false; g.refused = g.call.threw; if (!g.refused) dumpVag(v, g.c); }
    }
    return g;
}
void writeDoc(const Doc& d, const std::string& dir) { removeTree(dir); makeDirs(dir); for (auto& f : d.files) writeFile(dir + "/" + f.name, f.text); }
std::string difference(const Contents& a, const Contents& b) {
    for (auto& x : a) { auto it = b.find(x.first); if (it == b.end()) return x.first + " is missing"; if (it->second != x.second) return x.first + " is " + it->second.substr(0, 60) + " instead of " + x.second.substr(0, 60); }
    for (auto& x : b) if (!a.count(x.first)) return x.first + " (" + x.second.substr(0, 60) + ") should not be there";
    return "";
}

void run(Sim& s) {
    NoFault nf;
    mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000);
    Doc d; d.kind = int(s.choose(10)); if (d.kind >= NumKinds) d.kind = Deck;
    Opm::VAG vag;
    d.si = s.chance(1, 2);
    switch (d.kind) { case Deck: DeckGen(s, d).run(); break; case GridFile: gridFile(s, d); break; case Param: paramFile(s, d); break; case Xml: xmlFile(s, d); break; case Table: tableFile(s, d); break; default: vagFile(s, d, vag); }
    if (getenv("DST_DECK")) for (auto& f : d.files) fprintf(stderr, "==== %s\n%s====\n", f.name.c_str(), f.text.c_str());
    const std::string dir = scratchRoot() + "/r"; writeDoc(d, dir);
    diskReset(dir); readDoc(s, d, dir, -1);                       // a first reading may set up tables that last
    diskReset(dir);
    Got ref = readDoc(s, d, dir, -1); long ops = disk.ops; disk.on = false;
    size_t total = 0; for (auto& f : d.files) total += f.text.size();
    s.event("%s of %zu characters in %zu files", kindName[d.kind], total, d.files.size());
    s.require(!ref.refused, "refused", "an intact %s is refused: %s", kindName[d.kind], ref.call.what.c_str());
    if (d.kind == Deck) { if (!d.si) for (auto& x : d.want) s.require(ref.c[x.first] == x.second, "contents", "%s is %s instead of %s", x.first.c_str(), ref.c[x.first].substr(0, 80).c_str(), x.second.substr(0, 80).c_str()); }
    else if (d.kind == Vag) { Contents w; dumpVag(vag, w); const std::string df = difference(w, ref.c); s.require(df.empty(), "contents", "intact VAG file: %s", df.c_str()); }
    else { const std::string df = difference(d.want, ref.c); s.require(df.empty(), "contents", "intact %s: %s", kindName[d.kind], df.c_str()); }
    s.cover(kindName[d.kind]);
    static const int errs[] = {EIO, EACCES, EISDIR, ENOMEM};
    for (int t = s.range(1, 5); t > 0; --t) {
        Doc x = d; bool mustRefuse = false, mustEqual = false, partial = false, omitted = false; std::string what; long mfail = -1; size_t cutfile = 0, cutat = 0;
        diskReset(dir);
        const int chunk = s.chance(1, 2) ? 1 + int(s.choose(s.chance(1, 2) ? 40 : 600)) : 0;
        const int kind = s.faults_enabled ? int(s.choose(6)) : 0;
        if (kind == 0) { what = "fragments"; mustEqual = true; disk.max_chunk = chunk ? chunk : 1 + int(s.choose(5)); if (s.chance(1, 3)) for (int i = 0; i < 5; ++i) disk.plan[long(s.choose(uint64_t(ops + 5)))] = {DiskSeam::Short, 0, false}; }
        else if (kind == 1) { disk.max_chunk = chunk; const long n = long(chunk ? total / size_t(chunk) + 2 * x.files.size() + 2 : size_t(ops)); disk.plan[long(s.choose(uint64_t(n + 1)))] = {DiskSeam::Err, errs[s.choose(4)], s.chance(1, 2)}; what = "error"; mustEqual = true; }
        else if (kind == 2) {
            cutfile = size_t(s.choose(x.files.size())); File& f = x.files[cutfile];
            if (f.inside.empty() || s.chance(1, 4)) cutat = size_t(s.choose(f.text.size() + 1)); else { auto& r = f.inside[size_t(s.choose(f.inside.size()))]; cutat = r.first + size_t(s.choose(r.second - r.first + 1)); }
            for (auto& r : f.inside) partial = partial || (cutat >= r.first && cutat <= r.second);
            f.text.resize(cutat); disk.max_chunk = chunk; what = "truncation"; s.fault("disk:truncated-file");
            mustRefuse = partial && (d.kind == Deck || d.kind == GridFile || d.kind == Xml || d.kind == Vag);
        } else if (kind == 3) {
            File& f = x.files[size_t(s.choose(x.files.size()))];
            if (!f.tokens.empty() && s.chance(1, 3)) { auto& k = f.tokens[size_t(s.choose(f.tokens.size()))]; f.text.erase(k.first, k.second); mustRefuse = omitted = true; }
            else for (int i = s.range(1, 3); i > 0 && !f.text.empty(); --i) { static const char odd[] = "/*-'9\n A.\xff\xef<>\"=,e\0" "0"; const size_t at = size_t(s.choose(f.text.size())); const int how = int(s.choose(4)); if (how == 0) f.text[at] = char(s.choose(256)); else if (how == 1) f.text[at] = odd[s.choose(sizeof odd - 1)]; else if (how == 2) f.text.erase(at, 1 + s.choose(10)); else f.text.insert(at, f.text.substr(size_t(s.choose(f.text.size())), s.choose(12))); }
            disk.max_chunk = chunk; what = "corruption"; s.fault("disk:corrupted-file");
        } else if (kind == 4) {
            const size_t k = size_t(s.choose(x.files.size())); what = "missing file"; mustRefuse = true; s.fault("disk:missing-file"); partial = s.chance(1, 3); cutfile = k;
        } else { mfail = s.chance(1, 3) ? position(s) : long(s.choose(uint64_t(ref.call.allocs + 2))); what = "allocation failure"; mustEqual = true; }
        writeDoc(x, dir);
        if (kind == 4) { removeTree(dir); makeDirs(dir); for (size_t i = 0; i < x.files.size(); ++i) { if (i != cutfile) writeFile(dir + "/" + x.files[i].name, x.files[i].text); else if (partial) makeDirs(dir + "/" + x.files[i].name); } }
        if (getenv("DST_DECK") && (kind == 2 || kind == 3)) for (auto& f : x.files) fprintf(stderr, "---- %s %s\n%s----\n", what.c_str(), f.name.c_str(), f.text.c_str());
        const long toolarge0 = mem.toolarge;
        s.event("try %s chunk %d cut %zu at %zu", what.c_str(), chunk, cutfile, cutat);
        Got g = readDoc(s, x, dir, mfail);
        long rerr = 0; for (auto& f : disk.fired) if (f.first.compare(0, 4, "read") == 0 || f.first.compare(0, 4, "open") == 0) rerr += f.second;
        s.event("%s: refused=%d read errors=%ld", what.c_str(), g.refused, rerr); s.step();
        if (rerr) mustRefuse = true;
        if (kind != 0 || chunk || !disk.fired.empty()) s.nontrivial();
        s.state(mix64(mix64(d.kind, kind), mix64(g.refused, rerr)));
        if (mustRefuse && rerr) s.require(g.refused, "unreported", "a %s is read without complaint although %ld read operations failed", kindName[d.kind], rerr);
        else if (mustRefuse && kind == 2) s.require(g.refused, "unreported", "a %s that ends after %zu of %zu characters of %s, inside a construct, is read without complaint", kindName[d.kind], cutat, d.files[cutfile].text.size(), d.files[cutfile].name.c_str());
        else if (omitted) s.require(g.refused, "unreported", "a %s in which a value is missing is read without complaint", kindName[d.kind]);
        else if (mustRefuse) s.require(g.refused, "unreported", "a %s is read without complaint although %s is %s", kindName[d.kind], d.files[cutfile].name.c_str(), partial ? "a directory" : "missing");
        if (mustEqual && !g.refused) { const std::string df = difference(ref.c, g.c); s.require(df.empty(), "differs", "%s read with %s: %s", kindName[d.kind], what.c_str(), df.c_str()); }
        if (mustEqual && g.refused) s.require(rerr || g.call.failed, "refused", "%s read with %s is refused: %s", kindName[d.kind], what.c_str(), g.call.what.c_str());
        if (kind == 2 && partial && !g.refused && (d.kind == Param || d.kind == Table)) {
            // complete lines only
            for (auto& v : g.c) { auto it = ref.c.find(v.first); s.require(it != ref.c.end() && it->second == v.second, "garbage", "a %s that ends inside a line gives %s = %s", kindName[d.kind], v.first.c_str(), v.second.substr(0, 60).c_str()); }
        }
        if (d.kind == GridFile) s.require(memLive() == 0, "leak", "%ld allocations of read_grid (%s) are lost:%s", memLive(), what.c_str(), memLiveDesc().c_str());
        (void)toolarge0;
    }
    // what was read before leaves no trace
    writeDoc(d, dir); diskReset(dir);
    Got again = readDoc(s, d, dir, -1); s.require(!again.refused && difference(ref.c, again.c).empty(), "differs", "reading the intact %s again gives something else", kindName[d.kind]);
    removeTree(dir);
}
Register reg("S09", run, "EclipseGridParser with its keyword readers, read_grid, ParameterGroup (text and XML), tinyxml, MonotCubicInterpolator::read, readVagGrid, C and C++ stream libraries", "disk below the system-call wrappers (fragments, errors, truncated, damaged and missing files), memory allocator");
}
