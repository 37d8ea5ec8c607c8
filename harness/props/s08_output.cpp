// S08: files written by simulation runs and stand-alone writers on a failing disk.
#include "props/simrun.hpp"
#include <opm/core/linalg/sparse_sys.h>
#include <opm/core/io/vtk/writeVtkData.hpp>
#include <sys/stat.h>

namespace {
typedef std::map<std::string, std::string> Files;
Files slurp(const std::string& dir) { Files f; for (auto& n : listTree(dir)) f[n] = readFile(dir + "/" + n); return f; }
std::string num3(int k) { char b[16]; snprintf(b, sizeof b, "%03d", k); return b; }
std::vector<dvec> rows(const std::string& s) {
    std::vector<dvec> v; std::istringstream is(s); std::string l;
    while (std::getline(is, l)) { dvec r; std::istringstream ls(l); std::string x; while (ls >> x) { char* e; r.push_back(strtod(x.c_str(), &e)); if (*e) r.push_back(1e308 * 10); } v.push_back(r); }
    return v;
}
bool near(double a, double b, double rel) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + 1e-300; }
dvec velocity(const UnstructuredGrid& g, const dvec& flux, double* scale) {
    const int d = g.dimensions; dvec v(size_t(g.number_of_cells) * d, 0.0);
    *scale = 0;
    for (int f = 0; f < g.number_of_faces; ++f) for (int i = 0; i < 2; ++i) { const int c = g.face_cells[2 * f + i]; if (c < 0) continue;
        for (int k = 0; k < d; ++k) { const double t = (g.face_centroids[f * d + k] - g.cell_centroids[c * d + k]) * (flux[f] / g.cell_volumes[c]); v[c * d + k] += i ? -t : t; *scale = std::max(*scale, std::fabs(t)); } }
    return v;
}
void column(Sim& s, const std::string& file, const std::string& text, const dvec& want, double rel, double abs) {
    const std::vector<dvec> r = rows(text);
    s.require(r.size() == want.size(), "contents", "%s has %zu lines, %zu values were to be written", file.c_str(), r.size(), want.size());
    for (size_t i = 0; i < r.size(); ++i) s.require(r[i].size() == 1 && (near(r[i][0], want[i], rel) || std::fabs(r[i][0] - want[i]) <= abs), "contents", "%s line %zu holds %.17g instead of %.17g", file.c_str(), i + 1, r[i].empty() ? 0.0 : r[i][0], want[i]);
}
// numbers of one <DataArray> of a VTK file
bool dataArray(const std::string& t, const std::string& name, dvec& v, int* comps) {
    const size_t a = t.find("Name=\"" + name + "\""); if (a == std::string::npos) return false;
    const size_t lt = t.rfind('<', a), b = t.find('>', a), e = t.find('<', b); if (b == std::string::npos || e == std::string::npos) return false;
    const std::string tag = t.substr(lt, b - lt); const size_t c = tag.find("NumberOfComponents=\""); *comps = c == std::string::npos ? 0 : atoi(tag.c_str() + c + 20);
    std::istringstream is(t.substr(b + 1, e - b - 1)); std::string x; v.clear(); while (is >> x) v.push_back(strtod(x.c_str(), 0)); return true;
}
// an attribute of the tag that has another one
std::string attr(const std::string& t, const std::string& at, const std::string& name) {
    const size_t a = t.find(at); if (a == std::string::npos) return "?"; const size_t lt = t.rfind('<', a), b = t.find('>', a); const std::string tag = t.substr(lt, b - lt);
    const size_t k = tag.find(" " + name + "=\""); if (k == std::string::npos) return "?"; const size_t v = k + name.size() + 3; return tag.substr(v, tag.find('"', v) - v);
}
void xmlShape(Sim& s, const std::string& file, const std::string& t) {
    std::vector<std::string> st; size_t i = 0;
    while ((i = t.find('<', i)) != std::string::npos) {
        const size_t e = t.find('>', i); s.require(e != std::string::npos, "contents", "%s ends inside a tag", file.c_str());
        const std::string tag = t.substr(i + 1, e - i - 1); i = e;
        if (tag[0] == '?') continue;
        if (tag[0] == '/') { s.require(!st.empty() && st.back() == tag.substr(1), "contents", "%s closes <%s> out of order", file.c_str(), tag.c_str()); st.pop_back(); }
        else if (tag.back() != '/') { st.push_back(tag.substr(0, tag.find(' '))); const size_t ind = t.rfind('\n', e) == std::string::npos ? 0 : t.rfind('<', e) - t.rfind('\n', e) - 1; if (st.size() > 1) s.require(ind == 2 * (st.size() - 1), "contents", "%s: <%s> is indented by %zu at depth %zu", file.c_str(), st.back().c_str(), ind, st.size()); }
    }
    s.require(st.empty(), "contents", "%s leaves <%s> open", file.c_str(), st.empty() ? "" : st.back().c_str());
}

// What an undisturbed run writes, checked against the states it passed through.
void checkContents(Sim& s, Instance& in, const std::vector<Snap>& sn, const Files& f, int n) {
    const UnstructuredGrid& g = in.grid(); const int nc = g.number_of_cells;
    const bool reorder = !in.sp.comp;
    std::set<std::string> want;
    for (int k = 0; k <= n; ++k) if (k == n || k % in.sp.interval == 0) {
        const Snap& q = sn[size_t(k)]; double vs; const dvec vel = velocity(g, q.flux, &vs);
        auto file = [&](const std::string& d) { const std::string nm = d + "/" + num3(k) + ".txt"; want.insert(nm); s.require(f.count(nm) > 0, "missing-file", "%s was not written", nm.c_str()); return nm; };
        std::string nm;
        nm = file("saturation"); column(s, nm, f.at(nm), q.sat, 1e-14, 0);
        nm = file("pressure"); column(s, nm, f.at(nm), q.press, 1e-14, 0);
        nm = file("velocity"); column(s, nm, f.at(nm), vel, 1e-12, 1e-13 * vs);
        if (in.sp.comp) { nm = file("surfvolume"); column(s, nm, f.at(nm), q.surfvol, 1e-14, 0); }
        if (reorder) { nm = file("reorder_it"); const auto r = rows(f.at(nm)); s.require(r.empty() || int(r.size()) == nc, "contents", "%s has %zu lines for %d cells", nm.c_str(), r.size(), nc); for (auto& x : r) s.require(x.size() == 1 && x[0] >= 0 && x[0] == std::floor(x[0]) && x[0] < 1e6, "contents", "%s holds %g", nm.c_str(), x.empty() ? 0.0 : x[0]); }
        if (in.sp.vtk) {
            nm = "vtk_files/output-" + num3(k) + ".vtu"; want.insert(nm); s.require(f.count(nm) > 0, "missing-file", "%s was not written", nm.c_str());
            const std::string& t = f.at(nm); xmlShape(s, nm, t);
            auto arr = [&](const char* name, const double* v, size_t len, int comps, double rel, double abs) {
                dvec a; int c = 0; s.require(dataArray(t, name, a, &c), "contents", "%s has no array %s", nm.c_str(), name);
                s.require(a.size() == len && (comps == 0 || c == comps), "contents", "%s: array %s has %zu values of %d components instead of %zu of %d", nm.c_str(), name, a.size(), c, len, comps);
                for (size_t i = 0; i < len; ++i) s.require(near(a[i], v[i], rel) || std::fabs(a[i] - v[i]) <= abs, "contents", "%s: %s[%zu] is %.12g instead of %.12g", nm.c_str(), name, i, a[i], v[i]);
            };
            arr("saturation", q.sat.data(), q.sat.size(), 2, 1e-11, 1e-300); arr("pressure", q.press.data(), q.press.size(), 1, 1e-11, 1e-300); arr("velocity", vel.data(), vel.size(), 3, 1e-11, 1e-12 * vs + 1e-300);
            { auto is = [&](const std::string& at, const char* name, const std::string& v) { const std::string x = attr(t, at, name); s.require(x == v, "contents", "%s: %s has %s=%s instead of %s", nm.c_str(), at.c_str(), name, x.c_str(), v.c_str()); };
              is("<VTKFile", "type", "UnstructuredGrid"); is("<Piece", "NumberOfPoints", std::to_string(g.number_of_nodes)); is("<Piece", "NumberOfCells", std::to_string(nc));
              for (const char* a : {"Coordinates", "saturation", "pressure", "velocity"}) { const std::string at = std::string(" Name=\"") + a + "\""; is(at, "type", "Float64"); is(at, "format", "ascii"); }
              for (const char* a : {"connectivity", "offsets", "faces", "faceoffsets", "types"}) { const std::string at = std::string(" Name=\"") + a + "\""; is(at, "type", a[0] == 't' ? "UInt8" : "Int32"); is(at, "format", "ascii"); is(at, "NumberOfComponents", "1"); }
              dvec ty; int c1; dataArray(t, "types", ty, &c1); s.require(int(ty.size()) == nc, "contents", "%s has %zu cell types", nm.c_str(), ty.size()); for (double x : ty) s.require(x == 42, "contents", "%s has cells of type %g", nm.c_str(), x); }
            arr("Coordinates", g.node_coordinates, size_t(g.number_of_nodes) * 3, 3, 1e-11, 0);
            dvec con, off; int c0; dataArray(t, "connectivity", con, &c0); dataArray(t, "offsets", off, &c0);
            s.require(int(off.size()) == nc && size_t(off.back()) == con.size(), "contents", "%s: %zu offsets end at %g, connectivity has %zu entries", nm.c_str(), off.size(), off.empty() ? 0 : off.back(), con.size());
            size_t at = 0;
            for (int c = 0; c < nc; ++c) { std::set<int> pts; for (int i = g.cell_facepos[c]; i < g.cell_facepos[c + 1]; ++i) { const int fc = g.cell_faces[i]; pts.insert(g.face_nodes + g.face_nodepos[fc], g.face_nodes + g.face_nodepos[fc + 1]); }
                std::set<int> got; for (; at < size_t(off[c]) && at < con.size(); ++at) got.insert(int(con[at]));
                s.require(got == pts, "contents", "%s: cell %d is connected to other nodes than in the grid", nm.c_str(), c); }
            dvec fa, fo; dataArray(t, "faces", fa, &c0); dataArray(t, "faceoffsets", fo, &c0); size_t fi = 0;
            for (int c = 0; c < nc; ++c) {
                s.require(fi < fa.size() && int(fa[fi]) == g.cell_facepos[c + 1] - g.cell_facepos[c], "contents", "%s: face stream of cell %d is wrong", nm.c_str(), c); ++fi;
                for (int i = g.cell_facepos[c]; i < g.cell_facepos[c + 1]; ++i) { const int fc = g.cell_faces[i], np = g.face_nodepos[fc + 1] - g.face_nodepos[fc];
                    s.require(fi < fa.size() && int(fa[fi]) == np, "contents", "%s: face stream of cell %d is wrong", nm.c_str(), c); ++fi;
                    for (int j = 0; j < np; ++j, ++fi) s.require(fi < fa.size() && int(fa[fi]) == g.face_nodes[g.face_nodepos[fc] + j], "contents", "%s: face stream of cell %d is wrong", nm.c_str(), c); }
                s.require(int(fo.size()) == nc && size_t(fo[c]) == fi, "contents", "%s: face offset of cell %d is %g instead of %zu", nm.c_str(), c, fo.empty() ? 0 : fo[c], fi);
            }
        }
    }
    // curves
    const double step = in.timer.numSteps() ? in.sp.dt : 0;
    want.insert("watercut.txt"); s.require(f.count("watercut.txt") > 0, "missing-file", "watercut.txt was not written");
    const auto wc = rows(f.at("watercut.txt"));
    s.require(int(wc.size()) == n + 1, "contents", "watercut.txt has %zu lines after %d steps", wc.size(), n);
    double lastCum = 0;
    for (int k = 0; k <= n; ++k) { const dvec& r = wc[size_t(k)];
        s.require(r.size() == 3 && near(r[0], k * step / 86400, 2e-5), "contents", "watercut.txt line %d gives time %g instead of %g days", k + 1, r.empty() ? -1 : r[0], k * step / 86400);
        if (k == 0) continue;
        s.require(std::isnan(r[1]) || (r[1] >= 0 && r[1] <= 1), "contents", "watercut.txt line %d gives water cut %g", k + 1, r[1]);
        s.require(r[2] >= lastCum * (1 - 1e-5), "contents", "watercut.txt line %d gives cumulative production %g after %g", k + 1, r[2], lastCum);
        lastCum = r[2]; }
    // water cut and cumulative production from the states (no substeps or segregation: produced at the saturations of the end of the step)
    if (!in.sp.comp && in.sp.N == 1 && !in.sp.seg) {
        World& w = *in.w; double pv0 = 0, cum = 0; bool ok = true;
        for (int c = 0; c < nc; ++c) pv0 += w.spec.poro[c] * g.cell_volumes[c] * (w.rockActive() ? w.rock->poroMult(sn[0].press[c]) : 1.0);
        for (int k = 1; k <= n && ok; ++k) {
            const Snap& q = sn[size_t(k)]; dvec src(w.src);
            for (int fc = 0; fc < g.number_of_faces; ++fc) { const int a = g.face_cells[2 * fc], b = g.face_cells[2 * fc + 1]; if (a < 0) src[b] += q.flux[fc]; else if (b < 0) src[a] -= q.flux[fc]; }
            if (const Wells* W = w.wells()) for (int i = 0; i < W->number_of_wells; ++i) for (int j = W->well_connpos[i]; j < W->well_connpos[i + 1]; ++j) { if (W->type[i] == PRODUCER && q.rates[j] > 0) ok = false; src[W->well_cells[j]] += q.rates[j]; }
            if (!ok) break;
            double p[2] = {0, 0}; for (int c = 0; c < nc; ++c) if (src[c] < 0) { const double fr = w.props->frac(q.sat[2 * c]); p[0] -= step * src[c] * fr; p[1] -= step * src[c] * (1 - fr); }
            cum += p[0];
            const dvec& r = wc[size_t(k)];
            s.require(near(r[1], p[0] / (p[0] + p[1]), 1e-4) || std::fabs(r[1] - p[0] / (p[0] + p[1])) < 1e-9 || p[0] + p[1] < 1e-12 * pv0, "contents", "watercut.txt line %d gives water cut %g instead of %g", k + 1, r[1], p[0] / (p[0] + p[1]));
            s.require(near(r[2], cum / pv0, 1e-4) || std::fabs(r[2] - cum / pv0) < 1e-9, "contents", "watercut.txt line %d gives cumulative water production %g instead of %g pore volumes", k + 1, r[2], cum / pv0);
        }
    }
    if (const Wells* W = in.cwells()) {
        const int nw = W->number_of_wells;
        want.insert("wellreport.txt"); s.require(f.count("wellreport.txt") > 0, "missing-file", "wellreport.txt was not written");
        const auto wr = rows(f.at("wellreport.txt"));
        s.require(int(wr.size()) == n + 1, "contents", "wellreport.txt has %zu lines after %d steps", wr.size(), n);
        for (int k = 0; k <= n; ++k) { const dvec& r = wr[size_t(k)]; const Snap& q = sn[size_t(k)];
            s.require(int(r.size()) == 1 + 3 * nw && near(r[0], k * step / 86400, 2e-5), "contents", "wellreport.txt line %d has %zu columns and time %g", k + 1, r.size(), r.empty() ? -1 : r[0]);
            for (int i = 0; i < nw; ++i) {
                s.require(near(r[1 + 3 * i], q.bhp[i] / 1e5, 2e-5), "contents", "wellreport.txt line %d: well %d has bottom-hole pressure %g bar instead of %g", k + 1, i, r[1 + 3 * i], q.bhp[i] / 1e5);
                double t = 0, wat = 0, mag = 0; 
                for (int j = W->well_connpos[i]; j < W->well_connpos[i + 1]; ++j) { const double v = q.rates[j] * 86400; t += v; mag += std::fabs(v); const int c = W->well_cells[j];
                    double fr = 0;
                    if (v > 0) fr = W->comp_frac[2 * i];
                    else if (!in.sp.comp) fr = in.w->props->frac(q.sat[2 * c]);
                    else { double sat[2] = {q.sat[2 * c], q.sat[2 * c + 1]}, kr[2], mu[2]; in.c->props->relperm(1, sat, &c, kr, 0); in.c->props->viscosity(1, &q.press[c], &q.surfvol[2 * c], &c, mu, 0); fr = kr[0] / mu[0] / (kr[0] / mu[0] + kr[1] / mu[1]); }
                    wat += v * fr; }
                s.require(near(r[2 + 3 * i], t, 2e-5) || std::fabs(r[2 + 3 * i] - t) < 1e-12 * mag, "contents", "wellreport.txt line %d: well %d has rate %g instead of %g", k + 1, i, r[2 + 3 * i], t);
                if (std::fabs(t) > 1e-9 * mag && mag > 0) s.require(near(r[3 + 3 * i], wat / t, 3e-5) || std::fabs(r[3 + 3 * i] - wat / t) < 1e-7 * mag / std::fabs(t), "contents", "wellreport.txt line %d: well %d has water fraction %g instead of %g", k + 1, i, r[3 + 3 * i], wat / t);
            } }
        s.cover("well-report");
    }
    want.insert("step_timing.param");
    s.require(f.count("step_timing.param") > 0, "missing-file", "step_timing.param was not written");
    s.require(rows(f.at("step_timing.param")).size() == size_t(3 * n), "contents", "step_timing.param has %zu lines after %d steps", rows(f.at("step_timing.param")).size(), n);
    for (auto& x : f) s.require(want.count(x.first) > 0, "stray-file", "%s is not a file the run was to write", x.first.c_str());
}

struct Fault { std::string what; };
void planFaults(Sim& s, long ops) {
    static const int errs[] = {EIO, ENOSPC, EACCES, EDQUOT};
    const int kind = int(s.choose(7));
    auto pos = [&] { return long(s.choose(uint64_t(ops + 1))); };
    if (kind == 0) disk.plan[pos()] = {DiskSeam::Err, errs[s.choose(3)], false};
    else if (kind == 1) disk.plan[pos()] = {DiskSeam::Err, errs[s.choose(4)], true};
    else if (kind == 2) for (int i = s.range(1, 6); i > 0; --i) disk.plan[pos()] = {DiskSeam::Short, 0, false};
    else if (kind == 3) for (int i = s.range(1, 6); i > 0; --i) disk.plan[pos()] = {DiskSeam::Eintr, 0, false};
    else if (kind == 4) disk.space = long(s.choose(40)) * long(s.choose(2000));
    else if (kind == 5) disk.max_chunk = 1 + int(s.choose(600));
    else { disk.plan[pos()] = {DiskSeam::Err, errs[s.choose(3)], false}; disk.plan[pos()] = {DiskSeam::Short, 0, false}; disk.max_chunk = 500; }
}

void runSimulator(Sim& s) {
    SimOpt o; o.maxcells = 16; o.maxsteps = 4;
    SimSpec sp = drawSim(s, o);
    sp.vtk = sp.base().dim == 3 && s.chance(1, 2); sp.interval = s.chance(1, 3) ? s.range(2, 3) : 1;
    const std::string A = scratchRoot() + "/a", B = scratchRoot() + "/b";
    removeTree(A); removeTree(B);
    clk.on = true; clk.utc_us = 1350000000000000LL; clk.mono_us = 5;
    Files ref; long ops = 0; std::vector<Snap> snaps; int n = sp.nsteps;
    {
        Instance in(sp);
        diskReset(A); disk.on = true;
        Call c; {
            StepWatch watch(in);
            c = libcall(s, -1, [&] { in.construct(A); in.run(); });
            watch.end(); snaps = watch.snaps;
        }
        ops = disk.ops; disk.on = false;
        if (c.threw) throw Discard{"the undisturbed run fails"};
        s.require(int(snaps.size()) == n + 1, "steps", "%d steps requested, %zu states seen", n, snaps.size());
        ref = slurp(A);
        checkContents(s, in, snaps, ref, n);
        s.step(); s.simTime(n * sp.dt);
    }
    s.event("%s run of %d steps writes %zu files in %ld operations", sp.comp ? "compressible" : "incompressible", n, ref.size(), ops);
    const int tries = s.range(1, 3);
    for (int t = 0; t < tries; ++t) {
        removeTree(B);
        // what an earlier run or another program left behind
        Files prior; std::string obstacle;
        if (s.chance(1, 3)) {
            for (auto& f : ref) if (s.chance(1, 3)) { prior[f.first] = std::string(size_t(s.choose(3)) * f.second.size() + s.choose(50), 'x'); s.cover("stale-file"); }
            if (s.chance(1, 3)) prior["saturation/999.txt"] = "stale\n";
            if (s.chance(1, 4)) prior["notes.txt"] = "notes\n";
            for (auto& f : prior) { const size_t k = f.first.rfind('/'); makeDirs(B + (k == std::string::npos ? "" : "/" + f.first.substr(0, k))); writeFile(B + "/" + f.first, f.second); }
        }
        if (s.chance(1, 8)) {                // a path that cannot be created
            auto it = ref.begin(); std::advance(it, long(s.choose(ref.size())));
            const size_t k = it->first.rfind('/');
            if (k != std::string::npos && s.chance(1, 2)) { const std::string d = it->first.substr(0, k); bool clash = false; for (auto& f : prior) clash = clash || f.first.compare(0, d.size() + 1, d + "/") == 0; if (!clash) { makeDirs(B); writeFile(B + "/" + d, "in the way"); obstacle = d; } }
            else if (!prior.count(it->first)) { makeDirs(B + "/" + it->first); obstacle = it->first; }
            if (!obstacle.empty()) { s.fault("disk:path-in-the-way"); s.event("%s is in the way", obstacle.c_str()); }
        }
        Instance in(sp);
        diskReset(B);
        if (s.faults_enabled) planFaults(s, ops);
        const long mfail = s.faults_enabled && s.chance(1, 8) ? long(s.choose(100)) * long(s.choose(60)) : -1;
        Call c;
        disk.on = true;
        { StreamWatch quiet; quiet.start(); c = libcall(s, mfail, [&] { in.construct(B); in.run(); }); }
        disk.on = false;
        const long errors = disk.errors; const auto failed = disk.failed_paths; const bool fired = !disk.fired.empty();
        const Files got = slurp(B);
        s.event("try %d: threw=%d errors=%ld files=%zu", t, c.threw, errors, got.size());
        s.step(); s.simTime(n * sp.dt);
        auto expect = [&](const std::string& f) { std::string e = ref.at(f); if (f == "step_timing.param" && prior.count(f)) e = prior.at(f) + e; return e; };
        if (!c.threw) {
            s.require(errors == 0, "unreported", "the run returned normally although %ld file operations failed (first on %s)", errors, failed.empty() ? "?" : failed.begin()->substr(B.size()).c_str());
            s.require(obstacle.empty(), "unreported", "the run returned normally although %s could not be written", obstacle.c_str());
            for (auto& f : ref) { auto it = got.find(f.first); s.require(it != got.end(), "missing-file", "the run returned normally without writing %s", f.first.c_str()); s.require(it->second == expect(f.first), "differs", "%s differs from the undisturbed run's (%zu and %zu bytes)", f.first.c_str(), it->second.size(), expect(f.first).size()); }
            for (auto& f : got) if (!ref.count(f.first)) s.require(prior.count(f.first) && prior.at(f.first) == f.second, "stray-file", "%s was not to be written", f.first.c_str());
            if (fired) s.nontrivial();
        } else {
            s.require(errors || !obstacle.empty() || c.failed, "spurious", "the run failed (%s) although nothing was wrong with the disk", c.what.c_str());
            // files already finished are right, files not reached are as before
            for (auto& f : got) {
                if (failed.count(B + "/" + f.first)) continue;
                auto p = prior.find(f.first);
                const bool before = p != prior.end() && p->second == f.second;
                if (!ref.count(f.first)) { s.require(before || f.first == obstacle, "stray-file", "%s appeared in a failed run", f.first.c_str()); continue; }
                if (c.failed) continue;
                const std::string e = expect(f.first);
                s.require(before || f.second == e || (f.first == "step_timing.param" && e.compare(0, f.second.size(), f.second) == 0), "differs", "%s is neither as before nor as the undisturbed run writes it (%zu and %zu bytes)", f.first.c_str(), f.second.size(), e.size());
            }
            s.nontrivial();
        }
        s.state(mix64(mix64(uint64_t(c.threw), uint64_t(errors > 0)), mix64(uint64_t(failed.size()), ref.size())));
    }
    removeTree(A); removeTree(B);
}

// Parameter files and matrix dumps.
void runWriters(Sim& s) {
    const std::string D = scratchRoot() + "/w"; removeTree(D); makeDirs(D);
    const int n = s.range(1, 6);
    for (int it = 0; it < n; ++it) {
        const std::string fn = D + "/f" + std::to_string(s.choose(2));
        const int kind = int(s.choose(3));
        const bool fault = s.faults_enabled && s.chance(1, 2);
        Opm::parameter::ParameterGroup p; p.disableOutput(); std::map<std::string, std::string> want;
        dvec v; CSRMatrix* m = nullptr; std::vector<std::array<double, 3>> ent;
        if (kind == 0) {
            for (int k = s.chance(1, 3) ? s.range(200, 2000) : s.range(0, 12); k > 0; --k) {
                static const char* grp[] = {"", "a/", "a/b/", "grp/"}; const std::string nm = std::string(grp[s.choose(4)]) + "key" + std::to_string(s.choose(3000));
                std::string val = s.chance(1, 6) ? std::string(s.choose(300), 'v') : std::to_string(s.choose(100000)); if (val.empty()) val = "0";
                want[nm] = val; p.insertParameter(nm, val);
            }
        } else {
            const int len = s.chance(1, 2) ? s.range(0, 8) : s.range(200, 900);
            if (kind == 1) for (int k = 0; k < len; ++k) v.push_back(s.logreal(1e-12, 1e12) * (s.chance(1, 2) ? -1 : 1));
            else { m = csrmatrix_new_known_nnz(size_t(len), size_t(2 * len)); if (!m) throw Discard{"matrix"}; m->ia[0] = 0; for (int k = 0; k < len; ++k) { m->ia[k + 1] = 2 * (k + 1); for (int q = 0; q < 2; ++q) { m->ja[2 * k + q] = (k + q) % len; m->sa[2 * k + q] = s.real(-5, 5) * 1.1; ent.push_back({double(k + 1), double((k + q) % len + 1), m->sa[2 * k + q]}); } } }
        }
        if (s.chance(1, 3)) writeFile(fn, std::string(s.choose(100000), '#'));
        const std::string before = readFile(fn);
        diskReset(D);
        if (fault) planFaults(s, 4);
        disk.on = true;
        Call c = libcall(s, -1, [&] { if (kind == 0) p.writeParam(fn); else if (kind == 1) vector_write(v.size(), v.data(), fn.c_str()); else csrmatrix_write(m, fn.c_str()); });
        disk.on = false;
        s.step();
        const long errors = disk.errors;
        s.event("writer %d threw=%d errors=%ld", kind, c.threw, errors);
        if (disk.errors || !disk.fired.empty()) s.nontrivial();
        const std::string got = readFile(fn);
        if (kind == 0) s.require(c.threw == (errors > 0), c.threw ? "spurious" : "unreported", "writing a parameter file %s although %ld file operations failed", c.threw ? "failed" : "returned normally", errors);
        else s.require(!c.threw, "spurious", "writing a matrix threw");
        if (!errors) {
            if (kind == 0) {
                Opm::parameter::ParameterGroup q; q.disableOutput(); q.readParam(fn);
                for (auto& x : want) s.require(q.has(x.first) && q.get<std::string>(x.first) == x.second, "contents", "parameter %s was not written as %s", x.first.c_str(), x.second.c_str());
                size_t lines = 0; for (char ch : got) lines += ch == '\n';
                s.require(lines == std::max<size_t>(want.size(), 1), "contents", "%zu parameters make %zu lines", want.size(), lines);
            } else {
                const auto r = rows(got);
                s.require(r.size() == (kind == 1 ? v.size() : ent.size()), "contents", "%zu entries were written as %zu lines", kind == 1 ? v.size() : ent.size(), r.size());
                for (size_t k = 0; k < r.size(); ++k) { if (kind == 1) s.require(r[k].size() == 1 && r[k][0] == v[k], "contents", "entry %zu is wrong", k); else s.require(r[k].size() == 3 && r[k][0] == ent[k][0] && r[k][1] == ent[k][1] && r[k][2] == ent[k][2], "contents", "entry %zu is wrong", k); }
            }
        }
        if (m) csrmatrix_delete(m);
        s.state(mix64(kind, uint64_t(c.threw) * 2 + (errors > 0)));
    }
    removeTree(D);
}

void run(Sim& s) {
    NoFault nf;
    mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000);
    if (s.chance(1, 5)) runWriters(s); else runSimulator(s);
}
Register reg("S08", run,
    "SimulatorIncompTwophase, SimulatorCompressibleTwophase with all their solvers and output code, writeVtkData, WellReport, Watercut, ParameterGroup::writeParam, csrmatrix_write, vector_write, C and C++ stream libraries",
    "disk below the system-call wrappers (errors, full device, short and interrupted transfers), wall clock, memory allocator");
}
