// S19: the shipped programs, from arguments and input files to the files they leave behind.
#include "props/tofref.hpp"
#include "props/deckwells.hpp"
#include "props/libcall.hpp"
#include "props/simrun.hpp"
#include <numeric>
#include <opm/core/grid/GridManager.hpp>
#include <opm/core/props/IncompPropertiesFromDeck.hpp>

extern "C" { int prog_compute_tof(int, char**); int prog_compute_tof_from_files(int, char**); int prog_sim_2p_incomp(int, char**); int prog_sim_2p_comp_reorder(int, char**); }

namespace {
typedef std::map<std::string, std::string> Files;
typedef std::vector<std::pair<std::string, std::string>> Args;
std::string txt(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
std::string num3(int k) { char b[16]; snprintf(b, sizeof b, "%03d", k); return b; }
std::string root() { return scratchRoot() + "/p"; }
dvec column(const std::string& t) { dvec v; std::istringstream is(t); std::string x; while (is >> x) v.push_back(strtod(x.c_str(), 0)); return v; }

struct Job { int (*prog)(int, char**); const char* name; Args args; Files in; };
struct Run { Call c; int rc = 0; Files out; long ops = 0, errors = 0, idle = 0 /* of them, on input (the results have to be right) or closing files into which nothing goes */; std::string failed; bool own = true /* only files that the program writes itself */, fired = false; };
// One execution of a program in a world of its own: input files laid out, output directory fresh.
Run execute(Sim& s, const Job& j, long mfail, const std::function<void()>& plan) {
    Run r; removeTree(root()); makeDirs(root() + "/in"); for (auto& f : j.in) writeFile(root() + "/in/" + f.first, f.second);
    std::vector<std::string> a; a.push_back(j.name); for (auto& x : j.args) a.push_back(x.first + "=" + x.second); a.push_back("output_dir=" + root() + "/out");
    std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr);
    diskReset(root()); clockReset(); clk.on = true; clk.utc_us = 1350000000000000LL; clk.mono_us = 5; clk.tick_min = clk.tick_max = 1000; if (plan) plan();
    disk.on = true; { StreamWatch quiet; quiet.start(); r.c = libcall(s, mfail, [&] { r.rc = j.prog(int(a.size()), av.data()); }); } disk.on = false;
    r.ops = disk.ops; r.errors = disk.errors; if (!disk.failed_paths.empty()) r.failed = disk.failed_paths.begin()->substr(root().size()); r.fired = !disk.fired.empty();
    for (auto& f : disk.failed_paths) { const std::string n = f.substr(f.find_last_of('/') + 1); r.own = r.own && (n == "tof.txt" || n == "tracer.txt" || n == "walltime.param" || n == "epoch_timing.param" || n == "step_timing.param"); }
    if (r.rc) { r.c.threw = true; r.c.what = "exit status"; }
    for (auto& n : listTree(root() + "/out")) r.out[n] = readFile(root() + "/out/" + n);
    for (auto& o : disk.log) if (o.r < 0 && o.err && o.path.compare(0, root().size() + 4, root() + "/in/") == 0) ++r.idle; else if (o.r < 0 && o.err && o.kind == "close") { auto f = r.out.find(o.path.size() > root().size() + 5 ? o.path.substr(root().size() + 5) : ""); if (f != r.out.end() && f->second.empty()) ++r.idle; }
    s.step(); return r;
}
void differences(Sim& s, const Files& got, const Files& want, const char* how, bool stray = true) {
    for (auto& f : want) { auto i = got.find(f.first); s.require(i != got.end(), "missing-file", "%s: the program ended normally without writing %s", how, f.first.c_str()); s.require(i->second == f.second, "differs", "%s: the program ended normally, but %s differs (%zu and %zu bytes)", how, f.first.c_str(), i->second.size(), f.second.size()); }
    if (stray) for (auto& f : got) s.require(want.count(f.first) > 0, "stray-file", "%s: %s was not to be written", how, f.first.c_str());
}
// The same job on failing disks, with short transfers, with failing allocations, with damaged input.
void disturb(Sim& s, const Job& j, const Run& ref) {
    if (!s.faults_enabled) return;
    for (int t = s.range(1, 3); t > 0; --t) {
        Job x = j; const int kind = int(s.choose(8)); static const int errs[] = {EIO, ENOSPC, EACCES, EDQUOT}; long mfail = -1; bool must = false; std::function<void()> plan; std::string how;
        auto pos = [&] { return long(s.choose(uint64_t(ref.ops + 1))); };
        if (kind <= 1) { const long p = s.chance(1, 2) ? pos() : std::max(0L, ref.ops - 1 - long(s.choose(24))); const int e = errs[s.choose(4)]; const bool st = s.chance(1, 2); plan = [=] { disk.plan[p] = {DiskSeam::Err, e, st}; }; how = "failing disk"; }
        else if (kind == 2) { size_t n = 0; for (auto& f : ref.out) n += f.second.size(); const long sp = long(s.choose(uint64_t(n + 2))); plan = [=] { disk.space = sp; }; how = "full disk"; }
        else if (kind == 3) { const int ch = 1 + int(s.choose(600)); std::vector<long> p, q; for (int i = s.range(0, 4); i > 0; --i) { p.push_back(pos()); q.push_back(pos()); } plan = [=] { disk.max_chunk = ch; for (long k : p) disk.plan[k] = {DiskSeam::Short, 0, false}; for (long k : q) disk.plan[k] = {DiskSeam::Eintr, 0, false}; }; how = "short transfers"; }
        else if (kind <= 5) { mfail = s.chance(1, 4) ? position(s) : long(s.choose(uint64_t(ref.c.allocs + 1))); how = "failing allocation"; }
        else {
            if (x.in.empty()) continue; auto it = x.in.begin(); std::advance(it, long(s.choose(x.in.size()))); must = true; how = "damaged " + it->first;
            const bool list = it->first != "deck" && it->first != "grid";
            if (!list || s.chance(1, 4)) { x.in.erase(it); s.fault("input-missing"); }
            else if (s.chance(1, 2)) { size_t e = it->second.find_last_not_of(" \n"); e = it->second.find_last_of(" \n", e); it->second.erase(e == std::string::npos ? 0 : e); s.fault("input-short"); }
            else if (s.chance(1, 2)) { it->second += "\n0.25\n"; s.fault("input-long"); }
            else { const dvec v = column(it->second); const size_t k = size_t(s.choose(v.size())); std::string t; for (size_t i = 0; i < v.size(); ++i) t += (i == k ? std::string(s.chance(1, 2) ? "none" : "1e9999") : txt(v[i])) + "\n"; it->second = t; s.fault("input-garbage"); }
        }
        const Run r = execute(s, x, mfail, plan);
        s.event("%s under %s: threw=%d errors=%ld failed allocations=%ld files=%zu", j.name, how.c_str(), r.c.threw, r.errors, r.c.failed, r.out.size());
        if (r.c.threw) { s.require(must || r.errors || r.c.failed, "spurious", "%s gave up under %s although nothing failed: %s", j.name, how.c_str(), r.c.what.c_str()); s.nontrivial(); }
        else {
            s.require(!must, "unreported", "%s ended normally with %s", j.name, how.c_str());
            if (r.own) s.require(r.errors == r.idle, "unreported", "%s ended normally although files of the program itself could not be written (%ld operations, first on %s)", j.name, r.errors, r.failed.c_str());
            s.require(r.errors == r.idle, "unreported", "%s ended normally although %ld file operations failed (first on %s)", j.name, r.errors, r.failed.c_str());
            differences(s, r.out, ref.out, how.c_str()); if (r.fired || r.c.failed) s.nontrivial();
        }
        s.state(mix64(mix64(r.c.threw, kind), mix64(r.errors > 0, r.out.size())));
    }
}

// ------------------------------------------------------------------ time of flight from files
void tofFiles(Sim& s) {
    WorldOpt o; o.maxcells = 30; o.wells = o.src = o.bcs = o.rockcomp = false; World w(drawWorld(s, o)); const UnstructuredGrid& g = *w.grid; const int nc = g.number_of_cells;
    Flow fl = drawFlow(s, g); dvec poro(nc), pv(nc); for (int c = 0; c < nc; ++c) { poro[c] = s.real(0.05, 0.4); pv[c] = poro[c] * g.cell_volumes[c]; }
    const Through t = through(g, fl); s.require(int(t.order.size()) == nc, "harness", "the drawn flow circulates");
    Job j; j.prog = prog_compute_tof_from_files; j.name = "compute_tof_from_files";
    auto file = [&](const char* n, const dvec& v) { std::string x; for (size_t i = 0; i < v.size(); ++i) x += txt(v[i]) + (s.replaying || i % 5 ? "\n" : " "); j.in[n] = x; j.args.push_back({std::string(n) + "_filename", root() + "/in/" + n}); };
    { std::string x; auto put = [&](const double* p, size_t n) { for (size_t i = 0; i < n; ++i) x += txt(p[i]) + (i % 7 == 6 ? "\n" : " "); x += "\n"; }; auto puti = [&](const int* p, size_t n) { for (size_t i = 0; i < n; ++i) x += std::to_string(p[i]) + " "; x += "\n"; };
      const size_t nd = size_t(g.dimensions), nf = size_t(g.number_of_faces), nn = size_t(g.number_of_nodes), nfn = size_t(g.face_nodepos[nf]), ncf = size_t(g.cell_facepos[nc]); const bool tag = g.cell_facetag != nullptr;
      for (size_t v : {nd, size_t(nc), nf, nn, nfn, ncf}) x += std::to_string(v) + " "; x += "\n" + std::to_string(tag) + " 0\n";
      puti(g.cartdims, nd); put(g.node_coordinates, nd * nn); puti(g.face_nodepos, nf + 1); puti(g.face_nodes, nfn); puti(g.face_cells, 2 * nf); put(g.face_areas, nf); put(g.face_centroids, nd * nf); put(g.face_normals, nd * nf); puti(g.cell_facepos, size_t(nc) + 1);
      if (tag) for (size_t i = 0; i < ncf; ++i) x += std::to_string(g.cell_faces[i]) + " " + std::to_string(g.cell_facetag[i]) + "\n"; else puti(g.cell_faces, ncf);
      put(g.cell_volumes, size_t(nc)); put(g.cell_centroids, nd * size_t(nc)); j.in["grid"] = x; j.args.push_back({"grid_filename", root() + "/in/grid"}); }
    file("poro", poro); file("flux", fl.flux); file("src", fl.q);
    const int how = int(s.choose(4));// upwind, with tracers, multidimensional, Galerkin of degree zero
    if (how == 1) j.args.push_back({"compute_tracer", "true"}); else if (how == 2) j.args.push_back({"use_multidim_upwind", "true"}); else if (how == 3) { j.args.push_back({"use_dg", "true"}); j.args.push_back({"dg_degree", "0"}); }
    const bool md = how == 2 && g.cell_facetag && w.spec.kind != 2; if (how == 2 && !md) throw Discard{"no multidimensional upwinding here"};
    const Run r = execute(s, j, -1, nullptr);
    s.event("compute_tof_from_files on %d cells, variant %d: threw=%d", nc, how, r.c.threw);
    bool dead = false; for (double v : t.out) dead = dead || v == 0;
    if (r.c.threw) { if (how == 3 && dead) throw Discard{"stagnant cells"}; s.require(false, "gave-up", "compute_tof_from_files failed on an intact input: %s", r.c.what.c_str()); }
    s.require(r.out.count("tof.txt") && r.out.count("simulation.param") && bool(r.out.count("tracer.txt")) == (how == 1) && r.out.size() == size_t(2 + (how == 1)), "missing-file", "compute_tof_from_files wrote %zu files", r.out.size());
    const Exact e = firstOrder(g, fl, t, pv, how == 1); const dvec want = md ? multidim(g, fl, t, pv) : e.tof, got = column(r.out.at("tof.txt"));
    s.require(int(got.size()) == nc, "contents", "tof.txt has %zu values for %d cells", got.size(), nc);
    for (int c = 0; c < nc; ++c) if (t.out[c] != 0) s.require(agree(got[c], want[c], md ? 1e-7 : 1e-9), "contents", "tof.txt: cell %d has time of flight %.15g, its equation gives %.15g", c, got[c], want[c]);
    if (how == 1) { const dvec tr = column(r.out.at("tracer.txt")); s.require(tr.size() == e.tracer.size(), "contents", "tracer.txt has %zu values, expected %zu", tr.size(), e.tracer.size());
        for (size_t i = 0; i < tr.size(); ++i) if (t.out[i / size_t(e.nt)] != 0) s.require(agree(tr[i], e.tracer[i], 1e-9) || std::fabs(tr[i] - e.tracer[i]) < 1e-10, "contents", "tracer.txt: value %zu is %.15g instead of %.15g", i, tr[i], e.tracer[i]); s.cover("tracer-file"); }
    s.cover(how == 3 ? "tof-dg-files" : md ? "tof-multidim-files" : "tof-files"); s.nontrivial();
    disturb(s, j, r);
}

// ------------------------------------------------------------------ from one corner of a box to the other
struct Box { int n[3]; double h[3]; int nc() const { return n[0] * n[1] * n[2]; } double poro, vol() const { return h[0] * h[1] * h[2]; } };
Box drawBox(Sim& s, Job& j) {
    Box b; do { for (int d = 0; d < 3; ++d) b.n[d] = s.range(1, d == 2 ? 2 : 4); } while (b.nc() < 2);
    static const char* nn[] = {"nx", "ny", "nz"}; static const char* hh[] = {"dx", "dy", "dz"};
    for (int d = 0; d < 3; ++d) { b.h[d] = s.real(0.5, 30); j.args.push_back({nn[d], std::to_string(b.n[d])}); j.args.push_back({hh[d], txt(b.h[d])}); }
    b.poro = s.real(0.1, 0.4); j.args.push_back({"porosity", txt(b.poro)}); j.args.push_back({"permeability", txt(s.logreal(1, 1000))}); return b;
}
void tofBox(Sim& s) {
    Job j; j.prog = prog_compute_tof; j.name = "compute_tof"; const Box b = drawBox(s, j); const int nc = b.nc(); const double perDay = s.logreal(0.01, 1), Q = perDay * nc * b.vol() * b.poro / 86400; j.args.push_back({"injected_porevolumes_per_day", txt(perDay)});
    const int how = int(s.choose(3)); if (how == 1) j.args.push_back({"compute_tracer", "true"}); if (how == 2) { j.args.push_back({"use_dg", "true"}); j.args.push_back({"dg_degree", "0"}); }
    const Run r = execute(s, j, -1, nullptr); s.event("compute_tof on %d cells, variant %d: threw=%d", nc, how, r.c.threw);
    s.require(!r.c.threw, "gave-up", "compute_tof failed: %s", r.c.what.c_str());
    s.require(r.out.count("tof.txt") && bool(r.out.count("tracer.txt")) == (how == 1), "missing-file", "compute_tof wrote %zu files", r.out.size());
    // potentials by elimination, then the equations cell by cell downstream
    std::vector<dvec> A(nc, dvec(nc + 1, 0.0)); auto cell = [&](int i, int k, int l) { return i + b.n[0] * (k + b.n[1] * l); }; struct E { int a, b; double t; }; std::vector<E> edges;
    for (int l = 0; l < b.n[2]; ++l) for (int k = 0; k < b.n[1]; ++k) for (int i = 0; i < b.n[0]; ++i) { const int c = cell(i, k, l); if (i + 1 < b.n[0]) edges.push_back({c, cell(i + 1, k, l), b.vol() / (b.h[0] * b.h[0])}); if (k + 1 < b.n[1]) edges.push_back({c, cell(i, k + 1, l), b.vol() / (b.h[1] * b.h[1])}); if (l + 1 < b.n[2]) edges.push_back({c, cell(i, k, l + 1), b.vol() / (b.h[2] * b.h[2])}); }
    for (auto& e : edges) { A[e.a][e.a] += e.t; A[e.b][e.b] += e.t; A[e.a][e.b] -= e.t; A[e.b][e.a] -= e.t; }
    A[0][nc] = Q; A[nc - 1][nc] -= Q; A[0][0] += edges[0].t;
    for (int i = 0; i < nc; ++i) for (int q = i + 1; q < nc; ++q) { const double m = A[q][i] / A[i][i]; if (m != 0) for (int c = i; c <= nc; ++c) A[q][c] -= m * A[i][c]; }
    dvec p(nc); for (int i = nc - 1; i >= 0; --i) { double x = A[i][nc]; for (int c = i + 1; c < nc; ++c) x -= A[i][c] * p[c]; p[i] = x / A[i][i]; }
    dvec out(nc, 0.0), tof(nc, 0.0); out[nc - 1] = Q; ivec ord(nc); for (int i = 0; i < nc; ++i) ord[i] = i; std::sort(ord.begin(), ord.end(), [&](int x, int y) { return p[x] > p[y]; });
    for (auto& e : edges) { const double f = e.t * (p[e.a] - p[e.b]); out[f > 0 ? e.a : e.b] += std::fabs(f); }
    for (int c : ord) { double x = b.poro * b.vol(); for (auto& e : edges) { const double f = e.t * (p[e.a] - p[e.b]); if (f > 0 && e.b == c) x += f * tof[e.a]; else if (f < 0 && e.a == c) x -= f * tof[e.b]; } tof[c] = x / out[c]; }
    const dvec got = column(r.out.at("tof.txt")); s.require(int(got.size()) == nc, "contents", "tof.txt has %zu values for %d cells", got.size(), nc);
    for (int c = 0; c < nc; ++c) s.require(agree(got[c], tof[c], 1e-6), "contents", "tof.txt: cell %d of %dx%dx%d has time of flight %.12g, expected %.12g", c, b.n[0], b.n[1], b.n[2], got[c], tof[c]);
    if (how == 1) { const dvec tr = column(r.out.at("tracer.txt")); s.require(int(tr.size()) == nc, "contents", "tracer.txt has %zu values for %d cells", tr.size(), nc); for (double v : tr) s.require(std::fabs(v - 1) < 1e-6, "contents", "the only tracer is %.12g somewhere", v); }
    s.cover("tof-box"); s.nontrivial(); disturb(s, j, r);
}

// Saturations and pressures after every step, as the program wrote them.
struct History { std::vector<dvec> sat, press; };
History history(Sim& s, const Job& j, const Run& r, int steps, int nc, int interval, const std::set<int>& ends, bool comp) {
    History h; h.sat.resize(size_t(steps) + 1); h.press.resize(size_t(steps) + 1); std::set<std::string> want;
    for (int k = 0; k <= steps; ++k) if (k % interval == 0 || ends.count(k)) {
        for (const char* d : {"saturation", "pressure", "velocity", "surfvolume", "reorder_it"}) { if (!strcmp(d, comp ? "reorder_it" : "surfvolume")) continue; const std::string n = std::string(d) + "/" + num3(k) + ".txt"; want.insert(n); s.require(r.out.count(n) > 0, "missing-file", "%s ended normally without writing %s of %d steps", j.name, n.c_str(), steps); }
        h.sat[size_t(k)] = column(r.out.at("saturation/" + num3(k) + ".txt")); h.press[size_t(k)] = column(r.out.at("pressure/" + num3(k) + ".txt"));
        s.require(int(h.sat[size_t(k)].size()) == 2 * nc && int(h.press[size_t(k)].size()) == nc, "contents", "step %d: %zu saturations and %zu pressures for %d cells", k, h.sat[size_t(k)].size(), h.press[size_t(k)].size(), nc);
        for (int c = 0; c < nc; ++c) { const double a = h.sat[size_t(k)][2 * c], b = h.sat[size_t(k)][2 * c + 1]; s.require(a >= -1e-9 && b >= -1e-9 && std::fabs(a + b - 1) < 1e-6, "contents", "step %d: cell %d has saturations %g and %g", k, c, a, b); }
    }
    for (auto& f : r.out) { const size_t sl = f.first.find('/'); if (sl != std::string::npos && f.first.find("vtk") == std::string::npos) s.require(want.count(f.first) > 0, "stray-file", "%s wrote %s, which belongs to no step", j.name, f.first.c_str()); }
    return h;
}

void simBox(Sim& s) {
    const bool comp = s.chance(1, 3); Job j; j.prog = comp ? prog_sim_2p_comp_reorder : prog_sim_2p_incomp; j.name = comp ? "sim_2p_comp_reorder" : "sim_2p_incomp"; const Box b = drawBox(s, j); const int nc = b.nc();
    const double perDay = s.logreal(0.01, 1), pv = nc * b.vol() * b.poro, Q = perDay * pv / 86400; j.args.push_back({"injected_porevolumes_per_day", txt(perDay)});
    double mu[2]; for (int q = 0; q < 2; ++q) { mu[q] = s.real(0.5, 5); j.args.push_back({q ? "mu2" : "mu1", txt(mu[q])}); } const bool quad = s.chance(1, 2); j.args.push_back({"relperm_func", quad ? "Quadratic" : "Linear"});
    const int steps = s.range(1, 4); const double dt = s.logreal(0.05, 5); j.args.push_back({"num_psteps", std::to_string(steps)}); j.args.push_back({"stepsize_days", txt(dt)}); j.args.push_back({"nl_maxiter", "200"}); j.args.push_back({"output_vtk", s.chance(1, 4) ? "true" : "false"});
    const int interval = s.chance(1, 3) ? 2 : 1; j.args.push_back({"output_interval", std::to_string(interval)}); const double pref = s.real(100, 300), cr = 1e-5 * s.range(1, 10); if (comp) { j.args.push_back({"rock_compressibility", txt(cr)}); j.args.push_back({"rock_compressibility_pref", txt(pref)}); j.args.push_back({"ref_pressure", txt(pref)}); j.args.push_back({"nl_pressure_change_tolerance", "0.001"}); j.args.push_back({"nl_pressure_maxiter", "50"}); }
    const Run r = execute(s, j, -1, nullptr); s.event("%s on %d cells, %d steps: threw=%d", j.name, nc, steps, r.c.threw);
    if (r.c.threw && comp) throw Discard{"compressible solver gave up"};
    s.require(!r.c.threw, "gave-up", "%s failed: %s", j.name, r.c.what.c_str());
    const History h = history(s, j, r, steps, nc, interval, {steps}, comp); s.simTime(steps * dt * 86400);
    for (int k = 1; k <= steps; ++k) { const dvec &x = h.sat[size_t(k - 1)], &y = h.sat[size_t(k)]; if (x.empty() || y.empty()) continue;
        if (comp) continue;
        double dw = 0; for (int c = 0; c < nc; ++c) dw += (y[2 * c] - x[2 * c]) * b.vol() * b.poro; const double sw = y[2 * nc - 2], kw = quad ? sw * sw / mu[0] : sw / mu[0], ko = quad ? (1 - sw) * (1 - sw) / mu[1] : (1 - sw) / mu[1], want = Q * dt * 86400 * (1 - kw / (kw + ko));
        s.require(std::fabs(dw - want) <= 1e-7 * pv + 1e-7 * Q * dt * 86400, "balance", "step %d: the water in place changes by %.10g, %.10g was injected and not produced", k, dw, want); }
    s.cover(comp ? "box-compressible" : "box-incompressible"); s.nontrivial(); disturb(s, j, r);
}

// ------------------------------------------------------------------ decks with several epochs
struct Epoch { std::string key; dvec steps; double Q = 0; ivec prod; };     // keywords that open it; injected rate; producing cells
// Known finding: the programs keep the well state of the first epoch, which a later one with more wells overruns.
const bool wells_may_grow = false;
void deckSim(Sim& s) {
    const bool comp = s.chance(1, 3), tof = !comp && s.chance(1, 6); Job j; j.prog = tof ? prog_compute_tof : comp ? prog_sim_2p_comp_reorder : prog_sim_2p_incomp; j.name = tof ? "compute_tof" : comp ? "sim_2p_comp_reorder" : "sim_2p_incomp";
    int n[3]; do { for (int d = 0; d < 3; ++d) n[d] = s.range(1, d == 2 ? 2 : 4); } while (n[0] * n[1] * n[2] < 5); const int nc = n[0] * n[1] * n[2];
    const bool grav = s.chance(1, 3), rock = comp || s.chance(1, 4), seg = grav && s.chance(1, 3); std::ostringstream head; head.precision(10);
    head << "RUNSPEC\nOIL\nWATER\nMETRIC\nDIMENS\n " << n[0] << " " << n[1] << " " << n[2] << " /\n" << (grav ? "" : "NOGRAV\n") << "START\n 1 'JAN' 2010 /\nGRID\n";
    dvec cellvol(nc, 1.0); for (int d = 0; d < 3; ++d) { head << (d == 0 ? "DXV" : d == 1 ? "DYV" : "DZV") << "\n"; dvec h; for (int i = 0; i < n[d]; ++i) { h.push_back(s.range(5, 50)); head << " " << h.back(); } head << " /\n"; for (int c = 0; c < nc; ++c) cellvol[c] *= h[size_t(d == 0 ? c % n[0] : d == 1 ? c / n[0] % n[1] : c / n[0] / n[1])]; }
    head << "TOPS\n " << n[0] * n[1] << "*1000 /\n"; dvec poro(nc); auto field = [&](const char* k, double lo, double hi, dvec* v) { head << k << "\n"; for (int c = 0; c < nc; ++c) { const double x = lo * std::pow(hi / lo, s.choose(9) / 8.0); std::ostringstream o; o.precision(10); o << x; head << " " << o.str(); if (v) (*v)[c] = strtod(o.str().c_str(), 0); } head << " /\n"; };
    field("PORO", 0.1, 0.4, &poro); field("PERMX", 10, 1000, nullptr); if (s.chance(1, 2)) { field("PERMY", 10, 1000, nullptr); field("PERMZ", 1, 100, nullptr); }
    head << "PROPS\nSWOF\n"; const double swl = s.chance(1, 2) ? 0.1 : 0.0, sor = s.chance(1, 2) ? 0.2 : 0.0; const int nt = s.chance(1, 3) ? 2 : 9; for (int i = 0; i < nt; ++i) { const double x = double(i) / (nt - 1); head << " " << swl + (1 - sor - swl) * x << " " << x * x << " " << (1 - x) * (1 - x) << " 0\n"; } head << " /\n";
    head << "DENSITY\n 800 1000 1 /\nPVTW\n 100 1.0 " << (comp ? 4e-5 : 0) << " " << s.real(0.3, 1) << " 0 /\nPVCDO\n 100 1.1 " << (comp ? 1e-4 : 0) << " " << s.real(0.5, 5) << " 0 /\n"; if (rock) head << "ROCK\n 100 4e-5 /\n";
    head << "SOLUTION\n"; if (s.chance(1, 3)) head << "EQUIL\n 1000 200 " << (grav ? s.real(1000, 1050) : 3000) << " 0 0 0 /\n"; else head << "PRESSURE\n " << nc << "*200 /\nSWAT\n " << nc << "*" << (s.chance(1, 2) ? 0.3 : swl) << " /\n";
    head << "SCHEDULE\n";
    // wells: one cell each
    struct W { std::string name; int cell; bool inj, shut; double rate; }; std::vector<W> wells; ivec freeCells(nc); for (int c = 0; c < nc; ++c) freeCells[c] = c; double bhp = 150; double pv = 0; for (int c = 0; c < nc; ++c) pv += poro[c] * cellvol[c];
    auto add = [&](bool inj) { const size_t k = size_t(s.choose(freeCells.size())); W w{(inj ? "I" : "P") + std::to_string(wells.size()), freeCells[k], inj, false, pv * s.logreal(0.002, 0.1)}; freeCells.erase(freeCells.begin() + long(k)); wells.push_back(w); };
    auto intro = [&](size_t from) { std::ostringstream o; o.precision(10); o << "WELSPECS\n"; auto ij = [&](const W& w) { return std::to_string(w.cell % n[0] + 1) + " " + std::to_string(w.cell / n[0] % n[1] + 1); }; for (size_t i = from; i < wells.size(); ++i) o << " '" << wells[i].name << "' 'G' " << ij(wells[i]) << " 1* 'OIL' /\n"; o << "/\nCOMPDAT\n"; for (size_t i = from; i < wells.size(); ++i) { const int k = wells[i].cell / n[0] / n[1] + 1; o << " '" << wells[i].name << "' " << ij(wells[i]) << " " << k << " " << k << " 'OPEN' 1* 20 /\n"; } o << "/\n"; return o.str(); };
    auto control = [&](const ivec& which) { std::ostringstream o, q; o.precision(10); q.precision(10); for (int i : which) { const W& w = wells[size_t(i)]; if (w.inj) o << " '" << w.name << "' 'WATER' '" << (w.shut ? "SHUT" : "OPEN") << (comp ? "' 'RATE' " : "' 'RESV' ") << (comp ? "" : "1* ") << w.rate << " /\n"; else q << " '" << w.name << "' '" << (w.shut ? "SHUT" : "OPEN") << "' 'BHP' 5* " << bhp << " /\n"; } std::string t; if (!o.str().empty()) t += "WCONINJE\n" + o.str() + "/\n"; if (!q.str().empty()) t += "WCONPROD\n" + q.str() + "/\n"; return t; };
    std::vector<Epoch> ep; const int ne = tof ? 1 : s.range(1, 4); int steps = 0; bool grew = false;
    for (int e = 0; e < ne; ++e) {
        Epoch x;
        if (e == 0) { add(true); add(false); if (s.chance(1, 2)) add(s.chance(1, 2)); ivec all; for (size_t i = 0; i < wells.size(); ++i) all.push_back(int(i)); x.key = intro(0) + control(all); }
        else switch (s.choose(6)) {
            case 0: x.key = "TUNING\n 1 10 0.1 /\n /\n 12 1 25 /\n"; break;
            case 1: { ivec v; for (size_t i = 0; i < wells.size(); ++i) if (wells[i].inj) { wells[i].rate *= s.real(0.5, 2); v.push_back(int(i)); } x.key = control(v); break; }
            case 2: case 3: { if (freeCells.empty() || !wells_may_grow) { x.key = "TUNING\n /\n /\n /\n"; break; } add(s.chance(1, 3)); x.key = intro(wells.size() - 1) + control({int(wells.size()) - 1}); grew = true; s.cover("well-in-later-epoch"); break; }
            case 4: { const size_t k = size_t(s.choose(wells.size())); int open = 0; for (auto& w : wells) open += !w.inj && !w.shut; if (!wells[k].inj && !wells[k].shut && open == 1) { x.key = "TUNING\n /\n /\n /\n"; break; } wells[k].shut = !wells[k].shut; x.key = "WELOPEN\n '" + wells[k].name + "' '" + (wells[k].shut ? "SHUT" : "OPEN") + "' /\n/\n"; s.cover("well-opened-or-shut"); break; }
            default: { bhp += 10; ivec v; for (size_t i = 0; i < wells.size(); ++i) if (!wells[i].inj) v.push_back(int(i)); x.key = control(v); }
        }
        for (auto& w : wells) if (!w.shut) { if (w.inj) x.Q += w.rate / 86400; else x.prod.push_back(w.cell); }
        for (int k = s.range(1, 3); k > 0; --k) { x.steps.push_back(s.range(1, 16) / 4.0); ++steps; }
        ep.push_back(x);
    }
    auto deckText = [&](int split, int at) { std::ostringstream d; d.precision(10); d << head.str(); for (size_t e = 0; e < ep.size(); ++e) { d << ep[e].key << "TSTEP\n"; for (size_t k = 0; k < ep[e].steps.size(); ++k) { if (int(e) == split && int(k) == at) d << " /\nTUNING\n /\n /\n /\nTSTEP\n"; d << " " << ep[e].steps[k]; } d << " /\n"; } d << "END\n"; return d.str(); };
    j.in["deck"] = deckText(-1, 0); j.args.push_back({"deck_filename", root() + "/in/deck"}); j.args.push_back({"nl_maxiter", "200"}); j.args.push_back({"output_vtk", s.chance(1, 6) ? "true" : "false"}); if (rock) { j.args.push_back({"nl_pressure_change_tolerance", "0.001"}); j.args.push_back({"nl_pressure_maxiter", "50"}); } if (seg && !tof) j.args.push_back({"use_segregation_split", "true"});
    if (getenv("DST_DECK")) fprintf(stderr, "%s\n", j.in["deck"].c_str());
    const Run r = execute(s, j, -1, nullptr); s.event("%s on a deck of %d cells, %zu wells, %d epochs and %d steps: threw=%d", j.name, nc, wells.size(), ne, steps, r.c.threw);
    if (r.c.threw && (comp || rock || seg) ) throw Discard{"nonlinear solver gave up"};
    s.require(!r.c.threw, "gave-up", "%s failed on an intact deck: %s", j.name, r.c.what.c_str());
    if (tof) {
        const dvec t = column(r.out.at("tof.txt")); s.require(int(t.size()) == nc, "contents", "tof.txt has %zu values for %d cells", t.size(), nc); for (double v : t) s.require(v > 0, "contents", "time of flight %g", v);
        if (ep[0].prod.size() == 1 && !grav) { const double want = pv / ep[0].Q; s.require(agree(t[size_t(ep[0].prod[0])], want, 1e-6), "contents", "water reaches the only producer after %.10g s, the pore volume is replaced in %.10g s", t[size_t(ep[0].prod[0])], want); s.cover("tof-deck"); }
        s.nontrivial(); disturb(s, j, r); return;
    }
    std::set<int> ends; { int k = 0; for (auto& e : ep) ends.insert(k += int(e.steps.size())); ends.insert(0); }
    const History h = history(s, j, r, steps, nc, 1, ends, comp); s.simTime(86400 * std::accumulate(ep.begin(), ep.end(), 0.0, [](double a, const Epoch& e) { return a + std::accumulate(e.steps.begin(), e.steps.end(), 0.0); }));
    s.cover(comp ? "deck-compressible" : "deck-incompressible"); if (grew) s.cover("more-wells-later"); s.nontrivial();
    if (!comp && !rock && !seg) {
        std::istringstream is(j.in["deck"]); Opm::EclipseGridParser deck; deck.read(is); Opm::GridManager gm(deck); Opm::IncompPropertiesFromDeck props(deck, *gm.c_grid());
        auto frac = [&](int c, double sw) { double sa[2] = {sw, 1 - sw}, kr[2]; props.relperm(1, sa, &c, kr, 0); const double w = kr[0] / props.viscosity()[0], o = kr[1] / props.viscosity()[1]; return w / (w + o); };
        int k = 0; for (auto& e : ep) for (double days : e.steps) { ++k; const dvec &x = h.sat[size_t(k - 1)], &y = h.sat[size_t(k)]; double dw = 0; for (int c = 0; c < nc; ++c) dw += (y[2 * c] - x[2 * c]) * poro[c] * cellvol[c];
            if (grav && e.prod.size() > 1) continue;          // producers may exchange fluid
            const double in = e.Q * days * 86400, tol = 1e-7 * pv + 1e-7 * in; double lo = 1, hi = 0; for (int c : e.prod) { const double f = frac(c, y[2 * c]); lo = std::min(lo, f); hi = std::max(hi, f); }
            s.require(dw >= in * (1 - hi) - tol && dw <= in * (1 - lo) + tol, "balance", "step %d: the water in place changes by %.10g; of the %.10g injected, between %.10g and %.10g stays", k, dw, in, in * (1 - hi), in * (1 - lo)); s.cover("balance-step"); }
    }
    // the report of the wells covers the last epoch
    {
        s.require(r.out.count("wellreport.txt") && r.out.count("watercut.txt"), "missing-file", "%s wrote no report of its wells", j.name); std::istringstream is(r.out.at("wellreport.txt")); std::string l; std::vector<dvec> rows; while (std::getline(is, l)) rows.push_back(column(l));
        const Epoch& e = ep.back(); s.require(rows.size() == e.steps.size() + 1, "contents", "wellreport.txt has %zu lines after an epoch of %zu steps", rows.size(), e.steps.size());
        double day = 0; for (auto& x : ep) for (double d : x.steps) day += d; for (double d : e.steps) day -= d;
        for (size_t k = 0; k < rows.size(); ++k) {
            if (k) day += e.steps[k - 1]; const dvec& q = rows[k]; s.require(q.size() == 1 + 3 * wells.size() && std::fabs(q[0] - day) <= 2e-5 * day, "contents", "wellreport.txt line %zu has %zu columns for %zu wells and time %g instead of %g", k + 1, q.size(), wells.size(), q.empty() ? 0.0 : q[0], day); if (!k) continue;
            double sum = 0, mag = 0; for (size_t i = 0; i < wells.size(); ++i) { const W& w = wells[i]; const double rate = q[2 + 3 * i]; sum += rate; mag += std::fabs(rate);
                if (w.shut) s.require(rate == 0, "wells", "line %zu: shut well %s flows at %g", k + 1, w.name.c_str(), rate);
                else if (!w.inj) s.require(agree(q[1 + 3 * i], bhp, 1e-5), "wells", "line %zu: producer %s has bottom-hole pressure %g instead of %g", k + 1, w.name.c_str(), q[1 + 3 * i], bhp);
                else if (!comp) s.require(agree(rate, w.rate, 1e-5), "wells", "line %zu: injector %s injects %g instead of %g", k + 1, w.name.c_str(), rate, w.rate); }
            if (!comp && !rock) s.require(std::fabs(sum) <= 1e-5 * mag + 1e-9, "wells", "line %zu: the wells inject %g more than they produce", k + 1, sum);
        }
        auto lines = [&](const char* n) { s.require(r.out.count(n) > 0, "missing-file", "%s did not write %s", j.name, n); const std::string& x = r.out.at(n); return long(std::count(x.begin(), x.end(), '\n')); };
        const long a = lines("step_timing.param"), b = lines("epoch_timing.param"), c = lines("walltime.param"); s.require(a == c * steps && b == c * ne, "contents", "%ld lines of times for %d steps, %ld for %d epochs, %ld for the whole", a, steps, b, ne, c);
        auto sum = [&](const char* n, const char* key) { std::istringstream in(r.out.at(n)); std::string x; double v = 0; while (std::getline(in, x)) if (x.compare(0, strlen(key), key) == 0) v += strtod(x.c_str() + strlen(key), 0); return v; };
        for (const char* key : {"/timing/total_time=", "/timing/pressure/total_time=", "/timing/transport/total_time="}) { const double x = sum("step_timing.param", key), y = sum("epoch_timing.param", key), z = sum("walltime.param", key);
            s.require(z > 0 && agree(y, z, 1e-5), "timing", "%s%g over all epochs, %g in all", key, y, z); if (key[8] != 't' || key[9] != 'o') s.require(agree(x, y, 1e-5), "timing", "%s%g over all steps, %g over all epochs", key, x, y); else s.require(x <= y * 1.00001, "timing", "%s%g over all steps, %g over all epochs", key, x, y); }
        s.cover("last-epoch-wells");
    }
    // the same schedule with an epoch more, and with fewer reports
    auto states = [](const Run& q) { Files f; for (auto& x : q.out) if (x.first.find('/') != std::string::npos && x.first.compare(0, 10, "reorder_it") != 0) f.insert(x); return f; /* iteration counts start anew with every epoch */ };
    if (s.chance(1, 2)) { const int e = int(s.choose(ep.size())); if (ep[size_t(e)].steps.size() > 1) { Job q = j; q.in["deck"] = deckText(e, 1 + int(s.choose(ep[size_t(e)].steps.size() - 1))); const Run v = execute(s, q, -1, nullptr); s.require(!v.c.threw, "gave-up", "%s fails when an epoch is divided in two: %s", j.name, v.c.what.c_str()); differences(s, states(v), states(r), "an epoch divided in two"); s.cover("divided-epoch"); } }
    if (s.chance(1, 3)) { Job q = j; const int iv = s.range(2, 4); q.args.push_back({"output_interval", std::to_string(iv)}); const Run v = execute(s, q, -1, nullptr); s.require(!v.c.threw, "gave-up", "%s fails with fewer reports: %s", j.name, v.c.what.c_str()); Files want; for (auto& f : states(r)) { const size_t d = f.first.find_last_of('.'); const int k = atoi(f.first.substr(d - 3, 3).c_str()); if (k % iv == 0 || ends.count(k)) want.insert(f); } differences(s, states(v), want, "fewer reports"); s.cover("fewer-reports"); }
    disturb(s, j, r);
}

// What the library sets up once in a process is set up before the first run, so that every run counts the same allocations.
void warmUp() {
    static bool warm = false; if (warm) return; warm = true; Sim* const now = g_sim;
    for (uint64_t k = 1; k <= 12; ++k) {
        Sim w; w.seed = k; w.prng = Prng(k * 0x2545F4914F6CDD1Dull + 99); w.faults_enabled = false; g_sim = &w;
        try { switch (k % 6) { case 0: tofFiles(w); break; case 1: tofBox(w); break; case 2: simBox(w); break; default: deckSim(w); } }
        catch (const Violation&) {} catch (const Discard&) {} catch (const std::exception&) {}
        mem.on = false; disk.on = false; clk.on = false; mem.suspend = 0; memReset(); diskReset(""); clockReset();
    }
    g_sim = now;
}

void run(Sim& s) {
    warmUp();
    NoFault nf;
    mem.fill = int(s.choose(5)); mem.fill_state = 1 + s.choose(1000);
    switch (s.choose(8)) { case 0: tofFiles(s); break; case 1: tofBox(s); break; case 2: simBox(s); break; default: deckSim(s); }
    removeTree(root());
}
Register reg("S19", run, "compute_tof, compute_tof_from_files, sim_2p_incomp, sim_2p_comp_reorder with all of the library that they use: deck and parameter parsers, grids, properties, wells, pressure, transport, time of flight, timers, output",
    "disk below the system-call wrappers (errors, full device, short and interrupted transfers; damaged input), clocks, memory allocator (injected failures and fresh-memory contents)");
}
