// S10: histories of well-container operations under failing allocations.
#include "core/sim.hpp"
#include "core/seams.hpp"
#include <opm/core/wells.h>
#include <cmath>
#include <memory>

namespace {
struct MCtrl { int type; double target; std::vector<double> distr; };
struct MWell {
    int type; double depth; std::vector<double> frac; std::vector<int> cells; std::vector<double> WI;
    bool named; std::string name; bool name_uncertain;
    std::vector<MCtrl> ctrls; int current;
};
struct Model { int np; std::vector<MWell> wells; };
struct Obj { struct Wells* W; Model m; int id; };

uint64_t hashModel(const Model& m) {
    uint64_t h = m.np;
    for (auto& w : m.wells) { h = mix64(h, w.cells.size() * 7 + w.type); h = mix64(h, w.ctrls.size() * 31 + unsigned(w.current + 40)); }
    return h;
}

void compare(Sim& s, Obj& o, const char* after) {
    NoFault nf;
    struct Wells* W = o.W;
    Model& m = o.m;
    s.require(W->number_of_phases == m.np, "contents", "object %d after %s: phases %d, expected %d", o.id, after, W->number_of_phases, m.np);
    s.require(W->number_of_wells == (int)m.wells.size(), "contents", "object %d after %s: %d wells, expected %zu", o.id, after, W->number_of_wells, m.wells.size());
    s.require(W->well_connpos && W->well_connpos[0] == 0, "contents", "object %d after %s: perforation offsets do not start at 0", o.id, after);
    int pos = 0;
    for (size_t i = 0; i < m.wells.size(); ++i) {
        MWell& w = m.wells[i];
        s.require((int)W->type[i] == w.type, "contents", "object %d after %s: well %zu type", o.id, after, i);
        s.require(W->depth_ref[i] == w.depth, "contents", "object %d after %s: well %zu depth %g expected %g", o.id, after, i, W->depth_ref[i], w.depth);
        for (int p = 0; p < m.np; ++p)
            s.require(W->comp_frac[i * m.np + p] == w.frac[p], "contents", "object %d after %s: well %zu fraction %d is %g expected %g", o.id, after, i, p, W->comp_frac[i * m.np + p], w.frac[p]);
        s.require(W->well_connpos[i] == pos && W->well_connpos[i + 1] == pos + (int)w.cells.size(), "contents",
                  "object %d after %s: well %zu perforation range [%d,%d) expected [%d,%d)", o.id, after, i, W->well_connpos[i], W->well_connpos[i + 1], pos, pos + (int)w.cells.size());
        for (size_t k = 0; k < w.cells.size(); ++k) {
            s.require(W->well_cells[pos + k] == w.cells[k], "contents", "object %d after %s: well %zu perforation %zu cell %d expected %d", o.id, after, i, k, W->well_cells[pos + k], w.cells[k]);
            s.require(W->WI[pos + k] == w.WI[k], "contents", "object %d after %s: well %zu perforation %zu index %g expected %g", o.id, after, i, k, W->WI[pos + k], w.WI[k]);
        }
        pos += (int)w.cells.size();
        if (w.name_uncertain) {     // a name lost to a failed allocation is documented behaviour
            if (W->name[i]) s.require(w.name == W->name[i], "contents", "object %d after %s: well %zu name '%s' expected '%s'", o.id, after, i, W->name[i], w.name.c_str());
            w.named = W->name[i] != nullptr; w.name_uncertain = false;
        } else if (w.named) {
            s.require(W->name[i] && w.name == W->name[i], "contents", "object %d after %s: well %zu name '%s' expected '%s'", o.id, after, i, W->name[i] ? W->name[i] : "(none)", w.name.c_str());
        } else s.require(!W->name[i], "contents", "object %d after %s: well %zu has a name but none was given", o.id, after, i);
        struct WellControls* c = W->ctrls[i];
        s.require(c != nullptr, "contents", "object %d after %s: well %zu has no control set", o.id, after, i);
        s.require(c->num == (int)w.ctrls.size(), "contents", "object %d after %s: well %zu has %d controls expected %zu", o.id, after, i, c->num, w.ctrls.size());
        for (size_t k = 0; k < w.ctrls.size(); ++k) {
            s.require((int)c->type[k] == w.ctrls[k].type && c->target[k] == w.ctrls[k].target, "contents", "object %d after %s: well %zu control %zu is (%d,%g) expected (%d,%g)",
                      o.id, after, i, k, c->type[k], c->target[k], w.ctrls[k].type, w.ctrls[k].target);
            for (int p = 0; p < m.np; ++p)
                s.require(c->distr[k * m.np + p] == w.ctrls[k].distr[p], "contents", "object %d after %s: well %zu control %zu phase share %d is %g expected %g", o.id, after, i, k, p, c->distr[k * m.np + p], w.ctrls[k].distr[p]);
        }
        s.require(c->current == w.current, "contents", "object %d after %s: well %zu active control %d expected %d", o.id, after, i, c->current, w.current);
        s.require(c->current < c->num, "active-control", "object %d after %s: well %zu active control %d of %d controls", o.id, after, i, c->current, c->num);
    }
}

void run(Sim& s) {
    NoFault nf0;                       // harness by default; library calls are armed below
    const bool faults = s.faults_enabled && s.chance(4, 5);
    mem.track = true;
    std::vector<Obj> objs;
    int nextId = 0;
    const int nops = s.range(4, 40);
    const int maxperf = s.range(0, 6);
    mem.fill = s.faults_enabled ? int(s.choose(5)) : 0;
    mem.fill_state = s.choose(1 << 16) + 1;
    bool grew = false;
    auto lib = [&](auto&& f) {         // run one library call with the memory seam armed
        mem.count = 0; mem.fail_at = -1; mem.failed = 0;
        if (faults && s.chance(1, 3)) { mem.fail_at = s.range(0, 11); mem.fail_len = s.chance(1, 4) ? 1000 : s.range(1, 2); }
        const int sv = mem.suspend; mem.suspend = 0; mem.on = true;
        f();
        mem.on = false; mem.suspend = sv; mem.fail_at = -1;
    };
    for (int op = 0; op < nops; ++op) {
        s.step();
        int what = objs.empty() ? 0 : int(s.choose(10));
        Obj* o = objs.empty() ? nullptr : &objs[s.choose(objs.size())];
        const char* name = "?";
        if (what == 0) {
            if (objs.size() >= 3) continue;
            name = "create";
            int np = s.range(1, 3), nw = s.range(0, 4), nperf = s.range(0, 8);
            struct Wells* W = nullptr;
            lib([&] { W = create_wells(np, nw, nperf); });
            s.event("create np=%d nw=%d nperf=%d ok=%d", np, nw, nperf, W != nullptr);
            s.require(W || mem.failed, "spurious-failure", "create failed although no allocation failed");
            if (W) objs.push_back(Obj{W, Model{np, {}}, nextId++});
        } else if (what <= 3) {
            name = "add";
            MWell w;
            const int np = o->m.np;
            w.type = s.range(0, 1); w.depth = s.real(0, 100);
            int n = maxperf ? s.range(0, maxperf) : 0;
            if (s.chance(1, 12)) n += 9;
            bool hasWI = s.chance(2, 3), hasFrac = s.chance(2, 3);
            w.named = s.chance(2, 3);
            static const char* names[] = {"", "I", "PROD-1", "A_VERY_LONG_WELL_NAME_OF_MORE_THAN_THIRTY_CHARACTERS"};
            w.name = names[s.choose(4)];
            for (int k = 0; k < n; ++k) { w.cells.push_back(s.range(0, 999)); w.WI.push_back(hasWI ? s.real(1, 2) : 0.0); }
            for (int p = 0; p < np; ++p) w.frac.push_back(hasFrac ? s.real(0, 1) : 0.0);
            w.current = -1;
            int ok = 0;
            const size_t before = o->m.wells.size();
            // exact-size argument arrays, so that an over-read is caught
            std::vector<int> cells(w.cells); std::vector<double> WI(w.WI), fr(w.frac);
            cells.shrink_to_fit(); WI.shrink_to_fit(); fr.shrink_to_fit();
            std::unique_ptr<char[]> nm(new char[w.name.size() + 1]); strcpy(nm.get(), w.name.c_str());
            lib([&] { ok = add_well((enum WellType)w.type, w.depth, n, hasFrac ? fr.data() : nullptr, n ? cells.data() : nullptr, hasWI && n ? WI.data() : nullptr, w.named ? nm.get() : nullptr, o->W); });
            w.name_uncertain = w.named && mem.failed;
            s.event("add obj=%d n=%d named=%d ok=%d allocs=%ld failed=%ld", o->id, n, w.named, ok != 0, mem.count, mem.failed);
            s.require(ok || mem.failed, "spurious-failure", "adding a well failed although no allocation failed");
            if (ok) o->m.wells.push_back(w);
            if (!ok) s.cover("add-failed");
            if (ok && mem.failed) s.cover("add-ok-name-lost");
            if (before >= 4) grew = true;
        } else if (what <= 5) {
            if (o->m.wells.empty()) continue;
            name = "append-control";
            size_t i = s.choose(o->m.wells.size());
            MCtrl c; c.type = s.range(0, 2); c.target = s.real(-5, 5);
            bool has = s.chance(2, 3);
            for (int p = 0; p < o->m.np; ++p) c.distr.push_back(has ? s.real(0, 1) : 0.0);
            int ok = 0;
            lib([&] { ok = append_well_controls((enum WellControlType)c.type, c.target, has ? c.distr.data() : nullptr, (int)i, o->W); });
            s.event("append obj=%d well=%zu distr=%d ok=%d failed=%ld", o->id, i, has, ok != 0, mem.failed);
            s.require(ok || mem.failed, "spurious-failure", "appending a control failed although no allocation failed");
            if (ok) o->m.wells[i].ctrls.push_back(c); else s.cover("append-failed");
        } else if (what == 6) {
            if (o->m.wells.empty()) continue;
            name = "set-current";
            size_t i = s.choose(o->m.wells.size());
            int n = (int)o->m.wells[i].ctrls.size();
            int c = n ? s.range(0, n - 1) : -1;
            if (n && s.chance(1, 3)) c = ~c;                     // shut well, remembering its control
            lib([&] { set_current_control((int)i, c, o->W); });
            o->m.wells[i].current = c;
            s.event("current obj=%d well=%zu c=%d", o->id, i, c);
        } else if (what == 7) {
            if (o->m.wells.empty()) continue;
            name = "clear-controls";
            size_t i = s.choose(o->m.wells.size());
            lib([&] { clear_well_controls((int)i, o->W); });
            o->m.wells[i].ctrls.clear();
            // no control can be active in an empty set; the marker itself is free
            { NoFault nf; int c = o->W->ctrls[i]->current; s.require(c < 0, "active-control", "object %d: after clearing, well %zu still names control %d as active", o->id, i, c); o->m.wells[i].current = c; }
            s.event("clear obj=%d well=%zu", o->id, i);
        } else if (what == 8) {
            if (objs.size() >= 4) continue;
            name = "clone";
            struct Wells* C = nullptr;
            lib([&] { C = clone_wells(o->W); });
            s.event("clone obj=%d ok=%d failed=%ld", o->id, C != nullptr, mem.failed);
            s.require(C || mem.failed, "spurious-failure", "clone failed although no allocation failed");
            if (C) { Obj n{C, o->m, nextId++}; objs.push_back(n); s.cover("cloned"); if (mem.failed) s.cover("cloned-despite-failure"); }
            else s.cover("clone-failed");
        } else {
            name = "destroy";
            size_t i = o - &objs[0];
            if (!s.chance(1, 2)) continue;
            lib([&] { destroy_wells(objs[i].W); });
            s.event("destroy obj=%d", objs[i].id);
            objs.erase(objs.begin() + i);
        }
        for (auto& x : objs) { compare(s, x, name); s.state(hashModel(x.m)); }
        if (mem.failed) s.cover(std::string("failed-in:") + name);
    }
    for (auto& x : objs) lib([&] { destroy_wells(x.W); });
    s.require(memLive() == 0, "leak", "%ld allocations never released after all objects were destroyed:%s", memLive(), memLiveDesc().c_str());
    if (grew || s.faults.size()) s.nontrivial();
}
Register reg("S10", run, "wells.c (create/add/append/clear/clone/destroy)", "allocator results (fault plan), contents of fresh memory");
}
