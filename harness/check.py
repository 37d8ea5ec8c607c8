#!/usr/bin/env python3
"""Driver of one check: build, seeded search, confirm, minimise, report.

  check.py S01 [--tier quick|thorough] [--secs N]
  check.py replay <replay file>          exit 1 and the violation when it reproduces
  check.py setup                         build only
  check.py determinism [N]               N seeds of every property, each in two fresh processes
"""
import concurrent.futures as cf
import json, os, re, struct, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B  # noqa: E402
VERIF = os.path.dirname(HERE)
NW = int(os.environ.get("DST_WORKERS", "8"))
QUICK = {"default": 30, "S05": 60}
THOROUGH = {"default": 420}
CRASH = "abnormal-termination"
OUT = os.environ.get("DST_OUT", VERIF)     # where evidence/ and replays/ go
ERR = 2


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    os._exit(ERR)


def classify(rc, err):
    """Oracle and detail of a run that ended abnormally."""
    if rc == 77:
        return "no-progress", "one simulated run exceeded its CPU budget"
    m = re.search(r"SUMMARY: AddressSanitizer: (\S+) (.*)", err)
    if m:
        fn = re.search(r" in (\S+)", m.group(2))
        return CRASH, "AddressSanitizer %s in %s" % (m.group(1), fn.group(1) if fn else "?")
    m = re.search(r"Assertion `(.*)' failed", err)
    if m:
        f = re.search(r"(\S+:\d+): (.*?): Assertion", err)
        return CRASH, "assertion failed: %s (%s)" % (m.group(1)[:160], f.group(1).split("/")[-1] if f else "?")
    m = re.search(r"terminate called.*?what\(\):\s*(.*)", err, re.S)
    if m:
        return CRASH, "std::terminate: " + m.group(1)[:160].strip()
    if rc < 0:
        return CRASH, "killed by signal %d" % -rc
    return CRASH, "process exit %d%s" % (rc, " without a report" if rc in (0, 10) else "")


class Runner:
    def __init__(self, exe, prop, tmp):
        self.exe, self.prop, self.tmp, self.n = exe, prop, tmp, 0

    def path(self, suffix):
        self.n += 1
        return os.path.join(self.tmp, "%d%s" % (self.n, suffix))

    def exec(self, mode, args, timeout=200):
        out, err, tr = self.path(".out"), self.path(".err"), self.path(".trace")
        try:
            p = subprocess.run([self.exe, mode, "--prop", self.prop, "--out", out, "--stderr", err, "--trace-out", tr] + args,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 77
        rd = lambda f: open(f, errors="replace").read() if os.path.exists(f) else ""
        o, e, t = rd(out), rd(err), rd(tr)
        for f in (out, err, tr):
            if os.path.exists(f):
                os.unlink(f)
        r = None
        if rc in (0, 10):
            try:
                r = json.loads(o.strip().splitlines()[-1])
            except (IndexError, ValueError):      # memory so damaged that not even the report came out whole
                pass
        if r is None:
            oracle, detail = classify(rc, e)
            r = {"violation": True, "oracle": oracle, "detail": detail, "hash": "crash:" + detail, "abnormal": True,
                 "choices": [int(x) for x in t.split()], "events": 0, "faults": {}}
            if os.environ.get("DST_SHOW_CRASH"):
                sys.stderr.write(e[-6000:])
        return r

    # prelude: seeds run before in the same process
    prelude = ()

    def seed(self, seed, log=False, prelude=None):
        a = ["--seed", str(seed)]
        if log:
            a += ["--log", "1"]
        return self._with(a, "run", self.prelude if prelude is None else prelude)

    def _with(self, a, mode, prelude):
        if not prelude:
            return self.exec(mode, a)
        f = self.path(".prelude")
        open(f, "w").write("".join("%d %d\n" % (s, s % 4 != 0) for s in prelude))
        r = self.exec(mode, a + ["--prelude", f])
        os.unlink(f)
        return r

    def replay(self, choices, seed, faults, log=False):
        c = self.path(".choices")
        open(c, "w").write(" ".join(map(str, choices)))
        r = self._with(["--seed", str(seed), "--choices", c, "--faults", "1" if faults else "0", "--log", "1" if log else "0"], "replay", self.prelude)
        os.unlink(c)
        return r


def same(a, b):
    return a["violation"] and b["violation"] and a["oracle"] == b["oracle"]


def find_prelude(R, v, worker, budget=60):
    """A violation that needs earlier runs in the same process: the shortest list of them found."""
    s, t0 = v["seed"], time.time()
    allp = list(range(worker["first"], s, NW))
    tried = []
    for p in [allp[:1], allp[-1:], allp[-4:], allp[:8], allp[-32:], allp[:64], allp[-256:], allp]:
        if not p or p in tried or time.time() - t0 > budget:
            continue
        tried.append(p)
        r = R.seed(s, prelude=p)
        if same(r, v):
            step = max(1, len(p) // 2)
            while len(p) > 1 and time.time() - t0 < budget:       # drop what is not needed
                cut = False
                for i in range(0, len(p), step):
                    q = p[:i] + p[i + step:]
                    if q and same(R.seed(s, prelude=q), v):
                        p, cut = q, True
                        break
                    if time.time() - t0 > budget:
                        break
                if not cut:
                    if step == 1:
                        break
                    step = max(1, step // 2)
            return p
    return None


def minimise(R, v, seed, faults, budget):
    """Greedy reduction of the choice list; every candidate is a fresh-process replay."""
    best, cur, t0, tries = list(v["choices"]), v, time.time(), 0
    abnormal = v.get("abnormal")

    def attempt(c):
        r = R.replay(c, seed, faults)
        ok = same(r, v) and (not abnormal or r["detail"] == v["detail"])
        return ok, r

    def rank(c):
        return (len(c), sum(1 for x in c if x), sum(c))
    with cf.ThreadPoolExecutor(NW) as ex:
        improved = True
        while improved and time.time() - t0 < budget:
            improved = False
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() - t0 < budget:
                cands = []
                for i in range(0, len(best), size):
                    if any(best[i:i + size]):
                        cands.append(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
                    cands.append(best[:i] + best[i + size:])
                if size == 1:
                    for i, x in enumerate(best):
                        if x > 1:
                            cands.append(best[:i] + [x // 2] + best[i + 1:])
                            cands.append(best[:i] + [x - 1] + best[i + 1:])
                k = 0
                hit = False
                while k < len(cands) and time.time() - t0 < budget:
                    chunk = cands[k:k + NW]
                    k += NW
                    tries += len(chunk)
                    res = list(ex.map(attempt, chunk))
                    good = [(r, c) for (ok, r), c in zip(res, chunk) if ok]
                    good = [(r, (r["choices"] if not r.get("abnormal") else c)) for r, c in good]
                    good = [(r, c) for r, c in good if rank(c) < rank(best)]
                    if good:
                        cur, best = min(good, key=lambda rc: rank(rc[1]))
                        hit = improved = True
                        break
                if hit and size > 1:
                    continue
                if not hit:
                    size //= 2
    while best and best[-1] == 0:       # exhausted replay input reads as 0
        best.pop()
    r = R.replay(best, seed, faults)
    if same(r, v):
        return best, r, tries
    return list(v["choices"]), v, tries


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))["findings"] if e["property"] == prop]


def run_check(prop, tier, secs):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    exe = B.build()
    tbuild = time.time() - t0
    listing = {}
    for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        a = l.split("\t")
        listing[a[0]] = a[1:]
    if prop not in listing:
        die("no such property " + prop)
    tmp = tempfile.mkdtemp(prefix="dst-check-")
    R = Runner(exe, prop, tmp)
    known = load_known(prop)
    kf = os.path.join(tmp, "known")
    open(kf, "w").write("".join("%s\t%s\n" % (k["oracle"], k["detail"]) for k in known))
    base = (seed * 1000003) % (1 << 31) * 1000000
    cap = os.environ.get("DST_MAX")
    procs = []
    for w in range(NW):
        o, st, h, e = [os.path.join(tmp, "w%d.%s" % (w, x)) for x in ("out", "status", "hashes", "err")]
        cmd = [exe, "search", "--prop", prop, "--base", str(base), "--offset", str(w), "--stride", str(NW), "--secs", str(secs),
               "--out", o, "--status", st, "--hashes", h, "--stderr", e, "--known", kf]
        if cap:
            cmd += ["--max", cap]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), o, st, h, e))
    cands, stats, nondet = [], [], []
    deadline = time.time() + secs + 120
    for w, (p, o, st, h, e) in enumerate(procs):
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 77
        lines = [json.loads(x) for x in open(o).read().splitlines() if x.strip().endswith("}")] if os.path.exists(o) else []
        stats += [x for x in lines if x.get("stats")]
        if rc == 0:
            continue
        if rc == 11:
            nondet += [x for x in lines if x.get("nondeterministic")]
        elif rc == 10:
            cands += [dict(x, first=base + w) for x in lines if x.get("violation")]
        else:
            s = struct.unpack("<Q", open(st, "rb").read(8))[0]
            err = open(e, errors="replace").read() if os.path.exists(e) else ""
            oracle, detail = classify(rc, err)
            cands.append({"violation": True, "seed": s, "oracle": oracle, "detail": detail, "abnormal": True, "first": base + w})
    hist, nontriv, states = set(), set(), set()
    for _, _, _, h, _ in procs:
        if os.path.exists(h):
            d = open(h, "rb").read()
            for i in range(0, len(d) - 8, 9):
                {104: hist, 110: nontriv, 115: states}[d[i]].add(d[i + 1:i + 9])

    def tot(k):
        return sum(x[k] for x in stats)

    def mtot(k):
        out = {}
        for x in stats:
            for a, b in x[k].items():
                out[a] = out.get(a, 0) + b
        return dict(sorted(out.items()))
    reports, rc = [], 0
    cands.sort(key=lambda c: (bool(c.get("abnormal")), c["seed"]))
    lost = []
    for v in cands[:12]:
        s = v["seed"]
        faults = s % 4 != 0
        a, b = R.seed(s), R.seed(s)
        if not (same(a, b) and a["oracle"] == v["oracle"]):
            # state left in the process by earlier runs: they become part of the replay
            R.prelude = find_prelude(R, v, v) or ()
            if R.prelude:
                a, b = R.seed(s), R.seed(s)
        if not (same(a, b) and a["hash"] == b["hash"] and a["oracle"] == v["oracle"]):
            R.prelude = ()
            lost.append("seed %d of %s did not reproduce in a fresh process (%s / %s / %s)" % (s, prop, v["oracle"], a.get("oracle"), b.get("oracle")))
            continue
        best, r, tries = minimise(R, a, s, faults, 20 if tier == "quick" else 60)
        for c in (best, a["choices"]):
            r1, r2 = R.replay(c, s, faults, log=True), R.replay(c, s, faults)
            if same(r1, a) and r1["hash"] == r2["hash"]:
                best = c
                break
        else:
            lost.append("minimised replay of seed %d does not reproduce" % s)
            R.prelude = ()
            continue
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        rp = os.path.join(OUT, "replays", "%s-%d.json" % (prop, s))
        json.dump({"property": prop, "oracle": r1["oracle"], "detail": r1["detail"], "seed": s, "faults_enabled": faults,
                   "choices": best, "prelude": list(R.prelude), "choices_before_minimisation": len(a["choices"]), "minimiser_replays": tries,
                   "hash": r1["hash"], "faults": r1.get("faults", {}), "history": r1.get("log", [])}, open(rp, "w"), indent=1)
        print("violated: %s: %s" % (r1["oracle"], r1["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.stdout.flush()
        reports.append({"oracle": r1["oracle"], "detail": r1["detail"], "seed": s, "replay": rp})
        rc = 1
        break
    if not reports and lost:
        die("; ".join(lost[:3]))
    if not reports and nondet:
        die("simulation is not deterministic: " + json.dumps(nondet[:3]))
    # a written-out sample of this run
    samples = []
    if not reports:
        for s in (base + 1, base + 4):
            x = R.seed(s, log=True)
            samples.append({"seed": s, "faults_enabled": x.get("faults_enabled"), "choices": len(x["choices"]), "faults": x["faults"],
                            "hash": x["hash"], "discard": x.get("discard"), "history": x.get("log", [])[:25]})
    else:
        samples = reports
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    runs, sw = tot("runs"), max([x["wall"] for x in stats] or [0.001])
    cov = mtot("covers")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": len(reports),
          "coverage": {
              "evaluations": runs, "distinct_nontrivial": len(nontriv),
              "rule": "One evaluation is one complete simulated run: workload, schedule and faults all drawn from one seeded generator. "
                      "It counts as distinct and non-trivial when its event-history hash is new and the run reached the situation the property is about "
                      "(see DESIGN.md, 'non-trivial').",
              "samples": samples, "distinct_histories": len(hist), "distinct_states": len(states), "states_measure": "hashes of the observable system state after each step",
              "runs_with_faults": tot("runs_with_faults"), "runs_without_faults": tot("runs_without_faults"), "discarded_worlds": tot("discarded"),
              "discard_reasons": mtot("discards"),
              "faults_fired": mtot("faults"), "probes": cov, "oracle_checks": tot("oracle_checks"), "simulated_steps": tot("steps"), "events": tot("events"),
              "simulated_seconds_covered": tot("sim_seconds"), "runs_per_hour": round(runs / sw * 3600), "seeds_per_hour": round(runs / sw * 3600),
              "determinism_rechecks": tot("recheck"), "workers": NW, "search_seconds": round(sw, 2), "build_seconds": round(tbuild, 2),
              "known_findings_hit": mtot("known") if stats and "known" in stats[0] else {},
              "real_components": listing[prop][0], "stubbed_components": listing[prop][1]},
          "assumptions": ["sampling: a clean batch is evidence, not proof",
                          "library compiled with gcc -O1 and AddressSanitizer, asserts live, as in the repository's own default build type"]}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(OUT, "evidence", prop + ".json"), "w"), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    if rc == 0:
        if runs == 0 or not nontriv:
            die("no non-trivial run was executed")
        print("held: property=%s runs=%d nontrivial=%d faults=%s in %.1fs (build %.1fs)" % (prop, runs, len(nontriv), json.dumps(mtot("faults")), wall, tbuild))
    sys.stdout.flush()
    return rc


def determinism(n):
    exe = B.build()
    ids = [l.split("\t")[0] for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    if len(sys.argv) > 3:
        ids = sys.argv[3:]
    bad = 0
    for prop in ids:
        tmp = tempfile.mkdtemp(prefix="dst-det-")
        R = Runner(exe, prop, tmp)

        def one(s):
            a, b = R.seed(s), R.seed(s)
            c = R.replay(a["choices"], s, s % 4 != 0)
            return s, a["hash"] == b["hash"] == c["hash"], a["violation"]
        with cf.ThreadPoolExecutor(NW * 2) as ex:
            res = list(ex.map(one, range(5000, 5000 + n)))
        d = [s for s, ok, _ in res if not ok]
        print("%s: %d seeds, differing %s, violating %s" % (prop, n, d[:5], [s for s, _, v in res if v][:5]))
        bad += len(d)
        shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


def replay_file(f):
    d = json.load(open(f))
    exe = B.build()
    tmp = tempfile.mkdtemp(prefix="dst-replay-")
    R = Runner(exe, d["property"], tmp)
    R.prelude = d.get("prelude", [])
    r = R.replay(d["choices"], d["seed"], d["faults_enabled"], log=True)
    shutil.rmtree(tmp, ignore_errors=True)
    for l in r.get("log", []):
        print("  " + l)
    if r["violation"]:
        print("violated: %s: %s" % (r["oracle"], r["detail"]))
        print("exact=%s" % (r["hash"] == d["hash"]))
        print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(f)))
        return 1
    print("no violation")
    return 0


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        print(B.build())
        return 0
    if a[0] == "replay":
        return replay_file(a[1])
    if a[0] == "determinism":
        return determinism(int(a[1]) if len(a) > 1 else 40)
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    T = QUICK if tier == "quick" else THOROUGH
    secs = T.get(prop, T["default"])
    if "--secs" in a:
        secs = float(a[a.index("--secs") + 1])
    return run_check(prop, tier, secs)


if __name__ == "__main__":
    sys.exit(main())
