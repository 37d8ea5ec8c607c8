#!/usr/bin/env python3
"""Verify planted bugs: plant.py [--nocheck] [--tier t] [ids...]
For each seeded/<id>: a copy of /repo is bind-mounted over /repo in a private mount namespace; clean demo, patched
build + tests + demo, then the property's check against the patched tree."""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant"
INNER = r'''
set -e
mount --bind "$COPY" /repo
cd /repo
D="$SEED"
bash /opt/vp/build.sh > "$LOG.build0" 2>&1
if bash "$D/demo.sh" > "$LOG.demo0" 2>&1; then echo demo-clean=ok; else echo demo-clean=FAIL; fi
git apply "$PATCH" || { echo apply=FAIL; exit 0; }
bash /opt/vp/build.sh > "$LOG.build1" 2>&1 || { echo build=FAIL; exit 0; }
bash /opt/vp/test.sh "$LOG.tests.json" > "$LOG.tests" 2>&1
tail -1 "$LOG.tests" | sed 's/^/tests=/'
if bash "$D/demo.sh" > "$LOG.demo1" 2>&1; then echo demo-patched=NOT-FAILING; else echo demo-patched=fails; fi
if [ -n "$CHECK" ]; then
  cd "$VER"; set +e
  timeout 900 python3 harness/check.py $PROP $EXTRA > "$LOG.check" 2>&1; echo check-exit=$?
  grep -E "violated|VIOLATION|held|CHECK-ERROR" "$LOG.check" | cut -c1-260
fi
'''


def one(i, check, extra):
    sd = os.path.join(V, "seeded", i)
    meta = json.load(open(sd + "/meta.json"))
    w = os.path.join(SCR, i)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    s2 = w + "/demo"
    shutil.copytree(sd, s2, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    if check and os.path.isdir(V + "/build"):
        subprocess.run(["cp", "-a", V + "/build", w + "/build"], check=True)
    env = dict(os.environ, COPY=w + "/repo", SEED=s2, PATCH=sd + "/patch.diff", LOG=w + "/log", CHECK="1" if check else "", PROP=meta["property"], VER=V,
               DST_BUILD=w + "/build", DST_OUT=w + "/out", EXTRA=extra, VERIF_SEED="1", VERIF_TIER="quick")
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(w + "/repo", ignore_errors=True)
    shutil.rmtree(w + "/build", ignore_errors=True)
    return i, r.stdout


def main():
    a = sys.argv[1:]
    check = "--nocheck" not in a
    a = [x for x in a if x != "--nocheck"]
    extra = ""
    if "--secs" in a:
        k = a.index("--secs")
        extra = "--secs " + a[k + 1]
        del a[k:k + 2]
    par = 1 if check else 4
    ids = a or sorted(os.listdir(V + "/seeded"))
    with cf.ThreadPoolExecutor(par) as ex:
        for i, o in ex.map(lambda x: one(x, check, extra), ids):
            print("==", i)
            print(o, end="")
            sys.stdout.flush()


main()
