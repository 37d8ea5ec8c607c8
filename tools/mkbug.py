#!/usr/bin/env python3
"""mkbug.py ID PROPERTY 'needs' 'breaks' FILE <<< python edits (list of (old,new)); writes seeded/ID/{patch.diff,meta.json,demo.sh}.
Demo source is expected as seeded/ID/demo.cpp (or .c)."""
import sys, os, json, subprocess, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'find "$T" -delete' EXIT
g++ -std=c++14 -w -g -DDEBUG -DHAVE_CONFIG_H=1 -I_build -I. -I/usr/include/suitesparse "$D/demo.cpp" -o "$T/demo" LDX \
    _build/lib/libopmcore.a -lboost_date_time -lboost_filesystem -lboost_system -lumfpack -lamd -llapack -lblas -lm -lsuitesparseconfig -lrt -lpthread || exit 98
cd "$T" && timeout 200 ./demo
'''


def make(id, prop, needs, breaks, edits, ldx=""):
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    out = ""
    for f, eds in edits.items():
        src = open("/repo/" + f, encoding="latin-1").read()
        dst = src
        for o, n in eds:
            assert dst.count(o) == 1, (f, o, dst.count(o))
            dst = dst.replace(o, n)
        out += "".join(difflib.unified_diff(src.splitlines(True), dst.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", encoding="latin-1").write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if not os.path.exists(d + "/demo.sh"):
        open(d + "/demo.sh", "w").write(DEMO.replace("LDX", ldx))
    subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], check=True)
