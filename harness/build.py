#!/usr/bin/env python3
"""Builds the simulator binary from /repo's current working tree (out of tree, ninja)."""
import os, re, subprocess, sys, glob, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))

SKIP = {"LinearSolverAGMG.cpp", "LinearSolverIstl.cpp", "xmltest.cpp"}
PROGRAMS = ["compute_tof", "compute_tof_from_files", "sim_2p_incomp", "sim_2p_comp_reorder"]
WRAP = ["malloc", "calloc", "realloc", "free", "fopen"]


def lib_sources():
    txt = open(os.path.join(REPO, "CMakeLists_files.cmake")).read()
    m = re.search(r"APPEND\s+MAIN_SOURCE_FILES(.*?)\)", txt, re.S)
    out = []
    for line in m.group(1).split():
        if os.path.basename(line) in SKIP or not re.search(r"\.(c|cpp|cc|cxx)$", line):
            continue
        out.append(line)
    return out


def generate():
    os.makedirs(BUILD, exist_ok=True)
    san = "-fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern"
    common = f"-pipe -w -g1 -O1 {san} -DDEBUG -DHAVE_CONFIG_H=1 -ffp-contract=off"
    inc = f"-I{HERE}/config -I{REPO} -I/usr/include/suitesparse"
    L = []
    L.append("ninja_required_version = 1.3")
    L.append(f"rule cc\n  command = gcc -std=c99 {common} -DUF_long=long {inc} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $in")
    L.append(f"rule cxx\n  command = g++ -std=c++11 {common} {inc} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    L.append(f"rule hxx\n  command = g++ -std=c++14 {common} {inc} -I{HERE} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = HXX $in")
    L.append(f"rule prog\n  command = g++ -std=c++11 {common} {inc} -MMD -MF $out.d -c $in -o $out && objcopy --redefine-sym main=prog_$name $out\n  depfile = $out.d\n  deps = gcc\n  description = PROG $in")
    wrap = " ".join(f"-Wl,--wrap={w}" for w in WRAP)
    libs = "-lboost_filesystem -lboost_system -lboost_date_time -lumfpack -lsuitesparseconfig -llapack -lblas -ldl -lpthread"
    L.append(f"rule link\n  command = g++ {san} -rdynamic {wrap} @$out.rsp -o $out {libs}\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = LINK $out")
    objs = []
    for s in lib_sources():
        o = "lib/" + s.replace("/", "_") + ".o"
        L.append(f"build {o}: {'cc' if s.endswith('.c') else 'cxx'} {REPO}/{s}")
        objs.append(o)
    for s in PROGRAMS:          # the shipped programs, each with its main under another name
        o = f"prog/{s}.o"
        L.append(f"build {o}: prog {REPO}/examples/{s}.cpp\n  name = {s}")
        objs.append(o)
    for d in ("core", "props"):
        for s in sorted(glob.glob(os.path.join(HERE, d, "*.cpp"))):
            o = f"h/{d}_{os.path.basename(s)}.o"
            L.append(f"build {o}: hxx {s}")
            objs.append(o)
    L.append(f"build dst: link {' '.join(objs)}")
    L.append("default dst")
    txt = "\n".join(L) + "\n"
    p = os.path.join(BUILD, "build.ninja")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate()
        r = subprocess.run(["ninja", "-C", BUILD, "dst"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(3)
    if verbose:
        print(r.stdout[-500:])
    return os.path.join(BUILD, "dst")


if __name__ == "__main__":
    print(build(True))
