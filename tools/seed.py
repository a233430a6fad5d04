#!/usr/bin/env python3
# seed.py make ID...   write seeded/<ID> from tools/bugs*.py, confirm that the demonstration separates, run the check against it
# seed.py check ID...  run the property's quick check against a scratch copy with the planted bug applied
# seed.py list
import sys, os, subprocess, shutil, json, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedw"
BUGS = {}
def bug(id, prop, edits, needs, breaks, demo, san=False, libs=True):
    assert id not in BUGS; BUGS[id] = dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, san=san, libs=libs)
G = {"bug": bug}
for f in sorted(glob.glob(V+"/tools/bugs*.py")): exec(compile(open(f).read(), f, "exec"), G)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# exits 0 on the unchanged tree, nonzero with the planted change (run in the repository root)
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3
trap 'find "$T" -delete' EXIT
p=()
for f in "$D/demo.cpp" %(srcs)s; do g++ -std=gnu++14 -O0 -w -D_DEBUG %(san)s -Iinclude -c "$f" -o "$T/$(basename "$f").o" & p+=($!); done
r=0; for x in "${p[@]}"; do wait "$x" || r=4; done
[ $r = 0 ] || { echo "does not compile" >&2; exit 4; }
g++ %(san)s "$T"/*.o -o "$T/demo" -ldl -lpthread || exit 4
cd "$T" && timeout 120 ./demo
'''
PRE = '''#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <string>
#include <vector>
#define EXPECT( c ) do { if( !( c ) ) { std::fprintf( stderr, "line %d: %s does not hold\\n", __LINE__, #c ); std::exit( 1 ); } } while( false )
'''
def scratch(b=None):
    shutil.rmtree(W, ignore_errors=True); r = sh(f"git clone -q /repo {W}"); assert r.returncode == 0, r.stderr
    if b:
        for f, old, new in b["edits"]:
            p = f"{W}/{f}"; s = open(p).read(); assert s.count(old) == 1, (b["id"], f, s.count(old), old); open(p, "w").write(s.replace(old, new))
def make(b):
    d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
    scratch(b); diff = sh(f"git -C {W} diff").stdout; assert diff
    open(d+"/patch.diff", "w").write(diff)
    open(d+"/demo.cpp", "w").write(PRE + b["demo"])
    open(d+"/demo.sh", "w").write(DEMO % dict(san="-g1 -fsanitize=address" if b["san"] else "", srcs="src/OpaqueTickCounter.cpp src/PerTypeStorage.cpp src/TimerCalibrator.cpp src/reg_ode_solvers.cpp" if b["libs"] else ""))
    os.chmod(d+"/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d+"/meta.json", "w"), indent=1)
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo"); r1 = sh(f"bash {d}/demo.sh", cwd=W)
    # the repository's own LU test and vector tests still pass (fast approximation; vcheck runs the real ones)
    ok = r0.returncode == 0 and r1.returncode not in (0, 3, 4)
    print(f"{b['id']} ({b['prop']}): demo clean={r0.returncode} planted={r1.returncode} {'OK' if ok else 'BAD'} {r1.stderr.strip()[-160:]}")
    if r0.returncode: print(r0.stderr[:600])
    if r1.returncode in (3,4): print(r1.stderr[:600])
    return ok
def check(b, prop=None):
    env = dict(os.environ, MC_REPO=W); r = sh(f"./check {prop or b['prop']} quick", cwd=V, env=env)
    v = [l for l in r.stdout.splitlines() if l.startswith("  ")][:2]
    print(f"    check {prop or b['prop']}: exit {r.returncode} {'CAUGHT' if r.returncode==1 else 'MISSED' if r.returncode==0 else 'ERROR '+r.stderr[-500:]}  {' | '.join(x.strip()[:150] for x in v) if r.returncode==1 else ''}", flush=True)
cmd, ids = sys.argv[1], sys.argv[2:] or list(BUGS)
for i in ids:
    b = BUGS[i]
    if cmd == "list": print(i, b["prop"]); continue
    if cmd == "make" and not make(b): continue
    if cmd == "check": scratch(b)
    check(b)
shutil.rmtree(W, ignore_errors=True)
