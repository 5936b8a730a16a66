#!/usr/bin/env python3
"""Development tool: plants a bug in a scratch copy of /repo (/tmp/sw), confirms it (builds, stable tests pass, demo passes
without and fails with it), stores it under seeded/<id>/ and runs the property's quick check against the scratch copy.
usage: mkseed.py SPEC.py [...]   SPEC defines lists via S(id, prop, needs, breaks, edits, demo)
       mkseed.py --recheck [id...]   re-run the checks against stored bugs
"""
import sys, os, subprocess, json, shutil, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = "/tmp/sw"; VB = "/tmp/sw_vb"
DEMO_SH = '''#!/bin/bash
# compiles demo.cpp against the built library; exit 0: behaviour as documented
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export LC_ALL=C
COMPAT=/opt/vp/cmake/compat
g++ -std=c++14 -O1 -w -DHAVE_LAPACK -DCOMPILER_USE_CXX11 -DHAVE_MSGPACK -DNDEBUG -ftrivial-auto-var-init=pattern \\
  -I"$COMPAT" -I"$PWD/src" -isystem "$PWD/3rd/boost-bindings" -I"$PWD/3rd/log4cpp/include" -I"$PWD/3rd/tinyxml" \\
  "$D/demo.cpp" -o "$T/demo" -L"$PWD/_build/utcore" -L"$PWD/_build/3rd/log4cpp" -Wl,-rpath,"$PWD/_build/utcore" -Wl,-rpath,"$PWD/_build/3rd/log4cpp" \\
  -lutcore -llog4cpp -llapack -lblas -lboost_serialization -lboost_regex -lboost_filesystem -lboost_thread -lboost_chrono -lboost_date_time -lboost_system -lpthread || exit 3
cd "$T" && timeout 120 ./demo
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def prepare():
    if not os.path.exists(SW):
        sh("git -C /repo worktree prune; git clone -q /repo %s" % SW)
    sh("cd %s && git fetch -q && git checkout -q -f --detach $(git -C /repo rev-parse HEAD) && git clean -fdq -e _build" % SW)

def build():
    r = sh("CC=gcc CXX=g++ LC_ALL=C cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DUTCORE_DIR=%s -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS='-Wno-deprecated -Wno-deprecated-declarations' && ninja -C %s/_build" % (SW, SW, SW))
    return r.returncode == 0, (r.stdout + r.stderr)[-3000:]

def tests():
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    os.makedirs(SW + "/_build/tr", exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor
    def one(t):
        r = sh("cd %s/_build/tr && timeout 300 ../utcore/utcore_tests --run_test='%s' --color_output=no" % (SW, t.split("/", 1)[1] if False else t))
        if "No errors detected" not in r.stdout + r.stderr:
            r = sh("cd %s/_build/tr && timeout 300 ../utcore/utcore_tests --run_test='%s' --color_output=no" % (SW, t.split("/", 1)[1]))
        return t if "No errors detected" not in r.stdout + r.stderr else None
    with ThreadPoolExecutor(8) as ex:
        return [x for x in ex.map(one, st) if x]

def check(bid, prop):
    env = dict(os.environ, VERIF_REPO=SW, VERIF_BUILD=VB, VERIF_SEED="1")
    r = subprocess.run([sys.executable, HERE + "/run.py", prop, "quick", "--no-evidence", "--replay-dir", "/tmp/sw_rep"], capture_output=True, text=True, env=env)
    line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
    names = sorted(set(l.split("replay=")[1].split("/")[-1].split("-", 1)[1].rsplit(".", 1)[0] for l in line))
    ok = r.returncode == 1 and line
    res = ("caught" if ok else "MISSED rc=%d" % r.returncode)
    p = HERE + "/fw/seeded_results.json"
    d = json.load(open(p)) if os.path.exists(p) else {}
    d[bid] = res + (" by " + prop + " " + ", ".join(names) if ok else "")
    json.dump(d, open(p, "w"), indent=1, sort_keys=True)
    print("  CHECK %s: %s" % (bid, d[bid]))
    tail = [l for l in r.stdout.splitlines() if l.strip()][-6:]
    print("     " + "\n     ".join(x[:300] for x in tail))
    return bool(ok)

def S(id, prop, needs, breaks, edits, demo):
    print("== %s (%s)" % (id, prop), flush=True)
    prepare()
    for f, old, new in edits:
        p = os.path.join(SW, "src", f)
        b = open(p, "rb").read(); crlf = b"\r\n" in b
        s = b.decode("latin1").replace("\r\n", "\n")
        if s.count(old) != 1:
            print("  edit does not match exactly once (%d): %s %r" % (s.count(old), f, old)); return
        s = s.replace(old, new)
        open(p, "wb").write((s.replace("\n", "\r\n") if crlf else s).encode("latin1"))
    d = os.path.join(HERE, "seeded", id)
    diff = subprocess.run(["git", "-C", SW, "diff", "--binary"], capture_output=True).stdout
    if not diff:
        print("  empty diff"); return
    ok, out = build()
    if not ok:
        print("  BUILD FAILED\n" + out); return
    bad = tests()
    if bad:
        print("  stable tests fail: %s" % bad); return
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if sh("git -C /repo apply --check %s/patch.diff" % d).returncode:
        print("  patch does not apply to /repo"); shutil.rmtree(d); return
    r1 = sh("bash %s/demo.sh" % d, cwd="/repo"); r2 = sh("bash %s/demo.sh" % d, cwd=SW)
    if r1.returncode != 0 or r2.returncode in (0, 3):
        print("  demo: clean %d, bug %d\n%s\n%s" % (r1.returncode, r2.returncode, (r1.stdout + r1.stderr)[-1500:], (r2.stdout + r2.stderr)[-1500:])); shutil.rmtree(d); return
    check(id, prop)

def recheck(ids):
    for m in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
        b = os.path.basename(os.path.dirname(m))
        if ids and b not in ids and json.load(open(m))["property"] not in ids: continue
        prepare()
        if sh("git -C %s apply %s/patch.diff" % (SW, os.path.dirname(m))).returncode:
            print("  %s: patch does not apply" % b); continue
        check(b, json.load(open(m))["property"])
    prepare()

if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        recheck(sys.argv[2:])
    else:
        for spec in sys.argv[1:]:
            exec(compile(open(spec).read(), spec, "exec"), {"S": S})
        prepare()
