#!/usr/bin/env python3
"""Builds one property's harness from /repo's current working tree and runs it.

usage: run.py <property id> [quick|thorough] [--seed N] [--replay FILE] [--only CHECK] [--scale F]
"""
import sys, os, subprocess, hashlib, json, time, re, glob, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, os.path.join(HERE, "fw"))
from props import PROPS, SCALE, ASAN_SHARE

INCLUDES = ["-I" + os.path.join(HERE, "fw/compat"), "-I" + os.path.join(HERE, "fw"), "-I" + os.path.join(REPO, "src"),
            "-isystem", os.path.join(REPO, "3rd/boost-bindings"), "-isystem", os.path.join(REPO, "3rd/log4cpp/include"),
            "-I" + os.path.join(REPO, "3rd/tinyxml")]
BASE = ["-std=c++14", "-g1", "-w", "-fPIC", "-DHAVE_LAPACK", "-DCOMPILER_USE_CXX11", "-DHAVE_MSGPACK", "-DNDEBUG",
        "-ftrivial-auto-var-init=pattern", "-pthread"]
MODES = {
    "plain": ["-O1"],
    "asan": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(HERE, "fw/ublas_index_check.h"), "-fsanitize=address,undefined,bounds-strict", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
}
LIBS = ["-llapack", "-lblas", "-lboost_serialization", "-lboost_regex", "-lboost_filesystem", "-lboost_thread",
        "-lboost_chrono", "-lboost_date_time", "-lboost_system", "-lpthread"]
ENV = dict(os.environ, LC_ALL="C")


def sha(b):
    return hashlib.sha256(b).hexdigest()


def file_sha(p, cache={}):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size)
        if k not in cache:
            with open(p, "rb") as f:
                cache[k] = sha(f.read())
        return cache[k]
    except OSError:
        return "missing"


def compile_one(src, flags, cxx="g++"):
    """returns (object path or None, error text)"""
    extra = ["-include", "ctime"] if src.endswith("utMeasurement/Timestamp.cpp") else []
    cc = "gcc" if src.endswith(".c") else cxx
    cmd = [cc] + flags + extra
    key = sha((" ".join(cmd) + "|" + src).encode())[:16]
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, os.path.basename(src) + "." + key + ".o")
    meta = obj + ".json"
    try:
        m = json.load(open(meta))
        if os.path.exists(obj) and all(file_sha(p) == h for p, h in m.items()):
            return obj, ""
    except Exception:
        pass
    dep = obj + ".d"
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-MT", "x", "-c", src, "-o", tmp], capture_output=True, text=True, env=ENV)
    if r.returncode != 0:
        return None, r.stderr
    os.replace(tmp, obj)
    deps = re.sub(r"\\\n", " ", open(dep).read()).split(":", 1)[1].split()
    deps = [p for p in deps if not p.startswith(("/usr/", "/opt/"))]
    json.dump({p: file_sha(p) for p in deps}, open(meta, "w"))
    return obj, ""


def repo_sources():
    """All library sources, globbed like the project's own CMakeLists does."""
    out = []
    for pat in ("*/*.cpp", "utAlgorithm/*/*.cpp", "utMath/*/*.cpp", "utTracking/*/*.cpp"):
        out += glob.glob(os.path.join(REPO, "src", pat))
    out = sorted(set(out))
    return [s for s in out if "ROSBinary" not in s and "ETWTracing" not in s and "LTTNG" not in s]


def third(name):
    if name == "log4cpp":
        return sorted(glob.glob(os.path.join(REPO, "3rd/log4cpp/src/*.cpp")))
    return []


def build(pid, cfg, jobs=8):
    flags = BASE + MODES[cfg.get("mode", "plain")] + cfg.get("flags", []) + INCLUDES
    fw_flags = flags
    tus = sorted(glob.glob(os.path.join(HERE, "harness", pid + "*.cpp")))
    libs = [os.path.join(REPO, "src", s) for s in cfg.get("lib", [])]
    libs = [s for s in libs if os.path.exists(s)]
    main = os.path.join(HERE, "fw/pbt_main.cpp")
    logs = third("log4cpp") if cfg.get("log", True) else []
    log_flags = ["-std=c++14", "-w", "-O0", "-fPIC", "-DNDEBUG", "-I" + os.path.join(REPO, "3rd/log4cpp/include")]
    all_src = tus + libs + [main] + logs
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda s: compile_one(s, log_flags if s in logs else flags), all_src))
    objs, skipped = [], []
    for s, (o, err) in zip(all_src, res):
        if o:
            objs.append(o)
        elif s in tus:
            skipped.append(os.path.basename(s))
            print("  not built: %s\n%s" % (s, err[:3000]))
        else:
            print("cannot compile %s\n%s" % (s, err[:4000]))
            return None, skipped
    if len(skipped) == len(tus):
        return None, skipped
    exe = os.path.join(BUILD, pid + "." + cfg.get("mode", "plain"))
    link = ["g++"] + MODES[cfg.get("mode", "plain")] + ["-o", exe] + objs + LIBS + cfg.get("link", [])
    r = subprocess.run(link, capture_output=True, text=True, env=ENV)
    if r.returncode != 0:
        # code may have moved between source files: take every library source
        with ThreadPoolExecutor(jobs) as ex:
            more = [s for s in repo_sources() if s not in libs]
            res = list(ex.map(lambda s: compile_one(s, flags), more))
        objs += [o for o, _ in res if o]
        link = ["g++"] + MODES[cfg.get("mode", "plain")] + ["-o", exe] + objs + LIBS + cfg.get("link", [])
        r2 = subprocess.run(link, capture_output=True, text=True, env=ENV)
        if r2.returncode != 0:
            print(r.stderr[-4000:])
            return None, skipped
    return exe, skipped


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    passthru = []
    evid = True
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--seed":
            seed = args.pop(0)
        elif a == "--no-evidence":
            evid = False
        elif a == "--mode":
            PROPS[pid]["mode"] = args.pop(0)
        elif a == "--build-only":
            ok = build(pid, PROPS[pid])[0] and (not sanitized(pid, tier) or build(pid, dict(PROPS[pid], mode="asan"))[0])
            return 0 if ok else 2
        else:
            passthru.append(a)
    try:
        seed = str(abs(int(seed)))
    except ValueError:
        seed = str(int(sha(seed.encode())[:8], 16))
    cfg = PROPS[pid]
    replay = passthru[passthru.index("--replay") + 1] if "--replay" in passthru else None
    if replay and "\nmode asan" in open(replay).read():
        cfg["mode"] = "asan"
    record = evid and not replay and "--only" not in passthru
    ev = os.path.join(HERE, "evidence", pid + ".json")
    ev2 = os.path.join(BUILD, pid + ".asan.json")
    rc = phase(pid, cfg, tier, seed, passthru, ev if record else None)
    if rc == 0 and not replay and "mode" not in cfg and sanitized(pid, tier):
        # the same checks on other cases, built with AddressSanitizer and UndefinedBehaviorSanitizer
        start = time.time()
        rc = phase(pid, dict(cfg, mode="asan"), tier, str(int(seed) + 1000003), passthru, ev2 if record else None)
        if rc == 1:
            d = passthru[passthru.index("--replay-dir") + 1] if "--replay-dir" in passthru else os.path.join(HERE, "replays")
            for f in glob.glob(os.path.join(d, pid + "-*.replay")):
                if os.path.getmtime(f) >= start - 1:
                    open(f, "a").write("mode asan\n")
        if record:
            merge(ev, ev2)
    hook = cfg.get("after")
    if hook and not passthru and rc == 0:
        rc = hook(HERE, REPO, BUILD, pid, tier, seed, compile_one, BASE, INCLUDES, LIBS)
    return rc if rc in (0, 1) else 2


def sanitized(pid, tier):
    return tier in PROPS[pid].get("asan", ("quick", "thorough")) and "mode" not in PROPS[pid]


def merge(ev, ev2):
    try:
        a, b = json.load(open(ev)), json.load(open(ev2))
    except Exception:
        return
    ca, cb = a["coverage"], b["coverage"]
    ca["sanitized"] = {"what": "further cases of the same checks (other seed), in a build with AddressSanitizer and UndefinedBehaviorSanitizer",
                       "evaluations": cb["evaluations"], "distinct_nontrivial": cb["distinct_nontrivial"]}
    for k in ("evaluations", "distinct_nontrivial"):
        ca[k] += cb[k]
    a["wall_s"] += b["wall_s"]
    a["violations"] = a.get("violations", 0) + b.get("violations", 0)
    json.dump(a, open(ev, "w"), indent=1)


def phase(pid, cfg, tier, seed, passthru, ev):
    mode = cfg.get("mode", "plain")
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    exe, skipped = build(pid, cfg)
    if not exe:
        print("BUILD-ERROR property=%s" % pid)
        return 2
    tb = time.time() - t0
    print("  built%s in %.1f s" % (" with sanitizers" if mode == "asan" else "", tb), flush=True)
    budget = cfg.get("budget", {}).get(tier, 90 if tier == "quick" else 1500)
    cmd = [exe, "--property", pid, "--tier", tier, "--seed", seed, "--replay-dir", os.path.join(HERE, "replays"),
           "--budget", str(budget), "--build-s", "%.2f" % tb, "--workers", str(os.cpu_count() or 8), "--skipped", ", ".join(skipped)]
    if ev:
        cmd += ["--evidence", ev]
    share = ASAN_SHARE if mode == "asan" and "mode" not in PROPS[pid] else 1
    if "--scale" not in passthru:
        cmd += ["--scale", str(cfg.get("scale", {}).get(tier, SCALE.get(tier, 1)) * share)]
    cmd += passthru
    env = dict(ENV, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", TZ="UTC")
    if mode == "asan" and replay_of(passthru):
        env["PBT_VERBOSE"] = "1"
    return subprocess.run(cmd, env=env).returncode


def replay_of(passthru):
    return "--replay" in passthru


if __name__ == "__main__":
    sys.exit(main())
