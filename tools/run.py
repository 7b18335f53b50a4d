#!/usr/bin/env python3
"""Runs one property check.  usage: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] | --setup
Rebuilds what the check needs from /repo's working tree (out of tree, in /verif/build), compiles the
harness, runs the exploration, compares violations with KNOWN_FINDINGS.json, writes evidence/<id>.json."""
import sys, os, json, subprocess, time, fcntl, hashlib, shutil, signal, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, os.path.join(ROOT, "tools"))
os.environ["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", "")
os.environ["LC_ALL"] = "C.UTF-8"
for k in list(os.environ):
    if k.startswith("CALI_"): del os.environ[k]
JOBS = int(os.environ.get("VX_JOBS", "8"))

COMMON = ["-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_SHARED_LIBS=OFF", "-DWITH_GOTCHA=OFF", "-DWITH_KOKKOS=OFF",
          "-DWITH_SAMPLER=OFF", "-DINSTALL_CONFIG=OFF", "-DINSTALL_HEADERS=OFF", "-DBUILD_TESTING=OFF", "-DCMAKE_C_COMPILER=/usr/bin/clang", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++"]
CONFIGS = {
    # name: (compile flags, extra cmake args, link flags)
    "plain": ("-O1 -g1", ["-DWITH_TOOLS=ON"], "-static"),
    "asan":  ("-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,function,alignment,nonnull-attribute -fno-sanitize-recover=undefined -fno-omit-frame-pointer", ["-DWITH_TOOLS=ON"], "-fsanitize=address,undefined"),
    "sched": ("-O1 -g1 -fsanitize=thread -fno-omit-frame-pointer -fno-optimize-sibling-calls -mllvm -tsan-instrument-func-entry-exit=0 -D_GLIBCXX_EXTERN_TEMPLATE=0", ["-DWITH_TOOLS=OFF"], "-no-pie"),
}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg, code=2):
    print(msg); sys.stdout.flush(); sys.exit(code)

def build_lib(cfg):
    flags, extra, _ = CONFIGS[cfg]
    d = os.path.join(BUILD, cfg)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, cfg + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(d, "flags")
        if os.path.exists(stamp) and open(stamp).read() != repr(CONFIGS[cfg]): shutil.rmtree(d); os.makedirs(d)
        if not os.path.exists(os.path.join(d, "build.ninja")):
            r = sh(["cmake", "-S", REPO, "-B", d] + COMMON + extra + ["-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_C_FLAGS=" + flags])
            if r.returncode:
                shutil.rmtree(d, ignore_errors=True)
                die("cmake failed\n" + r.stdout[-4000:])
            open(stamp, "w").write(repr(CONFIGS[cfg]))
        tgt = ["src/libcaliper.a"] if "-DWITH_TOOLS=OFF" in extra else ["src/libcaliper.a", "cali-query"]
        r = sh(["ninja", "-C", d, "-j", str(JOBS)] + tgt)
        if r.returncode: die("build failed\n" + r.stdout[-6000:])
    return d

def build_harness(name, src, cfg, flags="", libs="", deps=()):
    libdir = build_lib(cfg)
    out = os.path.join(BUILD, "bin"); os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, name)
    lib = os.path.join(libdir, "src", "libcaliper.a")
    cflags, _, lflags = CONFIGS[cfg]
    srcs = [s.replace("@REPO@", REPO) if s.startswith("@REPO@") else os.path.join(ROOT, "harness", s) for s in src]
    newest = max(os.path.getmtime(f) for f in srcs + [lib] + [os.path.join(ROOT, "harness", h) for h in os.listdir(os.path.join(ROOT, "harness"))])
    for s in srcs:
        if s.startswith(REPO): newest = max([newest] + [os.path.getmtime(os.path.join(b, f)) for b, _, fs in os.walk(os.path.join(REPO, "src")) for f in fs if f.endswith((".h", ".hpp", ".cpp"))])
    for base, _, fs in os.walk(os.path.join(REPO, "include")):
        newest = max([newest] + [os.path.getmtime(os.path.join(base, f)) for f in fs])
    with open(os.path.join(BUILD, "bin-" + name + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe) and os.path.getmtime(exe) > newest: return exe, libdir
        if cfg == "sched":  # the runtime is not instrumented itself
            cmd, objs = f"clang++ -std=c++17 -O2 -g1 -fno-omit-frame-pointer -fno-builtin -Wno-everything -c {ROOT}/harness/sched_rt.cpp -o {exe}.rt.o", [exe + ".rt.o"]
            for n, f in enumerate(srcs):
                objs.append(f"{exe}.{n}.o")
                cmd += f" && clang++ -std=c++17 {cflags} {flags} -Wno-everything -I{REPO}/include -I{REPO}/src -I{libdir}/include -I{ROOT}/harness -c {f} -o {objs[-1]}"
            r = sh(cmd, shell=True)
            if r.returncode: die("harness build failed: " + cmd + "\n" + r.stdout[-6000:])
            srcs, cflags = objs, ""
        cmd = f"clang++ -std=c++17 {cflags} {flags} -Wno-everything -I{REPO}/include -I{REPO}/src -I{libdir}/include -I{ROOT}/harness {' '.join(srcs)} -o {exe}.tmp {lib} {lflags} {libs} -lpthread -ldl"
        r = sh(cmd, shell=True)
        if r.returncode: die("harness build failed: " + cmd + "\n" + r.stdout[-6000:])
        os.rename(exe + ".tmp", exe)
    return exe, libdir

def known_for(pid):
    p = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid and f.get("status", "open") == "open"]

def finish(pid, spec, tier, res, t0, extra_assumptions=()):
    """res: merged result dict of all harness runs"""
    known = {f["sig"]: f for f in known_for(pid)}
    viol = [v for v in res["violations"] if v.get("sig", "") not in known or not v.get("sig")]
    hits = set(res.get("known_hits", [])) | {v["sig"] for v in res["violations"] if v.get("sig") in known}
    for s in sorted(known):
        if s in hits: print(f"KNOWN-FINDING: property={pid} {known[s]['what']}")
    level = spec["level"]
    cov = {"scenarios": res.get("scenarios", []), "samples": res.get("samples", [])[:12] or ["(none)"], "exhaustive": not res.get("capped", False),
           "rule": spec["rule"], "bounds": spec.get("bounds", "")}
    if level == "model_checking":
        cov["states"] = res["distinct"]; cov["transitions"] = res["transitions"]; cov["traces_validated_against_impl"] = res["leaves"]
        if res.get("evaluations"): cov["evaluations"] = res["evaluations"]
    else:
        cov["evaluations"] = res["evaluations"] + res["transitions"]; cov["distinct_nontrivial"] = res["distinct"]
    for k, v in res.get("extra", {}).items(): cov[k] = v
    if known: cov["known_findings_seen"] = sorted(hits)
    if res.get("unconfirmed"): cov["unconfirmed_violations_dropped"] = res["unconfirmed"]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []) + list(extra_assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    n = res["transitions"] + res["evaluations"]
    print(f"{pid}: {n} transitions/evaluations, {res['distinct']} distinct, {len(res.get('scenarios', []))} scenarios, capped={res.get('capped')}, wall={ev['wall_s']}s")
    if n == 0 and not viol: die(f"{pid}: nothing explored")
    if viol:
        rd = os.path.join(ROOT, "evidence", "replays"); os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(viol[:8]):
            p = os.path.join(rd, f"{pid}-{i}.json")
            json.dump(dict(property=pid, harness=v.get("harness", ""), replay=v["replay"], msg=v["msg"], confirmed=v.get("confirmed", ""), sig=v.get("sig", "")), open(p, "w"), indent=1)
            print(f"VIOLATION property={pid} replay={p}")
            print("  " + v["msg"][:1500].replace("\n", "\n  "))
        sys.stdout.flush()
        sys.exit(1)
    sys.exit(0)

def empty_res():
    return dict(evaluations=0, transitions=0, leaves=0, distinct=0, capped=False, violations=[], scenarios=[], samples=[], known_hits=[], unconfirmed=0, extra={})

def merge(res, r, harness=""):
    for k in ("evaluations", "transitions", "leaves", "distinct", "unconfirmed"): res[k] += r.get(k, 0)
    res["capped"] = res["capped"] or r.get("capped", False)
    for v in r["violations"]: v["harness"] = harness
    for k in ("violations", "scenarios", "samples", "known_hits"): res[k] += r.get(k, [])
    res["extra"].update(r.get("extra", {}))

def run_harness(pid, h, tier, budget, replay=None, only=None):
    exe, libdir = build_harness(h["name"], h["src"], h.get("config", "plain"), h.get("flags", "").replace("@REPO@", REPO).replace("@ROOT@", ROOT), h.get("libs", ""))
    scratch = tempfile.mkdtemp(prefix="vx-" + h["name"] + "-", dir="/tmp")
    try:
        out = os.path.join(scratch, "result.json")
        kf = os.path.join(scratch, "known.txt")
        open(kf, "w").write("".join(f["sig"] + "\n" for f in known_for(pid)))
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096"
        env["UBSAN_OPTIONS"] = "exitcode=99:halt_on_error=1:print_stacktrace=0"
        env["VX_BUILD"] = libdir
        env["VX_REPO"] = REPO
        env["VX_ROOT"] = ROOT
        cmd = [exe, "--tier", tier, "--out", out, "--jobs", str(JOBS), "--budget", str(budget), "--scratch", scratch, "--known", kf] + h.get("args", [])
        if only: cmd += ["--only", only]
        if os.environ.get("VX_VERBOSE"): cmd += ["-v"]
        if replay:
            return subprocess.run(cmd + ["--replay", replay, "-v"], env=env, cwd=scratch).returncode
        r = subprocess.run(cmd, env=env, cwd=scratch, stdout=subprocess.DEVNULL if not os.environ.get("VX_VERBOSE") else None)
        if r.returncode != 0 or not os.path.exists(out): die(f"harness {h['name']} failed with {r.returncode}")
        return json.load(open(out))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build_lib("plain"); build_lib("sched"); print("ok"); return
    from checks import CHECKS
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    spec = CHECKS[pid]
    if "--replay" in args:
        j = json.load(open(args[args.index("--replay") + 1]))
        for h in spec["harnesses"]:
            if h["name"] == j["harness"]: sys.exit(run_harness(pid, h, tier, 600, replay=j["replay"]))
        sys.exit(2)
    only = args[args.index("--only") + 1] if "--only" in args else None
    t0 = time.time()
    res = empty_res()
    budget = spec.get("budget", 420 if tier == "quick" else 3000) / max(1, len(spec.get("harnesses", [1])))
    for h in spec.get("harnesses", []):
        if only and h["name"] != only.split(":")[0] : continue
        merge(res, run_harness(pid, h, tier, budget, only=only.split(":")[1] if only and ":" in only else None), h["name"])
    if "python" in spec:
        import importlib
        m = importlib.import_module(spec["python"])
        merge(res, m.run(sys.modules[__name__], pid, tier), spec["python"])
    finish(pid, spec, tier, res, t0)

if __name__ == "__main__":
    main()
