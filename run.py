#!/usr/bin/env python3
"""Runs the check of one property against /repo's current tree.

    run.py PROP [--tier quick|thorough] [--replay FILE] [--seed N]

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: no verdict
(build failure, harness failure, monitor observed too little).
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from registry import PROPS  # noqa: E402

JOBS = 8
INC = ["-I" + os.path.join(REPO, "xcsf"), "-I" + os.path.join(REPO, "lib"), "-I/opt/vp/cmake/include"]
DEFS = ["-DDSFMT_MEXP=19937", "-DPARALLEL", "-DPARALLEL_MATCH", "-DPARALLEL_PRED", "-DPARALLEL_UPDATE"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vla-bound",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # name: (compile flags, link flags, environment)
    "plain": (["-O2", "-g1", "-fopenmp"], ["-fopenmp"], {}),
    "asan": (["-O1", "-g1", "-fopenmp"] + SAN, ["-fopenmp"] + SAN, {}),
    # clang: MemorySanitizer-free UB variants are not needed; tsan uses the
    # harness' own OpenMP runtime, so that every synchronisation is visible
    "tsan": (["-O1", "-g1", "-fopenmp", "-fsanitize=thread", "-finstrument-functions"], ["-fsanitize=thread", "-lpthread"], {}),
    "sched": (["-O2", "-g1", "-fopenmp", "-finstrument-functions"], ["-lpthread"], {}),
    "vg": (["-O1", "-g", "-fno-inline-functions"], [], {}),
}
LIBS = ["-ldSFMT-19937", "-lcjson", "-lm"]


def die(msg):
    print("ERROR (no verdict): " + msg, flush=True)
    sys.exit(2)


def c_sources():
    return sorted(f for f in glob.glob(os.path.join(REPO, "xcsf", "*.c")) if os.path.basename(f) != "main.c")


def tree_hash():
    h = hashlib.sha256()
    for d in ("xcsf", "lib"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "__pycache__"))
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:16]


def run_cmds(cmds):
    errs = []

    def one(c):
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            errs.append(" ".join(c) + "\n" + r.stdout[-3000:])

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, cmds))
    if errs:
        die("build failed:\n" + errs[0])


def file_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def build_c(variant, th):
    """Objects of the code under test, for one variant."""
    cf = VARIANTS[variant][0]
    d = os.path.join(BUILD, f"{variant}-{th}-{hashlib.sha256(' '.join(cf).encode()).hexdigest()[:6]}")
    if os.path.exists(os.path.join(d, "ok")):
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cc = "gcc"
    cmds = [[cc, "-c", *cf, *DEFS, *INC, "-fPIC", "-w", s, "-o", os.path.join(d, os.path.basename(s)[:-2] + ".o")]
            for s in c_sources()]
    run_cmds(cmds)
    open(os.path.join(d, "ok"), "w").close()
    return d


def build_bin(part, th):
    """Links the harness of a part with the code under test."""
    variant = part.get("variant", "plain")
    cf, lf, _ = VARIANTS[variant]
    cd = build_c(variant, th)
    hd = os.path.join(VERIF, "harness")
    srcs = [os.path.join(hd, s) for s in [part["src"], "core.cpp"] + part.get("extra", [])]
    heads = sorted(glob.glob(os.path.join(hd, "*.h")))
    wraps = part.get("wrap", [])
    defs = part.get("defs", []) + (["-DLIMIT_MEM"] if variant in ("plain", "sched") else []) + ["-DWRAP_" + w for w in wraps]
    key = file_hash(srcs + heads, th + variant + " ".join(cf + lf + wraps + defs))
    exe = os.path.join(BUILD, f"{part['src'].split('.')[0]}-{variant}-{key}")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    objs, cmds = [], []
    for s in srcs:
        o = exe + "-" + os.path.basename(s) + ".o"
        objs.append(o)
        hf = [x for x in cf if x != "-finstrument-functions"]
        cmds.append([*(["gcc"] if s.endswith(".c") else ["g++", "-std=c++17"]), "-c", *hf, *DEFS, *defs, *INC, "-I" + hd, "-w", s, "-o", o])
    run_cmds(cmds)
    clib = os.path.join(cd, "ok")
    cobjs = sorted(glob.glob(os.path.join(cd, "*.o")))
    run_cmds([["g++", *objs, *cobjs, *lf, *["-Wl,--wrap=" + w for w in wraps], *LIBS, *part.get("libs", []), "-o", exe + ".tmp"]])
    os.rename(exe + ".tmp", exe)
    for o in objs:
        os.unlink(o)
    return exe


def build_py(variant, th):
    """The Python module of the current tree, in its own package directory."""
    cf, lf, _ = VARIANTS[variant]
    src = os.path.join(REPO, "xcsf", "pybind_wrapper.cpp")
    sh = file_hash([os.path.join(VERIF, "harness", "shim.cpp"), os.path.join(VERIF, "harness", "core.h")], " ".join(cf))[:6]
    d = os.path.join(BUILD, f"py-{variant}-{th}-{sh}")
    if os.path.exists(os.path.join(d, "ok")):
        return d
    shutil.rmtree(d, ignore_errors=True)
    pk = os.path.join(d, "xcsf")
    os.makedirs(pk)
    py = "/opt/vp/venv/bin/python"
    pinc = subprocess.run([py, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"],
                          stdout=subprocess.PIPE, text=True).stdout.strip()
    sfx = subprocess.run([py, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         stdout=subprocess.PIPE, text=True).stdout.strip()
    with ThreadPoolExecutor(2) as ex:
        f = ex.submit(build_c, variant, th)
        o = os.path.join(d, "wrapper.o")
        o2 = os.path.join(d, "shim.o")
        hd = os.path.join(VERIF, "harness")
        run_cmds([["g++", "-std=c++17", "-c", *cf, *DEFS, *INC, "-I" + pinc, "-fvisibility=hidden", "-fPIC", "-w", src, "-o", o],
                  ["g++", "-std=c++17", "-c", *cf, *DEFS, *INC, "-I" + hd, "-fPIC", "-w", os.path.join(hd, "shim.cpp"), "-o", o2]])
        cd = f.result()
    cobjs = sorted(glob.glob(os.path.join(cd, "*.o")))
    run_cmds([["g++", "-shared", o, o2, *cobjs, *lf, *LIBS, "-o", os.path.join(pk, "xcsf" + sfx)]])
    for f in glob.glob(os.path.join(REPO, "xcsf", "*.py")):
        shutil.copy(f, pk)
    if os.path.isdir(os.path.join(REPO, "xcsf", "utils")):
        shutil.copytree(os.path.join(REPO, "xcsf", "utils"), os.path.join(pk, "utils"))
    open(os.path.join(d, "ok"), "w").close()
    return d


def prune(th):
    """Keeps the build directory small: drops products of other trees."""
    if not os.path.isdir(BUILD):
        return
    now = time.time()
    for e in os.listdir(BUILD):
        p = os.path.join(BUILD, e)
        try:
            if now - os.path.getmtime(p) > 3 * 3600:
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        except OSError:
            pass


def known(prop):
    out = []
    for line in open(os.path.join(VERIF, "known_findings.txt")):
        line = line.strip()
        if line.startswith("known:"):
            f = dict(w.split("=", 1) for w in line.split()[1:3])
            if f.get("property") == prop:
                out.append((f["key"], " ".join(line.split()[3:])))
    return out


ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "LSAN_OPTIONS": "exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:report_signal_unsafe=0:history_size=4",
    "OMP_WAIT_POLICY": "passive",
    "OMP_DYNAMIC": "false",
    "LANG": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
}


def refine(key, msg):
    """Names the failing site of a sanitizer report, so that a listed finding
    hides nothing but itself."""
    if key != "sanitizer":
        return key
    m = re.search(r"(?:Address|Leak|Thread)Sanitizer: ([\w-]+(?: [\w-]+)?)", msg)
    if m:
        kind = m.group(1).split(" on")[0]
    else:
        m = re.search(r"runtime error: ([^\n]{0,60})", msg)
        kind = re.sub(r"[^A-Za-z]+", "-", m.group(1))[:40] if m else "report"
    v = re.search(r"== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param)", msg)
    if v:
        kind = v.group(1)
    f = re.search(r"#\d+ (?:0x\w+ in )?(\w+) " + re.escape(REPO), msg) or re.search(r"0x[0-9A-F]+: (\w+) \(\w+\.c:\d+\)", msg)
    return f"sanitizer:{kind.strip().replace(' ', '-')}:{f.group(1) if f else '?'}"


def run_part(prop, part, seed, tier, th, tmp, replay=None):
    env = dict(os.environ)
    env.update(ENV)
    env.update(part.get("env", {}))
    name = part["name"]
    workers = part.get("workers", JOBS)
    if "py" in part:
        mod = build_py(part.get("variant", "plain"), th)
        env["PYTHONPATH"] = mod + ":" + os.path.join(VERIF, "harness")
        if part.get("variant") == "asan":
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
            stdc = subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], stdout=subprocess.PIPE, text=True).stdout.strip()
            env["LD_PRELOAD"] = lib + " " + stdc
            env["PYTHONMALLOC"] = "malloc"
        if part.get("preload"):
            so = os.path.join(tmp, part["preload"] + ".so")
            run_cmds([["gcc", "-O2", "-g", "-shared", "-fPIC", "-w", os.path.join(VERIF, "harness", part["preload"]), "-o", so, "-ldl"]])
            env["LD_PRELOAD"] = so
        base = ["/opt/vp/venv/bin/python", os.path.join(VERIF, "harness", part["py"])]
    else:
        base = [build_bin(part, th)]
    base = part.get("prefix", []) + base
    base += ["--seed", str(seed), "--salt", prop + name]
    if tier == "thorough":
        base.append("--thorough")
    if not known(prop) and not os.environ.get("VERIF_ALL"):
        base += ["--stop", os.path.join(tmp, "stop")]
    if part.get("cpu"):
        base += ["--cpu", str(part["cpu"])]
    if replay is not None:
        d = os.path.join(tmp, name + ".replay")
        os.makedirs(d)
        out = os.path.join(d, "out.json")
        subprocess.run(base + ["--case", str(replay), "--verbose", "--tmp", d, "--out", out], env=env)
        return [json.load(open(out))]
    procs = []
    for w in range(workers):
        d = os.path.join(tmp, f"{name}.{w}")
        os.makedirs(d)
        out = os.path.join(d, "out.json")
        cmd = base + ["--worker", str(w), "--workers", str(workers), "--tmp", d, "--out", out]
        lf = open(os.path.join(d, "driver.log"), "w")
        procs.append((subprocess.Popen(cmd, env=env, stdout=lf, stderr=subprocess.STDOUT, cwd=d), out, d))
    res = []
    for p, out, d in procs:
        rc = p.wait()
        try:
            res.append(json.load(open(out)))
        except (OSError, ValueError):
            die(f"harness worker of part {name} ended with status {rc} and no result:\n"
                + open(os.path.join(d, "driver.log"), errors="replace").read()[-3000:])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--show", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    prop = a.prop
    spec = PROPS[prop]
    t0 = time.time()
    prune(None)
    th = tree_hash()
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        if a.replay:
            r = json.load(open(a.replay))
            part = next(p for p in spec["parts"] if p["name"] == r["part"])
            res = run_part(prop, part, r["seed"], r["tier"], th, tmp, replay=r["case"])
            for v in res[0]["violations"]:
                print(v["key"], v["msg"])
            sys.exit(1 if res[0]["violations"] else 0)
        cnt, hashes, samples, viols = {}, set(), [], []
        evals = inconc = 0
        per_part = {}
        missing = []
        for part in spec["parts"]:
            if a.part and part["name"] != a.part:
                continue
            if tier == "quick" and part.get("thorough_only"):
                continue
            if viols and os.path.exists(os.path.join(tmp, "stop")):
                break  # decided
            t1 = time.time()
            pc = {}
            for r in run_part(prop, part, seed, tier, th, tmp):
                evals += r["evaluations"]
                inconc += r["inconclusive"]
                for k, v in r["counters"].items():
                    cnt[k] = cnt.get(k, 0) + v
                    pc[k] = pc.get(k, 0) + v
                hashes.update(r["hashes"])
                if len(samples) < 6:
                    samples += r["samples"][:1]
                for v in r["violations"]:
                    viols.append((part["name"], v["case"], refine(v["key"], v["msg"]), v["msg"]))
            per_part[part["name"]] = {"wall_s": round(time.time() - t1, 1), "observed": pc}
            for k, need in part.get("require", {}).items():
                if pc.get(k, 0) < need:
                    missing.append(f"{part['name']}: {k} seen {pc.get(k, 0)} < {need}")
        kn = known(prop)
        fresh, listed = [], set()
        for v in viols:
            m = next((k for k in kn if v[2] == k[0]), None)
            if m:
                listed.add(m)
            else:
                fresh.append(v)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": spec["rule"],
                "samples": samples or ["(none)"], "observed_events": cnt, "parts": per_part,
                "inconclusive": inconc, "code_under_test": th,
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not a.part:
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        for k in sorted(listed):
            print(f"KNOWN-FINDING: property={prop} {k[0]} {k[1]}")
        if fresh:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            fresh.sort(key=lambda v: (v[0], v[1]))
            seen = set()
            for n, (pn, case, key, msg) in enumerate(fresh):
                if key in seen:
                    continue
                seen.add(key)
                rp = os.path.join(rd, f"{prop}-{pn}-{case}-{''.join(c if c.isalnum() or c in '-_' else '_' for c in key)[:50]}.json")
                with open(rp, "w") as f:
                    json.dump({"property": prop, "part": pn, "seed": seed, "tier": tier, "case": case, "key": key, "msg": msg}, f, indent=1)
                print(f"VIOLATION property={prop} replay={rp}")
                print(f"  part={pn} case={case} key={key} ({sum(1 for v in fresh if v[2] == key)} times): {msg[:int(os.environ.get('VERIF_MSG', '2500'))]}")
                if len(seen) >= 8:
                    break
            sys.exit(1)
        if missing:
            die("the monitors observed too little: " + "; ".join(missing))
        if inconc > max(2, evals // 50):
            die(f"{inconc} of {evals} cases gave no verdict")
        if evals == 0:
            die("nothing was run")
        print(f"OK property={prop} tier={tier} seed={seed} evaluations={evals} distinct={len(hashes)} wall={time.time()-t0:.1f}s")
        if a.show:
            print(json.dumps(ev["coverage"]["parts"], indent=1))
        sys.exit(0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
