#!/usr/bin/env python3
"""mkseed.py SPECDIR...: development aid. Each SPECDIR is /verif/seeded/<id> with
demo.sh, meta.json and either edit.py-style patch.diff already present or
`edits.json` [[file, old, new], ...]; builds the patch in a scratch copy of
/repo, runs the stable tests and the demo with and without it."""
import json, os, shutil, subprocess, sys
WT = "/tmp/seedwt"
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for d in sys.argv[1:]:
    d = os.path.abspath(d)
    name = os.path.basename(d)
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("repo dirty")
    e = os.path.join(d, "edits.json")
    if os.path.exists(e):
        shutil.rmtree(WT, ignore_errors=True)
        sh(f"git clone -q /repo {WT}")
        for f, old, new in json.load(open(e)):
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit(f"{name}: {f}: old text found {s.count(old)} times")
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {WT} diff").stdout)
        os.unlink(e)
        shutil.rmtree(WT)
    # the demo's folder lies elsewhere when it counts
    dd = "/tmp/seeddemo"
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd)
    for x in ("patch.diff", "meta.json"): os.unlink(os.path.join(dd, x))
    out = []
    r = sh(f"bash /opt/vp/build.sh"); 
    r0 = sh(f"bash {dd}/demo.sh", cwd="/repo", timeout=300)
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode: sys.exit(name + ": " + a.stdout)
    try:
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/o_seed.json")
        miss = base - set(json.load(open("/tmp/o_seed.json"))["passed"])
        r1 = sh(f"bash {dd}/demo.sh", cwd="/repo", timeout=300)
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    ok = r0.returncode == 0 and r1.returncode != 0 and not miss and b.returncode == 0
    print(name, "OK" if ok else "BAD", f"demo clean={r0.returncode} patched={r1.returncode} missing={sorted(miss)[:3]} build={b.returncode}")
    if not ok or os.environ.get("V"): print(r0.stdout[-600:], "----", r1.stdout[-600:])
    shutil.rmtree(dd, ignore_errors=True)
