#!/usr/bin/env python3
"""mkseed.py [ID...]: writes /verif/seeded/<id>/ from tools/seeds/<id>.py, and reports for each planted bug
whether the demonstration passes on the unchanged tree and fails with the change, whether the repository's
tests still pass with it, and whether the check of its property reports it (--checks P01,... for others).
--no-check: only write and demonstrate."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
LIB = os.path.join(V, "tools/seedlib")
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
checks = [a.split("=")[1].split(",") for a in sys.argv if a.startswith("--checks=")]
ids = args or sorted(f[:-3] for f in os.listdir(os.path.join(V, "tools/seeds")) if f.endswith(".py"))
res = {}
for i in ids:
    ns = {"V": V}
    exec(open(os.path.join(V, "tools/seeds", i + ".py")).read(), ns)
    W = "/tmp/seed-%s-%d" % (i, os.getpid())
    sh(["git", "clone", "-q", REPO, W])
    for path, pairs in ns["edits"].items():
        p = os.path.join(W, path)
        s = open(p, encoding="utf-8").read()
        for o, n in pairs:
            if s.count(o) != 1: print(i, "edit does not match once:", s.count(o), o); sys.exit(1)
            s = s.replace(o, n)
        open(p, "w", encoding="utf-8").write(s)
    diff = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE).stdout
    # removed lines must be lines of the original repository
    own = []
    D = os.path.join(V, "seeded", i)
    shutil.rmtree(D, ignore_errors=True)
    os.makedirs(D)
    open(os.path.join(D, "patch.diff"), "wb").write(diff)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(D, "meta.json"), "w"), indent=1)
    for f in ("demo.h", "gpkg.h", "gpkg_stub.cpp", "demo.sh"):
        shutil.copy(os.path.join(LIB, f), D)
    if ns.get("shell"):
        open(os.path.join(D, "demo.sh"), "w").write(ns["shell"])
    if ns.get("demo"):
        open(os.path.join(D, "demo.cpp"), "w").write('#include "demo.h"\n' + ns["demo"].lstrip("\n"))
    if ns.get("pg"):
        for f in ("fakepq.h", "fakepq.cpp"):
            shutil.copy(os.path.join(V, "harness/fakepq", f), D)
    for f, t in ns.get("files", {}).items():
        open(os.path.join(D, f), "w").write(t)
    os.chmod(os.path.join(D, "demo.sh"), 0o755)
    a = sh(["bash", os.path.join(D, "demo.sh")], cwd=REPO)
    b = sh(["bash", os.path.join(D, "demo.sh")], cwd=W)
    line = "%s: clean %d, patched %d" % (i, a.returncode, b.returncode)
    if a.returncode != 0: print(a.stdout[-1500:])
    if b.returncode in (0, 3, 4, 5, 9): print(b.stdout[-1500:])
    else: print("   " + b.stdout[:300].replace("\n", "\n   "))
    if "--no-check" not in sys.argv:
        env = dict(os.environ, VERIF_REPO=W)
        t = sh([sys.executable, os.path.join(V, "tools/fulltests.py")], env=env)
        line += "; tests: " + " ".join(l.split(" rc")[0] + "=" + l.split("FAILED ")[1] for l in t.stdout.splitlines() if "FAILED" in l and not l.endswith("[]"))
        for c in (checks[0] if checks else [ns["prop"]]):
            r = sh([sys.executable, os.path.join(V, "run.py"), c], env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            line += "; %s exit %d %s" % (c, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED")
            if not v: print(r.stdout[-800:])
            else: print("   " + "\n   ".join(r.stdout.splitlines()[:4]))
    shutil.rmtree(W)
    print(line, flush=True)
