#!/usr/bin/env python3
"""seed.py ID: checks the planted bug seeded/ID in a scratch copy of /repo
(applies, builds, stable tests pass, demo passes without and fails with it).
seed.py ID --check C01 [C02...]: also runs these checks against the copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def run(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def tests(d):
    p = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], d)
    ok = set()
    for l in p.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    return STABLE - ok

def main():
    ident = sys.argv[1]
    sd = os.path.join(V, "seeded", ident)
    checks = sys.argv[3:] if len(sys.argv) > 2 and sys.argv[2] == "--check" else []
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        d = os.path.join(tmp, "repo")
        run(["git", "clone", "-q", "/repo", d], "/")
        demo = os.path.join(tmp, "demo"); shutil.copytree(sd, demo)
        if "--nodemo" not in sys.argv:
            p = run(["bash", os.path.join(demo, "demo.sh")], d, timeout=300)
            if p.returncode: return "demo FAILS on the unchanged tree:\n" + p.stdout[-3000:]
        p = run(["git", "apply", os.path.join(sd, "patch.diff")], d)
        if p.returncode: return "patch does not apply: " + p.stdout
        p = run(["go", "build", "./..."], d)
        if p.returncode: return "does not build: " + p.stdout
        p = run(["bash", os.path.join(demo, "demo.sh")], d, timeout=300)
        if p.returncode == 0: return "demo PASSES with the patch:\n" + p.stdout[-2000:]
        print("demo:", p.stdout.strip()[-400:])
        missing = tests(d)
        if missing: return "stable tests fail: %s" % missing
        print(ident, "counts")
        for c in checks:
            if c.startswith("-"): continue
            p = run([os.path.join(V, "bin", "check"), c, "quick"], V, env=dict(ENV, VERIF_REPO=d))
            print(ident, c, "rc", p.returncode, "|", " ".join(l[:300] for l in p.stdout.splitlines() if l.startswith(("VIOLATION", "  ", "ok", "CHECK")))[:600])
    finally:
        shutil.rmtree(tmp)
r = main()
if r: print(ident if False else sys.argv[1], "PROBLEM:", r); sys.exit(1)
