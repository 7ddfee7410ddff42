#!/usr/bin/env python3
"""seed.py new <id>            makes seeded/<id>/patch.diff from the edits in /tmp/seed/repo and resets that copy
seed.py verify <id>...        builds, tests and demonstrates the seeded change in a scratch copy of /repo
seed.py catch <check> <id>... applies the change to /repo itself, runs a check, and undoes it"""
import os, shutil, subprocess, sys, json
W = "/tmp/seed"
R = W + "/repo"
S = "/verif/seeded"

def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def scratch():
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        sh("cp -a /repo " + R)
    sh("git fetch -q /repo HEAD && git checkout -q FETCH_HEAD && git reset -q --hard", R)

def demo(i):
    # laid out elsewhere, like at the end
    d = W + "/demo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(S, i), d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("bash %s/demo.sh" % d, R, timeout=300)
    return r.returncode, r.stdout

def verify(i):
    scratch()
    rc0, o0 = demo(i)
    a = sh("git apply %s/%s/patch.diff" % (S, i), R)
    if a.returncode:
        return "does not apply: " + a.stdout
    b = sh("cargo build --offline --all-targets", R)
    t = sh("cargo test --offline --workspace", R)
    ok = "test result: FAILED" not in t.stdout and t.returncode == 0
    rc1, o1 = demo(i)
    sh("git checkout -q -- .", R)
    s = "build %d tests %s demo clean %d patched %d" % (b.returncode, ok, rc0, rc1)
    if rc0:
        s += "\n" + o0[-2500:]
    if not ok:
        s += "\n" + t.stdout[-2500:]
    return s + "\n   patched: " + (o1.strip().splitlines() or ["-"])[-1][:200]

def catch(c, i):
    sh("git apply %s/%s/patch.diff" % (S, i), "/repo")
    try:
        r = sh("python3 tools/check.py " + c, "/verif", env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        sh("git checkout -q -- .", "/repo")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return "exit %d %s\n   %s" % (r.returncode, v, "\n   ".join(r.stdout.splitlines()[-3:])[:600])

if sys.argv[1] == "scratch":
    scratch()
elif sys.argv[1] == "new":
    i = sys.argv[2]
    os.makedirs(os.path.join(S, i), exist_ok=True)
    d = subprocess.run("git diff", shell=True, cwd=R, stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(S, i, "patch.diff"), "w").write(d)
    sh("git checkout -q -- .", R)
elif sys.argv[1] == "verify":
    for i in sys.argv[2:]:
        print(i, verify(i), flush=True)
elif sys.argv[1] == "catch":
    for i in sys.argv[3:]:
        print(sys.argv[2], i, catch(sys.argv[2], i), flush=True)
elif sys.argv[1] == "all":
    for i in sys.argv[2:] or sorted(os.listdir(S)):
        p = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        print(p, i, catch(p, i), flush=True)
