#!/usr/bin/env python3
"""Mutation campaign (development only; no check uses it).
mutate.py gen OUT.json [seed]           lists mutants of /repo's sources
mutate.py run OUT.json K N RESULTS      worker K of N: builds, tests and checks its share of the mutants
Each worker has its own copies of /repo and /verif, mounted over the real ones in its own mount namespace:
  unshare -m python3 dev/mutate.py run ..."""
import json, os, random, re, shutil, subprocess, sys, time

FILES = ["src/%s.rs" % n for n in "bytes copy_value elem index_slice macros meta slice slice_copy traits value vec_copy vec_drop vec_dyn vec_void vtable lib".split()] + ["dync-derive/src/lib.rs"]
SWAP = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
        (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\b0\b", "1"), (r"\b1\b", "0"),
        (r"\.len\b(?!\()", ".cap"), (r"\.cap\b(?!\()", ".len"), (r"\blen\b(?![(\w])", "cap"), (r"\.size\b(?!\()", ".alignment"), (r"\.alignment\b(?!\()", ".size"),
        (r"\.num_bytes\(\)", ".alignment"), (r"!self\b", "self"), (r"\bif ([^{]+) \{", r"if !(\1) {"), (r"\bif ([^{]+) \{", "if true {"), (r"\bif ([^{]+) \{", "if false {"),
        (r"ManuallyDrop::new\((.*)\)", r"\1"), (r"\.rev\(\)", ""), (r"\.clone\(\)", ""), (r"rotate_left", "rotate_right"), (r"rotate_right", "rotate_left"),
        (r"\bpop\b", "first"), (r"min\(", "max("), (r"max\(", "min("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"Some\((\w+)\)$", "None"),
        (r" \+ HasSend", ""), (r" \+ HasSync", ""), (r"HasSync", "HasSend"), (r"HasSend", "HasSync"), (r"Option<&mut ", "Option<&'static mut "), (r"&self", "&mut self"),
        (r"&'a ", "&'static "), (r": Clone \+", ":"), (r"assert_eq!", "assert_ne!"), (r"checked_(\w+)\((.*?)\)", r"wrapping_\1(\2)"), (r"\?;$", ";"),
        (r"eq_fn", "ne_fn"), (r"clone_fn", "clone_into_raw_fn"), (r"clone_into_raw_fn", "clone_from_fn"), (r"clone_from_fn", "clone_into_raw_fn"),
        (r"\bl\b", "r"), (r"\br\b", "l"), (r"\bsrc\b", "dst"), (r"\bdst\b", "src"), (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\bi\b", "j"), (r"\bj\b", "i"),
        (r"self\.data\b", "other.data"), (r"other\.(\w+)", r"self.\1"), (r"\bT>\(\)", "u8>()"), (r"unwrap\(\)", "unwrap_or_default()")]

def gen(out, seed=1):
    ms = []
    for f in FILES:
        p = "/repo/" + f
        if not os.path.exists(p):
            continue
        text = open(p).read()
        lines = text.split("\n")
        end = len(lines)
        for k, l in enumerate(lines):
            if re.match(r"#\[cfg\(test\)\]", l):
                end = k
                break
        for k in range(end):
            l = lines[k]
            s = l.strip()
            if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use"):
                continue
            seen = set()
            def add(new, what):
                if new != l and new not in seen:
                    seen.add(new)
                    ms.append(dict(file=f, line=k, old=l, new=new, what=what))
            code = l.split(" //")[0]
            for a, b in SWAP:
                for m in re.finditer(a, code):
                    add(l[:m.start()] + m.expand(b) + l[m.end():], "%s -> %s" % (a, b))
            if s.endswith(";") and not s.startswith("let ") and not s.startswith("pub ") and not s.startswith("type ") and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
                add(re.match(r"\s*", l).group(0) + "{}", "delete statement")
            if s.startswith("let ") and s.endswith(";") and k + 1 < end:
                pass
            # drop one argument's order: f(a, b) -> f(b, a)
            for m in re.finditer(r"\(([\w.&*]+), ([\w.&*]+)\)", code):
                add(l[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + l[m.end():], "swap arguments")
    random.Random(seed).shuffle(ms)
    for n, m in enumerate(ms):
        m["id"] = n
    json.dump(ms, open(out, "w"), indent=0)
    print(len(ms), "mutants")

def sh(c, cwd=None, timeout=600, env=None):
    try:
        r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""

def run(src, k, n, results):
    k, n = int(k), int(n)
    ms = json.load(open(src))
    w = "/tmp/mut/w%d" % k
    if not os.path.isdir(w):
        os.makedirs(w)
        sh("cp -a /repo %s/repo && git -C /verif clone -q /verif %s/verif && cp -a /verif/build %s/verif/build" % (w, w, w))
    else:
        sh("git checkout -q -- . && git pull -q", w + "/verif")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", w + "/repo")
    orig = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, stdout=subprocess.PIPE, text=True).stdout.strip()
    assert sh("mount --make-rprivate / && mount --bind %s/repo /repo && mount --bind %s/verif /verif" % (w, w))[0] == 0
    os.environ.update(CARGO_BUILD_JOBS="3", CARGO_NET_OFFLINE="true", VERIF_SEED="1", VERIF_TIER="quick")
    done = set()
    if os.path.exists(results):
        done = {json.loads(l)["id"] for l in open(results)}
    os.chdir("/verif")
    late = ("src/macros.rs", "src/lib.rs", "dync-derive/src/lib.rs", "src/elem.rs", "src/meta.rs")
    ms = [m for m in ms if not re.match(r"\s*(/?\*|#)", m["old"]) or re.match(r"\s*\*\w", m["old"])]
    ms = [m for m in ms if not (("<=" in m["new"] or ">=" in m["new"]) and m["what"].strip() in ("<  -> <=", ">  -> >=") and " < 'a" in m["old"])]
    ms.sort(key=lambda m: m["file"] in late)
    for m in ms:
        if m["id"] % n != k or m["id"] in done:
            continue
        t0 = time.time()
        p = "/repo/" + m["file"]
        text = open(p).read()
        lines = text.split("\n")
        if lines[m["line"]] != m["old"]:
            continue
        lines[m["line"]] = m["new"]
        open(p, "w").write("\n".join(lines))
        try:
            m["result"] = judge(m)
        finally:
            open(p, "w").write(text)
        m["t"] = round(time.time() - t0, 1)
        with open(results, "a") as f:
            f.write(json.dumps(m) + "\n")

def judge(m):
    # The repository's own tests first.
    rc, o = sh("cargo check --offline --quiet", "/repo", 300)
    if rc != 0:
        return "nocompile"
    rc, o = sh("cargo test --offline --workspace --quiet", "/repo", 300)
    if rc != 0:
        return "nocompile" if "could not compile" in o else "tests"
    # Replay of what TLC generated earlier.
    sys.path.insert(0, "/verif/tools")
    import vlib, profiles, plans
    vlib.CPUS = 3
    vlib.T0 = time.time()
    try:
        bins = vlib.Build(profiles=("dev",)).wait()
        bins = {"dev": bins["dev"]}
    except vlib.NotAccepted:
        return "caught: client does not build"
    except vlib.Broken:
        return "nocompile"
    d = "/verif/build/mut"
    for prop in "C02 C03 C06 C10 C05 C04 C11 C07 C01 C16".split():
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        h = vlib.Harness(prop, bins, d)
        for kk, part in reversed(list(enumerate(plans.plan(prop, False)))):
            bs = profiles.bindings(part.consts["TypeInfo"], part.binds, 0, words=part.words)
            pick = bs[:2] if len(bs) < 4 else [bs[m["id"] % len(bs)], bs[(m["id"] + 3) % len(bs)]]
            for q in range(part.procs if part.sim else 1):
                path = "/verif/build/%s/MC_%d%s.scripts" % (prop, kk, "_%d" % q if part.sim else "")
                if os.path.exists(path):
                    h.start("compare", "dev", path, pick, ["--seed", str(m["id"] % 7)], timeout=200)
        try:
            h.wait()
        except vlib.Violation as v:
            return "caught: %s %s" % (prop, str(v)[:200])
        except vlib.Broken as b:
            return "broken: %s %s" % (prop, str(b)[:300])
    # The other checks, in full.
    late = "C08 C09 C12 C13 C15 C14".split() if m["file"].startswith("src") else ["C14"]
    for prop in late:
        rc, o = sh("python3 tools/check.py " + prop, "/verif", 900)
        if rc == 1:
            return "caught: " + prop
        if rc != 0:
            return "broken: %s %s" % (prop, o[-300:])
    return "SURVIVED"

if sys.argv[1] == "gen":
    gen(*sys.argv[2:])
else:
    run(*sys.argv[2:])
