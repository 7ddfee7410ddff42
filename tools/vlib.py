"""Shared machinery: building the harness, running TLC, turning TLC's transitions into scripts."""
import collections
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DYNC_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
CPUS = min(8, os.cpu_count() or 4)
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


class Broken(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class NotAccepted(Broken):
    """The code under test builds, but a client of its public interface does not."""


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.replay = replay


def workdir(name):
    d = os.path.join(BUILD, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def cargo_env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "-Awarnings"
    e.pop("CARGO_TARGET_DIR", None)
    return e


class Build:
    """Builds the harness (one process per profile) while something else is going on."""

    def __init__(self, profiles=("dev", "release", "wide"), crate=HARNESS, name="dync-conformance", extra=(), target=None):
        self.procs = []
        self.name = name
        for p in profiles:
            if target is None:
                dest = os.path.join(crate, "target", p)
            else:
                dest = target
            e = cargo_env()
            e["CARGO_TARGET_DIR"] = dest
            out = open(os.path.join(BUILD, "cargo.%s.%s.log" % (name, p)), "w+")
            args = {"dev": [], "release": ["--release"], "wide": ["--features", "wide"], "huge": ["--features", "huge"]}[p]
            q = subprocess.Popen(["cargo", "build", "--offline", "--quiet"] + list(extra) + args,
                                 cwd=crate, env=e, stdout=out, stderr=subprocess.STDOUT)
            self.procs.append((p, q, out, os.path.join(dest, "release" if p == "release" else "debug", name)))

    def wait(self):
        bins = {}
        for p, q, out, b in self.procs:
            if q.wait() != 0:
                out.seek(0)
                text = out.read()
                kind = NotAccepted if re.search(r"could not compile `%s`" % re.escape(self.name), text) else Broken
                raise kind("the harness does not build:\n" + text[-6000:])
            bins[p] = b
        log("built harness:", ",".join(bins))
        return bins


def make_crate(d, name, source, features=("traits", "numeric")):
    """A crate that depends on the code under test, and on nothing else."""
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), d)
    lock = os.path.join(d, "Cargo.lock")
    text = open(lock).read().replace("dync-conformance", name)
    open(lock, "w").write(text)
    toml = open(os.path.join(HARNESS, "Cargo.toml")).read().replace("dync-conformance", name)
    open(os.path.join(d, "Cargo.toml"), "w").write(toml)
    open(os.path.join(d, "src", "main.rs"), "w").write(source)


def build_harness(**kw):
    return Build(**kw).wait()


# ---------------------------------------------------------------------------------------------
# TLC

def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "(" + " @@ ".join("%s :> %s" % (tla(k), tla(x)) for k, x in sorted(v.items())) + ")"
    raise TypeError(v)


def rec(**kw):
    return Rec(kw)


class Rec(dict):
    pass


def tla_rec(v):
    if isinstance(v, Rec):
        return "[" + ", ".join("%s |-> %s" % (k, tla_rec(x)) for k, x in v.items()) + "]"
    if isinstance(v, dict):
        return "(" + " @@ ".join("%s :> %s" % (tla(k), tla_rec(x)) for k, x in sorted(v.items())) + ")"
    return tla(v)


JAVA = ["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss256m",
        "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]


def tlc_cmd(extra_jvm=()):
    """The command that starts TLC (the jar with its community modules)."""
    w = shutil.which("tlc")
    if w is None:
        raise Broken("tlc is not installed")
    return [w]


def run_tlc(d, module, cfg, args=(), timeout=800, out=None):
    """Runs TLC in directory d; returns (exit code, output path)."""
    out = out or os.path.join(d, module + ".out")
    meta = os.path.join(d, "states." + os.path.basename(out))
    with open(out, "w") as f:
        try:
            r = subprocess.run(tlc_cmd() + ["-config", cfg, "-metadir", meta, "-noGenerateSpecTE"] + list(args) + [module + ".tla"],
                               cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -9
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_numbers(text):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text)
    if not m:
        return 0, 0
    a, b = m[-1]
    return int(a.replace(",", "")), int(b.replace(",", ""))


def copy_spec(d, names):
    for n in names:
        # Other processes may be reading it: replaced in one step, and only if it differs.
        src, dst = os.path.join(VERIF, "spec", n), os.path.join(d, n)
        data = open(src, "rb").read()
        if os.path.exists(dst) and open(dst, "rb").read() == data:
            continue
        tmp = "%s.%d" % (dst, os.getpid())
        with open(tmp, "wb") as f:
            f.write(data)
        os.replace(tmp, dst)



def mc_module(d, name, consts, sim):
    """Writes the TLC instance `name` of MC with the given constants."""
    copy_spec(d, ["Dync.tla", "MC.tla"])
    with open(os.path.join(d, name + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS MC\n" % name)
        for k, v in consts.items():
            f.write("c_%s == %s\n" % (k, tla_rec(v)))
        f.write("====\n")
    with open(os.path.join(d, name + ".cfg"), "w") as f:
        f.write("SPECIFICATION %s\n" % ("SimSpec" if sim else "MCSpec"))
        f.write("INVARIANT Invariant\nPROPERTY Steps\nACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n")
        if not sim:
            f.write("VIEW MCView\n")
        f.write("CONSTANTS\n")
        for k in consts:
            f.write("  %s <- c_%s\n" % (k, k))


def printed(lines, tag):
    """What TLC printed with PrintT(<<tag, ToJson(..)>>); TLC may print its progress on the same line."""
    pre = '<<"%s", ' % tag
    dec = json.JSONDecoder()
    for l in lines:
        at = l.find(pre)
        if at >= 0:
            yield json.loads(dec.raw_decode(l, at + len(pre))[0])


def edges(path):
    """The transitions printed by TLC."""
    with open(path) as f:
        yield from printed(f, "EDGE")


def node_key(slots, view):
    return json.dumps([[(n, s["ty"], s["cap"], [e["v"] for e in s["el"]]) for n, s in sorted(slots.items()) if s["live"]], view], sort_keys=True)


class Edge:
    __slots__ = ("pre", "op", "res", "post", "pre_ids", "post_state", "view")

    def __init__(self, raw):
        s, w, o, r, s2, w2 = raw
        self.pre = node_key(s, w)
        self.post = node_key(s2, w2)
        self.op = o
        self.res = r
        self.pre_ids = {n: [e["id"] for e in x["el"]] for n, x in s.items() if x["live"]}
        self.post_state = {n: x for n, x in s2.items() if x["live"]}
        self.view = w2


def op_text(o):
    return " ".join([o["op"], o["s"], o["p"], o["ty"], str(o["i"]), str(o["j"]),
                     ",".join(map(str, o["vs"])) if o["vs"] else "-", o["how"]])


def line_text(o, res, state, view):
    """Operation, expected result, expected state, expected view."""
    sl = "|".join("%s=%s/%s:%s" % (n, s["ty"], s["cap"], ",".join("%d.%d" % e for e in s["el"]))
                  for n, s in sorted(state.items())) or "-"
    top = "-" if not view else "%s:%d:%d" % (view[-1]["s"], view[-1]["off"], view[-1]["n"])
    return "%s\t%s;%s;%s\t%s\t%s" % (op_text(o), res["k"], ",".join(map(str, res["v"])), res["t"], sl, top)


class Walk:
    """A script being built: keeps the identities of the walk distinct over its whole length."""

    def __init__(self):
        self.ids = {}
        self.next = 1
        self.lines = []

    def step(self, e):
        ren = {}
        for n, ids in e.pre_ids.items():
            for a, b in zip(ids, self.ids.get(n, [])):
                ren[a] = b
        state = {}
        self.ids = {}
        for n, s in e.post_state.items():
            els = []
            for x in s["el"]:
                i = x["id"]
                if i != 0 and i not in ren:
                    ren[i] = self.next
                    self.next += 1
                els.append((ren[i] if i else 0, x["v"]))
            state[n] = {"ty": s["ty"], "cap": s["cap"], "el": els}
            self.ids[n] = [a for a, _ in els]
        self.lines.append(line_text(e.op, e.res, state, e.view))


def tours(es, init, max_len=60, seed=1):
    """Scripts from the initial state that together take every transition."""
    rnd = random.Random(seed)
    out = collections.defaultdict(list)
    for e in es:
        out[e.pre].append(e)
    for v in out.values():
        rnd.shuffle(v)
    # Shortest paths from the initial state.
    via = {init: None}
    q = collections.deque([init])
    while q:
        n = q.popleft()
        for e in out.get(n, ()):
            if e.post not in via:
                via[e.post] = e
                q.append(e.post)
    todo = {n: list(v) for n, v in out.items()}
    scripts = []
    pending = collections.deque(k for k in via if todo.get(k))
    while pending:
        n = pending[0]
        if not todo.get(n):
            pending.popleft()
            continue
        path = []
        m = n
        while via[m] is not None:
            path.append(via[m])
            m = via[m].pre
        path.reverse()
        w = Walk()
        for e in path:
            w.step(e)
        m = n
        while len(w.lines) < max_len + len(path):
            t = todo.get(m)
            if t:
                e = t.pop()
            elif out.get(m):
                # Nothing new here: a random step, if something new is next to it.
                nxt = [e for e in out[m][:40] if todo.get(e.post)]
                if not nxt:
                    break
                e = rnd.choice(nxt)
            else:
                break
            w.step(e)
            m = e.post
        scripts.append(w.lines)
    unreached = sum(1 for n in out if n not in via)
    return scripts, unreached


def sim_scripts(paths, init):
    """Scripts from TLC's simulation runs, one per behaviour."""
    scripts = []
    for p in paths:
        cur = None
        for raw in edges(p):
            if raw[2]["op"] == "-":
                continue
            e = Edge(raw)
            if e.pre != cur:
                if e.pre != init:
                    raise Broken("simulation output does not chain")
                w = Walk()
                scripts.append(w.lines)
            w.step(e)
            cur = e.post
    return scripts


def write_scripts(path, slots, types, scripts, ids=None):
    with open(path, "w") as f:
        f.write("#slots %s\n#types %s\n" % (" ".join(sorted(slots)), " ".join(sorted(types))))
        for k, s in enumerate(scripts):
            f.write("S %s\n" % (ids[k] if ids else k))
            f.write("\n".join(s))
            f.write("\n")


# ---------------------------------------------------------------------------------------------
# Replay

def save_replay(prop, name, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s" % (prop, name))
    with open(p, "w") as f:
        f.write(data)
    return p


def script_of(path, sid):
    keep = []
    on = False
    for l in open(path):
        if l.startswith("#"):
            keep.append(l)
        elif l.startswith("S "):
            on = l.strip() == "S " + sid
            if on:
                keep.append(l)
        elif on:
            keep.append(l)
    return "".join(keep)


class Harness:
    """Runs of the harness; a crash or a mismatch is a violation of `prop`."""

    def __init__(self, prop, bins, d):
        self.prop = prop
        self.bins = bins
        self.d = d
        self.runs = 0
        self.steps = 0
        self.jobs = []

    def start(self, mode, prof, path, binds, extra=(), timeout=400):
        self.jobs.append((mode, prof, path, list(binds), list(extra), timeout))

    def cmd(self, mode, prof, path, binds, extra):
        cmd = [self.bins[prof], mode, path] + extra
        for b in binds:
            cmd += ["--bind", b]
        return cmd

    def one(self, k, job):
        mode, prof, path, binds, extra, timeout = job
        prog = os.path.join(self.d, "progress.%s.%s.%d" % (mode, prof, k))
        out = prog + ".log"
        cmd = self.cmd(mode, prof, path, binds, extra) + ["--progress", prog]
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        text = open(out, errors="replace").read()
        m = re.search(r"DONE runs=(\d+) steps=(\d+)", text)
        if rc == 0 and m:
            return int(m.group(1)), int(m.group(2)), None
        if "INAPPLICABLE" in text or rc in (2, 3):
            raise Broken("harness: %s\n%s" % (" ".join(cmd), text[-3000:]))
        first = next((l for l in text.splitlines() if l.startswith("MISMATCH")), None)
        where = open(prog).read().split() if os.path.exists(prog) else []
        if not first and len(where) < 3:
            raise Broken("harness: %s ended with %s\n%s" % (" ".join(cmd), rc, text[-3000:]))
        sid = re.search(r"script=(\S+)", first).group(1) if first else where[0]
        bind = re.search(r"bind=(\S+)", first).group(1) if first else where[2]
        howc = re.search(r"howc=(\S+)", first).group(1) if first else where[1]
        if rc == "timeout":
            # Slow, or really stuck?
            again = self.cmd(mode, prof, path, [bind], extra) + ["--only", sid, "--howc", howc]
            try:
                subprocess.run(again, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                raise Broken("harness: %s did not finish in %d s" % (" ".join(cmd), timeout))
            except subprocess.TimeoutExpired:
                pass
        what = first or "the program was ended by %s%s" % (rc, ": " + text.strip().splitlines()[-1][:200] if rc == 4 else "")
        data = "# %s\n# replay: %s %s FILE --bind %s --howc %s   (%s build)\n%s" % (
            what, os.path.basename(self.bins[prof]), mode, bind, howc, prof, script_of(path, sid))
        return 0, 0, (what, data)

    def wait(self):
        bad = None
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            fs = [ex.submit(self.one, k, j) for k, j in enumerate(self.jobs)]
            for f in fs:
                runs, steps, b = f.result()
                self.runs += runs
                self.steps += steps
                bad = bad or b
        self.jobs = []
        if bad:
            raise Violation(bad[0], save_replay(self.prop, "replay.txt", bad[1]))


# ---------------------------------------------------------------------------------------------
# Logs of the real code, checked by TLC against a trace specification

class TraceCheck:
    """Checks logs against spec/<module>.tla; a rejected event is a violation of `prop`."""

    def __init__(self, prop, d, module, deps):
        self.prop, self.d, self.module = prop, d, module
        copy_spec(d, [module + ".tla", module + ".cfg"] + deps)
        self.events = 0
        self.runs = 0

    def one(self, path):
        lines = open(path).read().splitlines()
        if not lines:
            return 0, 0, None
        out = path + ".tlc"
        env = dict(os.environ)
        env["TRACE"] = path
        meta = path + ".states"
        with open(out, "w") as f:
            try:
                rc = subprocess.run(tlc_cmd() + ["-config", self.module + ".cfg", "-metadir", meta, "-noGenerateSpecTE",
                                                 "-workers", "1", self.module + ".tla"],
                                    cwd=self.d, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=700).returncode
            except subprocess.TimeoutExpired:
                raise Broken("TLC did not finish with " + path)
        shutil.rmtree(meta, ignore_errors=True)
        text = open(out, errors="replace").read()
        m = re.search(r'<<"REJECT", (\d+)', text)
        n = None
        if m:
            n = int(m.group(1)) - 1
            what = "the specification does not allow what the code did"
        elif rc != 0:
            if "is violated" in text:
                what = "the logged states violate an invariant"
            elif "TLC was evaluating" in text or "Attempted to" in text:
                what = "the log is outside of what the specification can describe"
            else:
                raise Broken("TLC on %s: exit %s\n%s" % (path, rc, text[-3000:]))
            n = max(0, min(len(lines) - 1, tlc_numbers(text)[1] - 1))
        runs = sum(1 for l in lines if l.startswith('{"e":"start"'))
        if n is None:
            return len(lines), runs, None
        a = n
        while a > 0 and not lines[a].startswith('{"e":"start"'):
            a -= 1
        ev = lines[n]
        return 0, 0, ("%s: %s" % (what, ev[:400]), "# %s\n# rejected by spec/%s.tla: the last event\n%s\n" % (
            what, self.module, "\n".join(lines[a:n + 1])))

    def check(self, paths):
        bad = None
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            for ev, runs, b in ex.map(self.one, paths):
                self.events += ev
                self.runs += runs
                bad = bad or b
        if bad:
            raise Violation(bad[0], save_replay(self.prop, "replay.txt", bad[1]))
