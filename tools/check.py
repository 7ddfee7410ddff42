#!/usr/bin/env python3
"""check.py <property>: decides one property. Exit 0: held; 1: VIOLATION; anything else: no answer."""
import concurrent.futures
import importlib
import json
import os
import random
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *  # noqa
from profiles import bindings

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if "--thorough" in sys.argv:
    TIER = "thorough"
    sys.argv.remove("--thorough")
BIG = TIER == "thorough"
os.makedirs(BUILD, exist_ok=True)


# ---------------------------------------------------------------------------------------------
# Generation (in worker processes)

def gen_bfs(d, name, consts, seed):
    mc_module(d, name, consts, False)
    rc, out = run_tlc(d, name, name + ".cfg", ["-workers", "1"], timeout=3000 if BIG else 600)
    text = tail(out)
    if rc != 0:
        raise Broken("TLC on %s: exit %s\n%s" % (name, rc, text[-3000:]))
    es = [Edge(x) for x in edges(out)]
    os.remove(out)
    init = node_key({}, [])
    scripts, unreached = tours(es, init, 60, seed)
    if unreached:
        raise Broken("transitions of %s out of reach" % name)
    path = os.path.join(d, name + ".scripts")
    write_scripts(path, consts["SlotNames"], consts["TypeInfo"], scripts)
    states = tlc_numbers(text)[1]
    return dict(name=name, path=path, states=states, transitions=len(es), scripts=len(scripts),
                sample=scripts[len(scripts) // 2][:6], types=sorted(consts["TypeInfo"]))


def gen_sim(d, name, consts, seed, num, depth):
    mc_module(d, name, consts, True)
    rc, out = run_tlc(d, name, name + ".cfg",
                      ["-workers", "1", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
                      timeout=3000 if BIG else 600)
    text = tail(out)
    if rc != 0:
        raise Broken("TLC on %s: exit %s\n%s" % (name, rc, text[-3000:]))
    scripts = sim_scripts([out], node_key({}, []))
    os.remove(out)
    path = os.path.join(d, name + ".scripts")
    write_scripts(path, consts["SlotNames"], consts["TypeInfo"], scripts)
    return dict(name=name, path=path, states=0, transitions=sum(map(len, scripts)), scripts=len(scripts),
                sample=(scripts[0] if scripts else [])[:6], types=sorted(consts["TypeInfo"]))


def tail(path):
    """TLC's own output, without the transitions."""
    with open(path, errors="replace") as f:
        return "".join(l for l in f if not l.startswith('<<"EDGE"'))[-8000:]


def generate(d, parts):
    """Runs all parts; returns [(part, result)]."""
    jobs = []
    with concurrent.futures.ProcessPoolExecutor(CPUS) as ex:
        # The simulations first: they take longest.
        order = sorted(range(len(parts)), key=lambda k: not parts[k].sim)
        for k in order:
            p = parts[k]
            if p.sim:
                for q in range(p.procs):
                    seed = SEED * 100003 + k * 1009 + q
                    jobs.append((k, p, ex.submit(gen_sim, d, "MC_%d_%d" % (k, q), p.consts, seed, p.num, p.depth)))
            else:
                jobs.append((k, p, ex.submit(gen_bfs, d, "MC_%d" % k, p.consts, SEED)))
        out = [(p, f.result()) for k, p, f in sorted(jobs, key=lambda j: j[0])]
    return out


def part_binds(p, n=None, prof="dev"):
    wide = prof == "wide"
    if prof == "huge":
        return list(p.huge)
    if p.only:
        return p.only[:1] if wide else p.only[:n]
    # Other layouts: fewer bindings of each part, different ones for each.
    if wide:
        n = max(1, p.binds // 4)
        return bindings(p.consts["TypeInfo"], n, SEED - 1 + 2 * p.number, words=p.words)
    return bindings(p.consts["TypeInfo"], n or p.binds, SEED - 1, words=p.words)


def samples(gens):
    out = []
    for p, g in gens[:4]:
        out.append({"instance": g["name"], "types": part_binds(p)[0],
                    "steps": [l.split("\t")[0] + "  =>  " + l.split("\t")[1] for l in g["sample"]]})
    return out


# ---------------------------------------------------------------------------------------------

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.d = workdir(prop)
        self.cov = {}
        self.assumptions = []
        self.level = "model_checking"

    def behavioural(self):
        """Every transition of the bounded instances and random behaviours of larger ones."""
        from plans import plan
        parts = plan(self.prop, BIG)
        profs = ("dev", "release", "wide") + (("huge",) if any(p.huge for p in parts) else ())
        b = Build(profs)
        for k, p in enumerate(parts):
            p.number = k
        gens = generate(self.d, parts)
        for p, g in gens:
            log("%-9s %s: %d states, %d transitions, %d scripts" % (
                g["name"], "random" if p.sim else "exhaustive", g["states"], g["transitions"], g["scripts"]))
        bins = b.wait()
        self.bins = bins
        self.gens = gens
        h = Harness(self.prop, bins, self.d)
        if self.prop != "C09":
            for p, g in gens:
                for prof in bins:
                    bs = part_binds(p, prof=prof)
                    for k in range(0, len(bs), 2):
                        h.start("compare", prof, g["path"], bs[k:k + 2], ["--seed", str(SEED)], timeout=3000 if BIG else 400)
            h.wait()
            log("replayed: %d runs, %d steps" % (h.runs, h.steps))
        self.cov = {
            "states": sum(g["states"] for _, g in gens),
            "transitions": sum(g["transitions"] for _, g in gens),
            "traces_validated_against_impl": h.runs,
            "steps_compared": h.steps,
            "exhaustive_instances": sum(1 for p, _ in gens if not p.sim),
            "random_behaviours": sum(g["scripts"] for p, g in gens if p.sim),
            "type_bindings": sorted({x for p, _ in gens for x in list(part_binds(p)) + list(p.huge)}),
            "builds": ["debug (assertions, overflow checks)", "release", "debug with a second set of element layouts"]
            + (["debug with alignments of 16 KiB to 1 MiB"] if "huge" in bins else []),
            "samples": samples(gens),
        }
        return h

    def logs(self, mode, module, deps, parts, profs=("dev",), shards=4, extra=(), binds=None, deep=True):
        """Logs of the real code replaying the given parts, checked against a trace specification."""
        h = Harness(self.prop, self.bins, self.d)
        paths = []
        for p, g in parts:
            for prof in profs:
                for k, b in enumerate(part_binds(p, binds, prof=prof)):
                    out = os.path.join(self.d, "%s.%s.%s.%d" % (mode, g["name"], prof, k))
                    n = 1 if g["transitions"] < 3000 and mode != "fault" else shards
                    h.start(mode, prof, g["path"], [b], ["--seed", str(SEED), "--out", out, "--shards", str(n)] + list(extra),
                            timeout=3000 if BIG else 400)
                    paths += ["%s.%d.ndjson" % (out, q) for q in range(n)]
        h.wait()
        paths = self.merge(paths)
        t = TraceCheck(self.prop, self.d, module, deps)
        t.check(paths)
        log("%s logs: %d runs, %d events, accepted by %s" % (mode, t.runs, t.events, module))
        return t

    def merge(self, paths):
        """Joins small logs of the same slots, so that TLC starts less often."""
        groups = {}
        for p in paths:
            with open(p) as f:
                head = f.readline()
            if not head:
                continue
            e = json.loads(head)
            key = tuple(sorted(e.get("sl", {}))) + tuple(sorted(e.get("types", {})))
            groups.setdefault(key, []).append(p)
        out = []
        for ps in groups.values():
            ps.sort(key=os.path.getsize, reverse=True)
            total = sum(os.path.getsize(p) for p in ps)
            n = max(1, min(CPUS if len(groups) < 3 else 3, total // 300000))
            bins_ = [[0, []] for _ in range(n)]
            for p in ps:
                b = min(bins_, key=lambda x: x[0])
                b[0] += os.path.getsize(p)
                b[1].append(p)
            for _, q in bins_:
                if not q:
                    continue
                m = os.path.join(self.d, "merged.%d.ndjson" % len(out))
                with open(m, "w") as f:
                    for p in q:
                        f.write(open(p).read())
                        os.remove(p)
                out.append(m)
        return sorted(out, key=os.path.getsize, reverse=True)

    def run(self):
        self.behavioural()
        self.probe()
        sims = [(p, g) for p, g in self.gens if p.sim]
        if self.prop == "C08":
            t = self.logs("heap", "HeapTrace", ["Heap.tla"], self.gens, profs=("dev", "wide", "huge"))
            self.cov["allocation_logs_accepted"] = t.runs
            self.cov["traces_validated_against_impl"] += t.runs
            self.cov["allocation_log_events"] = t.events
        elif self.prop == "C09":
            t = self.logs("fault", "Trace", ["Dync.tla"], self.gens, profs=("dev", "wide") if BIG else ("dev",), shards=4,
                          extra=["--max", "100000" if BIG else "1500"])
            self.level = "fault_enumeration"
            self.cov["evaluations"] = t.runs
            self.cov["distinct_nontrivial"] = t.runs
            self.cov["log_events"] = t.events
            self.cov["rule"] = ("one case for every (state, operation, k): the operation's k-th user callback (clone, drop, eq, hash or fmt "
                                "of an element) panics, for every k up to the number of callbacks the operation makes; states and operations are "
                                "the transitions of the bounded instances and of random behaviours, each (state, operation) once per type binding; "
                                "non-trivial: the callback was reached, so the panic did unwind through the crate; the run then goes on for a few "
                                "operations and everything is dropped")
            del self.cov["traces_validated_against_impl"]
        elif BIG and sims:
            t = self.logs("log", "Trace", ["Dync.tla"], sims, profs=("dev", "release"), binds=1)
            self.cov["traces_validated_against_impl"] += t.runs
            self.cov["logs_accepted_by_trace_spec"] = t.runs

    def probe(self):
        """Calls which the specification excludes (`Pre`) and which the code ought to refuse: what they do is known."""
        here = {"C02": "VecCopy::with_type_from", "C08": "BoxValue::into_raw_parts"}.get(self.prop)
        if not here:
            return
        r = subprocess.run([self.bins["dev"], "probe"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        m = re.search(r"^PROBE %s (\d)$" % re.escape(here), r.stdout, re.M)
        if not m:
            raise Broken("the probe for %s ended with %s\n%s" % (here, r.returncode, r.stdout[-2000:]))
        if m.group(1) == "1":
            known = [l for l in known_findings(self.prop) if "[%s]" % here in l]
            if not known:
                raise Violation("%s: what it makes is not cleaned up as it has to be" % here,
                                save_replay(self.prop, "replay.txt", "%s\nreplay: dync-conformance probe\n" % r.stdout))
            print(known[0], flush=True)

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        e = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov or {"explanation": "none"},
             "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(e, f, indent=1)


def known_findings(prop):
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        if l.startswith("KNOWN-FINDING: property=%s " % prop):
            out.append(l.strip())
    return out


SPECIAL = {"C12": "markers", "C13": "borrow", "C14": "derive", "C15": "numeric"}


def main():
    prop = sys.argv[1]
    if prop in SPECIAL:
        c = importlib.import_module(SPECIAL[prop]).Check(prop, sys.modules[__name__])
    else:
        c = Check(prop)
    try:
        c.run()
        c.evidence(0)
        log("held")
        return 0
    except Violation as v:
        c.evidence(1)
        log(str(v))
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        return 1
    except Broken as b:
        log("no answer: %s" % b)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
