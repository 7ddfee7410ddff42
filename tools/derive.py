"""C14: the modules of spec/Derive.tla written as Rust, compiled and used; what they offer and do against the specification."""
import collections
import itertools
import json
import os
import random
import subprocess

from vlib import *  # noqa
from vlib import Rec
from markers import tla_any

STD = ["Clone", "PartialEq", "Eq", "Hash", "Debug", "Send", "Sync"]
BOUND = {"Hash": "std::hash::Hash", "Debug": "std::fmt::Debug"}
ELEMS = {"full": set(STD), "other": set(STD), "lone": set(STD)}
for _c in STD:
    ELEMS["no" + _c] = set(STD) - {_c} - ({"Eq"} if _c == "PartialEq" else set())
RUST = {e: e[0].upper() + e[1:] for e in ELEMS}

PRELUDE = r'''#![allow(warnings)]
use dync::*;
use dync::traits::*;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;

thread_local!(static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new()));
pub fn ev(tag: &str, op: &str, a: u32, b: u32) { LOG.with(|l| l.borrow_mut().push(format!("{}.{}.{}.{}", tag, op, a, b))) }
pub fn take() -> String { LOG.with(|l| l.borrow_mut().drain(..).collect::<Vec<_>>().join(",")) }

pub trait Elem: 'static { fn new(id: u32) -> Self; fn id(&self) -> u32; }
macro_rules! elem {
    ($n:ident, $tag:literal, $m:ty; $($c:ident)*) => {
        pub struct $n { id: u32, pad: [u8; 3], m: PhantomData<$m> }
        impl Elem for $n {
            fn new(id: u32) -> Self { $n { id, pad: [7; 3], m: PhantomData } }
            fn id(&self) -> u32 { self.id }
        }
        impl Drop for $n { fn drop(&mut self) { ev($tag, "drop", self.id, 0) } }
        impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("display") } }
        impl AsRef<u32> for $n { fn as_ref(&self) -> &u32 { &self.id } }
        $(elem!(@ $c $n $tag);)*
    };
    (@ Clone $n:ident $tag:literal) => {
        impl Clone for $n {
            fn clone(&self) -> Self { ev($tag, "clone", self.id, 0); Self::new(self.id + 100) }
            fn clone_from(&mut self, o: &Self) { ev($tag, "clone_from", self.id, o.id); self.id = o.id + 200; }
        }
    };
    (@ PartialEq $n:ident $tag:literal) => {
        impl PartialEq for $n { fn eq(&self, o: &Self) -> bool { ev($tag, "eq", self.id, o.id); self.id + 10 == o.id && self.id == 1 } }
    };
    (@ Eq $n:ident $tag:literal) => { impl Eq for $n {} };
    (@ Hash $n:ident $tag:literal) => {
        impl std::hash::Hash for $n { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { ev($tag, "hash", self.id, 0); h.write_u32(0x55aa00 + self.id) } }
    };
    (@ Debug $n:ident $tag:literal) => {
        impl std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { ev($tag, "fmt", self.id, 0); write!(f, "<{}>", self.id) } }
    };
}
%s

#[macro_export]
macro_rules! probe {
    ($t:ty : $($b:tt)*) => {{
        trait No { const V: bool = false; }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        impl<T: ?Sized + $($b)*> W<T> { const V: bool = true; }
        <W<$t>>::V
    }};
}
#[macro_export]
macro_rules! probe_from {
    ($t:ty, $s:ty) => {{
        trait No { const V: bool = false; }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        impl<T> W<T> where T: From<$s> { const V: bool = true; }
        <W<$t>>::V
    }};
}
pub fn mk<E: Elem, V: VTable<E> + HasDrop>(base: u32) -> VecDyn<V> { VecDyn::from(vec![E::new(base + 1), E::new(base + 2)]) }
fn ids<E: Elem, V: HasDrop>(v: &VecDyn<V>) -> Vec<u32> { v.iter_as::<E>().map(|i| i.map(|e| e.id()).collect()).unwrap_or_default() }
fn out(key: &str, log: String, ok: bool, yes: &str) { println!("{}\t{}\t{}", key, log, if ok { yes } else { "wrong" }) }
pub fn op_clone<E: Elem, V: HasDrop>(key: &str, f: fn(u32) -> VecDyn<V>) where VecDyn<V>: Clone {
    let v = f(0); take();
    let c = v.clone();
    let l = take();
    out(key, l, ids::<E, V>(&c) == [101, 102] && ids::<E, V>(&v) == [1, 2], "clones");
    drop(c); drop(v); take();
}
pub fn op_clone_from<E: Elem, V: HasDrop + HasClone + Clone>(key: &str, f: fn(u32) -> VecDyn<V>) {
    let mut v = f(0); let w = f(10); take();
    let r = v.get_mut(0).clone_from_other(w.get(1)).is_ok();
    let l = take();
    out(key, l, r && ids::<E, V>(&v) == [212, 2] && ids::<E, V>(&w) == [11, 12], "assigned");
    drop(v); drop(w); take();
}
pub fn op_eq<E: Elem, V: HasDrop>(key: &str, f: fn(u32) -> VecDyn<V>) where VecDyn<V>: PartialEq {
    let v = f(0); let w = f(10); take();
    let r = v == w;
    let l = take();
    out(key, l, !r, "false");
    drop(v); drop(w); take();
}
struct Rec(Vec<u8>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
pub fn op_hash<E: Elem, V: HasDrop>(key: &str, f: fn(u32) -> VecDyn<V>) where VecDyn<V>: std::hash::Hash {
    let v = f(0); take();
    let mut h = Rec(Vec::new());
    std::hash::Hash::hash(&v, &mut h);
    let l = take();
    let mut at = 0;
    let mut ok = true;
    for k in 1..=2u32 {
        match h.0[at..].windows(4).position(|w| w == (0x55aa00 + k).to_ne_bytes()) { Some(p) => at += p + 4, None => ok = false }
    }
    out(key, l, ok, "hashed");
    drop(v); take();
}
pub fn op_debug<E: Elem, V: HasDrop>(key: &str, f: fn(u32) -> VecDyn<V>) where VecDyn<V>: std::fmt::Debug {
    let v = f(0); take();
    let s = format!("{:?}", v);
    let l = take();
    let ok = matches!((s.find("<1>"), s.find("<2>")), (Some(a), Some(b)) if a < b);
    out(key, l, ok, "written");
    drop(v); take();
}
pub fn op_drop<E: Elem, V: HasDrop>(key: &str, f: fn(u32) -> VecDyn<V>) {
    let v = f(0); take();
    drop(v);
    let l = take();
    out(key, l, true, "dropped");
}
'''
OPS = {"Clone": "op_clone", "CloneFrom": "op_clone_from", "PartialEq": "op_eq", "Hash": "op_hash", "Debug": "op_debug", "Drop": "op_drop"}
MARK = {"noSend": "std::sync::MutexGuard<'static, u8>", "noSync": "Cell<u8>"}
NAMES = ["Alpha", "Zeta", "Mid", "Node", "Clones", "DropIt", "B2", "Hashy", "Yak", "Send0", "CloneFrom", "Qux"]
NOISE = ["'static", "std::fmt::Display", "AsRef<u32>", "Sized"]


def rust_elems():
    out = []
    for e, caps in ELEMS.items():
        out.append('elem!(%s, "%s", %s; %s);' % (RUST[e], e, MARK.get(e, "u8"), " ".join(c for c in STD if c in caps and c not in ("Send", "Sync"))))
    return "\n".join(out)


class Check:
    def __init__(self, prop, base):
        self.prop = prop
        self.base = base
        self.inner = base.Check(prop)
        self.d = self.inner.d
        self.evidence = self.inner.evidence

    # -- TLC -------------------------------------------------------------------------------------

    def tlc(self, name, names, caps, maxown, given, maxpath=0, sim=None, seed=0):
        d = self.d
        consts = [("Names", tla(names)), ("Caps", tla(set(caps))), ("MaxOwn", str(maxown)), 
                  ("Elems", tla_any({e: set(c) for e, c in ELEMS.items()})), ("MaxPath", str(maxpath)),
                  ("Given", "{" + ",\n  ".join(tla_any(g) for g in given) + "}")]
        with open(os.path.join(d, name + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS Derive\n" % name)
            for k, v in consts:
                f.write("c_%s == %s\n" % (k, v))
            f.write("====\n")
        with open(os.path.join(d, name + ".cfg"), "w") as f:
            f.write("SPECIFICATION Spec\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\nCONSTANTS\n")
            for k, _ in consts:
                f.write("  %s <- c_%s\n" % (k, k))
        args = ["-workers", "1"]
        if sim:
            args += ["-simulate", "num=%d" % sim, "-depth", "40", "-seed", str(seed)]
        rc, out = run_tlc(d, name, name + ".cfg", args, timeout=3000)
        text = open(out).read()
        if rc != 0:
            raise Broken("Derive.tla (%s): %s" % (name, text[-3000:]))
        got = collections.defaultdict(list)
        for tag in ("MODULE", "USE", "BUILT"):
            got[tag] = list(printed(text.splitlines(), tag))
        return got, tlc_numbers(text)[1] if not sim else 0

    def modules(self, rng):
        """Runs the declaring part of the specification; returns the modules it meets."""
        big = self.base.BIG
        jobs = [("D2", ["T1", "T2"], STD[:3] + ["Send"], 2, None), ("D3", ["T1", "T2", "T3"], ["Eq", "Clone"], 2, None),
                ("D1", ["T1"], STD, 7, None)]
        if big:
            jobs += [("D4", ["T1", "T2", "T3", "T4"], ["Eq"], 1, None)]
        jobs += [("S%d_%d_%d" % (n, mo, q), ["T%d" % k for k in range(1, n + 1)], STD + ["Drop"], mo, num)
                 for q in range(4 if big else 1) for n, mo, num in ((3, 2, 200), (4, 2, 200), (5, 2, 150), (4, 1, 150))]
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            rs = [ex.submit(self.tlc, n, names, caps, mo, [], 0, sim, self.base.SEED * 31 + k)
                  for k, (n, names, caps, mo, sim) in enumerate(jobs)]
            rs = [r.result() for r in rs]
        self.states = sum(r[1] for r in rs)
        pools = {j[0]: uniq(r[0]["MODULE"]) for j, r in zip(jobs, rs)}
        self.built = rs[0][0]["BUILT"]
        log("hierarchies: %s" % ", ".join("%s %d" % (k, len(v)) for k, v in pools.items()))
        self.pools = pools
        out = list(pools["D1"])
        quota = {"D2": 30, "D3": 50, "S3": 16, "S4": 24, "S5": 16, "D4": 0}
        for name, pool in pools.items():
            if name == "D1":
                continue
            pool = sorted(pool, key=lambda m: json.dumps(m, sort_keys=True))
            rng.shuffle(pool)
            want = quota[name.split("_")[0]] * (4 if big else 1)
            # One of each shape first.
            seen, first, rest = set(), [], []
            for m in pool:
                shape = json.dumps(m["par"], sort_keys=True)
                (rest if shape in seen else first).append(m)
                seen.add(shape)
            if name[0] == "S":
                first.sort(key=lambda m: -sum(len(x) for x in m["par"].values()))
            out += (first + rest)[:want]
        return out

    # -- Rust ------------------------------------------------------------------------------------

    def run(self):
        rng = random.Random(self.base.SEED)
        copy_spec(self.d, ["Derive.tla"])
        mods = self.modules(rng)
        for k, m in enumerate(mods):
            ren = dict(zip(m["names"], rng.sample(NAMES, len(m["names"]))))
            f = lambda xs: [ren.get(x, x) for x in xs]
            m.update(id=k + 1, names=f(m["names"]), own={ren[t]: set(x) for t, x in m["own"].items()},
                     par={ren[t]: set(f(x)) for t, x in m["par"].items()})
        # The using part: modules in slices, plus the built-in tables (module 0).
        zero = {"id": 0, "names": [], "own": {}, "par": {}}
        slices = [mods[q::CPUS] for q in range(CPUS)]
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            rs = [ex.submit(self.tlc, "U%d" % q, ["T1"], [], 0,
                            [Rec(id=m["id"], names=list(m["names"]), own=m["own"], par=m["par"]) for m in s + ([zero] if q == 0 else [])],
                            2) for q, s in enumerate(slices)]
            rs = [r.result() for r in rs]
        meaning = {m["id"]: m for r in rs for m in r[0]["MODULE"]}
        uses = [u for r in rs for u in r[0]["USE"]]
        self.states += sum(r[1] for r in rs)
        uses = self.select(uniq(uses), rng)
        log("model: %d states; %d modules, %d uses" % (self.states, len(mods), len(uses)))
        crate = os.path.join(self.d, "derive")
        self.write(crate, mods, meaning, uses, rng)
        got = self.compile(crate)
        self.judge(mods, meaning, uses, got)

    def select(self, uses, rng):
        """All uses without or with one upcast; longer paths and the second element type in part."""
        out = []
        for u in uses:
            n = len(u["path"])
            if u["elem"] == "other" and not (n == 1 or rng.random() < 0.1):
                continue
            if n > 2 and not self.base.BIG and rng.random() < 0.6:
                continue
            out.append(u)
        for k, u in enumerate(out):
            u["key"] = "u%d" % k
        return out

    def table(self, m, x):
        if x in STD or x == "Drop":
            return "dync::traits::%sVTable" % x
        return "%s::%sVTable" % (m, x)

    def write(self, crate, mods, meaning, uses, rng):
        shutil.rmtree(crate, ignore_errors=True)
        make_crate(crate, "derive-clients", "fn main() {}\n")
        open(os.path.join(crate, "src", "lib.rs"), "w").write(PRELUDE % rust_elems())
        by = collections.defaultdict(list)
        for u in uses:
            by[u["id"]].append(u)
        shards = [[] for _ in range(CPUS)]
        for k, m in enumerate(mods):
            shards[k % CPUS].append(m)
        self.where = {}
        bins = os.path.join(crate, "src", "bin")
        os.makedirs(bins)
        for q, ms in enumerate(shards):
            s = ["#![allow(warnings)]", "extern crate dync as dd;", "use derive_clients::*;", "use dync::*;", "use dync::traits::*;"]
            calls = []
            if q == 0:
                s += self.use_fns(0, by[0], calls, "")
                s.append("fn built() {")
                for b in self.built:
                    for e in ELEMS:
                        s.append('println!("b/%s/admits/%s\\t{}", probe!(%s: VTable<%s>));' % (b["table"], e, self.table("", b["table"]), RUST[e]))
                    for c in STD + ["Drop"]:
                        s.append('println!("b/%s/offers/%s\\t{}", probe!(%s: Has%s));' % (b["table"], c, self.table("", b["table"]), c))
                s.append("}")
                calls.append("built();")
            for m in ms:
                at = len("\n".join(s).split("\n"))
                s += self.module(m, meaning[m["id"]], by[m["id"]], calls, rng)
                self.where[m["id"]] = (q, at + 1, len("\n".join(s).split("\n")))
            s.append("fn main() { %s }" % "\n".join(calls))
            open(os.path.join(bins, "s%d.rs" % q), "w").write("\n".join(s) + "\n")

    def decl(self, m, rng):
        """The module's text: how bounds are ordered and what else is there does not matter."""
        single = len(m["names"]) == 1 and rng.random() < 0.7
        attr = rng.choice(["", "", '(dync_crate_name = "dd")'])
        lines = []
        for t in m["names"]:
            bs = [BOUND.get(c, c) for c in m["own"][t]] + list(m["par"][t])
            bs += [n for n in NOISE if rng.random() < 0.12]
            bs.sort()
            rng.shuffle(bs)
            body = rng.choice(["", "", " fn extra(&self) -> u32 { 3 } ", " const K: u8 = 1; fn by(&self, x: &Self) where Self: Sized {} "])
            lines.append("    pub trait %s%s {%s}" % (t, ": " + " + ".join(bs) if bs else "", body))
            if rng.random() < 0.2:
                lines.append("    pub struct S%s; impl S%s { pub fn f() {} }" % (t, t))
        name = "m%d" % m["id"]
        if single:
            tr = [l for l in lines if " trait " in l][0]
            return ["pub mod %s {" % name, "    use dync::*;", "    #[dync_trait%s]" % attr, tr, "}"], "dync_trait" + attr
        return ["#[dync_mod%s]" % attr, "pub mod %s {" % name] + lines + ["}"], "dync_mod" + attr

    def module(self, m, mean, uses, calls, rng):
        n = "m%d" % m["id"]
        s, m["how"] = self.decl(m, rng)
        m["text"] = "\n".join(s)
        for t in m["names"]:
            for e in sorted(mean["admits"][t]):
                s.append("impl %s::%s for %s {}" % (n, t, RUST[e]))
        s.append("fn probes_%s() {" % n)
        for t in m["names"]:
            vt = self.table(n, t)
            for c in STD + ["Drop"]:
                s.append('println!("%s/%s/offers/%s\\t{}", probe!(%s: Has%s));' % (n, t, c, vt, c))
            for y in m["names"]:
                if y != t:
                    s.append('println!("%s/%s/has/%s\\t{}", probe!(%s: %s::Has%s));' % (n, t, y, vt, n, y))
            for y in m["names"] + STD + ["Drop"]:
                if y != t:
                    s.append('println!("%s/%s/into/%s\\t{}", probe_from!(%s, %s));' % (n, t, y, self.table(n, y), vt))
            for e in ELEMS:
                s.append('println!("%s/%s/admits/%s\\t{}", probe!(%s: VTable<%s>));' % (n, t, e, vt, RUST[e]))
            s.append('println!("%s/%s/container/Send\\t{}", probe!(VecDyn<%s>: Send));' % (n, t, vt))
            s.append('println!("%s/%s/container/Sync\\t{}", probe!(VecDyn<%s>: Sync));' % (n, t, vt))
        s.append("}")
        calls.append("probes_%s();" % n)
        return s + self.use_fns(m["id"], uses, calls, n)

    def use_fns(self, mid, uses, calls, n):
        s = []
        paths = collections.defaultdict(list)
        for u in uses:
            paths[(tuple(u["path"]), u["elem"])].append(u)
        body = []
        for k, ((path, e), us) in enumerate(sorted(paths.items())):
            f = "p%d_%d" % (mid, k)
            ups = "".join(".upcast::<%s>()" % self.table(n, x) for x in path[1:])
            s.append("fn %s(b: u32) -> VecDyn<%s> { mk::<%s, %s>(b)%s }" % (f, self.table(n, path[-1]), RUST[e], self.table(n, path[0]), ups))
            for u in us:
                body.append('%s::<%s, %s>("%s", %s);' % (OPS[u["op"]], RUST[e], self.table(n, path[-1]), u["key"], f))
        for k in range(0, len(body), 30):
            s.append("fn uses%d_%d() { %s }" % (mid, k, "\n".join(body[k:k + 30])))
            calls.append("uses%d_%d();" % (mid, k))
        return s

    def compile(self, crate):
        e = cargo_env()
        e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target", "derive")
        q = subprocess.run(["cargo", "build", "--offline", "--quiet", "--lib"], cwd=crate, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if q.returncode != 0:
            raise Broken("the code under test does not build:\n" + q.stdout[-3000:])
        q = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bins", "--keep-going"], cwd=crate, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=3000)
        if q.returncode != 0:
            m = re.search(r"--> src/bin/s(\d+)\.rs:(\d+)", q.stdout)
            where = ""
            if m:
                for mid, (b, lo, hi) in self.where.items():
                    if b == int(m.group(1)) and lo <= int(m.group(2)) <= hi:
                        where = "module m%d" % mid
            if "rustc panicked" in q.stdout or not re.search(r"^error", q.stdout, re.M):
                raise Broken(q.stdout[-3000:])
            raise Violation("tables derived for a hierarchy are not accepted, or lack what it declares (%s)" % where,
                            save_replay(self.prop, "replay.txt", where + "\n" + q.stdout[:20000]))
        log("compiled")
        got = {}
        procs = []
        for k in range(CPUS):
            exe = os.path.join(HARNESS, "target", "derive", "debug", "s%d" % k)
            procs.append(subprocess.Popen([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
        for k, p in enumerate(procs):
            o, err = p.communicate(timeout=600)
            for l in o.splitlines():
                f = l.split("\t")
                got[f[0]] = f[1:]
            if p.returncode != 0:
                raise Violation("using a derived table ended with %s: %s" % (p.returncode, err[-500:]),
                                save_replay(self.prop, "replay.txt", o[-1000:] + err))
        return got

    def judge(self, mods, meaning, uses, got):
        bad = []
        text = {m["id"]: m["text"] for m in mods}
        probes = 0

        def want(key, v, what, mid):
            nonlocal probes
            probes += 1
            g = got.get(key)
            if g is None:
                raise Broken("no answer to " + key)
            if (g[0] == "true") != v:
                bad.append((mid, "%s: %s, although the hierarchy says %s" % (what, g[0], v)))

        for b in self.built:
            for e in ELEMS:
                want("b/%s/admits/%s" % (b["table"], e), e in b["admits"], "%sVTable admits %s" % (b["table"], e), 0)
            for c in STD + ["Drop"]:
                want("b/%s/offers/%s" % (b["table"], c), c in b["offered"], "%sVTable offers %s" % (b["table"], c), 0)
        for m in mods:
            mean = meaning[m["id"]]
            n = "m%d" % m["id"]
            for t in m["names"]:
                for c in STD + ["Drop"]:
                    want("%s/%s/offers/%s" % (n, t, c), c in mean["offered"][t], "%s::%sVTable offers %s" % (n, t, c), m["id"])
                for y in m["names"]:
                    if y != t:
                        want("%s/%s/has/%s" % (n, t, y), y in mean["must"][t], "%s::%sVTable has the capabilities of %s" % (n, t, y), m["id"])
                for y in m["names"] + STD + ["Drop"]:
                    if y in mean["must"][t] or y in mean["mustnot"][t]:
                        want("%s/%s/into/%s" % (n, t, y), y in mean["must"][t], "%s::%sVTable converts to the table of %s" % (n, t, y), m["id"])
                for e in ELEMS:
                    want("%s/%s/admits/%s" % (n, t, e), e in mean["admits"][t], "%s::%sVTable admits %s" % (n, t, e), m["id"])
                for p in ("Send", "Sync"):
                    want("%s/%s/container/%s" % (n, t, p), p in mean["offered"][t], "VecDyn<%s::%sVTable> is %s" % (n, t, p), m["id"])
        for u in uses:
            g = got.get(u["key"])
            if g is None:
                raise Broken("no answer to use " + u["key"])
            log_ = ["%s.%s.%d.%d" % (u["elem"], x[0], x[1], x[2]) for x in u["expect"]["log"]]
            have = [x for x in g[0].split(",") if x]
            if u["op"] == "Drop":
                log_.sort()
                have.sort()
            if have != log_ or g[1] != u["expect"]["result"]:
                bad.append((u["id"], "%s through %s does %s (%s) instead of %s (%s)" % (
                    u["op"], " -> ".join(u["path"]), have, g[1], log_, u["expect"]["result"])))
        self.inner.cov = {"states": self.states, "transitions": len(uses), "traces_validated_against_impl": len(uses) + probes,
                          "hierarchies_agreed_in_model": sum(len(v) for v in self.pools.values()), "hierarchies_compiled": len(mods),
                          "uses_of_containers": len(uses), "probes": probes,
                          "by_macro": dict(collections.Counter(m["how"] for m in mods)), "exhaustive": False,
                          "samples": [{"module": m["text"], "uses": [dict(path=u["path"], op=u["op"], expect=u["expect"]) for u in uses if u["id"] == m["id"]][:3]}
                                      for m in mods[100::60][:4]]}
        self.inner.assumptions = ["bounds are written the way the documentation writes them (Clone, PartialEq, Eq, std::hash::Hash, std::fmt::Debug, Send, Sync, Drop)",
                                  "a hierarchy is what one macro invocation sees"]
        if bad:
            bad.sort(key=lambda b: len(text.get(b[0], "")))
            log("%d disagreements" % len(bad))
            raise Violation(bad[0][1], save_replay(self.prop, "replay.txt", "\n".join("%s\n%s\n" % (text.get(i, "built-in tables"), x) for i, x in bad[:50])))
        log("%d probes and %d uses agree" % (probes, len(uses)))


def uniq(xs):
    seen, out = set(), []
    for x in xs:
        k = json.dumps({a: (sorted(b) if isinstance(b, list) and a not in ("names", "path") and all(isinstance(y, str) for y in b) else b)
                        for a, b in x.items()}, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out
