"""C15: the conversions of spec/Numeric.tla repeated on the real containers."""
import json
import os
import random
import struct
import subprocess
from fractions import Fraction

from vlib import *  # noqa
from vlib import Rec
from markers import tla_any

NUM = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"]
MORE = ["u128", "i128", "usize", "isize"]
# Element types that are not numbers: name -> (Rust type, a value, Copy).
OTHER = {
    "bool": ("bool", "true", True), "char": ("char", "'a'", True), "unit8": ("[u8; 1]", "[1]", True), "a2": ("[u8; 2]", "[1, 2]", True),
    "a4": ("[u8; 4]", "[1, 2, 3, 4]", True), "a8": ("[u8; 8]", "[1; 8]", True), "pair": ("(u8, u8)", "(1, 2)", True), "pair32": ("(u32, u32)", "(1, 2)", True),
    "w8": ("W<u8>", "W(1)", True), "wi8": ("W<i8>", "W(1)", True), "w16": ("W<u16>", "W(1)", True), "wi16": ("W<i16>", "W(1)", True),
    "w32": ("W<u32>", "W(1)", True), "wi32": ("W<i32>", "W(1)", True), "w64": ("W<u64>", "W(1)", True), "wi64": ("W<i64>", "W(1)", True),
    "wf32": ("W<f32>", "W(1.0)", True), "wf64": ("W<f64>", "W(1.0)", True), "wrapping": ("std::num::Wrapping<u32>", "std::num::Wrapping(3)", True),
    "nonzero": ("std::num::NonZeroU16", "std::num::NonZeroU16::new(5).unwrap()", True), "u128_": ("u128", "7", True), "i128_": ("i128", "-7", True),
    "ptr": ("*const u8", "std::ptr::null()", True), "str": ("&'static str", '"x"', True), "opt": ("Option<u8>", "Some(1)", True), "ord": ("std::cmp::Ordering", "std::cmp::Ordering::Less", True),
    "boxed": ("Box<u64>", "Box::new(1)", False), "string": ("String", "String::new()", False), "nc8": ("N<u8>", "N(1)", False),
    "nc16": ("N<i16>", "N(1)", False), "nc32": ("N<f32>", "N(1.0)", False), "nc64": ("N<f64>", "N(1.0)", False), "rc": ("std::rc::Rc<u8>", "std::rc::Rc::new(1)", False),
}

SOURCE = r'''#![allow(warnings)]
use dync::*;
use dync::traits::*;
use std::any::TypeId;
use std::io::Read;
#[dync_trait] pub trait All: Clone + std::fmt::Debug {}
impl<T: Clone + std::fmt::Debug> All for T {}
#[derive(Clone, Copy, Debug)] #[repr(transparent)] struct W<T>(T);
#[derive(Clone, Debug)] #[repr(transparent)] struct N<T>(T);

trait Num: Copy + 'static + std::fmt::Debug + std::fmt::Display { fn parse(s: &str) -> Self; fn bits(self) -> String; }
macro_rules! int { ($($t:ty)*) => { $(impl Num for $t { fn parse(s: &str) -> Self { s.parse().unwrap() } fn bits(self) -> String { self.to_string() } })* } }
int!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
macro_rules! float { ($($t:ident $b:ident)*) => { $(impl Num for $t {
    fn parse(s: &str) -> Self { $t::from_bits($b::from_str_radix(s, 16).unwrap()) }
    fn bits(self) -> String { if self.is_nan() { "nan".into() } else { format!("{:x}", self.to_bits()) } } })* } }
float!(f32 u32 f64 u64);

fn shown<T: Num>(v: &[T]) -> String { v.iter().map(|x| x.bits()).collect::<Vec<_>>().join(",") }
fn answer<T: Num>(r: Option<Vec<T>>) -> String { match r { Some(v) => format!("[{}]", shown(&v)), None => "none".into() } }
/// The vector's elements, built in one of several ways.
fn dynv<S: Num, V: VTable<S> + HasDrop>(vals: &[S], way: usize) -> VecDyn<V> {
    match way % 3 {
        0 => VecDyn::from(vals.to_vec()),
        1 => { let mut v = VecDyn::<V>::with_type::<S>(); for x in vals { v.push_as(*x).unwrap(); } v }
        _ => { let mut v = VecDyn::<V>::from(vals[..vals.len() / 2].to_vec()); for x in &vals[vals.len() / 2..] { v.push_as(*x).unwrap(); } v }
    }
}
fn copyv<S: Num, V: VTable<S>>(vals: &[S], way: usize) -> VecCopy<V> {
    match way % 3 {
        0 => VecCopy::from(vals.to_vec()),
        1 => { let mut v = VecCopy::<V>::with_type(); for x in vals { v.push_as(*x).unwrap(); } v }
        _ => { let mut v = VecCopy::<V>::from(&vals[..vals.len() / 2]); for x in &vals[vals.len() / 2..] { v.push_as(*x).unwrap(); } v }
    }
}
macro_rules! cast { ($v:expr, $t:expr, $f:expr) => { match $t {
    TARGETS
    x => panic!("no target {}", x) } } }

unsafe fn name1<T: 'static, X>(_: &X, out: &mut String) { out.push_str(std::any::type_name::<T>()); }
struct M<V: 'static>(VecCopy<V>);
impl<V> M<V> {
    fn element_type_id(&self) -> TypeId { self.0.element_type_id() }
    unsafe fn name2<T: 'static>(&self, out: &mut String) { out.push_str(std::any::type_name::<T>()); }
}
fn pick<V: 'static>(v: VecCopy<V>) -> String {
    let (mut a, mut b) = (String::new(), String::new());
    let c = { let r = &mut a; let x = &v; unsafe fn f<T: 'static, V>(x: &VecCopy<V>, r: &mut String) { name1::<T, _>(x, r) } call_numeric_buffer_fn!( f::<_, V>(x, r) or { r.push_str("none") } ) };
    let m = M(v);
    { let r = &mut b; let x = &m; call_numeric_buffer_fn!( x.name2::<_>(r) or { r.push_str("none") } ); }
    if a == b { a } else { format!("{}/{}", a, b) }
}

fn run<S: Num>(vals: &str, to: &str, way: usize) where S: Copy {
    let vals: Vec<S> = vals.split(',').filter(|x| !x.is_empty()).map(S::parse).collect();
    let before = shown(&vals);
    let mut out = Vec::new();
    {
        let v = dynv::<S, DropVTable>(&vals, way);
        out.push(cast!(v, to, |x| x));
        assert_eq!(v.as_slice_as::<S>().map(shown), Some(before.clone()), "changed by the conversion");
        assert_eq!(v.into_vec::<S>().map(|x| shown(&x)), Some(before.clone()), "changed by the conversion");
    }
    {
        let v = dynv::<S, AllVTable>(&vals, way + 1);
        out.push(cast!(v, to, |x| x));
        let w: VecDyn<AllVTable> = v.clone();
        out.push(cast!(w, to, |x| x));
        assert_eq!(v.as_slice_as::<S>().map(shown), Some(before.clone()), "changed by the conversion");
    }
    {
        let v = copyv::<S, ()>(&vals, way + 2);
        out.push(cast!(v, to, Some));
        let w = v.clone();
        out.push(cast!(w, to, Some));
        assert_eq!(v.as_slice_as::<S>().map(shown), Some(before.clone()), "changed by the conversion");
        let text = v.to_string();
        let text: Vec<&str> = text.split_whitespace().collect();
        let want: Vec<String> = vals.iter().map(|x| x.to_string()).collect();
        assert_eq!(text, want, "shown");
    }
    for x in &out[1..] { assert_eq!(x, &out[0], "containers disagree"); }
    println!("cast\t{}", out[0]);
}
macro_rules! other_dyn { ($t:ty, $v:expr, $n:expr, $to:expr) => {{
    let v: VecDyn<DropVTable> = VecDyn::from((0..$n).map(|_| { let x: $t = $v; x }).collect::<Vec<$t>>());
    println!("cast\t{}", cast!(v, $to, |x| x));
    assert_eq!(v.len(), $n);
}} }
macro_rules! other_copy { ($t:ty, $v:expr, $n:expr, $to:expr) => {{
    let v: VecCopy<()> = VecCopy::from((0..$n).map(|_| { let x: $t = $v; x }).collect::<Vec<$t>>());
    println!("copy\t{}", cast!(v, $to, Some));
    assert_eq!(v.len(), $n);
}} }
fn main() {
    let path = std::env::args().nth(1).unwrap();
    let text = std::fs::read_to_string(path).unwrap();
    for (way, l) in text.lines().enumerate() {
        let f: Vec<&str> = l.split('\t').collect();
        let n: usize = f.get(3).map_or(0, |x| x.parse().unwrap());
        let to = f.get(2).copied().unwrap_or("");
        println!("at\t{}", way);
        match (f[0], f[1]) {
            CASES
            x => panic!("no case {:?}", x),
        }
    }
}
'''


def program():
    targets = "\n    ".join('"%s" => answer::<%s>($f($v.cast_into_vec::<%s>())),' % (t, t, t) for t in NUM + MORE)
    cases = ['("cast", "%s") => run::<%s>(f[4], to, way),' % (t, t) for t in NUM]
    for n, (t, v, copy) in OTHER.items():
        c = 'other_dyn!(%s, %s, n, to);' % (t, v)
        if copy:
            c += ' other_copy!(%s, %s, n, to);' % (t, v)
        cases.append('("cast", "%s") => { %s }' % (n, c))
    for t in NUM:
        cases.append('("pick", "%s") => println!("pick\\t{}", pick(VecCopy::<()>::with_type::<%s>())),' % (t, t))
    for n, (t, v, copy) in OTHER.items():
        if copy:
            cases.append('("pick", "%s") => println!("pick\\t{}", pick(VecCopy::<()>::with_type::<%s>())),' % (n, t))
    return SOURCE.replace("TARGETS", targets).replace("CASES", "\n            ".join(cases))


def exact(v):
    n = int("0" + "".join(map(str, v["b"])), 2)
    x = Fraction(n) * Fraction(2) ** v["e"]
    return -x if v["neg"] else x


def encode(v, t):
    """The value the way the program reads and prints it; it must be one of the type."""
    if t[0] != "f":
        x = exact(v)
        assert v["k"] == "num" and x.denominator == 1, (v, t)
        lo, hi = (-(1 << (width(t) - 1)), 1 << (width(t) - 1)) if t[0] == "i" else (0, 1 << width(t))
        assert lo <= x < hi, (v, t)
        return str(x.numerator)
    p, emin, emax, size = (24, -126, 127, 32) if t == "f32" else (53, -1022, 1023, 64)
    sign = (1 << (size - 1)) if v["neg"] else 0
    if v["k"] == "nan":
        return "nan"
    if v["k"] == "inf":
        bits = ((1 << (size - p)) - 1) << (p - 1)
    else:
        x = abs(exact(v))
        if x == 0:
            bits = 0
        else:
            e = max(emin, x.numerator.bit_length() - x.denominator.bit_length() - 1)
            while x >= Fraction(2) ** (e + 1):
                e += 1
            m = x / Fraction(2) ** (e - (p - 1))
            assert m.denominator == 1 and m < (1 << p) and e <= emax, (v, t)
            m = m.numerator
            bits = m if m < (1 << (p - 1)) else ((e - emin + 1) << (p - 1)) | (m & ((1 << (p - 1)) - 1))
    return "%x" % (bits | sign)


def width(t):
    return 64 if t.endswith("size") else int(t[1:])


def arg(v, t):
    s = encode(v, t)
    return {"f32": "7fc00000", "f64": "7ff8000000000000"}[t] if s == "nan" else s


class Check:
    def __init__(self, prop, base):
        self.prop = prop
        self.base = base
        self.inner = base.Check(prop)
        self.d = self.inner.d
        self.evidence = self.inner.evidence

    def randoms(self, t, n, rng):
        """Random values of a type, evenly spread over magnitudes."""
        out = []
        while len(out) < n:
            if t[0] == "f":
                p, emin, emax = (24, -126, 127) if t == "f32" else (53, -1022, 1023)
                k = rng.randint(1, p)
                b = [1] + [rng.randint(0, 1) for _ in range(k - 1)]
                e = rng.choice([rng.randint(-20, 70), rng.randint(-160, 135), rng.randint(-1074, 1023)]) - k + 1
                if e < emin - (p - 1) or e + k - 1 > emax:
                    continue
                neg = rng.random() < 0.5
            else:
                w = width(t) - (t[0] == "i")
                k = rng.randint(1, w)
                b = [1] + [rng.randint(0, 1) for _ in range(k - 1)]
                e = 0
                neg = t[0] == "i" and rng.random() < 0.5
            out.append(Rec(k="num", neg=neg, b=b, e=e))
        return out

    def tlc(self, t, others, extra):
        d = self.d
        name = "N_" + (t or "other")
        consts = [("Sources", tla({t} if t else set(others))), ("Targets", tla(set(NUM + MORE))),
                  ("Extra", tla_any({t: extra}) if t else "<<>>")]
        with open(os.path.join(d, name + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS Numeric\n" % name)
            for k, v in consts:
                f.write("c_%s == %s\n" % (k, v))
            f.write("====\n")
        with open(os.path.join(d, name + ".cfg"), "w") as f:
            f.write("SPECIFICATION Spec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS\n")
            for k, _ in consts:
                f.write("  %s <- c_%s\n" % (k, k))
        rc, out = run_tlc(d, name, name + ".cfg", ["-workers", "1"], timeout=3000)
        if rc != 0:
            raise Broken("Numeric.tla (%s): %s" % (name, "".join(l for l in open(out) if not l.startswith('<<"'))[-3000:]))
        casts = list(printed(open(out), "CAST"))
        srcs = {(x["from"], x["n"]): x["src"] for x in printed(open(out), "SRC")}
        for c in casts:
            c["src"] = srcs[(c["from"], c["n"])]
        picks = list(printed(open(out), "PICK"))
        states = tlc_numbers("".join(l for l in open(out) if not l.startswith('<<"')))[1]
        os.remove(out)
        return casts, picks, states

    def run(self):
        big = self.base.BIG
        rng = random.Random(self.base.SEED)
        copy_spec(self.d, ["Numeric.tla"])
        crate = os.path.join(self.d, "numeric")
        make_crate(crate, "numeric-probe", program())
        b = Build(("dev", "release"), crate, "numeric-probe", target=os.path.join(HARNESS, "target", "numeric"))
        jobs = [(t, None, self.randoms(t, 4000 if big else 300, rng)) for t in ("f64", "f32", "i64", "u64", "i32", "u32", "i16", "u16", "i8", "u8")]
        jobs.append((None, list(OTHER), []))
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            rs = list(ex.map(lambda j: self.tlc(*j), jobs))
        casts = [c for r in rs for c in r[0]]
        picks = uniq_picks([p for r in rs for p in r[1]])
        states = sum(r[2] for r in rs)
        values = sum(len(c["src"]) for c in casts if c["numeric"])
        log("model: %d states, %d conversions of %d values" % (states, len(casts), values))
        lines, want = [], []
        cache = {}

        def enc(f, v, t):
            k = (f, v["k"], v["neg"], tuple(v["b"]), v["e"], t)
            if k not in cache:
                cache[k] = (arg if f == "a" else encode)(v, t)
            return cache[k]
        for c in casts:
            if c["numeric"]:
                lines.append("cast\t%s\t%s\t%d\t%s" % (c["from"], c["to"], len(c["src"]), ",".join(enc("a", v, c["from"]) for v in c["src"])))
                want.append([("cast", "[%s]" % ",".join(enc("e", v, c["to"]) for v in c["out"]))])
            else:
                lines.append("cast\t%s\t%s\t%d\t" % (c["from"], c["to"], len(c["src"])))
                want.append([("cast", "none")] + ([("copy", "[]")] if OTHER[c["from"]][2] else []))
        for p in picks:
            if p["from"] in NUM or OTHER[p["from"]][2]:
                lines.append("pick\t%s" % p["from"])
                want.append([("pick", p["picked"])])
        path = os.path.join(self.d, "cases.txt")
        open(path, "w").write("\n".join(lines) + "\n")
        try:
            bins = b.wait()
        except NotAccepted as e:
            raise Violation("a program converting numbers is not accepted", save_replay(self.prop, "replay.txt", str(e)))
        bad = []
        for prof, exe in bins.items():
            with open(os.path.join(self.d, "out." + prof), "w") as o:
                r = subprocess.run([exe, path], stdout=o, stderr=subprocess.PIPE, text=True, timeout=1200)
            got = {}
            at = None
            for l in open(os.path.join(self.d, "out." + prof)):
                k, _, v = l.rstrip("\n").partition("\t")
                if k == "at":
                    at = int(v)
                    got[at] = []
                elif k in ("cast", "copy", "pick"):
                    got[at].append((k, v))
            if r.returncode != 0:
                bad.append("%s: %s\n    ended with %s: %s" % (prof, lines[at][:300] if at is not None else "", r.returncode, r.stderr[-1500:]))
                continue
            for k, w in enumerate(want):
                if got.get(k) != w:
                    bad.append("%s: %s" % (prof, self.explain(lines[k], w, got.get(k))))
        self.inner.cov = {"states": states, "transitions": len(casts) + len(picks), "traces_validated_against_impl": len(lines) * len(bins),
                          "values_converted": values, "pairs_of_types": len({(c["from"], c["to"]) for c in casts}), "exhaustive": False,
                          "samples": [{"case": lines[k][:200], "expected": str(want[k])[:200]} for k in range(0, len(lines), max(1, len(lines) // 6))]}
        self.inner.assumptions = ["usize and isize as element types are outside: the documentation names 8 to 64 bit types, and the crate does not convert them",
                                  "NaN payloads are not compared"]
        if bad:
            log("%d disagreements" % len(bad))
            raise Violation(bad[0][:600], save_replay(self.prop, "replay.txt", "\n".join(bad[:100]) + "\n"))
        log("%d conversions agree" % len(lines))

    def explain(self, line, w, g):
        f = line.split("\t")
        if g and len(g) == len(w) and f[0] == "cast" and len(f) > 4 and f[4]:
            for (a, x), (b, y) in zip(w, g):
                for v, p, q in zip(f[4].split(","), x.strip("[]").split(","), y.strip("[]").split(",")):
                    if p != q:
                        return "%s %s to %s gives %s, and should give %s" % (f[1], v, f[2], q, p)
        return "%s: got %s, expected %s" % (line[:300], str(g)[:300], str(w)[:300])


def uniq_picks(ps):
    return [dict(t) for t in {tuple(sorted(p.items())) for p in ps}]
