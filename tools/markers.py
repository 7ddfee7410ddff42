"""C12: Send and Sync of the public types, compared with spec/Marker.tla."""
import vlib
from vlib import *  # noqa

NONE, SEND, SYNC, BOTH = (dict(send=a, sync=b) for a, b in ((False, False), (True, False), (False, True), (True, True)))

# Capability tables: name -> (Rust type, what it demands, sized)
TABLES = {
    "unit": ("()", NONE, True),
    "drop": ("DropVTable", NONE, True), "clone": ("CloneVTable", NONE, True), "partialeq": ("PartialEqVTable", NONE, True),
    "eq": ("EqVTable", NONE, True), "hash": ("HashVTable", NONE, True), "debug": ("DebugVTable", NONE, True),
    "send": ("SendVTable", SEND, True), "sync": ("SyncVTable", SYNC, True),
    "t_plain": ("PlainVTable", NONE, True), "t_send": ("OnlySendVTable", SEND, True), "t_sync": ("OnlySyncVTable", SYNC, True),
    "t_both": ("BothVTable", BOTH, True), "t_clone_send": ("CloneSendVTable", SEND, True),
    "t_debug_sync": ("DebugSyncVTable", SYNC, True), "t_all": ("AllVTable", BOTH, True),
    "m_base": ("m::BaseVTable", SEND, True), "m_mid": ("m::MidVTable", SEND, True), "m_side": ("m::SideVTable", SYNC, True),
    "m_top": ("m::TopVTable", BOTH, True), "m_none": ("m::NoneVTable", NONE, True),
    "dyn_drop": ("dyn HasDrop", NONE, False), "dyn_plain": ("dyn HasPlain", NONE, False),
    "dyn_send": ("dyn HasOnlySend", SEND, False), "dyn_sync": ("dyn HasOnlySync", SYNC, False), "dyn_all": ("dyn HasAll", BOTH, False),
}
SIZED = {t for t, x in TABLES.items() if x[2]}
DROPPING = set(TABLES) - {"unit"}

# Types: name -> (pattern, mode, whether demanded permissions must be there, tables)
TYPES = {
    "VecDyn": ("VecDyn<{}>", "own", True, DROPPING),
    "BoxValue": ("BoxValue<{}>", "own", True, DROPPING),
    "SmallValue": ("SmallValue<{}>", "own", True, DROPPING),
    "Slice": ("Slice<'static, {}>", "shr", True, DROPPING),
    "SliceMut": ("SliceMut<'static, {}>", "mut", True, DROPPING),
    "ValueRef": ("ValueRef<'static, {}>", "shr", True, DROPPING),
    "ValueMut": ("ValueMut<'static, {}>", "mut", True, DROPPING),
    "CopyValueRef": ("CopyValueRef<'static, {}>", "shr", True, set(TABLES)),
    "CopyValueMut": ("CopyValueMut<'static, {}>", "mut", True, set(TABLES)),
    "VecCopy": ("VecCopy<{}>", "own", False, set(TABLES)),
    "SliceCopy": ("SliceCopy<'static, {}>", "shr", False, set(TABLES)),
    "SliceCopyMut": ("SliceCopyMut<'static, {}>", "mut", False, set(TABLES)),
}
# Iterators: name -> (expression, mode, tables). d: VecDyn, c: VecCopy.
D, C = SIZED - {"unit"}, SIZED
ITERS = {
    "VecDyn.iter": ("d.iter()", "shr", D),
    "VecDyn.iter_mut": ("d.iter_mut()", "mut", D),
    "VecDyn.as_slice": ("d.as_slice()", "shr", D),
    "VecDyn.as_mut_slice": ("d.as_mut_slice()", "mut", D),
    "VecDyn.get": ("d.get(0)", "shr", D),
    "VecDyn.get_mut": ("d.get_mut(0)", "mut", D),
    "Slice.iter": ("d.as_slice().iter()", "shr", D),
    "Slice.into_iter": ("d.as_slice().into_iter()", "shr", D),
    "Slice.chunks_exact": ("d.as_slice().chunks_exact(1)", "shr", D),
    "SliceMut.iter": ("d.as_mut_slice().iter()", "mut", D),
    "SliceMut.into_iter": ("d.as_mut_slice().into_iter()", "mut", D),
    "SliceMut.chunks_exact": ("d.as_mut_slice().chunks_exact(1)", "shr", D),
    "SliceMut.chunks_exact_mut": ("d.as_mut_slice().chunks_exact_mut(1)", "mut", D),
    "VecCopy.iter": ("c.iter()", "shr", C),
    "VecCopy.iter_mut": ("c.iter_mut()", "mut", C),
    "VecCopy.get_ref": ("c.get_ref(0)", "shr", C),
    "VecCopy.get_mut": ("c.get_mut(0)", "mut", C),
    "SliceCopy.iter": ("c.as_slice().iter()", "shr", C),
    "SliceCopy.into_iter": ("c.as_slice().into_iter()", "shr", C),
    "SliceCopy.chunks_exact": ("c.as_slice().chunks_exact(1)", "shr", C),
    "SliceCopyMut.iter": ("c.as_mut_slice().iter()", "mut", C),
    "SliceCopyMut.into_iter": ("c.as_mut_slice().into_iter()", "mut", C),
    "SliceCopyMut.chunks_exact": ("c.as_mut_slice().chunks_exact(1)", "shr", C),
    "SliceCopyMut.chunks_exact_mut": ("c.as_mut_slice().chunks_exact_mut(1)", "mut", C),
}

ELEMS = {(True, True): "PhantomData<u8>", (True, False): "PhantomData<Cell<u8>>",
         (False, True): "PhantomData<std::sync::MutexGuard<'static, u8>>", (False, False): "PhantomData<*const u8>"}

PRELUDE = r'''
#![allow(unused, non_snake_case)]
use dync::traits::*;
use dync::*;
use std::cell::Cell;
use std::marker::PhantomData;

macro_rules! probe {
    ($t:ty : $($b:tt)*) => {{
        trait No { const V: bool = false; }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(PhantomData<T>);
        impl<T: ?Sized + $($b)*> W<T> { const V: bool = true; }
        <W<$t>>::V
    }};
}
struct W<T>(PhantomData<T>);
fn w<T>(_: &T) -> W<T> { W(PhantomData) }
struct S<T>(PhantomData<T>);
fn s<T>(_: &T) -> S<T> { S(PhantomData) }
trait No { fn yes(&self) -> bool { false } }
impl<T> No for &W<T> {}
impl<T> No for &S<T> {}
impl<T: Send> W<T> { fn yes(&self) -> bool { true } }
impl<T: Sync> S<T> { fn yes(&self) -> bool { true } }

#[dync_trait] pub trait Plain: Clone {}
#[dync_trait] pub trait OnlySend: Send {}
#[dync_trait] pub trait OnlySync: Sync {}
#[dync_trait] pub trait Both: Send + Sync {}
#[dync_trait] pub trait CloneSend: Clone + Send {}
#[dync_trait] pub trait DebugSync: std::fmt::Debug + Sync {}
#[dync_trait] pub trait All: Sync + Clone + Send + std::hash::Hash + std::fmt::Debug + PartialEq + Eq {}
impl<T: Clone> Plain for T {}
impl<T: Send> OnlySend for T {}
impl<T: Sync> OnlySync for T {}
impl<T: Send + Sync> Both for T {}
impl<T: Clone + Send> CloneSend for T {}
impl<T: std::fmt::Debug + Sync> DebugSync for T {}
impl<T: Sync + Clone + Send + std::hash::Hash + std::fmt::Debug + PartialEq + Eq> All for T {}
#[dync_mod]
pub mod m {
    pub trait Top: Mid + Side {}
    pub trait Mid: Base + Clone {}
    pub trait Base: Send {}
    pub trait Side: Sync + std::fmt::Debug {}
    pub trait None: Clone + std::hash::Hash {}
}
impl<T: m::Mid + m::Side> m::Top for T {}
impl<T: m::Base + Clone> m::Mid for T {}
impl<T: Send> m::Base for T {}
impl<T: Sync + std::fmt::Debug> m::Side for T {}
impl<T: Clone + std::hash::Hash> m::None for T {}
'''


class Check:
    def __init__(self, prop, base):
        self.prop = prop
        self.base = base
        self.inner = base.Check(prop)
        self.d = self.inner.d
        self.evidence = self.inner.evidence

    def consts(self, tables, kinds, extra):
        d = self.d
        t = {n: Rec(x) for n, x in tables.items()}
        k = {n: Rec(mode=x[0], tables=set(x[1]), must=x[2]) for n, x in kinds.items()}
        return {"Tables": t, "Kinds": k, "Extra": extra}

    def model(self, name, consts):
        with open(os.path.join(self.d, name + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS Marker\n" % name)
            for k, v in consts.items():
                f.write("c_%s == %s\n" % (k, "<<>>" if v == [] else tla_any(v)))
            f.write("====\n")
        with open(os.path.join(self.d, name + ".cfg"), "w") as f:
            f.write("SPECIFICATION Spec\nINVARIANT Safe\nCHECK_DEADLOCK FALSE\nCONSTANTS\n")
            for k in consts:
                f.write("  %s <- c_%s\n" % (k, k))
        rc, out = run_tlc(self.d, name, name + ".cfg", ["-workers", "1"])
        return rc, open(out).read()

    def run(self):
        copy_spec(self.d, ["Marker.tla"])
        crate = os.path.join(self.d, "probe")
        make_crate(crate, "markers", self.source())
        b = Build(("dev",), crate, "markers", target=os.path.join(HARNESS, "target", "dev"))
        # The model: what is granted is safe, and nothing more could be.
        kinds = {n: (x[1], x[3], x[2]) for n, x in TYPES.items()}
        kinds.update({n: (x[1], x[2], False) for n, x in ITERS.items()})
        four = {"none": NONE, "send": SEND, "sync": SYNC, "both": BOTH}
        wrong = [(m, t, p) for m in ("own", "mut", "shr") for t, x in four.items() for p in ("send", "sync")
                 if not (x["sync"] if p == "sync" or m == "shr" else x["send"])]
        with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
            main = ex.submit(self.model, "MM", self.consts({n: x[1] for n, x in TABLES.items()}, kinds, []))
            rest = [ex.submit(self.model, "MX%d" % k, self.consts(four, {}, list(w))) for k, w in enumerate(wrong)]
            rc, text = main.result()
            if rc != 0:
                raise Broken("Marker.tla: " + text[-3000:])
            for w, r in zip(wrong, rest):
                rc2, t2 = r.result()
                if "Invariant Safe is violated" not in t2:
                    raise Broken("Marker.tla allows %s: %s" % (w, t2[-2000:]))
        states, = [tlc_numbers(text)[1]]
        cells = [json.loads(json.loads(l[len('<<"CELL", '):-2])) for l in text.splitlines() if l.startswith('<<"CELL"')]
        adm = [json.loads(json.loads(l[len('<<"ADM", '):-2])) for l in text.splitlines() if l.startswith('<<"ADM"')]
        log("model: %d states, %d cells, %d admissions, %d wrong permissions refuted" % (states, len(cells), len(adm), len(wrong)))
        try:
            exe = b.wait()["dev"]
        except NotAccepted as e:
            raise Violation("a program that uses only admitted elements is not accepted", save_replay(self.prop, "replay.txt", str(e)))
        got = {}
        r = subprocess.run([exe], stdout=subprocess.PIPE, text=True, timeout=300)
        if r.returncode != 0:
            raise Broken("the probe ended with %s" % r.returncode)
        for l in r.stdout.splitlines():
            k, v = l.split()
            got[k] = v == "true"
        known = {l.split("[", 1)[1].split("]")[0]: l for l in self.base.known_findings(self.prop)}
        seen, bad = set(), []
        for c in cells:
            g = got["%s/%s/%s" % (c["kind"], c["table"], c["perm"])]
            if g and not c["allowed"]:
                key = "%s:%s" % (c["kind"], c["perm"])
                if key in known:
                    seen.add(key)
                else:
                    bad.append("%(kind)s with table %(table)s has %(perm)s, although its elements need not" % c)
            elif c["demanded"] and not g:
                bad.append("%(kind)s with table %(table)s lacks %(perm)s, although all its elements have it" % c)
        for a in adm:
            if a["table"].startswith("dyn") or a["table"] == "unit":
                continue
            g = got["adm/%s/%s%s" % (a["table"], int(a["send"]), int(a["sync"]))]
            if g != a["admitted"]:
                bad.append("table %s %s elements with Send=%s, Sync=%s" % (
                    a["table"], "admits" if g else "refuses", a["send"], a["sync"]))
        for k in sorted(seen):
            print(known[k], flush=True)
        self.inner.cov = {"states": states, "transitions": sum(1 for _ in cells), "traces_validated_against_impl": len(got),
                          "cells": len(cells), "admissions": sum(1 for k in got if k.startswith("adm/")),
                          "wrong_permissions_refuted_by_model": len(wrong), "exhaustive": True,
                          "samples": [dict(c, observed=got["%s/%s/%s" % (c["kind"], c["table"], c["perm"])]) for c in cells[::101][:8]]}
        if bad:
            text = "\n".join(bad)
            raise Violation(bad[0], save_replay(self.prop, "replay.txt", text + "\n"))

    def source(self):
        s = [PRELUDE]
        for k, t in ELEMS.items():
            s.append("#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]\nstruct E%d%d(u8, %s);" % (k[0], k[1], t))
        body = []
        for n, (pat, mode, must, tables) in TYPES.items():
            for t in sorted(tables):
                ty = pat.format(TABLES[t][0])
                for p, b in (("send", "Send"), ("sync", "Sync")):
                    body.append('println!("%s/%s/%s {}", probe!(%s: %s));' % (n, t, p, ty, b))
        for t in sorted(TABLES):
            if not TABLES[t][2]:
                continue
            if t != "unit":
                for k in ELEMS:
                    body.append('println!("adm/%s/%d%d {}", probe!(%s: VTable<E%d%d>));' % (t, k[0], k[1], TABLES[t][0], k[0], k[1]))
            its = {n: x for n, x in ITERS.items() if t in x[2]}
            f = ["{"]
            if t != "unit":
                f.append("let mut d: VecDyn<%s> = VecDyn::from(vec![1u8, 2]);" % TABLES[t][0])
            f.append("let mut c: VecCopy<%s> = VecCopy::from(vec![1u8, 2]);" % TABLES[t][0])
            for n, x in its.items():
                f.append('{ let x = %s; let (a, b) = ((&w(&x)).yes(), (&s(&x)).yes()); println!("%s/%s/send {}", a); println!("%s/%s/sync {}", b); }' % (
                    x[0] if x[0][0:2] not in ("d.", "c.") or ".as_" not in x[0] or x[0].count(".") < 2 else
                    "y", n, t, n, t) if not (x[0].count(".as_") and x[0].count("(") > 1 and not x[0].endswith("slice()")) else
                    '{ let mut y = %s; let x = %s; let (a, b) = ((&w(&x)).yes(), (&s(&x)).yes()); println!("%s/%s/send {}", a); println!("%s/%s/sync {}", b); }' % (
                        x[0][:x[0].index("slice()") + 7], "y" + x[0][x[0].index("slice()") + 7:], n, t, n, t))
            f.append("}")
            body.append("\n".join(f))
        # Small functions compile faster than a large one.
        fns = []
        for k in range(0, len(body), 40):
            fns.append("fn f%d() {\n%s\n}" % (k, "\n".join(body[k:k + 40])))
        s += fns
        s.append("fn main() { %s }" % " ".join("f%d();" % k for k in range(0, len(body), 40)))
        return "\n".join(s)


def tla_any(v):
    if isinstance(v, Rec):
        return "[" + ", ".join("%s |-> %s" % (k, tla_any(x)) for k, x in v.items()) + "]"
    if isinstance(v, dict):
        if not v:
            return "[x \\in {} |-> 0]"
        return "(" + " @@ ".join("%s :> %s" % (tla(k), tla_any(x)) for k, x in sorted(v.items())) + ")"
    return tla(v)
