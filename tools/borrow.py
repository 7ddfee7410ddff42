"""C13: the programs of spec/Borrow.tla, written with every borrowing entry point, against rustc."""
import json
import os
import random
import subprocess
import collections

from vlib import *  # noqa
from vlib import Rec
from markers import tla_any

PRELUDE = '''#![allow(warnings)]
use dync::*;
use dync::traits::*;
#[dync_trait] pub trait All: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}
impl<T: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug> All for T {}
type V = AllVTable;
type T = u64;
fn mk_D() -> VecDyn<V> { vec![1u64, 2, 3].into() }
fn mk_C() -> VecCopy<V> { vec![1u64, 2, 3].into() }
fn mk_B() -> BoxValue<V> { BoxValue::new(1u64) }
fn mk_W() -> SmallValue<V> { SmallValue::new(1u64) }
fn mk_T() -> Vec<u64> { vec![1, 2, 3] }
fn mk_X() -> u64 { 1 }
struct Own(u64);
fn mk_Y() -> Box<u64> { Box::new(1) }
fn rd<A: ?Sized>(_: &A) {}
fn wr<A: ?Sized>(_: &mut A) {}
fn eat<A>(_: A) {}
fn two<A>(x: (A, A)) -> std::vec::IntoIter<A> { let mut v = Vec::new(); v.push(x.1); v.push(x.0); v.into_iter() }
'''

# Kinds and their classes.
KINDS = {}
for k in "D C B W T X Y".split():
    KINDS[k] = "O"
for k in "SD SC VR CR TS TR Z".split():
    KINDS[k] = "S"
for k in "SDM SCM VM CM TSM TRM ZM".split():
    KINDS[k] = "M"
for k in "ISD ISC IVR ICR ITR".split():
    KINDS[k] = "SI"
for k in "ISDM ISCM IVM ICM ITRM".split():
    KINDS[k] = "MI"

CATALOG = '''
D s SD   $.as_slice()
D s VR   $.get(0)
D s IVR  $.iter()
D s ITR  $.iter_as::<T>().unwrap()
D s TS   $.as_slice_as::<T>().unwrap()
D s TR   $.get_ref_as::<T>(0).unwrap()
D s Z    $.vtable()
D s Z    $.check_ref::<T>().unwrap()
D s Z    Meta::from(&$)
D s TR   unsafe { $.get_unchecked_ref::<T>(0) }
D m SDM  $.as_mut_slice()
D m VM   $.get_mut(0)
D m IVM  $.iter_mut()
D m ITRM $.iter_mut_as::<T>().unwrap()
D m TSM  $.as_mut_slice_as::<T>().unwrap()
D m TRM  $.get_mut_as::<T>(0).unwrap()
D m TRM  unsafe { $.get_unchecked_mut::<T>(0) }
D m ZM   $.check_mut::<T>().unwrap()
D m ZM   $.push_as(4u64).unwrap()
D m ZM   $.push(BoxValue::<V>::new(4u64)).unwrap()
D m ZM   $.push_cloned(ValueRef::new(&4u64)).unwrap()
D m ZM   $.resize(5, 4u64).unwrap()
D m ZM   $.fill(4u64).unwrap()
D m ZM   $.append(&mut mk_D()).unwrap()
C s SC   $.as_slice()
C s CR   $.get_ref(0)
C s ICR  $.iter()
C s ITR  $.iter_as::<T>().unwrap()
C s TS   $.as_slice_as::<T>().unwrap()
C s TR   $.get_ref_as::<T>(0).unwrap()
C s TR   unsafe { $.get_unchecked_ref::<T>(0) }
C s Z    $.check_ref::<T>().unwrap()
C s Z    Meta::from(&$)
C m SCM  $.as_mut_slice()
C m CM   $.get_mut(0)
C m ICM  $.iter_mut()
C m ITRM $.iter_mut_as::<T>().unwrap()
C m TSM  $.as_mut_slice_as::<T>().unwrap()
C m TRM  $.get_mut_as::<T>(0).unwrap()
C m TRM  unsafe { $.get_unchecked_mut::<T>(0) }
C m ZM   $.check_mut::<T>().unwrap()
C m ZM   $.push_as(4u64).unwrap()
C m ZM   $.push(CopyValueRef::<V>::new(&4u64)).unwrap()
C m ZM   $.resize(5, 4u64).unwrap()
C m ZM   $.fill(4u64).unwrap()
C m ZM   $.copy_from_slice(&[4u64, 5, 6]).unwrap()
C m ZM   $.append(&mut mk_C()).unwrap()
B s VR   $.as_ref()
B s VR   ValueRef::from(&$)
B m VM   $.as_mut()
W s VR   $.as_ref()
W s VR   ValueRef::from(&$)
W m VM   $.as_mut()
T s SD   Slice::<V>::from_slice(&$[..])
T s SD   Slice::<V>::from(&$[..])
T s SC   SliceCopy::<V>::from_slice(&$[..])
T s SC   SliceCopy::<V>::from(&$[..])
T m SDM  SliceMut::<V>::from_slice(&mut $[..])
T m SDM  SliceMut::<V>::from(&mut $[..])
T m SCM  SliceCopyMut::<V>::from_slice(&mut $[..])
T m SCM  SliceCopyMut::<V>::from(&mut $[..])
T m ZM   mk_D().append_cloned_to_vec(&mut $).unwrap()
T m ZM   mk_C().append_copy_to_vec(&mut $).unwrap()
T m ZM   mk_D().as_slice().append_clone_to_vec(&mut $).unwrap()
T m ZM   mk_C().as_slice().append_copy_to_vec(&mut $).unwrap()
Y s VR   ValueRef::<V>::new(&$)
Y m VM   ValueMut::<V>::new(&mut $)
Y s CR   CopyValueRef::<V>::new(&*$)
Y m CM   CopyValueMut::<V>::new(&mut *$)
SD s SD  $.reborrow()
SD s SD  $.subslice(0..2)
SD s SD  $.clone()
SD s Z   $.check::<T>().unwrap()
SD s IVR $.iter()
SD s ITR $.iter_as::<T>().unwrap()
SD s TS  $.as_slice::<T>().unwrap()
SD s TR  $.get_as::<T>(0).unwrap()
SD s VR  $.get(0)
SD s ISD $.chunks_exact(1)
SD s ISD two($.split_at(1))
SD i SD  $.upcast::<V>()
SD i SD  $.into_subslice(0..2)
SD i IVR $.into_iter()
SD i Z   $.into_raw_parts().0
SD i Z   $.into_raw_parts().2
SD i Z   Meta::from($)
SDM s SD   $.reborrow()
SDM s SD   $.subslice(0..2)
SDM s SD   Slice::from(&$)
SDM s VR   $.get(0)
SDM s ISD  $.chunks_exact(1)
SDM m SDM  $.reborrow_mut()
SDM m SDM  $.subslice_mut(0..2)
SDM m ZM   $.check::<T>().unwrap()
SDM m ZM   $.clone_from_slice(&[4u64, 5, 6]).unwrap()
SDM m ITRM $.iter_as::<T>().unwrap()
SDM m TSM  $.as_slice::<T>().unwrap()
SDM m TRM  $.get_as::<T>(0).unwrap()
SDM m VM   $.get_mut(0)
SDM m IVM  $.iter()
SDM m ISDM $.chunks_exact_mut(1)
SDM m ISDM two($.split_at(1))
SDM i SDM  $.upcast::<V>()
SDM i SDM  $.into_subslice(0..2)
SDM i IVM  $.into_iter()
SDM i SD   Slice::from($)
SDM i Z    $.into_raw_parts().0
SC s SC  $.reborrow()
SC s SC  $.subslice(0..2)
SC s SC  $.clone()
SC s Z   $.check::<T>().unwrap()
SC s ICR $.iter()
SC s ITR $.iter_as::<T>().unwrap()
SC s TS  $.as_slice::<T>().unwrap()
SC s TR  $.get_as::<T>(0).unwrap()
SC s CR  $.get(0)
SC s ISC $.chunks_exact(1)
SC s ISC two($.split_at(1))
SC i SC  $.upcast::<V>()
SC i SC  $.into_subslice(0..2)
SC i ICR $.into_iter()
SC i Z   $.into_raw_parts().0
SC i Z   $.into_raw_parts().2
SC i Z   Meta::from($)
SCM s SC   $.reborrow()
SCM s SC   $.subslice(0..2)
SCM s SC   SliceCopy::from(&$)
SCM s CR   $.get(0)
SCM s ISC  $.chunks_exact(1)
SCM m SCM  $.reborrow_mut()
SCM m SCM  $.subslice_mut(0..2)
SCM m ZM   $.check::<T>().unwrap()
SCM m ZM   $.copy_from_slice(&[4u64, 5, 6]).unwrap()
SCM m ITRM $.iter_as::<T>().unwrap()
SCM m TSM  $.as_slice::<T>().unwrap()
SCM m TRM  $.get_as::<T>(0).unwrap()
SCM m CM   $.get_mut(0)
SCM m ICM  $.iter()
SCM m ISCM $.chunks_exact_mut(1)
SCM m ISCM two($.split_at(1))
SCM i SCM  $.upcast::<V>()
SCM i SCM  $.into_subslice(0..2)
SCM i ICM  $.into_iter()
SCM i SC   SliceCopy::from($)
SCM i ZM   $.into_raw_parts().0
VR s VR  $.reborrow()
VR s VR  $.upcast_ref::<V>()
VR s VR  $.clone()
VR i VR  $.upcast::<V>()
VR i TR  $.downcast::<T>().unwrap()
VR i Z   Meta::from($)
VM s VR  $.reborrow()
VM m VM  $.reborrow_mut()
VM m VM  $.upcast_mut::<V>()
VM i VM  $.upcast::<V>()
VM i TRM $.downcast::<T>().unwrap()
VM i VR  ValueRef::from($)
CR s CR  $.upcast_ref::<V>()
CR s CR  $.clone()
CR i CR  $.upcast::<V>()
CR i TR  $.downcast::<T>().unwrap()
CR i Z   Meta::from($)
CR i Z   ValueRef::from($)
CM m CM  $.upcast::<V>()
CM i CM  $.copy(CopyValueRef::new(&4u64)).unwrap()
CM i TRM $.downcast::<T>().unwrap()
CM i CR  CopyValueRef::from($)
CM i ZM  ValueMut::from($)
ISD n SD   $.next().unwrap()
ISC n SC   $.next().unwrap()
IVR n VR   $.next().unwrap()
ICR n CR   $.next().unwrap()
ITR n TR   $.next().unwrap()
ISDM n SDM $.next().unwrap()
ISCM n SCM $.next().unwrap()
IVM n VM   $.next().unwrap()
ICM n CM   $.next().unwrap()
ITRM n TRM $.next().unwrap()
IVM n VM   $.nth(0).unwrap()
ICM n CM   $.nth(0).unwrap()
IVR n VR   $.nth(0).unwrap()
ICR n CR   $.nth(0).unwrap()
'''
ENTRIES = [tuple(l.split(None, 3)) for l in CATALOG.strip().splitlines()]
OWNERS = [k for k in KINDS if KINDS[k] == "O" and k != "X"]
BORROWCK = {"E0499", "E0502", "E0505", "E0506", "E0597", "E0716", "E0382", "E0503", "E0515", "E0713", "E0521", "E0621",
            "E0373", "E0507", "E0594", "E0596", "E0712", "E0308-lifetime", ""}


def cls(e):
    return (KINDS[e[0]], e[1], KINDS[e[2]])


class Check:
    def __init__(self, prop, base):
        self.prop = prop
        self.base = base
        self.inner = base.Check(prop)
        self.d = self.inner.d
        self.evidence = self.inner.evidence

    def model(self, n, vals):
        classes = sorted({cls(e) for e in ENTRIES})
        name = "MB%d" % n
        with open(os.path.join(self.d, name + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS Borrow\nc_E == {%s}\n====\n" % (
                name, ", ".join(tla_any(Rec(f=a, h=b, t=c)) for a, b, c in classes)))
        with open(os.path.join(self.d, name + ".cfg"), "w") as f:
            f.write("SPECIFICATION Spec\nINVARIANT Sound Dump\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Entries <- c_E\n MaxLen = %d\n MaxVals = %d\n" % (n, vals))
        rc, out = run_tlc(self.d, name, name + ".cfg", ["-workers", "1"], timeout=3000)
        text = open(out).read()
        if rc != 0:
            raise Broken("Borrow.tla: " + text[-3000:])
        progs = [json.loads(json.loads(l[len('<<"PROG", '):-2])) for l in text.splitlines() if l.startswith('<<"PROG"')]
        return tlc_numbers(text)[1], progs

    def assign(self, prog, at, entry, rng):
        """Kinds and entry points for the program's derivations, with `entry` at derivation `at`."""
        ds = [s for s in prog if s["a"] == "d"]

        def go(k, kinds, es):
            if k == len(ds):
                return kinds, es
            s = ds[k]
            want = (s["e"]["f"], s["e"]["h"], s["e"]["t"])
            pool = [entry] if k == at else self.by.get((kinds[s["p"] - 1], want), [])
            if k == at and (entry[0] != kinds[s["p"] - 1] or cls(entry) != want):
                return None
            pool = list(pool)
            rng.shuffle(pool)
            for e in pool:
                r = go(k + 1, kinds + [e[2]], es + [e])
                if r:
                    return r
            return None
        owners = list(OWNERS)
        rng.shuffle(owners)
        for o in owners:
            r = go(0, [o], [])
            if r:
                return r
        return None

    def render(self, prog, kinds, es):
        s = ["let mut v1 = mk_%s();" % kinds[0]]
        n, k = 1, 0
        for st in prog:
            v = "v%d" % st["p"]
            if st["a"] == "d":
                n += 1
                s.append("let mut v%d = %s;" % (n, es[k][3].replace("$", v)))
                k += 1
            else:
                s.append({"r": "rd(&%s);", "w": "wr(&mut %s);", "x": "eat(%s);"}[st["a"]] % v)
        return " ".join(s)

    def run(self):
        big = self.base.BIG
        copy_spec(self.d, ["Borrow.tla"])
        self.by = collections.defaultdict(list)
        for e in ENTRIES:
            self.by[(e[0], cls(e))].append(e)
        crate = os.path.join(self.d, "clients")
        states, progs = 0, []
        for n, v in ((3, 3), (4, 4), (5, 4)):
            st, ps = self.model(n, v)
            states += st
            progs += ps
        seen = set()
        uniq = []
        for p in progs:
            key = json.dumps(p, sort_keys=True)
            if key not in seen:
                seen.add(key)
                uniq.append(p)
        rng = random.Random(self.base.SEED)
        out = {}
        cover = collections.Counter()
        per = 1
        for p in uniq:
            if not big and len(p["prog"]) >= 5 and rng.random() < 0.6:
                continue
            ds = [s for s in p["prog"] if s["a"] == "d"]
            for at, s in enumerate(ds):
                want = (s["e"]["f"], s["e"]["h"], s["e"]["t"])
                pool = [e for e in ENTRIES if cls(e) == want]
                # Long programs: with some of the entry points only.
                if len(p["prog"]) >= 5:
                    pool = rng.sample(pool, min(len(pool), 2))
                elif not big and len(p["prog"]) == 4:
                    pool = rng.sample(pool, min(len(pool), 6))
                for e in pool:
                    r = self.assign(p["prog"], at, e, rng)
                    if r is None:
                        continue
                    text = self.render(p["prog"], *r)
                    if text not in out:
                        out[text] = (p["v"], r[1])
                        for x in r[1]:
                            cover[(x, p["v"])] += 1
        missing = [e for e in ENTRIES for v in ("accept", "refuse") if cover[(e, v)] == 0 and not (e[2] in ("Z", "ZM") and v == "x")]
        if missing:
            raise Broken("no program for %s" % missing[:5])
        log("model: %d states, %d programs; %d clients (%d to be accepted, %d to be refused), %d entry points" % (
            states, len(uniq), len(out), sum(1 for v, _ in out.values() if v == "accept"), sum(1 for v, _ in out.values() if v == "refuse"), len(ENTRIES)))
        good, bad = self.compile(crate, out)
        self.inner.cov = {"states": states, "transitions": states, "traces_validated_against_impl": len(out), "programs": len(uniq),
                          "clients_accepted": good, "clients_refused": bad, "entry_points": len(ENTRIES),
                          "samples": [{"client": t, "expected": v} for t, (v, _) in list(out.items())[::max(1, len(out) // 8)][:8]]}
        self.inner.cov["exhaustive"] = False
        self.inner.assumptions = ["rustc's verdict on a client that uses an entry point with one element type and capability table stands for all of them",
                                  "clients are straight-line programs"]

    def compile(self, crate, out):
        shutil.rmtree(crate, ignore_errors=True)
        make_crate(crate, "borrow-clients", "fn main() {}\n")
        shards = CPUS
        bins = os.path.join(crate, "src", "bin")
        os.makedirs(bins)
        items = sorted(out.items(), key=lambda x: x[0])
        where = {}
        for verdict in ("accept", "refuse"):
            mine = [t for t, (v, _) in items if v == verdict]
            for k in range(shards):
                part = mine[k::shards]
                name = "%s%d" % (verdict, k)
                lines = PRELUDE.rstrip("\n").split("\n")
                for t in part:
                    lines.append("fn p%d() { %s }" % (len(lines) + 1, t))
                    where[("src/bin/%s.rs" % name, len(lines))] = t
                lines.append("fn main() {}")
                open(os.path.join(bins, name + ".rs"), "w").write("\n".join(lines) + "\n")
        e = cargo_env()
        e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target", "borrow")
        # First the crate itself.
        q = subprocess.run(["cargo", "check", "--offline", "--quiet", "--bin", "borrow-clients"], cwd=crate, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if q.returncode != 0:
            raise Broken("the code under test does not build:\n" + q.stdout[-3000:])
        q = subprocess.run(["cargo", "check", "--offline", "--quiet", "--bins", "--keep-going", "--message-format=json"], cwd=crate, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=3000)
        errors = collections.defaultdict(list)
        for l in q.stdout.splitlines():
            m = json.loads(l)
            if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
                continue
            msg = m["message"]
            for s in msg["spans"]:
                if s["is_primary"]:
                    errors[(s["file_name"], s["line_start"])].append(((msg["code"] or {}).get("code", ""), msg["message"]))
        log("compiled: %d clients, %d of them with errors" % (len(where), len(errors)))
        if not errors and any(v == "refuse" for _, (v, _) in items):
            log(q.stderr[-2000:])
        other = [(k, x) for k, es in errors.items() for x in es if x[0] not in BORROWCK]
        if other:
            raise Broken("clients do not type check: %s\n%s" % (other[:5], where.get(other[0][0])))
        stray = [k for k in errors if k not in where]
        if stray:
            raise Broken("errors outside the clients: %s" % stray[:5])
        wrong = []
        for k, t in where.items():
            want = out[t][0]
            if want == "accept" and k in errors:
                wrong.append((len(t), "refused, although it is sound: %s\n    %s" % (t, errors[k][0])))
            if want == "refuse" and k not in errors:
                wrong.append((len(t), "accepted, although it is not sound: %s" % t))
        wrong.sort()
        if wrong:
            head = PRELUDE + "fn main() {}\n// %d clients on which rustc and the specification disagree:\n" % len(wrong)
            raise Violation("%d clients: %s" % (len(wrong), wrong[0][1]),
                            save_replay(self.prop, "replay.txt", head + "\n".join("// " + w[1] for w in wrong[:200]) + "\n"))
        acc = sum(1 for v, _ in out.values() if v == "accept")
        return acc, len(out) - acc
