//! Plays scripts against the real code and reports what is observable after every step.
use crate::core::*;
use crate::exec::Interp;
use crate::mem::{mem, Ev, Track};
use crate::reg::{reg, UserPanic};
use crate::types::*;
use crate::view::Flow;
use crate::with_ty;
use std::collections::{HashMap, HashSet};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What the specification says about the state after an operation.
pub struct Exp {
    pub r: Res,
    pub t: String,
    /// slot, type name, capability, elements (spec id, value)
    pub slots: Vec<(String, String, String, Vec<(u32, u8)>)>,
    /// slot, offset, length of the topmost view
    pub top: Option<(String, usize, usize)>,
}

pub struct Line {
    pub op: Op,
    pub exp: Option<Exp>,
    pub text: String,
}
pub struct Script {
    pub id: String,
    pub lines: Vec<Line>,
}
pub struct File {
    pub slots: Vec<String>,
    pub types: Vec<String>,
    pub scripts: Vec<Script>,
}

fn nums(s: &str) -> Vec<i64> {
    if s.is_empty() {
        vec![]
    } else {
        s.split(',').map(|x| x.parse().unwrap()).collect()
    }
}

fn kind_of(k: &str) -> &'static str {
    for x in ["ok", "some", "none", "panic", "err", "true", "false", "val", "vals", "str"] {
        if x == k {
            return x;
        }
    }
    panic!("bad result kind {k}")
}

impl File {
    pub fn parse(text: &str) -> File {
        let mut f = File { slots: vec![], types: vec![], scripts: vec![] };
        for l in text.lines() {
            if let Some(x) = l.strip_prefix("#slots ") {
                f.slots = x.split(' ').map(|s| s.to_string()).collect();
            } else if let Some(x) = l.strip_prefix("#types ") {
                f.types = x.split(' ').map(|s| s.to_string()).collect();
            } else if let Some(x) = l.strip_prefix("S ") {
                f.scripts.push(Script { id: x.to_string(), lines: vec![] });
            } else if !l.is_empty() {
                let mut it = l.split('\t');
                let text = it.next().unwrap();
                let op = Op::parse(text);
                let exp = it.next().map(|q| {
                    let mut q = q.split(';');
                    let k = kind_of(q.next().unwrap());
                    let v = nums(q.next().unwrap());
                    let t = q.next().unwrap().to_string();
                    let st = it.next().unwrap();
                    let mut slots = vec![];
                    if st != "-" {
                        for s in st.split('|') {
                            let (n, rest) = s.split_once('=').unwrap();
                            let (ty, rest) = rest.split_once('/').unwrap();
                            let (cap, els) = rest.split_once(':').unwrap();
                            let els = if els.is_empty() {
                                vec![]
                            } else {
                                els.split(',')
                                    .map(|e| {
                                        let (a, b) = e.split_once('.').unwrap();
                                        (a.parse().unwrap(), b.parse().unwrap())
                                    })
                                    .collect()
                            };
                            slots.push((n.to_string(), ty.to_string(), cap.to_string(), els));
                        }
                    }
                    let top = it.next().unwrap();
                    let top = if top == "-" {
                        None
                    } else {
                        let t: Vec<&str> = top.split(':').collect();
                        Some((t[0].to_string(), t[1].parse().unwrap(), t[2].parse().unwrap()))
                    };
                    Exp { r: Res { k, v, t: t.clone() }, t, slots, top }
                });
                f.scripts.last_mut().unwrap().lines.push(Line { op, exp, text: text.to_string() });
            }
        }
        f
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Silent,
    Compare,
    Log,
    Heap,
}

pub struct Driver<'a> {
    pub it: Interp,
    pub deep: bool,
    pub mode: Mode,
    script: &'a Script,
    pos: usize,
    end: usize,
    /// The operation whose k-th user callback panics.
    pub fault: Option<(usize, u32)>,
    /// Number of user callbacks in each operation, and whether it was applicable.
    pub cbs: Vec<(u32, bool)>,
    pub error: Option<String>,
    map: HashMap<u32, u32>,
    base_uid: u32,
    pub log: String,
    viewing: Option<usize>,
    /// Log events from this operation on.
    pub log_from: usize,
    fired: bool,
    nlive0: usize,
}

fn els_json(els: &[(u32, u8)]) -> String {
    let v: Vec<String> = els.iter().map(|e| format!("{{\"id\":{},\"v\":{}}}", e.0, e.1)).collect();
    format!("[{}]", v.join(","))
}

impl<'a> Driver<'a> {
    pub fn new(f: &File, script: &'a Script, bind: &[(String, Ty)], mode: Mode, deep: bool, howc: usize) -> Self {
        let slots: Vec<&str> = f.slots.iter().map(|s| s.as_str()).collect();
        let mut it = Interp::new(bind.to_vec(), &slots);
        it.howc = howc;
        reg().reset();
        Driver {
            it,
            deep,
            mode,
            script,
            pos: 0,
            end: script.lines.len(),
            fault: None,
            cbs: vec![],
            error: None,
            map: HashMap::new(),
            base_uid: 1,
            log: String::new(),
            viewing: None,
            log_from: 0,
            fired: false,
            nlive0: 0,
        }
    }

    pub fn next(&mut self) -> Option<Op> {
        if self.error.is_some() || self.pos >= self.end {
            return None;
        }
        let o = self.script.lines[self.pos].op.clone();
        self.pos += 1;
        crate::mem::STEPS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.it.howc += 1;
        self.base_uid = reg().peek_uid();
        self.nlive0 = reg().nlive;
        self.fired = false;
        self.cbs.push((0, true));
        Some(o)
    }

    /// Runs an operation of the code under test.
    pub fn run<R>(&mut self, f: impl FnOnce(&mut Interp) -> R) -> Result<R, &'static str> {
        let g = reg();
        g.callbacks = 0;
        g.fired = false;
        g.fault = match self.fault {
            Some((at, k)) if at + 1 == self.pos => k,
            _ => 0,
        };
        let it = &mut self.it;
        let out = {
            let _t = Track::set(true);
            catch_unwind(AssertUnwindSafe(|| f(it)))
        };
        g.fault = 0;
        self.cbs.last_mut().unwrap().0 += g.callbacks;
        self.fired = g.fired;
        match out {
            Ok(r) => Ok(r),
            Err(e) => Err(if e.is::<UserPanic>() { "fault" } else { "panic" }),
        }
    }
    pub fn res(&mut self, f: impl FnOnce(&mut Interp) -> Res) -> Res {
        match self.run(f) {
            Ok(q) => q,
            Err(k) => r(k),
        }
    }
    pub fn skip(&mut self) {
        self.cbs.last_mut().unwrap().1 = false;
        if self.mode == Mode::Compare {
            self.error = Some(format!("INAPPLICABLE {}", self.script.lines[self.pos - 1].text));
        }
    }

    pub fn play(&mut self) {
        while let Some(o) = self.next() {
            if o.op == "view" {
                let si = self.it.find(&o.s).unwrap();
                self.viewing = Some(si);
                let q = self.view(si, o.how == "m");
                self.viewing = None;
                match q {
                    None => self.skip(),
                    Some(Flow::Pop(q)) => self.report(q),
                    Some(Flow::End) => self.report(r("ok")),
                    Some(Flow::Eof) => return,
                }
            } else {
                let q = match self.run(|it| it.exec(&o)) {
                    Ok(Some(q)) => q,
                    Ok(None) => {
                        self.skip();
                        continue;
                    }
                    Err(k) => r(k),
                };
                self.report(q);
            }
        }
    }

    /// Everything the containers hold, except the one being viewed.
    fn state(&mut self) -> Vec<(String, String, &'static str, Vec<(u32, u8)>)> {
        let others: Vec<Ty> = self.it.names.iter().map(|n| n.1).collect();
        let mut out = vec![];
        for k in 0..self.it.slots.len() {
            if self.viewing == Some(k) {
                continue;
            }
            if self.deep {
                let deep = || {
                    deep_mut(&mut self.it.slots[k].1, &others);
                };
                if catch_unwind(AssertUnwindSafe(deep)).is_err() {
                    reg().bad("panic while observing");
                }
            }
            let s = &self.it.slots[k].1;
            if s.dead() {
                continue;
            }
            let els = catch_unwind(AssertUnwindSafe(|| read(s, self.deep, &others))).unwrap_or_else(|_| {
                reg().bad("panic while reading");
                vec![]
            });
            let ty = s.ty().map(|t| self.it.name(t)).unwrap_or("?".into());
            out.push((self.it.slots[k].0.clone(), ty, s.cap(), els));
        }
        out
    }

    fn report(&mut self, q: Res) {
        self.observe(q, None)
    }
    pub fn report_view(&mut self, q: Res, w: Vec<(u32, u8)>) {
        if q.k != "skip" {
            self.observe(q, Some(w))
        }
    }

    fn observe(&mut self, q: Res, w: Option<Vec<(u32, u8)>>) {
        if self.error.is_some() {
            return;
        }
        match self.mode {
            Mode::Silent => {}
            Mode::Compare => {
                let st = self.state();
                let e = self.compare(&q, w, st);
                if let Some(e) = e {
                    self.error = Some(format!("line {}: {}: {}", self.pos, self.script.lines[self.pos - 1].text, e));
                }
            }
            Mode::Log => {
                if self.pos > self.log_from {
                    let st = self.state();
                    self.log_op(&q, w, st);
                }
            }
            Mode::Heap => self.log_heap(&q),
        }
    }

    fn loose(op: &str) -> bool {
        matches!(op, "fill" | "cfs" | "vcfs")
    }

    fn compare(&mut self, q: &Res, w: Option<Vec<(u32, u8)>>, st: Vec<(String, String, &'static str, Vec<(u32, u8)>)>) -> Option<String> {
        let line = &self.script.lines[self.pos - 1];
        let exp = line.exp.as_ref().unwrap();
        // A chunk size that overflows may be refused as well as give no chunks.
        let none = r("none");
        let q = if line.op.op == "chunk" && line.op.i >= 1_000_000 && q.k == "panic" { &none } else { q };
        let g = reg();
        if g.nbad > 0 {
            return Some(format!("anomaly: {:?}", &g.bad[..g.nbad]));
        }
        if q.k != exp.r.k || q.v != exp.r.v || q.t != exp.t {
            return Some(format!("result {:?}, expected {:?}", q, exp.r));
        }
        let loose = Self::loose(&line.op.op);
        let map = &mut self.map;
        let base = self.base_uid;
        let mut bind = |want: &(u32, u8), got: &(u32, u8)| -> bool {
            if want.1 != got.1 {
                return false;
            }
            if want.0 == 0 || got.0 == 0 {
                return want.0 == got.0;
            }
            match map.get(&want.0) {
                Some(u) => *u == got.0,
                None => {
                    if got.0 < base && !loose {
                        return false;
                    }
                    map.insert(want.0, got.0);
                    true
                }
            }
        };
        let viewed = self.viewing.map(|k| self.it.slots[k].0.clone());
        let mut owned = vec![];
        let mut seen = 0;
        for (n, ty, cap, els) in &exp.slots {
            // What is not dropped is not accounted for.
            if self.it.names.iter().any(|(t, c)| t == ty && info(*c).drop) {
                owned.extend(els.iter().map(|e| e.0).filter(|i| *i != 0));
            }
            if Some(n) == viewed.as_ref() {
                continue;
            }
            seen += 1;
            let got = match st.iter().find(|s| s.0 == *n) {
                Some(g) => g,
                None => return Some(format!("{n} is gone")),
            };
            if got.1 != *ty || got.2 != cap {
                return Some(format!("{n} is of type {}/{}, expected {}/{}", got.1, got.2, ty, cap));
            }
            if got.3.len() != els.len() || !els.iter().zip(&got.3).all(|(a, b)| bind(a, b)) {
                return Some(format!("{n} holds {:?}, expected {:?}", got.3, els));
            }
        }
        if seen != st.len() {
            return Some("an object that should not exist".into());
        }
        match (&exp.top, &w) {
            (None, None) => {}
            (Some((s, off, n)), Some(w)) => {
                let els = &exp.slots.iter().find(|x| x.0 == *s).unwrap().3[*off..*off + *n];
                if w.len() != *n || !els.iter().zip(w).all(|(a, b)| bind(a, b)) {
                    return Some(format!("view shows {:?}, expected {:?}", w, els));
                }
            }
            _ => return Some(format!("view {:?}, expected {:?}", w, exp.top)),
        }
        // Exactly the owned objects are alive.
        let mut uids: Vec<u32> = vec![];
        for i in &owned {
            match self.map.get(i) {
                Some(u) => uids.push(*u),
                None => return Some("unobserved object".into()),
            }
        }
        uids.sort_unstable();
        let live = g.live_uids();
        if live != uids {
            return Some(format!("live objects {:?}, owned {:?}", live, uids));
        }
        None
    }

    /// Drops everything; nothing may be left alive.
    pub fn finish(&mut self) {
        self.viewing = None;
        let it = &mut self.it;
        let out = {
            let _t = Track::set(true);
            catch_unwind(AssertUnwindSafe(|| it.drop_all()))
        };
        let g = reg();
        if out.is_err() {
            g.bad("panic while dropping");
        }
        match self.mode {
            Mode::Silent => {}
            Mode::Compare => {
                if self.error.is_none() {
                    if g.nlive != 0 {
                        self.error = Some(format!("{} objects leaked", g.nlive));
                    } else if g.nbad > 0 {
                        self.error = Some(format!("at the end: anomaly: {:?}", &g.bad[..g.nbad]));
                    }
                }
            }
            Mode::Log => {
                let live = g.live_uids();
                let bad: Vec<&str> = g.bad[..g.nbad].to_vec();
                let _ = writeln!(self.log, "{{\"e\":\"end\",\"live\":{:?},\"bad\":{:?}}}", live, bad);
            }
            Mode::Heap => {
                let l = self.events();
                let _ = writeln!(self.log, "{{\"e\":\"end\",\"op\":\"end\",\"ev\":{},\"bufs\":[]}}", l);
            }
        }
    }

    fn slots_json(st: &[(String, String, &'static str, Vec<(u32, u8)>)], all: &[String], skip: Option<&String>) -> String {
        let mut v = vec![];
        for n in all {
            if Some(n) == skip {
                continue;
            }
            v.push(match st.iter().find(|s| s.0 == *n) {
                Some((n, ty, cap, els)) => {
                    format!("\"{n}\":{{\"live\":true,\"ty\":\"{ty}\",\"cap\":\"{cap}\",\"el\":{}}}", els_json(els))
                }
                None => format!("\"{n}\":{{\"live\":false,\"ty\":\"-\",\"cap\":\"-\",\"el\":[]}}"),
            });
        }
        format!("{{{}}}", v.join(","))
    }

    /// Start of a log: the types and the present state (no view may be open).
    pub fn log_start(&mut self) {
        let st = self.state();
        let all: Vec<String> = self.it.slots.iter().map(|s| s.0.clone()).collect();
        let ty: Vec<String> = self
            .it
            .names
            .iter()
            .map(|(n, t)| {
                let i = info(*t);
                format!("\"{n}\":{{\"copy\":{},\"word\":{},\"size\":{},\"drop\":{}}}", i.copy, word(*t), i.size, i.drop)
            })
            .collect();
        let _ = writeln!(
            self.log,
            "{{\"e\":\"start\",\"id\":\"{}\",\"types\":{{{}}},\"sl\":{},\"live\":{:?}}}",
            self.script.id,
            ty.join(","),
            Self::slots_json(&st, &all, None),
            reg().live_uids()
        );
    }

    fn log_op(&mut self, q: &Res, w: Option<Vec<(u32, u8)>>, st: Vec<(String, String, &'static str, Vec<(u32, u8)>)>) {
        let all: Vec<String> = self.it.slots.iter().map(|s| s.0.clone()).collect();
        let viewed = self.viewing.map(|k| self.it.slots[k].0.clone());
        let g = reg();
        let line = &self.script.lines[self.pos - 1];
        let _ = writeln!(
            self.log,
            "{{\"e\":\"op\",\"n\":{},\"o\":{},\"r\":{{\"k\":\"{}\",\"v\":{:?},\"t\":\"{}\"}},\"f\":{},\"live\":{:?},\"bad\":{:?},\"sl\":{},\"vw\":{},\"w\":{},\"base\":{}}}",
            self.pos,
            line.op.json(),
            q.k,
            q.v,
            q.t,
            self.fired,
            g.live_uids(),
            &g.bad[..g.nbad],
            Self::slots_json(&st, &all, viewed.as_ref()),
            w.is_some(),
            els_json(&w.unwrap_or_default()),
            self.base_uid
        );
    }

    fn events(&mut self) -> String {
        let m = mem();
        let mut v = vec![];
        for e in &m.log[..m.nlog] {
            v.push(match e {
                Ev::Alloc(id, s, a) => format!("{{\"k\":\"A\",\"id\":{id},\"s\":{s},\"a\":{a},\"n\":0}}"),
                Ev::Realloc(id, s, a, n) => format!("{{\"k\":\"R\",\"id\":{id},\"s\":{s},\"a\":{a},\"n\":{n}}}"),
                Ev::Dealloc(id, s, a) => format!("{{\"k\":\"D\",\"id\":{id},\"s\":{s},\"a\":{a},\"n\":0}}"),
            });
        }
        if m.overflow {
            eprintln!("allocation log overflow");
            std::process::exit(3);
        }
        m.nlog = 0;
        format!("[{}]", v.join(","))
    }

    /// Allocation events of the operation and where the elements of each container are.
    fn log_heap(&mut self, q: &Res) {
        let ev = self.events();
        let mut bufs = vec![];
        for k in 0..self.it.slots.len() {
            if self.viewing == Some(k) {
                continue;
            }
            let (n, s) = &self.it.slots[k];
            let (ptr, len, ty) = match s.ty() {
                None => continue,
                Some(t) => (addr(s, t), s.len(), t),
            };
            if len == 0 || matches!(s, Slot::S(_) | Slot::Y(_)) {
                continue;
            }
            let i = info(ty);
            let (id, start) = match mem().block_at(ptr) {
                Some(b) => (b.0, b.1),
                None => (0, ptr),
            };
            let _ = start;
            bufs.push(format!(
                "{{\"sl\":\"{n}\",\"id\":{id},\"need\":{},\"al\":{},\"off\":{},\"cap\":{}}}",
                len * i.size,
                i.align,
                ptr % i.align,
                capacity(s, ty)
            ));
        }
        let _ = writeln!(
            self.log,
            "{{\"e\":\"op\",\"op\":\"{}\",\"k\":\"{}\",\"ev\":{},\"bufs\":[{}]}}",
            self.script.lines[self.pos - 1].text,
            q.k,
            ev,
            bufs.join(",")
        );
    }

    pub fn stop_at(&mut self, end: usize) {
        self.end = end.min(self.script.lines.len());
    }
    /// Whether a view is open just before operation `at` (if all operations apply).
    pub fn view_open(script: &Script, cbs: &[(u32, bool)], at: usize) -> bool {
        let mut depth = 0i32;
        for (l, c) in script.lines[..at].iter().zip(cbs) {
            if !c.1 {
                continue;
            }
            match &*l.op.op {
                "view" => depth = 1,
                "end" => depth = 0,
                "pop" if depth > 0 => depth -= 1,
                "sub" | "split" | "chunk" | "reb" if depth > 0 => return true,
                _ => {}
            }
        }
        depth > 0
    }
}

pub fn word(t: Ty) -> bool {
    info(t).size == std::mem::size_of::<usize>()
}

/// The capacity of a typed vector, in bytes (-1 for anything else).
fn capacity(s: &Slot, t: Ty) -> i64 {
    with_ty!(t, T => match s {
        Slot::T(_, v) => (tvec::<T>(&**v).capacity() * std::mem::size_of::<T>()) as i64,
        _ => -1,
    })
}

fn addr(s: &Slot, t: Ty) -> usize {
    with_ty!(t, T => match s {
        Slot::D(d) => d.as_slice_as::<T>().map(|x| x.as_ptr() as usize).unwrap_or(0),
        Slot::C(d) => d.as_slice_as::<T>().map(|x| x.as_ptr() as usize).unwrap_or(0),
        Slot::B(d) => d.as_ref().downcast::<T>().map(|x| x as *const T as usize).unwrap_or(0),
        Slot::T(_, v) => tvec::<T>(&**v).as_ptr() as usize,
        Slot::X(u) => crate::each_val!(u, UpBox, d => d.as_ref().downcast::<T>().map(|x| x as *const T as usize).unwrap_or(0)),
        Slot::E(u) => crate::each_upc!(u, d => d.as_slice_as::<T>().map(|x| x.as_ptr() as usize).unwrap_or(0)),
        Slot::U(u) => crate::each_up!(u, d => d.as_slice_as::<T>().map(|x| x.as_ptr() as usize).unwrap_or(0)),
        _ => 0,
    })
}

/// Replays with every callback of every operation panicking in turn.
pub fn faults(f: &File, s: &Script, bind: &[(String, Ty)], howc: usize, suffix: usize, seen: &mut HashSet<String>, max_k: u32, out: &mut String) -> usize {
    let mut d = Driver::new(f, s, bind, Mode::Log, false, howc);
    d.play();
    d.finish();
    let cbs = std::mem::take(&mut d.cbs);
    // The state before every operation, as it appears in the log, to avoid repetitions.
    let mut states = vec![String::from("-"); cbs.len() + 1];
    for l in d.log.lines() {
        if let Some(p) = l.find("\"n\":") {
            let n: usize = l[p + 4..].split(',').next().unwrap().parse().unwrap();
            let a = l.find("\"sl\":").unwrap();
            let mut t = String::new();
            let mut q = &l[a..];
            while let Some(p) = q.find("\"id\":") {
                t.push_str(&q[..p]);
                let e = q[p..].find(',').unwrap();
                q = &q[p + e..];
            }
            let b = q.find(",\"base\"").unwrap();
            t.push_str(&q[..b]);
            states[n] = t;
        }
    }
    for k in 1..states.len() {
        if states[k] == "-" {
            states[k] = states[k - 1].clone();
        }
    }
    drop(d);
    let mut runs = 0;
    for at in 0..cbs.len() {
        if !cbs[at].1 || cbs[at].0 == 0 {
            continue;
        }
        let key = format!("{}#{}#{}", states[at], s.lines[at].text, (howc + at) % 12);
        if !seen.insert(key) {
            continue;
        }
        for k in 1..=cbs[at].0.min(max_k) {
            let open = Driver::view_open(s, &cbs, at);
            let mut d = Driver::new(f, s, bind, Mode::Log, true, howc);
            d.fault = Some((at, k));
            if open {
                d.log_start();
            } else {
                d.mode = Mode::Silent;
                d.stop_at(at);
                d.play();
                d.mode = Mode::Log;
                d.log_start();
            }
            d.stop_at(at + 1 + suffix);
            d.play();
            d.finish();
            out.push_str(&d.log);
            runs += 1;
        }
    }
    runs
}
