//! The view interpreter: a view is a local variable of a (recursive) frame, exactly as a client
//! would hold it.
use crate::core::*;
use crate::types::*;
use crate::{with_copy, with_ty};
use crate::driver::Driver;
use dync::traits::*;
use std::any::Any;
use dync::*;

pub enum Flow {
    Pop(Res),
    End,
    Eof,
}

macro_rules! with_c {
    ($t:expr, $T:ident => $e:expr) => {
        with_copy!($t, $T => $e, else unreachable!())
    };
}

macro_rules! ranged {
    ($o:expr, $i:expr, $j:expr, $r:ident => $e:expr) => {
        match &*$o.ty {
            "r" => { let $r = $i..$j; $e }
            "to" => { let $r = ..$j; $e }
            "from" => { let $r = $i..; $e }
            "full" => { let $r = ..; $e }
            "incl" => { let $r = $i..=$j; $e }
            "toincl" => { let $r = ..=$j; $e }
            _ => panic!("bad range kind"),
        }
    };
}

fn vals<'x, T: El>(it: impl Iterator<Item = &'x T>) -> Res {
    rv("vals", it.map(|e| { e.id(); e.val() as i64 }).collect())
}
fn one<T: El>(e: Option<&T>) -> Res {
    match e {
        Some(e) => {
            e.id();
            rv("val", vec![e.val() as i64])
        }
        None => r("none"),
    }
}
fn put<T: El>(e: Option<&mut T>, v: u8) -> Res {
    match e {
        Some(e) => {
            *e = T::new(v);
            r("some")
        }
        None => r("none"),
    }
}

/// After a skipped operation: back to waiting for the next one, without a report.
macro_rules! continue_skip {
    ($self:ident, $res:ident) => {{
        $res = r("skip");
        continue;
    }};
}

macro_rules! shared_frame {
    ($name:ident, $S:ident, $with:ident, $with_arg:ident, $deep:ident, $wrong:ident, $tovec:ident, $appvec:ident, $isd:expr, $VR:ident, $dbg:expr, $eq:expr, $up:expr) => {
        pub fn $name(&mut self, first: Res, view: $S<'_, FV>, ty: Ty) -> Flow {
            let mut v = view;
            let window = |v: &$S<'_, FV>| $with!(ty, T => v.as_slice::<T>().map(|s| list(s)));
            let mut res = first;
            loop {
                if self.deep {
                    $with!(ty, T => {
                        let base = v.as_slice::<T>().map(|s| s.as_ptr()).unwrap_or(std::ptr::null());
                        let n = v.len();
                        $deep::<T>(v.reborrow(), base, n)
                    });
                    for k in 0..self.it.names.len() {
                        let o = self.it.names[k].1;
                        if o != ty && ($isd || info(o).copy) {
                            $with_arg!(o, W => $wrong::<W>(&v));
                        }
                    }
                }
                let w = window(&v);
                if w.is_none() {
                    crate::reg::reg().bad("view of a wrong type");
                }
                self.report_view(res, w.unwrap_or_default());
                let o = match self.next() {
                    Some(o) => o,
                    None => return Flow::Eof,
                };
                let h = self.it.howc;
                let size = info(ty).size;
                let (i, j) = (idx(o.i, size), idx(o.j, size));
                let oty = self.it.ty(&o.ty);
                let m = o.how == "m";
                let flow = match &*o.op {
                    "pop" => return Flow::Pop(r("ok")),
                    "end" => return Flow::End,
                    "sub" if o.how == "i" => {
                        match self.run(|_| ranged!(o, i, j, q => v.into_subslice(q))) {
                            Ok(n) => {
                                v = n;
                                res = r("ok");
                                continue;
                            }
                            Err(k) => return Flow::Pop(r(k)),
                        }
                    }
                    "sub" if !m => match self.run(|_| ranged!(o, i, j, q => v.subslice(q))) {
                        Ok(n) => self.$name(r("ok"), n, ty),
                        Err(k) => Flow::Pop(r(k)),
                    },
                    "split" => match self.run(|_| { let (a, b) = v.split_at(i); if o.how == "l" { a } else { b } }) {
                        Ok(n) => self.$name(r("ok"), n, ty),
                        Err(k) => Flow::Pop(r(k)),
                    },
                    "chunk" if !m => match self.run(|_| v.chunks_exact(i).nth(j)) {
                        Ok(Some(n)) => self.$name(r("ok"), n, ty),
                        Ok(None) => Flow::Pop(r("none")),
                        Err(k) => Flow::Pop(r(k)),
                    },
                    "reb" if o.how == "s" => match self.run(|_| if h % 2 == 0 { v.reborrow() } else { v.clone() }) {
                        Ok(n) => self.$name(r("ok"), n, ty),
                        Err(k) => Flow::Pop(r(k)),
                    },
                    "vget" => match oty {
                        Some(t) if $isd || info(t).copy => Flow::Pop(self.res(|_| $with_arg!(t, T => match h % 2 {
                            0 => one(v.get_as::<T>(i)),
                            _ => one(v.get(i).downcast::<T>()),
                        }))),
                        _ => { self.skip(); continue_skip!(self, res) }
                    },
                    "vlist" => {
                        let t = if o.ty == "-" { Some(ty) } else { oty };
                        match t {
                            Some(t) if $isd || info(t).copy => Flow::Pop(self.res(|_| $with_arg!(t, T => {
                                if o.ty == "-" {
                                    match h % 2 {
                                        0 => vals(walk(v.iter()).into_iter().map(|e| e.downcast::<T>().unwrap())),
                                        _ => vals(walk(v.clone().into_iter()).into_iter().map(|e| e.downcast::<T>().unwrap())),
                                    }
                                } else {
                                    match h % 4 {
                                        0 => v.iter_as::<T>().map(vals),
                                        1 => v.as_slice::<T>().map(|s| vals(s.iter())),
                                        2 => v.$tovec::<T>().map(|s| vals(s.iter())),
                                        _ => {
                                            let mut s = vec![];
                                            v.$appvec::<T>(&mut s).map(|s| vals(s.iter()))
                                        }
                                    }.unwrap_or(r("none"))
                                }
                            }))),
                            _ => { self.skip(); continue_skip!(self, res) }
                        }
                    }
                    "vchunks" => Flow::Pop(self.res(|_| $with!(ty, T => {
                        let mut out = vec![];
                        for c in walk(v.chunks_exact(i)) {
                            out.extend(c.as_slice::<T>().unwrap().iter().map(|e| e.val() as i64));
                            out.push(9);
                        }
                        rv("vals", out)
                    }))),
                    "vdbg" => {
                        let f: Option<fn(&$S<FV>, &str) -> String> = $dbg;
                        match f {
                            Some(f) => Flow::Pop(self.res(|_| rt(f(&v, &o.how)))),
                            None => { self.skip(); continue_skip!(self, res) }
                        }
                    }
                    "veq" => {
                        let f: Option<fn(&$S<FV>, &$S<FV>) -> bool> = $eq;
                        match f {
                            Some(f) => Flow::Pop(self.res(|_| { let (a, b) = v.split_at(i); rb(f(&a, &b)) })),
                            None => { self.skip(); continue_skip!(self, res) }
                        }
                    }
                    "vup" => {
                        let f: fn(&$S<FV>, &str, Ty) -> Option<Res> = $up;
                        let q = self.res(|_| f(&v, &o.how, ty).unwrap_or(r("skip")));
                        if q.k == "skip" { self.skip(); continue_skip!(self, res) } else { Flow::Pop(q) }
                    }
                    _ => { self.skip(); continue_skip!(self, res) }
                };
                match flow {
                    Flow::Pop(q) => res = q,
                    x => return x,
                }
            }
        }
    };
}

macro_rules! mut_frame {
    ($name:ident, $sname:ident, $S:ident, $SM:ident, $with:ident, $with_arg:ident, $deep:ident, $wrong:ident, $tovec:ident, $appvec:ident, $cfs:ident, $isd:expr, $dbg:expr, $eq:expr, $up:expr) => {
        pub fn $name(&mut self, first: Res, view: $SM<'_, FV>, ty: Ty) -> Flow {
            let mut v = view;
            let mut res = first;
            loop {
                if self.deep {
                    $with!(ty, T => {
                        let base = v.as_slice::<T>().map(|s| s.as_ptr()).unwrap_or(std::ptr::null());
                        let n = v.len();
                        $deep::<T>(v.reborrow_mut(), base, n)
                    });
                    for k in 0..self.it.names.len() {
                        let o = self.it.names[k].1;
                        if o != ty && ($isd || info(o).copy) {
                            $with_arg!(o, W => $wrong::<W>(&mut v));
                        }
                    }
                }
                let w = $with!(ty, T => v.as_slice::<T>().map(|s| list(s)));
                if w.is_none() {
                    crate::reg::reg().bad("view of a wrong type");
                }
                self.report_view(res, w.unwrap_or_default());
                let o = match self.next() {
                    Some(o) => o,
                    None => return Flow::Eof,
                };
                let h = self.it.howc;
                let size = info(ty).size;
                let (i, j) = (idx(o.i, size), idx(o.j, size));
                let oty = self.it.ty(&o.ty);
                let v0 = o.vs.first().copied().unwrap_or(0);
                let flow = match &*o.op {
                    "pop" => return Flow::Pop(r("ok")),
                    "end" => return Flow::End,
                    "sub" => match &*o.how {
                        "i" => match self.run(|_| ranged!(o, i, j, q => v.into_subslice(q))) {
                            Ok(n) => {
                                v = n;
                                res = r("ok");
                                continue;
                            }
                            Err(k) => return Flow::Pop(r(k)),
                        },
                        "m" => match self.run(|_| ranged!(o, i, j, q => v.subslice_mut(q))) {
                            Ok(n) => self.$name(r("ok"), n, ty),
                            Err(k) => Flow::Pop(r(k)),
                        },
                        _ => match self.run(|_| ranged!(o, i, j, q => v.subslice(q))) {
                            Ok(n) => self.$sname(r("ok"), n, ty),
                            Err(k) => Flow::Pop(r(k)),
                        },
                    },
                    "split" => match self.run(|_| { let (a, b) = v.split_at(i); if o.how == "l" { a } else { b } }) {
                        Ok(n) => self.$name(r("ok"), n, ty),
                        Err(k) => Flow::Pop(r(k)),
                    },
                    "chunk" if o.how == "m" => match self.run(|_| v.chunks_exact_mut(i).nth(j)) {
                        Ok(Some(n)) => self.$name(r("ok"), n, ty),
                        Ok(None) => Flow::Pop(r("none")),
                        Err(k) => Flow::Pop(r(k)),
                    },
                    "chunk" => match self.run(|_| v.chunks_exact(i).nth(j)) {
                        Ok(Some(n)) => self.$sname(r("ok"), n, ty),
                        Ok(None) => Flow::Pop(r("none")),
                        Err(k) => Flow::Pop(r(k)),
                    },
                    "reb" => match &*o.how {
                        "m" => match self.run(|_| v.reborrow_mut()) {
                            Ok(n) => self.$name(r("ok"), n, ty),
                            Err(k) => Flow::Pop(r(k)),
                        },
                        "f" => match self.run(|_| $S::from(&v)) {
                            Ok(n) => self.$sname(r("ok"), n, ty),
                            Err(k) => Flow::Pop(r(k)),
                        },
                        "i" => return match self.run(|_| $S::from(v)) {
                            Ok(n) => self.$sname(r("ok"), n, ty),
                            Err(k) => Flow::Pop(r(k)),
                        },
                        _ => match self.run(|_| v.reborrow()) {
                            Ok(n) => self.$sname(r("ok"), n, ty),
                            Err(k) => Flow::Pop(r(k)),
                        },
                    },
                    "vget" => match oty {
                        Some(t) if $isd || info(t).copy => Flow::Pop(self.res(|_| $with_arg!(t, T => match h % 3 {
                            0 => one(v.get_as::<T>(i).map(|x| &*x)),
                            1 => one(v.get_mut(i).downcast::<T>().map(|x| &*x)),
                            _ => one(v.get(i).downcast::<T>()),
                        }))),
                        _ => { self.skip(); continue_skip!(self, res) }
                    },
                    "vset" => match oty {
                        Some(t) if $isd || info(t).copy => Flow::Pop(self.res(|_| $with_arg!(t, T => match h % 5 {
                            0 => put(v.get_as::<T>(i), v0),
                            1 => put(v.get_mut(i).downcast::<T>(), v0),
                            2 => put(v.as_slice::<T>().map(|s| &mut s[i]), v0),
                            3 => put(v.iter_as::<T>().map(|mut s| s.nth(i).unwrap()), v0),
                            _ => put(v.iter().nth(i).unwrap().downcast::<T>(), v0),
                        }))),
                        _ => { self.skip(); continue_skip!(self, res) }
                    },
                    "vswap" => Flow::Pop(self.res(|_| { v.swap(i, j); r("ok") })),
                    "vrotl" => Flow::Pop(self.res(|_| { v.rotate_left(i); r("ok") })),
                    "vrotr" => Flow::Pop(self.res(|_| { v.rotate_right(i); r("ok") })),
                    "vcfs" => match oty {
                        Some(t) if $isd || info(t).copy => Flow::Pop(self.res(|_| $with_arg!(t, T => {
                            let s: Vec<T> = o.vs.iter().map(|v| T::new(*v)).collect();
                            rs(v.$cfs::<T>(&s).is_some())
                        }))),
                        _ => { self.skip(); continue_skip!(self, res) }
                    },
                    "vssw" => Flow::Pop(self.res(|_| {
                        let (mut a, mut b) = v.split_at(j);
                        let (mut x, mut y) = (a.get_mut(0), b.get_mut(i));
                        x.swap(&mut y);
                        r("ok")
                    })),
                    "vlist" => {
                        let t = if o.ty == "-" { Some(ty) } else { oty };
                        match t {
                            Some(t) if $isd || info(t).copy => Flow::Pop(self.res(|_| $with_arg!(t, T => {
                                if o.ty == "-" {
                                    match h % 2 {
                                        0 => vals(walk(v.iter()).into_iter().map(|e| &*e.downcast::<T>().unwrap())),
                                        _ => vals(walk(v.reborrow_mut().into_iter()).into_iter().map(|e| &*e.downcast::<T>().unwrap())),
                                    }
                                } else {
                                    match h % 4 {
                                        0 => v.iter_as::<T>().map(|x| vals(x.map(|x| &*x))),
                                        1 => v.as_slice::<T>().map(|s| vals(s.iter())),
                                        2 => v.reborrow_mut().$tovec::<T>().map(|s| vals(s.iter())),
                                        _ => {
                                            let mut s = vec![];
                                            v.$appvec::<T>(&mut s).map(|s| vals(s.iter()))
                                        }
                                    }.unwrap_or(r("none"))
                                }
                            }))),
                            _ => { self.skip(); continue_skip!(self, res) }
                        }
                    }
                    "vchunks" => Flow::Pop(self.res(|_| $with!(ty, T => {
                        let mut out = vec![];
                        if h % 2 == 0 {
                            for mut c in walk(v.chunks_exact_mut(i)) {
                                out.extend(c.as_slice::<T>().unwrap().iter().map(|e| e.val() as i64));
                                out.push(9);
                            }
                        } else {
                            for c in walk(v.chunks_exact(i)) {
                                out.extend(c.as_slice::<T>().unwrap().iter().map(|e| e.val() as i64));
                                out.push(9);
                            }
                        }
                        rv("vals", out)
                    }))),
                    "vdbg" => {
                        let f: Option<fn(&$SM<FV>, &str) -> String> = $dbg;
                        match f {
                            Some(f) => Flow::Pop(self.res(|_| rt(f(&v, &o.how)))),
                            None => { self.skip(); continue_skip!(self, res) }
                        }
                    }
                    "veq" => {
                        let f: Option<fn(&$SM<FV>, &$SM<FV>) -> bool> = $eq;
                        match f {
                            Some(f) => Flow::Pop(self.res(|_| { let (a, b) = v.split_at(i); rb(f(&a, &b)) })),
                            None => { self.skip(); continue_skip!(self, res) }
                        }
                    }
                    "vup" => {
                        let f: fn(&mut $SM<FV>, &str, Ty) -> Option<Res> = $up;
                        let q = self.res(|_| f(&mut v, &o.how, ty).unwrap_or(r("skip")));
                        if q.k == "skip" { self.skip(); continue_skip!(self, res) } else { Flow::Pop(q) }
                    }
                    _ => { self.skip(); continue_skip!(self, res) }
                };
                match flow {
                    Flow::Pop(q) => res = q,
                    x => return x,
                }
            }
        }
    };
}

fn dbg_slice(v: &Slice<FV>, f: &str) -> String {
    dbg_of(v, f)
}
fn dbg_slice_mut(v: &SliceMut<FV>, f: &str) -> String {
    dbg_of(v, f)
}
fn cat(it: impl Iterator<Item = Vec<i64>>) -> Res {
    rv("vals", it.flatten().collect())
}

macro_rules! up_d {
    ($v:expr, $how:expr, $ty:expr, $iter:ident, $m:expr) => {{
        let ty = $ty;
        with_ty!(ty, T => Some(match $how {
            "clone" => {
                #[allow(unused_mut)]
                let mut u = $v.upcast::<CloneVTable>();
                let b: Vec<_> = u.$iter().map(|e| e.clone_value()).collect();
                rv("vals", b.into_iter().map(|e| { let e = e.downcast::<T>().unwrap(); e.id(); e.val() as i64 }).collect())
            }
            "drop" => {
                #[allow(unused_mut)]
                let mut u = $v.upcast::<DropVTable>();
                u.as_slice::<T>().map(|s| vals(s.iter())).unwrap_or(r("none"))
            }
            "hash" => {
                #[allow(unused_mut)]
                let mut u = $v.upcast::<HashVTable>();
                let q = cat(u.$iter().map(|e| hash_of(&e)));
                q
            }
            "partialeq" => {
                #[allow(unused_mut)]
                let mut u = $v.upcast::<PartialEqVTable>();
                if u.is_empty() { return Some(rv("vals", vec![])); }
                let u: Slice<PartialEqVTable> = u.into();
                let q: Vec<i64> = u.iter().map(|e| (u.get(0) == e) as i64).collect();
                rv("vals", q)
            }
            "eq" => {
                #[allow(unused_mut)]
                let mut u = $v.upcast::<EqVTable>();
                if u.is_empty() { return Some(rv("vals", vec![])); }
                let u: Slice<EqVTable> = u.into();
                let q: Vec<i64> = u.iter().map(|e| (u.get(0) == e) as i64).collect();
                rv("vals", q)
            }
            "debug" => {
                let u = $v.upcast::<DebugVTable>();
                rt(dbg_of(&u, "p"))
            }
            _ => return None,
        }))
    }};
}
fn up_slice(v: &Slice<FV>, how: &str, ty: Ty) -> Option<Res> {
    up_d!(v.clone(), how, ty, iter, false)
}
fn up_slice_mut(v: &mut SliceMut<FV>, how: &str, ty: Ty) -> Option<Res> {
    up_d!(v.reborrow_mut(), how, ty, iter, true)
}
macro_rules! up_c {
    ($v:expr, $how:expr, $ty:expr, $dyn:ident) => {{
        let ty = $ty;
        with_c!(ty, T => Some(match $how {
            "clone" => {
                #[allow(unused_mut)]
                let mut u = $v.upcast::<CloneVTable>();
                let q: Vec<i64> = u.iter().map(|e| { let e = e.downcast::<T>().unwrap(); e.val() as i64 }).collect();
                rv("vals", q)
            }
            "drop" | "any" => {
                let u = into_dyn![$dyn<dyn Any>]($v);
                let u: SliceCopy<dyn std::any::Any> = u.into();
                let mut out = vec![];
                for k in 0..u.len() {
                    let e = u.get(k);
                    if e.size() != std::mem::size_of::<T>() || !e.is::<T>() {
                        crate::reg::reg().bad("element of a dynamic view");
                    }
                    out.push(e.downcast::<T>().unwrap().val() as i64);
                }
                rv("vals", out)
            }
            "hash" => {
                #[allow(unused_mut)]
                let mut u = $v.upcast::<HashVTable>();
                let q = cat(u.iter().map(|e| hash_of(&e)));
                q
            }
            "eq" | "partialeq" => {
                let u: SliceCopy<EqVTable> = $v.upcast::<EqVTable>().into();
                let q: Vec<i64> = u.iter().map(|e| (u.get(0) == e) as i64).collect();
                rv("vals", q)
            }
            "debug" => {
                #[allow(unused_mut)]
                let mut u = $v.upcast::<DebugVTable>();
                // Formats like a list of the elements.
                struct L(Vec<String>);
                impl std::fmt::Debug for L {
                    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                        f.debug_list().entries(self.0.iter().map(|s| format_args!("{}", s).to_string()).map(Raw)).finish()
                    }
                }
                struct Raw(String);
                impl std::fmt::Debug for Raw {
                    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                        f.write_str(&self.0)
                    }
                }
                let l = L(u.iter().map(|e| format!("{:?}", e)).collect());
                rt(dbg_of(&l, "p"))
            }
            _ => return None,
        }))
    }};
}
fn up_cslice(v: &SliceCopy<FV>, how: &str, ty: Ty) -> Option<Res> {
    up_c!(v.clone(), how, ty, SliceCopy)
}
fn up_cslice_mut(v: &mut SliceCopyMut<FV>, how: &str, ty: Ty) -> Option<Res> {
    up_c!(v.reborrow_mut(), how, ty, SliceCopyMut)
}

impl<'a> Driver<'a> {
    shared_frame!(slice, Slice, with_ty, with_ty, deep_slice, wrong_slice, clone_into_vec, append_clone_to_vec, true, ValueRef,
        Some(dbg_slice), Some(|a, b| a == b), up_slice);
    mut_frame!(slice_mut, slice, Slice, SliceMut, with_ty, with_ty, deep_slice_mut, wrong_slice_mut, clone_into_vec, append_clone_to_vec, clone_from_slice, true,
        Some(dbg_slice_mut), Some(|a, b| a == b), up_slice_mut);
    shared_frame!(cslice, SliceCopy, with_c, with_c, deep_cslice, wrong_cslice, copy_into_vec, append_copy_to_vec, false, CopyValueRef,
        None, None, up_cslice);
    mut_frame!(cslice_mut, cslice, SliceCopy, SliceCopyMut, with_c, with_c, deep_cslice_mut, wrong_cslice_mut, copy_into_vec, append_copy_to_vec, copy_from_slice, false,
        None, None, up_cslice_mut);

    /// Runs the view operations on slot `si`.
    pub fn view(&mut self, si: usize, mutable: bool) -> Option<Flow> {
        let mut s = self.it.slots[si].1.take();
        let ty = match s.ty() {
            Some(t) => t,
            None => {
                self.it.slots[si].1 = s;
                return None;
            }
        };
        let h = self.it.howc;
        let ok = r("ok");
        let f = match (&mut s, mutable) {
            (Slot::D(d), false) => self.slice(ok, d.as_slice(), ty),
            (Slot::D(d), true) => self.slice_mut(ok, d.as_mut_slice(), ty),
            (Slot::C(d), false) => self.cslice(ok, d.as_slice(), ty),
            (Slot::C(d), true) => self.cslice_mut(ok, d.as_mut_slice(), ty),
            (Slot::T(_, v), false) => {
                if info(ty).copy && h % 2 == 0 {
                    with_c!(ty, T => {
                        let v = tvec::<T>(&**v);
                        self.cslice(ok, if h % 4 == 0 { SliceCopy::from_slice(&v[..]) } else { SliceCopy::from(&v[..]) }, ty)
                    })
                } else {
                    with_ty!(ty, T => {
                        let v = tvec::<T>(&**v);
                        self.slice(ok, if h % 4 == 0 { Slice::from_slice(&v[..]) } else { Slice::from(&v[..]) }, ty)
                    })
                }
            }
            (Slot::T(_, v), true) => {
                if info(ty).copy && h % 2 == 0 {
                    with_c!(ty, T => {
                        let v = tvec_mut::<T>(&mut **v);
                        self.cslice_mut(ok, if h % 4 == 0 { SliceCopyMut::from_slice(&mut v[..]) } else { SliceCopyMut::from(&mut v[..]) }, ty)
                    })
                } else {
                    with_ty!(ty, T => {
                        let v = tvec_mut::<T>(&mut **v);
                        self.slice_mut(ok, if h % 4 == 0 { SliceMut::from_slice(&mut v[..]) } else { SliceMut::from(&mut v[..]) }, ty)
                    })
                }
            }
            _ => {
                self.it.slots[si].1 = s;
                return None;
            }
        };
        self.it.slots[si].1 = s;
        Some(f)
    }
}
