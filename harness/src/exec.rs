//! Operations on owned objects. Returns `None` if the operation does not apply in this state.
use crate::core::*;
use crate::types::*;
use crate::{each_up, each_upc, each_val, with_cap, with_copy, with_ty};
use dync::traits::*;
use dync::*;

pub struct Interp {
    pub names: Vec<(String, Ty)>,
    pub slots: Vec<(String, Slot)>,
    pub howc: usize,
}

fn mkvec<T: El>(vs: &[u8]) -> Vec<T> {
    vs.iter().map(|v| T::new(*v)).collect()
}

pub fn two(s: &mut [(String, Slot)], a: usize, b: usize) -> (&mut Slot, &mut Slot) {
    assert!(a != b);
    if a < b {
        let (l, r) = s.split_at_mut(b);
        (&mut l[a].1, &mut r[0].1)
    } else {
        let (l, r) = s.split_at_mut(a);
        (&mut r[0].1, &mut l[b].1)
    }
}

/// A reference to an element, as an untyped value.
pub fn vref(s: &Slot, i: usize, how: usize) -> Option<ValueRef<'_, FV>> {
    Some(match s {
        Slot::D(d) => match how % 3 {
            0 => d.get(i),
            1 => match d.iter().nth(i) {
                Some(v) => v,
                None => panic!("nth"),
            },
            _ => {
                assert!(i < d.len());
                d.as_slice().into_iter().nth(i).unwrap()
            }
        },
        Slot::B(b) if i == 0 => if how % 2 == 0 { b.as_ref() } else { ValueRef::from(b) },
        Slot::S(b) if i == 0 => if how % 2 == 0 { b.as_ref() } else { ValueRef::from(b) },
        Slot::T(t, v) => with_ty!(*t, T => ValueRef::new(&tvec::<T>(&**v)[i])),
        _ => return None,
    })
}
pub fn vmut(s: &mut Slot, i: usize, how: usize) -> Option<ValueMut<'_, FV>> {
    Some(match s {
        Slot::D(d) => match how % 3 {
            0 => d.get_mut(i),
            1 => match d.iter_mut().nth(i) {
                Some(v) => v,
                None => panic!("nth"),
            },
            _ => {
                assert!(i < d.len());
                d.as_mut_slice().into_iter().nth(i).unwrap()
            }
        },
        Slot::B(b) if i == 0 => b.as_mut(),
        Slot::S(b) if i == 0 => b.as_mut(),
        Slot::T(t, v) => with_ty!(*t, T => ValueMut::new(&mut tvec_mut::<T>(&mut **v)[i])),
        _ => return None,
    })
}
fn cref(s: &Slot, i: usize, how: usize) -> Option<CopyValueRef<'_, FV>> {
    Some(match s {
        Slot::C(d) => match how % 2 {
            0 => d.get_ref(i),
            _ => match d.iter().nth(i) {
                Some(v) => v,
                None => panic!("nth"),
            },
        },
        Slot::T(t, v) => with_copy!(*t, T => CopyValueRef::new(&tvec::<T>(&**v)[i]), else return None),
        _ => return None,
    })
}
fn cmut(s: &mut Slot, i: usize, how: usize) -> Option<CopyValueMut<'_, FV>> {
    Some(match s {
        Slot::C(d) => match how % 2 {
            0 => d.get_mut(i),
            _ => match d.iter_mut().nth(i) {
                Some(v) => v,
                None => panic!("nth"),
            },
        },
        Slot::T(t, v) => with_copy!(*t, T => CopyValueMut::new(&mut tvec_mut::<T>(&mut **v)[i]), else return None),
        _ => return None,
    })
}
/// An element seen through the table V: of a container of that table, or upcast.
fn uref<V: ?Sized + Cap>(s: &Slot, i: usize, how: usize) -> Option<ValueRef<'_, V>> {
    match s {
        Slot::U(u) => {
            let d = V::of(u)?;
            Some(match how % 2 {
                0 => d.get(i),
                _ => match d.iter().nth(i) {
                    Some(v) => v,
                    None => panic!("nth"),
                },
            })
        }
        Slot::X(u) if i == 0 => Some(V::of_box(u)?.as_ref()),
        Slot::Y(u) if i == 0 => Some(V::of_small(u)?.as_ref()),
        s => V::up_ref(vref(s, i, how)?),
    }
}
fn umut<V: ?Sized + Cap>(s: &mut Slot, i: usize, how: usize) -> Option<ValueMut<'_, V>> {
    match s {
        Slot::U(u) => {
            let d = V::of_mut(u)?;
            Some(match how % 2 {
                0 => d.get_mut(i),
                _ => match d.iter_mut().nth(i) {
                    Some(v) => v,
                    None => panic!("nth"),
                },
            })
        }
        Slot::X(u) => if i == 0 { Some(V::of_box_mut(u)?.as_mut()) } else { None },
        Slot::Y(u) => if i == 0 { Some(V::of_small_mut(u)?.as_mut()) } else { None },
        s => V::up_mut(vmut(s, i, how)?),
    }
}
/// An element of a copied container or a typed vector, seen through the table V.
fn ucref<V: ?Sized + Cap>(s: &Slot, i: usize, how: usize) -> Option<CopyValueRef<'_, V>> {
    match s {
        Slot::E(u) => {
            let d = V::of_copy(u)?;
            Some(match how % 2 {
                0 => d.get_ref(i),
                _ => match d.iter().nth(i) {
                    Some(v) => v,
                    None => panic!("nth"),
                },
            })
        }
        s => V::up_cref(cref(s, i, how)?),
    }
}
fn ucmut<V: ?Sized + Cap, R>(s: &mut Slot, i: usize, how: usize, f: impl FnOnce(CopyValueMut<V>) -> R) -> Option<R> {
    match s {
        Slot::E(u) => {
            let d = V::of_copy_mut(u)?;
            Some(f(match how % 2 {
                0 => d.get_mut(i),
                _ => match d.iter_mut().nth(i) {
                    Some(v) => v,
                    None => panic!("nth"),
                },
            }))
        }
        s => {
            let mut v = cmut(s, i, how)?;
            Some(f(V::up_cmut(&mut v)?))
        }
    }
}
fn is_e(s: &Slot) -> bool {
    matches!(s, Slot::E(_))
}
/// The capability through which two elements, at least one of them in an upcast container, meet.
fn meet(s: &Slot, p: &Slot) -> Option<&'static str> {
    match (s.cap(), p.cap()) {
        ("f", "f") => None,
        ("f", c) | (c, "f") => Some(c),
        (a, b) => if a == b { Some(a) } else { None },
    }
}
fn is_u(s: &Slot) -> bool {
    matches!(s, Slot::U(_) | Slot::X(_) | Slot::Y(_))
}
fn is_c(s: &Slot) -> bool {
    matches!(s, Slot::C(_))
}

impl Interp {
    pub fn new(names: Vec<(String, Ty)>, slots: &[&str]) -> Self {
        Interp { names, slots: slots.iter().map(|n| (n.to_string(), Slot::Dead)).collect(), howc: 0 }
    }
    pub fn ty(&self, n: &str) -> Option<Ty> {
        self.names.iter().find(|x| x.0 == n).map(|x| x.1)
    }
    pub fn name(&self, t: Ty) -> String {
        match self.names.iter().find(|x| x.1 == t) {
            Some(x) => x.0.clone(),
            None => "?".into(),
        }
    }
    pub fn find(&self, n: &str) -> Option<usize> {
        self.slots.iter().position(|x| x.0 == n)
    }
    pub fn drop_all(&mut self) {
        for s in self.slots.iter_mut() {
            s.1 = Slot::Dead;
        }
    }

    pub fn exec(&mut self, o: &Op) -> Option<Res> {
        self.howc += 1;
        let h = self.howc;
        let si = self.find(&o.s)?;
        let kind = o.s.as_bytes()[0];
        let names = &self.names;
        let ty = names.iter().find(|x| x.0 == o.ty).map(|x| x.1);
        let live = !self.slots[si].1.dead();
        // The size by which the symbolic huge indices are scaled.
        let esize = self.slots[si].1.ty().map(|t| info(t).size).unwrap_or(1);
        let i = idx(o.i, esize);
        let j = idx(o.j, esize);
        match &*o.op {
            "mk" | "mku" | "tv" | "box" | "small" => {
                if live {
                    return None;
                }
                let ty = ty?;
                let (res, new) = self.make(o, kind, ty, h)?;
                self.slots[si].1 = new;
                return Some(res);
            }
            _ => {}
        }
        if !live {
            return None;
        }
        let pi = if o.p == "-" { None } else { Some(self.find(&o.p)?) };
        match &*o.op {
            "from" | "into" | "tf" | "collect" | "colmix" | "clone" | "tovec" | "boxof" | "smallof" | "down" | "up" | "undyn" => {
                if pi.is_none() || !self.slots[pi?].1.dead() {
                    return None;
                }
            }
            "pushbox" | "pushcl" | "pushref" | "append" | "extend" | "extmix" | "appvec" | "swap" | "assign" | "clonefrom"
            | "copyval" => {
                if pi.is_none() || pi == Some(si) || self.slots[pi?].1.dead() {
                    return None;
                }
            }
            "eq" | "eqv" => {
                if pi.is_none() || self.slots[pi?].1.dead() {
                    return None;
                }
            }
            _ => {}
        }
        let sty = self.slots[si].1.ty()?;
        Some(match &*o.op {
            "drop" => {
                let s = self.slots[si].1.take();
                drop(s);
                r("ok")
            }
            "from" => {
                // A typed vector becomes an untyped one.
                let pk = o.p.as_bytes()[0];
                if kind != b't' || !(pk == b'd' || (pk == b'c' && info(sty).copy)) {
                    return None;
                }
                let v = match self.slots[si].1.take() {
                    Slot::T(_, v) => v,
                    _ => return None,
                };
                let new = with_ty!(sty, T => {
                    let v: Vec<T> = *v.downcast::<Vec<T>>().ok()?;
                    if pk == b'd' {
                        Slot::D(if h % 2 == 0 { VecDyn::from_vec(v) } else { VecDyn::from(v) })
                    } else {
                        from_c(sty, Box::new(v), h)
                    }
                });
                self.slots[pi?].1 = new;
                r("ok")
            }
            "into" => {
                let ty = ty?;
                if !matches!(kind, b'd' | b'c' | b'u' | b'e') || !o.p.starts_with('t') {
                    return None;
                }
                let s = self.slots[si].1.take();
                let out: Option<Slot> = with_ty!(ty, T => {
                    let v: Option<Vec<T>> = match s {
                        Slot::D(d) => if h % 2 == 0 { d.into_vec::<T>() } else { d.into() },
                        Slot::C(d) => if info(ty).copy && h % 2 == 1 {
                            with_copy!(ty, W => Slot::some_vec::<W>(d.into()), else None).and_then(Slot::vec_of::<T>)
                        } else if h % 4 == 2 {
                            d.upcast::<CloneVTable>().into_vec::<T>()
                        } else {
                            d.into_vec::<T>()
                        },
                        Slot::U(u) => each_up!(u, d => d.into_vec::<T>()),
                        Slot::E(u) => each_upc!(u, d => if info(ty).copy && h % 2 == 1 {
                            with_copy!(ty, W => Slot::some_vec::<W>(d.into()), else None).and_then(Slot::vec_of::<T>)
                        } else {
                            d.into_vec::<T>()
                        }),
                        _ => None,
                    };
                    v.map(|v| Slot::T(ty, Box::new(v)))
                });
                match out {
                    Some(s) => {
                        self.slots[pi?].1 = s;
                        r("some")
                    }
                    None => r("none"),
                }
            }
            "tf" => {
                let pk = o.p.as_bytes()[0];
                let (s, p) = two(&mut self.slots, si, pi?);
                let n = s.len();
                let want_d = pk == b'd';
                let want_c = pk == b'c' && info(sty).copy;
                if matches!(pk, b'u' | b'e') {
                    // The source offers one capability; so does the target.
                    if pk == b'e' && !info(sty).copy {
                        return None;
                    }
                    macro_rules! out {
                        ($m:expr) => {
                            match $m {
                                m if pk == b'u' => Slot::U(V::wrap(VecDyn::with_type_from(m))),
                                m => Slot::E(V::wrap_copy(VecCopy::with_type_from(m))),
                            }
                        };
                    }
                    let new = with_cap!(s.cap(), sized, V => match s {
                        Slot::U(u) => {
                            let d = V::of_mut(u)?;
                            match h % 5 {
                                0 => out!(&*d),
                                1 => out!(d.as_slice()),
                                2 => out!(d.as_mut_slice()),
                                3 if n > 0 => out!(d.get(n - 1)),
                                4 if n > 0 => out!(d.get_mut(0)),
                                _ => out!(d.as_slice().reborrow()),
                            }
                        }
                        Slot::E(u) => {
                            let d = V::of_copy_mut(u)?;
                            match h % 5 {
                                0 => out!(&*d),
                                1 => out!(d.as_slice()),
                                2 => out!(d.as_mut_slice()),
                                3 if n > 0 => out!(d.get_ref(n - 1)),
                                4 => out!(d.as_slice().upcast::<V>()),
                                _ => out!(d.as_slice().reborrow()),
                            }
                        }
                        s => match h % 2 {
                            0 => out!(uref::<V>(s, 0, h / 2)?),
                            _ => out!(umut::<V>(s, 0, h / 2)?),
                        },
                    });
                    if new.len() != 0 {
                        crate::reg::reg().bad("with_type_from is not empty");
                    }
                    *p = new;
                    return Some(r("ok"));
                }
                if !want_d && !want_c {
                    return None;
                }
                macro_rules! out {
                    ($m:expr) => {
                        if want_d {
                            Slot::D(VecDyn::with_type_from($m))
                        } else {
                            Slot::C(VecCopy::with_type_from($m))
                        }
                    };
                }
                let new = match s {
                    Slot::D(d) => match h % 5 {
                        0 => out!(&*d),
                        1 => out!(d.as_slice()),
                        2 => out!(d.as_mut_slice()),
                        3 if n > 0 => out!(d.get(n - 1)),
                        4 if n > 0 => out!(d.get_mut(0)),
                        _ => out!(d.as_slice().reborrow()),
                    },
                    Slot::C(d) => match h % 5 {
                        0 => out!(&*d),
                        1 => out!(d.as_slice()),
                        2 => out!(d.as_mut_slice()),
                        3 if n > 0 => out!(d.get_ref(n - 1)),
                        4 => {
                            // Through an explicit Meta.
                            let m: Meta<VTableRef<FV>> = (&*d).into();
                            out!(m)
                        }
                        _ => out!(d.as_slice().reborrow()),
                    },
                    Slot::B(b) => if h % 2 == 0 { out!(b.as_ref()) } else { out!(b.as_mut()) },
                    Slot::S(b) => if h % 2 == 0 { out!(b.as_ref()) } else { out!(b.as_mut()) },
                    Slot::T(_, v) => with_ty!(sty, T => {
                        let v = tvec_mut::<T>(&mut **v);
                        match h % 2 {
                            0 => { let s: Slice<FV> = Slice::from_slice(&v[..]); out!(s) }
                            _ => { let s: SliceMut<FV> = SliceMut::from(&mut v[..]); out!(s) }
                        }
                    }),
                    _ => return None,
                };
                if let Slot::C(c) = &new {
                    if c.len() != 0 {
                        crate::reg::reg().bad("with_type_from is not empty");
                    }
                }
                *p = new;
                r("ok")
            }
            "collect" => {
                let (s, p) = two(&mut self.slots, si, pi?);
                let (a, b) = (i, j);
                match s {
                    Slot::C(c) if o.p.starts_with('c') => {
                        if b > c.len() || a > b {
                            return None;
                        }
                        let new: VecCopy<FV> = match h % 5 {
                            0 => c.iter().skip(a).take(b - a).collect(),
                            1 => Odd(c.iter().skip(a).take(b - a), h % 4).collect(),
                            2 => Odd(c.as_slice().subslice(a..b).iter(), h % 9).collect(),
                            3 => c.iter().enumerate().filter(|x| x.0 >= a && x.0 < b).map(|x| x.1).collect(),
                            _ => c.as_slice().subslice(a..b).iter().collect(),
                        };
                        *p = Slot::C(new);
                        r("ok")
                    }
                    Slot::E(u) if o.p.starts_with('e') => with_cap!(u.cap(), sized, V => {
                        let c = V::of_copy(u)?;
                        if b > c.len() || a > b {
                            return None;
                        }
                        let new: VecCopy<V> = match h % 3 {
                            0 => c.iter().skip(a).take(b - a).collect(),
                            1 => Odd(c.as_slice().subslice(a..b).iter(), h % 4).collect(),
                            _ => c.as_slice().into_subslice(a..b).into_iter().collect(),
                        };
                        *p = Slot::E(V::wrap_copy(new));
                        r("ok")
                    }),
                    _ => return None,
                }
            }
            "clone" => {
                if o.p.as_bytes()[0] != kind {
                    return None;
                }
                let new = match &self.slots[si].1 {
                    Slot::D(d) => Slot::D(d.clone()),
                    Slot::C(d) => Slot::C(match h % 4 {
                        0 => {
                            let (data, table) = d.clone().into_raw_parts();
                            // The bytes, cloned once more, with the same table.
                            unsafe { VecCopy::from_raw_parts(data.clone(), table) }
                        }
                        1 => {
                            let (mut data, table) = VecCopy::<FV>::with_type_from(d).into_raw_parts();
                            data.clone_from(&d.clone().into_raw_parts().0);
                            unsafe { VecCopy::from_raw_parts(data, table) }
                        }
                        _ => d.clone(),
                    }),
                    Slot::B(d) => Slot::B(match h % 3 { 0 => d.clone(), 1 => d.as_ref().clone_value(), _ => d.clone() }),
                    Slot::S(d) => Slot::S(match h % 2 { 0 => d.clone(), _ => d.as_ref().clone_small_value() }),
                    Slot::U(Up::Clone(d)) => Slot::U(Up::Clone(d.clone())),
                    Slot::E(u) => Slot::E(with_cap!(u.cap(), sized, V => V::wrap_copy(V::of_copy(u)?.clone()))),
                    Slot::X(UpBox::Clone(d)) => Slot::X(UpBox::Clone(match h % 2 { 0 => d.clone(), _ => d.as_ref().clone_value() })),
                    Slot::Y(UpSmall::Clone(d)) => Slot::Y(UpSmall::Clone(match h % 2 { 0 => d.clone(), _ => d.as_ref().clone_small_value() })),
                    _ => return None,
                };
                self.slots[pi?].1 = new;
                r("ok")
            }
            "check" => {
                let ty = ty?;
                let s = match self.slots[si].1.take() {
                    Slot::D(d) => {
                        let d = if h % 2 == 0 { d } else {
                            let (data, table) = d.into_raw_parts();
                            unsafe { VecDyn::from_raw_parts(data, table) }
                        };
                        with_ty!(ty, T => d.check::<T>().map(Slot::D))
                    }
                    Slot::C(d) => {
                        let d = if h % 2 == 0 { d } else {
                            let (data, table) = d.into_raw_parts();
                            unsafe { VecCopy::from_raw_parts(data, table) }
                        };
                        with_ty!(ty, T => d.check::<T>().map(Slot::C))
                    }
                    Slot::E(u) => each_upc!(u, d => with_ty!(ty, T => d.check::<T>().map(|d| Slot::E(Cap::wrap_copy(d))))),
                    x => {
                        self.slots[si].1 = x;
                        return None;
                    }
                };
                match s {
                    Some(s) => {
                        self.slots[si].1 = s;
                        r("some")
                    }
                    None => r("none"),
                }
            }
            "checkr" => {
                let ty = ty?;
                match &mut self.slots[si].1 {
                    Slot::D(d) => with_ty!(ty, T => rs(if h % 2 == 0 { d.check_ref::<T>().is_some() } else { d.check_mut::<T>().is_some() })),
                    Slot::C(d) => with_ty!(ty, T => rs(if h % 2 == 0 { d.check_ref::<T>().is_some() } else { d.check_mut::<T>().is_some() })),
                    Slot::B(b) => with_ty!(ty, T => rs(b.is::<T>())),
                    Slot::S(b) => with_ty!(ty, T => rs(b.is::<T>())),
                    Slot::X(u) => each_val!(u, UpBox, b => with_ty!(ty, T => rs(b.is::<T>()))),
                    Slot::Y(u) => each_val!(u, UpSmall, b => with_ty!(ty, T => rs(b.is::<T>()))),
                    Slot::U(u) => each_up!(u, d => with_ty!(ty, T => rs(d.check_ref::<T>().is_some()))),
                    Slot::E(u) => each_upc!(u, d => with_ty!(ty, T => rs(if h % 2 == 0 { d.check_ref::<T>().is_some() } else { d.check_mut::<T>().is_some() }))),
                    _ => return None,
                }
            }
            "push" => {
                let ty = ty?;
                let v = *o.vs.first()?;
                match &mut self.slots[si].1 {
                    Slot::D(d) => with_ty!(ty, T => rs(d.push_as(T::new(v)).is_some())),
                    Slot::C(d) => match h % 2 {
                        0 => with_copy!(ty, T => rs(d.push_as(T::new(v)).is_some()), else with_ty!(ty, T => rs(d.push_as(T::new(v)).is_some()))),
                        _ => with_ty!(ty, T => rs(d.push_as(T::new(v)).is_some())),
                    },
                    Slot::U(u) => each_up!(u, d => with_ty!(ty, T => rs(d.push_as(T::new(v)).is_some()))),
                    Slot::E(u) => each_upc!(u, d => with_ty!(ty, T => rs(d.push_as(T::new(v)).is_some()))),
                    _ => return None,
                }
            }
            "pushbox" => {
                if !matches!(self.slots[si].1, Slot::D(_) | Slot::U(_)) || !(o.p.starts_with('b') || o.p.starts_with('x')) {
                    return None;
                }
                if o.p.starts_with('x') {
                    let b = match self.slots[pi?].1.take() {
                        Slot::X(b) => b,
                        _ => return None,
                    };
                    return Some(match &mut self.slots[si].1 {
                        Slot::D(d) => each_val!(b, UpBox, b => rs(d.push(b).is_some())),
                        Slot::U(u) => each_up!(u, d => each_val!(b, UpBox, b => rs(d.push(b).is_some()))),
                        _ => return None,
                    });
                }
                let b = match self.slots[pi?].1.take() {
                    Slot::B(b) => b,
                    _ => return None,
                };
                match &mut self.slots[si].1 {
                    Slot::D(d) => match h % 3 {
                        0 => rs(d.push(b).is_some()),
                        1 => rs(d.push(b.upcast::<DropVTable>()).is_some()),
                        _ => rs(d.push(b.upcast::<CloneVTable>()).is_some()),
                    },
                    Slot::U(u) => each_up!(u, d => rs(d.push(b).is_some())),
                    _ => return None,
                }
            }
            "pushcl" => {
                let (s, p) = two(&mut self.slots, si, pi?);
                let i = idx(o.i, p.ty().map(|t| info(t).size).unwrap_or(1));
                match (s, &*p) {
                    (Slot::D(d), Slot::C(c)) => {
                        // A copy value, boxed and pushed.
                        let r: ValueRef<(DropFn, FV)> = c.get_ref(i).into();
                        rs(d.push(r.clone_value()).is_some())
                    }
                    (Slot::D(d), p) => rs(d.push_cloned(vref(p, i, h)?).is_some()),
                    (Slot::U(u), p) => with_cap!(u.cap(), ["clone" CloneVTable, "dyn" dyn HasFull], V => {
                        let v = uref::<V>(p, i, h)?;
                        rs(V::of_mut(u)?.push_cloned(v).is_some())
                    }),
                    _ => return None,
                }
            }
            "pushref" => {
                let (s, p) = two(&mut self.slots, si, pi?);
                let i = idx(o.i, p.ty().map(|t| info(t).size).unwrap_or(1));
                if let Slot::E(q) = p {
                    return Some(with_cap!(q.cap(), sized, V => {
                        let v = ucref::<V>(p, i, h)?;
                        match s {
                            Slot::C(d) => rs(d.push(v).is_some()),
                            Slot::E(u) => each_upc!(u, d => rs(d.push(v).is_some())),
                            _ => return None,
                        }
                    }));
                }
                match s {
                    Slot::E(u) => {
                        let v = cref(p, i, h)?;
                        each_upc!(u, d => rs(d.push(v).is_some()))
                    }
                    Slot::C(d) => {
                        let v = cref(p, i, h)?;
                        match h % 3 {
                            0 => rs(d.push(v.upcast::<CloneVTable>()).is_some()),
                            _ => rs(d.push(v).is_some()),
                        }
                    }
                    _ => return None,
                }
            }
            "resize" => {
                let ty = ty?;
                let v = *o.vs.first()?;
                match &mut self.slots[si].1 {
                    Slot::D(d) => with_ty!(ty, T => rs(d.resize(j, T::new(v)).is_some())),
                    Slot::C(d) => with_copy!(ty, T => rs(d.resize(j, T::new(v)).is_some()), else return None),
                    Slot::E(u) => each_upc!(u, d => with_copy!(ty, T => rs(d.resize(j, T::new(v)).is_some()), else return None)),
                    Slot::U(Up::Clone(d)) => with_ty!(ty, T => rs(d.resize(j, T::new(v)).is_some())),
                    Slot::U(Up::Dyn(d)) => with_ty!(ty, T => rs(d.resize(j, T::new(v)).is_some())),
                    _ => return None,
                }
            }
            "fill" => {
                let ty = ty?;
                let v = *o.vs.first()?;
                match &mut self.slots[si].1 {
                    Slot::D(d) => with_ty!(ty, T => rs(d.fill(T::new(v)).is_some())),
                    Slot::C(d) => with_copy!(ty, T => rs(d.fill(T::new(v)).is_some()), else return None),
                    Slot::E(u) => each_upc!(u, d => with_copy!(ty, T => rs(d.fill(T::new(v)).is_some()), else return None)),
                    Slot::U(Up::Clone(d)) => with_ty!(ty, T => rs(d.fill(T::new(v)).is_some())),
                    Slot::U(Up::Dyn(d)) => with_ty!(ty, T => rs(d.fill(T::new(v)).is_some())),
                    _ => return None,
                }
            }
            "clear" => {
                match &mut self.slots[si].1 {
                    Slot::D(d) => d.clear(),
                    Slot::C(d) => d.clear(),
                    Slot::U(u) => each_up!(u, d => d.clear()),
                    Slot::E(u) => each_upc!(u, d => d.clear()),
                    _ => return None,
                }
                r("ok")
            }
            "append" => {
                let (s, p) = two(&mut self.slots, si, pi?);
                match (s, p) {
                    (Slot::D(a), Slot::D(b)) => rs(a.append(b).is_some()),
                    (Slot::C(a), Slot::C(b)) => rs(a.append(b).is_some()),
                    (Slot::U(a), Slot::U(b)) => with_cap!(a.cap(), all, V => rs(V::of_mut(a)?.append(V::of_mut(b)?).is_some())),
                    (Slot::E(a), Slot::E(b)) => with_cap!(a.cap(), all, V => rs(V::of_copy_mut(a)?.append(V::of_copy_mut(b)?).is_some())),
                    _ => return None,
                }
            }
            "extend" => {
                let (s, p) = two(&mut self.slots, si, pi?);
                match (s, &*p) {
                    (Slot::C(a), Slot::C(b)) => {
                        match h % 7 {
                            0 => a.extend(b.iter()),
                            1 => a.extend(b.as_slice().iter()),
                            2 => a.extend(b.as_slice().into_iter()),
                            3 => a.extend(Odd(b.iter(), 0)),
                            4 => a.extend(Odd(b.iter(), 1)),
                            5 => a.extend(Odd(b.as_slice().iter(), 3)),
                            _ => a.extend(Odd(b.as_slice().into_iter(), 20)),
                        }
                        r("ok")
                    }
                    (Slot::E(a), Slot::C(b)) => with_cap!(a.cap(), sized, V => {
                        V::of_copy_mut(a)?.extend(b.iter().map(|v| V::up_cref(v).unwrap()));
                        r("ok")
                    }),
                    (Slot::E(a), Slot::E(b)) => with_cap!(a.cap(), all, V => {
                        let (a, b) = (V::of_copy_mut(a)?, V::of_copy(b)?);
                        match h % 3 {
                            0 => a.extend(b.iter()),
                            1 => a.extend(Odd(b.as_slice().iter(), h % 4)),
                            _ => a.extend((0..b.len()).map(|k| b.get_ref(k))),
                        }
                        r("ok")
                    }),
                    _ => return None,
                }
            }
            "extmix" => {
                let ty = ty?;
                let v = *o.vs.first()?;
                let (s, p) = two(&mut self.slots, si, pi?);
                match (s, &*p) {
                    (Slot::C(a), Slot::C(b)) => extmix(a, b, sty, ty, v, j, h)?,
                    (Slot::E(a), Slot::E(b)) => with_cap!(a.cap(), sized, V => extmix(V::of_copy_mut(a)?, V::of_copy(b)?, sty, ty, v, j, h)?),
                    _ => return None,
                }
            }
            "colmix" => {
                let ty = ty?;
                let v = *o.vs.first()?;
                let (s, p) = two(&mut self.slots, si, pi?);
                if o.p.as_bytes()[0] != kind {
                    return None;
                }
                *p = match s {
                    Slot::C(a) => Slot::C(colmix(a, ty, v, j, h)?),
                    Slot::E(a) => with_cap!(a.cap(), sized, V => Slot::E(V::wrap_copy(colmix(V::of_copy(a)?, ty, v, j, h)?))),
                    _ => return None,
                };
                r("ok")
            }
            "rotl" | "rotr" => {
                match &mut self.slots[si].1 {
                    Slot::D(d) => if o.op == "rotl" { d.rotate_left(i) } else { d.rotate_right(i) },
                    Slot::C(d) => if o.op == "rotl" { d.rotate_left(i) } else { d.rotate_right(i) },
                    Slot::U(u) => each_up!(u, d => if o.op == "rotl" { d.rotate_left(i) } else { d.rotate_right(i) }),
                    Slot::E(u) => each_upc!(u, d => if o.op == "rotl" { d.rotate_left(i) } else { d.rotate_right(i) }),
                    _ => return None,
                }
                r("ok")
            }
            "reserve" => match &mut self.slots[si].1 {
                Slot::C(d) => {
                    d.reserve(i);
                    if d.capacity() < d.len().saturating_add(i) {
                        crate::reg::reg().bad("reserved capacity");
                    }
                    r("ok")
                }
                Slot::E(u) => each_upc!(u, d => {
                    d.reserve(i);
                    if d.capacity() < d.len().saturating_add(i) {
                        crate::reg::reg().bad("reserved capacity");
                    }
                    r("ok")
                }),
                _ => return None,
            },
            "get" => {
                let ty = ty?;
                self.get(si, ty, i, h)?
            }
            "set" => {
                let ty = ty?;
                self.set(si, ty, i, *o.vs.first()?, h)?
            }
            "cfs" => {
                let ty = ty?;
                match &mut self.slots[si].1 {
                    Slot::C(d) => with_copy!(ty, T => {
                        let v: Vec<T> = mkvec(&o.vs);
                        match h % 2 {
                            0 => rs(d.copy_from_slice(&v).is_some()),
                            _ => rs(d.as_mut_slice().copy_from_slice(&v).is_some()),
                        }
                    }, else return None),
                    Slot::E(u) => each_upc!(u, d => with_copy!(ty, T => {
                        let v: Vec<T> = mkvec(&o.vs);
                        match h % 2 {
                            0 => rs(d.copy_from_slice(&v).is_some()),
                            _ => rs(d.as_mut_slice().copy_from_slice(&v).is_some()),
                        }
                    }, else return None)),
                    Slot::D(d) => with_ty!(ty, T => {
                        let v: Vec<T> = mkvec(&o.vs);
                        rs(d.as_mut_slice().clone_from_slice(&v).is_some())
                    }),
                    _ => return None,
                }
            }
            "tovec" => {
                let ty = ty?;
                if !o.p.starts_with('t') {
                    return None;
                }
                let out: Option<Slot> = match &mut self.slots[si].1 {
                    Slot::D(d) => with_ty!(ty, T => match h % 3 {
                        0 => d.clone_into_vec::<T>(),
                        1 => d.as_slice().clone_into_vec::<T>(),
                        _ => d.as_mut_slice().clone_into_vec::<T>(),
                    }.map(|v| Slot::T(ty, Box::new(v)))),
                    Slot::C(d) => with_copy!(ty, T => match h % 3 {
                        0 => d.copy_into_vec::<T>(),
                        1 => d.as_slice().copy_into_vec::<T>(),
                        _ => d.as_mut_slice().copy_into_vec::<T>(),
                    }.map(|v| Slot::T(ty, Box::new(v))), else return None),
                    Slot::E(u) => each_upc!(u, d => with_copy!(ty, T => match h % 3 {
                        0 => d.copy_into_vec::<T>(),
                        1 => d.as_slice().copy_into_vec::<T>(),
                        _ => d.as_mut_slice().copy_into_vec::<T>(),
                    }.map(|v| Slot::T(ty, Box::new(v))), else return None)),
                    Slot::U(Up::Clone(d)) => with_ty!(ty, T => d.clone_into_vec::<T>().map(|v| Slot::T(ty, Box::new(v)))),
                    _ => return None,
                };
                match out {
                    Some(s) => {
                        self.slots[pi?].1 = s;
                        r("some")
                    }
                    None => r("none"),
                }
            }
            "appvec" => {
                let (s, p) = two(&mut self.slots, si, pi?);
                let (t, v) = match p {
                    Slot::T(t, v) => (*t, v),
                    _ => return None,
                };
                match s {
                    Slot::D(d) => with_ty!(t, T => {
                        let v = tvec_mut::<T>(&mut **v);
                        rs(match h % 3 {
                            0 => d.append_cloned_to_vec::<T>(v).is_some(),
                            1 => d.as_slice().append_clone_to_vec::<T>(v).is_some(),
                            _ => d.as_mut_slice().append_clone_to_vec::<T>(v).is_some(),
                        })
                    }),
                    Slot::E(u) => each_upc!(u, d => with_copy!(t, T => {
                        let v = tvec_mut::<T>(&mut **v);
                        rs(match h % 3 {
                            0 => d.append_copy_to_vec::<T>(v).is_some(),
                            1 => d.as_slice().append_copy_to_vec::<T>(v).is_some(),
                            _ => d.as_mut_slice().append_copy_to_vec::<T>(v).is_some(),
                        })
                    }, else return None)),
                    Slot::C(d) => with_copy!(t, T => {
                        let v = tvec_mut::<T>(&mut **v);
                        rs(match h % 3 {
                            0 => d.append_copy_to_vec::<T>(v).is_some(),
                            1 => d.as_slice().append_copy_to_vec::<T>(v).is_some(),
                            _ => d.as_mut_slice().append_copy_to_vec::<T>(v).is_some(),
                        })
                    }, else return None),
                    _ => return None,
                }
            }
            "swap" => {
                let (s, p) = two(&mut self.slots, si, pi?);
                let j = idx(o.j, p.ty().map(|t| info(t).size).unwrap_or(1));
                if is_e(s) || is_e(p) {
                    with_cap!(meet(s, p)?, all, V => ucmut::<V, _>(s, i, h, |mut a| ucmut::<V, _>(p, j, h / 2, |mut b| a.swap(&mut b)))??);
                } else if is_u(s) || is_u(p) {
                    with_cap!(meet(s, p)?, all, V => umut::<V>(s, i, h)?.swap(&mut umut::<V>(p, j, h / 2)?));
                } else if is_c(s) || is_c(p) {
                    let mut a = cmut(s, i, h)?;
                    let mut b = cmut(p, j, h)?;
                    if h % 3 == 0 {
                        let mut a: ValueMut<(DropFn, FV)> = a.into();
                        a.swap(&mut b.into());
                    } else {
                        a.swap(&mut b);
                    }
                } else {
                    let mut a = vmut(s, i, h)?;
                    let mut b = vmut(p, j, h / 3)?;
                    match h % 4 {
                        0 => a.upcast_mut::<DropVTable>().swap(&mut b.upcast_mut()),
                        1 => a.reborrow_mut().swap(&mut b),
                        _ => a.swap(&mut b),
                    }
                }
                r("ok")
            }
            "assign" => {
                let pi = pi?;
                if !matches!(self.slots[pi].1, Slot::B(_) | Slot::S(_) | Slot::X(_) | Slot::Y(_)) {
                    return None;
                }
                let (s, p) = two(&mut self.slots, si, pi);
                if is_u(s) || is_u(p) {
                    with_cap!(meet(s, p)?, sized, V => {
                        let mut m = umut::<V>(s, i, h)?;
                        match p.take() {
                            Slot::B(b) => m.assign(V::up_box(b)?),
                            Slot::S(b) => m.assign(V::up_small(b)?),
                            Slot::X(b) => m.assign(V::take_box(b)?),
                            Slot::Y(b) => m.assign(V::take_small(b)?),
                            _ => return None,
                        }
                    });
                    return Some(r("ok"));
                }
                let mut m = vmut(s, i, h)?;
                match p.take() {
                    Slot::B(b) => m.assign(b),
                    Slot::S(b) => m.assign(b),
                    _ => return None,
                }
                r("ok")
            }
            "clonefrom" => {
                let (s, p) = two(&mut self.slots, si, pi?);
                let j = idx(o.j, p.ty().map(|t| info(t).size).unwrap_or(1));
                let res = if is_e(s) || is_e(p) {
                    with_cap!(meet(s, p)?, ["clone" CloneVTable], V => {
                        let other: ValueRef<(DropFn, V)> = ucref::<V>(p, j, h / 2)?.into();
                        ucmut::<V, _>(s, i, h, |m| {
                            let mut m: ValueMut<(DropFn, V)> = m.into();
                            m.clone_from_other(other)
                        })?
                    })
                } else if is_u(s) || is_u(p) {
                    with_cap!(meet(s, p)?, ["clone" CloneVTable, "dyn" dyn HasFull], V =>
                        umut::<V>(s, i, h)?.clone_from_other(uref::<V>(p, j, h / 2)?))
                } else if is_c(s) || is_c(p) {
                    let mut m: ValueMut<(DropFn, FV)> = cmut(s, i, h)?.into();
                    let other: ValueRef<(DropFn, FV)> = cref(p, j, h / 2)?.into();
                    m.clone_from_other(other)
                } else {
                    let mut m = vmut(s, i, h)?;
                    match h % 2 {
                        0 => m.clone_from_other(vref(p, j, h / 3)?),
                        _ => m.clone_from_other(vmut(p, j, h / 3)?),
                    }
                };
                match res {
                    Ok(()) => r("ok"),
                    // The error tells the types involved.
                    Err(Error::MismatchedTypes { expected, actual }) => {
                        let name = |t| names.iter().find(|x| info(x.1).tid == t).map(|x| &*x.0).unwrap_or("?");
                        Res { k: "err".into(), v: vec![], t: format!("{}>{}", name(expected), name(actual)) }
                    }
                    Err(_) => r("error"),
                }
            }
            "copyval" => {
                let (s, p) = two(&mut self.slots, si, pi?);
                let j = idx(o.j, p.ty().map(|t| info(t).size).unwrap_or(1));
                if is_e(s) || is_e(p) {
                    return Some(with_cap!(meet(s, p)?, all, V => {
                        let other = ucref::<V>(p, j, h / 2)?;
                        rs(ucmut::<V, _>(s, i, h, |m| m.copy(other).is_some())?)
                    }));
                }
                let m = cmut(s, i, h)?;
                rs(m.copy(cref(p, j, h / 3)?).is_some())
            }
            "boxof" => {
                if o.p.starts_with('x') {
                    let s = &mut self.slots[si].1;
                    let new = with_cap!(s.cap(), ["clone" CloneVTable], V => V::wrap_box(match h % 2 {
                        0 => uref::<V>(s, i, h / 2)?.clone_value(),
                        _ => umut::<V>(s, i, h / 2)?.clone_value(),
                    })?);
                    self.slots[pi?].1 = Slot::X(new);
                    return Some(r("ok"));
                }
                if !o.p.starts_with('b') || kind == b'c' {
                    return None;
                }
                let new = match h % 2 {
                    0 => vref(&self.slots[si].1, i, h)?.clone_value(),
                    _ => vmut(&mut self.slots[si].1, i, h)?.clone_value(),
                };
                self.slots[pi?].1 = Slot::B(new);
                r("ok")
            }
            "smallof" => {
                if o.p.starts_with('y') {
                    let s = &mut self.slots[si].1;
                    let new = with_cap!(s.cap(), ["clone" CloneVTable], V => V::wrap_small(match h % 2 {
                        0 => uref::<V>(s, i, h / 2)?.clone_small_value(),
                        _ => umut::<V>(s, i, h / 2)?.clone_small_value(),
                    })?);
                    self.slots[pi?].1 = Slot::Y(new);
                    return Some(r("ok"));
                }
                if !o.p.starts_with('s') || kind == b'c' {
                    return None;
                }
                let new = match h % 2 {
                    0 => vref(&self.slots[si].1, i, h)?.clone_small_value(),
                    _ => vmut(&mut self.slots[si].1, i, h)?.clone_small_value(),
                };
                self.slots[pi?].1 = Slot::S(new);
                r("ok")
            }
            "down" => {
                let ty = ty?;
                if !o.p.starts_with('t') || !matches!(kind, b'b' | b's' | b'x' | b'y') {
                    return None;
                }
                let s = self.slots[si].1.take();
                let out: Option<Slot> = with_ty!(ty, T => {
                    let v: Option<Vec<T>> = match s {
                        Slot::B(b) => match h % 2 {
                            0 => b.downcast::<T>().map(|x| vec![*x]),
                            _ => b.upcast::<DropVTable>().downcast::<T>().map(|x| vec![*x]),
                        },
                        Slot::S(b) => match h % 2 {
                            0 => b.downcast::<T>().map(|x| vec![x]),
                            _ => b.upcast::<DropVTable>().downcast::<T>().map(|x| vec![x]),
                        },
                        Slot::X(u) => each_val!(u, UpBox, b => b.downcast::<T>().map(|x| vec![*x])),
                        Slot::Y(u) => each_val!(u, UpSmall, b => b.downcast::<T>().map(|x| vec![x])),
                        _ => None,
                    };
                    v.map(|v| Slot::T(ty, Box::new(v)))
                });
                match out {
                    Some(s) => {
                        self.slots[pi?].1 = s;
                        r("some")
                    }
                    None => r("none"),
                }
            }
            "eq" if pi == Some(si) => rb(match &self.slots[si].1 {
                Slot::D(a) => match h % 3 {
                    0 => *a == *a,
                    1 => a.as_slice() == a.as_slice(),
                    _ => !(*a != *a),
                },
                Slot::B(a) => if h % 2 == 0 { *a == *a } else { a.as_ref() == a.as_ref() },
                Slot::S(a) => if h % 2 == 0 { *a == *a } else { a.as_ref() == a.as_ref() },
                Slot::X(UpBox::PEq(a)) => *a == *a,
                Slot::X(UpBox::Eq(a)) => *a == *a,
                Slot::Y(UpSmall::PEq(a)) => *a == *a,
                Slot::Y(UpSmall::Eq(a)) => *a == *a,
                Slot::U(Up::PEq(a)) => *a == *a,
                Slot::U(Up::Eq(a)) => *a == *a,
                Slot::U(Up::Dyn(a)) => *a == *a,
                _ => return None,
            }),
            "eq" => {
                let (s, p) = two(&mut self.slots, si, pi?);
                match (s, p) {
                    (Slot::D(a), Slot::D(b)) => rb(match h % 4 {
                        0 => *a == *b,
                        1 => a.as_slice() == b.as_slice(),
                        2 => a.as_mut_slice() == b.as_mut_slice(),
                        _ => !(*a != *b),
                    }),
                    (Slot::B(a), Slot::B(b)) => rb(match h % 3 {
                        0 => *a == *b,
                        1 => a.as_ref() == b.as_ref(),
                        _ => a.as_mut() == b.as_mut(),
                    }),
                    (Slot::S(a), Slot::S(b)) => rb(match h % 3 {
                        0 => *a == *b,
                        1 => a.as_ref() == b.as_ref(),
                        _ => a.as_mut() == b.as_mut(),
                    }),
                    (Slot::X(UpBox::PEq(a)), Slot::X(UpBox::PEq(b))) => rb(*a == *b),
                    (Slot::X(UpBox::Eq(a)), Slot::X(UpBox::Eq(b))) => rb(*a == *b),
                    (Slot::Y(UpSmall::PEq(a)), Slot::Y(UpSmall::PEq(b))) => rb(*a == *b),
                    (Slot::Y(UpSmall::Eq(a)), Slot::Y(UpSmall::Eq(b))) => rb(*a == *b),
                    (Slot::U(Up::PEq(a)), Slot::U(Up::PEq(b))) => rb(*a == *b),
                    (Slot::U(Up::Eq(a)), Slot::U(Up::Eq(b))) => rb(*a == *b),
                    (Slot::U(Up::Dyn(a)), Slot::U(Up::Dyn(b))) => rb(*a == *b),
                    _ => return None,
                }
            }
            "eqv" => {
                let (s, p) = (&self.slots[si].1, &self.slots[pi?].1);
                let j = idx(o.j, p.ty().map(|t| info(t).size).unwrap_or(1));
                if is_e(s) || is_e(p) {
                    with_cap!(meet(s, p)?, ["partialeq" PartialEqVTable, "eq" EqVTable, "dyn" dyn HasFull], V =>
                        rb(ucref::<V>(s, i, h)? == ucref::<V>(p, j, h / 2)?))
                } else if is_u(s) || is_u(p) {
                    with_cap!(meet(s, p)?, ["partialeq" PartialEqVTable, "eq" EqVTable, "dyn" dyn HasFull], V =>
                        rb(uref::<V>(s, i, h)? == uref::<V>(p, j, h / 2)?))
                } else if is_c(s) || is_c(p) {
                    let (a, b) = (cref(s, i, h)?, cref(p, j, h / 2)?);
                    match h % 3 {
                        0 => {
                            let (a, b): (ValueRef<(DropFn, FV)>, ValueRef<(DropFn, FV)>) = (a.into(), b.into());
                            rb(a == b)
                        }
                        1 => rb(a.upcast::<EqVTable>() == b.upcast::<EqVTable>()),
                        _ => rb(a == b),
                    }
                } else {
                    let (a, b) = (vref(s, i, h)?, vref(p, j, h / 3)?);
                    match h % 3 {
                        0 => rb(a.upcast::<PartialEqVTable>() == b.upcast::<PartialEqVTable>()),
                        1 => rb(a.upcast::<EqVTable>() == b.upcast::<EqVTable>()),
                        _ => rb(a == b),
                    }
                }
            }
            "hash" => rv("vals", match &mut self.slots[si].1 {
                Slot::D(d) => hash_of(d),
                Slot::B(b) => match h % 3 { 0 => hash_of(b), 1 => hash_of(&b.as_ref()), _ => hash_of(&b.as_mut()) },
                Slot::S(b) => match h % 3 { 0 => hash_of(b), 1 => hash_of(&b.as_ref()), _ => hash_of(&b.as_mut()) },
                Slot::X(UpBox::Hash(d)) => hash_of(d),
                Slot::Y(UpSmall::Hash(d)) => hash_of(d),
                Slot::U(Up::Hash(d)) => hash_of(d),
                Slot::U(Up::Dyn(d)) => hash_of(d),
                _ => return None,
            }),
            "hashv" => rv("vals", match &mut self.slots[si].1 {
                Slot::C(c) => match h % 4 {
                    0 => hash_of(&c.get_ref(i)),
                    1 => hash_of(&c.get_mut(i)),
                    2 => hash_of(&ValueRef::<(DropFn, FV)>::from(c.get_ref(i))),
                    _ => hash_of(&c.get_ref(i).upcast::<HashVTable>()),
                },
                s @ Slot::E(_) => with_cap!(s.cap(), ["hash" HashVTable, "dyn" dyn HasFull], V => match h % 2 {
                    0 => hash_of(&ucref::<V>(s, i, h / 2)?),
                    _ => ucmut::<V, _>(s, i, h / 2, |m| hash_of(&m))?,
                }),
                s @ (Slot::U(_) | Slot::X(_) | Slot::Y(_)) => with_cap!(s.cap(), ["hash" HashVTable, "dyn" dyn HasFull], V => match h % 2 {
                    0 => hash_of(&uref::<V>(s, i, h / 2)?),
                    _ => hash_of(&umut::<V>(s, i, h / 2)?),
                }),
                s => match h % 3 {
                    0 => hash_of(&vref(s, i, h / 3)?),
                    1 => hash_of(&vmut(s, i, h / 3)?),
                    _ => hash_of(&vref(s, i, h / 3)?.upcast::<HashVTable>()),
                },
            }),
            "dbg" => rt(match &mut self.slots[si].1 {
                Slot::D(d) => match h % 3 {
                    0 => dbg_of(d, &o.how),
                    1 => dbg_of(&d.as_slice(), &o.how),
                    _ => dbg_of(&d.as_mut_slice(), &o.how),
                },
                Slot::U(Up::Dbg(d)) => dbg_of(d, &o.how),
                Slot::U(Up::Dyn(d)) => dbg_of(d, &o.how),
                _ => return None,
            }),
            "dbgv" => rt(match &mut self.slots[si].1 {
                Slot::B(b) if h % 2 == 0 && i == 0 => dbg_of(b, &o.how),
                Slot::S(b) if h % 2 == 0 && i == 0 => dbg_of(b, &o.how),
                Slot::C(c) => match h % 4 {
                    0 => dbg_of(&c.get_ref(i), &o.how),
                    1 => dbg_of(&c.get_mut(i), &o.how),
                    2 => dbg_of(&ValueRef::<(DropFn, FV)>::from(c.get_ref(i)), &o.how),
                    _ => dbg_of(&c.get_ref(i).upcast::<DebugVTable>(), &o.how),
                },
                Slot::X(UpBox::Dbg(b)) if h % 2 == 0 && i == 0 => dbg_of(b, &o.how),
                Slot::Y(UpSmall::Dbg(b)) if h % 2 == 0 && i == 0 => dbg_of(b, &o.how),
                s @ Slot::E(_) => with_cap!(s.cap(), ["debug" DebugVTable, "dyn" dyn HasFull], V => match h % 2 {
                    0 => dbg_of(&ucref::<V>(s, i, h / 2)?, &o.how),
                    _ => ucmut::<V, _>(s, i, h / 2, |m| dbg_of(&m, &o.how))?,
                }),
                s @ (Slot::U(_) | Slot::X(_) | Slot::Y(_)) => with_cap!(s.cap(), ["debug" DebugVTable, "dyn" dyn HasFull], V => match h % 2 {
                    0 => dbg_of(&uref::<V>(s, i, h / 2)?, &o.how),
                    _ => dbg_of(&umut::<V>(s, i, h / 2)?, &o.how),
                }),
                s => match h % 3 {
                    0 => dbg_of(&vref(s, i, h / 3)?, &o.how),
                    1 => dbg_of(&vmut(s, i, h / 3)?, &o.how),
                    _ => dbg_of(&vref(s, i, h / 3)?.upcast::<DebugVTable>(), &o.how),
                },
            }),
            "up" => {
                if matches!(kind, b'b' | b's') {
                    if !o.p.starts_with(if kind == b'b' { 'x' } else { 'y' }) || o.how == "dyn" {
                        return None;
                    }
                    let s = self.slots[si].1.take();
                    self.slots[pi?].1 = with_cap!(&*o.how, sized, V => match s {
                        Slot::B(b) => Slot::X(V::wrap_box(V::up_box(b)?)?),
                        Slot::S(b) => Slot::Y(V::wrap_small(V::up_small(b)?)?),
                        _ => return None,
                    });
                    return Some(r("ok"));
                }
                if kind == b'c' {
                    if !o.p.starts_with('e') {
                        return None;
                    }
                    let d = match self.slots[si].1.take() {
                        Slot::C(d) => d,
                        _ => return None,
                    };
                    let u = match &*o.how {
                        "clone" if h % 2 == 0 => UpCopy::Clone(d.upcast_with(CloneVTable::from)),
                        "hash" if h % 2 == 0 => UpCopy::Hash(d.upcast_with(|t| t.into())),
                        c => with_cap!(c, all, V => V::wrap_copy(V::up_copy(d))),
                    };
                    self.slots[pi?].1 = Slot::E(u);
                    return Some(r("ok"));
                }
                if kind != b'd' || !o.p.starts_with('u') {
                    return None;
                }
                let d = match self.slots[si].1.take() {
                    Slot::D(d) => d,
                    _ => return None,
                };
                let u = match &*o.how {
                    "drop" => Up::Drop(d.upcast()),
                    "clone" => Up::Clone(d.upcast()),
                    "partialeq" => Up::PEq(d.upcast()),
                    "eq" => Up::Eq(d.upcast()),
                    "hash" => Up::Hash(d.upcast()),
                    "debug" => Up::Dbg(d.upcast()),
                    "dyn" => Up::Dyn(into_dyn![VecDyn<dyn HasFull>](d)),
                    _ => return None,
                };
                self.slots[pi?].1 = Slot::U(u);
                r("ok")
            }
            "undyn" => {
                if matches!(self.slots[si].1, Slot::E(UpCopy::Dyn(_))) && o.p.starts_with('c') {
                    let d = match self.slots[si].1.take() {
                        Slot::E(UpCopy::Dyn(d)) => d,
                        _ => return None,
                    };
                    if o.how == "w" {
                        drop(from_dyn![VecCopy<dyn HasFull as WrongTable>](d));
                        return Some(r("ok"));
                    }
                    self.slots[pi?].1 = Slot::C(from_dyn![VecCopy<dyn HasFull as FullVTable>](d));
                    return Some(r("ok"));
                }
                if !matches!(self.slots[si].1, Slot::U(Up::Dyn(_))) || !o.p.starts_with('d') {
                    return None;
                }
                let d = match self.slots[si].1.take() {
                    Slot::U(Up::Dyn(d)) => d,
                    _ => return None,
                };
                if o.how == "w" {
                    // Must panic, and drop the container.
                    drop(from_dyn![VecDyn<dyn HasFull as WrongTable>](d));
                    return Some(r("ok"));
                }
                self.slots[pi?].1 = Slot::D(from_dyn![VecDyn<dyn HasFull as FullVTable>](d));
                r("ok")
            }
            _ => return None,
        })
    }

    fn make(&mut self, o: &Op, kind: u8, ty: Ty, h: usize) -> Option<(Res, Slot)> {
        let vs = &o.vs;
        match (&*o.op, kind) {
            ("mku", b'e') if o.how == "dyn" => Some((r("ok"), Slot::E(with_copy!(ty, T => {
                let d: VecCopy<FV> = VecCopy::from_vec(mkvec::<T>(vs));
                UpCopy::Dyn(into_dyn![VecCopy<dyn HasFull>](d))
            }, else return None)))),
            ("mku", b'e') => Some((r("ok"), Slot::E(with_copy!(ty, T => with_cap!(&*o.how, sized, V => {
                V::wrap_copy(match h % 6 {
                    0 => VecCopy::<V>::from_vec(mkvec::<T>(vs)),
                    1 => VecCopy::<V>::from(mkvec::<T>(vs)),
                    2 => VecCopy::<V>::from_slice(&mkvec::<T>(vs)),
                    3 if !vs.is_empty() => mkvec::<T>(vs).iter().map(CopyValueRef::<V>::new).collect(),
                    4 => {
                        let mut d = VecCopy::<V>::with_capacity::<T>(vs.len());
                        d.extend(mkvec::<T>(vs).iter().map(CopyValueRef::<V>::new));
                        d
                    }
                    _ => {
                        let mut d = VecCopy::<V>::with_type::<T>();
                        for v in vs {
                            d.push_as(T::new(*v));
                        }
                        d
                    }
                })
            }), else return None)))),
            ("mku", b'u') if o.how == "dyn" => Some((r("ok"), Slot::U(with_ty!(ty, T => {
                let d: VecDyn<FV> = VecDyn::from_vec(mkvec::<T>(vs));
                Up::Dyn(into_dyn![VecDyn<dyn HasFull>](d))
            })))),
            ("mku", b'u') => Some((r("ok"), Slot::U(with_ty!(ty, T => with_cap!(&*o.how, sized, V => {
                V::wrap(match h % 3 {
                    0 => VecDyn::<V>::from_vec(mkvec::<T>(vs)),
                    1 => VecDyn::<V>::from(mkvec::<T>(vs)),
                    _ => {
                        let mut d = VecDyn::<V>::with_type::<T>();
                        for v in vs {
                            d.push_as(T::new(*v));
                        }
                        d
                    }
                })
            }))))),
            ("tv", b't') => with_ty!(ty, T => {
                let mut v: Vec<T> = Vec::with_capacity(vs.len() + h % 3);
                v.extend(vs.iter().map(|v| T::new(*v)));
                Some((r("ok"), Slot::T(ty, Box::new(v))))
            }),
            ("box", b'b') => {
                let v = *vs.first()?;
                Some((r("ok"), Slot::B(with_ty!(ty, T => BoxValue::new(T::new(v))))))
            }
            ("small", b's') => {
                let v = *vs.first()?;
                if o.how == "try" {
                    let s: Option<SmallValue<FV>> = with_ty!(ty, T => SmallValue::try_new(T::new(v)));
                    Some(match s {
                        Some(s) => (r("ok"), Slot::S(s)),
                        None => (r("none"), Slot::Dead),
                    })
                } else {
                    Some((r("ok"), Slot::S(with_ty!(ty, T => SmallValue::new(T::new(v))))))
                }
            }
            ("mk", b'd') => Some((r("ok"), with_ty!(ty, T => {
                let d: VecDyn<FV> = match (&*o.how, h % 7) {
                    ("type", _) => VecDyn::with_type::<T>(),
                    ("cap", _) => VecDyn::with_capacity::<T>(o.i as usize),
                    ("size", _) => VecDyn::with_size::<T>(o.j as usize, T::new(*vs.first()?)),
                    (_, 0) => VecDyn::from_vec(mkvec::<T>(vs)),
                    (_, 1) => VecDyn::from_slice(&mkvec::<T>(vs)),
                    (_, 2) => VecDyn::from(mkvec::<T>(vs)),
                    (_, 3) => VecDyn::from(&mkvec::<T>(vs)[..]),
                    (_, 4) => {
                        let mut d = VecDyn::with_type::<T>();
                        for v in vs {
                            d.push_as(T::new(*v));
                        }
                        d
                    }
                    (_, 5) => {
                        let mut d = VecDyn::with_capacity::<T>(vs.len());
                        for v in vs {
                            d.push(BoxValue::<FV>::new(T::new(*v)));
                        }
                        d
                    }
                    _ => {
                        let mut d = VecDyn::with_type::<T>();
                        for v in vs {
                            let t = T::new(*v);
                            d.push_cloned(ValueRef::new(&t));
                        }
                        d
                    }
                };
                Slot::D(d)
            }))),
            ("mk", b'c') => Some((r("ok"), with_copy!(ty, T => {
                let d: VecCopy<FV> = match (&*o.how, h % 8) {
                    ("type", _) => VecCopy::with_type::<T>(),
                    ("cap", _) => VecCopy::with_capacity::<T>(o.i as usize),
                    ("size", _) => VecCopy::with_size::<T>(o.j as usize, T::new(*vs.first()?)),
                    (_, 0) => VecCopy::from_vec(mkvec::<T>(vs)),
                    (_, 1) => VecCopy::from_slice(&mkvec::<T>(vs)),
                    (_, 2) => VecCopy::from(mkvec::<T>(vs)),
                    (_, 3) => VecCopy::from(&mkvec::<T>(vs)[..]),
                    (_, 4) => {
                        let mut d = VecCopy::with_type::<T>();
                        for v in vs {
                            d.push_as(T::new(*v));
                        }
                        d
                    }
                    (_, 5) => {
                        let mut d = VecCopy::with_capacity::<T>(vs.len());
                        for v in vs {
                            d.push(CopyValueRef::<FV>::new(&T::new(*v)));
                        }
                        d
                    }
                    (_, 6) if !vs.is_empty() => {
                        let v = mkvec::<T>(vs);
                        v.iter().map(CopyValueRef::<FV>::new).collect()
                    }
                    _ => {
                        let mut d = VecCopy::with_type::<T>();
                        let v = mkvec::<T>(vs);
                        d.extend(v.iter().map(CopyValueRef::<FV>::new));
                        d
                    }
                };
                Slot::C(d)
            }, else return None))),
            _ => None,
        }
    }

    fn get(&mut self, si: usize, ty: Ty, i: usize, h: usize) -> Option<Res> {
        fn v1<T: El>(r: Option<&T>) -> Res {
            match r {
                Some(e) => {
                    e.id();
                    rv("val", vec![e.val() as i64])
                }
                None => crate::core::r("none"),
            }
        }
        Some(match &mut self.slots[si].1 {
            Slot::D(d) => with_ty!(ty, T => match h % 11 {
                0 => v1(d.get_ref_as::<T>(i)),
                1 => v1(d.get_mut_as::<T>(i).map(|x| &*x)),
                2 => v1(d.get(i).downcast::<T>()),
                3 => v1(d.get_mut(i).downcast::<T>().map(|x| &*x)),
                4 => v1(d.as_slice().get_as::<T>(i)),
                5 => v1(d.as_slice().get(i).downcast::<T>()),
                6 => v1(d.as_mut_slice().get_as::<T>(i).map(|x| &*x)),
                7 => v1(d.as_mut_slice().get(i).downcast::<T>()),
                8 => v1(d.as_mut_slice().get_mut(i).downcast::<T>().map(|x| &*x)),
                9 => v1(d.as_slice_as::<T>().map(|s| &s[i])),
                _ => v1(d.iter_as::<T>().map(|mut s| s.nth(i).unwrap())),
            }),
            Slot::C(d) => with_copy!(ty, T => match h % 11 {
                0 => v1(d.get_ref_as::<T>(i)),
                1 => v1(d.get_mut_as::<T>(i).map(|x| &*x)),
                2 => v1(d.get_ref(i).downcast::<T>()),
                3 => v1(d.get_mut(i).downcast::<T>().map(|x| &*x)),
                4 => v1(d.as_slice().get_as::<T>(i)),
                5 => v1(d.as_slice().get(i).downcast::<T>()),
                6 => v1(d.as_mut_slice().get_as::<T>(i).map(|x| &*x)),
                7 => v1(d.as_mut_slice().get(i).downcast::<T>()),
                8 => v1(d.as_mut_slice().get_mut(i).downcast::<T>().map(|x| &*x)),
                9 => v1(d.get_as::<T>(i).as_ref()),
                _ => v1(d.iter_as::<T>().map(|mut s| s.nth(i).unwrap())),
            }, else return None),
            Slot::X(u) if i == 0 => each_val!(u, UpBox, b => with_ty!(ty, T => match h % 2 {
                0 => v1(b.as_ref().downcast::<T>()),
                _ => v1(b.as_mut().downcast::<T>().map(|x| &*x)),
            })),
            Slot::Y(u) if i == 0 => each_val!(u, UpSmall, b => with_ty!(ty, T => match h % 2 {
                0 => v1(b.as_ref().downcast::<T>()),
                _ => v1(b.as_mut().downcast::<T>().map(|x| &*x)),
            })),
            Slot::E(u) => each_upc!(u, d => with_copy!(ty, T => match h % 7 {
                0 => v1(d.get_ref_as::<T>(i)),
                1 => v1(d.get_mut_as::<T>(i).map(|x| &*x)),
                2 => v1(d.get_ref(i).downcast::<T>()),
                3 => v1(d.get_mut(i).downcast::<T>().map(|x| &*x)),
                4 => v1(d.as_slice().get(i).downcast::<T>()),
                5 => v1(d.as_mut_slice().get_mut(i).downcast::<T>().map(|x| &*x)),
                _ => v1(d.get_as::<T>(i).as_ref()),
            }, else return None)),
            Slot::U(u) => each_up!(u, d => with_ty!(ty, T => match h % 7 {
                0 => v1(d.get_ref_as::<T>(i)),
                1 => v1(d.get_mut_as::<T>(i).map(|x| &*x)),
                2 => v1(d.get(i).downcast::<T>()),
                3 => v1(d.get_mut(i).downcast::<T>().map(|x| &*x)),
                4 => v1(d.as_slice().get(i).downcast::<T>()),
                5 => v1(d.as_mut_slice().get_mut(i).downcast::<T>().map(|x| &*x)),
                _ => v1(d.as_slice_as::<T>().map(|s| &s[i])),
            })),
            Slot::T(..) => return None,
            s => with_ty!(ty, T => match h % 2 {
                0 => v1(vref(s, i, 0)?.downcast::<T>()),
                _ => v1(vmut(s, i, 0)?.downcast::<T>().map(|x| &*x)),
            }),
        })
    }

    fn set(&mut self, si: usize, ty: Ty, i: usize, v: u8, h: usize) -> Option<Res> {
        fn w<T: El>(r: Option<&mut T>, v: u8) -> Res {
            match r {
                Some(e) => {
                    *e = T::new(v);
                    crate::core::r("some")
                }
                None => crate::core::r("none"),
            }
        }
        Some(match &mut self.slots[si].1 {
            Slot::D(d) => with_ty!(ty, T => match h % 7 {
                0 => w(d.get_mut_as::<T>(i), v),
                1 => w(d.get_mut(i).downcast::<T>(), v),
                2 => w(d.as_mut_slice().get_as::<T>(i), v),
                3 => w(d.as_mut_slice().get_mut(i).downcast::<T>(), v),
                4 => w(d.as_mut_slice_as::<T>().map(|s| &mut s[i]), v),
                5 => w(d.as_mut_slice().as_slice::<T>().map(|s| &mut s[i]), v),
                _ => w(d.iter_mut_as::<T>().map(|mut s| s.nth(i).unwrap()), v),
            }),
            Slot::C(d) => with_copy!(ty, T => match h % 7 {
                0 => w(d.get_mut_as::<T>(i), v),
                1 => w(d.get_mut(i).downcast::<T>(), v),
                2 => w(d.as_mut_slice().get_as::<T>(i), v),
                3 => w(d.as_mut_slice().get_mut(i).downcast::<T>(), v),
                4 => w(d.as_mut_slice_as::<T>().map(|s| &mut s[i]), v),
                5 => w(d.as_mut_slice().as_slice::<T>().map(|s| &mut s[i]), v),
                _ => w(d.iter_mut_as::<T>().map(|mut s| s.nth(i).unwrap()), v),
            }, else return None),
            Slot::T(..) => return None,
            Slot::U(u) => each_up!(u, d => with_ty!(ty, T => w(d.get_mut_as::<T>(i), v))),
            Slot::E(u) => each_upc!(u, d => with_copy!(ty, T => match h % 3 {
                0 => w(d.get_mut_as::<T>(i), v),
                1 => w(d.get_mut(i).downcast::<T>(), v),
                _ => w(d.as_mut_slice().get_as::<T>(i), v),
            }, else return None)),
            Slot::X(u) if i == 0 => each_val!(u, UpBox, b => with_ty!(ty, T => w(b.as_mut().downcast::<T>(), v))),
            Slot::Y(u) if i == 0 => each_val!(u, UpSmall, b => with_ty!(ty, T => w(b.as_mut().downcast::<T>(), v))),
            s => with_ty!(ty, T => w(vmut(s, i, 0)?.downcast::<T>(), v)),
        })
    }
}

fn from_c(ty: Ty, v: Box<dyn std::any::Any>, h: usize) -> Slot {
    with_copy!(ty, T => {
        let v: Vec<T> = *v.downcast::<Vec<T>>().ok().unwrap();
        Slot::C(if h % 2 == 0 { VecCopy::from_vec(v) } else { VecCopy::from(v) })
    }, else unreachable!())
}

/// Extends by the elements of `b` and, after the first `j` of them, one more of type `ty`.
fn extmix<V: NewCref + Clone>(a: &mut VecCopy<V>, b: &VecCopy<V>, sty: Ty, ty: Ty, v: u8, j: usize, h: usize) -> Option<Res> {
    with_copy!(ty, W => {
        let odd = W::new(v);
        let mut items: Vec<CopyValueRef<V>> = b.iter().collect();
        let j = j.min(items.len());
        items.insert(j, V::new_cref(&odd));
        let n = a.len();
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match h % 3 {
            0 => a.extend(items),
            1 => a.extend(Odd(items.into_iter(), h % 4)),
            _ => a.extend(items.iter().cloned()),
        }));
        if let Err(e) = out {
            if e.is::<crate::reg::UserPanic>() {
                std::panic::resume_unwind(e);
            }
            // What came before the wrong element may have been added, but nothing else.
            with_copy!(sty, T => {
                let new: Vec<u8> = a.as_slice_as::<T>()?[n..].iter().map(|e| e.val()).collect();
                let mut old: Vec<u8> = match b.as_slice_as::<T>() { Some(s) => s[..j].iter().map(|e| e.val()).collect(), None => vec![] };
                if ty == sty && old.len() == j {
                    old.push(v);
                }
                if !old.starts_with(&new) {
                    crate::reg::reg().bad("elements after a refused extension");
                }
                a.resize::<T>(n, T::new(0));
            }, else return None);
            return Some(r("panic"));
        }
        Some(r("ok"))
    }, else None)
}
fn colmix<V: NewCref + Clone>(a: &VecCopy<V>, ty: Ty, v: u8, j: usize, h: usize) -> Option<VecCopy<V>> {
    with_copy!(ty, W => {
        let odd = W::new(v);
        let mut items: Vec<CopyValueRef<V>> = a.iter().collect();
        let j = j.min(items.len());
        items.insert(j, V::new_cref(&odd));
        Some(match h % 3 {
            0 => items.into_iter().collect(),
            1 => Odd(items.into_iter(), h % 4).collect(),
            _ => items.iter().cloned().collect(),
        })
    }, else None)
}
