//! Slots, operations and observations shared by all the drivers.
use crate::mem::Track;
use crate::reg::reg;
use crate::types::*;
use crate::{with_copy, with_ty};
use dync::traits::*;
use dync::*;
use std::any::Any;
use std::hash::{Hash, Hasher};

pub type FV = FullVTable;
/// A table type that no container of the harness has.
pub type WrongTable = (DropFn, FullVTable);
impl HasFull for WrongTable {}

pub enum Up {
    Drop(VecDyn<DropVTable>),
    Clone(VecDyn<CloneVTable>),
    PEq(VecDyn<PartialEqVTable>),
    Eq(VecDyn<EqVTable>),
    Hash(VecDyn<HashVTable>),
    Dbg(VecDyn<DebugVTable>),
    Dyn(VecDyn<dyn HasFull>),
}

#[macro_export]
macro_rules! each_up {
    ($u:expr, $v:ident => $e:expr) => {
        match $u {
            Up::Drop($v) => $e,
            Up::Clone($v) => $e,
            Up::PEq($v) => $e,
            Up::Eq($v) => $e,
            Up::Hash($v) => $e,
            Up::Dbg($v) => $e,
            Up::Dyn($v) => $e,
        }
    };
}

pub enum UpCopy {
    Drop(VecCopy<DropVTable>),
    Clone(VecCopy<CloneVTable>),
    PEq(VecCopy<PartialEqVTable>),
    Eq(VecCopy<EqVTable>),
    Hash(VecCopy<HashVTable>),
    Dbg(VecCopy<DebugVTable>),
    Dyn(VecCopy<dyn HasFull>),
}
#[macro_export]
macro_rules! each_upc {
    ($u:expr, $v:ident => $e:expr) => {
        match $u {
            UpCopy::Drop($v) => $e,
            UpCopy::Clone($v) => $e,
            UpCopy::PEq($v) => $e,
            UpCopy::Eq($v) => $e,
            UpCopy::Hash($v) => $e,
            UpCopy::Dbg($v) => $e,
            UpCopy::Dyn($v) => $e,
        }
    };
}
impl UpCopy {
    pub fn cap(&self) -> &'static str {
        match self {
            UpCopy::Drop(_) => "drop",
            UpCopy::Clone(_) => "clone",
            UpCopy::PEq(_) => "partialeq",
            UpCopy::Eq(_) => "eq",
            UpCopy::Hash(_) => "hash",
            UpCopy::Dbg(_) => "debug",
            UpCopy::Dyn(_) => "dyn",
        }
    }
}

/// Owned values seen through one capability.
macro_rules! up_value {
    ($n:ident, $v:ident) => {
        pub enum $n {
            Drop($v<DropVTable>),
            Clone($v<CloneVTable>),
            PEq($v<PartialEqVTable>),
            Eq($v<EqVTable>),
            Hash($v<HashVTable>),
            Dbg($v<DebugVTable>),
        }
        impl $n {
            pub fn cap(&self) -> &'static str {
                match self {
                    $n::Drop(_) => "drop",
                    $n::Clone(_) => "clone",
                    $n::PEq(_) => "partialeq",
                    $n::Eq(_) => "eq",
                    $n::Hash(_) => "hash",
                    $n::Dbg(_) => "debug",
                }
            }
        }
    };
}
up_value!(UpBox, BoxValue);
up_value!(UpSmall, SmallValue);
#[macro_export]
macro_rules! each_val {
    ($u:expr, $n:ident, $v:ident => $e:expr) => {
        match $u {
            $n::Drop($v) => $e,
            $n::Clone($v) => $e,
            $n::PEq($v) => $e,
            $n::Eq($v) => $e,
            $n::Hash($v) => $e,
            $n::Dbg($v) => $e,
        }
    };
}

/// A table that elements can be seen through: a container of it can be an `Up`.
pub trait Cap: HasDrop {
    fn of(u: &Up) -> Option<&VecDyn<Self>>;
    fn of_mut(u: &mut Up) -> Option<&mut VecDyn<Self>>;
    fn wrap(d: VecDyn<Self>) -> Up;
    // Upcasts from the full table.
    fn of_copy(u: &UpCopy) -> Option<&VecCopy<Self>>;
    fn of_copy_mut(u: &mut UpCopy) -> Option<&mut VecCopy<Self>>;
    fn wrap_copy(d: VecCopy<Self>) -> UpCopy;
    fn up_copy(d: VecCopy<FV>) -> VecCopy<Self>;
    fn up_cref(v: CopyValueRef<FV>) -> Option<CopyValueRef<Self>>;
    fn up_cmut<'b>(v: &'b mut CopyValueMut<FV>) -> Option<CopyValueMut<'b, Self>>;
    fn up_ref(v: ValueRef<FV>) -> Option<ValueRef<Self>>;
    fn up_mut(v: ValueMut<FV>) -> Option<ValueMut<Self>>;
    fn up_box(v: BoxValue<FV>) -> Option<BoxValue<Self>>;
    fn up_small(v: SmallValue<FV>) -> Option<SmallValue<Self>>;
    fn of_box(u: &UpBox) -> Option<&BoxValue<Self>>;
    fn of_box_mut(u: &mut UpBox) -> Option<&mut BoxValue<Self>>;
    fn take_box(u: UpBox) -> Option<BoxValue<Self>>;
    fn wrap_box(v: BoxValue<Self>) -> Option<UpBox>;
    fn of_small(u: &UpSmall) -> Option<&SmallValue<Self>>;
    fn of_small_mut(u: &mut UpSmall) -> Option<&mut SmallValue<Self>>;
    fn take_small(u: UpSmall) -> Option<SmallValue<Self>>;
    fn wrap_small(v: SmallValue<Self>) -> Option<UpSmall>;
}
/// Upcasts must keep what a value says about itself.
macro_rules! same_value {
    ($v:expr) => {{
        let v = $v;
        let m = (v.size(), v.value_alignment(), v.value_type_id());
        let u = v.upcast();
        bad_if((u.size(), u.value_alignment(), u.value_type_id()) != m, "metadata of an upcast value");
        Some(u)
    }};
}
macro_rules! cap {
    ($t:ty, $v:ident) => {
        impl Cap for $t {
            cap!(@of $t, $v);
            fn up_copy(d: VecCopy<FV>) -> VecCopy<Self> { d.upcast() }
            fn up_cref(v: CopyValueRef<FV>) -> Option<CopyValueRef<Self>> { Some(v.upcast()) }
            fn up_cmut<'b>(v: &'b mut CopyValueMut<FV>) -> Option<CopyValueMut<'b, Self>> { Some(v.upcast()) }
            fn up_ref(v: ValueRef<FV>) -> Option<ValueRef<Self>> { Some(v.upcast()) }
            fn up_mut(v: ValueMut<FV>) -> Option<ValueMut<Self>> { Some(v.upcast()) }
            fn up_box(v: BoxValue<FV>) -> Option<BoxValue<Self>> { same_value!(v) }
            fn up_small(v: SmallValue<FV>) -> Option<SmallValue<Self>> { same_value!(v) }
            fn of_box(u: &UpBox) -> Option<&BoxValue<Self>> { if let UpBox::$v(d) = u { Some(d) } else { None } }
            fn of_box_mut(u: &mut UpBox) -> Option<&mut BoxValue<Self>> { if let UpBox::$v(d) = u { Some(d) } else { None } }
            fn take_box(u: UpBox) -> Option<BoxValue<Self>> { if let UpBox::$v(d) = u { Some(d) } else { None } }
            fn wrap_box(v: BoxValue<Self>) -> Option<UpBox> { Some(UpBox::$v(v)) }
            fn of_small(u: &UpSmall) -> Option<&SmallValue<Self>> { if let UpSmall::$v(d) = u { Some(d) } else { None } }
            fn of_small_mut(u: &mut UpSmall) -> Option<&mut SmallValue<Self>> { if let UpSmall::$v(d) = u { Some(d) } else { None } }
            fn take_small(u: UpSmall) -> Option<SmallValue<Self>> { if let UpSmall::$v(d) = u { Some(d) } else { None } }
            fn wrap_small(v: SmallValue<Self>) -> Option<UpSmall> { Some(UpSmall::$v(v)) }
        }
    };
    (@of $t:ty, $v:ident) => {
        fn of(u: &Up) -> Option<&VecDyn<Self>> { if let Up::$v(d) = u { Some(d) } else { None } }
        fn of_mut(u: &mut Up) -> Option<&mut VecDyn<Self>> { if let Up::$v(d) = u { Some(d) } else { None } }
        fn wrap(d: VecDyn<Self>) -> Up { Up::$v(d) }
        fn of_copy(u: &UpCopy) -> Option<&VecCopy<Self>> { if let UpCopy::$v(d) = u { Some(d) } else { None } }
        fn of_copy_mut(u: &mut UpCopy) -> Option<&mut VecCopy<Self>> { if let UpCopy::$v(d) = u { Some(d) } else { None } }
        fn wrap_copy(d: VecCopy<Self>) -> UpCopy { UpCopy::$v(d) }
    };
}
cap!(DropVTable, Drop);
cap!(CloneVTable, Clone);
cap!(PartialEqVTable, PEq);
cap!(EqVTable, Eq);
cap!(HashVTable, Hash);
cap!(DebugVTable, Dbg);
impl Cap for dyn HasFull {
    cap!(@of dyn HasFull, Dyn);
    fn up_copy(d: VecCopy<FV>) -> VecCopy<Self> { into_dyn![VecCopy<dyn HasFull>](d) }
    fn up_cref(_: CopyValueRef<FV>) -> Option<CopyValueRef<Self>> { None }
    fn up_cmut<'b>(_: &'b mut CopyValueMut<FV>) -> Option<CopyValueMut<'b, Self>> { None }
    fn up_ref(_: ValueRef<FV>) -> Option<ValueRef<Self>> { None }
    fn up_mut(_: ValueMut<FV>) -> Option<ValueMut<Self>> { None }
    fn up_box(_: BoxValue<FV>) -> Option<BoxValue<Self>> { None }
    fn up_small(_: SmallValue<FV>) -> Option<SmallValue<Self>> { None }
    fn of_box(_: &UpBox) -> Option<&BoxValue<Self>> { None }
    fn of_box_mut(_: &mut UpBox) -> Option<&mut BoxValue<Self>> { None }
    fn take_box(_: UpBox) -> Option<BoxValue<Self>> { None }
    fn wrap_box(_: BoxValue<Self>) -> Option<UpBox> { None }
    fn of_small(_: &UpSmall) -> Option<&SmallValue<Self>> { None }
    fn of_small_mut(_: &mut UpSmall) -> Option<&mut SmallValue<Self>> { None }
    fn take_small(_: UpSmall) -> Option<SmallValue<Self>> { None }
    fn wrap_small(_: SmallValue<Self>) -> Option<UpSmall> { None }
}

/// A table that a copyable element can be given at once.
pub trait NewCref: Sized {
    fn new_cref<T: CopyEl>(t: &T) -> CopyValueRef<Self>;
}
macro_rules! new_cref {
    ($($t:ty)*) => { $(impl NewCref for $t {
        fn new_cref<T: CopyEl>(t: &T) -> CopyValueRef<Self> { CopyValueRef::new(t) }
    })* };
}
new_cref!(FV DropVTable CloneVTable PartialEqVTable EqVTable HashVTable DebugVTable);

/// Evaluates with the table named by a capability, if it is among those listed.
#[macro_export]
macro_rules! with_cap {
    ($c:expr, [$($n:literal $t:ty),*], $V:ident => $e:expr) => {
        match $c {
            $($n => { type $V = $t; $e })*
            _ => return None,
        }
    };
    ($c:expr, all, $V:ident => $e:expr) => {
        with_cap!($c, ["drop" DropVTable, "clone" CloneVTable, "partialeq" PartialEqVTable, "eq" EqVTable,
            "hash" HashVTable, "debug" DebugVTable, "dyn" dyn HasFull], $V => $e)
    };
    ($c:expr, sized, $V:ident => $e:expr) => {
        with_cap!($c, ["drop" DropVTable, "clone" CloneVTable, "partialeq" PartialEqVTable, "eq" EqVTable,
            "hash" HashVTable, "debug" DebugVTable], $V => $e)
    };
}

impl Up {
    pub fn cap(&self) -> &'static str {
        match self {
            Up::Drop(_) => "drop",
            Up::Clone(_) => "clone",
            Up::PEq(_) => "partialeq",
            Up::Eq(_) => "eq",
            Up::Hash(_) => "hash",
            Up::Dbg(_) => "debug",
            Up::Dyn(_) => "dyn",
        }
    }
}

pub enum Slot {
    Dead,
    D(VecDyn<FV>),
    C(VecCopy<FV>),
    B(BoxValue<FV>),
    S(SmallValue<FV>),
    T(Ty, Box<dyn Any>),
    U(Up),
    X(UpBox),
    Y(UpSmall),
    E(UpCopy),
}

impl Slot {
    pub fn dead(&self) -> bool {
        matches!(self, Slot::Dead)
    }
    pub fn take(&mut self) -> Slot {
        std::mem::replace(self, Slot::Dead)
    }
    pub fn ty(&self) -> Option<Ty> {
        let id = match self {
            Slot::Dead => return None,
            Slot::D(d) => d.element_type_id(),
            Slot::C(d) => d.element_type_id(),
            Slot::B(d) => d.value_type_id(),
            Slot::S(d) => d.value_type_id(),
            Slot::T(t, _) => return Some(*t),
            Slot::U(u) => each_up!(u, v => v.element_type_id()),
            Slot::E(u) => each_upc!(u, v => v.element_type_id()),
            Slot::X(u) => each_val!(u, UpBox, v => v.value_type_id()),
            Slot::Y(u) => each_val!(u, UpSmall, v => v.value_type_id()),
        };
        let t = ALL.iter().map(|x| x.0).find(|t| info(*t).tid == id);
        if t.is_none() {
            reg().bad("unknown element type");
        }
        t
    }
    pub fn len(&self) -> usize {
        match self {
            Slot::Dead => 0,
            Slot::D(d) => d.len(),
            Slot::C(d) => d.len(),
            Slot::B(_) | Slot::S(_) | Slot::X(_) | Slot::Y(_) => 1,
            Slot::T(t, v) => with_ty!(*t, T => v.downcast_ref::<Vec<T>>().unwrap().len()),
            Slot::U(u) => each_up!(u, v => v.len()),
            Slot::E(u) => each_upc!(u, v => v.len()),
        }
    }
    pub fn cap(&self) -> &'static str {
        match self {
            Slot::Dead => "-",
            Slot::U(u) => u.cap(),
            Slot::E(u) => u.cap(),
            Slot::X(u) => u.cap(),
            Slot::Y(u) => u.cap(),
            _ => "f",
        }
    }
}

impl Slot {
    pub fn some_vec<T: 'static>(v: Option<Vec<T>>) -> Option<Box<dyn Any>> {
        v.map(|v| Box::new(v) as Box<dyn Any>)
    }
    pub fn vec_of<T: 'static>(v: Box<dyn Any>) -> Option<Vec<T>> {
        v.downcast::<Vec<T>>().ok().map(|v| *v)
    }
}

pub fn tvec<T: 'static>(b: &dyn Any) -> &Vec<T> {
    b.downcast_ref::<Vec<T>>().unwrap()
}
pub fn tvec_mut<T: 'static>(b: &mut dyn Any) -> &mut Vec<T> {
    b.downcast_mut::<Vec<T>>().unwrap()
}

pub fn list<T: El>(s: &[T]) -> Vec<(u32, u8)> {
    s.iter().map(|e| (e.id(), e.val())).collect()
}

fn bad_if(c: bool, what: &'static str) {
    if c {
        reg().bad(what);
    }
}

/// The elements of a slot, read through a typed view of it.
pub fn read(slot: &Slot, deep: bool, others: &[Ty]) -> Vec<(u32, u8)> {
    let ty = match slot.ty() {
        Some(t) => t,
        None => return vec![],
    };
    with_ty!(ty, T => {
        match slot {
            Slot::Dead => vec![],
            Slot::D(d) => {
                if deep { deep_d::<T>(d); for o in others { if *o != ty { with_ty!(*o, W => wrong_d::<W>(d)) } } }
                match d.as_slice_as::<T>() { Some(s) => list(s), None => { reg().bad("as_slice_as refused"); vec![] } }
            }
            Slot::C(d) => {
                match d.as_slice_as::<T>() { Some(s) => list(s), None => { reg().bad("as_slice_as refused"); vec![] } }
            }
            Slot::B(b) => {
                if deep { deep_v::<T>(b.as_ref()); deep_value::<T, _, _>(b); for o in others { if *o != ty { with_ty!(*o, W => wrong_v::<W>(b.as_ref())) } } }
                match b.as_ref().downcast::<T>() { Some(e) => list(std::slice::from_ref(e)), None => { reg().bad("downcast refused"); vec![] } }
            }
            Slot::S(b) => {
                if deep { deep_v::<T>(b.as_ref()); deep_value::<T, _, _>(b); for o in others { if *o != ty { with_ty!(*o, W => wrong_v::<W>(b.as_ref())) } } }
                match b.as_ref().downcast::<T>() { Some(e) => list(std::slice::from_ref(e)), None => { reg().bad("downcast refused"); vec![] } }
            }
            Slot::T(_, v) => list(tvec::<T>(&**v)),
            Slot::X(u) => each_val!(u, UpBox, b => {
                if deep { deep_value::<T, _, _>(b); }
                match b.as_ref().downcast::<T>() { Some(e) => list(std::slice::from_ref(e)), None => { reg().bad("downcast refused"); vec![] } }
            }),
            Slot::Y(u) => each_val!(u, UpSmall, b => {
                if deep { deep_value::<T, _, _>(b); }
                match b.as_ref().downcast::<T>() { Some(e) => list(std::slice::from_ref(e)), None => { reg().bad("downcast refused"); vec![] } }
            }),
            Slot::E(u) => each_upc!(u, d => {
                bad_if(d.as_slice().element_size() != std::mem::size_of::<T>(), "size after upcast");
                bad_if(d.capacity() < d.len() || d.is_empty() != (d.len() == 0), "length after upcast");
                match d.as_slice_as::<T>() { Some(s) => list(s), None => { reg().bad("as_slice_as refused"); vec![] } }
            }),
            Slot::U(u) => each_up!(u, d => {
                bad_if(d.element_size() != std::mem::size_of::<T>(), "size after upcast");
                match d.as_slice_as::<T>() { Some(s) => list(s), None => { reg().bad("as_slice_as refused"); vec![] } }
            }),
        }
    })
}

fn same<T>(base: *const T, i: usize, r: Option<&T>, what: &'static str) {
    match r {
        Some(r) => bad_if(r as *const T != base.wrapping_add(i), what),
        None => reg().bad(what),
    }
}

pub fn deep_v<T: El>(v: ValueRef<FV>) {
    bad_if(v.size() != std::mem::size_of::<T>(), "value size");
    bad_if(v.value_alignment() != std::mem::align_of::<T>(), "value alignment");
    bad_if(v.value_type_id() != std::any::TypeId::of::<T>(), "value type");
    bad_if(!v.is::<T>(), "value is");
    let r = v.reborrow();
    bad_if(r.value_alignment() != std::mem::align_of::<T>() || r.size() != v.size(), "reborrowed value");
    let u: ValueRef<DropVTable> = v.upcast_ref();
    bad_if(u.value_alignment() != v.value_alignment() || u.size() != v.size(), "upcast_ref value");
    let a = u.downcast::<T>().map(|x| x as *const T);
    let b = v.reborrow().downcast::<T>().map(|x| x as *const T);
    bad_if(a.is_none() || a != b, "upcast value downcast");
    let u: ValueRef<CloneVTable> = v.clone().upcast();
    bad_if(u.value_alignment() != v.value_alignment() || u.size() != v.size(), "upcast value");
    bad_if(u.downcast::<T>().map(|x| x as *const T) != b, "upcast value address");
}

fn deep_value<T: El, B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop>(v: &Value<B, V>) {
    bad_if(v.size() != std::mem::size_of::<T>(), "owned value size");
    bad_if(v.value_alignment() != std::mem::align_of::<T>(), "owned value alignment");
    bad_if(v.value_type_id() != std::any::TypeId::of::<T>(), "owned value type");
    bad_if(!v.is::<T>(), "owned value is");
}

fn wrong_v<W: El>(v: ValueRef<FV>) {
    bad_if(v.is::<W>(), "value is of a wrong type");
    bad_if(v.clone().downcast::<W>().is_some(), "downcast to a wrong type");
}

pub fn deep_d<T: El>(d: &VecDyn<FV>) {
    let n = d.len();
    bad_if(d.is_empty() != (n == 0), "is_empty");
    bad_if(d.element_size() != std::mem::size_of::<T>(), "element_size");
    let s = match d.as_slice_as::<T>() {
        Some(s) => s,
        None => return,
    };
    bad_if(s.len() != n, "as_slice_as len");
    let base = s.as_ptr();
    bad_if(d.check_ref::<T>().is_none(), "check_ref");
    match d.iter_as::<T>() {
        Some(it) => bad_if(it.as_slice().as_ptr() != base || it.len() != n, "iter_as"),
        None => reg().bad("iter_as"),
    }
    for i in 0..n {
        same(base, i, d.get_ref_as::<T>(i), "get_ref_as");
        same(base, i, d.get(i).downcast::<T>(), "get");
        deep_v::<T>(d.get(i));
        same(base, i, Some(unsafe { d.get_unchecked_ref::<T>(i) }), "get_unchecked_ref");
    }
    let mut k = 0;
    for v in walk(d.iter()) {
        deep_v::<T>(v.reborrow());
        same(base, k, v.downcast::<T>(), "iter");
        k += 1;
    }
    bad_if(k != n, "iter length");
    deep_slice::<T>(d.as_slice(), base, n);
}

pub fn deep_slice<T: El>(s: Slice<FV>, base: *const T, n: usize) {
    bad_if(s.len() != n, "Slice len");
    bad_if(s.is_empty() != (n == 0), "Slice is_empty");
    bad_if(s.element_size() != std::mem::size_of::<T>(), "Slice element_size");
    bad_if(s.element_type_id() != std::any::TypeId::of::<T>(), "Slice type");
    bad_if(s.check::<T>().is_none(), "Slice check");
    match s.as_slice::<T>() {
        Some(t) => bad_if(t.as_ptr() != base || t.len() != n, "Slice as_slice"),
        None => reg().bad("Slice as_slice"),
    }
    match s.iter_as::<T>() {
        Some(it) => bad_if(it.as_slice().as_ptr() != base || it.len() != n, "Slice iter_as"),
        None => reg().bad("Slice iter_as"),
    }
    for i in 0..n {
        same(base, i, s.get_as::<T>(i), "Slice get_as");
        same(base, i, s.get(i).downcast::<T>(), "Slice get");
        deep_v::<T>(s.get(i));
    }
    let mut k = 0;
    for v in walk(s.iter()) {
        deep_v::<T>(v.reborrow());
        same(base, k, v.downcast::<T>(), "Slice iter");
        k += 1;
    }
    bad_if(k != n, "Slice iter length");
    let mut k = 0;
    for v in walk(s.reborrow().into_iter()) {
        same(base, k, v.downcast::<T>(), "Slice into_iter");
        k += 1;
    }
    bad_if(k != n, "Slice into_iter length");
    let (data, _, _) = s.into_raw_parts();
    bad_if(data.as_ptr() as usize != base as usize || data.len() != n * std::mem::size_of::<T>(), "Slice raw parts");
}

pub fn wrong_slice<W: El>(s: &Slice<FV>) {
    bad_if(s.check::<W>().is_some(), "Slice check of a wrong type");
    bad_if(s.as_slice::<W>().is_some(), "Slice as_slice of a wrong type");
    bad_if(s.iter_as::<W>().is_some(), "Slice iter_as of a wrong type");
    if s.len() > 0 {
        bad_if(s.get_as::<W>(0).is_some(), "Slice get_as of a wrong type");
    }
    let mut v: Vec<W> = Vec::new();
    bad_if(s.append_clone_to_vec(&mut v).is_some(), "Slice append_clone_to_vec of a wrong type");
}

fn wrong_d<W: El>(d: &VecDyn<FV>) {
    bad_if(d.check_ref::<W>().is_some(), "check_ref of a wrong type");
    bad_if(d.as_slice_as::<W>().is_some(), "as_slice_as of a wrong type");
    bad_if(d.iter_as::<W>().is_some(), "iter_as of a wrong type");
    if d.len() > 0 {
        bad_if(d.get_ref_as::<W>(0).is_some(), "get_ref_as of a wrong type");
        wrong_v::<W>(d.get(d.len() - 1));
    }
    let mut v: Vec<W> = Vec::new();
    bad_if(d.append_cloned_to_vec(&mut v).is_some(), "append_cloned_to_vec of a wrong type");
    wrong_slice::<W>(&d.as_slice());
}

/// Deep observations that need mutable access (or the Copy bound).
pub fn deep_mut(slot: &mut Slot, others: &[Ty]) {
    let ty = match slot.ty() {
        Some(t) => t,
        None => return,
    };
    match slot {
        Slot::D(d) => {
            with_ty!(ty, T => deep_d_mut::<T>(d));
            for o in others {
                if *o != ty {
                    with_ty!(*o, W => wrong_d_mut::<W>(d));
                }
            }
        }
        Slot::C(d) => {
            with_copy!(ty, T => deep_c::<T>(d), else reg().bad("VecCopy of a non-Copy type"));
            for o in others {
                if *o != ty {
                    with_copy!(*o, W => wrong_c::<W>(d), else ());
                }
            }
        }
        Slot::B(b) => with_ty!(ty, T => deep_vmut::<T>(b.as_mut())),
        Slot::S(b) => with_ty!(ty, T => deep_vmut::<T>(b.as_mut())),
        Slot::U(u) => each_up!(u, d => {
            with_ty!(ty, T => deep_up_d::<T, _>(d));
            for o in others {
                if *o != ty {
                    with_ty!(*o, W => wrong_up_d::<W, _>(d));
                }
            }
        }),
        Slot::E(u) => each_upc!(u, d => {
            with_copy!(ty, T => deep_up_c::<T, _>(d), else reg().bad("VecCopy of a non-Copy type"));
            for o in others {
                if *o != ty {
                    with_copy!(*o, W => wrong_up_c::<W, _>(d), else ());
                }
            }
        }),
        Slot::X(u) => each_val!(u, UpBox, b => with_ty!(ty, T => {
            bad_if(b.as_mut().value_alignment() != std::mem::align_of::<T>(), "mutable upcast value");
            bad_if(!b.as_ref().is::<T>() || b.as_ref().size() != std::mem::size_of::<T>(), "upcast value");
        })),
        Slot::Y(u) => each_val!(u, UpSmall, b => with_ty!(ty, T => {
            bad_if(b.as_mut().value_alignment() != std::mem::align_of::<T>(), "mutable upcast value");
            bad_if(!b.as_ref().is::<T>() || b.as_ref().size() != std::mem::size_of::<T>(), "upcast value");
        })),
        _ => {}
    }
}

/// Containers whose table offers one capability only, through every way to look into them.
macro_rules! deep_up {
    ($deep:ident, $wrong:ident, $Vec:ident, $El:ident, [$($b:tt)*], $get:ident) => {
        fn $deep<T: $El, V: ?Sized $($b)*>(d: &mut $Vec<V>) {
            let n = d.len();
            bad_if(d.is_empty() != (n == 0), "is_empty after an upcast");
            bad_if(d.check_ref::<T>().is_none() || d.check_mut::<T>().is_none(), "check after an upcast");
            let base = match d.as_slice_as::<T>() {
                Some(s) => {
                    bad_if(s.len() != n, "as_slice_as len after an upcast");
                    s.as_ptr()
                }
                None => return,
            };
            match d.as_mut_slice_as::<T>() {
                Some(s) => bad_if(s.len() != n || s.as_ptr() != base, "as_mut_slice_as after an upcast"),
                None => reg().bad("as_mut_slice_as after an upcast"),
            }
            bad_if(d.iter_as::<T>().map(|x| (x.len(), x.as_slice().as_ptr())) != Some((n, base)), "iter_as after an upcast");
            bad_if(d.iter_mut_as::<T>().map(|x| x.len()) != Some(n), "iter_mut_as after an upcast");
            let (size, align, id) = (std::mem::size_of::<T>(), std::mem::align_of::<T>(), std::any::TypeId::of::<T>());
            for i in 0..n {
                same(base, i, d.get_ref_as::<T>(i), "get_ref_as after an upcast");
                same(base, i, d.get_mut_as::<T>(i).map(|x| &*x), "get_mut_as after an upcast");
                let v = d.$get(i);
                bad_if((v.size(), v.value_alignment(), v.value_type_id()) != (size, align, id) || !v.is::<T>(), "element after an upcast");
                same(base, i, v.downcast::<T>(), "element after an upcast");
                let v = d.get_mut(i);
                bad_if((v.size(), v.value_alignment(), v.value_type_id()) != (size, align, id) || !v.is::<T>(), "mutable element after an upcast");
                same(base, i, v.downcast::<T>().map(|x| &*x), "mutable element after an upcast");
            }
            let mut k = 0;
            for v in walk(d.iter()) {
                bad_if((v.size(), v.value_alignment(), v.value_type_id()) != (size, align, id), "item after an upcast");
                same(base, k, v.downcast::<T>(), "item after an upcast");
                k += 1;
            }
            bad_if(k != n, "iter length after an upcast");
            k = 0;
            for v in walk(d.iter_mut()) {
                bad_if((v.size(), v.value_alignment(), v.value_type_id()) != (size, align, id), "mutable item after an upcast");
                same(base, k, v.downcast::<T>().map(|x| &*x), "mutable item after an upcast");
                k += 1;
            }
            bad_if(k != n, "iter_mut length after an upcast");
            let s = d.as_slice();
            bad_if((s.len(), s.element_size(), s.element_type_id()) != (n, size, id), "view after an upcast");
            bad_if(s.as_slice::<T>().map(|s| (s.len(), s.as_ptr())) != Some((n, base)), "view after an upcast");
            for i in 0..n {
                let v = s.get(i);
                bad_if((v.size(), v.value_alignment(), v.value_type_id()) != (size, align, id), "element of a view after an upcast");
                same(base, i, v.downcast::<T>(), "element of a view after an upcast");
            }
            let mut s = d.as_mut_slice();
            bad_if((s.len(), s.element_type_id()) != (n, id), "mutable view after an upcast");
            bad_if(s.as_slice::<T>().map(|s| (s.len(), s.as_ptr())) != Some((n, base)), "mutable view after an upcast");
            for i in 0..n {
                let v = s.get_mut(i);
                bad_if((v.size(), v.value_alignment(), v.value_type_id()) != (size, align, id), "element of a mutable view after an upcast");
                same(base, i, v.downcast::<T>().map(|x| &*x), "element of a mutable view after an upcast");
            }
        }
        fn $wrong<W: $El, V: ?Sized $($b)*>(d: &mut $Vec<V>) {
            bad_if(d.check_ref::<W>().is_some() || d.check_mut::<W>().is_some(), "check of a wrong type after an upcast");
            bad_if(d.as_slice_as::<W>().is_some() || d.as_mut_slice_as::<W>().is_some(), "as_slice_as of a wrong type after an upcast");
            bad_if(d.iter_as::<W>().is_some() || d.iter_mut_as::<W>().is_some(), "iter_as of a wrong type after an upcast");
            bad_if(d.as_slice().as_slice::<W>().is_some() || d.as_mut_slice().as_slice::<W>().is_some(), "view of a wrong type after an upcast");
            if d.len() > 0 {
                bad_if(d.get_ref_as::<W>(0).is_some() || d.get_mut_as::<W>(0).is_some(), "get_ref_as of a wrong type after an upcast");
                bad_if(d.$get(0).downcast::<W>().is_some() || d.get_mut(0).downcast::<W>().is_some(), "downcast to a wrong type after an upcast");
            }
        }
    };
}
deep_up!(deep_up_d, wrong_up_d, VecDyn, El, [+ HasDrop], get);
deep_up!(deep_up_c, wrong_up_c, VecCopy, CopyEl, [], get_ref);

fn deep_vmut<T: El>(mut v: ValueMut<FV>) {
    bad_if(v.size() != std::mem::size_of::<T>(), "mutable value size");
    bad_if(v.value_alignment() != std::mem::align_of::<T>(), "mutable value alignment");
    bad_if(v.value_type_id() != std::any::TypeId::of::<T>(), "mutable value type");
    deep_v::<T>(v.reborrow());
    let a = v.reborrow().downcast::<T>().map(|x| x as *const T);
    let u: ValueMut<DropVTable> = v.upcast_mut();
    bad_if(u.value_alignment() != std::mem::align_of::<T>(), "upcast mutable value");
    bad_if(u.downcast::<T>().map(|x| x as *const T) != a, "upcast mutable value address");
    bad_if(v.reborrow_mut().downcast::<T>().map(|x| x as *const T) != a, "reborrowed mutable value");
    let u: ValueMut<DebugVTable> = v.reborrow_mut().upcast();
    bad_if(u.downcast::<T>().map(|x| x as *const T) != a, "upcast mutable value address");
    let r: ValueRef<FV> = v.into();
    bad_if(r.downcast::<T>().map(|x| x as *const T) != a, "ValueMut to ValueRef");
}

fn deep_d_mut<T: El>(d: &mut VecDyn<FV>) {
    let n = d.len();
    let base = match d.as_mut_slice_as::<T>() {
        Some(s) => {
            bad_if(s.len() != n, "as_mut_slice_as len");
            s.as_ptr()
        }
        None => {
            reg().bad("as_mut_slice_as refused");
            return;
        }
    };
    bad_if(d.check_mut::<T>().is_none(), "check_mut");
    match d.iter_mut_as::<T>() {
        Some(it) => bad_if(it.as_slice().as_ptr() != base || it.len() != n, "iter_mut_as"),
        None => reg().bad("iter_mut_as"),
    }
    for i in 0..n {
        same(base, i, d.get_mut_as::<T>(i).map(|x| &*x), "get_mut_as");
        same(base, i, d.get_mut(i).downcast::<T>().map(|x| &*x), "get_mut");
        deep_vmut::<T>(d.get_mut(i));
        same(base, i, Some(unsafe { &*d.get_unchecked_mut::<T>(i) }), "get_unchecked_mut");
    }
    let mut k = 0;
    for v in walk(d.iter_mut()) {
        same(base, k, v.downcast::<T>().map(|x| &*x), "iter_mut");
        k += 1;
    }
    bad_if(k != n, "iter_mut length");
    deep_slice_mut::<T>(d.as_mut_slice(), base, n);
}

pub fn deep_slice_mut<T: El>(mut s: SliceMut<FV>, base: *const T, n: usize) {
    bad_if(s.len() != n, "SliceMut len");
    bad_if(s.is_empty() != (n == 0), "SliceMut is_empty");
    bad_if(s.element_size() != std::mem::size_of::<T>(), "SliceMut element_size");
    bad_if(s.element_type_id() != std::any::TypeId::of::<T>(), "SliceMut type");
    bad_if(s.check::<T>().is_none(), "SliceMut check");
    match s.as_slice::<T>() {
        Some(t) => bad_if(t.as_ptr() != base || t.len() != n, "SliceMut as_slice"),
        None => reg().bad("SliceMut as_slice"),
    }
    match s.iter_as::<T>() {
        Some(it) => bad_if(it.len() != n, "SliceMut iter_as"),
        None => reg().bad("SliceMut iter_as"),
    }
    for i in 0..n {
        same(base, i, s.get_as::<T>(i).map(|x| &*x), "SliceMut get_as");
        same(base, i, s.get(i).downcast::<T>(), "SliceMut get");
        same(base, i, s.get_mut(i).downcast::<T>().map(|x| &*x), "SliceMut get_mut");
        deep_vmut::<T>(s.get_mut(i));
    }
    let mut k = 0;
    for v in walk(s.iter()) {
        same(base, k, v.downcast::<T>().map(|x| &*x), "SliceMut iter");
        k += 1;
    }
    bad_if(k != n, "SliceMut iter length");
    let mut k = 0;
    for v in walk(s.reborrow_mut().into_iter()) {
        same(base, k, v.downcast::<T>().map(|x| &*x), "SliceMut into_iter");
        k += 1;
    }
    bad_if(k != n, "SliceMut into_iter length");
    deep_slice::<T>(s.reborrow(), base, n);
    deep_slice::<T>(Slice::from(&s), base, n);
    let (data, elem, table) = s.reborrow_mut().into_raw_parts();
    bad_if(data.as_ptr() as usize != base as usize || data.len() != n * std::mem::size_of::<T>(), "SliceMut raw parts");
    deep_slice::<T>(unsafe { Slice::from_raw_parts(data, elem, table) }, base, n);
    deep_slice::<T>(Slice::from(s), base, n);
}

fn wrong_d_mut<W: El>(d: &mut VecDyn<FV>) {
    bad_if(d.check_mut::<W>().is_some(), "check_mut of a wrong type");
    bad_if(d.as_mut_slice_as::<W>().is_some(), "as_mut_slice_as of a wrong type");
    bad_if(d.iter_mut_as::<W>().is_some(), "iter_mut_as of a wrong type");
    if d.len() > 0 {
        bad_if(d.get_mut_as::<W>(0).is_some(), "get_mut_as of a wrong type");
        bad_if(d.get_mut(0).downcast::<W>().is_some(), "get_mut downcast to a wrong type");
    }
    wrong_slice_mut::<W>(&mut d.as_mut_slice());
}
pub fn wrong_slice_mut<W: El>(s: &mut SliceMut<FV>) {
    bad_if(s.check::<W>().is_some(), "SliceMut check of a wrong type");
    bad_if(s.as_slice::<W>().is_some(), "SliceMut as_slice of a wrong type");
    bad_if(s.iter_as::<W>().is_some(), "SliceMut iter_as of a wrong type");
    if s.len() > 0 {
        bad_if(s.get_as::<W>(0).is_some(), "SliceMut get_as of a wrong type");
    }
    let mut v: Vec<W> = Vec::new();
    bad_if(s.append_clone_to_vec(&mut v).is_some(), "SliceMut append_clone_to_vec of a wrong type");
    let n = s.len();
    wrong_slice::<W>(&s.reborrow());
    bad_if(s.len() != n, "SliceMut changed length");
}

pub fn deep_cv<T: CopyEl>(v: CopyValueRef<FV>) {
    bad_if(v.size() != std::mem::size_of::<T>(), "copy value size");
    bad_if(v.value_alignment() != std::mem::align_of::<T>(), "copy value alignment");
    bad_if(v.value_type_id() != std::any::TypeId::of::<T>(), "copy value type");
    bad_if(!v.is::<T>(), "copy value is");
    let a = v.clone().downcast::<T>().map(|x| x as *const T);
    let u: CopyValueRef<CloneVTable> = v.upcast_ref();
    bad_if(u.value_alignment() != v.value_alignment() || u.downcast::<T>().map(|x| x as *const T) != a, "upcast_ref copy value");
    let u: CopyValueRef<CloneVTable> = v.clone().upcast();
    bad_if(u.value_alignment() != v.value_alignment() || u.downcast::<T>().map(|x| x as *const T) != a, "upcast copy value");
    let w: ValueRef<(DropFn, FV)> = v.into();
    bad_if(w.value_alignment() != std::mem::align_of::<T>() || w.downcast::<T>().map(|x| x as *const T) != a, "copy value to value");
}

fn deep_c<T: CopyEl>(d: &mut VecCopy<FV>) {
    let n = d.len();
    bad_if(d.is_empty() != (n == 0), "is_empty");
    bad_if(d.capacity() < n, "capacity");
    bad_if(d.check_ref::<T>().is_none(), "check_ref");
    bad_if(d.check_mut::<T>().is_none(), "check_mut");
    let base = match d.as_slice_as::<T>() {
        Some(s) => {
            bad_if(s.len() != n, "as_slice_as len");
            s.as_ptr()
        }
        None => return,
    };
    match d.as_mut_slice_as::<T>() {
        Some(s) => bad_if(s.len() != n || s.as_ptr() != base, "as_mut_slice_as"),
        None => reg().bad("as_mut_slice_as refused"),
    }
    match d.iter_as::<T>() {
        Some(it) => bad_if(it.as_slice().as_ptr() != base || it.len() != n, "iter_as"),
        None => reg().bad("iter_as"),
    }
    match d.iter_mut_as::<T>() {
        Some(it) => bad_if(it.as_slice().as_ptr() != base || it.len() != n, "iter_mut_as"),
        None => reg().bad("iter_mut_as"),
    }
    for i in 0..n {
        same(base, i, d.get_ref_as::<T>(i), "get_ref_as");
        same(base, i, d.get_mut_as::<T>(i).map(|x| &*x), "get_mut_as");
        match d.get_as::<T>(i) {
            Some(e) => bad_if(e.val() != unsafe { &*base.add(i) }.val(), "get_as"),
            None => reg().bad("get_as"),
        }
        same(base, i, d.get_ref(i).downcast::<T>(), "get_ref");
        deep_cv::<T>(d.get_ref(i));
        same(base, i, d.get_mut(i).downcast::<T>().map(|x| &*x), "get_mut");
        let mut m = d.get_mut(i);
        bad_if(m.size() != std::mem::size_of::<T>() || m.value_alignment() != std::mem::align_of::<T>(), "get_mut value");
        let u: CopyValueMut<HashVTable> = m.upcast();
        bad_if(u.value_alignment() != std::mem::align_of::<T>(), "upcast mutable copy value");
        same(base, i, u.downcast::<T>().map(|x| &*x), "upcast mutable copy value");
        deep_cv::<T>(m.into());
        same(base, i, Some(unsafe { d.get_unchecked_ref::<T>(i) }), "get_unchecked_ref");
        same(base, i, Some(unsafe { &*d.get_unchecked_mut::<T>(i) }), "get_unchecked_mut");
    }
    let mut k = 0;
    for v in walk(d.iter()) {
        deep_cv::<T>(v.clone());
        same(base, k, v.downcast::<T>(), "iter");
        k += 1;
    }
    bad_if(k != n, "iter length");
    let mut k = 0;
    for v in walk(d.iter_mut()) {
        same(base, k, v.downcast::<T>().map(|x| &*x), "iter_mut");
        k += 1;
    }
    bad_if(k != n, "iter_mut length");
    deep_cslice::<T>(d.as_slice(), base, n);
    deep_cslice_mut::<T>(d.as_mut_slice(), base, n);
}

pub fn deep_cslice<T: CopyEl>(s: SliceCopy<FV>, base: *const T, n: usize) {
    bad_if(s.len() != n, "SliceCopy len");
    bad_if(s.is_empty() != (n == 0), "SliceCopy is_empty");
    bad_if(s.element_size() != std::mem::size_of::<T>(), "SliceCopy element_size");
    bad_if(s.element_type_id() != std::any::TypeId::of::<T>(), "SliceCopy type");
    bad_if(s.check::<T>().is_none(), "SliceCopy check");
    match s.as_slice::<T>() {
        Some(t) => bad_if(t.as_ptr() != base || t.len() != n, "SliceCopy as_slice"),
        None => reg().bad("SliceCopy as_slice"),
    }
    match s.iter_as::<T>() {
        Some(it) => bad_if(it.as_slice().as_ptr() != base || it.len() != n, "SliceCopy iter_as"),
        None => reg().bad("SliceCopy iter_as"),
    }
    for i in 0..n {
        same(base, i, s.get_as::<T>(i), "SliceCopy get_as");
        same(base, i, s.get(i).downcast::<T>(), "SliceCopy get");
        deep_cv::<T>(s.get(i));
    }
    let mut k = 0;
    for v in walk(s.iter()) {
        deep_cv::<T>(v.clone());
        same(base, k, v.downcast::<T>(), "SliceCopy iter");
        k += 1;
    }
    bad_if(k != n, "SliceCopy iter length");
    let mut k = 0;
    for v in walk(s.reborrow().into_iter()) {
        same(base, k, v.downcast::<T>(), "SliceCopy into_iter");
        k += 1;
    }
    bad_if(k != n, "SliceCopy into_iter length");
    let (data, elem, table) = s.into_raw_parts();
    bad_if(data.as_ptr() as usize != base as usize || data.len() != n * std::mem::size_of::<T>(), "SliceCopy raw parts");
    let s: SliceCopy<FV> = unsafe { SliceCopy::from_raw_parts(data, elem, table) };
    bad_if(s.len() != n || s.as_slice::<T>().map(|t| t.as_ptr()) != Some(base), "SliceCopy from raw parts");
}

pub fn deep_cslice_mut<T: CopyEl>(mut s: SliceCopyMut<FV>, base: *const T, n: usize) {
    bad_if(s.len() != n, "SliceCopyMut len");
    bad_if(s.is_empty() != (n == 0), "SliceCopyMut is_empty");
    bad_if(s.element_type_id() != std::any::TypeId::of::<T>(), "SliceCopyMut type");
    bad_if(s.check::<T>().is_none(), "SliceCopyMut check");
    match s.as_slice::<T>() {
        Some(t) => bad_if(t.as_ptr() != base || t.len() != n, "SliceCopyMut as_slice"),
        None => reg().bad("SliceCopyMut as_slice"),
    }
    match s.iter_as::<T>() {
        Some(it) => bad_if(it.len() != n, "SliceCopyMut iter_as"),
        None => reg().bad("SliceCopyMut iter_as"),
    }
    for i in 0..n {
        same(base, i, s.get_as::<T>(i).map(|x| &*x), "SliceCopyMut get_as");
        same(base, i, s.get(i).downcast::<T>(), "SliceCopyMut get");
        same(base, i, s.get_mut(i).downcast::<T>().map(|x| &*x), "SliceCopyMut get_mut");
        bad_if(s.get_mut(i).value_alignment() != std::mem::align_of::<T>(), "SliceCopyMut alignment");
    }
    let mut k = 0;
    for v in walk(s.iter()) {
        same(base, k, v.downcast::<T>().map(|x| &*x), "SliceCopyMut iter");
        k += 1;
    }
    bad_if(k != n, "SliceCopyMut iter length");
    let mut k = 0;
    for v in walk(s.reborrow_mut().into_iter()) {
        same(base, k, v.downcast::<T>().map(|x| &*x), "SliceCopyMut into_iter");
        k += 1;
    }
    bad_if(k != n, "SliceCopyMut into_iter length");
    deep_cslice::<T>(s.reborrow(), base, n);
    deep_cslice::<T>(SliceCopy::from(&s), base, n);
    let (data, _, _) = s.reborrow_mut().into_raw_parts();
    bad_if(data.as_ptr() as usize != base as usize || data.len() != n * std::mem::size_of::<T>(), "SliceCopyMut raw parts");
    deep_cslice::<T>(SliceCopy::from(s), base, n);
}

pub fn wrong_cslice<W: CopyEl>(s: &SliceCopy<FV>) {
    bad_if(s.check::<W>().is_some(), "SliceCopy check of a wrong type");
    bad_if(s.as_slice::<W>().is_some(), "SliceCopy as_slice of a wrong type");
    bad_if(s.iter_as::<W>().is_some(), "SliceCopy iter_as of a wrong type");
    if s.len() > 0 {
        bad_if(s.get_as::<W>(0).is_some(), "SliceCopy get_as of a wrong type");
        bad_if(s.get(0).downcast::<W>().is_some(), "SliceCopy get downcast to a wrong type");
    }
    let mut v: Vec<W> = Vec::new();
    bad_if(s.append_copy_to_vec(&mut v).is_some(), "SliceCopy append_copy_to_vec of a wrong type");
}
pub fn wrong_cslice_mut<W: CopyEl>(s: &mut SliceCopyMut<FV>) {
    bad_if(s.check::<W>().is_some(), "SliceCopyMut check of a wrong type");
    bad_if(s.as_slice::<W>().is_some(), "SliceCopyMut as_slice of a wrong type");
    bad_if(s.iter_as::<W>().is_some(), "SliceCopyMut iter_as of a wrong type");
    bad_if(s.copy_from_slice::<W>(&[]).is_some(), "SliceCopyMut copy_from_slice of a wrong type");
    if s.len() > 0 {
        bad_if(s.get_as::<W>(0).is_some(), "SliceCopyMut get_as of a wrong type");
    }
    let mut v: Vec<W> = Vec::new();
    bad_if(s.append_copy_to_vec(&mut v).is_some(), "SliceCopyMut append_copy_to_vec of a wrong type");
    wrong_cslice::<W>(&s.reborrow());
}
fn wrong_c<W: CopyEl>(d: &mut VecCopy<FV>) {
    bad_if(d.check_ref::<W>().is_some(), "check_ref of a wrong type");
    bad_if(d.check_mut::<W>().is_some(), "check_mut of a wrong type");
    bad_if(d.as_slice_as::<W>().is_some(), "as_slice_as of a wrong type");
    bad_if(d.as_mut_slice_as::<W>().is_some(), "as_mut_slice_as of a wrong type");
    bad_if(d.iter_as::<W>().is_some(), "iter_as of a wrong type");
    bad_if(d.iter_mut_as::<W>().is_some(), "iter_mut_as of a wrong type");
    bad_if(d.copy_into_vec::<W>().is_some(), "copy_into_vec of a wrong type");
    if d.len() > 0 {
        bad_if(d.get_as::<W>(0).is_some(), "get_as of a wrong type");
        bad_if(d.get_ref_as::<W>(0).is_some(), "get_ref_as of a wrong type");
        bad_if(d.get_mut_as::<W>(0).is_some(), "get_mut_as of a wrong type");
        bad_if(d.get_ref(0).downcast::<W>().is_some(), "get_ref downcast to a wrong type");
        bad_if(d.get_mut(0).downcast::<W>().is_some(), "get_mut downcast to a wrong type");
    }
    wrong_cslice::<W>(&d.as_slice());
    wrong_cslice_mut::<W>(&mut d.as_mut_slice());
}

/// A hasher that records what it is fed.
#[derive(Default)]
pub struct Rec(pub Vec<i64>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(1000 + b.len() as i64);
    }
    fn write_u8(&mut self, b: u8) {
        self.0.push(b as i64);
    }
    fn write_usize(&mut self, b: usize) {
        self.0.push(2000 + b as i64);
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> Vec<i64> {
    let mut h = Rec::default();
    t.hash(&mut h);
    // What the elements feed to the hasher, without any length prefix.
    h.0.retain(|x| *x < 1000);
    h.0
}
pub fn dbg_of<T: std::fmt::Debug>(t: &T, flag: &str) -> String {
    let s = match flag {
        "a" => format!("{:#?}", t),
        "w" => format!("{:5?}", t),
        "z" => format!("{:*>+9.8?}", t),
        _ => format!("{:?}", t),
    };
    s.replace(' ', "_").replace('\n', "~")
}

/// The items of an iterator, which is advanced in one way or another.
pub fn walk<I: Iterator>(mut it: I) -> Vec<I::Item> {
    thread_local!(static TURN: std::cell::Cell<usize> = std::cell::Cell::new(0));
    let turn = TURN.with(|t| {
        t.set(t.get() + 1);
        t.get()
    });
    let mut v = vec![];
    match turn % 5 {
        0 => return it.collect(),
        1 => {
            let mut hints = vec![];
            loop {
                hints.push(it.size_hint());
                match it.next() {
                    Some(x) => v.push(x),
                    None => break,
                }
            }
            for (k, (lo, hi)) in hints.iter().enumerate() {
                let left = v.len() - k;
                if *lo > left || hi.map_or(false, |h| h < left) {
                    crate::reg::reg().bad("size hint of an iterator");
                }
            }
        }
        2 => {
            return it.fold(v, |mut v, x| {
                v.push(x);
                v
            })
        }
        3 => {
            while let Some(x) = it.nth(0) {
                v.push(x);
            }
        }
        _ => {
            v.extend(it.next());
            v.extend(it.by_ref().take(1));
            it.for_each(|x| v.push(x));
        }
    }
    v
}

/// An iterator as a user may write one: its code may panic, and its hint is only a hint.
pub struct Odd<I>(pub I, pub usize);
impl<I: Iterator> Iterator for Odd<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        crate::reg::reg().callback();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.1 {
            0 => (0, None),
            1 => self.0.size_hint(),
            n => (n, Some(n)),
        }
    }
}

pub fn idx(code: u64, size: usize) -> usize {
    if code < 1_000_000 {
        return code as usize;
    }
    match code - 1_000_000 {
        0 => usize::MAX,
        1 => usize::MAX - 1,
        2 => (usize::MAX / size).saturating_add(1),
        3 => (usize::MAX / size).saturating_add(2),
        4 => isize::MAX as usize,
        5 => 1usize << 63,
        6 => usize::MAX / size,
        _ => usize::MAX / 2 / size + 1,
    }
}

#[derive(Clone, Debug)]
pub struct Op {
    pub op: String,
    pub s: String,
    pub p: String,
    pub ty: String,
    pub i: u64,
    pub j: u64,
    pub vs: Vec<u8>,
    pub how: String,
}
impl Op {
    pub fn parse(l: &str) -> Op {
        let t: Vec<&str> = l.split(' ').collect();
        assert!(t.len() == 8, "bad op line: {l}");
        Op {
            op: t[0].into(),
            s: t[1].into(),
            p: t[2].into(),
            ty: t[3].into(),
            i: t[4].parse().unwrap(),
            j: t[5].parse().unwrap(),
            vs: if t[6] == "-" { vec![] } else { t[6].split(',').map(|x| x.parse().unwrap()).collect() },
            how: t[7].into(),
        }
    }
    pub fn json(&self) -> String {
        format!(
            "{{\"op\":\"{}\",\"s\":\"{}\",\"p\":\"{}\",\"ty\":\"{}\",\"i\":{},\"j\":{},\"vs\":{:?},\"how\":\"{}\"}}",
            self.op, self.s, self.p, self.ty, self.i, self.j, self.vs, self.how
        )
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub k: &'static str,
    pub v: Vec<i64>,
    pub t: String,
}
pub fn r(k: &'static str) -> Res {
    Res { k, v: vec![], t: String::new() }
}
pub fn rv(k: &'static str, v: Vec<i64>) -> Res {
    Res { k, v, t: String::new() }
}
pub fn rt(t: String) -> Res {
    Res { k: "str", v: vec![], t }
}
pub fn rb(b: bool) -> Res {
    r(if b { "true" } else { "false" })
}
pub fn rs(b: bool) -> Res {
    r(if b { "some" } else { "none" })
}

/// Runs with allocation tracking off.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let _t = Track::set(false);
    f()
}
