//! Concrete element types the specification's abstract types are bound to.
//!
//! Every element has a value `v` (0..=7). Non-`Copy` elements also have an identity, kept in the
//! registry, so that duplication, loss and use after drop are observable. All bytes of an element
//! are derived from its handle or value, so that a torn or shifted element is observable too.
use crate::reg::reg;
use std::fmt;
use std::hash::{Hash, Hasher};

pub trait El: Clone + PartialEq + Eq + Hash + fmt::Debug + Full + Sized + 'static {
    const COPY: bool;
    /// Does dropping it do anything?
    const DROP: bool = !Self::COPY;
    const NAME: &'static str;
    fn new(v: u8) -> Self;
    /// Identity (0 for copyable elements). Also verifies that this is a whole live element.
    fn id(&self) -> u32;
    fn val(&self) -> u8;
}

pub trait CopyEl: El + Copy {}

#[dync::dync_trait]
pub trait Full: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug {}

/// The bytes that are given a pattern: all, but of large elements only some.
fn idx(n: usize) -> impl Iterator<Item = usize> {
    (0..n).step_by(if n > 13000 { 1021 } else { 1 }).chain(n.checked_sub(1))
}

fn pat(h: u8, i: usize) -> u8 {
    h.wrapping_mul(31).wrapping_add((i as u8).wrapping_mul(7)).wrapping_add((i >> 8) as u8) ^ 0x5a
}

/// Values 0..=6 are equal modulo 4; 7 is not equal to anything.
fn eqv(a: u8, b: u8) -> bool {
    a != 7 && b != 7 && a % 4 == b % 4
}

fn dbg(v: u8, f: &mut fmt::Formatter) -> fmt::Result {
    // Shows the options it is asked to format with; pad applies fill, alignment and width.
    let mut b = [0u8; 8];
    let mut n = 0;
    let mut put = |c| {
        b[n] = c;
        n += 1;
    };
    if f.alternate() {
        put(b'#');
    }
    if f.sign_plus() {
        put(b'+');
    }
    put(b'v');
    put(b'0' + v);
    if let Some(p) = f.precision() {
        put(b'.');
        put(b'0' + p as u8);
    }
    f.pad(std::str::from_utf8(&b[..n]).unwrap())
}

macro_rules! common {
    ($t:ident) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                let (a, b) = (self.val(), o.val());
                reg().callback();
                eqv(a, b)
            }
        }
        impl Eq for $t {}
        impl Hash for $t {
            fn hash<H: Hasher>(&self, h: &mut H) {
                let a = self.val();
                reg().callback();
                h.write_u8(a % 4);
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                let a = self.val();
                reg().callback();
                dbg(a, f)
            }
        }
        impl Full for $t {}
    };
}

macro_rules! tracked {
    ($t:ident, $name:expr, $size:expr, $align:expr, $tag:expr) => {
        #[repr(C, align($align))]
        pub struct $t {
            h: u8,
            pad: [u8; $size - 1],
        }
        impl $t {
            fn of(h: u8) -> Self {
                let mut pad = [0u8; $size - 1];
                for i in idx(pad.len()) {
                    pad[i] = pat(h, i);
                }
                $t { h, pad }
            }
            fn touch(&self) -> bool {
                if (self as *const Self as usize) % $align != 0 {
                    reg().bad("misaligned");
                }
                for i in idx(self.pad.len()) {
                    if self.pad[i] != pat(self.h, i) {
                        reg().bad("torn");
                        return false;
                    }
                }
                reg().check(self.h, $tag, "dead-object-used")
            }
        }
        impl El for $t {
            const COPY: bool = false;
            const NAME: &'static str = $name;
            fn new(v: u8) -> Self {
                Self::of(reg().alloc(v, $tag))
            }
            fn id(&self) -> u32 {
                if self.touch() {
                    reg().uid(self.h)
                } else {
                    999999
                }
            }
            fn val(&self) -> u8 {
                if self.touch() {
                    reg().v(self.h)
                } else {
                    99
                }
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                let v = self.val();
                reg().callback();
                Self::of(reg().alloc(v, $tag))
            }
            // Keeps the identity of the target, so that it is distinguishable from `clone`.
            fn clone_from(&mut self, o: &Self) {
                let v = o.val();
                let ok = self.touch();
                reg().callback();
                if ok {
                    reg().set_v(self.h, v);
                }
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                if (self as *const Self as usize) % $align != 0 {
                    reg().bad("misaligned drop");
                }
                let mut torn = false;
                for i in idx(self.pad.len()) {
                    torn |= self.pad[i] != pat(self.h, i);
                }
                if torn {
                    reg().bad("torn drop");
                } else {
                    reg().kill(self.h, $tag);
                }
                reg().callback();
            }
        }
        common!($t);
    };
}

macro_rules! copyel {
    ($t:ident, $name:expr, $size:expr, $align:expr) => {
        #[derive(Copy)]
        #[repr(C, align($align))]
        pub struct $t {
            h: u8,
            pad: [u8; $size - 1],
        }
        impl $t {
            fn touch(&self) -> bool {
                if (self as *const Self as usize) % $align != 0 {
                    reg().bad("misaligned");
                }
                for i in idx(self.pad.len()) {
                    if self.pad[i] != pat(self.h, i) {
                        reg().bad("torn");
                        return false;
                    }
                }
                true
            }
        }
        impl El for $t {
            const COPY: bool = true;
            const NAME: &'static str = $name;
            fn new(v: u8) -> Self {
                let h = v + 64;
                let mut pad = [0u8; $size - 1];
                for i in idx(pad.len()) {
                    pad[i] = pat(h, i);
                }
                $t { h, pad }
            }
            fn id(&self) -> u32 {
                self.touch();
                0
            }
            fn val(&self) -> u8 {
                if self.touch() {
                    self.h.wrapping_sub(64)
                } else {
                    99
                }
            }
        }
        impl CopyEl for $t {}
        impl Clone for $t {
            fn clone(&self) -> Self {
                self.touch();
                reg().callback();
                *self
            }
        }
        common!($t);
    };
}

/// Types without drop glue that are not `Copy` either: every object has an identity of its own, so
/// that a bitwise copy is distinguishable from a clone, but nothing notices when it goes away.
macro_rules! plain {
    ($t:ident, $name:expr, $size:expr, $align:expr) => {
        #[repr(C, align($align))]
        pub struct $t {
            uid: u32,
            v: u8,
            pad: [u8; $size - 5],
        }
        impl $t {
            fn touch(&self) -> bool {
                if (self as *const Self as usize) % $align != 0 {
                    reg().bad("misaligned");
                }
                for i in idx(self.pad.len()) {
                    if self.pad[i] != pat(self.uid as u8, i) {
                        reg().bad("torn");
                        return false;
                    }
                }
                true
            }
        }
        impl El for $t {
            const COPY: bool = false;
            const DROP: bool = false;
            const NAME: &'static str = $name;
            fn new(v: u8) -> Self {
                let uid = reg().take_uid();
                let mut pad = [0u8; $size - 5];
                for i in idx(pad.len()) {
                    pad[i] = pat(uid as u8, i);
                }
                $t { uid, v, pad }
            }
            fn id(&self) -> u32 {
                if self.touch() {
                    self.uid
                } else {
                    999999
                }
            }
            fn val(&self) -> u8 {
                if self.touch() {
                    self.v
                } else {
                    99
                }
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                let v = self.val();
                reg().callback();
                Self::new(v)
            }
            fn clone_from(&mut self, o: &Self) {
                let v = o.val();
                self.touch();
                reg().callback();
                self.v = v;
            }
        }
        common!($t);
    };
}

#[cfg(not(any(feature = "wide", feature = "huge")))]
mod layouts {
    use super::*;
    plain!(P8, "p8", 8, 8);
    plain!(P12, "p12", 12, 4);
    tracked!(D1, "d1", 1, 1, 1);
    tracked!(D2, "d2", 2, 2, 2);
    tracked!(D3, "d3", 3, 1, 3);
    tracked!(D6, "d6", 6, 2, 4);
    tracked!(D8, "d8", 8, 8, 5);
    tracked!(D8B, "d8b", 8, 8, 6);
    tracked!(D8A1, "d8a1", 8, 1, 13);
    tracked!(D12, "d12", 12, 4, 7);
    tracked!(D24, "d24", 24, 8, 8);
    tracked!(D24B, "d24b", 24, 8, 9);
    tracked!(D32, "d32", 32, 16, 10);
    tracked!(D192, "d192", 192, 64, 11);
    tracked!(D1536, "d1536", 1536, 512, 12);
    copyel!(C1, "c1", 1, 1);
    copyel!(C3, "c3", 3, 1);
    copyel!(C4, "c4", 4, 4);
    copyel!(C6, "c6", 6, 2);
    copyel!(C8, "c8", 8, 8);
    copyel!(C8B, "c8b", 8, 8);
    copyel!(C8A2, "c8a2", 8, 2);
    copyel!(C12, "c12", 12, 4);
    copyel!(C48, "c48", 48, 16);
    copyel!(C192, "c192", 192, 64);
}
/// The same names with other layouts.
#[cfg(feature = "wide")]
mod layouts {
    use super::*;
    plain!(P8, "p8", 8, 4);
    plain!(P12, "p12", 8192, 8192);
    tracked!(D1, "d1", 5, 1, 1);
    tracked!(D2, "d2", 32, 32, 2);
    tracked!(D3, "d3", 257, 1, 3);
    tracked!(D6, "d6", 20, 4, 4);
    tracked!(D8, "d8", 8, 4, 5);
    tracked!(D8B, "d8b", 8, 4, 6);
    tracked!(D8A1, "d8a1", 8, 2, 13);
    tracked!(D12, "d12", 640, 128, 7);
    tracked!(D24, "d24", 72, 8, 8);
    tracked!(D24B, "d24b", 72, 8, 9);
    tracked!(D32, "d32", 1024, 1024, 10);
    tracked!(D192, "d192", 768, 256, 11);
    tracked!(D1536, "d1536", 12288, 4096, 12);
    copyel!(C1, "c1", 33, 1);
    copyel!(C3, "c3", 15, 1);
    copyel!(C4, "c4", 32, 32);
    copyel!(C6, "c6", 36, 4);
    copyel!(C8, "c8", 8, 4);
    copyel!(C8B, "c8b", 8, 4);
    copyel!(C8A2, "c8a2", 8, 1);
    copyel!(C12, "c12", 128, 128);
    copyel!(C48, "c48", 256, 256);
    copyel!(C192, "c192", 2048, 2048);
}
/// The same names with great alignments.
#[cfg(feature = "huge")]
mod layouts {
    use super::*;
    plain!(P8, "p8", 8, 8);
    plain!(P12, "p12", 131072, 131072);
    tracked!(D1, "d1", 1, 1, 1);
    tracked!(D2, "d2", 2, 2, 2);
    tracked!(D3, "d3", 3, 1, 3);
    tracked!(D6, "d6", 6, 2, 4);
    tracked!(D8, "d8", 8, 8, 5);
    tracked!(D8B, "d8b", 8, 8, 6);
    tracked!(D8A1, "d8a1", 8, 1, 13);
    tracked!(D12, "d12", 65536, 32768, 7);
    tracked!(D24, "d24", 16384, 16384, 8);
    tracked!(D24B, "d24b", 16384, 16384, 9);
    tracked!(D32, "d32", 262144, 262144, 10);
    tracked!(D192, "d192", 196608, 65536, 11);
    tracked!(D1536, "d1536", 1048576, 1048576, 12);
    copyel!(C1, "c1", 1, 1);
    copyel!(C3, "c3", 3, 1);
    copyel!(C4, "c4", 4, 4);
    copyel!(C6, "c6", 6, 2);
    copyel!(C8, "c8", 8, 8);
    copyel!(C8B, "c8b", 8, 8);
    copyel!(C8A2, "c8a2", 8, 2);
    copyel!(C12, "c12", 524288, 524288);
    copyel!(C48, "c48", 32768, 16384);
    copyel!(C192, "c192", 131072, 131072);
}
pub use layouts::*;

/// A copyable element with padding bytes.
#[derive(Copy)]
#[repr(C)]
pub struct CPad {
    a: u8,
    b: u32,
}
impl El for CPad {
    const COPY: bool = true;
    const NAME: &'static str = "cpad";
    fn new(v: u8) -> Self {
        CPad { a: v, b: 0x0101_0101 * v as u32 + 0x0903_0507 }
    }
    fn id(&self) -> u32 {
        0
    }
    fn val(&self) -> u8 {
        if (self as *const Self as usize) % 4 != 0 {
            reg().bad("misaligned");
        }
        if self.b != 0x0101_0101 * self.a as u32 + 0x0903_0507 {
            reg().bad("torn");
            return 99;
        }
        self.a
    }
}
impl CopyEl for CPad {}
impl Clone for CPad {
    fn clone(&self) -> Self {
        reg().callback();
        *self
    }
}
common!(CPad);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    D1, D2, D3, D6, D8, D8B, D8A1, D12, D24, D24B, D32, D192, D1536, P8, P12,
    C1, C3, C4, C6, C8, C8B, C8A2, C12, C48, C192, CPad,
}

pub const ALL: &[(Ty, &str)] = &[
    (Ty::D1, "d1"), (Ty::D2, "d2"), (Ty::D3, "d3"), (Ty::D6, "d6"), (Ty::D8, "d8"),
    (Ty::D8B, "d8b"), (Ty::D8A1, "d8a1"), (Ty::D12, "d12"), (Ty::D24, "d24"), (Ty::D24B, "d24b"), (Ty::D32, "d32"),
    (Ty::D192, "d192"), (Ty::D1536, "d1536"), (Ty::P8, "p8"), (Ty::P12, "p12"), (Ty::C1, "c1"), (Ty::C3, "c3"), (Ty::C4, "c4"),
    (Ty::C6, "c6"), (Ty::C8, "c8"), (Ty::C8B, "c8b"), (Ty::C8A2, "c8a2"), (Ty::C12, "c12"), (Ty::C48, "c48"),
    (Ty::C192, "c192"), (Ty::CPad, "cpad"),
];

pub fn ty_of(name: &str) -> Ty {
    ALL.iter().find(|x| x.1 == name).unwrap_or_else(|| panic!("no such type {name}")).0
}

/// Runs `$e` with `$T` bound to the copyable type tagged `$t`; `$else` for the others.
#[macro_export]
macro_rules! with_copy {
    ($t:expr, $T:ident => $e:expr, else $else:expr) => {
        match $t {
            Ty::C1 => { type $T = C1; $e }
            Ty::C3 => { type $T = C3; $e }
            Ty::C4 => { type $T = C4; $e }
            Ty::C6 => { type $T = C6; $e }
            Ty::C8 => { type $T = C8; $e }
            Ty::C8B => { type $T = C8B; $e }
            Ty::C8A2 => { type $T = C8A2; $e }
            Ty::C12 => { type $T = C12; $e }
            Ty::C48 => { type $T = C48; $e }
            Ty::C192 => { type $T = C192; $e }
            Ty::CPad => { type $T = CPad; $e }
            _ => $else,
        }
    };
}

/// Runs `$e` with `$T` bound to the type tagged `$t`.
#[macro_export]
macro_rules! with_ty {
    ($t:expr, $T:ident => $e:expr) => {
        match $t {
            Ty::D1 => { type $T = D1; $e }
            Ty::D2 => { type $T = D2; $e }
            Ty::D3 => { type $T = D3; $e }
            Ty::D6 => { type $T = D6; $e }
            Ty::D8 => { type $T = D8; $e }
            Ty::D8B => { type $T = D8B; $e }
            Ty::D8A1 => { type $T = D8A1; $e }
            Ty::D12 => { type $T = D12; $e }
            Ty::D24 => { type $T = D24; $e }
            Ty::D24B => { type $T = D24B; $e }
            Ty::D32 => { type $T = D32; $e }
            Ty::D192 => { type $T = D192; $e }
            Ty::D1536 => { type $T = D1536; $e }
            Ty::P8 => { type $T = P8; $e }
            Ty::P12 => { type $T = P12; $e }
            Ty::C1 => { type $T = C1; $e }
            Ty::C3 => { type $T = C3; $e }
            Ty::C4 => { type $T = C4; $e }
            Ty::C6 => { type $T = C6; $e }
            Ty::C8 => { type $T = C8; $e }
            Ty::C8B => { type $T = C8B; $e }
            Ty::C8A2 => { type $T = C8A2; $e }
            Ty::C12 => { type $T = C12; $e }
            Ty::C48 => { type $T = C48; $e }
            Ty::C192 => { type $T = C192; $e }
            Ty::CPad => { type $T = CPad; $e }
        }
    };
}

pub struct Info {
    pub size: usize,
    pub align: usize,
    pub copy: bool,
    pub drop: bool,
    pub tid: std::any::TypeId,
}

pub fn info(t: Ty) -> Info {
    with_ty!(t, T => Info {
        size: std::mem::size_of::<T>(),
        align: std::mem::align_of::<T>(),
        copy: <T as El>::COPY,
        drop: <T as El>::DROP,
        tid: std::any::TypeId::of::<T>(),
    })
}
