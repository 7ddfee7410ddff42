//! Registry of tracked objects, fault injection, and anomaly log.
//!
//! Each tracked element stores only a one byte handle (so that elements of any size can be
//! tracked); everything else about it lives here. All state is thread local, statically sized and
//! never allocates, so that the harness does not disturb the allocator observations.
use std::cell::UnsafeCell;

pub struct UserPanic;

#[derive(Clone, Copy)]
struct Obj {
    live: bool,
    uid: u32,
    v: u8,
    ty: u8,
}

pub struct Reg {
    objs: [Obj; 256],
    cursor: usize,
    next_uid: u32,
    pub nlive: usize,
    /// Countdown to the injected panic; 0 = disarmed.
    pub fault: u32,
    pub fired: bool,
    /// Number of user callbacks since the last `callbacks_reset`.
    pub callbacks: u32,
    pub bad: [&'static str; 8],
    pub nbad: usize,
}

struct Holder(UnsafeCell<Reg>);
unsafe impl Sync for Holder {}

static REG: Holder = Holder(UnsafeCell::new(Reg {
    objs: [Obj { live: false, uid: 0, v: 0, ty: 0 }; 256],
    cursor: 0,
    next_uid: 1,
    nlive: 0,
    fault: 0,
    fired: false,
    callbacks: 0,
    bad: [""; 8],
    nbad: 0,
}));

#[allow(clippy::mut_from_ref)]
pub fn reg() -> &'static mut Reg {
    // The harness is single threaded.
    unsafe { &mut *REG.0.get() }
}

impl Reg {
    pub fn reset(&mut self) {
        for o in self.objs.iter_mut() {
            o.live = false;
        }
        self.cursor = 0;
        self.next_uid = 1;
        self.nlive = 0;
        self.fault = 0;
        self.fired = false;
        self.callbacks = 0;
        self.nbad = 0;
    }
    pub fn bad(&mut self, what: &'static str) {
        if self.nbad < self.bad.len() {
            self.bad[self.nbad] = what;
            self.nbad += 1;
        }
    }
    pub fn alloc(&mut self, v: u8, ty: u8) -> u8 {
        for _ in 0..255 {
            self.cursor = self.cursor % 255 + 1;
            if !self.objs[self.cursor].live {
                self.objs[self.cursor] = Obj { live: true, uid: self.next_uid, v, ty };
                self.next_uid += 1;
                self.nlive += 1;
                return self.cursor as u8;
            }
        }
        // Far more objects than any script makes: the code under test runs away.
        crate::mem::ended("more objects at once than any behaviour has");
    }
    pub fn take_uid(&mut self) -> u32 {
        self.next_uid += 1;
        self.next_uid - 1
    }
    pub fn peek_uid(&self) -> u32 {
        self.next_uid
    }
    pub fn uid(&self, h: u8) -> u32 {
        self.objs[h as usize].uid
    }
    pub fn v(&self, h: u8) -> u8 {
        self.objs[h as usize].v
    }
    pub fn set_v(&mut self, h: u8, v: u8) {
        self.objs[h as usize].v = v;
    }
    pub fn check(&mut self, h: u8, ty: u8, what: &'static str) -> bool {
        let o = self.objs[h as usize];
        if !o.live || o.ty != ty {
            self.bad(what);
            return false;
        }
        true
    }
    pub fn kill(&mut self, h: u8, ty: u8) {
        let o = &mut self.objs[h as usize];
        if !o.live {
            self.bad("drop of a dead object");
        } else if o.ty != ty {
            self.bad("drop as a wrong type");
        } else {
            o.live = false;
            self.nlive -= 1;
        }
    }
    pub fn live_uids(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.objs.iter().filter(|o| o.live).map(|o| o.uid).collect();
        v.sort_unstable();
        v
    }
    /// A user callback is about to run.
    pub fn callback(&mut self) {
        self.callbacks += 1;
        if self.fault > 0 && !std::thread::panicking() {
            self.fault -= 1;
            if self.fault == 0 {
                self.fired = true;
                std::panic::panic_any(UserPanic);
            }
        }
    }
}
