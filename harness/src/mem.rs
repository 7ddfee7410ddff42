//! Instrumented global allocator: remembers the layout of every block allocated while tracking is
//! on, and logs every operation on such a block.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Mem;

const TABLE: usize = 1 << 14;
const LOG: usize = 1 << 12;

#[derive(Clone, Copy)]
struct Block {
    ptr: usize,
    id: u32,
    size: usize,
    align: usize,
}

#[derive(Clone, Copy, Debug)]
pub enum Ev {
    Alloc(u32, usize, usize),
    Realloc(u32, usize, usize, usize),
    Dealloc(u32, usize, usize),
}

pub struct State {
    blocks: [Block; TABLE],
    pub on: bool,
    next: u32,
    bytes: usize,
    pub log: [Ev; LOG],
    pub nlog: usize,
    pub overflow: bool,
    pub keep_log: bool,
}

struct Holder(UnsafeCell<State>);
unsafe impl Sync for Holder {}
static STATE: Holder = Holder(UnsafeCell::new(State {
    blocks: [Block { ptr: 0, id: 0, size: 0, align: 0 }; TABLE],
    on: false,
    next: 1,
    bytes: 0,
    log: [Ev::Dealloc(0, 0, 0); LOG],
    nlog: 0,
    overflow: false,
    keep_log: false,
}));

#[allow(clippy::mut_from_ref)]
pub fn mem() -> &'static mut State {
    // The harness is single threaded.
    unsafe { &mut *STATE.0.get() }
}

// Open addressing with tombstones (ptr == 1).
fn slot(ptr: usize) -> usize {
    (ptr >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - 14)
}

impl State {
    fn push(&mut self, e: Ev) {
        if !self.keep_log {
            return;
        }
        if self.nlog < LOG {
            self.log[self.nlog] = e;
            self.nlog += 1;
        } else {
            self.overflow = true;
        }
    }
    fn insert(&mut self, b: Block) {
        let mut i = slot(b.ptr);
        for _ in 0..TABLE {
            if self.blocks[i].ptr <= 1 {
                self.blocks[i] = b;
                return;
            }
            i = (i + 1) % TABLE;
        }
        self.overflow = true;
    }
    fn find(&self, ptr: usize) -> Option<usize> {
        let mut i = slot(ptr);
        for _ in 0..TABLE {
            let p = self.blocks[i].ptr;
            if p == ptr {
                return Some(i);
            }
            if p == 0 {
                return None;
            }
            i = (i + 1) % TABLE;
        }
        None
    }
    /// The block containing the given address: (id, start, size, align).
    pub fn block_at(&self, ptr: usize) -> Option<(u32, usize, usize, usize)> {
        if let Some(i) = self.find(ptr) {
            let b = self.blocks[i];
            return Some((b.id, b.ptr, b.size, b.align));
        }
        None
    }
    pub fn outstanding(&self) -> usize {
        self.blocks.iter().filter(|b| b.ptr > 1).count()
    }
    pub fn forget_all(&mut self) {
        for b in self.blocks.iter_mut() {
            b.ptr = 0;
        }
        self.next = 1;
        self.bytes = 0;
        self.nlog = 0;
        self.overflow = false;
    }
}

/// Ends the process, with exit code 4, from anywhere (no allocation, no unwinding).
pub fn ended(what: &'static str) -> ! {
    use std::io::Write;
    let _ = std::io::stderr().write_all(what.as_bytes());
    let _ = std::io::stderr().write_all(b"\n");
    std::process::exit(4);
}

/// Scripts handle a few hundred small elements: this much at once means that the code under test
/// runs away.
const MOST: usize = 1 << 30;
impl State {
    pub fn fresh(&mut self) {
        self.bytes = 0;
    }
    fn grow(&mut self, by: usize) {
        self.bytes += by;
        if self.bytes > MOST {
            ended("more memory at once than any behaviour needs");
        }
    }
}

/// Steps taken so far.
pub static STEPS: AtomicUsize = AtomicUsize::new(0);
extern "C" {
    fn clock() -> i64;
}

/// Ends the process when a single step takes longer (in processor time) than whole scripts do.
pub fn watch() {
    let mut last = (usize::MAX, 0);
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let n = STEPS.load(Ordering::Relaxed);
        let t = unsafe { clock() };
        if last.0 != n {
            last = (n, t);
        } else if t - last.1 > 40_000_000 {
            ended("a step does not come to an end");
        }
    }
}

unsafe impl GlobalAlloc for Mem {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let m = mem();
        if m.on {
            m.grow(l.size());
        }
        let p = System.alloc(l);
        if m.on && !p.is_null() {
            let id = m.next;
            m.next += 1;
            m.insert(Block { ptr: p as usize, id, size: l.size(), align: l.align() });
            m.push(Ev::Alloc(id, l.size(), l.align()));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let m = mem();
        if let Some(i) = m.find(p as usize) {
            let b = m.blocks[i];
            m.blocks[i].ptr = 1;
            m.bytes = m.bytes.saturating_sub(b.size);
            m.push(Ev::Dealloc(b.id, l.size(), l.align()));
            // Use the actual layout, so that a wrong one is reported rather than crashing here.
            System.dealloc(p, Layout::from_size_align_unchecked(b.size, b.align));
        } else {
            System.dealloc(p, l);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        let m = mem();
        if let Some(i) = m.find(p as usize) {
            let b = m.blocks[i];
            m.bytes = m.bytes.saturating_sub(b.size);
            m.grow(new_size);
            let q = System.realloc(p, Layout::from_size_align_unchecked(b.size, b.align), new_size);
            if !q.is_null() {
                m.blocks[i].ptr = 1;
                m.insert(Block { ptr: q as usize, id: b.id, size: new_size, align: b.align });
                m.push(Ev::Realloc(b.id, l.size(), l.align(), new_size));
            }
            q
        } else {
            System.realloc(p, l, new_size)
        }
    }
}

/// Turns tracking on or off for a scope.
pub struct Track(bool);
impl Track {
    pub fn set(on: bool) -> Track {
        let m = mem();
        let old = m.on;
        m.on = on;
        Track(old)
    }
}
impl Drop for Track {
    fn drop(&mut self) {
        mem().on = self.0;
    }
}
