//! Tracking allocator: while tracking is on, every allocation is recorded, every
//! free is checked (unknown/double/mismatched layout), freed blocks are poisoned and
//! kept in quarantine until tracking ends. Workers are single threaded.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

const CAP: usize = 1 << 16;

#[derive(Clone, Copy)]
struct Slot {
    ptr: usize,
    size: usize,
    align: usize,
    state: u8, // 0 empty, 1 live, 2 freed (quarantined), 3 released tombstone
}
struct Inner {
    on: bool,
    slots: [Slot; CAP],
    used: [u32; CAP], // indices in insertion order
    n_used: usize,
    live: usize,
    errors: [u8; 8],
    n_err: usize,
    overflow: bool,
}
pub struct Tracker(UnsafeCell<Inner>);
unsafe impl Sync for Tracker {}

pub const E_DOUBLE_FREE: u8 = 1;
pub const E_LAYOUT: u8 = 2;
pub const E_ZERO_SIZE: u8 = 3;
pub const E_UAF_WRITE: u8 = 4;

static STATE: Tracker = Tracker(UnsafeCell::new(Inner {
    on: false,
    slots: [Slot { ptr: 0, size: 0, align: 0, state: 0 }; CAP],
    used: [0; CAP],
    n_used: 0,
    live: 0,
    errors: [0; 8],
    n_err: 0,
    overflow: false,
}));

pub struct TrackingAlloc;
#[global_allocator]
static GLOBAL: TrackingAlloc = TrackingAlloc;

fn st() -> &'static mut Inner {
    unsafe { &mut *STATE.0.get() }
}
fn err(i: &mut Inner, e: u8) {
    if i.n_err < 8 {
        i.errors[i.n_err] = e;
        i.n_err += 1;
    }
}
fn hash(p: usize) -> usize {
    (p >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (64 - 16)
}
impl Inner {
    fn find(&self, p: usize) -> Option<usize> {
        let mut h = hash(p);
        loop {
            let s = &self.slots[h];
            if s.state == 0 {
                return None;
            }
            if s.ptr == p && s.state != 3 {
                return Some(h);
            }
            h = (h + 1) & (CAP - 1);
        }
    }
    fn insert(&mut self, p: usize, l: Layout) {
        if self.n_used >= CAP / 2 {
            self.overflow = true;
            return;
        }
        let mut h = hash(p);
        while self.slots[h].state != 0 {
            h = (h + 1) & (CAP - 1);
        }
        self.slots[h] = Slot { ptr: p, size: l.size(), align: l.align(), state: 1 };
        self.used[self.n_used] = h as u32;
        self.n_used += 1;
        self.live += 1;
    }
}

unsafe impl GlobalAlloc for TrackingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let i = st();
        let p = unsafe { System.alloc(l) };
        if i.on && !p.is_null() {
            if l.size() == 0 {
                err(i, E_ZERO_SIZE);
            }
            if l.size() <= 1 << 16 {
                unsafe { std::ptr::write_bytes(p, 0xA5, l.size()) };
            }
            i.insert(p as usize, l);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        let i = st();
        if i.on && !p.is_null() {
            i.insert(p as usize, l);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let i = st();
        if i.on {
            if let Some(h) = i.find(p as usize) {
                if i.slots[h].state == 2 {
                    err(i, E_DOUBLE_FREE);
                    return;
                }
                if i.slots[h].size != l.size() || i.slots[h].align != l.align() {
                    err(i, E_LAYOUT);
                }
                i.slots[h].state = 2;
                i.live -= 1;
                let n = i.slots[h].size;
                if n <= 1 << 16 {
                    unsafe { std::ptr::write_bytes(p, 0xDD, n) };
                } else {
                    // big blocks are released at once
                    let l = unsafe { Layout::from_size_align_unchecked(n, i.slots[h].align) };
                    i.slots[h].state = 3;
                    unsafe { System.dealloc(p, l) };
                }
                return;
            }
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let i = st();
        if i.on && i.find(p as usize).is_some() {
            let nl = unsafe { Layout::from_size_align_unchecked(new, l.align()) };
            let q = unsafe { self.alloc(nl) };
            if !q.is_null() {
                unsafe { std::ptr::copy_nonoverlapping(p, q, l.size().min(new)) };
                unsafe { self.dealloc(p, l) };
            }
            return q;
        }
        unsafe { System.realloc(p, l, new) }
    }
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Report {
    pub leaked: usize,
    pub leaked_bytes: usize,
    pub errors: Vec<u8>,
    pub overflow: bool,
}
impl Report {
    pub fn clean(&self) -> bool {
        self.leaked == 0 && self.errors.is_empty()
    }
    pub fn describe(&self) -> String {
        let mut v = vec![];
        for e in &self.errors {
            v.push(
                match *e {
                    E_DOUBLE_FREE => "double free",
                    E_LAYOUT => "freed with another layout than allocated",
                    E_ZERO_SIZE => "zero-size allocation request",
                    E_UAF_WRITE => "write after free",
                    _ => "?",
                }
                .to_string(),
            );
        }
        v.dedup();
        if self.leaked > 0 {
            v.push(format!("{} allocation(s) leaked ({} bytes)", self.leaked, self.leaked_bytes));
        }
        v.join(", ")
    }
}

pub fn start() {
    let i = st();
    i.on = true;
}
pub fn is_on() -> bool {
    st().on
}
/// Suspend tracking (for harness bookkeeping); returns previous state.
pub fn pause() -> bool {
    let i = st();
    std::mem::replace(&mut i.on, false)
}
pub fn resume(prev: bool) {
    st().on = prev;
}
/// Stop tracking, release the quarantine and whatever leaked, return the report.
pub fn stop() -> Report {
    let i = st();
    i.on = false;
    let mut leaked = 0;
    let mut leaked_bytes = 0;
    let mut uaf = false;
    for k in 0..i.n_used {
        let h = i.used[k] as usize;
        let s = i.slots[h];
        if s.state == 1 {
            leaked += 1;
            leaked_bytes += s.size;
        }
        if s.state == 2 && s.size <= 256 {
            let b = unsafe { std::slice::from_raw_parts(s.ptr as *const u8, s.size) };
            if b.iter().any(|x| *x != 0xDD) {
                uaf = true;
            }
        }
        if s.state == 1 || s.state == 2 {
            let l = unsafe { Layout::from_size_align_unchecked(s.size, s.align) };
            unsafe { System.dealloc(s.ptr as *mut u8, l) };
        }
        i.slots[h].state = 0;
    }
    if uaf {
        err(i, E_UAF_WRITE);
    }
    let errors = i.errors[..i.n_err].to_vec();
    let overflow = i.overflow;
    i.n_err = 0;
    i.n_used = 0;
    i.live = 0;
    i.overflow = false;
    Report { leaked, leaked_bytes, errors, overflow }
}
