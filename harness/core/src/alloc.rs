//! Counting allocator with a hard cap on a single request, and the journal that names the case in
//! execution when the process dies.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fs::File;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicUsize, Ordering::{Relaxed, SeqCst}};

pub struct Counting;

/// A request of this size or more is refused (the process then aborts), and so is one that brings
/// what is measured to as much.
pub const CAP: usize = 1 << 30;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(0) };
}

fn note(add: i64, req: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|l| {
                l.set(l.get() + add);
                PEAK.with(|p| p.set(p.get().max(l.get())));
            });
            MAXREQ.with(|m| m.set(m.get().max(req)));
        }
    });
}

fn refuse(size: usize) -> bool {
    let live = LIVE.try_with(|l| l.get()).unwrap_or(0).max(0) as usize;
    if size >= CAP || live >= CAP && ON.try_with(|on| on.get()).unwrap_or(false) {
        let slot = SLOT.try_with(|s| s.get()).unwrap_or(0);
        journal_big(slot, size);
        true
    } else {
        false
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        note(l.size() as i64, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        note(l.size() as i64, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), 0);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if refuse(new) {
            return std::ptr::null_mut();
        }
        // The old block lives until the copy is made.
        note(new as i64, new);
        let q = System.realloc(p, l, new);
        note(-(l.size() as i64), 0);
        q
    }
}

/// Peak live bytes and largest single request during `f` (both relative to its start).
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, usize, usize) {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    MAXREQ.with(|l| l.set(0));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, PEAK.with(|p| p.get()).max(0) as usize, MAXREQ.with(|m| m.get()))
}

// ---------------------------------------------------------------------------------------------
// Journal: a shared mapping of a file of fixed-size slots, one per thread:
//   [state u64][big request u64][len u64][payload..]
// state: 0 idle, else the sequence number of the running case (used by the watchdog).  The file
// survives the death of the process.
pub const SLOT_LEN: usize = 1 << 21;
const HDR: usize = 24;

static JOURNAL: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub fn open_journal(path: &str, slots: usize) {
    let f = File::options().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    let len = SLOT_LEN * slots;
    f.set_len(len as u64).unwrap();
    // PROT_READ | PROT_WRITE, MAP_SHARED
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap of the journal failed");
    JOURNAL.store(p as usize, SeqCst);
}
pub fn set_slot(i: usize) {
    SLOT.with(|s| s.set(i));
}
fn slot_ptr(slot: usize) -> Option<*mut u8> {
    let p = JOURNAL.load(Relaxed);
    if p == 0 {
        None
    } else {
        Some((p + slot * SLOT_LEN) as *mut u8)
    }
}
fn journal_big(slot: usize, size: usize) {
    if let Some(p) = slot_ptr(slot) {
        unsafe { std::ptr::write_volatile(p.add(8) as *mut u64, size as u64) }
    }
}
pub fn journal_set(seq: u64, payload: &[u8]) {
    if let Some(p) = slot_ptr(SLOT.with(|s| s.get())) {
        let n = payload.len().min(SLOT_LEN - HDR);
        unsafe {
            std::ptr::copy_nonoverlapping(payload.as_ptr(), p.add(HDR), n);
            std::ptr::write_volatile(p.add(8) as *mut u64, 0);
            std::ptr::write_volatile(p.add(16) as *mut u64, n as u64);
            std::ptr::write_volatile(p as *mut u64, seq);
        }
    }
}
pub fn journal_clear() {
    if let Some(p) = slot_ptr(SLOT.with(|s| s.get())) {
        unsafe { std::ptr::write_volatile(p as *mut u64, 0) }
    }
}
/// The running case of a slot (for the watchdog).
pub fn peek_seq(slot: usize) -> u64 {
    match slot_ptr(slot) {
        Some(p) => unsafe { std::ptr::read_volatile(p as *const u64) },
        None => 0,
    }
}
