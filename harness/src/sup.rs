//! Supervision: the check runs in a child process whose workers journal the text they are on, so that a crash, a
//! hang or runaway allocation inside giron is attributed to a text, confirmed alone and reported.
use crate::refp::Goal;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

pub const SLOTS: usize = 64;
pub const SLOT: usize = 1 << 20;
/// net growth within one parse beyond which it counts as unbounded
const ALLOC_LIMIT: i64 = 768 << 20;
/// seconds of one parse beyond which it counts as a hang (a parse of these texts takes microseconds)
pub const HANG_S: u64 = 30;

pub const EXIT_GIRON_ALLOC: i32 = 71;
pub const EXIT_GIRON_HANG: i32 = 72;
pub const EXIT_MODEL_HANG: i32 = 73;

static JOURNAL: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static NEXT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static IDX: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN: Cell<bool> = const { Cell::new(false) };
    static NET: Cell<i64> = const { Cell::new(0) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        crate::sched::point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        crate::sched::point();
        System.realloc(p, l, n)
    }
}
fn count(n: i64) {
    let _ = IN.try_with(|i| {
        if i.get() {
            let _ = NET.try_with(|t| {
                let v = t.get() + n;
                t.set(v);
                if v > ALLOC_LIMIT {
                    unsafe { libc::_exit(EXIT_GIRON_ALLOC) }
                }
            });
        }
    });
}

// Slot layout: u32 phase (0 idle, 1 in giron, 2 in the model), u32 goal, u64 seq, u32 len, bytes
fn slot() -> Option<*mut u8> {
    let j = JOURNAL.load(Relaxed);
    if j.is_null() {
        return None;
    }
    let i = IDX.with(|c| {
        if c.get() == usize::MAX {
            c.set(NEXT.fetch_add(1, Relaxed));
        }
        c.get()
    });
    if i >= SLOTS {
        None
    } else {
        Some(unsafe { j.add(i * SLOT) })
    }
}
/// give the slot of a finished thread back is not needed: NEXT is reset between phases
pub fn reset_slots() {
    NEXT.store(1, Relaxed);
}

pub fn enter(src: &str, goal: Goal) {
    if let Some(p) = slot() {
        unsafe {
            let b = src.as_bytes();
            let n = b.len().min(SLOT - 32);
            *(p.add(4) as *mut u32) = (goal == Goal::Module) as u32;
            *(p.add(16) as *mut u32) = n as u32;
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(24), n);
            (*(p.add(8) as *const AtomicU64)).fetch_add(1, Release);
            *(p as *mut u32) = 1;
        }
    }
    NET.with(|n| n.set(0));
    IN.with(|i| i.set(true));
}
pub fn leave() {
    IN.with(|i| i.set(false));
    if let Some(p) = slot() {
        unsafe {
            *(p as *mut u32) = 0;
            (*(p.add(8) as *const AtomicU64)).fetch_add(1, Release);
        }
    }
}
pub fn model_phase(on: bool) {
    if let Some(p) = slot() {
        unsafe {
            *(p as *mut u32) = if on { 2 } else { 0 };
            (*(p.add(8) as *const AtomicU64)).fetch_add(1, Release);
        }
    }
}
pub fn last_panic() -> String {
    PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

pub fn child_init(journal: Option<&str>) {
    std::panic::set_hook(Box::new(|i| {
        let was = IN.with(|c| c.replace(false));
        let m = format!("{}", i).replace('\n', " ");
        if was {
            PANIC.with(|p| *p.borrow_mut() = m);
        } else {
            eprintln!("ENGINE PANIC: {}", m);
        }
    }));
    if let Some(f) = journal {
        let file = std::fs::OpenOptions::new().read(true).write(true).open(f).expect("journal");
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOTS * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                file.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        JOURNAL.store(p as *mut u8, Release);
        std::thread::spawn(watchdog);
    }
}

fn watchdog() {
    let j = JOURNAL.load(Acquire);
    let mut seen = vec![(0u64, Instant::now()); SLOTS];
    loop {
        std::thread::sleep(Duration::from_millis(500));
        for (i, s) in seen.iter_mut().enumerate() {
            unsafe {
                let p = j.add(i * SLOT);
                let phase = std::ptr::read_volatile(p as *const u32);
                let seq = (*(p.add(8) as *const AtomicU64)).load(Acquire);
                if phase == 0 || seq != s.0 {
                    *s = (seq, Instant::now());
                } else if s.1.elapsed() > Duration::from_secs(HANG_S) {
                    libc::_exit(if phase == 1 { EXIT_GIRON_HANG } else { EXIT_MODEL_HANG });
                }
            }
        }
    }
}

/// What each worker was parsing when the child ended.
pub fn read_journal(f: &str) -> Vec<(u32, Goal, String)> {
    let b = std::fs::read(f).unwrap_or_default();
    let mut out = vec![];
    for i in 0..SLOTS {
        let s = i * SLOT;
        if s + SLOT > b.len() {
            break;
        }
        let u = |o: usize| u32::from_ne_bytes(b[s + o..s + o + 4].try_into().unwrap());
        let phase = u(0);
        if phase != 0 {
            let n = (u(16) as usize).min(SLOT - 32);
            let t = String::from_utf8_lossy(&b[s + 24..s + 24 + n]).to_string();
            out.push((phase, if u(4) == 1 { Goal::Module } else { Goal::Script }, t));
        }
    }
    out
}
