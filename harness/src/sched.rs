//! A controlled scheduler for two parses: every allocation inside giron is a scheduling point, and a schedule is the
//! list of points at which the running parse is preempted. (The global allocator is the only place giron calls out to
//! that exists without changing giron.)
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::{Duration, Instant};

/// schedules that left control so far
pub static LOST: AtomicUsize = AtomicUsize::new(0);

pub struct Sched {
    pub turn: AtomicUsize,
    pub done: [AtomicBool; 2],
    pub steps: [AtomicU64; 2],
    /// switch when the running thread's own step count reaches this (u64::MAX: never), in order of use
    pub cut: [AtomicU64; 4],
    pub next: AtomicUsize,
    /// a parse waited on the other one outside the scheduler's control (a lock): the schedule ran uncontrolled
    pub lost: AtomicBool,
}

thread_local! {
    static S: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
    static ME: Cell<usize> = const { Cell::new(0) };
}

impl Sched {
    pub fn new() -> Sched {
        Sched {
            turn: 0.into(),
            done: [false.into(), false.into()],
            steps: [0.into(), 0.into()],
            cut: [u64::MAX.into(), u64::MAX.into(), u64::MAX.into(), u64::MAX.into()],
            next: 0.into(),
            lost: false.into(),
        }
    }
    pub fn arm(&self, first: usize, cuts: &[u64]) {
        for i in 0..2 {
            self.done[i].store(false, SeqCst);
            self.steps[i].store(0, SeqCst);
        }
        for i in 0..4 {
            self.cut[i].store(cuts.get(i).copied().unwrap_or(u64::MAX), SeqCst);
        }
        self.next.store(0, SeqCst);
        self.lost.store(false, SeqCst);
        self.turn.store(first, SeqCst);
    }
    fn wait(&self, me: usize) {
        let mut n = 0u32;
        let mut seen = self.steps[1 - me].load(Relaxed);
        let mut since: Option<Instant> = None;
        while self.turn.load(Acquire) != me {
            n += 1;
            if n < 2000 {
                std::hint::spin_loop();
                continue;
            }
            std::thread::yield_now();
            if n % 64 == 0 {
                let s = self.steps[1 - me].load(Relaxed);
                if s != seen || since.is_none() {
                    seen = s;
                    since = Some(Instant::now());
                } else if since.unwrap().elapsed() > Duration::from_millis(200) {
                    self.lost.store(true, SeqCst);
                    LOST.fetch_add(1, Relaxed);
                    return;
                }
            }
        }
    }
    /// Run `f` as parse `me` under this schedule.
    pub fn run<T>(&self, me: usize, f: impl FnOnce() -> T) -> T {
        self.wait(me);
        ME.with(|m| m.set(me));
        S.with(|s| s.set(self));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        S.with(|s| s.set(std::ptr::null()));
        self.done[me].store(true, SeqCst);
        self.turn.store(1 - me, SeqCst);
        match r {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

/// Called by the allocator.
#[inline]
pub fn point() {
    let _ = S.try_with(|s| {
        let p = s.get();
        if !p.is_null() {
            let s = unsafe { &*p };
            let me = ME.with(|m| m.get());
            let k = s.steps[me].fetch_add(1, Relaxed) + 1;
            let i = s.next.load(Relaxed);
            if i < 4 && s.cut[i].load(Relaxed) == k && !s.lost.load(Relaxed) && !s.done[1 - me].load(SeqCst) {
                s.next.store(i + 1, SeqCst);
                s.turn.store(1 - me, SeqCst);
                s.wait(me);
            }
        }
    });
}
