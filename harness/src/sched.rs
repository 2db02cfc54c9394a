//! A controlled scheduler for two operations of the library.
//!
//! The library is compiled with a call to `point` at every edge of its control flow (LLVM's
//! coverage instrumentation, see `sched-rustc.sh`). An operation can be stopped at the n-th such
//! point of its execution, another one run, wholly or up to a point of its own, and the first one
//! resumed. Only one of the two runs at a time, unless the one that runs waits for a lock the
//! stopped one holds: then the stopped one resumes.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::thread::Thread;
use std::time::Duration;

const NONE: usize = 2;
static ARMED: AtomicBool = AtomicBool::new(false);
static GUARDS: AtomicU32 = AtomicU32::new(0);
static TURN: AtomicUsize = AtomicUsize::new(NONE);
static DONE: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
static WAITS: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];
static TID: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
static THREAD: [Mutex<Option<Thread>>; 2] = [Mutex::new(None), Mutex::new(None)];
static TRACE: Mutex<Vec<u32>> = Mutex::new(Vec::new());

thread_local! {
    static ROLE: Cell<usize> = const { Cell::new(NONE) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static RECORD: Cell<bool> = const { Cell::new(false) };
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        while p < stop {
            if *p == 0 {
                *p = GUARDS.fetch_add(1, SeqCst) + 1;
            }
            p = p.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if ARMED.load(std::sync::atomic::Ordering::Relaxed) {
        point(unsafe { *guard });
    }
}

/// Number of instrumented edges.
pub fn guards() -> u32 {
    GUARDS.load(SeqCst)
}

fn point(guard: u32) {
    let Ok(me) = ROLE.try_with(|r| r.get()) else { return };
    if me == NONE {
        return;
    }
    let n = COUNT.get() + 1;
    COUNT.set(n);
    if RECORD.get() {
        ROLE.set(NONE);
        TRACE.lock().unwrap().push(guard);
        ROLE.set(me);
    } else if n == LIMIT.get() {
        ROLE.set(NONE);
        hand_over(me);
        ROLE.set(me);
    }
}

fn wake(who: usize) {
    if let Some(t) = THREAD[who].lock().unwrap().as_ref() {
        t.unpark();
    }
}

/// Whether a thread sleeps in the kernel.
fn sleeps(who: usize) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", TID[who].load(SeqCst))).unwrap_or_default();
    s.rsplit(')').next().is_some_and(|r| r.trim_start().starts_with('S'))
}

/// Lets the other operation run until it hands back, ends or is stuck.
fn hand_over(me: usize) {
    let other = 1 - me;
    if DONE[other].load(SeqCst) {
        return;
    }
    WAITS[me].store(true, SeqCst);
    TURN.store(other, SeqCst);
    wake(other);
    wait(me);
}

fn wait(me: usize) {
    let other = 1 - me;
    WAITS[me].store(true, SeqCst);
    let mut asleep = 0;
    let start = std::time::Instant::now();
    for spin in 0u32.. {
        if TURN.load(SeqCst) == me {
            break;
        }
        if spin < 300 {
            std::hint::spin_loop();
            continue;
        }
        std::thread::park_timeout(Duration::from_millis(1));
        // the other one has the turn but waits, asleep or spinning, for something else: go on
        if me == 0 && start.elapsed() > Duration::from_millis(400) {
            break;
        }
        if TURN.load(SeqCst) == other && !WAITS[other].load(SeqCst) && !DONE[other].load(SeqCst) && sleeps(other) {
            asleep += 1;
            if asleep >= 3 {
                break;
            }
        } else {
            asleep = 0;
        }
    }
    WAITS[me].store(false, SeqCst);
}

fn finish(me: usize) {
    ROLE.set(NONE);
    DONE[me].store(true, SeqCst);
    TURN.store(1 - me, SeqCst);
    wake(1 - me);
}

fn tid() -> usize {
    unsafe { libc::syscall(libc::SYS_gettid) as usize }
}

type Job = Box<dyn FnOnce() -> String + Send>;

struct Partner {
    job: std::sync::mpsc::Sender<(Job, usize)>,
    out: std::sync::mpsc::Receiver<Option<String>>,
}

fn partner() -> &'static Mutex<Partner> {
    static P: OnceLock<Mutex<Partner>> = OnceLock::new();
    P.get_or_init(|| {
        let (job, rx) = std::sync::mpsc::channel::<(Job, usize)>();
        let (tx, out) = std::sync::mpsc::channel();
        let (up, ready) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            *THREAD[1].lock().unwrap() = Some(std::thread::current());
            TID[1].store(tid(), SeqCst);
            up.send(()).unwrap();
            while let Ok((job, limit)) = rx.recv() {
                wait(1);
                COUNT.set(0);
                LIMIT.set(limit);
                ROLE.set(1);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job)).ok();
                finish(1);
                tx.send(r).unwrap();
            }
        });
        ready.recv().unwrap();
        Mutex::new(Partner { job, out })
    })
}

/// The edges an operation takes, in order.
pub fn record<R>(f: impl FnOnce() -> R) -> (R, Vec<u32>) {
    TRACE.lock().unwrap().clear();
    COUNT.set(0);
    RECORD.set(true);
    ARMED.store(true, SeqCst);
    ROLE.set(0);
    let r = f();
    ROLE.set(NONE);
    ARMED.store(false, SeqCst);
    RECORD.set(false);
    (r, std::mem::take(&mut *TRACE.lock().unwrap()))
}

/// Positions (from 1) of the first `visits` and of the last visit of every edge of a trace.
pub fn points(trace: &[u32], visits: usize) -> Vec<usize> {
    let mut left: std::collections::HashMap<u32, usize> = Default::default();
    for g in trace {
        *left.entry(*g).or_default() += 1;
    }
    let mut seen: std::collections::HashMap<u32, usize> = Default::default();
    let mut out = vec![];
    for (i, g) in trace.iter().enumerate() {
        let s = seen.entry(*g).or_default();
        *s += 1;
        if *s <= visits || *s == left[g] {
            out.push(i + 1);
        }
    }
    out
}

/// Runs `a` up to its point `at`, then `b` up to its point `bt` (to its end if it has none), then
/// `a` to its end, then `b` to its end. `None` for an operation that panics.
pub fn interleave(a: impl FnOnce() -> String, at: usize, b: Job, bt: usize) -> (Option<String>, Option<String>) {
    let p = partner().lock().unwrap();
    *THREAD[0].lock().unwrap() = Some(std::thread::current());
    TID[0].store(tid(), SeqCst);
    DONE[0].store(false, SeqCst);
    DONE[1].store(false, SeqCst);
    WAITS[0].store(false, SeqCst);
    WAITS[1].store(true, SeqCst);
    TURN.store(0, SeqCst);
    ARMED.store(true, SeqCst);
    p.job.send((b, bt)).unwrap();
    COUNT.set(0);
    LIMIT.set(at);
    ROLE.set(0);
    let ra = std::panic::catch_unwind(std::panic::AssertUnwindSafe(a)).ok();
    finish(0);
    let rb = p.out.recv().unwrap();
    ARMED.store(false, SeqCst);
    (ra, rb)
}
