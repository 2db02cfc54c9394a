//! Exhaustive-enumeration engine.
//!
//! A check is a list of stages; a stage is a finite index set `0..n` and a case
//! function. All indices of all stages are executed. Calls into the code under test
//! are bracketed by `Ctx::sut`, so that a panic, an abort, a runaway allocation or a
//! hang inside the bracket is a violation, while the same outside is an engine error.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
/// A single allocation above this inside a bracket fails (and so aborts).
const ALLOC_CAP: usize = 1 << 30;
/// A bracket that does not end within this many seconds is taken for a hang.
const HANG_SECS: u64 = 60;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

// ---------------------------------------------------------------- allocator

pub struct Counting;

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static MAX_ALLOC: Cell<usize> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

fn note(n: usize) -> bool {
    if n < 4096 {
        return true;
    }
    let in_sut = IN_SUT.try_with(Cell::get).unwrap_or(false);
    if in_sut {
        let _ = MAX_ALLOC.try_with(|m| m.set(m.get().max(n)));
        return n <= ALLOC_CAP;
    }
    true
}

// ---------------------------------------------------------------- breadcrumbs

#[repr(C)]
struct Slot {
    stage: AtomicU32,
    in_sut: AtomicU32,
    index: AtomicU64,
    seq: AtomicU64,
}

struct Shared {
    slots: *const Slot,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

impl Shared {
    fn new() -> Self {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shared { slots: p as *const Slot }
    }
    fn slot(&self, i: usize) -> &Slot {
        assert!(i < 64);
        unsafe { &*self.slots.add(i) }
    }
}

// ---------------------------------------------------------------- contexts

pub struct Ctx<'a> {
    slot: &'a Slot,
    pub calls: u64,
    pub compared: u64,
    states: Vec<u64>,
    want_sample: bool,
    sample: Option<String>,
}

impl<'a> Ctx<'a> {
    /// Runs code under test. A panic is an error for the case.
    pub fn sut<R>(&mut self, what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
        self.calls += 1;
        self.slot.seq.fetch_add(1, Relaxed);
        self.slot.in_sut.store(1, SeqCst);
        IN_SUT.with(|c| c.set(true));
        MAX_ALLOC.with(|c| c.set(0));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_SUT.with(|c| c.set(false));
        self.slot.in_sut.store(0, SeqCst);
        r.map_err(|_| format!("{what} panicked: {}", PANIC_MSG.with(|m| m.borrow().clone())))
    }

    /// Like `sut`, for fallible operations: only Ok/Err is kept, not the error kind.
    pub fn try_sut<R, E: std::fmt::Debug>(
        &mut self,
        what: &str,
        f: impl FnOnce() -> Result<R, E>,
    ) -> Result<Result<R, String>, String> {
        Ok(self.sut(what, f)?.map_err(|e| format!("{e:?}")))
    }

    /// Largest single allocation (>= 4 KiB) made by the last bracket.
    pub fn max_alloc(&self) -> usize {
        MAX_ALLOC.with(Cell::get)
    }

    /// Records a distinct model state or input.
    pub fn state(&mut self, bytes: &[u8]) {
        let mut h: u64 = 0xcbf29ce484222325 ^ (bytes.len() as u64).wrapping_mul(0x9E3779B97F4A7C15);
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0xff51afd7ed558ccd);
            h ^= h >> 32;
        }
        self.states.push(h);
        if self.states.len() >= 1 << 22 {
            self.states.sort_unstable();
            self.states.dedup();
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 400 {
                let mut i = 400;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }

    /// Compares one implementation outcome with the model's.
    pub fn same<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: &T, want: &T) -> Result<(), String> {
        self.compared += 1;
        if got == want {
            Ok(())
        } else {
            Err(format!("{what}: implementation gave {}, model gives {}", short(got), short(want)))
        }
    }

    pub fn holds(&mut self, what: &str, cond: bool) -> Result<(), String> {
        self.compared += 1;
        if cond {
            Ok(())
        } else {
            Err(what.to_string())
        }
    }
}

pub fn short<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.len() > 600 {
        let mut i = 600;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}... ({} chars)", &s[..i], s.len())
    } else {
        s
    }
}

pub type Case = Box<dyn Fn(&mut Ctx, u64) -> Result<(), String> + Sync + Send>;

pub struct Stage {
    pub name: String,
    pub n: u64,
    pub bounds: String,
    pub case: Case,
    /// Every case in a process of its own.
    pub fresh: bool,
}

impl Stage {
    pub fn fresh(mut self) -> Self {
        self.fresh = true;
        self
    }
}

pub fn stage(
    name: &str,
    n: u64,
    bounds: impl Into<String>,
    case: impl Fn(&mut Ctx, u64) -> Result<(), String> + Sync + Send + 'static,
) -> Stage {
    Stage { name: name.into(), n, bounds: bounds.into(), case: Box::new(case), fresh: false }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<String>,
    pub stages: Vec<Stage>,
    /// Cases run in their own process, whose death is judged against the known findings.
    pub isolated: Vec<Isolated>,
}

pub struct Isolated {
    /// Stable identifier, as listed in the known-findings file.
    pub key: String,
    pub what: String,
    pub case: Box<dyn Fn(&mut Ctx) -> Result<(), String>>,
}

pub type Registry = Vec<(&'static str, fn(Tier) -> Check)>;

// ---------------------------------------------------------------- running

struct Outcome {
    calls: u64,
    compared: u64,
    states: u64,
    samples: Vec<String>,
    stage_cases: Vec<(String, u64, String)>,
    violation: Option<(usize, u64, String)>,
}

fn run_stages(check: &Check, tier: Tier, shared: &Shared) -> Result<Outcome, String> {
    let mut out = Outcome {
        calls: 0,
        compared: 0,
        states: 0,
        samples: vec![],
        stage_cases: vec![],
        violation: None,
    };
    let mut all_states: Vec<u64> = vec![];
    let id = check.id;
    for (si, st) in check.stages.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let chunk = (st.n / (THREADS as u64 * 64)).clamp(1, 4096);
        let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let broken: Mutex<Option<String>> = Mutex::new(None);
        let stop = AtomicBool::new(false);
        let mids = [0, st.n / 3, st.n * 2 / 3];
        let results = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for ti in 0..THREADS {
                let (next, found, broken, stop, results) = (&next, &found, &broken, &stop, &results);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = shared.slot(ti);
                        let mut ctx = Ctx {
                            slot,
                            calls: 0,
                            compared: 0,
                            states: vec![],
                            want_sample: false,
                            sample: None,
                        };
                        let mut samples: Vec<(u64, String)> = vec![];
                        let mut done = 0u64;
                        'w: loop {
                            if stop.load(Relaxed) {
                                break;
                            }
                            let lo = next.fetch_add(chunk, Relaxed);
                            if lo >= st.n {
                                break;
                            }
                            for i in lo..(lo + chunk).min(st.n) {
                                slot.stage.store(si as u32, Relaxed);
                                slot.index.store(i, Relaxed);
                                ctx.want_sample = mids.contains(&i);
                                ctx.sample = None;
                                let r = if st.fresh {
                                    match in_process(id, tier, &st.name, i, &mut ctx) {
                                        Ok(r) => Ok(r),
                                        Err(m) => {
                                            *broken.lock().unwrap() = Some(m);
                                            stop.store(true, Relaxed);
                                            break 'w;
                                        }
                                    }
                                } else {
                                    catch_unwind(AssertUnwindSafe(|| (st.case)(&mut ctx, i)))
                                };
                                done += 1;
                                if let Some(s) = ctx.sample.take() {
                                    samples.push((i, s));
                                }
                                match r {
                                    Ok(Ok(())) => {}
                                    Ok(Err(m)) => {
                                        let mut f = found.lock().unwrap();
                                        if f.as_ref().map_or(true, |(j, _)| i < *j) {
                                            *f = Some((i, m));
                                        }
                                        stop.store(true, Relaxed);
                                        break 'w;
                                    }
                                    Err(_) => {
                                        let m = PANIC_MSG.with(|m| m.borrow().clone());
                                        *broken.lock().unwrap() =
                                            Some(format!("harness panic in stage {} case {i}: {m}", st.name));
                                        stop.store(true, Relaxed);
                                        break 'w;
                                    }
                                }
                            }
                        }
                        ctx.states.sort_unstable();
                        ctx.states.dedup();
                        results.lock().unwrap().push((ctx.calls, ctx.compared, ctx.states, samples, done));
                    })
                    .unwrap();
            }
        });
        let mut samples = vec![];
        let mut done = 0;
        for (c, k, s, sm, d) in results.into_inner().unwrap() {
            out.calls += c;
            out.compared += k;
            all_states.extend(s);
            samples.extend(sm);
            done += d;
        }
        all_states.sort_unstable();
        all_states.dedup();
        samples.sort();
        for (i, s) in samples {
            out.samples.push(format!("{}[{i}]: {s}", st.name));
        }
        out.stage_cases.push((st.name.clone(), done, st.bounds.clone()));
        eprintln!("  {} {}: {} cases in {:.2}s", check.id, st.name, done, t0.elapsed().as_secs_f64());
        if let Some(m) = broken.into_inner().unwrap() {
            return Err(m);
        }
        if let Some((i, m)) = found.into_inner().unwrap() {
            out.violation = Some((si, i, m));
            break;
        }
        if done != st.n {
            return Err(format!("stage {} stopped after {done} of {} cases", st.name, st.n));
        }
    }
    out.states = all_states.len() as u64;
    Ok(out)
}

/// Runs one case in a fresh process. The outer error is the engine's.
fn in_process(id: &str, tier: Tier, stage: &str, i: u64, ctx: &mut Ctx) -> Result<Result<(), String>, String> {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let out = std::process::Command::new(exe)
        .args(["case", id, t, stage, &i.to_string()])
        .stderr(std::process::Stdio::null())
        .output()
        .map_err(|e| format!("starting a process: {e}"))?;
    if let Some(s) = out.status.signal() {
        return Ok(Err(format!("the process of the case was killed by signal {s}")));
    }
    let text = String::from_utf8_lossy(&out.stdout);
    let v: serde_json::Value = serde_json::from_str(text.trim())
        .map_err(|_| format!("case {stage}[{i}] ended with {} and {}", out.status, short(&text)))?;
    ctx.calls += v["calls"].as_u64().unwrap_or(0);
    ctx.compared += v["compared"].as_u64().unwrap_or(0);
    ctx.states.extend(v["states"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
    if ctx.want_sample {
        ctx.sample = v["sample"].as_str().map(String::from);
    }
    Ok(match v["error"].as_str() {
        Some(e) => Err(e.to_string()),
        None => Ok(()),
    })
}

/// The other side of `in_process`.
fn case_main(registry: &Registry, args: &[String]) -> i32 {
    let tier = if args[1] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let Some((_, make)) = registry.iter().find(|(n, _)| *n == args[0]) else { return 3 };
    let check = make(tier);
    let shared = Shared::new();
    let Some(st) = check.stages.iter().find(|s| s.name == args[2]) else { return 3 };
    let Ok(i) = args[3].parse::<u64>() else { return 3 };
    let mut ctx =
        Ctx { slot: shared.slot(0), calls: 0, compared: 0, states: vec![], want_sample: true, sample: None };
    let r = (st.case)(&mut ctx, i);
    let v = serde_json::json!({
        "calls": ctx.calls, "compared": ctx.compared, "states": ctx.states, "sample": ctx.sample, "error": r.err(),
    });
    println!("{v}");
    0
}

fn run_one(check: &Check, shared: &Shared, si: usize, index: u64) -> Result<(), String> {
    let st = &check.stages[si];
    let slot = shared.slot(0);
    slot.stage.store(si as u32, Relaxed);
    slot.index.store(index, Relaxed);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(sc, || {
                let mut ctx = Ctx { slot, calls: 0, compared: 0, states: vec![], want_sample: true, sample: None };
                let r = (st.case)(&mut ctx, index);
                if let Some(s) = ctx.sample {
                    println!("case: {s}");
                }
                r
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

enum Death {
    Exit(i32),
    Signal(i32),
    Hang,
}

/// Forks, runs `f` in the child, supervises it.
fn supervised(shared: &Shared, f: impl FnOnce() -> i32) -> Death {
    use std::io::Write;
    std::io::stdout().flush().ok();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
        }
        let code = f();
        std::io::stdout().flush().ok();
        unsafe { libc::_exit(code) }
    }
    let mut seen: Vec<(u64, Instant)> = (0..64).map(|_| (0, Instant::now())).collect();
    loop {
        let mut status = 0;
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid {
            return if libc::WIFSIGNALED(status) {
                Death::Signal(libc::WTERMSIG(status))
            } else {
                Death::Exit(libc::WEXITSTATUS(status))
            };
        }
        for (i, s) in seen.iter_mut().enumerate() {
            let slot = shared.slot(i);
            let seq = slot.seq.load(Relaxed);
            if slot.in_sut.load(SeqCst) == 0 || seq != s.0 {
                *s = (seq, Instant::now());
            } else if s.1.elapsed() > Duration::from_secs(HANG_SECS) {
                unsafe {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut status, 0);
                }
                return Death::Hang;
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{msg}{loc}");
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = text.clone());
        if !IN_SUT.try_with(Cell::get).unwrap_or(false) {
            eprintln!("panic outside the code under test: {text}");
        }
    }));
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn known_findings() -> Vec<(String, String)> {
    // lines: "known: property=<id> key=<key> <text>"
    let path = format!("{}/known_findings.txt", verif_dir());
    let Ok(text) = std::fs::read_to_string(path) else { return vec![] };
    text.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: property=")?;
            let (id, rest) = rest.split_once(" key=")?;
            let (key, _) = rest.split_once(' ')?;
            Some((id.to_string(), key.to_string()))
        })
        .collect()
}

fn write_replay(id: &str, tier: Tier, stage: &str, si: usize, index: u64, msg: &str) -> String {
    let dir = format!("{}/evidence/replays", verif_dir());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{id}.json");
    let v = serde_json::json!({
        "property": id, "tier": format!("{tier:?}").to_lowercase(), "stage": stage,
        "stage_no": si, "index": index, "message": msg,
        "how": "sh check.sh replay <this file>",
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
    path
}

pub fn run_main(registry: Registry) -> i32 {
    install_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("replay") {
        return replay(&registry, &args[2]);
    }
    if args.get(1).map(String::as_str) == Some("case") && args.len() == 6 {
        return case_main(&registry, &args[2..]);
    }
    let Some(id) = args.get(1) else {
        eprintln!("usage: mc <property> [quick|thorough] | mc replay <file>");
        return 2;
    };
    let tier = match args.get(2).map(String::as_str) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let Some((_, make)) = registry.iter().find(|(n, _)| n == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let check = make(tier);
    let shared = Shared::new();
    let tmp = format!("{}/evidence/.{id}.part", verif_dir());
    std::fs::create_dir_all(format!("{}/evidence", verif_dir())).ok();
    std::fs::remove_file(&tmp).ok();

    let death = supervised(&shared, || match run_stages(&check, tier, &shared) {
        Ok(o) => {
            let v = serde_json::json!({
                "calls": o.calls, "compared": o.compared, "states": o.states, "samples": o.samples,
                "stages": o.stage_cases.iter().map(|(n, d, b)| serde_json::json!({"stage": n, "cases": d, "bounds": b})).collect::<Vec<_>>(),
                "violation": o.violation.as_ref().map(|(s, i, m)| serde_json::json!([s, i, m])),
            });
            std::fs::write(&tmp, v.to_string()).unwrap();
            0
        }
        Err(m) => {
            eprintln!("ENGINE ERROR: {m}");
            2
        }
    });

    let mut violation: Option<(String, usize, u64, String)> = None;
    let mut part = serde_json::json!({"calls": 0, "compared": 0, "states": 0, "samples": [], "stages": []});
    match death {
        Death::Exit(0) => {
            part = serde_json::from_str(&std::fs::read_to_string(&tmp).unwrap()).unwrap();
            std::fs::remove_file(&tmp).ok();
            if let Some(v) = part["violation"].as_array() {
                let si = v[0].as_u64().unwrap() as usize;
                violation = Some((
                    check.stages[si].name.clone(),
                    si,
                    v[1].as_u64().unwrap(),
                    v[2].as_str().unwrap().to_string(),
                ));
            }
        }
        Death::Exit(c) => {
            eprintln!("ENGINE ERROR: exploration ended with exit code {c}");
            return 2;
        }
        d => {
            let what = match d {
                Death::Signal(s) => format!("process died with signal {s}"),
                _ => format!("no result within {HANG_SECS} s"),
            };
            // Which call was it? Confirm each candidate by itself.
            let mut cands: Vec<(usize, u64)> = (0..THREADS)
                .filter(|i| shared.slot(*i).in_sut.load(SeqCst) == 1)
                .map(|i| (shared.slot(i).stage.load(Relaxed) as usize, shared.slot(i).index.load(Relaxed)))
                .collect();
            cands.sort();
            cands.dedup();
            for i in 0..64 {
                shared.slot(i).in_sut.store(0, SeqCst);
            }
            for (si, idx) in cands {
                let r = supervised(&shared, || i32::from(run_one(&check, &shared, si, idx).is_err()));
                let m = match r {
                    Death::Signal(s) if shared.slot(0).in_sut.load(SeqCst) == 1 => {
                        format!("call into the library killed the process (signal {s})")
                    }
                    Death::Hang => format!("call into the library did not end within {HANG_SECS} s"),
                    Death::Exit(1) => "case fails".to_string(),
                    _ => continue,
                };
                for i in 0..64 {
                    shared.slot(i).in_sut.store(0, SeqCst);
                }
                violation = Some((check.stages[si].name.clone(), si, idx, m));
                break;
            }
            if violation.is_none() {
                eprintln!("ENGINE ERROR: {what}, not reproduced by a single case");
                return 2;
            }
        }
    }

    // Isolated cases.
    let known = known_findings();
    let mut iso_run = 0u64;
    let mut findings = vec![];
    if violation.is_none() {
        for (k, iso) in check.isolated.iter().enumerate() {
            iso_run += 1;
            let d = supervised(&shared, || {
                let mut ctx =
                    Ctx { slot: shared.slot(0), calls: 0, compared: 0, states: vec![], want_sample: false, sample: None };
                // the ordinary 8 MiB stack of a main thread
                let r = std::thread::scope(|sc| {
                    let iso = AssertSync(iso);
                    let ctx = AssertSync(&mut ctx);
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(sc, move || {
                            let (iso, ctx) = (iso, ctx);
                            let AssertSync(i) = iso;
                            let AssertSync(c) = ctx;
                            (i.case)(c)
                        })
                        .unwrap()
                        .join()
                });
                match r {
                    Ok(Ok(())) => 0,
                    Ok(Err(m)) => {
                        eprintln!("{}: {m}", iso.key);
                        1
                    }
                    Err(_) => 2,
                }
            });
            let failed = match d {
                Death::Exit(0) => None,
                Death::Exit(1) => Some("wrong result".to_string()),
                Death::Exit(_) => {
                    eprintln!("ENGINE ERROR in isolated case {}", iso.key);
                    return 2;
                }
                Death::Signal(s) => Some(format!("process killed by signal {s}")),
                Death::Hang => Some("hang".to_string()),
            };
            shared.slot(0).in_sut.store(0, SeqCst);
            if let Some(f) = failed {
                if known.iter().any(|(p, key)| p == id && *key == iso.key) {
                    println!("KNOWN-FINDING: property={id} {} ({f})", iso.what);
                    findings.push(iso.key.clone());
                } else {
                    violation = Some((format!("isolated:{}", iso.key), usize::MAX, k as u64, format!("{} ({f})", iso.what)));
                    break;
                }
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let mut samples: Vec<serde_json::Value> = part["samples"].as_array().cloned().unwrap_or_default();
    samples.truncate(24);
    let ev = serde_json::json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": part["states"], "transitions": part["calls"].as_u64().unwrap_or(0) + iso_run,
            "traces_validated_against_impl": part["compared"],
            "samples": samples,
            "rule": check.rule,
            "exhaustive": violation.is_none(),
            "stages": part["stages"],
            "isolated_cases": iso_run,
            "known_findings": findings,
        },
        "assumptions": check.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": i32::from(violation.is_some()),
    });
    std::fs::write(format!("{}/evidence/{id}.json", verif_dir()), serde_json::to_string_pretty(&ev).unwrap()).unwrap();

    if let Some((name, si, idx, m)) = violation {
        let path = write_replay(id, tier, &name, si, idx, &m);
        println!("{id} stage {name} case {idx}: {m}");
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    println!(
        "{id} held: {} states, {} calls into the library, {} comparisons with the model, {wall:.1} s",
        part["states"], part["calls"], part["compared"]
    );
    0
}

struct AssertSync<T>(T);
unsafe impl<T> Send for AssertSync<T> {}

fn replay(registry: &Registry, file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let Some((_, make)) = registry.iter().find(|(n, _)| *n == id) else {
        return 3;
    };
    let check = make(tier);
    let shared = Shared::new();
    let name = v["stage"].as_str().unwrap();
    let idx = v["index"].as_u64().unwrap();
    let d = if let Some(key) = name.strip_prefix("isolated:") {
        let iso = check.isolated.iter().find(|i| i.key == key).expect("isolated case");
        supervised(&shared, || {
            let mut ctx =
                Ctx { slot: shared.slot(0), calls: 0, compared: 0, states: vec![], want_sample: false, sample: None };
            i32::from((iso.case)(&mut ctx).is_err())
        })
    } else {
        let si = check.stages.iter().position(|s| s.name == name).expect("stage");
        supervised(&shared, || match run_one(&check, &shared, si, idx) {
            Ok(()) => 0,
            Err(m) => {
                println!("{m}");
                1
            }
        })
    };
    match d {
        Death::Exit(0) => {
            println!("replay: the case passes");
            0
        }
        Death::Exit(_) => {
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Death::Signal(s) => {
            println!("killed by signal {s}\nVIOLATION property={id} replay={file}");
            1
        }
        Death::Hang => {
            println!("hang\nVIOLATION property={id} replay={file}");
            1
        }
    }
}
