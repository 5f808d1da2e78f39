//! Monitor runtime: deterministic case scheduling over worker threads, guarded
//! library calls (panic, hang and abort become observations), coverage counters
//! and the verdict.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ rng
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut t = h;
    splitmix(&mut t)
}
impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        let mut x = 0x243f6a8885a308d3u64;
        for p in parts {
            x ^= *p;
            x = splitmix(&mut x);
        }
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0u8; N];
        self.fill(&mut b);
        b
    }
    pub fn vec(&mut self, n: usize) -> Vec<u8> {
        let mut b = vec![0u8; n];
        self.fill(&mut b);
        b
    }
}

pub fn hex(b: &[u8]) -> String {
    const H: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(H[(x >> 4) as usize] as char);
        s.push(H[(x & 15) as usize] as char);
    }
    s
}
pub fn show(b: &[u8]) -> String {
    if b.len() <= 300 {
        hex(b)
    } else {
        format!("{}..({} bytes, fnv {:016x})", hex(&b[..64]), b.len(), fnv(b))
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

// ------------------------------------------------------------------ guard
thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub const SLOTS: usize = 64;
pub struct Slot {
    /// start of the running library call, thread cpu ns; 0 = none
    pub start: AtomicU64,
    pub clock: AtomicU64,
    pub stage: AtomicUsize,
    pub case: AtomicU64,
    pub calls: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    start: AtomicU64::new(0),
    clock: AtomicU64::new(0),
    stage: AtomicUsize::new(usize::MAX),
    case: AtomicU64::new(0),
    calls: AtomicU64::new(0),
};
pub static SLOT_TAB: [Slot; SLOTS] = [SLOT0; SLOTS];

#[cfg(not(miri))]
pub fn clock_ns(id: i32) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let rc = unsafe { libc::clock_gettime(id, &mut ts) };
    if rc != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn install_hooks() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_LIB.with(|c| c.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        } else {
            default(info);
        }
    }));
    #[cfg(not(miri))]
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_abort as extern "C" fn(i32) as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_RESETHAND;
        libc::sigaction(libc::SIGABRT, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGILL, &sa, std::ptr::null_mut());
        libc::sigaction(libc::SIGFPE, &sa, std::ptr::null_mut());
    }
}
#[cfg(not(miri))]
extern "C" fn on_abort(sig: i32) {
    // async-signal-safe: only write(2) and _exit
    fn put(s: &[u8]) {
        unsafe {
            libc::write(2, s.as_ptr() as *const _, s.len());
        }
    }
    fn num(mut n: u64) {
        let mut b = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            b[i] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        put(&b[i..]);
    }
    let me = SLOT.with(|s| s.get());
    put(b"\nMON-ABORT signal=");
    num(sig as u64);
    put(b" in_library=");
    num(IN_LIB.with(|c| c.get()) as u64);
    if me < SLOTS {
        put(b" stage=");
        num(SLOT_TAB[me].stage.load(Relaxed) as u64);
        put(b" case=");
        num(SLOT_TAB[me].case.load(Relaxed));
    }
    put(b"\n");
    unsafe { libc::_exit(70) }
}

/// run a library call; Err(panic message) if it panicked
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let slot = SLOT.with(|s| s.get());
    let nested = IN_LIB.with(|c| c.replace(true));
    #[cfg(not(miri))]
    if slot < SLOTS && !nested {
        let t = clock_ns(libc::CLOCK_THREAD_CPUTIME_ID).max(1);
        SLOT_TAB[slot].start.store(t, Relaxed);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if slot < SLOTS && !nested {
        SLOT_TAB[slot].start.store(0, Relaxed);
        SLOT_TAB[slot].calls.fetch_add(1, Relaxed);
    }
    IN_LIB.with(|c| c.set(nested));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn in_library() -> bool {
    IN_LIB.with(|c| c.get())
}
/// library calls made for this thread by threads of its own
pub fn count_calls(n: u64) {
    let slot = SLOT.with(|s| s.get());
    if slot < SLOTS {
        SLOT_TAB[slot].calls.fetch_add(n, Relaxed);
    }
}
pub fn bind_slot(i: usize) {
    SLOT.with(|s| s.set(i));
    #[cfg(not(miri))]
    unsafe {
        let mut id: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) == 0 {
            SLOT_TAB[i].clock.store(id as u32 as u64 | 1 << 40, Relaxed);
        }
    }
}

// ------------------------------------------------------------------ state
#[derive(Default)]
pub struct StageStat {
    pub name: String,
    pub cases: u64,
    pub planned: u64,
    pub checks: u64,
    pub ms: u64,
    pub classes: BTreeMap<String, u64>,
}
pub struct Violation {
    pub stage: String,
    pub case: u64,
    pub msg: String,
    pub details: Vec<(String, String)>,
}
pub struct Mon {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub budget: Duration,
    pub hard_deadline: Instant,
    pub only_stage: Option<String>,
    pub only_case: Option<u64>,
    pub stop: AtomicBool,
    pub violation: Mutex<Option<Violation>>,
    pub distinct: Vec<Mutex<HashSet<u64>>>,
    pub stages: Mutex<Vec<StageStat>>,
    pub samples: Mutex<Vec<serde_json::Value>>,
    pub facts: Mutex<BTreeMap<String, serde_json::Value>>,
    pub total_weight: Mutex<f64>,
    pub checks: AtomicU64,
    pub out: Option<String>,
    pub inconclusive: Mutex<Option<String>>,
    pub started: Instant,
    pub dict: crate::gen::Dict,
    pub lists: Mutex<Vec<&'static str>>,
    pub plan_only: bool,
}

pub enum Plan {
    /// run exactly cases 0..n (all of them)
    All(u64),
    /// run cases 0.. for this share of the time budget, at least min cases
    Share(f64, u64),
}

pub struct Case<'a> {
    pub mon: &'a Mon,
    pub stage: &'a str,
    pub idx: u64,
    pub rng: Rng,
    local: &'a mut Local,
    pub verbose: bool,
}
#[derive(Default)]
struct Local {
    classes: BTreeMap<&'static str, u64>,
    checks: u64,
    samples: usize,
}

impl<'a> Case<'a> {
    /// count an observation class
    pub fn class(&mut self, c: &'static str) {
        *self.local.classes.entry(c).or_insert(0) += 1;
    }
    /// count one oracle comparison made; key identifies the distinct case
    pub fn checked(&mut self, key: &[&[u8]]) {
        self.local.checks += 1;
        let mut h = fnv(self.stage.as_bytes());
        for k in key {
            h = h.rotate_left(17) ^ fnv(k);
            h = h.wrapping_mul(0x2545f4914f6cdd1d);
        }
        let sh = (h >> 58) as usize % self.mon.distinct.len();
        let mut d = self.mon.distinct[sh].lock().unwrap();
        if d.len() < 400_000 {
            d.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> serde_json::Value) {
        if self.local.samples < 1 && self.idx % 3 == 1 {
            self.local.samples += 1;
            let v = f();
            let mut s = self.mon.samples.lock().unwrap();
            if s.len() < 40 {
                s.push(serde_json::json!({"stage": self.stage, "case": self.idx, "observed": v}));
            }
        }
    }
    pub fn fail(&mut self, msg: impl Into<String>, details: &[(&str, String)]) {
        self.mon.fail(self.stage, self.idx, msg.into(), details);
    }
    pub fn failed(&self) -> bool {
        self.mon.stop.load(Relaxed)
    }
    /// guarded library call; a panic is a violation of the property under check
    pub fn lib<T>(&mut self, what: &str, inputs: &[(&str, &[u8])], f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(v) => Some(v),
            Err(p) => {
                let d: Vec<(&str, String)> = inputs.iter().map(|(k, v)| (*k, hex(v))).collect();
                self.fail(format!("{} panicked instead of returning a result: {}", what, p), &d);
                None
            }
        }
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            println!("  {}", f());
        }
    }
}

impl Mon {
    pub fn fail(&self, stage: &str, case: u64, msg: String, details: &[(&str, String)]) {
        let mut v = self.violation.lock().unwrap();
        if v.is_none() {
            *v = Some(Violation {
                stage: stage.to_string(),
                case,
                msg,
                details: details.iter().map(|(a, b)| (a.to_string(), b.clone())).collect(),
            });
        }
        self.stop.store(true, SeqCst);
    }
    pub fn fact(&self, k: &str, v: serde_json::Value) {
        self.facts.lock().unwrap().insert(k.to_string(), v);
    }
    pub fn stage(&self, name: &'static str, plan: Plan, f: impl Fn(&mut Case) + Sync) {
        if self.plan_only {
            let mut l = self.lists.lock().unwrap();
            l.push(name);
            if let Plan::Share(w, _) = plan {
                *self.total_weight.lock().unwrap() += w;
            }
            return;
        }
        if self.stop.load(SeqCst) {
            return;
        }
        if let Some(s) = &self.only_stage {
            if s != name {
                return;
            }
        }
        let stage_hash = fnv(name.as_bytes());
        let prop_hash = fnv(self.prop.as_bytes());
        let mk = |i: u64| Rng::new(&[self.seed, prop_hash, stage_hash, i]);
        let sidx = self.lists.lock().unwrap().iter().position(|s| *s == name).unwrap_or(999);
        if let Some(c) = self.only_case {
            bind_slot(0);
            SLOT_TAB[0].stage.store(sidx, Relaxed);
            SLOT_TAB[0].case.store(c, Relaxed);
            let mut local = Local::default();
            let mut case = Case { mon: self, stage: name, idx: c, rng: mk(c), local: &mut local, verbose: true };
            f(&mut case);
            self.checks.fetch_add(local.checks, Relaxed);
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let (limit, deadline, min) = match plan {
            Plan::All(n) => (n, self.hard_deadline, 0),
            Plan::Share(w, min) => {
                let tw = (*self.total_weight.lock().unwrap()).max(1e-9);
                let d = t0 + Duration::from_secs_f64(self.budget.as_secs_f64() * w / tw);
                (u64::MAX, d.min(self.hard_deadline), min)
            }
        };
        let merged: Mutex<(u64, u64, BTreeMap<String, u64>)> = Mutex::new((0, 0, BTreeMap::new()));
        let nthreads = self.threads.min(limit.max(1) as usize);
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (next, merged, f, mk) = (&next, &merged, &f, &mk);
                let b = std::thread::Builder::new().name(format!("w{}", t));
                b.spawn_scoped(s, move || {
                    bind_slot(t);
                    SLOT_TAB[t].stage.store(sidx, Relaxed);
                    let mut local = Local::default();
                    let mut done = 0u64;
                    loop {
                        if self.stop.load(Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Relaxed);
                        if i >= limit {
                            break;
                        }
                        if i >= min && Instant::now() >= deadline {
                            break;
                        }
                        if Instant::now() >= self.hard_deadline {
                            break;
                        }
                        SLOT_TAB[t].case.store(i, Relaxed);
                        let mut case = Case { mon: self, stage: name, idx: i, rng: mk(i), local: &mut local, verbose: false };
                        f(&mut case);
                        done += 1;
                    }
                    SLOT_TAB[t].clock.store(0, Relaxed);
                    let mut m = merged.lock().unwrap();
                    m.0 += done;
                    m.1 += local.checks;
                    for (k, v) in local.classes {
                        *m.2.entry(k.to_string()).or_insert(0) += v;
                    }
                })
                .expect("spawn");
            }
        });
        let m = merged.into_inner().unwrap();
        self.checks.fetch_add(m.1, Relaxed);
        self.stages.lock().unwrap().push(StageStat {
            name: name.to_string(),
            cases: m.0,
            planned: if limit == u64::MAX { 0 } else { limit },
            checks: m.1,
            ms: t0.elapsed().as_millis() as u64,
            classes: m.2,
        });
    }

    pub fn report(&self) -> serde_json::Value {
        let v = self.violation.lock().unwrap();
        let distinct: usize = self.distinct.iter().map(|d| d.lock().unwrap().len()).sum();
        let calls: u64 = SLOT_TAB.iter().map(|s| s.calls.load(Relaxed)).sum();
        serde_json::json!({
            "property": self.prop, "seed": self.seed,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "evaluations": self.checks.load(Relaxed),
            "distinct": distinct,
            "library_calls": calls,
            "stages": self.stages.lock().unwrap().iter().map(|s| serde_json::json!({
                "stage": s.name, "cases": s.cases, "planned": s.planned, "oracle_checks": s.checks, "ms": s.ms, "classes": s.classes
            })).collect::<Vec<_>>(),
            "facts": *self.facts.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "wall_ms": self.started.elapsed().as_millis() as u64,
            "inconclusive": *self.inconclusive.lock().unwrap(),
            "violation": v.as_ref().map(|v| serde_json::json!({
                "stage": v.stage, "case": v.case, "what": v.msg,
                "details": v.details.iter().map(|(a,b)| serde_json::json!([a,b])).collect::<Vec<_>>()
            })),
        })
    }
    /// write the report and end the process: 0 held, 1 violated, 3 inconclusive
    pub fn finish(&self) -> ! {
        let r = self.report();
        let text = serde_json::to_string_pretty(&r).unwrap();
        if let Some(o) = &self.out {
            std::fs::write(o, &text).expect("write report");
        } else {
            println!("{}", text);
        }
        let code = if !r["violation"].is_null() {
            1
        } else if !r["inconclusive"].is_null() {
            3
        } else {
            0
        };
        use std::io::Write;
        std::io::stdout().flush().ok();
        std::process::exit(code)
    }
    /// polls the cpu clock of every worker: a single library call that burns
    /// more than `cpu_limit` seconds of its own cpu time has not returned
    #[cfg(not(miri))]
    pub fn watchdog(&'static self, cpu_limit: f64) {
        std::thread::Builder::new()
            .name("watchdog".into())
            .spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                for s in SLOT_TAB.iter() {
                    let st = s.start.load(Relaxed);
                    let ck = s.clock.load(Relaxed);
                    if st == 0 || ck == 0 {
                        continue;
                    }
                    let now = clock_ns(ck as u32 as i32);
                    if now > st && (now - st) as f64 / 1e9 > cpu_limit {
                        // the same call still running?
                        if s.start.load(Relaxed) != st {
                            continue;
                        }
                        let names = self.lists.lock().unwrap();
                        let stage = names.get(s.stage.load(Relaxed)).copied().unwrap_or("?").to_string();
                        drop(names);
                        let case = s.case.load(Relaxed);
                        self.fail(&stage, case, format!("library call did not return: {:.0} s of cpu in one call (normal: milliseconds)", (now - st) as f64 / 1e9), &[]);
                        self.finish();
                    }
                }
                if Instant::now() > self.hard_deadline + Duration::from_secs(120) {
                    *self.inconclusive.lock().unwrap() = Some("wall-clock watchdog".into());
                    self.finish();
                }
            })
            .expect("spawn watchdog");
    }
}
