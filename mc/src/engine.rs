//! Exhaustive exploration engine.
//!
//! A property is a list of families; a family is a finite space cut into deterministic jobs; a job
//! runs a deterministic sequence of cases.  Every case is one behaviour of the real code checked
//! against the model.  (family, job, case) names a case and is all that is needed to replay it.

use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, n: u64) { self.0 = n }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-1a with a final mix.
pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for &c in b {
        h ^= c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

pub struct Violation {
    pub family: String,
    pub fi: usize,
    pub job: usize,
    pub case: u64,
    pub desc: String,
    pub detail: String,
}

/// What one case tells the engine about the states and steps it went through.
#[derive(Default)]
pub struct Rec {
    pub states: IdSet,
    pub steps: u64,
    pub outcomes: IdSet,
    pub validated: u64,
}
impl Rec {
    /// a model state reached (identified by its canonical form)
    pub fn state(&mut self, canon: &str) { self.states.insert(hash_bytes(1, canon.as_bytes())); }
    pub fn state2(&mut self, space: u64, canon: &str) { self.states.insert(hash_bytes(space, canon.as_bytes())); }
    /// n transitions taken by the model and the implementation
    pub fn step(&mut self, n: u64) { self.steps += n }
    pub fn outcome(&mut self, canon: &str) { self.outcomes.insert(hash_bytes(2, canon.as_bytes())); }
}

pub type Check = Result<(), String>;

/// Progress of one worker, in memory shared with the driver.
#[repr(C)]
pub struct Slot {
    pub family: AtomicU64,
    pub job: AtomicU64,
    pub case: AtomicU64,
    pub busy: AtomicU64,
}

pub struct Cx {
    fi: usize,
    job: usize,
    family: String,
    case: u64,
    pub rec: Rec,
    executed: u64,
    violations: Vec<Violation>,
    samples: Vec<String>,
    only: Option<u64>,
    slot: &'static Slot,
    stop: Arc<AtomicBool>,
    pub tier: Tier,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T { if self == Tier::Quick { q } else { t } }
}

thread_local! {
    // without a destructor: also there at the end of a thread
    static PANIC: std::cell::Cell<*mut String> = const { std::cell::Cell::new(std::ptr::null_mut()) };
}
fn set_panic(s: Option<String>) -> Option<String> {
    let old = PANIC.with(|p| p.replace(s.map_or(std::ptr::null_mut(), |s| Box::into_raw(Box::new(s)))));
    if old.is_null() { None } else { Some(*unsafe { Box::from_raw(old) }) }
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(set_panic(None).unwrap_or_else(|| "panic".into())),
    }
}

impl Cx {
    /// Check one case.
    #[inline]
    pub fn case<D, F>(&mut self, desc: D, f: F)
    where D: FnOnce() -> String, F: FnOnce(&mut Rec) -> Check {
        let n = self.case;
        self.case += 1;
        if let Some(only) = self.only {
            if only != n { return; }
            let d = desc();
            println!("CASE {d}");
            use std::io::Write;
            let _ = std::io::stdout().flush();
            self.slot.case.store(n, Relaxed);
            let r = self.exec(f);
            self.note(n, || d, r);
            return;
        }
        if self.stop.load(Relaxed) { return; }
        self.slot.case.store(n, Relaxed);
        let r = self.exec(f);
        if n == 0 || n == 97 {
            let d = desc();
            if self.samples.len() < 40 { self.samples.push(clip(&d, 300)); }
            self.note(n, || d, r);
        } else {
            self.note(n, desc, r);
        }
    }

    /// Run the real code to prepare something that the following cases need.  Failing is a violation.
    pub fn setup<T, D, F>(&mut self, desc: D, f: F) -> Option<T>
    where D: FnOnce() -> String, F: FnOnce() -> Result<T, String> {
        let n = self.case;
        self.case += 1;
        if self.only.is_none() && self.stop.load(Relaxed) { return None; }
        self.slot.case.store(n, Relaxed);
        if self.only == Some(n) { println!("CASE {}", "setup"); }
        let r = match guarded(f) { Ok(r) => r, Err(p) => Err(format!("panicked: {p}")) };
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                if self.only.is_none() || self.only == Some(n) { self.note(n, desc, Err(e)); }
                None
            }
        }
    }

    fn exec<F: FnOnce(&mut Rec) -> Check>(&mut self, f: F) -> Check {
        let rec = &mut self.rec;
        let r = guarded(|| f(rec));
        self.executed += 1;
        match r { Ok(r) => r, Err(p) => Err(format!("panicked: {p}")) }
    }

    fn note<D: FnOnce() -> String>(&mut self, n: u64, desc: D, r: Check) {
        match r {
            Ok(()) => self.rec.validated += 1,
            Err(detail) => {
                let v = Violation {
                    family: self.family.clone(), fi: self.fi, job: self.job, case: n,
                    desc: desc(), detail,
                };
                if self.violations.len() < 3 { self.violations.push(v); }
                else if self.only.is_none() { self.stop.store(true, Relaxed); }
            }
        }
    }

    pub fn stopped(&self) -> bool { self.stop.load(Relaxed) }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.into(); }
    let mut e = n;
    while !s.is_char_boundary(e) { e -= 1; }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

pub type JobFn = Box<dyn Fn(usize, &mut Cx) + Send + Sync>;

pub struct Family {
    pub name: String,
    /// the finite space that the jobs enumerate, in words
    pub space: String,
    pub jobs: usize,
    pub run: JobFn,
}
impl Family {
    pub fn new(name: &str, space: impl Into<String>, jobs: usize, run: impl Fn(usize, &mut Cx) + Send + Sync + 'static) -> Family {
        Family { name: name.into(), space: space.into(), jobs, run: Box::new(run) }
    }
}

/// Cut `n` items into jobs; the closure gets each item index of its job.
pub fn split(name: &str, space: impl Into<String>, n: usize, per_job: usize, f: impl Fn(usize, &mut Cx) + Send + Sync + 'static) -> Family {
    let per = per_job.max(1);
    let jobs = (n + per - 1) / per;
    Family::new(name, space, jobs, move |j, cx| {
        for i in j * per..((j + 1) * per).min(n) {
            if cx.stopped() { return; }
            f(i, cx);
        }
    })
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub struct Config {
    pub tier: Tier,
    pub threads: usize,
    pub progress: Option<String>,
    pub only: Option<(usize, usize, u64)>,
    pub hang_s: u64,
    pub deadline_s: u64,
}

#[derive(Default)]
pub struct Report {
    pub cases: u64,
    pub validated: u64,
    pub steps: u64,
    pub states: u64,
    pub outcomes: u64,
    pub families: Vec<(String, String, u64)>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub complete: bool,
}

pub const MAX_WORKERS: usize = 64;

fn slots(progress: &Option<String>) -> &'static [Slot] {
    let size = MAX_WORKERS * std::mem::size_of::<Slot>();
    use std::os::fd::AsRawFd;
    let (fd, flags, keep) = match progress {
        Some(p) => {
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).expect("progress file");
            f.set_len(size as u64).expect("progress size");
            (f.as_raw_fd(), 1, Some(f))
        }
        None => (-1, 0x22, None),
    };
    unsafe {
        let p = mmap(std::ptr::null_mut(), size, 3, flags, fd, 0);
        assert!(p as isize != -1, "mmap");
        std::mem::forget(keep);
        std::slice::from_raw_parts(p as *const Slot, MAX_WORKERS)
    }
}

/// What panics say is kept and not printed.
pub fn panics_noted() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        set_panic(Some(s));
    }));
}

pub fn explore(families: Vec<Family>, cfg: &Config) -> Report {
    panics_noted();
    let slots = slots(&cfg.progress);
    let families = Arc::new(families);
    let mut order = Vec::new();
    for (fi, f) in families.iter().enumerate() {
        for j in 0..f.jobs {
            match cfg.only {
                Some((ofi, oj, _)) if (ofi, oj) != (fi, j) => continue,
                _ => order.push((fi, j)),
            }
        }
    }
    let order = Arc::new(order);
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let late = Arc::new(AtomicBool::new(false));
    let live = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(Vec::new()));
    let mut handles = Vec::new();
    let threads = if cfg.only.is_some() { 1 } else { cfg.threads.min(MAX_WORKERS) };
    for w in 0..threads {
        let (families, order, next, stop, live, out) =
            (families.clone(), order.clone(), next.clone(), stop.clone(), live.clone(), out.clone());
        let only = cfg.only.map(|o| o.2);
        let tier = cfg.tier;
        live.fetch_add(1, Relaxed);
        handles.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let slot = &slots[w];
            let mut merged = Rec::default();
            let mut fam_cases = vec![0u64; families.len()];
            let (mut executed, mut violations, mut samples) = (0, Vec::new(), Vec::new());
            loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= order.len() || stop.load(Relaxed) { break; }
                let (fi, job) = order[i];
                slot.family.store(fi as u64, Relaxed);
                slot.job.store(job as u64, Relaxed);
                slot.case.store(0, Relaxed);
                slot.busy.store(1, Relaxed);
                let mut cx = Cx {
                    fi, job, family: families[fi].name.clone(), case: 0, rec: std::mem::take(&mut merged),
                    executed: 0, violations: Vec::new(), samples: Vec::new(), only, slot,
                    stop: stop.clone(), tier,
                };
                // a panic here is outside any case: a fault of the harness itself
                let r = guarded(|| (families[fi].run)(job, &mut cx));
                slot.busy.store(0, Relaxed);
                if let Err(p) = r {
                    eprintln!("HARNESS PANIC in {} job {}: {}", families[fi].name, job, p);
                    std::process::exit(5);
                }
                merged = std::mem::take(&mut cx.rec);
                executed += cx.executed;
                fam_cases[fi] += cx.executed;
                violations.append(&mut cx.violations);
                if samples.len() < 400 { samples.extend(cx.samples.drain(..).map(|s| (fi, s))); }
                if violations.len() >= 20 { stop.store(true, Relaxed); }
            }
            out.lock().unwrap().push((merged, fam_cases, executed, violations, samples));
            live.fetch_sub(1, Relaxed);
        }).expect("worker"));
    }
    // watchdog
    let start = Instant::now();
    let mut last: Vec<((u64, u64, u64), Instant)> = (0..threads).map(|_| ((0, 0, 0), Instant::now())).collect();
    while live.load(Relaxed) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        if cfg.only.is_some() { continue; }
        let now = Instant::now();
        for w in 0..threads {
            let s = &slots[w];
            let cur = (s.family.load(Relaxed), s.job.load(Relaxed), s.case.load(Relaxed));
            if s.busy.load(Relaxed) == 0 || cur != last[w].0 { last[w] = (cur, now); continue; }
            if now.duration_since(last[w].1).as_secs() >= cfg.hang_s {
                eprintln!("HANG family={} job={} case={}", cur.0, cur.1, cur.2);
                std::process::exit(4);
            }
        }
        if start.elapsed().as_secs() >= cfg.deadline_s && !stop.load(Relaxed) {
            late.store(true, Relaxed);
            stop.store(true, Relaxed);
        }
    }
    for h in handles { let _ = h.join(); }
    let mut rep = Report::default();
    let mut states = IdSet::default();
    let mut outcomes = IdSet::default();
    let mut fam = vec![0u64; families.len()];
    let mut samples = Vec::new();
    for (rec, fc, ex, vs, ss) in out.lock().unwrap().drain(..) {
        rep.cases += ex;
        rep.steps += rec.steps;
        rep.validated += rec.validated;
        if states.is_empty() { states = rec.states } else { states.extend(rec.states) }
        if outcomes.is_empty() { outcomes = rec.outcomes } else { outcomes.extend(rec.outcomes) }
        for (i, c) in fc.iter().enumerate() { fam[i] += c; }
        rep.violations.extend(vs);
        samples.extend(ss);
    }
    rep.states = states.len() as u64;
    rep.outcomes = outcomes.len() as u64;
    rep.violations.sort_by_key(|v| (v.fi, v.desc.len(), v.job, v.case));
    samples.sort();
    for fi in 0..families.len() {
        rep.samples.extend(samples.iter().filter(|s| s.0 == fi).take(2).map(|s| format!("{}: {}", families[fi].name, s.1)));
    }
    rep.families = families.iter().zip(&fam).map(|(f, c)| (f.name.clone(), f.space.clone(), *c)).collect();
    rep.complete = !late.load(Relaxed);
    rep
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn report_json(r: &Report) -> String {
    let mut o = String::from("{");
    o += &format!("\"cases\":{},\"validated\":{},\"steps\":{},\"states\":{},\"outcomes\":{},\"complete\":{},",
        r.cases, r.validated, r.steps, r.states, r.outcomes, r.complete);
    o += "\"families\":[";
    o += &r.families.iter().map(|(n, s, c)| format!("{{\"name\":{},\"space\":{},\"cases\":{}}}", json_str(n), json_str(s), c))
        .collect::<Vec<_>>().join(",");
    o += "],\"samples\":[";
    o += &r.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    o += "],\"violations\":[";
    o += &r.violations.iter().map(|v| format!(
        "{{\"family\":{},\"id\":\"{}:{}:{}\",\"desc\":{},\"detail\":{}}}",
        json_str(&v.family), v.fi, v.job, v.case, json_str(&clip(&v.desc, 20000)), json_str(&clip(&v.detail, 20000)),
    )).collect::<Vec<_>>().join(",");
    o += "]}";
    o
}
