//! C26: threads that use the library do not influence each other.
//!
//! Two threads under a controlled scheduler: only one of them runs at a time, and it is stopped exactly at the
//! points the schedule names.  Points are where code of the user is called, calls of the allocator and, with the
//! library compiled for it, every edge of its control flow and every access to static memory.

use super::user::*;
use crate::engine::*;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread::Thread;
use std::time::{Duration, Instant};

const A: u32 = 0;
const B: u32 = 1;

/// How long to wait for a thread that may be waiting for a lock the other one has.
static PATIENCE_MS: AtomicU64 = AtomicU64::new(300);
static BLOCKED: AtomicU64 = AtomicU64::new(0);

struct Pair {
    turn: AtomicU32,
    /// something for the other thread to do
    given: AtomicBool,
    quit: AtomicBool,
    /// one was blocked by the other: both run on
    free: AtomicBool,
    task: Mutex<(usize, u8, Vec<u64>)>,
    result: Mutex<Option<Result<String, String>>>,
}

impl Pair {
    /// Wait for the turn; false if the other one does not get on.
    fn wait(&self, who: u32, patient: bool) -> bool {
        for _ in 0..200 { if self.turn.load(SeqCst) == who { return true; } std::hint::spin_loop(); }
        let start = Instant::now();
        while self.turn.load(SeqCst) != who {
            if self.quit.load(SeqCst) { return false; }
            if !patient {
                if self.free.load(SeqCst) { return false; }
                if start.elapsed().as_millis() as u64 > PATIENCE_MS.load(SeqCst) {
                    if BLOCKED.fetch_add(1, SeqCst) > 3 { PATIENCE_MS.store(10, SeqCst); }
                    self.free.store(true, SeqCst);
                    return false;
                }
            }
            std::thread::park_timeout(Duration::from_millis(if patient { 50 } else { 5 }));
        }
        true
    }
}

/// The other thread.
struct Other { pair: Arc<Pair>, thread: Thread, handle: Option<std::thread::JoinHandle<()>> }
impl Other {
    fn new(acts: &Acts, warm: bool) -> Other {
        let pair = Arc::new(Pair { turn: AtomicU32::new(A), given: AtomicBool::new(false), quit: AtomicBool::new(false), free: AtomicBool::new(false), task: Mutex::new((0, 0, vec![])), result: Mutex::new(None) });
        let (p, acts, main) = (pair.clone(), acts.clone(), std::thread::current());
        let handle = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            if warm {
                renew();
                for a in acts.iter() { let _ = guarded(|| (a.run)()); }
            }
            while !p.quit.load(SeqCst) {
                if !p.wait(B, true) || !p.given.load(SeqCst) { continue; }
                let (i, level, stops) = p.task.lock().unwrap().clone();
                let (mut out, mut at) = (Ok(String::new()), 0);
                let next = |at: usize| stops.get(at).copied().unwrap_or(0);
                hook::with(level, next(0), &mut |_| {
                    at += 1;
                    if !p.free.load(SeqCst) {
                        p.turn.store(A, SeqCst);
                        main.unpark();
                        p.wait(B, false);
                    }
                    next(at)
                }, &mut || out = guarded(|| (acts[i].run)()));
                *p.result.lock().unwrap() = Some(out);
                p.given.store(false, SeqCst);
                p.turn.store(A, SeqCst);
                main.unpark();
            }
        }).expect("thread");
        let thread = handle.thread().clone();
        Other { pair, thread, handle: Some(handle) }
    }

    fn give_turn(&self) { self.pair.turn.store(B, SeqCst); self.thread.unpark(); }

    /// Use `a` here up to its first stop, then `b` there up to its first stop, then on with `a`, and so on; what is
    /// left of `a` comes before what is left of `b`.  Also how many stops of `a` there were.
    fn both(&self, a: &Act, stops_a: &[u64], b: usize, stops_b: &[u64], level: u8) -> (Result<String, String>, Result<String, String>, usize) {
        let p = &*self.pair;
        p.free.store(false, SeqCst);
        { let mut t = p.task.lock().unwrap(); t.0 = b; t.1 = level; t.2.clear(); t.2.extend_from_slice(stops_b); }
        *p.result.lock().unwrap() = None;
        p.given.store(true, SeqCst);
        let (mut out, mut at) = (Ok(String::new()), 0);
        let next = |at: usize| stops_a.get(at).copied().unwrap_or(0);
        hook::with(level, next(0), &mut |_| {
            at += 1;
            if p.given.load(SeqCst) && !p.free.load(SeqCst) { self.give_turn(); p.wait(A, false); }
            next(at)
        }, &mut || out = guarded(|| (a.run)()));
        while p.given.load(SeqCst) { self.give_turn(); std::thread::park_timeout(Duration::from_millis(50)); }
        p.turn.store(A, SeqCst);
        let r = p.result.lock().unwrap().take().unwrap_or(Err("no result".into()));
        (out, r, at)
    }
}
impl Drop for Other {
    fn drop(&mut self) {
        self.pair.quit.store(true, SeqCst);
        self.thread.unpark();
        if let Some(h) = self.handle.take() { let _ = h.join(); }
    }
}

/// What each use gives alone and how many points it has.
fn baseline(acts: &Acts, level: u8) -> Result<Vec<(String, u64)>, String> {
    renew();
    for a in acts.iter() { (a.run)(); }
    Ok(acts.iter().map(|a| {
        let mut out = String::new();
        let n = hook::with(level, 0, &mut |_| 0, &mut || out = (a.run)());
        (out, n)
    }).collect())
}

fn same(who: &str, got: Result<String, String>, want: &str) -> Check {
    match got {
        Ok(g) if g == want => Ok(()),
        Ok(g) => Err(format!("{who} gave {:?}, alone it gives {:?}", clip(&g, 500), clip(want, 500))),
        Err(p) => Err(format!("{who} panicked: {p}")),
    }
}

fn run(o: &Other, acts: &Acts, base: &[(String, u64)], (a, sa): (usize, &[u64]), (b, sb): (usize, &[u64]), level: u8, rec: &mut Rec) -> Check {
    let (ra, rb, at) = o.both(&acts[a], sa, b, sb, level);
    rec.step((at + sb.len() + 1) as u64);
    rec.state(&format!("{a} {sa:?} {b} {sb:?}"));
    rec.outcome(&format!("{a} {b} {at}"));
    same("one", ra, &base[a].0)?;
    same("the other", rb, &base[b].0)
}

/// All increasing sequences of `k` of the numbers 1 to `n`.
fn rising(n: u64, k: usize, f: &mut dyn FnMut(&[u64])) {
    fn go(from: u64, n: u64, k: usize, v: &mut Vec<u64>, f: &mut dyn FnMut(&[u64])) {
        if k == 0 { f(v); return; }
        for i in from..=n { v.push(i); go(i + 1, n, k - 1, v, f); v.pop(); }
    }
    go(1, n, k, &mut vec![], f)
}

fn name(acts: &Acts, (a, sa): (usize, &[u64]), (b, sb): (usize, &[u64])) -> String {
    format!("{:?} stopped at {sa:?} with {:?} in another thread stopped at {sb:?}", acts[a].name, acts[b].name)
}

/// In a process of its own, which has not used the library before: use number `a` here, stopped at point `k` for all of
/// use `b` in another thread.  Prints the number of points there were in `a` and what both gave.
pub fn cold(what: &str) {
    let n: Vec<u64> = what.split(':').map(|x| x.parse().expect("--cold a:b:k")).collect();
    panics_noted();
    PATIENCE_MS.store(20, SeqCst);
    FRESH.store(true, SeqCst);
    let acts: Acts = Arc::new(cold_uses());
    let (a, b, k) = (n[0] as usize, n[1] as usize, n[2]);
    let mut points = 0;
    let (ra, rb) = if k == 0 {
        // one after the other
        let mut ra = Ok(String::new());
        points = hook::with(hook::EDGE, 0, &mut |_| 0, &mut || ra = guarded(|| (acts[a].run)()));
        let rb = guarded(|| (acts[b].run)());
        (ra, rb)
    } else {
        let o = Other::new(&acts, false);
        let (ra, rb, _) = o.both(&acts[a], &[k], b, &[], hook::EDGE);
        (ra, rb)
    };
    println!("{points}\n{ra:?}\n{rb:?}");
}

fn in_own_process(a: usize, b: usize, k: u64) -> Result<(u64, String, String), String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let o = std::process::Command::new(exe).arg("--cold").arg(format!("{a}:{b}:{k}")).stdin(std::process::Stdio::null()).output();
    let o = match o { Ok(o) => o, Err(e) => { eprintln!("cannot start a process: {e}"); std::process::exit(5) } };
    let out = String::from_utf8_lossy(&o.stdout);
    let l: Vec<&str> = out.lines().collect();
    if !o.status.success() || l.len() != 3 { return Err(format!("the process ended with {:?} {}", o.status, clip(&String::from_utf8_lossy(&o.stderr), 300))); }
    Ok((l[0].parse().map_err(|_| "no number".to_string())?, l[1].into(), l[2].into()))
}

pub fn c26(tier: Tier) -> Vec<Family> {
    let own = uses().len();
    let mut all = uses();
    all.extend(program_uses());
    let acts: Acts = Arc::new(all);
    let n = acts.len();
    let mut v = Vec::new();
    fn pairs(name_: &str, space: String, acts: &Acts, jobs: usize, per: usize, level: u8, f: impl Fn(usize, &Other, &[(String, u64)], &mut Cx) + Send + Sync + 'static) -> Family {
        let acts = acts.clone();
        Family::new(name_, space, (jobs + per - 1) / per, move |j, cx| {
            let Some(base) = cx.setup(|| "every use alone".into(), || baseline(&acts, level)) else { return };
            let o = Other::new(&acts, true);
            for i in j * per..((j + 1) * per).min(jobs) { if cx.stopped() { return; } f(i, &o, &base, cx); }
        })
    }

    // every interleaving of the callbacks with few switches
    let switches = tier.pick(2, 3);
    let ac = acts.clone();
    v.push(pairs("interleaved at callbacks", format!("every pair of {own} uses in two threads, stopped at the calls of user code, with every schedule of up to {switches} stops each"), &acts, own * own, 16, hook::CALLBACK, move |i, o, base, cx| {
        let (a, b) = (i / own, i % own);
        for ka in 1..=switches { for kb in 0..=ka.min(switches) {
            let mut todo = Vec::new();
            rising(base[a].1.min(12), ka, &mut |sa| rising(base[b].1.min(12), kb, &mut |sb| todo.push((sa.to_vec(), sb.to_vec()))));
            for (sa, sb) in todo {
                if cx.stopped() { return; }
                cx.case(|| name(&ac, (a, &sa), (b, &sb)), |rec| run(o, &ac, base, (a, &sa), (b, &sb), hook::CALLBACK, rec));
            }
        } }
    }));

    // anywhere in the one, all of the other
    for (level, what) in [(hook::ALLOC, "calls of user code or of the allocator"), (hook::EDGE, "edges of control flow and accesses to static memory")] {
        let ac = acts.clone();
        let (one, two) = if level == hook::ALLOC { (n, own) } else { (own, tier.pick(12, own)) };
        let part = own / two.min(own);
        v.push(pairs(if level == hook::ALLOC { "all of one at allocations of the other" } else { "all of one within the other" }, format!("{one} uses in one thread, stopped once, at each of the {what}, for each of {two} uses in another thread"), &acts, one * two, 4, level, move |i, o, base, cx| {
            let (a, b) = (i / two, i % two * part);
            for k in 1..=base[a].1 {
                if cx.stopped() { return; }
                cx.case(|| name(&ac, (a, &[k]), (b, &[])), |rec| run(o, &ac, base, (a, &[k]), (b, &[]), level, rec));
            }
        }));
    }

    // one stop in each
    let ac = acts.clone();
    let most = tier.pick(2500, 100_000);
    v.push(pairs("both stopped at allocations", format!("every pair of {own} uses in two threads, each stopped once, at every pair of calls of user code or of the allocator; pairs of uses with at most {most} such schedules"), &acts, own * own, 8, hook::ALLOC, move |i, o, base, cx| {
        let (a, b) = (i / own, i % own);
        if base[a].1 * base[b].1 > most { return; }
        for k in 1..=base[a].1 { for l in 1..=base[b].1 {
            if cx.stopped() { return; }
            cx.case(|| name(&ac, (a, &[k]), (b, &[l])), |rec| run(o, &ac, base, (a, &[k]), (b, &[l]), hook::ALLOC, rec));
        } }
    }));

    // the first uses in the process
    let firsts = Arc::new(cold_uses());
    let f = firsts.len();
    // as the other: the same use and some more
    let others: Vec<Vec<usize>> = (0..f).map(|a| (0..f).filter(|b| tier == Tier::Thorough || a == *b || [1, 6, 12, 15].contains(b)).collect()).collect();
    let pairs: Vec<(usize, usize)> = (0..f).flat_map(|a| others[a].iter().map(move |&b| (a, b)).collect::<Vec<_>>()).collect();
    v.push(split("first uses in a process", format!("{f} short uses as the first in a process, stopped once, at each edge of control flow and access to static memory, for all of {} uses as the first in another thread ({} pairs); a process for each schedule", others[0].len(), pairs.len()), pairs.len(), 1, move |i, cx| {
        let (a, b) = pairs[i];
        let want = |i: usize| guarded(|| (firsts[i].run)()).map(|s| format!("{:?}", Ok::<_, String>(s)));
        let Some((wa, wb)) = cx.setup(|| "both uses alone".into(), || Ok((want(a)?, want(b)?))) else { return };
        let name = |k: u64| format!("{:?} as the first in a process, stopped at {k} with {:?} in another thread", firsts[a].name, firsts[b].name);
        let judge = |(n, ra, rb): (u64, String, String)| {
            if ra != wa { return Err(format!("one gave {}, later it gives {}", clip(&ra, 500), clip(&wa, 500))); }
            if rb != wb { return Err(format!("the other gave {}, later it gives {}", clip(&rb, 500), clip(&wb, 500))); }
            Ok(n)
        };
        let mut points = 0;
        cx.case(|| name(0), |rec| { points = judge(in_own_process(a, b, 0)?)?; rec.step(points); rec.outcome(&format!("cold {a} {b}")); Ok(()) });
        if points == 0 {
            // when one case is run alone
            let Some(n) = cx.setup(|| name(0), || in_own_process(a, b, 0)) else { return };
            points = n.0;
        }
        for k in 1..=points {
            if cx.stopped() { return; }
            cx.case(|| name(k), |rec| { judge(in_own_process(a, b, k)?)?; rec.step(2); rec.state(&format!("cold {a} {b} {k}")); Ok(()) });
        }
    }));
    v
}
