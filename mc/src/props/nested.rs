//! C25: the library may be used from within the code that it calls.

use super::user::*;
use crate::engine::*;
use std::sync::{Arc, Mutex};

/// Something to do when the thread ends.
struct AtEnd(Option<Box<dyn FnOnce() + Send>>);
impl Drop for AtEnd { fn drop(&mut self) { if let Some(f) = self.0.take() { f() } } }
fn put(e: AtEnd) {
    thread_local! { static END: std::cell::RefCell<Option<AtEnd>> = const { std::cell::RefCell::new(None) }; }
    END.with(|x| *x.borrow_mut() = Some(e));
}

fn alone(a: &Act) -> (String, u64) {
    let mut out = String::new();
    let n = hook::with(hook::CALLBACK, 0, &mut |_| 0, &mut || out = (a.run)());
    (out, n)
}

/// `inner` at point `k` of `outer`.
fn nest(outer: &Act, k: u64, inner: &mut dyn FnMut()) -> (String, bool) {
    let (mut out, mut hit) = (String::new(), false);
    hook::with(hook::CALLBACK, k, &mut |_| { hit = true; inner(); 0 }, &mut || out = (outer.run)());
    (out, hit)
}

fn same(what: &str, got: &str, want: &str) -> Check {
    if got == want { Ok(()) } else { Err(format!("{what} gave {:?}, alone it gives {:?}", clip(got, 500), clip(want, 500))) }
}

/// What each use gives on its own, and how often it calls.
fn baseline(acts: &Acts) -> Result<Vec<(String, u64)>, String> {
    renew();
    Ok(acts.iter().map(alone).collect())
}

pub fn c25(tier: Tier) -> Vec<Family> {
    let own = uses().len();
    let mut all = uses();
    all.extend(program_uses());
    let acts: Acts = Arc::new(all);
    let n = acts.len();
    let mut v = Vec::new();

    let a = acts.clone();
    v.push(split("one use in another", format!("{n} uses of the library (loading, rendering, comparing, making texts, names and elements, every operation, with user code wherever it can be) with every one of them at each point where the library calls back: builders, selectors, streams, iterators, conversions, writers and drops"), n, 1, move |o, cx| {
        let Some(base) = cx.setup(|| "every use alone".into(), || baseline(&a)) else { return };
        for k in 1..=base[o].1 {
            for (i, inner) in a.iter().enumerate() {
                if cx.stopped() { return; }
                cx.case(|| format!("{:?} with {:?} at point {k}", a[o].name, inner.name), |rec| {
                    rec.step(1);
                    rec.state(&format!("{o} {k} {}", base[i].0));
                    let mut got = String::new();
                    let (out, hit) = nest(&a[o], k, &mut || got = (inner.run)());
                    if !hit { return Err(format!("point {k} of {} was not reached", base[o].1)); }
                    same("the outer one", &out, &base[o].0)?;
                    same("the inner one", &got, &base[i].0)
                });
            }
        }
    }));

    // three deep
    let a = acts.clone();
    let mids = tier.pick(own, n);
    v.push(split("one use in another in another", format!("{own} uses, with each of {mids} at each point, and in it each of {own} at each of its points"), own * mids, 4, move |j, cx| {
        let (o, m) = (j / mids, j % mids);
        let Some(base) = cx.setup(|| "every use alone".into(), || baseline(&a)) else { return };
        for k in 1..=base[o].1 { for l in 1..=base[m].1 { for i in 0..own {
            if cx.stopped() { return; }
            cx.case(|| format!("{:?} with {:?} at point {k} and {:?} at point {l} of that", a[o].name, a[m].name, a[i].name), |rec| {
                rec.step(2);
                let (mut mid, mut got) = ((String::new(), false), String::new());
                let (out, hit) = nest(&a[o], k, &mut || mid = nest(&a[m], l, &mut || got = (a[i].run)()));
                if !hit || !mid.1 { return Err("a point was not reached".into()); }
                same("the outer one", &out, &base[o].0)?;
                same("the middle one", &mid.0, &base[m].0)?;
                same("the inner one", &got, &base[i].0)
            });
        } } }
    }));

    // two in one
    let a = acts.clone();
    let outs = tier.pick(own, n);
    v.push(split("two uses in another", format!("{outs} uses, with each pair of {own} at each two points"), outs * own, 4, move |j, cx| {
        let (o, m) = (j / own, j % own);
        let Some(base) = cx.setup(|| "every use alone".into(), || baseline(&a)) else { return };
        for k in 1..=base[o].1 { for l in k + 1..=base[o].1 { for i in 0..own {
            if cx.stopped() { return; }
            cx.case(|| format!("{:?} with {:?} at point {k} and {:?} at point {l}", a[o].name, a[m].name, a[i].name), |rec| {
                rec.step(2);
                let (mut out, mut got) = (String::new(), Vec::new());
                hook::with(hook::CALLBACK, k, &mut |at| if at == k { got.push((a[m].run)()); l } else { got.push((a[i].run)()); 0 }, &mut || out = (a[o].run)());
                if got.len() != 2 { return Err("a point was not reached".into()); }
                same("the outer one", &out, &base[o].0)?;
                same("the first one", &got[0], &base[m].0)?;
                same("the second one", &got[1], &base[i].0)
            });
        } } }
    }));

    // a use within itself, as deep as it goes
    let a = acts.clone();
    let depth = tier.pick(40, 300);
    v.push(split("a use in itself", format!("{n} uses, each within itself {depth} deep, at each point"), n, 1, move |o, cx| {
        let Some(base) = cx.setup(|| "every use alone".into(), || baseline(&a)) else { return };
        for k in 1..=base[o].1 {
            cx.case(|| format!("{:?} in itself at point {k}, {depth} deep", a[o].name), |rec| {
                rec.step(depth as u64);
                fn go(a: &Act, k: u64, left: usize, want: &str, bad: &mut Check) {
                    let out = if left == 0 { (a.run)() } else { nest(a, k, &mut || go(a, k, left - 1, want, bad)).0 };
                    if bad.is_ok() { *bad = same(&format!("the one with {left} in it"), &out, want); }
                }
                let mut bad = Ok(());
                go(&a[o], k, depth, &base[o].0, &mut bad);
                bad
            });
        }
    }));

    // giving up by a panic at each point
    let a = acts.clone();
    v.push(split("after a panic", format!("{n} uses given up by a panic at each point, and after that every use gives what it gave before"), n, 1, move |o, cx| {
        let Some(base) = cx.setup(|| "every use alone".into(), || baseline(&a)) else { return };
        for k in 1..=base[o].1 {
            cx.case(|| format!("{:?} with a panic at point {k}", a[o].name), |rec| {
                rec.step(1 + a.len() as u64);
                let r = guarded(|| nest(&a[o], k, &mut || { panic!("user code") }));
                if let Ok((out, _)) = r { if !a[o].name.contains("panic") { return Err(format!("the panic was lost, giving {:?}", clip(&out, 300))); } }
                for (i, x) in a.iter().enumerate() { same(&format!("{:?} after it", x.name), &(x.run)(), &base[i].0)?; }
                Ok(())
            });
        }
    }));
    // threads that come and go, with uses when the thread ends
    let ac = acts.clone();
    v.push(split("at the end of a thread", format!("{n} uses when the local storage of a thread is destroyed, first or last, in a thread that did nothing before, did the same, or {own} others"), n * 2, 8, move |i, cx| {
        let (b, last) = (i / 2, i % 2 == 1);
        let Some(base) = cx.setup(|| "every use alone".into(), || { renew(); Ok((ac[b].run)()) }) else { return };
        for warm in 0..3 {
            if cx.stopped() { return; }
            cx.case(|| format!("{:?} at the {} of a thread that {}", ac[b].name, ["end", "very end"][last as usize], ["did nothing else", "did the same before", "did every other use before"][warm]), |rec| {
                rec.step(1);
                rec.state(&format!("{b} {last} {warm}"));
                let got = Arc::new(Mutex::new(vec![]));
                let (g, ac2) = (got.clone(), ac.clone());
                std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    let ac3 = ac2.clone();
                    let end = AtEnd(Some(Box::new(move || for _ in 0..2 { let r = guarded(|| (ac3[b].run)()); g.lock().unwrap().push(r); })));
                    // what is put there first is destroyed last
                    let end = if last { put(end); None } else { Some(end) };
                    match warm { 0 => {} 1 => { let _ = guarded(|| (ac2[b].run)()); } _ => for a in ac2.iter().take(own) { let _ = guarded(|| (a.run)()); } }
                    if let Some(e) = end { put(e) }
                }).expect("thread").join().map_err(|_| "the thread panicked".to_string())?;
                let got = std::mem::take(&mut *got.lock().unwrap());
                if got.len() != 2 { return Err("did not run".into()); }
                for g in got { same("the use", &g?, &base)?; }
                Ok(())
            });
        }
    }));
    v
}
