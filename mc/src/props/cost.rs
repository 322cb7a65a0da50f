//! C28: time and memory in proportion to what is loaded, inserted and produced.
//!
//! The cost of each step is measured at a size and at a multiple of it, and set in relation to what goes in and
//! comes out.  Memory is counted exactly.  Time is that of the thread, the least of several runs; a step counts as
//! out of proportion only if it is so by far, and again when measured anew.

use super::compose::small_progs;
use super::progs::*;
use crate::engine::*;
use crate::prog::{self, *};
use crate::real;
use html5_fuser::event::IntoStream;
use html5_fuser::text::{Data, Identifier, Value};
use html5_fuser::{ParseOptions, Template};
use std::sync::Arc;

#[repr(C)]
struct Timespec { sec: i64, nsec: i64 }
extern "C" { fn clock_gettime(clock: i32, t: *mut Timespec) -> i32; }
const THREAD_CPUTIME: i32 = 3;
fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe { clock_gettime(THREAD_CPUTIME, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

#[derive(Clone, Copy, Debug)]
struct Cost { ns: u64, total: usize, peak: usize, size: usize }

/// Something that can be done at any size; gives the size of what went in and came out.
pub struct Step { what: String, make: Box<dyn Fn(usize) -> Result<Box<dyn Fn() -> Result<usize, String>>, String> + Send + Sync> }

fn measure(f: &dyn Fn() -> Result<usize, String>, runs: usize) -> Result<Cost, String> {
    let mut best: Option<Cost> = None;
    for _ in 0..runs {
        let start = cpu();
        let (size, total, peak) = crate::alloc::used(f);
        let ns = cpu() - start;
        let c = Cost { ns, total, peak, size: size? };
        best = Some(match best { None => c, Some(b) => Cost { ns: b.ns.min(c.ns), ..c } });
    }
    best.ok_or("not run".into())
}

/// Times slower than in proportion that are put down to caches and to other things going on.
const SLOW: f64 = 3.5;
/// The same for memory, for collections that grow by doubling.
const MORE: f64 = 2.2;

fn proportional(s: &Step, small: usize, factor: usize, rec: &mut Rec) -> Check {
    // what is far out of proportion shows before it takes too long
    proportional_at(s, small / 4, 4, rec)?;
    proportional_at(s, small / 4, factor, rec)?;
    proportional_at(s, small, factor, rec)
}

fn proportional_at(s: &Step, small: usize, factor: usize, rec: &mut Rec) -> Check {
    let start = cpu();
    let a = (s.make)(small)?;
    let prepared = cpu();
    let b = (s.make)(small * factor)?;
    let (less, more) = (prepared - start, cpu() - prepared);
    // what it needs is loaded from source of this size; here only to give up before it takes too long
    if more > 300_000_000 && more as f64 > less as f64 * factor as f64 * SLOW * 3.0 {
        return Err(format!("preparing it at {small} takes {} us, at {} it takes {} us", less / 1000, small * factor, more / 1000));
    }
    let mut small_cost = measure(&*a, 3)?;
    let mut large = measure(&*b, 1)?;
    rec.step(4);
    rec.state(&format!("{} {} {}", s.what, small_cost.size, large.size));
    let ratio = large.size as f64 / small_cost.size.max(1) as f64;
    for (what, x, y) in [("asks for", small_cost.total, large.total), ("has at once", small_cost.peak, large.peak)] {
        if y > 1 << 18 && y as f64 > x as f64 * ratio * MORE {
            return Err(format!("{what} {x} bytes for {} bytes of content but {y} for {}", small_cost.size, large.size));
        }
    }
    // new memory takes longer than what is in a cache, but not more than this for each byte
    let slow = |a: &Cost, b: &Cost| b.ns > 3_000_000 && b.ns > 2 * b.size as u64 && b.ns as f64 > a.ns as f64 * ratio * SLOW;
    let mut tries = 0;
    while slow(&small_cost, &large) {
        tries += 1;
        let clearly = large.ns > 300_000_000 && large.ns as f64 > small_cost.ns as f64 * ratio * SLOW * 3.0;
        if tries > 3 || clearly {
            return Err(format!("takes {} us for {} bytes of content but {} us for {}", small_cost.ns / 1000, small_cost.size, large.ns / 1000, large.size));
        }
        // the small one may have been lucky, the large one unlucky
        small_cost = measure(&*a, 3)?;
        let again = measure(&*b, 2)?;
        large.ns = large.ns.min(again.ns);
    }
    Ok(())
}

/// Shapes besides those of `sized_doc`.
const OTHERS: usize = 14;
fn doc(k: usize, n: usize) -> String {
    let r = |s: &str| s.repeat(n);
    if k < SHAPES { return sized_doc(k, n); }
    match k - SHAPES {
        0 => format!("<script>{}</script>", r("a<b ")),
        1 => format!("<title>{}</title>", r("</a>")),
        2 => format!("<textarea>{}</textarea>", r("<")),
        3 => format!("<style>{}</style>", r("</style x ")),
        4 => format!("{}", r("<script>1</script>\n")),
        5 => format!("<!--{}-->", r("-- <")),
        6 => format!("<a{}class=\"x\"{}>t</a{}>", r(" \n"), r(" "), r("\t")),
        7 => format!("<a class=\"x{}y\">t</a>", r(" ")),
        8 => format!("{}<a class=\"x\">{}</a>", r("\n"), r("\u{1f600}\n")),
        9 => r("<!---->"),
        10 => r("<a b c=\"\" d=\"&amp;\" class=\"x y\">1<br>2</a>\n"),
        11 => format!("<a class=\"x\" k=\"{}\">t</a>", r("<'>&gt;")),
        12 => format!("{}<a class=\"x\">t</a>{}", r("<q class=\"x\">"), r("</q>")),
        _ => format!("<!doctype html>{}<a class=\"x\">t</a>", r("t<br/>")),
    }
}
/// Documents that are not accepted.
const BROKEN: usize = 10;
fn broken(k: usize, n: usize) -> String {
    let r = |s: &str| s.repeat(n);
    match k {
        0 => r("<a>"),
        1 => r("<a>1</a>") + "</b>",
        2 => format!("<{}", r("a")),
        3 => format!("<a {}", r("b=\"c\" ")),
        4 => format!("<a b=\"{}", r("c")),
        5 => format!("<!--{}", r("<!-- --")),
        6 => format!("<script>{}", r("</scrip>")),
        7 => format!("</{}", r("a")),
        8 => format!("<!doctype {}", r("a <")),
        _ => format!("{}<a b='", r("<br>\n")),
    }
}

fn step(what: &str, make: impl Fn(usize) -> Result<Box<dyn Fn() -> Result<usize, String>>, String> + Send + Sync + 'static) -> Step {
    Step { what: what.into(), make: Box::new(make) }
}

/// What can be done with each shape of document.
fn uses() -> Vec<(&'static str, fn(&str) -> Result<Box<dyn Fn() -> Result<usize, String>>, String>)> {
    vec![
        ("load", |s| { let s = s.to_string(); Ok(Box::new(move || real::tmpl(&s).map(|_| s.len()))) }),
        ("load with limits", |s| { let s = s.to_string(); Ok(Box::new(move || Template::from_str(&s, ParseOptions::default().max_input_len(s.len()).max_stack_depth(s.len())).map(|_| s.len()).map_err(|e| format!("{e:?}")))) }),
        ("load from a file", |s| {
            let f = super::files::Scratch::file(s.as_bytes());
            let n = s.len();
            Ok(Box::new(move || Template::from_file(&f.path, ParseOptions::default()).map(|_| n).map_err(|e| format!("{e:?}"))))
        }),
        ("render", |s| { let t = real::tmpl(s)?; Ok(Box::new(move || Ok(t.to_string().len()))) }),
        ("render for debugging", |s| { let t = real::tmpl(s)?; Ok(Box::new(move || Ok(format!("{t:?}").len()))) }),
        ("compare", |s| { let (t, u) = (real::tmpl(s)?, real::tmpl(s)?); let n = s.len(); Ok(Box::new(move || if t == u { Ok(n) } else { Err("not equal".into()) })) }),
        ("stream", |s| { let t = real::tmpl(s)?; let n = s.len(); Ok(Box::new(move || { let v = real::pull((&t).into_stream()); drop(v); Ok(n) })) }),
        ("render each event", |s| { let t = real::tmpl(s)?; Ok(Box::new(move || Ok(real::pull((&t).into_stream()).iter().map(|e| e.to_string().len()).sum::<usize>()))) }),
        ("clone and drop", |s| { let t = real::tmpl(s)?; let n = s.len(); Ok(Box::new(move || { drop(vec![t.clone(); 3]); Ok(n) })) }),
        ("insert in itself", |s| { let t = real::tmpl(s)?; Ok(Box::new(move || { let r = t.transform(|h| h.prepend(&t).append(&t)).map_err(|e| e.to_string())?; Ok(r.to_string().len()) })) }),
        ("insert as text", |s| { let s = s.to_string(); Ok(Box::new(move || { let t = Template::with_element("a").map_err(|e| e.to_string())?; let r = t.transform(|h| h.select("a", |h| h.append_contents(Data::from_unencoded_str(&s)).set_attribute_with_value("k", Value::from_unencoded_str(&s)).add_to_attribute("k", Value::from_unencoded_str(&s), ","))).map_err(|e| e.to_string())?; Ok(r.to_string().len()) })) }),
        ("parse as name", |s| { let s: String = "a".chars().chain(s.chars()).filter(|c| c.is_ascii_alphanumeric()).collect(); Ok(Box::new(move || { s.parse::<Identifier>().map_err(|e| e.to_string())?; Ok(s.len()) })) }),
    ]
}

fn said(e: &dyn std::error::Error) -> String {
    #[allow(deprecated)]
    let more = e.cause().map_or(String::new(), said);
    format!("{e}{more}")
}

fn many_classes() -> &'static str {
    static TEXT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    TEXT.get_or_init(|| ".x.y".repeat(150_000))
}

/// Operations that take or give much at once.
fn large() -> Vec<Step> {
    let many = |what: &str, src: &'static str, p: fn(usize) -> Prog| step(what, move |n| {
        let (t, p) = (real::tmpl(src)?, p(n));
        Ok(Box::new(move || { let (r, log) = real::transform(&t, &p); drop(log); r.map(|r| r.to_string().len()).map_err(|e| format!("{e:?}")) }))
    });
    vec![
        many("repeat a stream n times", "<a>1</a>t<br>", |n| prog(&[Op::Repeat(Items::Range(0, n as i64), prog(&[Op::Append(Content::Str("x"))]))])),
        many("repeat an element n times", "<a>1</a>t<br>", |n| prog(&[any("a", &[Op::Repeat(Items::Range(0, n as i64), prog(&[Op::AppendC(Content::Str("x"))]))])])),
        many("repeat contents n times", "<a>1</a>t<br>", |n| prog(&[any("a", &[Op::RepeatC(Items::Range(0, n as i64), prog(&[Op::Append(Content::Item)]))])])),
        many("repeat with a fallback n times", "<a>1</a>t<br>", |n| prog(&[any("a", &[Op::RepeatElse(Items::Range(0, n as i64), prog(&[Op::AppendC(Content::Item)]), prog(&[]))])])),
        many("repeat n times with a selection", "<a>1</a>t<br>", |n| prog(&[Op::Repeat(Items::Range(0, n as i64), prog(&[any("a", &[Op::ReplaceC(Content::Item)])]))])),
        many("repeat n times and select in the result", "<a>1</a>t<br>", |n| prog(&[Op::Repeat(Items::Range(0, n as i64), prog(&[])), any("a", &[Op::Attr(AttrOp::AddEmpty("k"))])])),
        many("repeat n times and apply as a template", "<a>1</a>t<br>", |n| prog(&[Op::Repeat(Items::Range(0, n as i64), prog(&[])), Op::ApplyTemplate(prog(&[any("a", &[Op::Remove])])), Op::Append(Content::Str("1"))])),
        step("add a class to n classes", |n| {
            let t = real::tmpl(&format!("<a class=\"{}\"></a>", (0..n).map(|i| format!("c{i}")).collect::<Vec<_>>().join(" ")))?;
            Ok(Box::new(move || t.transform(|h| h.select("a", |h| h.add_class("q").remove_class("c1").add_class("r").remove_class("nothing"))).map(|t| t.to_string().len()).map_err(|e| e.to_string())))
        }),
        step("select by n classes", |n| {
            // the same few over and over
            let t = real::tmpl(&"<a class=\"x y\">1</a><a class=\"x\">2</a>".repeat(4))?;
            Ok(Box::new(move || {
                let c = html5_fuser::select::Classes::from_str_iterator((0..n).map(|i| if i % 3 == 0 { "x" } else { "y" })).map_err(|e| e.to_string())?;
                t.transform(|h| h.select(c, |h| h.add_class("q"))).map(|t| n + t.to_string().len()).map_err(|e| e.to_string())
            }))
        }),
        step("select by n different classes", |n| {
            let t = real::tmpl(&"<a class=\"x c0 c1 c2 c3\">1</a><a class=\"x\">2</a>".repeat(4))?;
            let names: Vec<String> = (0..n).map(|i| format!("c{i}")).collect();
            Ok(Box::new(move || {
                let c = html5_fuser::select::Classes::from_str_iterator(names.iter().map(|s| &**s)).map_err(|e| e.to_string())?;
                t.transform(|h| h.select(c, |h| h.add_class("q"))).map(|t| n * 4 + t.to_string().len()).map_err(|e| e.to_string())
            }))
        }),
        step("select by a text of n classes", |n| {
            let t = real::tmpl(&"<a class=\"x y\">1</a><a class=\"x\">2</a>".repeat(4))?;
            let s = &many_classes()[..4 * n];
            Ok(Box::new(move || t.transform(|h| h.select(s, |h| h.add_class("q"))).map(|t| s.len() + t.to_string().len()).map_err(|e| e.to_string())))
        }),
        step("a text of n classes that is no selector", |n| {
            let t = real::tmpl("<a>1</a>")?;
            let s = &many_classes()[..4 * n + 1];
            Ok(Box::new(move || match t.transform(|h| h.select(s, |h| h)) { Ok(_) => Err("accepted".into()), Err(e) => Ok(s.len() + said(&e).len()) }))
        }),
        step("a file of n bytes that are no text", |n| {
            let mut b = "<a>1</a>\n".repeat(n).into_bytes();
            b.push(0xff);
            let f = super::files::Scratch::file(&b);
            Ok(Box::new(move || match Template::from_file(&f.path, ParseOptions::default()) { Ok(_) => Err("accepted".into()), Err(e) => Ok(b.len() + said(&e).len()) }))
        }),
        step("a file of n bytes that is no document", |n| {
            let b = "<a>1</a>\n".repeat(n).into_bytes();
            let b = [b, b"</a>".to_vec()].concat();
            let f = super::files::Scratch::file(&b);
            Ok(Box::new(move || match Template::from_file(&f.path, ParseOptions::default()) { Ok(_) => Err("accepted".into()), Err(e) => Ok(b.len() + said(&e).len()) }))
        }),
        step("n elements put together one by one", |n| {
            Ok(Box::new(move || {
                let mut size = 0;
                for _ in 0..n { size += Template::with_transformed_element("a", |h| h.append_contents("t")).map_err(|e| e.to_string())?.to_string().len(); }
                Ok(size)
            }))
        }),
        step("texts of n characters", |n| {
            let (a, b) = ("a".repeat(n), "<&>\"".repeat(n / 4 + 1));
            Ok(Box::new(move || {
                let (x, y) = (Data::from_unencoded_str(&a), Data::from_unencoded_str(&b));
                let (u, v) = (Value::from_unencoded_str(&a), Value::from_unencoded_str(&b));
                if x == y || u == v || x != x.clone() { return Err("comparison".into()); }
                Ok(x.to_string().len() + y.to_string().len() + u.to_string().len() + Data::from(v).to_string().len())
            }))
        }),
    ]
}

/// Little to parse, but much to read and to hold.
fn megabytes() -> Vec<Step> {
    let mut steps = Vec::new();
    let wraps: [(&str, &str, &str, &str); 6] = [("text", "", "t", ""), ("characters of four bytes", "", "\u{1f600}", ""), ("a comment", "<!--", "c", "-->"), ("a value", "<a k=\"", "v", "\">t</a>"), ("raw text", "<script>", "s", "</script>"), ("lines", "<a>", "word word word word word word word word word word word word word word word word\n", "</a>")];
    for (what, before, unit, after) in wraps {
        let make = move |n: usize| format!("{before}{}{after}", unit.repeat(n / unit.len()));
        for limited in [false, true] {
            steps.push(step(&format!("load a file of n bytes of {what}{}", if limited { " with a limit" } else { "" }), move |n| {
                let s = make(n);
                let (f, n) = (super::files::Scratch::file(s.as_bytes()), s.len());
                let o = if limited { ParseOptions::default().max_input_len(n) } else { ParseOptions::default() };
                Ok(Box::new(move || Template::from_file(&f.path, o).map(|_| n).map_err(|e| format!("{e:?}"))))
            }));
        }
        steps.push(step(&format!("load a file of n bytes of {what} and then one that is no text"), move |n| {
            let b = [make(n).as_bytes(), &[0xf0, 0x9f]].concat();
            let (f, n) = (super::files::Scratch::file(&b), b.len());
            Ok(Box::new(move || match Template::from_file(&f.path, ParseOptions::default()) { Ok(_) => Err("accepted".into()), Err(e) => Ok(n + said(&e).len()) }))
        }));
        for (use_, f) in uses() {
            if use_ == "load from a file" || use_ == "parse as name" || use_ == "render for debugging" { continue }
            steps.push(step(&format!("{use_}, n bytes of {what}"), move |n| f(&make(n))));
        }
    }
    steps
}

fn family(name: &str, space: String, steps: Vec<Step>, small: usize, factor: usize) -> Family {
    let n = steps.len();
    split(name, space, n, 1, move |i, cx| {
        let s = &steps[i];
        cx.case(|| format!("{} at {small} and {}", s.what, small * factor), |rec| proportional(s, small, factor, rec));
    })
}

/// Each use of documents of each shape, of what is no document, and of much at once.
fn each_use() -> Vec<Step> {
    let mut steps = Vec::new();
    for k in 0..SHAPES + OTHERS {
        for (what, f) in uses() { steps.push(step(&format!("{what}, shape {k}"), move |n| f(&doc(k, n)))); }
    }
    for k in 0..BROKEN {
        steps.push(step(&format!("load what is no document, shape {k}"), move |n| {
            let s = broken(k, n);
            Ok(Box::new(move || match real::parse(&s) { Ok(_) => Err("accepted".into()), Err(e) => { let t = said(&e); Ok(s.len() + t.len()) } }))
        }));
    }
    steps.extend(large());
    steps
}

/// Programs on documents of each shape.
fn transforms(ps: Vec<Prog>) -> Vec<Step> {
    let ps: Arc<Vec<Prog>> = Arc::new(ps);
    let mut steps = Vec::new();
    for k in 0..SHAPES + OTHERS {
        for i in 0..ps.len() {
            let ps = ps.clone();
            steps.push(step(&format!("shape {k} through html{}", prog::show_prog(&ps[i])), move |n| {
                let (t, p) = (real::tmpl(&doc(k, n))?, ps[i].clone());
                let size = t.to_string().len();
                Ok(Box::new(move || { let (r, log) = real::transform(&t, &p); drop(log); r.map(|r| size + r.to_string().len()).map_err(|e| format!("{e:?}")) }))
            }));
        }
    }
    steps
}

/// On a thread that did it in small before: doing it at large keeps nothing of that size.
fn given_back(s: &Step, n: usize, rec: &mut Rec) -> Check {
    let (kept, peak) = std::thread::scope(|scope| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, || guarded(|| {
            for _ in 0..2 { (s.make)(4)?()?; }
            let before = crate::alloc::live();
            let (r, _, peak) = crate::alloc::used(|| -> Check {
                let f = (s.make)(n)?;
                for _ in 0..2 { f()?; }
                Ok(())
            });
            r?;
            Ok::<_, String>((crate::alloc::live() - before, peak))
        })).map_err(|e| e.to_string())?.join().map_err(|_| "panicked".to_string())?
    })??;
    rec.step(3);
    rec.state(&format!("{} {peak}", s.what));
    if kept > 8192 && kept as usize > peak / 100 { return Err(format!("keeps {kept} of {peak} bytes when all is dropped")); }
    Ok(())
}

/// For C24.
pub fn all_given_back(tier: Tier) -> Vec<Family> {
    let n = tier.pick(20_000, 100_000);
    let mut v = Vec::new();
    for (name, steps) in [("much at once", each_use()), ("transforms of much at once", transforms(small_progs()))] {
        v.push(split(name, format!("{} uses of documents of {} shapes at the size {n}, on a fresh thread: nothing of that size is kept when all is dropped", steps.len(), SHAPES + OTHERS), steps.len(), 1, move |i, cx| {
            cx.case(|| format!("{} at {n}", steps[i].what), |rec| given_back(&steps[i], n, rec));
        }));
    }
    v
}

pub fn c28(tier: Tier) -> Vec<Family> {
    let (small, factor) = (tier.pick(1500, 4000), 16);
    let ps = small_progs();
    let n = ps.len();
    let bytes = tier.pick(1 << 18, 1 << 20);
    vec![
        family("megabytes", format!("files and strings of one long text, comment, value, raw text, of {bytes} and {factor} times as many bytes"), megabytes(), bytes, factor),
        family("each use", format!("loading, rendering, comparing, streaming, inserting of documents of {} shapes, {BROKEN} shapes of what is no document, repetitions and texts, at {small} and {factor} times that", SHAPES + OTHERS), each_use(), small, factor),
        family("transforms", format!("{n} programs on documents of {} shapes, transformed and rendered, at {small} and {factor} times that", SHAPES + OTHERS), transforms(ps), small, factor),
    ]
}
