//! C23: transforms come to an end, whatever the size; C24: nothing is kept.

use super::compose::{element_ops, stream_ops};
use super::gen::*;
use super::progs::*;
use super::select::{docs_upto, labels, labels2};
use crate::engine::*;
use crate::model::*;
use crate::prog::{self, prog, AttrOp, Content, Env, Fault, Items, Op, Prog, Scope, Val};
use crate::real;
use html5_fuser::event::{Event, IntoStream, Stream, StreamError};
use html5_fuser::select::{Selector, Tag};
use html5_fuser::text::{Data, Identifier, Value};
use html5_fuser::{ParseOptions, Template};
use std::rc::Rc;
use std::sync::Arc;

// --------------------------------------------------------------------------------------------- C23

const STACK: usize = 1 << 20;

type Outcome = Result<(String, String), (String, bool)>;

/// Parse, transform and render on a thread with an ordinary stack.
fn small(src: &str, p: &Prog, fail: Option<&prog::Failure>) -> Result<(Outcome, prog::Log), String> {
    let (src, p, fail) = (src.to_string(), p.clone(), fail.cloned());
    let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
        guarded(|| {
            let t = real::tmpl(&src)?;
            let (r, log) = real::transform(&t, &p);
            let r = match r {
                Ok(t) => { let c = canon_real(&t)?; Ok((t.to_string(), c)) }
                Err(e) => Err((format!("{e:?}"), fail.map_or(false, |f| real::is_failure(&e, &f)))),
            };
            Ok((r, log))
        })
    }).map_err(|e| e.to_string())?;
    match h.join() { Ok(Ok(r)) => r, Ok(Err(p)) => Err(format!("panicked: {p}")), Err(_) => Err("panicked".into()) }
}

fn ended(src: &str, doc: &[Node], p: &Prog, rec: &mut Rec) -> Check {
    let (w, env): (Result<Vec<Node>, prog::Failure>, Env) = want(doc, p);
    let (got, log) = small(src, p, w.as_ref().err())?;
    rec.step(env.steps + 1);
    match (got, w) {
        (Ok((s, c)), Ok(nodes)) => {
            let want = render(&nodes);
            rec.state(&want);
            if s != want { return Err(format!("output {:?}, expected {:?}", clip(&diffclip(&s, &want), 600), clip(&diffclip(&want, &s), 600))); }
            if c != canon(&nodes) { return Err("events differ".into()); }
            same_log(&log, &env.log)
        }
        (Err((e, ok)), Err(f)) => if ok { Ok(()) } else { Err(format!("failed with {e}, expected failure by {f:?}")) },
        (Ok((s, _)), Err(f)) => Err(format!("gave {:?}, expected failure by {f:?}", clip(&s, 300))),
        (Err((e, _)), Ok(n)) => Err(format!("failed with {e}, expected {:?}", clip(&render(&n), 300))),
    }
}

type Shape = (&'static str, fn(usize) -> String);
const SHAPES: &[Shape] = &[
    ("elements in a row", |n| "<a class=\"x\">t</a>".repeat(n)),
    ("self-closed elements in a row", |n| "<a/>".repeat(n)),
    ("void elements in a row", |n| "<br class=\"x\">".repeat(n)),
    ("comments in a row", |n| format!("<a>{}</a>", "<!--c-->".repeat(n))),
    ("nested elements", |n| "<a>".repeat(n) + &"</a>".repeat(n)),
    ("nested other elements", |n| format!("<a>{}t{}</a>", "<b class=\"x\">".repeat(n), "</b>".repeat(n))),
    ("nested elements in a row", |n| "<b><a class=\"x\">1</a><br></b>".repeat(n)),
    ("elements in an element", |n| format!("<a class=\"x\">{}</a>t", "<b class=\"x\"><a/></b>".repeat(n))),
    ("attributes", |n| format!("<a{} class=\"x\">t</a>", (0..n).map(|i| format!(" k{i}=\"v\"")).collect::<String>())),
    ("attributes of one name", |n| format!("<a{}>t</a>", " class=\"x y\" k".repeat(n))),
    ("words of a class", |n| format!("<a class=\"{}\">t</a>", "x y ".repeat(n))),
    ("text", |n| format!("<a>{}</a>", "t&amp; ".repeat(n))),
];

/// Each operation alone, on streams and on elements.
fn alone() -> Vec<Prog> {
    let mut v: Vec<Prog> = stream_ops(Tier::Thorough).into_iter().map(|o| prog(&[o])).collect();
    v.extend(element_ops().into_iter().map(|o| prog(&[any("a", &[o])])));
    use AttrOp::*;
    for a in [Add("k", None), AddV("k", Val::Str("\"")), AddEmpty("k"), AddTo("k", Val::Str("1"), Val::Str(",")), ReplaceIf("class", Val::Str("1")), Set("class", None), SetV("class", Val::Str("z")), SetEmpty("k"), Remove("class"), Remove("k"), AddClass("z"), RemoveClass("x"), RemoveClass("y"), RemoveId, SetId("i")] {
        v.push(prog(&[any(".x", &[Op::Attr(a)])]));
    }
    for s in Scope::ALL {
        for o in [Op::Mark(1), Op::Remove, Op::RemoveC, Op::Replace(Content::Str("")), Op::Attr(AddClass("z"))] {
            for q in ["a", "b", ".x", "nothing"] { v.push(if s.sub() { prog(&[any("a", &[sel(s, q, &[o.clone()])])]) } else { prog(&[sel(s, q, &[o.clone()])]) }); }
        }
    }
    // selections in selections in selections
    let t = |s: Scope, p: &[Op]| sel(s, "a", p);
    v.push(prog(&[t(Scope::Any, &[t(Scope::SubAny, &[t(Scope::SubAny, &[Op::RemoveC])])])]));
    v.push(prog(&[t(Scope::Any, &[t(Scope::Any, &[t(Scope::Direct, &[Op::Remove])])])]));
    v.push(prog(&[any("b", &[Op::Remove]), any("a", &[Op::Remove]), any("br", &[Op::Remove])]));
    v.push(prog(&[any(".x", &[Op::Repeat(Items::Range(0, 3), prog(&[Op::Remove]))])]));
    v.push(prog(&[any(".x", &[Op::Repeat(Items::Range(0, 0), prog(&[]))]), any("a", &[Op::Remove])]));
    v
}

/// Programs with something many times in them.
fn counted(n: usize, k: usize) -> Option<(String, Prog)> {
    let it = || Items::Range(0, n as i64);
    let e = || prog(&[]);
    let app = || prog(&[Op::Append(Content::Item)]);
    let rm = || prog(&[Op::Remove]);
    Some(match k {
        0 => ("many copies", prog(&[Op::Repeat(it(), app())])),
        1 => ("many copies removed", prog(&[Op::Repeat(it(), rm())])),
        2 => ("many copies of nothing", prog(&[Op::Remove, Op::Repeat(it(), e())])),
        3 => ("many copies of nothing in elements", prog(&[any("a", &[Op::RemoveC, Op::RepeatC(it(), e())])])),
        4 => ("many copies replaced by nothing", prog(&[any("a", &[Op::Repeat(it(), prog(&[Op::Replace(Content::Str(""))]))])])),
        5 => ("many copies else", prog(&[Op::RepeatElse(it(), rm(), e())])),
        6 => ("many copies of contents else", prog(&[any("a", &[Op::RepeatCElse(it(), rm(), e())])])),
        7 => ("many copies, all selected and removed", prog(&[Op::Repeat(it(), e()), any("a", &[Op::Remove]), any("br", &[Op::Remove])])),
        8 => ("many copies through templates", prog(&[Op::Repeat(it(), prog(&[Op::ApplyTemplate(rm())]))])),
        9 => ("many copies, each appended to contents", prog(&[Op::Repeat(it(), prog(&[any("a", &[Op::AppendC(Content::Item)])]))])),
        10 => ("many copies of elements, each changed", prog(&[any("a", &[Op::Repeat(it(), prog(&[Op::Attr(AttrOp::SetV("n", Val::Item))]))])])),
        11 => ("many empty pieces", prog(&[Op::Append(Content::Seq(vec![b'N'; n].into())), any("a", &[Op::Prepend(Content::Seq(vec![b'N'; n].into()))])])),
        12 => ("many copies, one failing", prog(&[Op::Repeat(it(), rm()), Op::Append(Content::Fail(Fault::StreamAfter(1)))])),
        _ => return None,
    }).map(|(w, p): (&str, Prog)| (w.to_string(), p))
}

/// Long chains and deep nesting of operations.
fn long(n: usize, k: usize) -> Option<(String, Prog)> {
    let chain = |o: &dyn Fn(usize) -> Op| -> Vec<Op> { (0..n).map(|i| o(i)).collect() };
    let deep = |mut p: Prog, o: &dyn Fn(Prog) -> Op| -> Prog { for _ in 0..n { p = prog(&[o(p)]); } p };
    let end = || prog(&[Op::Mark(1), Op::Append(Content::Str("e"))]);
    Some(match k {
        0 => ("appended again and again", prog(&chain(&|_| Op::Append(Content::Str("x"))))),
        1 => ("prepended again and again", prog(&chain(&|_| Op::Prepend(tmpl("<a/>"))))),
        2 => ("selected again and again", prog(&chain(&|i| any("a", &[Op::Attr(AttrOp::SetV("k", Val::Int(i as i64)))])))),
        3 => ("changed again and again", prog(&[any("a", &chain(&|_| Op::Attr(AttrOp::AddClass("z"))))])),
        4 => ("filled again and again", prog(&[any("a", &chain(&|_| Op::AppendC(Content::Str("z"))))])),
        5 => ("apply in apply", deep(end(), &|p| Op::Apply(p))),
        6 => ("selection in selection", deep(end(), &|p| any("a", &[]).with(p))),
        7 => ("template in template", deep(end(), &|p| Op::ApplyTemplate(p))),
        8 => ("repetition in repetition", deep(end(), &|p| Op::Repeat(Items::Range(0, 1), p))),
        9 => ("contents in contents", prog(&[any("a", &[deep(prog(&[Op::AppendC(Content::Str("z"))]), &|p| Op::SubContents(prog(&[any("a", &p)])))[0].clone()])])),
        10 => ("removed again and again", prog(&chain(&|_| Op::Remove))),
        _ => return None,
    }).map(|(w, p): (&str, Prog)| (w.to_string(), p))
}
trait With { fn with(self, p: Prog) -> Op; }
impl With for Op { fn with(self, p: Prog) -> Op { match self { Op::Select(s, x, _) => Op::Select(s, x, p), o => o } } }

pub fn c23(tier: Tier) -> Vec<Family> {
    let ps = alone();
    let m = ps.len();
    let sz = [tier.pick(3_000, 30_000), 65, 3];
    let per = 8;
    let jobs = (m + per - 1) / per;
    let n = SHAPES.len() * sz.len();
    let mut v = vec![split("large documents", format!("{} shapes of documents with {sz:?} pieces through each of {m} programs of one operation, on a thread with 1 MB of stack", SHAPES.len()), n * jobs, 1, move |i, cx| {
        let (d, j) = (i / jobs, i % jobs);
        let (size, (what, shape)) = (sz[d / SHAPES.len()], SHAPES[d % SHAPES.len()]);
        let src = shape(size);
        let doc = parse_doc(&src);
        for p in &ps[j * per..((j + 1) * per).min(m)] {
            cx.case(|| format!("{what}, {size}, through html{}", prog::show_prog(p)), |rec| ended(&src, &doc, p, rec));
        }
    })];
    // very large ones with few operations
    let big = tier.pick(120_000, 1_000_000);
    let few: Arc<Vec<Prog>> = Arc::new(vec![
        prog(&[]), prog(&[any("a", &[Op::Remove])]), prog(&[any(".x", &[Op::RemoveC])]), prog(&[sel(Scope::Once, "a", &[Op::Remove])]), prog(&[any("nothing", &[])]), prog(&[Op::Remove]), prog(&[Op::Replace(Content::Str("r"))]),
        prog(&[any("a", &[sel(Scope::SubAny, ".x", &[Op::Remove])])]), prog(&[Op::Repeat(Items::Range(0, 2), prog(&[any("a", &[Op::Remove])]))]), prog(&[any("a", &[Op::ReplaceC(Content::Str(""))])]), prog(&[any("a", &[Op::Repeat(Items::Range(0, 0), prog(&[]))])]),
        prog(&[any("a", &[Op::Attr(AttrOp::RemoveClass("x"))])]), prog(&[any("a", &[Op::Attr(AttrOp::AddClass("x"))])]), prog(&[Op::ApplyTemplate(prog(&[]))]), prog(&[any("a", &[Op::SubContents(prog(&[Op::Remove]))])]), prog(&[any("a", &[Op::Replace(Content::Element("br"))])]),
        prog(&[any("a", &[Op::RepeatC(Items::Range(0, 0), prog(&[]))])]), prog(&[any("a", &[Op::Remove]), any("a", &[Op::Remove]), any("b", &[Op::Remove])]),
    ]);
    let f = few.len();
    v.push(split("very large documents", format!("{} shapes of documents with {big} pieces through {f} programs, on a thread with 1 MB of stack", SHAPES.len()), SHAPES.len() * f, 1, move |i, cx| {
        let ((what, shape), p) = (SHAPES[i / f], &few[i % f]);
        // the words and attributes of one element are looked at one against the other
        let n = if what.contains("attributes") || what.contains("words") { big / 10 } else { big };
        let src = shape(n);
        let doc = parse_doc(&src);
        cx.case(|| format!("{what}, {n}, through html{}", prog::show_prog(p)), |rec| ended(&src, &doc, p, rec));
    }));
    let counts = [tier.pick(100_000, 1_000_000), 1000, 17];
    v.push(split("large counts", format!("repetitions and streams with {counts:?} items or no-ops, on a thread with 1 MB of stack"), 13 * counts.len(), 1, move |i, cx| {
        let n = counts[i / 13];
        let Some((what, p)) = counted(n, i % 13) else { return };
        for src in ["", "<a>1</a>", "<a/><br>", "<a><b><a></a></b></a>"] {
            let doc = parse_doc(src);
            cx.case(|| format!("{what}, {n}: {src:?}"), |rec| ended(src, &doc, &p, rec));
        }
    }));
    let lens = [tier.pick(100, 200), 33, 5];
    v.push(split("long programs", format!("chains and nestings of {lens:?} operations, on a thread with 1 MB of stack"), 11 * lens.len(), 1, move |i, cx| {
        let n = lens[i / 11];
        let Some((what, p)) = long(n, i % 11) else { return };
        let nest = "<a>".repeat(n) + &"</a>".repeat(n);
        for src in ["", "<a>1</a>", "<a/><br>", "<a><b><a></a></b></a>", &nest] {
            let doc = parse_doc(src);
            cx.case(|| format!("{what}, {n}: {:?}", clip(src, 60)), |rec| ended(src, &doc, &p, rec));
        }
    }));
    v
}

// --------------------------------------------------------------------------------------------- C24

/// Run it again and again: from the second time on, what it took is given back.
fn settles(f: &dyn Fn() -> Check) -> Check {
    f()?;
    let mut grown = Vec::new();
    for _ in 0..4 {
        let before = crate::alloc::live();
        let r = f();
        let after = crate::alloc::live();
        r?;
        if after <= before { return Ok(()); }
        grown.push(after - before);
    }
    Err(format!("each run keeps memory: {grown:?} bytes after the first one"))
}

fn kept(src: &str, p: &Prog, rec: &mut Rec) -> Check {
    rec.step(2);
    match real::transform(&real::tmpl(src)?, p).0 { Ok(t) => rec.state(&t.to_string()), Err(e) => rec.outcome(&format!("{e:?}")) }
    settles(&|| {
        let t = real::tmpl(src)?;
        let (r, log) = real::transform(&t, p);
        drop(log);
        match r {
            Ok(r) => {
                let c = r.clone();
                let s = (&c).into_stream();
                drop(r);
                if s.into_stream().next_event().is_err() { return Err("stream failed".into()); }
                let _ = (c.to_string().len(), c == t);
            }
            Err(e) => drop(e),
        }
        Ok(())
    })
}

fn open_files() -> usize { std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count()) }

/// Things done once each with ever new names and texts; what they leave must not add up.
fn fresh(k: usize, n: usize) -> Check {
    let u = |i: usize, r: usize| format!("u{k}-{r}-{i}");
    let round = |r: usize| -> Check {
        for i in 0..n {
            let x = u(i, r);
            match k {
                0 => drop(real::tmpl(&format!("<{x} {x}=\"{x}\">{x}</{x}>"))?),
                1 => drop(real::tmpl(&format!("<!--{x}--><script>{x}</script>"))?.to_string()),
                2 => drop(real::ident(&x).map_err(|e| e.to_string())?),
                3 => drop(x.parse::<Tag>().map_err(|e| e.to_string())?),
                4 => { let t = real::tmpl("<a class=\"q\"></a>")?; let r = t.transform(|h| h.select("a", |h| h.add_class(x.parse::<Identifier>()).set_id(x.parse::<Identifier>()).set_attribute_with_value(x.parse::<Identifier>(), Value::from_unencoded_str(&x)).append_contents(Data::from_unencoded_str(&x)))); r.map_err(|e| e.to_string())?; }
                5 => drop(Template::with_element(x.parse::<Identifier>()).map_err(|e| e.to_string())?),
                6 => if real::tmpl(&format!("<{x}>")).is_ok() { return Err("accepted".into()); },
                7 => if Template::from_file(format!("/nonexistent/{x}"), ParseOptions::default()).is_ok() { return Err("accepted".into()); },
                8 => { let sc = super::files::Scratch::file(format!("<p>{x}</p>").as_bytes()); Template::from_file(&sc.path, ParseOptions::default()).map_err(|e| e.to_string())?; }
                9 => { let t = real::tmpl(&format!("<a class=\"{x} q\">{x}</a>"))?; let r = t.transform(|h| h.select(x.parse::<html5_fuser::select::Class>(), |h| h.repeat(0..3, |h, i| h.append(i).prepend(Data::from_unencoded_str(&x))).apply_as_template(|t| Ok(t.clone())))); r.map_err(|e| e.to_string())?; }
                _ => { let v = Value::from_unencoded_str(&x); let w = v.clone(); if v != w || Data::from(v).to_string() != x { return Err("value differs".into()); } }
            }
        }
        Ok(())
    };
    round(0)?;
    let mut grown = Vec::new();
    for r in 1..6 {
        let before = crate::alloc::live();
        round(r)?;
        let after = crate::alloc::live();
        if after <= before { return Ok(()); }
        grown.push(after - before);
    }
    Err(format!("{n} times with new names each keep memory: {grown:?} bytes"))
}
const FRESH: [&str; 11] = ["parsed tags", "parsed comments", "identifiers", "selectors", "transforms", "elements", "parse errors", "missing files", "files", "repetitions", "values"];

/// What the user gives to the library, each with a count of how many are about.
type Count = Rc<std::cell::Cell<isize>>;
struct Held(Count);
impl Held { fn of(c: &Count) -> Held { c.set(c.get() + 1); Held(c.clone()) } fn seen(&self) {} }
impl Clone for Held { fn clone(&self) -> Held { Held::of(&self.0) } }
impl Drop for Held { fn drop(&mut self) { self.0.set(self.0.get() - 1) } }
struct HSel(Tag, Held);
impl Selector for HSel { fn matches(&self, e: &Event) -> bool { self.1.seen(); self.0.matches(e) } }
struct HStream(std::vec::IntoIter<Event>, Held);
impl HStream { fn of(c: &Count) -> HStream { HStream(real::pull(real::tmpl("<q>1</q>2").expect("markup").into_stream()).into_iter(), Held::of(c)) } }
impl Stream for HStream { fn next_event(&mut self) -> html5_fuser::event::StreamResult { self.1.seen(); Ok(self.0.next()) } }
struct HName(&'static str, Held);
impl html5_fuser::text::IntoIdentifier for HName { fn into_identifier(self) -> Result<Identifier, html5_fuser::text::IdentifierError> { self.1.seen(); self.0.parse() } }
struct HVal(Held);
impl html5_fuser::text::IntoValue for HVal { fn into_value(self) -> Value { self.0.seen(); Value::from_unencoded_str("v&") } }
struct HIter(std::ops::Range<usize>, Count, Held);
impl HIter { fn of(n: usize, c: &Count) -> HIter { HIter(0..n, c.clone(), Held::of(c)) } }
impl Iterator for HIter { type Item = Held; fn next(&mut self) -> Option<Held> { self.2.seen(); self.0.next().map(|_| Held::of(&self.1)) } }

const GIVEN: usize = 34;
/// Ways to give something to a transform.
fn given<'t>(k: usize, h: html5_fuser::transform::BoxedApi<'t>, c: &Count) -> html5_fuser::transform::BoxedApi<'t> {
    let sel = || HSel("a".parse().expect("tag"), Held::of(c));
    let b = || Held::of(c);
    match k {
        0 => h.append(HStream::of(c)).into_boxed(),
        1 => h.prepend(HStream::of(c)).into_boxed(),
        2 => h.replace(HStream::of(c)).into_boxed(),
        3 => { let c = c.clone(); h.select("a", move |h| h.append_contents(HStream::of(&c))).into_boxed() }
        4 => { let c = c.clone(); h.select("a", move |h| h.prepend_contents(HStream::of(&c))).into_boxed() }
        5 => { let c = c.clone(); h.select("a", move |h| h.replace_contents(HStream::of(&c))).into_boxed() }
        6 => { let x = b(); h.select(sel(), move |h| { x.seen(); h.remove() }).into_boxed() }
        7 => { let x = b(); h.select_once(sel(), move |h| { x.seen(); h.remove_contents() }).into_boxed() }
        8 => { let x = b(); h.select_direct(sel(), move |h| { x.seen(); h.add_class("q") }).into_boxed() }
        9 => { let x = b(); h.select_direct_once(sel(), move |h| { x.seen(); h.remove_id() }).into_boxed() }
        10 => { let (s, x) = (Rc::new(sel()), b()); h.select("b", move |h| { let x = x.clone(); h.subselect(s.clone(), move |h| { x.seen(); h.remove() }) }).into_boxed() }
        11 => { let (s, x) = (Rc::new(sel()), b()); h.select("b", move |h| { let x = x.clone(); h.subselect_once(s.clone(), move |h| { x.seen(); h.remove() }) }).into_boxed() }
        12 => { let (s, x) = (Rc::new(sel()), b()); h.select("b", move |h| { let x = x.clone(); h.subselect_direct(s.clone(), move |h| { x.seen(); h.remove() }) }).into_boxed() }
        13 => { let (s, x) = (Rc::new(sel()), b()); h.select("b", move |h| { let x = x.clone(); h.subselect_direct_once(s.clone(), move |h| { x.seen(); h.remove() }) }).into_boxed() }
        14 => { let x = b(); h.select("a", move |h| { let x = x.clone(); h.subselect_contents(move |h| { x.seen(); h.append("z") }) }).into_boxed() }
        15 => { let x = b(); h.apply(move |h| { x.seen(); h.append("z") }).into_boxed() }
        16 => { let x = b(); h.apply_if(true, move |h| { x.seen(); h.append("z") }).into_boxed() }
        17 => { let x = b(); h.apply_if(false, move |h| { x.seen(); h.append("z") }).into_boxed() }
        18 => { let (x, z) = (b(), b()); h.apply_if_else(false, move |h| { x.seen(); h.append("z") }, move |h| { z.seen(); h }).into_boxed() }
        19 => { let (x, z) = (b(), b()); h.apply_with_option(Some(b()), move |h, i| { i.seen(); x.seen(); h.append("z") }, move |h| { z.seen(); h }).into_boxed() }
        20 => { let (x, z) = (b(), b()); let r: Result<Held, Held> = Err(b()); h.apply_with_result(r, move |h, i| { i.seen(); x.seen(); h.append("z") }, move |h, e| { e.seen(); z.seen(); h }).into_boxed() }
        21 => { let x = b(); h.apply_as_template(move |t| { x.seen(); Ok(t) }).into_boxed() }
        22 => { let x = b(); h.apply_as_boxed(move |h| { x.seen(); h.append("z").into_boxed() }) }
        23 => { let x = b(); h.repeat(HIter::of(3, c), move |h, i| { i.seen(); x.seen(); h.append(1).apply(move |h| { i.seen(); h }) }).into_boxed() }
        24 => { let (x, z) = (b(), b()); h.repeat_or_else(HIter::of(2, c), move |h, i| { i.seen(); x.seen(); h }, move |h| { z.seen(); h }).into_boxed() }
        25 => { let (x, z) = (b(), b()); h.repeat_or_else(HIter::of(0, c), move |h, i| { i.seen(); x.seen(); h }, move |h| { z.seen(); h.append(2) }).into_boxed() }
        26 => { let (c, x) = (c.clone(), b()); h.select("a", move |h| { let x = x.clone(); h.repeat_contents(HIter::of(2, &c), move |h, i| { i.seen(); x.seen(); h.append(1) }) }).into_boxed() }
        27 => { let (c, x) = (c.clone(), b()); h.select("a", move |h| { let (x, z) = (x.clone(), x.clone()); h.repeat_contents_or_else(HIter::of(0, &c), move |h, i| { i.seen(); x.seen(); h.append(1) }, move |h| { z.seen(); h }) }).into_boxed() }
        28 => { let c = c.clone(); h.select("a", move |h| h.set_attribute_with_value(HName("k", Held::of(&c)), HVal(Held::of(&c))).add_attribute_with_value(HName("l", Held::of(&c)), HVal(Held::of(&c)))).into_boxed() }
        29 => { let c = c.clone(); h.select("a", move |h| h.add_to_attribute(HName("k", Held::of(&c)), HVal(Held::of(&c)), HVal(Held::of(&c))).replace_attribute_value_if_exists(HName("k", Held::of(&c)), HVal(Held::of(&c)))).into_boxed() }
        30 => { let c = c.clone(); h.select("a", move |h| h.add_class(HName("k", Held::of(&c))).set_id(HName("l", Held::of(&c))).remove_class(HName("x", Held::of(&c))).remove_attribute(HName("id", Held::of(&c)))).into_boxed() }
        31 => { let s = Rc::new(std::cell::RefCell::new(HStream::of(c))); h.append(s.clone()).append(s).into_boxed() }
        32 => { let c = c.clone(); h.select("a", move |h| h.append_contents(HStream::of(&c)).set_id(HName("not a name", Held::of(&c)))).into_boxed() }
        _ => h.select(Err::<HSel, _>(StreamError::from("".parse::<Identifier>().unwrap_err())), |h| h).append(HStream::of(c)).into_boxed(),
    }
}

/// After a transform nothing the user gave is held any more, nor the template, whichever way it ends.
fn let_go(k: usize, k2: usize, src: &str, end: usize, rec: &mut Rec) -> Check {
    let c: Count = Rc::default();
    let t = Rc::new(real::tmpl(src)?);
    let weak = Rc::downgrade(&t);
    let mut whole = None;
    {
        let (c2, c3, t2) = (c.clone(), c.clone(), t.clone());
        let r = guarded(move || t.transform(move |h| {
            let h = given(k2, given(k, h.prepend(t2).into_boxed(), &c2), &c3);
            match end {
                0 => h,
                1 => h.append(Err::<&'static str, _>(StreamError::from("".parse::<Identifier>().unwrap_err()))).into_boxed(),
                2 => h.prepend(Err::<&'static str, _>(StreamError::from("".parse::<Identifier>().unwrap_err()))).into_boxed(),
                3 => h.apply_as_template(|_| panic!("builder")).into_boxed(),
                _ => { if end == 4 { panic!("builder") } h.select("u", |h| { if true { panic!("builder") } h }).into_boxed() }
            }
        }));
        rec.step(1);
        match &r { Ok(Ok(t)) => { whole = Some(t.to_string()); rec.state(&t.to_string()) } Ok(Err(e)) => rec.outcome(&format!("{e:?}")), Err(m) => rec.outcome(m) }
    }
    if c.get() != 0 { return Err(format!("{} of the things given are still held, result {whole:?}", c.get())); }
    if weak.upgrade().is_some() { return Err(format!("the template inserted is still held, result {whole:?}")); }
    Ok(())
}

pub fn c24(tier: Tier) -> Vec<Family> {
    let j: Judge = Arc::new(|_, doc, p, rec| kept(&render(doc), p, rec));
    let stream: Vec<Prog> = chains(&stream_ops(Tier::Thorough), 3, false).into_iter().map(|c| prog(&c)).collect();
    let element: Vec<Prog> = chains(&element_ops(), tier.pick(2, 3), true).into_iter().map(|c| prog(&[any("a", &c)])).collect();
    let faults: Vec<Prog> = super::faults::injected(chains(&stream_ops(Tier::Quick), 1, false).into_iter().chain(element_ops().into_iter().map(|o| vec![any("a", &[o])])).collect(), &super::faults::failing_ops(true));
    let l: Vec<Vec<Node>> = docs_upto(2, &labels());
    let mut v = vec![
        programs_by("operations on streams", "all sequences of operations, what is left after loading, transforming, cloning, comparing, rendering and dropping", docs(&["<a>1<a/></a>t<b class=\"x\"></b>", "<b class=\"x\"><a class=\"x\"><br></a>t</b><a class=\"x\" />"]), stream, j.clone()),
        product_by("operations on elements", "the same with operations on selected elements", l.into_iter().chain(docs_upto(2, &labels2())).collect(), element, j.clone()),
        programs_by("failing operations", "the same with one failing operation anywhere", super::faults::fault_docs(), faults, j.clone()),
    ];
    // documents and what is no document
    let toks = vec!["<", "a", ">", "</", "b", " ", "=", "\"", "/", "!--", "--", "&amp;", "script", "\u{e9}"];
    v.push(strings("sources", "(characters and tags), accepted or not", toks, tier.pick(4, 5), "", vec!["", "</a>"], move |s, cx| {
        cx.case(|| format!("source {s:?}"), |rec| {
            rec.step(1);
            settles(&|| { match real::parse(s) { Ok(t) => drop(t.to_string()), Err(e) => drop((e.to_string(), format!("{e:?}"))) } Ok(()) })
        });
    }));
    // streams given up before their end
    let srcs = ["<a>1<a/></a>t<b class=\"x\"></b>", "<b class=\"x\"><a class=\"x\"><br></a>t</b><a class=\"x\" />", "<script>x</script><!--c-->"];
    let ops: Vec<Prog> = chains(&stream_ops(Tier::Thorough), 1, false).into_iter().chain(element_ops().into_iter().map(|o| vec![any("a", &[o])])).map(|c| prog(&c)).collect();
    let k = ops.len();
    let o2 = ops.clone();
    v.push(split("streams given up", format!("streams of {} documents dropped after each number of events, and {k} programs on streams that fail after each number of events", srcs.len()), k, 1, move |i, cx| {
        let p = &o2[i];
        for src in srcs {
            for n in 0..14usize {
                if i == 0 {
                    cx.case(|| format!("stream of {src:?} dropped after {n} events"), |rec| {
                        rec.step(n as u64);
                        settles(&|| {
                            let t = real::tmpl(src)?;
                            for form in 0..3 {
                                let mut s: real::Dyn = match form { 0 => Box::new((&t).into_stream()), 1 => Box::new(Rc::new(t.clone()).into_stream()), _ => Box::new(t.clone().into_stream()) };
                                for _ in 0..n { if s.next_event().map_err(|e| e.to_string())?.is_none() { break; } }
                            }
                            Ok(())
                        })
                    });
                }
                cx.case(|| format!("stream of {src:?} failing after {n} events through html{}", prog::show_prog(p)), |rec| {
                    rec.step(n as u64);
                    settles(&|| {
                        let t = real::tmpl(src)?;
                        let mut evs: Vec<Result<Event, StreamError>> = real::pull((&t).into_stream()).into_iter().take(n).map(Ok).collect();
                        evs.push(Err(real::parse("<u>").map(|_| ()).unwrap_err().into()));
                        let (p2, env) = (p.clone(), real::REnv::new());
                        let r = t.transform(move |h| real::run(real::Cur::S(h.replace(real::Events::new(evs)).into_boxed()), &p2, &env).stream());
                        if r.is_ok() { return Err("did not fail".into()); }
                        Ok(())
                    })
                });
            }
        }
    }));
    // builders that panic
    v.push(split("builders that panic", format!("{k} programs and then a builder that panics, in selections, repetitions, conditions and templates: the memory comes back and the template stays usable"), k, 1, move |i, cx| {
        let p = &ops[i];
        for src in srcs { for form in 0..6 {
            cx.case(|| format!("{src:?} through html{} and builder {form} that panics", prog::show_prog(p)), |rec| {
                rec.step(1);
                settles(&|| {
                    let t = real::tmpl(src)?;
                    let before = t.to_string();
                    let (p2, env) = (p.clone(), real::REnv::new());
                    let r = guarded(|| t.transform(move |h| {
                        let h = real::run(real::Cur::S(h.into_boxed()), &p2, &env).stream();
                        match form {
                            0 => h.select("a", |h| { if true { panic!("builder") } h }).into_boxed(),
                            1 => h.repeat(0..2, |h, i| { if i == 1 { panic!("builder") } h }).into_boxed(),
                            2 => h.append(1).apply(|h| { if true { panic!("builder") } h }).into_boxed(),
                            3 => h.append("x").apply_as_template(|_| panic!("builder")).into_boxed(),
                            4 => h.select_once("b", |h| h.subselect("a", |h| { if true { panic!("builder") } h })).into_boxed(),
                            _ => h.repeat((0..3).map(|i| if i == 2 { panic!("iterator") } else { i }), |h, i| h.append(i)).into_boxed(),
                        }
                    }));
                    match &r { Err(_) | Ok(Ok(_)) | Ok(Err(_)) => {} }
                    drop(r);
                    if t.to_string() != before { return Err(format!("template is now {:?}", t.to_string())); }
                    let again = t.transform(|h| h.append("z")).map_err(|e| format!("{e:?}"))?.to_string();
                    if again != before.clone() + "z" { return Err(format!("appending now gives {again:?}")); }
                    Ok(())
                })
            });
        } }
    }));
    let n = tier.pick(300, 5000);
    v.push(split("ever new names", format!("{} kinds of use, {n} times each with new names and texts, in rounds", FRESH.len()), FRESH.len(), 1, move |k, cx| {
        cx.case(|| format!("{} with {n} new names, in rounds", FRESH[k]), |rec| { rec.step(n as u64 * 6); fresh(k, n) });
    }));
    // long lives
    v.push(split("one template, used again and again", "templates transformed, inserted and compared many times, with results kept or not", 4, 1, move |k, cx| {
        cx.case(|| format!("use {k}, {n} times"), |rec| {
            rec.step(n as u64 * 5);
            let t = real::tmpl("<a class=\"x\">1<b/>&amp;</a><br>")?;
            let text = Value::from_unencoded_str("long enough to be kept apart & shared");
            settles(&|| {
                for _ in 0..n {
                    match k {
                        0 => drop(t.transform(|h| h.select("a", |h| h.append(&t))).map_err(|e| e.to_string())?),
                        1 => drop(t.transform(|h| h.append(&text).select("a", |h| h.set_attribute_with_value("k", &text))).map_err(|e| e.to_string())?.to_string()),
                        2 => if t.clone() != t { return Err("clone differs".into()); },
                        _ => drop(t.transform(|h| h.select("b", |h| h.set_id("#,"))).map(|_| ()).unwrap_err()),
                    }
                }
                Ok(())
            })
        });
    }));
    v.push(split("what the user gave", format!("all pairs of {GIVEN} ways to give streams, selectors, builders, iterators, items, names and values, in transforms that succeed, fail or panic: all of it is dropped"), GIVEN, 1, move |k, cx| {
        for k2 in 0..GIVEN { for src in ["<a id=\"i\">1</a><b><a class=\"x\">2</a></b><a/>", "<b><u></u><a><a>3</a></a></b>t", ""] { for end in 0..6 {
            cx.case(|| format!("ways {k} and {k2} on {src:?}, end {end}"), |rec| let_go(k, k2, src, end, rec));
        } } }
    }));
    v.extend(super::cost::all_given_back(tier));
    v.push(Family::new("open files", "loading files that exist, are missing, are directories, are not UTF-8, do not parse or are too long leaves no file open", 1, move |_, cx| {
        for round in 0..3 {
            cx.case(|| format!("files, round {round}"), |rec| {
                let ok = super::files::Scratch::file(b"<a></a>");
                let bad = super::files::Scratch::file(b"<a>");
                let latin = super::files::Scratch::file(b"<a>\xe9</a>");
                let dir = ok.path.parent().ok_or("no directory")?.to_path_buf();
                let before = open_files();
                let mut results = Vec::new();
                for _ in 0..40 {
                    rec.step(6);
                    for path in [&ok.path, &bad.path, &latin.path, &dir, &dir.join("missing")] { results.push(Template::from_file(path, ParseOptions::default()).is_ok()); }
                    results.push(Template::from_file(&ok.path, ParseOptions::default().max_input_len(3)).is_ok());
                }
                // other workers may have a file or two open just now
                let after = open_files();
                if after > before + 30 { return Err(format!("{before} files open before, {after} after {} loads", results.len())); }
                Ok(())
            });
        }
    }));
    v
}
