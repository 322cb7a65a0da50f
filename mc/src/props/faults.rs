//! Errors: C18 (one fault anywhere in a program) and C19 (foreign streams).

use super::gen::*;
use super::progs::*;
use super::compose::{element_ops, stream_ops};
use super::select::{docs_upto, labels};
use crate::engine::*;
use crate::model::*;
use crate::prog::{self, intern, prog, AttrOp, Content, Failure, Fault, Items, Op, Prog, Scope, Sel, Val};
use crate::real;
use html5_fuser::event::{AssertionError, Event, IntoStream, MalformedReason, Stream};
use html5_fuser::select::{self, Class, Classes, ClassesError, Id, StaticError, Tag};
use html5_fuser::template::{FileError, InputError};
use html5_fuser::text::IdentifierError;
use html5_fuser::{ParseOptions, StreamError, Template};
use std::error::Error;
use std::sync::Arc;

// --------------------------------------------------------------------------------------------- C18

fn content_faults() -> Vec<Content> {
    let mut v: Vec<Content> = vec![Fault::Ident, Fault::Parse, Fault::File, Fault::Limit, Fault::Inner].into_iter().map(Content::Fail).collect();
    v.extend((0..4).map(|n| Content::Fail(Fault::StreamAfter(n))));
    v.push(Content::Built("a", prog(&[Op::Attr(AttrOp::SetEmpty("b/d"))])));
    v.push(Content::Built("a", prog(&[Op::Append(Content::Fail(Fault::Ident))])));
    v
}
fn bad_selectors() -> Vec<Sel> {
    let mut v: Vec<Sel> = ["", "#", ".", "a#", "a b", "a.x.y z", "é", "a#i.", "#i'", ".x..y"].iter().map(|s| Sel::Str(s)).collect();
    v.extend([Sel::Tag("a>"), Sel::Id(""), Sel::Class("x y"), Sel::Classes(vec![]), Sel::Classes(vec!["x", "y", "=z"])]);
    v
}
fn bad_attrs() -> Vec<AttrOp> {
    let v = || Val::Str("1");
    vec![AttrOp::Add("", Some(v())), AttrOp::Add("a b", None), AttrOp::AddV("é", v()), AttrOp::AddEmpty("a="), AttrOp::AddTo("<", v(), v()), AttrOp::ReplaceIf(",", v()), AttrOp::Set("a;b", None),
        AttrOp::Set("&", Some(v())), AttrOp::SetV("\"", v()), AttrOp::SetEmpty("'"), AttrOp::Remove("a/"), AttrOp::AddClass(""), AttrOp::RemoveClass("a\u{a0}"), AttrOp::SetId("i j")]
}

/// Operations that fail if they are reached.
pub fn failing_ops(all: bool) -> Vec<Op> {
    let mut v = vec![];
    let few = |v: Vec<Content>| if all { v } else { v.into_iter().step_by(4).collect() };
    for c in few(content_faults()) {
        v.extend([Op::Prepend(c.clone()), Op::Append(c.clone()), Op::Replace(c.clone()), Op::PrependC(c.clone()), Op::AppendC(c.clone()), Op::ReplaceC(c)]);
    }
    let sels = if all { bad_selectors() } else { bad_selectors().into_iter().step_by(7).collect() };
    for s in sels { for sc in if all { &Scope::ALL[..] } else { &Scope::ALL[1..6] } { v.push(Op::Select(*sc, s.clone(), prog(&[Op::Mark(90)]))); } }
    let attrs = if all { bad_attrs() } else { bad_attrs().into_iter().step_by(5).collect() };
    v.extend(attrs.into_iter().map(Op::Attr));
    v.push(Op::ApplyTemplateFail);
    // by way of the builders
    let inner = || prog(&[Op::Append(Content::Fail(Fault::StreamAfter(1)))]);
    v.extend([Op::Repeat(Items::Range(0, 2), inner()), Op::RepeatElse(Items::Range(0, 0), prog(&[]), inner()), Op::RepeatC(Items::Range(0, 2), inner()), Op::RepeatCElse(Items::Range(0, 1), inner(), prog(&[])),
        Op::SubContents(inner()), Op::ApplyBoxed(inner()), Op::ApplyTemplate(inner()), Op::ApplyResult(Err(1), prog(&[]), inner())]);
    v
}

/// All programs that differ from `p` in having one of the failing operations more, somewhere.
fn inject(p: &[Op], ops: &[Op]) -> Vec<Vec<Op>> {
    let mut out = Vec::new();
    for i in 0..=p.len() {
        for o in ops {
            let mut v = p[..i].to_vec();
            v.push(o.clone());
            v.extend_from_slice(&p[i..]);
            out.push(v);
        }
    }
    for (i, o) in p.iter().enumerate() {
        let mut put = |o: Op| { let mut v = p.to_vec(); v[i] = o; out.push(v); };
        let sub = |q: &Prog| -> Vec<Prog> { inject(q, ops).into_iter().map(|v| prog(&v)).collect() };
        match o {
            Op::Select(s, x, q) => for q in sub(q) { put(Op::Select(*s, x.clone(), q)) },
            Op::SubContents(q) => for q in sub(q) { put(Op::SubContents(q)) },
            Op::Repeat(n, q) => for q in sub(q) { put(Op::Repeat(n.clone(), q)) },
            Op::RepeatC(n, q) => for q in sub(q) { put(Op::RepeatC(n.clone(), q)) },
            Op::RepeatElse(n, q, r) => { for x in sub(q) { put(Op::RepeatElse(n.clone(), x, r.clone())) } for x in sub(r) { put(Op::RepeatElse(n.clone(), q.clone(), x)) } }
            Op::RepeatCElse(n, q, r) => { for x in sub(q) { put(Op::RepeatCElse(n.clone(), x, r.clone())) } for x in sub(r) { put(Op::RepeatCElse(n.clone(), q.clone(), x)) } }
            Op::Apply(q) => for q in sub(q) { put(Op::Apply(q)) },
            Op::ApplyIf(c, q) => for q in sub(q) { put(Op::ApplyIf(*c, q)) },
            Op::ApplyIfElse(c, q, r) => { for x in sub(q) { put(Op::ApplyIfElse(*c, x, r.clone())) } for x in sub(r) { put(Op::ApplyIfElse(*c, q.clone(), x)) } }
            Op::ApplyOption(c, q, r) => { for x in sub(q) { put(Op::ApplyOption(*c, x, r.clone())) } for x in sub(r) { put(Op::ApplyOption(*c, q.clone(), x)) } }
            Op::ApplyResult(c, q, r) => { for x in sub(q) { put(Op::ApplyResult(*c, x, r.clone())) } for x in sub(r) { put(Op::ApplyResult(*c, q.clone(), x)) } }
            Op::ApplyBoxed(q) => for q in sub(q) { put(Op::ApplyBoxed(q)) },
            Op::ApplyBoxedElement(q) => for q in sub(q) { put(Op::ApplyBoxedElement(q)) },
            Op::ApplyTemplate(q) => for q in sub(q) { put(Op::ApplyTemplate(q)) },
            _ => {}
        }
    }
    out
}
pub fn injected(bases: Vec<Vec<Op>>, ops: &[Op]) -> Vec<Prog> {
    bases.iter().flat_map(|b| inject(b, ops)).filter(|p| prog::well_typed(p, false)).map(|p| prog(&p)).collect()
}

/// Message and causes lead to the error at the bottom.
pub fn chain_ok(e: &StreamError) -> Check {
    fn is(what: &str, e: &dyn Error, inner: Option<&dyn Error>) -> Check {
        #[allow(deprecated)]
        let cause = e.cause();
        if e.to_string().is_empty() { return Err(format!("{what} has an empty message")); }
        match (cause, inner) {
            (None, None) => Ok(()),
            (Some(c), Some(i)) => {
                if c.to_string() == i.to_string() && format!("{c:?}") == format!("{i:?}") { Ok(()) } else { Err(format!("cause of {what} is {c:?} ({c}), expected {i:?} ({i})")) }
            }
            (c, i) => Err(format!("cause of {what} is {c:?}, expected {i:?}")),
        }
    }
    let name = |e: &IdentifierError| -> Check {
        is("the identifier error", e, None)?;
        let m = e.to_string();
        match e {
            IdentifierError::Whitespace { whitespace: c } | IdentifierError::Forbidden { forbidden: c } if !m.contains(*c) => Err(format!("message {m:?} does not name {c:?}")),
            _ => Ok(()),
        }
    };
    let input = |e: &InputError| -> Check {
        match e {
            InputError::Parse { error } => is("the input error", e, Some(error)),
            InputError::LengthLimitExceeded { limit } => { is("the input error", e, None)?; if e.to_string().contains(&limit.to_string()) { Ok(()) } else { Err(format!("{:?} does not tell the limit", e.to_string())) } }
            _ => Err(format!("unknown input error {e:?}")),
        }
    };
    match e {
        StreamError::Identifier { error } => { is("the stream error", e, Some(error))?; name(error) }
        StreamError::Input { error } => { is("the stream error", e, Some(error))?; input(error) }
        StreamError::File { error } => {
            is("the stream error", e, Some(error))?;
            match error {
                FileError::Open { path, error: i } | FileError::Read { path, error: i } => { is("the file error", error, Some(i))?; if error.to_string().contains(&path.display().to_string()) { Ok(()) } else { Err(format!("{:?} does not name {path:?}", error.to_string())) } }
                FileError::Input { error: i, .. } => { is("the file error", error, Some(i))?; input(i) }
                FileError::Decode { error: i, .. } => is("the file error", error, Some(i)),
                _ => Err(format!("unknown file error {error:?}")),
            }
        }
        StreamError::Selector { error } => {
            is("the stream error", e, Some(error))?;
            match error {
                select::Error::Tag { error: i } | select::Error::Id { error: i } | select::Error::Class { error: i } => { is("the selector error", error, Some(i))?; name(i) }
                select::Error::Classes { error: i } => {
                    is("the selector error", error, Some(i))?;
                    match i {
                        ClassesError::Empty => is("the classes error", i, None),
                        ClassesError::Identifier { index, error: n } => { is("the classes error", i, Some(n))?; if !i.to_string().contains(&index.to_string()) { return Err(format!("{:?} does not tell the index {index}", i.to_string())); } name(n) }
                        _ => Err(format!("unknown classes error {i:?}")),
                    }
                }
                _ => Err(format!("unknown selector error {error:?}")),
            }
        }
        StreamError::StaticSelector { error } => {
            is("the stream error", e, Some(error))?;
            match error {
                StaticError::Unrestricted => is("the static selector error", error, None),
                StaticError::Tag { error: n } | StaticError::Id { error: n } => { is("the static selector error", error, Some(n))?; name(n) }
                StaticError::Class { index, error: n } => { is("the static selector error", error, Some(n))?; if !error.to_string().contains(&index.to_string()) { return Err(format!("{:?} does not tell the index {index}", error.to_string())); } name(n) }
                _ => Err(format!("unknown static selector error {error:?}")),
            }
        }
        StreamError::Assertion { error } => {
            is("the stream error", e, Some(error))?;
            let m = match error { AssertionError::Malformed { error: m } => m, _ => return Err(format!("unknown assertion error {error:?}")) };
            is("the assertion error", error, Some(m))?;
            is("the reason", m, None)?;
            let (tag, event) = match m {
                MalformedReason::UnexpectedClosingTag { tag } => (Some(tag), None),
                MalformedReason::ExpectedOpeningTag { event } => (None, Some(event)),
                MalformedReason::ExpectedClosingTag { event, tag } => (Some(tag), Some(event)),
                _ => return Err(format!("unknown reason {m:?}")),
            };
            let t = m.to_string();
            if let Some(tag) = tag { if !t.contains(&**tag) { return Err(format!("{t:?} does not name {tag:?}")); } }
            if let Some(ev) = event { let d = ev.as_ref().map_or("end of input", |e| e.description()); if !t.contains(d) { return Err(format!("{t:?} does not tell {d:?}")); } }
            Ok(())
        }
        _ => Err(format!("unknown error {e:?}")),
    }
}

/// As the model says, and the error explains itself.
fn faulted(t: &Template, doc: &[Node], p: &Prog, rec: &mut Rec) -> Check {
    let got = real::transform(t, p);
    if let Err(e) = &got.0 { chain_ok(e)?; }
    judge(got, &want(doc, p), rec)
}

/// What may come out when there are several faults: the model's result, or an error by any of them.
fn faulted_any(t: &Template, doc: &[Node], p: &Prog, rec: &mut Rec) -> Check {
    let w = want(doc, p);
    let got = real::transform(t, p);
    match (&got.0, &w.0) {
        (Err(e), Err(_)) => {
            rec.step(1);
            chain_ok(e)?;
            let mut fs = Vec::new();
            failures(p, &mut fs);
            if fs.iter().any(|f| real::is_failure(e, f)) { Ok(()) } else { Err(format!("failed with {e:?}, which is none of {fs:?}")) }
        }
        _ => judge(got, &w, rec),
    }
}
fn failures(p: &[Op], out: &mut Vec<Failure>) {
    for o in p {
        let c = |c: &Content, out: &mut Vec<Failure>| match c { Content::Fail(f) => out.push(Failure::Content(f.clone())), Content::Built(_, q) => failures(q, out), _ => {} };
        match o {
            Op::Prepend(x) | Op::Append(x) | Op::Replace(x) | Op::PrependC(x) | Op::AppendC(x) | Op::ReplaceC(x) => c(x, out),
            Op::Select(_, s, q) => { if s.faulty() { out.push(Failure::Sel(s.clone())) } failures(q, out) }
            Op::SubContents(q) | Op::Repeat(_, q) | Op::RepeatC(_, q) | Op::Apply(q) | Op::ApplyIf(_, q) | Op::ApplyBoxed(q) | Op::ApplyBoxedElement(q) | Op::ApplyTemplate(q) => failures(q, out),
            Op::RepeatElse(_, a, b) | Op::RepeatCElse(_, a, b) | Op::ApplyIfElse(_, a, b) | Op::ApplyOption(_, a, b) | Op::ApplyResult(_, a, b) => { failures(a, out); failures(b, out) }
            Op::Attr(a) => if let Some(n) = a.name() { if !crate::refparse::name_faults(n).is_empty() { out.push(Failure::Name(n)) } },
            Op::ApplyTemplateFail => out.push(Failure::Template),
            _ => {}
        }
    }
}

pub fn fault_docs() -> Vec<Vec<Node>> {
    docs(&["", "<a>1<a/></a>t<b class=\"x\"></b>", "<b class=\"x\"><a class=\"x\"><br></a>t</b><a class=\"x\" />", "<c><!--n--></c>", "<br class=\"x\"><script>r</script>"])
}

/// Conversions of errors: as content, each kind of error becomes the stream error for it.
fn conversions() -> Family {
    let n = 14;
    split("conversions", "every kind of error as failing content, failing selector and through `into`", n, 1, move |i, cx| {
        fn err<T, E: std::fmt::Debug + Into<StreamError>>(r: Result<T, E>) -> Result<StreamError, String> {
            match r { Ok(_) => Err("was accepted".into()), Err(e) => Ok(e.into()) }
        }
        let case = |cx: &mut Cx, what: &str, f: Failure, make: &dyn Fn() -> Result<StreamError, String>| {
            let what = what.to_string();
            cx.case(|| what, |rec| {
                rec.step(1);
                let e = make()?;
                rec.outcome(&format!("{e:?}"));
                chain_ok(&e)?;
                if real::is_failure(&e, &f) { Ok(()) } else { Err(format!("gives {e:?}, expected failure by {f:?}")) }
            });
        };
        // as content: results with any of these errors
        let content = |k: usize| {
            let t = real::parse("<a></a>").map_err(|e| e.to_string())?;
            err(match k {
                10 => t.transform(|h| h.append("a>".parse::<Tag>().map(|_| ""))),
                11 => t.transform(|h| h.select("a", |h| h.prepend_contents("x y".parse::<Class>().map(|_| "")))),
                12 => t.transform(|h| h.select_once("a", |h| h.replace("".parse::<Id>().map(|_| 1)))),
                _ => t.transform(|h| h.replace(Classes::from_str_iterator(std::iter::empty()).map(|_| "x"))),
            })
        };
        match i {
            0 => case(cx, "tag error", Failure::Sel(Sel::Tag("a>")), &|| err("a>".parse::<Tag>())),
            1 => case(cx, "id error", Failure::Sel(Sel::Id("")), &|| err("".parse::<Id>())),
            2 => case(cx, "class error", Failure::Sel(Sel::Class("x y")), &|| err("x y".parse::<Class>())),
            3 => case(cx, "classes error", Failure::Sel(Sel::Classes(vec!["x", "é"])), &|| err(Classes::from_str_iterator(["x", "é"].iter().map(|s| *s)))),
            4 => case(cx, "no classes error", Failure::Sel(Sel::Classes(vec![])), &|| err(Classes::from_str_iterator(std::iter::empty()))),
            5 => case(cx, "static selector error", Failure::Sel(Sel::Str("")), &|| Ok(StaticError::Unrestricted.into())),
            6 => case(cx, "identifier error", Failure::Name("a b"), &|| err("a b".parse::<html5_fuser::text::Identifier>())),
            7 => case(cx, "input error", Failure::Content(Fault::Parse), &|| err(real::parse("<u>"))),
            8 => case(cx, "length error", Failure::Content(Fault::Limit), &|| err(Template::from_str("<u></u>", ParseOptions::default().max_input_len(3)))),
            9 => case(cx, "file error", Failure::Content(Fault::File), &|| err(Template::from_file(real::MISSING_FILE, ParseOptions::default()))),
            10 => case(cx, "tag error as content", Failure::Sel(Sel::Tag("a>")), &|| content(10)),
            11 => case(cx, "class error as content", Failure::Sel(Sel::Class("x y")), &|| content(11)),
            12 => case(cx, "id error as content", Failure::Sel(Sel::Id("")), &|| content(12)),
            _ => case(cx, "classes error as content", Failure::Sel(Sel::Classes(vec![])), &|| content(13)),
        }
    })
}

/// The stream a transform works on fails after n events: whatever the operations, that error comes out.
fn failing_source(tier: Tier) -> Family {
    let mut progs: Vec<Prog> = chains(&stream_ops(Tier::Quick), tier.pick(2, 3), false).into_iter().map(|c| prog(&c)).collect();
    let el: Vec<Prog> = chains(&element_ops(), tier.pick(1, 2), true).into_iter().map(|c| prog(&[any("a", &c)])).collect();
    progs.extend(el);
    let srcs = ["<a>1<a/></a>t<b class=\"x\"></b>", "<b class=\"x\"><a><br></a>t</b><a class=\"x\" />"];
    let per = 50;
    let space = format!("{} programs on streams of {} documents failing after each number of events", progs.len(), srcs.len());
    split("failing source", space, (progs.len() + per - 1) / per, 1, move |j, cx| {
        let Some(hosts) = cx.setup(|| "hosts".into(), || Ok([real::tmpl("")?, real::tmpl("<k></k>")?])) else { return };
        for src in srcs {
            let Some(evs) = cx.setup(|| format!("source {src:?}"), || Ok(real::pull((&real::tmpl(src)?).into_stream()))) else { return };
            for p in &progs[j * per..((j + 1) * per).min(progs.len())] {
                if cx.stopped() { return; }
                // the program works on the failing stream if it is put behind an operation giving that stream
                for n in 0..=evs.len() {
                    cx.case(|| format!("html.replace(<stream of {src:?} failing after {n} events>){}", prog::show_prog(p)), |rec| {
                        rec.step(n as u64 + 1);
                        let mut v: Vec<_> = evs[..n].iter().cloned().map(Ok).collect();
                        v.push(Err(StreamError::Identifier { error: IdentifierError::Forbidden { forbidden: '%' } }));
                        let (p2, env) = (p.clone(), real::REnv::new());
                        let r = hosts[n % 2].transform(move |h| real::run(real::Cur::S(h.replace(real::Events::new(v)).into_boxed()), &p2, &env).stream());
                        match r {
                            Err(e) => { rec.outcome(&format!("{e:?}")); if real::is_failure(&e, &Failure::Content(Fault::StreamAfter(0))) { Ok(()) } else { Err(format!("failed with {e:?}, expected the error of the stream")) } }
                            Ok(t) => Err(format!("gave {:?}, expected the error of the stream", t.to_string())),
                        }
                    });
                }
            }
        }
    })
}

pub fn c18(tier: Tier) -> Vec<Family> {
    let (all, few) = (failing_ops(true), failing_ops(false));
    let single: Vec<Vec<Op>> = chains(&stream_ops(Tier::Thorough), 1, false);
    let elems: Vec<Vec<Op>> = chains(&element_ops(), tier.pick(1, 2), true).into_iter().map(|c| vec![any("a", &c)]).collect();
    let pairs: Vec<Vec<Op>> = chains(&stream_ops(Tier::Quick), 2, false).into_iter().filter(|c| c.len() == 2).collect();
    let nest = |ops: &[Op]| -> Vec<Vec<Op>> {
        // each operation inside each operation with a builder
        let q = |p: &[Op]| prog(p);
        let mut v = Vec::new();
        for o in ops {
            let b = [o.clone()];
            v.extend([vec![any(".x", &b)], vec![sel(Scope::Once, "a", &b)], vec![sel(Scope::DirectOnce, "b", &b)], vec![Op::Repeat(Items::Range(0, 2), q(&b))], vec![Op::RepeatElse(Items::Range(0, 0), q(&b), q(&[]))], vec![Op::ApplyIf(false, q(&b))], vec![Op::ApplyTemplate(q(&b))],
                vec![any("a", &[Op::SubContents(q(&b))])], vec![any("a", &[Op::RepeatC(Items::Range(0, 1), q(&b))])], vec![any("c", &[sel(Scope::SubAny, "a", &b)])]]);
        }
        v
    };
    let j: Judge = Arc::new(faulted);
    let d = fault_docs();
    let mut v = vec![
        programs_by("one fault in one operation", "every failing operation at every place of every operation", d.clone(), injected(single, &all), j.clone()),
        programs_by("one fault on elements", "every failing operation at every place of operations on selected elements", d.clone(), injected(elems, if tier == Tier::Quick { &all } else { &few }), j.clone()),
        programs_by("one fault in two operations", "failing operations at every place of every two operations", d.clone(), injected(pairs, &few), j.clone()),
        programs_by("one fault in nested operations", "failing operations at every place of operations within operations", d.clone(), injected(nest(&stream_ops(Tier::Quick)), &few), j.clone()),
        product_by("one fault, all documents", "failing operations alone and in a selection", docs_upto(tier.pick(3, 4), &labels()), injected(vec![vec![any("a", &[])], vec![sel(Scope::DirectOnce, ".x", &[])], vec![any("b", &[sel(Scope::SubDirect, "a", &[])])]], &few), j.clone()),
        sized_by(tier.pick(8, 140), tier.pick(600, 10_000), injected(vec![vec![], vec![any("a", &[])], vec![any("b", &[sel(Scope::SubAny, ".x", &[])])], vec![sel(Scope::DirectOnce, ".x", &[])], vec![any(".x", &[Op::SubContents(prog(&[]))])]], &few), j.clone()),
        product_by("element names", "failing operations on documents with elements of special names around, in and next to others", super::select::all_named_docs(true), injected(vec![vec![any("a", &[])], vec![sel(Scope::DirectOnce, ".x", &[])]], &few.iter().step_by(3).cloned().collect::<Vec<_>>()), j.clone()),
        conversions(),
        failing_source(tier),
    ];
    // two faults: any of them
    let some: Vec<Op> = few.iter().step_by(tier.pick(5, 2)).cloned().collect();
    let once = injected(chains(&stream_ops(Tier::Quick), 1, false), &some);
    let other: Vec<Op> = vec![Op::Append(Content::Fail(Fault::File)), Op::Prepend(Content::Fail(Fault::StreamAfter(2))), any("a#", &[]), any("a", &[Op::Attr(AttrOp::SetId("#,"))]), Op::ApplyTemplateFail, Op::Attr(AttrOp::AddClass("? ?"))];
    let twice = injected(once.iter().map(|p| p.to_vec()).collect(), &other);
    v.push(programs_by("two faults", "two failing operations at every two places", d[1..3].to_vec(), twice, Arc::new(faulted_any)));
    v
}

// --------------------------------------------------------------------------------------------- C19

type Insert = (&'static str, fn(Content) -> Vec<Op>);

/// Ways of inserting a stream that nothing works on afterwards.
const THROUGH: &[Insert] = &[
    ("append", |c| vec![Op::Append(c)]),
    ("prepend", |c| vec![Op::Prepend(c)]),
    ("replace", |c| vec![Op::Replace(c)]),
    ("append, boxed", |c| vec![Op::Append(c), Op::Boxed]),
    ("select append", |c| vec![any("a", &[Op::Append(c)])]),
    ("select prepend", |c| vec![any("a", &[Op::Prepend(c)])]),
    ("select replace", |c| vec![any("a", &[Op::Replace(c)])]),
    ("select append_contents", |c| vec![any("a", &[Op::AppendC(c)])]),
    ("select prepend_contents", |c| vec![any("a", &[Op::PrependC(c)])]),
    ("select replace_contents", |c| vec![any("a", &[Op::ReplaceC(c)])]),
    ("select_once", |c| vec![sel(Scope::Once, "a", &[Op::AppendC(c)])]),
    ("select_direct", |c| vec![sel(Scope::Direct, "b", &[Op::PrependC(c)])]),
    ("select_direct_once", |c| vec![sel(Scope::DirectOnce, "b", &[Op::Replace(c)])]),
    ("subselect", |c| vec![any("b", &[sel(Scope::SubAny, "a", &[Op::Append(c)])])]),
    ("subselect_once", |c| vec![any("b", &[sel(Scope::SubOnce, "a", &[Op::ReplaceC(c)])])]),
    ("subselect_direct", |c| vec![any("b", &[sel(Scope::SubDirect, "a", &[Op::Replace(c)])])]),
    ("subselect_direct_once", |c| vec![any("b", &[sel(Scope::SubDirectOnce, "a", &[Op::Prepend(c)])])]),
    ("subselect_contents", |c| vec![any("b", &[Op::SubContents(prog(&[Op::Append(c)]))])]),
    ("repeat", |c| vec![Op::Repeat(Items::Range(0, 2), prog(&[Op::Append(c)]))]),
    ("repeat of it", |c| vec![Op::Append(c), Op::Repeat(Items::Range(0, 2), prog(&[]))]),
    ("repeat of it, else", |c| vec![Op::Replace(c), Op::RepeatElse(Items::Range(0, 2), prog(&[]), prog(&[Op::Remove]))]),
    ("else of repeat", |c| vec![Op::RepeatElse(Items::Range(0, 0), prog(&[]), prog(&[Op::Append(c)]))]),
    ("repeat_contents", |c| vec![any("a", &[Op::RepeatC(Items::Range(0, 2), prog(&[Op::Prepend(c)]))])]),
    ("template", |c| vec![Op::Replace(c), Op::ApplyTemplate(prog(&[]))]),
    ("within template", |c| vec![Op::ApplyTemplate(prog(&[Op::Prepend(c)]))]),
    ("apply", |c| vec![Op::Apply(prog(&[Op::Append(c)]))]),
    ("apply_if", |c| vec![Op::ApplyIf(true, prog(&[Op::Append(c)])), Op::ApplyIf(false, prog(&[Op::Remove]))]),
    ("apply_if_else", |c| vec![Op::ApplyIfElse(false, prog(&[]), prog(&[Op::Prepend(c)]))]),
    ("apply_with_option", |c| vec![Op::ApplyOption(Some(1), prog(&[Op::Replace(c)]), prog(&[]))]),
    ("apply_as_boxed", |c| vec![any("a", &[Op::ApplyBoxed(prog(&[Op::Prepend(c)]))])]),
    ("surrounded", |c| vec![Op::Append(c), Op::Append(Content::Str("1")), Op::Prepend(tmpl("<a>2</a>"))]),
];

/// Ways of inserting a stream and then working on it.
const WORKED: &[Insert] = &[
    ("select", |c| vec![Op::Append(c), any("a", &[Op::Attr(AttrOp::AddEmpty("h"))])]),
    ("select, all removed", |c| vec![Op::Prepend(c), any("a", &[Op::Remove])]),
    ("select b", |c| vec![Op::Replace(c), any("b", &[Op::Replace(Content::Str("R"))])]),
    ("select around", |c| vec![Op::Append(c), any("a", &[Op::Prepend(Content::Str("1")), Op::Append(Content::Str("2"))])]),
    ("select_once", |c| vec![Op::Prepend(c), sel(Scope::Once, "a", &[Op::AppendC(Content::Str("k"))])]),
    ("select_direct", |c| vec![Op::Replace(c), sel(Scope::Direct, "a", &[Op::PrependC(Content::Str("k"))])]),
    ("select_direct_once", |c| vec![Op::Append(c), sel(Scope::DirectOnce, "b", &[Op::Attr(AttrOp::AddEmpty("h"))])]),
    ("remove", |c| vec![Op::Append(c), Op::Remove]),
    ("replace", |c| vec![Op::Append(c), Op::Replace(Content::Str("R"))]),
    ("remove_contents", |c| vec![Op::Append(c), any("a", &[Op::RemoveC])]),
    ("replace_contents", |c| vec![Op::Append(c), any("a", &[Op::ReplaceC(Content::Str("k"))])]),
    ("append_contents", |c| vec![Op::Prepend(c), any(".x", &[Op::AppendC(Content::Str("k"))])]),
    ("subselect", |c| vec![Op::Append(c), any("a", &[sel(Scope::SubAny, "b", &[Op::Remove])])]),
    ("subselect_direct_once", |c| vec![Op::Append(c), any("a", &[sel(Scope::SubDirectOnce, "a", &[Op::Append(Content::Str("2"))])])]),
    ("subselect_contents", |c| vec![Op::Append(c), any("a", &[Op::SubContents(prog(&[Op::Remove]))])]),
    ("repeat elements", |c| vec![Op::Append(c), any("a", &[Op::Repeat(Items::Range(0, 2), prog(&[Op::Attr(AttrOp::AddV("n", Val::Item))]))])]),
    ("repeat none", |c| vec![Op::Append(c), any("a", &[Op::Repeat(Items::Range(0, 0), prog(&[]))])]),
    ("repeat contents", |c| vec![Op::Append(c), any("a", &[Op::RepeatC(Items::Range(0, 2), prog(&[]))])]),
    ("repeat selecting", |c| vec![Op::Append(c), Op::Repeat(Items::Range(0, 2), prog(&[any("b", &[Op::Attr(AttrOp::AddV("n", Val::Item))])]))]),
    ("template", |c| vec![Op::Append(c), any("a", &[Op::ApplyTemplate(prog(&[any("b", &[Op::Remove])]))])]),
    ("to template", |c| vec![Op::Append(c), any("a", &[Op::ApplyTemplateTo("<k>T</k>".into())])]),
    ("contents subselected", |c| vec![any("a", &[Op::AppendC(c), sel(Scope::SubAny, "b", &[Op::Attr(AttrOp::AddEmpty("h"))])])]),
    ("contents removed", |c| vec![any("a", &[Op::PrependC(c), Op::RemoveC])]),
    ("contents replaced", |c| vec![any("b", &[Op::ReplaceC(c), Op::SubContents(prog(&[Op::Append(Content::Str("k"))]))])]),
    ("contents repeated", |c| vec![any("b", &[Op::AppendC(c), Op::RepeatC(Items::Range(0, 2), prog(&[]))])]),
    ("contents, selected again", |c| vec![any("b", &[Op::AppendC(c)]), any("a", &[Op::Append(Content::Str("2"))])]),
    ("contents, element repeated", |c| vec![any("b", &[Op::PrependC(c), Op::Repeat(Items::Range(0, 2), prog(&[]))])]),
    ("contents, element removed", |c| vec![any("b", &[Op::AppendC(c)]), sel(Scope::Direct, "b", &[Op::Remove])]),
    ("contents, direct", |c| vec![any("b", &[Op::AppendC(c)]), sel(Scope::Direct, "a", &[Op::Attr(AttrOp::AddEmpty("h"))])]),
    ("two selections", |c| vec![Op::Append(c), any("a", &[Op::Attr(AttrOp::AddEmpty("h"))]), any("b", &[Op::PrependC(Content::Str("k"))])]),
    ("boxed element", |c| vec![Op::Append(c), any("a", &[Op::ApplyBoxedElement(prog(&[Op::Attr(AttrOp::AddEmpty("h"))])), Op::AppendC(Content::Str("k"))])]),
    ("attributes", |c| vec![Op::Append(c), any("a", &[Op::Attr(AttrOp::RemoveClass("x")), Op::Attr(AttrOp::SetId("i"))])]),
];

fn seq_docs() -> Vec<Vec<Node>> { docs(&["<b>1<a></a></b><a/>", ""]) }

/// The template is the document with the events in place of each marker.
fn same_with(t: &Template, doc: &[Node], s: &[u8]) -> Check {
    const MARK: &str = "<!--@-->";
    let ev = |c: u8| prog::SEQ.iter().find(|x| x.0 == c).map(|x| (x.1, x.2)).expect("event");
    let flat: String = s.iter().map(|c| ev(*c).1).collect();
    let want = render(doc).replace(MARK, &flat);
    let got = t.to_string();
    if got != want { return Err(format!("output {got:?}, expected {want:?}")); }
    let mut c = Canon::new();
    walk(doc, &mut |k, x| if x == MARK { for e in s { let (k, x) = ev(*e); if k != 'N' { c.push(k, x) } } } else { c.push(k, x) });
    let got = canon_real(t)?;
    if got != c.out { return Err(format!("events {}, expected {}", show(&got), show(&c.out))); }
    Ok(())
}

fn failed_seq() -> Failure { Failure::Content(Fault::StreamAfter(0)) }

fn show_seq(s: &[u8]) -> String {
    s.iter().map(|c| match c { b'N' => "no-op".into(), b'F' => "failure".into(), c => prog::SEQ.iter().find(|x| x.0 == *c).unwrap().2.to_string() }).collect::<Vec<_>>().join(" , ")
}

/// Do the events before the failure close only what they opened?
fn fine_so_far(s: &[u8]) -> bool {
    let mut st = Vec::new();
    for c in s {
        match c { b'<' | b'(' => st.push(*c), b'>' => if st.pop() != Some(b'<') { return false }, b')' => if st.pop() != Some(b'(') { return false }, _ => {} }
    }
    true
}

fn foreign(name: &str, alphabet: &'static [u8], len: usize) -> Family {
    let n = alphabet.len();
    let all: usize = (0..=len).map(|l| n.pow(l as u32)).sum();
    let per = 40;
    let space = format!("all sequences of at most {len} events of {} kinds, through {} programs and under {} programs [{all} sequences]", n, THROUGH.len(), WORKED.len());
    Family::new(name, space, (all + per - 1) / per, move |j, cx| {
        let ds = seq_docs();
        let Some(ts) = cx.setup(|| "hosts".into(), || ds.iter().map(|d| real::tmpl(&render(d))).collect::<Result<Vec<_>, _>>()) else { return };
        for i in j * per..((j + 1) * per).min(all) {
            if cx.stopped() { return; }
            let mut s = Vec::new();
            let (mut k, mut l) = (i, 0);
            while k >= n.pow(l as u32) { k -= n.pow(l as u32); l += 1; }
            for _ in 0..l { s.push(alphabet[k % n]); k /= n; }
            // nothing comes after a failure
            if s.iter().position(|c| *c == b'F').map_or(false, |p| p + 1 < s.len()) { continue; }
            let s: Arc<[u8]> = s.into();
            let nodes = prog::seq_nodes(&s);
            for (which, (what, make)) in THROUGH.iter().chain(WORKED).enumerate() {
                let through = which < THROUGH.len();
                let p = prog(&make(Content::Seq(s.clone())));
                for (doc, t) in ds.iter().zip(&ts) {
                    cx.case(|| format!("stream of [{}] by {what}: {:?} through html{}", show_seq(&s), render(doc), prog::show_prog(&p)), |rec| {
                        let got = real::transform(t, &p);
                        if let Err(e) = &got.0 { chain_ok(e)?; }
                        if let prog::Seq::Nodes(_) = nodes { return judge(got, &want(doc, &p), rec); }
                        rec.step(s.len() as u64 + 1);
                        // is the stream reached at all?
                        let marked = prog(&make(Content::Tmpl("<!--@-->".into(), prog::TForm::Owned)));
                        let failing = prog(&make(Content::Fail(Fault::StreamAfter(0))));
                        let reached = want(doc, &failing).0.is_err();
                        let (r, log) = got;
                        match r {
                            Err(e) => {
                                rec.outcome(&format!("{:?}", e).chars().take(60).collect::<String>());
                                if !reached { return Err(format!("failed with {e:?} although the stream is not used")); }
                                if real::is_failure(&e, &failed_seq()) { return if let prog::Seq::Fails = nodes { Ok(()) } else if s.contains(&b'F') { Ok(()) } else { Err(format!("failed with {e:?}, which is not of this stream")) }; }
                                if let prog::Seq::Fails = nodes { if through || fine_so_far(&s) { return Err(format!("failed with {e:?}, expected the error of the stream")); } }
                                if through && !s.contains(&b'F') { return Err(format!("failed with {e:?} although nothing works on the stream")); }
                                if let StreamError::Assertion { .. } = e { Ok(()) } else { Err(format!("failed with {e:?}")) }
                            }
                            Ok(t) => {
                                rec.outcome("ok");
                                if reached && s.contains(&b'F') && (through || fine_so_far(&s)) { return Err(format!("gave {:?}, expected the error of the stream", t.to_string())); }
                                if !reached { return judge((Ok(t), log), &want(doc, &failing), rec); }
                                if canon_real(&t)?.contains("\u{1}N") { return Err("no-op in the template".into()); }
                                if !through { return Ok(()); }
                                let w = want(doc, &marked);
                                if log.given.is_empty() { same_log(&log, &w.1.log)?; }
                                same_with(&t, &w.0.map_err(|e| format!("{e:?}"))?, &s)
                            }
                        }
                    });
                }
            }
        }
    })
}

/// Long runs of no-ops and long streams.
fn long_streams(tier: Tier) -> Family {
    let sz: Vec<usize> = vec![tier.pick(60_000, 1_000_000), 4_000, 300, 33, 2];
    let progs = THROUGH.len() + WORKED.len();
    split("long streams", format!("streams with up to {} no-ops or elements in a row, through and under each program", sz[0]), sz.len() * progs, 1, move |i, cx| {
        let (n, (what, make)) = (sz[i / progs], THROUGH.iter().chain(WORKED).nth(i % progs).unwrap());
        let rep = |c: &[u8], n: usize| c.repeat(n);
        for (k, s) in [[rep(b"N", n), b"<".to_vec(), rep(b"N", n), b"t>".to_vec(), rep(b"N", n)].concat(), rep(b"<N>", n), rep(b"(t)", n), [rep(b"Nt", n), b"F".to_vec()].concat()].into_iter().enumerate() {
            let p = prog(&make(Content::Seq(s.into())));
            for doc in seq_docs() {
                cx.case(|| format!("{n} repeated, form {k}, by {what}: {:?}", render(&doc)), |rec| agree(&real::tmpl(&render(&doc))?, &doc, &p, rec));
            }
        }
    })
}

/// Streams handed over in other ways: shared, used up in part, starting over after their end.
fn other_streams(tier: Tier) -> Family {
    let alphabet = b"<>sNtF";
    let len = tier.pick(4, 6);
    let k = alphabet.len();
    let all: usize = (0..=len).map(|l| k.pow(l as u32)).sum();
    let per = 20;
    Family::new("other forms of streams", format!("all sequences of at most {len} events of {k} kinds that form elements, shared, used up in part, and starting over when asked again after their end, through and under all programs"), (all + per - 1) / per, move |j, cx| {
        let ds = seq_docs();
        let Some(ts) = cx.setup(|| "hosts".into(), || ds.iter().map(|d| real::tmpl(&render(d))).collect::<Result<Vec<_>, _>>()) else { return };
        for i in j * per..((j + 1) * per).min(all) {
            if cx.stopped() { return; }
            let mut s = Vec::new();
            let (mut n, mut l) = (i, 0);
            while n >= k.pow(l as u32) { n -= k.pow(l as u32); l += 1; }
            for _ in 0..l { s.push(alphabet[n % k]); n /= k; }
            if s.iter().position(|c| *c == b'F').map_or(false, |p| p + 1 < s.len()) { continue; }
            if let prog::Seq::Malformed = prog::seq_nodes(&s) { continue; }
            for form in [b'R', b'B'] {
                let q: Arc<[u8]> = [&[form], &s[..]].concat().into();
                for (what, make) in THROUGH.iter().chain(WORKED) {
                    let p = prog(&make(Content::Seq(q.clone())));
                    for (doc, t) in ds.iter().zip(&ts) {
                        cx.case(|| format!("stream of [{}], {}, by {what}: {:?} through html{}", show_seq(&s), if form == b'R' { "shared" } else { "starting over" }, render(doc), prog::show_prog(&p)), |rec| faulted(t, doc, &p, rec));
                    }
                }
            }
            // the user has the stream, too
            for used in 0..=s.len() { for way in 0..4 {
                cx.case(|| format!("stream of [{}], {used} events used up before, way {way}", show_seq(&s)), |rec| {
                    rec.step(s.len() as u64 + 1);
                    let rc = std::rc::Rc::new(std::cell::RefCell::new(real::seq(&s)));
                    let mut mine = rc.clone();
                    for n in 0..used { match mine.next_event() { Ok(Some(_)) => {} Err(_) if s[n] == b'F' => return Ok(()), r => return Err(format!("own event {n} is {r:?}")) } }
                    let rest = &s[used..];
                    let (front, back) = match way { 0 => (false, true), 1 => (true, false), 2 => (true, false), _ => (false, true) };
                    let r = real::tmpl("<k>1</k>")?.transform(|h| match way {
                        0 => h.append(rc.clone()).into_boxed(),
                        1 => h.prepend(rc.clone()).into_boxed(),
                        // whoever comes first gets all of it
                        2 => h.append(rc.clone()).prepend(rc.clone()).into_boxed(),
                        _ => h.append(rc.clone()).append(Box::new(rc.clone()) as real::Dyn).into_boxed(),
                    });
                    match r {
                        Err(e) => if rest.contains(&b'F') && real::is_failure(&e, &failed_seq()) { Ok(()) } else { Err(format!("failed with {e:?}")) },
                        Ok(t) => {
                            if rest.contains(&b'F') { return Err(format!("gave {:?}, expected the error of the stream", t.to_string())); }
                            let flat: String = rest.iter().map(|c| prog::SEQ.iter().find(|x| x.0 == *c).map_or("", |x| x.2)).collect();
                            let want = format!("{}<k>1</k>{}", if front { &flat[..] } else { "" }, if back { &flat[..] } else { "" });
                            if t.to_string() != want { return Err(format!("gave {:?}, expected {want:?}", t.to_string())); }
                            match mine.next_event() { Ok(None) => Ok(()), r => Err(format!("the stream has {r:?} left")) }
                        }
                    }
                });
            } }
        }
    })
}

/// Streams of the library that have come to their end stay there.
fn ended_streams() -> Family {
    let kinds = 9;
    Family::new("ended streams", "every kind of stream the library makes of values, asked three times after its end", 1, move |_, cx| {
        for k in 0..kinds { for src in ["", "<a>1</a>", "t", "<a/><br>"] {
            cx.case(|| format!("stream {k} of {src:?}"), |rec| {
                rec.step(4);
                let t = real::tmpl(src)?;
                use html5_fuser::text::{Data, Value};
                let (d, v) = (Data::from_unencoded_str(src), Value::from_unencoded_str(src));
                let mut s: real::Dyn = match k {
                    0 => Box::new((&t).into_stream()), 1 => Box::new(t.clone().into_stream()), 2 => Box::new(std::rc::Rc::new(t.clone()).into_stream()), 3 => Box::new((&d).into_stream()), 4 => Box::new(d.into_stream()),
                    5 => Box::new((&v).into_stream()), 6 => Box::new(v.into_stream()), 7 => Box::new(7u8.into_stream()), _ => Box::new(Ok::<_, StreamError>(t.clone()).into_stream()),
                };
                let mut n = 0;
                while let Some(_) = s.next_event().map_err(|e| format!("{e:?}"))? { n += 1; if n > 100 { return Err("no end".into()); } }
                for _ in 0..3 { match s.next_event() { Ok(None) => {} r => return Err(format!("after the end comes {r:?}")) } }
                Ok(())
            });
        } }
    })
}

pub fn c19(tier: Tier) -> Vec<Family> {
    vec![
        ended_streams(),
        long_streams(tier),
        other_streams(tier),
        foreign("all events", b"<>()svtcrdNF", tier.pick(3, 5)),
        foreign("tags and text", b"<>sNtF", tier.pick(5, 7)),
        foreign("two names", b"<>()N", tier.pick(5, 7)),
    ]
}
