//! Templates and texts as values: C20 (histories), C21 (equality), C22 (constructed elements).

use super::compose::{element_ops, small_progs, stream_ops};
use super::gen::*;
use super::progs::*;
use super::vocab::*;
use super::select::{docs_upto, labels, labels2};
use crate::engine::*;
use crate::model::*;
use crate::prog::{self, intern, prog, AttrOp, Content, Env, Failure, Fault, Items, Op, Prog, Scope, Sel, Val, S};
use crate::real;
use html5_fuser::event::{Event, IntoStream, Stream};
use html5_fuser::select::{Class, Id, Tag};
use html5_fuser::text::{Data, Identifier, IdentifierError, Value};
use html5_fuser::{ParseOptions, StreamError, Template};
use std::rc::Rc;
use std::sync::Arc;

// --------------------------------------------------------------------------------------------- C20

/// What can happen next; numbers are slots in the pool.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Parse(usize),
    Clone(usize),
    Drop(usize),
    Transform(usize, usize),
    Fail(usize, usize),
    /// insert one into another
    Insert(usize, usize, usize),
    /// read some events of a stream and drop it
    Partial(usize),
    /// transform a template while transforming it
    Reentrant(usize),
    Compare(usize, usize),
    Reparse(usize),
    /// use a value in a template
    Use(usize, usize, usize),
    CloneText(usize),
    DropText(usize),
    /// keep an event of a template
    Keep(usize),
}

const SOURCES: [&str; 2] = ["<a class=\"x y\" id=\"i\">1<b class=\"x\">2</b></a><br>", "<!--c--><b class=\"y\" class=\"x\"><a/></b>"];

fn transforms() -> Vec<Prog> {
    vec![
        prog(&[any(".x", &[Op::Attr(AttrOp::AddClass("z"))])]),
        prog(&[any("a", &[Op::Attr(AttrOp::AddTo("class", Val::Str("w"), Val::Str(" "))), Op::Attr(AttrOp::AddV("n", Val::Int(1)))])]),
        prog(&[any("b", &[Op::Attr(AttrOp::RemoveClass("x")), Op::AppendC(Content::Str("&"))])]),
        prog(&[any("a", &[Op::Attr(AttrOp::Remove("class")), Op::RemoveC])]),
        prog(&[Op::Repeat(Items::Range(0, 2), prog(&[any("b", &[Op::Attr(AttrOp::SetV("id", Val::Item))])]))]),
        prog(&[any("a", &[Op::ApplyTemplate(prog(&[any("b", &[Op::Remove])]))]), Op::Append(tmpl("<b>3</b>"))]),
    ]
}
const USES: usize = 6;
const INSERTS: usize = 5;
const FAILS: usize = 3;

struct World {
    temps: Vec<Template>,
    model: Vec<Vec<Node>>,
    vals: Vec<(Value, Data)>,
    texts: Vec<String>,
    kept: Vec<(Event, String)>,
}

fn model_run(doc: &[Node], p: &[Op]) -> Vec<Node> {
    prog::run(p, doc.to_vec(), &mut Env::new()).expect("program of a history does not fail")
}

impl World {
    fn new() -> Result<World, String> {
        let mut w = World { temps: vec![], model: vec![], vals: vec![], texts: vec![], kept: vec![] };
        for s in SOURCES { w.temps.push(real::tmpl(s)?); w.model.push(parse_doc(s)); }
        for (i, s) in ["x&", "k<\""].iter().enumerate() {
            w.vals.push(if i == 0 { (Value::from_unencoded_static_str(s), Data::from_unencoded_static_str(s)) } else { (Value::from_unencoded_str(s), Data::from_unencoded_str(s)) });
            w.texts.push(s.to_string());
        }
        Ok(w)
    }
    fn push(&mut self, t: Template, m: Vec<Node>) { self.temps.push(t); self.model.push(m); }
    fn run(&mut self, s: Step, ts: &[Prog]) -> Check {
        let no = |e: StreamError| format!("failed with {e:?}");
        match s {
            Step::Parse(k) => { let t = real::tmpl(SOURCES[k])?; self.push(t, parse_doc(SOURCES[k])); }
            Step::Clone(i) => { let t = self.temps[i].clone(); let m = self.model[i].clone(); self.push(t, m); }
            Step::Drop(i) => { self.temps.remove(i); self.model.remove(i); }
            Step::Transform(k, i) => {
                let (a, b) = (real::transform(&self.temps[i], &ts[k]), real::transform(&self.temps[i], &ts[k]));
                let (a, b) = (a.0.map_err(no)?, b.0.map_err(no)?);
                if a != b || a.to_string() != b.to_string() { return Err(format!("the same transform gave {:?} and {:?}", a.to_string(), b.to_string())); }
                let m = model_run(&self.model[i], &ts[k]);
                self.push(a, m);
            }
            Step::Fail(k, i) => {
                let p = [prog(&[any("a", &[Op::Attr(AttrOp::AddClass("q")), Op::AppendC(Content::Fail(Fault::StreamAfter(1)))]), Op::Append(Content::Fail(Fault::Ident))]),
                    prog(&[any(".x", &[Op::Attr(AttrOp::SetId("q"))]), Op::Remove, any("q q", &[])]), prog(&[Op::Repeat(Items::Range(0, 2), prog(&[any("b", &[Op::Attr(AttrOp::RemoveClass("x"))])])), Op::ApplyTemplateFail])];
                if let Ok(t) = real::transform(&self.temps[i], &p[k]).0 { return Err(format!("failing transform gave {:?}", t.to_string())); }
            }
            Step::Insert(k, i, j) => {
                let src = &self.temps[j];
                let (t, m) = (&self.temps[i], &self.model[i]);
                let rc = Rc::new(src.clone());
                let t = match k {
                    0 => t.transform(|h| h.append(src)),
                    1 => t.transform(|h| h.select("a", |h| h.prepend_contents(src))),
                    2 => t.transform(|h| h.select(".x", |h| h.replace(rc.clone()))),
                    3 => t.transform(|h| h.select_once("b", |h| h.repeat_contents(0..2, |h, _| h.append(src)))),
                    _ => t.transform(|h| h.replace(src).select(".x", |h| h.add_class("w"))),
                }.map_err(no)?;
                // in the model the inserted template is a stand-in comment, put in place afterwards
                let mark = || tmpl("<!--@-->");
                let p = match k {
                    0 => prog(&[Op::Append(mark())]),
                    1 => prog(&[any("a", &[Op::PrependC(mark())])]),
                    2 => prog(&[any(".x", &[Op::Replace(mark())])]),
                    3 => prog(&[sel(Scope::Once, "b", &[Op::RepeatC(Items::Range(0, 2), prog(&[Op::Append(mark())]))])]),
                    _ => prog(&[Op::Replace(mark())]),
                };
                let mut m = put(model_run(m, &p), &self.model[j]);
                if k == 4 { m = model_run(&m, &[any(".x", &[Op::Attr(AttrOp::AddClass("w"))])]); }
                self.push(t, m);
            }
            Step::Partial(i) => {
                let mut s = (&self.temps[i]).into_stream();
                let mut c = self.temps[i].clone().into_stream();
                for n in 0..4 { let a = s.next_event().map_err(no)?; let b = if n % 2 == 0 { c.next_event().map_err(no)? } else { None }; drop((a, b)); }
            }
            Step::Reentrant(i) => {
                let t = &self.temps[i];
                let r = t.transform(|h| h.select("a", |h| h.append_contents(t.transform(|h| h.select(".x", |h| h.set_attribute_with_value("n", 1).remove_contents()))).apply_as_template(|u| {
                    let _ = t.transform(|h| h.remove()).map(|x| x == *t);
                    u.transform(|h| h.select("b", |h| h.add_class("r")))
                }))).map_err(no)?;
                let inner = model_run(&self.model[i], &[any(".x", &[Op::Attr(AttrOp::SetV("n", Val::Int(1))), Op::RemoveC])]);
                let m = put(model_run(&self.model[i], &[any("a", &[Op::AppendC(tmpl("<!--@--><k></k>"))])]), &inner);
                // the builder ran on the whole `a`, inserted template included
                let m = strip_k(model_run(&m, &[any("a", &[any("b", &[Op::Attr(AttrOp::AddClass("r"))])])]));
                self.push(r, m);
            }
            Step::Compare(i, j) => {
                let (a, b) = (self.temps[i] == self.temps[j], self.temps[j] == self.temps[i]);
                if a != b { return Err("comparison is not symmetric".into()); }
                if i == j && !a { return Err("a template is not equal to itself".into()); }
            }
            Step::Reparse(i) => {
                // what was put together may have texts next to each other, which is one text when parsed
                let t = real::tmpl(&self.temps[i].to_string())?;
                let m = self.model[i].clone();
                self.push(t, m);
            }
            Step::Use(k, i, v) => {
                let t = &self.temps[i];
                let (val, data) = &self.vals[v];
                let own = Val::ValOwned(self.texts[v].clone());
                let r = match k {
                    0 => t.transform(|h| h.select("a", |h| h.set_attribute_with_value("v", val))),
                    1 => t.transform(|h| h.select(".x", |h| h.add_to_attribute("class", val, val.clone()))),
                    2 => t.transform(|h| h.append(data).prepend(val)),
                    3 => t.transform(|h| h.select("b", |h| h.replace_contents(data.clone()).add_attribute_with_value("v", val.clone()).add_to_attribute("v", "+", val))),
                    4 => t.transform(|h| h.repeat(0..2, |h, _| h.select("a", |h| h.add_to_attribute("v", val, ",").add_to_attribute("v", val, ",")))),
                    _ => t.transform(|h| h.select("a", |h| h.append_contents(Data::from(val.clone())))),
                }.map_err(no)?;
                let c = Content::ValOwned(self.texts[v].clone());
                let p: Vec<Op> = match k {
                    0 => vec![any("a", &[Op::Attr(AttrOp::SetV("v", own))])],
                    1 => vec![any(".x", &[Op::Attr(AttrOp::AddTo("class", own.clone(), own))])],
                    2 => vec![Op::Append(c.clone()), Op::Prepend(c)],
                    3 => vec![any("b", &[Op::ReplaceC(c), Op::Attr(AttrOp::AddV("v", own.clone())), Op::Attr(AttrOp::AddTo("v", Val::Str("+"), own))])],
                    4 => vec![Op::Repeat(Items::Range(0, 2), prog(&[any("a", &[Op::Attr(AttrOp::AddTo("v", own.clone(), Val::Str(","))), Op::Attr(AttrOp::AddTo("v", own, Val::Str(",")))])]))],
                    _ => vec![any("a", &[Op::AppendC(c)])],
                };
                let m = model_run(&self.model[i], &p);
                self.push(r, m);
            }
            Step::CloneText(v) => { let c = self.vals[v].clone(); self.vals.push(c); let t = self.texts[v].clone(); self.texts.push(t); }
            Step::DropText(v) => { self.vals.remove(v); self.texts.remove(v); }
            Step::Keep(i) => {
                let evs = real::pull((&self.temps[i]).into_stream());
                let mut out = Vec::new();
                walk(&self.model[i], &mut |_, s| out.push(s.to_string()));
                // texts can be in one piece or several
                if evs.len() == out.len() { if let (Some(e), Some(s)) = (evs.into_iter().next(), out.into_iter().next()) { self.kept.push((e, s)); } }
            }
        }
        Ok(())
    }
    fn check(&self, rec: &mut Rec) -> Check {
        let mut state = String::new();
        for (i, (t, m)) in self.temps.iter().zip(&self.model).enumerate() {
            same_doc(t, m).map_err(|e| format!("template {i}: {e}"))?;
            state.push_str(&render(m));
            state.push('\n');
        }
        for (i, ((v, d), s)) in self.vals.iter().zip(&self.texts).enumerate() {
            let want = escape(s);
            for got in [v.to_string(), d.to_string(), v.as_encoded_ref().to_string(), d.as_encoded_ref().to_string()] { if got != want { return Err(format!("text {i} is {got:?}, expected {want:?}")); } }
        }
        for (e, s) in &self.kept { if e.to_string() != *s { return Err(format!("event became {:?}, was {s:?}", e.to_string())); } }
        rec.state(&state);
        Ok(())
    }
}

/// Put nodes in place of the marker comments.
fn put(nodes: Vec<Node>, with: &[Node]) -> Vec<Node> {
    let mut out = Vec::new();
    for n in nodes {
        match n {
            Node::Comment(c) if c == "@" => out.extend(with.iter().cloned()),
            Node::Elem(mut e) => { e.kids = put(e.kids, with); out.push(Node::Elem(e)); }
            n => out.push(n),
        }
    }
    out
}
fn strip_k(nodes: Vec<Node>) -> Vec<Node> {
    nodes.into_iter().filter_map(|n| match n { Node::Elem(e) if e.tag == "k" => None, Node::Elem(mut e) => { e.kids = strip_k(e.kids); Some(Node::Elem(e)) } n => Some(n) }).collect()
}

/// Number of templates and texts after a step.
fn after(s: Step, (t, v): (usize, usize)) -> (usize, usize) {
    match s {
        Step::Drop(_) => (t - 1, v),
        Step::CloneText(_) => (t, v + 1),
        Step::DropText(_) => (t, v - 1),
        Step::Fail(..) | Step::Partial(_) | Step::Compare(..) | Step::Keep(_) => (t, v),
        _ => (t + 1, v),
    }
}

/// Steps possible with that many templates and texts.
fn options((t, v): (usize, usize), ts: usize, full: bool) -> Vec<Step> {
    let mut o = Vec::new();
    // all slots, or only the oldest and the newest
    let slots: Vec<usize> = if full { (0..t).collect() } else { [0, t.wrapping_sub(1)].iter().copied().filter(|i| *i < t).collect::<std::collections::BTreeSet<_>>().into_iter().collect() };
    let texts: Vec<usize> = if full { (0..v).collect() } else { (0..v).take(1).collect() };
    if full { o.push(Step::Parse(0)); }
    for &i in &slots {
        o.extend([Step::Clone(i), Step::Drop(i), Step::Reentrant(i)]);
        for k in 0..ts { if full || k != 3 { o.push(Step::Transform(k, i)); } }
        if full { o.extend([Step::Partial(i), Step::Reparse(i), Step::Keep(i)]); for k in 0..FAILS { o.push(Step::Fail(k, i)); } } else { o.extend([Step::Fail(0, i), Step::Keep(i)]); }
        for &j in &slots {
            for k in 0..INSERTS { if full || k == 1 || (k == 4 && i < j) { o.push(Step::Insert(k, i, j)); } }
            if full { o.push(Step::Compare(i, j)); }
        }
        for &x in &texts { for k in 0..USES { if full || k % 2 == 1 { o.push(Step::Use(k, i, x)); } } }
    }
    if full { for x in 0..v { o.extend([Step::CloneText(x), Step::DropText(x)]); } }
    o
}

fn histories(name: &str, depth: usize, full: bool) -> Family {
    let n = transforms().len();
    // jobs: the first two steps
    let first: Vec<Vec<Step>> = {
        let mut v = Vec::new();
        for a in options((2, 2), n, full) { for b in options(after(a, (2, 2)), n, full) { v.push(vec![a, b]); } }
        v
    };
    let firsts = first.len();
    Family::new(name, format!("all histories of {depth} steps and shorter ones on {}templates and texts, {firsts} ways to begin", if full { "" } else { "the oldest and the newest of " }), firsts + 1, move |j, cx| {
        let ts = transforms();
        fn go(h: &mut Vec<Step>, n: (usize, usize), depth: usize, full: bool, ts: &[Prog], cx: &mut Cx) {
            if cx.stopped() { return; }
            cx.case(|| format!("{h:?}"), |rec| {
                let mut w = World::new()?;
                for s in h.iter() { w.run(*s, ts).map_err(|e| format!("{s:?}: {e}"))?; }
                rec.step(1);
                w.check(rec)
            });
            if h.len() < depth {
                for s in options(n, ts.len(), full) {
                    h.push(s);
                    go(h, after(s, n), depth, full, ts, cx);
                    h.pop();
                }
            }
        }
        if j == 0 { go(&mut vec![], (2, 2), 1, full, &ts, cx); return; }
        let mut h = first[j - 1].clone();
        let s = h.iter().fold((2, 2), |n, s| after(*s, n));
        go(&mut h, s, depth, full, &ts, cx);
    })
}

/// Every program leaves the template it is applied to alone, and gives the same again.
fn undisturbed(t: &Template, doc: &[Node], p: &Prog, rec: &mut Rec) -> Check {
    let before = t.clone();
    let evs = real::pull(t.into_stream());
    let shown: Vec<String> = evs.iter().map(|e| e.to_string()).collect();
    let (a, b) = (real::transform(t, p), real::transform(&before, p));
    rec.step(2);
    match (&a.0, &b.0) {
        (Ok(x), Ok(y)) => {
            if x != y || x.to_string() != y.to_string() { return Err(format!("once {:?}, then {:?}", x.to_string(), y.to_string())); }
            rec.state(&x.to_string());
        }
        (Err(x), Err(y)) => if format!("{x:?}") != format!("{y:?}") { return Err(format!("once {x:?}, then {y:?}")); },
        (x, y) => return Err(format!("once {x:?}, then {y:?}")),
    }
    same_log(&a.1, &b.1)?;
    same_doc(t, doc)?;
    same_doc(&before, doc)?;
    if *t != before { return Err("the template is not equal to its clone any more".into()); }
    for (e, s) in evs.iter().zip(&shown) { if e.to_string() != *s { return Err(format!("event became {:?}, was {s:?}", e.to_string())); } }
    Ok(())
}

pub fn c20(tier: Tier) -> Vec<Family> {
    let j: Judge = Arc::new(undisturbed);
    let pairs: Vec<Prog> = chains(&stream_ops(tier), 2, false).into_iter().map(|c| prog(&c)).collect();
    let elem: Vec<Prog> = chains(&element_ops(), 2, true).into_iter().map(|c| prog(&[any("a", &c)])).collect();
    let mut v = vec![
        histories("histories", tier.pick(3, 4), true),
        histories("long histories", tier.pick(4, 5), false),
        product_by("source undisturbed, streams", "every two operations, twice on the same template", docs_upto(tier.pick(2, 3), &labels()), pairs, j.clone()),
        product_by("source undisturbed, elements", "every two operations on elements, twice on the same template", docs_upto(tier.pick(2, 3), &labels()).into_iter().chain(docs(&SOURCES)).collect(), elem, j),
    ];
    v.push(shared_texts(tier));
    v.push(sized_by(tier.pick(20, 100), tier.pick(520, 4100), small_progs(), Arc::new(undisturbed)));
    v.push(product_by("source undisturbed, element names", "every operation twice on documents with elements of each standard name", super::select::all_named_docs(false), small_progs(), Arc::new(undisturbed)));
    v
}

/// Texts of every size, shared between attributes and templates, appended to in several places.
fn shared_texts(tier: Tier) -> Family {
    let sz = sizes(tier.pick(40, 130), tier.pick(300, 5000));
    split("shared texts", format!("texts of up to {} bytes shared by several attributes, templates and values, each extended separately", sz[sz.len() - 1]), sz.len() * 4, 1, move |i, cx| {
        let (n, m) = (sz[i / 4], [0, 1, 8, 40][i % 4]);
        let (base, more) = ("v".repeat(n), "w".repeat(m));
        cx.case(|| format!("value of {n} bytes extended by {m}"), |rec| {
            rec.step(6);
            let src = format!("<a class=\"{base}\"></a>");
            let t = real::tmpl(&src)?;
            let (v, x) = (Value::from_unencoded_str(&base), Value::from_unencoded_str(&more));
            let no = |e: StreamError| format!("{e:?}");
            let t1 = t.transform(|h| h.select("a", |h| h.set_attribute_with_value("v", &v).set_attribute_with_value("u", &v))).map_err(no)?;
            let t2 = t1.transform(|h| h.select("a", |h| h.add_to_attribute("v", &x, "1").add_to_attribute("class", &x, "2"))).map_err(no)?;
            let t3 = t1.transform(|h| h.select("a", |h| h.add_to_attribute("v", &v, &v).add_to_attribute("class", "3", ""))).map_err(no)?;
            let t4 = t2.transform(|h| h.select("a", |h| h.add_to_attribute("v", &x, "4").add_to_attribute("u", &x, "5"))).map_err(no)?;
            fn el<'a>(v: &str, _u: &str, c: &[(&'a str, &str)]) -> Vec<(&'a str, String)> { let mut e = vec![("class", v.to_string())]; e.extend(c.iter().map(|(n, v)| (*n, v.to_string()))); e }
            let show = |a: Vec<(&str, String)>| format!("<a {}></a>", a.iter().map(|(n, v)| format!("{n}=\"{v}\"")).collect::<Vec<_>>().join(" "));
            let want = [
                (&t, show(el(&base, "", &[]))),
                (&t1, show(el(&base, "", &[("v", &base), ("u", &base)]))),
                (&t2, show(el(&format!("{base}2{more}"), "", &[("v", &format!("{base}1{more}")), ("u", &base)]))),
                (&t3, show(el(&format!("{base}3"), "", &[("v", &base.repeat(3)), ("u", &base)]))),
                (&t4, show(el(&format!("{base}2{more}"), "", &[("v", &format!("{base}1{more}4{more}")), ("u", &format!("{base}5{more}"))]))),
            ];
            for (k, (t, w)) in want.iter().enumerate() { if t.to_string() != *w { return Err(format!("template {k} is {:?}, expected {:?}", diffclip(&t.to_string(), w), diffclip(w, &t.to_string()))); } }
            if v.to_string() != base || x.to_string() != more { return Err("a value changed".into()); }
            Ok(())
        });
    })
}

// --------------------------------------------------------------------------------------------- C21

/// All texts compared with each other.
fn text_equality(tier: Tier) -> Vec<Family> {
    let tok = ["a", "A", "&", "<", " ", "é", "amp;", "\""];
    let mut all: Vec<String> = Vec::new();
    for len in 0..=tier.pick(2, 3) { sequences(tok.len(), len, &[], &mut |v| all.push(v.iter().map(|i| tok[*i]).collect())); }
    all.extend([7usize, 8, 9, 15, 16, 17, 300].iter().flat_map(|n| [ "a".repeat(*n), "a".repeat(n - 1) + "b"]));
    all.extend(WORDS.iter().chain(VALUES.iter()).map(|w| w.to_string()));
    all.sort();
    all.dedup();
    let n = all.len();
    let value = |s: &str| -> Vec<(&'static str, Value)> {
        let owned = Value::from_unencoded_str(s);
        let stat = Value::from_unencoded_static_str(intern(s));
        vec![("owned", owned.clone()), ("from String", Value::from_unencoded_str(s.to_string())), ("static", stat.clone()), ("clone of owned", owned), ("clone of static", stat)]
    };
    let data = |s: &str| -> Vec<(&'static str, Data)> {
        let owned = Data::from_unencoded_str(s);
        vec![("owned", owned.clone()), ("static", Data::from_unencoded_static_str(intern(s))), ("clone", owned), ("of owned value", Data::from(Value::from_unencoded_str(s))), ("of static value", Data::from(Value::from_unencoded_static_str(intern(s))))]
    };
    let all = Arc::new(all);
    vec![split("texts and values", format!("all pairs of {n} texts, each made in 5 ways as value and as data"), n, 1, move |i, cx| {
        let a = &all[i];
        let (va, da) = (value(a), data(a));
        for b in all.iter() {
            if cx.stopped() { return; }
            cx.case(|| format!("texts {:?} and {:?}", clip(a, 80), clip(b, 80)), |rec| {
                let same = a == b;
                rec.step(50);
                rec.state(a);
                for (x, v) in &va { for (y, w) in &value(b) {
                    if (v == w) != same || (v != w) == same { return Err(format!("values ({x}) and ({y}) compare as {}", v == w)); }
                    if (v.as_encoded_ref() == w.as_encoded_ref()) != same { return Err(format!("encoded values ({x}) and ({y}) compare as {}", !same)); }
                } }
                for (x, v) in &da { for (y, w) in &data(b) {
                    if (v == w) != same || (v != w) == same { return Err(format!("data ({x}) and ({y}) compare as {}", v == w)); }
                    if (v.as_encoded_ref() == w.as_encoded_ref()) != same { return Err(format!("encoded data ({x}) and ({y}) compare as {}", !same)); }
                } }
                for (x, v) in &va { for (y, w) in &data(b) {
                    if (v.as_encoded_ref() == w.as_encoded_ref()) != same { return Err(format!("value ({x}) and data ({y}) compare as {}", !same)); }
                } }
                Ok(())
            });
        }
    })]
}

/// All names compared with each other.
fn name_equality(tier: Tier) -> Family {
    let ok = |s: &str| crate::refparse::name_faults(s).is_empty();
    let mut all: Vec<String> = (1u8..128).map(|b| (b as char).to_string()).filter(|s| ok(s)).collect();
    let two: &[&str] = if tier == Tier::Quick { &["a", "A", "k", "K", "-", "@", "`", "1"] } else { &["a", "A", "k", "K", "z", "Z", "-", "@", "`", "[", "{", "1", "_", "\u{0}"] };
    for len in 2..=tier.pick(2, 3) { sequences(two.len(), len, &[], &mut |v| all.push(v.iter().map(|i| two[*i]).collect())); }
    all.extend(["section", "sectioN", "SECTION", "sections", "section1"].iter().map(|s| s.to_string()));
    all.extend(ELEMENTS.iter().chain(ATTRIBUTES.iter()).filter(|n| ok(n)).flat_map(|n| [n.to_string(), n.to_uppercase()]));
    all.sort();
    all.dedup();
    let all = Arc::new(all);
    let n = all.len();
    split("names", format!("all pairs of {n} names, as identifiers made in 3 ways and as typed selectors"), n, 2, move |i, cx| {
        let a = &all[i];
        let ids = |s: &str| -> Result<Vec<Identifier>, IdentifierError> { let i = real::ident(s)?; Ok(vec![i.clone(), i, Identifier::from_static_str(intern(s))?]) };
        for b in all.iter() {
            if cx.stopped() { return; }
            cx.case(|| format!("names {a:?} and {b:?}"), |rec| {
                let eq = same(a, b);
                rec.step(9);
                rec.state(&lower(a));
                let no = |e: IdentifierError| format!("{e:?}");
                for x in &ids(a).map_err(no)? { for y in &ids(b).map_err(no)? { if (x == y) != eq || (x != y) == eq { return Err(format!("identifiers compare as {}", x == y)); } } }
                let (s, t) = (a.as_str(), b.as_str());
                let p = |r: bool, what: &str| if r == eq { Ok(()) } else { Err(format!("{what} compare as {r}")) };
                p(s.parse::<Tag>().map_err(|e| format!("{e:?}"))? == t.parse::<Tag>().map_err(|e| format!("{e:?}"))?, "tag selectors")?;
                p(s.parse::<Id>().map_err(|e| format!("{e:?}"))? == t.parse::<Id>().map_err(|e| format!("{e:?}"))?, "id selectors")?;
                p(s.parse::<Class>().map_err(|e| format!("{e:?}"))? == t.parse::<Class>().map_err(|e| format!("{e:?}"))?, "class selectors")?;
                Ok(())
            });
        }
    })
}

/// Ways in which a document can come about.
const ROUTES: [&str; 9] = ["parsed", "cloned", "passed through a transform", "inserted into an empty template", "put together by operations", "parsed with other whitespace", "passed through a template", "changed and changed back", "parsed from its rendering"];

fn spaced(nodes: &[Node]) -> String {
    let mut o = String::new();
    for n in nodes {
        match n {
            Node::Elem(e) => {
                o += &format!("<{}", e.tag);
                for (n, v) in &e.attrs { o += &format!(" \t\n{n}"); if let Some(v) = v { o += &format!("=\"{v}\""); } }
                o.push_str(match e.kind { Kind::SelfClosed => "  \n/>", Kind::Void => " />", _ => "\r\n >" });
                if e.kind == Kind::Normal { o += &spaced(&e.kids); o += &format!("</{} \t>", e.close); }
            }
            Node::Doctype(d) => o += &format!("<!DocType   {d}>"),
            n => o += &render(std::slice::from_ref(n)),
        }
    }
    o
}

/// Unencoded form of a text.
fn plain(s: &str) -> String { s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&amp;", "&") }

/// Put together from pieces where the API has a way to.
fn assemble(nodes: &[Node]) -> Result<Template, StreamError> {
    let mut t = real::parse("")?;
    for n in nodes {
        let piece = match n {
            Node::Text(s) => {
                let s = plain(s);
                match s.len() % 3 { 0 => real::parse("")?.transform(|h| h.append(intern(&s)))?, 1 => real::parse("")?.transform(|h| h.append(Data::from_unencoded_str(&s)))?, _ => real::parse("")?.transform(|h| h.append(Value::from_unencoded_str(&s)))? }
            }
            Node::Elem(e) if e.kind == Kind::SelfClosed && is_void(&e.tag) || e.kind == Kind::Normal && (is_void(&e.tag) || is_raw(&e.tag) || !same(&e.tag, &e.close)) => real::parse(&render(std::slice::from_ref(n)))?,
            Node::Elem(e) => {
                let kids = assemble(&e.kids)?;
                let e = e.clone();
                Template::with_transformed_element(intern(&e.tag), move |h| {
                    let mut h = h.into_boxed_element();
                    for (n, v) in &e.attrs {
                        h = match v {
                            None => h.add_empty_attribute(intern(n)).into_boxed_element(),
                            Some(v) => h.add_attribute_with_value(intern(n), Value::from_unencoded_str(plain(v))).into_boxed_element(),
                        };
                    }
                    if e.kind == Kind::Normal { h.replace_contents(kids).into_boxed_element() } else { h }
                })?
            }
            n => real::parse(&render(std::slice::from_ref(n)))?,
        };
        t = t.transform(|h| h.append(&piece))?;
    }
    Ok(t)
}

fn route(k: usize, doc: &[Node]) -> Result<Template, String> {
    let src = render(doc);
    let t = real::tmpl(&src)?;
    let no = |e: StreamError| format!("{e:?}");
    match k {
        0 => Ok(t),
        1 => Ok(t.clone()),
        2 => t.transform(|h| h).map_err(no),
        3 => real::tmpl("")?.transform(|h| h.append(Rc::new(t))).map_err(no),
        4 => assemble(doc).map_err(no),
        5 => real::tmpl(&spaced(doc)),
        6 => t.transform(|h| h.apply_as_template(|t| t.transform(|h| h.select("a", |h| h)))).map_err(no),
        7 => t.transform(|h| h.append(&t).replace(&t).select(Sel2("a"), |h| h.add_attribute_with_value("zz", 1)).select(Sel2("a"), |h| h.remove_attribute("ZZ"))).map_err(no),
        _ => real::tmpl(&t.to_string()),
    }
}
/// A selector of the user: tags starting with.
struct Sel2(S);
impl html5_fuser::select::Selector for Sel2 {
    fn matches(&self, e: &Event) -> bool { matches!(kind_of(e.description()), 'O' | 'S' | 'V') && e.to_string()[1..].starts_with(self.0) }
}

/// Same constructs with the same texts and values, names ignoring case.
fn equal_docs(a: &[Node], b: &[Node]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| match (a, b) {
        (Node::Elem(a), Node::Elem(b)) => same(&a.tag, &b.tag) && a.kind == b.kind && a.attrs.len() == b.attrs.len()
            && a.attrs.iter().zip(&b.attrs).all(|(x, y)| same(&x.0, &y.0) && x.1 == y.1) && equal_docs(&a.kids, &b.kids),
        (a, b) => a == b,
    })
}

/// Documents that differ in one thing each.
fn near(tier: Tier) -> Vec<Vec<Node>> {
    let at = |a: &[(&str, Option<&str>)]| vec![elem("a", a, Kind::Normal, vec![])];
    let x = Some("x");
    let mut v = vec![
        vec![], at(&[]), vec![el("A", vec![])], vec![el("aa", vec![])], vec![closed("a")], vec![closed("A")], vec![void("br")], vec![void("BR")], vec![void("hr")],
        at(&[("k", None)]), at(&[("K", None)]), at(&[("k", Some(""))]), at(&[("k", x)]), at(&[("K", x)]), at(&[("k", Some("X"))]), at(&[("k", Some(" x"))]), at(&[("k", Some("x "))]), at(&[("l", x)]), at(&[("k", x), ("k", x)]), at(&[("k", x), ("l", x)]), at(&[("l", x), ("k", x)]),
        at(&[("k", None), ("l", x)]), at(&[("class", Some("x y"))]), at(&[("class", Some("y x"))]), at(&[("class", Some("X y"))]), at(&[("id", x)]), at(&[("k", Some("&amp;"))]), at(&[("k", Some("&lt;"))]),
        vec![text("t")], vec![text("T")], vec![text("t ")], vec![text(" t")], vec![text("tt")], vec![text("&amp;")], vec![text("&amp;amp;")], vec![text("&lt;a&gt;&lt;/a&gt;")],
        vec![Node::Comment("t".into())], vec![Node::Comment("".into())], vec![Node::Comment("T".into())], vec![Node::Comment(" t".into())], vec![Node::Doctype("html".into())], vec![Node::Doctype("HTML".into())], vec![Node::Doctype("html".into()), Node::Doctype("html".into())],
        vec![el("title", vec![])], vec![el("title", vec![Node::Raw("t".into())])], vec![el("title", vec![Node::Raw("T".into())])], vec![el("Title", vec![Node::Raw("t".into())])], vec![el("style", vec![Node::Raw("t".into())])],
        vec![el("a", vec![text("t")])], vec![el("a", vec![]), text("t")], vec![text("t"), el("a", vec![])], vec![el("a", vec![Node::Comment("t".into())])], vec![el("a", vec![el("b", vec![])])], vec![el("a", vec![]), el("b", vec![])], vec![el("b", vec![]), el("a", vec![])],
        vec![el("a", vec![closed("b")])], vec![el("a", vec![void("br")])], vec![el("a", vec![]), el("a", vec![])], vec![el("a", vec![el("a", vec![])])], parse_doc("<A></a>"), parse_doc("<a></A>"), parse_doc("<a k=\"x\"><b></B></A>"), parse_doc("<a k=\"x\"><b></b></a>"),
    ];
    v.extend(docs_upto(tier.pick(3, 4), &labels()));
    v.extend(docs_upto(tier.pick(3, 4), &labels2()));
    let mut seen = std::collections::HashSet::new();
    v.retain(|d| seen.insert(d.clone()));
    v
}

fn template_equality(tier: Tier) -> Family {
    let ds = Arc::new(near(tier));
    let n = ds.len();
    let space = format!("all pairs of {n} documents, each come about in {} ways", ROUTES.len());
    split("templates", space, n, 2, move |i, cx| {
        let a = &ds[i];
        let src = render(a);
        let Some(ta) = cx.setup(|| format!("{src:?}"), || (0..ROUTES.len()).map(|k| route(k, a).map_err(|e| format!("{}: {e}", ROUTES[k]))).collect::<Result<Vec<_>, _>>()) else { return };
        // the others differ only in where they come from for most pairs: all ways of each are compared to all of the neighbours
        for (j, b) in ds.iter().enumerate() {
            if cx.stopped() { return; }
            let all = equal_docs(a, b) || j % 7 == i % 7;
            cx.case(|| format!("documents {:?} and {:?}", src, render(b)), |rec| {
                let want = equal_docs(a, b);
                rec.state(&render(b));
                for (y, tb) in (0..ROUTES.len()).filter(|k| all || *k == (i + j) % ROUTES.len()).map(|k| (k, route(k, b))) {
                    let tb = tb.map_err(|e| format!("{}: {e}", ROUTES[y]))?;
                    for (x, t) in ta.iter().enumerate() {
                        rec.step(1);
                        if (*t == tb) != want || (*t != tb) == want || (tb == *t) != want { return Err(format!("({}) and ({}) compare as {}", ROUTES[x], ROUTES[y], *t == tb)); }
                    }
                }
                Ok(())
            });
        }
    })
}

/// Single events compared with each other.
fn event_equality() -> Family {
    let ds = Arc::new(near(Tier::Quick));
    let n = ds.len();
    split("events", format!("all pairs of the events of {n} documents"), n, 4, move |i, cx| {
        let Some(ea) = cx.setup(|| render(&ds[i]), || pieces(&ds[i])) else { return };
        for b in ds.iter() {
            cx.case(|| format!("events of {:?} and {:?}", render(&ds[i]), render(b)), |rec| {
                let eb = pieces(b)?;
                let flat = |d: &[Node]| { let mut v = Vec::new(); flatten(d, &mut v); v };
                let (fa, fb) = (flat(&ds[i]), flat(b));
                if fa.len() != ea.len() || fb.len() != eb.len() { return Err(format!("{} and {} events, expected {} and {}", ea.len(), eb.len(), fa.len(), fb.len())); }
                for (x, p) in ea.iter().zip(&fa) { for (y, q) in eb.iter().zip(&fb) {
                    rec.step(1);
                    if (x == y) != (p == q) { return Err(format!("{x:?} and {y:?} compare as {}", x == y)); }
                } }
                Ok(())
            });
        }
    })
}
/// Events that show.
fn pieces(d: &[Node]) -> Result<Vec<Event>, String> {
    let mut v = Vec::new();
    for e in real::pull(real::tmpl(&render(d))?.into_stream()) { if !e.to_string().is_empty() { v.push(e); } }
    Ok(v)
}
/// Events in a form that can be compared.
fn flatten(d: &[Node], out: &mut Vec<(char, String, Vec<Attr>)>) {
    for n in d {
        match n {
            Node::Elem(e) => {
                let attrs = e.attrs.iter().map(|(n, v)| (lower(n), v.clone())).collect();
                out.push((match e.kind { Kind::Normal => 'O', Kind::Void => 'V', Kind::SelfClosed => 'S' }, lower(&e.tag), attrs));
                if e.kind == Kind::Normal { flatten(&e.kids, out); out.push(('X', lower(&e.close), vec![])); }
            }
            Node::Text(s) => out.push(('T', s.clone(), vec![])),
            Node::Raw(s) => out.push(('R', s.clone(), vec![])),
            Node::Comment(s) => out.push(('C', s.clone(), vec![])),
            Node::Doctype(s) => out.push(('D', s.clone(), vec![])),
        }
    }
}

/// Transformed templates are equal exactly when their documents are.
fn after_transforms(tier: Tier) -> Family {
    let progs: Vec<Prog> = chains(&stream_ops(Tier::Quick), tier.pick(1, 2), false).into_iter().map(|c| prog(&c)).chain(element_ops().into_iter().map(|o| prog(&[any("a", &[o])]))).collect();
    let ds = docs_upto(3, &labels());
    let n = ds.len();
    split("after transforms", format!("results of all pairs of {} transforms on {n} documents", progs.len()), n, 1, move |i, cx| {
        let Some(t) = cx.setup(|| render(&ds[i]), || real::tmpl(&render(&ds[i]))) else { return };
        let texts_apart = |d: &[Node]| parsable(d);
        let mut got = Vec::new();
        for p in &progs {
            let Some(r) = cx.setup(|| show_case(&ds[i], p), || real::transform(&t, p).0.map_err(|e| format!("{e:?}"))) else { return };
            let w = want(&ds[i], p).0.expect("no fault");
            // texts in several pieces compare piece by piece, which is nothing to rely on
            if texts_apart(&w) && no_empty_text(&w) { got.push((p, r, w)); }
        }
        for (p, r, w) in &got {
            if cx.stopped() { return; }
            cx.case(|| format!("{} against all others", show_case(&ds[i], p)), |rec| {
                rec.state(&render(w));
                for (q, s, v) in &got {
                    rec.step(1);
                    if (r == s) != equal_docs(w, v) { return Err(format!("{:?} and {:?} (by {}) compare as {}", r.to_string(), s.to_string(), prog::show_prog(q), r == s)); }
                }
                Ok(())
            });
        }
    })
}
fn no_empty_text(d: &[Node]) -> bool { d.iter().all(|n| match n { Node::Text(s) => !s.is_empty(), Node::Elem(e) => no_empty_text(&e.kids), _ => true }) }

/// Large documents that differ in one place.
fn large_equality(tier: Tier) -> Family {
    let mut sz = sizes(tier.pick(40, 150), tier.pick(4100, 70_000));
    sz.reverse();
    split("large templates", format!("documents of {SHAPES} shapes at each of {} sizes up to {} against themselves in other ways and against those with one character removed, added or changed at 19 places", sz.len(), sz[0]), sz.len() * SHAPES, 1, move |i, cx| {
        let (n, k) = (sz[i / SHAPES], i % SHAPES);
        let src = sized_doc(k, n);
        let doc = parse_doc(&src);
        let Some(t) = cx.setup(|| format!("shape {k} of size {n}"), || real::tmpl(&src)) else { return };
        let compare = |what: String, o: &dyn Fn() -> Result<Template, String>, want: bool, cx: &mut Cx| cx.case(|| format!("shape {k} of size {n} and {what}"), |rec| {
            rec.step(3);
            let u = o()?;
            if (t == u) != want || (t != u) == want || (u == t) != want { return Err(format!("compare as {}", t == u)); }
            rec.outcome(&format!("{want}"));
            Ok(())
        });
        for r in [0, 1, 2, 3, 5, 8] { compare(format!("the same ({})", ROUTES[r]), &|| route(r, &doc), true, cx); }
        let at: Vec<usize> = (0..19).map(|p| match p { 0..=4 => p, 5..=9 => src.len().saturating_sub(p - 4), p => src.len() * (p - 9) / 10 }).collect();
        for p in at {
            let Some(p) = (0..4).filter_map(|d| p.checked_sub(d)).find(|p| *p < src.len() && src.is_char_boundary(*p)) else { continue };
            let c = src[p..].chars().next().unwrap();
            let (a, z) = (&src[..p], &src[p + c.len_utf8()..]);
            for (w, s) in [("removed", format!("{a}{z}")), ("doubled", format!("{a}{c}{c}{z}")), ("changed", format!("{a}q{z}")), ("in other case", format!("{a}{}{z}", if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })), ("cut off", a.to_string())] {
                let Ok(other) = crate::refparse::parse(&s, None) else { continue };
                compare(format!("with the character {c:?} at {p} {w}"), &|| real::tmpl(&s), equal_docs(&doc, &other), cx);
            }
        }
    })
}

/// Attributes of one name in all forms, on elements of one name.
fn word_equality() -> Family {
    let names: Vec<&'static str> = ATTRIBUTES.iter().copied().filter(|n| crate::refparse::name_faults(n).is_empty()).collect();
    split("words", format!("documents that differ in the attribute {} of one standard name, or in one word as text, value, comment or raw text", names.len()), names.len() + WORDS.len(), 2, move |i, cx| {
        let docs: Vec<String> = if i < names.len() {
            let n = names[i];
            ["".to_string(), n.to_string(), n.to_uppercase(), format!("{n}=\"\""), format!("{n}=\"{n}\""), format!("{n}=\"true\""), format!("{n}=\"false\""), format!("{n}=\"1\""), format!("{n}=\" 1\""), format!("{n}=\"a b\""), format!("{n}=\"b a\""), format!("{n}=\"A b\""), format!("{n}=\"a  b\""), format!("{n}=\"a:b;\""), format!("{n}=\"a:b\""),
                format!("{n} {n}"), format!("k {n}"), format!("{n} k")].iter().flat_map(|a| [format!("<input {a}>"), format!("<p {a}/>")]).collect()
        } else {
            let w = WORDS[i - names.len()];
            let mut v = Vec::new();
            for w in [w.to_string(), format!("{w}{w}"), format!(" {w}"), format!("{w} "), String::new(), w.to_uppercase(), w.to_lowercase(), w.trim().to_string(), w.replace("&#38;", "&amp;").replace("&#60;", "&lt;"), w.replace('\r', ""), w.trim_end_matches(';').to_string()] {
                v.extend([format!("<p>{w}</p>"), format!("<p>x{w}</p>"), format!("<p a=\"{w}\"/>"), format!("<p><!--{w}--></p>"), format!("<title>{w}</title>")]);
            }
            v
        };
        let docs: Vec<(String, Vec<Node>)> = docs.into_iter().filter_map(|s| crate::refparse::parse(&s, None).ok().map(|d| (s, d))).collect();
        let Some(ts) = cx.setup(|| format!("documents {i}"), || docs.iter().map(|d| real::tmpl(&d.0)).collect::<Result<Vec<_>, _>>()) else { return };
        for (t, (s, d)) in ts.iter().zip(&docs) {
            cx.case(|| format!("{s:?} against {} others", docs.len()), |rec| {
                rec.state(s);
                for (u, (r, e)) in ts.iter().zip(&docs) {
                    rec.step(1);
                    if (t == u) != equal_docs(d, e) { return Err(format!("and {r:?} compare as {}", t == u)); }
                }
                Ok(())
            });
        }
    })
}

pub fn c21(tier: Tier) -> Vec<Family> {
    let mut v = text_equality(tier);
    v.extend([name_equality(tier), template_equality(tier), event_equality(), after_transforms(tier), large_equality(tier), word_equality()]);
    v
}

// --------------------------------------------------------------------------------------------- C22

fn construct(name: &str, rec: &mut Rec) -> Check {
    let faults = crate::refparse::tag_faults(name);
    let s = intern(name);
    let id = || real::ident(name);
    let forms: Vec<(&str, Result<Template, IdentifierError>)> = vec![
        ("static name", Template::with_element(s)), ("result of parsing the name", Template::with_element(id())),
        ("identifier", id().and_then(Template::with_element)), ("borrowed identifier", id().and_then(|i| Template::with_element(&i))),
    ];
    rec.step(4);
    for (form, r) in forms {
        match r {
            Err(e) => if !faults.contains(&e) { return Err(format!("{form}: failed with {e:?}, expected {faults:?}")); },
            Ok(t) => {
                if !faults.is_empty() { return Err(format!("{form}: gave {:?}, expected {faults:?}", t.to_string())); }
                let doc = vec![prog::with_element(name)];
                same_doc(&t, &doc).map_err(|e| format!("{form}: {e}"))?;
                rec.state(&t.to_string());
                let p = real::tmpl(&render(&doc))?;
                if p != t { return Err(format!("{form}: not equal to the parsed {:?}", p.to_string())); }
            }
        }
    }
    let forms: Vec<(&str, Result<Template, StreamError>)> = vec![
        ("static name, transformed", Template::with_transformed_element(s, |h| h)), ("result, transformed", Template::with_transformed_element(id(), |h| h.set_attribute_with_value("k", 1).remove_attribute("k"))),
    ];
    for (form, r) in forms {
        match r {
            Err(StreamError::Identifier { error: e }) if faults.contains(&e) => {}
            Ok(t) if faults.is_empty() => same_doc(&t, &[prog::with_element(name)]).map_err(|e| format!("{form}: {e}"))?,
            Err(e) => return Err(format!("{form}: failed with {e:?}, expected {faults:?}")),
            Ok(t) => return Err(format!("{form}: gave {:?}, expected {faults:?}", t.to_string())),
        }
    }
    Ok(())
}

/// A built element is the transformed one.
fn building(name: &'static str, p: &Prog, rec: &mut Rec) -> Check {
    let doc = vec![prog::with_element(name)];
    let got = real::built(name, p);
    let w = want(&doc, p);
    if let Ok(t) = &got.0 {
        // the same by parsing and transforming
        let q = prog(&[Op::Select(Scope::DirectOnce, Sel::TagOwned(name), p.clone())]);
        let parsed = real::tmpl(&render(&doc))?;
        match real::transform(&parsed, &q).0 {
            Ok(u) => if u != *t { return Err(format!("gave {:?}, the parsed element gave {:?}", t.to_string(), u.to_string())); },
            Err(e) => return Err(format!("the parsed element failed with {e:?}")),
        }
    }
    judge(got, &w, rec)
}

pub fn c22(tier: Tier) -> Vec<Family> {
    let mut names: Vec<String> = VOID.iter().flat_map(|v| cases(v)).collect();
    for v in VOID.iter().chain(&RAW) {
        names.push(v.to_string());
        for c in ["x", "1", "-", "s", "r"] { names.push(format!("{v}{c}")); names.push(format!("{c}{v}")); }
        names.push(v[1..].into());
        names.push(v[..v.len() - 1].into());
        for i in 0..v.len() { for c in ["x", "R", "\u{212a}", "\u{17f}", "\u{130}"] { names.push(format!("{}{c}{}", &v[..i], &v[i + 1..])); } }
    }
    let one = chars();
    for a in &one { names.push(a.clone()); for b in ["a", "B", "1"] { names.push(format!("{a}{b}")); names.push(format!("{b}{a}")); names.push(format!("b{a}{b}")); } }
    if tier == Tier::Thorough { for a in &one { for b in &one { names.push(format!("{a}{b}")); names.push(format!("br{a}{b}")); } } }
    names.extend(sizes(70, 5000).into_iter().map(|n| "n".repeat(n)));
    names.extend(RAW.iter().flat_map(|r| cases(r)));
    names.sort();
    names.dedup();
    let n = names.len();
    let tags: Vec<S> = vec!["a", "br", "Br", "b", "script", "TITLE", "a-b"];
    let mut progs: Vec<Prog> = chains(&element_ops(), tier.pick(2, 3), true).into_iter().map(|c| prog(&c)).collect();
    progs.extend([prog(&[Op::Append(Content::Fail(Fault::Ident))]), prog(&[Op::PrependC(Content::Fail(Fault::StreamAfter(2)))]), prog(&[Op::Attr(AttrOp::SetId("i j"))]), prog(&[any("a b", &[])]), prog(&[Op::ApplyTemplateFail]), prog(&[Op::ApplyIf(false, prog(&[Op::Append(Content::Fail(Fault::File))]))])]);
    let per = 20;
    vec![
        split("names", format!("{n} names: all void element names in every letter case, names next to them, all characters in all places, long names"), n, 16, move |i, cx| {
            let name = &names[i];
            cx.case(|| format!("element {:?}", clip(name, 100)), |rec| construct(name, rec));
        }),
        split("characters", "all Unicode characters in a name", unicode_blocks(0x400), 1, |i, cx| {
            for c in unicode_block(i, 0x400) {
                if cx.stopped() { return; }
                for name in [c.to_string(), format!("b{c}")] { cx.case(|| format!("element {name:?}"), |rec| construct(&name, rec)); }
            }
        }),
        split("programs", format!("{} programs on built elements of {} names", progs.len(), tags.len()), (progs.len() + per - 1) / per, 1, move |j, cx| {
            for p in &progs[j * per..((j + 1) * per).min(progs.len())] { for t in &tags {
                if cx.stopped() { return; }
                cx.case(|| format!("with_transformed_element({t:?}, |h| h{})", prog::show_prog(p)), |rec| building(t, p, rec));
            } }
        }),
    ]
}
