//! Selectors and selections: C11 and C12.

use super::gen::*;
use super::progs::*;
use super::vocab::*;
use crate::engine::*;
use crate::model::*;
use crate::prog::{self, intern, prog, sel_matches, AttrOp, Content, Op, Parts, Prog, Scope, Sel, Val, S};
use crate::real;
use html5_fuser::event::Event;
use html5_fuser::select::{Class, Classes, Id, IntoSelector, Selector, Tag};
use html5_fuser::StreamError;
use std::rc::Rc;
use std::sync::Arc;

// --------------------------------------------------------------------------------------------- C11

fn attr_pool() -> Vec<(S, Option<S>)> {
    vec![("id", Some("x")), ("id", Some("X")), ("id", Some("y")), ("id", Some("x y")), ("id", Some("")), ("id", None), ("ID", Some("x")), ("Id", Some("xy")), ("id", Some(" x")),
        ("class", Some("x")), ("class", Some("x y")), ("class", Some("Y\tX")), ("CLASS", Some("y")), ("class", Some("xy")), ("class", Some("")), ("class", None),
        ("class", Some("  x\n xy ")), ("class", Some("x-y")), ("class", Some("y y")), ("class", Some("x,y")), ("data-id", Some("x")), ("classes", Some("x")), ("x", None), ("x", Some("y")), ("name", Some("x"))]
}

/// A selector in one of its forms, with its meaning.
struct Form { name: String, parts: Parts, make: Box<dyn Fn() -> Box<dyn Selector> + Send + Sync> }

fn form(name: impl Into<String>, parts: Parts, make: impl Fn() -> Box<dyn Selector> + Send + Sync + 'static) -> Form { Form { name: name.into(), parts, make: Box::new(make) } }

/// Both ways of making a selector from each typed form, shared and borrowed.
fn typed<T: Selector + Clone + 'static>(v: &mut Vec<Form>, name: String, parts: Parts, make: impl Fn() -> T + Send + Sync + Clone + 'static) {
    let m = make.clone();
    v.push(form(name.clone(), parts.clone(), move || Box::new(m())));
    let m = make.clone();
    v.push(form(format!("Rc of {name}"), parts.clone(), move || Box::new(Rc::new(m()))));
    let m = make.clone();
    v.push(form(format!("reference to {name}"), parts.clone(), move || { let l: &'static T = leak_one(m()); Box::new(l) }));
    let m = make.clone();
    v.push(form(format!("into_selector of {name}"), parts.clone(), move || Box::new(m().into_selector().expect("selector"))));
    v.push(form(format!("result of {name}"), parts, move || Box::new(Ok::<T, StreamError>(make()).into_selector().expect("selector"))));
}
fn leak_one<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }

fn forms(max_classes: usize) -> Vec<Form> {
    let mut v = Vec::new();
    let tags = [None, Some("a"), Some("A"), Some("ab"), Some("b")];
    let ids = [None, Some("x"), Some("X"), Some("y"), Some("xy")];
    let names = ["x", "Y", "y", "xy", "x-y"];
    let mut lists: Vec<Vec<S>> = vec![vec![]];
    for len in 1..=max_classes { sequences(names.len(), len, &[], &mut |q| lists.push(q.iter().map(|i| names[*i]).collect())); }
    for t in tags { for i in ids { for c in &lists {
        if t.is_none() && i.is_none() && c.is_empty() { continue; }
        let s = format!("{}{}{}", t.unwrap_or(""), i.map_or(String::new(), |i| format!("#{i}")), c.iter().map(|c| format!(".{c}")).collect::<String>());
        let st = intern(&s);
        v.push(form(format!("{st:?}"), Parts { tag: t.map(|t| t.into()), id: i.map(|i| i.into()), classes: c.iter().map(|c| c.to_string()).collect(), ..Default::default() },
            move || Box::new(st.into_selector().expect("static selector"))));
    } } }
    for n in ["a", "A", "ab", "AB", "b", "x"] { typed(&mut v, format!("Tag {n:?}"), Parts { tag: Some(n.into()), ..Default::default() }, move || n.parse::<Tag>().expect("tag")); }
    for n in ["x", "X", "y", "xy", "a"] { typed(&mut v, format!("Id {n:?}"), Parts { id: Some(n.into()), ..Default::default() }, move || n.parse::<Id>().expect("id")); }
    for n in ["x", "X", "y", "xy", "X-y", "a", "x.y", "#x"] { typed(&mut v, format!("Class {n:?}"), Parts { classes: vec![n.into()], ..Default::default() }, move || n.parse::<Class>().expect("class")); }
    for c in lists.iter().filter(|c| !c.is_empty()) {
        let c2 = c.clone();
        typed(&mut v, format!("Classes {c:?}"), Parts { classes: c.iter().map(|c| c.to_string()).collect(), ..Default::default() },
            move || Classes::from_str_iterator(c2.iter().map(|c| *c)).expect("classes"));
    }
    v
}

fn elements(max_attrs: usize) -> Vec<Elem> {
    let pool = attr_pool();
    let mut v = Vec::new();
    for tag in ["a", "A", "ab", "br", "b"] {
        for kind in [Kind::Normal, Kind::SelfClosed] {
            let kind = if tag == "br" { if kind == Kind::Normal { Kind::Void } else { continue } } else { kind };
            for len in 0..=max_attrs {
                if len == max_attrs && len >= 3 && (tag != "a" || kind != Kind::Normal) { continue; }
                sequences(pool.len(), len, &[], &mut |q| {
                    let attrs: Vec<(&str, Option<&str>)> = q.iter().map(|i| pool[*i]).collect();
                    let Node::Elem(e) = elem(tag, &attrs, kind, vec![]) else { unreachable!() };
                    v.push(e);
                });
            }
        }
    }
    v
}

fn matches_eq(f: &Form, s: &dyn Selector, ev: &Event, e: Option<&Elem>) -> Check {
    let want = e.map_or(false, |e| sel_matches(&f.parts, e));
    let got = s.matches(ev);
    if got != want { Err(format!("{} {} {ev}", f.name, if got { "matches" } else { "does not match" })) } else { Ok(()) }
}

/// Elements a transform touches.
fn touched(name: &str, docs: Vec<Vec<Node>>, tier: Tier) -> Family {
    let hit = prog(&[Op::Attr(AttrOp::SetEmpty("hit"))]);
    let mut progs = Vec::new();
    let mut sels: Vec<Sel> = Vec::new();
    for f in ["a", "A", "ab", "#x", "#X", "#y", ".x", ".Y", ".xy", ".x.y", ".Y.X", "a#x", "a.x", "A#X.Y.x", "#x.x", "#xy", "b", "br.x", ".x-y", "#x.y.x"] { sels.push(Sel::Str(f)); }
    for n in ["a", "AB", "x"] { sels.extend([Sel::Tag(n), Sel::TagOwned(n), Sel::TagRc(n), Sel::TagRef(n), Sel::Id(n), Sel::IdOwned(n), Sel::Class(n), Sel::ClassRc(n)]); }
    sels.extend([Sel::Classes(vec!["x", "Y"]), Sel::ClassesOwned(vec!["y", "X"]), Sel::Classes(vec!["xy"])]);
    for s in sels {
        for scope in [Scope::Direct, Scope::Once, Scope::Any] { progs.push(prog(&[Op::Select(scope, s.clone(), hit.clone())])); }
        if tier == Tier::Thorough { for scope in Scope::SUB { progs.push(prog(&[any("r", &[Op::Select(scope, s.clone(), hit.clone())])])); } }
    }
    product(name, "one attribute marking the matched elements", docs, progs)
}

pub fn c11(tier: Tier) -> Vec<Family> {
    let els = Arc::new(elements(tier.pick(2, 3)));
    let fs = Arc::new(forms(tier.pick(2, 3)));
    let (e1, f1) = (els.clone(), fs.clone());
    let mut fam = vec![
        split("matching", format!("{} elements (tags, kinds, lists of at most {} attributes from a pool of {}) against {} selectors (static, typed, shared, borrowed, results)",
            els.len(), tier.pick(2, 3), attr_pool().len(), fs.len()), els.len(), 40, move |i, cx| {
            thread_local! { static MADE: std::cell::OnceCell<Vec<Box<dyn Selector>>> = const { std::cell::OnceCell::new() }; }
            let e = &e1[i];
            let src = render(&[Node::Elem(e.clone())]);
            cx.case(|| format!("element {src}, {} selectors", f1.len()), |rec| {
                let evs = real::pull(html5_fuser::event::IntoStream::into_stream(&real::tmpl(&src)?));
                MADE.with(|m| {
                    let made = m.get_or_init(|| f1.iter().map(|f| (f.make)()).collect());
                    for (f, s) in f1.iter().zip(made) {
                        rec.step(1);
                        matches_eq(f, &**s, &evs[0], Some(e))?;
                        if let Some(c) = evs.get(1) { matches_eq(f, &**s, c, None)?; }
                    }
                    rec.state(&src);
                    Ok(())
                })
            });
        }),
    ];
    let f2 = fs.clone();
    fam.push(Family::new("other events", "all other kinds of events with element-like content against all selectors", 1, move |_, cx| {
        let src = "<!doctype html><!-- <a id=\"x\" class=\"x y\"> -->a.x#x x<a></a><title>a</title><script><a id=\"x\" class=\"x y\"></script></b >".replace("</b >", "");
        cx.case(|| src.clone(), |rec| {
            let mut evs: Vec<Event> = real::pull(html5_fuser::event::IntoStream::into_stream(&real::tmpl(&src)?));
            evs.push(real::noop_event());
            for f in f2.iter() {
                let s = (f.make)();
                for ev in evs.iter().filter(|e| !"OSV".contains(kind_of(e.description()))) {
                    rec.step(1);
                    matches_eq(f, &*s, ev, None)?;
                }
            }
            Ok(())
        });
    }));
    // the static form, character by character
    let pool: Arc<Vec<Elem>> = Arc::new(elements(1));
    fam.push(strings("static selectors", "", vec!["a", "b", "#", ".", "X", "x", "y", "-"], tier.pick(5, 6), "", vec![""], move |s, cx| {
        let st = intern(s);
        let sel = Sel::Str(st);
        cx.case(|| format!("selector {s:?}"), |rec| {
            let parts = sel.parts();
            rec.state(&format!("{parts:?}"));
            match st.into_selector() {
                Err(e) => {
                    rec.step(1);
                    let e: StreamError = e.into();
                    if !sel.faulty() { return Err(format!("rejected: {e:?}")); }
                    if real::is_failure(&e, &prog::Failure::Sel(sel.clone())) { Ok(()) } else { Err(format!("wrong error {e:?}")) }
                }
                Ok(r) => {
                    if sel.faulty() { return Err("accepted".into()); }
                    thread_local! { static EV: std::cell::OnceCell<Vec<Event>> = const { std::cell::OnceCell::new() }; }
                    EV.with(|evs| {
                        let evs = evs.get_or_init(|| {
                            let src: String = pool.iter().map(|e| render(&[Node::Elem(e.clone())])).collect();
                            real::pull(html5_fuser::event::IntoStream::into_stream(&real::parse(&src).expect("elements"))).into_iter()
                                .filter(|e| "OSV".contains(kind_of(e.description()))).collect()
                        });
                        for (ev, e) in evs.iter().zip(pool.iter()) {
                            rec.step(1);
                            if r.matches(ev) != sel_matches(&parts, e) { return Err(format!("{} {ev}", if r.matches(ev) { "matches" } else { "does not match" })); }
                        }
                        Ok(())
                    })
                }
            }
        });
    }));
    // values character by character: what separates class words, what an id equals
    fam.push(strings("class and id values", "", vec!["x", "y", "X", " ", "\n", "\t", "-", ".", "\u{e9}", "&amp;", "\r", "\u{c}"], tier.pick(4, 5), "", vec![""], move |v, cx| {
        cx.case(|| format!("value {v:?}"), |rec| {
            let sels: [S; 9] = [".x", ".X", ".y", ".xy", ".x.y", "#x", "#xy", "#x-y", ".x-y"];
            thread_local! { static M: Vec<Box<dyn Selector>> = [".x", ".X", ".y", ".xy", ".x.y", "#x", "#xy", "#x-y", ".x-y"].iter()
                .map(|s| Box::new(s.into_selector().expect("selector")) as Box<dyn Selector>).collect(); }
            let Node::Elem(e) = elem("p", &[("class", Some(v)), ("id", Some(v))], Kind::SelfClosed, vec![]) else { unreachable!() };
            let src = render(&[Node::Elem(e.clone())]);
            let evs = real::pull(html5_fuser::event::IntoStream::into_stream(&real::tmpl(&src)?));
            rec.state(v);
            M.with(|m| {
                for (s, r) in sels.iter().zip(m) {
                    rec.step(1);
                    let want = sel_matches(&prog::static_parts(s), &e);
                    if r.matches(&evs[0]) != want { return Err(format!("{s} {} {src}", if want { "does not match" } else { "matches" })); }
                }
                Ok(())
            })
        });
    }));
    let sz = sizes(tier.pick(40, 300), tier.pick(66_000, 70_000));
    let sz2 = sz.clone();
    fam.push(split("sizes", format!("class lists, attribute lists and names of {} sizes up to {}, the match first, in the middle, last or missing by one character", sz.len(), sz.last().unwrap()), sz.len(), 1, move |i, cx| {
        let n = sz2[i];
        let check = |what: &str, e: Node, s: &str, cx: &mut Cx| {
            cx.case(|| format!("{what}, size {n}"), |rec| {
                rec.step(1);
                let Node::Elem(ref el) = e else { unreachable!() };
                let src = render(&[e.clone()]);
                let evs = real::pull(html5_fuser::event::IntoStream::into_stream(&real::tmpl(&src)?));
                let st: S = Box::leak(s.to_string().into_boxed_str());
                let want = sel_matches(&prog::static_parts(s), el);
                let r = st.into_selector().map_err(|e| format!("{e:?}"))?;
                let got = r.matches(&evs[0]);
                drop(r);
                unsafe { drop(Box::from_raw(st as *const str as *mut str)) }
                if got != want { return Err(format!("{} expected", if want { "match" } else { "no match" })); }
                rec.outcome(&format!("{want}"));
                Ok(())
            });
        };
        let attr = |name: &str, v: String| elem("p", &[(name, Some(&v))], Kind::SelfClosed, vec![]);
        let words: Vec<String> = (0..n).map(|k| format!("c{k}")).collect();
        let list = words.join(" ");
        for k in [0, n / 2, n.saturating_sub(1), n] { check("word of a class list", attr("class", list.clone()), &format!(".c{k}"), cx); }
        check("word before a class list", attr("class", format!("hit {list}")), ".hit", cx);
        check("word after a class list", attr("class", format!("{list} hit")), ".hit", cx);
        if n > 0 && n <= 5000 {
            let rev: Vec<String> = words.iter().rev().map(|w| format!(".{w}")).collect();
            check("all words of a class list", attr("class", list.clone()), &rev.concat(), cx);
            check("all words but the last", attr("class", words[..n - 1].join(" ")), &rev.concat(), cx);
            check("all words but the first", attr("class", words[1..].join(" ")), &rev.concat(), cx);
        }
        let long = "n".repeat(n + 1);
        for (w, v) in [("same", long.clone()), ("other case", long.to_uppercase()), ("one more", format!("{long}n")), ("one less", "n".repeat(n)), ("last differs", format!("{}m", "n".repeat(n))), ("first differs", format!("m{}", "n".repeat(n)))] {
            check(&format!("long id, {w}"), attr("id", v.clone()), &format!("#{long}"), cx);
            check(&format!("long class, {w}"), attr("class", v.clone()), &format!(".{long}"), cx);
            if !v.is_empty() { check(&format!("long tag, {w}"), elem(&v, &[], Kind::SelfClosed, vec![]), &long, cx); }
        }
        let mut many: Vec<(String, Option<String>)> = (0..n).map(|k| (format!("a{k}"), Some("x".into()))).collect();
        many.push(("id".into(), Some("x".into())));
        many.push(("class".into(), Some("y x".into())));
        let e = Node::Elem(Elem { tag: "p".into(), attrs: many, kind: Kind::SelfClosed, kids: vec![], close: "p".into() });
        check("after many attributes", e.clone(), "p#x.y.x", cx);
        check("after many attributes", e, "#y", cx);
        let ids = Node::Elem(Elem { tag: "p".into(), attrs: (0..n + 1).map(|k| (if k % 2 == 0 { "id" } else { "class" }.to_string(), Some(format!("i{k}")))).collect(), kind: Kind::SelfClosed, kids: vec![], close: "p".into() });
        for k in [0, 1, n.saturating_sub(1), n] { check("one of many ids", ids.clone(), &format!("#i{k}"), cx); check("one of many class attributes", ids.clone(), &format!(".i{k}"), cx); }
    }));
    // words that mean something, as names and values
    fam.push(split("standard names", format!("each of {} element names against the tag selector (static and typed) of each other, in both cases", ELEMENTS.len()), ELEMENTS.len(), 1, move |i, cx| {
        for q in [ELEMENTS[i].to_string(), ELEMENTS[i].to_uppercase()] {
            cx.case(|| format!("selector {q:?}"), |rec| {
                let q = intern(&q);
                let (st, ty) = (q.into_selector().map_err(|e| format!("{e:?}"))?, q.parse::<html5_fuser::select::Tag>().map_err(|e| format!("{e:?}"))?);
                let parts = prog::static_parts(q);
                for n in ELEMENTS { for src in [format!("<{n} id=\"{n}\" class=\"{n}\"/>"), format!("<x id=\"{n}\" class=\"{n}\" {n}=\"{n}\"/>"), format!("<{n}>")] {
                    let src = if src.ends_with("/>") || is_void(n) { src } else { format!("{src}</{n}>") };
                    let doc = parse_doc(&src);
                    let Node::Elem(e) = &doc[0] else { unreachable!() };
                    let evs = real::pull(html5_fuser::event::IntoStream::into_stream(&real::tmpl(&src)?));
                    let want = sel_matches(&parts, e);
                    rec.step(2);
                    rec.state(&format!("{want} {src}"));
                    for (w, m) in [("static", st.matches(&evs[0])), ("typed", ty.clone().into_selector().expect("selector").matches(&evs[0]))] {
                        if m != want { return Err(format!("{w} selector {} {src}", if m { "matches" } else { "does not match" })); }
                    }
                } }
                Ok(())
            });
        }
    }));
    let vals: Vec<&'static str> = WORDS.iter().chain(VALUES.iter()).copied().filter(|w| !w.contains('"')).collect();
    fam.push(split("words as values", format!("{} words as id and class values, with a class before or after, against selectors by the same word and by others", vals.len()), vals.len(), 1, move |i, cx| {
        let w = vals[i];
        cx.case(|| format!("value {w:?}"), |rec| {
            let named = crate::refparse::name_faults(w).is_empty() && !w.contains(['.', '#']);
            let mut sels: Vec<String> = [".x", "#x", ".x.y", "#id", ".a", "#a", ".amp", "#true", ".b", "#0"].iter().map(|s| s.to_string()).collect();
            if named { sels.extend([format!("#{w}"), format!(".{w}"), format!(".x.{w}"), format!("p#{w}.{w}")]); }
            for (a, b) in [(w.to_string(), w.to_string()), (format!("x {w}"), format!("{w}x")), (format!("{w} x y"), format!("x{w}")), (format!("x{w}y"), format!(" {w}")), (format!("y x\n{w}"), format!("{w} "))] {
                let Node::Elem(e) = elem("p", &[("class", Some(&a)), ("id", Some(&b))], Kind::SelfClosed, vec![]) else { unreachable!() };
                let src = render(&[Node::Elem(e.clone())]);
                let evs = real::pull(html5_fuser::event::IntoStream::into_stream(&real::tmpl(&src)?));
                for q in &sels {
                    rec.step(1);
                    let want = sel_matches(&prog::static_parts(q), &e);
                    let m = intern(q).into_selector().map_err(|e| format!("{q}: {e:?}"))?.matches(&evs[0]);
                    if m != want { return Err(format!("{q} {} {src}", if m { "matches" } else { "does not match" })); }
                }
                rec.state(&src);
            }
            Ok(())
        });
    }));
    // through transforms: many elements in a document
    let all = elements(tier.pick(1, 2));
    let mut dv: Vec<Vec<Node>> = all.chunks(30).map(|c| {
        let mut v = vec![Node::Text("a #x ".into())];
        for e in c { v.push(Node::Elem(e.clone())); v.push(Node::Comment("a".into())); }
        vec![Node::Elem(Elem { tag: "r".into(), attrs: vec![], kind: Kind::Normal, kids: v.clone(), close: "r".into() })].into_iter().chain(v).collect()
    }).collect();
    dv.extend(docs(&["", "a", "<!-- a --><title>a</title>"]));
    fam.push(touched("touched elements", dv, tier));
    fam
}

// --------------------------------------------------------------------------------------------- C12

pub fn labels() -> Vec<Label> {
    vec![Label::Branch(elem("a", &[], Kind::Normal, vec![])), Label::Branch(elem("b", &[("class", Some("x"))], Kind::Normal, vec![])),
        Label::Leaf(elem("a", &[("class", Some("x"))], Kind::SelfClosed, vec![])), Label::Leaf(void("br")), Label::Leaf(text("t"))]
}
/// Like these, with a comment, upper case and raw text instead of the second kind of branch.
pub fn labels2() -> Vec<Label> {
    let Node::Elem(mut u) = elem("A", &[("id", Some("i"))], Kind::Normal, vec![]) else { unreachable!() };
    u.close = "a".into();
    vec![Label::Branch(elem("a", &[], Kind::Normal, vec![])), Label::Branch(Node::Elem(u)), Label::Leaf(el("title", vec![Node::Raw("<a>".into())])),
        Label::Leaf(Node::Comment("<a>".into())), Label::Leaf(text("t"))]
}
pub fn docs_upto(n: usize, l: &[Label]) -> Vec<Vec<Node>> { forests_upto(n, l).into_iter().filter(|d| parsable(d)).collect() }
fn in_root(d: Vec<Vec<Node>>) -> Vec<Vec<Node>> { d.into_iter().map(|k| vec![el("r", k)]).collect() }

/// Inner programs of a selection; all keep a record of the call.
fn inner() -> Vec<Vec<Op>> {
    let m = || Op::Mark(1);
    vec![
        vec![m()],
        vec![m(), Op::Attr(AttrOp::AddEmpty("hit"))],
        vec![m(), Op::Remove],
        vec![m(), Op::Replace(tmpl("<a><b class=\"x\"></b></a>"))],
        vec![m(), Op::Prepend(tmpl("<a>p</a>")), Op::Append(tmpl("<b class=\"x\"/>"))],
        vec![m(), Op::PrependC(tmpl("<a></a>")), Op::AppendC(tmpl("<b class=\"x\"><a></a></b>"))],
        vec![m(), Op::ReplaceC(tmpl("<a>c</a>"))],
        vec![m(), Op::RemoveC],
        vec![m(), Op::Repeat(prog::Items::Range(0, 2), prog(&[Op::Mark(2)]))],
    ]
}
const SELS: [S; 4] = ["a", ".x", "br", "a.x"];

fn scoped(sels: &[S], inner: &[Vec<Op>], sub: bool) -> Vec<Prog> {
    let mut v = Vec::new();
    for s in sels { for i in inner {
        if sub { for sc in Scope::SUB { v.push(prog(&[sel(Scope::Direct, "r", &[sel(sc, s, i)])])); } }
        else { for sc in Scope::STREAM { v.push(prog(&[sel(sc, s, i)])); } }
    } }
    v
}

/// Selections within and after selections.
fn nested(tier: Tier) -> Vec<Prog> {
    let mut v = Vec::new();
    let hit = |n: u32| vec![Op::Mark(n), Op::Attr(AttrOp::AddEmpty(intern(&format!("h{n}"))))];
    let ss: &[S] = tier.pick(&["a", ".x"], &["a", ".x", "b", "br"]);
    for s1 in Scope::ALL { for a in ss { for s2 in Scope::ALL { for b in ss {
        // one after the other
        if s1.sub() == s2.sub() {
            let p = vec![sel(s1, a, &hit(1)), sel(s2, b, &hit(2))];
            if s1.sub() { v.push(prog(&[sel(Scope::Any, "r", &p)])); } else { v.push(prog(&p)); }
            let p = vec![sel(s1, a, &[Op::Mark(1), Op::Replace(tmpl("<b class=\"x\"><a/></b>"))]), sel(s2, b, &hit(2))];
            if s1.sub() { v.push(prog(&[sel(Scope::Any, "r", &p)])); } else { v.push(prog(&p)); }
        }
        // one within the other
        let mut inner = hit(1);
        inner.push(sel(s2, b, &hit(2)));
        if s1.sub() { v.push(prog(&[sel(Scope::Any, "r", &[sel(s1, a, &inner)])])); } else { v.push(prog(&[sel(s1, a, &inner)])); }
        // within contents
        let p = vec![sel(s2, b, &hit(2))];
        if !s2.sub() {
            let inner = vec![Op::SubContents(prog(&p)), Op::Mark(1)];
            if s1.sub() { v.push(prog(&[sel(Scope::Any, "r", &[sel(s1, a, &inner)])])); } else { v.push(prog(&[sel(s1, a, &inner)])); }
        }
    } } } }
    for s in Scope::STREAM { for q in Scope::STREAM {
        // element streams selecting on themselves, and on what operations made of them
        for p in [
            vec![sel(s, "a", &[sel(q, "a", &hit(1))])],
            vec![sel(s, "a", &[Op::Append(tmpl("<a/><b class=\"x\"/>")), sel(q, "a", &hit(1))])],
            vec![sel(s, "a", &[Op::Prepend(tmpl("<b><a>1</a></b>")), sel(q, "a", &hit(1)), sel(q, "b", &hit(2))])],
            vec![sel(s, "a", &[Op::Repeat(prog::Items::Range(0, 2), prog(&[sel(q, "a", &hit(1))]))])],
            vec![sel(s, "a", &[Op::RepeatC(prog::Items::Range(0, 2), prog(&[sel(q, "a", &hit(1))]))])],
            vec![sel(s, "a", &[sel(q, ".x", &hit(1)), Op::Remove])],
            vec![Op::Prepend(tmpl("<a>0</a>")), sel(s, "a", &hit(1)), Op::Append(tmpl("<a>9</a>")), sel(q, "a", &hit(2))],
        ] { v.push(prog(&p)); }
    } }
    v
}

/// Deep and wide documents.
fn big(tier: Tier) -> Family {
    let mut sz = sizes(tier.pick(24, 300), tier.pick(66_000, 140_000));
    if tier == Tier::Quick { sz.retain(|n| *n < 1100 || (65_535..=65_537).contains(n)); }
    sz.reverse();
    const N: usize = 9;
    split("sizes", format!("{N} shapes (depth of equal and mixed names, siblings, depth before and after a match, deep contents of a match) at each of {} sizes up to {}, all scopes", sz.len(), sz.first().unwrap()),
        sz.len() * N, 1, move |i, cx| {
        let (n, k) = (sz[i / N], i % N);
        let r = |s: &str| s.repeat(n);
        let src = match k {
            0 => format!("{}<q/>{}<q/><a>1</a>", r("<a>"), r("</a>")),
            1 => format!("{}<q>1</q>{}<q>2</q>", r("<b>"), r("</b>")),
            2 => format!("<q>{}{}</q><q>1</q>", r("<q>"), r("</q>")),
            3 => format!("<q>{}{}<b></b></q><q>1</q>", r("<b>"), r("</b>")),
            4 => format!("{}<q>2</q>", r("<q>1</q>")),
            5 => format!("{}<q>2</q>", r("<b><q/></b>")),
            6 => format!("<b>{}</b><q/>", r("<q></q><br>")),
            7 => format!("{}<q>1</q>", r("<br>t<a/>")),
            _ => format!("{}<q>1</q>{}<q>2</q>", r("<b><q>"), r("</q></b>")),
        };
        let subs = format!("<r>{src}</r><q/>");
        for sub in [false, true] {
            let s = if sub { &subs } else { &src };
            // the reference parser and the model use recursion: the stack of the worker allows for it
            let doc = parse_doc(s);
            let Some(t) = cx.setup(|| format!("shape {k} of size {n}"), || real::tmpl(s)) else { return };
            for scope in if sub { Scope::SUB } else { Scope::STREAM } {
                for inner in [vec![Op::Attr(AttrOp::AddEmpty("hit"))], vec![Op::Replace(Content::Str("z"))], vec![Op::AppendC(Content::Str("z"))]].into_iter().take(if n > 5000 { 1 } else { 3 }) {
                    let p = if sub { prog(&[sel(Scope::Direct, "r", &[sel(scope, "q", &inner)])]) } else { prog(&[sel(scope, "q", &inner)]) };
                    cx.case(|| format!("shape {k} of size {n} through html{}", prog::show_prog(&p)), |rec| agree(&t, &doc, &p, rec));
                }
            }
        }
    })
}

pub fn c12(tier: Tier) -> Vec<Family> {
    let n = tier.pick(5, 6);
    let (l1, l2) = (labels(), labels2());
    let s2: [S; 2] = ["a", "#i"];
    let few: Vec<Vec<Op>> = inner().into_iter().take(4).collect();
    vec![
        product("stream scopes", format!("documents of at most {n} nodes: elements with contents, self-closed, void, text"), docs_upto(n, &l1), scoped(&SELS, &inner(), false)),
        product("contents scopes", format!("elements with at most {} nodes inside", n - 1), in_root(docs_upto(n - 1, &l1)), scoped(&SELS, &inner(), true)),
        product("stream scopes, other constructs", format!("documents of at most {n} nodes: elements, names in different case, raw text elements, comments, text"), docs_upto(n, &l2), scoped(&s2, &few, false)),
        product("contents scopes, other constructs", "the same inside of an element", in_root(docs_upto(n - 1, &l2)), scoped(&s2, &few, true)),
        product("nested selections", "pairs of selections after and within each other, all scopes", docs_upto(tier.pick(3, 4), &l1).into_iter().chain(in_root(docs_upto(tier.pick(3, 4), &l1))).collect(), nested(tier)),
        product("element names", format!("selections on documents with elements of each of {} special names around, in and next to others", special_names().len()), all_named_docs(true), {
            let mut v = scoped(&["a", "b"], &few, false);
            let any_ = vec![vec![Op::Mark(1)], vec![Op::Mark(1), Op::ReplaceC(tmpl("<a>c</a>"))]];
            let all = Sel::Kinds("OSV");
            for i in &any_ { for sc in Scope::STREAM { for sub in Scope::SUB {
                v.push(prog(&[Op::Select(sc, all.clone(), prog(i))]));
                v.push(prog(&[Op::Select(sc, all.clone(), prog(&[sel(sub, "a", i)]))]));
                v.push(prog(&[sel(sc, "a", &[Op::Select(sub, all.clone(), prog(i))])]));
            } } }
            v
        }),
        big(tier),
        pulled(tier),
        sized_by(tier.pick(20, 140), tier.pick(600, 10_000), scoped(&SELS, &few, false), Arc::new(agree)),
        product("selectors of a user", "a user's own selectors, which look at the written tag or the kind of event, in all scopes", docs_upto(tier.pick(3, 4), &l1).into_iter().chain(docs_upto(3, &l2)).collect(), own(false)),
        product("selectors of a user, contents", "the same in the contents of elements", in_root(docs_upto(3, &l1).into_iter().chain(docs_upto(tier.pick(2, 3), &l2)).collect()), own(true)),
    ]
}

/// Names that mean something in HTML.
pub const NAMES: &[&str] = &["html5", "A", "Br"];
pub fn special_names() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = VOID.iter().chain(RAW.iter()).chain(ELEMENTS.iter()).chain(NAMES.iter()).copied().filter(|n| *n != "a" && *n != "b").collect();
    v.sort();
    v.dedup();
    v
}
/// Documents with an element of the name around, in, before and after others.
pub fn named_docs(n: &str) -> Vec<Vec<Node>> {
    let k = vec![el("a", vec![text("1")]), elem("a", &[], Kind::SelfClosed, vec![])];
    let e = |kids: Vec<Node>| if is_void(n) { void(n) } else if RAW.iter().any(|r| r.eq_ignore_ascii_case(n)) { el(n, if kids.is_empty() { vec![] } else { vec![Node::Raw("<a>&</b>".into())] }) } else { el(n, kids) };
    let s = || if is_void(n) { void(n) } else { elem(n, &[], Kind::SelfClosed, vec![]) };
    vec![vec![e(k.clone())], vec![e(vec![])], vec![s(), k[0].clone()], vec![e(k.clone()), k[0].clone(), s()], vec![el("a", vec![e(k.clone()), k[0].clone()])], vec![e(vec![e(k.clone()), text("t")]), k[1].clone()],
        vec![el("a", vec![text("t"), s(), e(vec![])]), e(vec![text("x")])], vec![el("r", vec![e(vec![el("b", k.clone())]), k[0].clone()])]]
}
/// All of them, also in other cases.
pub fn all_named_docs(also: bool) -> Vec<Vec<Node>> {
    let mut v = Vec::new();
    for n in special_names() {
        v.extend(named_docs(n));
        if also { v.extend(named_docs(&n.to_uppercase())); }
    }
    v
}

fn own(sub: bool) -> Vec<Prog> {
    let mut sels: Vec<Sel> = ["", "a", "\"x\"", "class", "<b", "/>", "<A id=\"i\"", "q"].iter().map(|s| Sel::Has(s)).collect();
    sels.extend(["O", "S", "V", "SV", "OSV", "X", "T", "C", "R", "D", "OX", "ST", "XVT", "OSVTCRDX", "N"].iter().map(|s| Sel::Kinds(s)));
    let mut v = Vec::new();
    for s in sels { for i in inner().into_iter().take(5) { for sc in if sub { Scope::SUB } else { Scope::STREAM } {
        let o = Op::Select(sc, s.clone(), prog(&i));
        if sub { v.push(prog(&[sel(Scope::Direct, "r", &[o])])); }
        else { v.push(prog(&[o.clone()])); v.push(prog(&[Op::Append(tmpl("<a/>t<br>")), o])); }
    } } }
    v
}

/// The once forms pass on what follows the first match untouched, from streams of any kind.
fn pulled(tier: Tier) -> Family {
    let l = labels();
    let ds = docs_upto(tier.pick(3, 4), &l);
    let mut progs = Vec::new();
    let hit = vec![Op::Mark(1), Op::Attr(AttrOp::SetV("hit", Val::Item))];
    for s in Scope::STREAM {
        for pre in [vec![], vec![Op::Boxed], vec![Op::Append(tmpl("<a>z</a><a/>"))], vec![Op::Prepend(tmpl("<a/>"))], vec![Op::Repeat(prog::Items::Range(0, 3), prog(&[]))],
            vec![Op::Repeat(prog::Items::Range(0, 2), prog(&[sel(s, ".x", &[Op::Mark(2), Op::Attr(AttrOp::SetV("hit", Val::Item))])]))], vec![Op::ApplyTemplate(prog(&[]))], vec![Op::Replace(Content::Stream("<a>1</a>t<a/>".into(), 0b1010101))],
            vec![any("a", &[Op::Replace(tmpl("<a>1</a><a>2</a>"))])], vec![any("a", &[Op::Remove])], vec![any("a", &[Op::Replace(Content::Str(""))])], vec![Op::Replace(Content::OkStr("n")), Op::Append(tmpl("<a/>"))]] {
            for q in ["a", "br"] {
                let mut p = pre.clone();
                p.push(sel(s, q, &hit));
                progs.push(prog(&p));
            }
        }
    }
    product("selections on produced streams", "selections after every kind of operation that produces elements", ds, progs)
}
