//! Running programs against the model.

use crate::engine::*;
use crate::model::*;
use crate::prog::{self, prog, AttrOp, Content, Env, Failure, Op, Prog, Scope, Sel, Val, S};
use crate::real;
use html5_fuser::Template;
use std::sync::Arc;

pub type Docs = Arc<Vec<Vec<Node>>>;
pub type Progs = Arc<Vec<Prog>>;

pub fn want(doc: &[Node], p: &Prog) -> (Result<Vec<Node>, Failure>, Env) {
    let mut env = Env::new();
    let r = prog::run(p, doc.to_vec(), &mut env);
    (r, env)
}

fn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }

/// The builders were called as they should have been.
pub fn same_log(got: &prog::Log, want: &prog::Log) -> Check {
    if got.by_mark() != want.by_mark() {
        return Err(format!("builder calls (mark, item) {:?}, expected {:?}", got.by_mark(), want.by_mark()));
    }
    let (g, w) = (sorted(got.given.clone()), sorted(want.given.clone()));
    if g != w { return Err(format!("template builders were given {g:?}, expected {w:?}")); }
    Ok(())
}

/// The real result is what the model says.
pub fn judge(got: (Result<Template, html5_fuser::StreamError>, prog::Log), want: &(Result<Vec<Node>, Failure>, Env), rec: &mut Rec) -> Check {
    rec.step(want.1.steps + 1);
    match (got.0, &want.0) {
        (Ok(t), Ok(nodes)) => {
            let c = render(nodes);
            if c.len() < 400 { rec.state(&c); } else { rec.outcome(&c); }
            same_doc(&t, nodes)?;
            same_log(&got.1, &want.1.log)
        }
        (Err(e), Ok(nodes)) => Err(format!("failed with {e:?}, expected {:?}", clip(&render(nodes), 400))),
        (Ok(t), Err(f)) => Err(format!("gave {:?}, expected failure by {f:?}", clip(&t.to_string(), 400))),
        (Err(e), Err(f)) => {
            rec.outcome(&format!("{f:?}"));
            if real::is_failure(&e, f) { Ok(()) } else { Err(format!("failed with {e:?}, expected failure by {f:?}")) }
        }
    }
}

pub fn agree(t: &Template, doc: &[Node], p: &Prog, rec: &mut Rec) -> Check {
    judge(real::transform(t, p), &want(doc, p), rec)
}

pub fn show_case(doc: &[Node], p: &[Op]) -> String { format!("{:?} through html{}", clip(&render(doc), 400), prog::show_prog(p)) }

pub type Judge = Arc<dyn Fn(&Template, &[Node], &Prog, &mut Rec) -> Check + Send + Sync>;

/// Every program on every document.
pub fn product_by(name: &str, space: impl Into<String>, docs: Vec<Vec<Node>>, progs: Vec<Prog>, f: Judge) -> Family {
    for p in &progs { assert!(prog::well_typed(p, false), "ill-typed: {}", prog::show_prog(p)); }
    let per = (40_000 / progs.len().max(1)).clamp(1, 200).min(docs.len() / 64 + 1);
    let space = format!("{} [{} documents x {} programs]", space.into(), docs.len(), progs.len());
    split(name, space, docs.len(), per, move |i, cx| {
        let doc = &docs[i];
        let src = render(doc);
        let Some(t) = cx.setup(|| format!("source {src:?}"), || real::tmpl(&src)) else { return };
        for p in &progs {
            if cx.stopped() { return; }
            cx.case(|| show_case(doc, p), |rec| f(&t, doc, p, rec));
        }
    })
}
pub fn product(name: &str, space: impl Into<String>, docs: Vec<Vec<Node>>, progs: Vec<Prog>) -> Family {
    product_by(name, space, docs, progs, Arc::new(agree))
}

/// Few documents and many programs.
pub fn programs_by(name: &str, space: impl Into<String>, docs: Vec<Vec<Node>>, progs: Vec<Prog>, f: Judge) -> Family {
    for p in &progs { assert!(prog::well_typed(p, false), "ill-typed: {}", prog::show_prog(p)); }
    let per = (20_000 / docs.len().max(1)).max(1).min(progs.len() / 64 + 1);
    let space = format!("{} [{} documents x {} programs]", space.into(), docs.len(), progs.len());
    let jobs = (progs.len() + per - 1) / per;
    Family::new(name, space, jobs, move |j, cx| {
        let part = &progs[j * per..((j + 1) * per).min(progs.len())];
        for doc in &docs {
            let src = render(doc);
            let Some(t) = cx.setup(|| format!("source {src:?}"), || real::tmpl(&src)) else { return };
            for p in part {
                if cx.stopped() { return; }
                cx.case(|| show_case(doc, p), |rec| f(&t, doc, p, rec));
            }
        }
    })
}
pub fn programs(name: &str, space: impl Into<String>, docs: Vec<Vec<Node>>, progs: Vec<Prog>) -> Family {
    programs_by(name, space, docs, progs, Arc::new(agree))
}

// Short forms.

pub fn sel(scope: Scope, s: S, p: &[Op]) -> Op { Op::Select(scope, Sel::Str(s), prog(p)) }
pub fn any(s: S, p: &[Op]) -> Op { sel(Scope::Any, s, p) }
pub fn tmpl(s: &str) -> Content { Content::Tmpl(s.into(), prog::TForm::Borrowed) }
pub fn set(n: S, v: S) -> Op { Op::Attr(AttrOp::SetV(n, Val::Str(v))) }
pub fn el(tag: &str, kids: Vec<Node>) -> Node { elem(tag, &[], Kind::Normal, kids) }
pub fn void(tag: &str) -> Node { elem(tag, &[], Kind::Void, vec![]) }
pub fn closed(tag: &str) -> Node { elem(tag, &[], Kind::SelfClosed, vec![]) }
pub fn parse_doc(s: &str) -> Vec<Node> { crate::refparse::parse(s, None).expect("document of the harness") }
pub fn docs(v: &[&str]) -> Vec<Vec<Node>> { v.iter().map(|s| parse_doc(s)).collect() }

/// All sequences of at most `max` of the operations that are well typed.
pub fn chains(ops: &[Op], max: usize, elem: bool) -> Vec<Vec<Op>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..max {
        let mut next = Vec::new();
        for c in &last {
            for o in ops {
                let mut v = c.clone();
                v.push(o.clone());
                if prog::well_typed(&v, elem) { next.push(v); }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// Number of shapes of documents of a given size.
pub const SHAPES: usize = 17;
/// A document of shape `k` and size `n`, with elements to select by `a`, `b`, `br`, `.x`.
pub fn sized_doc(k: usize, n: usize) -> String {
    let r = |s: &str| s.repeat(n);
    match k {
        0 => format!("{}<b class=\"x\">u</b>", r("<a>t</a>")),
        1 => format!("{}t<b class=\"x\"></b>{}", r("<a>"), r("</a>")),
        2 => format!("{}<br>{}<a class=\"x\" />", r("<b><a>"), r("</a></b>")),
        3 => format!("<a>{}</a><b class=\"x\">{}&amp;</b>", r("t"), r("&amp;")),
        4 => format!("<a {} class=\"x\">t</a><b />", (0..n).map(|i| format!("k{i}=\"v\"")).collect::<Vec<_>>().join(" ")),
        5 => format!("<b class=\"{} x\">t</b><a/>", (0..n).map(|i| format!("w{i}")).collect::<Vec<_>>().join(" ")),
        6 => format!("<a {} class=\"x\">t</a>", (0..n).map(|i| format!("class=\"w{i}\"")).collect::<Vec<_>>().join(" ")),
        7 => format!("<a k=\"{0}\" class=\"x\">t</a><br k=\"{0}\">", r("v")),
        8 => format!("<a{0} class=\"x\">t</A{0}><a k{0}=\"v\"/>", r("a")),
        9 => format!("{}<a class=\"x\"></a>{}", r("<br>"), r("<b />")),
        10 => format!("<!--{0}--><title>{0}</title><a class=\"x\">1</a>", r("c")),
        11 => format!("<b>{}<a class=\"x\" /></b>", r("t<!--c-->")),
        12 => format!("<a class=\"x\">{}</a>u", r("<a>1</a><br>")),
        13 => format!("<b>{}</b><a class=\"x\"/>{}", r("<b class=\"x\"/>"), r("\u{e9}<a/>")),
        // nothing in order: attributes, classes, nodes
        14 => format!("<a {} class=\"x\" k=\"l\">t</a><b k=\"m\"/>", (0..n).map(|i| {
            let j = i * 7919 % 101;
            match j % 5 { 0 => "n".repeat(1 + j % 7), 1 => format!("k=\"{}\"", "v".repeat(j % 4)), 2 => format!("K{}=\"\"", 100 - j), 3 => format!("class=\"c{j}\""), _ => format!("a{i}=\"{j}\"") }
        }).collect::<Vec<_>>().join(" ")),
        15 => (0..n).map(|i| ["<b></b>", "t", "<a class=\"x\"/>", "<!--c-->", "<br>", "<title></title>", "<a>y<b class=\"x\">z</b></a>"][i * i % 7]).collect::<String>(),
        _ => format!("<b class=\"{} x\">t</b><a/>", (0..n).map(|i| ["a", "y", "w2", "X", "b"][i * i % 5]).collect::<Vec<_>>().join(["  ", " ", "\n"][n % 3])),
    }
}
/// Every program on documents of all shapes and sizes.
pub fn sized_by(small: usize, max: usize, progs: Vec<Prog>, f: Judge) -> Family {
    for p in &progs { assert!(prog::well_typed(p, false), "ill-typed: {}", prog::show_prog(p)); }
    let mut sz = super::gen::sizes(small, max);
    sz.reverse();
    let space = format!("documents of {SHAPES} shapes (siblings, depth, text, attributes, classes, names, what comes before and after, attributes, classes and nodes in no order) at each of {} sizes up to {} under {} programs", sz.len(), sz[0], progs.len());
    split("documents by size", space, sz.len() * SHAPES, 1, move |i, cx| {
        let (n, k) = (sz[i / SHAPES], i % SHAPES);
        let src = sized_doc(k, n);
        let doc = parse_doc(&src);
        let Some(t) = cx.setup(|| format!("shape {k} of size {n}"), || real::tmpl(&src)) else { return };
        for p in &progs {
            if cx.stopped() { return; }
            cx.case(|| format!("shape {k} of size {n} through html{}", prog::show_prog(p)), |rec| f(&t, &doc, p, rec));
        }
    })
}
