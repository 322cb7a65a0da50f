//! Programs as a whole: C16 and C17.

use super::gen::*;
use super::progs::*;
use super::select::{docs_upto, labels, labels2};
use crate::engine::*;
use crate::model::*;
use crate::prog::{self, intern, prog, AttrOp, Content, Items, Op, Prog, Scope, TForm, Val};
use crate::real;
use html5_fuser::event::{IntoStream, Stream};
use html5_fuser::{StreamError, Template};
use std::sync::Arc;

// --------------------------------------------------------------------------------------------- C16

/// In one transform, in one transform per operation, and in the model.
fn chained(t: &Template, doc: &[Node], p: &Prog, rec: &mut Rec) -> Check {
    let w = want(doc, p);
    let got = real::transform(t, p);
    let mut cur = t.clone();
    let mut log = prog::Log::default();
    let mut seq = Ok(());
    for o in p.iter() {
        let (r, l) = real::transform(&cur, &prog(&[o.clone()]));
        log.marks.extend(l.marks);
        log.given.extend(l.given);
        match r { Ok(t) => cur = t, Err(e) => { seq = Err(e); break; } }
    }
    match (&got.0, &seq) {
        (Ok(a), Ok(())) => {
            if a.to_string() != cur.to_string() { return Err(format!("chained {:?}, one after another {:?}", a.to_string(), cur.to_string())); }
            let (x, y) = (canon_real(a)?, canon_real(&cur)?);
            if x != y { return Err(format!("chained {}, one after another {}", show(&x), show(&y))); }
            same_log(&got.1, &log).map_err(|e| format!("chained against one after another: {e}"))?;
        }
        (Err(_), Err(_)) => {}
        (a, b) => return Err(format!("chained {a:?}, one after another {b:?}")),
    }
    judge(got, &w, rec)
}

/// Operations on streams, all sorts of them.
pub fn stream_ops(tier: Tier) -> Vec<Op> {
    let hit = |n: &'static str| Op::Attr(AttrOp::AddV(n, Val::Str("1")));
    let mut v = vec![
        Op::Prepend(tmpl("<a>p</a>")), Op::Append(Content::Stream("<b class=\"x\"><a/></b>".into(), 0b10101)), Op::Replace(tmpl("<a><a>r</a></a>t")), Op::Remove,
        Op::Append(Content::OkStr("n")), Op::Prepend(Content::Str("")),
        any("a", &[Op::Mark(1), hit("h")]), sel(Scope::Once, "a", &[Op::Mark(2), Op::Remove]), sel(Scope::Direct, "a", &[Op::Mark(3), Op::ReplaceC(tmpl("<b class=\"x\">i</b>"))]),
        sel(Scope::DirectOnce, ".x", &[Op::Mark(4), Op::Append(Content::Str("s"))]), any(".x", &[Op::SubContents(prog(&[Op::Prepend(tmpl("<a/>"))])), Op::Mark(5)]),
        any("a", &[sel(Scope::SubAny, ".x", &[Op::Replace(tmpl("<a/>"))])]),
        Op::Repeat(Items::Range(0, 2), prog(&[Op::Mark(6), Op::Append(Content::Item)])), Op::Repeat(Items::Range(0, 0), prog(&[])), Op::RepeatElse(Items::Filtered(1, 2), prog(&[]), prog(&[Op::Mark(7), Op::Append(Content::Str("e"))])),
        any("a", &[Op::RepeatC(Items::Range(0, 2), prog(&[Op::Mark(8)]))]), any(".x", &[Op::Repeat(Items::Range(0, 2), prog(&[Op::Attr(AttrOp::SetV("n", Val::Item))]))]),
        Op::Apply(prog(&[Op::Append(Content::Str("y"))])), Op::ApplyIf(true, prog(&[any("a", &[hit("c")])])), Op::ApplyIf(false, prog(&[Op::Remove])),
        Op::ApplyIfElse(false, prog(&[Op::Remove]), prog(&[Op::Prepend(Content::Str("f"))])), Op::ApplyOption(Some(3), prog(&[Op::Append(Content::Item)]), prog(&[Op::Remove])),
        Op::ApplyResult(Err(4), prog(&[Op::Remove]), prog(&[Op::Prepend(Content::Item)])), Op::ApplyBoxed(prog(&[any(".x", &[hit("b")])])),
        Op::ApplyTemplate(prog(&[any("a", &[hit("t")])])), Op::ApplyTemplateTo("<a>x</a>".into()), Op::Boxed,
    ];
    if tier == Tier::Thorough {
        v.extend([any("a", &[Op::RepeatCElse(Items::Range(0, 0), prog(&[]), prog(&[hit("z")]))]), sel(Scope::Once, ".x", &[Op::BoxedElement, Op::AppendC(Content::Str("k"))]),
            any(".x", &[Op::ApplyBoxedElement(prog(&[hit("q")])), Op::Replace(tmpl("<a>R</a>"))]), any("a", &[Op::ApplyTemplate(prog(&[Op::Append(Content::Str("u"))]))]), Op::ApplyOption(None, prog(&[Op::Remove]), prog(&[]))]);
    }
    v
}

/// Operations on elements.
pub fn element_ops() -> Vec<Op> {
    use AttrOp::*;
    vec![
        Op::Attr(SetV("k", Val::Str("1"))), Op::Attr(AddClass("x")), Op::Attr(RemoveClass("x")), Op::Attr(AddTo("class", Val::Str("y"), Val::Str(" "))), Op::RemoveC, Op::PrependC(tmpl("<a>p</a>")), Op::AppendC(Content::OkStr("n")),
        Op::ReplaceC(tmpl("<b class=\"x\">i</b>t")), Op::SubContents(prog(&[Op::Mark(1), Op::Append(tmpl("<a/>"))])), sel(Scope::SubAny, "a", &[Op::Mark(2), Op::Attr(AddEmpty("h"))]), sel(Scope::SubDirectOnce, ".x", &[Op::Mark(3), Op::Remove]),
        sel(Scope::SubDirect, "a", &[Op::Replace(tmpl("<br>"))]), sel(Scope::SubOnce, ".x", &[Op::Attr(AddEmpty("o"))]), Op::RepeatC(Items::Range(0, 2), prog(&[Op::Append(Content::Item)])), Op::BoxedElement, Op::ApplyBoxedElement(prog(&[Op::Attr(AddEmpty("b"))])),
        Op::Apply(prog(&[Op::PrependC(Content::Str("y"))])), Op::ApplyIf(true, prog(&[Op::Attr(SetId("i"))])), Op::ApplyIf(false, prog(&[Op::Attr(SetId("no"))])), Op::ApplyIfElse(true, prog(&[Op::AppendC(Content::Str("f"))]), prog(&[Op::RemoveC])),
        Op::ApplyOption(None, prog(&[Op::RemoveC]), prog(&[Op::Mark(4)])), Op::ApplyResult(Ok(5), prog(&[Op::AppendC(Content::Item)]), prog(&[])),
        Op::Prepend(tmpl("<a/>")), Op::Append(Content::Str("s")), Op::Replace(tmpl("<b class=\"x\"><a/></b>")), Op::Remove, Op::Repeat(Items::Range(0, 2), prog(&[Op::Attr(SetV("n", Val::Item))])),
        Op::RepeatElse(Items::Range(0, 0), prog(&[]), prog(&[Op::Attr(AddEmpty("e"))])), Op::RepeatCElse(Items::Range(0, 1), prog(&[Op::Append(Content::Item)]), prog(&[])), Op::ApplyTemplate(prog(&[any("a", &[Op::Attr(AddEmpty("t"))])])),
        Op::Boxed, any("a", &[Op::Attr(AddEmpty("s"))]), sel(Scope::DirectOnce, "a", &[Op::Append(Content::Str("1"))]), Op::ApplyBoxed(prog(&[Op::Append(Content::Str("2"))])),
    ]
}

/// Condition forms around every body: they are the body their condition calls for.
fn applied(t: &Template, doc: &[Node], p: &Prog, rec: &mut Rec) -> Check { agree(t, doc, p, rec) }

fn forms_of(body: &Prog, other: &Prog, elem: bool) -> Vec<Op> {
    let (b, o) = (|| body.clone(), || other.clone());
    let mut v = vec![Op::Apply(b()), Op::ApplyIf(true, b()), Op::ApplyIf(false, b()), Op::ApplyIfElse(true, b(), o()), Op::ApplyIfElse(false, b(), o()), Op::ApplyOption(Some(8), b(), o()), Op::ApplyOption(None, b(), o()),
        Op::ApplyResult(Ok(8), b(), o()), Op::ApplyResult(Err(9), b(), o())];
    if prog::well_typed(body, false) { v.extend([Op::ApplyBoxed(b()), Op::ApplyTemplate(b())]); }
    if elem { v.push(Op::ApplyBoxedElement(b())); }
    v
}

fn conditions(tier: Tier) -> Vec<Family> {
    let bodies = |elem: bool| -> Vec<Prog> {
        let ops: Vec<Op> = if elem { element_ops() } else { stream_ops(Tier::Quick) };
        ops.into_iter().map(|o| prog(&[Op::Mark(20), o])).chain([prog(&[]), prog(&[Op::Mark(20), Op::Append(Content::Item)]), prog(&[Op::Mark(20), Op::Remove]), prog(&[Op::Mark(20), Op::Replace(Content::Item)])]).collect()
    };
    let other = |elem: bool| -> Vec<Prog> {
        let mut v = vec![prog(&[]), prog(&[Op::Mark(21), Op::Append(Content::Item)]), prog(&[Op::Mark(21), Op::Replace(tmpl("<a>o</a>"))])];
        if elem { v.push(prog(&[Op::Mark(21), Op::Attr(AttrOp::SetV("o", Val::Item))])); }
        v
    };
    let mut stream = Vec::new();
    let mut nested = Vec::new();
    let mut elem = Vec::new();
    for b in bodies(false) { for o in other(false) { for f in forms_of(&b, &o, false) {
        stream.push(prog(&[f.clone()]));
        stream.push(prog(&[f.clone(), any("a", &[Op::Attr(AttrOp::AddEmpty("after"))])]));
        if o.is_empty() { for g in forms_of(&prog(&[f.clone(), Op::Mark(22)]), &prog(&[Op::Append(Content::Item)]), false) { nested.push(prog(&[g])); } }
    } } }
    for b in bodies(true) { for o in other(true) { for f in forms_of(&b, &o, true) {
        elem.push(prog(&[any("a", &[f.clone()])]));
        if prog::well_typed(&[f.clone(), Op::Attr(AttrOp::AddEmpty("after"))], true) { elem.push(prog(&[any("a", &[f.clone(), Op::Attr(AttrOp::AddEmpty("after")), Op::AppendC(Content::Str("z"))])])); }
        if o.is_empty() { for g in forms_of(&prog(&[f.clone(), Op::Mark(22)]), &prog(&[Op::Append(Content::Item)]), true) { nested.push(prog(&[any("a", &[g])])); } }
    } } }
    let l = labels();
    let d = docs_upto(tier.pick(2, 3), &l);
    let j: Judge = Arc::new(applied);
    vec![
        product_by("applied to streams", "every form of apply, condition, body and alternative, with an operation after it", d.clone(), stream, j.clone()),
        product_by("applied to elements", "the same on selected elements", d.clone(), elem, j.clone()),
        product_by("applied in applied", "forms of apply within forms of apply", docs_upto(tier.pick(1, 2), &l).into_iter().chain(docs(&["<a>1<a/></a>t<b class=\"x\"></b>"])).collect(), nested, j),
    ]
}

/// Chains that are not boxed: pairs of operations with a type of their own each.  All pairs are many types to
/// compile, so without the feature `wide` the lists are paired one to one.
macro_rules! concrete {
    ($h:ident; $name:ident; $on:tt; $first:tt $second:tt) => {
        fn $name() -> Vec<(Op, Op, fn(&Template) -> Result<Template, StreamError>)> {
            let mut v: Vec<(Op, Op, fn(&Template) -> Result<Template, StreamError>)> = Vec::new();
            #[cfg(feature = "wide")]
            concrete!(@all v $h $on $first $second);
            #[cfg(not(feature = "wide"))]
            concrete!(@zip v $h $on $first $second);
            v
        }
    };
    (@all $v:ident $h:ident $on:tt [$($first:tt)*] $second:tt) => { $( concrete!(@row $v $h $on $first $second); )* };
    (@row $v:ident $h:ident $on:tt $first:tt [$($second:tt)*]) => { $( concrete!(@one $v $h $on $first $second); )* };
    (@zip $v:ident $h:ident $on:tt [$f:tt $($fs:tt)*] [$s:tt $($ss:tt)*]) => { concrete!(@one $v $h $on $f $s); concrete!(@zip $v $h $on [$($fs)*] [$($ss)*]); };
    (@zip $v:ident $h:ident $on:tt [$($fs:tt)*] [$($ss:tt)*]) => {};
    (@one $v:ident $h:ident element ($o1:expr, $e1:expr) ($o2:expr, $e2:expr)) => {
        $v.push(($o1, $o2, |t| t.transform(|$h| $h.select("a", |$h| { let $h = $e1; $e2 }))));
    };
    (@one $v:ident $h:ident stream ($o1:expr, $e1:expr) ($o2:expr, $e2:expr)) => {
        $v.push(($o1, $o2, |t| t.transform(|$h| { let $h = $e1; $e2 })));
    };
}

concrete!(h; concrete_elements; element; [
    (Op::Attr(AttrOp::SetV("k", Val::Str("1"))), h.set_attribute_with_value("k", "1"))
    (Op::Attr(AttrOp::AddClass("x")), h.add_class("x"))
    (Op::Attr(AttrOp::RemoveClass("x")), h.remove_class("x"))
    (Op::Attr(AttrOp::RemoveId), h.remove_id())
    (Op::RemoveC, h.remove_contents())
    (Op::PrependC(Content::Str("p")), h.prepend_contents("p"))
    (Op::AppendC(Content::OkStr("n")), h.append_contents(Ok::<_, StreamError>("n")))
    (Op::ReplaceC(Content::Str("r")), h.replace_contents("r"))
    (Op::SubContents(prog(&[Op::Append(Content::Str("c"))])), h.subselect_contents(|h| h.append("c")))
    (sel(Scope::SubAny, "a", &[Op::Attr(AttrOp::AddEmpty("h"))]), h.subselect("a", |h| h.add_empty_attribute("h")))
    (sel(Scope::SubDirectOnce, "b", &[Op::Remove]), h.subselect_direct_once("b", |h| h.remove()))
    (sel(Scope::SubOnce, "a", &[Op::ReplaceC(Content::Str("o"))]), h.subselect_once("a", |h| h.replace_contents("o")))
    (sel(Scope::SubDirect, "a", &[Op::Replace(Content::Str("d"))]), h.subselect_direct("a", |h| h.replace("d")))
    (Op::RepeatC(Items::Range(0, 2), prog(&[Op::Append(Content::Item)])), h.repeat_contents(0..2i64, |h, i| h.append(i)))
    (Op::ApplyIf(true, prog(&[Op::Attr(AttrOp::SetId("i"))])), h.apply_if(true, |h| h.set_id("i")))
    (Op::ApplyIfElse(false, prog(&[Op::RemoveC]), prog(&[Op::AppendC(Content::Str("f"))])), h.apply_if_else(false, |h| h.remove_contents(), |h| h.append_contents("f")))
    (Op::ApplyOption(Some(5), prog(&[Op::AppendC(Content::Item)]), prog(&[])), h.apply_with_option(Some(5), |h, i| h.append_contents(i), |h| h))
    (Op::ApplyResult(Err(6), prog(&[]), prog(&[Op::PrependC(Content::Item)])), h.apply_with_result(Err::<(), _>(6), |h, _| h, |h, i| h.prepend_contents(i)))
    (Op::Attr(AttrOp::AddTo("id", Val::Str("j"), Val::Str("-"))), h.add_to_attribute("id", "j", "-"))
    (Op::Attr(AttrOp::ReplaceIf("id", Val::Str("k"))), h.replace_attribute_value_if_exists("id", "k"))
    (Op::Attr(AttrOp::AddEmpty("y")), h.add_empty_attribute("y"))
    (Op::PrependC(Content::Element("a")), h.prepend_contents(Template::with_element("a")))
    (Op::Apply(prog(&[Op::Attr(AttrOp::SetEmpty("w"))])), h.apply(|h| h.set_empty_attribute("w")))
] [
    (Op::Attr(AttrOp::SetEmpty("z")), h.set_empty_attribute("z"))
    (Op::RemoveC, h.remove_contents())
    (Op::PrependC(Content::OkStr("P")), h.prepend_contents(Ok::<_, StreamError>("P")))
    (Op::AppendC(Content::Str("A")), h.append_contents("A"))
    (Op::ReplaceC(Content::Str("R")), h.replace_contents("R"))
    (Op::SubContents(prog(&[Op::Prepend(Content::Str("C"))])), h.subselect_contents(|h| h.prepend("C")))
    (sel(Scope::SubAny, "b", &[Op::Append(Content::Str("S"))]), h.subselect("b", |h| h.append("S")))
    (sel(Scope::SubDirectOnce, "a", &[Op::Attr(AttrOp::AddEmpty("H"))]), h.subselect_direct_once("a", |h| h.add_empty_attribute("H")))
    (Op::RepeatC(Items::Range(0, 2), prog(&[Op::Prepend(Content::Item)])), h.repeat_contents(0..2i64, |h, i| h.prepend(i)))
    (Op::RepeatCElse(Items::Range(0, 0), prog(&[]), prog(&[Op::Attr(AttrOp::AddEmpty("E"))])), h.repeat_contents_or_else(0..0, |h, _| h, |h| h.add_empty_attribute("E")))
    (Op::Remove, h.remove())
    (Op::Prepend(Content::Str("1")), h.prepend("1"))
    (Op::Append(Content::Str("2")), h.append("2"))
    (Op::Replace(Content::Str("3")), h.replace("3"))
    (Op::Repeat(Items::Range(0, 2), prog(&[Op::Attr(AttrOp::SetV("n", Val::Item))])), h.repeat(0..2i64, |h, i| h.set_attribute_with_value("n", i)))
    (Op::RepeatElse(Items::Range(0, 0), prog(&[]), prog(&[Op::RemoveC])), h.repeat_or_else(0..0, |h, _| h, |h| h.remove_contents()))
    (any("b", &[Op::Attr(AttrOp::AddEmpty("s"))]), h.select("b", |h| h.add_empty_attribute("s")))
    (sel(Scope::Once, "b", &[Op::Remove]), h.select_once("b", |h| h.remove()))
    (sel(Scope::DirectOnce, "a", &[Op::AppendC(Content::Str("D"))]), h.select_direct_once("a", |h| h.append_contents("D")))
    (Op::ApplyTemplate(prog(&[any("a", &[Op::Attr(AttrOp::AddEmpty("t"))])])), h.apply_as_template(|t| t.transform(|h| h.select("a", |h| h.add_empty_attribute("t")))))
    (Op::ApplyBoxedElement(prog(&[Op::Attr(AttrOp::AddEmpty("B"))])), h.apply_as_boxed_element(|h| h.add_empty_attribute("B").into_boxed_element()))
    (Op::ApplyBoxed(prog(&[Op::Append(Content::Str("b"))])), h.apply_as_boxed(|h| h.append("b").into_boxed()))
    (Op::Boxed, h.into_boxed())
]);

concrete!(h; concrete_streams; stream; [
    (Op::Prepend(Content::Str("1")), h.prepend("1"))
    (Op::Append(Content::OkStr("2")), h.append(Ok::<_, StreamError>("2")))
    (Op::Replace(Content::Element("a")), h.replace(Template::with_element("a")))
    (Op::Remove, h.remove())
    (any("a", &[Op::AppendC(Content::Str("x"))]), h.select("a", |h| h.append_contents("x")))
    (sel(Scope::Once, "a", &[Op::Remove]), h.select_once("a", |h| h.remove()))
    (sel(Scope::Direct, "b", &[Op::Append(Content::Element("a"))]), h.select_direct("b", |h| h.append(Template::with_element("a"))))
    (sel(Scope::DirectOnce, "a", &[Op::Attr(AttrOp::AddEmpty("h"))]), h.select_direct_once("a", |h| h.add_empty_attribute("h")))
    (Op::Repeat(Items::Range(0, 2), prog(&[Op::Append(Content::Item)])), h.repeat(0..2i64, |h, i| h.append(i)))
    (Op::RepeatElse(Items::Range(0, 0), prog(&[]), prog(&[Op::Append(Content::Str("e"))])), h.repeat_or_else(0..0, |h, _| h, |h| h.append("e")))
    (Op::Apply(prog(&[Op::Prepend(Content::Str("y"))])), h.apply(|h| h.prepend("y")))
    (Op::ApplyIf(false, prog(&[Op::Remove])), h.apply_if(false, |h| h.remove()))
    (Op::ApplyIfElse(true, prog(&[Op::Append(Content::Str("t"))]), prog(&[])), h.apply_if_else(true, |h| h.append("t"), |h| h))
    (Op::ApplyOption(None, prog(&[]), prog(&[Op::Append(Content::Str("o"))])), h.apply_with_option(None::<()>, |h, _| h, |h| h.append("o")))
    (Op::ApplyTemplate(prog(&[Op::Append(Content::Str("T"))])), h.apply_as_template(|t| t.transform(|h| h.append("T"))))
    (Op::ApplyBoxed(prog(&[Op::Prepend(Content::Str("b"))])), h.apply_as_boxed(|h| h.prepend("b").into_boxed()))
    (Op::Boxed, h.into_boxed())
] [
    (Op::Prepend(Content::OkStr("1")), h.prepend(Ok::<_, StreamError>("1")))
    (Op::Append(Content::Str("2")), h.append("2"))
    (Op::Replace(Content::Str("3")), h.replace("3"))
    (Op::Remove, h.remove())
    (any("a", &[Op::PrependC(Content::Str("X")), Op::Attr(AttrOp::AddEmpty("s"))]), h.select("a", |h| h.prepend_contents("X").add_empty_attribute("s")))
    (sel(Scope::Once, "b", &[Op::ReplaceC(Content::Str("O"))]), h.select_once("b", |h| h.replace_contents("O")))
    (sel(Scope::Direct, "a", &[Op::Replace(Content::Str("D"))]), h.select_direct("a", |h| h.replace("D")))
    (sel(Scope::DirectOnce, "a", &[Op::Repeat(Items::Range(0, 2), prog(&[Op::Attr(AttrOp::SetV("n", Val::Item))]))]), h.select_direct_once("a", |h| h.repeat(0..2i64, |h, i| h.set_attribute_with_value("n", i))))
    (Op::Repeat(Items::Range(0, 2), prog(&[any("a", &[Op::Append(Content::Item)])])), h.repeat(0..2i64, |h, i| h.select("a", move |h| h.append(i))))
    (Op::RepeatElse(Items::Range(0, 1), prog(&[Op::Append(Content::Item)]), prog(&[Op::Remove])), h.repeat_or_else(0..1i64, |h, i| h.append(i), |h| h.remove()))
    (Op::ApplyIf(true, prog(&[any("b", &[Op::Remove])])), h.apply_if(true, |h| h.select("b", |h| h.remove())))
    (Op::ApplyResult(Ok(7), prog(&[Op::Append(Content::Item)]), prog(&[])), h.apply_with_result(Ok::<_, ()>(7i64), |h, i| h.append(i), |h, _| h))
    (Op::ApplyTemplate(prog(&[Op::Prepend(Content::Str("T"))])), h.apply_as_template(|t| t.transform(|h| h.prepend("T"))))
    (Op::ApplyBoxed(prog(&[Op::Append(Content::Str("B"))])), h.apply_as_boxed(|h| h.append("B").into_boxed()))
    (Op::Append(Content::Element("a")), h.append(Template::with_element("a")))
    (any("b", &[Op::Remove]), h.select("b", |h| h.remove()))
    (Op::Boxed, h.into_boxed())
]);

fn concrete(tier: Tier) -> Vec<Family> {
    let l = vec![Label::Branch(el("a", vec![])), Label::Branch(elem("b", &[("class", Some("x")), ("id", Some("i"))], Kind::Normal, vec![])), Label::Leaf(elem("a", &[("id", Some("j"))], Kind::SelfClosed, vec![])), Label::Leaf(text("t"))];
    let ds = Arc::new(docs_upto(tier.pick(3, 4), &l));
    let make = |name: &'static str, table: fn() -> Vec<(Op, Op, fn(&Template) -> Result<Template, StreamError>)>, elem: bool| {
        let n = table().len();
        let ds = ds.clone();
        split(name, format!("{n} pairs of operations composed without boxes, on {} documents", ds.len()), ds.len(), 2, move |i, cx| {
            let doc = &ds[i];
            let src = render(doc);
            let Some(t) = cx.setup(|| format!("source {src:?}"), || real::tmpl(&src)) else { return };
            for (a, b, f) in table() {
                let p = if elem { prog(&[any("a", &[a, b])]) } else { prog(&[a, b]) };
                cx.case(|| format!("{} (not boxed)", show_case(doc, &p)), |rec| {
                    let mut w = want(doc, &p);
                    let l = real::transform(&t, &p).1;
                    w.1.log = l;
                    let l2 = prog::Log { marks: w.1.log.marks.clone(), given: w.1.log.given.clone() };
                    judge((f(&t), l2), &w, rec)
                });
            }
        })
    };
    vec![make("unboxed element chains", concrete_elements, true), make("unboxed stream chains", concrete_streams, false)]
}

/// Long chains.
fn long(tier: Tier) -> Family {
    let mut sz = sizes(tier.pick(40, 200), tier.pick(520, 5_000));
    sz.reverse();
    split("sizes", format!("chains of up to {} operations of each kind, with a condition every other time", sz[0]), sz.len() * 8, 1, move |i, cx| {
        let (n, k) = (sz[i / 8], i % 8);
        let o = match k {
            0 => Op::Append(Content::Str("z")), 1 => Op::Prepend(tmpl("<a/>")), 2 => any("a", &[Op::Attr(AttrOp::AddV("n", Val::Str("1")))]), 3 => Op::Boxed, 4 => Op::Apply(prog(&[Op::Append(Content::OkStr("n"))])),
            5 => Op::ApplyTemplate(prog(&[])), 6 => sel(Scope::DirectOnce, "a", &[Op::AppendC(Content::Str("c"))]), _ => Op::Repeat(Items::Range(0, 1), prog(&[])),
        };
        let mut v = vec![o.clone(); n];
        for c in v.iter_mut().skip(1).step_by(2) { *c = Op::ApplyIfElse(n % 4 == 1, prog(&[c.clone()]), prog(&[c.clone()])); }
        let doc = parse_doc("<a>1</a><b class=\"x\"><a/></b>t");
        for p in [prog(&vec![o; n]), prog(&v)] {
            cx.case(|| format!("{n} times html{}", prog::show_prog(&p[..p.len().min(2)])), |rec| agree(&real::tmpl(&render(&doc))?, &doc, &p, rec));
        }
        // nested as deep
        if n <= 300 {
            let mut p = prog(&[Op::Append(Content::Item)]);
            for _ in 0..n { p = prog(&[match k { 0 => Op::Apply(p), 1 => Op::ApplyIf(true, p), 2 => Op::ApplyBoxed(p), 3 => Op::ApplyTemplate(p), 4 => Op::Repeat(Items::Range(0, 1), p), 5 => any("a", &[p[0].clone()]), 6 => Op::ApplyOption(Some(1), p, prog(&[])), _ => Op::RepeatElse(Items::Range(0, 0), prog(&[]), p) }]); }
            cx.case(|| format!("nested {n} times, form {k}"), |rec| agree(&real::tmpl(&render(&doc))?, &doc, &p, rec));
        }
    })
}

pub fn c16(tier: Tier) -> Vec<Family> {
    let ops = stream_ops(tier);
    let two: Vec<Prog> = chains(&ops, 2, false).into_iter().map(|c| prog(&c)).collect();
    let three: Vec<Prog> = chains(&stream_ops(Tier::Quick), 3, false).into_iter().filter(|c| c.len() == 3).map(|c| prog(&c)).collect();
    let el = element_ops();
    let e2: Vec<Prog> = chains(&el, 2, true).into_iter().map(|c| prog(&[any("a", &c)])).collect();
    let e3: Vec<Prog> = chains(&el, 3, true).into_iter().filter(|c| c.len() == 3).map(|c| prog(&[any("a", &c)])).collect();
    let j: Judge = Arc::new(chained);
    let (l1, l2) = (labels(), labels2());
    let mut v = vec![
        sized_by(tier.pick(20, 140), tier.pick(1_100, 10_000), small_progs(), j.clone()),
        product_by("pairs of operations", "chained, in separate transforms, and in the model", docs_upto(tier.pick(3, 4), &l1), two.clone(), j.clone()),
        product_by("pairs of operations, other constructs", "the same with raw text elements, comments, mixed case", docs_upto(tier.pick(2, 3), &l2), two, j.clone()),
        programs_by("triples of operations", "chained, in separate transforms, and in the model", docs_upto(1, &l1).into_iter().chain(docs(&["<a>1<a/></a>t<b class=\"x\"></b>", "<b class=\"x\"><a><br></a>t</b><a class=\"x\" />"])).collect(), three, j.clone()),
        product("pairs on elements", "chained operations on elements", docs_upto(tier.pick(3, 4), &l1), e2),
        programs("triples on elements", "chained operations on elements", docs(&["<a>1<a/></a>t", "<b class=\"x\"><a class=\"x y\"><br><a>2</a></a>t</b><a class=\"x\" />", "<a/><br>", "<a><b class=\"x\">t<a/></b></a>"]), e3),
        long(tier),
        product_by("element names", "every operation on documents with elements of special names around, in and next to others", super::select::all_named_docs(true), small_progs(), j.clone()),
        product_by("pairs of element names", "each standard element around and before each other one", {
            let mut v = Vec::new();
            for a in super::vocab::ELEMENTS { for b in super::vocab::ELEMENTS {
                if is_void(a) || is_raw(a) || is_void(b) || is_raw(b) { continue; }
                let x = elem(b, &[("class", Some("x"))], Kind::Normal, vec![text("t"), void("br")]);
                v.push(vec![text("\n"), super::progs::el(a, vec![x, text(" ")]), closed(b)]);
            } }
            v
        }, vec![prog(&[]), prog(&[any(".x", &[Op::Remove])]), prog(&[any(".x", &[Op::ReplaceC(Content::Str(""))]), Op::Append(Content::Str("z"))]), prog(&[sel(Scope::DirectOnce, "br", &[Op::Append(tmpl("<p>1</p>"))]), any(".x", &[Op::Prepend(Content::Str(" "))])])], j.clone()),
    ];
    if tier == Tier::Thorough {
        let few: Vec<Op> = stream_ops(Tier::Quick).into_iter().step_by(2).collect();
        v.push(programs_by("sequences of four", "of every other operation", docs(&["<a>1<a/></a>t<b class=\"x\"></b>", "<b class=\"x\"><a><br></a>t</b><a class=\"x\" />", ""]), chains(&few, 4, false).into_iter().filter(|c| c.len() == 4).map(|c| prog(&c)).collect(), j));
    }
    v.push(hardly(tier, Arc::new(chained)));
    v.extend(conditions(tier));
    v.extend(concrete(tier));
    v
}

/// What replaces something may differ from it in hardly anything.
pub fn hardly(tier: Tier, j: Judge) -> Family {
    const ALIKE: &[&str] = &[
        "<a k=\"v\" class=\"x\">t</a>", "<A k=\"v\" class=\"x\">t</A>", "<a K=\"v\" class=\"x\">t</a>", "<a k=\"V\" class=\"x\">t</a>", "<a k=\"v\" class=\"X\">t</a>", "<a k=\"v\" class=\"x\">T</a>",
        "<a class=\"x\" k=\"v\">t</a>", "<a k=\"v\" class=\" x\">t</a>", "<a k=\"v\" class=\"x\">t </a>", "<a k=\"v\" class=\"x\"> t</a>", "<a k=\"v\" class=\"x\">t</a> ", "\n<a k=\"v\" class=\"x\">t</a>",
        "<a k=\"w\" class=\"x\">t</a>", "<a k class=\"x\">t</a>", "<a k=\"\" class=\"x\">t</a>", "<a class=\"x\">t</a>", "<a k=\"v\" class=\"x\"></a>", "<a k=\"v\" class=\"x\"/>", "<a k=\"v\" class=\"x\">u</a>",
        "<a k=\"v\" class=\"x\" class=\"x\">t</a>", "<a k=\"v\" class=\"x x\">t</a>", "<b k=\"v\" class=\"x\">t</b>", "<a k=\"v\" class=\"x\">t</a><a k=\"v\" class=\"x\">t</a>", "<a k=\"v\" class=\"x\"><a>t</a></a>", "<a k=\"v\" class=\"x\"><!--t--></a>",
        "<a k=\"v\" class=\"x\">&#116;</a>", "<script k=\"v\" class=\"x\">t</script>", "<hr k=\"v\" class=\"x\">t", "<a>t</a>", "t", "T", "<a/>", "<a></a>", "<A/>", "<!doctype html>", "<!DOCTYPE html>", "<!--t-->", "<!--T-->", "", " ",
    ];
    let mut progs = Vec::new();
    for d in ALIKE {
        let to: Arc<str> = (*d).into();
        let put = Op::ApplyTemplateTo(to.clone());
        progs.push(prog(&[put.clone()]));
        progs.push(prog(&[Op::Replace(tmpl(d))]));
        progs.push(prog(&[any("a", &[put.clone()])]));
        progs.push(prog(&[any("a", &[Op::Replace(tmpl(d))])]));
        progs.push(prog(&[any("a", &[Op::ReplaceC(tmpl(d))])]));
        progs.push(prog(&[Op::Append(tmpl(d)), Op::Prepend(tmpl(d))]));
        if tier == Tier::Thorough {
            progs.push(prog(&[any("a", &[Op::SubContents(prog(&[put.clone()]))]), Op::ApplyTemplate(prog(&[put]))]));
        }
    }
    for (n, v) in [("k", "v"), ("k", "V"), ("K", "v"), ("k", ""), ("class", "x"), ("class", "X"), ("class", "x "), ("CLASS", "x"), ("l", "v")] {
        for o in [AttrOp::SetV(n, Val::Str(v)), AttrOp::ReplaceIf(n, Val::Str(v)), AttrOp::Remove(n), AttrOp::AddV(n, Val::Str(v)), AttrOp::AddTo(n, Val::Str(v), Val::Str("")), AttrOp::SetEmpty(n)] {
            progs.push(prog(&[any("a", &[Op::Attr(o.clone())])]));
            progs.push(prog(&[Op::ApplyTemplate(prog(&[any("a", &[Op::Attr(o)])]))]));
        }
    }
    programs_by("hardly a change", "each of 40 documents that differ in hardly anything, in place of, as contents of and around each other one; attributes set to nearly what they are", docs(ALIKE), progs, j)
}

// --------------------------------------------------------------------------------------------- C17

/// Is markup in a raw text element?
fn markup_in_raw(t: &Template) -> Result<bool, String> {
    let mut s = t.into_stream();
    let mut raw = false;
    while let Some(e) = s.next_event().map_err(|e| format!("{e:?}"))? {
        let k = kind_of(e.description());
        if raw && !"TRX".contains(k) { return Ok(true); }
        let r = e.to_string();
        let name: String = r.chars().skip(1).take_while(|c| !" >".contains(*c)).collect();
        raw = k == 'O' && is_raw(&name) || raw && "TR".contains(k);
    }
    Ok(false)
}

/// Canonical form with raw text as text.
fn plain(t: &Template) -> Result<String, String> {
    let mut c = Canon::new();
    let mut s = t.into_stream();
    while let Some(e) = s.next_event().map_err(|e| format!("{e:?}"))? {
        let k = kind_of(e.description());
        c.push(if k == 'R' { 'T' } else { k }, &e.to_string());
    }
    Ok(c.out)
}

/// The result of a transform is markup that parses to the result.
pub fn reparses(t: &Template, rec: &mut Rec) -> Check {
    let out = t.to_string();
    rec.step(2);
    if markup_in_raw(t)? { rec.outcome("markup in a raw text element"); return Ok(()); }
    if out.len() < 400 { rec.state(&out); }
    let back = real::parse(&out).map_err(|e| format!("output {:?} is rejected: {e}", clip(&out, 600)))?;
    let (a, b) = (plain(t)?, plain(&back)?);
    if a != b { return Err(format!("output {:?} is {}, parsed again {}", clip(&out, 600), show(&diffclip(&a, &b)), show(&diffclip(&b, &a)))); }
    let again = back.to_string();
    if again != out { return Err(format!("output {:?}, parsed again {:?}", diffclip(&out, &again), diffclip(&again, &out))); }
    Ok(())
}

fn wellformed(t: &Template, _: &[Node], p: &Prog, rec: &mut Rec) -> Check {
    match real::transform(t, p).0 {
        Ok(r) => reparses(&r, rec),
        Err(e) => { rec.step(1); rec.outcome(&format!("{e:?}")); Ok(()) }
    }
}

/// Every text, value and name put in.
fn inserted(tier: Tier) -> Vec<Family> {
    let run = |s: &str, cx: &mut Cx| {
        let n = intern(s);
        cx.case(|| format!("text or name {s:?}"), |rec| {
            let doc = parse_doc("<p class=\"c\">t<a/><br></p><title>x</title><u/>");
            let t = real::tmpl(&render(&doc))?;
            use AttrOp::*;
            for p in [
                vec![any("p", &[Op::PrependC(Content::Str(n)), Op::AppendC(Content::ValStatic(n)), Op::Prepend(Content::DataStatic(n)), Op::Append(Content::DataOwned(s.into()))])],
                vec![any("a", &[Op::ReplaceC(Content::DataOwned(s.into()))]), any("title", &[Op::AppendC(Content::Str(n))]), any("br", &[Op::Replace(Content::ValOwned(s.into()))]), Op::Append(Content::Str(n))],
                vec![any("p", &[Op::Attr(SetV("v", Val::Str(n))), Op::Attr(AddTo("class", Val::ValOwned(s.into()), Val::Str(n))), Op::Attr(AddV("w", Val::ValStatic(n)))])],
                vec![any("p", &[Op::Attr(SetEmpty(n))])], vec![any("a", &[Op::Attr(SetV(n, Val::Str("1")))])], vec![any("br", &[Op::Attr(AddEmpty(n)), Op::Attr(AddV("z", Val::Str("")))])],
                vec![any("p", &[Op::Attr(AddClass(n))])], vec![any("a", &[Op::Attr(SetId(n))])], vec![any("u", &[Op::Attr(AddTo(n, Val::Str("q"), Val::Str("")))])],
                vec![Op::Append(Content::Element(n))], vec![any("p", &[Op::ReplaceC(Content::Built(n, prog(&[Op::AppendC(Content::Str("y"))])))])], vec![any("p", &[Op::PrependC(Content::Built(n, prog(&[Op::Attr(SetV("k", Val::Str("y")))])))])],
            ] {
                let p = prog(&p);
                wellformed(&t, &doc, &p, rec).map_err(|e| format!("html{}: {e}", prog::show_prog(&p)))?;
            }
            Ok(())
        });
    };
    let ch = chars();
    let n = ch.len();
    let ch2 = ch.clone();
    let sz = sizes(tier.pick(70, 300), tier.pick(66_000, 70_000));
    let sz2 = sz.clone();
    vec![
        split("inserted long texts", format!("texts and names of {} lengths up to {}, plain, and with a special character first, last or all over", sz.len(), sz[sz.len() - 1]), sz.len(), 1, move |i, cx| {
            let n = sz2[i];
            run(&"a".repeat(n), cx);
            for c in ["&", "<", ">", "\"", "\u{e9}", " "] {
                run(&format!("{}{c}", "a".repeat(n)), cx);
                run(&format!("{c}{}", "a".repeat(n)), cx);
                run(&c.repeat(n), cx);
            }
        }),
        strings("inserted texts and names", "", vec!["a", "&", "<", ">", "\"", "'", "/", "!", "-", "=", " ", "\u{e9}", "br", "SCRIPT", "]"], tier.pick(3, 4), "", vec![""], run),
        split("inserted characters", format!("{n} characters alone, between letters, and all pairs of them, as text, value and name"), n, 1, move |i, cx| {
            run(&ch2[i], cx);
            run(&format!("a{}b", ch2[i]), cx);
            for d in &ch2 { run(&format!("{}{d}", ch2[i]), cx); }
        }),
    ]
}

/// Every operation once, on the whole and on selected elements.
pub fn small_progs() -> Vec<Prog> {
    let el = element_ops();
    chains(&stream_ops(Tier::Quick), 1, false).into_iter().map(|c| prog(&c))
        .chain(chains(&el, 1, true).into_iter().flat_map(|c| ["a", ".x"].map(|s| prog(&[any(s, &c)]))))
        .chain(el.iter().map(|o| prog(&[sel(Scope::DirectOnce, "a", &[sel(Scope::SubAny, ".x", &[o.clone()])])])))
        .collect()
}

pub fn c17(tier: Tier) -> Vec<Family> {
    let (l1, l2) = (labels(), labels2());
    let ops = stream_ops(tier);
    let el_ops = element_ops();
    let two: Vec<Prog> = chains(&ops, 2, false).into_iter().map(|c| prog(&c)).collect();
    let e2: Vec<Prog> = chains(&el_ops, 2, true).into_iter().flat_map(|c| ["a", "br", "title"].map(|s| prog(&[any(s, &c)]))).collect();
    let e3: Vec<Prog> = chains(&el_ops, 3, true).into_iter().filter(|c| c.len() == 3).map(|c| prog(&[any("a", &c)])).collect();
    let j: Judge = Arc::new(wellformed);
    let contents = |s: &'static str| -> Vec<Op> {
        [Content::Tmpl(s.into(), TForm::Owned), Content::Element("br"), Content::Element("Br"), Content::Element("SCRIPT"), Content::Element("p"), Content::Str("<b>"), Content::Stream(s.into(), 0b110)].into_iter()
            .flat_map(|c| [Op::Prepend(c.clone()), Op::Append(c.clone()), Op::Replace(c.clone()), Op::PrependC(c.clone()), Op::AppendC(c.clone()), Op::ReplaceC(c)]).collect()
    };
    let all_contents: Vec<Op> = ["<!--c-->", "<!doctype html>", "<title><b></title>", "<br><BR>", "<p/><p></p>", "t&amp;<script></script>"].iter().flat_map(|s| contents(s)).collect();
    let ins: Vec<Prog> = all_contents.iter().flat_map(|o| ["a", "br", "title", "#i", ".x"].map(|s| prog(&[any(s, &[o.clone()])]))).collect();
    // documents of every construct in every form
    let mut forms: Vec<Vec<Node>> = Vec::new();
    for n in VOID.iter().chain(RAW.iter()).chain(["p", "x-y", "A"].iter()) {
        for n in [n.to_string(), n.to_uppercase()] {
            let a: &[(&str, Option<&str>)] = &[("class", Some("x")), ("b", None), ("c", Some("'>&lt;"))];
            if is_void(&n) { forms.push(vec![elem(&n, a, Kind::Void, vec![]), text("t")]); continue; }
            forms.push(vec![elem(&n, a, Kind::SelfClosed, vec![]), text("t")]);
            forms.push(vec![elem(&n, a, Kind::Normal, vec![if is_raw(&n) { Node::Raw("<a>&".into()) } else { text("&lt;") }])]);
            forms.push(vec![elem(&n, a, Kind::Normal, vec![]), Node::Comment(" -> ".into())]);
        }
    }
    let on_x: Vec<Prog> = chains(&el_ops, 2, true).into_iter().map(|c| prog(&[any(".x", &c)])).collect();
    let mut v = vec![
        product_by("pairs of operations", "all pairs of operations on whole documents", docs_upto(tier.pick(3, 4), &l1), two.clone(), j.clone()),
        product_by("pairs of operations, other constructs", "the same with raw text elements, comments, mixed case", docs_upto(tier.pick(3, 3), &l2), two, j.clone()),
        product_by("pairs on elements", "all pairs of operations on elements", docs_upto(tier.pick(2, 3), &l1).into_iter().chain(docs_upto(2, &l2)).collect(), e2, j.clone()),
        programs_by("triples on elements", "all triples of operations on elements", docs(&["<a>1<a/></a>t", "<b class=\"x\"><a class=\"x y\"><br><a>2</a></a>t</b><a class=\"x\" />"]), e3, j.clone()),
        product_by("insertions", "every kind of content before, after, in place of and in the contents of every kind of element", docs_upto(tier.pick(3, 4), &l1).into_iter().chain(docs_upto(tier.pick(3, 4), &l2)).collect(), ins, j.clone()),
        product_by("element forms", "every special element name in every form under all pairs of operations", forms, on_x, j.clone()),
        sized_by(tier.pick(20, 140), tier.pick(1_100, 10_000), small_progs(), j.clone()),
        product_by("element names", "every operation on documents with elements of special names around, in and next to others", super::select::all_named_docs(true), small_progs(), j.clone()),
        hardly(tier, j),
    ];
    v.extend(inserted(tier));
    v
}

