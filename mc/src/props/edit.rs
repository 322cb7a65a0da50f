//! Operations on elements: C13, C14 and C15.

use super::gen::*;
use super::progs::*;
use super::vocab::*;
use super::select::{docs_upto, labels, labels2};
use std::sync::Arc;
use crate::engine::*;
use crate::model::*;
use crate::prog::{self, intern, prog, AttrOp, Content, Items, Op, Prog, Scope, TForm, Val, S};
use crate::real;

// --------------------------------------------------------------------------------------------- C13

fn contents(tier: Tier) -> Vec<Content> {
    let mut v = vec![Content::Str("z"), Content::Str(""), tmpl("<a><b class=\"x\">n</b></a>"), tmpl("<br>"), tmpl(""), Content::Element("a"), Content::OkStr("&")];
    v.extend([Content::Tmpl("<!--c--><b/>1".into(), TForm::Rc), Content::Stream("<i>1</i>".into(), 0b1011), Content::DataOwned("<".into())]);
    if tier == Tier::Thorough { v.extend([Content::Int(7), Content::Tmpl("</a>".replace("</a>", "<a/><a/>").as_str().into(), TForm::Owned), Content::ValRef("q".into()), tmpl("<script><a></script>")]); }
    v
}
fn edits(cs: &[Content]) -> Vec<Op> {
    let mut v = vec![Op::Remove, Op::RemoveC];
    for c in cs {
        let c = || c.clone();
        v.extend([Op::Prepend(c()), Op::Append(c()), Op::Replace(c()), Op::PrependC(c()), Op::AppendC(c()), Op::ReplaceC(c())]);
    }
    v
}

fn targets(chains: &[Vec<Op>], sels: &[S]) -> Vec<Prog> {
    let mut v = Vec::new();
    for c in chains {
        if prog::well_typed(c, false) { v.push(prog(c)); }
        for s in sels { v.push(prog(&[any(s, c)])); }
    }
    v
}

fn sizes_c13(tier: Tier) -> Family {
    let mut sz = sizes(tier.pick(40, 300), tier.pick(17_000, 70_000));
    sz.reverse();
    const N: usize = 8;
    split("sizes", format!("{N} shapes (contents, siblings and depth of the target, inserted contents, number of targets, repeated insertion, element names) at each of {} sizes up to {}, every operation", sz.len(), sz[0]), sz.len() * N, 1, move |i, cx| {
        let (n, k) = (sz[i / N], i % N);
        let r = |s: &str| s.repeat(n);
        let m = n.min(200);
        let (src, c): (String, String) = match k {
            0 => (format!("<q>{}</q>t", r("<i/>u")), "z".into()),
            1 => (format!("{}<q>1</q>{}", r("<i/>u"), r("<q/><br>")), "<z/>".into()),
            2 => (format!("<q>{}{}</q>t", r("<q>"), r("</q>")), "<q></q>".into()),
            3 => (format!("{}<q>1</q><q/>{}", r("<i>"), r("</i>")), "z".into()),
            4 => ("<q>1</q>t".into(), r("<z>1</z>")),
            5 => ("<q/><br><q>1</q>".into(), format!("{}{}", r("<q>"), r("</q>"))),
            6 => ("<q>1</q><q/>".into(), r("\u{20ac}")),
            _ => (format!("<q{}>t</q{}>", r("x"), r("X")), "z".into()),
        };
        let doc = parse_doc(&src);
        let Some(t) = cx.setup(|| format!("shape {k} of size {n}"), || real::tmpl(&src)) else { return };
        let c = tmpl(&c);
        let target: S = if k == 7 { intern(&format!("q{}", r("x"))) } else { "q" };
        for o in edits(&[c.clone()]) {
            let p = prog(&[any(target, &[o.clone()])]);
            cx.case(|| format!("shape {k} of size {n}, {}", clip(&format!("{o:?}"), 60)), |rec| agree(&t, &doc, &p, rec));
            if k != 0 || n > 2000 { continue; }
            // the same operation many times over
            let p = prog(&[any("q", &vec![o.clone(); if o.elem_after(true) { m } else { 1 }])]);
            cx.case(|| format!("shape {k} of size {n}, {m} times {}", clip(&format!("{o:?}"), 60)), |rec| agree(&t, &doc, &p, rec));
            if prog::well_typed(&[o.clone()], false) {
                let p = prog(&vec![o.clone(); m]);
                cx.case(|| format!("shape {k} of size {n}, {m} times {}", clip(&format!("{o:?}"), 60)), |rec| agree(&t, &doc, &p, rec));
            }
        }
    })
}

pub fn c13(tier: Tier) -> Vec<Family> {
    let ops = edits(&contents(tier));
    let (l1, l2) = (labels(), labels2());
    let one = chains(&ops, 1, true);
    let two: Vec<Vec<Op>> = chains(&ops, 2, true).into_iter().filter(|c| c.len() == 2).collect();
    let small = edits(&contents(Tier::Quick)[..3]);
    let three: Vec<Vec<Op>> = chains(&small, tier.pick(3, 4), true).into_iter().filter(|c| c.len() >= 3).collect();
    vec![
        product("single operations", "one operation with each content on the whole, and on the selected elements", docs_upto(tier.pick(4, 5), &l1), targets(&one, &["a", ".x", "br"])),
        product("single operations, other constructs", "the same on documents with raw text elements, comments and mixed case", docs_upto(tier.pick(4, 5), &l2), targets(&one, &["a", "#i", "title"])),
        product("pairs of operations", "all well-typed pairs", docs_upto(tier.pick(2, 3), &l1), targets(&two, &["a", "br"])),
        product("sequences of operations", format!("all well-typed sequences of up to {} operations", tier.pick(3, 4)), docs_upto(tier.pick(2, 2), &l1), targets(&three, &["a"])),
        product("deep targets", "operations on the contents of elements inside of other elements, all scopes", docs_upto(3, &l1), {
            let mut v = Vec::new();
            for c in chains(&small, 1, true) { for s in Scope::STREAM { for q in Scope::SUB { for x in ["a", "br"] {
                v.push(prog(&[sel(s, "a", &[sel(q, x, &c)])]));
                let mut d = vec![sel(q, x, &c)];
                d.extend(c.clone());
                v.push(prog(&[sel(s, "a", &d)]));
            } } } }
            v
        }),
        sizes_c13(tier),
        element_names(tier),
        content_forms(tier),
        super::compose::hardly(tier, Arc::new(agree)),
    ]
}

/// Any markup can be inserted, whatever form it is given in.
fn content_forms(tier: Tier) -> Family {
    let mut given: Vec<Vec<Node>> = docs_upto(tier.pick(2, 3), &labels()).into_iter().chain(docs_upto(tier.pick(2, 3), &labels2())).collect();
    given.extend(super::select::all_named_docs(false).into_iter().step_by(tier.pick(3, 1)));
    let on = docs(&["<a>1<b/></a>t", "<a/>", "<br><a><a class=\"x\"></a></a><!--c-->"]);
    let space = format!("{} documents in each of 9 forms (owned, borrowed, shared, results, streams with no-ops) before, after, in place of and within elements", given.len());
    let per = 20;
    split("inserted documents", space, (given.len() + per - 1) / per, 1, move |j, cx| {
        let Some(ts) = cx.setup(|| "documents".into(), || on.iter().map(|d| real::tmpl(&render(d))).collect::<Result<Vec<_>, _>>()) else { return };
        for d in &given[j * per..((j + 1) * per).min(given.len())] {
            let src: Arc<str> = render(d).as_str().into();
            let mut forms: Vec<Content> = [TForm::Owned, TForm::Borrowed, TForm::Rc, TForm::Ok].into_iter().map(|f| Content::Tmpl(src.clone(), f)).collect();
            forms.extend([0, 1, 0b10, 0b1_0110, u64::MAX].map(|m| Content::Stream(src.clone(), m)));
            for c in forms {
                let ops = [Op::Prepend(c.clone()), Op::Append(c.clone()), Op::Replace(c.clone()), Op::PrependC(c.clone()), Op::AppendC(c.clone()), Op::ReplaceC(c.clone())];
                for o in ops {
                    if cx.stopped() { return; }
                    let mut progs = vec![prog(&[any("a", &[o.clone()])]), prog(&[sel(Scope::DirectOnce, "a", &[o.clone(), Op::Append(Content::Str("z"))])])];
                    if !o.needs_elem() { progs.push(prog(&[o])); }
                    for p in progs { for (t, doc) in ts.iter().zip(&on) {
                        cx.case(|| show_case(doc, &p), |rec| agree(t, doc, &p, rec));
                    } }
                }
            }
        }
    })
}

/// Contents operations by kind of element for every special name.
fn element_names(tier: Tier) -> Family {
    let mut names: Vec<String> = Vec::new();
    for n in VOID.iter().chain(RAW.iter()) { names.extend(if tier == Tier::Thorough { cases(n) } else { vec![n.to_string(), n.to_uppercase(), format!("{}{}", n[..1].to_uppercase(), &n[1..])] }); names.push(format!("{n}x")); }
    for n in ELEMENTS.iter().filter(|n| !is_void(n) && !is_raw(n)) { names.push(n.to_string()); }
    let progs: Vec<Prog> = edits(&[Content::Str("z"), tmpl("<i>1</i>"), tmpl("<br><u/>")]).into_iter().map(|o| prog(&[any(".k", &[o])])).collect();
    let mut docs = Vec::new();
    for n in &names {
        let a: &[(&str, Option<&str>)] = &[("class", Some("k")), ("b", None)];
        if is_void(n) { docs.push(vec![text("1"), elem(n, a, Kind::Void, vec![]), text("2")]); continue; }
        docs.push(vec![text("1"), elem(n, a, Kind::SelfClosed, vec![]), text("2")]);
        docs.push(vec![elem(n, a, Kind::Normal, vec![]), elem("p", &[], Kind::SelfClosed, vec![])]);
        docs.push(vec![elem(n, a, Kind::Normal, vec![if is_raw(n) { Node::Raw("<b>".into()) } else { text("b") }])]);
    }
    product("element names", "void, raw text and ordinary names in each kind of tag", docs, progs)
}

// --------------------------------------------------------------------------------------------- C14

fn pool() -> Vec<(S, Option<S>)> {
    vec![("a", Some("1")), ("A", Some("2 3")), ("a", None), ("a", Some("")), ("b", Some("&amp;")), ("class", Some("x")), ("class", Some(" y  X\tz ")), ("CLASS", Some("x x")), ("class", None),
        ("class", Some("")), ("id", Some("i")), ("ID", None), ("ab", Some("x")), ("Class", Some("xy"))]
}

fn attr_ops(few: bool) -> Vec<Op> {
    use AttrOp::*;
    let names: &[S] = if few { &["a", "CLASS", "id", "n"] } else { &["a", "A", "b", "class", "CLASS", "id", "Id", "n", "ab"] };
    let mut v = Vec::new();
    for n in names {
        for x in [Val::Str("v"), Val::Str(""), Val::ValOwned("<q>".into())] {
            if few && x == Val::ValOwned("<q>".into()) { continue; }
            v.extend([Add(n, Some(x.clone())), AddV(n, x.clone()), ReplaceIf(n, x.clone()), Set(n, Some(x.clone())), SetV(n, x.clone())]);
            if few { v.truncate(v.len() - 2); v.push(SetV(n, x.clone())); }
            v.push(AddTo(n, x.clone(), Val::Str("-")));
            v.push(AddTo(n, x, Val::Str("")));
        }
        v.extend([Add(n, None), AddEmpty(n), Set(n, None), SetEmpty(n), Remove(n)]);
        v.push(SetV(n, Val::Int(-5)));
    }
    for c in if few { &["x", "n"][..] } else { &["x", "X", "y", "z", "n", "xy", "x-y"] } { v.extend([AddClass(c), RemoveClass(c)]); }
    v.extend([RemoveId, SetId("i"), SetId("J")]);
    v.into_iter().map(Op::Attr).collect()
}

fn with_attrs(lens: std::ops::RangeInclusive<usize>, pool: &[(S, Option<S>)], kinds: &[Kind]) -> Vec<Vec<Node>> {
    let mut v = Vec::new();
    for k in kinds { for len in lens.clone() { sequences(pool.len(), len, &[], &mut |q| {
        let attrs: Vec<(&str, Option<&str>)> = q.iter().map(|i| pool[*i]).collect();
        let other = elem("u", &attrs, Kind::SelfClosed, vec![]);
        let e = match k {
            Kind::Normal => elem("p", &attrs, *k, vec![text("t"), elem("p", &attrs, Kind::SelfClosed, vec![]), other.clone()]),
            Kind::Void => elem("br", &attrs, *k, vec![]),
            Kind::SelfClosed => elem("p", &attrs, *k, vec![]),
        };
        v.push(vec![other, e, text("t")]);
    }) } }
    v
}

fn on_element(chains: Vec<Vec<Op>>) -> Vec<Prog> {
    // both names: one of them is in the document
    chains.into_iter().map(|c| prog(&[sel(Scope::Direct, "p", &c), sel(Scope::Any, "br", &c)])).collect()
}

fn sizes_c14(tier: Tier) -> Family {
    let mut sz = sizes(tier.pick(70, 300), tier.pick(66_000, 70_000));
    sz.reverse();
    const N: usize = 7;
    split("sizes", format!("{N} shapes (number of attributes, equal attributes, class words, class attributes, length of values, number of operations, matching elements) at each of {} sizes up to {}", sz.len(), sz[0]), sz.len() * N, 1, move |i, cx| {
        let (n, k) = (sz[i / N], i % N);
        let attrs: Vec<Attr> = match k {
            0 => (0..n).map(|i| (format!("a{i}"), Some(i.to_string()))).chain([("x".to_string(), Some("y".to_string()))]).collect(),
            1 => (0..n).map(|i| (if i % 2 == 0 { "x" } else { "X" }.to_string(), if i % 3 == 0 { None } else { Some(i.to_string()) })).chain([("z".to_string(), None)]).collect(),
            2 => vec![("x".into(), None), ("class".into(), Some((0..n).map(|i| if i % 4 == 1 { "c".to_string() } else { format!("w{i}") }).collect::<Vec<_>>().join(" ")))],
            3 => (0..n).map(|i| ("class".to_string(), Some(if i % 2 == 0 { "c".into() } else { format!("c w{i}") }))).collect(),
            4 => vec![("class".into(), Some("v".repeat(n))), ("x".into(), Some("\u{e9}".repeat(n)))],
            5 => vec![("x".into(), Some("1".into())), ("class".into(), Some("c".into())), ("id".into(), Some("i".into()))],
            _ => vec![("x".into(), None)],
        };
        let e = Node::Elem(Elem { tag: "p".into(), attrs, kind: Kind::SelfClosed, kids: vec![], close: "p".into() });
        let doc: Vec<Node> = if k == 6 { (0..n).map(|_| e.clone()).collect() } else { vec![e] };
        let src = render(&doc);
        let Some(t) = cx.setup(|| format!("shape {k} of size {n}"), || real::tmpl(&src)) else { return };
        use AttrOp::*;
        let long = intern(&"v".repeat(n + 1));
        let v = || Val::Str("1");
        let last = intern(&format!("a{}", n.saturating_sub(1)));
        for a in [SetV("x", v()), AddTo("x", v(), Val::Str("-")), AddV("x", v()), ReplaceIf("x", v()), Remove("x"), SetEmpty("X"), AddClass("c"), RemoveClass("c"), RemoveClass("v"), SetId("j"), RemoveId,
            Remove(last), SetV(last, v()), AddTo(last, v(), v()), Remove("a0"), SetV("x", Val::Str(long)), AddTo("x", Val::Str(long), Val::Str(long)), AddClass(long), RemoveClass(long), Remove(long), AddEmpty(long)] {
            // long names and values on many attributes or elements would be of quadratic cost
            if n > 5000 && matches!(k, 0..=3 | 6) && matches!(a, SetV(_, Val::Str(s)) | AddTo(_, Val::Str(s), _) | AddClass(s) | RemoveClass(s) | Remove(s) | AddEmpty(s) if s.len() > n) { continue; }
            let o = Op::Attr(a);
            let p = prog(&[any("p", &[o.clone()])]);
            cx.case(|| format!("shape {k} of size {n}, {}", clip(&format!("{o:?}"), 80)), |rec| agree(&t, &doc, &p, rec));
            if k == 5 && n <= 300 {
                let p = prog(&[any("p", &vec![o.clone(); n])]);
                cx.case(|| format!("{n} times {}", clip(&format!("{o:?}"), 80)), |rec| agree(&t, &doc, &p, rec));
            }
        }
    })
}

/// Attribute names and values that mean something.
fn standard_attributes() -> Vec<Family> {
    let valid = |n: &str| crate::refparse::name_faults(n).is_empty();
    let names: Vec<&'static str> = ATTRIBUTES.iter().copied().filter(|n| valid(n)).collect();
    let values: Vec<&'static str> = VALUES.iter().chain(WORDS.iter()).copied().filter(|v| !v.contains('"')).collect();
    use AttrOp::*;
    let ops = |n: S, v: S| -> Vec<Prog> {
        let v = || Val::Str(v);
        [Add(n, Some(v())), AddV(n, v()), AddEmpty(n), AddTo(n, v(), Val::Str(" ")), AddTo(n, v(), v()), ReplaceIf(n, v()), Set(n, None), SetV(n, v()), SetEmpty(n), Remove(n), AddClass("x"), RemoveClass("x"), RemoveClass(n), SetId("j"), RemoveId]
            .into_iter().map(|a| prog(&[any("p", &[Op::Attr(a.clone())]), any("br", &[Op::Attr(a)])])).collect()
    };
    let (n1, v1) = (names.clone(), values.clone());
    vec![
        split("standard attributes", format!("each of {} attribute names of HTML and relatives without and with several values, once and twice, under every attribute operation by that name", names.len()), names.len(), 1, move |i, cx| {
            let n = n1[i];
            let up = n.to_uppercase();
            let mut docs = Vec::new();
            for v in [None, Some(""), Some("true"), Some("false"), Some("1"), Some(n), Some(" a  b "), Some("x:y;z"), Some("/a?b&amp;c")] {
                for l in [vec![(n, v)], vec![("k", Some("1")), (&up, v), ("l", None)], vec![(n, v), ("class", Some("x y")), (&up, Some("2"))]] {
                    docs.push(vec![elem("p", &l, Kind::Normal, vec![text("t")]), elem("br", &l, Kind::Void, vec![])]);
                }
            }
            docs.push(vec![elem("p", &[("k", Some("1"))], Kind::SelfClosed, vec![]), elem("br", &[], Kind::Void, vec![])]);
            let progs: Vec<Prog> = ["v", n, ""].iter().flat_map(|v| ops(n, v)).collect();
            for d in &docs { for p in &progs { cx.case(|| show_case(d, p), |rec| agree(&real::tmpl(&render(d))?, d, p, rec)); } }
        }),
        split("words as values", format!("each of {} words as the value that is there and as the value that is given, by every attribute operation on a, class and id", values.len()), values.len(), 1, move |i, cx| {
            let v = v1[i];
            for n in ["a", "class", "id"] {
                for l in [vec![(n, Some(v))], vec![("k", Some(v)), ("class", Some("x y"))], vec![(n, Some("1"))]] {
                    let d = vec![elem("p", &l, Kind::Normal, vec![]), elem("br", &l, Kind::Void, vec![])];
                    for p in [ops(n, v), ops(n, "z")].concat() { cx.case(|| show_case(&d, &p), |rec| agree(&real::tmpl(&render(&d))?, &d, &p, rec)); }
                }
            }
        }),
    ]
}

/// Class values character by character.
fn class_values(tier: Tier) -> Family {
    strings("class values", "", vec!["x", "y", "X", " ", "\n", "\t", "-", "\u{e9}", "&amp;", "\r"], tier.pick(5, 6), "", vec![""], move |v, cx| {
        let doc = vec![elem("p", &[("class", Some(v)), ("a", Some(v)), ("Class", Some(v))], Kind::SelfClosed, vec![])];
        for a in [AttrOp::RemoveClass("x"), AttrOp::RemoveClass("Xy"), AttrOp::AddClass("x"), AttrOp::AddTo("a", Val::Str("x"), Val::Str(","))] {
            let p = prog(&[any("p", &[Op::Attr(a)])]);
            cx.case(|| show_case(&doc, &p), |rec| agree(&real::tmpl(&render(&doc))?, &doc, &p, rec));
        }
    })
}

pub fn c14(tier: Tier) -> Vec<Family> {
    let kinds = [Kind::Normal, Kind::SelfClosed, Kind::Void];
    let (all, few) = (attr_ops(false), attr_ops(true));
    let p = pool();
    let one: Vec<Vec<Op>> = all.iter().map(|o| vec![o.clone()]).collect();
    let two: Vec<Vec<Op>> = chains(&few, 2, true).into_iter().filter(|c| c.len() == 2).collect();
    let ins = [Op::Remove, Op::RemoveC, Op::AppendC(Content::Str("z")), Op::PrependC(tmpl("<p a=\"1\"/>")), Op::ReplaceC(tmpl("<u/>")), Op::SubContents(prog(&[any("u", &[Op::Attr(AttrOp::SetEmpty("s"))])])),
        Op::RepeatC(Items::Range(0, 2), prog(&[])), Op::Repeat(Items::Range(0, 2), prog(&[Op::Attr(AttrOp::SetV("a", Val::Item))])), Op::BoxedElement, sel(Scope::SubAny, "u", &[Op::Attr(AttrOp::AddClass("s"))])];
    let mut mixed = Vec::new();
    for a in &few { for b in &ins {
        if b.elem_after(true) { mixed.push(vec![b.clone(), a.clone()]); }
        mixed.push(vec![a.clone(), b.clone()]);
    } }
    let mut v = vec![
        product("single operations", format!("attribute lists of at most {} attributes from a pool of {}, on all kinds of elements", tier.pick(2, 3), p.len()), with_attrs(0..=tier.pick(2, 3), &p, &kinds), on_element(one)),
        product("pairs of operations", "all pairs of operations", with_attrs(0..=tier.pick(1, 2), &p, &kinds), on_element(two)),
        product("with other operations", "attribute operations before and after operations on the contents", with_attrs(0..=1, &p, &kinds), on_element(mixed)),
        class_values(tier),
        sizes_c14(tier),
    ];
    v.extend(standard_attributes());
    if tier == Tier::Quick {
        v.push(product("lists of three", "attribute lists of three attributes, one operation", with_attrs(3..=3, &p, &[Kind::Void]), on_element(few.iter().map(|o| vec![o.clone()]).collect())));
    }
    let pairs = prog_pairs(&few);
    v.push(product("selected twice", "operations on what other operations made match", with_attrs(0..=1, &p, &[Kind::Normal]), pairs));
    if tier == Tier::Thorough {
        let some: Vec<Op> = few.iter().step_by(2).cloned().collect();
        v.push(product("triples of operations", "all triples of half of the operations", with_attrs(0..=1, &p, &[Kind::SelfClosed]), on_element(chains(&some, 3, true).into_iter().filter(|c| c.len() == 3).collect())));
    }
    v
}
fn prog_pairs(ops: &[Op]) -> Vec<Prog> {
    let mut v = Vec::new();
    for a in ops { for s in [".x", "#i", ".n", "#J"] { v.push(prog(&[any("p", &[a.clone()]), any(s, &[Op::Attr(AttrOp::AddEmpty("hit"))])])); } }
    v
}

// --------------------------------------------------------------------------------------------- C15

fn items() -> Vec<Items> {
    vec![Items::Range(0, 0), Items::Range(5, 6), Items::Range(0, 2), Items::Range(0, 3), Items::Vec(vec![]), Items::Vec(vec![7, 7, -1]), Items::Filtered(0, 1), Items::Filtered(1, 2), Items::Filtered(1, 6)]
}
fn bodies(elem: bool) -> Vec<Vec<Op>> {
    let m = || Op::Mark(1);
    let mut v = vec![vec![m()], vec![m(), Op::Append(Content::Item)], vec![m(), Op::Replace(Content::Item)], vec![m(), Op::Remove], vec![m(), any("a", &[Op::Attr(AttrOp::SetV("n", Val::Item)), Op::PrependC(Content::Item)])],
        vec![m(), sel(Scope::DirectOnce, "a", &[Op::Replace(Content::Item), Op::Mark(2)])], vec![m(), Op::Repeat(Items::Range(0, 2), prog(&[Op::Prepend(Content::Item)]))], vec![m(), Op::ApplyTemplate(prog(&[]))],
        vec![m(), any("a", &[Op::Repeat(Items::Range(0, 2), prog(&[Op::Attr(AttrOp::AddTo("n", Val::Item, Val::Str(" ")))]))])], vec![m(), Op::Boxed]];
    if elem {
        v.extend([vec![m(), Op::Attr(AttrOp::SetV("n", Val::Item))], vec![m(), Op::ReplaceC(Content::Item)], vec![m(), Op::RepeatC(Items::Range(0, 2), prog(&[Op::Append(Content::Item), Op::Mark(2)]))],
            vec![m(), sel(Scope::SubOnce, "a", &[Op::Attr(AttrOp::SetV("n", Val::Item))])], vec![m(), Op::AppendC(Content::Item), Op::Append(Content::Str(","))]]);
    }
    v
}
fn fallbacks(elem: bool) -> Vec<Vec<Op>> {
    let m = || Op::Mark(3);
    let mut v = vec![vec![m()], vec![m(), Op::Replace(Content::Str("none"))], vec![m(), any("a", &[Op::Attr(AttrOp::SetEmpty("none"))])]];
    if elem { v.extend([vec![m(), Op::Attr(AttrOp::SetEmpty("none"))], vec![m(), Op::ReplaceC(Content::Str("none"))]]); }
    v
}

/// All forms of repetition on an element (or, without `elem`, on a stream).
fn repeats(items: &[Items], bodies: &dyn Fn(bool) -> Vec<Vec<Op>>, elem: bool) -> Vec<Op> {
    let mut v = Vec::new();
    for i in items {
        for b in bodies(elem) {
            v.push(Op::Repeat(i.clone(), prog(&b)));
            for f in fallbacks(elem) { v.push(Op::RepeatElse(i.clone(), prog(&b), prog(&f))); }
        }
        if elem {
            for b in bodies(false) {
                v.push(Op::RepeatC(i.clone(), prog(&b)));
                for f in fallbacks(true) { v.push(Op::RepeatCElse(i.clone(), prog(&b), prog(&f))); }
            }
        }
    }
    v
}

fn sizes_c15(tier: Tier) -> Family {
    let mut sz = sizes(tier.pick(100, 400), tier.pick(5_000, 140_000));
    if tier == Tier::Quick { sz.extend([65_535, 65_536, 65_537]); }
    sz.reverse();
    const N: usize = 5;
    split("sizes", format!("{N} shapes (number of items, size of the repeated stream, depth, nested repetition, number of repeated elements) at each of {} sizes up to {}", sz.len(), sz[0]), sz.len() * N, 1, move |i, cx| {
        let (n, k) = (sz[i / N], i % N);
        let r = |s: &str| s.repeat(n);
        let (src, count) = match k {
            0 | 3 => ("<q>1</q>".to_string(), n),
            1 => (format!("<q>{}</q>", r("<i/>t")), 3),
            2 => (format!("<q>{}{}</q>", r("<q>"), r("</q>")), 3),
            _ => (r("<q>1</q>"), 2),
        };
        if k != 0 && n > 5000 && tier == Tier::Quick { return; }
        let doc = parse_doc(&src);
        let Some(t) = cx.setup(|| format!("shape {k} of size {n}"), || real::tmpl(&src)) else { return };
        let it = Items::Range(0, count as i64);
        let app = prog(&[Op::Append(Content::Item)]);
        let mut ps = vec![any("q", &[Op::Repeat(it.clone(), app.clone())]), any("q", &[Op::RepeatC(it.clone(), app.clone())]), any("q", &[Op::RepeatElse(it.clone(), app.clone(), prog(&[]))]),
            any("q", &[Op::RepeatCElse(it.clone(), app.clone(), prog(&[]))]), Op::Repeat(it.clone(), app.clone()), any("q", &[Op::Repeat(it.clone(), prog(&[Op::Attr(AttrOp::SetV("n", Val::Item))]))])];
        if k == 3 {
            let m = (n as f64).sqrt() as i64;
            ps = vec![Op::Repeat(Items::Range(0, m), prog(&[Op::Append(Content::Item), Op::Repeat(Items::Range(0, m), app.clone())])),
                any("q", &[Op::RepeatC(Items::Range(0, m), prog(&[Op::Append(Content::Item), Op::Repeat(Items::Range(0, m), app.clone())]))])];
        }
        for p in ps {
            let p = prog(&[p]);
            cx.case(|| format!("shape {k} of size {n} through html{}", prog::show_prog(&p)), |rec| agree(&t, &doc, &p, rec));
        }
    })
}

/// An iterator that starts over after its end, and tells how often it was asked.
#[derive(Clone)]
struct Restarting { items: Vec<i64>, at: usize, hint: u8 }
impl Iterator for Restarting {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        let i = self.items.get(self.at).copied();
        self.at = if self.at >= self.items.len() { 0 } else { self.at + 1 };
        i
    }
    // all of them correct
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len().saturating_sub(self.at);
        match self.hint { 0 => (0, None), 1 => (n, Some(n)), 2 => (n.min(1), None), 3 => (0, Some(n + 3)), 4 => (0, Some(usize::MAX)), 5 => (n / 2, Some(n * 2)), _ => (n, None) }
    }
}

/// What the library does with iterators that are not well-behaved, and with those of other types.
fn iterators() -> Family {
    Family::new("iterators", "iterators of other kinds: starting over after their end, with size hints of seven kinds, with drop-observed and non-clonable items, borrowed, infinite ones cut off", 1, move |_, cx| {
        let src = "<q>1</q><r/>";
        for n in 0..6i64 { for hint in 0..7 {
            let it = Restarting { items: (0..n).collect(), at: 0, hint };
            let copies = |f: &dyn Fn(i64) -> String| (0..n).map(|i| f(i)).collect::<String>();
            let run = |what: &str, want: String, r: &dyn Fn(&html5_fuser::Template) -> Result<html5_fuser::Template, html5_fuser::StreamError>, cx: &mut Cx| {
                cx.case(|| format!("{what}, {n} items, size hint of kind {hint}, then starting over"), |rec| {
                    rec.step(1);
                    let t = real::tmpl(src)?;
                    let got = r(&t).map_err(|e| format!("{e:?}"))?.to_string();
                    rec.state(&got);
                    if got == want { Ok(()) } else { Err(format!("{got:?}, expected {want:?}")) }
                });
            };
            let i = it.clone();
            run("repeat", copies(&|k| format!("<q>1</q><r />{k}")), &|t| t.transform(|h| h.repeat(i.clone(), |h, k| h.append(k))), cx);
            run("repeat in select", format!("{}<r />", copies(&|k| format!("<q n=\"{k}\">1</q>"))), &|t| t.transform(|h| h.select("q", |h| h.repeat(i.clone(), |h, k| h.set_attribute_with_value("n", k)))), cx);
            run("repeat_contents", format!("<q>{}</q><r />", copies(&|k| format!("1{k}"))), &|t| t.transform(|h| h.select("q", |h| h.repeat_contents(i.clone(), |h, k| h.append(k)))), cx);
            run("repeat_contents self-closed", format!("<q>1</q><r>{}</r>", copies(&|k| format!("{k}"))), &|t| t.transform(|h| h.select("r", |h| h.repeat_contents(i.clone(), |h, k| h.append(k)))), cx);
            let none = n == 0;
            run("repeat_or_else", if none { "<q>1</q><r />none".into() } else { copies(&|k| format!("<q>1</q><r />{k}")) }, &|t| t.transform(|h| h.repeat_or_else(i.clone(), |h, k| h.append(k), |h| h.append("none"))), cx);
            run("repeat_contents_or_else", format!("<q>{}</q><r />", if none { "1none".into() } else { copies(&|k| format!("1{k}")) }),
                &|t| t.transform(|h| h.select("q", |h| h.repeat_contents_or_else(i.clone(), |h, k| h.append(k), |h| h.append_contents("none")))), cx);
        } }
        for n in 0..5usize {
            cx.case(|| format!("{n} items that are not clonable, each handed over once"), |rec| {
                use std::cell::Cell;
                use std::rc::Rc;
                struct Item { n: usize, dropped: Rc<Cell<usize>> }
                impl Drop for Item { fn drop(&mut self) { self.dropped.set(self.dropped.get() + 1) } }
                let t = real::tmpl(src)?;
                for form in 0..4 {
                    let dropped = Rc::new(Cell::new(0));
                    let list: Vec<Item> = (0..n).map(|n| Item { n, dropped: dropped.clone() }).collect();
                    let mut seen = Vec::new();
                    {
                        let s = std::cell::RefCell::new(&mut seen);
                        let r = match form {
                            0 => t.transform(|h| h.repeat(list, |h, i| { s.borrow_mut().push(i.n); h })),
                            1 => t.transform(|h| h.select("q", |h| h.repeat(list.iter().map(|i| i.n).collect::<Vec<_>>(), |h, i| { s.borrow_mut().push(i); h }))),
                            2 => t.transform(|h| h.repeat_or_else(list, |h, i| { s.borrow_mut().push(i.n); h }, |h| h)),
                            _ => t.transform(|h| h.repeat(list.iter(), |h, i: &Item| { s.borrow_mut().push(i.n); h.append(i.n) })),
                        };
                        r.map_err(|e| format!("{e:?}"))?;
                    }
                    rec.step(1);
                    if seen != (0..n).collect::<Vec<_>>() { return Err(format!("form {form}: items {seen:?}")); }
                    let kept = if form == 1 || form == 3 { dropped.get() } else { n };
                    if dropped.get() != kept { return Err(format!("form {form}: {} of {n} items released", dropped.get())); }
                }
                Ok(())
            });
            cx.case(|| format!("an infinite iterator cut off after {n}"), |rec| {
                rec.step(1);
                let t = real::tmpl("<q/>")?;
                let r = t.transform(|h| h.repeat((1..).take(n), |h, i: i32| h.append(i))).map_err(|e| format!("{e:?}"))?;
                let want: String = (1..=n).map(|i| format!("<q />{i}")).collect();
                if r.to_string() == want { Ok(()) } else { Err(r.to_string()) }
            });
        }
    })
}

pub fn c15(tier: Tier) -> Vec<Family> {
    let (l1, l2) = (labels(), labels2());
    let it = items();
    let elem_ops = repeats(&it, &bodies, true);
    let stream_ops = repeats(&it, &bodies, false);
    let on = |ops: &[Op], s: &[S]| -> Vec<Prog> { ops.iter().flat_map(|o| s.iter().map(move |s| prog(&[any(s, &[o.clone()])]))).collect() };
    let d = |n: usize| docs_upto(n, &l1);
    let few_items = [Items::Range(0, 0), Items::Range(0, 1), Items::Range(0, 2), Items::Filtered(0, 3)];
    let few = |elem: bool| -> Vec<Vec<Op>> { let b = bodies(elem); let n = b.len(); b.into_iter().enumerate().filter(|(i, _)| [0, 1, 2, 4].contains(i) || *i + 3 > n).map(|x| x.1).collect() };
    // nested: a repetition in each body
    let inner = |e: bool| -> Vec<Vec<Op>> { repeats(&few_items, &|e| few(e).into_iter().take(3).collect(), e).into_iter().map(|o| vec![Op::Append(Content::Item), Op::Mark(4)].into_iter().filter(|x| !e || !matches!(x, Op::Append(_))).chain([o]).collect()).collect() };
    let nested_elem = repeats(&few_items, &inner, true);
    let nested_stream = repeats(&few_items, &inner, false);
    // one after the other
    let short: Vec<Op> = repeats(&[Items::Range(0, 0), Items::Range(0, 2)], &|e| few(e).into_iter().take(4).collect(), true);
    let pairs: Vec<Vec<Op>> = chains(&short, 2, true).into_iter().filter(|c| c.len() == 2).collect();
    vec![
        product("repeated streams", "every form, item sequence, body and fallback on whole documents", d(tier.pick(3, 4)), stream_ops.iter().map(|o| prog(&[o.clone()])).collect()),
        product("repeated elements", "every form, item sequence, body and fallback on selected elements", d(tier.pick(3, 4)), on(&elem_ops, &["a", "br"])),
        product("other constructs", "the same on raw text elements, comments, mixed case", docs_upto(tier.pick(2, 3), &l2), on(&elem_ops, &["a", "title"])),
        product("element names", "forms of repetition on documents with elements of special names around, in and next to others", super::select::all_named_docs(false), short.iter().flat_map(|o| ["a", "b"].map(|s| prog(&[any(s, &[o.clone()])]))).collect()),
        product("nested repetition of streams", "repetitions within repetitions", d(2), nested_stream.into_iter().map(|o| prog(&[o])).collect()),
        product("nested repetition of elements", "repetitions within repetitions", d(tier.pick(1, 2)), on(&nested_elem, &["a"])),
        product("repetitions in sequence", "all pairs of forms of repetition, one applied to the result of the other", d(tier.pick(2, 3)), pairs.iter().map(|c| prog(&[any("a", c)])).collect()),
        product("items", format!("all item lists of at most {} of three values", tier.pick(5, 7)), docs(&["<a>1</a>t"]), {
            let mut v = Vec::new();
            for len in 0..=tier.pick(5, 7) { sequences(3, len, &[], &mut |q| {
                let i = Items::Vec(q.iter().map(|i| *i as i64).collect());
                for b in [vec![Op::Mark(1), Op::Append(Content::Item)], vec![Op::Mark(1), Op::Replace(Content::Item)]] {
                    v.push(prog(&[Op::RepeatElse(i.clone(), prog(&b), prog(&[Op::Append(Content::Str("-"))]))]));
                    v.push(prog(&[any("a", &[Op::Repeat(i.clone(), prog(&b))])]));
                    v.push(prog(&[any("a", &[Op::RepeatC(i.clone(), prog(&b))])]));
                    v.push(prog(&[any("a", &[Op::RepeatCElse(i.clone(), prog(&b), prog(&[Op::ReplaceC(Content::Str("-"))]))])]));
                }
            }) }
            v
        }),
        sizes_c15(tier),
        iterators(),
    ]
}
