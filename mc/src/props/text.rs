//! Texts, values and names: C09 and C10.

use super::gen::*;
use super::progs::*;
use super::vocab::*;
use crate::engine::*;
use crate::model::*;
use crate::prog::{intern, prog, AttrOp, Content, Failure, Op, Prog, Scope, Sel, TForm, Val, S};
use crate::real;
use crate::refparse::{name_faults, tag_faults};
use html5_fuser::event::{IntoStream, Stream};
use html5_fuser::select::{Class, Classes, Id, Tag};
use html5_fuser::text::{Data, Identifier, IdentifierError, IntoIdentifier, IntoValue, Value};
use html5_fuser::{StreamError, Template};
use std::rc::Rc;
use std::sync::Arc;

// --------------------------------------------------------------------------------------------- C09

const BASE: S = "<b a=\"1 &amp;\"> &lt;&amp; </b>";

/// All ways to hand over one text, each with what it has to give.
fn routes(s: S, rec: &mut Rec) -> Check {
    let e = escape(s);
    let base = real::tmpl(BASE)?;
    let (open, body, close) = ("<b a=\"1 &amp;\">", " &lt;&amp; ", "</b>");
    let all = format!("{open}{body}{close}");
    let mut fail = None;
    let mut n = 0u64;
    macro_rules! eq { ($what:expr, $got:expr, $want:expr) => {{
        n += 1;
        let g: String = $got;
        if g != $want && fail.is_none() { fail = Some(format!("{}: {:?}, expected {:?}", $what, diffclip(&g, &$want), diffclip(&$want, &g))); }
    }} }
    macro_rules! tr { ($what:expr, $want:expr, |$h:ident| $e:expr) => {{
        match base.transform(|$h| $e) {
            Ok(t) => eq!($what, t.to_string(), $want),
            Err(e) => if fail.is_none() { fail = Some(format!("{}: {e:?}", $what)) },
        }
    }} }
    // as content of every operation
    macro_rules! content { ($form:expr, $v:expr) => {{
        tr!(concat!("prepend ", $form), format!("{e}{all}"), |h| h.prepend($v));
        tr!(concat!("append ", $form), format!("{all}{e}"), |h| h.append($v));
        tr!(concat!("replace ", $form), e.clone(), |h| h.replace($v));
        tr!(concat!("inner prepend ", $form), format!("{e}{all}"), |h| h.select("b", |h| h.prepend($v)));
        tr!(concat!("inner append ", $form), format!("{all}{e}"), |h| h.select_direct("b", |h| h.append($v)));
        tr!(concat!("inner replace ", $form), e.clone(), |h| h.select("b", |h| h.replace($v)));
        tr!(concat!("prepend_contents ", $form), format!("{open}{e}{body}{close}"), |h| h.select("b", |h| h.prepend_contents($v)));
        tr!(concat!("append_contents ", $form), format!("{open}{body}{e}{close}"), |h| h.select("b", |h| h.append_contents($v)));
        tr!(concat!("replace_contents ", $form), format!("{open}{e}{close}"), |h| h.select("b", |h| h.replace_contents($v)));
    }} }
    let (data, value) = (Data::from_unencoded_str(s), Value::from_unencoded_str(s));
    content!("&'static str", s);
    content!("Ok(&'static str)", Ok::<_, StreamError>(s));
    content!("static Data", Data::from_unencoded_static_str(s));
    content!("Data", Data::from_unencoded_str(s));
    content!("Data of String", Data::from_unencoded_str(s.to_string()));
    content!("&Data", &data);
    content!("static Value", Value::from_unencoded_static_str(s));
    content!("Value", Value::from_unencoded_str(s));
    content!("&Value", &value);
    content!("Data from Value", Data::from(Value::from_unencoded_str(s)));
    content!("Data from static Value", Data::from(Value::from_unencoded_static_str(s)));
    // as value of every operation
    macro_rules! value { ($form:expr, $v:expr) => {{
        let add = format!("<b a=\"1 &amp;\" c=\"{e}\">{body}{close}");
        let set = format!("<b a=\"{e}\">{body}{close}");
        tr!(concat!("add_attribute_with_value ", $form), add, |h| h.select("b", |h| h.add_attribute_with_value("c", $v)));
        tr!(concat!("add_attribute ", $form), add, |h| h.select("b", |h| h.add_attribute("c", Some($v))));
        tr!(concat!("set_attribute_with_value ", $form), set, |h| h.select("b", |h| h.set_attribute_with_value("a", $v)));
        tr!(concat!("set_attribute ", $form), set, |h| h.select("b", |h| h.set_attribute("a", Some($v))));
        tr!(concat!("new set_attribute ", $form), add, |h| h.select("b", |h| h.set_attribute("c", Some($v))));
        tr!(concat!("replace_attribute_value_if_exists ", $form), set, |h| h.select("b", |h| h.replace_attribute_value_if_exists("a", $v)));
        tr!(concat!("new add_to_attribute ", $form), add, |h| h.select("b", |h| h.add_to_attribute("c", $v, "-")));
        tr!(concat!("add_to_attribute ", $form), format!("<b a=\"1 &amp;-{e}\">{body}{close}"), |h| h.select("b", |h| h.add_to_attribute("a", $v, "-")));
        tr!(concat!("separator of add_to_attribute ", $form), format!("<b a=\"1 &amp;{e}2\">{body}{close}"), |h| h.select("b", |h| h.add_to_attribute("a", "2", $v)));
        tr!(concat!("add_to_attribute twice ", $form), format!("<b a=\"1 &amp;{e}{e}{e}{e}\">{body}{close}"),
            |h| h.select("b", |h| h.add_to_attribute("a", $v, $v).add_to_attribute("a", $v, $v)));
    }} }
    value!("&'static str", s);
    value!("static Value", Value::from_unencoded_static_str(s));
    value!("Value", Value::from_unencoded_str(s));
    value!("Value of String", Value::from_unencoded_str(s.to_string()));
    value!("&Value", &value);
    // as such
    for (w, g) in [
        ("Data", Data::from_unencoded_str(s)), ("static Data", Data::from_unencoded_static_str(s)), ("Data from Value", Data::from(value.clone())),
    ] {
        eq!(w, g.to_string(), e);
        eq!(format!("encoded {w}"), g.as_encoded_ref().to_string(), e);
        eq!(format!("cloned {w}"), g.clone().to_string(), e);
    }
    for (w, g) in [
        ("Value", Value::from_unencoded_str(s)), ("static Value", Value::from_unencoded_static_str(s)), ("into_value", s.into_value()),
        ("Value of &Value", (&value).into_value()),
    ] {
        eq!(w, g.to_string(), e);
        eq!(format!("encoded {w}"), g.as_encoded_ref().to_string(), e);
        eq!(format!("cloned {w}"), g.clone().to_string(), e);
    }
    rec.step(n);
    if e.len() < 400 { rec.state(&e); } else { rec.outcome(&e); }
    match fail { None => Ok(()), Some(f) => Err(f) }
}

/// A few routes, for large spaces.
fn core_routes(s: S, rec: &mut Rec) -> Check {
    let e = escape(s);
    let (d, v) = (Data::from_unencoded_str(s), Value::from_unencoded_str(s));
    let base = real::tmpl("<b a=\"1\"></b>")?;
    let t = base.transform(|h| h.select("b", |h| h.set_attribute_with_value("a", s).add_to_attribute("a", &v, s)
        .prepend_contents(s).append_contents(&d).append(&v).prepend(Data::from(v.clone()))))
        .map_err(|e| format!("{e:?}"))?;
    rec.step(6);
    rec.state(&e);
    let got = t.to_string();
    let want = format!("{e}<b a=\"{e}{e}{e}\">{e}{e}</b>{e}");
    if got != want { return Err(format!("{got:?}, expected {want:?}")); }
    Ok(())
}

/// Integers of one type.
macro_rules! ints {
    ($name:expr, $ty:ty, $list:expr) => {{
        let list: Vec<i128> = $list.into_iter().filter(|i| *i >= <$ty>::MIN as i128 && *i <= <$ty>::MAX as i128).collect();
        split($name, format!("{} values of {}, as content, attribute value and separator", list.len(), stringify!($ty)), list.len(), 2000, move |i, cx| {
            let i = list[i];
            cx.case(|| format!("{} {i}", stringify!($ty)), |rec| {
                let n = i as $ty;
                let want = i.to_string();
                let mut st = n.into_stream();
                let ev = st.next_event().map_err(|e| format!("{e:?}"))?.ok_or("no event")?;
                if ev.to_string() != want { return Err(format!("as content {:?}", ev.to_string())); }
                if st.next_event().map_err(|e| format!("{e:?}"))?.is_some() { return Err("two events".into()); }
                let v = n.into_value();
                if v.to_string() != want { return Err(format!("as value {:?}", v.to_string())); }
                rec.step(2);
                rec.state(&want);
                Ok(())
            });
        })
    }}
}
macro_rules! int_routes {
    ($name:expr, $($ty:ty),*) => {
        Family::new($name, "the least, greatest and small values of all ten integer types through every operation", 1, move |_, cx| {
            $(for n in [<$ty>::MIN, <$ty>::MIN + 1, 0, 1, 9, 10, 99, 100, <$ty>::MAX - 1, <$ty>::MAX] {
                cx.case(|| format!("{} {n}", stringify!($ty)), |rec| {
                    let w = n.to_string();
                    let base = real::tmpl("<b a=\"1\">x</b>")?;
                    let t = base.transform(|h| h.select("b", |h| h.set_attribute_with_value("c", n).add_attribute("d", Some(n))
                        .add_to_attribute("a", n, n).prepend_contents(n).append_contents(n).append(n).prepend(n))).map_err(|e| format!("{e:?}"))?;
                    let want = format!("{w}<b a=\"1{w}{w}\" c=\"{w}\" d=\"{w}\">{w}x{w}</b>{w}");
                    if t.to_string() != want { return Err(format!("{:?}, expected {want:?}", t.to_string())); }
                    let t = base.transform(|h| h.select("b", |h| h.set_attribute("a", Some(n)).replace_attribute_value_if_exists("a", n).replace_contents(n))
                        .repeat(0..1, |h, _| h.append(n))).map_err(|e| format!("{e:?}"))?;
                    let want = format!("<b a=\"{w}\">{w}</b>{w}");
                    if t.to_string() != want { return Err(format!("{:?}, expected {want:?}", t.to_string())); }
                    rec.step(10);
                    rec.state(&w);
                    Ok(())
                });
            })*
        })
    }
}

fn numbers() -> Vec<i128> {
    let mut v: Vec<i128> = (-1100..1100).collect();
    for p in 0..=64u32 { for d in -1..=1i128 { v.push((1i128 << p) + d); v.push(-(1i128 << p) + d); } }
    for p in 0..=19u32 { for d in -1..=1i128 { v.push(10i128.pow(p) + d); v.push(-(10i128.pow(p)) + d); } }
    v.sort();
    v.dedup();
    v
}

/// Markup with encoded text in every place, that must stay the way it is.
pub fn entity_docs() -> Vec<Vec<Node>> {
    docs(&[
        "<!doctype html><!-- &amp; <b> \"--><b a=\"&lt;\" id='' >&amp;&amp;amp; &quot; > \" ' &#39; &</b>".replace(" id='' ", "").as_str(),
        "<b a=\"<&>'\" a=\"&quot;\"><script>if (a < b && c > \"d\") { '</b>' }</script>& > \"</b>",
        "&lt;b&gt;<b class=\"&amp; x\" /><textarea><!-- & --></textarea><br a=\"&gt;>\">",
        "<p title=\"&amp;amp;\"><b><i>1 &amp; 2</i> &nbsp;<!--&--></b></p>&copy",
    ])
}
fn every_op() -> Vec<Op> {
    let ent = "<u t=\"&amp;\">&lt; & <!--<>--></u>";
    let mut v = vec![Op::Boxed, Op::ApplyTemplate(prog(&[])), Op::Repeat(crate::prog::Items::Range(0, 2), prog(&[]))];
    for c in [tmpl(ent), Content::Tmpl(ent.into(), TForm::Owned), Content::Tmpl(ent.into(), TForm::Rc), Content::Tmpl(ent.into(), TForm::Ok), Content::Str("<&amp;>\"")] {
        v.extend([Op::Prepend(c.clone()), Op::Append(c.clone()), Op::Replace(c.clone())]);
        for s in Scope::STREAM {
            v.push(sel(s, "b", &[Op::ReplaceC(c.clone())]));
            v.push(sel(s, "b", &[Op::PrependC(c.clone()), Op::AppendC(c.clone())]));
            v.push(sel(s, "b", &[Op::Replace(c.clone())]));
        }
    }
    for a in [AttrOp::SetV("a", Val::Str("&")), AttrOp::AddTo("a", Val::Str("<"), Val::Str(">")), AttrOp::AddClass("y"), AttrOp::RemoveClass("x"),
        AttrOp::Remove("a"), AttrOp::AddV("z", Val::Str("\"")), AttrOp::ReplaceIf("class", Val::Str("&amp;")), AttrOp::SetEmpty("b"), AttrOp::RemoveId] {
        v.push(any("b", &[Op::Attr(a)]));
    }
    v
}

pub fn c09(tier: Tier) -> Vec<Family> {
    let each = |s: &str, cx: &mut Cx| { let s = intern(s); cx.case(|| format!("text {:?}", clip(s, 400)), |rec| routes(s, rec)) };
    let core = |s: &str, cx: &mut Cx| { let s = intern(s); cx.case(|| format!("text {:?}", clip(s, 400)), |rec| core_routes(s, rec)) };
    let pieces = vec!["&", "<", ">", "\"", "'", "a", "amp;", "\u{e9}", " ", "\u{1f600}"];
    let ch = chars();
    let n = ch.len();
    let ch2 = ch.clone();
    let mut f = vec![
        strings("texts, all routes", "", pieces.clone(), tier.pick(3, 4), "", vec![""], each),
        strings("texts", "", pieces, tier.pick(5, 6), "", vec![""], core),
        split("characters, all routes", format!("each of {n} characters (all ASCII ones) alone, before, after and between letters, and next to each special character"), n, 1, move |i, cx| {
            let c = &ch[i];
            for s in [c.clone(), format!("a{c}"), format!("{c}a"), format!("a{c}b"), format!("&{c}"), format!("{c}<"), format!("\"{c}>"), format!("{c}{c}")] { each(&s, cx); }
        }),
        split("character pairs", format!("all pairs of {n} characters"), n, 1, move |i, cx| {
            for d in &ch2 { core(&format!("{}{d}", ch2[i]), cx); core(&format!("x{}{d}y", ch2[i]), cx); }
        }),
    ];
    let marks = vec!["&amp;", "&lt;", "&gt;", "&quot;", "&#", "&#x", "&nbsp;", "&", "34", ";", "amp;", "<b>", "</b>", "<!--", "-->", "<script>", "<![CDATA[", "]]>", "\\", "%", "{}", "\n", "x"];
    f.push(strings("markup as text, all routes", "(what is encoded or markup already)", marks.clone(), tier.pick(2, 3), "", vec![""], each));
    f.push(strings("markup as text", "(what is encoded or markup already)", marks, tier.pick(4, 5), "", vec![""], core));
    let sz = sizes(tier.pick(40, 300), tier.pick(70_000, 1_100_000));
    let sz2 = sz.clone();
    f.push(split("long texts", format!("texts of {} lengths up to {}, all plain, all special, with one special character at the start, middle or end, multi-byte", sz.len(), sz.last().unwrap()), sz.len(), 1, move |i, cx| {
        let n = sz2[i];
        let run = |s: String, cx: &mut Cx| {
            let s: S = Box::leak(s.into_boxed_str());
            cx.case(|| format!("text of {n}: {:?}", clip(s, 60)), |rec| routes(s, rec));
            // given back straight after use: nothing refers to it any more
            unsafe { drop(Box::from_raw(s as *const str as *mut str)) }
        };
        let cap = n.min(20_000);
        run("a".repeat(n), cx);
        run("\u{20ac}".repeat(cap), cx);
        for c in ['&', '<', '>', '"'] {
            run(c.to_string().repeat(cap), cx);
            run(format!("{c}{}", "a".repeat(n)), cx);
            run(format!("{}{c}", "a".repeat(n)), cx);
            run(format!("{}{c}{}", "a".repeat(n / 2), "\u{e9}".repeat(n - n / 2)), cx);
        }
    }));
    f.push(ints!("u8", u8, (0..256i128)));
    f.push(ints!("i8", i8, (-128..128i128)));
    f.push(ints!("u16", u16, (0..65536i128)));
    f.push(ints!("i16", i16, (-32768..32768i128)));
    f.push(ints!("u32", u32, numbers()));
    f.push(ints!("i32", i32, numbers()));
    f.push(ints!("u64", u64, numbers()));
    f.push(ints!("i64", i64, numbers()));
    f.push(ints!("usize", usize, numbers()));
    f.push(ints!("isize", isize, numbers()));
    f.push(int_routes!("integers by every operation", u8, u16, u32, u64, usize, i8, i16, i32, i64, isize));
    f.push(split("all Unicode characters", "every Unicode scalar value, in texts of 32", unicode_blocks(32), 64, move |i, cx| {
        let b: String = unicode_block(i, 32).into_iter().collect();
        if !b.is_empty() { core(&b, cx); }
    }));
    let words: Arc<Vec<&'static str>> = Arc::new(WORDS.iter().chain(VALUES.iter()).copied().collect());
    let w2 = words.clone();
    f.push(split("words, all routes", format!("{} words that mean something in HTML or other languages, alone and in the middle", words.len()), words.len(), 1, move |i, cx| {
        for s in [words[i].to_string(), format!("x{0}y{0}", words[i])] { each(&s, cx); }
    }));
    f.push(split("pairs of words", "each pair of them", w2.len(), 1, move |i, cx| { for u in w2.iter() { core(&format!("{}{u}", w2[i]), cx); } }));
    let kept: Vec<Vec<Node>> = WORDS.iter().chain(VALUES.iter()).filter(|w| !w.contains(['"', '<']) && !w.contains("--")).map(|w| {
        parse_doc(&format!("<b a=\"{w}\" class=\"x {w}\">x{w}<!--{w}--><i {} />{w} </b><title>{w}</title>{w}", if name_faults(w).is_empty() { w } else { "k" }))
    }).collect();
    f.push(programs("existing words", "documents with each word in text, values, comments and raw text, under every operation and template insertion", kept, every_op().into_iter().map(|o| prog(&[o])).collect()));
    let ops = every_op();
    let mut progs: Vec<Prog> = chains(&ops, 2, false).into_iter().map(|v| prog(&v)).collect();
    if tier == Tier::Thorough {
        progs.extend(chains(&ops, 3, false).into_iter().filter(|v| v.len() == 3).map(|v| prog(&v)));
    }
    f.push(programs("existing markup", "documents with encoded and special characters in every place, under sequences of operations and template insertions", entity_docs(), progs));
    f
}

// --------------------------------------------------------------------------------------------- C10

/// The error has a true reason, and its message tells it.
fn reason(what: &str, e: &IdentifierError, name: &str, tag: bool) -> Check {
    let faults = if tag { tag_faults(name) } else { name_faults(name) };
    if !faults.contains(e) { return Err(format!("{what}: {e:?} is no reason to reject {name:?}, {faults:?} is")); }
    super::markup::ident_message(e, &e.to_string()).map_err(|m| format!("{what}: {m}"))
}

fn decide<T>(what: &str, r: Result<T, IdentifierError>, name: &str, tag: bool) -> Result<Option<T>, String> {
    let ok = if tag { tag_faults(name) } else { name_faults(name) }.is_empty();
    match r {
        Ok(t) if ok => Ok(Some(t)),
        Ok(_) => Err(format!("{what} accepts {name:?}")),
        Err(e) if ok => Err(format!("{what} rejects {name:?} with {e:?}")),
        Err(e) => { reason(what, &e, name, tag)?; Ok(None) }
    }
}

fn constructors(name: S, rec: &mut Rec) -> Check {
    use html5_fuser::select as sel;
    let mut n = 0;
    for (what, r) in [
        ("Identifier::from_static_str", Identifier::from_static_str(name)),
        ("Identifier::from_str", name.parse::<Identifier>()),
        ("into_identifier", name.into_identifier()),
        ("into_identifier of a result", name.parse::<Identifier>().into_identifier()),
    ] {
        n += 1;
        if let Some(i) = decide(what, r, name, false)? {
            if i.to_string() != name || &*i != name { return Err(format!("{what} made {:?} of {name:?}", &*i)); }
            let j = (&i).into_identifier().map_err(|e| format!("&Identifier rejected: {e:?}"))?;
            let k = i.clone().into_identifier().map_err(|e| format!("Identifier rejected: {e:?}"))?;
            if &*j != name || &*k != name { return Err("identifier changed".into()); }
        }
    }
    decide("Id", name.parse::<Id>().map_err(|e| match e { sel::IdError::Identifier { error } => error, e => panic!("unknown error {e:?}") }), name, false)?;
    decide("Tag", name.parse::<Tag>().map_err(|e| match e { sel::TagError::Identifier { error } => error, e => panic!("unknown error {e:?}") }), name, false)?;
    decide("Class", name.parse::<Class>().map_err(|e| match e { sel::ClassError::Identifier { error } => error, e => panic!("unknown error {e:?}") }), name, false)?;
    for at in 0..4usize {
        for len in at + 1..5usize {
            let list: Vec<&str> = (0..len).map(|i| if i == at { name } else { "ok" }).collect();
            let r = match Classes::from_str_iterator(list.into_iter()) {
                Ok(c) => Ok(c),
                Err(sel::ClassesError::Identifier { index, error }) if index == at => Err(error),
                Err(e) => return Err(format!("Classes with {name:?} at {at}: {e:?}")),
            };
            decide("Classes", r, name, false)?;
            n += 1;
        }
    }
    n += 3;
    // tag names to be written
    let built = |r: Result<String, IdentifierError>, want: String, what: &str| -> Check {
        if let Some(s) = decide(what, r, name, true)? {
            if s != want { return Err(format!("{what} of {name:?} is {s:?}, expected {want:?}")); }
        }
        Ok(())
    };
    let e = render(&[crate::prog::with_element(name)]);
    built(Template::with_element(name).map(|t| t.to_string()), e.clone(), "with_element")?;
    built(Template::with_element(name.parse::<Identifier>()).map(|t| t.to_string()), e.clone(), "with_element of a result")?;
    let stream = |r: Result<Template, StreamError>| match r {
        Ok(t) => Ok(Ok(t.to_string())),
        Err(StreamError::Identifier { error }) => Ok(Err(error)),
        Err(e) => Err(format!("wrong error {e:?}")),
    };
    built(stream(Template::with_transformed_element(name, |h| h))?, e.clone(), "with_transformed_element")?;
    built(stream(Template::with_transformed_element(name.parse::<Identifier>(), |h| h.append("x")))?, format!("{e}x"), "with_transformed_element of a result")?;
    rec.step(n + 4);
    rec.state(&format!("{:?}", name_faults(name)));
    Ok(())
}

fn name_ops(n: S) -> Vec<Prog> {
    use AttrOp::*;
    let v = || Val::Str("v");
    let ops = vec![Add(n, None), Add(n, Some(v())), AddV(n, v()), AddEmpty(n), AddTo(n, v(), v()), ReplaceIf(n, v()), Set(n, None), Set(n, Some(v())),
        SetV(n, v()), SetEmpty(n), Remove(n), AddClass(n), RemoveClass(n), SetId(n)];
    let mut out: Vec<Prog> = ops.into_iter().map(|a| prog(&[any("p", &[Op::Attr(a)])])).collect();
    let hit = [Op::Attr(SetEmpty("hit"))];
    let typed = [Sel::Tag(n), Sel::Id(n), Sel::Class(n), Sel::Classes(vec![n]), Sel::Classes(vec!["q", n]), Sel::Classes(vec!["q", n, "r"])];
    let stat = [n.to_string(), format!("#{n}"), format!(".{n}"), format!(".q.{n}"), format!(".q.r.{n}"), format!("p#{n}"), format!("p.{n}"), format!("p#i.{n}"), format!("{n}#i"), format!("{n}.q"), format!("#{n}.q"), format!("p#{n}.q.r")];
    for s in typed.into_iter().chain(stat.iter().map(|s| Sel::Str(intern(s)))) {
        for scope in [Scope::Any, Scope::DirectOnce] { out.push(prog(&[Op::Select(scope, s.clone(), prog(&hit))])); }
        for scope in [Scope::SubOnce, Scope::SubDirect] { out.push(prog(&[any("p", &[Op::Select(scope, s.clone(), prog(&hit))])])); }
    }
    for scope in Scope::STREAM { out.push(prog(&[Op::Select(scope, Sel::Tag(n), prog(&hit))])); }
    for scope in Scope::SUB { out.push(prog(&[any("p", &[Op::Select(scope, Sel::Str(intern(&format!("#{n}"))), prog(&hit))])])); }
    out
}

/// Every operation that takes a name, with the name.
fn operations(name: S, t: &Template, doc: &[Node], rec: &mut Rec) -> Check {
    let before = t.to_string();
    for p in name_ops(name) {
        agree(t, doc, &p, rec).map_err(|e| format!("html{}: {e}", crate::prog::show_prog(&p)))?;
    }
    if t.to_string() != before { return Err("the template changed".into()); }
    Ok(())
}

const NAME_DOC: &str = "<p id=\"a\" class=\"a B\" a=\"1\"><a id=\"i\" class=\"q r a\">1</a><p class=\"q\" /><br id=\"a\"></p><a class=\"a b\" />";

fn by_name(name: &str, doc: &Arc<Vec<Node>>, cx: &mut Cx) {
    let n = intern(name);
    cx.case(|| format!("name {:?} given to constructors", clip(n, 300)), |rec| constructors(n, rec));
    // a class or id starting a selector part with these would be another selector: still covered, by the
    // meaning of the static form
    let doc = doc.clone();
    cx.case(|| format!("name {:?} given to operations", clip(n, 300)), |rec| {
        let t = real::tmpl(&render(&doc))?;
        operations(n, &t, &doc, rec)
    });
}

pub fn c10(tier: Tier) -> Vec<Family> {
    let doc = Arc::new(parse_doc(NAME_DOC));
    let pieces = vec!["a", "B", "1", "-", "_", ":", "!", "@", ".", "#", "=", "\"", "'", "/", ">", "<", "&", ",", ";", " ", "\n", "\t", "\u{b}", "\u{c}", "\u{0}", "\u{7f}",
        "\u{e9}", "\u{a0}", "\u{2028}", "\u{1f600}", "doctype", "--"];
    let ch = chars();
    let n = ch.len();
    let (d1, d2, d3) = (doc.clone(), doc.clone(), doc.clone());
    let ch2 = ch.clone();
    let d4 = doc.clone();
    let mut f = vec![
        strings("names", "", pieces, tier.pick(2, 3), "", vec![""], move |s, cx| by_name(s, &d1, cx)),
        split("characters in names", format!("each of {n} characters alone, at the start, in the middle, at the end, doubled, and after a whole name"), n, 1, move |i, cx| {
            let c = &ch[i];
            for s in [c.clone(), format!("{c}a"), format!("a{c}b"), format!("a{c}"), format!("{c}{c}"), format!("class{c}"), format!("abcdefghijklmnop{c}"), format!("!{c}"), format!("{c}!")] { by_name(&s, &d2, cx); }
        }),
        split("character pairs in names", format!("all pairs of {n} characters, as constructor arguments"), n, 1, move |i, cx| {
            for d in &ch2 {
                for s in [format!("{}{d}", ch2[i]), format!("a{}{d}b", ch2[i])] {
                    let n = intern(&s);
                    cx.case(|| format!("name {n:?} given to constructors"), |rec| constructors(n, rec));
                }
            }
        }),
    ];
    let words: Vec<&'static str> = ELEMENTS.iter().chain(ATTRIBUTES.iter()).chain(WORDS.iter()).chain(VALUES.iter()).copied().collect();
    let d5 = doc.clone();
    f.push(split("words as names", format!("{} words: element and attribute names of HTML, values, template syntax, delimiters", words.len()), words.len(), 1, move |i, cx| {
        for s in [words[i].to_string(), words[i].to_uppercase()] { by_name(&s, &d5, cx); }
    }));
    let sz = sizes(20, tier.pick(66_000, 70_000));
    f.push(split("long names", format!("names of {} lengths up to {}, valid and with one bad character at the start, middle or end", sz.len(), sz.last().unwrap()), sz.len(), 1, move |i, cx| {
        let n = sz[i];
        by_name(&"a".repeat(n), &d3, cx);
        for c in ["<", "\u{e9}", " ", "!"] {
            by_name(&format!("{c}{}", "a".repeat(n)), &d3, cx);
            by_name(&format!("{}{c}", "a".repeat(n)), &d3, cx);
            by_name(&format!("{}{c}{}", "a".repeat(n / 2), "b".repeat(n - n / 2)), &d3, cx);
        }
    }));
    f.push(split("all Unicode characters in names", "every Unicode scalar value alone and within a name, to the constructors that take any string", unicode_blocks(32), 64, move |i, cx| {
        let b = unicode_block(i, 32);
        cx.case(|| format!("names with the characters {b:?}"), |rec| {
            for c in &b {
                for n in [c.to_string(), format!("a{c}b")] {
                    rec.step(1);
                    decide("Identifier::from_str", n.parse::<Identifier>(), &n, false)?;
                    decide("Tag", n.parse::<Tag>().map_err(|e| match e { html5_fuser::select::TagError::Identifier { error } => error, e => panic!("unknown error {e:?}") }), &n, false)?;
                    decide("Classes", Classes::from_str_iterator(std::iter::once(&*n)).map_err(|e| match e {
                        html5_fuser::select::ClassesError::Identifier { index: 0, error } => error,
                        _ => IdentifierError::Empty,
                    }), &n, false)?;
                }
            }
            rec.state(&format!("block {i}"));
            Ok(())
        });
    }));
    // class lists: position of the fault
    let m = tier.pick(40, 300);
    f.push(split("class lists", format!("class lists of up to {m} names, a bad one at each index, typed and static; empty lists"), m, 1, move |i, cx| {
        let len = i + 1;
        let _ = &d4;
        for at in 0..len {
            let list: Vec<S> = (0..len).map(|k| if k == at { "a;b" } else { "ok" }).collect();
            let stat = intern(&format!(".{}", list.join(".")));
            for s in [Sel::Classes(list.clone()), Sel::Str(stat), Sel::Str(intern(&format!("p#i{stat}")))] {
                let p = prog(&[Op::Select(Scope::Any, s.clone(), prog(&[]))]);
                cx.case(|| format!("{len} classes, bad at {at}, {}", if matches!(s, Sel::Str(_)) { "static" } else { "typed" }), |rec| {
                    let t = real::tmpl("<p class=\"ok\"></p>")?;
                    let (r, _) = real::transform(&t, &p);
                    rec.step(1);
                    let Err(e) = r else { return Err("accepted".into()) };
                    if !real::is_failure(&e, &Failure::Sel(s.clone())) { return Err(format!("wrong error {e:?}")); }
                    Ok(())
                });
            }
        }
        if i == 0 {
            cx.case(|| "empty class list".into(), |_| match Classes::from_str_iterator(std::iter::empty()) {
                Err(html5_fuser::select::ClassesError::Empty) => Ok(()),
                r => Err(format!("{r:?}")),
            });
            // shared and borrowed identifiers
            cx.case(|| "identifier given by reference".into(), |_| {
                let id: Identifier = "x".parse().map_err(|e| format!("{e:?}"))?;
                let t = real::tmpl("<p></p>")?;
                let r = t.transform(|h| h.select("p", |h| h.add_empty_attribute(&id).set_attribute_with_value(id.clone(), "1").add_class(Rc::new(&id).into_identifier())))
                    .map_err(|e| format!("{e:?}"))?;
                if r.to_string() == "<p x=\"1\" class=\"x\"></p>" { Ok(()) } else { Err(r.to_string()) }
            });
        }
    }));
    f
}
