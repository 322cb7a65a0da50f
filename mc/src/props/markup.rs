//! Parsing and rendering of markup: C01 to C06.

use super::gen::*;
use super::vocab::*;
use crate::engine::*;
use crate::model::*;
use crate::real;
use crate::refparse::{self, PErr};
use html5_fuser::event::{IntoStream, Stream};
use html5_fuser::template::InputError;
use html5_fuser::{ParseOptions, Template};
use std::error::Error as _;
use std::sync::Arc;

type Src = Arc<dyn Fn(&str, &mut Cx) + Send + Sync>;

pub fn parse_error(r: Result<Template, InputError>) -> Result<html5_fuser::parse::Error, String> {
    match r {
        Ok(t) => Err(format!("accepted, giving {:?}", clip(&t.to_string(), 300))),
        Err(InputError::Parse { error }) => Ok(error),
        Err(e) => Err(format!("wrong error: {e:?}")),
    }
}

// ---------------------------------------------------------------------------------------- oracles

fn faithful(s: &str, rec: &mut Rec) -> Check {
    let Ok(doc) = refparse::parse(s, None) else { rec.step(1); rec.outcome("rejected"); return Ok(()); };
    rec.step(1 + doc.len() as u64);
    if s.len() < 400 { rec.state(&canon(&doc)); }
    match real::parse(s) {
        Ok(t) => same_doc(&t, &doc),
        Err(e) => Err(format!("well-formed markup was rejected: {e:?}")),
    }
}

fn fixpoint(s: &str, rec: &mut Rec) -> Check {
    rec.step(1);
    let Ok(t) = real::parse(s) else { rec.outcome("rejected"); return Ok(()); };
    let r1 = t.to_string();
    if s.len() < 400 { rec.state(&r1); }
    rec.step(2);
    let t2 = real::parse(&r1).map_err(|e| format!("the rendering {:?} is rejected: {:?}", clip(&r1, 300), e))?;
    let r2 = t2.to_string();
    if r1 != r2 { return Err(format!("rendered {:?}, and again {:?}", model_clip(&r1, &r2), model_clip(&r2, &r1))); }
    if t2 != t { return Err(format!("rendering {:?} parses to a different template", clip(&r1, 300))); }
    let (a, b) = (canon_real(&t)?, canon_real(&t2)?);
    if a != b { return Err(format!("constructs {} became {}", show(&a), show(&b))); }
    Ok(())
}
fn model_clip(a: &str, b: &str) -> String { diffclip(a, b) }

fn accepted(s: &str, rec: &mut Rec) -> Check {
    rec.step(1);
    let want = refparse::parse(s, None);
    let got = real::parse(s);
    match (&want, got) {
        (Ok(doc), Ok(_)) => { if s.len() < 400 { rec.state(&canon(doc)); } Ok(()) }
        (Ok(_), Err(e)) => Err(format!("well-formed markup was rejected: {e:?}")),
        (Err(w), got) => {
            rec.outcome(variant(w));
            let e = parse_error(got).map_err(|e| format!("{e}; expected {w:?}"))?;
            if refparse::matches(&e, w, false) { Ok(()) } else { Err(format!("rejected with {e:?}, expected {w:?}")) }
        }
    }
}
pub fn variant(w: &PErr) -> &'static str {
    use PErr::*;
    match w {
        UnsupportedDoctype { .. } => "unsupported doctype", UnclosedDoctype { .. } => "unclosed doctype",
        UnclosedComment { .. } => "unclosed comment", UnfinishedOpen { .. } => "unfinished open", UnfinishedClose { .. } => "unfinished close",
        NoOpenName { .. } => "no open name", BadOpenName { .. } => "bad open name", NoCloseName { .. } => "no close name",
        BadCloseName { .. } => "bad close name", BadAttrName { .. } => "bad attr name", BadAttrValue { .. } => "bad attr value",
        UnclosedAttrValue { .. } => "unclosed attr value", Missing { .. } => "missing", Depth { .. } => "depth",
        Unexpected { .. } => "unexpected", Mismatched { .. } => "mismatched",
    }
}

/// Raw text elements keep their content in one piece; the rest as in `faithful`.
fn opaque(s: &str, rec: &mut Rec) -> Check {
    rec.step(1);
    let want = refparse::parse(s, None);
    match (want, real::parse(s)) {
        (Ok(doc), Ok(t)) => {
            if s.len() < 400 { rec.state(&canon(&doc)); }
            same_doc(&t, &doc)?;
            let mut st = (&t).into_stream();
            let mut raw = false;
            while let Some(e) = st.next_event().map_err(|e| format!("{e:?}"))? {
                let r = e.description() == "raw content";
                if r && raw { return Err("content of a raw text element is split".into()); }
                raw = r;
            }
            Ok(())
        }
        (Ok(_), Err(e)) => Err(format!("well-formed markup was rejected: {e:?}")),
        (Err(w), got) => {
            rec.outcome(variant(&w));
            let e = parse_error(got).map_err(|e| format!("{e}; expected {w:?}"))?;
            if refparse::matches(&e, &w, false) { Ok(()) } else { Err(format!("rejected with {e:?}, expected {w:?}")) }
        }
    }
}

fn total(s: &str, rec: &mut Rec) -> Check {
    for o in 0..4u8 {
        rec.step(1);
        let mut opt = ParseOptions::default();
        if o & 1 == 1 { opt = opt.max_input_len(s.len()); }
        if o & 2 == 2 { opt = opt.max_stack_depth(s.len()); }
        match Template::from_str(s, opt) {
            Ok(t) => { let r = t.to_string(); if s.len() < 400 { rec.state(&r); } }
            Err(e) => { let _ = (e.to_string(), format!("{e:?}"), e.cause().map(|c| c.to_string())); rec.outcome("rejected"); }
        }
    }
    Ok(())
}

/// Every fact of the error, its message and its cause chain.
pub fn located_with(s: &str, want: &PErr, got: Result<Template, InputError>) -> Check {
    let input = match got { Ok(t) => return Err(format!("accepted, giving {:?}; expected {want:?}", clip(&t.to_string(), 300))), Err(e) => e };
    let InputError::Parse { ref error } = input else { return Err(format!("wrong error {input:?}")) };
    if !refparse::matches(error, want, true) {
        return Err(format!("error {error:?}\n   expected {want:?}"));
    }
    let msg = error.to_string();
    let parts = refparse::message_parts(want);
    if !refparse::contains_in_order(&msg, &parts) {
        return Err(format!("message {msg:?} does not tell {parts:?}"));
    }
    use html5_fuser::parse::Error as E;
    match (error.cause(), error) {
        (Some(c), E::InvalidOpeningTagIdentifier { identifier_error: i, .. }
            | E::InvalidClosingTagIdentifier { identifier_error: i, .. }
            | E::InvalidAttributeIdentifier { identifier_error: i, .. }) => {
            if c.to_string() != i.to_string() { return Err(format!("cause {:?}, expected {:?}", c.to_string(), i.to_string())); }
            ident_message(i, &c.to_string())?;
        }
        (None, E::InvalidOpeningTagIdentifier { .. } | E::InvalidClosingTagIdentifier { .. } | E::InvalidAttributeIdentifier { .. }) =>
            return Err("the error does not lead to its cause".into()),
        (Some(c), _) => return Err(format!("unexpected cause {c:?}")),
        (None, _) => {}
    }
    match input.cause() {
        Some(c) if c.to_string() == msg => {}
        c => return Err(format!("cause of the input error is {c:?}")),
    }
    let _ = s;
    Ok(())
}
pub fn ident_message(i: &html5_fuser::text::IdentifierError, msg: &str) -> Check {
    use html5_fuser::text::IdentifierError as I;
    let parts: Vec<String> = match i {
        I::Empty => vec!["empty".into()],
        I::NotAscii => vec!["ASCII".into()],
        I::Whitespace { whitespace } => vec!["whitespace".into(), whitespace.escape_default().to_string()],
        I::Forbidden { forbidden } => vec!["forbidden".into(), forbidden.escape_default().to_string()],
        _ => return Err(format!("unknown identifier error {i:?}")),
    };
    if refparse::contains_in_order(msg, &parts) { Ok(()) } else { Err(format!("message {msg:?} does not tell {parts:?}")) }
}

fn located(s: &str, rec: &mut Rec) -> Check {
    rec.step(1);
    let Err(want) = refparse::parse(s, None) else { rec.outcome("accepted"); return Ok(()); };
    if s.len() < 400 { rec.state(&format!("{want:?}")); }
    located_with(s, &want, real::parse(s))
}

fn on(f: fn(&str, &mut Rec) -> Check) -> Src {
    Arc::new(move |s, cx| cx.case(|| format!("source {s:?}"), |rec| f(s, rec)))
}
fn arc(f: Src) -> impl Fn(&str, &mut Cx) + Send + Sync + 'static { move |s, cx| f(s, cx) }

// ----------------------------------------------------------------------------------------- spaces

fn structure_tokens() -> Vec<&'static str> {
    vec!["<a>", "</a>", "<A>", "</A>", "<b>", "</b >", "<br>", "<BR / >", "</br>", "<a/>", "< b x=\"1\" />", "<a x=\" v \" Y q='\">",
        "<script>", "</script>", "</SCRIPT >", "<title/>", "<!doctype html>", "<! DOCTYPE  Html >", "<!doctype xml>",
        "<!-- c -->", "<!---->", "<!--", "-->", "t", "\u{e9}\n", "&lt;", "<", ">", "</", "<p", "<!x>", "\"", " "]
}

/// Inside of a tag, character by character.
fn tag_chars() -> Vec<&'static str> { vec!["a", "B", " ", "=", "\"", "/", ">", "<", "!", "-", "'", "\u{e9}", "\n", "&", "\t"] }
fn data_chars() -> Vec<&'static str> { vec!["<", "/", "a", ">", "!", "-", " ", "b", "\u{e9}", "\"", "="] }

fn common(f: Src, tier: Tier) -> Vec<Family> {
    vec![
        strings("structure", "(token sequences)", structure_tokens(), 4, "", vec![""], arc(f.clone())),
        strings("structure in element", "(token sequences)", structure_tokens(), tier.pick(3, 4), "<a>", vec!["</a>"], arc(f.clone())),
        strings("data characters", "", data_chars(), tier.pick(6, 7), "", vec![""], arc(f.clone())),
        strings("tag characters", "", tag_chars(), tier.pick(5, 6), "<a", vec!["", ">", "></a>"], arc(f.clone())),
        strings("attribute characters", "", tag_chars(), tier.pick(5, 6), "<a b", vec!["/>"], arc(f.clone())),
        strings("value characters", "", tag_chars(), tier.pick(4, 5), "<br b=\"", vec!["\">"], arc(f.clone())),
        strings("closing tag characters", "", tag_chars(), tier.pick(4, 5), "<a></", vec!["", ">"], arc(f.clone())),
        strings("bang characters", "", vec!["!", "-", ">", "<", " ", "a", "doctype", "DocType", "html", "HTML", "\n", "\u{e9}", "\""],
            tier.pick(4, 6), "<!", vec!["", ">"], arc(f.clone())),
        strings("comment characters", "", vec!["-", ">", "!", "<", "a", " ", "\u{e9}", "<!--", "-->", "\n"], tier.pick(5, 6), "<!--", vec!["", "-->"], arc(f.clone())),
    ]
}

/// Every Unicode character.
fn unicode(f: Src, tier: Tier) -> Family {
    let per = tier.pick(16, 1);
    split("all Unicode characters", format!("every Unicode scalar value, {per} at a time, in text, value, comment, raw text, tag and attribute names, doctype, and between tags followed by an error"),
        unicode_blocks(per), 256, move |i, cx| {
        let b: String = unicode_block(i, per).into_iter().collect();
        if b.is_empty() { return; }
        f(&format!("{b}<a b=\"{b}\">{b}<!--{b}--><title>{b}</title></a>"), cx);
        f(&format!("<a{b}></a>"), cx);
        f(&format!("<a {b}/>"), cx);
        f(&format!("<!doctype {b}>"), cx);
        f(&format!("<p title=\"{b}\">{b}<{b}"), cx);
    })
}

/// Places in a document.
const CTX: [(&str, &str); 16] = [("", ""), ("x", "y"), ("<a>", "</a>"), ("<a b=\"", "\"></a>"), ("<br b=\"x", "y\">"), ("<!--", "-->"),
        ("<script>", "</script>"), ("<title>", "</title>"), ("<a", "></a>"), ("<a", "/>"), ("<", "/>"), ("<a ", "/>"), ("<a x", "=\"1\"/>"), ("<a></a", ">"),
        ("<!doctype html", ">"), ("<!doctype ", "html>")];

/// Every character (pair) in each context.
fn characters(f: Src, tier: Tier) -> Vec<Family> {
    let cs: Arc<Vec<String>> = Arc::new(chars());
    let n = cs.len();
    let (c1, f1) = (cs.clone(), f.clone());
    vec![
        unicode(f.clone(), tier),
        split("characters", format!("each of {n} characters (all ASCII, UTF-8 lengths 1 to 4) in each of {} contexts, alone, repeated and tripled", CTX.len()), n * CTX.len(), 64, move |i, cx| {
            let ((a, z), c) = (CTX[i / n], &c1[i % n]);
            for k in 1..=3 { f1(&format!("{a}{}{z}", c.repeat(k)), cx); }
        }),
        split("character pairs", format!("each pair of {n} characters in each of {} contexts", CTX.len()), n * CTX.len(), 8, move |i, cx| {
            let ((a, z), c) = (CTX[i / n], &cs[i % n]);
            for d in cs.iter() { f(&format!("{a}{c}{d}{z}"), cx); }
        }),
    ]
}

/// Every spelling of the special names, and names like them.
fn names(f: Src) -> Vec<Family> {
    let mut all: Vec<String> = Vec::new();
    for n in VOID.iter().chain(RAW.iter()) {
        all.extend(cases(n));
        // names like it: a character less, a character more, a character changed
        for i in 0..n.len() {
            let mut v = n.to_string();
            v.remove(i);
            if !v.is_empty() { all.push(v); }
            for c in ['x', '-', '0', ':'] {
                let mut v = n.to_string();
                v.replace_range(i..i + 1, &c.to_string());
                all.push(v);
            }
        }
        for c in ["x", "s", "-", "1", "."] { all.push(format!("{n}{c}")); all.push(format!("{c}{n}")); }
    }
    for n in ["a", "p", "div", "html", "head", "body", "command", "frame", "basefont", "bgsound", "image", "isindex", "noscript", "xmp",
        "iframe", "noembed", "noframes", "plaintext", "template", "option", "td", "tr", "li", "svg", "math", "path", "pre", "listing", "h1", "x-y", "x:y", "a.b", "_", "1"] {
        all.extend(if n.len() <= 6 { cases(n) } else { vec![n.to_string(), n.to_uppercase()] });
    }
    let all = Arc::new(all);
    vec![split("element names", format!("{} element names (every case variant of the void and raw text names, names like them, ordinary ones) in each tag form", all.len()), all.len(), 50, move |i, cx| {
        let n = &all[i];
        let up: String = n.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        for (a, z) in [("", ""), ("<b>", "</b>")] {
            for s in [format!("<{n}>"), format!("<{n}/>"), format!("<{n} x=\"1\">y"), format!("<{n}></{n}>"), format!("<{n}>t</{up}>"), format!("<{n}><br>&</{n}>"),
                format!("<{n}><i></{n}>"), format!("<{n}/><i></{n}>"), format!("</{n}>"), format!("<{n} / ><u></u>"), format!("<{n}><{n}></{n}></{up}>"), format!("<{n}></{n}x></{n}>"),
                format!("<{n}></{n} ></{n}>"), format!("<{n}></ {n}>"), format!("<{n}>< /{n}>"), format!("<{n}></{n} x></{n}>")] {
                f(&format!("{a}{s}{z}"), cx);
            }
        }
    })]
}

/// Words that mean something in HTML and around it, where they could be noticed.
fn vocabulary(f: Src, tier: Tier) -> Vec<Family> {
    let n = WORDS.len();
    let (f1, f2, f3, f4) = (f.clone(), f.clone(), f.clone(), f.clone());
    let mut v = vec![
        split("words", format!("each of {n} pieces with a meaning in HTML or other languages (character references, template syntax, lines and spaces, delimiters, markup) in each of {} contexts: alone, doubled, in the middle, and each pair of them", CTX.len()), n * CTX.len(), 4, move |i, cx| {
            let ((a, z), w) = (CTX[i / n], WORDS[i % n]);
            f1(&format!("{a}{w}{z}"), cx);
            f1(&format!("{a}x{w}y{z}"), cx);
            f1(&format!("{a} {w} {z}"), cx);
            for u in WORDS { f1(&format!("{a}{w}{u}{z}"), cx); }
        }),
        split("words around each other", format!("each pair of the {n} pieces with a letter or a space between, in text, a value, a comment and raw text at once"), n, 1, move |i, cx| {
            for u in WORDS { for m in ["x", " "] {
                let s = format!("{}{m}{u}", WORDS[i]);
                f2(&s, cx);
                f2(&format!("<p a=\"{s}\">t</p>"), cx);
                f2(&format!("<p><!--{s}--></p>"), cx);
                f2(&format!("<title>{s}</title>"), cx);
            } }
        }),
        split("standard elements", format!("each of {} element names of HTML and relatives, lower and upper case, in each tag form and around each other one", ELEMENTS.len()), ELEMENTS.len(), 1, move |i, cx| {
            for o in [ELEMENTS[i].to_string(), ELEMENTS[i].to_uppercase()] {
                for s in [format!("<{o}>"), format!("<{o}/>"), format!("<{o}></{o}>"), format!("<{o}>x</{o}>"), format!("</{o}>"), format!("<{o} a=\"b\" c>\n t <br> &amp; \n</{o} >"), format!("<{o}>\n\n</{o}>\n"), format!("<{o} class=\"\" id>\n<b />  </{o}>"),
                    format!("<!doctype html>\n<{o}><i>x</i></{o}>"), format!("x<{o}> </{o}>y")] { f3(&s, cx); }
                for n in ELEMENTS {
                    f3(&format!("<{o}><{n}></{n}></{o}>"), cx);
                    f3(&format!("<{o}>x<{n}>y</{o}>"), cx);
                    f3(&format!("<{o}><{n}>y</{n}>z<{n}/></{o}>"), cx);
                    f3(&format!("<{o}><{n}></{o}></{n}>"), cx);
                    f3(&format!("<{o}/><{n}>t</{n}><{o}>"), cx);
                    f3(&format!("<{o}>t</{n}>"), cx);
                    f3(&format!("<{o}>\n<u><{n}> </{n}>\n</u></{o}>"), cx);
                }
            }
        }),
        split("standard attributes", format!("each of {} attribute names of HTML and relatives, as they are and in upper case, with each of {} values, its own name, without a value and twice, on elements of every kind", ATTRIBUTES.len(), VALUES.len()), ATTRIBUTES.len(), 1, move |i, cx| {
            for a in [ATTRIBUTES[i].to_string(), ATTRIBUTES[i].to_uppercase()] {
                let mut vs: Vec<String> = VALUES.iter().map(|v| format!("{a}=\"{}\"", v.replace('"', ""))).collect();
                vs.extend([a.clone(), format!("{a}={a}"), format!("{a}='{a}'"), format!("{a}=\"{a}\""), format!("{a} {a}"), format!("{a}=\"1\" {a}=\"2\""), format!("{a} = \"\" b"), format!("b {a}"), format!("b=\"x\" {a}=\"y\" c"), format!("{a}=\"{}\"", a.to_lowercase())]);
                for v in &vs { for t in ["a", "input", "IMG", "p", "option", "script", "html"] {
                    let e = if is_void(t) { String::new() } else { format!("x</{t}>") };
                    f4(&format!("<{t} {v}>{e}"), cx);
                    if t != "html" { f4(&format!("<{t} {v}/>"), cx); }
                } }
            }
        }),
    ];
    if tier == Tier::Thorough {
        let (g, k) = (f, 4);
        v.push(split("three words", format!("each triple of the {n} pieces in {k} contexts"), n * n, 64, move |i, cx| {
            for u in WORDS { for (a, z) in [("", ""), ("<a b=\"", "\"></a>"), ("<!--", "-->"), ("<title>", "</title>")] { g(&format!("{a}{}{}{u}{z}", WORDS[i / n], WORDS[i % n]), cx); } }
        }));
    }
    v
}

/// Each thing at every size.
fn scaling(f: Src, tier: Tier) -> Vec<Family> {
    let mut sz = sizes(tier.pick(300, 1100), tier.pick(16385, 131073));
    if tier == Tier::Quick { sz.extend([65535, 65536, 65537]); }
    sz.reverse();
    let sz = Arc::new(sz);
    const N: usize = 28;
    let n = sz.len() * N;
    let list = sz.clone();
    vec![split("sizes", format!("{N} shapes (text, value, comment, names, attribute counts, depth, siblings, raw text, whitespace, lines; one and more byte characters; attributes and nodes in no order) at each of {} sizes up to {}", sz.len(), sz[0]), n, 1, move |i, cx| {
        let (n, k) = (list[i / N], i % N);
        let r = |s: &str| s.repeat(n);
        let s = match k {
            0 => r("x"),
            1 => format!("<a b=\"{}\"></a>", r("y")),
            2 => format!("<!--{}-->", r("-x")),
            3 => format!("<a{}></a{}>", r("b"), r("B")),
            4 => format!("<a {}=\"1\" />", r("c")),
            5 => format!("<a{}></a>", (0..n).map(|i| format!(" x{i}=\"{i}\"")).collect::<String>()),
            6 => format!("<br{}>", r(" y")),
            7 => format!("{}x{}", r("<a>"), r("</a>")),
            8 => format!("{}{}", (0..n).map(|i| if i % 2 == 0 { "<a>".into() } else { format!("<b x=\"{i}\">") }).collect::<String>(),
                (0..n).rev().map(|i| if i % 2 == 0 { "</a>" } else { "</b>" }).collect::<String>()),
            9 => r("<a>t</a>"),
            10 => r("<br>"),
            11 => format!("<script>{}</script>", r("x")),
            12 => format!("<title>{}</title >{}", r("</b>"), r("<br/>")),
            13 => format!("<a{}x{}=\"1\"{}></a{}>", r(" "), r("\n"), r("\t"), r(" ")),
            14 => r("\u{20ac}"),
            15 => format!("<a x=\"{}\"/>", r("\u{1f600}")),
            16 => format!("{}<a>", r("\n")),
            17 => format!("{}\u{e9}</b>", r("\u{e9}")),
            18 => format!("{}<b x=1>", r("<a>")),
            19 => format!("<!doctype{} html{}>", r(" "), r(" ")),
            20 => format!("<textarea>{}</textarea>", r("<")),
            21 => format!("<style>{}</style></a>", r("\n\u{20ac}<")),
            // lists in which nothing is in order: lengths, names, values and kinds all mixed
            22 => format!("<a{}></a>", (0..n).map(|i| {
                let j = i * 7919 % 101;
                match j % 4 { 0 => format!(" {}", "n".repeat(1 + j % 7)), 1 => format!(" k{j}=\"{}\"", "v".repeat(j % 5)), 2 => format!(" K{}=\"\"", 100 - j), _ => format!(" a{i}=\"{j}\"") }
            }).collect::<String>()),
            23 => format!("<a{} />", (0..n).map(|i| format!(" x{}=\"{i}\"", n - i)).collect::<String>()),
            24 => format!("<a{}></a>", (0..n).map(|i| [" class=\"z a\"", " id=\"b\"", " c", " class=\"\"", " ID=\"a\""][i * i % 5]).collect::<String>()),
            25 => (0..n).map(|i| ["<z></z>", "t", "<a x=\"1\"/>", "<!--c-->", "<br>", "<title></title>", "<b>y</b>"][i * i % 7]).collect::<String>(),
            26 => format!("<a>{}</a>", (0..n).map(|i| format!("<e{}>{}</e{}>", n - i, i % 3, n - i)).collect::<String>()),
            _ => format!("<a><b>{}</b>{}</a>", "<!--c--><c/>".repeat(n / 2), "x<c></c>".repeat(n / 2)),
        };
        f(&s, cx)
    })]
}

// -------------------------------------------------------------------------------------- properties

pub fn c01(tier: Tier) -> Vec<Family> {
    let f = on(faithful);
    let mut v = common(f.clone(), tier);
    v.extend(characters(f.clone(), tier));
    v.extend(names(f.clone()));
    v.extend(vocabulary(f.clone(), tier));
    v.extend(scaling(f.clone(), tier));
    v.push(attributes(f.clone(), tier));
    v.push(documents(f, tier));
    v
}
pub fn c02(tier: Tier) -> Vec<Family> {
    let f = on(fixpoint);
    let mut v = common(f.clone(), tier);
    v.extend(characters(f.clone(), tier));
    v.extend(names(f.clone()));
    v.extend(vocabulary(f.clone(), tier));
    v.extend(scaling(f.clone(), tier));
    v.push(attributes(f.clone(), tier));
    v.push(documents(f, tier));
    v
}
pub fn c03(tier: Tier) -> Vec<Family> {
    let f = on(accepted);
    let mut v = common(f.clone(), tier);
    v.extend(characters(f.clone(), tier));
    v.extend(names(f.clone()));
    v.extend(vocabulary(f.clone(), tier));
    v.extend(scaling(f.clone(), tier));
    v.push(strings("nesting", "(tags)", vec!["<a>", "</a>", "<B>", "</b>", "<br>", "<a />"], tier.pick(7, 9), "", vec![""], arc(f.clone())));
    v.push(truncations(f, false));
    v
}

/// Lists of attributes in every spelling.
fn attributes(f: Src, tier: Tier) -> Family {
    strings("attribute lists", "(attributes in all spellings)", vec![" a", " A=\"\"", "\nb=\" x\ty \"", " b = \"1\"", "  c=\"<&>'=/\"", " d=\"\u{e9}\"", " a=\"2\"", "\t", " x\"y\"", " e=\"&quot;\""],
        tier.pick(4, 6), "<p", vec![">t</p>", "/>", " />", " / >"], move |s, cx| f(s, cx))
}

/// All forests of nodes as documents.
fn documents(f: Src, tier: Tier) -> Family {
    let labels = vec![
        Label::Leaf(text("t \n")), Label::Leaf(Node::Comment("-c\u{e9}".into())), Label::Leaf(elem("Br", &[("x", None)], Kind::Void, vec![])),
        Label::Leaf(elem("b", &[("k", Some(" v"))], Kind::SelfClosed, vec![])), Label::Leaf(elem("script", &[], Kind::Normal, vec![Node::Raw("</b> &".into())])),
        Label::Branch(elem("a", &[], Kind::Normal, vec![])), Label::Branch(elem("b", &[("a", Some("")), ("B", None)], Kind::Normal, vec![])),
    ];
    let all = Arc::new(forests_upto(tier.pick(4, 5), &labels).into_iter().filter(|d| parsable(d)).map(|d| render(&d)).collect::<Vec<_>>());
    split("documents", format!("all {} documents of at most {} nodes (text, comment, void, self-closed, raw text, two kinds of element)", all.len(), tier.pick(4, 5)), all.len(), 500, move |i, cx| f(&all[i], cx))
}

pub fn c04(tier: Tier) -> Vec<Family> {
    let f = on(opaque);
    let mut v = Vec::new();
    let toks = vec!["<", "/", ">", "script", "SCRIPT", "scripts", "scrip", " ", "x", "</script", "</SCript>", "</style>", "<b>", "<!--", "-->", "\u{e9}", "\"", "\n", "</script x>", "=", "&amp;", "\u{17f}cript"];
    v.push(strings("script contents", "(contents of script)", toks, tier.pick(3, 4), "<script>", vec!["</script>", "", "</script>x</script>", "</script ><b></b>"], arc(f.clone())));
    let toks = vec!["<", "/", ">", "title", "Title", "t", " ", "\n", "<title>", "</title", "\u{20ac}"];
    v.push(strings("title contents", "(contents of title in an element)", toks.clone(), tier.pick(4, 5), "<a><TITLE x=\"</title>\">", vec!["</Title></a>", "</title\t></a>", "</a>"], arc(f.clone())));
    v.push(strings("characters at the end tag", "", vec!["<", "/", "t", "T", "i", "title", ">", " ", "\u{e9}"], tier.pick(5, 6), "<title>", vec!["</title>"], arc(f.clone())));
    v.push(strings("self-closed and other elements", "(tags)", vec!["<script/>", "<Style />", "<script>", "</script>", "</style>", "<a>", "</a>", "<noscript>", "</noscript>", "<br>", "x"], tier.pick(4, 6), "", vec![""], arc(f.clone())));
    // each raw text element in every spelling, with every spelling of its closing tag
    let mut all = Vec::new();
    for n in RAW {
        let cs = cases(n);
        for (i, c) in cs.iter().enumerate() {
            all.push((c.clone(), cs[cs.len() - 1 - i].clone(), n));
            all.push((n.to_string(), c.clone(), n));
            all.push((c.clone(), n.to_string(), n));
        }
    }
    let all = Arc::new(all);
    let (a, g) = (all.clone(), f.clone());
    v.push(split("spellings", format!("{} pairs of spellings of the opening and closing tags, with 18 contents", all.len()), all.len(), 40, move |i, cx| {
        let (o, c, n) = &a[i];
        for x in ["", "x", "<b>", "</b>", "<", "</", "</>", "<!--", "&lt;", "<br>", "\u{e9}<\u{1f600}", "</{n", "</{n}x>", "<{n}>", "</{n}-", "< / {n} x", "</{n}\u{e9}>", "</{n}\n/>"] {
            let x = x.replace("{n}", n);
            g(&format!("<{o}>{x}</{c}>"), cx);
            g(&format!("<p><{o} a=\"b\">{x}< / {c}\n>{x}</p>"), cx);
        }
    }));
    // other elements have nothing special: each raw name inside each
    let g = f.clone();
    v.push(split("nested names", "each raw text element with the tags of each other one inside, and of itself", 16, 1, move |i, cx| {
        let (o, n) = (RAW[i / 4], RAW[i % 4]);
        for s in [format!("<{o}><{n}></{n}></{o}>"), format!("<{o}></{n}></{o}>"), format!("<{o}><{n}></{o}></{n}>"), format!("<{o}/><{n}><b></{n}>"), format!("<{o}></{o}><{n}></b></{n}>"),
            format!("<{o}></{o}>x<{n}/><b></b>"), format!("<b><{o}>x</b></{o}></b>"), format!("<{o}><b></{n}"), format!("<{o}>"), format!("<{o}></{o}")] { g(&s, cx); }
    }));
    let g = f.clone();
    let cs = chars();
    v.push(split("characters in raw text", "each character alone and at every place in and around a closing tag", cs.len() * 4, 8, move |i, cx| {
        let (n, c) = (RAW[i % 4], &cs[i / 4]);
        for s in [format!("{c}"), format!("<{c}"), format!("</{c}"), format!("</{c}{n}>"), format!("</{n}{c}>"), format!("<{c}/{n}>"), format!("{c}</{n}>"), format!("</{}{c}{}>", &n[..2], &n[2..]), format!("{c}{c}<b>{c}")] {
            g(&format!("<{n}>{s}</{n}>"), cx);
            g(&format!("<{n}>{s}"), cx);
        }
    }));
    v.extend(vocabulary(f.clone(), tier));
    v.push(scaling(f, tier).pop().unwrap());
    v
}

/// All prefixes of rich documents, and all single character changes of them.
fn truncations(f: Src, edits: bool) -> Family {
    let docs: Vec<String> = vec![
        "<!doctype html><html lang=\"en\"><head><title>a<b</title><meta x=\"y\"></head><body><p class=\"a b\">\u{e9}&lt;<br/>x</p><!-- c\n --><img src='1\"></body></html>".replace("'", "\""),
        "<!DOCTYPE  HTML ><ul>\n\t<li a = \"1\" b>\u{1f600}</ li><li / ><script>if (a</b) </SCRIPT >\n</ul><textarea>\u{20ac}</textarea>".into(),
        "<a\u{e9}b=\"\u{a0}\"><x-y z:w=\"=\"/></a\u{e9}b><!----><!-- --- -->".into(),
    ];
    let all: Vec<String> = docs.iter().flat_map(|d| {
        let idx: Vec<usize> = d.char_indices().map(|x| x.0).chain([d.len()]).collect();
        let mut v: Vec<String> = idx.iter().map(|i| d[..*i].to_string()).collect();
        v.extend(idx.iter().map(|i| d[*i..].to_string()));
        for w in idx.windows(2) {
            v.push(format!("{}{}", &d[..w[0]], &d[w[1]..]));
            v.push(format!("{}{}{}", &d[..w[1]], &d[w[0]..w[1]], &d[w[1]..]));
            for c in ["<", ">", "/", "\"", "'", "=", "!", "-", " ", "\n", "\u{e9}", "\u{1f600}", "\0", "a"] {
                v.push(format!("{}{c}{}", &d[..w[0]], &d[w[1]..]));
                v.push(format!("{}{c}{}", &d[..w[0]], &d[w[0]..]));
            }
        }
        if edits {
            // remove every stretch
            for (i, a) in idx.iter().enumerate() { for b in &idx[i..] { v.push(format!("{}{}", &d[..*a], &d[*b..])); } }
        }
        v
    }).collect();
    let all = Arc::new(all);
    split("damaged documents", format!("all prefixes and suffixes of three rich documents, and every single character removed, doubled, changed or inserted{} ({} sources)", if edits { ", and every stretch removed" } else { "" }, all.len()), all.len(), 200, move |i, cx| f(&all[i], cx))
}

pub fn c05(tier: Tier) -> Vec<Family> {
    let f = on(total);
    let mut v = vec![
        strings("characters", "", vec!["<", "a", "/", ">", "!", "-", "\"", "=", " ", "\u{e9}", "\0", "\u{1f600}", "\n", "&", "'"], tier.pick(5, 6), "", vec![""], arc(f.clone())),
        strings("pieces", "", vec!["<", "</", "<!", "<!--", "-->", "<script>", "</script", "<!doctype", "html", "<a", " x=", "\"", "/>", ">", "\u{e9}", "\u{feff}", "<br", "</", "\u{a0}", "\r\n"], tier.pick(4, 5), "", vec![""], arc(f.clone())),
        strings("tag characters", "", tag_chars(), tier.pick(4, 5), "<a", vec!["", ">"], arc(f.clone())),
        truncations(f.clone(), true),
    ];
    v.extend(characters(f.clone(), tier));
    v.extend(names(f.clone()));
    v.extend(vocabulary(f.clone(), tier));
    v.extend(scaling(f.clone(), tier));
    // repeated pieces
    let ps = ["<", ">", "/", "\"", "=", "!", "-", " ", "a", "\u{e9}", "<a", "</a", "<!--", "-->", "<script>", "</script", "<br>", "x=\"", "<!doctype ", "<title>"];
    let k = ps.len();
    let g = f.clone();
    let rep = tier.pick(1000, 3000);
    v.push(split("repeated pieces", format!("each triple of {k} pieces, with one, two or all three repeated {rep} times"), k * k, 4, move |i, cx| {
        let (a, b) = (ps[i / k], ps[i % k]);
        for c in ["", "<", ">", "\"", "</script>", "\u{e9}"] {
            g(&format!("{}{b}{c}", a.repeat(rep)), cx);
            g(&format!("{a}{}{c}", b.repeat(rep)), cx);
            g(&format!("{}{c}", format!("{a}{b}").repeat(rep)), cx);
            g(&format!("{}", format!("{a}{b}{c}").repeat(rep)), cx);
        }
    }));
    // deep nesting, with an ordinary stack
    let deep = tier.pick(200_000, 1_000_000);
    v.push(split("deep nesting on an ordinary stack", format!("documents nested {deep} deep (complete, unfinished, mismatched, deeper than the limit), loaded, rendered, cloned, compared and dropped on a thread with 1 MB of stack"), 8, 1, move |i, cx| {
        cx.case(|| format!("nesting shape {i}, {deep} deep"), move |rec| {
            rec.step(1);
            std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
                let (o, c) = ("<a>".repeat(deep), "</a>".repeat(deep));
                let s = match i { 0 | 5 => format!("{o}x{c}"), 1 => o, 2 => format!("{o}</b>"), 3 => format!("{o}{c}{c}"), 4 => "<a x=\"1\">".repeat(deep), 6 => "<a>".repeat(deep) + "<br x=>", _ => "<br/><b />".repeat(deep) };
                let mut opt = ParseOptions::default();
                if i == 5 { opt = opt.max_stack_depth(deep - 1); }
                match Template::from_str(&s, opt) {
                    Ok(t) => {
                        if !matches!(i, 0 | 7) { return Err("accepted".to_string()); }
                        let u = t.clone();
                        if t != u || t.to_string().is_empty() { return Err("clone differs".into()); }
                        let r = t.transform(|h| h).map_err(|e| format!("{e:?}"))?;
                        drop((t, u, r));
                        Ok(())
                    }
                    Err(e) => { if matches!(i, 0 | 7) { return Err(clip(&format!("{e:?}"), 200)); } drop(e.to_string()); Ok(()) }
                }
            }).map_err(|e| e.to_string())?.join().map_err(|_| "panicked".to_string())?
        })
    }));
    v
}

pub fn c06(tier: Tier) -> Vec<Family> {
    let f = on(located);
    let mut v = common(f.clone(), tier);
    v.extend(characters(f.clone(), tier));
    v.extend(names(f.clone()));
    v.extend(vocabulary(f.clone(), tier));
    v.extend(scaling(f.clone(), tier));
    v.push(truncations(f.clone(), false));
    // every error after every mix of lines and characters
    let pre = ["", "x", "\n", "\u{e9}", "\r\n", "\u{1f600}", "\t", "<br>", "<!--\n\u{20ac}-->", "<b a=\"\n\u{e9}\" />", "\u{2028}", "<script>\n</b></script>", "<p\n>", "<!doctype\nhtml>"];
    let err = ["<!doctype xml>", "<! DOCTYPE\n \u{e9} >", "<!doctype html", "<!--", "<!-- \n", "<a\n x", "<A x=\"1\" y <", "</p\n x>", "</p", "<", "< \n>", "<\u{e9}>", "<!a>", "<a,b>",
        "</>", "</ \n>", "</p\u{e9}>", "</\na;>", "<a \u{e9}>", "<a x\n,y>", "<a x=1>", "<a\n \u{e9}=", "<A b=\n'1'>", "<a x=\"", "<a\nB = \n\"\u{e9}>", "<u>", "<U><i>\n<b/>", "</p></p>", "</\u{e9}>", "</q>", "<a>\n</b>", "<X a=\"\u{e9}\n\"></x></y>", "<title>\n", "<title></b>", "<p>\n<p></p>"];
    let k = pre.len();
    let depth = tier.pick(3, 4);
    let g = f.clone();
    v.push(split("errors after prefixes", format!("each of {} kinds of error after all sequences of at most {depth} of {k} pieces (lines, multi-byte characters, multi-line constructs), followed by nothing or more text", err.len()), err.len() * k, 2, move |i, cx| {
        let (e, p0) = (err[i / k], i % k);
        for n in 1..=depth {
            sequences(k, n, &[p0], &mut |q| {
                let mut s: String = q.iter().map(|t| pre[*t]).collect();
                s.push_str(e);
                g(&s, cx);
                if n <= 2 { s.push_str("\n\u{e9}<br>"); g(&s, cx); }
            });
        }
    }));
    // positions of all open tags
    v.push(strings("open elements", "(opening tags)", vec!["<a>", "<B x=\"\n\">", "</a>", "\n", "\u{e9}", "<br>", "<i />", "<script>", "</b>"], tier.pick(5, 7), "", vec![""], arc(f)));
    v
}
