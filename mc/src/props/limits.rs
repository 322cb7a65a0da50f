//! C07: limits on input length and nesting depth.

use super::files::{load, Scratch};
use super::gen::*;
use super::markup::located_with;
use crate::engine::*;
use crate::model::*;
use crate::refparse::{self, PErr};
use html5_fuser::template::{FileError, InputError};
use html5_fuser::{ParseOptions, Template};
use std::sync::Arc;

fn options(len: Option<usize>, depth: Option<usize>) -> ParseOptions {
    let mut o = ParseOptions::default();
    if let Some(n) = len { o = o.max_input_len(n); }
    if let Some(n) = depth { o = o.max_stack_depth(n); }
    o
}

fn verdict(s: &str, len: Option<usize>, depth: Option<usize>, r: Result<Template, InputError>, rec: &mut Rec) -> Check {
    rec.step(1);
    if let Some(limit) = len {
        if s.len() > limit {
            rec.outcome("too long");
            return match r {
                Err(e @ InputError::LengthLimitExceeded { limit: l }) if l == limit => {
                    if e.to_string().contains(&format!("({limit})")) { Ok(()) } else { Err(format!("message {:?} does not tell the limit", e.to_string())) }
                }
                r => Err(format!("{} bytes with limit {limit}: {}", s.len(), show_result(r))),
            };
        }
    }
    match refparse::parse(s, depth) {
        Ok(doc) => {
            if s.len() < 300 { rec.state(&format!("{depth:?}{}", canon(&doc))); }
            match r { Ok(t) => same_doc(&t, &doc), Err(e) => Err(format!("{} bytes: rejected with {e:?}", s.len())) }
        }
        Err(w @ PErr::Depth { .. }) => { rec.outcome("too deep"); located_with(s, &w, r) }
        Err(w) => {
            rec.outcome("error");
            let e = super::markup::parse_error(r).map_err(|e| format!("{e}; expected {w:?}"))?;
            if refparse::matches(&e, &w, false) { Ok(()) } else { Err(format!("rejected with {e:?}, expected {w:?}")) }
        }
    }
}
fn show_result(r: Result<Template, InputError>) -> String {
    match r { Ok(t) => format!("accepted, giving {:?}", crate::engine::clip(&t.to_string(), 100)), Err(e) => format!("{e:?}") }
}

pub fn both(s: &str, len: Option<usize>, depth: Option<usize>, file: bool, rec: &mut Rec) -> Check {
    verdict(s, len, depth, Template::from_str(s, options(len, depth)), rec).map_err(|e| format!("from_str: {e}"))?;
    if file {
        let sc = Scratch::file(s.as_bytes());
        let r = match load(&sc.path, options(len, depth)) {
            Ok(t) => Ok(t),
            Err(FileError::Input { path, error }) => {
                if path != sc.path { return Err(format!("error names {path:?} instead of {:?}", sc.path)); }
                Err(error)
            }
            Err(e) => return Err(format!("from_file: {e:?}")),
        };
        verdict(s, len, depth, r, rec).map_err(|e| format!("from_file: {e}"))?;
    }
    Ok(())
}

pub fn c07(tier: Tier) -> Vec<Family> {
    let case = |s: String, len: Option<usize>, depth: Option<usize>, file: bool, cx: &mut Cx| {
        cx.case(|| format!("source {:?} ({} bytes) with max_input_len {len:?}, max_stack_depth {depth:?}{}", crate::engine::clip(&s, 200), s.len(), if file { ", as string and file" } else { "" }),
            |rec| both(&s, len, depth, file, rec))
    };
    let mut v = Vec::new();
    // every length against every limit
    let top = tier.pick(40, 80);
    let shapes: Vec<fn(usize) -> String> = vec![
        |n| "x".repeat(n),
        |n| { let k = n / 2; "\u{e9}".repeat(k) + &"x".repeat(n - 2 * k) },
        |n| { let k = n / 4; "x".repeat(n - 4 * k) + &"\u{1f600}".repeat(k) },
        |n| if n < 7 { " ".repeat(n) } else { format!("<a>{}</a>", "y".repeat(n - 7)) },
        |n| if n < 9 { "\n".repeat(n) } else { format!("<a x=\"{}\">", "y".repeat(n - 8)) },
        |n| "<".repeat(n),
    ];
    let k = shapes.len();
    let sh = Arc::new(shapes);
    let s2 = sh.clone();
    v.push(split("length against limit", format!("inputs of each length 0..={top} in {k} shapes (one, two and four byte characters, markup, errors), each limit 0..={} and the extremes, strings and files", top + 2), k * (top + 1), 4, move |i, cx| {
        let s = s2[i % k](i / k);
        for l in (0..=top + 2).chain([usize::MAX - 1, usize::MAX, usize::MAX / 2, 1 << 32]) { case(s.clone(), Some(l), None, true, cx); }
        case(s, None, None, true, cx);
    }));
    // every way of asking for limits
    let n = tier.pick(4, 5);
    let calls: [(&str, fn(ParseOptions) -> ParseOptions, Option<(bool, Option<usize>)>); 9] = [
        ("max_stack_depth(0)", |o| o.max_stack_depth(0), Some((true, Some(0)))), ("max_stack_depth(1)", |o| o.max_stack_depth(1), Some((true, Some(1)))), ("max_stack_depth(2)", |o| o.max_stack_depth(2), Some((true, Some(2)))),
        ("no_max_stack_depth()", |o| o.no_max_stack_depth(), Some((true, None))), ("max_input_len(6)", |o| o.max_input_len(6), Some((false, Some(6)))), ("max_input_len(7)", |o| o.max_input_len(7), Some((false, Some(7)))),
        ("max_input_len(14)", |o| o.max_input_len(14), Some((false, Some(14)))), ("no_max_input_len()", |o| o.no_max_input_len(), Some((false, None))), ("clone()", |o| o.clone(), None)];
    let k = calls.len();
    v.push(split("option calls", format!("all sequences of at most {n} of the {k} calls that set or lift limits, on default options and on options with both limits given as fields, with sources at and around them"), 2 * k * k, 1, move |i, cx| {
        let given = i % 2 == 1;
        let first = [i / 2 / k, i / 2 % k];
        let mut run = |q: &[usize]| {
            let (mut len, mut depth, mut o, mut text) = (None, None, ParseOptions::default(), String::from("default"));
            if given { len = Some(13); depth = Some(1); o = ParseOptions { max_stack_depth: depth, max_input_len: len }; text = "fields 13, 1".into(); }
            for c in q {
                o = calls[*c].1(o);
                text += ".";
                text += calls[*c].0;
                match calls[*c].2 { Some((true, d)) => depth = d, Some((false, l)) => len = l, None => {} }
            }
            for s in ["<a></a>", "<a><b></b></a>", "<br>", "abcdef", "<b/>\u{e9}\u{e9}", "<i>", ""] {
                cx.case(|| format!("{s:?} with {text}"), |rec| {
                    if (o.max_input_len, o.max_stack_depth) != (len, depth) { return Err(format!("options are {o:?}")); }
                    verdict(s, len, depth, Template::from_str(s, o), rec)
                });
            }
        };
        if i < 2 { run(&[]); for c in 0..k { run(&[c]); } }
        for l in 2..=n { sequences(k, l, &first, &mut |q| run(q)); }
    }));
    // large sizes, where chunks of files end
    let mut big: Vec<usize> = sizes(0, tier.pick(65537, 262145)).into_iter().filter(|n| *n >= 255).collect();
    for k in [8192 * 2 - 4, 8192 * 3, 8192 * 3 + 1, 8192 * 3 - 1, 8190, 8194, 100_000] { big.push(k); }
    big.sort();
    big.dedup();
    let list = Arc::new(big);
    let s3 = sh.clone();
    let m = list.len();
    v.push(split("large sizes against limits", format!("inputs of each of {m} large sizes (powers of two, read buffer multiples, and neighbours) in 5 shapes with limits around the size and around every smaller buffer boundary, strings and files"), m * 5, 2, move |i, cx| {
        let n = list[i / 5];
        let s = s3[i % 5](n);
        let mut ls = vec![0, 1, n - 3, n - 2, n - 1, n, n + 1, n + 2, 2 * n, usize::MAX];
        let mut b = 8192;
        while b < n && b <= 8192 * 4 { ls.extend([b - 1, b, b + 1]); b += 8192; }
        ls.sort();
        ls.dedup();
        for l in ls { case(s.clone(), Some(l), None, true, cx); }
    }));
    // every tag sequence against every depth
    let toks = vec!["<a>", "</a>", "<B>", "</b>", "<br>", "<i/>", "<script>", "</script>", "x"];
    v.push(strings("depth against limit", "(tags), each with depth limits none and 0 to 4", toks, tier.pick(5, 6), "", vec![""], move |s, cx| {
        for d in [None, Some(0), Some(1), Some(2), Some(3), Some(4)] { case(s.to_string(), None, d, false, cx); }
    }));
    v.push(strings("open and close", "(tags), each with depth limits 0 to 5", vec!["<a>", "</a>", "<img x=\"\">", "<p />", "<b>", "</b>"], tier.pick(6, 8), "\n", vec![""], move |s, cx| {
        for d in 0..=5 { case(s.to_string(), None, Some(d), false, cx); }
    }));
    // every document against every depth and length around its own
    let labels = vec![Label::Leaf(text("t")), Label::Leaf(elem("hr", &[], Kind::Void, vec![])), Label::Leaf(elem("b", &[], Kind::SelfClosed, vec![])),
        Label::Leaf(elem("script", &[], Kind::Normal, vec![Node::Raw("<a>".into())])), Label::Leaf(elem("title", &[], Kind::Normal, vec![])),
        Label::Branch(elem("a", &[("x", Some("\u{e9}"))], Kind::Normal, vec![])), Label::Branch(elem("p", &[], Kind::Normal, vec![]))];
    let n = tier.pick(4, 5);
    let docs: Arc<Vec<String>> = Arc::new(forests_upto(n, &labels).into_iter().filter(|d| parsable(d)).map(|d| render(&d)).collect());
    v.push(split("documents", format!("all {} documents of at most {n} nodes with both limits, each at, below and above what the document needs", docs.len()), docs.len(), 50, move |i, cx| {
        let s = &docs[i];
        for d in 0..=n { for l in [s.len().wrapping_sub(1), s.len(), s.len() + 1] { case(s.clone(), Some(l), Some(d), false, cx); } }
        case(s.clone(), Some(s.len()), Some(n), true, cx);
        case(s.clone(), Some(s.len()), Some(1), true, cx);
        case(s.clone(), None, None, true, cx);
    }));
    // depths at all sizes
    let sz = Arc::new(sizes(tier.pick(300, 1000), tier.pick(8193, 65537)));
    let m = sz.len();
    v.push(split("depth sizes", format!("nesting at each of {m} depths, alone and after another branch, with limits around the depth"), m, 4, move |i, cx| {
        let n = sz[i];
        let nest = |k: usize| "<a>".repeat(k) + &"</a>".repeat(k);
        for l in [0, 1, n.saturating_sub(1), n, n + 1, usize::MAX] {
            case(nest(n), None, Some(l), n < 600, cx);
            case(format!("{}<br>\n{}", nest(n.saturating_sub(1)), nest(n)), None, Some(l), false, cx);
        }
        case("<br><b/>".repeat(n), None, Some(0), false, cx);
        case("<p>x</p>\n".repeat(n), None, Some(1), false, cx);
        case("<p>x</p>\n".repeat(n), None, Some(0), false, cx);
        case(nest(n), None, None, false, cx);
    }));
    v.push(super::files::endless_files(tier));
    v
}
