//! C27: rendering into any writer.

use super::gen::*;
use super::progs::*;
use super::select::{docs_upto, labels};
use super::user;
use crate::engine::*;
use crate::model::*;
use crate::prog::{self, Prog};
use crate::real;
use html5_fuser::event::IntoStream;
use html5_fuser::text::{Data, Identifier, Value};
use html5_fuser::{ParseOptions, Template};
use std::fmt::{self, Debug, Display, Write};
use std::io;
use std::sync::Arc;

/// Takes text until call number `calls` or until there are more than `room` bytes, and fails then and ever after.
struct Failing { text: String, calls: usize, room: usize, failed: bool, after: usize }
impl Failing {
    fn new(calls: usize, room: usize) -> Failing { Failing { text: String::new(), calls, room, failed: false, after: 0 } }
    fn put(&mut self, s: &str) -> fmt::Result {
        if self.failed { self.after += 1; return Err(fmt::Error); }
        if self.calls == 0 || self.text.len() + s.len() > self.room { self.failed = true; return Err(fmt::Error); }
        self.calls -= 1;
        self.text.push_str(s);
        Ok(())
    }
}
impl Write for Failing { fn write_str(&mut self, s: &str) -> fmt::Result { self.put(s) } }
/// The same with a way of its own for characters.
struct Chars(Failing);
impl Write for Chars {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.0.put(s) }
    fn write_char(&mut self, c: char) -> fmt::Result { self.0.put(c.encode_utf8(&mut [0; 4])) }
}

/// Bytes, a few at a time, with interruptions, up to `room`.
struct Bytes { out: Vec<u8>, room: usize, some: usize, turn: usize, failed: bool }
impl io::Write for Bytes {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.turn += 1;
        if self.turn % 3 == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(self.some).min(self.room - self.out.len());
        if n == 0 && !b.is_empty() { self.failed = true; return Err(io::Error::new(io::ErrorKind::StorageFull, "full")); }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Something to write, in its forms.
pub struct Thing<'a> { what: &'static str, write: &'a dyn Fn(&mut dyn Write) -> fmt::Result, io: &'a dyn Fn(&mut dyn io::Write) -> io::Result<()> }

/// `want`: what has to come out, if known.
fn written(t: &Thing, want: Option<&str>, rec: &mut Rec) -> Check {
    let Thing { what, write, io } = t;
    let mut calls = Failing::new(usize::MAX, usize::MAX);
    write(&mut calls).map_err(|_| format!("{what}: writing failed"))?;
    let full = calls.text;
    if let Some(w) = want { if full != w { return Err(format!("{what}: wrote {:?}, expected {:?}", clip(&diffclip(&full, w), 300), clip(&diffclip(w, &full), 300))); } }
    let n = usize::MAX - calls.calls;
    rec.state(&full);
    let mut chars = Chars(Failing::new(usize::MAX, usize::MAX));
    if write(&mut chars).is_err() || chars.0.text != full { return Err(format!("{what}: another writer got {:?} instead of {full:?}", chars.0.text)); }
    let check = |w: Failing, r: fmt::Result, how: String, must: bool| -> Check {
        if w.failed != r.is_err() { return Err(format!("{what}: the writer {how} failed: {}, the result: {r:?}, written {:?}", w.failed, clip(&w.text, 300))); }
        if must != w.failed { return Err(format!("{what}: the writer {how} should fail: {must}, did: {}", w.failed)); }
        if w.failed && w.after > 0 { return Err(format!("{what}: {} more writes after the writer {how} had failed", w.after)); }
        if !full.starts_with(&w.text) || (!w.failed && w.text != full) { return Err(format!("{what}: the writer {how} got {:?}, the whole is {:?}", clip(&w.text, 300), clip(&full, 300))); }
        Ok(())
    };
    for k in 0..=n {
        rec.step(1);
        let mut w = Failing::new(k, usize::MAX);
        let r = write(&mut w);
        check(w, r, format!("failing at call {k}"), k < n)?;
        let mut w = Chars(Failing::new(k, usize::MAX));
        let r = write(&mut w);
        check(w.0, r, format!("of characters failing at call {k}"), k < n)?;
    }
    let len = full.len();
    let rooms: Vec<usize> = if len <= 600 { (0..=len).collect() } else { sizes(8, len).into_iter().chain([len]).collect() };
    for room in rooms {
        rec.step(1);
        let mut w = Failing::new(usize::MAX, room);
        let r = write(&mut w);
        check(w, r, format!("with room for {room} bytes"), room < len)?;
        for some in [1, 5, usize::MAX] {
            let mut w = Bytes { out: vec![], room, some, turn: 0, failed: false };
            let r = io(&mut w);
            let kind = r.as_ref().err().map(|e| e.kind());
            if w.failed != (room < len) || kind != (if w.failed { Some(io::ErrorKind::StorageFull) } else { None }) { return Err(format!("{what}: room for {room} of {len} bytes gave {r:?}")); }
            if w.out != full.as_bytes()[..room] { return Err(format!("{what}: with room for {room} bytes got {:?}", String::from_utf8_lossy(&w.out))); }
        }
    }
    let mut again = String::new();
    if write(&mut again).is_err() || again != full { return Err(format!("{what}: afterwards it writes {:?} instead of {full:?}", clip(&again, 300))); }
    Ok(())
}

fn shown(what: &'static str, x: &dyn Display, want: Option<&str>, rec: &mut Rec) -> Check {
    written(&Thing { what, write: &|w| write!(w, "{}", x), io: &|w| write!(w, "{}", x) }, want, rec)
}
fn debugged(what: &'static str, x: &dyn Debug, rec: &mut Rec) -> Check {
    written(&Thing { what, write: &|w| write!(w, "{:?}", x), io: &|w| write!(w, "{:?}", x) }, None, rec)?;
    written(&Thing { what, write: &|w| write!(w, "{:#?}", x), io: &|w| write!(w, "{:#?}", x) }, None, rec)
}

/// A template, its pieces, and all of them together.
fn template(t: &Template, want: Option<&str>, debug: bool, rec: &mut Rec) -> Check {
    shown("template", t, want, rec)?;
    let mut all = String::new();
    for e in real::pull(t.into_stream()) {
        shown("event", &e, None, rec)?;
        all += &e.to_string();
    }
    if all != t.to_string() { return Err(format!("the pieces give {:?}, the template {:?}", clip(&all, 300), clip(&t.to_string(), 300))); }
    if debug { debugged("template for debugging", t, rec)?; }
    Ok(())
}

fn error(e: &dyn std::error::Error, rec: &mut Rec) -> Check {
    shown("error", &e, None, rec)?;
    debugged("error for debugging", &e, rec)?;
    #[allow(deprecated)]
    match e.cause() { Some(c) => error(c, rec), None => Ok(()) }
}

fn result(r: Result<Template, html5_fuser::StreamError>, rec: &mut Rec) -> Check {
    match r { Ok(t) => template(&t, None, false, rec), Err(e) => error(&e, rec) }
}

pub fn c27(tier: Tier) -> Vec<Family> {
    let pieces = vec!["<a>", "</a>", "<A k=\"v&amp;\" l>", "<br>", "<b/>", "t", "&lt;\u{e9}", "<!--c-->", "<!doctype x>", "<script><s></script>", "\n"];
    let mut v = vec![strings("sources", "loaded, and the template or the error written", pieces, tier.pick(4, 5), "", vec![""], |s, cx| {
        cx.case(|| format!("{s:?}"), |rec| match real::parse(s) {
            Ok(t) => template(&t, Some(&crate::refparse::parse(s, None).map(|d| render(&d)).unwrap_or_default()), s.len() < 30, rec),
            Err(e) => error(&e, rec),
        });
    })];
    let ps: Arc<Vec<Prog>> = Arc::new(user::programs());
    let ds = docs_upto(tier.pick(2, 3), &labels());
    v.push(product_by("results", "results of programs, written", ds, ps.to_vec(), Arc::new(|t: &Template, _: &[Node], p: &Prog, rec: &mut Rec| result(real::transform(t, p).0, rec))));
    let bad: Vec<Prog> = super::faults::injected(vec![vec![any("a", &[])], vec![any("b", &[])], vec![]], &super::faults::failing_ops(true));
    let k = bad.len();
    v.push(split("failures", format!("the errors of {k} programs with a fault, and of what caused them, written"), k, 16, move |i, cx| {
        let p = &bad[i];
        cx.case(|| format!("html{}", prog::show_prog(p)), |rec| result(real::transform(&user::shared().t, p).0, rec));
    }));
    let tx: Vec<&'static str> = vec!["a", "&", "<", ">", "\"", " ", "\u{e9}", "\u{1f600}", "plain text", "\n"];
    v.push(strings("texts", "as texts, values and names", tx, tier.pick(4, 5), "", vec![""], |s, cx| {
        cx.case(|| format!("{s:?}"), |rec| {
            let (d, v) = (Data::from_unencoded_str(s), Value::from_unencoded_str(s));
            let w = escape(s);
            shown("text", &d, Some(&w), rec)?;
            shown("value", &v, Some(&w), rec)?;
            shown("encoded text", &d.as_encoded_ref(), Some(&w), rec)?;
            if s.len() < 12 { debugged("text for debugging", &d, rec)?; debugged("value for debugging", &v, rec)?; }
            match s.parse::<Identifier>() { Ok(i) => shown("name", &i, Some(s), rec), Err(e) => error(&e, rec) }
        });
    }));
    v.push(split("by size", "documents of all shapes at growing sizes, written".to_string(), SHAPES, 1, move |k, cx| {
        for n in sizes(tier.pick(4, 16), tier.pick(300, 3000)) {
            let src = sized_doc(k, n);
            cx.case(|| format!("shape {k} of size {n}"), |rec| {
                let t = real::tmpl(&src)?;
                let want = render(&parse_doc(&src));
                // the calls are many here: failing at sizes around which things change
                let thing = |w: &mut dyn Write| write!(w, "{t}");
                let mut all = Failing::new(usize::MAX, usize::MAX);
                if thing(&mut all).is_err() || all.text != want { return Err(format!("wrote {:?}", clip(&diffclip(&all.text, &want), 300))); }
                let calls = usize::MAX - all.calls;
                for c in sizes(8, calls.saturating_sub(1)).into_iter().filter(|c| *c < calls) {
                    rec.step(1);
                    let mut w = Failing::new(c, usize::MAX);
                    let r = thing(&mut w);
                    if r.is_ok() || w.after > 0 || !want.starts_with(&w.text) { return Err(format!("failing at call {c} of {calls}: {r:?}, {} writes after, {:?}", w.after, clip(&w.text, 200))); }
                }
                Ok(())
            });
        }
    }));
    v.push(Family::new("errors of files", "errors of files that are missing, broken, too long or not text, written", 1, |_, cx| {
        cx.case(|| "files".into(), |rec| {
            use super::files::Scratch;
            let (parse, latin, ok) = (Scratch::file(b"<a>\n<b>"), Scratch::file(b"\xe9"), Scratch::file(b"<a></a>"));
            for r in [Template::from_file(&parse.path, ParseOptions::default()), Template::from_file(&latin.path, ParseOptions::default()), Template::from_file(&ok.path, ParseOptions::default().max_input_len(3)), Template::from_file(real::MISSING_FILE, ParseOptions::default()), Template::from_file(ok.path.parent().unwrap(), ParseOptions::default())] {
                match r { Ok(_) => return Err("loaded".into()), Err(e) => { error(&e, rec)?; error(&html5_fuser::StreamError::from(e), rec)?; } }
            }
            Ok(())
        });
    }));
    v
}
