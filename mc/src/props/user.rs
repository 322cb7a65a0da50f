//! Uses of the library in which code of the user is called wherever there can be such code.

use super::compose::{element_ops, stream_ops};
use super::files::Scratch;
use super::progs::*;
use crate::engine::*;
use crate::model::*;
use crate::prog::{prog, AttrOp, Content, Fault, Items, Op, Prog, Scope, Sel, Val};
use crate::real;
use hook::y;
use html5_fuser::event::{Event, IntoStream, Stream, StreamError, StreamResult};
use html5_fuser::select::{Classes, IntoSelector, Selector, Tag};
use html5_fuser::template::FileError;
use html5_fuser::text::{Data, Identifier, IdentifierError, IntoIdentifier, IntoValue, Value};
use html5_fuser::{ParseOptions, Template};
use std::cell::RefCell;
use std::fmt::{self, Write};
use std::path::Path;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;

pub struct Act { pub name: String, pub run: Box<dyn Fn() -> String + Send + Sync> }
pub type Acts = Arc<Vec<Act>>;

/// A selector that is user code; matches what has the text in its tag.
struct YSel(&'static str);
impl Selector for YSel {
    fn matches(&self, e: &Event) -> bool { y(); ["opening tag", "self-closed tag", "void tag"].contains(&e.description()) && e.to_string().contains(self.0) }
}
impl Drop for YSel { fn drop(&mut self) { y() } }
struct YIntoSel(&'static str, bool);
impl IntoSelector for YIntoSel {
    type Error = YErr;
    type Selector = YSel;
    fn into_selector(self) -> Result<YSel, YErr> { y(); if self.1 { Ok(YSel(self.0)) } else { Err(YErr) } }
}
struct YErr;
impl From<YErr> for StreamError { fn from(_: YErr) -> StreamError { y(); StreamError::Identifier { error: IdentifierError::Forbidden { forbidden: '$' } } } }
#[derive(Clone)]
struct YIter(i64, i64);
impl Iterator for YIter {
    type Item = YItem;
    fn next(&mut self) -> Option<YItem> { y(); if self.0 < self.1 { self.0 += 1; Some(YItem(self.0 - 1)) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { y(); let n = (self.1 - self.0) as usize; (n, Some(n)) }
}
impl Drop for YIter { fn drop(&mut self) { y() } }
struct YItem(i64);
impl Drop for YItem { fn drop(&mut self) { y() } }
struct YInto(i64);
impl IntoIterator for YInto {
    type Item = YItem;
    type IntoIter = YIter;
    fn into_iter(self) -> YIter { y(); YIter(0, self.0) }
}
struct YStream(std::vec::IntoIter<Event>, bool);
impl YStream {
    fn of(t: &Template) -> YStream { YStream(real::pull(t.into_stream()).into_iter(), false) }
    fn failing(t: &Template) -> YStream { YStream(real::pull(t.into_stream()).into_iter(), true) }
}
impl Stream for YStream {
    fn next_event(&mut self) -> StreamResult {
        y();
        match self.0.next() { Some(e) => Ok(Some(e)), None if self.1 => Err(YErr.into()), None => Ok(None) }
    }
}
impl Drop for YStream { fn drop(&mut self) { y() } }
struct YContent(Template);
impl IntoStream for YContent {
    type Stream = YStream;
    fn into_stream(self) -> YStream { y(); YStream::of(&self.0) }
}
struct YVal(&'static str);
impl IntoValue for YVal { fn into_value(self) -> Value { y(); Value::from_unencoded_str(YStr(self.0)) } }
struct YName(&'static str);
impl IntoIdentifier for YName { fn into_identifier(self) -> Result<Identifier, IdentifierError> { y(); let r = self.0.parse(); y(); r } }
struct YStr(&'static str);
impl AsRef<str> for YStr { fn as_ref(&self) -> &str { y(); self.0 } }
struct YPath<'p>(&'p Path);
impl<'p> AsRef<Path> for YPath<'p> { fn as_ref(&self) -> &Path { y(); self.0 } }
pub struct YWrite(pub String);
impl Write for YWrite { fn write_str(&mut self, s: &str) -> fmt::Result { y(); self.0.push_str(s); Ok(()) } }
/// Dropped when the closure that has it is.
struct Token;
impl Drop for Token { fn drop(&mut self) { y() } }
fn used(_: &Token) { y() }

pub const MARKUP: &str = "<a class=\"x\" id=\"i\">1<b class=\"x y\" k><a/>t&amp;</b></a><br class=\"y\">u<!--c--><script><r></script>";

pub struct Shared { pub t: Template, data: Data, value: Value, name: Identifier, tag: Rc<Tag> }
/// Making them is part of the use.
pub static FRESH: AtomicBool = AtomicBool::new(false);
thread_local! { static SHARED: RefCell<Option<Rc<Shared>>> = const { RefCell::new(None) }; }
/// Things of this thread that all uses share.
pub fn shared() -> Rc<Shared> {
    if let Ok(Some(s)) = SHARED.try_with(|s| s.borrow().clone()) { return s; }
    let new = || Rc::new(Shared {
        t: real::parse(MARKUP).expect("markup"), data: Data::from_unencoded_str("<d>"), value: Value::from_unencoded_str("v&"), name: "n".parse().expect("name"), tag: Rc::new("b".parse().expect("tag")),
    });
    let s = if FRESH.load(SeqCst) { new() } else { hook::without(new) };
    let _ = SHARED.try_with(|x| *x.borrow_mut() = Some(s.clone()));
    s
}
/// Forget and make them anew.
pub fn renew() { let old = SHARED.with(|s| s.borrow_mut().take()); drop(old); shared(); }

pub fn told<E: fmt::Debug>(r: Result<Template, E>) -> String {
    match r {
        Ok(t) => format!("{t} {}", canon_real(&t).map_or_else(|e| e, |c| show(&c))),
        Err(e) => format!("failed: {e:?}"),
    }
}

fn parse(s: &str) -> Template { real::parse(s).expect("markup") }

pub fn uses() -> Vec<Act> {
    let mut v: Vec<Act> = Vec::new();
    macro_rules! act { ($n:expr, $e:expr) => { v.push(Act { name: $n.to_string(), run: Box::new($e) }) } }
    let file = Arc::new(Scratch::file(MARKUP.as_bytes()));
    let broken = Arc::new(Scratch::file(b"<a>\n<b \xc3\xa9=1></B><c></a>"));
    act!("load", || told(real::parse(MARKUP)));
    act!("load something else", || told(real::parse("<!doctype html><B id=\"q\">&lt;<br/></B>\n<style>a > b</style>")));
    act!("load what does not parse", || told(real::parse("<a><b>\n</a>")));
    act!("load within limits", || told(Template::from_str("<a><b><c></c></b></a>", ParseOptions::default().max_stack_depth(3).max_input_len(100))) + &told(Template::from_str("<a><b><c></c></b></a>", ParseOptions::default().max_stack_depth(2))));
    act!("load a file", move || told(Template::from_file(YPath(&file.path), ParseOptions::default())));
    act!("load a broken file", move || match Template::from_file(YPath(&broken.path), ParseOptions::default()) { Err(FileError::Input { error, .. }) => format!("{error:?} {error}"), o => told(o) });
    act!("load a missing file", || match Template::from_file(YPath(Path::new(real::MISSING_FILE)), ParseOptions::default()) { Err(e) => format!("{e:?} {e}"), o => told(o) });
    act!("render", || { let mut w = YWrite(String::new()); let r = write!(w, "{}", shared().t); format!("{} {r:?}", w.0) });
    act!("render something else", || { let mut w = YWrite(String::new()); let t = parse("<p q r=\"1\">z</p><img src=\"&amp;\"/>"); y(); let r = write!(w, "{t}"); format!("{} {r:?}", w.0) });
    act!("render texts and errors", || {
        let mut w = YWrite(String::new());
        let s = shared();
        let e = real::parse("<a></b>").unwrap_err();
        let r = write!(w, "{} {} {} {} {} {e} {e:?}", s.data, s.value, s.name, s.data.as_encoded_ref(), s.value.as_encoded_ref());
        format!("{} {r:?}", w.0)
    });
    act!("make texts", || format!("{} {} {:?}", Data::from_unencoded_str(YStr("a<b>&\"c")), Value::from_unencoded_str(YStr("\"1&2")), Data::from_unencoded_str(YStr("plain"))));
    act!("make names", || format!("{:?} {:?} {:?} {:?}", YName("ok").into_identifier(), YName("not ok").into_identifier(), "a b".parse::<Tag>(), "a".parse::<Tag>()));
    act!("make classes", || format!("{:?} {:?}", Classes::from_str_iterator(["p", "q"].iter().map(|s| { y(); *s })), Classes::from_str_iterator(["p", "q r"].iter().map(|s| { y(); *s }))));
    act!("make an element", || told(Template::with_element(YName("h1"))) + &told(Template::with_element(YName("BR"))) + &told(Template::with_element(YName("!"))));
    act!("make a transformed element", || told(Template::with_transformed_element(YName("a"), |h| { y(); h.set_attribute_with_value(YName("k"), YVal("<v>")).append_contents(YContent(shared().t.clone())) })));
    act!("compare", || { let (s, o) = (shared(), parse(MARKUP)); y(); format!("{} {} {}", s.t == o, s.t == parse("<a></a>"), s.data == Data::from_unencoded_str(YStr("<d>"))) });
    act!("pull two streams in turns", || {
        let (s, o) = (shared(), parse("<a>1</a>2"));
        let (mut p, mut q) = ((&s.t).into_stream(), (&o).into_stream());
        let mut out = String::new();
        for _ in 0..6 { for x in [p.next_event(), q.next_event()] { y(); if let Ok(Some(e)) = x { out += &e.to_string(); out.push('|'); } } }
        out
    });
    act!("own content", || { let s = shared(); told(s.t.transform(|h| { y(); h.append(YContent(parse("<i>2</i>"))).prepend(YStream::of(&s.t)) })) });
    act!("own content in elements", || { let s = shared(); told(s.t.transform(|h| h.select("b", |h| { y(); h.append_contents(YContent(s.t.clone())).prepend_contents(YStream::of(&parse("<u/>"))).append(YContent(parse("2"))) }))) });
    act!("own content instead", || { let s = shared(); told(s.t.transform(|h| h.select("b", |h| { y(); h.replace_contents(YStream::of(&s.t)) }).select("br", |h| h.replace(YContent(s.t.clone()))))) });
    act!("own stream that fails", || { let s = shared(); told(s.t.transform(|h| h.select("b", |h| { y(); h.append_contents(YStream::failing(&s.t)) }))) });
    act!("own stream shared", || {
        let st: Rc<RefCell<YStream>> = Rc::new(RefCell::new(YStream::of(&parse("<i>2</i><i>3</i>"))));
        told(shared().t.transform(|h| { y(); h.append(st.clone()).select("i", |h| { y(); h.append("!") }) }))
    });
    act!("own error", || told(shared().t.transform(|h| h.append(Err::<Template, YErr>(YErr)))) + &told(shared().t.transform(|h| { y(); h.select(Err::<YSel, YErr>(YErr), |h| h) })));
    act!("own selectors", || told(shared().t.transform(|h| h.select(YSel("b"), |h| { y(); h.subselect(YIntoSel("a", true), |h| { y(); h.add_class("w") }) }).select_once(YSel("x"), |h| { y(); h.append("1") }))));
    act!("own selectors at the top", || told(shared().t.transform(|h| h.select_direct(YIntoSel("x", true), |h| { y(); h.subselect_direct(YSel("x"), |h| { y(); h.remove() }) }).select_direct_once(YSel("br"), |h| { y(); h.append("1") }))));
    act!("own selector that fails", || told(shared().t.transform(|h| h.select("a", |h| { y(); h.subselect_once(YIntoSel("a", false), |h| h) }))));
    act!("own iterator", || told(shared().t.transform(|h| h.repeat(YIter(0, 2), |h, i| { y(); h.prepend(i.0) }).repeat_or_else(YIter(1, 1), |h, _| h, |h| { y(); h.append("none") }))));
    act!("own iterator in elements", || told(shared().t.transform(|h| h.select("b", |h| { y(); h.repeat_contents(YInto(2), |h, i| { y(); h.append(i.0) }) }))));
    act!("own iterator else", || told(shared().t.transform(|h| h.select(".x", |h| h.repeat_contents_or_else(YInto(0), |h, i| h.append(i.0), |h| { y(); h.set_id(YName("none")) })).select("br", |h| { y(); h.repeat_contents_or_else(YInto(2), |h, i| h.append(i.0), |h| h.remove()) }))));
    act!("own names and values", || told(shared().t.transform(|h| h.select("b", |h| h.add_attribute_with_value(YName("k"), YVal("1&")).add_attribute(YName("l"), Some(YVal("2"))).add_empty_attribute(YName("m")).add_to_attribute(YName("k"), YVal("3"), YVal("<")).replace_attribute_value_if_exists(YName("m"), YVal("4"))))));
    act!("own names and values set", || told(shared().t.transform(|h| h.select(".x", |h| h.set_attribute_with_value(YName("k"), YVal("5")).set_attribute(YName("l"), None::<YVal>).set_empty_attribute(YName("m")).remove_attribute(YName("K")).add_class(YName("z")).remove_class(YName("x")).set_id(YName("i2"))))));
    act!("own name that is none", || told(shared().t.transform(|h| h.select("br", |h| { y(); h.set_id(YName("a b")) }))));
    act!("shared texts", || { let s = shared(); told(s.t.transform(|h| h.append(&s.data).prepend(&s.value).select(s.tag.clone(), |h| { y(); h.set_attribute_with_value(&s.name, &s.value).add_to_attribute(&s.name, &s.value, &s.value).append_contents(&s.data) }))) });
    act!("conditions", || told(shared().t.transform(|h| h.apply(|h| { y(); h.append("1") }).apply_if(true, |h| { y(); h.append("2") }).apply_if(false, |h| { y(); h.remove() }).apply_if_else(false, |h| { y(); h.remove() }, |h| { y(); h.append("3") }).apply_with_option(Some(YItem(4)), |h, i| { y(); h.append(i.0) }, |h| h).apply_with_result(Err::<YItem, _>(YItem(5)), |h, _| h, |h, i| { y(); h.append(i.0) }))));
    act!("boxed", || told(shared().t.transform(|h| h.into_boxed().apply_as_boxed(|h| { y(); h.append("1").into_boxed() }).select("a", |h| h.into_boxed_element().apply_as_boxed_element(|h| { y(); h.add_class("q").into_boxed_element() })))));
    act!("as a template", || told(shared().t.transform(|h| h.append(YStream::of(&parse("<a/>"))).apply_as_template(|t| { y(); let r = t.transform(|h| h.select("a", |h| { y(); h.append("T") })); y(); r }).prepend("P"))));
    act!("as a template that fails", || told(shared().t.transform(|h| h.select("b", |h| h.apply_as_template(|_| { y(); Err(YErr.into()) })))));
    act!("closures with something in them", || { let (a, b, c) = (Token, Token, Token); told(shared().t.transform(move |h| { used(&a); h.select_once("a", move |h| { used(&b); h.append("1") }).apply_if(false, move |h| { used(&c); h.append("2") }) })) });
    act!("a panic, caught", || match guarded(|| shared().t.transform(|h| h.append(YStream::of(&parse("<a>1</a>"))).select("b", |h| { y(); if true { panic!("builder") } h }))) { Err(p) => p.lines().last().unwrap_or("").to_string(), Ok(r) => told(r) });
    act!("a panic in an iterator, caught", || match guarded(|| shared().t.transform(|h| h.repeat((0..3).map(|i| { y(); if i == 1 { panic!("iterator") } i }), |h, i| h.append(i)))) { Err(p) => p.lines().last().unwrap_or("").to_string(), Ok(r) => told(r) });
    act!("drop", || { let s = shared(); let t = s.t.transform(|h| h.append(&s.t)).expect("transform"); let c = t.clone(); drop(t); y(); let l = c.to_string().len(); drop(c); y(); l.to_string() });
    v
}

/// Short uses, to be the first in a process.
pub fn cold_uses() -> Vec<Act> {
    fn short<E: fmt::Debug + fmt::Display>(r: Result<Template, E>) -> String { match r { Ok(t) => t.to_string(), Err(e) => format!("{e}, {e:?}") } }
    let mut v: Vec<Act> = Vec::new();
    macro_rules! act { ($n:expr, $e:expr) => { v.push(Act { name: $n.to_string(), run: Box::new($e) }) } }
    act!("load a void element", || short(real::parse("<BR>")));
    act!("load", || short(real::parse("<a b=\"&amp;\" c>1<br/></a>")));
    act!("load raw text", || short(real::parse("<script><b></script>")));
    act!("load more", || short(real::parse("<!doctype html><!--c-->\n<title>&lt;</title><wbr><A/>")));
    act!("load what does not parse", || { short(real::parse("<a>\n<b></a>")) });
    act!("load beyond limits", || short(Template::from_str("<a><b></b></a>", ParseOptions::default().max_stack_depth(1))) + &short(Template::from_str("<a>", ParseOptions::default().max_input_len(2))));
    act!("make a text", || Data::from_unencoded_str("a<b>&\"c").to_string());
    act!("make a value", || Value::from_unencoded_str("\"1&2<").to_string());
    act!("make names", || format!("{:?} {:?} {:?}", YName("ok").into_identifier(), YName("not ok").into_identifier(), "A".parse::<Tag>()));
    act!("make selectors", || { use html5_fuser::select::*; format!("{:?} {:?} {:?}", ".a".parse::<Class>(), "#i".parse::<Id>(), Classes::from_str_iterator(["p", "q r"].iter().copied())) });
    act!("make void elements", || short(Template::with_element("br")) + &short(Template::with_element("h1")));
    act!("make a transformed element", || short(Template::with_transformed_element("Hr", |h| h.set_attribute_with_value("k", 1))));
    act!("select", || short(parse("<a class=\"x y\"><b/></a>").transform(|h| h.select(".y", |h| h.add_class("z").select("b", |h| h.append("1"))))));
    act!("repeat", || short(parse("<a/>").transform(|h| h.repeat(0..2, |h, i| h.select("a", move |h| h.append_contents(i))))));
    act!("compare", || format!("{} {}", parse("<a b=\"1\"/>") == parse("<A B=\"1\"/>"), parse("<i/>") == parse("<i></i>")));
    act!("fail", || short(parse("<a/>").transform(|h| h.select("#", |h| h))) + &short(parse("<a/>").transform(|h| h.select("a", |h| h.set_id("a b")))));
    v
}

/// Programs on the shared template.
pub fn programs() -> Vec<Prog> {
    let mut v: Vec<Prog> = stream_ops(Tier::Thorough).into_iter().map(|o| prog(&[o])).collect();
    v.extend(element_ops().into_iter().map(|o| prog(&[any("a", &[o])])));
    use AttrOp::*;
    for a in [Add("k", None), AddTo("k", Val::Str("1"), Val::Str(",")), ReplaceIf("class", Val::ValOwned("1".into())), SetV("class", Val::Int(7)), RemoveClass("x"), RemoveId] { v.push(prog(&[any(".x", &[Op::Mark(1), Op::Attr(a)])])); }
    for s in Scope::ALL {
        let o = [Op::Select(s, Sel::Has("x"), prog(&[Op::Mark(1), Op::Append(Content::Stream("<a>1</a>".into(), 5))]))];
        v.push(if s.sub() { prog(&[any("a", &o)]) } else { prog(&o) });
    }
    v.push(prog(&[any("b", &[Op::Append(Content::Fail(Fault::StreamAfter(2)))])]));
    v.push(prog(&[Op::Repeat(Items::Range(0, 2), prog(&[any("b", &[Op::RepeatC(Items::Vec(vec![5, 6]), prog(&[Op::Mark(1), Op::Append(Content::Item)]))])]))]));
    v.push(prog(&[any("#", &[])]));
    v
}
pub fn program_uses() -> Vec<Act> {
    programs().into_iter().map(|p| Act {
        name: format!("html{}", crate::prog::show_prog(&p)),
        run: Box::new(move || { let (r, log) = real::transform(&shared().t, &p); format!("{} {:?} {:?}", told(r), log.by_mark(), log.given) }),
    }).collect()
}
