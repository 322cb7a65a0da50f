//! The same programs on the real crate, through its public API.

use crate::prog::{self, AttrOp, Content, Fault, Failure, Items, Log, Op, Prog, Scope, Sel, TForm, Val, S};
use html5_fuser::event::{AssertionError, Event, IntoStream, MalformedReason, Stream, StreamResult};
use html5_fuser::select::{Class, Classes, Id, Selector, Tag};
use html5_fuser::text::{Data, Identifier, IdentifierError, IntoValue, Value};
use html5_fuser::{BoxedApi, BoxedElementApi, ParseOptions, StreamError, Template};
use hook::y;
use std::cell::RefCell;
use std::rc::Rc;

pub type Dyn = Box<dyn Stream>;

pub fn parse(s: &str) -> Result<Template, html5_fuser::template::InputError> {
    Template::from_str(s, ParseOptions::default())
}
/// Parse markup that has to be accepted.
pub fn tmpl(s: &str) -> Result<Template, String> {
    parse(s).map_err(|e| format!("{:?} was rejected: {:?}", crate::engine::clip(s, 300), e))
}

#[derive(Clone)]
pub struct REnv { pub item: i64, pub log: Rc<RefCell<Log>> }
impl REnv {
    pub fn new() -> REnv { REnv { item: -1, log: Default::default() } }
    fn with(&self, item: i64) -> REnv { REnv { item, log: self.log.clone() } }
}

/// All events of a stream, no-ops included.
pub fn pull(mut s: impl Stream) -> Vec<Event> {
    let mut v = Vec::new();
    while let Some(e) = s.next_event().expect("stream") { v.push(e); }
    v
}
pub fn noop_event() -> Event {
    let mut s = Ok::<_, StreamError>("x").into_stream();
    for _ in 0..4 {
        match s.next_event() {
            Ok(Some(e)) if e.description() == "noop" => return e,
            _ => {}
        }
    }
    // no way to get one any more: an empty text event stands in for it
    pull("".into_stream()).pop().expect("event")
}

/// A user defined stream.
pub struct Events { pub items: std::vec::IntoIter<Result<Event, StreamError>> }
impl Events {
    pub fn new(v: Vec<Result<Event, StreamError>>) -> Events { Events { items: v.into_iter() } }
}
impl Stream for Events {
    fn next_event(&mut self) -> StreamResult {
        y();
        match self.items.next() { None => Ok(None), Some(Ok(e)) => Ok(Some(e)), Some(Err(e)) => Err(e) }
    }
}

/// A stream that starts over, twice, when it is asked for more after its end.
struct Restarting { events: Vec<Result<Event, StreamError>>, at: usize, rounds: usize }
impl Stream for Restarting {
    fn next_event(&mut self) -> StreamResult {
        if self.rounds > 2 { return Ok(None); }
        if self.at == self.events.len() { self.at = 0; self.rounds += 1; return Ok(None); }
        self.at += 1;
        match &self.events[self.at - 1] { Ok(e) => Ok(Some(e.clone())), Err(_) => Err(StreamError::Identifier { error: IdentifierError::Forbidden { forbidden: '%' } }) }
    }
}

pub fn noisy(src: &str, mask: u64) -> Events {
    let mut v = Vec::new();
    let evs = pull((&parse(src).expect("content markup")).into_stream());
    let n = evs.len();
    for (i, e) in evs.into_iter().enumerate() {
        if mask >> i & 1 == 1 { v.push(Ok(noop_event())); }
        v.push(Ok(e));
    }
    if mask >> n & 1 == 1 { v.push(Ok(noop_event())); }
    Events::new(v)
}

/// The events of `prog::SEQ`.
pub fn seq(s: &[u8]) -> Events {
    thread_local! { static EVENTS: RefCell<Option<Vec<(u8, Event)>>> = const { RefCell::new(None) }; }
    EVENTS.with(|e| {
        let mut e = e.borrow_mut();
        let t = e.get_or_insert_with(|| {
            let of = |src: &str| pull(parse(src).expect("markup of events").into_stream());
            let mut v: Vec<(u8, Event)> = Vec::new();
            let mut put = |c: u8, e: Event| v.push((c, e));
            let (a, b, r) = (of("<a class=\"x\"></a>"), of("<b></B>"), of("<script><r></script>"));
            put(b'<', a[0].clone());
            put(b'>', a[1].clone());
            put(b'(', b[0].clone());
            put(b')', b[1].clone());
            put(b'r', r[1].clone());
            for (c, src) in [(b's', "<a class=\"x\"/>"), (b'v', "<br>"), (b't', "t&amp;"), (b'c', "<!--c-->"), (b'd', "<!doctype html>")] { put(c, of(src).remove(0)); }
            put(b'N', noop_event());
            v
        });
        Events::new(s.iter().map(|c| match c {
            b'F' => Err(StreamError::Identifier { error: IdentifierError::Forbidden { forbidden: '%' } }),
            c => Ok(t.iter().find(|x| x.0 == *c).expect("event").1.clone()),
        }).collect())
    })
}

pub const MISSING_FILE: &str = "/nonexistent/mc-missing-file";

fn fault_stream(f: &Fault) -> Dyn {
    match f {
        Fault::Ident => Box::new(Err::<Template, IdentifierError>(IdentifierError::NotAscii).into_stream()),
        Fault::Parse => Box::new(parse("<u>").into_stream()),
        Fault::Limit => Box::new(Template::from_str("<u></u>", ParseOptions::default().max_input_len(3)).into_stream()),
        Fault::File => Box::new(Template::from_file(MISSING_FILE, ParseOptions::default()).into_stream()),
        Fault::StreamAfter(n) => {
            let mut v: Vec<_> = pull(parse("<i>1</i>").expect("fault markup").into_stream()).into_iter().map(Ok).collect();
            v.truncate(*n);
            v.push(Err(StreamError::Identifier { error: IdentifierError::Forbidden { forbidden: '%' } }));
            Box::new(Events::new(v))
        }
        Fault::Inner => Box::new(parse("<u></u>").expect("fault markup")
            .transform(|h| h.select(Class::from_str_("a b"), |h| h)).into_stream()),
    }
}

trait FromStr_: Sized { type E; fn from_str_(s: &str) -> Result<Self, Self::E>; }
impl<T: std::str::FromStr> FromStr_ for T { type E = T::Err; fn from_str_(s: &str) -> Result<T, T::Err> { s.parse() } }

/// Is this the error that has to come out of that failure?
pub fn is_failure(e: &StreamError, f: &Failure) -> bool {
    use html5_fuser::parse::Error as P;
    use html5_fuser::select::{ClassesError, Error as SE, StaticError as ST};
    use html5_fuser::template::{FileError, InputError};
    let bad = |e: &IdentifierError, s: &str| crate::refparse::name_faults(s).contains(e);
    match (f, e) {
        (Failure::Content(Fault::Ident), StreamError::Identifier { error }) => *error == IdentifierError::NotAscii,
        (Failure::Content(Fault::Parse), StreamError::Input { error: InputError::Parse { error: P::MissingClosingTags { inner, .. } } }) => inner.0 == "u",
        (Failure::Content(Fault::Limit), StreamError::Input { error: InputError::LengthLimitExceeded { limit: 3 } }) => true,
        (Failure::Content(Fault::File), StreamError::File { error: FileError::Open { path, .. } }) => path.to_str() == Some(MISSING_FILE),
        (Failure::Content(Fault::StreamAfter(_)), StreamError::Identifier { error }) => *error == IdentifierError::Forbidden { forbidden: '%' },
        (Failure::Content(Fault::Inner), StreamError::Selector { error: SE::Class { error } }) => *error == IdentifierError::Whitespace { whitespace: ' ' },
        (Failure::Name(n), StreamError::Identifier { error }) => bad(error, n),
        (Failure::Template, StreamError::Identifier { error }) => *error == IdentifierError::Forbidden { forbidden: '?' },
        (Failure::NoElement(k), StreamError::Assertion { error: AssertionError::Malformed { error: MalformedReason::ExpectedOpeningTag { event: Some(e) } } }) => crate::model::kind_of(e.description()) == *k,
        (Failure::Sel(s), e) => {
            let p = s.parts();
            match (s, e) {
                (Sel::Str(_), StreamError::StaticSelector { error }) => match error {
                    ST::Unrestricted => p.tag.is_none() && p.id.is_none() && p.classes.is_empty(),
                    ST::Tag { error } => p.tag.map_or(false, |t| bad(error, &t)),
                    ST::Id { error } => p.id.map_or(false, |t| bad(error, &t)),
                    ST::Class { index, error } => p.classes.get(*index).map_or(false, |t| bad(error, t)),
                    _ => false,
                },
                (Sel::Tag(_), StreamError::Selector { error: SE::Tag { error } }) => bad(error, &p.tag.unwrap()),
                (Sel::Id(_), StreamError::Selector { error: SE::Id { error } }) => bad(error, &p.id.unwrap()),
                (Sel::Class(_), StreamError::Selector { error: SE::Class { error } }) => bad(error, &p.classes[0]),
                (Sel::Classes(_), StreamError::Selector { error: SE::Classes { error } }) => match error {
                    ClassesError::Empty => p.classes.is_empty(),
                    ClassesError::Identifier { index, error } => p.classes.get(*index).map_or(false, |t| bad(error, t)),
                    _ => false,
                },
                _ => false,
            }
        }
        _ => false,
    }
}

fn template_fault() -> StreamError { StreamError::Identifier { error: IdentifierError::Forbidden { forbidden: '?' } } }

pub fn content(c: &Content, env: &REnv) -> Dyn {
    match c {
        Content::Str(s) => Box::new((*s).into_stream()),
        Content::DataStatic(s) => Box::new(Data::from_unencoded_static_str(s).into_stream()),
        Content::DataOwned(s) => Box::new(Data::from_unencoded_str(s).into_stream()),
        Content::DataRef(s) => Box::new((&Data::from_unencoded_str(s)).into_stream()),
        Content::ValStatic(s) => Box::new(Value::from_unencoded_static_str(s).into_stream()),
        Content::ValOwned(s) => Box::new(Value::from_unencoded_str(s).into_stream()),
        Content::ValRef(s) => Box::new((&Value::from_unencoded_str(s)).into_stream()),
        Content::Int(i) => Box::new((*i).into_stream()),
        Content::OkStr(s) => Box::new(Ok::<_, StreamError>(*s).into_stream()),
        Content::Tmpl(s, form) => {
            let t = parse(s);
            match form {
                TForm::Ok => Box::new(t.into_stream()),
                TForm::Owned => Box::new(t.expect("content markup").into_stream()),
                TForm::Borrowed => Box::new((&t.expect("content markup")).into_stream()),
                TForm::Rc => Box::new(Rc::new(t.expect("content markup")).into_stream()),
            }
        }
        Content::Element(t) => Box::new(Template::with_element(*t).into_stream()),
        Content::Built(t, p) => {
            let (p, env) = (p.clone(), env.clone());
            Box::new(Template::with_transformed_element(*t, move |h| run(Cur::E(h.into_boxed_element()), &p, &env).stream()).into_stream())
        }
        Content::Item => Box::new(env.item.into_stream()),
        Content::Stream(s, mask) => Box::new(noisy(s, *mask)),
        Content::Seq(s) => match s.first() {
            Some(b'R') => Box::new(Rc::new(RefCell::new(seq(&s[1..])))),
            Some(b'B') => Box::new(Restarting { events: seq(&s[1..]).items.collect(), at: 0, rounds: 0 }),
            _ => Box::new(seq(s)),
        },
        Content::Fail(f) => fault_stream(f),
    }
}

fn value(v: &Val, env: &REnv) -> Value {
    match v {
        Val::Str(s) => (*s).into_value(),
        Val::ValStatic(s) => Value::from_unencoded_static_str(s),
        Val::ValOwned(s) => Value::from_unencoded_str(s),
        Val::ValRef(s) => (&Value::from_unencoded_str(s)).into_value(),
        Val::Int(i) => i.into_value(),
        Val::Item => env.item.into_value(),
    }
}

pub enum Cur<'t> { E(BoxedElementApi<'t>), S(BoxedApi<'t>) }
impl<'t> Cur<'t> {
    pub fn stream(self) -> BoxedApi<'t> { match self { Cur::E(e) => e.into_boxed(), Cur::S(s) => s } }
    fn elem(self) -> BoxedElementApi<'t> { match self { Cur::E(e) => e, Cur::S(_) => panic!("program is not well typed: element expected") } }
}

/// A user's own selectors.
struct Has(S);
impl Selector for Has {
    fn matches(&self, e: &Event) -> bool { y(); "OSV".contains(crate::model::kind_of(e.description())) && e.to_string().contains(self.0) }
}
struct Kinds(S);
impl Selector for Kinds {
    fn matches(&self, e: &Event) -> bool { y(); self.0.contains(crate::model::kind_of(e.description())) }
}

macro_rules! with_sel {
    ($sel:expr, |$s:ident| $e:expr) => {
        match $sel {
            Sel::Str(x) => { let $s = *x; $e }
            Sel::Tag(x) => { let $s = Tag::from_str_(x); $e }
            Sel::Id(x) => { let $s = Id::from_str_(x); $e }
            Sel::Class(x) => { let $s = Class::from_str_(x); $e }
            Sel::Classes(v) => { let $s = Classes::from_str_iterator(v.iter().map(|s| *s)); $e }
            Sel::TagOwned(x) => { let $s = Tag::from_str_(x).expect("tag"); $e }
            Sel::TagRc(x) => { let $s = Rc::new(Tag::from_str_(x).expect("tag")); $e }
            Sel::TagRef(x) => { let $s: &'static Tag = static_tag(x); $e }
            Sel::IdOwned(x) => { let $s = Id::from_str_(x).expect("id"); $e }
            Sel::ClassRc(x) => { let $s = Rc::new(Class::from_str_(x).expect("class")); $e }
            Sel::Has(x) => { let $s = Has(x); $e }
            Sel::Kinds(x) => { let $s = Kinds(x); $e }
            Sel::ClassesOwned(v) => { let $s = Classes::from_str_iterator(v.iter().map(|s| *s)).expect("classes"); $e }
        }
    }
}

fn static_tag(x: &str) -> &'static Tag {
    thread_local! { static T: RefCell<std::collections::HashMap<String, &'static Tag>> = Default::default(); }
    T.with(|t| *t.borrow_mut().entry(x.into()).or_insert_with(|| Box::leak(Box::new(Tag::from_str_(x).expect("tag")))))
}

macro_rules! with_items {
    ($i:expr, |$x:ident| $e:expr) => {
        match $i {
            Items::Range(a, b) => { let $x = *a..*b; $e }
            Items::Vec(v) => { let $x = v.clone(); $e }
            Items::Filtered(a, b) => { let $x = (*a..*b).filter(|i| i % 2 == 0); $e }
        }
    }
}

pub fn run<'t>(mut cur: Cur<'t>, p: &[Op], env: &REnv) -> Cur<'t> {
    for op in p { y(); cur = step(cur, op, env); }
    y();
    cur
}

/// A builder for a stream api.
macro_rules! sb { ($p:expr, $env:expr) => {{ let (p, env) = ($p.clone(), $env.clone()); move |h| run_s(h, &p, &env) }} }

fn run_s<'t>(h: BoxedApi<'t>, p: &Prog, env: &REnv) -> BoxedApi<'t> { run(Cur::S(h), p, env).stream() }
fn run_e<'t>(h: BoxedElementApi<'t>, p: &Prog, env: &REnv) -> BoxedApi<'t> { run(Cur::E(h), p, env).stream() }
fn run_ee<'t>(h: BoxedElementApi<'t>, p: &Prog, env: &REnv) -> BoxedElementApi<'t> { run(Cur::E(h), p, env).elem() }

fn select<'t>(h: BoxedApi<'t>, scope: Scope, sel: &Sel, p: &Prog, env: &REnv) -> BoxedApi<'t> {
    let (p, env) = (p.clone(), env.clone());
    with_sel!(sel, |s| match scope {
        Scope::Any => h.select(s, move |h| run_e(h.into_boxed_element(), &p, &env)).into_boxed(),
        Scope::Once => h.select_once(s, move |h| run_e(h.into_boxed_element(), &p, &env)).into_boxed(),
        Scope::Direct => h.select_direct(s, move |h| run_e(h.into_boxed_element(), &p, &env)).into_boxed(),
        Scope::DirectOnce => h.select_direct_once(s, move |h| run_e(h.into_boxed_element(), &p, &env)).into_boxed(),
        _ => panic!("program is not well typed"),
    })
}

fn subselect<'t>(h: BoxedElementApi<'t>, scope: Scope, sel: &Sel, p: &Prog, env: &REnv) -> BoxedElementApi<'t> {
    let (p, env) = (p.clone(), env.clone());
    with_sel!(sel, |s| match scope {
        Scope::SubAny => h.subselect(s, move |h| run_e(h.into_boxed_element(), &p, &env)).into_boxed_element(),
        Scope::SubOnce => h.subselect_once(s, move |h| run_e(h.into_boxed_element(), &p, &env)).into_boxed_element(),
        Scope::SubDirect => h.subselect_direct(s, move |h| run_e(h.into_boxed_element(), &p, &env)).into_boxed_element(),
        Scope::SubDirectOnce => h.subselect_direct_once(s, move |h| run_e(h.into_boxed_element(), &p, &env)).into_boxed_element(),
        _ => panic!("program is not well typed"),
    })
}

fn attr<'t>(h: BoxedElementApi<'t>, a: &AttrOp, env: &REnv) -> BoxedElementApi<'t> {
    use AttrOp::*;
    // keep the static str form of values and names where the program says so
    macro_rules! v { ($v:expr, |$x:ident| $e:expr) => { match $v { Val::Str(s) => { let $x = *s; $e }, Val::Int(i) => { let $x = *i; $e }, o => { let $x = value(o, env); $e } } } }
    match a {
        Add(n, None) => h.add_attribute(*n, None::<&'static str>).into_boxed_element(),
        Add(n, Some(v)) => v!(v, |x| h.add_attribute(*n, Some(x)).into_boxed_element()),
        AddV(n, v) => v!(v, |x| h.add_attribute_with_value(*n, x).into_boxed_element()),
        AddEmpty(n) => h.add_empty_attribute(*n).into_boxed_element(),
        AddTo(n, v, s) => h.add_to_attribute(*n, value(v, env), value(s, env)).into_boxed_element(),
        ReplaceIf(n, v) => v!(v, |x| h.replace_attribute_value_if_exists(*n, x).into_boxed_element()),
        Set(n, None) => h.set_attribute(*n, None::<&'static str>).into_boxed_element(),
        Set(n, Some(v)) => v!(v, |x| h.set_attribute(*n, Some(x)).into_boxed_element()),
        SetV(n, v) => v!(v, |x| h.set_attribute_with_value(*n, x).into_boxed_element()),
        SetEmpty(n) => h.set_empty_attribute(*n).into_boxed_element(),
        Remove(n) => h.remove_attribute(*n).into_boxed_element(),
        AddClass(n) => h.add_class(*n).into_boxed_element(),
        RemoveClass(n) => h.remove_class(*n).into_boxed_element(),
        RemoveId => h.remove_id().into_boxed_element(),
        SetId(n) => h.set_id(*n).into_boxed_element(),
    }
}

fn step<'t>(cur: Cur<'t>, op: &Op, env: &REnv) -> Cur<'t> {
    match op {
        Op::Mark(n) => { env.log.borrow_mut().marks.push((*n, env.item)); return cur; }
        Op::Boxed => return Cur::S(cur.stream().into_boxed()),
        _ => {}
    }
    if op.needs_elem() {
        let h = cur.elem();
        return match op {
            Op::Select(scope, sel, p) => Cur::E(subselect(h, *scope, sel, p, env)),
            Op::SubContents(p) => { let b = (p.clone(), env.clone()); Cur::E(h.subselect_contents(move |h| run_s(h.into_boxed(), &b.0, &b.1)).into_boxed_element()) }
            Op::RemoveC => Cur::E(h.remove_contents().into_boxed_element()),
            Op::PrependC(c) => Cur::E(h.prepend_contents(content(c, env)).into_boxed_element()),
            Op::AppendC(c) => Cur::E(h.append_contents(content(c, env)).into_boxed_element()),
            Op::ReplaceC(c) => Cur::E(h.replace_contents(content(c, env)).into_boxed_element()),
            Op::RepeatC(i, p) => {
                let (p, env) = (p.clone(), env.clone());
                with_items!(i, |i| Cur::E(h.repeat_contents(i, move |h, n| run_s(h.into_boxed(), &p, &env.with(n))).into_boxed_element()))
            }
            Op::RepeatCElse(i, p, q) => {
                let (p, q, env, env2) = (p.clone(), q.clone(), env.clone(), env.clone());
                with_items!(i, |i| Cur::S(h.repeat_contents_or_else(i,
                    move |h, n| run_s(h.into_boxed(), &p, &env.with(n)),
                    move |h| run_e(h.into_boxed_element(), &q, &env2)).into_boxed()))
            }
            Op::Attr(a) => Cur::E(attr(h, a, env)),
            Op::ApplyBoxedElement(p) => {
                let b = (p.clone(), env.clone());
                if prog::elem_prog(p) { Cur::E(h.apply_as_boxed_element(move |h| run_ee(h, &b.0, &b.1))) }
                else { Cur::S(h.apply_as_boxed_element(move |h| run_e(h, &b.0, &b.1))) }
            }
            Op::BoxedElement => Cur::E(h.into_boxed_element()),
            _ => unreachable!(),
        };
    }
    // operations on streams and elements alike, keeping elements where the types do
    match (cur, op) {
        (Cur::E(h), Op::Apply(p)) => {
            let b = (p.clone(), env.clone());
            if prog::elem_prog(p) { Cur::E(h.apply(move |h| run_ee(h, &b.0, &b.1)).into_boxed_element()) }
            else { Cur::S(h.apply(move |h| run_e(h, &b.0, &b.1)).into_boxed()) }
        }
        (Cur::E(h), Op::ApplyIf(c, p)) => {
            let b = (p.clone(), env.clone());
            if prog::elem_prog(p) { Cur::E(h.apply_if(*c, move |h| run_ee(h, &b.0, &b.1)).into_boxed_element()) }
            else { Cur::S(h.apply_if(*c, move |h| run_e(h, &b.0, &b.1)).into_boxed()) }
        }
        (Cur::E(h), Op::ApplyIfElse(c, p, q)) => {
            let (b, d) = ((p.clone(), env.clone()), (q.clone(), env.clone()));
            if prog::elem_prog(p) && prog::elem_prog(q) {
                Cur::E(h.apply_if_else(*c, move |h| run_ee(h, &b.0, &b.1), move |h| run_ee(h, &d.0, &d.1)).into_boxed_element())
            } else { Cur::S(h.apply_if_else(*c, move |h| run_e(h, &b.0, &b.1), move |h| run_e(h, &d.0, &d.1)).into_boxed()) }
        }
        (Cur::E(h), Op::ApplyOption(c, p, q)) => {
            let (b, d) = ((p.clone(), env.clone()), (q.clone(), env.clone()));
            if prog::elem_prog(p) && prog::elem_prog(q) {
                Cur::E(h.apply_with_option(*c, move |h, n| run_ee(h, &b.0, &b.1.with(n)), move |h| run_ee(h, &d.0, &d.1)).into_boxed_element())
            } else { Cur::S(h.apply_with_option(*c, move |h, n| run_e(h, &b.0, &b.1.with(n)), move |h| run_e(h, &d.0, &d.1)).into_boxed()) }
        }
        (Cur::E(h), Op::ApplyResult(c, p, q)) => {
            let (b, d) = ((p.clone(), env.clone()), (q.clone(), env.clone()));
            if prog::elem_prog(p) && prog::elem_prog(q) {
                Cur::E(h.apply_with_result(*c, move |h, n| run_ee(h, &b.0, &b.1.with(n)), move |h, n| run_ee(h, &d.0, &d.1.with(n))).into_boxed_element())
            } else { Cur::S(h.apply_with_result(*c, move |h, n| run_e(h, &b.0, &b.1.with(n)), move |h, n| run_e(h, &d.0, &d.1.with(n))).into_boxed()) }
        }
        // the copies are element streams exactly if the original is
        (Cur::E(h), Op::Repeat(i, p)) => {
            let (p, env) = (p.clone(), env.clone());
            with_items!(i, |i| Cur::S(h.repeat(i, move |h, n| run_e(h.into_boxed_element(), &p, &env.with(n))).into_boxed()))
        }
        (Cur::E(h), Op::RepeatElse(i, p, q)) => {
            let (p, q, env, env2) = (p.clone(), q.clone(), env.clone(), env.clone());
            with_items!(i, |i| Cur::S(h.repeat_or_else(i,
                move |h, n| run_e(h.into_boxed_element(), &p, &env.with(n)),
                move |h| run_e(h, &q, &env2)).into_boxed()))
        }
        (Cur::E(h), Op::Remove) => Cur::S(h.remove().into_boxed()),
        (Cur::E(h), Op::Prepend(c)) => Cur::S(h.prepend(content(c, env)).into_boxed()),
        (Cur::E(h), Op::Append(c)) => Cur::S(h.append(content(c, env)).into_boxed()),
        (Cur::E(h), Op::Replace(c)) => Cur::S(h.replace(content(c, env)).into_boxed()),
        (cur, op) => {
            let h = cur.stream();
            Cur::S(match op {
                Op::Select(scope, sel, p) => select(h, *scope, sel, p, env),
                Op::Remove => h.remove().into_boxed(),
                Op::Prepend(c) => h.prepend(content(c, env)).into_boxed(),
                Op::Append(c) => h.append(content(c, env)).into_boxed(),
                Op::Replace(c) => h.replace(content(c, env)).into_boxed(),
                Op::Repeat(i, p) => {
                    let (p, env) = (p.clone(), env.clone());
                    with_items!(i, |i| h.repeat(i, move |h, n| run_s(h.into_boxed(), &p, &env.with(n))).into_boxed())
                }
                Op::RepeatElse(i, p, q) => {
                    let (p, q, env, env2) = (p.clone(), q.clone(), env.clone(), env.clone());
                    with_items!(i, |i| h.repeat_or_else(i,
                        move |h, n| run_s(h.into_boxed(), &p, &env.with(n)),
                        move |h| run_s(h, &q, &env2)).into_boxed())
                }
                Op::Apply(p) => h.apply(sb!(p, env)),
                Op::ApplyIf(c, p) => h.apply_if(*c, sb!(p, env)).into_boxed(),
                Op::ApplyIfElse(c, p, q) => h.apply_if_else(*c, sb!(p, env), sb!(q, env)).into_boxed(),
                Op::ApplyOption(c, p, q) => {
                    let (p, env1) = (p.clone(), env.clone());
                    h.apply_with_option(*c, move |h, n| run_s(h, &p, &env1.with(n)), sb!(q, env)).into_boxed()
                }
                Op::ApplyResult(c, p, q) => {
                    let (p, env1, q, env2) = (p.clone(), env.clone(), q.clone(), env.clone());
                    h.apply_with_result(*c, move |h, n| run_s(h, &p, &env1.with(n)), move |h, n| run_s(h, &q, &env2.with(n))).into_boxed()
                }
                Op::ApplyBoxed(p) => { let b = (p.clone(), env.clone()); h.apply_as_boxed(move |h| run_s(h, &b.0, &b.1)) }
                Op::ApplyTemplate(p) => {
                    let (p, env) = (p.clone(), env.clone());
                    h.apply_as_template(move |t| {
                        env.log.borrow_mut().given.push(t.to_string());
                        t.transform(move |h| run_s(h.into_boxed(), &p, &env))
                    }).into_boxed()
                }
                Op::ApplyTemplateTo(s) => {
                    let (s, env) = (s.clone(), env.clone());
                    h.apply_as_template(move |t| {
                        env.log.borrow_mut().given.push(t.to_string());
                        parse(&s).map_err(Into::into)
                    }).into_boxed()
                }
                Op::ApplyTemplateFail => h.apply_as_template(|_| Err(template_fault())).into_boxed(),
                _ => unreachable!("{op:?}"),
            })
        }
    }
}

/// Run a program on a real template.
pub fn transform(t: &Template, p: &Prog) -> (Result<Template, StreamError>, Log) {
    let env = REnv::new();
    let (p2, env2) = (p.clone(), env.clone());
    let r = t.transform(move |h| run_s(h.into_boxed(), &p2, &env2));
    let log = std::mem::take(&mut *env.log.borrow_mut());
    (r, log)
}

/// Run a program on a constructed element.
pub fn built(tag: S, p: &Prog) -> (Result<Template, StreamError>, Log) {
    let env = REnv::new();
    let (p2, env2) = (p.clone(), env.clone());
    let r = Template::with_transformed_element(tag, move |h| run_e(h.into_boxed_element(), &p2, &env2));
    let log = std::mem::take(&mut *env.log.borrow_mut());
    (r, log)
}

pub fn ident(s: &str) -> Result<Identifier, IdentifierError> { s.parse() }
