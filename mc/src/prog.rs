//! Programs (trees of transform operations) and their meaning as tree rewriting.

use crate::model::*;
use std::collections::HashSet;
use std::fmt;
use std::sync::{Arc, Mutex, OnceLock};

pub type S = &'static str;

/// A `&'static str` with the given content.
pub fn intern(s: &str) -> S {
    static T: OnceLock<Mutex<HashSet<&'static str>>> = OnceLock::new();
    let mut t = T.get_or_init(Default::default).lock().unwrap();
    if let Some(r) = t.get(s) { return r; }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(l);
    l
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scope { Any, Once, Direct, DirectOnce, SubAny, SubOnce, SubDirect, SubDirectOnce }
impl Scope {
    pub const STREAM: [Scope; 4] = [Scope::Any, Scope::Once, Scope::Direct, Scope::DirectOnce];
    pub const SUB: [Scope; 4] = [Scope::SubAny, Scope::SubOnce, Scope::SubDirect, Scope::SubDirectOnce];
    pub const ALL: [Scope; 8] = [Scope::Any, Scope::Once, Scope::Direct, Scope::DirectOnce,
        Scope::SubAny, Scope::SubOnce, Scope::SubDirect, Scope::SubDirectOnce];
    pub fn sub(self) -> bool { matches!(self, Scope::SubAny | Scope::SubOnce | Scope::SubDirect | Scope::SubDirectOnce) }
    pub fn once(self) -> bool { matches!(self, Scope::Once | Scope::DirectOnce | Scope::SubOnce | Scope::SubDirectOnce) }
    pub fn direct(self) -> bool { matches!(self, Scope::Direct | Scope::DirectOnce | Scope::SubDirect | Scope::SubDirectOnce) }
    pub fn name(self) -> S {
        match self {
            Scope::Any => "select", Scope::Once => "select_once", Scope::Direct => "select_direct",
            Scope::DirectOnce => "select_direct_once", Scope::SubAny => "subselect", Scope::SubOnce => "subselect_once",
            Scope::SubDirect => "subselect_direct", Scope::SubDirectOnce => "subselect_direct_once",
        }
    }
}

/// Selectors; `Bad` ones are invalid in the part named.
#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Str(S),
    Tag(S),
    Id(S),
    Class(S),
    Classes(Vec<S>),
    /// typed selector handed over already constructed, behind an Rc, or borrowed
    TagOwned(S),
    TagRc(S),
    TagRef(S),
    IdOwned(S),
    ClassRc(S),
    ClassesOwned(Vec<S>),
    /// a user's own: opening, self-closed and void tags with this in them
    Has(S),
    /// a user's own: all events of these kinds, elements or not
    Kinds(S),
}

#[derive(Clone, Default, Debug)]
pub struct Parts {
    pub tag: Option<String>,
    pub id: Option<String>,
    pub classes: Vec<String>,
    /// part of the tag as written
    pub has: Option<S>,
    /// kinds of events
    pub kinds: Option<S>,
}

/// Meaning of the static string form: `tag#id.class.class`.
pub fn static_parts(s: &str) -> Parts {
    let mut p = Parts::default();
    let (head, rest) = match s.find(['#', '.']) { Some(i) => (&s[..i], &s[i..]), None => (s, "") };
    if !head.is_empty() { p.tag = Some(head.into()); }
    let classes = if let Some(r) = rest.strip_prefix('#') {
        match r.find('.') {
            Some(i) => { p.id = Some(r[..i].into()); Some(&r[i + 1..]) }
            None => { p.id = Some(r.into()); None }
        }
    } else { rest.strip_prefix('.') };
    if let Some(c) = classes { p.classes = c.split('.').map(|c| c.into()).collect(); }
    p
}

impl Sel {
    pub fn parts(&self) -> Parts {
        let one = |c: &S| vec![c.to_string()];
        match self {
            Sel::Str(s) => static_parts(s),
            Sel::Tag(s) | Sel::TagOwned(s) | Sel::TagRc(s) | Sel::TagRef(s) => Parts { tag: Some(s.to_string()), ..Default::default() },
            Sel::Id(s) | Sel::IdOwned(s) => Parts { id: Some(s.to_string()), ..Default::default() },
            Sel::Class(s) | Sel::ClassRc(s) => Parts { classes: one(s), ..Default::default() },
            Sel::Has(s) => Parts { has: Some(*s), ..Default::default() },
            Sel::Kinds(s) => Parts { kinds: Some(*s), ..Default::default() },
            Sel::Classes(v) | Sel::ClassesOwned(v) => Parts { classes: v.iter().map(|s| s.to_string()).collect(), ..Default::default() },
        }
    }
    pub fn faulty(&self) -> bool {
        if let Sel::Has(_) | Sel::Kinds(_) = self { return false; }
        use crate::refparse::name_faults as bad;
        let p = self.parts();
        p.tag.as_ref().map_or(false, |t| !bad(t).is_empty())
            || p.id.as_ref().map_or(false, |t| !bad(t).is_empty())
            || p.classes.iter().any(|c| !bad(c).is_empty())
            || (p.tag.is_none() && p.id.is_none() && p.classes.is_empty())
    }
}

pub fn words(v: &str) -> impl Iterator<Item = &str> { v.split(|c: char| c.is_whitespace()).filter(|w| !w.is_empty()) }

pub fn has_class(e: &Elem, c: &str) -> bool {
    e.attrs.iter().any(|(n, v)| same(n, "class") && v.as_ref().map_or(false, |v| words(v).any(|w| same(w, c))))
}

pub fn sel_matches(p: &Parts, e: &Elem) -> bool {
    p.has.map_or(true, |s| tag_of(e).contains(s))
        && p.kinds.map_or(true, |s| s.contains(match e.kind { Kind::Normal => 'O', Kind::SelfClosed => 'S', Kind::Void => 'V' }))
        && p.tag.as_ref().map_or(true, |t| same(t, &e.tag))
        && p.id.as_ref().map_or(true, |id| e.attrs.iter().any(|(n, v)| same(n, "id") && v.as_ref().map_or(false, |v| same(v, id))))
        && p.classes.iter().all(|c| has_class(e, c))
}

/// Attribute values.
#[derive(Clone, Debug, PartialEq)]
pub enum Val { Str(S), ValStatic(S), ValOwned(String), ValRef(String), Int(i64), Item }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TForm { Owned, Borrowed, Rc, Ok }

/// Inserted content.
#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    Str(S),
    DataStatic(S),
    DataOwned(String),
    DataRef(String),
    ValStatic(S),
    ValOwned(String),
    ValRef(String),
    Int(i64),
    OkStr(S),
    Tmpl(Arc<str>, TForm),
    /// template with a void or self-closed element, made by `with_element`
    Element(S),
    /// result of `with_transformed_element` as is
    Built(S, Prog),
    Item,
    /// a user stream over the events of the markup, with a no-op event before the events whose bit is set
    Stream(Arc<str>, u64),
    /// a user stream over these events (see `seq_nodes`)
    Seq(Arc<[u8]>),
    /// content that fails
    Fail(Fault),
}

/// A way of failing, with the error it has to give.
#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// `Err(IdentifierError)`
    Ident,
    /// result of parsing bad markup
    Parse,
    /// result of loading a missing file
    File,
    /// result of parsing a too long input
    Limit,
    /// user stream failing after n events of `<i>1</i>`
    StreamAfter(usize),
    /// result of a failed selector construction, by way of a failed inner transform
    Inner,
}

#[derive(Clone, Debug, PartialEq)]
pub enum AttrOp {
    Add(S, Option<Val>),
    AddV(S, Val),
    AddEmpty(S),
    AddTo(S, Val, Val),
    ReplaceIf(S, Val),
    Set(S, Option<Val>),
    SetV(S, Val),
    SetEmpty(S),
    Remove(S),
    AddClass(S),
    RemoveClass(S),
    RemoveId,
    SetId(S),
}
impl AttrOp {
    pub fn name(&self) -> Option<S> {
        use AttrOp::*;
        match self {
            Add(n, _) | AddV(n, _) | AddEmpty(n) | AddTo(n, _, _) | ReplaceIf(n, _) | Set(n, _) | SetV(n, _) | SetEmpty(n)
            | Remove(n) | AddClass(n) | RemoveClass(n) | SetId(n) => Some(n),
            RemoveId => None,
        }
    }
}

/// Iterators to repeat over.
#[derive(Clone, Debug, PartialEq)]
pub enum Items { Range(i64, i64), Vec(Vec<i64>), Filtered(i64, i64) }
impl Items {
    pub fn list(&self) -> Vec<i64> {
        match self {
            Items::Range(a, b) => (*a..*b).collect(),
            Items::Vec(v) => v.clone(),
            Items::Filtered(a, b) => (*a..*b).filter(|i| i % 2 == 0).collect(),
        }
    }
}

pub type Prog = Arc<[Op]>;
pub fn prog(ops: &[Op]) -> Prog { ops.into() }

#[derive(Clone, PartialEq)]
pub enum Op {
    Select(Scope, Sel, Prog),
    SubContents(Prog),
    Remove,
    Prepend(Content),
    Append(Content),
    Replace(Content),
    RemoveC,
    PrependC(Content),
    AppendC(Content),
    ReplaceC(Content),
    Repeat(Items, Prog),
    RepeatElse(Items, Prog, Prog),
    RepeatC(Items, Prog),
    RepeatCElse(Items, Prog, Prog),
    Attr(AttrOp),
    Apply(Prog),
    ApplyIf(bool, Prog),
    ApplyIfElse(bool, Prog, Prog),
    ApplyOption(Option<i64>, Prog, Prog),
    ApplyResult(Result<i64, i64>, Prog, Prog),
    ApplyBoxed(Prog),
    ApplyBoxedElement(Prog),
    /// go through a template, transforming it
    ApplyTemplate(Prog),
    /// go through a template, giving another one
    ApplyTemplateTo(Arc<str>),
    ApplyTemplateFail,
    Boxed,
    BoxedElement,
    /// record that the builder got here (number, current item)
    Mark(u32),
}

impl Op {
    pub fn needs_elem(&self) -> bool {
        matches!(self, Op::SubContents(_) | Op::RemoveC | Op::PrependC(_) | Op::AppendC(_) | Op::ReplaceC(_)
            | Op::RepeatC(..) | Op::RepeatCElse(..) | Op::Attr(_) | Op::ApplyBoxedElement(_) | Op::BoxedElement)
            || matches!(self, Op::Select(s, _, _) if s.sub())
    }
    /// Is the stream after the operation an element stream again?
    pub fn elem_after(&self, was: bool) -> bool {
        match self {
            Op::Select(s, ..) => s.sub(),
            Op::SubContents(_) | Op::RemoveC | Op::PrependC(_) | Op::AppendC(_) | Op::ReplaceC(_) | Op::RepeatC(..)
            | Op::Attr(_) | Op::BoxedElement => true,
            Op::Remove | Op::Prepend(_) | Op::Append(_) | Op::Replace(_) | Op::Repeat(..) | Op::RepeatElse(..)
            | Op::RepeatCElse(..) | Op::ApplyTemplate(_) | Op::ApplyTemplateTo(_) | Op::ApplyTemplateFail
            | Op::Boxed | Op::ApplyBoxed(_) => false,
            Op::Apply(p) | Op::ApplyBoxedElement(p) | Op::ApplyIf(_, p) => was && elem_prog(p),
            Op::ApplyIfElse(_, a, b) | Op::ApplyOption(_, a, b) | Op::ApplyResult(_, a, b) => was && elem_prog(a) && elem_prog(b),
            Op::Mark(_) => was,
        }
    }
}
/// Does the program applied to an element stream give an element stream?
pub fn elem_prog(p: &Prog) -> bool { p.iter().fold(true, |e, op| op.elem_after(e)) }
/// Is the program well typed on a stream (`elem`: on an element stream)?
pub fn well_typed(p: &[Op], mut elem: bool) -> bool {
    for op in p {
        if op.needs_elem() && !elem { return false; }
        let ok = match op {
            Op::Select(_, _, q) | Op::ApplyBoxedElement(q) => well_typed(q, true),
            Op::SubContents(q) | Op::Repeat(_, q) if matches!(op, Op::SubContents(_)) || !elem => well_typed(q, false),
            Op::Repeat(_, q) => well_typed(q, elem),
            Op::RepeatElse(_, a, b) => well_typed(a, elem) && well_typed(b, elem),
            Op::RepeatC(_, q) => well_typed(q, false),
            Op::RepeatCElse(_, a, b) => well_typed(a, false) && well_typed(b, true),
            Op::Apply(q) | Op::ApplyIf(_, q) => well_typed(q, elem),
            Op::ApplyIfElse(_, a, b) | Op::ApplyOption(_, a, b) | Op::ApplyResult(_, a, b) => well_typed(a, elem) && well_typed(b, elem),
            Op::ApplyBoxed(q) | Op::ApplyTemplate(q) => well_typed(q, false),
            _ => true,
        };
        if !ok { return false; }
        elem = op.elem_after(elem);
    }
    true
}

impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let p = |p: &Prog| format!("|h| h{}", show_prog(p));
        match self {
            Op::Select(s, sel, q) => write!(f, ".{}({:?}, {})", s.name(), sel, p(q)),
            Op::SubContents(q) => write!(f, ".subselect_contents({})", p(q)),
            Op::Remove => write!(f, ".remove()"),
            Op::Prepend(c) => write!(f, ".prepend({c:?})"),
            Op::Append(c) => write!(f, ".append({c:?})"),
            Op::Replace(c) => write!(f, ".replace({c:?})"),
            Op::RemoveC => write!(f, ".remove_contents()"),
            Op::PrependC(c) => write!(f, ".prepend_contents({c:?})"),
            Op::AppendC(c) => write!(f, ".append_contents({c:?})"),
            Op::ReplaceC(c) => write!(f, ".replace_contents({c:?})"),
            Op::Repeat(i, q) => write!(f, ".repeat({i:?}, {})", p(q)),
            Op::RepeatElse(i, q, r) => write!(f, ".repeat_or_else({i:?}, {}, {})", p(q), p(r)),
            Op::RepeatC(i, q) => write!(f, ".repeat_contents({i:?}, {})", p(q)),
            Op::RepeatCElse(i, q, r) => write!(f, ".repeat_contents_or_else({i:?}, {}, {})", p(q), p(r)),
            Op::Attr(a) => write!(f, ".{a:?}"),
            Op::Apply(q) => write!(f, ".apply({})", p(q)),
            Op::ApplyIf(c, q) => write!(f, ".apply_if({c}, {})", p(q)),
            Op::ApplyIfElse(c, a, b) => write!(f, ".apply_if_else({c}, {}, {})", p(a), p(b)),
            Op::ApplyOption(c, a, b) => write!(f, ".apply_with_option({c:?}, {}, {})", p(a), p(b)),
            Op::ApplyResult(c, a, b) => write!(f, ".apply_with_result({c:?}, {}, {})", p(a), p(b)),
            Op::ApplyBoxed(q) => write!(f, ".apply_as_boxed({})", p(q)),
            Op::ApplyBoxedElement(q) => write!(f, ".apply_as_boxed_element({})", p(q)),
            Op::ApplyTemplate(q) => write!(f, ".apply_as_template(|t| t.transform({}))", p(q)),
            Op::ApplyTemplateTo(s) => write!(f, ".apply_as_template(|_| {s:?})"),
            Op::ApplyTemplateFail => write!(f, ".apply_as_template(|_| Err)"),
            Op::Boxed => write!(f, ".into_boxed()"),
            Op::BoxedElement => write!(f, ".into_boxed_element()"),
            Op::Mark(n) => write!(f, ".mark({n})"),
        }
    }
}
pub fn show_prog(p: &[Op]) -> String { p.iter().map(|o| format!("{o:?}")).collect() }

// ---------------------------------------------------------------------------------------------
// Meaning

/// Builder calls: (mark, item), and, for `apply_as_template`, what the builder was given.
#[derive(Default, Debug, PartialEq, Eq)]
pub struct Log { pub marks: Vec<(u32, i64)>, pub given: Vec<String> }
impl Log {
    /// calls per mark in order
    pub fn by_mark(&self) -> Vec<(u32, i64)> { let mut v = self.marks.clone(); v.sort_by_key(|m| m.0); v }
}

pub struct Env { pub item: i64, pub log: Log, pub steps: u64 }
impl Env { pub fn new() -> Env { Env { item: -1, log: Log::default(), steps: 0 } } }

/// What the fault reached is, in terms of the error expected.
#[derive(Clone, Debug, PartialEq)]
pub enum Failure {
    Content(Fault),
    Sel(Sel),
    Name(S),
    Template,
    /// a selector matched an event of this kind, which is no element
    NoElement(char),
}
type R = Result<Vec<Node>, Failure>;

pub fn val(v: &Val, env: &Env) -> String {
    match v {
        Val::Str(s) | Val::ValStatic(s) => escape(s),
        Val::ValOwned(s) | Val::ValRef(s) => escape(s),
        Val::Int(i) => i.to_string(),
        Val::Item => env.item.to_string(),
    }
}

pub fn content(c: &Content, env: &mut Env) -> R {
    Ok(match c {
        Content::Str(s) | Content::DataStatic(s) | Content::ValStatic(s) | Content::OkStr(s) => vec![Node::Text(escape(s))],
        Content::DataOwned(s) | Content::DataRef(s) | Content::ValOwned(s) | Content::ValRef(s) => vec![Node::Text(escape(s))],
        Content::Int(i) => vec![Node::Text(i.to_string())],
        Content::Item => vec![Node::Text(env.item.to_string())],
        Content::Tmpl(s, _) | Content::Stream(s, _) => crate::refparse::parse(s, None).expect("template source in program"),
        Content::Element(t) => vec![with_element(t)],
        Content::Built(t, p) => {
            let mut e = Env { item: env.item, log: Log::default(), steps: 0 };
            let r = run(p, vec![with_element(t)], &mut e)?;
            env.log.marks.extend(e.log.marks);
            env.log.given.extend(e.log.given);
            r
        }
        Content::Seq(s) => match seq_nodes(s) {
            Seq::Nodes(v) => v,
            Seq::Fails => return Err(Failure::Content(Fault::StreamAfter(0))),
            Seq::Malformed => panic!("no meaning for malformed streams"),
        },
        Content::Fail(f) => return Err(Failure::Content(f.clone())),
    })
}

/// The event named by a letter: opening and closing tags (`<>` and `()`), self-closed, void, text, comment, raw
/// text, doctype; `N` is a no-op and `F` a failure.  A first `R` means a shared stream, a first `B` one that
/// starts over after its end.
pub const SEQ: [(u8, char, &str); 11] = [(b'<', 'O', "<a class=\"x\">"), (b'>', 'X', "</a>"), (b'(', 'O', "<b>"), (b')', 'X', "</B>"), (b's', 'S', "<a class=\"x\" />"), (b'v', 'V', "<br>"), (b't', 'T', "t&amp;"),
    (b'c', 'C', "<!--c-->"), (b'r', 'R', "<r>"), (b'd', 'D', "<!doctype html>"), (b'N', 'N', "")];
pub enum Seq { Nodes(Vec<Node>), Fails, Malformed }
/// The nodes a sequence of events stands for.
pub fn seq_nodes(s: &[u8]) -> Seq {
    let x = [("class", Some("x"))];
    let mut stack: Vec<(u8, Vec<Node>)> = vec![(0, vec![])];
    for &c in s {
        let top = stack.len() - 1;
        match c {
            // no-ops, and the form of the stream
            b'N' | b'R' | b'B' => {}
            b'F' => return Seq::Fails,
            b'<' | b'(' => stack.push((c, vec![])),
            b'>' | b')' => {
                let (o, kids) = stack.pop().unwrap();
                let mut e = match (o, c) { (b'<', b'>') => elem("a", &x, Kind::Normal, kids), (b'(', b')') => elem("b", &[], Kind::Normal, kids), _ => return Seq::Malformed };
                if let (b'(', Node::Elem(e)) = (o, &mut e) { e.close = "B".into(); }
                stack.last_mut().unwrap().1.push(e);
            }
            b's' => stack[top].1.push(elem("a", &x, Kind::SelfClosed, vec![])),
            b'v' => stack[top].1.push(elem("br", &[], Kind::Void, vec![])),
            b't' => stack[top].1.push(text("t&amp;")),
            b'c' => stack[top].1.push(Node::Comment("c".into())),
            b'r' => stack[top].1.push(Node::Raw("<r>".into())),
            b'd' => stack[top].1.push(Node::Doctype("html".into())),
            _ => panic!("unknown event"),
        }
    }
    if stack.len() == 1 { Seq::Nodes(stack.pop().unwrap().1) } else { Seq::Malformed }
}

pub fn with_element(t: &str) -> Node {
    elem(t, &[], if is_void(t) { Kind::Void } else { Kind::SelfClosed }, vec![])
}

pub fn attr_op(a: &AttrOp, attrs: &mut Vec<Attr>, env: &Env) {
    use AttrOp::*;
    let del = |attrs: &mut Vec<Attr>, n: &str| attrs.retain(|x| !same(&x.0, n));
    let opt = |v: &Option<Val>| v.as_ref().map(|v| val(v, env));
    match a {
        Add(n, v) => attrs.push((n.to_string(), opt(v))),
        AddV(n, v) => attrs.push((n.to_string(), Some(val(v, env)))),
        AddEmpty(n) => attrs.push((n.to_string(), None)),
        AddTo(n, v, s) => add_to(attrs, n, val(v, env), val(s, env)),
        ReplaceIf(n, v) => if attrs.iter().any(|x| same(&x.0, n)) { del(attrs, n); attrs.push((n.to_string(), Some(val(v, env)))) },
        Set(n, v) => { del(attrs, n); attrs.push((n.to_string(), opt(v))) }
        SetV(n, v) => { del(attrs, n); attrs.push((n.to_string(), Some(val(v, env)))) }
        SetEmpty(n) => { del(attrs, n); attrs.push((n.to_string(), None)) }
        Remove(n) => del(attrs, n),
        AddClass(c) => add_to(attrs, "class", c.to_string(), " ".into()),
        RemoveClass(c) => {
            let mut out = Vec::new();
            for (n, v) in attrs.drain(..) {
                match v {
                    Some(v) if same(&n, "class") && words(&v).any(|w| same(w, c)) => {
                        let rest: Vec<&str> = words(&v).filter(|w| !same(w, c)).collect();
                        if !rest.is_empty() { out.push((n, Some(rest.join(" ")))); }
                    }
                    v => out.push((n, v)),
                }
            }
            *attrs = out;
        }
        RemoveId => del(attrs, "id"),
        SetId(v) => { del(attrs, "id"); attrs.push(("id".into(), Some(v.to_string()))) }
    }
}
fn add_to(attrs: &mut Vec<Attr>, n: &str, v: String, sep: String) {
    match attrs.iter_mut().find(|x| same(&x.0, n)) {
        Some((_, old)) => *old = Some(match old.take() { Some(o) => o + &sep + &v, None => v }),
        None => attrs.push((n.into(), Some(v))),
    }
}

/// Apply `f` to the contents of the one element in `nodes`.
fn contents(mut nodes: Vec<Node>, f: impl FnOnce(Vec<Node>) -> R) -> R {
    assert_eq!(nodes.len(), 1, "element stream");
    let Some(Node::Elem(mut e)) = nodes.pop() else { panic!("element stream") };
    match e.kind {
        Kind::Void => {}
        _ => {
            if e.kind == Kind::SelfClosed { e.kind = Kind::Normal; e.close = e.tag.clone(); }
            e.kids = f(std::mem::take(&mut e.kids))?;
        }
    }
    Ok(vec![Node::Elem(e)])
}

fn select(scope: Scope, parts: &Parts, p: &Prog, nodes: Vec<Node>, env: &mut Env, done: &mut bool) -> R {
    let mut out = Vec::new();
    for n in nodes {
        match n {
            Node::Elem(mut e) if !*done => {
                if sel_matches(parts, &e) {
                    if scope.once() { *done = true; }
                    out.extend(run(p, vec![Node::Elem(e)], env)?);
                } else if scope.direct() {
                    out.push(Node::Elem(e));
                } else {
                    e.kids = select(scope, parts, p, std::mem::take(&mut e.kids), env, done)?;
                    if !*done && e.kind == Kind::Normal && parts.kinds.map_or(false, |k| k.contains('X')) { return Err(Failure::NoElement('X')); }
                    out.push(Node::Elem(e));
                }
            }
            n => {
                let k = match n { Node::Doctype(_) => 'D', Node::Comment(_) => 'C', Node::Text(_) => 'T', Node::Raw(_) => 'R', Node::Elem(_) => ' ' };
                if !*done && parts.kinds.map_or(false, |s| s.contains(k)) { return Err(Failure::NoElement(k)); }
                out.push(n)
            }
        }
    }
    Ok(out)
}

fn repeat(items: &[i64], p: &Prog, nodes: Vec<Node>, env: &mut Env) -> R {
    let mut out = Vec::new();
    let old = env.item;
    for i in items {
        env.item = *i;
        out.extend(run(p, nodes.clone(), env)?);
    }
    env.item = old;
    Ok(out)
}

pub fn run(p: &[Op], mut nodes: Vec<Node>, env: &mut Env) -> R {
    for op in p { nodes = step(op, nodes, env)?; env.steps += 1; }
    Ok(nodes)
}

fn with_item(item: i64, p: &Prog, nodes: Vec<Node>, env: &mut Env) -> R {
    let old = std::mem::replace(&mut env.item, item);
    let r = run(p, nodes, env);
    env.item = old;
    r
}

pub fn step(op: &Op, nodes: Vec<Node>, env: &mut Env) -> R {
    Ok(match op {
        Op::Select(scope, sel, p) => {
            if sel.faulty() { return Err(Failure::Sel(sel.clone())); }
            let parts = sel.parts();
            let mut done = false;
            if scope.sub() {
                contents(nodes, |kids| select(*scope, &parts, p, kids, env, &mut done))?
            } else {
                select(*scope, &parts, p, nodes, env, &mut done)?
            }
        }
        Op::SubContents(p) => contents(nodes, |kids| run(p, kids, env))?,
        Op::Remove => vec![],
        Op::Prepend(c) => { let mut v = content(c, env)?; v.extend(nodes); v }
        Op::Append(c) => { let mut v = nodes; v.extend(content(c, env)?); v }
        Op::Replace(c) => content(c, env)?,
        Op::RemoveC => contents(nodes, |_| Ok(vec![]))?,
        Op::PrependC(c) => contents(nodes, |kids| { let mut v = content(c, env)?; v.extend(kids); Ok(v) })?,
        Op::AppendC(c) => contents(nodes, |mut kids| { kids.extend(content(c, env)?); Ok(kids) })?,
        Op::ReplaceC(c) => contents(nodes, |_| content(c, env))?,
        Op::Repeat(i, p) => repeat(&i.list(), p, nodes, env)?,
        Op::RepeatElse(i, p, q) => {
            let l = i.list();
            if l.is_empty() { run(q, nodes, env)? } else { repeat(&l, p, nodes, env)? }
        }
        Op::RepeatC(i, p) => contents(nodes, |kids| repeat(&i.list(), p, kids, env))?,
        Op::RepeatCElse(i, p, q) => {
            let l = i.list();
            if l.is_empty() { run(q, nodes, env)? } else { contents(nodes, |kids| repeat(&l, p, kids, env))? }
        }
        Op::Attr(a) => {
            if let Some(n) = a.name() { if !crate::refparse::name_faults(n).is_empty() { return Err(Failure::Name(n)); } }
            let mut nodes = nodes;
            let Some(Node::Elem(e)) = nodes.first_mut() else { panic!("element stream") };
            attr_op(a, &mut e.attrs, env);
            nodes
        }
        Op::Apply(p) | Op::ApplyBoxed(p) | Op::ApplyBoxedElement(p) => run(p, nodes, env)?,
        Op::ApplyIf(c, p) => if *c { run(p, nodes, env)? } else { nodes },
        Op::ApplyIfElse(c, p, q) => run(if *c { p } else { q }, nodes, env)?,
        Op::ApplyOption(v, p, q) => match v { Some(v) => with_item(*v, p, nodes, env)?, None => run(q, nodes, env)? },
        Op::ApplyResult(v, p, q) => match v { Ok(v) => with_item(*v, p, nodes, env)?, Err(v) => with_item(*v, q, nodes, env)? },
        Op::ApplyTemplate(p) => { env.log.given.push(render(&nodes)); run(p, nodes, env)? }
        Op::ApplyTemplateTo(s) => { env.log.given.push(render(&nodes)); crate::refparse::parse(s, None).expect("template source in program") }
        Op::ApplyTemplateFail => return Err(Failure::Template),
        Op::Boxed | Op::BoxedElement => nodes,
        Op::Mark(n) => { let i = env.item; env.log.marks.push((*n, i)); nodes }
    })
}
