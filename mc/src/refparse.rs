//! Reference parser, working on characters with positions computed from scratch.

use crate::model::*;
use html5_fuser::location::Location;
use html5_fuser::parse::Error;
use html5_fuser::text::IdentifierError;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Loc { pub line: usize, pub col: usize, pub off: usize }

pub fn loc_at(s: &str, off: usize) -> Loc {
    let pre = &s[..off];
    let line = 1 + pre.matches('\n').count();
    let col = 1 + pre.rsplit('\n').next().unwrap().chars().count();
    Loc { line, col, off }
}
impl Loc {
    pub fn show(&self) -> String { format!("line {} column {} (byte offset {})", self.line, self.col, self.off) }
    pub fn is(&self, l: &Location) -> bool { (l.line(), l.column(), l.offset()) == (self.line, self.col, self.off) }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum PErr {
    UnsupportedDoctype { at: Loc, doctype: String },
    UnclosedDoctype { at: Loc },
    UnclosedComment { at: Loc },
    UnfinishedOpen { tag: String, at: Loc },
    UnfinishedClose { tag: String, at: Loc },
    NoOpenName { at: Loc },
    BadOpenName { at: Loc, name: String },
    NoCloseName { at: Loc },
    BadCloseName { at: Loc, name: String },
    BadAttrName { at: Loc, name: String },
    BadAttrValue { at: Loc, tag: String, attr: String },
    UnclosedAttrValue { at: Loc, tag: String, attr: String },
    /// outermost first
    Missing { open: Vec<(String, Loc)> },
    Depth { tag: String, at: Loc, limit: usize },
    Unexpected { tag: String, at: Loc },
    Mismatched { open: String, open_at: Loc, close: String, close_at: Loc },
}

pub const FORBIDDEN: &str = "=\"'/><&,;";

/// All reasons why a name is invalid; empty when it is valid.
pub fn name_faults(s: &str) -> Vec<IdentifierError> {
    let mut v = Vec::new();
    if s.is_empty() { return vec![IdentifierError::Empty]; }
    if s.chars().any(|c| c as u32 > 127) { v.push(IdentifierError::NotAscii); }
    for c in s.chars() {
        if c.is_whitespace() { v.push(IdentifierError::Whitespace { whitespace: c }); }
        if FORBIDDEN.contains(c) { v.push(IdentifierError::Forbidden { forbidden: c }); }
    }
    v
}
pub fn tag_faults(s: &str) -> Vec<IdentifierError> {
    let mut v = name_faults(s);
    if s.starts_with('!') { v.push(IdentifierError::Forbidden { forbidden: '!' }); }
    v
}

fn is_end(c: char) -> bool { " \t\r\n><\"/='&".contains(c) }

struct P<'s> { s: &'s str, i: usize }
impl<'s> P<'s> {
    fn rest(&self) -> &'s str { &self.s[self.i..] }
    fn peek(&self) -> Option<char> { self.rest().chars().next() }
    fn ws(&mut self) { while let Some(c) = self.peek() { if c.is_whitespace() { self.i += c.len_utf8() } else { break } } }
    fn eat(&mut self, c: char) -> bool { if self.peek() == Some(c) { self.i += c.len_utf8(); true } else { false } }
    fn word(&mut self) -> &'s str {
        let st = self.i;
        while let Some(c) = self.peek() { if is_end(c) { break } self.i += c.len_utf8(); }
        &self.s[st..self.i]
    }
}

enum Tag { Open(String, Vec<Attr>, bool), Close(String) }

fn close_tag(s: &str, i: usize) -> Option<Result<(String, usize), PErr>> {
    let mut p = P { s, i };
    if !p.eat('<') { return None; }
    p.ws();
    if !p.eat('/') { return None; }
    p.ws();
    let at = p.i;
    let w = p.word();
    if w.is_empty() { return Some(Err(PErr::NoCloseName { at: loc_at(s, at) })); }
    if !name_faults(w).is_empty() { return Some(Err(PErr::BadCloseName { at: loc_at(s, at), name: w.into() })); }
    p.ws();
    if !p.eat('>') { return Some(Err(PErr::UnfinishedClose { tag: w.into(), at: loc_at(s, i) })); }
    Some(Ok((w.into(), p.i)))
}

fn tag(s: &str, i: usize) -> Result<(Tag, usize), PErr> {
    if let Some(r) = close_tag(s, i) { return r.map(|(n, e)| (Tag::Close(n), e)); }
    let mut p = P { s, i };
    p.eat('<');
    p.ws();
    let at = p.i;
    let name = p.word();
    if name.is_empty() { return Err(PErr::NoOpenName { at: loc_at(s, at) }); }
    if !tag_faults(name).is_empty() { return Err(PErr::BadOpenName { at: loc_at(s, at), name: name.into() }); }
    let mut attrs = Vec::new();
    loop {
        p.ws();
        let at = p.i;
        let w = p.word();
        if w.is_empty() { break; }
        if !name_faults(w).is_empty() { return Err(PErr::BadAttrName { at: loc_at(s, at), name: w.into() }); }
        p.ws();
        if !p.eat('=') { attrs.push((w.to_string(), None)); continue; }
        p.ws();
        let vat = p.i;
        if !p.eat('"') { return Err(PErr::BadAttrValue { at: loc_at(s, vat), tag: name.into(), attr: w.into() }); }
        let Some(n) = p.rest().chars().position(|c| c == '"') else {
            return Err(PErr::UnclosedAttrValue { at: loc_at(s, vat), tag: name.into(), attr: w.into() });
        };
        let v: String = p.rest().chars().take(n).collect();
        p.i += v.len() + 1;
        attrs.push((w.to_string(), Some(v)));
    }
    let closed = p.eat('/');
    if closed { p.ws(); }
    if !p.eat('>') { return Err(PErr::UnfinishedOpen { tag: name.into(), at: loc_at(s, i) }); }
    Ok((Tag::Open(name.into(), attrs, closed), p.i))
}

struct Frame { e: Elem, at: usize }

/// Parse by the documented rules; `limit` is the maximum number of open elements.
pub fn parse(s: &str, limit: Option<usize>) -> Result<Vec<Node>, PErr> {
    let mut stack: Vec<Frame> = Vec::new();
    let mut top: Vec<Node> = Vec::new();
    let mut i = 0;
    macro_rules! add { ($n:expr) => {{ let n = $n; match stack.last_mut() { Some(f) => f.e.kids.push(n), None => top.push(n) } }} }
    while i < s.len() {
        let rest = &s[i..];
        if !rest.starts_with('<') {
            let t: String = rest.chars().take_while(|c| *c != '<').collect();
            i += t.len();
            add!(Node::Text(t));
            continue;
        }
        if rest.starts_with("<!--") {
            match rest[4..].find("-->") {
                None => return Err(PErr::UnclosedComment { at: loc_at(s, i) }),
                Some(n) => { add!(Node::Comment(rest[4..4 + n].into())); i += 4 + n + 3; }
            }
            continue;
        }
        if rest.starts_with("<!") {
            let mut p = P { s, i: i + 2 };
            p.ws();
            if same(p.word(), "doctype") {
                p.ws();
                match p.rest().find('>') {
                    None => return Err(PErr::UnclosedDoctype { at: loc_at(s, i) }),
                    Some(n) => {
                        let c = p.rest()[..n].trim();
                        if !same(c, "html") { return Err(PErr::UnsupportedDoctype { at: loc_at(s, i), doctype: c.into() }); }
                        add!(Node::Doctype(c.into()));
                        i = p.i + n + 1;
                    }
                }
                continue;
            }
        }
        let at = i;
        match tag(s, i)? {
            (Tag::Open(name, attrs, closed), end) => {
                i = end;
                let kind = if is_void(&name) { Kind::Void } else if closed { Kind::SelfClosed } else { Kind::Normal };
                let e = Elem { close: name.clone(), tag: name, attrs, kind, kids: vec![] };
                if kind != Kind::Normal { add!(Node::Elem(e)); continue; }
                if limit == Some(stack.len()) { return Err(PErr::Depth { tag: e.tag, at: loc_at(s, at), limit: stack.len() }); }
                let raw = is_raw(&e.tag);
                let name = e.tag.clone();
                stack.push(Frame { e, at });
                if raw && i < s.len() {
                    let mut j = i;
                    loop {
                        match s[j..].find('<') {
                            None => { j = s.len(); break; }
                            Some(n) => {
                                j += n;
                                if let Some(Ok((n, _))) = close_tag(s, j) { if same(&n, &name) { break; } }
                                j += 1;
                            }
                        }
                    }
                    add!(Node::Raw(s[i..j].into()));
                    i = j;
                }
            }
            (Tag::Close(name), end) => {
                i = end;
                match stack.pop() {
                    None => return Err(PErr::Unexpected { tag: name, at: loc_at(s, at) }),
                    Some(mut f) => {
                        if !same(&f.e.tag, &name) {
                            return Err(PErr::Mismatched { open: f.e.tag, open_at: loc_at(s, f.at), close: name, close_at: loc_at(s, at) });
                        }
                        f.e.close = name;
                        add!(Node::Elem(f.e));
                    }
                }
            }
        }
    }
    if !stack.is_empty() {
        return Err(PErr::Missing { open: stack.into_iter().map(|f| { let at = loc_at(s, f.at); (f.e.tag, at) }).collect() });
    }
    Ok(top)
}

fn why(got: &IdentifierError, faults: Vec<IdentifierError>) -> bool { faults.contains(got) }

/// The real error is the predicted one, in kind only (`deep` false) or in every field.
pub fn matches(got: &Error, want: &PErr, deep: bool) -> bool {
    use Error as E;
    let d = !deep;
    match (got, want) {
        (E::UnsupportedDoctype { location, doctype }, PErr::UnsupportedDoctype { at, doctype: dt }) => d || at.is(location) && doctype == dt,
        (E::UnclosedDoctype { location }, PErr::UnclosedDoctype { at }) => d || at.is(location),
        (E::UnclosedComment { location }, PErr::UnclosedComment { at }) => d || at.is(location),
        (E::ExpectedOpeningTagClose { tag, location }, PErr::UnfinishedOpen { tag: t, at }) => d || at.is(location) && tag == t,
        (E::ExpectedClosingTagClose { tag, location }, PErr::UnfinishedClose { tag: t, at }) => d || at.is(location) && tag == t,
        (E::ExpectedOpeningTagIdentifier { location }, PErr::NoOpenName { at }) => d || at.is(location),
        (E::ExpectedClosingTagIdentifier { location }, PErr::NoCloseName { at }) => d || at.is(location),
        (E::InvalidOpeningTagIdentifier { location, identifier_error }, PErr::BadOpenName { at, name }) =>
            d || at.is(location) && why(identifier_error, tag_faults(name)),
        (E::InvalidClosingTagIdentifier { location, identifier_error }, PErr::BadCloseName { at, name }) =>
            d || at.is(location) && why(identifier_error, name_faults(name)),
        (E::InvalidAttributeIdentifier { location, identifier_error }, PErr::BadAttrName { at, name }) =>
            d || at.is(location) && why(identifier_error, name_faults(name)),
        (E::InvalidAttributeValue { location, tag, attribute_name }, PErr::BadAttrValue { at, tag: t, attr }) =>
            d || at.is(location) && tag == t && attribute_name == attr,
        (E::UnclosedAttributeValue { location, tag, attribute_name }, PErr::UnclosedAttrValue { at, tag: t, attr }) =>
            d || at.is(location) && tag == t && attribute_name == attr,
        (E::MissingClosingTags { inner, others }, PErr::Missing { open }) => d || {
            let (last, rest) = open.split_last().unwrap();
            inner.0 == last.0 && last.1.is(&inner.1) && others.len() == rest.len()
                && others.iter().zip(rest).all(|(a, b)| a.0 == b.0 && b.1.is(&a.1))
        },
        (E::StackLimitExceeded { tag, location, limit }, PErr::Depth { tag: t, at, limit: l }) =>
            limit == l && tag == t && (d || at.is(location)),
        (E::UnexpectedClosingTag { tag, location }, PErr::Unexpected { tag: t, at }) => d || at.is(location) && tag == t,
        (E::MismatchedClosingTag { opening_tag, opening_location, closing_tag, closing_location },
         PErr::Mismatched { open, open_at, close, close_at }) =>
            d || opening_tag == open && closing_tag == close && open_at.is(opening_location) && close_at.is(closing_location),
        _ => false,
    }
}

/// What the message of the error has to contain, in this order.
pub fn message_parts(e: &PErr) -> Vec<String> {
    let q = |s: &str| format!("'{s}'");
    match e {
        PErr::UnsupportedDoctype { at, doctype } => vec!["nsupported doctype".into(), q(doctype), at.show()],
        PErr::UnclosedDoctype { at } => vec!["nclosed doctype".into(), at.show()],
        PErr::UnclosedComment { at } => vec!["nclosed comment".into(), at.show()],
        PErr::UnfinishedOpen { tag, at } => vec!["opening tag".into(), q(tag), at.show()],
        PErr::UnfinishedClose { tag, at } => vec!["closing tag".into(), q(tag), at.show()],
        PErr::NoOpenName { at } => vec!["identifier".into(), "opening tag".into(), at.show()],
        PErr::NoCloseName { at } => vec!["identifier".into(), "closing tag".into(), at.show()],
        PErr::BadOpenName { at, .. } => vec!["nvalid".into(), "opening tag identifier".into(), at.show()],
        PErr::BadCloseName { at, .. } => vec!["nvalid".into(), "closing tag identifier".into(), at.show()],
        PErr::BadAttrName { at, .. } => vec!["nvalid".into(), "attribute identifier".into(), at.show()],
        PErr::BadAttrValue { at, tag, attr } => vec!["nvalid attribute value".into(), format!("{tag}.{attr}"), at.show()],
        PErr::UnclosedAttrValue { at, tag, attr } => vec!["nclosed attribute value".into(), format!("{tag}.{attr}"), at.show()],
        PErr::Missing { open } => {
            let (last, rest) = open.split_last().unwrap();
            let mut v = vec!["nclosed".to_string(), q(&last.0), last.1.show()];
            v.extend(rest.iter().map(|o| q(&o.0)));
            v
        }
        PErr::Depth { tag, at, limit } => vec![format!("limit ({limit})"), q(tag), at.show()],
        PErr::Unexpected { tag, at } => vec!["nexpected closing tag".into(), q(tag), at.show()],
        PErr::Mismatched { open, open_at, close, close_at } => vec![
            "losing tag".into(), q(close), close_at.show(), "opening tag".into(), q(open), open_at.show()],
    }
}

pub fn contains_in_order(msg: &str, parts: &[String]) -> bool {
    let mut i = 0;
    for p in parts {
        match msg[i..].find(p.as_str()) { Some(n) => i += n + p.len(), None => return false }
    }
    true
}
