//! Documents as trees.  Everything here is written from the documented behaviour, not from the code.

use html5_fuser::event::{IntoStream, Stream};
use html5_fuser::Template;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind { Normal, SelfClosed, Void }

pub type Attr = (String, Option<String>);

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Elem {
    pub tag: String,
    pub attrs: Vec<Attr>,
    pub kind: Kind,
    pub kids: Vec<Node>,
    /// name in the closing tag (can differ in letter case)
    pub close: String,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Node {
    Doctype(String),
    Comment(String),
    /// encoded text
    Text(String),
    /// content of a raw text element
    Raw(String),
    Elem(Elem),
}

pub const VOID: [&str; 16] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "keygen",
    "link", "menuitem", "meta", "param", "source", "track", "wbr"];
pub const RAW: [&str; 4] = ["script", "style", "title", "textarea"];

pub fn lower(s: &str) -> String { s.to_ascii_lowercase() }
pub fn same(a: &str, b: &str) -> bool { lower(a) == lower(b) }
pub fn is_void(t: &str) -> bool { VOID.contains(&lower(t).as_str()) }
pub fn is_raw(t: &str) -> bool { RAW.contains(&lower(t).as_str()) }

pub fn elem(tag: &str, attrs: &[(&str, Option<&str>)], kind: Kind, kids: Vec<Node>) -> Node {
    Node::Elem(Elem {
        tag: tag.into(),
        attrs: attrs.iter().map(|(n, v)| (n.to_string(), v.map(|v| v.to_string()))).collect(),
        kind,
        kids,
        close: tag.into(),
    })
}
pub fn text(s: &str) -> Node { Node::Text(s.into()) }

pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            c => o.push(c),
        }
    }
    o
}

fn open_tag(e: &Elem, o: &mut String) {
    o.push('<');
    o.push_str(&e.tag);
    for (n, v) in &e.attrs {
        o.push(' ');
        o.push_str(n);
        if let Some(v) = v {
            o.push_str("=\"");
            o.push_str(v);
            o.push('"');
        }
    }
    if e.kind == Kind::SelfClosed { o.push_str(" />") } else { o.push('>') }
}

pub fn tag_of(e: &Elem) -> String { let mut o = String::new(); open_tag(e, &mut o); o }

/// Flat events: (kind, rendering).
pub fn walk<'a>(nodes: &'a [Node], f: &mut dyn FnMut(char, &str)) {
    let mut buf = String::new();
    for n in nodes {
        match n {
            Node::Doctype(s) => f('D', &format!("<!doctype {s}>")),
            Node::Comment(s) => f('C', &format!("<!--{s}-->")),
            Node::Text(s) => f('T', s),
            Node::Raw(s) => f('R', s),
            Node::Elem(e) => {
                buf.clear();
                open_tag(e, &mut buf);
                match e.kind {
                    Kind::Void => f('V', &buf),
                    Kind::SelfClosed => f('S', &buf),
                    Kind::Normal => {
                        f('O', &buf);
                        walk(&e.kids, f);
                        f('X', &format!("</{}>", e.close));
                    }
                }
            }
        }
    }
}

pub fn render(nodes: &[Node]) -> String {
    let mut o = String::new();
    walk(nodes, &mut |_, s| o.push_str(s));
    o
}

/// Canonical event form: one line per event, adjacent text merged and empty text dropped, so that it
/// does not depend on how text is cut into events.
pub struct Canon { pub out: String, last: char }
impl Canon {
    pub fn new() -> Canon { Canon { out: String::new(), last: ' ' } }
    pub fn push(&mut self, kind: char, s: &str) {
        let textual = kind == 'T' || kind == 'R';
        if textual && s.is_empty() { return; }
        if textual && kind == self.last { self.out.push_str(s); return; }
        self.last = kind;
        self.out.push('\u{1}');
        self.out.push(kind);
        self.out.push_str(s);
    }
}

pub fn canon(nodes: &[Node]) -> String {
    let mut c = Canon::new();
    walk(nodes, &mut |k, s| c.push(k, s));
    c.out
}

pub fn show(canon: &str) -> String {
    canon.split('\u{1}').skip(1).collect::<Vec<_>>().join(" | ")
}

pub fn kind_of(description: &str) -> char {
    match description {
        "doctype" => 'D',
        "comment" => 'C',
        "content" => 'T',
        "raw content" => 'R',
        "opening tag" => 'O',
        "closing tag" => 'X',
        "self-closed tag" => 'S',
        "void tag" => 'V',
        "noop" => 'N',
        _ => '?',
    }
}

/// Canonical form of a real template, through its public event stream.
pub fn canon_real(t: &Template) -> Result<String, String> {
    let mut c = Canon::new();
    let mut s = t.into_stream();
    loop {
        match s.next_event() {
            Ok(Some(e)) => {
                let k = kind_of(e.description());
                if k == 'N' { return Err("template contains a no-op event".into()); }
                c.push(k, &e.to_string());
            }
            Ok(None) => break,
            Err(e) => return Err(format!("template stream failed: {e:?}")),
        }
    }
    Ok(c.out)
}

/// The template is exactly the document.
pub fn same_doc(t: &Template, doc: &[Node]) -> Result<(), String> {
    let want = render(doc);
    let got = t.to_string();
    if got != want { return Err(format!("output {:?}, expected {:?}", diffclip(&got, &want), diffclip(&want, &got))); }
    let wc = canon(doc);
    let gc = canon_real(t)?;
    if gc != wc { return Err(format!("events {}, expected {}", show(&gc), show(&wc))); }
    Ok(())
}

/// Show the difference of long strings around where they start to differ.
pub fn diffclip(a: &str, b: &str) -> String {
    if a.len() <= 2000 { return a.into(); }
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let from = i.saturating_sub(60);
    let s: String = String::from_utf8_lossy(&a.as_bytes()[from..(i + 120).min(a.len())]).into();
    format!("[{} bytes, at {}: ..{}..]", a.len(), from, s)
}
