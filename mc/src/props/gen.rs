//! Enumerators of finite spaces.

use crate::engine::*;
use crate::model::*;

/// All sequences over `k` letters of length `len`, that start with the letters of `prefix`.
pub fn sequences(k: usize, len: usize, prefix: &[usize], f: &mut dyn FnMut(&[usize])) {
    let p = prefix.len();
    if p > len { return; }
    let mut v: Vec<usize> = prefix.to_vec();
    v.resize(len, 0);
    loop {
        f(&v);
        let mut i = len;
        loop {
            if i == p { return; }
            i -= 1;
            v[i] += 1;
            if v[i] < k { break; }
            v[i] = 0;
        }
    }
}

/// Strings made of `k` tokens up to `max` long, each checked by `f`; jobs split on the first two tokens.
pub fn strings(name: &str, what: &str, tokens: Vec<&'static str>, max: usize, pre: &'static str, post: Vec<&'static str>,
    f: impl Fn(&str, &mut Cx) + Send + Sync + 'static) -> Family {
    let k = tokens.len();
    let space = format!("all strings {what} of at most {max} of the {k} pieces {tokens:?}{}{}",
        if pre.is_empty() { String::new() } else { format!(" after {pre:?}") },
        if post == [""] { String::new() } else { format!(", followed by each of {post:?}") });
    // job 0: lengths 0 and 1; the others: sequences of length >= 2 that start with two given tokens
    Family::new(name, space, 1 + if max >= 2 { k * k } else { 0 }, move |j, cx| {
        let mut s = String::new();
        let mut go = |v: &[usize], cx: &mut Cx| {
            if cx.stopped() { return; }
            for e in &post {
                s.clear();
                s.push_str(pre);
                for t in v { s.push_str(tokens[*t]); }
                s.push_str(e);
                f(&s, cx);
            }
        };
        if j == 0 {
            for len in 0..=max.min(1) { sequences(k, len, &[], &mut |v| go(v, cx)); }
        } else {
            let p = [(j - 1) / k, (j - 1) % k];
            for len in 2..=max { sequences(k, len, &p, &mut |v| go(v, cx)); }
        }
    })
}

/// Sizes at and around which representations change: all small ones, and powers of two and neighbours.
pub fn sizes(small: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=small.min(max)).collect();
    let mut p = 1;
    while p <= max * 2 {
        for d in [p - 1, p, p + 1] { if d > small && d <= max { v.push(d); } }
        p *= 2;
    }
    for d in [1000, 1023, 9999, 10000, 10001] { if d > small && d <= max { v.push(d); } }
    v.sort();
    v.dedup();
    v
}

/// All spellings of a name in upper and lower case.
pub fn cases(name: &str) -> Vec<String> {
    let b = name.as_bytes();
    let letters: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_alphabetic()).collect();
    (0..1u32 << letters.len()).map(|m| {
        let mut v = b.to_vec();
        for (k, i) in letters.iter().enumerate() { if m >> k & 1 == 1 { v[*i] = v[*i].to_ascii_uppercase(); } }
        String::from_utf8(v).unwrap()
    }).collect()
}

/// Labels of nodes in generated forests.
#[derive(Clone)]
pub enum Label {
    Leaf(Node),
    /// element with contents
    Branch(Node),
}

/// All forests with exactly `n` nodes.
pub fn forests(n: usize, labels: &[Label]) -> Vec<Vec<Node>> {
    let mut memo: Vec<Vec<Vec<Node>>> = vec![vec![vec![]]];
    for size in 1..=n {
        let mut out = Vec::new();
        for l in labels {
            match l {
                Label::Leaf(node) => for rest in &memo[size - 1] {
                    let mut v = vec![node.clone()];
                    v.extend(rest.iter().cloned());
                    out.push(v);
                },
                Label::Branch(node) => for inner in 0..size {
                    for kids in &memo[inner] {
                        for rest in &memo[size - 1 - inner] {
                            let Node::Elem(mut e) = node.clone() else { unreachable!() };
                            e.kids = kids.clone();
                            let mut v = vec![Node::Elem(e)];
                            v.extend(rest.iter().cloned());
                            out.push(v);
                        }
                    }
                },
            }
        }
        memo.push(out);
    }
    memo.pop().unwrap()
}
pub fn forests_upto(n: usize, labels: &[Label]) -> Vec<Vec<Node>> { (0..=n).flat_map(|n| forests(n, labels)).collect() }

/// Forests without two texts in a row (they could not come from a source).
pub fn parsable(nodes: &[Node]) -> bool {
    nodes.windows(2).all(|w| !matches!(w, [Node::Text(_), Node::Text(_)]))
        && nodes.iter().all(|n| match n { Node::Elem(e) => parsable(&e.kids), _ => true })
}

pub const UNI: [&str; 6] = ["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{feff}", "\u{a0}", "\u{2028}"];

/// All ASCII characters, and some others of each encoded length.
pub fn chars() -> Vec<String> {
    (0u8..128).map(|b| (b as char).to_string()).chain(UNI.iter().map(|s| s.to_string()))
        .chain(["\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{3000}", "\u{85}", "\u{212a}", "\u{17f}", "\u{130}"].iter().map(|s| s.to_string()))
        .collect()
}

/// All Unicode scalar values, `per` at a time.
pub fn unicode_blocks(per: u32) -> usize { (0x110000u32 / per) as usize }
pub fn unicode_block(i: usize, per: u32) -> Vec<char> { (i as u32 * per..(i as u32 + 1) * per).filter_map(char::from_u32).collect() }
