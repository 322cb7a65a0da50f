//! C08: loading files under every way of reading them.

use super::gen::*;
use crate::engine::*;
use crate::model::same_doc;
use crate::refparse;
use html5_fuser::template::{FileError, InputError};
use html5_fuser::{ParseOptions, Template};
use std::cell::{Cell, RefCell};
use std::error::Error as _;
use std::path::{Path, PathBuf};
use std::sync::Arc;

// ------------------------------------------------------------------ the environment: read(2)

/// How the operating system answers reads on this thread.
struct Plan { sizes: Vec<usize>, at: usize, fail_at: Option<usize>, fail_after: Option<usize> }
thread_local! {
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
    static READS: Cell<usize> = const { Cell::new(0) };
    static BYTES: Cell<usize> = const { Cell::new(0) };
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
pub const EIO: i32 = 5;

/// Takes the place of the C library's `read` in this program.
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, count: usize) -> isize {
    let mut count = count;
    if fd > 2 {
        let fail = PLAN.try_with(|p| match p.try_borrow_mut() {
            Ok(mut p) => match p.as_mut() {
                Some(p) => {
                    READS.with(|r| r.set(r.get() + 1));
                    let i = p.at;
                    p.at += 1;
                    if p.fail_at == Some(i) || p.fail_after.is_some_and(|n| BYTES.with(|b| b.get()) > n) { return true; }
                    if let Some(n) = p.sizes.get(i) { count = count.min((*n).max(1)); }
                    false
                }
                None => false,
            },
            Err(_) => false,
        });
        if let Ok(true) = fail { *__errno_location() = EIO; return -1; }
    }
    let n = syscall(0, fd as i64, buf, count) as isize;
    if fd > 2 && n > 0 { let _ = BYTES.try_with(|b| b.set(b.get() + n as usize)); }
    n
}

fn planned<T>(sizes: Vec<usize>, fail_at: Option<usize>, f: impl FnOnce() -> T) -> T { answering(sizes, fail_at, None, f) }
fn answering<T>(sizes: Vec<usize>, fail_at: Option<usize>, fail_after: Option<usize>, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset { fn drop(&mut self) { PLAN.with(|p| *p.borrow_mut() = None); } }
    READS.with(|r| r.set(0));
    BYTES.with(|b| b.set(0));
    PLAN.with(|p| *p.borrow_mut() = Some(Plan { sizes, at: 0, fail_at, fail_after }));
    let _r = Reset;
    f()
}
fn reads() -> usize { READS.with(|r| r.get()) }

// ------------------------------------------------------------------------------ scratch files

pub struct Scratch { pub path: PathBuf }
impl Scratch {
    fn dir() -> PathBuf { std::env::var_os("MC_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir) }
    fn name() -> PathBuf {
        thread_local! { static N: Cell<u64> = const { Cell::new(0) }; }
        let n = N.with(|n| { n.set(n.get() + 1); n.get() });
        let t = format!("{:?}", std::thread::current().id()).replace(|c: char| !c.is_ascii_digit(), "");
        Scratch::dir().join(format!("mc-{}-{t}-{n}", std::process::id()))
    }
    pub fn file(content: &[u8]) -> Scratch {
        let path = Scratch::name();
        std::fs::write(&path, content).expect("scratch file");
        Scratch { path }
    }
    fn dir_() -> Scratch {
        let path = Scratch::name();
        std::fs::create_dir(&path).expect("scratch directory");
        Scratch { path }
    }
    fn nothing() -> Scratch { Scratch { path: Scratch::name() } }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.path);
        let _ = std::fs::remove_dir(&self.path);
    }
}

pub fn load(p: &Path, o: ParseOptions) -> Result<Template, FileError> { Template::from_file(p, o) }

// ------------------------------------------------------------------------------------- oracle

/// What loading has to give.
fn expected(content: &[u8], limit: Option<usize>, path: &Path, got: Result<Template, FileError>, rec: &mut Rec) -> Check {
    rec.step(1);
    let over = limit.map_or(false, |l| content.len() > l);
    let told = |e: &FileError, p: &PathBuf| -> Check {
        if p != path { return Err(format!("the error names {p:?} instead of {path:?}")); }
        if !e.to_string().contains(&path.display().to_string()) { return Err(format!("message {:?} does not name the file", e.to_string())); }
        Ok(())
    };
    match std::str::from_utf8(content) {
        Err(u) => match got {
            Err(ref e @ FileError::Decode { path: ref p, .. }) => {
                rec.outcome("decode");
                told(e, p)?;
                if e.cause().is_none() { return Err("the error has no cause".into()); }
                Ok(())
            }
            Err(ref e @ FileError::Input { path: ref p, error: InputError::LengthLimitExceeded { limit: l } }) if over && Some(l) == limit => told(e, p),
            Err(e) => Err(format!("not valid UTF-8 ({u}): {e:?}")),
            Ok(t) => Err(format!("not valid UTF-8 ({u}), but accepted giving {:?}", clip(&t.to_string(), 200))),
        },
        Ok(s) if over => match got {
            Err(ref e @ FileError::Input { path: ref p, error: InputError::LengthLimitExceeded { limit: l } }) if Some(l) == limit => { rec.outcome("length"); let _ = s; told(e, p) }
            Err(e) => Err(format!("longer than the limit: {e:?}")),
            Ok(_) => Err("longer than the limit, but accepted".into()),
        },
        Ok(s) => {
            let mut o = ParseOptions::default();
            if let Some(l) = limit { o = o.max_input_len(l); }
            match (got, Template::from_str(s, o), refparse::parse(s, None)) {
                (Ok(t), Ok(u), Ok(doc)) => {
                    if s.len() < 300 { rec.state(s); }
                    same_doc(&t, &doc)?;
                    if t == u { Ok(()) } else { Err("differs from the template loaded from the string".into()) }
                }
                (Err(ref e @ FileError::Input { path: ref p, ref error }), Err(w), Err(r)) => {
                    rec.outcome("parse error");
                    told(e, p)?;
                    if *error != w { return Err(format!("error {error:?}, from the string {w:?}")); }
                    match error { InputError::Parse { error } if refparse::matches(error, &r, true) => {} _ => return Err(format!("error {error:?}, expected {r:?}")) }
                    match e.cause() { Some(c) if c.to_string() == w.to_string() => Ok(()), c => Err(format!("cause {c:?}")) }
                }
                (got, str_, want) => Err(format!("file gives {:?}, string gives {:?}, expected {:?}",
                    got.map(|t| clip(&t.to_string(), 200)), str_.map(|t| clip(&t.to_string(), 200)), want.map(|d| clip(&crate::model::render(&d), 200)))),
            }
        }
    }
}

fn split_load(content: &[u8], sizes: Vec<usize>, limit: Option<usize>, rec: &mut Rec) -> Check {
    let f = Scratch::file(content);
    let mut o = ParseOptions::default();
    if let Some(l) = limit { o = o.max_input_len(l); }
    let r = planned(sizes, None, || load(&f.path, o));
    rec.step(reads() as u64);
    expected(content, limit, &f.path, r, rec)
}

/// A read that fails after `k` reads of the given sizes: the read error with the path, unless what
/// was read so far already decides otherwise.
fn faulty_load(content: &[u8], sizes: Vec<usize>, k: usize, limit: Option<usize>, rec: &mut Rec) -> Check {
    let f = Scratch::file(content);
    let mut o = ParseOptions::default();
    if let Some(l) = limit { o = o.max_input_len(l); }
    let r = planned(sizes, Some(k), || load(&f.path, o));
    let n = reads();
    rec.step(n as u64);
    // nothing asked for that read: then it cannot have failed
    if n <= k { rec.outcome("read not asked for"); return expected(content, limit, &f.path, r, rec); }
    match r {
        Err(ref e @ FileError::Read { ref path, ref error }) => {
            rec.outcome("read error");
            if *path != f.path { return Err(format!("the error names {path:?} instead of {:?}", f.path)); }
            if error.raw_os_error() != Some(EIO) { return Err(format!("error {error:?}, expected EIO")); }
            if !e.to_string().contains(&f.path.display().to_string()) { return Err(format!("message {:?} does not name the file", e.to_string())); }
            match e.cause() { Some(c) if c.to_string() == error.to_string() => Ok(()), c => Err(format!("cause {c:?}")) }
        }
        Err(e) => Err(format!("the read error was reported as {e:?}")),
        Ok(t) => Err(format!("the read error was ignored, giving {:?}", clip(&t.to_string(), 200))),
    }
}

/// How much more than the limit may be read before a file is found to be too long.
const SLACK: usize = 1 << 20;

/// A file without end, or of a size that never fits: too long, found without reading on and on.
pub fn endless(path: &Path, sizes: Vec<usize>, limit: usize, depth: Option<usize>, rec: &mut Rec) -> Check {
    rec.step(1);
    let o = ParseOptions { max_input_len: Some(limit), max_stack_depth: depth };
    let r = answering(sizes, None, Some(limit + SLACK), || load(path, o));
    let got = BYTES.with(|b| b.get());
    rec.step(reads() as u64);
    rec.state(&format!("{limit} {got}"));
    if got > limit + SLACK { return Err(format!("{got} bytes were read with a limit of {limit}")); }
    match r {
        Err(FileError::Input { path: ref p, error: InputError::LengthLimitExceeded { limit: l } }) if l == limit && p == path => Ok(()),
        Err(e) => Err(format!("too long: {e:?}")),
        Ok(t) => Err(format!("accepted, giving {} bytes", t.to_string().len())),
    }
}
pub fn endless_files(tier: Tier) -> Family {
    let top = tier.pick(1 << 22, 1 << 26);
    let mut ls: Vec<usize> = (0..20).chain(sizes(0, top)).chain([8192 * 3 - 1, 8192 * 3, 100_000]).collect();
    ls.sort();
    ls.dedup();
    let n = ls.len();
    split("files without end", format!("a device without end and a file of 1 TB, with each of {n} limits up to {top}, and reads as large as asked for, of 1, 100 and 8191 bytes"), n * 2, 2, move |i, cx| {
        let l = ls[i / 2];
        for sizes in [vec![], vec![1; 40], vec![100; 500], vec![8191; 40]] {
            cx.case(|| format!("{} with limit {l} in reads of {:?}", ["endless file", "file of 1 TB"][i % 2], sizes.first()), |rec| {
                if i % 2 == 0 { return endless(Path::new("/dev/zero"), sizes.clone(), l, if l % 2 == 0 { None } else { Some(0) }, rec); }
                let s = Scratch::file(b"");
                // a file system may not have files of that size
                if std::fs::OpenOptions::new().write(true).open(&s.path).and_then(|f| f.set_len(1 << 40)).is_err() { rec.outcome("no such file"); return Ok(()); }
                endless(&s.path, sizes.clone(), l, None, rec)
            });
        }
    })
}

/// Loads from a pipe, which is not a regular file and has no size.
fn pipe_load(content: &[u8], sizes: Vec<usize>, limit: Option<usize>, rec: &mut Rec) -> Check {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let (r, mut w) = std::io::pipe().expect("pipe");
    w.write_all(content).expect("pipe");
    drop(w);
    let path = PathBuf::from(format!("/proc/self/fd/{}", r.as_raw_fd()));
    if let Err(_) = std::fs::File::open(&path) { rec.outcome("no such path"); return Ok(()); }
    let mut o = ParseOptions::default();
    if let Some(l) = limit { o = o.max_input_len(l); }
    let t = planned(sizes, None, || load(&path, o));
    rec.step(reads() as u64);
    expected(content, limit, &path, t, rec)
}

/// All ways to cut n bytes into reads, as bit masks of the cuts.
fn cut(n: usize, mask: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut run = 0;
    for i in 0..n { run += 1; if i + 1 == n || mask >> i & 1 == 1 { v.push(run); run = 0; } }
    v
}

/// What can be done to two paths between loads.
#[derive(Clone, Copy, Debug)]
enum FileStep { Write(usize, usize), Put(usize, usize), Remove(usize), Swap, Link, Load(usize, usize) }
const CONTENTS: [&[u8]; 5] = [b"<a>1</a>", b"<a>2</a>", b"<a>3</b>", b"<a>\xff</a>", b"<b>\xc3\xa9</b>t"];

/// Loading again after files have changed: always what is there now.
fn changing(tier: Tier) -> Family {
    use FileStep::*;
    let mut steps: Vec<FileStep> = Vec::new();
    for p in 0..2 { for c in 0..CONTENTS.len() { if p == 0 || c < 2 { steps.push(Write(p, c)); } } steps.push(Remove(p)); steps.push(Load(p, 0)); }
    steps.extend([Put(0, 0), Put(0, 1), Swap, Link, Load(0, 8), Load(0, 7)]);
    let depth = tier.pick(4, 5);
    let k = steps.len();
    split("changing files", format!("all histories of {depth} of {k} steps on two paths: written in place with contents of the same length (good, unbalanced, not UTF-8) and of another, written anew, removed, swapped, one a link to the other, loaded with limits at and below the size and without; two loads of each path at the end"), k * k, 1, move |i, cx| {
        sequences(k, depth, &[i / k, i % k], &mut |q| {
            // the last steps load in any case
            if cx.stopped() || !matches!(steps[q[0]], Write(..) | Put(..)) || matches!(steps[q[depth - 1]], Load(..)) && depth > 4 { return; }
            cx.case(|| format!("{:?}", q.iter().map(|i| steps[*i]).collect::<Vec<_>>()), |rec| {
                let dir = Scratch::dir_();
                let path = [dir.path.join("x"), dir.path.join("y")];
                let spare = dir.path.join("z");
                struct Clean([PathBuf; 3]);
                impl Drop for Clean { fn drop(&mut self) { for p in &self.0 { let _ = std::fs::remove_file(p); } } }
                let _clean = Clean([path[0].clone(), path[1].clone(), spare.clone()]);
                let look = |p: usize, limit: Option<usize>, rec: &mut Rec| -> Check {
                    let mut o = ParseOptions::default();
                    if let Some(l) = limit { o = o.max_input_len(l); }
                    let got = load(&path[p], o);
                    match std::fs::read(&path[p]) {
                        Ok(content) => expected(&content, limit, &path[p], got, rec),
                        Err(_) => match got { Err(FileError::Open { path: q, .. }) if q == path[p] => Ok(()), Err(e) => Err(format!("wrong error {e:?}")), Ok(t) => Err(format!("there is no file, but it loads as {:?}", t.to_string())) },
                    }
                };
                for (n, s) in q.iter().map(|i| steps[*i]).enumerate() {
                    let e = |e: std::io::Error| format!("harness: {e}");
                    match s {
                        // a link that leads nowhere cannot be written through
                        Write(p, c) => if std::fs::symlink_metadata(&path[p]).is_err() || path[p].exists() { std::fs::write(&path[p], CONTENTS[c]).map_err(e)? },
                        Put(p, c) => { std::fs::write(&spare, CONTENTS[c]).map_err(e)?; std::fs::rename(&spare, &path[p]).map_err(e)?; }
                        Remove(p) => { let _ = std::fs::remove_file(&path[p]); }
                        Swap => { if path[0].exists() && path[1].exists() && !path[1].is_symlink() { std::fs::rename(&path[0], &spare).map_err(e)?; std::fs::rename(&path[1], &path[0]).map_err(e)?; std::fs::rename(&spare, &path[1]).map_err(e)?; } }
                        Link => { let _ = std::fs::remove_file(&path[1]); std::os::unix::fs::symlink(&path[0], &path[1]).map_err(e)?; }
                        Load(p, l) => look(p, if l == 0 { None } else { Some(l) }, rec).map_err(|m| format!("step {n}: {m}"))?,
                    }
                }
                for p in [0, 1, 1, 0] { look(p, None, rec).map_err(|m| format!("at the end, {}: {m}", ["x", "y"][p]))?; }
                Ok(())
            });
        });
    })
}

/// Files with names of all kinds.
fn file_names() -> Family {
    use std::os::unix::ffi::OsStrExt;
    let mut names: Vec<Vec<u8>> = (1u8..=255).filter(|b| *b != b'/').flat_map(|b| [vec![b'a', b], vec![b, b'a']]).collect();
    for n in ["a.html", "A.HTML", ".hidden", "a b", " a", "a ", "-", "--", "~", "*", "?", "%20", "%s", "{}", "$HOME", "a.gz", "a.tmpl", "\u{e9}", "e\u{301}", "\u{1f600}", "\u{feff}", "file:a", "http:", "<a>", "a\\b", "\u{202e}", "con", "..."] { names.push(n.as_bytes().to_vec()); }
    names.extend([vec![b'n'; 200], vec![0xff; 150], vec![0xc3, 0x28]]);
    let n = names.len();
    split("file names", format!("{n} names (each byte, relative parts, spaces, not UTF-8, Unicode, patterns, long), plain and through . and .., doubled slashes and a link: with a template, broken and missing"), n, 8, move |i, cx| {
        let name = std::ffi::OsStr::from_bytes(&names[i]);
        for form in 0..5 { for content in [Some(&b"<a>\xc3\xa9</a>"[..]), Some(b"<a>"), Some(b"\xff"), None] {
            cx.case(|| format!("file {name:?}, form {form}, {}", content.map_or("missing".into(), |c| format!("{:?}", String::from_utf8_lossy(c)))), |rec| {
                let d = Scratch::dir_();
                let file = d.path.join(name);
                let link = d.path.join("another");
                struct Clean(Vec<PathBuf>);
                impl Drop for Clean { fn drop(&mut self) { for p in &self.0 { let _ = std::fs::remove_file(p); } } }
                let _clean = Clean(vec![file.clone(), link.clone()]);
                if let Some(c) = content { if std::fs::write(&file, c).is_err() { rec.outcome("no such file"); return Ok(()); } }
                let path = match form {
                    0 => file.clone(),
                    1 => d.path.join(".").join(name),
                    2 => d.path.join("..").join(d.path.file_name().unwrap()).join(name),
                    3 => { let mut p = d.path.clone().into_os_string(); p.push("//"); p.push(name); PathBuf::from(p) }
                    _ => { std::os::unix::fs::symlink(&file, &link).map_err(|e| format!("harness: {e}"))?; link.clone() }
                };
                let got = load(&path, ParseOptions::default());
                match content {
                    Some(c) => expected(c, None, &path, got, rec),
                    None => match got {
                        Err(ref e @ FileError::Open { path: ref p, .. }) if p.as_os_str() == path.as_os_str() => if e.to_string().contains(&path.display().to_string()) { Ok(()) } else { Err(format!("message {:?}", e.to_string())) },
                        Err(e) => Err(format!("wrong error {e:?}")),
                        Ok(_) => Err("accepted".into()),
                    },
                }
            });
        } }
    })
}

pub fn c08(tier: Tier) -> Vec<Family> {
    let mut v = vec![changing(tier), file_names()];
    let words: Vec<&'static str> = super::vocab::WORDS.to_vec();
    v.push(split("words", format!("{} words that mean something, as file contents alone, first and last, in text and a value", words.len()), words.len(), 4, move |i, cx| {
        let w = words[i];
        for s in [w.to_string(), format!("{w}<br>"), format!("<br>{w}"), format!("<a b=\"{w}\">{w}</a>"), format!("\n{w}\n"), format!("{w}{w}")] {
            for r in [vec![], vec![1; 200]] { cx.case(|| format!("file {s:?} in reads of {:?}", r.first()), |rec| split_load(s.as_bytes(), r.clone(), None, rec)); }
        }
    }));
    // every way to cut short contents into reads
    let mut docs: Vec<Vec<u8>> = ["", "x", "\u{e9}", "\u{20ac}", "\u{1f600}", "a\u{e9}b", "\u{e9}\u{20ac}", "\u{1f600}\u{e9}\u{20ac}", "<a>\u{e9}</a>", "<a b=\"\u{20ac}\"/>", "<br>\n\u{1f600}",
        "<!--\u{e9}-->", "<script>\u{20ac}", "<a>\n</b>", "</\u{e9}>", "<\u{1f600}", "<a>\r\n</a>", "\u{feff}<b/>", "<!doctype html>", "<p", "&amp;\u{a0};"].iter().map(|s| s.as_bytes().to_vec()).collect();
    for bad in [&b"\xff"[..], b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xf4\x90\x80\x80", b"\xe0\x80\xaf", b"\xfe"] {
        docs.push(bad.to_vec());
        docs.push([b"x", bad].concat());
        docs.push([bad, b"x"].concat());
        docs.push(["\u{e9}".as_bytes(), bad, "\u{20ac}".as_bytes()].concat());
        docs.push([b"<a>", bad, b"</a>"].concat());
    }
    let max = tier.pick(14, 18);
    docs.retain(|d| d.len() <= max);
    let docs = Arc::new(docs);
    let d2 = docs.clone();
    v.push(split("all splits", format!("{} contents (characters of every encoded length, markup, errors, every kind of invalid UTF-8) of at most {max} bytes, with every division into reads; without limit and with limits around the length", docs.len()), docs.len() * 8, 1, move |i, cx| {
        let d = &d2[i / 8];
        let n = d.len();
        for m in 0..1usize << n.max(1) - 1 {
            if m % 8 != i % 8 { continue; }
            for l in [None, Some(n), Some(n.wrapping_sub(1))] {
                if l == Some(usize::MAX) || l.is_some() && m & (m >> 1) != 0 { continue; }
                cx.case(|| format!("file {:?} in reads of {:?}, max_input_len {l:?}", String::from_utf8_lossy(d), cut(n, m)), |rec| split_load(d, cut(n, m), l, rec));
            }
        }
    }));
    // a read failing at every point of every division
    let d3: Arc<Vec<Vec<u8>>> = Arc::new(docs.iter().filter(|d| d.len() <= tier.pick(10, 13) && std::str::from_utf8(d).is_ok()).cloned().collect());
    v.push(split("read errors", format!("{} contents of at most {} bytes with every division into reads, and a failing read at every point including the one at the end", d3.len(), tier.pick(10, 13)), d3.len(), 1, move |i, cx| {
        let d = &d3[i];
        let n = d.len();
        for m in 0..1usize << n.max(1) - 1 {
            let c = cut(n, m);
            for k in 0..=c.len() {
                for l in [None, Some(n + 1)] {
                    cx.case(|| format!("file {:?} in reads of {c:?}, read {k} failing, max_input_len {l:?}", String::from_utf8_lossy(d)), |rec| faulty_load(d, c.clone(), k, l, rec));
                }
            }
        }
    }));
    // a failing read in long files
    let bad_sizes = [1usize, 100, 8191, 8192, 8193, 16384, 20000, 32768, 40961];
    v.push(split("read errors in long files", format!("files of {bad_sizes:?} bytes of one to four byte characters with every one of the reads failing, reads as large as asked for or of 1000 bytes"), bad_sizes.len(), 1, move |i, cx| {
        let n = bad_sizes[i];
        for c in ["x", "\u{e9}", "\u{20ac}", "\u{1f600}", "<p>\u{e9}</p>"] {
            let mut s = String::new();
            while s.len() < n { s.push_str(c); }
            for r in [vec![], vec![1000; 60]] {
                for k in 0..=if r.is_empty() { s.len() / 8192 + 1 } else { s.len() / 1000 + 1 } {
                    cx.case(|| format!("{} bytes of {c:?}, read {k} failing, reads of {:?}", s.len(), r.first()), |rec| faulty_load(s.as_bytes(), r.clone(), k, None, rec));
                }
            }
        }
    }));
    // long files: every character at every place relative to the ends of the reads
    let cs = ["x", "\u{e9}", "\u{20ac}", "\u{1f600}", "<b/>", "</p>", "\n", "<p a=\"\u{20ac}\">\u{e9}</p>", "<!-- \u{1f600} -->"];
    let bs = [4096usize, 8192, 16384, 24576, 65536];
    v.push(split("read boundaries", format!("each of {} characters and constructs at every place across {} buffer boundaries, with reads as large as asked for, and of 1000, 4096 and 8191 bytes", cs.len(), bs.len()), cs.len() * bs.len(), 1, move |i, cx| {
        let (c, b) = (cs[i % cs.len()], bs[i / cs.len()]);
        for before in 0..=c.len() + 1 {
            for tail in ["", "tail\u{e9}"] {
                let mut s = "y".repeat(b - before);
                s.push_str(c);
                s.push_str(tail);
                for r in [vec![], vec![1000; 80], vec![4096; 20], vec![8191; 20]] {
                    cx.case(|| format!("{} bytes of text, {c:?}, {tail:?} in reads of {:?}", b - before, r.first()), |rec| split_load(s.as_bytes(), r.clone(), None, rec));
                }
            }
        }
    }));
    // invalid bytes at each place of longer files
    v.push(split("invalid bytes", "each kind of invalid byte sequence at every place of a 40 byte document and around the buffer boundaries, with reads of 1, 3 and as many bytes as asked for", 60, 2, move |i, cx| {
        let doc = "<p class=\"\u{e9}\">\u{20ac}<br>\u{1f600}text &lt;</p><!--x-->";
        for bad in [&b"\xff"[..], b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80"] {
            let mut s = doc.as_bytes().to_vec();
            if i >= s.len() + 4 { continue; }
            if i <= s.len() { s.splice(i..i, bad.iter().copied()); } else { let mut t = vec![b'z'; 8192 - (i - s.len())]; t.extend_from_slice(bad); t.extend_from_slice(b"end"); s = t; }
            for r in [vec![], vec![1; 100], vec![3; 40]] {
                for l in [None, Some(5)] {
                    cx.case(|| format!("invalid {bad:?} at {i} in reads of {:?}, limit {l:?}", r.first()), |rec| split_load(&s, r.clone(), l, rec));
                }
            }
        }
    }));
    // sizes
    let sz = Arc::new(sizes(tier.pick(40, 300), tier.pick(65537, 262145)));
    let m = sz.len();
    v.push(split("sizes", format!("files of each of {m} sizes, of one, two, three and four byte characters and of elements, limits at and below the size"), m, 2, move |i, cx| {
        let n = sz[i];
        for (p, c) in [("", "x"), ("", "\u{e9}"), ("x", "\u{20ac}"), ("xy", "\u{1f600}"), ("", "<a>\n</a>"), ("\u{e9}", "<br>"), ("", "\u{20ac}\n"), ("<a>", "\u{1f600}")] {
            let mut s = String::from(p);
            while s.len() < n { s.push_str(c); }
            for l in [None, Some(s.len()), s.len().checked_sub(1)] {
                cx.case(|| format!("{} bytes of {c:?} after {p:?}, limit {l:?}", s.len()), |rec| split_load(s.as_bytes(), vec![], l, rec));
            }
        }
    }));
    // not a regular file, and no size known before it is read
    let sz = Arc::new(sizes(tier.pick(40, 300), 60000));
    let (m, k) = (sz.len(), docs.len());
    v.push(split("pipes", format!("{k} short contents and contents of {m} sizes from a pipe, with reads as large as asked for, of 1, 5 and 4096 bytes, limits at and below the size"), m + k, 2, move |i, cx| {
        let mut all = vec![];
        if i < k { all.push(docs[i].clone()); }
        else { for c in ["x", "\u{1f600}", "<a>\n</a>", "\u{20ac}\n"] { let mut s = String::new(); while s.len() < sz[i - k] { s.push_str(c); } all.push(s.into_bytes()); } }
        for s in all {
            for r in [vec![], vec![1; 100], vec![5; 40], vec![4096; 16]] {
                for l in [None, Some(s.len()), s.len().checked_sub(1)] {
                    cx.case(|| format!("{} bytes {:?} from a pipe in reads of {:?}, limit {l:?}", s.len(), String::from_utf8_lossy(&s[..s.len().min(40)]), r.first()), |rec| pipe_load(&s, r.clone(), l, rec));
                }
            }
        }
    }));
    v.push(split("files that cannot be read", "missing file, missing directory, directory, empty path, path with a NUL, a file used as a directory; with and without limits", 6 * 4, 8, move |i, cx| {
        let l = [None, Some(0), Some(1), Some(usize::MAX)][i % 4];
        cx.case(|| format!("unreadable file, kind {}, limit {l:?}", i / 4), move |rec| {
            rec.step(1);
            let f = Scratch::file(b"x");
            let d = Scratch::dir_();
            let gone = Scratch::nothing();
            let path = match i / 4 { 0 => gone.path.clone(), 1 => gone.path.join("x"), 2 => d.path.clone(), 3 => PathBuf::new(), 4 => PathBuf::from("a\0b"), _ => f.path.join("y") };
            let mut o = ParseOptions::default().max_stack_depth(3);
            if let Some(l) = l { o = o.max_input_len(l); }
            let (p, os, e) = match load(&path, o) {
                Ok(_) => return Err("accepted".into()),
                Err(FileError::Open { path: p, error }) if i / 4 != 2 => (p.clone(), error.to_string(), FileError::Open { path: p, error }),
                Err(FileError::Read { path: p, error }) if i / 4 == 2 => (p.clone(), error.to_string(), FileError::Read { path: p, error }),
                Err(e) => return Err(format!("wrong error {e:?}")),
            };
            rec.state(&format!("{} {os}", i / 4));
            if p != path { return Err(format!("the error names {p:?}")); }
            if !e.to_string().contains(&path.display().to_string()) { return Err(format!("message {:?}", e.to_string())); }
            match e.cause() { Some(c) if c.to_string() == os => Ok(()), c => Err(format!("cause {c:?}")) }
        })
    }));
    v
}
