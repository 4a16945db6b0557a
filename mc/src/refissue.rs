//! Reference model: the issues that reading a source text reports.
//! Character level here; the token level is in reftok.rs, which calls `emit`.
use crate::refchar::*;
use crate::spec_tables::{ASCII, COMMON};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::OnceLock;
use wolfram_parser::issue::{IssueTag as I, Severity as S};
use wolfram_parser::read::Escape;

/// What a code action does; texts that have several right spellings are given by meaning.
#[derive(Clone, Debug, PartialEq)]
pub enum Do { Insert(String), Replace(String), Delete, /// an escape for this character
    Escape(char), /// the nearest long name, after this prefix
    Nearest(&'static str, String) }
#[derive(Clone, Debug, PartialEq)]
pub struct Is { pub tag: I, pub sev: S, pub s: usize, pub e: usize, pub conf: u32, pub acts: Vec<(Do, usize, usize)> }
thread_local! { static LOG: RefCell<Option<Vec<Is>>> = const { RefCell::new(None) } }
pub fn logging() -> bool { LOG.with(|l| l.borrow().is_some()) }
pub fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<Is>) {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
    let r = f();
    (r, LOG.with(|l| l.borrow_mut().take().unwrap()))
}
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    let v = LOG.with(|l| l.borrow_mut().take());
    let r = f();
    LOG.with(|l| *l.borrow_mut() = v);
    r
}
pub fn emit(tag: I, sev: S, s: usize, e: usize, conf: u32, acts: Vec<(Do, usize, usize)>) {
    LOG.with(|l| if let Some(v) = l.borrow_mut().as_mut() {
        let i = Is { tag, sev, s, e, conf, acts };
        if !v.contains(&i) { v.push(i) }
    })
}
/// How a character is being read.
#[derive(Clone, Copy, Debug)]
pub struct How { /// in a string or comment
    pub quoted: bool, /// undecodable escapes are reported
    pub report: bool }

/// Characters that are likely to be mistakes.
pub fn strange(c: char) -> bool {
    match c as u32 {
        0..=0x7f => ascii_control(c) && c != '\x1b',
        0x200b..=0x200d | 0x2018 | 0x2019 | 0x201c | 0x201d | 0x2061 | 0x2063 | 0x2064 | 0x2192 | 0x279d | 0x29f4 | 0xf3a2 | 0xf76d => true,
        0x80..=0x9f | 0xf0000..=0xffffd | 0x100000..=0x10fffd => true,
        _ => false,
    }
}
fn ascii_control(c: char) -> bool { c.is_ascii_control() && !matches!(c, '\t' | '\n' | '\r') }
fn blank(c: char) -> bool { matches!(c, '\x0b' | '\x0c') || class(Char(c)) == Class::White }
/// letterlike, not ASCII, and not in common use
pub fn rare(p: CodePoint) -> bool {
    match p { Char(c) if c as u32 >= 0x80 => class(p) == Class::Letter && COMMON.binary_search(&(c as u32)).is_err(), _ => false }
}
fn ascii(c: char) -> &'static [&'static str] {
    static N: OnceLock<HashMap<u32, &'static [&'static str]>> = OnceLock::new();
    N.get_or_init(|| ASCII.iter().copied().collect()).get(&(c as u32)).copied().unwrap_or(&[])
}
/// Replacements of characters that look like other characters.
pub fn lookalike(p: CodePoint, esc: Escape, s: usize, e: usize) -> Vec<(Do, usize, usize)> {
    let Char(c) = p else { return vec![] };
    let (to, name) = match c as u32 {
        0xf3a2 => ('\u{2060}', "NoBreak"), 0x2192 | 0x279d => ('\u{f522}', "Rule"), 0x29f4 => ('\u{f51f}', "RuleDelayed"), 0x2061 => ('\u{f76d}', "InvisibleApplication"),
        0x2063 => ('\u{f765}', "InvisibleComma"), 0x2064 => ('\u{f39e}', "ImplicitPlus"), 0x200b => ('\u{f360}', "InvisibleSpace"), _ => return vec![],
    };
    let mut v = vec![(Do::Replace(if esc == Escape::None { to.to_string() } else { format!("\\[{name}]") }), s, e)];
    if c == '\u{2061}' { v.push((Do::Delete, s, e)) }
    v
}
fn with_ascii(mut v: Vec<(Do, usize, usize)>, c: char, s: usize, e: usize) -> Vec<(Do, usize, usize)> {
    v.extend(ascii(c).iter().map(|r| (Do::Replace(r.to_string()), s, e)));
    v
}
/// One source character.
pub fn source(b: &[u8], i: usize, h: How) {
    let (p, n) = sc(b, i);
    match p {
        Char('\r') => if h.report { emit(I::UnexpectedCarriageReturn, S::Warning, i + 1, i + 1, 100, vec![]) },
        Unsafe1ByteUtf8Sequence | Unsafe2ByteUtf8Sequence | Unsafe3ByteUtf8Sequence => {
            let tag = match &b[i..i + n] { [0xef, 0xbb, 0xbf] => I::BOM, [0xed, _, _] => I::StraySurrogate, _ => I::IncompleteUTF8Sequence };
            emit(tag, S::Fatal, i, i + n, 100, vec![]);
        }
        Char(c) if ascii_control(c) || (!c.is_ascii() && strange(c)) => {
            let mut acts = lookalike(p, Escape::None, i, i + n);
            acts.push((Do::Escape(c), i, i + n));
            let acts = with_ascii(acts, c, i, i + n);
            if h.quoted { emit(I::UnexpectedCharacter, S::Remark, i, i + n, 95, acts) } else if !blank(c) { emit(I::UnexpectedCharacter, S::Warning, i, i + n, 95, acts) }
        }
        Char(c) if !c.is_ascii() => emit(I::NonASCIICharacter, S::Remark, i, i + n, 100, with_ascii(vec![(Do::Escape(c), i, i + n)], c, i, i + n)),
        _ => {}
    }
}
fn escaped(p: CodePoint, esc: Escape, s: usize, e: usize, h: How) {
    let Char(c) = p else { return };
    if !strange(c) || blank(c) { return }
    emit(I::UnexpectedCharacter, if h.quoted { S::Remark } else { S::Warning }, s, e, if c.is_ascii() { 95 } else { 85 }, with_ascii(lookalike(p, esc, s, e), c, s, e));
}
fn fatal(s: usize, e: usize, acts: Vec<(Do, usize, usize)>) { emit(I::UnhandledCharacter, S::Fatal, s, e, 100, acts) }
fn text(b: &[u8], s: usize, e: usize) -> String { String::from_utf8_lossy(&b[s..e]).into_owned() }
/// The end of the run of letters and digits (of any script) that starts at `k`.
fn alnum(b: &[u8], mut k: usize, h: How) -> usize {
    while k < b.len() { match sc(b, k) { (Char(c), n) if c.is_alphanumeric() => { source(b, k, h); k += n } _ => break } }
    k
}
fn known(b: &[u8], s: usize, e: usize) -> bool { names().by_name.contains_key(&b[s..e]) }
/// One character, escapes decoded.
pub fn character(b: &[u8], i: usize, h: How) {
    source(b, i, h);
    if b.get(i) != Some(&b'\\') { return }
    let j = i + 1;
    source(b, j, h);
    let Some(&c) = b.get(j) else { return };
    let upper = |k: usize| b.get(k).map_or(false, |c| c.is_ascii_uppercase());
    let w = wc(b, i);
    match c {
        b'<' | b'>' | b'b' | b'f' => emit(I::UnexpectedCharacter, S::Remark, i, j + 1, 95, vec![]),
        b'\\' => { // "\\[Name]" is an escaped backslash, but looks like a long name
            source(b, j + 1, h);
            if b.get(j + 1) != Some(&b'[') { return }
            source(b, j + 2, h);
            if !upper(j + 2) { return }
            let k = alnum(b, j + 2, h);
            source(b, k, h);
            if b.get(k) != Some(&b']') { return }
            if known(b, j + 2, k) {
                let x = wc(b, j);
                escaped(x.pt, x.esc, j, k + 1, h)
            } else { emit(I::UnrecognizedLongName, S::Error, i, k + 1, 75, vec![(Do::Nearest("\\\\", text(b, j + 2, k)), i, k + 1)]) }
        }
        b'[' => {
            source(b, j + 1, h);
            if !upper(j + 1) {
                let k = if b.get(j + 1) == Some(&b']') { source(b, j + 2, h); j + 2 } else { j + 1 };
                if h.report { fatal(i, k, vec![(Do::Replace(format!("\\\\[{}", text(b, j + 1, k))), i, k)]) }
                return;
            }
            let k = alnum(b, j + 1, h);
            source(b, k, h);
            let here = known(b, j + 1, k);
            match (b.get(k) == Some(&b']'), here) {
                (true, true) => if h.report { escaped(w.pt, w.esc, i, k + 1, h) },
                (true, false) => if h.report { fatal(i, k + 1, vec![(Do::Nearest("\\", text(b, j + 1, k)), i, k + 1)]) },
                (false, _) => if h.report { fatal(i, k, if here { vec![(Do::Insert("]".into()), k, k)] } else { vec![] }) },
            }
        }
        b':' | b'.' | b'|' | b'0'..=b'7' => {
            let (s, n, radix) = match c { b':' => (j + 1, 4, 16), b'.' => (j + 1, 2, 16), b'|' => (j + 1, 6, 16), _ => (j, 3, 8) };
            let mut k = s;
            while k < s + n && b.get(k).map_or(false, |c| (*c as char).is_digit(radix)) { k += 1 }
            if k < s + n { source(b, k, h) }
            if w.esc != Escape::None { escaped(w.pt, w.esc, i, k, h); return }
            if h.report { fatal(i, k, vec![(Do::Replace(format!("\\\\{}", text(b, j, k))), i, k)]) }
        }
        _ if w.esc != Escape::None => {}
        c if h.report => {
            let (p, n) = sc(b, j);
            let e = j + n;
            let ch = c as char;
            let r = |s: String| (Do::Replace(s), i, e);
            if ch.is_ascii_uppercase() {
                let k = alnum(b, j, h);
                source(b, k, h);
                if b.get(k) == Some(&b']') && known(b, j, k) { return fatal(i, k + 1, vec![(Do::Insert("[".into()), j, j)]) }
                let mut v = vec![r(format!("\\[{ch}XXX]"))];
                if ch.is_ascii_hexdigit() { v.push(r(format!("\\:{ch}XXX"))) }
                fatal(i, e, v)
            } else if ch.is_ascii_hexdigit() { fatal(i, e, vec![r(format!("\\:{ch}xxx"))]) }
            else if class(p) == Class::Unsafe {}
            else if (' '..='~').contains(&ch) { fatal(i, e, vec![r(format!("\\\\{ch}"))]) }
            else { fatal(i, e, vec![]) }
        }
        _ => {}
    }
}
fn distance(a: &[char], b: &[u8]) -> usize {
    let mut row: Vec<usize> = (0..=b.len()).collect();
    for i in 0..a.len() {
        let mut diag = row[0];
        row[0] = i + 1;
        for j in 0..b.len() {
            let x = (diag + (a[i] != b[j] as char) as usize).min(row[j] + 1).min(row[j + 1] + 1);
            diag = row[j + 1];
            row[j + 1] = x;
        }
    }
    row[b.len()]
}
/// The long names that are nearest to `n`, if any is near enough to be suggested.
pub fn nearest(n: &str) -> Vec<&'static str> {
    let mut best = (3, vec![]);
    let n: Vec<char> = n.chars().collect();
    for k in names().by_name.keys() {
        if k.len().abs_diff(n.len()) > 2 { continue }
        let d = distance(&n, k);
        if d < best.0 { best = (d, vec![]) }
        if d == best.0 && d < 3 { best.1.push(std::str::from_utf8(k).unwrap()) }
    }
    best.1
}
