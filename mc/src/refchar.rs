//! Reference model, layer 1: bytes -> source characters -> Wolfram characters.
//! Written from the language definition, independently of the implementation's readers.
use crate::spec_tables::{Cat, LONGNAMES};
use std::collections::HashMap;
use std::sync::OnceLock;
use wolfram_parser::source::SourceCharacter as SC;
use wolfram_parser::read::Escape;

macro_rules! points { ($($v:ident)*) => {
    /// Extended code points of the model.
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum CodePoint { Char(char), $($v),* }
    impl CodePoint { pub fn imp(self) -> SC { match self { Char(c) => SC::Char(c), $($v => SC::$v),* } } }
} }
points!(EndOfFile LinearSyntax_Space StringMeta_Open StringMeta_Close StringMeta_DoubleQuote StringMeta_Backslash StringMeta_Backspace StringMeta_FormFeed StringMeta_LineFeed StringMeta_CarriageReturn StringMeta_Tab CRLF Unsafe1ByteUtf8Sequence Unsafe2ByteUtf8Sequence Unsafe3ByteUtf8Sequence LineContinuation_LineFeed LineContinuation_CarriageReturn LineContinuation_CRLF);
pub use CodePoint::*;

/// One source character: code point and byte length.
pub fn sc(b: &[u8], i: usize) -> (CodePoint, usize) {
    let Some(&c) = b.get(i) else { return (EndOfFile, 0) };
    if c < 0x80 {
        if c == b'\r' && b.get(i + 1) == Some(&b'\n') { return (CRLF, 2) }
        return (Char(c as char), 1);
    }
    let rest = &b[i..b.len().min(i + 4)];
    let n = match std::str::from_utf8(rest) {
        Ok(s) => Ok(s.chars().next().unwrap()),
        Err(e) if e.valid_up_to() > 0 => Ok(std::str::from_utf8(&rest[..e.valid_up_to()]).unwrap().chars().next().unwrap()),
        Err(e) => Err(e.error_len().unwrap_or(rest.len())),
    };
    match n {
        Ok('\u{feff}') => (Unsafe3ByteUtf8Sequence, 3),
        Ok(c) => (Char(c), c.len_utf8()),
        // a surrogate in UTF-8 form is reported as one 3-byte unit
        Err(_) if rest.len() >= 3 && rest[0] == 0xed && (0xa0..=0xbf).contains(&rest[1]) && (0x80..=0xbf).contains(&rest[2]) => (Unsafe3ByteUtf8Sequence, 3),
        Err(1) if rest.len() >= 2 && rest[0] == 0xed && (0xa0..=0xbf).contains(&rest[1]) => (Unsafe2ByteUtf8Sequence, 2),
        Err(1) => (Unsafe1ByteUtf8Sequence, 1),
        Err(2) => (Unsafe2ByteUtf8Sequence, 2),
        Err(_) => (Unsafe3ByteUtf8Sequence, 3),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Wc { pub pt: CodePoint, pub esc: Escape, pub end: usize }

pub struct Names { pub by_name: HashMap<&'static [u8], (u32, Cat)>, pub class: HashMap<char, Cat> }
pub fn names() -> &'static Names {
    static N: OnceLock<Names> = OnceLock::new();
    N.get_or_init(|| {
        let mut n = Names { by_name: HashMap::new(), class: HashMap::new() };
        for (name, cat, cp) in LONGNAMES {
            n.by_name.insert(name.as_bytes(), (*cp, *cat));
            n.class.insert(char::from_u32(*cp).unwrap(), *cat);
        }
        n
    })
}

fn quoted(c: char) -> CodePoint {
    match c { '"' => StringMeta_DoubleQuote, '\\' => StringMeta_Backslash, c => Char(c) }
}
fn digits(b: &[u8], i: usize, n: usize, radix: u32) -> Option<u32> {
    let mut v = 0;
    for k in 0..n { v = v * radix + (*b.get(i + k)? as char).to_digit(radix)?; }
    Some(v)
}
pub const LINEAR: &[(u8, char)] = &[
    (b')', '\u{f7c0}'), (b'!', '\u{f7c1}'), (b'@', '\u{f7c2}'), (b'%', '\u{f7c5}'), (b'^', '\u{f7c6}'), (b'&', '\u{f7c7}'),
    (b'*', '\u{f7c8}'), (b'(', '\u{f7c9}'), (b'_', '\u{f7ca}'), (b'+', '\u{f7cb}'), (b'/', '\u{f7cc}'), (b'`', '\u{f7cd}'),
];
/// One decoded character (line continuations are characters here).
pub fn wc(b: &[u8], i: usize) -> Wc {
    let (pt, n) = sc(b, i);
    let plain = Wc { pt, esc: Escape::None, end: i + n };
    if pt != Char('\\') { return plain }
    let j = i + 1;
    let one = |pt, esc, end| Wc { pt, esc, end };
    let Some(&c) = b.get(j) else { return plain };
    let single = |pt| one(pt, Escape::Single, j + 1);
    match c {
        b'\n' => single(LineContinuation_LineFeed),
        b'\r' if b.get(j + 1) == Some(&b'\n') => one(LineContinuation_CRLF, Escape::Single, j + 2),
        b'\r' => single(LineContinuation_CarriageReturn),
        b'"' => single(StringMeta_DoubleQuote),
        b'\\' => single(StringMeta_Backslash),
        b'<' => single(StringMeta_Open),
        b'>' => single(StringMeta_Close),
        b'b' => single(StringMeta_Backspace),
        b'f' => single(StringMeta_FormFeed),
        b'n' => single(StringMeta_LineFeed),
        b'r' => single(StringMeta_CarriageReturn),
        b't' => single(StringMeta_Tab),
        b' ' => single(LinearSyntax_Space),
        b'[' => {
            let mut k = j + 1;
            while b.get(k).map_or(false, |c| c.is_ascii_alphanumeric()) { k += 1 }
            if b.get(k) != Some(&b']') { return plain }
            match names().by_name.get(&b[j + 1..k]) {
                None => plain,
                Some((cp, cat)) => {
                    let esc = if *cat == Cat::Raw { Escape::Raw } else { Escape::LongName };
                    one(quoted(char::from_u32(*cp).unwrap()), esc, k + 1)
                }
            }
        }
        b':' | b'.' | b'|' | b'0'..=b'7' => {
            let (s, n, radix, esc) = match c { b':' => (j + 1, 4, 16, Escape::Hex4), b'.' => (j + 1, 2, 16, Escape::Hex2), b'|' => (j + 1, 6, 16, Escape::Hex6), _ => (j, 3, 8, Escape::Octal) };
            match digits(b, s, n, radix).and_then(char::from_u32) { Some(c) => one(quoted(c), esc, s + n), None => plain }
        }
        c => match LINEAR.iter().find(|x| x.0 == c) { Some(x) => single(Char(x.1)), None => plain },
    }
}
pub fn is_lc(p: CodePoint) -> bool { matches!(p, LineContinuation_LineFeed | LineContinuation_CarriageReturn | LineContinuation_CRLF) }
pub fn is_blank(p: CodePoint) -> bool { matches!(p, Char(' ' | '\t' | '\x0b' | '\x0c')) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class { Ascii, Eof, Unsafe, Linear, Uninterpretable, White, Newline, Punct, Meta, Letter }
/// Class of a decoded character that is not printable-ASCII syntax.
pub fn class(p: CodePoint) -> Class {
    match p {
        EndOfFile => Class::Eof,
        Unsafe1ByteUtf8Sequence | Unsafe2ByteUtf8Sequence | Unsafe3ByteUtf8Sequence => Class::Unsafe,
        LinearSyntax_Space => Class::Linear,
        CRLF => Class::Newline,
        Char(c) if (c as u32) < 0x80 => Class::Ascii,
        Char(c) if LINEAR.iter().any(|x| x.1 == c) => Class::Linear,
        Char('\u{f3a2}') => Class::White, // \[COMPATIBILITYNoBreak]
        Char(c) => match names().class.get(&c) {
            Some(Cat::Uninterpretable) => Class::Uninterpretable,
            Some(Cat::Whitespace) => Class::White,
            Some(Cat::Newline) => Class::Newline,
            Some(Cat::Punctuation) => Class::Punct,
            _ => Class::Letter,
        },
        _ => Class::Meta,
    }
}
pub fn is_letterlike(p: CodePoint) -> bool {
    match p {
        Char(c @ '\0'..='\x7f') => c.is_ascii_alphabetic() || c == '$' || (c < ' ' && !matches!(c, '\x07' | '\t' | '\n' | '\x0b' | '\x0c' | '\r')),
        p => class(p) == Class::Letter,
    }
}
