//! Reference model, layer 2: the tokenizer, as a pure function (input, offset, mode) -> token.
use crate::refchar::*;
use crate::refissue::{self, emit, Do, How};
use crate::spec_tables::PUNCT;
use std::collections::HashMap;
use std::sync::OnceLock;
use wolfram_parser::issue::{IssueTag as I, Severity as S};
use wolfram_parser::read::Escape;
use wolfram_parser::tokenize::TokenKind as T;

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Mode { pub internal_nl: bool, pub slot: bool, pub int_only: bool }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RTok { pub kind: T, pub off: usize, pub end: usize, pub simple_lc: bool, pub complex_lc: bool, pub nl: bool, pub tab: bool }

fn punct() -> &'static HashMap<u32, T> {
    static N: OnceLock<HashMap<u32, T>> = OnceLock::new();
    N.get_or_init(|| PUNCT.iter().copied().collect())
}
/// Multi-character ASCII operators, by first character, longest first where one is a prefix of another.
/// `!d` after a spelling means: only if no digit follows.
pub const OPS: &[(&str, T)] = &[
    ("::[", T::ColonColonOpenSquare), ("::", T::ColonColon), (":=", T::ColonEqual), (":>", T::ColonGreater), (":", T::Colon),
    ("...", T::DotDotDot), ("..", T::DotDot), (".", T::Dot),
    ("===", T::EqualEqualEqual), ("==", T::EqualEqual), ("=!=", T::EqualBangEqual), ("=", T::Equal),
    ("___", T::UnderUnderUnder), ("__", T::UnderUnder), ("_.", T::UnderDot), ("_", T::Under),
    ("<|", T::LessBar), ("<<", T::LessLess), ("<>", T::LessGreater), ("<=", T::LessEqual), ("<->", T::LessMinusGreater), ("<", T::Less),
    (">>>", T::GreaterGreaterGreater), (">>", T::GreaterGreater), (">=", T::GreaterEqual), (">", T::Greater),
    ("->", T::MinusGreater), ("--", T::MinusMinus), ("-=", T::MinusEqual), ("-", T::Minus),
    ("|>", T::BarGreater), ("||", T::BarBar), ("|->", T::BarMinusGreater), ("|", T::Bar),
    (";;", T::SemiSemi), (";", T::Semi), ("!=", T::BangEqual), ("!!", T::BangBang), ("!", T::Bang),
    ("##", T::HashHash), ("#", T::Hash), ("&&", T::AmpAmp), ("&", T::Amp),
    ("/@", T::SlashAt), ("/;", T::SlashSemi), ("//.", T::SlashSlashDot), ("//@", T::SlashSlashAt), ("//=", T::SlashSlashEqual), ("//", T::SlashSlash),
    ("/:", T::SlashColon), ("/=", T::SlashEqual), ("/*", T::SlashStar), ("/.", T::SlashDot), ("/", T::Slash),
    ("@@@", T::AtAtAt), ("@@", T::AtAt), ("@*", T::AtStar), ("@", T::At), ("++", T::PlusPlus), ("+=", T::PlusEqual), ("+", T::Plus),
    ("~~", T::TildeTilde), ("~", T::Tilde), ("??", T::QuestionQuestion), ("?", T::Question),
    ("*=", T::StarEqual), ("**", T::StarStar), ("*)", T::Error_UnexpectedCommentCloser), ("*", T::Star),
    ("^:=", T::CaretColonEqual), ("^:", T::Error_ExpectedEqual), ("^=", T::CaretEqual), ("^", T::Caret),
    (",", T::Comma), ("'", T::SingleQuote), (")", T::CloseParen), ("[", T::OpenSquare), ("]", T::CloseSquare), ("{", T::OpenCurly), ("}", T::CloseCurly),
];

pub struct Lx<'a> { pub b: &'a [u8], pub p: usize, start: usize, m: Mode, in_str: bool, t: RTok, /* issues are recorded */ log: bool, /* bad escapes are reported */ report: bool, tag: bool }
impl<'a> Lx<'a> {
    /// Next decoded character, line continuations (with the blanks after them) skipped.
    fn at(&self, mut p: usize) -> (Wc, bool, bool) {
        let (mut lc, mut tab) = (false, false);
        loop {
            let c = wc(self.b, p);
            if self.log { refissue::character(self.b, p, self.how()) }
            if !is_lc(c.pt) { return (c, lc, tab) }
            lc = true;
            p = c.end;
            loop { let c = wc(self.b, p); if self.log { refissue::character(self.b, p, self.how()) } if !is_blank(c.pt) { break } tab |= c.pt == Char('\t'); p = c.end; }
        }
    }
    fn how(&self) -> How { How { quoted: self.in_str, report: self.report } }
    fn at_space(&self, at: usize) { if self.log { emit(I::Ambiguous, S::Formatting, at, at, 100, vec![(Do::Insert(" ".into()), at, at)]) } }
    fn unexpected(&self, tag: I, c: Wc, s: usize, conf: u32) { if self.log { emit(tag, S::Warning, s, self.p, conf, refissue::lookalike(c.pt, c.esc, s, self.p)) } }
    /// a letterlike character of a name, read from `s`
    fn letter(&self, c: Wc, s: usize) {
        if c.pt == Char('$') { if self.m.slot { emit(I::UndocumentedSlotSyntax, S::Warning, s, self.p, 33, vec![]) } }
        else if matches!(c.pt, Char('\0'..='\x1f')) { self.unexpected(I::UnexpectedLetterlikeCharacter, c, s, 85) }
        else if refissue::rare(c.pt) { self.unexpected(I::UnexpectedLetterlikeCharacter, c, s, 80) }
        else if self.tag && !matches!(c.pt, Char('a'..='z' | 'A'..='Z')) { emit(I::UnexpectedCharacter, S::Warning, s, self.p, 85, vec![]) }
    }
    fn peek(&self) -> Wc { self.at(self.p).0 }
    fn pk(&self) -> CodePoint { self.peek().pt }
    fn pch(&self) -> char { match self.pk() { Char(c) => c, _ => '\0' } }
    fn next(&mut self) -> Wc {
        let (c, lc, tab) = self.at(self.p);
        if lc { if self.in_str { self.t.complex_lc = true; self.t.tab |= tab } else { self.t.simple_lc = true } }
        self.p = c.end;
        c
    }
    fn tok(&self, kind: T) -> RTok { RTok { kind, off: self.start, end: self.p, ..self.t } }
    fn empty(&self, kind: T) -> RTok { RTok { kind, off: self.start, end: self.start, ..self.t } }
    fn digits(&mut self) -> usize { let mut n = 0; while self.pch().is_ascii_digit() { self.next(); n += 1 } n }
    fn newline(&self) -> RTok { self.tok(if self.m.internal_nl { T::InternalNewline } else { T::ToplevelNewline }) }

    fn string(&mut self) -> RTok {
        if self.log && self.m.slot { emit(I::UndocumentedSlotSyntax, S::Warning, self.start, self.p, 33, vec![]) }
        self.in_str = true;
        loop {
            match self.next().pt {
                Char('"') => return self.tok(T::String),
                EndOfFile => return self.tok(T::Error_UnterminatedString),
                Char('\n' | '\r') | CRLF => self.t.nl = true,
                Char('\t') => self.t.tab = true,
                _ => {}
            }
        }
    }
    fn comment(&mut self) -> RTok {
        // self.p is after "(*"
        let b = self.b; let mut depth = 1usize; let mut i = self.p;
        let q = How { quoted: true, report: self.report };
        while i < b.len() {
            if b[i..].starts_with(b"(*") { depth += 1; i += 2; continue }
            if b[i..].starts_with(b"*)") { depth -= 1; i += 2; if depth == 0 { self.p = i; return self.tok(T::Comment) } continue }
            if self.log { refissue::source(b, i, q); let n = sc(b, i).1; if n > 1 && b[i] >= 0x80 { i += n; continue } }
            match b[i] { b'\n' | b'\r' => self.t.nl = true, b'\t' => self.t.tab = true, _ => {} }
            i += 1;
        }
        self.p = i;
        self.tok(T::Error_UnterminatedComment)
    }
    fn segment(&mut self) -> bool { // rest of a symbol segment; true if it was ended by a consumed backtick
        loop {
            let p = self.pk();
            if is_letterlike(p) { let s = self.p; let c = self.next(); if self.log { self.letter(c, s) } continue }
            if matches!(p, Char('0'..='9')) { self.next(); continue }
            if p == Char('`') { self.next(); return true }
            return false;
        }
    }
    fn symbol(&mut self, first: Wc) -> RTok {
        let mut tick = if first.pt == Char('`') { true } else { if self.log { self.letter(first, self.start) } self.segment() };
        while tick {
            if self.log && self.m.slot { emit(I::UndocumentedSlotSyntax, S::Warning, self.start, self.p, 33, vec![]) }
            if !is_letterlike(self.pk()) { return self.tok(T::Error_ExpectedLetterlike) }
            let s = self.p;
            let c = self.next();
            if self.log { self.letter(c, s) }
            tick = self.segment();
        }
        self.tok(if self.m.slot { T::String } else { T::Symbol })
    }
    /// `first` ('.' or a digit) has been consumed.
    fn number(&mut self, first: char) -> RTok {
        let mut bad = false; let mut real = false; let mut base = 0u32; let mut neg = false; let mut expnz = false;
        macro_rules! done { () => { return self.tok(if bad { T::Error_Number } else if real { T::Real } else if neg && expnz { T::Rational } else { T::Integer }) } }
        macro_rules! err { () => { return self.tok(T::Error_Number) } }
        let mut int_end = self.start; // where the number ends if a dot turns out not to belong to it
        let mut have_int = false;
        let mut dot_at = self.start;
        let mut dot = first == '.';
        if !dot {
            let mut v = first.to_digit(10).unwrap() as u64;
            while let Some(d) = self.pch().to_digit(10) { self.next(); v = (v * 10 + d as u64).min(1000) }
            have_int = true; int_end = self.p;
            if self.m.int_only { if self.pch() == '.' { self.at_space(self.p) } done!() }
            match self.pch() {
                '^' => {
                    let save = (self.p, self.t);
                    self.next();
                    if self.pch() != '^' { self.p = save.0; done!() }
                    self.next();
                    if v < 100 { base = v as u32 }
                    bad = !(2..=36).contains(&v);
                    have_int = false;
                    let c = self.pch();
                    dot_at = self.p;
                    if c.is_ascii_alphanumeric() {
                        have_int = self.radix_digits(base, &mut bad) > 0;
                        int_end = self.p;
                        dot_at = self.p;
                        match self.pch() { '.' => { dot = true; self.next(); } '*' | '`' => {} _ => done!() }
                    } else if c == '.' { int_end = self.p; dot = true; self.next(); } else { if self.pk() == EndOfFile { self.next(); } err!() }
                }
                '.' => { dot_at = self.p; self.next(); dot = true }
                '*' | '`' => {}
                _ => done!(),
            }
        }
        if dot {
            if self.pch() == '.' { // a  ..  operator follows
                self.p = int_end;
                self.at_space(dot_at);
                if !have_int { err!() }
                done!()
            }
            let n = self.radix_digits(base, &mut bad);
            if n > 0 { self.two_points() }
            if n == 0 && !have_int { err!() }
            real = true;
        }
        if self.pch() == '`' {
            self.next();
            real = true;
            let acc = self.pch() == '`';
            if acc { self.next(); }
            let mut sign = false; let sign_at = self.p;
            if matches!(self.pch(), '+' | '-') {
                self.next();
                if !(self.pch().is_ascii_digit() || self.pch() == '.') { if acc { err!() } self.p = sign_at; self.at_space(sign_at); done!() }
                sign = true;
                if !acc { emit(I::UnexpectedSign, S::Warning, sign_at, sign_at, 95, vec![]) }
            }
            let mut have = self.digits() > 0;
            if have && !matches!(self.pch(), '.' | '*') { done!() }
            if self.pch() == '.' {
                let dot_at = self.p;
                self.next();
                if !sign && !have && !self.pch().is_ascii_digit() {
                    if acc { err!() }
                    if matches!(self.pch(), '+' | '-') { self.next(); err!() }
                    self.p = dot_at; self.at_space(dot_at); done!()
                }
                if self.pch() == '.' {
                    self.p = dot_at;
                    self.at_space(dot_at);
                    if have { done!() }
                    if acc { err!() }
                    self.p = sign_at; self.at_space(sign_at); done!()
                }
                if self.radix_digits(0, &mut bad) > 0 { have = true; self.two_points() }
                if !have { err!() }
            }
            if acc && !have { err!() }
        }
        if self.pch() != '*' { done!() }
        let star_at = self.p;
        self.next();
        if self.pch() != '^' { self.p = star_at; done!() }
        self.next();
        match self.pch() { '-' => { neg = true; self.next(); } '+' => { self.next(); } _ => {} }
        if !self.pch().is_ascii_digit() { err!() }
        while self.pch() == '0' { self.next(); }
        expnz = self.digits() > 0;
        if self.pch() != '.' { done!() }
        let dot_at = self.p;
        self.next();
        if self.pch() == '.' { self.p = dot_at; self.at_space(dot_at); done!() }
        if self.radix_digits(base, &mut bad) > 0 { self.two_points() }
        err!()
    }
    /// a fraction has been read: a point directly after it starts another number
    fn two_points(&self) { if self.log && self.pch() == '.' { emit(I::UnexpectedImplicitTimes, S::Error, self.p, self.p, 99, vec![(Do::Insert("*".into()), self.p, self.p)]) } }
    fn radix_digits(&mut self, base: u32, bad: &mut bool) -> usize {
        let mut n = 0;
        loop {
            let c = self.pch();
            if base == 0 { if !c.is_ascii_digit() { break } } else if let Some(d) = c.to_digit(36) { *bad |= d >= base } else { break }
            self.next(); n += 1;
        }
        n
    }
    fn bad_escape(&mut self) -> RTok {
        match self.next().pt {
            Char('[') => {
                if matches!(self.next().pt, Char('A'..='Z')) {
                    while self.pch().is_ascii_alphanumeric() { self.next(); }
                    if self.pch() == ']' { self.next(); }
                }
            }
            Char(c @ (':' | '.' | '|' | '0'..='7')) => {
                let (n, radix) = match c { ':' => (4, 16), '.' => (2, 16), '|' => (6, 16), _ => (3, 8) };
                for _ in 0..n { if self.pch().to_digit(radix).is_none() { break } self.next(); }
            }
            _ => {}
        }
        self.tok(T::Error_UnhandledCharacter)
    }
    fn op(&mut self, first: char) -> RTok {
        if first == '%' {
            if self.pch() != '%' { return self.tok(T::Percent) }
            while self.pch() == '%' { self.next(); }
            return self.tok(T::PercentPercent);
        }
        let (p0, t0) = (self.p, self.t);
        'ops: for (spell, kind) in OPS {
            let mut cs = spell.chars();
            if cs.next() != Some(first) { continue }
            self.p = p0; self.t = t0;
            let second = self.p;
            for (n, c) in cs.enumerate() {
                if self.pk() != Char(c) {
                    if n == 1 && matches!(*spell, "=!=" | "<->" | "|->") { self.at_space(second) }
                    continue 'ops
                }
                self.next();
            }
            if *spell == "/." && self.pch().is_ascii_digit() { self.at_space(second); continue }
            if self.log && matches!(*spell, "_." | "--" | "|>" | "++") {
                let (at, c) = (self.p, self.pch());
                let space = (Do::Insert(" ".into()), at, at);
                match (*spell, c) {
                    ("_.", '.') => emit(I::UnexpectedDot, S::Error, at, at, 95, vec![space]),
                    ("--", '>') => emit(I::Ambiguous, S::Error, self.start, at, 95, vec![(Do::Replace("-".into()), self.start, at), space]),
                    ("--" | "|>" | "++", '=') => self.at_space(at),
                    _ => {}
                }
            }
            return self.tok(*kind);
        }
        unreachable!("no operator starts with {first:?}")
    }
}

fn start<'a>(b: &'a [u8], off: usize, m: Mode) -> Lx<'a> {
    Lx { b, p: off, start: off, m, in_str: false, log: refissue::logging(), report: !m.slot, tag: false, t: RTok { kind: T::EndOfFile, off, end: off, simple_lc: false, complex_lc: false, nl: false, tab: false } }
}
pub fn lex(b: &[u8], off: usize, m: Mode) -> RTok {
    let mut x = start(b, off, m);
    let c = x.next();
    match c.pt {
        Char(w @ ('\t' | ' ' | '\x0b' | '\x0c')) => { if w > '\n' && w < ' ' { x.unexpected(I::UnexpectedSpaceCharacter, c, off, 95) } x.tok(T::Whitespace) }
        Char('\n' | '\r') => x.newline(),
        Char('\x07' | '\x7f') => x.tok(T::Error_UnhandledCharacter),
        Char('"') => x.string(),
        Char('\\') => x.bad_escape(),
        Char('(') => {
            if c.esc == Escape::None && x.log { refissue::source(b, x.p, x.how()) }
            if c.esc == Escape::None && b.get(x.p) == Some(&b'*') { x.p += 1; return x.comment() }
            x.tok(T::OpenParen)
        }
        Char('.') => if x.pch().is_ascii_digit() { x.number('.') } else { x.op('.') },
        Char(d @ '0'..='9') => x.number(d),
        Char('`') => x.symbol(c),
        p if is_letterlike(p) => x.symbol(c),
        Char(a @ '!'..='~') => x.op(a),
        p => match class(p) {
            Class::Eof => x.tok(T::EndOfFile),
            Class::Unsafe => x.tok(T::Error_UnsafeCharacterEncoding),
            Class::Linear => match p {
                Char('\u{f7c9}') => {
                    let mut depth = 1;
                    loop {
                        match x.next().pt {
                            Char('\u{f7c9}') => depth += 1,
                            Char('\u{f7c0}') => { depth -= 1; if depth == 0 { return x.tok(T::LinearSyntaxBlob) } }
                            EndOfFile => return x.tok(T::Error_UnterminatedLinearSyntaxBlob),
                            _ => {}
                        }
                    }
                }
                Char('\u{f7c0}') => x.tok(T::LinearSyntax_CloseParen),
                Char('\u{f7c1}') => x.tok(T::LinearSyntax_Bang),
                Char('\u{f7c2}') => x.tok(T::LinearSyntax_At),
                Char('\u{f7c5}') => x.tok(T::LinearSyntax_Percent),
                Char('\u{f7c6}') => x.tok(T::LinearSyntax_Caret),
                Char('\u{f7c7}') => x.tok(T::LinearSyntax_Amp),
                Char('\u{f7c8}') => x.tok(T::LinearSyntax_Star),
                Char('\u{f7ca}') => x.tok(T::LinearSyntax_Under),
                Char('\u{f7cb}') => x.tok(T::LinearSyntax_Plus),
                Char('\u{f7cc}') => x.tok(T::LinearSyntax_Slash),
                Char('\u{f7cd}') => x.tok(T::LinearSyntax_BackTick),
                _ => x.tok(T::LinearSyntax_Space),
            },
            Class::Uninterpretable | Class::Meta => x.tok(T::Error_UnhandledCharacter),
            Class::White => { x.unexpected(I::UnexpectedSpaceCharacter, c, off, 85); x.tok(T::Whitespace) }
            Class::Newline => { if p != CRLF { x.unexpected(I::UnexpectedNewlineCharacter, c, off, 85) } x.newline() }
            Class::Punct => { let Char(ch) = p else { unreachable!() }; x.tok(punct()[&(ch as u32)]) }
            Class::Letter | Class::Ascii => unreachable!(),
        },
    }
}
/// The operand of `::` .
pub fn lex_tag(b: &[u8], off: usize) -> RTok {
    let mut x = start(b, off, Mode::default());
    x.tag = true;
    let c = x.next();
    match c.pt {
        Char('"') => x.string(),
        p if is_letterlike(p) => { if x.log { x.letter(c, off) } x.segment(); x.tok(T::String) }
        _ => x.empty(T::Error_ExpectedTag),
    }
}
/// The operand of `<<`, `>>`, `>>>` .
pub fn lex_file(b: &[u8], off: usize) -> RTok {
    let mut x = start(b, off, Mode::default());
    x.report = false;
    let how = x.how();
    let sc = |b: &[u8], i: usize| { if refissue::logging() { refissue::source(b, i, how) } sc(b, i) };
    let (c, n) = sc(b, off);
    x.p = off + n;
    let okc = |c: CodePoint| matches!(c, Char('A'..='Z' | 'a'..='z' | '0'..='9' | '`' | '/' | '.' | '\\' | '!' | '-' | '_' | ':' | '*' | '~' | '?' | '$'));
    match c {
        Char('\n' | '\r') | CRLF => return x.newline(),
        Char(' ' | '\t') => return x.tok(T::Whitespace),
        Char('"') => return x.string(),
        Char('[') => x.p = off,
        c if okc(c) => {}
        _ => return x.empty(T::Error_ExpectedFile),
    }
    loop {
        let (c, n) = sc(b, x.p);
        if okc(c) { x.p += n; continue }
        if c != Char('[') { return x.tok(T::String) }
        let mut depth = 0;
        loop {
            let (c, n) = sc(b, x.p);
            match c {
                EndOfFile | Char('\n' | '\r') | CRLF => return x.tok(T::Error_UnterminatedFileString),
                c if is_blank(c) || (matches!(class(c), Class::White | Class::Newline) && c != Char('\u{f3a2}')) => return x.tok(T::Error_UnterminatedFileString),
                Char('[') => depth += 1,
                Char(']') => depth -= 1,
                _ => {}
            }
            x.p += n;
            if depth == 0 { break }
        }
    }
}

// ---- unterminated tokens ------------------------------------------------------------------------
/// Lines (content start, content end, end including the newline) from the one containing `at`.
fn lines_from(b: &[u8], at: usize) -> Vec<(usize, usize, usize)> {
    let mut s = at;
    while s > 0 && !matches!(b[s - 1], b'\n' | b'\r') { s -= 1 }
    let mut v = vec![];
    let mut i = s;
    loop {
        if i >= b.len() { v.push((s, i, i)); return v }
        let n = match b[i] { b'\n' => 1, b'\r' => if b.get(i + 1) == Some(&b'\n') { 2 } else { 1 }, _ => { i += 1; continue } };
        v.push((s, i, i + n));
        i += n; s = i;
    }
}
pub const DIRECTIVES: &[&str] = &["BeginPackage", "Begin", "Needs", "End", "EndPackage", "Clear", "ClearAll", "SetOptions", "SetAttributes", "System`Private`NewContextPath", "System`Private`RestoreContextPath", "Protect", "Unprotect", "Package", "PackageImport", "PackageScope", "PackageExport", "Get", "SetDelayed", "UpSetDelayed", "TagSetDelayed"];
fn new_statement(line: &[u8]) -> bool {
    let mut v: Vec<RTok> = vec![];
    let mut p = 0;
    loop {
        let t = lex(line, p, Mode::default());
        if t.kind == T::EndOfFile { break }
        p = t.end;
        if matches!(t.kind, T::Whitespace | T::ToplevelNewline) && t.off != 0 { continue }
        v.push(t);
    }
    let k = |i: usize| v.get(i).map_or(T::EndOfFile, |t| t.kind);
    let eq = |k: T| matches!(k, T::Equal | T::ColonEqual);
    match k(0) {
        T::Symbol if k(1) == T::OpenSquare => DIRECTIVES.iter().any(|d| d.as_bytes() == &line[v[0].off..v[0].end]) || v[2..].iter().any(|t| eq(t.kind)),
        T::Symbol | T::CloseSquare => eq(k(1)),
        T::Comment => {
            let mut s = std::str::from_utf8(&line[..v[0].end]).unwrap();
            while let Some(r) = s.strip_prefix("(*") { s = r }
            s.trim_start().starts_with(':')
        }
        _ => false,
    }
}
/// Where an unterminated construct that starts at `at` is cut: (without, with) the newline of its last line.
pub fn cut(b: &[u8], at: usize) -> (usize, usize) { cut_within(b, at, b.len()) }
pub fn cut_within(b: &[u8], at: usize, to: usize) -> (usize, usize) { refissue::pause(|| cut_lines(b, at, to)) }
fn cut_lines(b: &[u8], at: usize, to: usize) -> (usize, usize) {
    let mut l = lines_from(b, at);
    l.retain(|x| x.0 <= to);
    let mut last = l[0];
    for x in &l[1..] {
        if new_statement(&b[x.0..x.1]) { break }
        if x.1 > x.0 { last = *x }
    }
    (last.1, last.2)
}
pub fn runs_to_end(k: T) -> bool { matches!(k, T::Error_UnterminatedString | T::Error_UnterminatedComment | T::Error_UnterminatedLinearSyntaxBlob) }
/// The whole token stream, unterminated tokens not cut.
pub fn raw_tokens(b: &[u8], mut p: usize) -> (Vec<RTok>, RTok) {
    let mut v = vec![];
    loop {
        let t = lex(b, p, Mode::default());
        if t.kind == T::EndOfFile { return (v, t) }
        p = t.end;
        v.push(t);
    }
}
/// First byte after a skipped `#!` line.
pub fn shebang(b: &[u8]) -> usize {
    if !b.starts_with(b"#!") { return 0 }
    lines_from(b, 0)[0].2
}
