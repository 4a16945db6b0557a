//! Reference model, layer 3: the expression parser, driven by the frozen operator tables.
use crate::reftok::*;
use crate::spec_tables::*;
use crate::tree::*;
use std::sync::OnceLock;
use wolfram_parser::source::SourceConvention;
use wolfram_parser::tokenize::TokenKind as T;

pub struct Tables { px: Vec<Option<Px>>, ix: Vec<Option<Ix>> }
pub fn tables() -> &'static Tables {
    static N: OnceLock<Tables> = OnceLock::new();
    N.get_or_init(|| {
        let mut t = Tables { px: vec![None; 1 << 13], ix: vec![None; 1 << 13] };
        for (k, p) in PREFIX { t.px[*k as usize] = Some(*p) }
        for (k, p) in INFIX { t.ix[*k as usize] = Some(*p) }
        t
    })
}
pub fn px(k: T) -> Option<Px> { tables().px[k as usize] }
pub fn ix(k: T) -> Option<Ix> { tables().ix[k as usize] }
fn lv(l: u32, r: bool) -> u32 { 2 * l + r as u32 }
macro_rules! precs { ($($id:ident = $name:literal),* $(,)?) => {
    #[allow(non_snake_case)] pub struct Pr { $($id: u32),* }
    pub fn pr() -> &'static Pr { static N: OnceLock<Pr> = OnceLock::new(); N.get_or_init(|| { let f = |n: &str| { let x = PREC.iter().find(|x| x.0 == n).unwrap(); lv(x.1, x.2) }; Pr { $($id: f($name)),* } }) }
} }
precs! { comma = "Comma", semi = "Semi", put = "GreaterGreater", append = "GreaterGreaterGreater", equal = "Equal", colon_equal = "ColonEqual", slash_colon = "SlashColon",
    pattern = "Fake`PatternColon", optional = "Fake`OptionalColon", semi_semi = "SemiSemi", integral = "Class`IntegrationOperators", times = "Star", tilde = "Tilde", call = "Call", colon_colon = "ColonColon", highest = "Highest" }

pub fn is_trivia(k: T) -> bool { matches!(k, T::Whitespace | T::Comment | T::ToplevelNewline | T::InternalNewline) }
pub fn is_closer(k: T) -> bool { px(k) == Some(Px::Closer) }
pub fn is_opener(k: T) -> bool { matches!(px(k), Some(Px::Group(_))) }
pub fn is_error(k: T) -> bool { matches!(k, T::Error_PrefixImplicitNull | T::Error_InfixImplicitNull) || (px(k) == Some(Px::Error) && !is_trivia(k) && k != T::Unknown) }
/// Can `k` begin an operand where the operand is optional?
pub fn begins(k: T) -> bool {
    match px(k) {
        Some(Px::Leaf | Px::Op(..) | Px::Special(_) | Px::IntegralLike(..)) => true,
        Some(Px::Group(_)) => !matches!(ix(k), Some(Ix::Call(_))),
        _ => false,
    }
}
pub fn closer_of(k: T) -> T {
    match k {
        T::OpenParen => T::CloseParen, T::OpenSquare | T::ColonColonOpenSquare => T::CloseSquare, T::OpenCurly => T::CloseCurly, T::LessBar => T::BarGreater,
        T::LongName_LeftAngleBracket => T::LongName_RightAngleBracket, T::LongName_LeftAssociation => T::LongName_RightAssociation,
        T::LongName_LeftBracketingBar => T::LongName_RightBracketingBar, T::LongName_LeftCeiling => T::LongName_RightCeiling,
        T::LongName_LeftDoubleBracket => T::LongName_RightDoubleBracket, T::LongName_LeftDoubleBracketingBar => T::LongName_RightDoubleBracketingBar,
        T::LongName_LeftFloor => T::LongName_RightFloor, T::LongName_OpenCurlyDoubleQuote => T::LongName_CloseCurlyDoubleQuote, T::LongName_OpenCurlyQuote => T::LongName_CloseCurlyQuote,
        _ => unreachable!(),
    }
}
fn is_comma(k: T) -> bool { matches!(k, T::Comma | T::LongName_InvisibleComma) }
fn is_diff(k: T) -> bool { matches!(k, T::LongName_DifferentialD | T::LongName_CapitalDifferentialD) }
const BLANK: [(&str, &str); 3] = [("Blank", "CodeParser_PatternBlank"), ("BlankSequence", "CodeParser_PatternBlankSequence"), ("BlankNullSequence", "CodeParser_PatternBlankNullSequence")];

pub struct P<'a> { b: &'a [u8], p: usize, ctx: Vec<u32>, groups: Vec<T>, lc: bool, utf8: bool }
impl<'a> P<'a> {
    fn peek(&self) -> RTok { lex(self.b, self.p, Mode { internal_nl: !self.groups.is_empty(), ..Mode::default() }) }
    fn top(&self) -> u32 { self.ctx.last().copied().unwrap_or(0) }
    fn take(&mut self, t: RTok, ch: &mut Vec<N>) { ch.push(leaf(t.kind, t.off, t.end)); self.p = t.end }
    fn at(t: RTok, kind: T) -> N { leaf(kind, t.off, t.off) }
    /// Trivia before the next token; `nl`: also newlines between toplevel expressions.
    fn trivia(&mut self, nl: bool) -> (Vec<N>, RTok) {
        let mut v = vec![];
        loop {
            let t = self.peek();
            if !is_trivia(t.kind) || (t.kind == T::ToplevelNewline && !nl) { return (v, t) }
            self.take(t, &mut v);
        }
    }
    fn eat(&mut self, ch: &mut Vec<N>, nl: bool) -> RTok { let (v, t) = self.trivia(nl); ch.extend(v); t }
    fn operand(&mut self, ch: &mut Vec<N>) { let t = self.eat(ch, true); let n = self.prefix(t); ch.push(n) }
    fn reduce(&mut self, tag: Tag, op: &'static str, ch: Vec<N>) -> N { self.ctx.pop(); self.climb(node(tag, op, ch)) }
    fn stop(&self, prec: u32) -> bool { (self.top() | 1) > prec }
    fn implicit(&self, t: RTok, last: &N) -> RTok {
        let fake = match ix(t.kind) {
            None => true,
            Some(Ix::DifferentialD) => self.top() != pr().integral,
            Some(Ix::Special("SemiSemi")) => matches!(last, N::Node { tag: Tag::Binary | Tag::Ternary, op: "Span", .. }),
            _ => false,
        };
        if fake { RTok { kind: T::Fake_ImplicitTimes, end: t.off, ..t } } else { t }
    }
    fn prec(&self, k: T) -> u32 {
        let p = pr();
        match ix(k) {
            Some(Ix::Bin(l, r, _) | Ix::Infix(l, r, _) | Ix::Post(l, r, _)) => lv(l, r),
            Some(Ix::Times) => p.times,
            Some(Ix::Call(_)) => p.call,
            Some(Ix::DifferentialD) => if self.top() == p.integral { 0 } else { p.times },
            Some(Ix::Special(s)) => match s {
                "Semi" => p.semi, "Comma" => p.comma, "SemiSemi" => p.semi_semi, "Tilde" => p.tilde, "SlashColon" => p.slash_colon,
                "Equal" => p.equal, "ColonEqual" => p.colon_equal, "ColonColon" => p.colon_colon, "GreaterGreater" => p.put, "GreaterGreaterGreater" => p.append,
                "Colon" => {
                    // inside the right side of a pattern colon, another colon gives the default value
                    let inner = self.ctx.iter().rev().find(|c| **c <= p.pattern).copied();
                    if inner == Some(p.pattern) { p.optional } else { p.highest }
                }
                _ => unreachable!(),
            },
            Some(Ix::No | Ix::Newline) => 0,
            None => unreachable!(),
        }
    }
    fn climb(&mut self, n: N) -> N {
        let save = self.p;
        let (tr, t) = self.trivia(false);
        let t = self.implicit(t, &n);
        let prec = self.prec(t.kind);
        if self.stop(prec) { self.p = save; return n }
        self.ctx.push(prec);
        let mut ch = vec![n];
        ch.extend(tr);
        self.infix(ch, t)
    }
    fn prefix(&mut self, t: RTok) -> N {
        let p = pr();
        match px(t.kind) {
            Some(Px::Leaf) => { self.p = t.end; self.climb(leaf(t.kind, t.off, t.end)) }
            Some(Px::Error) => { self.p = t.end; leaf(t.kind, t.off, t.end) }
            Some(Px::Eof | Px::Closer) => Self::at(t, if self.top() == p.comma { T::Error_InfixImplicitNull } else { T::Error_ExpectedOperand }),
            Some(Px::Unsupported) => { self.p = t.end; leaf(T::Error_UnsupportedToken, t.off, t.end) }
            Some(Px::Comma) => { let k = if self.top() == 0 { T::Error_PrefixImplicitNull } else { T::Error_ExpectedOperand }; self.climb(Self::at(t, k)) }
            Some(Px::Op(l, r, op)) => { let mut ch = vec![]; self.take(t, &mut ch); self.ctx.push(lv(l, r)); self.operand(&mut ch); self.reduce(Tag::Prefix, op, ch) }
            Some(Px::Group(op)) => self.group(t, op),
            Some(Px::IntegralLike(..)) => unreachable!(),
            Some(Px::Special(s)) => match s {
                "Symbol" => {
                    self.p = t.end;
                    let me = leaf(t.kind, t.off, t.end);
                    let u = self.peek();
                    match u.kind {
                        T::Under | T::UnderUnder | T::UnderUnderUnder => { let (i, n) = self.under(u); self.climb(node(Tag::Compound, BLANK[i].1, vec![me, n])) }
                        T::UnderDot => { let mut ch = vec![me]; self.take(u, &mut ch); self.climb(node(Tag::Compound, "CodeParser_PatternOptionalDefault", ch)) }
                        _ => self.climb(me),
                    }
                }
                "Under:1" | "Under:2" | "Under:3" => { let (_, n) = self.under(t); self.climb(n) }
                "UnderDot" => { self.p = t.end; self.climb(leaf(t.kind, t.off, t.end)) }
                "Hash" | "HashHash" | "Percent" => {
                    self.p = t.end;
                    let u = lex(self.b, self.p, Mode { internal_nl: false, slot: s == "Hash", int_only: true });
                    if u.kind == T::Integer || (s == "Hash" && u.kind == T::String) {
                        let mut ch = vec![leaf(t.kind, t.off, t.end)];
                        self.take(u, &mut ch);
                        return self.climb(node(Tag::Compound, match s { "Hash" => "Slot", "HashHash" => "SlotSequence", _ => "Out" }, ch));
                    }
                    self.climb(leaf(t.kind, t.off, t.end))
                }
                "SemiSemi" => { self.ctx.push(p.semi_semi); self.infix(vec![Self::at(t, T::Fake_ImplicitOne)], t) }
                "Integral" => {
                    let (op2, op1) = match t.kind { T::LongName_Integral => ("Integrate", "Integral"), T::LongName_ContourIntegral => ("ContourIntegral", "ContourIntegral"), T::LongName_DoubleContourIntegral => ("DoubleContourIntegral", "DoubleContourIntegral"), T::LongName_ClockwiseContourIntegral => ("ClockwiseContourIntegral", "ClockwiseContourIntegral"), _ => ("CounterClockwiseContourIntegral", "CounterClockwiseContourIntegral") };
                    let mut ch = vec![];
                    self.take(t, &mut ch);
                    self.ctx.push(p.integral);
                    let u = self.eat(&mut ch, true);
                    let n = if is_diff(u.kind) { Self::at(u, T::Fake_ImplicitOne) } else { self.prefix(u) };
                    ch.push(n);
                    let save = self.p;
                    let (tr, d) = self.trivia(false);
                    if !is_diff(d.kind) { self.p = save; return self.reduce(Tag::Prefix, op1, ch) }
                    ch.extend(tr);
                    let n = self.prefix(d);
                    ch.push(n);
                    self.reduce(Tag::PrefixBinary, op2, ch)
                }
                "LessLess" => { let mut ch = vec![]; self.take(t, &mut ch); self.ctx.push(p.highest); self.file(&mut ch); self.reduce(Tag::Prefix, "Get", ch) }
                _ => unreachable!(),
            },
            None => {
                let e = Self::at(t, T::Error_ExpectedOperand);
                let prec = self.prec(t.kind);
                if self.stop(prec) { return e }
                self.ctx.push(prec);
                self.infix(vec![e], t)
            }
        }
    }
    fn under(&mut self, t: RTok) -> (usize, N) {
        self.p = t.end;
        let i = match t.kind { T::Under => 0, T::UnderUnder => 1, _ => 2 };
        let me = leaf(t.kind, t.off, t.end);
        let s = self.peek();
        if matches!(s.kind, T::Symbol | T::Error_ExpectedLetterlike) { let mut ch = vec![me]; self.take(s, &mut ch); return (i, node(Tag::Compound, BLANK[i].0, ch)) }
        (i, me)
    }
    fn file(&mut self, ch: &mut Vec<N>) {
        loop {
            let t = lex_file(self.b, self.p);
            self.take(t, ch);
            if !is_trivia(t.kind) { return }
        }
    }
    fn tag(&mut self, ch: &mut Vec<N>) { let t = lex_tag(self.b, self.p); self.take(t, ch) }
    fn group(&mut self, t: RTok, op: &'static str) -> N {
        let closer = closer_of(t.kind);
        let mut ch = vec![];
        self.groups.push(closer);
        self.take(t, &mut ch);
        self.ctx.push(0);
        loop {
            let save = self.p;
            let (tr, t) = self.trivia(true);
            if t.kind == closer {
                ch.extend(tr);
                self.take(t, &mut ch);
                self.groups.pop();
                return self.reduce(Tag::Group, op, ch);
            }
            if is_closer(t.kind) {
                if self.groups.contains(&t.kind) {
                    self.p = save; self.groups.pop(); self.ctx.pop();
                    return node(Tag::GroupMissingCloser, op, ch);
                }
                ch.extend(tr);
                ch.push(leaf(T::Error_UnexpectedCloser, t.off, t.end));
                self.p = t.end;
                continue;
            }
            ch.extend(tr);
            if t.kind == T::EndOfFile {
                self.groups.pop(); self.ctx.pop();
                return node(Tag::GroupMissingCloser, op, if self.utf8 { self.cut_group(ch) } else { ch });
            }
            let n = self.prefix(t);
            ch.push(n);
        }
    }
    /// An unterminated group is reduced to the tokens up to the end of the statement it is in.
    fn cut_group(&self, ch: Vec<N>) -> Vec<N> {
        let mut all = vec![];
        for c in &ch { c.leaves(&mut |k, o, e| all.push((k, o, e))) }
        let (a, z) = (all[0].1, all.iter().map(|x| x.2).max().unwrap());
        let (line_end, with_newline) = cut_within(self.b, a, z);
        let inside = |o: usize| a <= o && o <= line_end;
        all.retain(|(_, o, e)| if self.lc { inside(*o) || inside(*e) } else { *o <= with_newline && *e >= a });
        all.into_iter().map(|(k, o, e)| leaf(k, o, e)).collect()
    }
    fn infix(&mut self, mut ch: Vec<N>, t: RTok) -> N {
        let p = pr();
        match ix(t.kind).unwrap() {
            Ix::Bin(_, _, op) => { self.take(t, &mut ch); self.operand(&mut ch); self.reduce(Tag::Binary, op, ch) }
            Ix::Infix(_, _, op) => {
                self.take(t, &mut ch);
                self.operand(&mut ch);
                loop {
                    let save = self.p;
                    let (tr, t) = self.trivia(false);
                    if !matches!(ix(t.kind), Some(Ix::Infix(_, _, o)) if o == op) { self.p = save; return self.reduce(Tag::Infix, op, ch) }
                    ch.extend(tr);
                    self.take(t, &mut ch);
                    self.operand(&mut ch);
                }
            }
            Ix::Post(_, _, op) => { self.take(t, &mut ch); self.reduce(Tag::Postfix, op, ch) }
            Ix::Times => {
                self.take(t, &mut ch);
                self.operand(&mut ch);
                loop {
                    let save = self.p;
                    let (tr, t) = self.trivia(false);
                    let t = self.implicit(t, ch.last().unwrap());
                    if ix(t.kind) != Some(Ix::Times) { self.p = save; return self.reduce(Tag::Infix, "Times", ch) }
                    ch.extend(tr);
                    self.take(t, &mut ch);
                    self.operand(&mut ch);
                }
            }
            Ix::Call(op) => {
                *self.ctx.last_mut().unwrap() = p.highest;
                let g = self.group(t, op);
                ch.push(g);
                self.reduce(Tag::Call, "", ch)
            }
            Ix::Special(s) => match s {
                "Comma" => {
                    let mut t = t;
                    loop {
                        self.take(t, &mut ch);
                        let u = self.eat(&mut ch, true);
                        let n = if is_comma(u.kind) { Self::at(u, T::Error_InfixImplicitNull) } else { self.prefix(u) };
                        ch.push(n);
                        let save = self.p;
                        let (tr, v) = self.trivia(false);
                        if !is_comma(v.kind) { self.p = save; self.ctx.pop(); return node(Tag::Infix, "CodeParser_Comma", ch) }
                        ch.extend(tr);
                        t = v;
                    }
                }
                "Semi" => {
                    let mut t = t;
                    loop {
                        self.take(t, &mut ch);
                        let u = self.eat(&mut ch, false);
                        if u.kind == T::Semi { ch.push(Self::at(u, T::Fake_ImplicitNull)) }
                        else if begins(u.kind) { let n = self.prefix(u); ch.push(n) }
                        else { ch.push(Self::at(u, T::Fake_ImplicitNull)); return self.reduce(Tag::Infix, "CompoundExpression", ch) }
                        let save = self.p;
                        let (tr, v) = self.trivia(false);
                        if v.kind != T::Semi { self.p = save; return self.reduce(Tag::Infix, "CompoundExpression", ch) }
                        ch.extend(tr);
                        t = v;
                    }
                }
                "ColonColon" => {
                    let mut t = t;
                    loop {
                        self.take(t, &mut ch);
                        self.tag(&mut ch);
                        let save = self.p;
                        let (tr, v) = self.trivia(false);
                        if v.kind != T::ColonColon { self.p = save; return self.reduce(Tag::Infix, "MessageName", ch) }
                        ch.extend(tr);
                        t = v;
                    }
                }
                "GreaterGreater" => { self.take(t, &mut ch); self.file(&mut ch); self.reduce(Tag::Binary, "Put", ch) }
                "GreaterGreaterGreater" => { self.take(t, &mut ch); self.file(&mut ch); self.reduce(Tag::Binary, "PutAppend", ch) }
                "Tilde" => {
                    self.take(t, &mut ch);
                    self.operand(&mut ch);
                    let save = self.p;
                    let (tr, v) = self.trivia(true);
                    if v.kind != T::Tilde { self.p = save; return self.reduce(Tag::SyntaxError, "ExpectedTilde", ch) }
                    ch.extend(tr);
                    self.take(v, &mut ch);
                    self.operand(&mut ch);
                    self.reduce(Tag::Ternary, "CodeParser_TernaryTilde", ch)
                }
                "Colon" => {
                    let (prec, tag, op) = match &ch[0] {
                        N::Leaf { kind: T::Symbol, .. } => (p.pattern, Tag::Binary, "Pattern"),
                        N::Leaf { kind, .. } if is_error(*kind) => (p.pattern, Tag::Binary, "Pattern"),
                        N::Leaf { kind: T::Under | T::UnderUnder | T::UnderUnderUnder, .. } | N::Node { tag: Tag::Binary, op: "Pattern", .. } => (p.optional, Tag::Binary, "Optional"),
                        N::Node { tag: Tag::Compound, op, .. } if BLANK.iter().any(|b| b.0 == *op || b.1 == *op) => (p.optional, Tag::Binary, "Optional"),
                        _ => (p.pattern, Tag::SyntaxError, "ExpectedSymbol"),
                    };
                    self.take(t, &mut ch);
                    let u = self.eat(&mut ch, true);
                    *self.ctx.last_mut().unwrap() = prec;
                    let n = self.prefix(u);
                    ch.push(n);
                    self.reduce(tag, op, ch)
                }
                "Equal" => {
                    self.take(t, &mut ch);
                    let u = self.eat(&mut ch, true);
                    if u.kind == T::Dot { self.take(u, &mut ch); return self.reduce(Tag::Binary, "Unset", ch) }
                    let n = self.prefix(u);
                    ch.push(n);
                    self.reduce(Tag::Binary, "Set", ch)
                }
                "ColonEqual" => { self.take(t, &mut ch); self.operand(&mut ch); self.reduce(Tag::Binary, "SetDelayed", ch) }
                "SlashColon" => {
                    self.take(t, &mut ch);
                    self.operand(&mut ch);
                    let save = self.p;
                    let (tr, v) = self.trivia(true);
                    match v.kind {
                        T::Equal => {
                            *self.ctx.last_mut().unwrap() = p.equal;
                            ch.extend(tr);
                            self.take(v, &mut ch);
                            let u = self.eat(&mut ch, true);
                            if u.kind == T::Dot { self.take(u, &mut ch); return self.reduce(Tag::Ternary, "TagUnset", ch) }
                            let n = self.prefix(u);
                            ch.push(n);
                            self.reduce(Tag::Ternary, "TagSet", ch)
                        }
                        T::ColonEqual => {
                            *self.ctx.last_mut().unwrap() = p.colon_equal;
                            ch.extend(tr);
                            self.take(v, &mut ch);
                            self.operand(&mut ch);
                            self.reduce(Tag::Ternary, "TagSetDelayed", ch)
                        }
                        _ => { self.p = save; self.reduce(Tag::SyntaxError, "ExpectedSet", ch) }
                    }
                }
                "SemiSemi" => {
                    self.take(t, &mut ch);
                    let u = self.eat(&mut ch, false);
                    if !begins(u.kind) { ch.push(Self::at(u, T::Fake_ImplicitAll)); return self.reduce(Tag::Binary, "Span", ch) }
                    if u.kind == T::SemiSemi { ch.push(Self::at(u, T::Fake_ImplicitAll)) } else { let n = self.prefix(u); ch.push(n) }
                    // a second  ;;  belongs to this span only if a third operand follows it
                    let save = self.p;
                    let (tr, v) = self.trivia(false);
                    if v.kind == T::SemiSemi {
                        self.p = v.end;
                        let (tr2, w) = self.trivia(false);
                        if begins(w.kind) && w.kind != T::SemiSemi {
                            ch.extend(tr);
                            ch.push(leaf(v.kind, v.off, v.end));
                            ch.extend(tr2);
                            let n = self.prefix(w);
                            ch.push(n);
                            return self.reduce(Tag::Ternary, "Span", ch);
                        }
                    }
                    self.p = save;
                    self.reduce(Tag::Binary, "Span", ch)
                }
                _ => unreachable!(),
            },
            Ix::No | Ix::Newline | Ix::DifferentialD => unreachable!(),
        }
    }
}
/// The whole parse from byte `from`.
pub fn parse(b: &[u8], from: usize, conv: SourceConvention) -> Vec<N> {
    let lc = conv == SourceConvention::LineColumn;
    let utf8 = std::str::from_utf8(b).is_ok();
    let mut p = P { b, p: from, ctx: vec![], groups: vec![], lc, utf8 };
    let mut out = vec![];
    loop {
        let t = p.peek();
        if t.kind == T::EndOfFile { break }
        if is_trivia(t.kind) { p.take(t, &mut out); continue }
        if is_closer(t.kind) { out.push(leaf(T::Error_UnexpectedCloser, t.off, t.end)); p.p = t.end; continue }
        let n = p.prefix(t);
        assert!(p.ctx.is_empty() && p.groups.is_empty());
        out.push(n);
    }
    if utf8 { for n in &mut out { cut_tokens(b, n, lc) } }
    out
}
fn cut_tokens(b: &[u8], n: &mut N, lc: bool) {
    match n {
        N::Leaf { kind, off, end } => if runs_to_end(*kind) { let c = cut(b, *off); *end = if lc { c.0 } else { c.1 } },
        N::Node { ch, .. } => for c in ch { cut_tokens(b, c, lc) },
    }
}
