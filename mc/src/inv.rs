//! Invariants of single results, and relations between results.
use crate::engine::*;
use crate::obs::*;
use crate::pos::Positions;
use crate::refchar::{self, sc, wc};
use crate::refparse;
use crate::reftok::*;
use crate::tree::*;
use wolfram_parser::cst::*;
use wolfram_parser::source::*;
use wolfram_parser::tokenize::{Token, TokenKind as T, TokenStr};
use wolfram_parser::*;

pub type C<'i> = Cst<TokenStr<'i>>;
pub const FLB: [FirstLineBehavior; 3] = [FirstLineBehavior::NotScript, FirstLineBehavior::Check, FirstLineBehavior::Script];
pub const TABS: [u32; 5] = [4, 1, 2, 3, 8];
pub fn make(flb: u64, conv: u64, tab: u32, enc: u64, q: u64) -> ParseOptions {
    ParseOptions::make(FLB[flb as usize % 3], CONVS[conv as usize % 2], if enc % 2 == 0 { EncodingMode::Normal } else { EncodingMode::Box }, tab, crate::asts::quirks(q))
}
pub fn toks<'a>(b: &'a [u8], o: &ParseOptions) -> Option<Vec<Token<TokenStr<'a>>>> {
    match std::str::from_utf8(b) { Ok(s) => Some(tokenize(s, o).0), Err(_) => tokenize_bytes(b, o).ok().map(|x| x.0) }
}
/// only line continuations (with the blanks after them)?
pub fn only_lcs(b: &[u8]) -> bool {
    let mut p = 0;
    while p < b.len() {
        let c = wc(b, p);
        if !refchar::is_lc(c.pt) { return false }
        p = c.end;
        while p < b.len() { let c = wc(b, p); if !refchar::is_blank(c.pt) { break } p = c.end }
    }
    true
}
// ------------------------------------------------------------------ C02
pub fn tiling(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let o = opts(CONVS[(aux % 2) as usize], 4);
    let Some(t) = toks(b, &o) else { return Ok(()) };
    cx.exec(); cx.steps(t.len()); cx.state(crate::toks::hash_kinds(&t));
    let mut p = 0;
    for (i, x) in t.iter().enumerate() {
        let k = otok(b, x)?;
        if k.off != p { return Err(format!("token {i} ({:?} {:?}) starts at byte {} but the previous one ended at {p}", k.kind, show(&b[k.off..k.end]), k.off)) }
        if k.end <= k.off { return Err(format!("token {i} ({:?}) is empty", k.kind)) }
        p = k.end;
        if runs_to_end(k.kind) && i + 1 != t.len() { return Err(format!("token {i} is {:?} but is not the last one", k.kind)) }
    }
    if p < b.len() && !t.last().map_or(false, |x| runs_to_end(x.tok)) && !only_lcs(&b[p..]) { return Err(format!("bytes {p}..{} ({:?}) belong to no token", b.len(), show(&b[p..]))) }
    Ok(())
}
// ------------------------------------------------------------------ C03
pub fn invented(k: T) -> bool { matches!(k, T::Fake_ImplicitTimes | T::Fake_ImplicitNull | T::Fake_ImplicitOne | T::Fake_ImplicitAll | T::Error_PrefixImplicitNull | T::Error_InfixImplicitNull | T::Error_ExpectedOperand | T::Error_ExpectedTag | T::Error_ExpectedFile) }
fn has_open_end(n: &N) -> bool { match n { N::Leaf { kind, .. } => runs_to_end(*kind), N::Node { tag, ch, .. } => *tag == Tag::GroupMissingCloser || ch.iter().any(has_open_end) } }
pub fn leaves(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let flb = aux / 2 % 3;
    let o = make(flb, aux % 2, 4, 0, 0);
    let r = parse_bytes_cst_seq(b, &o);
    let t = from_seq(b, &r.syntax.0)?;
    cx.exec(); cx.steps(t.iter().map(|n| n.count()).sum()); cx.state(hash_seq(&t));
    let mut p = if flb == 0 { 0 } else { shebang(b) };
    let mut e = Ok(());
    for n in &t { n.leaves(&mut |k, off, end| if e.is_ok() {
        if off != p { e = Err(format!("leaf {k:?} {:?} starts at byte {off} but the previous leaf ended at {p}", show(&b[off..end]))) }
        else if off == end && !invented(k) { e = Err(format!("leaf {k:?} at byte {off} is empty")) }
        else if off != end && matches!(k, T::Fake_ImplicitTimes | T::Fake_ImplicitNull | T::Fake_ImplicitOne | T::Fake_ImplicitAll | T::Error_PrefixImplicitNull | T::Error_InfixImplicitNull) { e = Err(format!("invented leaf {k:?} at byte {off} is not empty")) }
        p = end;
    }) }
    e?;
    if p < b.len() && !t.last().map_or(false, has_open_end) && !only_lcs(&b[p..]) { return Err(format!("bytes {p}..{} ({:?}) are in no leaf", b.len(), show(&b[p..]))) }
    Ok(())
}
// ------------------------------------------------------------------ C04
pub fn positions(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let tw = TABS[(aux / 2 % 5) as usize];
    let conv = CONVS[(aux % 2) as usize];
    let o = make(aux / 10 % 3, aux % 2, tw, 0, 0);
    let p = Positions::new(b, tw);
    let one = |t: &Token<TokenStr>| -> R {
        let k = otok(b, t)?;
        let kind_ok = match t.src.start() { Location::LineColumn(_) => conv == SourceConvention::LineColumn, Location::CharacterIndex(_) => conv == SourceConvention::CharacterIndex };
        if !kind_ok || !span_ok(&p, k.off, k.end, t.src) { return Err(format!("{:?} {:?} at bytes {}..{}: source {:?}, expected {:?} to {:?}", k.kind, show(&b[k.off..k.end]), k.off, k.end, t.src, p.0[k.off], p.0[k.end])) }
        Ok(())
    };
    if aux < 10 { if let Some(t) = toks(b, &o) { cx.exec(); cx.steps(t.len()); cx.state(crate::toks::hash_kinds(&t)); for x in &t { one(x)? } } }
    let r = parse_bytes_cst_seq(b, &o);
    cx.exec();
    let mut e = Ok(()); let mut n = 0;
    for c in &r.syntax.0 { c.visit(&mut |c| if let Cst::Token(t) = c { n += 1; if e.is_ok() { e = one(t).map_err(|m| format!("leaf {m}")) } }) }
    // the visitor is not part of this property: count the leaves independently
    let t = from_seq(b, &r.syntax.0)?;
    let mut m = 0; for x in &t { x.leaves(&mut |_, _, _| m += 1) }
    cx.steps(n); cx.state(hash_seq(&t));
    if n != m { for x in &r.syntax.0 { all_tokens(x, &mut |t| if e.is_ok() { e = one(t) }) } }
    e
}
/// every token of a tree, without the library's own visitor
pub fn all_tokens<'a, 'i>(c: &'a C<'i>, f: &mut dyn FnMut(&'a Token<TokenStr<'i>>)) {
    macro_rules! s { ($x:expr) => { for y in &$x.0 { all_tokens(y, f) } } }
    match c {
        Cst::Token(t) => f(t),
        Cst::Call(CallNode { head, body }) => {
            match head { CallHead::Concrete(h) => s!(h), CallHead::Aggregate(h) => all_tokens(h, f) }
            match body { CallBody::Group(g) => s!(g.0.children), CallBody::GroupMissingCloser(g) => s!(g.0.children) }
        }
        Cst::SyntaxError(n) => s!(n.children),
        Cst::Prefix(n) => s!(n.0.children), Cst::Infix(n) => s!(n.0.children), Cst::Postfix(n) => s!(n.0.children), Cst::Binary(n) => s!(n.0.children), Cst::Ternary(n) => s!(n.0.children),
        Cst::PrefixBinary(n) => s!(n.0.children), Cst::Compound(n) => s!(n.0.children), Cst::Group(n) => s!(n.0.children), Cst::GroupMissingCloser(n) => s!(n.0.children), Cst::GroupMissingOpener(n) => s!(n.0.children),
        _ => {}
    }
}
// ------------------------------------------------------------------ C05
/// checks the span of `c` and of all nodes below; returns the byte range of its leaves
fn spans(b: &[u8], p: &Positions, c: &C) -> Result<(usize, usize), String> {
    let seq = |v: &NodeSeq<C>| -> Result<Option<(usize, usize)>, String> {
        let mut r: Option<(usize, usize)> = None;
        for x in &v.0 {
            let y = spans(b, p, x)?;
            r = Some(match r { None => y, Some(z) => { if y.0 < z.1 { return Err(format!("a child at bytes {}..{} starts before its left sibling ends at {}", y.0, y.1, z.1)) } (z.0, y.1) } });
        }
        Ok(r)
    };
    let mut extra: Vec<(Span, (usize, usize))> = vec![];
    macro_rules! op { ($n:expr) => {{ let r = seq(&$n.0.children)?.ok_or("node without children")?; extra.push(($n.get_source(), r)); r }} }
    let r = match c {
        Cst::Token(t) => { let k = otok(b, t)?; (k.off, k.end) }
        Cst::Call(n) => {
            let h = match &n.head { CallHead::Concrete(s) => seq(s)?, CallHead::Aggregate(h) => Some(spans(b, p, h)?) }.ok_or("call without head")?;
            let g = match &n.body { CallBody::Group(g) => op!(g), CallBody::GroupMissingCloser(g) => op!(g) };
            extra.push((n.body.get_source(), g)); extra.push((n.get_source(), (h.0, g.1)));
            if g.0 < h.1 { return Err("call body starts before its head ends".into()) }
            (h.0, g.1)
        }
        Cst::SyntaxError(n) => { let r = seq(&n.children)?.ok_or("node without children")?; extra.push((n.get_source(), r)); r }
        Cst::Prefix(n) => op!(n), Cst::Infix(n) => op!(n), Cst::Postfix(n) => op!(n), Cst::Binary(n) => op!(n), Cst::Ternary(n) => op!(n), Cst::PrefixBinary(n) => op!(n), Cst::Compound(n) => op!(n),
        Cst::Group(n) => op!(n), Cst::GroupMissingCloser(n) => op!(n), Cst::GroupMissingOpener(n) => op!(n),
        _ => return Err("unexpected node".into()),
    };
    extra.push((c.get_source(), r));
    for (s, r) in extra { if !span_ok(p, r.0, r.1, s) { return Err(format!("node over bytes {}..{} ({:?}) has source {s:?}, expected {:?} to {:?}", r.0, r.1, show(&b[r.0..r.1]), p.0[r.0], p.0[r.1])) } }
    Ok(r)
}
pub fn node_spans(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let tw = TABS[(aux / 2 % 5) as usize];
    let o = opts(CONVS[(aux % 2) as usize], tw);
    let p = Positions::new(b, tw);
    let r = parse_bytes_cst_seq(b, &o);
    let t = from_seq(b, &r.syntax.0)?;
    cx.exec(); cx.steps(t.iter().map(|n| n.count()).sum()); cx.state(hash_seq(&t));
    let mut last = 0;
    for c in &r.syntax.0 { let x = spans(b, &p, c)?; if x.0 < last { return Err("top-level nodes overlap".into()) } last = x.1 }
    // abstract spans, given the concrete tree
    let a = parse_bytes_ast_seq(b, &o);
    let got = a.syntax.0.iter().map(|a| crate::refast::from_ast(a, &p)).collect::<Result<Vec<_>, _>>()?;
    cx.exec(); cx.steps(got.iter().map(|n| n.count()).sum());
    let exp = crate::refast::abstract_seq(b, &t, &o.quirk_settings);
    let noiss = |v: &[crate::refast::A]| -> Vec<crate::refast::A> { v.iter().map(|a| { let mut a = a.clone(); a.no_issues(); a }).collect() };
    let (got, exp) = (noiss(&got), noiss(&exp));
    if got != exp && got.iter().map(|a| a.strip()).eq(exp.iter().map(|a| a.strip())) { return Err(format!("same abstract tree, other spans: expected {} -- got {}", crate::refast::show_seq(&exp), crate::refast::show_seq(&got))) }
    Ok(())
}
// ------------------------------------------------------------------ C06
pub fn flag_of(b: &[u8]) -> Option<UnsafeCharacterEncoding> {
    let mut p = 0; let mut f = None;
    while p < b.len() {
        let (c, n) = sc(b, p);
        use crate::refchar::*;
        match c {
            Unsafe1ByteUtf8Sequence => f = Some(UnsafeCharacterEncoding::IncompleteUTF8Sequence),
            Unsafe2ByteUtf8Sequence | Unsafe3ByteUtf8Sequence => f = Some(if n == 3 && b[p] == 0xed && b[p + 1] >= 0xa0 { UnsafeCharacterEncoding::StraySurrogate } else if b[p..p + n] == [0xef, 0xbb, 0xbf] { UnsafeCharacterEncoding::BOM } else { UnsafeCharacterEncoding::IncompleteUTF8Sequence }),
            _ => {}
        }
        p += n;
    }
    f
}
pub fn utf8(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let o = opts(CONVS[(aux % 2) as usize], 4);
    let want = flag_of(b);
    // the decoded characters, observed through a token iterator where possible
    if let Ok(s) = std::str::from_utf8(b) {
        let mut p = 0;
        for (i, c) in iter::source_chars(s, &o).enumerate() {
            cx.steps(1);
            let (m, n) = sc(b, p);
            if n == 0 || m.imp() != c { return Err(format!("character {i} at byte {p}: expected {m:?}, decoded {c:?}")) }
            p += n;
        }
        cx.exec();
        if p != b.len() { return Err(format!("decoding stopped at byte {p}")) }
    }
    match (safe_string(b, &o), want) {
        (Ok(s), None) => if s.as_bytes() != b { return Err("safe_string returned another text".into()) },
        (Err(f), Some(w)) => if f != w { return Err(format!("safe_string reports {f:?}, expected {w:?}")) },
        (g, w) => return Err(format!("safe_string gave {g:?}, expected unsafe encoding {w:?}")),
    }
    match (tokenize_bytes(b, &o).err(), want) { (g, w) if g == w => {} (g, w) => return Err(format!("tokenize_bytes reports {g:?}, expected {w:?}")) }
    let r = parse_bytes_cst_seq(b, &o);
    if r.unsafe_character_encoding != want { return Err(format!("concrete parse reports {:?}, expected {want:?}", r.unsafe_character_encoding)) }
    let a = parse_bytes_ast_seq(b, &o);
    if a.unsafe_character_encoding != want { return Err(format!("abstract parse reports {:?}, expected {want:?}", a.unsafe_character_encoding)) }
    // each undecodable unit is one character: positions count it once, error tokens are exactly the units
    let p = Positions::new(b, 4);
    let t = from_seq(b, &r.syntax.0)?;
    cx.exec(); cx.steps(t.iter().map(|n| n.count()).sum()); cx.state(hash_seq(&t));
    let mut e: R = Ok(());
    for c in &r.syntax.0 { all_tokens(c, &mut |t| if e.is_ok() { e = (|| {
        let k = otok(b, t)?;
        if k.kind == T::Error_UnsafeCharacterEncoding { let mut at = k.off; loop { let c = wc(b, at); if !(refchar::is_lc(c.pt) || at > k.off && refchar::is_blank(c.pt)) { break } at = c.end } let u = &b[at.min(k.end)..k.end]; let (c, n) = sc(b, at); if n != u.len() || !matches!(crate::refchar::class(c), crate::refchar::Class::Unsafe) { return Err(format!("unsafe-encoding token over {:?} is not one undecodable unit", show(u))) } }
        if !span_ok(&p, k.off, k.end, t.src) { return Err(format!("{:?} {:?}: source {:?}, expected {:?} to {:?}", k.kind, show(&b[k.off..k.end]), t.src, p.0[k.off], p.0[k.end])) }
        Ok(())
    })() }) }
    e
}
// ------------------------------------------------------------------ C07
pub fn decoded(b: &[u8], _: u64, cx: &mut Ctx) -> R {
    let Ok(s) = std::str::from_utf8(b) else { return Ok(()) };
    let o = ParseOptions::default();
    let mut p = 0; let mut h = H::new();
    for (i, c) in iter::wolfram_chars(s, &o).enumerate() {
        cx.steps(1);
        let m = wc(b, p);
        if m.pt == crate::refchar::EndOfFile || c != read::WLCharacter::escaped(m.pt.imp(), m.esc) { return Err(format!("character {i} at byte {p}: expected {:?} ({:?}), decoded {c:?}", m.pt, m.esc)) }
        h.u(m.esc as u64); h.u(crate::refchar::class(m.pt) as u64);
        p = m.end;
    }
    cx.exec(); cx.state(h.0);
    if p != b.len() { return Err(format!("decoding stopped at byte {p} of {}", b.len())) }
    Ok(())
}
// ------------------------------------------------------------------ token differential without positions (C09-C12)
pub fn kinds(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let conv = CONVS[(aux % 2) as usize];
    let Some(t) = toks(b, &opts(conv, 4)) else { return Ok(()) };
    cx.exec(); cx.steps(t.len()); cx.state(crate::toks::hash_kinds(&t));
    crate::toks::compare(b, &t, &crate::toks::expected(b, 0, conv), None)
}
// ------------------------------------------------------------------ CST differential (no trivia leaves, C13)
pub fn no_trivia(v: &[N]) -> Vec<N> {
    v.iter().filter_map(|n| match n { N::Leaf { kind, .. } if refparse::is_trivia(*kind) => None, N::Leaf { .. } => Some(n.clone()), N::Node { tag, op, ch } => Some(node(*tag, op, no_trivia(ch))) }).collect()
}
/// drops where empty leaves and tokens are, keeps kinds, shapes and (mapped) texts
pub fn shape_of(b: &[u8], v: &[N], text: &dyn Fn(&[u8], usize) -> Vec<u8>) -> Vec<S> {
    v.iter().filter_map(|n| match n {
        N::Leaf { kind, .. } if refparse::is_trivia(*kind) => None,
        N::Leaf { kind, off, end } => Some(S::L(*kind, text(&b[*off..*end], *off))),
        N::Node { tag, op, ch } => Some(S::N(*tag, op, shape_of(b, ch, text))),
    }).collect()
}
#[derive(PartialEq, Clone, Debug)]
pub enum S { L(T, Vec<u8>), N(Tag, &'static str, Vec<S>) }
pub fn show_s(v: &[S]) -> String { v.iter().map(|s| match s { S::L(k, t) => format!("{k:?}:{}", show(t)), S::N(t, o, c) => format!("{t:?}:{o}({})", show_s(c)) }).collect::<Vec<_>>().join(", ") }
pub fn grouping(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let conv = CONVS[(aux % 2) as usize];
    let r = parse_bytes_cst_seq(b, &opts(conv, 4));
    let t = from_seq(b, &r.syntax.0)?;
    cx.exec(); cx.steps(t.iter().map(|n| n.count()).sum()); cx.state(hash_seq(&t));
    let (got, exp) = (no_trivia(&t), no_trivia(&refparse::parse(b, 0, conv)));
    crate::csts::same(b, &got, &exp)
}
