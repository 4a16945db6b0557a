//! Relations between results, and abstract-tree checks.
use crate::asts::quirks;
use crate::engine::*;
use crate::inv::*;
use crate::obs::*;
use crate::pos::Positions;
use crate::refast::{self, abstract_seq, from_ast, A, AT};
use crate::refchar::{self, wc};
use crate::refparse;
use crate::reftok::*;
use crate::tree::*;
use wolfram_parser::issue::*;
use wolfram_parser::source::*;
use wolfram_parser::tokenize::{TokenKind as T, TokenStr};
use wolfram_parser::*;

pub fn asts_of(v: &[ast::Ast], p: &Positions) -> Result<Vec<A>, String> { v.iter().map(|a| from_ast(a, p)).collect() }
pub fn bare(v: &[A]) -> Vec<A> { v.iter().map(|a| { let mut a = a.strip(); a.no_issues(); a }).collect() }
fn stats(cx: &mut Ctx, v: &[A]) { cx.exec(); cx.steps(v.iter().map(|n| n.count()).sum()); cx.state(refast::hash_seq(v)) }
fn cstats(cx: &mut Ctx, v: &[N]) { cx.exec(); cx.steps(v.iter().map(|n| n.count()).sum()); cx.state(hash_seq(v)) }

// ------------------------------------------------------------------ C01
/// aux: covering set of options
pub fn total(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let o = match aux % 4 { 0 => make(0, 0, 4, 0, 0), 1 => make(1, 1, 1, 1, 7), 2 => make(2, 0, 3, 0, 2), _ => make(0, 1, 8, 1, 5) };
    let r = parse_bytes_ast_seq(b, &o);
    let c = parse_bytes_cst_seq(b, &o);
    cx.exec(); cx.exec(); cx.exec(); cx.exec(); cx.exec(); cx.exec();
    cx.steps(r.syntax.0.len() + c.syntax.0.len());
    let t = tokenize_bytes(b, &o);
    let _ = safe_string(b, &o).is_ok();
    for m in [StringifyMode::Normal, StringifyMode::Tag, StringifyMode::File] { let _ = parse_to_token(b, &o, m); }
    if c.syntax.0.len() == 1 { let _ = parse_bytes_cst(b, &o); }
    if r.syntax.0.len() == 1 { let _ = parse_bytes_ast(b, &o); }
    if let Ok(s) = std::str::from_utf8(b) {
        let t = tokenize(s, &o);
        cx.steps(t.0.len()); cx.state(crate::toks::hash_kinds(&t.0));
        let _ = iter::source_chars(s, &o).count() + iter::wolfram_chars(s, &o).count() + iter::tokens(s, &o).count();
        if aux % 4 == 0 { let _ = (parse_cst_seq(s, &o), parse_ast_seq(s, &o)); }
    } else { cx.state(t.is_ok() as u64) }
    Ok(())
}
// ------------------------------------------------------------------ C14: abstraction, given the concrete tree
pub fn desugar(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let mut o = opts(CONVS[(aux % 2) as usize], 4);
    o.quirk_settings = quirks(aux / 2 % 8);
    let p = Positions::new(b, 4);
    let c = from_seq(b, &parse_bytes_cst_seq(b, &o).syntax.0)?;
    let got = asts_of(&parse_bytes_ast_seq(b, &o).syntax.0, &p)?;
    stats(cx, &got);
    crate::asts::same(&bare(&got), &bare(&abstract_seq(b, &c, &o.quirk_settings)))
}
// ------------------------------------------------------------------ C21: quirks
pub fn quirked(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let mut o = opts(CONVS[(aux % 2) as usize], 4);
    let p = Positions::new(b, 4);
    let plain = parse_bytes_cst_seq(b, &o);
    let c = from_seq(b, &plain.syntax.0)?;
    let mut base: Option<(Vec<A>, Vec<A>)> = None;
    for q in 0..8 {
        o.quirk_settings = quirks(q);
        let r = parse_bytes_cst_seq(b, &o);
        if r.syntax != plain.syntax { return Err(format!("concrete tree differs under quirks {:?}", o.quirk_settings)) }
        let got = asts_of(&parse_bytes_ast_seq(b, &o).syntax.0, &p)?;
        stats(cx, &got);
        let exp = abstract_seq(b, &c, &o.quirk_settings);
        match &base {
            None => base = Some((got, exp)),
            // where the documented effect of the setting is none there must be none, and where there is one it is the documented one
            Some((g0, e0)) => {
                if *e0 == exp { if *g0 != got { return Err(format!("quirks {:?} change a program that has none of their constructs: {} -- {}", o.quirk_settings, refast::show_seq(g0), refast::show_seq(&got))) } }
                else { crate::asts::same(&bare(&got), &bare(&exp)).map_err(|m| format!("quirks {:?}: {m}", o.quirk_settings))? }
            }
        }
    }
    Ok(())
}
// ------------------------------------------------------------------ C18: errors
fn cst_errors(n: &N, out: &mut Vec<String>) {
    match n {
        N::Leaf { kind, off, .. } => if refparse::is_error(*kind) && !matches!(kind, T::Error_PrefixImplicitNull | T::Error_InfixImplicitNull) { out.push(format!("{kind:?}@{off}")) },
        N::Node { tag, op, ch } => { match tag { Tag::SyntaxError => out.push(format!("SyntaxError:{op}")), Tag::GroupMissingCloser => out.push("MissingCloser".into()), Tag::GroupMissingOpener => out.push("MissingOpener".into()), _ => {} } for c in ch { cst_errors(c, out) } }
    }
}
pub fn errors(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let mut o = opts(CONVS[(aux % 2) as usize], 4);
    o.quirk_settings = quirks(aux / 2 % 8);
    let p = Positions::new(b, 4);
    let c = from_seq(b, &parse_bytes_cst_seq(b, &o).syntax.0)?;
    let got = asts_of(&parse_bytes_ast_seq(b, &o).syntax.0, &p)?;
    stats(cx, &got);
    let mut want = vec![]; for n in &c { cst_errors(n, &mut want) }
    let mut have = vec![]; let mut abs = vec![];
    fn go(a: &A, have: &mut Vec<String>, abs: &mut Vec<&'static str>) {
        match a.tag {
            AT::Error => have.push(format!("{}@{}", a.op, a.src.map_or(-1, |s| s.0 as i64))),
            AT::SyntaxError => have.push(format!("SyntaxError:{}", a.op)),
            AT::GroupMissingCloser | AT::CallMissingCloser => have.push("MissingCloser".into()),
            AT::GroupMissingOpener => have.push("MissingOpener".into()),
            AT::AbstractSyntaxError => abs.push(a.op),
            _ => {}
        }
        for c in &a.ch { go(c, have, abs) }
    }
    for a in &got { go(a, &mut have, &mut abs) }
    want.sort(); have.sort();
    if want != have { return Err(format!("errors in the concrete tree: {want:?}, in the abstract tree: {have:?}")) }
    let mut e2 = vec![]; let mut dummy = vec![];
    let exp = abstract_seq(b, &c, &o.quirk_settings);
    for a in &exp { go(a, &mut dummy, &mut e2) }
    abs.sort(); e2.sort();
    if abs != e2 { return Err(format!("abstract syntax errors: expected {e2:?}, got {abs:?}")) }
    // errors the parser must (or must not) report at all
    let mut m = vec![]; for n in &refparse::parse(b, 0, CONVS[(aux % 2) as usize]) { cst_errors(n, &mut m) }
    m.sort();
    if m != want { return Err(format!("expected errors {m:?}, the concrete tree has {want:?}")) }
    Ok(())
}
// ------------------------------------------------------------------ C15: trivia insertion
pub const TRIVIA: [&[u8]; 7] = [b" ", b"\t", b"(**)", b" (* a (* b *) *) ", b"\n", b"\r\n", b"\n (**)\n"];
/// aux: gap (0..16) * 7 + kind of trivia
pub fn trivia(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let gap = (aux / 7) as usize;
    // token boundaries of the source
    let o = ParseOptions::default();
    let r = parse_bytes_cst_seq(b, &o);
    let c = from_seq(b, &r.syntax.0)?;
    let mut cuts = vec![0];
    for n in &c { n.leaves(&mut |_, _, e| if *cuts.last().unwrap() != e { cuts.push(e) }) }
    let Some(&at) = cuts.get(gap) else { return Ok(()) };
    let ins = TRIVIA[(aux % 7) as usize];
    let mut v = b[..at].to_vec(); v.extend_from_slice(ins); v.extend_from_slice(&b[at..]);
    let conv = SourceConvention::LineColumn;
    let (m1, m2) = (refparse::parse(b, 0, conv), refparse::parse(&v, 0, conv));
    let (a1, a2) = (bare(&abstract_seq(b, &m1, &o.quirk_settings)), bare(&abstract_seq(&v, &m2, &o.quirk_settings)));
    if a1 != a2 { return Ok(()) } // the insertion is one that separates a construct
    let g1 = bare(&asts_of(&parse_bytes_ast_seq(b, &o).syntax.0, &Positions::new(b, 4))?);
    let r2 = parse_bytes_ast_seq(&v, &o);
    let g2 = bare(&asts_of(&r2.syntax.0, &Positions::new(&v, 4))?);
    stats(cx, &g2);
    if g1 != g2 { return Err(format!("inserting {:?} at byte {at} changes {} to {}", show(ins), refast::show_seq(&g1), refast::show_seq(&g2))) }
    let mut bad = None;
    for a in &g2 { a.visit(&mut |a| if a.tag == AT::Leaf && matches!(a.op, "Whitespace" | "Comment" | "InternalNewline" | "ToplevelNewline") { bad = Some(a.op) }) }
    if let Some(k) = bad { return Err(format!("{k} in the abstract tree")) }
    // concrete tree: same shape, with the trivia where it stood
    let c2r = parse_bytes_cst_seq(&v, &o);
    let c2 = from_seq(&v, &c2r.syntax.0)?;
    cx.exec();
    let id = |t: &[u8], _: usize| t.to_vec();
    if shape_of(b, &m1, &id) == shape_of(&v, &m2, &id) {
        let (s1, s2) = (shape_of(b, &c, &id), shape_of(&v, &c2, &id));
        if s1 != s2 { return Err(format!("inserting {:?} at byte {at} changes the concrete tree: {} to {}", show(ins), show_s(&s1), show_s(&s2))) }
    }
    let mut p = 0; let mut e = Ok(());
    for n in &c2 { n.leaves(&mut |k, o, end| { if o != p && e.is_ok() { e = Err(format!("leaf {k:?} at byte {o} after a leaf that ends at {p}")) } p = end }) }
    e
}
// ------------------------------------------------------------------ C16: A newline B
/// End of the last leaf.
fn tree_text(v: &[N], _len: usize) -> usize { let mut m = 0; for n in v { n.leaves(&mut |_, _, e| m = m.max(e)) } m }
/// Input: A, 0xFF, B. aux: newline form.
pub fn compose(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let k = b.iter().position(|c| *c == 0xff).unwrap();
    let (a, z) = (&b[..k], &b[k + 1..]);
    let nl: &[u8] = [&b"\n"[..], b"\r\n", b"\r"][(aux / 2 % 3) as usize];
    let conv = CONVS[(aux % 2) as usize];
    let o = opts(conv, 4);
    let mut v = a.to_vec(); v.extend_from_slice(nl); v.extend_from_slice(z);
    let off = a.len() + nl.len();
    fn shift(n: &N, d: usize) -> N { match n { N::Leaf { kind, off, end } => leaf(*kind, off + d, end + d), N::Node { tag, op, ch } => node(*tag, op, ch.iter().map(|c| shift(c, d)).collect()) } }
    let cat = |x: &[N], y: &[N]| -> Vec<N> { let mut r = x.to_vec(); r.push(leaf(T::ToplevelNewline, a.len(), off)); r.extend(y.iter().map(|n| shift(n, off))); r };
    let (ma, mz, mv) = (refparse::parse(a, 0, conv), refparse::parse(z, 0, conv), refparse::parse(&v, 0, conv));
    // A without any error is complete, whatever B is; otherwise the model says whether the newline is inside something
    fn sound(n: &N) -> bool { match n { N::Leaf { kind, .. } => !refparse::is_error(*kind), N::Node { tag, ch, .. } => !matches!(tag, Tag::SyntaxError | Tag::GroupMissingCloser | Tag::GroupMissingOpener) && ch.iter().all(sound) } }
    let joins = nl == b"\r" && z.first() == Some(&b'\n') || nl[0] == b'\n' && a.last() == Some(&b'\r') || tree_text(&ma, a.len()) < a.len();
    if mv != cat(&ma, &mz) { return if ma.iter().all(sound) && !joins { Err(format!("{:?}: the model does not separate this", show(&v))) } else { Ok(()) } }
    let (ra, rz, rv) = (parse_bytes_cst_seq(a, &o), parse_bytes_cst_seq(z, &o), parse_bytes_cst_seq(&v, &o));
    let (ga, gz, gv) = (from_seq(a, &ra.syntax.0)?, from_seq(z, &rz.syntax.0)?, from_seq(&v, &rv.syntax.0)?);
    cstats(cx, &gv);
    let want = cat(&ga, &gz);
    if gv != want { return Err(format!("{:?}: expected {} -- got {}", show(&v), show_seq(&v, &want), show_seq(&v, &gv))) }
    // leaf positions of B are shifted consistently (checked against the text), those of A are unchanged
    let p = Positions::new(&v, 4);
    let mut e: R = Ok(());
    for c in &rv.syntax.0 { all_tokens(c, &mut |t| if e.is_ok() { e = otok(&v, t).and_then(|k| if span_ok(&p, k.off, k.end, t.src) { Ok(()) } else { Err(format!("{:?} at byte {}: source {:?}", k.kind, k.off, t.src)) }) }) }
    e?;
    let (pa, pz) = (Positions::new(a, 4), Positions::new(z, 4));
    let (aa, az, av) = (asts_of(&parse_bytes_ast_seq(a, &o).syntax.0, &pa)?, asts_of(&parse_bytes_ast_seq(z, &o).syntax.0, &pz)?, asts_of(&parse_bytes_ast_seq(&v, &o).syntax.0, &p)?);
    fn sh(x: &mut A, d: usize) { let s = |r: &mut refast::Src| if let Some((a, b)) = r { *a += d; *b += d }; s(&mut x.src); for i in &mut x.iss { s(&mut i.src); for m in &mut i.more { s(m) } } for c in &mut x.ch { sh(c, d) } }
    let mut want = aa; for mut x in az { sh(&mut x, off); want.push(x) }
    stats(cx, &av);
    crate::asts::same(&av, &want).map_err(|m| format!("{:?}: {m}", show(&v)))
}
// ------------------------------------------------------------------ C12: line continuations
pub const LCS: [&[u8]; 6] = [b"\\\n", b"\\\r\n", b"\\\r", b"\\\n \x0b", b"\\\n\t\x0c ", b"\\\n\\\r\n  "];
/// aux: position (0..16) * 6 + form
pub fn continuation(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let at = (aux / 6) as usize;
    if at > b.len() || at < b.len() && b[at] & 0xc0 == 0x80 { return Ok(()) }
    let ins = LCS[(aux % 6) as usize];
    let mut v = b[..at].to_vec(); v.extend_from_slice(ins); v.extend_from_slice(&b[at..]);
    let conv = SourceConvention::LineColumn;
    let o = ParseOptions::default();
    let clean = |t: &[u8], off: usize| -> Vec<u8> { // the text with the inserted bytes taken out
        let (s, e) = (at.saturating_sub(off).min(t.len()), (at + ins.len()).saturating_sub(off).min(t.len()));
        let mut r = t[..s].to_vec(); r.extend_from_slice(&t[e..]); r
    };
    let id = |t: &[u8], _: usize| t.to_vec();
    // the model says where a continuation is transparent
    let (e1, e2) = (crate::toks::expected(b, 0, conv), crate::toks::expected(&v, 0, conv));
    let line = |e: &[crate::toks::Exp], b: &[u8], cl: &dyn Fn(&[u8], usize) -> Vec<u8>| -> Vec<(T, Vec<u8>)> { e.iter().map(|e| (e.kind, cl(&b[e.off..e.end], e.off))).collect() };
    if line(&e1, b, &id) == line(&e2, &v, &clean) {
        let (Some(t1), Some(t2)) = (toks(b, &o), toks(&v, &o)) else { return Err("not tokenized".into()) };
        cx.exec(); cx.steps(t2.len()); cx.state(crate::toks::hash_kinds(&t2));
        let f = |t: &[tokenize::Token<TokenStr>], b: &[u8], cl: &dyn Fn(&[u8], usize) -> Vec<u8>| -> Result<Vec<(T, Vec<u8>)>, String> { t.iter().map(|t| { let k = otok(b, t)?; Ok((k.kind, cl(&b[k.off..k.end], k.off))) }).collect() };
        let (x, y) = (f(&t1, b, &id)?, f(&t2, &v, &clean)?);
        if x != y { return Err(format!("a continuation {:?} at byte {at} changes the tokens {x:?} to {y:?}", show(ins))) }
    }
    let (m1, m2) = (refparse::parse(b, 0, conv), refparse::parse(&v, 0, conv));
    let same_cst = shape_of(b, &m1, &id) == shape_of(&v, &m2, &clean);
    let r2 = parse_bytes_cst_seq(&v, &o);
    let c2 = from_seq(&v, &r2.syntax.0)?;
    cstats(cx, &c2);
    if same_cst {
        let c1 = from_seq(b, &parse_bytes_cst_seq(b, &o).syntax.0)?;
        let (s1, s2) = (shape_of(b, &c1, &id), shape_of(&v, &c2, &clean));
        if s1 != s2 { return Err(format!("a continuation {:?} at byte {at} changes the tree {} to {}", show(ins), show_s(&s1), show_s(&s2))) }
        // abstract tree: structure and kinds
        let (p1, p2) = (Positions::new(b, 4), Positions::new(&v, 4));
        let (x1, x2) = (skeleton(&abstract_seq(b, &m1, &o.quirk_settings)), skeleton(&abstract_seq(&v, &m2, &o.quirk_settings)));
        if x1 == x2 {
            let (a1, a2) = (skeleton(&asts_of(&parse_bytes_ast_seq(b, &o).syntax.0, &p1)?), skeleton(&asts_of(&parse_bytes_ast_seq(&v, &o).syntax.0, &p2)?));
            if a1 != a2 { return Err(format!("a continuation {:?} at byte {at} changes the abstract tree {a1} to {a2}", show(ins))) }
        }
    }
    tracked_ok(&v, 0, &r2, &Positions::new(&v, 4))
}
/// structure without leaf texts
pub fn skeleton(v: &[A]) -> String {
    fn go(a: &A, s: &mut String) { s.push_str(&format!("{:?}.{}", a.tag, a.op)); if !a.ch.is_empty() { s.push('('); for c in &a.ch { go(c, s); s.push(',') } s.push(')') } }
    let mut s = String::new(); for a in v { go(a, &mut s); s.push(';') } s
}

/// What is tracked, from the leaves of the tree: (simple, complex, newlines, tabs), as byte offsets of token starts.
pub fn tracked_of(b: &[u8], from: usize, tree: &[N]) -> [std::collections::BTreeSet<usize>; 4] {
    let mut r: [std::collections::BTreeSet<usize>; 4] = Default::default();
    let mut last = from;
    let mut one = |kind: T, off: usize, end: usize| {
        last = end;
        if off == end { return }
        let end = if runs_to_end(kind) { b.len() } else { end };
        let mut p = off;
        loop { let c = wc(b, p); if !refchar::is_lc(c.pt) || c.end > end { break } p = c.end; r[0].insert(off); while refchar::is_blank(wc(b, p).pt) { p = wc(b, p).end } }
        if p >= end { return }
        if b[p..end].starts_with(b"(*") { // comments are read raw
            for c in &b[p..end] { match c { b'\n' | b'\r' => { r[2].insert(off); } b'\t' => { r[3].insert(off); } _ => {} } }
            return
        }
        let string = b[p] == b'"' && p < end;
        let mut lc = false;
        while p < end {
            let c = wc(b, p);
            if c.end > end { break }
            if refchar::is_lc(c.pt) { lc = true; if string { r[1].insert(off); } else { r[0].insert(off); } }
            else if lc && refchar::is_blank(c.pt) { if string && c.pt == refchar::Char('\t') { r[3].insert(off); } }
            else { lc = false; if string { match c.pt { refchar::CRLF => { r[2].insert(off); } refchar::Char('\n' | '\r') => { r[2].insert(off); } refchar::Char('\t') => { r[3].insert(off); } _ => {} } } }
            p = c.end;
        }
    };
    for n in tree { n.leaves(&mut one) }
    if last < b.len() && only_lcs(&b[last..]) { r[0].insert(last); }
    r
}
pub fn tracked_ok(b: &[u8], from: usize, r: &ParseResult<NodeSeq<C>>, p: &Positions) -> R {
    let tree = from_seq(b, &r.syntax.0)?;
    let want = tracked_of(b, from, &tree);
    let t = &r.tracked;
    for (k, (name, set)) in [("simple line continuations", &t.simple_line_continuations), ("complex line continuations", &t.complex_line_continuations), ("embedded newlines", &t.embedded_newlines), ("embedded tabs", &t.embedded_tabs)].into_iter().enumerate() {
        let got = set.iter().map(|l| p.find(*l).ok_or_else(|| format!("tracked location {l:?} is not in the input"))).collect::<Result<std::collections::BTreeSet<_>, _>>()?;
        // a token directly followed by a continuation may be listed too: the reader looked through it
        let mut next = std::collections::BTreeMap::new();
        if k == 0 && got != want[0] { for n in &tree { n.leaves(&mut |_, o, e| if o != e { next.insert(o, e); }) } }
        let extra_ok = k == 0 && want[0].is_subset(&got) && got.difference(&want[0]).all(|o| next.get(o).map_or(false, |e| { let mut q = *e; while q < b.len() && b"+-.*^`".contains(&b[q]) { q += 1 } refchar::is_lc(wc(b, q).pt) }));
        // continuations in file-name operands are not tracked
        if k == 1 && got.is_subset(&want[1]) && want[1].difference(&got).all(|o| file_operands(&tree).contains(o)) { continue }
        if got != want[k] && !extra_ok { return Err(format!("{name}: expected tokens at bytes {:?}, got {got:?}", want[k])) }
    }
    Ok(())
}
fn file_operands(t: &[N]) -> Vec<usize> {
    let mut r = vec![]; let mut armed = false;
    for n in t { n.leaves(&mut |k, o, _| match k { T::LessLess | T::GreaterGreater | T::GreaterGreaterGreater => armed = true, k if refparse::is_trivia(k) => {} _ => { if armed { r.push(o) } armed = false } }) }
    r
}
// ------------------------------------------------------------------ C23
fn issue_ok(b: &[u8], i: &Issue, p: &Positions, abs: bool) -> R {
    let _ = b;
    let inside = |s: &Source| -> R { match s { Source::Span(s) => { let (a, z) = (p.find(s.start()), p.find(s.end())); match (a, z) { (Some(a), Some(z)) if a <= z => Ok(()), _ => Err(format!("issue {:?} at {s:?} is outside the input", i.tag)) } } Source::Unknown if abs => Ok(()), s => Err(format!("issue {:?} has source {s:?}", i.tag)) } };
    inside(&i.src)?;
    for s in &i.additional_sources { inside(s)? }
    if !(0.0..=1.0).contains(&i.val) { return Err(format!("issue {:?} has confidence {}", i.tag, i.val)) }
    if i.msg.is_empty() { return Err(format!("issue {:?} has no message", i.tag)) }
    for a in &i.actions { inside(&Source::Span(a.src))?; if a.label.is_empty() { return Err(format!("code action of {:?} has no label", i.tag)) } }
    Ok(())
}
pub fn issues(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let tw = TABS[(aux / 2 % 5) as usize];
    let flb = aux / 10 % 3;
    let o = make(flb, aux % 2, tw, 0, 0);
    let p = Positions::new(b, tw);
    let r = parse_bytes_cst_seq(b, &o);
    cx.exec();
    let all: Vec<&Issue> = r.fatal_issues.iter().chain(&r.non_fatal_issues).collect();
    cx.steps(all.len() + 1);
    let mut h = H::new(); for i in &all { h.u(i.tag as u64) } cx.state(h.0);
    for i in &all { issue_ok(b, i, &p, false)?; }
    for i in &r.fatal_issues { if i.sev != Severity::Fatal { return Err(format!("{:?} issue of severity {:?} among the fatal issues", i.tag, i.sev)) } }
    for i in &r.non_fatal_issues { if i.sev == Severity::Fatal { return Err(format!("{:?} issue of severity Fatal among the non-fatal issues", i.tag)) } }
    for (k, i) in all.iter().enumerate() { if all[..k].contains(i) { return Err(format!("issue {:?} at {:?} is reported twice", i.tag, i.src)) } }
    if r.unsafe_character_encoding.is_some() != r.fatal_issues.iter().any(|i| matches!(i.tag, IssueTag::IncompleteUTF8Sequence | IssueTag::StraySurrogate | IssueTag::BOM)) { return Err(format!("unsafe encoding {:?} but fatal issues {:?}", r.unsafe_character_encoding, r.fatal_issues.iter().map(|i| i.tag).collect::<Vec<_>>())) }
    tracked_ok(b, if flb == 0 { 0 } else { shebang(b) }, &r, &p)?;
    // the tokenizer and the parsers report the same
    let a = parse_bytes_ast_seq(b, &o);
    if a.fatal_issues != r.fatal_issues || a.non_fatal_issues != r.non_fatal_issues { return Err("abstract and concrete parse report different issues".into()) }
    // abstract syntax issues
    let got = asts_of(&a.syntax.0, &p)?;
    let t = from_seq(b, &r.syntax.0)?;
    let exp = abstract_seq(b, &t, &o.quirk_settings);
    let list = |v: &[A]| { let mut r = vec![]; for x in v { x.visit(&mut |a| for i in &a.iss { r.push(format!("{i:?}")) }) } r };
    let (g, e) = (list(&got), list(&exp));
    if g != e && bare(&got) == bare(&exp) { return Err(format!("abstract syntax issues: expected {e:?}, got {g:?}")) }
    Ok(())
}
// ------------------------------------------------------------------ C32
/// the reported issues are exactly those of the model: kind, severity, place, confidence, code actions
pub fn reported(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    use crate::refissue::*;
    let tw = TABS[(aux / 2 % 5) as usize];
    let flb = aux / 10 % 3;
    let boxes = aux / 30 % 2;
    let o = make(flb, aux % 2, tw, boxes, 0);
    let pos = Positions::new(b, tw);
    let r = parse_bytes_cst_seq(b, &o);
    cx.exec();
    let from = if flb == 0 { 0 } else { shebang(b) };
    let (_, mut exp) = record(|| { // the first line is not tokenized, but its characters are checked
        let mut k = 0;
        while k < from { source(b, k, How { quoted: false, report: true }); k += refchar::sc(b, k).1 }
        refparse::parse(b, from, o_conv(aux % 2))
    });
    if boxes == 1 { exp.retain(|i| i.tag != IssueTag::NonASCIICharacter) }
    cx.steps(exp.len() + 1);
    let mut h = H::new(); for i in &exp { h.u(i.tag as u64); h.u((i.e - i.s) as u64); h.u(i.acts.len() as u64) } cx.state(h.0);
    let here = |l: wolfram_parser::source::Location| pos.find(l).unwrap_or(usize::MAX);
    let mut used = vec![false; exp.len()];
    for i in r.fatal_issues.iter().chain(&r.non_fatal_issues) {
        let Source::Span(sp) = i.src else { return Err(format!("issue {:?} has source {:?}", i.tag, i.src)) };
        let (s, e, conf) = (here(sp.start()), here(sp.end()), (i.val * 100.0).round() as u32);
        let at = |x: &Is| pos.at(x.s, sp.start()) && pos.at(x.e, sp.end());
        let acts_ok = |x: &Is| {
            let mut k = 0;
            for (d, s, e) in &x.acts {
                if let Do::Nearest(_, n) = d { if nearest(n).is_empty() { continue } }
                let Some(a) = i.actions.get(k) else { return false };
                k += 1;
                if !(pos.at(*s, a.src.start()) && pos.at(*e, a.src.end())) { return false }
                let ok = match (d, &a.kind) {
                    (Do::Insert(t), CodeActionKind::InsertText { insertion_text }) => t == insertion_text,
                    (Do::Replace(t), CodeActionKind::ReplaceText { replacement_text }) => t == replacement_text,
                    (Do::Delete, CodeActionKind::DeleteText) => true,
                    (Do::Escape(c), CodeActionKind::ReplaceText { replacement_text: t }) => { let w = wc(t.as_bytes(), 0); t.is_ascii() && w.end == t.len() && (w.pt == refchar::Char(*c) || matches!((w.pt, *c), (refchar::StringMeta_FormFeed, '\x0c') | (refchar::StringMeta_Backspace, '\x08'))) }
                    (Do::Nearest(p, n), CodeActionKind::ReplaceText { replacement_text: t }) => nearest(n).iter().any(|x| *t == format!("{p}[{x}]")),
                    _ => false,
                };
                if !ok { return false }
            }
            k == i.actions.len()
        };
        let mut found = false;
        for (k, x) in exp.iter().enumerate() {
            if x.tag == i.tag && x.sev == i.sev && x.conf == conf && at(x) && acts_ok(x) { used[k] = true; found = true }
        }
        if !found { return Err(format!("unexpected issue {:?} {:?} at {s}..{e} (confidence {conf}%, actions {:?}); expected {:?}", i.tag, i.sev, i.actions.iter().map(|a| (&a.kind, here(a.src.start()), here(a.src.end()))).collect::<Vec<_>>(), exp)) }
    }
    let full = r.fatal_issues.len() >= 10;
    if r.fatal_issues.len() > 10 { return Err(format!("{} fatal issues", r.fatal_issues.len())) }
    for (k, x) in exp.iter().enumerate() { if !used[k] && !(full && x.sev == Severity::Fatal) { return Err(format!("issue not reported: {x:?}")) } }
    Ok(())
}
fn o_conv(k: u64) -> SourceConvention { CONVS[k as usize] }
// ------------------------------------------------------------------ C33
/// tokens, positions and tree, with unterminated constructs cut where the model cuts them
pub fn confined(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    crate::toks::full(b, aux, cx)?;
    crate::csts::full(b, aux, cx)
}
// ------------------------------------------------------------------ C19
/// texts, kinds and shapes are the same under all option values; positions only depend on convention and tab width
pub fn options(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let _ = aux;
    let base = make(0, 0, 4, 0, 0);
    let c0 = parse_bytes_cst_seq(b, &base);
    let a0 = parse_bytes_ast_seq(b, &base);
    let n0 = from_seq(b, &c0.syntax.0)?;
    let t0 = toks(b, &base);
    let p0 = Positions::new(b, 4);
    let g0 = bare(&asts_of(&a0.syntax.0, &p0)?);
    let kind = |t: &Option<Vec<tokenize::Token<TokenStr>>>| -> Result<Vec<OTok>, String> { t.iter().flatten().map(|t| otok(b, t)).collect() };
    let k0 = kind(&t0)?;
    let mut ci: Option<(NodeSeq<C>, Vec<Issue>)> = None;
    for (conv, tab, enc) in [(0, 1, 0), (0, 3, 0), (0, 8, 0), (1, 4, 0), (1, 1, 0), (1, 8, 0), (0, 4, 1), (1, 4, 1), (0, 2, 1)] {
        let o = make(0, conv, tab, enc, 0);
        let c = parse_bytes_cst_seq(b, &o);
        let n = from_seq(b, &c.syntax.0)?;
        cstats(cx, &n);
        let what = format!("convention {:?}, tab width {tab}, encoding mode {enc}", CONVS[conv as usize]);
        // unterminated tokens may be cut at the other side of a newline in the two conventions
        let norm = |v: &[N]| -> Vec<N> { fn f(n: &N, b: &[u8]) -> N { match n { N::Leaf { kind, off, end } if runs_to_end(*kind) => { let mut e = *end; while e > *off && matches!(b[e - 1], b'\n' | b'\r') { e -= 1 } leaf(*kind, *off, e) } N::Leaf { .. } => n.clone(), N::Node { tag, op, ch } => node(*tag, op, ch.iter().map(|c| f(c, b)).collect()) } } v.iter().map(|n| f(n, b)).collect() };
        let eq = if conv == 0 { n == n0 } else { norm(&n) == norm(&n0) || std::str::from_utf8(b).is_ok() && has_missing(&n0) };
        if !eq { return Err(format!("{what}: tree {} instead of {}", show_seq(b, &n), show_seq(b, &n0))) }
        if tab == 4 && conv == 0 && c.syntax != c0.syntax { return Err(format!("{what}: positions change")) }
        if conv == 1 {
            match &ci { None => ci = Some((c.syntax.clone(), c.non_fatal_issues.clone())), Some((s, i)) => if *s != c.syntax || enc == 0 && *i != c.non_fatal_issues { return Err(format!("{what}: positions depend on the tab width or encoding mode")) } }
        }
        if c.unsafe_character_encoding != c0.unsafe_character_encoding { return Err(format!("{what}: unsafe encoding {:?} instead of {:?}", c.unsafe_character_encoding, c0.unsafe_character_encoding)) }
        // line/column and character index agree on where each leaf is
        let p = Positions::new(b, tab);
        let places = |r: &ParseResult<NodeSeq<C>>, p: &Positions| -> [std::collections::BTreeSet<Option<usize>>; 4] { let t = &r.tracked; [t.simple_line_continuations.iter().map(|l| p.find(*l)).collect(), t.complex_line_continuations.iter().map(|l| p.find(*l)).collect(), t.embedded_newlines.iter().map(|l| p.find(*l)).collect(), t.embedded_tabs.iter().map(|l| p.find(*l)).collect()] };
        let (x, y) = (places(&c, &p), places(&c0, &p0));
        if x != y { return Err(format!("{what}: tracked places {x:?} instead of {y:?}")) }
        let tags = |v: &[Issue]| -> Vec<String> { v.iter().map(|i| format!("{:?} {:?} {}", i.tag, i.sev, i.actions.len())).collect() };
        if enc == 0 && (tags(&c.fatal_issues) != tags(&c0.fatal_issues) || tags(&c.non_fatal_issues) != tags(&c0.non_fatal_issues)) { return Err(format!("{what}: issues {:?} {:?} instead of {:?} {:?}", c.fatal_issues, c.non_fatal_issues, c0.fatal_issues, c0.non_fatal_issues)) }
        let mut e: R = Ok(());
        for x in &c.syntax.0 { all_tokens(x, &mut |t| if e.is_ok() { e = otok(b, t).and_then(|k| if span_ok(&p, k.off, k.end, t.src) { Ok(()) } else { Err(format!("{what}: {:?} at byte {} has source {:?}", k.kind, k.off, t.src)) }) }) }
        e?;
        let t = toks(b, &o);
        let k = kind(&t)?;
        let kk = |v: &[OTok]| -> Vec<OTok> { v.iter().map(|t| if runs_to_end(t.kind) { OTok { end: 0, ..*t } } else { *t }).collect() };
        if kk(&k) != kk(&k0) { return Err(format!("{what}: tokens {k:?} instead of {k0:?}")) }
        if enc == 0 || tab == 4 {
            let a = parse_bytes_ast_seq(b, &o);
            let g = bare(&asts_of(&a.syntax.0, &p)?);
            cx.exec();
            if conv == 0 && g != g0 { return Err(format!("{what}: abstract tree {} instead of {}", refast::show_seq(&g), refast::show_seq(&g0))) }
            if skeleton(&g) != skeleton(&g0) && !has_missing(&n0) { return Err(format!("{what}: abstract tree {} instead of {}", refast::show_seq(&g), refast::show_seq(&g0))) }
        }
    }
    Ok(())
}
fn has_missing(v: &[N]) -> bool { v.iter().any(|n| match n { N::Node { tag, ch, .. } => *tag == Tag::GroupMissingCloser || has_missing(ch), _ => false }) }
// ------------------------------------------------------------------ C22
pub fn coherent(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let o = make(aux / 2 % 3, aux % 2, TABS[(aux / 6 % 5) as usize], 0, aux / 6 % 8);
    let c = parse_bytes_cst_seq(b, &o);
    let a = parse_bytes_ast_seq(b, &o);
    let n = from_seq(b, &c.syntax.0)?;
    cstats(cx, &n);
    let meta = |x: &ParseResult<NodeSeq<C>>, y: (&Option<UnsafeCharacterEncoding>, &Vec<Issue>, &Vec<Issue>)| x.unsafe_character_encoding == *y.0 && x.fatal_issues == *y.1 && x.non_fatal_issues == *y.2;
    // abstract parse == aggregate, then abstract
    let again: Vec<ast::Ast> = abstract_cst::aggregate_cst_seq(c.syntax.clone()).0.into_iter().map(|x| abstract_cst::abstract_cst(x, o.quirk_settings)).collect();
    cx.exec();
    if again != a.syntax.0 { return Err("abstract parse differs from aggregating and abstracting the concrete parse".into()) }
    if !meta(&c, (&a.unsafe_character_encoding, &a.fatal_issues, &a.non_fatal_issues)) { return Err("concrete and abstract parse report different issues".into()) }
    // an owned copy of the tree abstracts to the same
    let owned: Vec<ast::Ast> = c.syntax.0.iter().cloned().map(|x| x.into_owned_input()).filter_map(|x| abstract_cst::aggregate_cst(x)).map(|x| abstract_cst::abstract_cst(x, o.quirk_settings)).collect();
    if owned != a.syntax.0 { return Err("abstracting an owned copy of the tree gives another result".into()) }
    if c.syntax.0.len() == 1 { let s = parse_bytes_cst(b, &o); if s.syntax != c.syntax.0[0] || s.non_fatal_issues != c.non_fatal_issues { return Err("parse_bytes_cst differs from parse_bytes_cst_seq".into()) } }
    if a.syntax.0.len() == 1 { let s = parse_bytes_ast(b, &o); if s.syntax != a.syntax.0[0] { return Err("parse_bytes_ast differs from parse_bytes_ast_seq".into()) } }
    let tb = tokenize_bytes(b, &o);
    if let Ok(s) = std::str::from_utf8(b) {
        let c2 = parse_cst_seq(s, &o);
        if c2.syntax != c.syntax || !meta(&c, (&c2.unsafe_character_encoding, &c2.fatal_issues, &c2.non_fatal_issues)) { return Err("parse_cst_seq differs from parse_bytes_cst_seq".into()) }
        let a2 = parse_ast_seq(s, &o);
        if a2.syntax != a.syntax { return Err("parse_ast_seq differs from parse_bytes_ast_seq".into()) }
        if c.syntax.0.len() == 1 && parse_cst(s, &o).syntax != c.syntax.0[0] { return Err("parse_cst differs from parse_cst_seq".into()) }
        if a.syntax.0.len() == 1 && parse_ast(s, &o).syntax != a.syntax.0[0] { return Err("parse_ast differs from parse_ast_seq".into()) }
        let t = tokenize(s, &o);
        if let Ok(x) = &tb { if *x != t { return Err("tokenize differs from tokenize_bytes".into()) } }
        let it: Vec<_> = iter::tokens(s, &o).collect();
        cx.steps(t.0.len());
        if it.len() != t.0.len() { return Err(format!("the token iterator yields {} tokens, tokenize {}", it.len(), t.0.len())) }
        for (x, y) in it.iter().zip(&t.0) { if x != y && !(runs_to_end(y.tok) && x.tok == y.tok && x.src.start() == y.src.start()) { return Err(format!("the token iterator yields {x:?}, tokenize {y:?}")) } }
        // characters
        let sc: Vec<_> = iter::source_chars(s, &o).collect();
        let mut p = 0; for c in &sc { let (m, k) = refchar::sc(b, p); if m.imp() != *c { return Err(format!("source character {c:?} at byte {p}, expected {m:?}")) } p += k }
        // leaves of the tree are the tokens, up to newline policy, error recovery and raw-text operands
        let mut toks: Vec<(usize, usize)> = vec![]; for t in &t.0 { let k = otok(b, t)?; toks.push((k.off, k.end)) }
        let raw = t.0.iter().any(|t| matches!(t.tok, T::LessLess | T::GreaterGreater | T::GreaterGreaterGreater | T::ColonColon | T::Hash | T::HashHash | T::Percent | T::Under | T::UnderUnder | T::UnderUnderUnder) || runs_to_end(t.tok)) || has_missing(&n);
        if !raw { let mut l = vec![]; for x in &n { x.leaves(&mut |_, o, e| if o != e { l.push((o, e)) }) } if l != toks { return Err(format!("leaves {l:?} are not the tokens {toks:?}")) } }
    } else if let Ok(_) = tb { return Err("tokenize_bytes accepts invalid UTF-8".into()) }
    // one token
    let one = parse_to_token(b, &o, StringifyMode::Normal);
    if let (1, Some(t)) = (one.syntax.0.len(), toks(b, &o)) {
        let x = one.syntax.0[0];
        match t.first() { None => if x.tok != T::EndOfFile { return Err(format!("parse_to_token gives {x:?} where there is no token")) }, Some(y) => if !(x == *y || runs_to_end(y.tok) && x.tok == y.tok) { return Err(format!("parse_to_token gives {x:?}, tokenize {y:?}")) } }
    }
    Ok(())
}
// ------------------------------------------------------------------ C24
pub fn first_line(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let flb = aux / 2 % 3; let conv = CONVS[(aux % 2) as usize];
    let o = make(flb, aux % 2, 4, 0, 0);
    let from = if flb == 0 { 0 } else { shebang(b) };
    let r = parse_bytes_cst_seq(b, &o);
    let n = from_seq(b, &r.syntax.0)?;
    cstats(cx, &n);
    let mut first = None;
    for x in &n { x.leaves(&mut |_, o, e| if first.is_none() && (o != e || o > 0) { first = Some(o) }) }
    if let Some(f) = first { if f != from { return Err(format!("parsing starts at byte {f}, expected {from}")) } }
    else if from < b.len() && !only_lcs(&b[from..]) { return Err(format!("nothing was parsed after byte {from}")) }
    // the rest is parsed as if alone
    let alone = from_seq(&b[from..], &parse_bytes_cst_seq(&b[from..], &opts(conv, 4)).syntax.0)?;
    fn shift(n: &N, d: usize) -> N { match n { N::Leaf { kind, off, end } => leaf(*kind, off + d, end + d), N::Node { tag, op, ch } => node(*tag, op, ch.iter().map(|c| shift(c, d)).collect()) } }
    let want: Vec<N> = alone.iter().map(|n| shift(n, from)).collect();
    if n != want { return Err(format!("after a first line of {from} bytes: expected {} -- got {}", show_seq(b, &want), show_seq(b, &n))) }
    // with positions kept
    let p = Positions::new(b, 4);
    let mut e: R = Ok(());
    for x in &r.syntax.0 { all_tokens(x, &mut |t| if e.is_ok() { e = otok(b, t).and_then(|k| if span_ok(&p, k.off, k.end, t.src) { Ok(()) } else { Err(format!("{:?} at byte {}: source {:?}", k.kind, k.off, t.src)) }) }) }
    e?;
    if let Ok(s) = std::str::from_utf8(b) {
        let t = tokenize(s, &o).0;
        cx.exec(); cx.steps(t.len());
        crate::toks::compare(b, &t, &tok_shift(&b[from..], from, conv)?, Some(&p))?;
    }
    Ok(())
}
fn tok_shift(rest: &[u8], from: usize, conv: SourceConvention) -> Result<Vec<crate::toks::Exp>, String> {
    let Ok(s) = std::str::from_utf8(rest) else { return Ok(vec![]) };
    let t = tokenize(s, &opts(conv, 4)).0;
    t.iter().map(|t| { let k = otok(rest, t)?; Ok(crate::toks::Exp { kind: k.kind, off: k.off + from, end: k.end + from }) }).collect()
}
// ------------------------------------------------------------------ C25
/// aux 0,1: tree differential in both conventions; 2,3: single token modes
pub fn raw_text(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    if aux < 2 { return crate::csts::full(b, aux, cx) }
    let mode = if aux == 2 { StringifyMode::Tag } else { StringifyMode::File };
    let o = opts(CONVS[0], 4);
    let r = parse_to_token(b, &o, mode);
    let m = if aux == 2 { lex_tag(b, 0) } else { lex_file(b, 0) };
    cx.exec(); cx.steps(1); cx.state(m.kind as u64);
    let [t] = &r.syntax.0[..] else { return Err(format!("{} tokens instead of one", r.syntax.0.len())) };
    let k = otok(b, t)?;
    if k.kind != m.kind || k.off != m.off || k.end != m.end { return Err(format!("expected {:?} {:?}, got {:?} {:?}", m.kind, show(&b[m.off..m.end]), k.kind, show(&b[k.off..k.end]))) }
    Ok(())
}
// ------------------------------------------------------------------ C08
/// token kinds and texts, concrete and abstract tree as the model's
pub fn spelled(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    kinds(b, aux, cx)?;
    crate::csts::full(b, aux, cx)?;
    let p = Positions::new(b, 4);
    let o = opts(CONVS[(aux % 2) as usize], 4);
    let got = asts_of(&parse_bytes_ast_seq(b, &o).syntax.0, &p)?;
    stats(cx, &got);
    crate::asts::same(&bare(&got), &bare(&abstract_seq(b, &refparse::parse(b, 0, CONVS[(aux % 2) as usize]), &o.quirk_settings)))
}
/// C07: the decoded characters, and what the tokenizer makes of them
pub fn escape(b: &[u8], aux: u64, cx: &mut Ctx) -> R { decoded(b, aux, cx)?; kinds(b, aux, cx) }
// ------------------------------------------------------------------ C17
fn balanced(b: &[u8]) -> bool {
    let s = std::str::from_utf8(b).unwrap_or("");
    let mut st = vec![]; let mut i = 0;
    const PAIRS: [(&str, &str); 17] = [("\\[LeftDoubleBracket]", "\\[RightDoubleBracket]"), ("\\[LeftAssociation]", "\\[RightAssociation]"), ("\\[LeftAngleBracket]", "\\[RightAngleBracket]"), ("\\[LeftCeiling]", "\\[RightCeiling]"), ("\\[LeftFloor]", "\\[RightFloor]"), ("\\[LeftBracketingBar]", "\\[RightBracketingBar]"), ("\\[LeftDoubleBracketingBar]", "\\[RightDoubleBracketingBar]"), ("\\[OpenCurlyQuote]", "\\[CloseCurlyQuote]"), ("\\[OpenCurlyDoubleQuote]", "\\[CloseCurlyDoubleQuote]"), ("<|", "|>"), ("::[", "]"), ("(", ")"), ("[", "]"), ("{", "}"), ("", ""), ("", ""), ("", "")];
    'o: while i < s.len() {
        let r = &s[i..];
        for (o, c) in PAIRS { if o.is_empty() { continue }
            if r.starts_with(o) { st.push(c); i += o.len(); continue 'o }
            if r.starts_with(c) { if st.pop() != Some(c) { return false } i += c.len(); continue 'o } }
        i += r.chars().next().unwrap().len_utf8();
    }
    st.is_empty()
}
pub fn brackets(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let conv = CONVS[(aux % 2) as usize];
    let r = parse_bytes_cst_seq(b, &opts(conv, 4));
    let got = from_seq(b, &r.syntax.0)?;
    cstats(cx, &got);
    // independent of the model: a balanced sequence has no bracket error, any other has one
    let mut e = false;
    fn go(n: &N, e: &mut bool) { match n { N::Leaf { kind, .. } => *e |= *kind == T::Error_UnexpectedCloser, N::Node { tag, ch, .. } => { *e |= matches!(tag, Tag::GroupMissingCloser | Tag::GroupMissingOpener); for c in ch { go(c, e) } } } }
    for n in &got { go(n, &mut e) }
    if e == balanced(b) { return Err(format!("{} brackets, but the tree is {}", if e { "balanced" } else { "unbalanced" }, show_seq(b, &got))) }
    crate::csts::same(b, &no_trivia(&got), &no_trivia(&refparse::parse(b, 0, conv)))
}

// ------------------------------------------------------------------ C26
/// The build under test has other features than the default one.
pub fn features(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    crate::toks::full(b, aux, cx)?; crate::csts::full(b, aux, cx)?; crate::asts::full(b, aux, cx)
}
