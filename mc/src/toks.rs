//! Token-level checks: implementation vs reference model.
use crate::engine::*;
use crate::obs::*;
use crate::pos::Positions;
use crate::reftok::*;
use wolfram_parser::source::SourceConvention;
use wolfram_parser::tokenize::*;
use wolfram_parser::*;

pub struct Exp { pub kind: TokenKind, pub off: usize, pub end: usize }
/// Expected tokens of `tokenize` from byte `from`.
pub fn expected(b: &[u8], from: usize, conv: SourceConvention) -> Vec<Exp> {
    let utf8 = std::str::from_utf8(b).is_ok();
    raw_tokens(b, from).0.into_iter().map(|t| {
        let end = if utf8 && runs_to_end(t.kind) { let c = cut(b, t.off); if conv == SourceConvention::LineColumn { c.0 } else { c.1 } } else { t.end };
        Exp { kind: t.kind, off: t.off, end }
    }).collect()
}
pub fn compare(b: &[u8], got: &[Token<TokenStr>], exp: &[Exp], pos: Option<&Positions>) -> R {
    for (i, e) in exp.iter().enumerate() {
        let Some(g) = got.get(i) else { return Err(format!("token {i} is missing: expected {:?} {:?}", e.kind, show(&b[e.off..e.end]))) };
        let o = otok(b, g)?;
        if o.kind != e.kind || o.off != e.off || o.end != e.end { return Err(format!("token {i}: expected {:?} {:?} at bytes {}..{}, got {:?} {:?} at {}..{}", e.kind, show(&b[e.off..e.end]), e.off, e.end, o.kind, show(&b[o.off..o.end]), o.off, o.end)) }
        if let Some(p) = pos { if !span_ok(p, e.off, e.end, g.src) { return Err(format!("token {i} ({:?} {:?}): source {:?}, expected {:?} to {:?}", e.kind, show(&b[e.off..e.end]), g.src, p.0[e.off], p.0[e.end])) } }
    }
    if got.len() > exp.len() { return Err(format!("unexpected extra token {:?} {:?}", got[exp.len()].tok, show(got[exp.len()].input.as_bytes()))) }
    Ok(())
}
pub fn hash_kinds(got: &[Token<TokenStr>]) -> u64 { let mut h = H::new(); for t in got { h.u(t.tok as u64); h.u(t.input.as_bytes().len() as u64) } h.0 }
/// tokenize == model (kinds, extents, positions); aux selects the convention.
pub fn full(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let conv = CONVS[(aux % 2) as usize];
    let tw = [4u32, 1, 3, 8][(aux / 2 % 4) as usize];
    let o = opts(conv, tw);
    let pos = Positions::new(b, tw);
    let exp = expected(b, 0, conv);
    let r;
    let got: &[Token<TokenStr>] = match std::str::from_utf8(b) {
        Ok(s) => { r = tokenize(s, &o); &r.0 }
        Err(_) => match tokenize_bytes(b, &o) { Ok(x) => { r = x; &r.0 } Err(_) => return Ok(()) },
    };
    cx.exec(); cx.steps(got.len()); cx.state(hash_kinds(got));
    compare(b, got, &exp, Some(&pos))
}
