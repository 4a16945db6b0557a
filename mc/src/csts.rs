//! Tree-level checks: implementation vs reference model.
use crate::engine::*;
use crate::obs::*;
use crate::refparse;
use crate::tree::*;
use wolfram_parser::*;

pub fn same(b: &[u8], got: &[N], exp: &[N]) -> R {
    if got == exp { return Ok(()) }
    Err(format!("expected {} -- got {}", show_seq(b, exp), show_seq(b, got)))
}
pub fn full(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let conv = CONVS[(aux % 2) as usize];
    let o = opts(conv, 4);
    let r = parse_bytes_cst_seq(b, &o);
    let got = from_seq(b, &r.syntax.0)?;
    cx.exec(); cx.steps(got.iter().map(|n| n.count()).sum()); cx.state(hash_seq(&got));
    same(b, &got, &refparse::parse(b, 0, conv))
}
