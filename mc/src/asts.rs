//! Abstract-tree checks: implementation vs reference model.
use crate::engine::*;
use crate::obs::*;
use crate::pos::Positions;
use crate::refast::*;
use crate::refparse;
use wolfram_parser::*;

pub fn quirks(i: u64) -> QuirkSettings { QuirkSettings::default().infix_binary_at(i & 1 == 0).flatten_times(i & 2 != 0).old_at_at_at(i & 4 != 0) }
pub fn same(got: &[A], exp: &[A]) -> R {
    if got == exp { return Ok(()) }
    Err(format!("expected {} -- got {}", show_seq(exp), show_seq(got)))
}
/// aux: convention + 2 * quirks
pub fn full(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let conv = CONVS[(aux % 2) as usize];
    let mut o = opts(conv, 4);
    o.quirk_settings = quirks(aux / 2 % 8);
    let p = Positions::new(b, 4);
    let r = parse_bytes_ast_seq(b, &o);
    let got = r.syntax.0.iter().map(|a| from_ast(a, &p)).collect::<Result<Vec<_>, _>>()?;
    cx.exec(); cx.steps(got.iter().map(|n| n.count()).sum()); cx.state(hash_seq(&got));
    same(&got, &abstract_seq(b, &refparse::parse(b, 0, conv), &o.quirk_settings))
}
