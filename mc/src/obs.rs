//! Observation of the implementation's results in canonical form.
use crate::pos::Positions;
use wolfram_parser::source::*;
use wolfram_parser::tokenize::*;
use wolfram_parser::*;

pub const CONVS: [SourceConvention; 2] = [SourceConvention::LineColumn, SourceConvention::CharacterIndex];
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct OTok { pub kind: TokenKind, pub off: usize, pub end: usize }
pub fn slice_off(base: &[u8], s: &[u8]) -> Option<(usize, usize)> {
    let (b, p) = (base.as_ptr() as usize, s.as_ptr() as usize);
    if p < b || p + s.len() > b + base.len() { return None }
    Some((p - b, p - b + s.len()))
}
pub fn otok(base: &[u8], t: &Token<TokenStr>) -> Result<OTok, String> {
    let (off, end) = slice_off(base, t.input.as_bytes()).ok_or_else(|| format!("text of {:?} token is not a slice of the input", t.tok))?;
    Ok(OTok { kind: t.tok, off, end })
}
pub fn span_ok(p: &Positions, off: usize, end: usize, s: Span) -> bool { p.at(off, s.start()) && p.at(end, s.end()) }
pub fn opts(conv: SourceConvention, tw: u32) -> ParseOptions { ParseOptions::default().source_convention(conv).tab_width(tw) }
