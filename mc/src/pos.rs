//! Reference model of source positions.
use crate::refchar::*;
use wolfram_parser::source::*;
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Pos { pub line: u32, pub col: u32, pub idx: u32 }
pub struct Positions(pub Vec<Option<Pos>>);
impl Positions {
    pub fn new(b: &[u8], tw: u32) -> Self {
        let mut v = vec![None; b.len() + 1];
        let mut p = Pos { line: 1, col: 1, idx: 1 };
        let mut i = 0;
        loop {
            v[i] = Some(p);
            let (c, n) = sc(b, i);
            match c {
                EndOfFile => break,
                CRLF => { p = Pos { line: p.line + 1, col: 1, idx: p.idx + 2 } }
                Char('\n' | '\r') => { p = Pos { line: p.line + 1, col: 1, idx: p.idx + 1 } }
                Char('\t') => { p.idx += 1; p.col = (p.col - 1) / tw * tw + tw + 1 }
                _ => { p.idx += 1; p.col += 1 }
            }
            i += n;
        }
        Positions(v)
    }
    pub fn at(&self, off: usize, l: Location) -> bool {
        match (self.0.get(off).copied().flatten(), l) {
            (Some(p), Location::LineColumn(LineColumn(a, b))) => a.get() == p.line && b.get() == p.col,
            (Some(p), Location::CharacterIndex(i)) => i == p.idx,
            _ => false,
        }
    }
    /// the byte offset of a location, if it is the location of a character
    pub fn find(&self, l: Location) -> Option<usize> {
        let (mut lo, mut hi) = (0, self.0.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            let mut m = mid;
            while m > lo && self.0[m].is_none() { m -= 1 }
            let Some(p) = self.0[m] else { lo = mid + 1; continue };
            let c = match l { Location::LineColumn(LineColumn(a, b)) => (p.line, p.col).cmp(&(a.get(), b.get())), Location::CharacterIndex(i) => p.idx.cmp(&i) };
            match c { std::cmp::Ordering::Equal => return Some(m), std::cmp::Ordering::Less => lo = mid + 1, std::cmp::Ordering::Greater => hi = m }
        }
        None
    }
}
