//! Canonical concrete syntax trees: what the implementation built, and what the model builds.
use crate::obs::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use wolfram_parser::cst::*;
use wolfram_parser::parse::SyntaxErrorKind;
use wolfram_parser::tokenize::*;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Leaf { kind: TokenKind, off: usize, end: usize },
    /// Call: children are the head nodes followed by the body (tag Group or GroupMissingCloser).
    Node { tag: Tag, op: &'static str, ch: Vec<N> },
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tag { Call, SyntaxError, Prefix, Infix, Postfix, Binary, Ternary, PrefixBinary, Compound, Group, GroupMissingCloser, GroupMissingOpener, Other }
pub fn leaf(kind: TokenKind, off: usize, end: usize) -> N { N::Leaf { kind, off, end } }
pub fn node(tag: Tag, op: &'static str, ch: Vec<N>) -> N { N::Node { tag, op, ch } }

/// Debug name of a (field-less) operator, interned.
pub fn opname<T: Debug + Copy + 'static>(t: &T) -> &'static str {
    thread_local! { static C: RefCell<HashMap<(usize, u16), &'static str>> = RefCell::new(HashMap::new()); }
    let raw = match std::mem::size_of::<T>() { 1 => unsafe { *(t as *const T as *const u8) as u16 }, 2 => unsafe { *(t as *const T as *const u16) }, _ => return intern(&format!("{t:?}")) };
    let key = (std::any::type_name::<T>().as_ptr() as usize, raw);
    C.with(|c| *c.borrow_mut().entry(key).or_insert_with(|| intern(&format!("{t:?}"))))
}
pub fn intern(s: &str) -> &'static str {
    thread_local! { static C: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()); }
    C.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(x) = c.get(s) { return *x }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        c.insert(s.to_string(), l);
        l
    })
}
type C<'i> = Cst<TokenStr<'i>>;
pub fn from_cst(base: &[u8], c: &C) -> Result<N, String> {
    fn seq(base: &[u8], c: &[C]) -> Result<Vec<N>, String> { c.iter().map(|x| from_cst(base, x)).collect() }
    macro_rules! opn { ($tag:expr, $n:expr) => { Ok(node($tag, opname(&$n.0.op), seq(base, &$n.0.children.0)?)) } }
    match c {
        Cst::Token(t) => { let o = otok(base, t)?; Ok(leaf(o.kind, o.off, o.end)) }
        Cst::Call(CallNode { head, body }) => {
            let mut v = match head { CallHead::Concrete(s) => seq(base, &s.0)?, CallHead::Aggregate(h) => vec![from_cst(base, h)?] };
            v.push(match body {
                CallBody::Group(g) => node(Tag::Group, opname(&g.0.op), seq(base, &g.0.children.0)?),
                CallBody::GroupMissingCloser(g) => node(Tag::GroupMissingCloser, opname(&g.0.op), seq(base, &g.0.children.0)?),
            });
            Ok(node(Tag::Call, "", v))
        }
        Cst::SyntaxError(SyntaxErrorNode { err, children }) => Ok(node(Tag::SyntaxError, opname::<SyntaxErrorKind>(err), seq(base, &children.0)?)),
        Cst::Prefix(n) => opn!(Tag::Prefix, n),
        Cst::Infix(n) => opn!(Tag::Infix, n),
        Cst::Postfix(n) => opn!(Tag::Postfix, n),
        Cst::Binary(n) => opn!(Tag::Binary, n),
        Cst::Ternary(n) => opn!(Tag::Ternary, n),
        Cst::PrefixBinary(n) => opn!(Tag::PrefixBinary, n),
        Cst::Compound(n) => opn!(Tag::Compound, n),
        Cst::Group(n) => opn!(Tag::Group, n),
        Cst::GroupMissingCloser(n) => opn!(Tag::GroupMissingCloser, n),
        Cst::GroupMissingOpener(n) => opn!(Tag::GroupMissingOpener, n),
        other => Err(format!("unexpected node in a parsed tree: {:?}", std::mem::discriminant(other))),
    }
}
pub fn from_seq(base: &[u8], c: &[C]) -> Result<Vec<N>, String> { c.iter().map(|x| from_cst(base, x)).collect() }
impl N {
    pub fn leaves<'a>(&'a self, f: &mut impl FnMut(TokenKind, usize, usize)) {
        match self { N::Leaf { kind, off, end } => f(*kind, *off, *end), N::Node { ch, .. } => for c in ch { c.leaves(f) } }
    }
    pub fn show(&self, b: &[u8]) -> String {
        match self {
            N::Leaf { kind, off, end } if off == end => format!("{kind:?}@{off}"),
            N::Leaf { kind, off, end } => format!("{kind:?}:{}", crate::engine::show(&b[*off..*end])),
            N::Node { tag, op, ch } => format!("{tag:?}{}{op}({})", if op.is_empty() { "" } else { ":" }, ch.iter().map(|c| c.show(b)).collect::<Vec<_>>().join(", ")),
        }
    }
    pub fn count(&self) -> usize { match self { N::Leaf { .. } => 1, N::Node { ch, .. } => 1 + ch.iter().map(|c| c.count()).sum::<usize>() } }
    /// structural hash (kinds and shapes, not positions)
    pub fn hash(&self, h: &mut crate::engine::H) {
        match self {
            N::Leaf { kind, .. } => h.u(*kind as u64),
            N::Node { tag, op, ch } => { h.u(0x10000 + *tag as u64); h.b(op.as_bytes()); for c in ch { c.hash(h) } h.u(0x20000) }
        }
    }
}
pub fn show_seq(b: &[u8], v: &[N]) -> String { v.iter().map(|n| n.show(b)).collect::<Vec<_>>().join(" ; ") }
pub fn hash_seq(v: &[N]) -> u64 { let mut h = crate::engine::H::new(); for n in v { n.hash(&mut h) } h.0 }
