//! C27: what the kernel-facing library reads from and puts on its link. The library itself (/repo/crates/codeparser-wll)
//! is compiled unchanged against a stand-in link that records a stream of tokens.
use crate::api::{ctx, error_kind, first, join, kids, kind_name, last, range, trivia};
use crate::engine::*;
use crate::gens::*;
use crate::inv::make;
use crate::tree::opname;
use codeparser_wll as wll;
use std::fmt::Debug;
use wolfram_library_link::{rtl, wstp::{Link, Tok}};
use wolfram_parser::ast::*;
use wolfram_parser::cst::*;
use wolfram_parser::issue::*;
use wolfram_parser::source::*;
use wolfram_parser::tokenize::{Token, TokenInput, TokenKind as T};
use wolfram_parser::*;

// ------------------------------------------------------------------ the expression form, written from the documentation of the node types
#[derive(Default, Clone)]
struct W(Vec<Tok>);
impl W {
    fn f(&mut self, h: &str, n: usize) -> &mut W { self.0.push(Tok::Func(n)); self.s(h) }
    fn s(&mut self, x: &str) -> &mut W { self.0.push(Tok::Sym(x.to_string())); self }
    fn t(&mut self, x: &str) -> &mut W { self.0.push(Tok::Str(x.to_string())); self }
    fn i(&mut self, x: i64) -> &mut W { self.0.push(Tok::Int(x)); self }
    fn loc(&mut self, l: Location) { self.f("System`List", 2); match l { Location::LineColumn(LineColumn(a, b)) => { self.i(a.get().into()).i(b.get().into()); } Location::CharacterIndex(i) => { self.i(0).i(i.into()); } } }
    /// line/column spans are a pair of pairs, character spans the first and the last character
    fn span(&mut self, s: Span) { self.f("System`List", 2); match (s.start(), s.end()) { (Location::CharacterIndex(a), Location::CharacterIndex(b)) => { self.i(a.into()).i(i64::from(b) - 1); } (a, b) => { self.loc(a); self.loc(b) } } }
    fn source_value(&mut self, s: &Source) { match s { Source::Span(s) => self.span(*s), Source::Box(BoxPosition::At(v)) => { self.f("System`List", v.len()); for i in v { self.i(*i as i64); } } Source::Box(BoxPosition::Before(v)) => { self.f("System`Before", 1).f("System`List", v.len()); for i in v { self.i(*i as i64); } } Source::Box(BoxPosition::After(v)) => { self.f("System`After", 1).f("System`List", v.len()); for i in v { self.i(*i as i64); } } _ => unreachable!() } }
    fn at(&mut self, s: Span) { self.f("System`Association", 1).f("System`Rule", 2).s("CodeParser`Source"); self.span(s) }
    fn leaf<I: TokenInput>(&mut self, t: &Token<I, Span>) { self.f(if error_kind(t.tok) { "CodeParser`ErrorNode" } else { "CodeParser`LeafNode" }, 3).s(&kind_name(t.tok)).t(std::str::from_utf8(t.input.as_bytes()).unwrap()); self.at(t.src) }
    fn seq<I: TokenInput>(&mut self, v: &[Cst<I, Span>]) { self.f("System`List", v.len()); for c in v { self.cst(c) } }
    fn op<I: TokenInput, O: Debug + Copy + 'static>(&mut self, h: &str, n: &OperatorNode<I, Span, O>) { self.f(&format!("CodeParser`{h}"), 3).s(&ctx(opname(&n.op), "System")); self.seq(&n.children.0); self.at(range(&n.children.0)) }
    fn cst<I: TokenInput>(&mut self, c: &Cst<I, Span>) {
        match c {
            Cst::Token(t) => self.leaf(t),
            Cst::Call(n) => {
                self.f("CodeParser`CallNode", 3);
                match &n.head { CallHead::Concrete(h) => self.seq(&h.0), CallHead::Aggregate(h) => self.cst(h) }
                match &n.body { CallBody::Group(g) => self.op("GroupNode", &g.0), CallBody::GroupMissingCloser(g) => self.op("GroupMissingCloserNode", &g.0) }
                self.at(join(first(c), last(c)))
            }
            Cst::SyntaxError(n) => { self.f("CodeParser`SyntaxErrorNode", 3).s(&format!("SyntaxError`{:?}", n.err)); self.seq(&n.children.0); self.at(range(&n.children.0)) }
            Cst::Prefix(n) => self.op("PrefixNode", &n.0), Cst::Infix(n) => self.op("InfixNode", &n.0), Cst::Postfix(n) => self.op("PostfixNode", &n.0), Cst::Binary(n) => self.op("BinaryNode", &n.0), Cst::Ternary(n) => self.op("TernaryNode", &n.0), Cst::PrefixBinary(n) => self.op("PrefixBinaryNode", &n.0), Cst::Compound(n) => self.op("CompoundNode", &n.0),
            Cst::Group(n) => self.op("GroupNode", &n.0), Cst::GroupMissingCloser(n) => self.op("GroupMissingCloserNode", &n.0), Cst::GroupMissingOpener(n) => self.op("GroupMissingOpenerNode", &n.0),
            Cst::Box(_) | Cst::Code(_) => unreachable!(),
        }
    }
    fn issues(&mut self, v: &[Issue]) { self.f("System`List", v.len()); for i in v { self.issue(i) } }
    fn issue(&mut self, i: &Issue) {
        self.f(i.make_sym.as_str(), 4).t(&format!("{:?}", i.tag)).t(&i.msg).t(&format!("{:?}", i.sev));
        let n = [i.actions.is_empty(), i.additional_descriptions.is_empty(), i.additional_sources.is_empty()].iter().filter(|x| !**x).count();
        self.f("System`Association", 2 + n);
        // the source comes as an association of its own, which an association flattens
        self.f("System`Association", 1).f("System`Rule", 2).s("CodeParser`Source"); self.source_value(&i.src);
        self.f("System`Rule", 2).s("System`ConfidenceLevel"); self.0.push(Tok::Real(i.val));
        if !i.actions.is_empty() {
            self.f("System`Rule", 2).s("CodeParser`CodeActions").f("System`List", i.actions.len());
            for a in &i.actions {
                let (k, text) = match &a.kind { CodeActionKind::ReplaceText { replacement_text: t } => ("ReplaceText", Some(("ReplacementText", t))), CodeActionKind::InsertText { insertion_text: t } => ("InsertText", Some(("InsertionText", t))), CodeActionKind::DeleteText => ("DeleteText", None) };
                self.f("CodeParser`CodeAction", 3).t(&a.label).s(&format!("CodeParser`{k}")).f("System`Association", 1 + text.is_some() as usize);
                self.at(a.src);
                if let Some((k, t)) = text { self.f("System`Rule", 2).t(k).t(t); }
            }
        }
        if !i.additional_descriptions.is_empty() { self.f("System`Rule", 2).t("AdditionalDescriptions").f("System`List", i.additional_descriptions.len()); for d in &i.additional_descriptions { self.t(d); } }
        if !i.additional_sources.is_empty() { self.f("System`Rule", 2).t("AdditionalSources").f("System`List", i.additional_sources.len()); for s in &i.additional_sources { self.source_value(s) } }
    }
    fn data(&mut self, d: &AstMetadata) {
        let src = !matches!(d.source, Source::Unknown);
        self.f("System`Association", src as usize + !d.issues.is_empty() as usize);
        if src { self.f("System`Rule", 2).s("CodeParser`Source"); self.source_value(&d.source) }
        if !d.issues.is_empty() { self.f("System`Rule", 2).s("CodeParser`AbstractSyntaxIssues"); self.issues(&d.issues) }
    }
    fn asts(&mut self, v: &[Ast]) { self.f("System`List", v.len()); for a in v { self.ast(a) } }
    fn ast(&mut self, a: &Ast) {
        let g = |o: &parse::operators::GroupOperator| ctx(opname(o), "System");
        match a {
            Ast::Leaf { kind, input, data } => { self.f("CodeParser`LeafNode", 3).s(&kind_name(*kind)).t(input.as_str()); self.data(data) }
            Ast::Error { kind, input, data } => { self.f("CodeParser`ErrorNode", 3).s(&kind_name(*kind)).t(input.as_str()); self.data(data) }
            Ast::Call { head, args, data } => { self.f("CodeParser`CallNode", 3); self.ast(head); self.asts(args); self.data(data) }
            Ast::CallMissingCloser { head, args, data } => { self.f("CodeParser`CallMissingCloserNode", 3); self.ast(head); self.asts(args); self.data(data) }
            Ast::SyntaxError { kind, children, data } => { self.f("CodeParser`SyntaxErrorNode", 3).s(&format!("SyntaxError`{kind:?}")); self.asts(children); self.data(data) }
            Ast::AbstractSyntaxError { kind, args, data } => { self.f("CodeParser`AbstractSyntaxErrorNode", 3).s(&format!("AbstractSyntaxError`{kind:?}")); self.asts(args); self.data(data) }
            Ast::Group { kind, children, data } => { self.f("CodeParser`GroupNode", 3).s(&g(kind)).f("System`List", 3); self.ast(&children.0); self.ast(&children.1); self.ast(&children.2); self.data(data) }
            Ast::GroupMissingCloser { kind, children, data } => { self.f("CodeParser`GroupMissingCloserNode", 3).s(&g(kind)); self.asts(children); self.data(data) }
            Ast::GroupMissingOpener { kind, children, data } => { self.f("CodeParser`GroupMissingOpenerNode", 3).s(&g(kind)); self.asts(children); self.data(data) }
            Ast::PrefixNode_PrefixLinearSyntaxBang(ch, data) => { self.f("CodeParser`PrefixNode", 3).s("CodeParser`PrefixLinearSyntaxBang"); self.asts(&ch[..]); self.data(data) }
            Ast::Box { .. } | Ast::Code { .. } | Ast::TagBox_GroupParen { .. } => unreachable!(),
        }
    }
    fn unsafe_encoding(&mut self, u: UnsafeCharacterEncoding) { self.f("System`Missing", 1).t(&format!("UnsafeCharacterEncoding_{u:?}")); }
    /// {nodes, issues, simple and complex line continuations, embedded newlines and tabs}
    fn result(&mut self, r: &ParseResult<impl Sized>, nodes: &dyn Fn(&mut W)) {
        self.f("System`List", 6);
        match r.unsafe_character_encoding { Some(u) => { self.f("System`List", 1); self.unsafe_encoding(u) } None => nodes(self) }
        self.issues(if r.fatal_issues.is_empty() { &r.non_fatal_issues } else { &r.fatal_issues });
        let t = &r.tracked;
        for s in [&t.simple_line_continuations, &t.complex_line_continuations, &t.embedded_newlines, &t.embedded_tabs] { self.f("System`List", s.len()); for l in s { self.loc(*l) } }
    }
}
// ------------------------------------------------------------------ trees of tokens
/// index just past the expression at i; None: it is not complete
fn skip(v: &[Tok], i: usize) -> Option<usize> {
    let mut todo = 1usize; let mut i = i;
    while todo > 0 { match v.get(i)? { Tok::Func(n) => todo += n + 1, _ => {} } todo -= 1; i += 1 }
    Some(i)
}
fn whole(v: &[Tok]) -> bool { skip(v, 0) == Some(v.len()) }
/// the parts of the function at i: head first
fn parts(v: &[Tok], i: usize) -> Vec<&[Tok]> { let n = match v[i] { Tok::Func(n) => n + 1, _ => return vec![] }; let mut p = i + 1; let mut o = vec![]; for _ in 0..n { let e = skip(v, p).unwrap(); o.push(&v[p..e]); p = e } o }
fn text(v: &[Tok]) -> String {
    fn go(v: &[Tok], i: &mut usize, o: &mut String) {
        match v.get(*i) {
            None => { o.push_str("<nothing>"); return }
            Some(Tok::Func(n)) => { *i += 1; go(v, i, o); o.push('['); for k in 0..*n { if k > 0 { o.push_str(", ") } go(v, i, o) } o.push(']'); return }
            Some(Tok::Sym(s)) => o.push_str(s), Some(Tok::Str(s)) => o.push_str(&format!("{s:?}")), Some(Tok::Int(k)) => o.push_str(&k.to_string()), Some(Tok::Real(x)) => o.push_str(&format!("{x:?}")), Some(Tok::Bytes(b)) => o.push_str(&format!("{b:?}")),
        }
        *i += 1;
    }
    let mut o = String::new(); let mut i = 0; go(v, &mut i, &mut o); if i < v.len() { o.push_str(" <more>") } o
}
/// sorts the elements of the lists of locations (sets) at the end of a result
fn settle(v: Vec<Tok>) -> Vec<Tok> {
    if !whole(&v) || !matches!(v[0], Tok::Func(6)) { return v }
    let p = parts(&v, 0); let mut o = vec![v[0].clone()];
    for (i, x) in p.iter().enumerate() {
        if i < 3 { o.extend_from_slice(x); continue }
        let mut q: Vec<&[Tok]> = parts(x, 0); let h = q.remove(0); q.sort_by_key(|l| format!("{:?}", l.iter().map(|t| match t { Tok::Int(i) => *i, _ => -1 }).collect::<Vec<_>>()));
        o.push(x[0].clone()); o.extend_from_slice(h); for l in q { o.extend_from_slice(l) }
    }
    o
}
// ------------------------------------------------------------------ calls
type F = fn(&mut Link);
fn send(f: F, args: Vec<Tok>) -> Result<Vec<Tok>, String> {
    let mut l = Link::reading(args);
    f(&mut l);
    if l.is_ready() { return Err("part of the arguments is left unread on the link".into()) }
    if l.failed { return Err("the link is left with an error".into()) }
    if !whole(&l.output) { return Err(format!("what was put on the link is not exactly one expression: {}", text(&l.output))) }
    Ok(l.output)
}
fn expect(what: &str, got: Vec<Tok>, exp: W) -> R { if got == exp.0 { Ok(()) } else { Err(format!("{what} puts {} -- expected {}", text(&got), text(&exp.0))) } }
struct P { flb: u64, conv: u64, tab: u32, enc: u64, q: u64, long: bool }
impl P {
    fn of(aux: u64) -> P { P { flb: aux / 2 % 3, conv: aux % 2, tab: [4, 1, 8][(aux / 6 % 3) as usize], enc: aux / 3 % 2, q: aux % 8, long: aux % 5 == 0 } }
    fn opts(&self) -> ParseOptions { make(self.flb, self.conv, self.tab, self.enc, self.q) }
    fn quirks(&self, w: &mut W) {
        let q = self.opts().quirk_settings; let b = |x| if x { "True" } else { "False" }; let l = self.long;
        let s = move |n: &str| if l { format!("System`{n}") } else { n.to_string() };
        w.f(&s("Association"), 3);
        let mut v = [("InfixBinaryAt", q.infix_binary_at), ("FlattenTimes", q.flatten_times), ("OldAtAtAt", q.old_at_at_at)]; if l { v.reverse() }
        for (n, x) in v { w.f(&s("Rule"), 2).t(n).s(&s(b(x))); }
    }
    fn args(&self, input: Tok, mode: Option<i64>) -> Vec<Tok> {
        let mut w = W::default();
        w.f("List", if mode.is_some() { 8 } else { 6 }).i(0);
        match input { Tok::Bytes(_) => { w.f("ByteArray", 1).0.push(input); } t => w.0.push(t) }
        if let Some(m) = mode { w.i(m); }
        w.i(self.conv as i64).i(self.tab as i64).i(self.flb as i64);
        if mode.is_some() { w.i(self.enc as i64); }
        self.quirks(&mut w); w.0
    }
}
/// the form of the nodes of a parse, as the library must put it
fn parsed(b: &[u8], o: &ParseOptions) -> (W, bool) { let r = parse_bytes_cst_seq(b, o); let mut w = W::default(); w.result(&r, &|w| w.seq(&r.syntax.0)); (W(settle(w.0)), r.unsafe_character_encoding.is_some()) }
fn tokens(b: &[u8], o: &ParseOptions) -> W { let mut w = W::default(); match tokenize_bytes(b, o) { Ok(v) => { w.f("System`List", v.0.len()); for t in &v.0 { w.leaf(t) } } Err(u) => { w.f("System`List", 1); w.unsafe_encoding(u) } } w }
pub fn put(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let p = P::of(aux); let o = P { enc: 0, ..P::of(aux) }.opts();
    rtl::ABORT_AFTER.with(|a| a.set(u64::MAX));
    let got = settle(send(wll::ConcreteParseBytes_LibraryLink, p.args(Tok::Bytes(b.to_vec()), None))?);
    cx.exec(); cx.steps(got.len()); { let mut h = H::new(); for t in &got { if let Tok::Sym(s) = t { h.b(s.as_bytes()) } } cx.state(h.0) }
    expect("ConcreteParseBytes", got, parsed(b, &o).0)?;
    expect("TokenizeBytes", send(wll::TokenizeBytes_LibraryLink, p.args(Tok::Bytes(b.to_vec()), None))?, tokens(b, &o))
}
pub fn leaf(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let p = P::of(aux); let m = (aux / 6 % 3) as i64;
    rtl::ABORT_AFTER.with(|a| a.set(u64::MAX));
    let r = parse_to_token(b, &p.opts(), match m { 0 => StringifyMode::Normal, 1 => StringifyMode::Tag, _ => StringifyMode::File });
    let mut w = W::default(); w.result(&r, &|w| { w.f("System`List", r.syntax.0.len()); for t in &r.syntax.0 { w.leaf(t) } });
    let got = settle(send(wll::ConcreteParseLeaf_LibraryLink, p.args(Tok::Bytes(b.to_vec()), Some(m)))?);
    cx.exec(); cx.steps(got.len()); { let mut h = H::new(); for t in &got { if let Tok::Sym(s) = t { h.b(s.as_bytes()) } } cx.state(h.0) }
    expect("ConcreteParseLeaf", got, W(settle(w.0)))?;
    let mut a = W::default(); a.f("List", 2).i(0).f("ByteArray", 1).0.push(Tok::Bytes(b.to_vec()));
    let mut w = W::default(); match safe_string(b, &ParseOptions::default()) { Ok(s) => { w.t(s); } Err(u) => w.unsafe_encoding(u) }
    expect("SafeString", send(wll::SafeString_LibraryLink, a.0)?, w)
}
const KINDS: [&str; 4] = ["String", "File", "Byte", "Hold"];
/// a parsed tree sent back to the library is read as what it is
pub fn back(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let p = P::of(aux); let o = P { enc: 0, ..P::of(aux) }.opts();
    rtl::ABORT_AFTER.with(|a| a.set(u64::MAX));
    let r = parse_bytes_cst_seq(b, &o); let kind = format!("System`{}", KINDS[(aux % 4) as usize]);
    let sent = settle(send(wll::ConcreteParseBytes_LibraryLink, p.args(Tok::Bytes(b.to_vec()), None))?);
    let q = parts(&sent, 0); // head, nodes, issues, then the four sets
    let mut c = W::default(); c.f("CodeParser`ContainerNode", 3).s(&kind);
    if r.syntax.0.is_empty() && r.unsafe_character_encoding.is_none() { c.f("System`List", 1).f("System`Missing", 1).t("EmptyInput"); } else { c.0.extend_from_slice(q[1]) }
    // metadata of the container; issues are read back only where an association has flattened theirs
    let flat: Vec<Tok> = flatten(q[2]);
    c.f("System`Association", 6);
    c.f("System`Rule", 2).s("CodeParser`SyntaxIssues"); c.0.extend(flat);
    for (n, i) in [("EmbeddedTabs", 6), ("EmbeddedNewlines", 5), ("SimpleLineContinuations", 3), ("ComplexLineContinuations", 4)] { c.f("System`Rule", 2).t(n); c.0.extend_from_slice(q[i]) }
    c.f("System`Rule", 2).t("FileName").t("x.wl");
    let mut a = W::default(); a.f(if p.long { "System`List" } else { "List" }, 1).0.extend(short(&c.0, p.long));
    let got = send(wll::RoundTripTest_LibraryLink, a.0)?;
    cx.exec(); cx.steps(got.len()); { let mut h = H::new(); for t in &got { if let Tok::Sym(s) = t { h.b(s.as_bytes()) } } cx.state(h.0) }
    expect("RoundTripTest", flatten(&got), c)?;
    if r.unsafe_character_encoding.is_some() { return Ok(()) }
    // abstraction of what was sent is the abstraction of what was parsed
    for n in abstract_cst::aggregate_cst_seq(r.syntax.clone()).0 {
        let mut node = W::default(); node.cst(&n);
        let mut a = W::default(); a.f(if p.long { "System`List" } else { "List" }, 3).0.extend(short(&node.0, p.long)); p.quirks(&mut a); a.s(if p.long { &kind } else { KINDS[(aux % 4) as usize] });
        let mut w = W::default(); w.ast(&abstract_cst::abstract_cst(n, o.quirk_settings));
        expect("Abstract", send(wll::Abstract_LibraryLink, a.0)?, w)?;
    }
    Ok(())
}
/// the kernel sends symbols of System` without their context unless asked for full names
fn short(v: &[Tok], long: bool) -> Vec<Tok> { if long { return v.to_vec() } v.iter().map(|t| match t { Tok::Sym(s) => Tok::Sym(s.strip_prefix("System`").unwrap_or(s).to_string()), t => t.clone() }).collect() }
/// <|<|a -> b|>, c|> is <|a -> b, c|> to the kernel
fn flatten(v: &[Tok]) -> Vec<Tok> {
    fn go(v: &[Tok], o: &mut Vec<Tok>) {
        if !matches!(v[0], Tok::Func(_)) { o.extend_from_slice(v); return }
        let p = parts(v, 0); let assoc = |x: &[Tok]| matches!(x, [Tok::Func(_), Tok::Sym(s), ..] if s == "System`Association");
        let mut inner: Vec<Vec<Tok>> = vec![];
        for x in &p[1..] { let mut y = vec![]; go(x, &mut y); if assoc(v) && assoc(x) { inner.extend(parts(&y, 0)[1..].iter().map(|z| z.to_vec())) } else { inner.push(y) } }
        o.push(Tok::Func(inner.len())); go(p[0], o); for x in inner { o.extend(x) }
    }
    let mut o = vec![]; go(v, &mut o); o
}
/// the user aborts at every possible point
pub fn aborted(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let p = P::of(aux);
    let call = |n: u64| { rtl::ABORT_AFTER.with(|a| a.set(n)); rtl::ABORT_CALLS.with(|a| a.set(0)); let mut l = Link::reading(p.args(Tok::Bytes(b.to_vec()), None)); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { wll::ConcreteParseBytes_LibraryLink(&mut l) })); rtl::ABORT_AFTER.with(|a| a.set(u64::MAX)); r.map_err(|_| format!("panicked when aborted at point {n}"))?; Ok::<_, String>((settle(l.output), rtl::ABORT_CALLS.with(|a| a.get()))) };
    let (full, points) = call(u64::MAX)?;
    for n in 0..points.min(400) {
        let (got, _) = call(n)?;
        cx.exec(); cx.steps(1); { let mut h = H::new(); h.b(b); h.u(n); cx.state(h.0) }
        if !whole(&got) { return Err(format!("aborted at point {n}: what was put on the link is not exactly one expression: {}", text(&got))) }
        same_or_aborted(&full, &got).map_err(|e| format!("aborted at point {n}: {e}: {} -- without the abort {}", text(&got), text(&full)))?;
    }
    Ok(())
}
/// got is full with some nodes replaced by $Aborted
fn same_or_aborted(full: &[Tok], got: &[Tok]) -> R {
    if full == got { return Ok(()) }
    if matches!(got, [Tok::Sym(s)] if s == "System`$Aborted") { return match full { [Tok::Func(3), Tok::Sym(h), ..] if h.ends_with("Node") => Ok(()), _ => Err("something other than a node was replaced by $Aborted".into()) } }
    let (a, b) = (if matches!(full[0], Tok::Func(_)) { parts(full, 0) } else { vec![] }, if matches!(got[0], Tok::Func(_)) { parts(got, 0) } else { vec![] });
    if a.is_empty() || a.len() != b.len() { return Err("another result".into()) }
    for (x, y) in a.iter().zip(&b) { same_or_aborted(x, y)? }
    Ok(())
}
/// the same through a file, which is read only if the kernel allows it
pub fn files(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    thread_local! { static DIR: Scratch = Scratch::new(); }
    struct Scratch(std::path::PathBuf);
    impl Scratch { fn new() -> Scratch { use std::sync::atomic::*; static N: AtomicU64 = AtomicU64::new(0); let d = std::env::temp_dir().join(format!("mc-wire-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed))); std::fs::create_dir_all(&d).unwrap(); Scratch(d) } }
    impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    DIR.with(|d| {
        let p = P::of(aux); let o = P { enc: 0, ..P::of(aux) }.opts();
        let path = d.0.join(if aux % 2 == 0 { "in.wl" } else { "in \u{e9} 2.m" }); let path = path.to_str().unwrap().to_string();
        std::fs::write(&path, b).map_err(|e| format!("scratch file: {e}"))?;
        let run = |f: F, ok: bool| { rtl::PATH_OK.with(|x| x.set(ok)); rtl::PATHS.with(|v| v.borrow_mut().clear()); let mut l = Link::reading(p.args(Tok::Str(path.clone()), None)); let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut l))); (r.is_ok(), l.output, rtl::PATHS.with(|v| v.borrow().clone())) };
        for (name, f, exp) in [("ConcreteParseFile", wll::ConcreteParseFile_LibraryLink as F, parsed(b, &o).0), ("TokenizeFile", wll::TokenizeFile_LibraryLink as F, tokens(b, &o))] {
            let (ok, out, asked) = run(f, true);
            cx.exec(); cx.steps(out.len()); let mut h = H::new(); h.b(b); cx.state(h.0);
            if !ok { return Err(format!("{name} panics")) }
            if asked != vec![(path.clone().into_bytes(), b'R')] { return Err(format!("{name} asks the kernel about {asked:?}, expected one question, reading {path}")) }
            expect(name, settle(out), exp)?;
            let (ok, out, _) = run(f, false);
            if ok || !out.is_empty() { return Err(format!("{name} reads a file the kernel does not allow to be read")) }
        }
        Ok(())
    })
}
/// tokens that the library calls empty have no characters, all others have some
pub fn empties(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let o = P { enc: 0, ..P::of(aux) }.opts();
    let r = parse_bytes_cst_seq(b, &o); cx.exec();
    fn leaves<'a, I>(c: &'a Cst<I, Span>, o: &mut Vec<&'a Token<I, Span>>) { if let Cst::Token(t) = c { o.push(t) } for k in kids(c) { leaves(k, o) } }
    let mut v = vec![]; for c in &r.syntax.0 { leaves(c, &mut v) }
    for t in v {
        if trivia(t.tok) && matches!(t.tok, T::InternalNewline | T::ToplevelNewline) { continue }
        let mut a = W::default(); a.f("List", 1).s(&kind_name(t.tok));
        let mut w = W::default(); w.s(if t.input.as_bytes().is_empty() { "System`True" } else { "System`False" });
        cx.steps(1); cx.state(t.tok as u64);
        expect(&format!("TokenIsEmpty[{:?}]", t.tok), send(wll::TokenIsEmpty_LibraryLink, a.0)?, w)?;
    }
    Ok(())
}
// ------------------------------------------------------------------ boxes: trees only the kernel makes
const BOXES: &[&str] = &["TagBox", "SuperscriptBox", "RowBox", "GridBox", "TemplateBox", "InterpretationBox", "SubscriptBox", "StyleBox", "NamespaceBox", "OverscriptBox", "SubsuperscriptBox", "GraphicsBox", "FrameBox", "FormBox"];
/// b: box kind, number of children, position form, length of the position, container kind; nested once when aux is odd
pub fn boxes(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    rtl::ABORT_AFTER.with(|a| a.set(u64::MAX));
    let (kind, nc, form, len, cont) = (BOXES[b[0] as usize], b[1] as usize, b[2], b[3] as usize, ["System`Box", "System`Cell"][b[4] as usize]);
    let src = |w: &mut W, base: i64| { if form == 3 { w.f("System`Association", 0); return } w.f("System`Association", 1).f("System`Rule", 2).s("CodeParser`Source"); match form { 1 => { w.f("System`Before", 1); } 2 => { w.f("System`After", 1); } _ => {} } w.f("System`List", len); for i in 0..len { w.i(base + i as i64); } };
    let leaf = |w: &mut W, i: usize| match i % 4 { 0 => { w.f("CodeParser`LeafNode", 3).s("System`Symbol").t("a"); src(w, 1) } 1 => { w.f("CodeParser`CodeNode", 3).s("CodeParser`Null").f("Global`f", 2).i(-7).t("x\"\u{e9}"); src(w, 2) } 2 => { w.f("CodeParser`ErrorNode", 3).s("Token`Error`UnhandledCharacter").t("\\x"); src(w, 3) } _ => { w.f("CodeParser`GroupNode", 3).s("CodeParser`GroupParen").f("System`List", 3); for (k, t) in [("OpenParen", "("), ("Comma", ","), ("CloseParen", ")")] { w.f("CodeParser`LeafNode", 3).s(&format!("Token`{k}")).t(t); src(w, 1) } src(w, 1) } };
    let boxed = |w: &mut W, deep: bool| { w.f("CodeParser`BoxNode", 3).s(&format!("System`{kind}")).f("System`List", nc); for i in 0..nc { if deep && i == 0 { w.f("CodeParser`BoxNode", 3).s("System`SuperscriptBox").f("System`List", 2); leaf(w, 0); leaf(w, 1); src(w, 9) } else { leaf(w, i + b[0] as usize) } } src(w, 5) };
    let mut c = W::default(); c.f("CodeParser`ContainerNode", 3).s(cont).f("System`List", 2); boxed(&mut c, aux % 2 == 1); leaf(&mut c, nc); c.f("System`Association", 0);
    let mut a = W::default(); a.f("List", 1).0.extend(short(&c.0, aux / 2 % 2 == 1));
    let got = send(wll::RoundTripTest_LibraryLink, a.0)?;
    cx.exec(); cx.steps(got.len()); let mut h = H::new(); h.b(b); h.u(aux); cx.state(h.0);
    expect("RoundTripTest", got, c)
}
fn box_space() -> Space { Space::func("box trees the kernel sends: 14 box kinds, 0..3 children, 4 forms of positions, lengths 0..4, two containers, nested or not, short or full names", 14 * 4 * 4 * 5 * 2 * 4, boxes, |i, o| { let mut j = i / 4; for n in [14u64, 4, 4, 5, 2] { o.push((j % n) as u8); j /= n } i % 4 }) }
pub fn space(t: bool) -> Vec<Space> {
    let d = t as usize;
    let g = || vec![Gen::words("mixed", &a_mix(), 0, 2), Gen::words("core", &a_core(), 0, 2 + d), Gen::words("brackets", &a_brackets(), 0, 3 + d), Gen::words("linear syntax", &a_lin(), 0, 2 + d), Gen::words("ternaries", &a_tern(), 0, 2 + d), programs(1), Gen::words("positions", &a_pos(), 0, 2 + d), Gen::words("strings and comments", &a_str(), 0, 3), Gen::words("line continuations", &a_lc(), 0, 2 + d), Gen::words("characters", &a_chars(), 0, 2)];
    let bytes = || vec![Gen::words("boundary bytes", &a_bytes(), 0, 2), Gen::words("bad bytes among constructs", &a_bad(), 0, 2)];
    let mut v = spaces(g(), 18, put); v.extend(spaces(ops1(), 2, put)); v.extend(spaces(bytes(), 18, put)); v.extend(spaces(vec![long_names(&[("", ""), ("a", "b")])], 2, put));
    v.extend(spaces(g(), 18, back)); v.extend(spaces(ops1(), 3, back)); v.extend(spaces(bytes(), 6, back)); v.extend(spaces(vec![Gen::words("errors", &syms("a ) ] } ( f[ { , + - 1.1. 2^^9 \" \\[ \\x %0A _ ~ /: = (*"), 0, 3)], 4, back));
    v.extend(spaces(vec![Gen::words("mixed", &a_mix(), 0, 1), Gen::words("file names", &a_file(), 0, 2 + d), Gen::words("tags", &a_tag(), 0, 2 + d), Gen::words("core", &a_core(), 0, 2), Gen::words("numbers", &a_num(), 0, 3), Gen::words("boundary bytes", &a_bytes(), 0, 2)], 36, leaf));
    v.extend(spaces(vec![Gen::words("core", &a_core(), 0, 2 + d), Gen::words("mixed", &a_mix(), 0, 1 + d), Gen::words("brackets", &a_brackets(), 0, 3), programs(1)], 2, aborted));
    v.extend(spaces(vec![Gen::words("mixed", &a_mix(), 0, 1), Gen::words("core", &a_core(), 0, 2), Gen::words("all bytes", &(0..=255u8).map(|c| vec![c]).collect(), 0, 1), Gen::words("positions", &a_pos(), 0, 2)], 6, files));
    v.extend(spaces(vec![Gen::words("mixed", &a_mix(), 0, 2), Gen::words("core", &a_core(), 0, 3), Gen::words("linear syntax", &a_lin(), 0, 2)], 1, empties)); v.extend(spaces(ops1(), 1, empties));
    v.push(box_space());
    v
}
