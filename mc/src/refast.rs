//! Reference model, layer 4: abstract syntax. Canonical abstract trees and the documented desugaring.
use crate::pos::Positions;
use crate::refchar;
use crate::tree::*;
use std::fmt::Debug;
use wolfram_parser::ast::Ast;
use wolfram_parser::issue::Issue;
use wolfram_parser::source::*;
use wolfram_parser::tokenize::{TokenInput, TokenKind as T};
use wolfram_parser::QuirkSettings;

pub type Src = Option<(usize, usize)>;
#[derive(Clone, Debug, PartialEq)]
pub struct Iss { pub tag: &'static str, pub msg: String, pub sev: &'static str, pub val: u32, pub src: Src, pub more: Vec<Src>, pub desc: Vec<String> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum AT { Leaf, Error, Call, CallMissingCloser, SyntaxError, AbstractSyntaxError, GroupMissingCloser, GroupMissingOpener, LinearSyntaxBang }
/// Canonical abstract node. Call: ch[0] is the head.
#[derive(Clone, Debug, PartialEq)]
pub struct A { pub tag: AT, pub op: &'static str, pub text: Vec<u8>, pub ch: Vec<A>, pub src: Src, pub iss: Vec<Iss> }

fn nm<X: Debug>(x: &X) -> &'static str { intern(&format!("{x:?}")) }
pub fn from_ast(a: &Ast, p: &Positions) -> Result<A, String> {
    fn src(s: &Source, p: &Positions) -> Result<Src, String> {
        match s {
            Source::Unknown => Ok(None),
            Source::Span(sp) => match (p.find(sp.start()), p.find(sp.end())) { (Some(a), Some(b)) => Ok(Some((a, b))), _ => Err(format!("abstract node source {sp:?} is not a range of the input")) },
            s => Err(format!("unexpected kind of source {s:?}")),
        }
    }
    fn iss(i: &Issue, p: &Positions) -> Result<Iss, String> {
        if !i.actions.is_empty() { return Err(format!("unexpected code action on abstract syntax issue {:?}", i.tag)) }
        Ok(Iss { tag: nm(&i.tag), msg: i.msg.clone(), sev: nm(&i.sev), val: (i.val * 1000.0).round() as u32, src: src(&i.src, p)?, more: i.additional_sources.iter().map(|s| src(s, p)).collect::<Result<_, _>>()?, desc: i.additional_descriptions.clone() })
    }
    let mk = |tag, op, text: &[u8], ch: Vec<A>, d: &wolfram_parser::ast::AstMetadata| -> Result<A, String> {
        Ok(A { tag, op, text: text.to_vec(), ch, src: src(&d.source, p)?, iss: d.issues.iter().map(|i| iss(i, p)).collect::<Result<_, _>>()? })
    };
    let seq = |v: &[Ast]| v.iter().map(|x| from_ast(x, p)).collect::<Result<Vec<_>, _>>();
    let hd = |h: &Ast, v: &[Ast]| -> Result<Vec<A>, String> { let mut r = vec![from_ast(h, p)?]; for x in v { r.push(from_ast(x, p)?) } Ok(r) };
    match a {
        Ast::Leaf { kind, input, data } => mk(AT::Leaf, opname(kind), input.as_bytes(), vec![], data),
        Ast::Error { kind, input, data } => mk(AT::Error, opname(kind), input.as_bytes(), vec![], data),
        Ast::Call { head, args, data } => mk(AT::Call, "", b"", hd(head, args)?, data),
        Ast::CallMissingCloser { head, args, data } => mk(AT::CallMissingCloser, "", b"", hd(head, args)?, data),
        Ast::SyntaxError { kind, children, data } => mk(AT::SyntaxError, nm(kind), b"", seq(children)?, data),
        Ast::AbstractSyntaxError { kind, args, data } => mk(AT::AbstractSyntaxError, nm(kind), b"", seq(args)?, data),
        Ast::GroupMissingCloser { kind, children, data } => mk(AT::GroupMissingCloser, nm(kind), b"", seq(children)?, data),
        Ast::GroupMissingOpener { kind, children, data } => mk(AT::GroupMissingOpener, nm(kind), b"", seq(children)?, data),
        Ast::PrefixNode_PrefixLinearSyntaxBang(ch, data) => mk(AT::LinearSyntaxBang, "", b"", seq(&ch[..])?, data),
        other => Err(format!("unexpected abstract node {other:?}")),
    }
}
impl A {
    pub fn show(&self) -> String {
        let l = |v: &[A]| v.iter().map(|x| x.show()).collect::<Vec<_>>().join(",");
        let mut s = match self.tag {
            AT::Leaf => match self.op { "Symbol" | "Integer" | "Real" | "String" => crate::engine::show(&self.text), k => format!("{k}<{}>", crate::engine::show(&self.text)) },
            AT::Error => format!("{}<{}>", self.op, crate::engine::show(&self.text)),
            AT::Call => format!("{}[{}]", self.ch[0].show(), l(&self.ch[1..])),
            t => format!("{t:?}{}{}[{}]", if self.op.is_empty() { "" } else { ":" }, self.op, l(&self.ch)),
        };
        match self.src { Some((a, b)) => s.push_str(&format!("@{a}-{b}")), None => {} }
        for i in &self.iss { s.push_str(&format!("!{}:{}:{:?}:{}:{:?}:{:?}:{:?}", i.tag, i.sev, i.src, i.val, i.msg, i.more, i.desc)) }
        s
    }
    pub fn count(&self) -> usize { 1 + self.ch.iter().map(|c| c.count()).sum::<usize>() }
    pub fn hash(&self, h: &mut crate::engine::H) { h.u(self.tag as u64); h.b(self.op.as_bytes()); if self.tag == AT::Leaf && self.op == "Symbol" { h.b(&self.text) } for c in &self.ch { c.hash(h) } h.u(77) }
    /// the same tree without positions
    pub fn strip(&self) -> A { let mut a = self.clone(); a.strip_in(); a }
    fn strip_in(&mut self) { self.src = None; for i in &mut self.iss { i.src = None; for m in &mut i.more { *m = None } } for c in &mut self.ch { c.strip_in() } }
    pub fn no_issues(&mut self) { self.iss.clear(); for c in &mut self.ch { c.no_issues() } }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a A)) { f(self); for c in &self.ch { c.visit(f) } }
}
pub fn show_seq(v: &[A]) -> String { v.iter().map(|n| n.show()).collect::<Vec<_>>().join(" ; ") }
pub fn hash_seq(v: &[A]) -> u64 { let mut h = crate::engine::H::new(); for n in v { n.hash(&mut h) } h.0 }

// ---------------------------------------------------------------- the model
/// Removes trivia. Call: children = [head, body].
fn agg(n: &N) -> Option<N> {
    match n {
        N::Leaf { kind: T::Comment | T::InternalNewline | T::ToplevelNewline | T::Whitespace, .. } => None,
        N::Leaf { .. } => Some(n.clone()),
        N::Node { tag, op, ch } => Some(node(*tag, op, ch.iter().filter_map(agg).collect())),
    }
}
fn span(n: &N) -> (usize, usize) {
    fn first(n: &N) -> usize { match n { N::Leaf { off, .. } => *off, N::Node { ch, .. } => first(&ch[0]) } }
    fn last(n: &N) -> usize { match n { N::Leaf { end, .. } => *end, N::Node { ch, .. } => last(&ch[ch.len() - 1]) } }
    (first(n), last(n))
}
pub fn abstract_seq(b: &[u8], cst: &[N], q: &QuirkSettings) -> Vec<A> {
    let m = M { b, q: QuirkSettings { ..q.clone() } };
    cst.iter().filter_map(agg).map(|n| m.go(&n)).collect()
}
struct M<'a> { b: &'a [u8], q: QuirkSettings }
fn mk(tag: AT, op: &'static str, text: &[u8], ch: Vec<A>, src: Src) -> A { A { tag, op, text: text.to_vec(), ch, src, iss: vec![] } }
fn sym_at(name: &str, src: Src) -> A {
    let t = match name.strip_prefix("CodeParser_") { Some(x) => format!("CodeParser`{x}"), None => name.to_string() };
    mk(AT::Leaf, "Symbol", t.as_bytes(), vec![], src)
}
fn sym(name: &str) -> A { sym_at(name, None) }
fn int(s: &str, src: Src) -> A { mk(AT::Leaf, "Integer", s.as_bytes(), vec![], src) }
fn call(name: &str, args: Vec<A>, src: Src) -> A { call2(sym(name), args, src) }
fn call2(head: A, args: Vec<A>, src: Src) -> A { let mut ch = vec![head]; ch.extend(args); mk(AT::Call, "", b"", ch, src) }
fn err(kind: &'static str, args: Vec<A>, src: Src) -> A { mk(AT::AbstractSyntaxError, kind, b"", args, src) }
fn issue(tag: &'static str, msg: &str, sev: &'static str, val: u32, src: Src, more: Vec<Src>) -> Iss { Iss { tag, msg: msg.into(), sev, val, src, more, desc: vec![] } }
fn is(n: &N, t: Tag, o: &str) -> bool { matches!(n, N::Node { tag, op, .. } if *tag == t && *op == o) }
fn ch(n: &N) -> &[N] { match n { N::Node { ch, .. } => ch, _ => &[] } }
fn kind(n: &N) -> Option<T> { match n { N::Leaf { kind, .. } => Some(*kind), _ => None } }
fn evens(v: &[N]) -> Vec<&N> { v.iter().step_by(2).collect() }
fn is_num(n: &N) -> bool { matches!(kind(n), Some(T::Integer | T::Real)) }
fn paren1(n: &N) -> Option<&N> { if is(n, Tag::Group, "CodeParser_GroupParen") { match ch(n) { [_, x, _] => Some(x), _ => None } } else { None } }
/// a number, possibly in parentheses
fn paren_num(n: &N) -> bool { is_num(n) || paren1(n).map_or(false, paren_num) }
/// One factor of a product.
enum F<'n> { X(&'n N), MinusOne, Neg(&'n N), Recip(&'n N) }
impl<'a> M<'a> {
    fn text(&self, n: &N) -> &'a [u8] { match n { N::Leaf { off, end, .. } => &self.b[*off..*end], _ => b"" } }
    fn all<'n>(&self, v: impl IntoIterator<Item = &'n N>) -> Vec<A> { v.into_iter().map(|n| self.go(n)).collect() }
    fn quote_sym(&self, n: &N) -> A {
        if self.text(n).starts_with(b"\"") { return mk(AT::Leaf, "String", self.text(n), vec![], Some(span(n))) }
        let s = String::from_utf8_lossy(self.text(n));
        let q = if s.starts_with('"') { s.to_string() } else if s.starts_with("\\[") { format!("\"{s}\"") } else { format!("{s:?}") };
        mk(AT::Leaf, "String", q.as_bytes(), vec![], Some(span(n)))
    }
    fn quote_file(&self, n: &N) -> A {
        if kind(n) != Some(T::String) { return self.go(n) }
        if self.text(n).starts_with(b"\"") { return mk(AT::Leaf, "String", self.text(n), vec![], Some(span(n))) }
        let s = String::from_utf8_lossy(self.text(n));
        let q = if s.starts_with('"') { s.to_string() } else { format!("{s:?}") };
        mk(AT::Leaf, "String", q.as_bytes(), vec![], Some(span(n)))
    }
    /// `Head@x` where Head is the name of the enclosing infix operator
    fn at_quirk<'n>(&self, n: &'n N, name: &str) -> &'n N {
        if self.q.infix_binary_at && is(n, Tag::Binary, "CodeParser_BinaryAt") && kind(&ch(n)[0]) == Some(T::Symbol) && self.text(&ch(n)[0]) == name.as_bytes() { &ch(n)[2] } else { n }
    }
    fn is_zero(&self, n: &N) -> bool {
        (kind(n) == Some(T::Integer) && self.text(n) == b"0") || paren1(n).map_or(false, |x| self.is_zero(x)) || (is(n, Tag::Prefix, "Minus") && self.is_zero(&ch(n)[1]))
    }
    fn negate(&self, n: &N, src: Src) -> A {
        match kind(n) {
            Some(T::Integer) if self.text(n) == b"0" => return int("0", src),
            Some(k @ (T::Integer | T::Real)) => { let mut t = b"-".to_vec(); t.extend_from_slice(self.text(n)); return mk(AT::Leaf, opname(&k), &t, vec![], src) }
            _ => {}
        }
        if let Some(x) = paren1(n) { if self.is_zero(x) || paren_num(x) { return self.negate(x, src) } }
        if is(n, Tag::Prefix, "Minus") && self.is_zero(&ch(n)[1]) { return self.negate(&ch(n)[1], src) }
        let fs = if is(n, Tag::Infix, "Times") { evens(ch(n)) } else { vec![n] };
        let mut args = vec![int("-1", None)];
        args.extend(self.product(&fs, src));
        call("Times", args, src)
    }
    fn factors<'n>(&self, n: &'n N, out: &mut Vec<F<'n>>) {
        if is(n, Tag::Prefix, "Minus") {
            let x = &ch(n)[1];
            if paren_num(x) { out.push(F::Neg(x)) }
            else if self.q.flatten_times { out.push(F::MinusOne); self.factors(x, out) }
            else { out.push(F::X(n)) }
        } else if is(n, Tag::Infix, "Times") { for x in evens(ch(n)) { self.factors(x, out) } }
        else if self.q.flatten_times && is(n, Tag::Binary, "Divide") { self.factors(&ch(n)[0], out); out.push(F::Recip(&ch(n)[2])) }
        else { out.push(F::X(n)) }
    }
    fn factor(&self, f: F, src: Src, quirk: bool) -> A {
        match f {
            F::X(n) => self.go(if quirk { self.at_quirk(n, "Times") } else { n }),
            F::MinusOne => int("-1", None),
            F::Neg(n) => self.negate(n, src),
            F::Recip(n) => call("Power", vec![self.go(n), int("-1", None)], src),
        }
    }
    fn product(&self, ns: &[&N], src: Src) -> Vec<A> {
        let mut f = vec![];
        for n in ns { self.factors(n, &mut f) }
        f.into_iter().map(|f| self.factor(f, src, true)).collect()
    }
    /// arguments of a bracketed group: comma lists spliced
    fn args(&self, body: &[N]) -> Vec<A> {
        let mut v = vec![];
        for n in body { let a = self.go(n); if is(n, Tag::Infix, "CodeParser_Comma") { v.extend(a.ch.into_iter().skip(1)) } else { v.push(a) } }
        v
    }
    fn go(&self, n: &N) -> A {
        let (tag, op, c) = match n { N::Leaf { kind, .. } => return self.tok(n, *kind), N::Node { tag, op, ch } => (*tag, *op, &ch[..]) };
        let src = Some(span(n));
        match tag {
            Tag::Compound => match op {
                "Blank" | "BlankSequence" | "BlankNullSequence" => call(op, vec![self.go(&c[1])], src),
                "CodeParser_PatternBlank" | "CodeParser_PatternBlankSequence" | "CodeParser_PatternBlankNullSequence" => call("Pattern", self.all(c), src),
                "CodeParser_PatternOptionalDefault" => call("Optional", vec![call("Pattern", vec![self.go(&c[0]), call("Blank", vec![], Some(span(&c[1])))], src)], src),
                "Slot" => call("Slot", vec![if kind(&c[1]) == Some(T::Integer) { self.go(&c[1]) } else { self.quote_sym(&c[1]) }], src),
                _ => call(op, vec![self.go(&c[1])], src),
            },
            Tag::Prefix => match op {
                "Minus" => self.negate(&c[1], src),
                "Plus" => { let mut x = &c[1]; while is(x, Tag::Prefix, "Plus") { x = &ch(x)[1] } call("Plus", vec![self.go(x)], src) }
                "CodeParser_PrefixNot2" => {
                    let mut a = call("Not", vec![call("Not", vec![self.go(&c[1])], None)], src);
                    a.iss.push(issue("PrefixNotNot", "Unexpected parse.", "Warning", 1000, Some(span(&c[0])), vec![]));
                    a
                }
                "CodeParser_PrefixLinearSyntaxBang" => if kind(&c[1]) == Some(T::LinearSyntaxBlob) { mk(AT::LinearSyntaxBang, "", b"", self.all(c), src) } else { err("LinearSyntaxBang", vec![self.go(&c[1])], src) },
                "Get" => call(op, vec![self.quote_file(&c[1])], src),
                _ => call(op, vec![self.go(&c[1])], src),
            },
            Tag::Postfix => match op {
                "HermitianConjugate" => call("ConjugateTranspose", vec![self.go(&c[0])], src),
                "Derivative" => { let (mut x, mut k) = (&c[0], 1); while is(x, Tag::Postfix, "Derivative") { x = &ch(x)[0]; k += 1 } call2(call("Derivative", vec![int(&k.to_string(), None)], None), vec![self.go(x)], None) }
                _ => call(op, vec![self.go(&c[0])], src),
            },
            Tag::Binary => match op {
                "Divide" => { let mut f = vec![]; self.factors(&c[0], &mut f); let mut v: Vec<A> = f.into_iter().map(|f| self.factor(f, src, false)).collect(); v.push(self.factor(F::Recip(&c[2]), src, false)); call("Times", v, src) }
                "CodeParser_BinaryAt" => call2(self.go(&c[0]), vec![self.go(&c[2])], src),
                "CodeParser_BinarySlashSlash" => call2(self.go(&c[2]), vec![self.go(&c[0])], src),
                "MapApply" if self.q.old_at_at_at => call("Apply", vec![self.go(&c[0]), self.go(&c[2]), call("List", vec![int("1", None)], None)], src),
                "Put" | "PutAppend" => call(op, vec![self.go(&c[0]), self.quote_file(&c[2])], src),
                "Unset" => call(op, vec![self.go(&c[0])], src),
                "PatternTest" if is(&c[0], Tag::Binary, "PatternTest") => err("NonAssociativePatternTest", vec![self.go(&c[0]), self.go(&c[2])], src),
                _ => call(op, vec![self.go(&c[0]), self.go(&c[2])], src),
            },
            Tag::Infix => match op {
                "CodeParser_InfixInequality" => self.inequality(c, src),
                "SameQ" | "UnsameQ" => call(op, self.all(evens(c)), src),
                "Plus" => {
                    let mut v = vec![];
                    for (i, x) in evens(c).into_iter().enumerate() {
                        if i > 0 && matches!(kind(&c[2 * i - 1]), Some(T::Minus | T::LongName_Minus)) { v.push(self.negate(x, Some((span(&c[2 * i - 1]).0, span(x).1)))); continue }
                        let mut x = self.at_quirk(x, "Plus");
                        while is(x, Tag::Prefix, "Plus") { x = &ch(x)[1] }
                        v.push(self.go(x));
                    }
                    call("Plus", v, src)
                }
                "Times" => call("Times", self.product(&evens(c), src), src),
                "Divisible" => { let mut v: Vec<A> = evens(c).into_iter().map(|x| self.go(self.at_quirk(x, "Divisible"))).collect(); v.reverse(); call(op, v, src) }
                "CompoundExpression" => call(op, evens(c).into_iter().map(|x| if kind(x) == Some(T::Fake_ImplicitNull) { sym_at("Null", Some(span(x))) } else { self.go(x) }).collect(), src),
                "MessageName" => {
                    let v = evens(c);
                    let mut a = call(op, v.iter().enumerate().map(|(i, x)| if i > 0 && kind(x) == Some(T::String) { self.quote_sym(x) } else { self.go(x) }).collect(), src);
                    if v.len() > 3 { a.iss.push(issue("SyntaxUndocumentedMessageName", "This syntax is not documented.", "Error", 1000, src, vec![])) }
                    a
                }
                _ => { let name = op.strip_prefix("CodeParser_").unwrap_or(op); call(op, evens(c).into_iter().map(|x| self.go(self.at_quirk(x, name))).collect(), src) }
            },
            Tag::Ternary => match op {
                "CodeParser_TernaryTilde" => {
                    let mut h = self.go(&c[2]);
                    if is(&c[2], Tag::Infix, "CodeParser_Comma") { h = err("CommaTopLevel", h.ch[1..].to_vec(), h.src) }
                    call2(h, vec![self.go(&c[0]), self.go(&c[4])], src)
                }
                "TagUnset" => call(op, vec![self.go(&c[0]), self.go(&c[2])], src),
                _ => call(op, self.all(evens(c)), src),
            },
            Tag::PrefixBinary => {
                let x = if is(&c[2], Tag::Prefix, "DifferentialD") || is(&c[2], Tag::Prefix, "CapitalDifferentialD") { &ch(&c[2])[1] } else { &c[2] };
                call(op, vec![self.go(&c[1]), self.go(x)], src)
            }
            Tag::SyntaxError => mk(AT::SyntaxError, op, b"", vec![self.go(&c[0]), self.go(&c[2])], src),
            Tag::Group => {
                let inner = &c[1..c.len() - 1];
                let e = match op { "CodeParser_GroupParen" => "OpenParen", "CodeParser_GroupSquare" => "OpenSquare", "CodeParser_GroupTypeSpecifier" => "ColonColonOpenSquare", "CodeParser_GroupDoubleBracket" => "LeftDoubleBracket", _ => return call(op, self.args(inner), src) };
                match inner {
                    [x] if is(x, Tag::Infix, "CodeParser_Comma") => err(e, self.all(evens(ch(x))), src),
                    [x] if e == "OpenParen" => self.go(x),
                    _ => err(e, self.all(inner), src),
                }
            }
            Tag::GroupMissingCloser => mk(AT::GroupMissingCloser, op, b"", self.args(&c[1..]), src),
            Tag::GroupMissingOpener => mk(AT::GroupMissingOpener, op, b"", self.args(&c[..c.len() - 1]), src),
            Tag::Call => self.call_node(&c[0], &c[1], src),
            Tag::Other => unreachable!(),
        }
    }
    fn call_node(&self, h: &N, body: &N, src: Src) -> A {
        let N::Node { tag, op, ch: bc } = body else { unreachable!() };
        let head = self.go(h);
        if *tag == Tag::GroupMissingCloser {
            let args = self.args(&bc[1..]);
            let mut v = match *op { "CodeParser_GroupTypeSpecifier" => vec![call("TypeSpecifier", vec![head], None)], "CodeParser_GroupDoubleBracket" => vec![sym("Part"), head], _ => vec![head] };
            v.extend(args);
            return mk(AT::CallMissingCloser, "", b"", v, src);
        }
        let inner = &bc[1..bc.len() - 1];
        let (first, last) = (Some(span(&bc[0])), Some(span(&bc[bc.len() - 1])));
        if *op == "CodeParser_GroupTypeSpecifier" {
            let mut a = call2(call("TypeSpecifier", vec![head], None), self.args(inner), src);
            if kind(h) != Some(T::String) { let mut i = issue("StrangeCall", "Unexpected call.", "Error", 950, Some(span(h)), vec![]); i.desc = vec!["The head of ``::[]`` syntax is usually a string.".into()]; a.iss.push(i) }
            return a;
        }
        let double = *op == "CodeParser_GroupDoubleBracket";
        let nested = !double && matches!(inner, [x] if is(x, Tag::Group, "CodeParser_GroupSquare"));
        // how unusual is it to apply this head?
        let (tag_, op_) = match h { N::Leaf { .. } => (None, ""), N::Node { tag, op, .. } => (Some(*tag), *op) };
        let slotseq = kind(h) == Some(T::HashHash) || (tag_ == Some(Tag::Compound) && op_ == "SlotSequence");
        let fine = matches!(kind(h), Some(T::Symbol | T::Hash | T::Under | T::UnderUnder | T::UnderUnderUnder | T::Percent | T::PercentPercent))
            || tag_ == Some(Tag::Call)
            || (tag_ == Some(Tag::Compound) && op_ != "CodeParser_PatternOptionalDefault")
            || (tag_ == Some(Tag::Group) && matches!(op_, "CodeParser_GroupParen" | "List" | "Association"));
        let part = double || nested;
        let sev = if slotseq { "Error" }
            else if fine { "" }
            else if part {
                if kind(h) == Some(T::LinearSyntaxBlob) || (tag_ == Some(Tag::Prefix) && op_ == "CodeParser_PrefixLinearSyntaxBang") || (tag_ == Some(Tag::Infix) && op_ == "CompoundExpression") { "Remark" }
                else if tag_ == Some(Tag::Group) { "Warning" }
                else if tag_ == Some(Tag::Postfix) && op_ == "Transpose" { "" }
                else { "Error" }
            } else if kind(h) == Some(T::String) || (tag_ == Some(Tag::Binary) && op_ == "PatternTest") || (tag_ == Some(Tag::Postfix) && matches!(op_, "Function" | "Derivative")) { "" }
            else if (tag_ == Some(Tag::Infix) && op_ == "CompoundExpression") || tag_ == Some(Tag::Group) { "Warning" }
            else { "Error" };
        let msg = if nested || (double && tag_ == Some(Tag::Infix) && op_ == "CompoundExpression") { "Unexpected ``Part`` call." } else if double && !slotseq { "Unexpected Call." } else { "Unexpected call." };
        let mut a = if part {
            let mut v = vec![head];
            let nest = &ch(&inner.get(0).cloned().unwrap_or(leaf(T::Unknown, 0, 0))).to_vec();
            v.extend(self.args(if nested { &nest[1..nest.len() - 1] } else { inner }));
            call("Part", v, src)
        } else { call2(head, self.args(inner), src) };
        if !sev.is_empty() { a.iss.push(if slotseq { issue("StrangeCallSlotSequence", msg, sev, 1000, first, vec![last]) } else { issue("StrangeCall", msg, sev, 950, first, vec![last]) }) }
        a
    }
    fn inequality(&self, c: &[N], src: Src) -> A {
        let simplify = |v: Vec<(&'static str, A)>, first: A, vector: Option<bool>| -> A {
            let same = v.iter().all(|x| x.0 == v[0].0);
            let op = v[0].0;
            if same {
                let mut args = vec![first]; args.extend(v.into_iter().map(|x| x.1));
                if op.starts_with("Vector") { args = vec![call("List", args, None)] }
                return call(op, args, src);
            }
            let mut args = vec![first];
            for (o, a) in v { args.push(sym(o)); args.push(a) }
            if vector == Some(true) { call2(mk(AT::Leaf, "Symbol", b"Developer`VectorInequality", vec![], None), args, src) } else { call("Inequality", args, src) }
        };
        let mut first = self.go(&c[0]);
        let mut v: Vec<(&'static str, A)> = vec![];
        let mut vector = None;
        for pair in c[1..].chunks(2) {
            let op = relation(kind(&pair[0]).unwrap());
            let aff = match op { "Equal" | "Unequal" | "Less" | "Greater" | "LessEqual" | "GreaterEqual" => None, o => Some(o.starts_with("Vector")) };
            if aff.is_some() {
                if vector.is_some() && vector != aff { first = simplify(std::mem::take(&mut v), first, vector) }
                vector = aff;
            }
            v.push((op, self.go(&pair[1])));
        }
        simplify(v, first, vector)
    }
    fn tok(&self, n: &N, k: T) -> A {
        let src = Some(span(n));
        let raw = |tag| mk(tag, opname(&k), self.text(n), vec![], src);
        match k {
            T::PercentPercent => { let mut i = 0; let t = self.text(n); let mut cnt = 0i64; while i < t.len() { let w = refchar::wc(t, i); if w.end == i { break } if w.pt == refchar::CodePoint::Char('%') { cnt += 1 } i = w.end } call("Out", vec![int(&(-cnt).to_string(), None)], src) }
            T::Under => call("Blank", vec![], src),
            T::UnderUnder => call("BlankSequence", vec![], src),
            T::UnderUnderUnder => call("BlankNullSequence", vec![], src),
            T::UnderDot => call("Optional", vec![call("Blank", vec![], src)], src),
            T::Hash => call("Slot", vec![int("1", None)], src),
            T::HashHash => call("SlotSequence", vec![int("1", None)], src),
            T::Percent => call("Out", vec![], src),
            T::Fake_ImplicitOne => int("1", src),
            T::Fake_ImplicitAll => sym_at("All", src),
            T::Error_PrefixImplicitNull | T::Error_InfixImplicitNull => sym_at("Null", src),
            T::Symbol => {
                let hit = std::str::from_utf8(self.text(n)).ok().and_then(|t| CONSTANTS.iter().find(|c| c.1.contains(&t)));
                match hit { Some(c) => sym_at(c.0, src), None => raw(AT::Leaf) }
            }
            k if crate::refparse::is_error(k) => raw(AT::Error),
            _ => raw(AT::Leaf),
        }
    }
}
const CONSTANTS: &[(&str, &[&str])] = &[
    ("Pi", &["\u{03c0}", "\\[Pi]", "\\:03c0", "\\|0003c0"]), ("Degree", &["\u{00b0}", "\\[Degree]", "\\:00b0", "\\.b0", "\\260", "\\|0000b0"]), ("Infinity", &["\u{221e}", "\\[Infinity]", "\\:221e", "\\|00221e"]),
    ("E", &["\u{f74d}", "\\[ExponentialE]", "\\:f74d", "\\|00f74d"]), ("I", &["\u{f74e}", "\\[ImaginaryI]", "\\:f74e", "\\|00f74e", "\u{f74f}", "\\[ImaginaryJ]", "\\:f74f", "\\|00f74f"]),
];
fn relation(k: T) -> &'static str {
    match k {
        T::EqualEqual | T::LongName_Equal | T::LongName_LongEqual => "Equal", T::BangEqual | T::LongName_NotEqual => "Unequal", T::Less => "Less", T::Greater => "Greater",
        T::LessEqual | T::LongName_LessSlantEqual => "LessEqual", T::GreaterEqual | T::LongName_GreaterSlantEqual => "GreaterEqual",
        k => opname(&k).strip_prefix("LongName_").unwrap(),
    }
}
