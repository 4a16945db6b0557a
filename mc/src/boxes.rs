//! C35: boxes in the tree are operands like any other: substituted for a symbol of a parsed text, before and after the abstraction.
use crate::asts::quirks;
use crate::engine::*;
use crate::gens::*;
use wolfram_expr::{Expr, Symbol};
use wolfram_parser::ast::{Ast, AstMetadata};
use wolfram_parser::cst::*;
use wolfram_parser::issue::{IssueTag, Severity};
use wolfram_parser::parse::operators::{CallOperator, GroupOperator};
use wolfram_parser::source::{Source, Span};
use wolfram_parser::tokenize::{TokenKind as T, TokenString};
use wolfram_parser::*;

type C = Cst<TokenString, Span>;
fn kind(i: usize) -> BoxKind {
    match i {
        0 => BoxKind::SubscriptBox, 1 => BoxKind::SuperscriptBox, 2 => BoxKind::TagBox, 3 => BoxKind::TemplateBox, 4 => BoxKind::InterpretationBox, 5 => BoxKind::StyleBox, 6 => BoxKind::NamespaceBox, 7 => BoxKind::OverscriptBox, 8 => BoxKind::SubsuperscriptBox, 9 => BoxKind::GraphicsBox,
        10 => BoxKind::Other(Symbol::new("System`FractionBox")), _ => BoxKind::Other(Symbol::new("System`SqrtBox")),
    }
}
const NK: usize = 12;
/// boxes that may be called
fn callable(k: &BoxKind) -> bool { ["TemplateBox", "InterpretationBox", "SubscriptBox", "SuperscriptBox", "StyleBox", "NamespaceBox", "OverscriptBox", "SubsuperscriptBox"].contains(&k.as_str()) }
const PARTS: [&str; 24] = ["b", "1", "b+c", "-b", "[[i]]", "[[i,j]]", "[[]]", "[]", "[i]", "[[i]j]", "[[i] ]", "\\[LeftDoubleBracket]i\\[RightDoubleBracket]", "\\[LeftDoubleBracket]\\[RightDoubleBracket]", "\\[LeftDoubleBracket]i;;j,k\\[RightDoubleBracket]", "(b)", "()", "(1,2)", "{b}", "f[b]", "[[i", "b)", "\"s\"", "(b", "[{i}]"];
const NP: usize = PARTS.len() + 8;
fn parsed(s: &str) -> Vec<C> { parse_cst_seq(s, &ParseOptions::default()).syntax.0.into_iter().map(|c| c.into_owned_input()).collect() }
fn at(n: u32) -> Span { Span::from_character_span(n, n + 1) }
fn code(a: &str, b: &str, n: u32) -> C { Cst::Code(CodeNode { first: Expr::from(Symbol::new(a)), second: Expr::from(Symbol::new(b)), src: at(n) }) }
/// A child of a box; the last eight: the tag of a derivative, another tag, a tagged (b), a box, things that are nearly the tag of a derivative.
fn part(i: usize) -> C {
    match i.checked_sub(PARTS.len()) {
        None => parsed(PARTS[i]).into_iter().next().unwrap(),
        Some(0) => code("System`Evaluated", "System`Derivative", 7),
        Some(1) => code("System`Evaluated", "System`Integrate", 8),
        Some(2) => Cst::Box(BoxNode { kind: BoxKind::TagBox, children: NodeSeq(vec![part(14), code("System`Evaluated", "System`Derivative", 9)]), src: at(10) }),
        Some(4) => code("System`Null", "System`Derivative", 12),
        Some(5) => code("System`Evaluated", "Global`Derivative", 13),
        Some(6) => Cst::Code(CodeNode { first: Expr::from(Symbol::new("System`Evaluated")), second: Expr::normal(Expr::from(Symbol::new("System`Derivative")), vec![Expr::from(1)]), src: at(14) }),
        Some(7) => Cst::Code(CodeNode { first: Expr::from(0), second: Expr::from(Symbol::new("System`Derivative")), src: at(15) }),
        _ => Cst::Box(BoxNode { kind: kind(11), children: NodeSeq(vec![part(2)]), src: at(11) }),
    }
}
fn meta(s: Span) -> AstMetadata { AstMetadata { source: Source::Span(s), issues: vec![] } }
fn one(c: &C, q: QuirkSettings) -> Ast { match c { Cst::Box(b) => boxed(b, q), Cst::Code(n) => Ast::Code { first: n.first.clone(), second: n.second.clone(), data: meta(n.src) }, c => abstract_cst::abstract_cst(c.clone(), q) } }
fn tok(c: &C, k: T) -> bool { matches!(c, Cst::Token(t) if t.tok == k) }
fn three(c: &C, o: GroupOperator, l: T, r: T) -> Option<(C, C, C, Span)> {
    let Cst::Group(GroupNode(n)) = c else { return None };
    if n.op != o || n.children.0.len() != 3 { return None }
    let [a, b, z] = [&n.children.0[0], &n.children.0[1], &n.children.0[2]];
    if !tok(a, l) || !tok(z, r) { return None }
    Some((a.clone(), b.clone(), z.clone(), c.get_source()))
}
fn raw(c: &C) -> Ast { match c { Cst::Token(t) => Ast::Leaf { kind: t.tok, input: t.input.clone(), data: meta(t.src) }, _ => unreachable!() } }
/// The documented abstraction of a box (aggregated).
fn boxed(b: &BoxNode<TokenString, Span>, q: QuirkSettings) -> Ast {
    let v = &b.children.0;
    let g = |k, o: &C, b: Ast, c: &C, s| Ast::Group { kind: k, children: Box::new((raw(o), b, raw(c))), data: meta(s) };
    let two = |x: Ast| Ast::Box { kind: b.kind.clone(), args: vec![one(&v[0], q), x], data: meta(b.src) };
    if b.kind == BoxKind::SubscriptBox && v.len() >= 2 {
        let sq = GroupOperator::CodeParser_GroupSquare;
        if let Some((o1, m, c1, s1)) = three(&v[1], sq, T::OpenSquare, T::CloseSquare) { if let Some((o2, x, c2, s2)) = three(&m, sq, T::OpenSquare, T::CloseSquare) { return two(g(sq, &o1, g(sq, &o2, one(&x, q), &c2, s2), &c1, s1)) } }
        let d = GroupOperator::CodeParser_GroupDoubleBracket;
        if let Some((o, x, c, s)) = three(&v[1], d, T::LongName_LeftDoubleBracket, T::LongName_RightDoubleBracket) { return two(g(d, &o, one(&x, q), &c, s)) }
    }
    if b.kind == BoxKind::SuperscriptBox && v.len() >= 2 {
        if let Cst::Box(BoxNode { kind: BoxKind::TagBox, children: NodeSeq(t), src }) = &v[1] {
            if t.len() == 2 { if let (Some((o, x, c, s)), Cst::Code(n)) = (three(&t[0], GroupOperator::CodeParser_GroupParen, T::OpenParen, T::CloseParen), &t[1]) {
                if n.first == Expr::from(Symbol::new("System`Evaluated")) && n.second == Expr::from(Symbol::new("System`Derivative")) {
                    return two(Ast::TagBox_GroupParen { group: Box::new((raw(&o), one(&x, q), raw(&c), Source::Span(s))), tag: CodeNode { first: n.first.clone(), second: n.second.clone(), src: Source::Span(n.src) }, data: meta(*src) })
                }
            } }
        }
    }
    Ast::Box { kind: b.kind.clone(), args: v.iter().map(|c| one(c, q)).collect(), data: meta(b.src) }
}
fn subst(a: Ast, bx: &dyn Fn(Span) -> Ast, strange: &[(Span, Span, Span)]) -> Ast {
    let s = |v: Vec<Ast>| v.into_iter().map(|a| subst(a, bx, strange)).collect::<Vec<_>>();
    match a {
        Ast::Leaf { kind: T::Symbol, ref input, ref data } if input.buf == b"a" => match &data.source { Source::Span(s) => bx(*s), _ => a },
        Ast::Leaf { .. } | Ast::Error { .. } | Ast::Code { .. } => a,
        Ast::Call { head, args, mut data } => {
            let (head, args) = (subst(*head, bx, strange), s(args));
            let is = |a: &Ast| matches!(a, Ast::Box { .. });
            let part = matches!(&head, Ast::Leaf { input, data, .. } if input.buf == b"Part" && data.source == Source::Unknown) && args.first().is_some_and(is);
            if is(&head) || part {
                if let Some((_, l, r)) = strange.iter().find(|x| Source::Span(x.0) == data.source) {
                    data.issues.push(issue::Issue { make_sym: wolfram_expr::symbol::SymbolRef::try_new("CodeParser`SyntaxIssue").unwrap(), tag: IssueTag::StrangeCall, msg: String::new(), sev: Severity::Error, src: Source::Span(*l), val: 0.95, actions: vec![], additional_descriptions: vec![], additional_sources: vec![Source::Span(*r)] })
                }
            }
            Ast::Call { head: Box::new(head), args, data }
        }
        Ast::CallMissingCloser { head, args, data } => Ast::CallMissingCloser { head: Box::new(subst(*head, bx, strange)), args: s(args), data },
        Ast::SyntaxError { kind, children, data } => Ast::SyntaxError { kind, children: s(children), data },
        Ast::AbstractSyntaxError { kind, args, data } => Ast::AbstractSyntaxError { kind, args: s(args), data },
        Ast::GroupMissingCloser { kind, children, data } => Ast::GroupMissingCloser { kind, children: s(children), data },
        Ast::GroupMissingOpener { kind, children, data } => Ast::GroupMissingOpener { kind, children: s(children), data },
        Ast::PrefixNode_PrefixLinearSyntaxBang(v, data) => { let [x, y] = *v; Ast::PrefixNode_PrefixLinearSyntaxBang(Box::new([subst(x, bx, strange), subst(y, bx, strange)]), data) }
        a => a,
    }
}
/// message texts are not compared
fn mute(a: &mut Ast) {
    let m = |d: &mut AstMetadata| for i in &mut d.issues { i.msg.clear() };
    match a {
        Ast::Call { head, args, data } | Ast::CallMissingCloser { head, args, data } => { m(data); mute(head); args.iter_mut().for_each(mute) }
        Ast::SyntaxError { children: v, data, .. } | Ast::AbstractSyntaxError { args: v, data, .. } | Ast::Box { args: v, data, .. } | Ast::GroupMissingCloser { children: v, data, .. } | Ast::GroupMissingOpener { children: v, data, .. } => { m(data); v.iter_mut().for_each(mute) }
        Ast::PrefixNode_PrefixLinearSyntaxBang(v, data) => { m(data); v.iter_mut().for_each(mute) }
        Ast::Group { children, data, .. } => { m(data); mute(&mut children.0); mute(&mut children.1); mute(&mut children.2) }
        Ast::TagBox_GroupParen { group, .. } => { mute(&mut group.0); mute(&mut group.1); mute(&mut group.2) }
        _ => (),
    }
}
fn check(text: &[u8], make: &dyn Fn(Span) -> BoxNode<TokenString, Span>, q: QuirkSettings, cx: &mut Ctx) -> R {
    let o = ParseOptions::default();
    let plain: Vec<C> = parse_bytes_cst_seq(text, &o).syntax.0.into_iter().map(|c| c.into_owned_input()).collect();
    // a symbol that is a part of one compound token (a_, #a) is no operand
    let mut other = false;
    let is = |c: &C| matches!(c, Cst::Token(t) if t.tok == T::Symbol && t.input.buf == b"a");
    NodeSeq(plain.clone()).visit(&mut |c| if let Cst::Compound(CompoundNode(n)) = c { if n.children.0.iter().any(|c| is(c)) { other = true } });
    if other { return Ok(()) }
    let changed = NodeSeq(plain.clone()).map_visit(&mut |c| if is(&c) { let Cst::Token(t) = c else { unreachable!() }; Cst::Box(make(t.src)) } else { c });
    cx.exec();
    let agg = abstract_cst::aggregate_cst_seq(changed);
    let (mut strange, mut n) = (vec![], 0);
    agg.visit(&mut |c| { n += 1; if let Cst::Call(c) = c { if let (CallHead::Aggregate(h), CallBody::Group(GroupNode(g))) = (&c.head, &c.body) { if let Cst::Box(b) = &**h { if !callable(&b.kind) && matches!(g.op, CallOperator::CodeParser_GroupSquare | CallOperator::CodeParser_GroupDoubleBracket) {
        let (Some(l), Some(r)) = (g.children.0.first(), g.children.0.last()) else { return };
        // of [[ ]] the outer brackets
        strange.push((c.get_source(), l.get_source(), r.get_source()))
    } } } } });
    cx.steps(n);
    let got: Vec<Ast> = agg.0.into_iter().map(|c| { let mut a = abstract_cst::abstract_cst(c, q); mute(&mut a); a }).collect();
    let bx = |s: Span| { let NodeSeq(mut v) = abstract_cst::aggregate_cst_seq(NodeSeq(vec![Cst::Box(make(s))])); let Some(Cst::Box(b)) = v.pop() else { unreachable!() }; boxed(&b, q) };
    let exp: Vec<Ast> = abstract_cst::aggregate_cst_seq(NodeSeq(plain)).0.into_iter().map(|c| { let mut a = subst(abstract_cst::abstract_cst(c, q), &bx, &strange); mute(&mut a); a }).collect();
    let mut h = H::new(); h.b(format!("{got:?}").as_bytes()); cx.state(h.0);
    if got != exp { return Err(format!("with a {} for a the abstraction is {got:?}, expected {exp:?}", make(at(1)).kind.as_str())) }
    Ok(())
}
/// every box kind in the place of the symbol a of a text
pub fn contexts(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let k = [0, 2, 9, 10, 1, 3, 4, 5, 6, 7, 8, 11][(aux / 8 % NK as u64) as usize];
    let v = vec![part(0), part([4, 2, 26, 14][(aux % 4) as usize])];
    check(b, &|s| BoxNode { kind: kind(k), children: NodeSeq(v.clone()), src: s }, quirks(aux % 8), cx)
}
/// Input: kind, context, children.
pub fn contents(b: &[u8], _: u64, cx: &mut Ctx) -> R {
    const CTX: [&str; 6] = ["a", "a[x]", "-a+b", "a[[1]]", "{a, a'}", "a\\[LeftDoubleBracket]1\\[RightDoubleBracket]"];
    let v: Vec<C> = b[2..].iter().map(|i| part(*i as usize)).collect();
    check(CTX[b[1] as usize].as_bytes(), &|s| BoxNode { kind: kind(b[0] as usize), children: NodeSeq(v.clone()), src: s }, QuirkSettings::default(), cx)
}
/// Input: children of the tag box in a superscript, then what follows.
pub fn tagged(b: &[u8], _: u64, cx: &mut Ctx) -> R {
    let tag = Cst::Box(BoxNode { kind: kind(2), children: NodeSeq(b[1..].iter().map(|i| part(*i as usize)).collect()), src: at(3) });
    let v = match b[0] { 0 => vec![part(0), tag], 1 => vec![tag], 2 => vec![part(3), tag, part(1)], _ => vec![part(1), part(0), tag] };
    for k in [1, 0, 8] { check(b"a", &|s| BoxNode { kind: kind(k), children: NodeSeq(v.clone()), src: s }, QuirkSettings::default(), cx)? }
    Ok(())
}
pub fn space(t: bool) -> Vec<Space> {
    let d = t as usize;
    let ch = Words { syms: (0..NP as u8).map(|i| vec![i]).collect(), min: 0, max: 2 + d };
    let n = ch.count() * (NK * 6) as u64;
    let c = Space::func(&format!("every kind of box with up to {} children of {NP}, in six contexts", ch.max), n, contents, move |i, o| { o.push((i % NK as u64) as u8); o.push((i / NK as u64 % 6) as u8); ch.write(i / (NK * 6) as u64, o); 0 });
    let tg = Words { syms: (0..NP as u8).map(|i| vec![i]).collect(), min: 0, max: 3 };
    let e = Space::func(&format!("a tag box with up to {} children in a superscript or subscript", tg.max), tg.count() * 4, tagged, move |i, o| { o.push((i % 4) as u8); tg.write(i / 4, o); 0 });
    let mut v = vec![c, e];
    let g = vec![Gen::words("contexts", &syms("a b 1 + - * / ^ ( ) [ ] { } [[ ]] , ' ! @ @@ ~ = := -> ::[ ; ;; _ ? : :: & %20 %0A . !! # < == @* /@ // \\[LeftDoubleBracket] \\[RightDoubleBracket] \" <> |"), 0, 3), Gen::words("brackets", &a_brackets(), 0, 4 + d), programs(1 + d), pieces()];
    v.extend(g.iter().map(|g| g.check(if t { 96 } else { 24 }, contexts)));
    v.extend(ops1().iter().map(|g| g.check(if t { 96 } else { 32 }, contexts)));
    v.extend(tree_words(t).iter().map(|g| g.check(if t { 16 } else if g.n > 80_000 { 1 } else { 4 }, contexts)));
    v
}
