//! C28..C31: traversal, span relations, printed form, names.
use crate::engine::*;
use crate::inv::{make, TABS};
use crate::tree::opname;
use std::fmt::Debug;
use wolfram_parser::cst::*;
use wolfram_parser::parse::operators::*;
use wolfram_parser::parse::SyntaxErrorKind;
use wolfram_parser::source::*;
use wolfram_parser::symbol::Symbol;
use wolfram_parser::tokenize::{Token, TokenInput, TokenKind as T};
use wolfram_parser::*;

// ------------------------------------------------------------------ traversal
/// children of a node, as the public fields give them; a call has the nodes of its head, then those of its body
pub fn kids<I, S>(c: &Cst<I, S>) -> Vec<&Cst<I, S>> {
    match c {
        Cst::Token(_) | Cst::Code(_) => vec![],
        Cst::Call(CallNode { head, body }) => {
            let mut v: Vec<&Cst<I, S>> = match head { CallHead::Concrete(h) => h.0.iter().collect(), CallHead::Aggregate(h) => vec![&**h] };
            match body { CallBody::Group(g) => v.extend(g.0.children.0.iter()), CallBody::GroupMissingCloser(g) => v.extend(g.0.children.0.iter()) }
            v
        }
        Cst::SyntaxError(n) => n.children.0.iter().collect(),
        Cst::Box(n) => n.children.0.iter().collect(),
        Cst::Prefix(n) => n.0.children.0.iter().collect(), Cst::Infix(n) => n.0.children.0.iter().collect(), Cst::Postfix(n) => n.0.children.0.iter().collect(), Cst::Binary(n) => n.0.children.0.iter().collect(),
        Cst::Ternary(n) => n.0.children.0.iter().collect(), Cst::PrefixBinary(n) => n.0.children.0.iter().collect(), Cst::Compound(n) => n.0.children.0.iter().collect(),
        Cst::Group(n) => n.0.children.0.iter().collect(), Cst::GroupMissingCloser(n) => n.0.children.0.iter().collect(), Cst::GroupMissingOpener(n) => n.0.children.0.iter().collect(),
    }
}
fn preorder<'a, I, S>(c: &'a Cst<I, S>, out: &mut Vec<&'a Cst<I, S>>) { out.push(c); for k in kids(c) { preorder(k, out) } }
#[derive(PartialEq, Debug, Clone)]
enum Sig { Tok(T, Vec<u8>, Span), Node(&'static str, usize) }
fn sig<I: TokenInput>(c: &Cst<I, Span>) -> Sig {
    let k = || kids(c).len();
    match c {
        Cst::Token(t) => Sig::Tok(t.tok, t.input.as_bytes().to_vec(), t.src),
        Cst::Call(n) => Sig::Node(match &n.body { CallBody::Group(g) => opname(&g.0.op), CallBody::GroupMissingCloser(g) => opname(&g.0.op) }, k()),
        Cst::SyntaxError(n) => Sig::Node(opname(&n.err), k()),
        Cst::Prefix(n) => Sig::Node(opname(&n.0.op), k()), Cst::Infix(n) => Sig::Node(opname(&n.0.op), k()), Cst::Postfix(n) => Sig::Node(opname(&n.0.op), k()), Cst::Binary(n) => Sig::Node(opname(&n.0.op), k()), Cst::Ternary(n) => Sig::Node(opname(&n.0.op), k()),
        Cst::PrefixBinary(n) => Sig::Node(opname(&n.0.op), k()), Cst::Compound(n) => Sig::Node(opname(&n.0.op), k()), Cst::Group(n) => Sig::Node(opname(&n.0.op), k()), Cst::GroupMissingCloser(n) => Sig::Node(opname(&n.0.op), k()), Cst::GroupMissingOpener(n) => Sig::Node(opname(&n.0.op), k()),
        Cst::Box(_) | Cst::Code(_) => Sig::Node("box or code", k()),
    }
}
fn sigs<I: TokenInput>(s: &NodeSeq<Cst<I, Span>>) -> Vec<Sig> { let mut v = vec![]; for c in &s.0 { preorder(c, &mut v) } v.into_iter().map(|c| sig(c)).collect() }
pub fn trivia(t: T) -> bool { matches!(t, T::Comment | T::Whitespace | T::InternalNewline | T::ToplevelNewline) }
fn traversed<I: TokenInput + PartialEq + Debug>(s: &NodeSeq<Cst<I, Span>>, what: &str) -> Result<usize, String> {
    let mut exp = vec![]; for c in &s.0 { preorder(c, &mut exp) }
    let exp_at: Vec<usize> = exp.iter().map(|c| *c as *const _ as usize).collect();
    let mut at = vec![]; s.visit(&mut |c| at.push(c as *const _ as usize));
    if at != exp_at { return Err(format!("visit of the {what} tree makes {} visits, expected {} (each node once, parents first)", at.len(), exp_at.len())) }
    let e: Vec<Sig> = exp.iter().map(|c| sig(c)).collect();
    let mut m = s.clone(); let mut got = vec![]; m.visit_mut(&mut |c| got.push(sig(c)));
    if got != e { return Err(format!("visit_mut of the {what} tree sees other nodes than visit")) }
    if m != *s { return Err(format!("visit_mut of the {what} tree changes it")) }
    m.visit_mut(&mut |c| if let Cst::Token(t) = c { t.tok = T::Unknown });
    let want: Vec<Sig> = e.iter().map(|x| match x { Sig::Tok(_, b, s) => Sig::Tok(T::Unknown, b.clone(), *s), n => n.clone() }).collect();
    if sigs(&m) != want { return Err(format!("a change made through visit_mut does not reach every leaf of the {what} tree, or more than the leaves")) }
    let mut got = vec![]; let m = s.clone().map_visit(&mut |c| { got.push(sig(&c)); c });
    if got != e { return Err(format!("map_visit of the {what} tree sees other nodes than visit")) }
    if m != *s { return Err(format!("map_visit with the identity changes the {what} tree")) }
    let m = s.clone().map_visit(&mut |c| match c { Cst::Token(t) => Cst::Token(Token { tok: T::Unknown, ..t }), c => c });
    if sigs(&m) != want { return Err(format!("map_visit does not replace every leaf of the {what} tree, or more than the leaves")) }
    Ok(exp.len())
}
pub fn traversal(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let o = make(0, aux % 2, 4, 0, 0);
    let c = parse_bytes_cst_seq(b, &o).syntax;
    cx.exec();
    let n = traversed(&c, "concrete")?;
    cx.steps(n);
    let before = sigs(&c);
    { let mut h = H::new(); for x in &before { match x { Sig::Tok(t, ..) => h.u(*t as u64), Sig::Node(n, k) => { h.b(n.as_bytes()); h.u(*k as u64) } } } cx.state(h.0) }
    // an owned copy is the same tree
    let own = NodeSeq(c.0.iter().cloned().map(|x| x.into_owned_input()).collect());
    if sigs(&own) != before { return Err("the owned copy of the tree is another tree".into()) }
    traversed(&own, "owned")?;
    // aggregation drops the trivia leaves and nothing else
    let agg = abstract_cst::aggregate_cst_seq(c.clone());
    let m = traversed(&agg, "aggregated")?;
    cx.steps(m);
    let keep = |v: &NodeSeq<Cst<_, Span>>| -> Vec<(&'static str, Option<Sig>)> { sigs(v).into_iter().filter(|x| !matches!(x, Sig::Tok(t, ..) if trivia(*t))).map(|x| match x { Sig::Node(n, _) => (n, None), t => ("", Some(t)) }).collect() };
    if keep(&agg) != keep(&c) { return Err("aggregation drops or changes more than whitespace, newlines and comments".into()) }
    if sigs(&agg).iter().any(|x| matches!(x, Sig::Tok(t, ..) if trivia(*t))) { return Err("aggregation leaves whitespace, a newline or a comment in the tree".into()) }
    for x in &agg.0 { let mut v = vec![]; preorder(x, &mut v); if v.iter().any(|c| matches!(c, Cst::Call(n) if matches!(n.head, CallHead::Concrete(_)))) { return Err("aggregation leaves a call with a concrete head".into()) } }
    if let Some(x) = c.0.first() { let one = abstract_cst::aggregate_cst(x.clone()); if matches!(x, Cst::Token(t) if trivia(t.tok)) != one.is_none() { return Err("aggregating one node: trivia must give nothing, anything else a node".into()) } }
    Ok(())
}

/// trees the parser does not make: boxes, code nodes, every node type inside every other
mod made {
    use super::*;
    use wolfram_parser::tokenize::TokenString;
    pub type C = Cst<TokenString, Span>;
    pub const KINDS: u64 = 19;
    fn at(n: &mut u32) -> Span { *n += 1; Span::from_character_span(*n, *n + 1) }
    pub fn leaf(t: T, s: &str, n: &mut u32) -> C { Cst::Token(Token { tok: t, src: at(n), input: TokenString { buf: s.as_bytes().to_vec() } }) }
    fn op<O>(op: O, v: Vec<C>) -> OperatorNode<TokenString, Span, O> { OperatorNode { op, children: NodeSeq(v) } }
    pub fn node(kind: u64, v: Vec<C>, n: &mut u32) -> C {
        match kind {
            0 => leaf(T::Symbol, "s", n), 1 => leaf(T::Whitespace, " ", n),
            2 | 3 | 4 => {
                let mut v = v; let h = if v.is_empty() { leaf(T::Symbol, "f", n) } else { v.remove(0) };
                let h = if agg(&h).is_none() { leaf(T::Integer, "1", n) } else { h };
                let b = op(CallOperator::CodeParser_GroupSquare, v);
                Cst::Call(CallNode { head: if kind == 3 { CallHead::Aggregate(Box::new(h)) } else { CallHead::Concrete(NodeSeq(vec![h, leaf(T::Comment, "(**)", n)])) }, body: if kind == 4 { CallBody::GroupMissingCloser(GroupMissingCloserNode(b)) } else { CallBody::Group(GroupNode(b)) } })
            }
            5 => Cst::SyntaxError(SyntaxErrorNode { err: SyntaxErrorKind::ExpectedTilde, children: NodeSeq(v) }),
            6 => Cst::Prefix(PrefixNode(op(PrefixOperator::Minus, v))), 7 => Cst::Infix(InfixNode(op(InfixOperator::Plus, v))), 8 => Cst::Infix(InfixNode(op(InfixOperator::Times, v))),
            9 => Cst::Postfix(PostfixNode(op(PostfixOperator::Factorial, v))), 10 => Cst::Binary(BinaryNode(op(BinaryOperator::Rule, v))), 11 => Cst::Ternary(TernaryNode(op(TernaryOperator::CodeParser_TernaryTilde, v))),
            12 => Cst::PrefixBinary(PrefixBinaryNode(op(PrefixBinaryOperator::Integrate, v))), 13 => Cst::Compound(CompoundNode(op(CompoundOperator::Slot, v))),
            14 => Cst::Group(GroupNode(op(GroupOperator::List, v))), 15 => Cst::GroupMissingCloser(GroupMissingCloserNode(op(GroupOperator::CodeParser_GroupParen, v))), 16 => Cst::GroupMissingOpener(GroupMissingOpenerNode(op(GroupOperator::Association, v))),
            17 => Cst::Box(BoxNode { kind: BoxKind::SuperscriptBox, children: NodeSeq(v), src: at(n) }),
            _ => Cst::Code(CodeNode { first: wolfram_expr::Expr::string("x"), second: wolfram_expr::Expr::from(1i64), src: at(n) }),
        }
    }
    /// what aggregation must make of it
    pub fn agg(c: &C) -> Option<C> {
        fn seq(v: &NodeSeq<C>) -> NodeSeq<C> { NodeSeq(v.0.iter().filter_map(agg).collect()) }
        fn o<O: Clone>(x: &OperatorNode<TokenString, Span, O>) -> OperatorNode<TokenString, Span, O> { OperatorNode { op: x.op.clone(), children: seq(&x.children) } }
        Some(match c {
            Cst::Token(t) if trivia(t.tok) || t.tok == T::Boxes_MultiWhitespace => return None,
            Cst::Token(_) | Cst::Code(_) => c.clone(),
            Cst::Call(n) => Cst::Call(CallNode { head: match &n.head { CallHead::Concrete(h) => CallHead::Aggregate(Box::new(seq(h).0.pop().unwrap())), h => h.clone() }, body: match &n.body { CallBody::Group(g) => CallBody::Group(GroupNode(o(&g.0))), CallBody::GroupMissingCloser(g) => CallBody::GroupMissingCloser(GroupMissingCloserNode(o(&g.0))) } }),
            Cst::SyntaxError(n) => Cst::SyntaxError(SyntaxErrorNode { err: n.err, children: seq(&n.children) }),
            Cst::Box(n) => Cst::Box(BoxNode { kind: n.kind.clone(), children: seq(&n.children), src: n.src }),
            Cst::Prefix(n) => Cst::Prefix(PrefixNode(o(&n.0))), Cst::Infix(n) => Cst::Infix(InfixNode(o(&n.0))), Cst::Postfix(n) => Cst::Postfix(PostfixNode(o(&n.0))), Cst::Binary(n) => Cst::Binary(BinaryNode(o(&n.0))), Cst::Ternary(n) => Cst::Ternary(TernaryNode(o(&n.0))), Cst::PrefixBinary(n) => Cst::PrefixBinary(PrefixBinaryNode(o(&n.0))), Cst::Compound(n) => Cst::Compound(CompoundNode(o(&n.0))),
            Cst::Group(n) => Cst::Group(GroupNode(o(&n.0))), Cst::GroupMissingCloser(n) => Cst::GroupMissingCloser(GroupMissingCloserNode(o(&n.0))), Cst::GroupMissingOpener(n) => Cst::GroupMissingOpener(GroupMissingOpenerNode(o(&n.0))),
        })
    }
}
/// numbers of the case: the node types of the root, its two inner children and a grandchild
pub fn made_trees(b: &[u8], _: u64, cx: &mut Ctx) -> R {
    let n = &mut 0u32; let k: Vec<u64> = b.iter().map(|x| *x as u64).collect();
    let g = { let x = made::leaf(T::Symbol, "g", n); made::node(k[3], vec![x], n) };
    let c1 = { let v = vec![made::leaf(T::Symbol, "a", n), made::leaf(T::InternalNewline, "\n", n), g]; made::node(k[1], v, n) };
    let c2 = { let v = vec![made::leaf(T::Boxes_MultiWhitespace, "  ", n), made::leaf(T::Real, "1.", n)]; made::node(k[2], v, n) };
    let root = { let v = vec![c1, made::leaf(T::Whitespace, " ", n), c2]; made::node(k[0], v, n) };
    let s = NodeSeq(vec![root, made::leaf(T::ToplevelNewline, "\n", n), made::node(k[1], vec![], n)]);
    cx.exec(); let mut h = H::new(); h.b(b); cx.state(h.0);
    cx.steps(traversed(&s, "made")?);
    let mut all = vec![]; for c in &s.0 { preorder(c, &mut all) }
    if all.iter().any(|c| matches!(c, Cst::Call(n) if matches!(n.head, CallHead::Aggregate(_)))) { return Ok(()) }
    let want = NodeSeq(s.0.iter().filter_map(made::agg).collect::<Vec<_>>());
    let got = abstract_cst::aggregate_cst_seq(s.clone());
    if got != want { return Err(format!("the aggregation of {s:?} is {got:?}, expected {want:?}")) }
    for c in &s.0 { if abstract_cst::aggregate_cst(c.clone()) != made::agg(c) { return Err(format!("the aggregation of {c:?} alone")) } }
    traversed(&got, "made and aggregated")?;
    Ok(())
}
pub fn made_space() -> Space { let k = made::KINDS; Space::func("trees of all 19 node types inside one another, boxes and code among them", k * k * k * k, made_trees, move |i, o| { let mut j = i; for _ in 0..4 { o.push((j % k) as u8); j /= k } 0 }) }

// ------------------------------------------------------------------ span relations
fn lc(l: u64, c: u64) -> LineColumn { LineColumn(std::num::NonZeroU32::new(l as u32).unwrap(), std::num::NonZeroU32::new(c as u32).unwrap()) }
/// numbers of the case: convention, then two spans with ordered ends
pub fn span_relations(b: &[u8], _aux: u64, cx: &mut Ctx) -> R {
    let d: Vec<u64> = b.iter().map(|x| *x as u64).collect();
    cx.exec(); cx.steps(4); let mut h = H::new(); h.b(b); cx.state(h.0);
    let (side, chars) = (d[0], d[1] == 1);
    let (mut p, mut q) = ([d[2], d[3]], [d[4], d[5]]); p.sort(); q.sort();
    // position n of the grid, in the order of the text
    let at = |n: u64| lc(1 + n / side, 1 + n % side);
    let (x, y) = if chars { (Span::from_character_span(p[0] as u32 + 1, p[1] as u32 + 1), Span::from_character_span(q[0] as u32 + 1, q[1] as u32 + 1)) } else { (Span::line_column(at(p[0]), at(p[1])), Span::line_column(at(q[0]), at(q[1]))) };
    let want = p[0].max(q[0]) <= p[1].min(q[1]);
    for (i, j) in [(x, y), (y, x)] { if i.overlaps(j) != want { return Err(format!("{i:?} overlaps {j:?}: {}, expected {want} (they {} a location)", i.overlaps(j), if want { "share" } else { "do not share" })) } }
    if x.start_end() != (x.start(), x.end()) { return Err("start_end".into()) }
    let z = Span::at(x.start()); if z.start() != x.start() || z.end() != x.start() { return Err("Span::at is not an empty span".into()) }
    if !x.overlaps(z) || !z.overlaps(x) { return Err(format!("{x:?} does not overlap its own start")) }
    match x.kind() {
        SpanKind::CharacterSpan(CharacterSpan(s, e)) => { if !chars || (s as u64, e as u64) != (p[0] + 1, p[1] + 1) { return Err("kind of a character span".into()) } }
        SpanKind::LineColumnSpan(s) => {
            if chars || s.start != at(p[0]) || s.end != at(p[1]) { return Err("kind of a line/column span".into()) }
            let inside = p[0] <= q[0] && q[0] <= p[1];
            if s.contains(at(q[0])) != inside { return Err(format!("{s:?} contains {:?}: expected {inside}", at(q[0]))) }
            let LineColumnSpan { start, end } = match y.kind() { SpanKind::LineColumnSpan(s) => s, _ => return Err("kind".into()) };
            if s.overlaps(LineColumnSpan { start, end }) != want { return Err("LineColumnSpan::overlaps differs from Span::overlaps".into()) }
            if at(q[0]).line().get() as u64 != 1 + q[0] / side || at(q[0]).column().get() as u64 != 1 + q[0] % side { return Err("line() or column()".into()) }
        }
    }
    Ok(())
}
pub fn span_space(t: bool) -> Vec<Space> {
    let mut v = vec![];
    for (side, lines) in [(3u64, 3u64), (2, 5), (5, 2), (1, 8), (8, 1)] {
        let side_max = if t { side + 1 } else { side };
        let n = side_max * lines; let k = n * n * n * n;
        v.push(Space::func(&format!("all pairs of spans in {lines} lines of {side_max} columns, and as character indices: {} combinations", 2 * k), 2 * k, span_relations, move |i, out| { let mut j = i / 2; out.extend([side_max as u8, (i % 2) as u8]); for _ in 0..4 { out.push((j % n) as u8); j /= n } 0 }));
    }
    v
}

// ------------------------------------------------------------------ printed form
pub fn ctx(name: &str, default: &str) -> String {
    if let Some(r) = name.strip_prefix("CodeParser_") { return format!("CodeParser`{r}") }
    if let Some(r) = name.strip_prefix("Token_") { return format!("Token`{}", r.replace('_', "`")) }
    format!("{default}`{}", name.replace('_', "`"))
}
pub fn kind_name(t: T) -> String {
    match t { T::EndOfFile => "System`EndOfFile".into(), T::Symbol => "System`Symbol".into(), T::String => "System`String".into(), T::Integer => "System`Integer".into(), T::Real => "System`Real".into(), T::Rational => "System`Rational".into(), T::Whitespace => "System`Whitespace".into(), T::ToplevelNewline | T::InternalNewline => "Token`Newline".into(), t => ctx(&format!("{t:?}"), "Token") }
}
fn loc(s: Span) -> String { let f = |l: Location| match l { Location::LineColumn(LineColumn(a, b)) => format!("{{{a}, {b}}}"), Location::CharacterIndex(i) => format!("{i}") }; format!("{{{}, {}}}", f(s.start()), f(s.end())) }
pub fn range<I>(v: &[Cst<I, Span>]) -> Span { let (a, b) = (first(&v[0]), last(&v[v.len() - 1])); join(a, b) }
pub fn join(a: Location, b: Location) -> Span { match (a, b) { (Location::LineColumn(x), Location::LineColumn(y)) => Span::line_column(x, y), (Location::CharacterIndex(x), Location::CharacterIndex(y)) => Span::from_character_span(x, y), _ => unreachable!() } }
pub fn first<I>(c: &Cst<I, Span>) -> Location { match c { Cst::Token(t) => t.src.start(), c => first(kids(c)[0]) } }
pub fn last<I>(c: &Cst<I, Span>) -> Location { match c { Cst::Token(t) => t.src.end(), c => last(kids(c).pop().unwrap()) } }
fn print_seq<I: TokenInput>(v: &[Cst<I, Span>], out: &mut String) { out.push_str("System`List["); for c in v { print(c, out); out.push_str(", ") } out.push(']') }
fn print<I: TokenInput>(c: &Cst<I, Span>, out: &mut String) {
    fn op<I: TokenInput, O: Debug + Copy + 'static>(head: &str, o: &OperatorNode<I, Span, O>, out: &mut String) {
        out.push_str(&format!("CodeParser`{head}[{}, ", ctx(opname(&o.op), "System"))); print_seq(&o.children.0, out); out.push_str(&format!(", {}]", loc(range(&o.children.0))))
    }
    match c {
        Cst::Token(t) => out.push_str(&format!("CodeParser`{}[{}, \"{}\", {}]", if error_kind(t.tok) { "ErrorNode" } else { "LeafNode" }, kind_name(t.tok), std::str::from_utf8(t.input.as_bytes()).unwrap(), loc(t.src))),
        Cst::Call(n) => {
            out.push_str("CodeParser`CallNode[");
            match &n.head { CallHead::Concrete(s) => print_seq(&s.0, out), CallHead::Aggregate(h) => print(h, out) }
            out.push_str(", ");
            match &n.body { CallBody::Group(g) => op("GroupNode", &g.0, out), CallBody::GroupMissingCloser(g) => op("GroupMissingCloserNode", &g.0, out) }
            out.push_str(&format!(", {}]", loc(join(first(c), last(c)))));
        }
        Cst::SyntaxError(n) => { out.push_str(&format!("CodeParser`SyntaxErrorNode[SyntaxError`{:?}, ", n.err)); print_seq(&n.children.0, out); out.push_str(&format!(", {}]", loc(range(&n.children.0)))) }
        Cst::Prefix(n) => op("PrefixNode", &n.0, out), Cst::Infix(n) => op("InfixNode", &n.0, out), Cst::Postfix(n) => op("PostfixNode", &n.0, out), Cst::Binary(n) => op("BinaryNode", &n.0, out), Cst::Ternary(n) => op("TernaryNode", &n.0, out), Cst::PrefixBinary(n) => op("PrefixBinaryNode", &n.0, out), Cst::Compound(n) => op("CompoundNode", &n.0, out),
        Cst::Group(n) => op("GroupNode", &n.0, out), Cst::GroupMissingCloser(n) => op("GroupMissingCloserNode", &n.0, out), Cst::GroupMissingOpener(n) => op("GroupMissingOpenerNode", &n.0, out),
        Cst::Box(_) | Cst::Code(_) => unreachable!(),
    }
}
pub fn error_kind(t: T) -> bool { format!("{t:?}").starts_with("Error_") }
pub fn printed(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    use wolfram_parser::fmt_as_expr::FmtAsExpr;
    if std::str::from_utf8(b).is_err() { return Ok(()) }
    let o = make(0, 0, TABS[(aux % 5) as usize], 0, 0);
    let c = parse_bytes_cst_seq(b, &o).syntax;
    let got = format!("{}", FmtAsExpr(&c));
    let mut exp = String::new(); print_seq(&c.0, &mut exp);
    cx.exec(); cx.steps(exp.len()); let mut h = H::new(); h.b(got.as_bytes()); cx.state(h.0);
    if got != exp { return Err(format!("printed as {got} -- expected {exp}")) }
    if let Ok(t) = tokenize_bytes(b, &o) {
        let got = format!("{}", FmtAsExpr(&t));
        let v: Vec<Cst<_, Span>> = t.0.into_iter().map(Cst::Token).collect();
        let mut exp = String::new(); print_seq(&v, &mut exp);
        if got != exp { return Err(format!("tokens printed as {got} -- expected {exp}")) }
    }
    Ok(())
}

// ------------------------------------------------------------------ names
fn round<O: Operator + PartialEq + Debug + Copy + 'static>(o: O) -> R {
    let s = o.to_symbol();
    let e = ctx(opname(&o), "System");
    if s.as_str() != e { return Err(format!("{} {o:?} has the symbol {}, expected {e}", std::any::type_name::<O>(), s.as_str())) }
    match O::try_from_symbol(s) { Some(x) if x == o => Ok(()), x => Err(format!("{} {o:?}: its symbol {} is read back as {x:?}", std::any::type_name::<O>(), s.as_str())) }
}
fn names_in<I: TokenInput>(c: &Cst<I, Span>) -> R {
    match c {
        Cst::Token(t) => {
            let s = t.tok.to_symbol();
            if s.as_str() != kind_name(t.tok) { return Err(format!("token {:?} has the symbol {}, expected {}", t.tok, s.as_str(), kind_name(t.tok))) }
            match T::from_symbol(s) { Some(x) if x == t.tok || (matches!(x, T::InternalNewline | T::ToplevelNewline) && matches!(t.tok, T::InternalNewline | T::ToplevelNewline)) => Ok(()), x => Err(format!("token {:?}: its symbol {} is read back as {x:?}", t.tok, s.as_str())) }
        }
        Cst::Call(n) => match &n.body { CallBody::Group(g) => round(g.0.op), CallBody::GroupMissingCloser(g) => round(g.0.op) },
        Cst::SyntaxError(n) => { let s = n.err.to_symbol(); let e = format!("{:?}", n.err); if s.as_str() != format!("SyntaxError`{e}") { return Err(format!("error {e} has the symbol {}", s.as_str())) } match SyntaxErrorKind::from_str(&e) { Some(x) if x == n.err => Ok(()), _ => Err(format!("error {e} is not read back from its name")) } }
        Cst::Prefix(n) => round(n.0.op), Cst::Infix(n) => round(n.0.op), Cst::Postfix(n) => round(n.0.op), Cst::Binary(n) => round(n.0.op), Cst::Ternary(n) => round(n.0.op), Cst::PrefixBinary(n) => round(n.0.op), Cst::Compound(n) => round(n.0.op),
        Cst::Group(n) => round(n.0.op), Cst::GroupMissingCloser(n) => round(n.0.op), Cst::GroupMissingOpener(n) => round(n.0.op),
        Cst::Box(_) | Cst::Code(_) => Ok(()),
    }
}
pub fn names(b: &[u8], aux: u64, cx: &mut Ctx) -> R {
    let o = make(0, 0, 4, 0, aux % 8);
    let r = parse_bytes_cst_seq(b, &o);
    let mut v = vec![]; for c in &r.syntax.0 { preorder(c, &mut v) }
    cx.exec(); cx.steps(v.len());
    for c in v { cx.state(match sig(c) { Sig::Tok(t, ..) => t as u64, Sig::Node(n, _) => { let mut h = H::new(); h.b(n.as_bytes()); h.0 } }); names_in(c)? }
    for i in r.fatal_issues.iter().chain(r.non_fatal_issues.iter()) {
        let t = i.tag; if issue::IssueTag::from_str(t.as_str()) != Some(t) || t.as_str() != format!("{t:?}") { return Err(format!("issue tag {t:?} is named {} and read back as {:?}", t.as_str(), issue::IssueTag::from_str(t.as_str()))) }
        let s = i.sev; if issue::Severity::from_str(s.as_str()) != Some(s) || s.as_str() != format!("{s:?}") { return Err(format!("severity {s:?}")) }
    }
    if let Some(u) = r.unsafe_character_encoding { if UnsafeCharacterEncoding::from_str(u.as_str()) != Some(u) || u.as_str() != format!("{u:?}") { return Err(format!("unsafe encoding {u:?} is named {}", u.as_str())) } }
    Ok(())
}
/// a symbol name: whatever reads it must give it back
pub fn symbol_names(b: &[u8], _: u64, cx: &mut Ctx) -> R {
    let s = std::str::from_utf8(b).unwrap();
    let sym: Symbol = match Symbol::try_new(crate::tree::intern(s)) { Some(x) => x, None => return Ok(()) };
    cx.exec();
    fn back<O: Operator + PartialEq + Debug + Copy + 'static>(s: Symbol, cx: &mut Ctx) -> R { if let Some(o) = O::try_from_symbol(s) { cx.steps(1); let mut h = H::new(); h.b(opname(&o).as_bytes()); cx.state(h.0); if o.to_symbol() != s { return Err(format!("{} is read as {o:?}, whose symbol is {}", s.as_str(), o.to_symbol().as_str())) } round(o)? } Ok(()) }
    back::<InfixOperator>(sym, cx)?; back::<PrefixOperator>(sym, cx)?; back::<PostfixOperator>(sym, cx)?; back::<BinaryOperator>(sym, cx)?; back::<TernaryOperator>(sym, cx)?; back::<PrefixBinaryOperator>(sym, cx)?; back::<CompoundOperator>(sym, cx)?; back::<GroupOperator>(sym, cx)?; back::<CallOperator>(sym, cx)?;
    if s.starts_with("System`") && s.matches('`').count() == 1 { if let Some(k) = BoxKind::from_symbol(sym) { cx.steps(1); if format!("System`{}", k.as_str()) != s { return Err(format!("{s} is read as the box kind {k:?}, named {}", k.as_str())) } } else if s.ends_with("Box") { return Err(format!("{s} is not read as a box kind")) } }
    if let Some(t) = T::from_symbol(sym) { cx.steps(1); if t.to_symbol() != sym || kind_name(t) != s { return Err(format!("{s} is read as the token kind {t:?}, whose symbol is {}", t.to_symbol().as_str())) } }
    Ok(())
}
/// every name the code knows, in every context
pub fn name_space() -> Vec<Space> {
    let v: Vec<Vec<u8>> = include_str!("symbol_list.txt").lines().flat_map(|n| ["System`", "CodeParser`", "Token`", "SyntaxError`", "Global`", "CodeParser`Library`"].map(|c| format!("{c}{n}").into_bytes())).collect();
    crate::gens::spaces(vec![crate::gens::Gen::list("every symbol name the parser knows, in six contexts", v)], 1, symbol_names)
}
