//! The finite input spaces that are explored.
use crate::engine::*;
use crate::refparse::{ix, px};
use crate::reftok::OPS;
use crate::spec_tables::*;
use std::sync::Arc;
use wolfram_parser::tokenize::TokenKind as T;

#[derive(Clone)]
pub struct Gen { pub name: String, pub n: u64, pub f: Arc<dyn Fn(u64, &mut Vec<u8>) + Send + Sync> }
pub type Syms = Vec<Vec<u8>>;
/// symbols separated by blanks, %XX is a byte, `%_` the empty word
pub fn syms(s: &str) -> Syms { s.split(' ').filter(|x| !x.is_empty()).map(unesc).collect() }
pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = vec![]; let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && b.get(i + 1) == Some(&b'_') { i += 2; continue }
        match s.get(i + 1..i + 3).filter(|_| b[i] == b'%').and_then(|x| u8::from_str_radix(x, 16).ok()) { Some(x) => { o.push(x); i += 3 } None => { o.push(b[i]); i += 1 } }
    }
    o
}
impl Gen {
    pub fn words(name: &str, s: &Syms, min: usize, max: usize) -> Gen {
        let w = Words { syms: s.clone(), min, max };
        Gen { name: format!("{name}: words of length {min}..={max} over {} symbols", s.len()), n: w.count(), f: Arc::new(move |i, o| w.write(i, o)) }
    }
    /// one alternative from each slot
    pub fn prod(name: &str, slots: Vec<Syms>) -> Gen {
        let n = slots.iter().map(|s| s.len() as u64).product();
        Gen { name: format!("{name}: {} combinations", slots.iter().map(|s| s.len().to_string()).collect::<Vec<_>>().join("x")), n, f: Arc::new(move |mut i, o| {
            let mut d = n;
            for s in &slots { d /= s.len() as u64; o.extend_from_slice(&s[(i / d) as usize]); i %= d }
        }) }
    }
    pub fn list(name: &str, items: Syms) -> Gen { let n = items.len() as u64; Gen { name: format!("{name}: {n} inputs"), n, f: Arc::new(move |i, o| o.extend_from_slice(&items[i as usize])) } }
    /// the same words between each pair of contexts
    pub fn within(self, c: &[(&str, &str)]) -> Gen {
        let c: Vec<_> = c.iter().map(|(a, b)| (unesc(a), unesc(b))).collect();
        let (k, f) = (c.len() as u64, self.f.clone());
        Gen { name: format!("{} in {k} contexts", self.name), n: self.n * k, f: Arc::new(move |i, o| { let x = &c[(i % k) as usize]; o.extend_from_slice(&x.0); f(i / k, o); o.extend_from_slice(&x.1) }) }
    }
    pub fn check(&self, naux: u64, check: CheckFn) -> Space {
        let f = self.f.clone();
        Space { name: if naux > 1 { format!("{} x {naux} parameter values", self.name) } else { self.name.clone() }, n: self.n * naux, gen: Box::new(move |i, o| { f(i / naux, o); i % naux }), check }
    }
}
pub fn spaces(g: Vec<Gen>, naux: u64, c: CheckFn) -> Vec<Space> { g.iter().map(|x| x.check(naux, c)).collect() }
fn cat(a: &[&str]) -> Syms { a.iter().flat_map(|x| syms(x)).collect() }
fn join(v: &[&[u8]]) -> Vec<u8> { v.concat() }

// ------------------------------------------------------------------ operators
/// Source text of the operator tokens (empty kinds, literals and errors have none).
pub fn op_text(k: T) -> Option<String> {
    if let Some(o) = OPS.iter().find(|o| o.1 == k) { return Some(o.0.to_string()) }
    Some(match k {
        T::OpenParen => "(".into(), T::Percent => "%".into(), T::PercentPercent => "%%".into(),
        T::LinearSyntax_CloseParen => "\\)".into(), T::LinearSyntax_Bang => "\\!".into(), T::LinearSyntax_At => "\\@".into(), T::LinearSyntax_Percent => "\\%".into(),
        T::LinearSyntax_Caret => "\\^".into(), T::LinearSyntax_Amp => "\\&".into(), T::LinearSyntax_Star => "\\*".into(), T::LinearSyntax_Under => "\\_".into(),
        T::LinearSyntax_Plus => "\\+".into(), T::LinearSyntax_Slash => "\\/".into(), T::LinearSyntax_BackTick => "\\`".into(), T::LinearSyntax_Space => "\\ ".into(),
        T::LinearSyntaxBlob => "\\(x\\)".into(),
        k => { let n = format!("{k:?}"); let n = n.strip_prefix("LongName_")?; format!("\\[{n}]") }
    })
}
/// every operator token of the published tables, with its text
pub fn all_ops() -> Vec<(T, Vec<u8>)> {
    let mut v: Vec<(T, Vec<u8>)> = vec![];
    for k in PREFIX.iter().map(|x| x.0).chain(INFIX.iter().map(|x| x.0)) {
        if v.iter().any(|x| x.0 == k) { continue }
        if let Some(t) = op_text(k) { v.push((k, t.into_bytes())) }
    }
    v
}
/// one operator of each behaviour class (everything but the operator's own name)
pub fn op_classes() -> Vec<Vec<u8>> {
    let mut seen: Vec<(String, String)> = vec![]; let mut out = vec![];
    for (k, t) in all_ops() {
        let a = match px(k) { Some(Px::Op(p, r, _)) => format!("op{p}{r}"), Some(Px::IntegralLike(p, r, ..)) => format!("int{p}{r}"), Some(Px::Group(g)) => format!("g{g}"), x => format!("{x:?}") };
        let b = match ix(k) { Some(Ix::Bin(p, r, _)) => format!("bin{p}{r}"), Some(Ix::Infix(p, r, _)) => format!("inf{p}{r}"), Some(Ix::Post(p, r, _)) => format!("post{p}{r}"), x => format!("{x:?}") };
        if a.starts_with("Some(Error") || seen.contains(&(a.clone(), b.clone())) { continue }
        seen.push((a, b)); out.push(t);
    }
    out
}
fn ops_txt() -> Syms { all_ops().into_iter().map(|x| x.1).collect() }
fn one(s: &str) -> Syms { vec![unesc(s)] }
/// every operator alone, in every place of a small frame
pub fn ops1() -> Vec<Gen> {
    let o = ops_txt();
    let sp = || syms("%_ %20");
    vec![Gen::prod("every operator in every place", vec![syms("%_ a %20 ( a%20 { f[ 1 "), o.clone(), sp(), syms("%_ b ) b) b] b} b,c ,b b%0Ac 1 -b b[c] [b] [b]] (b) b%20c")])]
}
/// every ordered pair of operators
pub fn ops2() -> Vec<Gen> {
    let o = ops_txt();
    vec![
        Gen::prod("every pair of operators", vec![syms("%_ a"), o.clone(), syms("%_ b"), o.clone(), syms("%_ c")]),
        Gen::prod("every pair of operators, spaced", vec![one("a%20"), o.clone(), one("%20b%20"), o.clone(), one("%20c")]),
    ]
}
pub fn ops2_more() -> Vec<Gen> {
    let o = ops_txt();
    vec![Gen::prod("every pair of operators in brackets", vec![syms("( f[ { a[["), syms("%_ a"), o.clone(), syms("%_ b"), o.clone(), syms("%_ c"), syms(") ] } %_ ")])]
}
/// triples of operators, one per behaviour class
pub fn ops3() -> Vec<Gen> { let c = op_classes(); vec![Gen::prod("every triple of operator classes", vec![syms("%_ a"), c.clone(), one("b"), c.clone(), one("c"), c.clone(), syms("%_ d")])] }
pub fn ops3_more() -> Vec<Gen> { let c = op_classes(); vec![Gen::prod("every triple of operator classes, operands optional", vec![syms("%_ a"), c.clone(), syms("%_ b"), c.clone(), syms("%_ c"), c.clone(), syms("%_ d")])] }
/// a op b op c ... : every chain of n operators of each theme
pub const THEMES: &[(&str, usize, &str)] = &[
    ("patterns", 6, ": * ^ @ | /; ="), ("signs", 6, "+ - +%20+ +- *- / --%20"), ("products", 6, "* / %20 /- *- \\[Times] ."), ("comparisons", 5, "< <= == \\[VectorLess] \\[VectorGreaterEqual] \\[LessLess] \\[NotEqual] ==="),
    ("calls", 5, "@ // @@ /@ @@@ ~ '@ [x]@ @*"), ("definitions", 5, "= := /: ^= += -> :> =. ;"), ("logic", 5, "&& || ! !&& && ! \\[Not] => \\[Implies] \\[And] ==="), ("blanks", 5, "_ : :: .. ? __ :_ ..:"),
    ("statements", 5, "; ;; , = ;%20; ;;%20 & :="), ("postfix", 5, "! ' & .. ++ -- !!%20 !* ^"), ("tildes", 6, "~ ~~ @ + ~- ="), ("strings", 5, "<> ~~ + ** . <>- @"), ("integrals", 5, "+ * \\[DifferentialD] +\\[Integral] \\[Integral] = \\[DifferentialD]x+"), ("newlines", 6, "+ %0A ; +%0A %0A- , *"), ("brackets", 6, "+( )* ,{ }, [ ] ^"), ("spread", 4, "+ - * / ^ = := ; ;; && || ! & @ // ~ : :: ? < -> /; /. | . ' [ ] ( )"),
];
pub fn chains(t: bool) -> Vec<Gen> {
    THEMES.iter().map(|(n, k, o)| {
        let k = if t && *k > 4 { k + 1 } else { *k };
        let o = syms(o); let mut slots = vec![one("a")];
        for i in 0..k { slots.push(o.clone()); slots.push(vec![vec![b'b' + i as u8]]) }
        let mut g = Gen::prod("", slots); g.name = format!("chains of {k} operators, {n}: {} inputs", g.n); g
    }).collect()
}
/// long words over small alphabets
pub const SMALL: &[(usize, &str)] = &[(8, "a +%20 -"), (8, "a + %20 1"), (7, "a - * 2 /"), (7, "a ! !! %20 &&"), (8, "a ; %20 %0A"), (7, "a ;; ; ,"), (7, "a _ : . ?"), (7, "a ~ %20 @"), (7, "a = . :="), (8, "a \\[Integral] \\[DifferentialD] +"), (7, "a ( ) , ;;"), (7, "a # & @ %20"), (7, "f[ ] a , %0A"), (7, "a ' ++ -- %20"), (7, "a < == \\[VectorLess] !"), (7, "a | || |-> ->"), (7, "a \\( \\) \\^ \\_"), (7, "a :: \" ::["), (7, "a << >> %20 \""), (7, "a /: = -> %20"), (6, "a ^ - 1 / ( )"), (7, "- 1 ( ) *"), (7, "a \\%0A %20 +"), (8, "a (* *) %20"), (8, "a [ ] ,")];
pub fn small(t: bool) -> Vec<Gen> { SMALL.iter().map(|(n, s)| { let mut g = Gen::words("", &syms(s), 0, n + t as usize); g.name = format!("words of length 0..={} over {}", n + t as usize, s); g }).collect() }
/// longer mixes over fewer classes
pub fn ops_mix(n: usize) -> Gen { Gen::words("operator mix", &syms("a b + - * / ^ = := ; ;; & ' ! @ // , ( ) [ ] %20 < == _ :"), 0, n) }

// ------------------------------------------------------------------ alphabets
pub fn a_mix() -> Syms { cat(&["a b 1 2.5 \"s\" f[ [ ] [[ ]] ( ) { } <| |> , ; ;; + - * / ^ = := =. == < > ! !! & ' @ @@ @@@ // ~ _ __ _. x_ : :: # ## %25 -> && | ? .. ++ %20 %0A (**) \\[Integral] \\[DifferentialD] \\[Alpha] /: << >> \\( \\) \\!"]) }
pub fn a_core() -> Syms { syms("a b 1 0 + - * / ^ ( ) [ ] { } , ; = : _ # @ ' ! & %20 %0A \" (* *)") }
pub fn a_punct() -> Syms { let mut v: Syms = (b'!'..=b'~').filter(|c| c.is_ascii_punctuation()).map(|c| vec![c]).collect(); v.extend(syms("a 1 %20")); v }
pub fn a_ascii() -> Syms { (9u8..=13).chain(32..=126).map(|c| vec![c]).collect() }
pub fn a_num() -> Syms { syms("0 1 7 a z . ` ^ * + - %20") }
pub fn a_num2() -> Syms { syms("0 1 2 9 a g Z . ` ^ ^^ *^ + - ` `` .. _ \\%0A 16^^ 36^^ 37^^ 1.5") }
pub fn a_str() -> Syms { syms("\" \\ ( * ) a %0A %0D %09 %20 [ n <") }
pub fn a_sym() -> Syms { syms("a Z 1 $ ` _ # %25 : %C3%A9 \\[Alpha] %20 \" . @") }
pub fn a_esc() -> Syms { syms("\\ [ ] : . | 0 1 7 8 a f A Z \" < n ( ) %0A %20 %C3%A9") }
pub fn a_lc() -> Syms { syms("a 1 \\%0A \\%0D \\%0D%0A %20 %09 %0A . = \" : (* *) + _") }
pub fn a_pos() -> Syms { syms("a %C3%A9 %F0%9D%92%9C %09 %0A %0D %0D%0A \" \\ (* *) %20 + \\[Alpha] %E2%80%A8 %0C") }
pub fn a_bytes() -> Syms { syms("%00 a \" \\ %0A %0D %80 %8F %90 %9F %A0 %BB %BF %C0 %C1 %C2 %DF %E0 %E1 %EC %ED %EE %EF %F0 %F1 %F4 %F5 %FF") }
pub fn a_brackets() -> Syms { syms("( ) [ ] { } <| |> a , ::[") }
pub fn a_brackets2() -> Syms { syms("( ) [ ] [[ \\[LeftDoubleBracket] \\[RightDoubleBracket] \\[LeftAssociation] \\[RightAssociation] \\[LeftAngleBracket] \\[RightAngleBracket] \\[LeftCeiling] \\[RightCeiling] \\[LeftFloor] \\[RightFloor] \\[LeftBracketingBar] \\[RightBracketingBar] \\[LeftDoubleBracketingBar] \\[RightDoubleBracketingBar] \\[OpenCurlyQuote] \\[CloseCurlyQuote] \\[OpenCurlyDoubleQuote] \\[CloseCurlyDoubleQuote] a , %20 %0A + ;") }
pub fn a_file() -> Syms { syms("a 1 $ ` / . \\ ! - _ : * ~ ? [ ] %20 %0A \" , + \\%0A %C3%A9 ;") }
/// one character of every class
pub fn a_chars() -> Syms { syms("a Z 5 $ ` %20 %09 %0A %0D %0D%0A %0B %0C %00 %07 %7F %C2%A0 %E2%80%A8 %E2%80%A9 %E2%81%9F %C3%A9 %CE%B1 %E2%88%AB %EF%8D%89 %EF%9F%81 %EF%BB%BF %E2%80%8B %F0%9D%92%9C \\[Alpha] \\[RawSpace] \\[NewLine] \\[IndentingNewLine] \\[InvisibleSpace] \\[Plus] \\[RawQuote] \\[COMPATIBILITYNoBreak] \\[NoBreak] \\[LeftCeiling] \\[Foo] \\( \\! \\\" \\n \\\\ \\:03b1 \\.41 \\101 \\|01d49c \\%0A") }
pub fn a_tag() -> Syms { syms("a 1 $ ` \" :: : # ## _ %20 %0A \\%0A %C3%A9 , [ ] + \\[Alpha]") }
pub fn a_neg() -> Syms { syms("- + * / ^ ( ) a 0 1 1.5 %20 2^^0 @ \\[Minus]") }
pub fn a_cmp() -> Syms { syms("a b < > <= >= == != === =!= \\[LessEqual] \\[VectorGreater] \\[Equal] ( ) %20 \\[Element]") }
pub fn a_quirk() -> Syms { syms("a Plus Times And @ @@@ + * && / - ( ) %20 1 [ ]") }
pub fn a_comma() -> Syms { syms("a , \\[InvisibleComma] [ ] { } ( ) %20 ; f[ <| |> -> %0A") }
pub fn a_lin() -> Syms { syms("\\( \\) \\! \\@ \\^ \\_ \\* \\%20 a + ( ) \\[Integral] \\[DifferentialD] %20 \" ,") }
pub fn a_tern() -> Syms { syms("a b /: = := =. ~ : :: ;; | > < - . %20 _ __ # ## 1 %25 ' ( )") }

// ------------------------------------------------------------------ pumping: u v^k w for many k
pub fn reps(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    v.extend([63, 64, 65, 66, 98, 99, 100, 101, 127, 128, 129, 130, 199, 200, 201, 254, 255, 256, 257, 258]);
    v.extend([513, 1025]);
    if thorough { v.extend(41..=300); v.extend([511, 512, 513, 1000, 1023, 1024, 1025]); v.sort(); v.dedup() }
    v
}
/// `deep` pumps make nested trees (limited depth), flat ones do not.
pub fn pump(name: &str, reps: Vec<usize>, items: &[(&str, &str, &str, &str)]) -> Gen {
    // (before, repeated, after, repeated after)
    let it: Vec<_> = items.iter().map(|x| (unesc(x.0), unesc(x.1), unesc(x.2), unesc(x.3))).collect();
    let k = reps.len() as u64;
    Gen { name: format!("{name}: {} patterns pumped to {} repetition counts up to {}", it.len(), k, reps.iter().max().unwrap()), n: it.len() as u64 * k, f: Arc::new(move |i, o| {
        let x = &it[(i / k) as usize]; let r = reps[(i % k) as usize];
        o.extend_from_slice(&x.0); for _ in 0..r { o.extend_from_slice(&x.1) } o.extend_from_slice(&x.2); for _ in 0..r { o.extend_from_slice(&x.3) }
    }) }
}
pub const NEST: &[(&str, &str, &str, &str)] = &[("", "(", "a", ")"), ("", "{", "a", "}"), ("", "f[", "a", "]"), ("", "f[[", "a", "]]"), ("", "<|", "a", "|>"), ("", "(", "a", ""), ("", "", "a", ")"), ("", "f[", "a", ""), ("", "{(", "", ")}"), ("", "(* ", "a", " *)"), ("", "(*", "", "*)"), ("", "(*", "", ""),
    ("", "-", "a", ""), ("", "!", "a", ""), ("", "a^", "b", ""), ("", "a=", "b", ""), ("", "f@", "b", ""), ("", "a:>", "b", ""), ("", "\\(", "x", "\\)"), ("", "\\[Integral]", "a", "\\[DifferentialD]x"), ("", "++", "a", ""), ("", "-(", "a", ")"), ("", "a/", "b", ""), ("", "a-(", "b", ")"), ("", "2*(", "1", ")"), ("f", "[a]", "", ""), ("a", "'", "", ""), ("a", "!", "", ""), ("a", "&", "", ""), ("a", "/b", "", ""), ("a", "//f", "", ""), ("a", "..", "", ""), ("a", " @ (b", "", ")"), ("a~f~", "(b~g~", "c", ")"), ("x", ":a", "", ""), ("a", "[[1", "", "]]"), ("a", "::[b", "", "]"), ("", "\\[LeftDoubleBracket]", "", "\\[RightDoubleBracket]"), ("", "{", "", "]"), ("", "[", "a", "]")];
pub const FLAT: &[(&str, &str, &str, &str)] = &[("a", "+a", "", ""), ("a", "-a", "", ""), ("a", "*a", "", ""), ("a", " a", "", ""), ("a", ",a", "", ""), ("f[a", ",a", "]", ""), ("{", ",", "}", ""), ("a", ";a", "", ""), ("a", ";", "", ""), ("a", ";;a", "", ""), ("", ";;", "", ""), ("a", "<a", "", ""), ("a", "==a<=b", "", ""), ("a", "&&b", "", ""), ("a", "||b", "", ""), ("a", "|b", "", ""), ("a", "<>b", "", ""), ("a", ".b", "", ""), ("a", "@*b", "", ""), ("a", "/*b", "", ""), ("a", "::b", "", ""), ("a", "%0Ab", "", ""), ("a", "%0D%0Ab", "", ""), ("a", "\\%0Ab", "", ""), ("a", "(**)", "b", ""), ("a", " ", "b", ""), ("", "%09", "a", ""), ("", "a%09", "", ""), ("", "%0A", "a", ""), ("\"", "a", "\"", ""), ("\"", "\\\"", "\"", ""), ("\"", "\\\\", "\"", ""), ("\"", "%0A", "\"", ""), ("\"", "%C3%A9", "\" a", ""), ("\"", "x", "", ""), ("\"", "x%0A", "", ""),
    ("", "1", "", ""), ("", "a", "", ""), ("", "%C3%A9", "", ""), ("", "\\[Alpha]", "", ""), ("", "a`", "b", ""), ("1.", "1", "", ""), ("1`", "1", "", ""), ("1``", "1", "", ""), ("1*^", "1", "", ""), ("16^^", "f", "", ""), ("", "0", "1^^0", ""), ("", "%25", "", ""), ("", "#", "", ""), ("#", "1", "", ""), ("", "_", "", ""), ("", ".", "", ""), ("", "=", "", ""), ("", "@", "", ""), ("", "/", "", ""), ("", ":", "", ""), ("", "!", "", ""), ("", "|", "", ""), ("", "&", "", ""), ("", "?", "", ""), ("", "~", "", ""), ("a", "~b", "", ""), ("", ">", "", ""), ("", "<", "", ""), ("", "^", "", ""), ("", "+", "", ""), ("", "-", "", ""), ("", "'", "", ""), ("", ";", "", ""), ("", "(* a *)", "", ""), ("(*", "a", "*)", ""), ("(*", "%0A", "*) b", ""), ("(*", "%09", "*) b", ""), ("(*", "*", ")", ""), ("<<", "a", "", ""), ("<<a", "`b", "", ""), ("a::", "b", "", ""), ("", "\\", "", ""), ("", "\\[", "", ""), ("\\[", "A", "]", ""), ("\\:", "0", "", ""), ("", "\\:03b1", "", ""), ("", "%80", "", ""), ("", "%E2%82", "", ""), ("", "a%0A", "", ""), ("", "f[x]%0A", "", ""), ("", "a=1;%0A", "", ""), ("f[", "%0A", "]", ""), ("f[", "a,%0A", "b]", ""), ("{", "1,", "2}", ""), ("a", "\\[Times]b", "", ""), ("a", "/b*c", "", ""), ("a", "+-b", "", ""), ("a", "**b", "", ""), ("a", "\\[CircleTimes]b", "", ""), ("a", ">b>=c", "", ""), ("", "#!", "", ""), ("%25", "1", "", ""), ("##", "1", "", ""), ("#a", "a", "", ""), ("_", "a", "", ""), ("a_", "b", "", ""), ("1``-", "1", "", ""), ("1`+", "1", "", ""), ("1*^-", "1", "", ""), ("36^^", "z", "", ""), ("2^^1.", "0", "", ""), (".", "1", "", ""), ("a", "'", "[x]", ""), ("a_", ".", "", ""), ("f", "[]", "", ""), ("f", "[[1]]", "", ""), ("a", "?b", "", ""), ("a", "===b", "", ""), ("a", "\\[VectorLess]b<c", "", ""), ("a", "->b", "", ""), ("a", "/:b", "=c", ""), ("a", "/.b", "", ""), ("a", "/;b", "", ""), ("a", "<->b", "", ""), ("a", "/@b", "", ""), ("a", "@@@b", "", ""), ("a", "\\[Divides]b", "", ""), ("a", "=!=b", "", ""), ("", "\\[Sqrt]", "a", ""), ("", "--", "a", ""), ("a", "--", "", ""), ("a", "!!", "", ""), ("", "!!", "a", ""), ("a", "\\[Transpose]", "", ""), ("", "+", "a", ""), ("a", "+ +b", "", ""), ("a", "- -b", "", ""), ("a", "*-b", "", ""), ("a", "=.", "", ""), ("a", ":=b", "", ""), ("<<", "a/", "b", ""), ("a>>", "b", "", ""), ("a>>>", "b", "%20c", ""), ("<<\"", "a", "\"", ""), ("a::\"", "b", "\"", ""), ("#\"", "b", "\"", ""), ("", "\\%0A", "a", ""), ("1", "\\%0A", "2", ""), ("\"", "\\%0A", "\"", ""), ("f[", "(* c *) ", "]", ""), ("f[", "\"s\",", "1]", ""), ("<|", "a->b,", "c->d|>", ""), ("", "{},", "{}", ""), ("", "a_,", "b", ""), ("\\(", "\\^", "x\\)", ""), ("", "\\!", "", ""), ("\"", "\\[Alpha]", "\"", ""), ("", "%F0%9D%92%9C", "", ""), ("(*", "%F0%9D%92%9C", "*)", ""), ("", "%E2%80%A8", "a", ""), ("", "%C2%A0", "a", ""), ("", "%EF%BB%BF", "a", "")];
pub const LEXNEST: &[(&str, &str, &str, &str)] = &[("", "(* ", "a", " *)"), ("", "(*", "", "*)"), ("", "(*", "", "*) b"), ("", "(*", "", ""), ("x", "(*", "", "*)"), ("", "\\(", "x", "\\)"), ("", "\\(", "x", ""), ("<<", "[", "a", "]"), ("<<a", "[", "b", ""), ("a>>", "[b", "", "]c"), ("\"", "\\(", "", "\\)")];
pub fn pumps(thorough: bool) -> Vec<Gen> {
    let r = reps(thorough);
    let mut deep: Vec<usize> = r.iter().copied().filter(|x| *x <= if thorough { 130 } else { 66 }).collect();
    deep.extend([256, 513, 1025]);
    let r2 = r.clone();
    vec![pump("nesting", deep, NEST), pump("repetition", r, FLAT), pump("nesting of characters", r2, LEXNEST)]
}
/// an operator or opener, many nested ones of another kind, then a third
pub fn sandwiches(t: bool) -> Gen {
    let p = syms("a: a= a+ a~f~ f[ ( a/: a;; { a-> - a:: \\[Integral] a, a@ a^ a_: a:b: <<x%20 ! a; a%20 a| a? a// a%0A _: a<");
    let r = syms("b@ b+ ( - b^ b: f[ b%20 b= b' b& b[[ b; b~f~ b/; b-> { b, b? b;; ! b* b< %0A b::c%20 b_ b/: b@@ b&&");
    let s = syms("c c:d c=d c) c] c+d c;;d c~d c%0A+d c; c,d c& c:d:e c]] c/:d=e \\[DifferentialD]x c=. c~d~e c!");
    let k: Vec<usize> = if t { (2..=20).chain([31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129]).collect() } else { vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33] };
    let (np, nr, ns, nk) = (p.len() as u64, r.len() as u64, s.len() as u64, k.len() as u64);
    Gen { name: format!("{np} openings, {nr} repeated pieces, {ns} endings, {nk} repetition counts up to {}", k[k.len() - 1]), n: np * nr * ns * nk, f: Arc::new(move |i, o| {
        let (a, i) = (i % nk, i / nk); let (b, i) = (i % ns, i / ns); let (c, d) = (i % nr, i / nr);
        o.extend_from_slice(&p[d as usize]); for _ in 0..k[a as usize] { o.extend_from_slice(&r[c as usize]) } o.extend_from_slice(&s[b as usize])
    }) }
}
/// positions beyond 16 bits
pub fn long_pumps() -> Vec<Gen> {
    let items: &[(&str, &str, &str, &str)] = &[("", "%0A", "a%09b", ""), ("", " ", "a%0Ab", ""), ("", "a", " b", ""), ("\"", "x", "\" b", ""), ("(*", "%0A", "*) b", ""), ("", "%09", "a", ""), ("\"", "%0D%0A", "\" b", ""), ("", "1", ".5 b", "")];
    vec![pump("long inputs", vec![4095, 4096, 4097, 65533, 65534, 65535, 65536, 65537, 70000], items)]
}

// ------------------------------------------------------------------ realistic programs
/// Statements of ordinary Wolfram code; programs are sequences of them.
pub const STATEMENTS: &[&str] = &[
    "f[x_] := x^2 + 1", "g[x_, y_:0, z___] := Module[{a = x, b}, b = a*y; b - z]", "list = Table[i^2, {i, 1, 10}];", "If[a == b, Print[\"yes\"], Print[\"no\"]]", "x /. {a -> 1, b :> Random[]}", "data[[1, 2 ;; -1]]", "(* comment (* nested *) *)",
    "Map[#^2 + #2 &, list]", "f @@ {1, 2, 3}", "a // f // g", "lim = Limit[Sin[x]/x, x -> 0]", "<|\"a\" -> 1, \"b\" -> {2, 3}|>", "f::usage = \"f[x] does it\"", "expr /; cond && !other || x =!= y", "Begin[\"`Private`\"]", "a~Join~b", "y'[x] + y''[x] == 0", "f[x_Integer?Positive] = x!", "a <= b < c", "-x^-2 / 3", "\\[Integral]f[x]\\[DifferentialD]x", "%  + %%", "{##, #name}&", "16^^ff + 1.5`20*^-3", "a = b = c", "x++; --y", "s <> \"t\" <> ToString[n]", "f[g[h[{}]]]", "a.b.c ** d", "Get[\"file`\"]", "<< pkg`", "expr >> out.m", "p : _List | {___}", "x..", "a =.", "u /: f[u] := 1", "!a", "\"multi\nline\tstring\"", "a \\\n + b", "{a,,b}", "f[a,]", "f[", ")", "a +", "\"open", "1.2.3", "\\[Foo]", "a[b}",
];
pub fn programs(n: usize) -> Gen {
    let s: Syms = STATEMENTS.iter().map(|x| x.as_bytes().to_vec()).collect();
    let seps = vec![b"\n".to_vec(), b"\r\n".to_vec(), b";\n\n".to_vec(), b" ".to_vec()];
    let mut slots = vec![s.clone()];
    for _ in 1..n { slots.push(seps.clone()); slots.push(s.clone()) }
    let mut g = Gen::prod(&format!("programs of {n} statements"), slots); g.name = g.name.replace('\n', " "); g
}
/// a piece of every statement: all substrings of all statements
pub fn pieces() -> Gen {
    let mut v: Syms = vec![];
    for s in STATEMENTS { let b = s.as_bytes(); for i in 0..b.len() { for j in i + 1..=b.len() { v.push(b[i..j].to_vec()) } } }
    v.sort(); v.dedup();
    Gen::list("all substrings of the statements", v)
}

// ------------------------------------------------------------------ bundles
/// quick / thorough word spaces at token level
pub fn token_words(t: bool) -> Vec<Gen> {
    let d = t as usize;
    let mut v = vec![
        Gen::words("printable ASCII", &a_ascii(), 0, 2 + d), Gen::words("punctuation", &a_punct(), 0, 3 + d), Gen::words("numbers", &a_num(), 0, 5 + d), Gen::words("number parts", &a_num2(), 0, 3 + d), Gen::words("strings and comments", &a_str(), 0, 4 + d),
        Gen::words("symbols", &a_sym(), 0, 4 + d), Gen::words("escapes", &a_esc(), 0, 3 + d), Gen::words("line continuations", &a_lc(), 0, 4 + d), Gen::words("positions", &a_pos(), 0, 4 + d),
    ];
    v.extend(pumps(t)); v.push(pieces()); v.push(characters(t)); v
}
/// quick / thorough word spaces at tree level
pub fn tree_words(t: bool) -> Vec<Gen> {
    let d = t as usize;
    let mut v = vec![
        Gen::words("mixed", &a_mix(), 0, 3 + d), Gen::words("core", &a_core(), 0, 3 + d), Gen::words("brackets", &a_brackets(), 0, 5 + d), Gen::words("all brackets", &a_brackets2(), 0, 3 + d), Gen::words("file names", &a_file(), 0, 3 + d).within(&[("<<", ""), ("a>>", ""), ("a >>> ", " b")]),
        Gen::words("tags", &a_tag(), 0, 3 + d).within(&[("a::", ""), ("#", "")]), Gen::words("signs", &a_neg(), 0, 4 + d), Gen::words("comparisons", &a_cmp(), 0, 4 + d), Gen::words("commas", &a_comma(), 0, 4 + d), Gen::words("linear syntax", &a_lin(), 0, 4 + d), Gen::words("ternaries", &a_tern(), 0, 3 + d), Gen::words("quirks", &a_quirk(), 0, 4 + d),
    ];
    v.extend(pumps(t)); v.push(pieces()); v.push(programs(1)); v.push(programs(2)); v.extend(chains(t)); v.extend(small(t)); v.push(characters(t)); v.push(sandwiches(t)); v
}
pub const CHARCTX: &[(&str, &str)] = &[("", ""), ("a", "b"), ("\"", "\""), ("(*", "*)"), ("#", ""), ("_", ""), ("a::", ""), ("<<", ""), ("1", "2"), ("\\(", "\\)"), ("f[", "]"), ("\\[", "]"), ("a\\%0A", "b")];
/// a character of every class next to another one, in many contexts
pub fn characters(t: bool) -> Gen { Gen::words("characters of every class", &a_chars(), 0, 2 + t as usize).within(CHARCTX) }
pub fn a_bad() -> Syms { syms("%80 %C3 %E2%82 %ED%A0%80 %EF%BB%BF a 1 \" (* *) ( ) [ ] { } %0A %20 << >> :: # ## _ \\[ \\ - + , ; \\( := f[ BeginPackage[ = ` 2^^ %25") }
pub const BADCTX: &[(&str, &str)] = &[("", ""), ("\"", "\""), ("a", "b"), ("(", ")"), ("a::\"", "\""), ("#\"", "\""), ("<<\"", "\""), ("a>>\"", "\""), ("<<", ""), ("a::", ""), ("#", ""), ("(*", "*)"), ("\\[", "]"), ("f[", "%0Ag[x_]:=1%0A"), ("16^^", ""), ("_", ""), ("\\(", "\\)"), ("-", ""), ("\\", "")];
pub fn byte_words(t: bool) -> Vec<Gen> { vec![Gen::words("bad bytes among constructs", &a_bad(), 0, 3 + t as usize), Gen::words("boundary bytes in constructs", &a_bytes(), 0, 2).within(BADCTX), Gen::words("all bytes", &(0..=255u8).map(|c| vec![c]).collect(), 0, 2), Gen::words("boundary bytes", &a_bytes(), 0, 3 + t as usize).within(&[("", ""), ("\"", "\""), ("a", "b"), ("(", ")")])] }
pub fn sized(v: &[Gen]) -> u64 { v.iter().map(|g| g.n).sum() }
#[allow(unused)] fn _u() { let _ = join(&[]); }

// ------------------------------------------------------------------ characters and escapes
fn utf8_of(c: u32) -> Vec<u8> { char::from_u32(c).unwrap().to_string().into_bytes() }
/// every scalar value, typed raw
pub fn scalars(c: &[(&str, &str)]) -> Gen { Gen { name: "every Unicode scalar value".into(), n: 0x110000 - 0x800, f: Arc::new(|i, o| { let v = if i < 0xd800 { i } else { i + 0x800 } as u32; o.extend_from_slice(&utf8_of(v)) }) }.within(c) }
/// every value in the given escape form
pub fn coded(form: &'static str, from: u64, n: u64, c: &[(&str, &str)]) -> Gen {
    Gen { name: format!("escapes {form} with {n} values"), n, f: Arc::new(move |i, o| { let i = i + from; o.extend_from_slice(match form { "\\:" => format!("\\:{i:04x}"), "\\: upper" => format!("\\:{i:04X}"), "\\." => format!("\\.{i:02x}"), "\\. upper" => format!("\\.{i:02X}"), "\\|" => format!("\\|{i:06x}"), "\\| upper" => format!("\\|{i:06X}"), _ => format!("\\{i:03o}") }.as_bytes()) }) }.within(c)
}
pub fn name_syms() -> Syms { LONGNAMES.iter().map(|x| format!("\\[{}]", x.0).into_bytes()).collect() }
pub fn long_names(c: &[(&str, &str)]) -> Gen { Gen::list("every long name", name_syms()).within(c) }
/// every long name with one letter deleted, doubled or changed, cut short, or not closed
pub fn bent_names(c: &[(&str, &str)]) -> Gen {
    let mut v: Syms = vec![];
    for x in LONGNAMES { let n = x.0;
        for i in 0..n.len() {
            v.push(format!("\\[{}{}]", &n[..i], &n[i + 1..]).into()); v.push(format!("\\[{}x{}]", &n[..i], &n[i + 1..]).into()); v.push(format!("\\[{}{}]", &n[..=i], &n[i..]).into()); v.push(format!("\\[{}", &n[..=i]).into()); v.push(format!("\\[{}]", &n[..i]).into());
            v.push(format!("\\[{} {}]", &n[..i], &n[i..]).into()); }
        v.push(format!("\\[{}]", n.to_lowercase()).into()); v.push(format!("\\[{}]", n.to_uppercase()).into()); v.push(format!("[{n}]").into()); v.push(format!("\\[{n}\\[{n}]").into()); v.push(format!("\\[{n}2]").into()); v.push(format!("\\\\[{n}]").into());
    }
    v.sort(); v.dedup();
    Gen::list("misspelled long names", v).within(c)
}
/// every character of the table in every spelling
pub fn spellings(c: &[(&str, &str)]) -> Gen {
    let mut v: Syms = vec![];
    for (n, _, cp) in LONGNAMES {
        v.push(format!("\\[{n}]").into()); v.push(utf8_of(*cp));
        if *cp <= 0xff { v.push(format!("\\.{cp:02x}").into()); v.push(format!("\\.{cp:02X}").into()) }
        if *cp <= 0x1ff { v.push(format!("\\{cp:03o}").into()) }
        if *cp <= 0xffff { v.push(format!("\\:{cp:04x}").into()); v.push(format!("\\:{cp:04X}").into()) }
        v.push(format!("\\|{cp:06x}").into()); v.push(format!("\\|{cp:06X}").into());
    }
    v.sort(); v.dedup();
    Gen::list("every named character in every spelling", v).within(c)
}
/// A 0xFF B for composition checks
pub fn pairs(name: &str, a: &Gen, b: &Gen) -> Gen {
    let (fa, fb, nb) = (a.f.clone(), b.f.clone(), b.n);
    Gen { name: format!("{name}: ({}) then ({})", a.name, b.name), n: a.n * b.n, f: Arc::new(move |i, o| { fa(i / nb, o); o.push(0xff); fb(i % nb, o) }) }
}
pub fn a_first() -> Syms { syms("# ! a %0A %0D %0D%0A %20 \" \\ (* 1") }
pub fn a_dense() -> Syms { syms("= ! . / : > < * @ ^ | - + ~ ? & ; _ ' 1 a") }
pub fn a_num3() -> Syms { (b'0'..=b'9').step_by(3).map(|c| vec![c]).chain(syms("b e E g ` . ^^ *^ - + .. a$ # %25 ; ' %0A \\%0A [ %C3%A9 \\[Alpha] \" ~ /")).collect() }
pub fn a_brackets3() -> Syms { a_brackets2().into_iter().filter(|s| !matches!(&s[..], b"[[" | b" " | b"\n" | b"+" | b";")).collect() }
/// infix operators of the quirk with head@x operands in each position
pub fn quirk_ops() -> Gen { Gen::prod("infix operators with head@x operands", vec![syms("a Plus@a Times@a And@a Or@x f@a"), syms("+ * - / && || <> ** . %20 @*"), syms("b Plus@b Times@b And@b g[x]@y Plus@Plus@b (Plus@b) -b b/c"), syms("+ * - / && <> %20 @@@"), syms("c Plus@c Times@c And@c StringJoin@c c/d (c*d) -(c/d)")]) }

// ------------------------------------------------------------------ unterminated constructs and statements
fn list(x: &[&str]) -> Syms { x.iter().map(|s| unesc(s)).collect() }
const OPENERS: &[&str] = &["\"a", "(*a", "\\(a", "f[a", "{a,", "(a", "<|a", "f[[a", "f::[a", "x = {f[", "(*: *) \"", "\\[LeftCeiling]a", "%09\"%C3%A9", "{\"s\", (*c*) \"t"];
const LINES: &[&str] = &["x = 1", "x := 1", "x=1", " x = 1", "%09x = 1", "x == 1", "x ^= 1", "x", "x[y_] := z", "x[y] = z", "x[y]", "x [y] = 1", "x[[1]] = 2", "x[y] == 2", "x[y, \"=\"]", "x[ (*=*) ]", "] := 1", "] = 1", "] == 1", "} = 1", " ] = 1", "Begin[", "Begin [\"a\"]", "Begin", "Foo[", "(* ::x:: *)", "(*:*)", "(*x*)", "(*(*:*)", "(* (*:*) *)", "(**) x = 1", " (*:*)", "(*%09:*)", "\"s\" = 1", "x_ = 1", "x::y = 1", "a`b = 1", "%C3%A9 = 1", "\\[Alpha]=1", "1 = 1", "#=1", " ", "%09", "%C3%A9%09", "\\%0Ax = 1", "a)", "\"", "*)"];
pub fn statements(t: bool) -> Vec<Gen> {
    let (o, l) = (list(OPENERS), list(LINES));
    let nl = syms("%0A %0D%0A %0D");
    let mut dirs: Syms = vec![];
    for d in crate::reftok::DIRECTIVES { for x in [format!("{d}["), format!("{d} [a]"), format!(" {d}["), d.to_string(), format!("{d}@a"), format!("x{d}["), format!("{d}x["), format!("a`{d}["), format!("{}[", &d[1..]), format!("{}[", &d[..d.len() - 1]), format!("{d}[[")] { dirs.push(x.into_bytes()) } }
    let mut v = vec![
        Gen::prod("an open construct, two lines", vec![o.clone(), nl.clone(), l.clone(), syms("%0A %0D%0A %0D %0A%0A %0D%0A%0D%0A%09"), l.clone(), syms("%_ %0A ] %0D")]),
        Gen::prod("statements before an open construct", vec![l.clone(), nl.clone(), o.clone(), syms("%0A %0D%0A%0A %0D"), l.clone(), syms("%_ %0Ab")]),
        Gen::prod("directives after an open construct", vec![list(&["\"a", "{f[", "(*"]), syms("%0A %0D%0A"), dirs, syms("%_ %0A %0Ax%09=%091")]),
        Gen::words("open constructs and statements", &list(&["\"", "(*", "f[", "{", "]", "}", "%0A", "%0D%0A", "%0D", "x=1", "x:=%09y", "(*:*)", "%09", "%C3%A9", "(", "\\("]), 0, if t { 6 } else { 5 }),
    ];
    if t { v.push(Gen::prod("an open construct, three lines", vec![o, syms("%0A %0D%0A"), l.clone(), syms("%0A %0D"), l.clone(), syms("%0A %0A%0A"), l])) }
    v
}
