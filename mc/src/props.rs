//! Which spaces decide which property.
use crate::engine::*;
use crate::gens::*;
use crate::run::Prop;
use crate::{api, inv, rel};

fn join(v: Vec<Vec<Space>>) -> Vec<Space> { v.into_iter().flatten().collect() }
const PLAIN: &[(&str, &str)] = &[("", "")];
const AROUND: &[(&str, &str)] = &[("", ""), ("a", "b"), ("\"", "\"")];
const OPCTX: &[(&str, &str)] = &[("", ""), ("a", ""), ("", "b"), ("a", "b"), ("a ", " b"), ("f[", "]"), ("a+", "*b"), ("\"", "\""), ("{a,", "}"), ("(*", "*)"), ("1", "2"), ("a::", ""), ("-", ""), ("a", "'"), ("a ", "")];
const ESCCTX: &[(&str, &str)] = &[("", ""), ("a", "b"), ("\"", "\""), ("", "0"), ("1", ".")];
fn long(t: bool) -> Vec<Gen> { let mut v = long_pumps(); if !t { v.truncate(1) } v }

fn c01(t: bool) -> Vec<Space> {
    let d = t as usize;
    let mut g = byte_words(t);
    g.extend(vec![
        Gen::words("mixed", &a_mix(), 0, 2 + d), Gen::words("core", &a_core(), 0, 3 + d), Gen::words("brackets", &a_brackets(), 0, 4 + d), Gen::words("all brackets", &a_brackets2(), 0, 3), Gen::words("file names", &a_file(), 0, 2 + d).within(&[("<<", ""), ("a>>", ""), ("a >>> ", " b")]),
        Gen::words("tags", &a_tag(), 0, 2 + d).within(&[("a::", ""), ("#", "")]), Gen::words("signs", &a_neg(), 0, 3 + d), Gen::words("comparisons", &a_cmp(), 0, 3 + d), Gen::words("commas", &a_comma(), 0, 3 + d), Gen::words("linear syntax", &a_lin(), 0, 3 + d), Gen::words("ternaries", &a_tern(), 0, 3), Gen::words("quirks", &a_quirk(), 0, 3 + d),
        Gen::words("printable ASCII", &a_ascii(), 0, 2 + d), Gen::words("punctuation", &a_punct(), 0, 2 + d), Gen::words("numbers", &a_num(), 0, 4 + d), Gen::words("number parts", &a_num2(), 0, 3), Gen::words("strings and comments", &a_str(), 0, 3 + d), Gen::words("escapes", &a_esc(), 0, 3 + d), Gen::words("line continuations", &a_lc(), 0, 3 + d), Gen::words("positions", &a_pos(), 0, 3 + d),
    ]);
    g.extend(pumps(t)); g.extend(long(t)); g.push(pieces()); g.push(programs(2)); g.extend(ops1()); g.push(long_names(&[("", ""), ("a", ""), ("(", "]")])); g.push(characters(t)); g.push(sandwiches(false)); g.extend(chains(t).into_iter().filter(|g| t || g.n < 150000));
    let mut v = spaces(g, 4, rel::total);
    v.extend(spaces(ops2(), if t { 4 } else { 1 }, rel::total));
    v.extend(spaces(vec![coded("\\:", 0, 65536, &[("a", "")]), coded("\\|", 0xd700, 0x2000, &[("a", "")])], 1, rel::total));
    v
}
fn c07(t: bool) -> Vec<Space> {
    let d = t as usize;
    let mut g = vec![long_names(ESCCTX), bent_names(if t { ESCCTX } else { PLAIN }), Gen::words("escape words", &a_esc(), 0, 4 + d)];
    for (f, n) in [("\\:", 65536), ("\\: upper", 65536), ("\\.", 256), ("\\. upper", 256), ("octal", 512)] { g.push(coded(f, 0, n, if n < 1000 || t { ESCCTX } else { PLAIN })) }
    g.push(coded("\\|", 0, 0x1100ff, PLAIN)); if t { g.push(coded("\\| upper", 0, 0x1100ff, AROUND)) }
    // every malformed shape: escape head, digits, then anything
    let dig = || syms("0 7 8 9 a f g A F G x ] %20 \\ \" %C3%A9 %0A");
    g.push(Gen::prod("4-digit escapes, any digits", vec![syms("\\: "), dig(), dig(), dig(), dig(), syms("%_ 0 a")]));
    g.push(Gen::prod("2-digit and octal escapes, any digits", vec![syms("\\. \\ \\\\ \\| \\:"), dig(), dig(), dig(), syms("%_ 0 a \\.41")]));
    g.push(Gen::prod("6-digit escapes, any digits", vec![syms("\\|"), syms("0 1 g"), syms("0 1 x"), syms("0 d f \\"), syms("8 F g %20"), syms("0 f z"), syms("0 9 \" %C3%A9"), syms("%_ 0 a")]));
    g.push(Gen::prod("backslash and every character", vec![(0..128u8).map(|c| vec![b'\\', c]).collect(), (0..128u8).map(|c| vec![c]).collect()]).within(if t { ESCCTX } else { AROUND }));
    g.push(Gen::prod("two long names", vec![name_syms(), syms("\\[Alpha] \\[RawQuote] \\[RawBackslash] \\[ ] A \\:03b1")]));
    spaces(g, 1, rel::escape)
}
fn c08(t: bool) -> Vec<Space> {
    let mut v = spaces(vec![spellings(OPCTX)], 1, rel::spelled);
    v.extend(spaces(vec![scalars(if t { OPCTX } else { &[("a", "b")] }), coded("\\:", 0, 65536, if t { OPCTX } else { &[("a", "b"), ("", "")] }), coded("\\.", 0, 256, OPCTX), coded("octal", 0, 512, OPCTX)], 1, rel::spelled));
    if t { v.extend(spaces(vec![coded("\\|", 0, 0x110000, &[("a", "b"), ("", "")])], 1, rel::spelled)) }
    // operators of the table in pairs of spellings
    let raw: Syms = LONG_OPS().into_iter().flat_map(|(n, c)| [n, c]).collect();
    v.extend(spaces(vec![Gen::prod("operator characters in two spellings, in pairs", vec![syms("a"), raw.clone(), syms("b"), if t { raw } else { syms("\\[Equal] + \\[Element] - ' \\[CircleTimes] & := @") }, syms("c")])], 1, rel::spelled));
    v
}
fn c32(t: bool) -> Vec<Space> {
    let d = t as usize;
    let slot = &[("#", ""), ("##", ""), ("a::", ""), ("%25", ""), ("<<", ""), ("a>>", " b"), ("\"", "\""), ("(*", "*)"), ("\\(", "\\)")];
    let mut v = spaces(vec![Gen::words("positions", &a_pos(), 0, 3), Gen::words("escapes", &a_esc(), 0, 3), Gen::words("line continuations", &a_lc(), 0, 3), Gen::words("first lines", &a_first(), 0, 3)], 60, rel::reported);
    v.extend(spaces(vec![Gen::words("boundary bytes", &a_bytes(), 0, 3), Gen::words("strings and comments", &a_str(), 0, 4 + d), Gen::words("number parts", &a_num2(), 0, 3 + d), Gen::words("tags", &a_tag(), 0, 3 + d), long_names(OPCTX), characters(t), pieces(), programs(2)], 2, rel::reported));
    let mut g = token_words(t);
    g.extend(vec![Gen::words("escapes", &a_esc(), 4, 4 + d), Gen::words("names", &a_sym(), 0, 3 + d).within(slot), Gen::words("escapes", &a_esc(), 0, 3).within(slot), Gen::words("numbers", &a_num(), 0, 4 + d).within(slot), Gen::words("numbers", &a_num(), 0, 5 + d), Gen::words("operators run together", &a_dense(), 0, 4), Gen::words("file names", &a_file(), 0, 3).within(&[("<<", ""), ("a>>", ""), ("a >>> ", " b")]), bent_names(if t { ESCCTX } else { PLAIN }), scalars(&[("a", "b"), ("\"", "\"")]), Gen::words("mixed", &a_mix(), 0, 3)]);
    for (f, n) in [("\\:", 65536), ("\\: upper", 65536), ("\\.", 256), ("\\. upper", 256), ("octal", 512)] { g.push(coded(f, 0, n, if n < 1000 || t { ESCCTX } else { AROUND })) }
    g.push(coded("\\|", 0, 0x1100ff, PLAIN));
    g.push(Gen::prod("backslash and every character", vec![(0..128u8).map(|c| vec![b'\\', c]).collect(), (0..128u8).map(|c| vec![c]).collect()]).within(slot));
    g.extend(pumps(t)); g.extend(ops1()); g.extend(byte_words(t));
    // many issues of one kind before one of another
    let (many, then) = (["%C3%A9 ", "%C2%A0x", "\\[Alpha]", "1.2.3 ", "a%0D", "\\[Nope]", "\\:12 ", "\"%EF%BF%BD\"", "a..1 ", "\\.0 ", "%E2%80%9C", "(*%C2%A0*)"], ["\\[Nope]", "\\:12", "%C3%A9", "%0Dx", "1.2.3", "\\[Alpha", "%E2%80%9C", "\"\\q\"", "a..1"]);
    let mut it = vec![]; for m in many { for x in then { it.push(("", m, x, "")); it.push((x, m, x, "")) } }
    g.push(pump("many issues, then one", if t { (0..40).collect() } else { (0..25).collect() }, &it));
    v.extend(spaces(g, 1, rel::reported));
    v
}
#[allow(non_snake_case)]
fn LONG_OPS() -> Vec<(Vec<u8>, Vec<u8>)> {
    use crate::spec_tables::*;
    LONGNAMES.iter().filter(|x| x.1 == Cat::Punctuation).map(|x| (format!("\\[{}]", x.0).into_bytes(), char::from_u32(x.2).unwrap().to_string().into_bytes())).collect()
}
pub static PROPS: &[Prop] = &[
    Prop { id: "C01", build: c01, assumptions: &["built with debug assertions and overflow checks on"] },
    Prop { id: "C02", build: |t| { let mut v = spaces(token_words(t), 2, inv::tiling); v.extend(spaces(byte_words(t), 2, inv::tiling)); v.extend(spaces(long(t), 2, inv::tiling)); v.extend(spaces(vec![programs(2), long_names(AROUND), Gen::words("mixed", &a_mix(), 0, 3)], 2, inv::tiling)); v }, assumptions: &[] },
    Prop { id: "C03", build: |t| { let mut v = spaces(tree_words(t), 2, inv::leaves); v.extend(spaces(ops1(), 6, inv::leaves)); v.extend(spaces(ops2(), 1, inv::leaves)); v.extend(spaces(byte_words(t), 2, inv::leaves)); v.extend(spaces(vec![Gen::words("first lines", &a_first(), 0, 4)], 6, inv::leaves)); if t { v.extend(spaces(ops3(), 1, inv::leaves)) } v }, assumptions: &[] },
    Prop { id: "C04", build: |t| { let d = t as usize; let mut g = vec![Gen::words("positions", &a_pos(), 0, 4 + d), Gen::words("mixed", &a_mix(), 0, 2 + d), Gen::words("strings and comments", &a_str(), 0, 3 + d), Gen::words("escapes", &a_esc(), 0, 3), Gen::words("line continuations", &a_lc(), 0, 3 + d), Gen::words("boundary bytes", &a_bytes(), 0, 2 + d).within(&[("", "\tb"), ("\"", "\" b")])]; g.extend(pumps(t)); g.push(characters(false)); g.push(pieces()); g.push(programs(1 + d)); g.push(Gen::words("first lines", &a_first(), 0, 3 + d));
        let mut v = spaces(g, 30, inv::positions); v.extend(spaces(long_pumps(), 10, inv::positions)); v.extend(spaces(vec![programs(2), long_names(&[("a", " b"), ("\"", "\" b")]), scalars(&[("\"", "\tb\" c")]), Gen::words("mixed", &a_mix(), 3, 3), Gen::words("numbers", &a_num(), 0, 4), Gen::words("symbols", &a_sym(), 0, 3)], 2, inv::positions)); v }, assumptions: &[] },
    Prop { id: "C05", build: |t| { let mut v = spaces(tree_words(t), 2, inv::node_spans); v.extend(spaces(ops1(), 10, inv::node_spans)); v.extend(spaces(ops2(), 1, inv::node_spans)); v.extend(spaces(vec![Gen::words("positions", &a_pos(), 0, 3)], 10, inv::node_spans)); if t { v.extend(spaces(ops2_more(), 2, inv::node_spans)); v.extend(spaces(ops3(), 1, inv::node_spans)) } v }, assumptions: &[] },
    Prop { id: "C06", build: |t| { let mut g = vec![Gen::words("all bytes", &(0..=255u8).map(|c| vec![c]).collect(), 0, 2), Gen::words("boundary bytes", &a_bytes(), 0, 4).within(if t { &[("", ""), ("\"", "\""), ("a", "b"), ("(*", "*)")] } else { PLAIN }), Gen::words("boundary bytes", &a_bytes(), 0, 3).within(&[("\"", "\""), ("a", "b"), ("(*", "*)"), ("a::", ""), ("<<", ""), ("#", ""), ("\\", ""), ("\\[", "]"), ("1", "2")]), scalars(if t { AROUND } else { &[("a", "b")] })]; if t { g.push(Gen::words("all bytes", &(0..=255u8).map(|c| vec![c]).collect(), 3, 3)); g.push(Gen::prod("4-byte sequences", vec![(0xedu8..=0xf8).map(|c| vec![c]).collect(), (0x7e..=0xc1u8).map(|c| vec![c]).collect(), (0x7e..=0xc1u8).map(|c| vec![c]).collect(), (0x7e..=0xc1u8).map(|c| vec![c]).collect()])) } spaces(g, 2, inv::utf8) }, assumptions: &[] },
    Prop { id: "C07", build: c07, assumptions: &["the published long-name table (CodeParser/Data/LongNames.wl) is transcribed in the model"] },
    Prop { id: "C08", build: c08, assumptions: &["the published long-name table (CodeParser/Data/LongNames.wl) is transcribed in the model"] },
    Prop { id: "C09", build: |t| { let d = t as usize; let mut g = vec![Gen::words("printable ASCII", &a_ascii(), 0, 3), Gen::words("punctuation", &a_punct(), 0, 4 + d), Gen::words("dense operators", &a_dense(), 0, 5 + d)]; g.extend(pumps(t)); g.push(characters(t)); spaces(g, 1, inv::kinds) }, assumptions: &[] },
    Prop { id: "C10", build: |t| { let d = t as usize; let mut g = vec![Gen::words("numbers", &a_num(), 0, 6 + d), Gen::words("number parts", &a_num2(), 0, 4 + d), Gen::words("number letters", &a_num3(), 0, 3 + d), Gen::prod("bases", vec![(0..=40u32).map(|i| i.to_string().into_bytes()).chain(syms("00 01 002 0016 100 255 256 257 4294967298 4294967312 18446744073709551618 99999999999999999999")).collect(), syms("^^"), (b'0'..=b'9').chain(b'a'..=b'z').chain(b'A'..=b'Z').map(|c| vec![c]).chain(syms("%_ . $ %C3%A9")).collect(), (b'0'..=b'9').chain(b'a'..=b'z').map(|c| vec![c]).chain(syms("%_ . $ %C3%A9 .a .z ` *^2 .. ` ``1")).collect()]), Gen::words("number tails", &a_num(), 0, 4 + d).within(&[("1.5", ""), ("16^^f", ""), ("1`", ""), ("1``", ""), ("1*^", ""), ("1*^-", ""), ("2^^1.", ""), ("1`5", ""), ("1``5.", ""), (".", ""), ("a", ""), ("2^^", "2"), ("37^^", ""), ("1`+", "")])]; g.extend(pumps(t)); g.push(Gen::words("characters near numbers", &a_chars(), 0, 2).within(&[("1", ""), ("1.", "2"), ("1.5", ""), ("2^^1", "0"), ("1`", "2"), ("1`2", "3"), ("1``", "4"), ("1*^", "5"), ("1*^2", "6"), ("1^", "^0"), ("1*", "^2"), (".", "5")])); spaces(g, 1, inv::kinds) }, assumptions: &[] },
    Prop { id: "C11", build: |t| { let d = t as usize; let mut g = vec![Gen::words("strings and comments", &a_str(), 0, 5 + d), Gen::words("symbols", &a_sym(), 0, 5), Gen::words("comments", &syms("( * ) a \" \\ %0A"), 0, 7 + d), Gen::words("strings", &syms("\" \\ a %0A [ ] n \\\" \\\\ %C3%A9 \\[RawQuote] \\.22 (* \\:0022"), 0, 5), Gen::words("slots and blanks", &syms("# ## a 1 $ _ __ _. ` : :: \" %25 %20 x"), 0, 4 + d)]; g.extend(pumps(t)); g.push(pieces()); g.push(characters(true));
        let mut v = spaces(g, 1, inv::kinds); v.extend(spaces(vec![Gen::words("slots and blanks", &syms("# ## a 1 $ _ __ ___ _. ` : :: \" %25 %25%25 %20 x 12 +"), 0, 4 + d)], 1, rel::spelled)); v }, assumptions: &[] },
    Prop { id: "C12", build: |t| { let d = t as usize; let g = vec![Gen::words("mixed", &a_mix(), 0, 2), Gen::words("core", &a_core(), 0, 2 + d), Gen::words("numbers", &a_num(), 0, 3 + d), Gen::words("operators", &a_dense(), 0, 3), Gen::words("symbols", &a_sym(), 0, 3), Gen::words("continuations", &a_lc(), 0, 3), Gen::words("characters", &a_chars(), 0, 2), Gen::list("every operator", all_ops().into_iter().map(|x| x.1).collect()).within(&[("", ""), ("a", "b")])];
        let mut v = spaces(g, 96, rel::continuation); v.extend(spaces(vec![programs(1)], 300, rel::continuation)); v.extend(spaces(vec![Gen::words("number parts", &a_num2(), 0, 2 + d), Gen::words("escapes", &a_esc(), 0, 3), Gen::words("positions", &a_pos(), 0, 3)], 60, rel::continuation)); if t { v.extend(spaces(vec![Gen::words("mixed", &a_mix(), 3, 3)], 60, rel::continuation)) } v }, assumptions: &["the model decides where a continuation is transparent; it is excluded only where it splits an escape, a comment delimiter or a character"] },
    Prop { id: "C13", build: |t| { let mut v = spaces(ops1(), 2, inv::grouping); v.extend(spaces(ops2(), 1, inv::grouping)); v.extend(spaces(vec![ops_mix(4 + t as usize), Gen::words("mixed", &a_mix(), 0, 3 + t as usize), Gen::words("ternaries", &a_tern(), 0, 4), Gen::words("comparisons", &a_cmp(), 0, 4), Gen::words("signs", &a_neg(), 0, 4)], 1, inv::grouping)); v.extend(spaces(pumps(t), 1, inv::grouping)); v.extend(spaces(small(t), 1, rel::coherent)); v.extend(spaces(chains(t), 1, inv::grouping)); v.extend(spaces(vec![sandwiches(t)], 1, inv::grouping)); v.extend(spaces(ops3(), 1, inv::grouping)); if t { v.extend(spaces(ops2_more(), 1, inv::grouping)); v.extend(spaces(ops3_more(), 1, inv::grouping)) } v }, assumptions: &["the published operator tables (CodeParser/Data/*.wl) are transcribed in the model"] },
    Prop { id: "C14", build: |t| { let mut v = spaces(tree_words(t), 1, rel::desugar); v.extend(spaces(ops1(), 4, rel::desugar)); v.extend(spaces(ops2(), 1, rel::desugar)); v.extend(spaces(ops3(), 1, rel::desugar)); if t { v.extend(spaces(vec![ops_mix(5)], 1, rel::desugar)); v.extend(spaces(ops2_more(), 1, rel::desugar)); v.extend(spaces(ops3_more(), 1, rel::desugar)) } v }, assumptions: &[] },
    Prop { id: "C15", build: |t| { let d = t as usize; let g = vec![Gen::words("mixed", &a_mix(), 0, 2 + d), Gen::words("core", &a_core(), 0, 3), Gen::words("brackets", &a_brackets(), 0, 3 + d), Gen::words("ternaries", &a_tern(), 0, 3), Gen::words("linear syntax", &a_lin(), 0, 3), Gen::words("commas", &a_comma(), 0, 3 + d), Gen::list("every operator", all_ops().into_iter().map(|x| x.1).collect()).within(&[("a", "b"), ("a", ""), ("", "b"), ("f[a", "b]"), ("(a", "b)"), ("a ", " b")])]; let mut v = spaces(g, 56, rel::trivia); v.extend(spaces(vec![programs(1)], 210, rel::trivia)); let mut p = pumps(false); p.truncate(1); v.extend(spaces(p, 56, rel::trivia)); if t { v.extend(spaces(vec![programs(2)], 210, rel::trivia)); v.extend(spaces(ops2(), 42, rel::trivia)) } v }, assumptions: &["the model decides where an insertion separates a construct (inside a[[, after _ or #, before a newline-sensitive operator); everywhere else the implementation must not change"] },
    Prop { id: "C16", build: |t| { let d = t as usize; let (w2, s) = (Gen::words("mixed", &a_mix(), 0, 2), Gen::list("statements", STATEMENTS.iter().map(|s| s.as_bytes().to_vec()).collect())); let w1 = Gen::words("mixed", &a_mix(), 0, 1); let ch: Vec<Gen> = chains(false).into_iter().filter(|g| g.name.contains("newlines") || g.name.contains("statements")).collect(); let c = Gen::words("core", &a_core(), 0, 3 + d); let ops = Gen::list("operators", all_ops().into_iter().map(|x| x.1).collect()).within(&[("a", "b"), ("a", ""), ("", "b"), ("", "")]);
        let mut g = vec![pairs("composition", &w2, &w1), pairs("composition", &w1, &w2), pairs("composition", &s, &s), pairs("composition", &s, &w2), pairs("composition", &ops, &ops), pairs("composition", &c, &w1)]; for c in &ch { let one = Gen::list("one", vec![b"b".to_vec(), b"-b".to_vec(), b"{".to_vec()]); g.push(pairs("composition", c, &one)) } if t { let k = Gen::words("core", &a_core(), 0, 2); g.push(pairs("composition", &k, &k)); g.push(pairs("composition", &w2, &k)); g.push(pairs("composition", &programs(2), &s)) } let mut v = spaces(vec![g.remove(4), g.remove(4)], if t { 6 } else { 1 }, rel::compose); v.extend(spaces(g, 6, rel::compose)); v }, assumptions: &["the model decides which A are complete and which newlines are top-level"] },
    Prop { id: "C17", build: |t| { let d = t as usize; let mut v = spaces(vec![Gen::words("brackets", &a_brackets(), 0, 6 + d), Gen::words("plain brackets", &syms("( ) [ ] { }"), 0, 8 + d), Gen::words("all brackets", &a_brackets3(), 0, 4), Gen::words("bracket pairs", &syms("( ) [ ] \\[LeftDoubleBracket] \\[RightDoubleBracket] a , <| |>"), 0, 6)], 1, rel::brackets); let mut p = pumps(t); p.truncate(1); v.extend(spaces(p, 2, inv::grouping)); v.extend(spaces(vec![Gen::words("brackets with operators", &a_brackets2(), 0, 3 + d), Gen::words("brackets and newlines", &syms("( ) [ ] { a , %0A + %20 \" (* *) ;"), 0, 5)], 2, inv::grouping)); v }, assumptions: &[] },
    Prop { id: "C18", build: |t| { let mut v = spaces(tree_words(t), 1, rel::errors); v.extend(spaces(ops1(), 2, rel::errors)); v.extend(spaces(ops2(), 1, rel::errors)); v.extend(spaces(vec![Gen::words("errors", &syms("a ) ] } ( f[ { , + - * / 1.1. 2^^9 \" \\[Foo] ? ' @ ~ /: = 0 1 ; %20"), 0, 4)], 1, rel::errors)); v.extend(spaces(byte_words(false), 2, rel::errors)); v.extend(spaces(vec![Gen::words("quirks", &a_quirk(), 0, 3)], 16, rel::errors)); if t { v.extend(spaces(ops3(), 1, rel::errors)); v.extend(spaces(ops2_more(), 1, rel::errors)) } v }, assumptions: &[] },
    Prop { id: "C19", build: |t| { let d = t as usize; let mut g = vec![Gen::words("positions", &a_pos(), 0, 3 + d), Gen::words("mixed", &a_mix(), 0, 2 + d), Gen::words("core", &a_core(), 0, 3), Gen::words("strings and comments", &a_str(), 0, 4), Gen::words("escapes", &a_esc(), 0, 3), Gen::words("line continuations", &a_lc(), 0, 3), Gen::words("brackets", &a_brackets(), 0, 3 + d)]; g.extend(pumps(t)); g.push(pieces()); g.push(characters(false));  g.push(programs(2)); g.extend(byte_words(false)); g.extend(ops1()); spaces(g, 1, rel::options) }, assumptions: &[] },
    Prop { id: "C20", build: crate::conc::spaces, assumptions: &["scheduling points are the allocator calls of the code under test; code between two of them runs without interruption"] },
    Prop { id: "C21", build: |t| { let d = t as usize; let mut g = vec![Gen::words("quirks", &a_quirk(), 0, 4 + d), Gen::words("mixed", &a_mix(), 0, 2 + d), Gen::words("core", &a_core(), 0, 3), Gen::words("signs", &a_neg(), 0, 4)]; g.push(quirk_ops()); g.extend(ops1()); g.push(pieces()); g.push(programs(1 + d)); let mut p = pumps(t); g.append(&mut p); g.extend(chains(t)); g.extend(small(t)); spaces(g, if t { 2 } else { 1 }, rel::quirked) }, assumptions: &[] },
    Prop { id: "C22", build: |t| { let d = t as usize; let mut v = spaces(vec![Gen::words("positions", &a_pos(), 0, 3), Gen::words("mixed", &a_mix(), 0, 2), Gen::words("strings and comments", &a_str(), 0, 3), Gen::words("escapes", &a_esc(), 0, 2), Gen::words("boundary bytes", &a_bytes(), 0, 2 + d), Gen::words("brackets", &a_brackets(), 0, 3), Gen::words("numbers", &a_num(), 0, 3), pieces(), Gen::words("quirks", &a_quirk(), 0, 2), Gen::words("first lines", &a_first(), 0, 3)], 30, rel::coherent); v.extend(spaces(vec![Gen::words("mixed", &a_mix(), 3, 3), Gen::words("core", &a_core(), 0, 3 + d), programs(2)], 1, rel::coherent)); v.extend(spaces(pumps(t), 2, rel::coherent)); v.extend(spaces(ops1(), 2, rel::coherent)); v.extend(spaces(vec![characters(false)], 2, rel::coherent)); v.extend(spaces(small(t), 1, rel::coherent)); v.extend(spaces(chains(t), 1, rel::coherent)); v }, assumptions: &[] },
    Prop { id: "C23", build: |t| { let d = t as usize; let mut v = spaces(vec![Gen::words("positions", &a_pos(), 0, 3), Gen::words("escapes", &a_esc(), 0, 3), Gen::words("strings and comments", &a_str(), 0, 3 + d), Gen::words("line continuations", &a_lc(), 0, 3), Gen::words("boundary bytes", &a_bytes(), 0, 2), Gen::words("mixed", &a_mix(), 0, 2), Gen::words("first lines", &a_first(), 0, 3), pieces()], 30, rel::issues); v.extend(spaces(vec![Gen::words("strings and comments", &a_str(), 0, 4 + d), Gen::words("line continuations", &a_lc(), 0, 4), Gen::words("boundary bytes", &a_bytes(), 3, 3), programs(2), bent_names(PLAIN), long_names(AROUND), Gen::words("escapes", &a_esc(), 4, 3 + d), Gen::words("mixed", &a_mix(), 3, 3)], 1, rel::issues)); v.extend(spaces(pumps(t), 2, rel::issues)); v.extend(spaces(ops1(), 2, rel::issues)); v.extend(spaces(vec![characters(false)], 2, rel::issues));  v }, assumptions: &[] },
    Prop { id: "C24", build: |t| { let d = t as usize; let mut g = vec![Gen::words("first lines", &a_first(), 0, 5 + d), Gen::words("after a first line", &a_mix(), 0, 2 + d).within(&[("#!sh%0A", ""), ("#!%0D%0A", ""), ("#!/bin/x -y%0D", ""), ("a%0A", ""), ("#%0A", "")]), Gen::words("bytes in a first line", &a_bytes(), 0, 3).within(&[("#!", "%0Aa"), ("#", "!%0Ab"), ("#!%0A", "")])]; g.push(programs(1).within(&[("#!", ""), ("#!a%0A", "%0A#!b"), ("%0A#!", "%0A"), (" #!", "%0Ab")])); spaces(g, 6, rel::first_line) }, assumptions: &[] },
    Prop { id: "C25", build: |t| { let d = t as usize; let f: &[(&str, &str)] = &[("", ""), ("<<", ""), ("a>>", ""), ("a >>> ", " b"), ("f[<<", "]"), ("(a>>", ")")]; let g: &[(&str, &str)] = &[("", ""), ("a::", ""), ("f[a::", "]"), ("a::b::", " c"), ("#", ""), ("a:: ", "")];
        let mut v = vec![Gen::words("file names", &a_file(), 0, 3 + d).within(f), Gen::words("tags", &a_tag(), 0, 3 + d).within(g), Gen::words("bracketed file names", &syms("[ ] a ( ) \" %20 %0A * \\ ,"), 0, 5).within(&f[..4]), Gen::words("every character", &(1..127u8).map(|c| vec![c]).collect(), 0, 2).within(&[("<<a", "b c"), ("<<", "]"), ("a::b", "c d"), ("a::", "c d"), ("<<[", "] c")])]; v.extend([scalars(if t { &[("<<a", "b"), ("<<a[", "]"), ("a::a", "b"), ("a::", ""), ("<<", "")] } else { &[("<<a", "b"), ("<<[", "]")] }), Gen::words("characters in file names and tags", &a_chars(), 0, 2 + d).within(&[("<<", ""), ("<<a", ""), ("<<a[", "]"), ("<<[[", "]]b"), ("a>>\"", "\""), ("a::", ""), ("a::b", ""), ("a::\"", "\""), ("a::b::", " c")])]); let mut s = spaces(v, if t { 4 } else { 1 }, rel::raw_text); s.extend(spaces(vec![Gen::words("file names", &a_file(), 0, 3 + d), Gen::words("tags", &a_tag(), 0, 3 + d), Gen::words("bracketed file names", &syms("[ ] a ( ) \" %20 %0A * \\ ,"), 0, 4 + d), Gen::words("every pair of characters", &(0..128u8).map(|c| vec![c]).collect(), 0, 2)], 4, rel::raw_text)); s.extend(spaces(vec![long_names(&[("<<", ""), ("a::", ""), ("<<a", "b"), ("a::a", "b")])], 4, rel::raw_text)); s }, assumptions: &[] },
    Prop { id: "C26", build: |t| { let d = t as usize; let mut g = vec![Gen::words("strings", &syms("\" \\ a %0A [ ] n \\\" \\\\ %C3%A9 \\[RawQuote] \\.22 (* \\:0022 %09"), 0, 5 + d), Gen::words("strings and comments", &a_str(), 0, 5 + d), Gen::words("mixed", &a_mix(), 0, 3), Gen::words("core", &a_core(), 0, 3 + d), Gen::words("boundary bytes", &a_bytes(), 0, 3), Gen::words("escapes", &a_esc(), 0, 4), Gen::words("line continuations", &a_lc(), 0, 3), Gen::words("positions", &a_pos(), 0, 3), Gen::words("numbers", &a_num(), 0, 3), Gen::words("tags", &a_tag(), 0, 2).within(&[("a::", ""), ("#", ""), ("<<", "")])]; g.push(programs(1 + d)); g.extend(ops1()); g.push(pieces()); spaces(g, 2, rel::features) }, assumptions: &["the fast-scan feature is added to the default ones; builds without position computation are not covered"] },
    Prop { id: "C28", build: |t| { let d = t as usize; let mut g = if t { tree_words(false) } else { vec![Gen::words("core", &a_core(), 0, 3), Gen::words("brackets", &a_brackets(), 0, 4)] }; g.extend(ops1()); g.push(programs(2)); g.push(Gen::words("all brackets", &a_brackets2(), 0, 2 + d)); g.extend(chains(t).into_iter().filter(|g| g.n < 50000)); g.push(Gen::words("mixed", &a_mix(), 0, 3)); g.push(Gen::words("ternaries", &a_tern(), 0, 3)); g.push(Gen::words("linear syntax", &a_lin(), 0, 3 + d)); let mut v = spaces(g, 1, api::traversal); v.extend(spaces(vec![ops_mix(3)], 2, api::traversal)); if t { v.extend(spaces(ops2(), 1, api::traversal)) } v.extend(spaces(byte_words(t).into_iter().take(1 + 3 * d).collect(), 1, api::traversal)); v.push(api::made_space()); v }, assumptions: &["aggregation is not applied to a tree that is aggregated already (it panics, by design)"] },
    Prop { id: "C29", build: api::span_space, assumptions: &["the ends of a span are ordered, as in every span the parser makes"] },
    Prop { id: "C30", build: |t| { let d = t as usize; let mut g = if t { tree_words(false) } else { vec![Gen::words("core", &a_core(), 0, 3), Gen::words("brackets", &a_brackets(), 0, 4), Gen::words("linear syntax", &a_lin(), 0, 3), Gen::words("ternaries", &a_tern(), 0, 3)] }; g.extend(ops1()); g.push(programs(2)); g.push(Gen::words("positions", &a_pos(), 0, 3 + d)); g.push(Gen::words("strings and comments", &a_str(), 0, 3 + d)); g.push(Gen::words("mixed", &a_mix(), 3, 3)); g.push(long_names(AROUND)); g.push(characters(t)); let mut v = spaces(g, 1, api::printed); if t { v.extend(spaces(ops2(), 1, api::printed)) } v }, assumptions: &["trees made by the parser from valid UTF-8 (no box or code nodes)"] },
    Prop { id: "C31", build: |t| { let d = t as usize; let mut v = api::name_space(); let mut g = tree_words(t); g.extend(ops1()); g.push(long_names(OPCTX)); g.push(Gen::words("all brackets", &a_brackets2(), 0, 3)); g.push(Gen::words("escapes", &a_esc(), 0, 3 + d)); g.push(Gen::words("ternaries", &a_tern(), 0, 3)); g.push(characters(t)); v.extend(spaces(g, 1, api::names)); v.extend(spaces(byte_words(t), 1, api::names)); v.extend(spaces(ops2(), 1, api::names)); v }, assumptions: &["the list of the symbol names the parser knows is transcribed in the model"] },
    Prop { id: "C32", build: c32, assumptions: &["the issues are those of the reference model of the reader, in refissue.rs and reftok.rs"] },
    Prop { id: "C33", build: |t| { let mut v: Vec<Space> = statements(t).iter().map(|g| g.check(if g.n > 1_500_000 { 2 } else { 4 }, rel::confined)).collect(); v.extend(spaces(vec![programs(2), pieces(), Gen::words("strings and comments", &a_str(), 0, 4), Gen::words("all brackets", &a_brackets2(), 0, 3)], 8, rel::confined)); v }, assumptions: &["the list of the functions whose calls start a statement is transcribed in the model"] },
    Prop { id: "C34", build: crate::cli::space, assumptions: &["the tool is run with an empty environment, its input and output being pipes"] },
    Prop { id: "C35", build: crate::boxes::space, assumptions: &["RowBox and GridBox, whose abstraction is not written yet, are left out"] },
    Prop { id: "C27", build: wire_space, assumptions: &["the link is a stand-in that records the tokens put on it and serves tokens to read; WSTP itself and the kernel side are not run", "built with debug assertions off, as shipped"] },
];
#[cfg(feature = "wire")]
fn wire_space(t: bool) -> Vec<Space> { crate::wire::space(t) }
#[cfg(not(feature = "wire"))]
fn wire_space(_: bool) -> Vec<Space> { vec![] }
pub fn check_named(x: &str) -> CheckFn {
    match x { "total" => rel::total, "reported" => rel::reported, "confined" => rel::confined, "tiling" => inv::tiling, "leaves" => inv::leaves, "positions" => inv::positions, "spans" => inv::node_spans, "utf8" => inv::utf8, "decoded" => inv::decoded, "kinds" => inv::kinds, "grouping" => inv::grouping,
        "desugar" => rel::desugar, "quirked" => rel::quirked, "errors" => rel::errors, "trivia" => rel::trivia, "compose" => rel::compose, "continuation" => rel::continuation, "issues" => rel::issues, "options" => rel::options, "coherent" => rel::coherent, "first_line" => rel::first_line, "raw_text" => rel::raw_text, "spelled" => rel::spelled, "brackets" => rel::brackets, "escape" => rel::escape, "traversal" => crate::api::traversal, "printed" => crate::api::printed, "names" => crate::api::names,
        _ => panic!("unknown check {x}") }
}
#[allow(unused)] fn _u() { let _ = join(vec![]); }
