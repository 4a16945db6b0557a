#!/usr/bin/env python3
"""Freeze the published tables (CodeParser/Data/*.wl) into mc/src/spec_tables.rs.

Run once by hand:  python3 spec/gen_spec.py /repo > mc/src/spec_tables.rs
The checks never read /repo's data files: the frozen copy is the specification.
"""
import re, sys
D = sys.argv[1] + "/CodeParser/Data/"
def strip(s):
    out, d, i = [], 0, 0
    while i < len(s):
        if s.startswith("(*", i): d += 1; i += 2; continue
        if s.startswith("*)", i): d -= 1; i += 2; continue
        if d == 0: out.append(s[i])
        i += 1
    return "".join(out)
def rd(f): return strip(open(D + f).read())

# ---- precedence
lines = re.findall(r"Precedence`([A-Za-z`]+)\s*->\s*(\{[^}]*\}|Precedence`[A-Za-z`]+)", rd("Precedence.wl"))
prec, level = {}, 0
for name, v in lines:
    if v.startswith("{"):
        a, assoc = [x.strip() for x in v[1:-1].split(",")]
        if a == "Next": level += 1
        elif re.fullmatch(r"\d+", a): level = int(a)
        else: raise SystemExit("prec " + v)
        prec[name] = (level, assoc == "Associativity`Right")
    else:
        prec[name] = prec[v[len("Precedence`"):]]

# ---- long names
names = re.findall(r'"([A-Za-z0-9]+)"\s*->\s*\{(\w+)Character,\s*16\^\^([0-9a-f]+),', rd("LongNames.wl"))
names = [(n, c, int(h, 16)) for n, c, h in names]

def tk(t):
    p = t.split("`")
    if p[0] == "Error": return "TokenKind::Error_" + p[1]
    if p[0] in ("LongName", "LinearSyntax", "Fake"): return "TokenKind::%s_%s" % (p[0], p[1])
    assert len(p) == 1, t
    return "TokenKind::" + p[0]
def op(o):
    o = o.strip()
    if o.startswith("System`"): o = o[7:]
    if o.startswith("CodeParser`"): return "CodeParser_" + o[11:]
    return o
def pr(p):
    l, r = prec[p.strip()[len("Precedence`"):]]
    return "%d, %s" % (l, "true" if r else "false")

def entries(f):
    s = rd(f)
    return re.findall(r"Token`([A-Za-z`]+)\s*->\s*Parselet`(\w+)\[(.*?)\]\s*(?:,\s*(?=Token`)|,?\s*\|>)", s, re.S)

P = print
P("// GENERATED by spec/gen_spec.py from CodeParser/Data/*.wl (published tables). Frozen.")
P("use wolfram_parser::tokenize::TokenKind;")
P("#[derive(Clone,Copy,PartialEq,Eq,Debug)] pub enum Cat { Raw, Letterlike, Whitespace, Newline, Punctuation, Uninterpretable, Unsupported }")
full = re.findall(r'"([A-Za-z0-9]+)"\s*->\s*\{(\w+)Character,\s*16\^\^([0-9a-f]+),\s*<\|(.*?)\|>\s*\}', rd("LongNames.wl"), re.S)
def strs(s): return re.findall(r'"((?:[^"\\]|\\.)*)"', s)
P("/// letterlike characters in common use")
P("pub static COMMON: &[u32] = &[%s];" % ", ".join(sorted("0x%04x" % int(h, 16) for n, c, h, x in full if c == "Letterlike" and "NotStrangeLetterlike" in x)))
P("/// ASCII replacements of characters")
P("pub static ASCII: &[(u32, &[&str])] = &[")
for n, c, h, x in sorted(full, key=lambda f: int(f[2], 16)):
    m = re.search(r'"ASCIIReplacements"\s*->\s*\{(.*?)\}\s*(?:,|$)', x.strip(), re.S)
    if m: P("    (0x%s, &[%s])," % (h, ", ".join('"%s"' % v for v in strs(m.group(1)))))
P("];")
P("pub static LONGNAMES: &[(&str, Cat, u32)] = &[")
for n, c, h in names: P('    ("%s", Cat::%s, 0x%x),' % (n, c, h))
P("];")
P("pub static PUNCT: &[(u32, TokenKind)] = &[")
for n, c, h in sorted(names, key=lambda x: x[2]):
    if c == "Punctuation": P("    (0x%x, TokenKind::LongName_%s)," % (h, n))
P("];")
P("#[derive(Clone,Copy,PartialEq,Debug)] pub enum Px { Leaf, Error, Eof, Closer, Op(u32,bool,&'static str), Comma, Unsupported, Group(&'static str), Special(&'static str), IntegralLike(u32,bool,&'static str,&'static str) }")
P("#[derive(Clone,Copy,PartialEq,Debug)] pub enum Ix { No, Newline, DifferentialD, Bin(u32,bool,&'static str), Infix(u32,bool,&'static str), Post(u32,bool,&'static str), Times, Call(&'static str), Special(&'static str) }")
seen = {}
P("pub static PREFIX: &[(TokenKind, Px)] = &[")
for t, k, a in entries("PrefixParselets.wl"):
    a = [x for x in a.split(",")]
    if k == "LeafParselet": v = "Px::Leaf"
    elif k == "PrefixErrorParselet": v = "Px::Error"
    elif k == "PrefixEndOfFileParselet": v = "Px::Eof"
    elif k == "PrefixCloserParselet": v = "Px::Closer"
    elif k == "PrefixOperatorParselet": v = 'Px::Op(%s, "%s")' % (pr(a[0]), op(a[1]))
    elif k == "PrefixCommaParselet": v = "Px::Comma"
    elif k == "PrefixUnsupportedTokenParselet": v = "Px::Unsupported"
    elif k == "GroupParselet": v = 'Px::Group("%s")' % op(a[1])
    elif k == "IntegralParselet": v = 'Px::Special("Integral")'
    else: v = 'Px::Special("%s%s")' % (k.replace("Parselet", ""), "" if a == [""] else ":" + ",".join(x.strip() for x in a))
    P("    (%s, %s)," % (tk(t), v))
P("];")
P("pub static INFIX: &[(TokenKind, Ix)] = &[")
for t, k, a in entries("InfixParselets.wl"):
    a = [x for x in a.split(",")]
    if k == "InfixAssertFalseParselet": v = "Ix::No"
    elif k == "InfixToplevelNewlineParselet": v = "Ix::Newline"
    elif k == "InfixDifferentialDParselet": v = "Ix::DifferentialD"
    elif k == "BinaryOperatorParselet": v = 'Ix::Bin(%s, "%s")' % (pr(a[0]), op(a[1]))
    elif k == "InfixOperatorParselet": v = 'Ix::Infix(%s, "%s")' % (pr(a[0]), op(a[1]))
    elif k == "PostfixOperatorParselet": v = 'Ix::Post(%s, "%s")' % (pr(a[0]), op(a[1]))
    elif k == "TimesParselet": v = "Ix::Times"
    elif k == "CallParselet": v = 'Ix::Call("%s")' % op(a[-1].rstrip("]"))
    else: v = 'Ix::Special("%s%s")' % (k.replace("Parselet", ""), "" if a == [""] else ":" + ",".join(x.strip() for x in a))
    P("    (%s, %s)," % (tk(t), v))
P("];")
P("pub static PREC: &[(&str, u32, bool)] = &[")
for n, (l, r) in prec.items(): P('    ("%s", %d, %s),' % (n, l, "true" if r else "false"))
P("];")
