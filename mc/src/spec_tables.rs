// GENERATED by spec/gen_spec.py from CodeParser/Data/*.wl (published tables). Frozen.
use wolfram_parser::tokenize::TokenKind;
#[derive(Clone,Copy,PartialEq,Eq,Debug)] pub enum Cat { Raw, Letterlike, Whitespace, Newline, Punctuation, Uninterpretable, Unsupported }
/// letterlike characters in common use
pub static COMMON: &[u32] = &[0x00b0, 0x0391, 0x0392, 0x0393, 0x0394, 0x0395, 0x0396, 0x0397, 0x0398, 0x0399, 0x039a, 0x039b, 0x039c, 0x039d, 0x039e, 0x039f, 0x03a0, 0x03a1, 0x03a3, 0x03a4, 0x03a5, 0x03a6, 0x03a7, 0x03a8, 0x03a9, 0x03b1, 0x03b2, 0x03b3, 0x03b4, 0x03b5, 0x03b6, 0x03b7, 0x03b8, 0x03b9, 0x03ba, 0x03bb, 0x03bc, 0x03bd, 0x03be, 0x03bf, 0x03c0, 0x03c1, 0x03c2, 0x03c3, 0x03c4, 0x03c5, 0x03c6, 0x03c7, 0x03c8, 0x03c9, 0x03d1, 0x03d2, 0x03d5, 0x03d6, 0x03da, 0x03db, 0x03dc, 0x03dd, 0x03de, 0x03df, 0x03e0, 0x03e1, 0x03f0, 0x03f1, 0x03f5, 0x2020, 0x2032, 0x2033, 0x210a, 0x210b, 0x210c, 0x210f, 0x2110, 0x2111, 0x2112, 0x2113, 0x211b, 0x212c, 0x212f, 0x2130, 0x2131, 0x2133, 0x2134, 0x221e, 0xf3af, 0xf6b2, 0xf6b3, 0xf6b4, 0xf6b5, 0xf6b7, 0xf6b9, 0xf6ba, 0xf6bb, 0xf6bc, 0xf6be, 0xf6bf, 0xf6c1, 0xf6c2, 0xf6c3, 0xf6c4, 0xf6c5, 0xf6c6, 0xf6c7, 0xf6c8, 0xf6c9, 0xf6ca, 0xf6cb, 0xf74d, 0xf74e, 0xf74f, 0xf770, 0xf772, 0xf773, 0xf776, 0xf779, 0xf77a, 0xf77d, 0xf77e, 0xf77f, 0xf780, 0xf782, 0xf783, 0xf784, 0xf785, 0xf786, 0xf787, 0xf788, 0xf789, 0xf800, 0xf801, 0xf802, 0xf803, 0xf804, 0xf805, 0xf806, 0xf807, 0xf808, 0xf809, 0xf80a, 0xf80b, 0xf80c, 0xf80d, 0xf80e, 0xf80f, 0xf810, 0xf811, 0xf812, 0xf813, 0xf814, 0xf815, 0xf816, 0xf817, 0xf818, 0xf819, 0xf81a, 0xf81b, 0xf81c, 0xf81d, 0xf81e, 0xf81f, 0xf820, 0xf821, 0xf822, 0xf823, 0xf824, 0xf825, 0xf826, 0xf827, 0xf828, 0xf829, 0xf82a, 0xf82b, 0xf82c, 0xf82d, 0xf82e, 0xf82f, 0xf830, 0xf831, 0xf832, 0xf833, 0xf834, 0xf835, 0xf836, 0xf837, 0xf838, 0xf839, 0xf83a, 0xf83b, 0xf83c, 0xf83d, 0xf83e, 0xf83f, 0xf840, 0xf841, 0xf842, 0xf843, 0xf844, 0xf846, 0xf847, 0xf848, 0xf849, 0xf84a, 0xf84b, 0xf84c, 0xf854, 0xf855, 0xf856, 0xf857, 0xf858, 0xf859, 0xf85a, 0xf85b, 0xf85c, 0xf85d, 0xf85e, 0xf85f, 0xf860, 0xf861, 0xf862, 0xf863, 0xf864, 0xf865, 0xf866, 0xf867, 0xf868, 0xf869, 0xf86a, 0xf86b, 0xf86c, 0xf874, 0xf875, 0xf878, 0xf879, 0xf87d, 0xf87e, 0xf87f, 0xf880, 0xf881, 0xf882, 0xf883, 0xf884, 0xf885, 0xf886, 0xf88a, 0xfa000, 0xfa001, 0xfa002, 0xfa003, 0xfa004, 0xfa005, 0xfa006, 0xfa007, 0xfa008, 0xfa009, 0xfa00a, 0xfa00b, 0xfa00c, 0xfa00d, 0xfa00e, 0xfa00f, 0xfa010, 0xfa011, 0xfa012, 0xfa013, 0xfa014, 0xfa015, 0xfa016, 0xfa017, 0xfa018, 0xfa019, 0xfa01a, 0xfa01b, 0xfa01c, 0xfa01d, 0xfa01e, 0xfa01f, 0xfa020, 0xfa021, 0xfa022, 0xfa023, 0xfa024, 0xfa025, 0xfa026, 0xfa027, 0xfa028, 0xfa029, 0xfa02a, 0xfa02b, 0xfa02c, 0xfa02d, 0xfa02e, 0xfa02f, 0xfa030, 0xfa031, 0xfa032, 0xfa033];
/// ASCII replacements of characters
pub static ASCII: &[(u32, &[&str])] = &[
    (0x00a0, &[" "]),
    (0x00a2, &["c"]),
    (0x00a8, &[".."]),
    (0x00a9, &["(c)"]),
    (0x00ab, &["<<", "\""]),
    (0x00ac, &["!"]),
    (0x00ad, &["-"]),
    (0x00ae, &["(R)"]),
    (0x00b0, &["Degree"]),
    (0x00b1, &["+-"]),
    (0x00b5, &["u"]),
    (0x00b7, &["."]),
    (0x00b8, &[","]),
    (0x00bb, &[">>", "\""]),
    (0x00c0, &["A`", "A"]),
    (0x00c1, &["A'", "A"]),
    (0x00c2, &["A^", "A"]),
    (0x00c3, &["A~", "A"]),
    (0x00c4, &["A\"", "AE", "A"]),
    (0x00c5, &["Ao", "A"]),
    (0x00c6, &["AE"]),
    (0x00c7, &["C,", "C"]),
    (0x00c8, &["E`", "E"]),
    (0x00c9, &["E'", "E"]),
    (0x00ca, &["E^", "E"]),
    (0x00cb, &["E\"", "E"]),
    (0x00cc, &["I`", "I"]),
    (0x00cd, &["I'", "I"]),
    (0x00ce, &["I^", "I"]),
    (0x00cf, &["I\"", "I"]),
    (0x00d0, &["Eth"]),
    (0x00d1, &["N~", "N"]),
    (0x00d2, &["O`", "O"]),
    (0x00d3, &["O'", "O"]),
    (0x00d4, &["O^", "O"]),
    (0x00d5, &["O~", "O"]),
    (0x00d6, &["O\"", "OE", "O"]),
    (0x00d7, &["*", "x"]),
    (0x00d8, &["O/", "O"]),
    (0x00d9, &["U`", "U"]),
    (0x00da, &["U'", "U"]),
    (0x00db, &["U^", "U"]),
    (0x00dc, &["U\"", "UE", "U"]),
    (0x00dd, &["Y'", "Y"]),
    (0x00de, &["Th"]),
    (0x00df, &["sz"]),
    (0x00e0, &["a`", "a"]),
    (0x00e1, &["a'", "a"]),
    (0x00e2, &["a^", "a"]),
    (0x00e3, &["a~", "a"]),
    (0x00e4, &["a\"", "ae", "a"]),
    (0x00e5, &["ao", "a"]),
    (0x00e6, &["ae", "a"]),
    (0x00e7, &["c,", "c"]),
    (0x00e8, &["e`", "e"]),
    (0x00e9, &["e'", "e"]),
    (0x00ea, &["e^", "e"]),
    (0x00eb, &["e\"", "e"]),
    (0x00ec, &["i`", "i"]),
    (0x00ed, &["i'", "i"]),
    (0x00ee, &["i^", "i"]),
    (0x00ef, &["i\"", "i"]),
    (0x00f0, &["eth"]),
    (0x00f1, &["n~", "n"]),
    (0x00f2, &["o`", "o"]),
    (0x00f3, &["o'", "o"]),
    (0x00f4, &["o^", "o"]),
    (0x00f5, &["o~", "o"]),
    (0x00f6, &["o\"", "oe", "o"]),
    (0x00f7, &["/"]),
    (0x00f8, &["o/", "o"]),
    (0x00f9, &["u`", "u"]),
    (0x00fa, &["u'", "u"]),
    (0x00fb, &["u^", "u"]),
    (0x00fc, &["u\"", "ue", "u"]),
    (0x00fd, &["y'", "y"]),
    (0x00fe, &["th"]),
    (0x00ff, &["y\"", "y"]),
    (0x0100, &["A-", "A"]),
    (0x0101, &["a-", "a"]),
    (0x0102, &["Au", "A"]),
    (0x0103, &["au", "a"]),
    (0x0106, &["C'", "C"]),
    (0x0107, &["c'", "c"]),
    (0x010c, &["Cv", "C"]),
    (0x010d, &["cv", "c"]),
    (0x010e, &["Dv", "D"]),
    (0x010f, &["dv", "d"]),
    (0x0112, &["E-", "E"]),
    (0x0113, &["e-", "e"]),
    (0x0114, &["Eu", "E"]),
    (0x0115, &["eu", "e"]),
    (0x011a, &["Ev", "E"]),
    (0x011b, &["ev", "e"]),
    (0x012c, &["Iu", "I"]),
    (0x012d, &["iu", "i"]),
    (0x0131, &["i"]),
    (0x0141, &["L/", "L"]),
    (0x0142, &["l/", "l"]),
    (0x0147, &["Nv", "N"]),
    (0x0148, &["nv", "n"]),
    (0x0150, &["O''", "O"]),
    (0x0151, &["o''", "o"]),
    (0x0152, &["OE"]),
    (0x0153, &["oe"]),
    (0x0158, &["Rv", "R"]),
    (0x0159, &["rv", "r"]),
    (0x0160, &["Sv", "S"]),
    (0x0161, &["sv", "s"]),
    (0x0164, &["Tv", "T"]),
    (0x0165, &["tv", "t"]),
    (0x016e, &["Uo", "U"]),
    (0x016f, &["uo", "u"]),
    (0x0170, &["U''", "U"]),
    (0x0171, &["u''", "u"]),
    (0x017d, &["Zv", "Z"]),
    (0x017e, &["zv", "z"]),
    (0x0192, &["f"]),
    (0x02c7, &["v"]),
    (0x03bc, &["u"]),
    (0x2005, &[" "]),
    (0x2009, &[" "]),
    (0x200a, &[" "]),
    (0x2010, &["-"]),
    (0x2013, &["-"]),
    (0x2014, &["--", "-"]),
    (0x2018, &["'"]),
    (0x2019, &["'"]),
    (0x201c, &["\""]),
    (0x201d, &["\""]),
    (0x2026, &["..."]),
    (0x2028, &["\n"]),
    (0x2029, &["\n\n"]),
    (0x2032, &["'"]),
    (0x2033, &["''", "\""]),
    (0x2035, &["`"]),
    (0x2036, &["``", "\""]),
    (0x2043, &["-"]),
    (0x205f, &[" "]),
    (0x2062, &["*", "x", ""]),
    (0x210a, &["g"]),
    (0x210b, &["H"]),
    (0x210c, &["H"]),
    (0x210f, &["h"]),
    (0x2110, &["I"]),
    (0x2111, &["I"]),
    (0x2112, &["L"]),
    (0x2113, &["l"]),
    (0x2118, &["p"]),
    (0x211b, &["R"]),
    (0x211c, &["R"]),
    (0x2122, &["(TM)"]),
    (0x2128, &["Z"]),
    (0x212b, &["A"]),
    (0x212c, &["B"]),
    (0x212d, &["C"]),
    (0x212f, &["e"]),
    (0x2130, &["E"]),
    (0x2131, &["F"]),
    (0x2133, &["M"]),
    (0x2134, &["o"]),
    (0x2190, &["<-"]),
    (0x2192, &["->"]),
    (0x2194, &["<->"]),
    (0x21a4, &["<-|"]),
    (0x21a6, &["|->"]),
    (0x21d0, &["<="]),
    (0x21d2, &["=>"]),
    (0x21d4, &["<=>"]),
    (0x21e4, &["|<-"]),
    (0x21e5, &["->|"]),
    (0x2212, &["-"]),
    (0x2213, &["-+"]),
    (0x2215, &["/"]),
    (0x2216, &["\\"]),
    (0x2218, &["()"]),
    (0x221e, &["Infinity"]),
    (0x2223, &["|"]),
    (0x2225, &["||"]),
    (0x2226, &["!||"]),
    (0x2227, &["&&"]),
    (0x2228, &["||"]),
    (0x2236, &[":"]),
    (0x223c, &["~"]),
    (0x2241, &["!~"]),
    (0x2242, &["=~"]),
    (0x2243, &["~="]),
    (0x2244, &["!~="]),
    (0x2245, &["~=="]),
    (0x2247, &["!~=="]),
    (0x2248, &["~~"]),
    (0x2249, &["!~~"]),
    (0x2260, &["!="]),
    (0x2264, &["<="]),
    (0x2265, &[">="]),
    (0x2266, &["<="]),
    (0x2267, &[">="]),
    (0x2268, &["!<=="]),
    (0x2269, &["!>=="]),
    (0x226a, &["<<"]),
    (0x226b, &[">>"]),
    (0x226e, &["!<"]),
    (0x226f, &["!>"]),
    (0x2270, &["!<="]),
    (0x2271, &["!>="]),
    (0x2272, &["<~"]),
    (0x2273, &[">~"]),
    (0x2274, &["!<~"]),
    (0x2275, &["!>~"]),
    (0x2276, &["<>"]),
    (0x2277, &["><"]),
    (0x2278, &["!<>"]),
    (0x2279, &["!><"]),
    (0x2295, &["(+)"]),
    (0x2296, &["(-)"]),
    (0x2297, &["(x)"]),
    (0x2299, &["(.)"]),
    (0x22a2, &["|-"]),
    (0x22a3, &["-|"]),
    (0x22a8, &["|="]),
    (0x22b2, &["<|"]),
    (0x22b3, &["|>"]),
    (0x22b4, &["<|="]),
    (0x22b5, &["|>="]),
    (0x22c0, &["^"]),
    (0x22c4, &["<>"]),
    (0x22c6, &["*"]),
    (0x22da, &["<=>"]),
    (0x22db, &[">=<"]),
    (0x22ea, &["!<|"]),
    (0x22eb, &["!|>"]),
    (0x22ec, &["!<|="]),
    (0x22ed, &["!|>="]),
    (0x22ef, &["..."]),
    (0x2329, &["<"]),
    (0x232a, &[">"]),
    (0x2423, &[" ", "_"]),
    (0x2639, &[":-("]),
    (0x263a, &[":-)"]),
    (0x266f, &["#"]),
    (0x27f5, &["<--"]),
    (0x27f6, &["-->"]),
    (0x27f7, &["<-->"]),
    (0x27f8, &["<=="]),
    (0x27f9, &["==>"]),
    (0x27fa, &["<==>"]),
    (0x29cf, &["<||"]),
    (0x29d0, &["||>"]),
    (0x29e6, &["<=>"]),
    (0x2a7d, &["<="]),
    (0x2a7e, &[">="]),
    (0x2aa1, &["<<"]),
    (0x2aa2, &[">>"]),
    (0x2ae4, &["=|"]),
    (0x301a, &["[["]),
    (0x301b, &["]]"]),
    (0xf113, &["<|"]),
    (0xf114, &["|>"]),
    (0xf120, &["<->"]),
    (0xf360, &[" ", ""]),
    (0xf380, &[" "]),
    (0xf382, &[" "]),
    (0xf383, &[" "]),
    (0xf384, &[" "]),
    (0xf39e, &["+"]),
    (0xf3a0, &[""]),
    (0xf3a3, &["\n"]),
    (0xf3b1, &["\\"]),
    (0xf3b2, &["_"]),
    (0xf3b3, &[""]),
    (0xf3b4, &[""]),
    (0xf3bd, &["\n"]),
    (0xf3be, &["\n"]),
    (0xf3bf, &["\n"]),
    (0xf3c6, &["\n"]),
    (0xf3c7, &["T"]),
    (0xf3c8, &["*"]),
    (0xf3c9, &["t"]),
    (0xf3ce, &["H"]),
    (0xf3d0, &["|"]),
    (0xf3d1, &["!|"]),
    (0xf3d5, &["->"]),
    (0xf3d9, &["K"]),
    (0xf400, &["!=~"]),
    (0xf412, &["!<||"]),
    (0xf413, &["!||>"]),
    (0xf422, &["!<<"]),
    (0xf423, &["!<<"]),
    (0xf424, &["!<="]),
    (0xf427, &["!>>"]),
    (0xf428, &["!>>"]),
    (0xf429, &["!>="]),
    (0xf431, &["=="]),
    (0xf432, &["|"]),
    (0xf4a0, &["x"]),
    (0xf4a1, &["|->"]),
    (0xf51f, &[":>"]),
    (0xf520, &["[]"]),
    (0xf522, &["->"]),
    (0xf523, &["=>"]),
    (0xf525, &["->"]),
    (0xf526, &["<-"]),
    (0xf527, &["[*]"]),
    (0xf528, &["[ ]"]),
    (0xf603, &["|"]),
    (0xf604, &["|"]),
    (0xf605, &["||"]),
    (0xf606, &["||"]),
    (0xf6b2, &["a"]),
    (0xf6b3, &["b"]),
    (0xf6b4, &["c"]),
    (0xf6b5, &["d"]),
    (0xf6b7, &["f"]),
    (0xf6b9, &["h"]),
    (0xf6ba, &["i"]),
    (0xf6bb, &["j"]),
    (0xf6bc, &["k"]),
    (0xf6be, &["m"]),
    (0xf6bf, &["n"]),
    (0xf6c1, &["p"]),
    (0xf6c2, &["q"]),
    (0xf6c3, &["r"]),
    (0xf6c4, &["s"]),
    (0xf6c5, &["t"]),
    (0xf6c6, &["u"]),
    (0xf6c7, &["v"]),
    (0xf6c8, &["w"]),
    (0xf6c9, &["x"]),
    (0xf6ca, &["y"]),
    (0xf6cb, &["z"]),
    (0xf6cc, &["a"]),
    (0xf6cd, &["b"]),
    (0xf6ce, &["c"]),
    (0xf6cf, &["d"]),
    (0xf6d0, &["e"]),
    (0xf6d1, &["f"]),
    (0xf6d2, &["g"]),
    (0xf6d3, &["h"]),
    (0xf6d4, &["i"]),
    (0xf6d5, &["j"]),
    (0xf6d6, &["k"]),
    (0xf6d7, &["l"]),
    (0xf6d8, &["m"]),
    (0xf6d9, &["n"]),
    (0xf6da, &["o"]),
    (0xf6db, &["p"]),
    (0xf6dc, &["q"]),
    (0xf6dd, &["R"]),
    (0xf6de, &["s"]),
    (0xf6df, &["t"]),
    (0xf6e0, &["u"]),
    (0xf6e1, &["v"]),
    (0xf6e2, &["w"]),
    (0xf6e3, &["x"]),
    (0xf6e4, &["y"]),
    (0xf6e5, &["z"]),
    (0xf6e6, &["a"]),
    (0xf6e7, &["b"]),
    (0xf6e8, &["c"]),
    (0xf6e9, &["d"]),
    (0xf6ea, &["e"]),
    (0xf6eb, &["f"]),
    (0xf6ec, &["g"]),
    (0xf6ed, &["h"]),
    (0xf6ee, &["i"]),
    (0xf6ef, &["j"]),
    (0xf6f0, &["k"]),
    (0xf6f1, &["l"]),
    (0xf6f2, &["m"]),
    (0xf6f3, &["n"]),
    (0xf6f4, &["o"]),
    (0xf6f5, &["p"]),
    (0xf6f6, &["q"]),
    (0xf6f7, &["r"]),
    (0xf6f8, &["s"]),
    (0xf6f9, &["t"]),
    (0xf6fa, &["u"]),
    (0xf6fb, &["v"]),
    (0xf6fc, &["w"]),
    (0xf6fd, &["x"]),
    (0xf6fe, &["y"]),
    (0xf6ff, &["z"]),
    (0xf700, &["j"]),
    (0xf721, &[":-@"]),
    (0xf722, &[":-|"]),
    (0xf724, &["#"]),
    (0xf730, &["i"]),
    (0xf731, &["j"]),
    (0xf74b, &["D"]),
    (0xf74c, &["d"]),
    (0xf74d, &["e"]),
    (0xf74e, &["i"]),
    (0xf74f, &["j"]),
    (0xf754, &["_"]),
    (0xf758, &["..."]),
    (0xf761, &["<<"]),
    (0xf762, &[">>"]),
    (0xf763, &["CTRL"]),
    (0xf765, &[",", ""]),
    (0xf766, &["RET"]),
    (0xf767, &["^^^"]),
    (0xf769, &["ESC"]),
    (0xf76a, &["CMD"]),
    (0xf76b, &["-["]),
    (0xf76c, &["]"]),
    (0xf76d, &["@", ""]),
    (0xf76e, &["\n"]),
    (0xf76f, &["\n\n"]),
    (0xf770, &["A"]),
    (0xf772, &["C"]),
    (0xf773, &["D"]),
    (0xf776, &["G"]),
    (0xf779, &["J"]),
    (0xf77a, &["K"]),
    (0xf77d, &["N"]),
    (0xf77e, &["O"]),
    (0xf77f, &["P"]),
    (0xf780, &["Q"]),
    (0xf782, &["S"]),
    (0xf783, &["T"]),
    (0xf784, &["U"]),
    (0xf785, &["V"]),
    (0xf786, &["W"]),
    (0xf787, &["X"]),
    (0xf788, &["Y"]),
    (0xf789, &["Z"]),
    (0xf78a, &["A"]),
    (0xf78b, &["B"]),
    (0xf78d, &["D"]),
    (0xf78e, &["E"]),
    (0xf78f, &["F"]),
    (0xf790, &["G"]),
    (0xf793, &["J"]),
    (0xf794, &["K"]),
    (0xf795, &["L"]),
    (0xf796, &["M"]),
    (0xf797, &["N"]),
    (0xf798, &["O"]),
    (0xf799, &["P"]),
    (0xf79a, &["Q"]),
    (0xf79c, &["S"]),
    (0xf79d, &["T"]),
    (0xf79e, &["U"]),
    (0xf79f, &["V"]),
    (0xf7a0, &["W"]),
    (0xf7a1, &["X"]),
    (0xf7a2, &["Y"]),
    (0xf7a4, &["A"]),
    (0xf7a5, &["B"]),
    (0xf7a6, &["C"]),
    (0xf7a7, &["D"]),
    (0xf7a8, &["E"]),
    (0xf7a9, &["F"]),
    (0xf7aa, &["G"]),
    (0xf7ab, &["H"]),
    (0xf7ac, &["I"]),
    (0xf7ad, &["J"]),
    (0xf7ae, &["K"]),
    (0xf7af, &["L"]),
    (0xf7b0, &["M"]),
    (0xf7b1, &["N"]),
    (0xf7b2, &["O"]),
    (0xf7b3, &["P"]),
    (0xf7b4, &["Q"]),
    (0xf7b5, &["R"]),
    (0xf7b6, &["S"]),
    (0xf7b7, &["T"]),
    (0xf7b8, &["U"]),
    (0xf7b9, &["V"]),
    (0xf7ba, &["W"]),
    (0xf7bb, &["X"]),
    (0xf7bc, &["Y"]),
    (0xf7bd, &["Z"]),
    (0xf7be, &["TAB"]),
    (0xf7bf, &["SPC"]),
    (0xf7d0, &["DEL"]),
    (0xf7d1, &["ALT"]),
    (0xf7d2, &["OPT"]),
    (0xf7d9, &["=="]),
    (0xf7da, &["c"]),
    (0xf7db, &["0"]),
    (0xf7dc, &["1"]),
    (0xf7dd, &["2"]),
    (0xf7de, &["3"]),
    (0xf7df, &["4"]),
    (0xf7e0, &["5"]),
    (0xf7e1, &["6"]),
    (0xf7e2, &["7"]),
    (0xf7e3, &["8"]),
    (0xf7e4, &["9"]),
    (0xf7e5, &["0"]),
    (0xf7e6, &["1"]),
    (0xf7e7, &["2"]),
    (0xf7e8, &["3"]),
    (0xf7e9, &["4"]),
    (0xf7ea, &["5"]),
    (0xf7eb, &["6"]),
    (0xf7ec, &["7"]),
    (0xf7ed, &["8"]),
    (0xf7ef, &["9"]),
    (0xf7f0, &["0"]),
    (0xf7f1, &["1"]),
    (0xf7f2, &["2"]),
    (0xf7f3, &["3"]),
    (0xf7f4, &["4"]),
    (0xf7f5, &["5"]),
    (0xf7f6, &["6"]),
    (0xf7f7, &["7"]),
    (0xf7f8, &["8"]),
    (0xf7f9, &["9"]),
    (0xf7fc, &[","]),
    (0xf800, &["a"]),
    (0xf801, &["b"]),
    (0xf802, &["c"]),
    (0xf803, &["d"]),
    (0xf804, &["e"]),
    (0xf805, &["f"]),
    (0xf806, &["g"]),
    (0xf807, &["h"]),
    (0xf808, &["i"]),
    (0xf809, &["j"]),
    (0xf80a, &["k"]),
    (0xf80b, &["l"]),
    (0xf80c, &["m"]),
    (0xf80d, &["n"]),
    (0xf80e, &["o"]),
    (0xf80f, &["p"]),
    (0xf810, &["q"]),
    (0xf811, &["r"]),
    (0xf812, &["s"]),
    (0xf813, &["t"]),
    (0xf814, &["u"]),
    (0xf815, &["v"]),
    (0xf816, &["w"]),
    (0xf817, &["x"]),
    (0xf818, &["y"]),
    (0xf819, &["z"]),
    (0xf81a, &["A"]),
    (0xf81b, &["B"]),
    (0xf81c, &["C"]),
    (0xf81d, &["D"]),
    (0xf81e, &["E"]),
    (0xf81f, &["F"]),
    (0xf820, &["G"]),
    (0xf821, &["H"]),
    (0xf822, &["I"]),
    (0xf823, &["J"]),
    (0xf824, &["K"]),
    (0xf825, &["L"]),
    (0xf826, &["M"]),
    (0xf827, &["N"]),
    (0xf828, &["O"]),
    (0xf829, &["P"]),
    (0xf82a, &["Q"]),
    (0xf82b, &["R"]),
    (0xf82c, &["S"]),
    (0xf82d, &["T"]),
    (0xf82e, &["U"]),
    (0xf82f, &["V"]),
    (0xf830, &["W"]),
    (0xf831, &["X"]),
    (0xf832, &["Y"]),
    (0xf833, &["Z"]),
    (0xfb01, &["fi"]),
    (0xfb02, &["fl"]),
    (0xfffd, &["?"]),
    (0x0fa000, &["a"]),
    (0x0fa001, &["b"]),
    (0x0fa002, &["c"]),
    (0x0fa003, &["d"]),
    (0x0fa004, &["e"]),
    (0x0fa005, &["f"]),
    (0x0fa006, &["g"]),
    (0x0fa007, &["h"]),
    (0x0fa008, &["i"]),
    (0x0fa009, &["j"]),
    (0x0fa00a, &["k"]),
    (0x0fa00b, &["l"]),
    (0x0fa00c, &["m"]),
    (0x0fa00d, &["n"]),
    (0x0fa00e, &["o"]),
    (0x0fa00f, &["p"]),
    (0x0fa010, &["q"]),
    (0x0fa011, &["r"]),
    (0x0fa012, &["s"]),
    (0x0fa013, &["t"]),
    (0x0fa014, &["u"]),
    (0x0fa015, &["v"]),
    (0x0fa016, &["w"]),
    (0x0fa017, &["x"]),
    (0x0fa018, &["y"]),
    (0x0fa019, &["z"]),
    (0x0fa01a, &["A"]),
    (0x0fa01b, &["B"]),
    (0x0fa01c, &["C"]),
    (0x0fa01d, &["D"]),
    (0x0fa01e, &["E"]),
    (0x0fa01f, &["F"]),
    (0x0fa020, &["G"]),
    (0x0fa021, &["H"]),
    (0x0fa022, &["I"]),
    (0x0fa023, &["J"]),
    (0x0fa024, &["K"]),
    (0x0fa025, &["L"]),
    (0x0fa026, &["M"]),
    (0x0fa027, &["N"]),
    (0x0fa028, &["O"]),
    (0x0fa029, &["P"]),
    (0x0fa02a, &["Q"]),
    (0x0fa02b, &["R"]),
    (0x0fa02c, &["S"]),
    (0x0fa02d, &["T"]),
    (0x0fa02e, &["U"]),
    (0x0fa02f, &["V"]),
    (0x0fa030, &["W"]),
    (0x0fa031, &["X"]),
    (0x0fa032, &["Y"]),
    (0x0fa033, &["Z"]),
];
pub static LONGNAMES: &[(&str, Cat, u32)] = &[
    ("RawTab", Cat::Raw, 0x9),
    ("NewLine", Cat::Raw, 0xa),
    ("RawReturn", Cat::Raw, 0xd),
    ("RawEscape", Cat::Raw, 0x1b),
    ("RawSpace", Cat::Raw, 0x20),
    ("RawExclamation", Cat::Raw, 0x21),
    ("RawDoubleQuote", Cat::Raw, 0x22),
    ("RawNumberSign", Cat::Raw, 0x23),
    ("RawDollar", Cat::Raw, 0x24),
    ("RawPercent", Cat::Raw, 0x25),
    ("RawAmpersand", Cat::Raw, 0x26),
    ("RawQuote", Cat::Raw, 0x27),
    ("RawLeftParenthesis", Cat::Raw, 0x28),
    ("RawRightParenthesis", Cat::Raw, 0x29),
    ("RawStar", Cat::Raw, 0x2a),
    ("RawPlus", Cat::Raw, 0x2b),
    ("RawComma", Cat::Raw, 0x2c),
    ("RawDash", Cat::Raw, 0x2d),
    ("RawDot", Cat::Raw, 0x2e),
    ("RawSlash", Cat::Raw, 0x2f),
    ("RawColon", Cat::Raw, 0x3a),
    ("RawSemicolon", Cat::Raw, 0x3b),
    ("RawLess", Cat::Raw, 0x3c),
    ("RawEqual", Cat::Raw, 0x3d),
    ("RawGreater", Cat::Raw, 0x3e),
    ("RawQuestion", Cat::Raw, 0x3f),
    ("RawAt", Cat::Raw, 0x40),
    ("RawLeftBracket", Cat::Raw, 0x5b),
    ("RawBackslash", Cat::Raw, 0x5c),
    ("RawRightBracket", Cat::Raw, 0x5d),
    ("RawWedge", Cat::Raw, 0x5e),
    ("RawUnderscore", Cat::Raw, 0x5f),
    ("RawBackquote", Cat::Raw, 0x60),
    ("RawLeftBrace", Cat::Raw, 0x7b),
    ("RawVerticalBar", Cat::Raw, 0x7c),
    ("RawRightBrace", Cat::Raw, 0x7d),
    ("RawTilde", Cat::Raw, 0x7e),
    ("NonBreakingSpace", Cat::Whitespace, 0xa0),
    ("DownExclamation", Cat::Letterlike, 0xa1),
    ("Cent", Cat::Letterlike, 0xa2),
    ("Sterling", Cat::Letterlike, 0xa3),
    ("Currency", Cat::Letterlike, 0xa4),
    ("Yen", Cat::Letterlike, 0xa5),
    ("Section", Cat::Letterlike, 0xa7),
    ("DoubleDot", Cat::Letterlike, 0xa8),
    ("Copyright", Cat::Letterlike, 0xa9),
    ("LeftGuillemet", Cat::Letterlike, 0xab),
    ("Not", Cat::Punctuation, 0xac),
    ("DiscretionaryHyphen", Cat::Letterlike, 0xad),
    ("RegisteredTrademark", Cat::Letterlike, 0xae),
    ("Degree", Cat::Letterlike, 0xb0),
    ("PlusMinus", Cat::Punctuation, 0xb1),
    ("Micro", Cat::Letterlike, 0xb5),
    ("Paragraph", Cat::Letterlike, 0xb6),
    ("CenterDot", Cat::Punctuation, 0xb7),
    ("Cedilla", Cat::Letterlike, 0xb8),
    ("RightGuillemet", Cat::Letterlike, 0xbb),
    ("DownQuestion", Cat::Letterlike, 0xbf),
    ("CapitalAGrave", Cat::Letterlike, 0xc0),
    ("CapitalAAcute", Cat::Letterlike, 0xc1),
    ("CapitalAHat", Cat::Letterlike, 0xc2),
    ("CapitalATilde", Cat::Letterlike, 0xc3),
    ("CapitalADoubleDot", Cat::Letterlike, 0xc4),
    ("CapitalARing", Cat::Letterlike, 0xc5),
    ("CapitalAE", Cat::Letterlike, 0xc6),
    ("CapitalCCedilla", Cat::Letterlike, 0xc7),
    ("CapitalEGrave", Cat::Letterlike, 0xc8),
    ("CapitalEAcute", Cat::Letterlike, 0xc9),
    ("CapitalEHat", Cat::Letterlike, 0xca),
    ("CapitalEDoubleDot", Cat::Letterlike, 0xcb),
    ("CapitalIGrave", Cat::Letterlike, 0xcc),
    ("CapitalIAcute", Cat::Letterlike, 0xcd),
    ("CapitalIHat", Cat::Letterlike, 0xce),
    ("CapitalIDoubleDot", Cat::Letterlike, 0xcf),
    ("CapitalEth", Cat::Letterlike, 0xd0),
    ("CapitalNTilde", Cat::Letterlike, 0xd1),
    ("CapitalOGrave", Cat::Letterlike, 0xd2),
    ("CapitalOAcute", Cat::Letterlike, 0xd3),
    ("CapitalOHat", Cat::Letterlike, 0xd4),
    ("CapitalOTilde", Cat::Letterlike, 0xd5),
    ("CapitalODoubleDot", Cat::Letterlike, 0xd6),
    ("Times", Cat::Punctuation, 0xd7),
    ("CapitalOSlash", Cat::Letterlike, 0xd8),
    ("CapitalUGrave", Cat::Letterlike, 0xd9),
    ("CapitalUAcute", Cat::Letterlike, 0xda),
    ("CapitalUHat", Cat::Letterlike, 0xdb),
    ("CapitalUDoubleDot", Cat::Letterlike, 0xdc),
    ("CapitalYAcute", Cat::Letterlike, 0xdd),
    ("CapitalThorn", Cat::Letterlike, 0xde),
    ("SZ", Cat::Letterlike, 0xdf),
    ("AGrave", Cat::Letterlike, 0xe0),
    ("AAcute", Cat::Letterlike, 0xe1),
    ("AHat", Cat::Letterlike, 0xe2),
    ("ATilde", Cat::Letterlike, 0xe3),
    ("ADoubleDot", Cat::Letterlike, 0xe4),
    ("ARing", Cat::Letterlike, 0xe5),
    ("AE", Cat::Letterlike, 0xe6),
    ("CCedilla", Cat::Letterlike, 0xe7),
    ("EGrave", Cat::Letterlike, 0xe8),
    ("EAcute", Cat::Letterlike, 0xe9),
    ("EHat", Cat::Letterlike, 0xea),
    ("EDoubleDot", Cat::Letterlike, 0xeb),
    ("IGrave", Cat::Letterlike, 0xec),
    ("IAcute", Cat::Letterlike, 0xed),
    ("IHat", Cat::Letterlike, 0xee),
    ("IDoubleDot", Cat::Letterlike, 0xef),
    ("Eth", Cat::Letterlike, 0xf0),
    ("NTilde", Cat::Letterlike, 0xf1),
    ("OGrave", Cat::Letterlike, 0xf2),
    ("OAcute", Cat::Letterlike, 0xf3),
    ("OHat", Cat::Letterlike, 0xf4),
    ("OTilde", Cat::Letterlike, 0xf5),
    ("ODoubleDot", Cat::Letterlike, 0xf6),
    ("Divide", Cat::Punctuation, 0xf7),
    ("OSlash", Cat::Letterlike, 0xf8),
    ("UGrave", Cat::Letterlike, 0xf9),
    ("UAcute", Cat::Letterlike, 0xfa),
    ("UHat", Cat::Letterlike, 0xfb),
    ("UDoubleDot", Cat::Letterlike, 0xfc),
    ("YAcute", Cat::Letterlike, 0xfd),
    ("Thorn", Cat::Letterlike, 0xfe),
    ("YDoubleDot", Cat::Letterlike, 0xff),
    ("CapitalABar", Cat::Letterlike, 0x100),
    ("ABar", Cat::Letterlike, 0x101),
    ("CapitalACup", Cat::Letterlike, 0x102),
    ("ACup", Cat::Letterlike, 0x103),
    ("CapitalCAcute", Cat::Letterlike, 0x106),
    ("CAcute", Cat::Letterlike, 0x107),
    ("CapitalCHacek", Cat::Letterlike, 0x10c),
    ("CHacek", Cat::Letterlike, 0x10d),
    ("CapitalDHacek", Cat::Letterlike, 0x10e),
    ("DHacek", Cat::Letterlike, 0x10f),
    ("CapitalEBar", Cat::Letterlike, 0x112),
    ("EBar", Cat::Letterlike, 0x113),
    ("CapitalECup", Cat::Letterlike, 0x114),
    ("ECup", Cat::Letterlike, 0x115),
    ("CapitalEHacek", Cat::Letterlike, 0x11a),
    ("EHacek", Cat::Letterlike, 0x11b),
    ("CapitalICup", Cat::Letterlike, 0x12c),
    ("ICup", Cat::Letterlike, 0x12d),
    ("DotlessI", Cat::Letterlike, 0x131),
    ("CapitalLSlash", Cat::Letterlike, 0x141),
    ("LSlash", Cat::Letterlike, 0x142),
    ("CapitalNHacek", Cat::Letterlike, 0x147),
    ("NHacek", Cat::Letterlike, 0x148),
    ("CapitalODoubleAcute", Cat::Letterlike, 0x150),
    ("ODoubleAcute", Cat::Letterlike, 0x151),
    ("CapitalOE", Cat::Letterlike, 0x152),
    ("OE", Cat::Letterlike, 0x153),
    ("CapitalRHacek", Cat::Letterlike, 0x158),
    ("RHacek", Cat::Letterlike, 0x159),
    ("CapitalSHacek", Cat::Letterlike, 0x160),
    ("SHacek", Cat::Letterlike, 0x161),
    ("CapitalTHacek", Cat::Letterlike, 0x164),
    ("THacek", Cat::Letterlike, 0x165),
    ("CapitalURing", Cat::Letterlike, 0x16e),
    ("URing", Cat::Letterlike, 0x16f),
    ("CapitalUDoubleAcute", Cat::Letterlike, 0x170),
    ("UDoubleAcute", Cat::Letterlike, 0x171),
    ("CapitalZHacek", Cat::Letterlike, 0x17d),
    ("ZHacek", Cat::Letterlike, 0x17e),
    ("Florin", Cat::Letterlike, 0x192),
    ("Hacek", Cat::Letterlike, 0x2c7),
    ("Breve", Cat::Letterlike, 0x2d8),
    ("CapitalAlpha", Cat::Letterlike, 0x391),
    ("CapitalBeta", Cat::Letterlike, 0x392),
    ("CapitalGamma", Cat::Letterlike, 0x393),
    ("CapitalDelta", Cat::Letterlike, 0x394),
    ("CapitalEpsilon", Cat::Letterlike, 0x395),
    ("CapitalZeta", Cat::Letterlike, 0x396),
    ("CapitalEta", Cat::Letterlike, 0x397),
    ("CapitalTheta", Cat::Letterlike, 0x398),
    ("CapitalIota", Cat::Letterlike, 0x399),
    ("CapitalKappa", Cat::Letterlike, 0x39a),
    ("CapitalLambda", Cat::Letterlike, 0x39b),
    ("CapitalMu", Cat::Letterlike, 0x39c),
    ("CapitalNu", Cat::Letterlike, 0x39d),
    ("CapitalXi", Cat::Letterlike, 0x39e),
    ("CapitalOmicron", Cat::Letterlike, 0x39f),
    ("CapitalPi", Cat::Letterlike, 0x3a0),
    ("CapitalRho", Cat::Letterlike, 0x3a1),
    ("CapitalSigma", Cat::Letterlike, 0x3a3),
    ("CapitalTau", Cat::Letterlike, 0x3a4),
    ("CapitalUpsilon", Cat::Letterlike, 0x3a5),
    ("CapitalPhi", Cat::Letterlike, 0x3a6),
    ("CapitalChi", Cat::Letterlike, 0x3a7),
    ("CapitalPsi", Cat::Letterlike, 0x3a8),
    ("CapitalOmega", Cat::Letterlike, 0x3a9),
    ("Alpha", Cat::Letterlike, 0x3b1),
    ("Beta", Cat::Letterlike, 0x3b2),
    ("Gamma", Cat::Letterlike, 0x3b3),
    ("Delta", Cat::Letterlike, 0x3b4),
    ("CurlyEpsilon", Cat::Letterlike, 0x3b5),
    ("Zeta", Cat::Letterlike, 0x3b6),
    ("Eta", Cat::Letterlike, 0x3b7),
    ("Theta", Cat::Letterlike, 0x3b8),
    ("Iota", Cat::Letterlike, 0x3b9),
    ("Kappa", Cat::Letterlike, 0x3ba),
    ("Lambda", Cat::Letterlike, 0x3bb),
    ("Mu", Cat::Letterlike, 0x3bc),
    ("Nu", Cat::Letterlike, 0x3bd),
    ("Xi", Cat::Letterlike, 0x3be),
    ("Omicron", Cat::Letterlike, 0x3bf),
    ("Pi", Cat::Letterlike, 0x3c0),
    ("Rho", Cat::Letterlike, 0x3c1),
    ("FinalSigma", Cat::Letterlike, 0x3c2),
    ("Sigma", Cat::Letterlike, 0x3c3),
    ("Tau", Cat::Letterlike, 0x3c4),
    ("Upsilon", Cat::Letterlike, 0x3c5),
    ("CurlyPhi", Cat::Letterlike, 0x3c6),
    ("Chi", Cat::Letterlike, 0x3c7),
    ("Psi", Cat::Letterlike, 0x3c8),
    ("Omega", Cat::Letterlike, 0x3c9),
    ("CurlyTheta", Cat::Letterlike, 0x3d1),
    ("CurlyCapitalUpsilon", Cat::Letterlike, 0x3d2),
    ("Phi", Cat::Letterlike, 0x3d5),
    ("CurlyPi", Cat::Letterlike, 0x3d6),
    ("CapitalStigma", Cat::Letterlike, 0x3da),
    ("Stigma", Cat::Letterlike, 0x3db),
    ("CapitalDigamma", Cat::Letterlike, 0x3dc),
    ("Digamma", Cat::Letterlike, 0x3dd),
    ("CapitalKoppa", Cat::Letterlike, 0x3de),
    ("Koppa", Cat::Letterlike, 0x3df),
    ("CapitalSampi", Cat::Letterlike, 0x3e0),
    ("Sampi", Cat::Letterlike, 0x3e1),
    ("CurlyKappa", Cat::Letterlike, 0x3f0),
    ("CurlyRho", Cat::Letterlike, 0x3f1),
    ("Epsilon", Cat::Letterlike, 0x3f5),
    ("ThickSpace", Cat::Whitespace, 0x2005),
    ("ThinSpace", Cat::Whitespace, 0x2009),
    ("VeryThinSpace", Cat::Whitespace, 0x200a),
    ("Hyphen", Cat::Letterlike, 0x2010),
    ("Dash", Cat::Letterlike, 0x2013),
    ("LongDash", Cat::Letterlike, 0x2014),
    ("OpenCurlyQuote", Cat::Punctuation, 0x2018),
    ("CloseCurlyQuote", Cat::Punctuation, 0x2019),
    ("OpenCurlyDoubleQuote", Cat::Punctuation, 0x201c),
    ("CloseCurlyDoubleQuote", Cat::Punctuation, 0x201d),
    ("Dagger", Cat::Letterlike, 0x2020),
    ("DoubleDagger", Cat::Letterlike, 0x2021),
    ("Bullet", Cat::Letterlike, 0x2022),
    ("Ellipsis", Cat::Letterlike, 0x2026),
    ("LineSeparator", Cat::Newline, 0x2028),
    ("ParagraphSeparator", Cat::Newline, 0x2029),
    ("Prime", Cat::Letterlike, 0x2032),
    ("DoublePrime", Cat::Letterlike, 0x2033),
    ("ReversePrime", Cat::Letterlike, 0x2035),
    ("ReverseDoublePrime", Cat::Letterlike, 0x2036),
    ("SkeletonIndicator", Cat::Uninterpretable, 0x2043),
    ("MediumSpace", Cat::Whitespace, 0x205f),
    ("NoBreak", Cat::Whitespace, 0x2060),
    ("InvisibleTimes", Cat::Punctuation, 0x2062),
    ("Euro", Cat::Letterlike, 0x20ac),
    ("Rupee", Cat::Letterlike, 0x20b9),
    ("ScriptG", Cat::Letterlike, 0x210a),
    ("ScriptCapitalH", Cat::Letterlike, 0x210b),
    ("GothicCapitalH", Cat::Letterlike, 0x210c),
    ("HBar", Cat::Letterlike, 0x210f),
    ("ScriptCapitalI", Cat::Letterlike, 0x2110),
    ("GothicCapitalI", Cat::Letterlike, 0x2111),
    ("ScriptCapitalL", Cat::Letterlike, 0x2112),
    ("ScriptL", Cat::Letterlike, 0x2113),
    ("WeierstrassP", Cat::Letterlike, 0x2118),
    ("ScriptCapitalR", Cat::Letterlike, 0x211b),
    ("GothicCapitalR", Cat::Letterlike, 0x211c),
    ("Trademark", Cat::Letterlike, 0x2122),
    ("Mho", Cat::Letterlike, 0x2127),
    ("GothicCapitalZ", Cat::Letterlike, 0x2128),
    ("Angstrom", Cat::Letterlike, 0x212b),
    ("ScriptCapitalB", Cat::Letterlike, 0x212c),
    ("GothicCapitalC", Cat::Letterlike, 0x212d),
    ("ScriptE", Cat::Letterlike, 0x212f),
    ("ScriptCapitalE", Cat::Letterlike, 0x2130),
    ("ScriptCapitalF", Cat::Letterlike, 0x2131),
    ("ScriptCapitalM", Cat::Letterlike, 0x2133),
    ("ScriptO", Cat::Letterlike, 0x2134),
    ("Aleph", Cat::Letterlike, 0x2135),
    ("Bet", Cat::Letterlike, 0x2136),
    ("Gimel", Cat::Letterlike, 0x2137),
    ("Dalet", Cat::Letterlike, 0x2138),
    ("LeftArrow", Cat::Punctuation, 0x2190),
    ("UpArrow", Cat::Punctuation, 0x2191),
    ("RightArrow", Cat::Punctuation, 0x2192),
    ("DownArrow", Cat::Punctuation, 0x2193),
    ("LeftRightArrow", Cat::Punctuation, 0x2194),
    ("UpDownArrow", Cat::Punctuation, 0x2195),
    ("UpperLeftArrow", Cat::Punctuation, 0x2196),
    ("UpperRightArrow", Cat::Punctuation, 0x2197),
    ("LowerRightArrow", Cat::Punctuation, 0x2198),
    ("LowerLeftArrow", Cat::Punctuation, 0x2199),
    ("LeftTeeArrow", Cat::Punctuation, 0x21a4),
    ("UpTeeArrow", Cat::Punctuation, 0x21a5),
    ("RightTeeArrow", Cat::Punctuation, 0x21a6),
    ("DownTeeArrow", Cat::Punctuation, 0x21a7),
    ("ReturnIndicator", Cat::Letterlike, 0x21b5),
    ("LeftVector", Cat::Punctuation, 0x21bc),
    ("DownLeftVector", Cat::Punctuation, 0x21bd),
    ("RightUpVector", Cat::Punctuation, 0x21be),
    ("LeftUpVector", Cat::Punctuation, 0x21bf),
    ("RightVector", Cat::Punctuation, 0x21c0),
    ("DownRightVector", Cat::Punctuation, 0x21c1),
    ("RightDownVector", Cat::Punctuation, 0x21c2),
    ("LeftDownVector", Cat::Punctuation, 0x21c3),
    ("RightArrowLeftArrow", Cat::Punctuation, 0x21c4),
    ("UpArrowDownArrow", Cat::Punctuation, 0x21c5),
    ("LeftArrowRightArrow", Cat::Punctuation, 0x21c6),
    ("ReverseEquilibrium", Cat::Punctuation, 0x21cb),
    ("Equilibrium", Cat::Punctuation, 0x21cc),
    ("DoubleLeftArrow", Cat::Punctuation, 0x21d0),
    ("DoubleUpArrow", Cat::Punctuation, 0x21d1),
    ("DoubleRightArrow", Cat::Punctuation, 0x21d2),
    ("DoubleDownArrow", Cat::Punctuation, 0x21d3),
    ("DoubleLeftRightArrow", Cat::Punctuation, 0x21d4),
    ("DoubleUpDownArrow", Cat::Punctuation, 0x21d5),
    ("LeftArrowBar", Cat::Punctuation, 0x21e4),
    ("RightArrowBar", Cat::Punctuation, 0x21e5),
    ("DownArrowUpArrow", Cat::Punctuation, 0x21f5),
    ("ForAll", Cat::Punctuation, 0x2200),
    ("PartialD", Cat::Punctuation, 0x2202),
    ("Exists", Cat::Punctuation, 0x2203),
    ("NotExists", Cat::Punctuation, 0x2204),
    ("EmptySet", Cat::Letterlike, 0x2205),
    ("Del", Cat::Punctuation, 0x2207),
    ("Element", Cat::Punctuation, 0x2208),
    ("NotElement", Cat::Punctuation, 0x2209),
    ("ReverseElement", Cat::Punctuation, 0x220b),
    ("NotReverseElement", Cat::Punctuation, 0x220c),
    ("SuchThat", Cat::Punctuation, 0x220d),
    ("Product", Cat::Punctuation, 0x220f),
    ("Coproduct", Cat::Punctuation, 0x2210),
    ("Sum", Cat::Punctuation, 0x2211),
    ("Minus", Cat::Punctuation, 0x2212),
    ("MinusPlus", Cat::Punctuation, 0x2213),
    ("DivisionSlash", Cat::Punctuation, 0x2215),
    ("Backslash", Cat::Punctuation, 0x2216),
    ("SmallCircle", Cat::Punctuation, 0x2218),
    ("Sqrt", Cat::Punctuation, 0x221a),
    ("CubeRoot", Cat::Punctuation, 0x221b),
    ("Proportional", Cat::Punctuation, 0x221d),
    ("Infinity", Cat::Letterlike, 0x221e),
    ("RightAngle", Cat::Letterlike, 0x221f),
    ("Angle", Cat::Letterlike, 0x2220),
    ("MeasuredAngle", Cat::Letterlike, 0x2221),
    ("SphericalAngle", Cat::Letterlike, 0x2222),
    ("Divides", Cat::Punctuation, 0x2223),
    ("DoubleVerticalBar", Cat::Punctuation, 0x2225),
    ("NotDoubleVerticalBar", Cat::Punctuation, 0x2226),
    ("And", Cat::Punctuation, 0x2227),
    ("Or", Cat::Punctuation, 0x2228),
    ("Integral", Cat::Punctuation, 0x222b),
    ("ContourIntegral", Cat::Punctuation, 0x222e),
    ("DoubleContourIntegral", Cat::Punctuation, 0x222f),
    ("ClockwiseContourIntegral", Cat::Punctuation, 0x2232),
    ("CounterClockwiseContourIntegral", Cat::Punctuation, 0x2233),
    ("Therefore", Cat::Punctuation, 0x2234),
    ("Because", Cat::Punctuation, 0x2235),
    ("Colon", Cat::Punctuation, 0x2236),
    ("Proportion", Cat::Punctuation, 0x2237),
    ("Tilde", Cat::Punctuation, 0x223c),
    ("VerticalTilde", Cat::Punctuation, 0x2240),
    ("NotTilde", Cat::Punctuation, 0x2241),
    ("EqualTilde", Cat::Punctuation, 0x2242),
    ("TildeEqual", Cat::Punctuation, 0x2243),
    ("NotTildeEqual", Cat::Punctuation, 0x2244),
    ("TildeFullEqual", Cat::Punctuation, 0x2245),
    ("NotTildeFullEqual", Cat::Punctuation, 0x2247),
    ("TildeTilde", Cat::Punctuation, 0x2248),
    ("NotTildeTilde", Cat::Punctuation, 0x2249),
    ("CupCap", Cat::Punctuation, 0x224d),
    ("HumpDownHump", Cat::Punctuation, 0x224e),
    ("HumpEqual", Cat::Punctuation, 0x224f),
    ("DotEqual", Cat::Punctuation, 0x2250),
    ("NotEqual", Cat::Punctuation, 0x2260),
    ("Congruent", Cat::Punctuation, 0x2261),
    ("NotCongruent", Cat::Punctuation, 0x2262),
    ("LessEqual", Cat::Punctuation, 0x2264),
    ("GreaterEqual", Cat::Punctuation, 0x2265),
    ("LessFullEqual", Cat::Punctuation, 0x2266),
    ("GreaterFullEqual", Cat::Punctuation, 0x2267),
    ("NotLessFullEqual", Cat::Punctuation, 0x2268),
    ("NotGreaterFullEqual", Cat::Punctuation, 0x2269),
    ("LessLess", Cat::Punctuation, 0x226a),
    ("GreaterGreater", Cat::Punctuation, 0x226b),
    ("NotCupCap", Cat::Punctuation, 0x226d),
    ("NotLess", Cat::Punctuation, 0x226e),
    ("NotGreater", Cat::Punctuation, 0x226f),
    ("NotLessEqual", Cat::Punctuation, 0x2270),
    ("NotGreaterEqual", Cat::Punctuation, 0x2271),
    ("LessTilde", Cat::Punctuation, 0x2272),
    ("GreaterTilde", Cat::Punctuation, 0x2273),
    ("NotLessTilde", Cat::Punctuation, 0x2274),
    ("NotGreaterTilde", Cat::Punctuation, 0x2275),
    ("LessGreater", Cat::Punctuation, 0x2276),
    ("GreaterLess", Cat::Punctuation, 0x2277),
    ("NotLessGreater", Cat::Punctuation, 0x2278),
    ("NotGreaterLess", Cat::Punctuation, 0x2279),
    ("Precedes", Cat::Punctuation, 0x227a),
    ("Succeeds", Cat::Punctuation, 0x227b),
    ("PrecedesSlantEqual", Cat::Punctuation, 0x227c),
    ("SucceedsSlantEqual", Cat::Punctuation, 0x227d),
    ("PrecedesTilde", Cat::Punctuation, 0x227e),
    ("SucceedsTilde", Cat::Punctuation, 0x227f),
    ("NotPrecedes", Cat::Punctuation, 0x2280),
    ("NotSucceeds", Cat::Punctuation, 0x2281),
    ("Subset", Cat::Punctuation, 0x2282),
    ("Superset", Cat::Punctuation, 0x2283),
    ("NotSubset", Cat::Punctuation, 0x2284),
    ("NotSuperset", Cat::Punctuation, 0x2285),
    ("SubsetEqual", Cat::Punctuation, 0x2286),
    ("SupersetEqual", Cat::Punctuation, 0x2287),
    ("NotSubsetEqual", Cat::Punctuation, 0x2288),
    ("NotSupersetEqual", Cat::Punctuation, 0x2289),
    ("UnionPlus", Cat::Punctuation, 0x228e),
    ("SquareSubset", Cat::Punctuation, 0x228f),
    ("SquareSuperset", Cat::Punctuation, 0x2290),
    ("SquareSubsetEqual", Cat::Punctuation, 0x2291),
    ("SquareSupersetEqual", Cat::Punctuation, 0x2292),
    ("SquareIntersection", Cat::Punctuation, 0x2293),
    ("SquareUnion", Cat::Punctuation, 0x2294),
    ("CirclePlus", Cat::Punctuation, 0x2295),
    ("CircleMinus", Cat::Punctuation, 0x2296),
    ("CircleTimes", Cat::Punctuation, 0x2297),
    ("CircleDot", Cat::Punctuation, 0x2299),
    ("RightTee", Cat::Punctuation, 0x22a2),
    ("LeftTee", Cat::Punctuation, 0x22a3),
    ("DownTee", Cat::Punctuation, 0x22a4),
    ("UpTee", Cat::Punctuation, 0x22a5),
    ("DoubleRightTee", Cat::Punctuation, 0x22a8),
    ("LeftTriangle", Cat::Punctuation, 0x22b2),
    ("RightTriangle", Cat::Punctuation, 0x22b3),
    ("LeftTriangleEqual", Cat::Punctuation, 0x22b4),
    ("RightTriangleEqual", Cat::Punctuation, 0x22b5),
    ("Xor", Cat::Punctuation, 0x22bb),
    ("Nand", Cat::Punctuation, 0x22bc),
    ("Nor", Cat::Punctuation, 0x22bd),
    ("Wedge", Cat::Punctuation, 0x22c0),
    ("Vee", Cat::Punctuation, 0x22c1),
    ("Intersection", Cat::Punctuation, 0x22c2),
    ("Union", Cat::Punctuation, 0x22c3),
    ("Diamond", Cat::Punctuation, 0x22c4),
    ("Star", Cat::Punctuation, 0x22c6),
    ("LessEqualGreater", Cat::Punctuation, 0x22da),
    ("GreaterEqualLess", Cat::Punctuation, 0x22db),
    ("NotPrecedesSlantEqual", Cat::Punctuation, 0x22e0),
    ("NotSucceedsSlantEqual", Cat::Punctuation, 0x22e1),
    ("NotSquareSubsetEqual", Cat::Punctuation, 0x22e2),
    ("NotSquareSupersetEqual", Cat::Punctuation, 0x22e3),
    ("NotPrecedesTilde", Cat::Punctuation, 0x22e8),
    ("NotSucceedsTilde", Cat::Punctuation, 0x22e9),
    ("NotLeftTriangle", Cat::Punctuation, 0x22ea),
    ("NotRightTriangle", Cat::Punctuation, 0x22eb),
    ("NotLeftTriangleEqual", Cat::Punctuation, 0x22ec),
    ("NotRightTriangleEqual", Cat::Punctuation, 0x22ed),
    ("VerticalEllipsis", Cat::Letterlike, 0x22ee),
    ("CenterEllipsis", Cat::Letterlike, 0x22ef),
    ("AscendingEllipsis", Cat::Letterlike, 0x22f0),
    ("DescendingEllipsis", Cat::Letterlike, 0x22f1),
    ("Diameter", Cat::Letterlike, 0x2300),
    ("LeftCeiling", Cat::Punctuation, 0x2308),
    ("RightCeiling", Cat::Punctuation, 0x2309),
    ("LeftFloor", Cat::Punctuation, 0x230a),
    ("RightFloor", Cat::Punctuation, 0x230b),
    ("CloverLeaf", Cat::Letterlike, 0x2318),
    ("WatchIcon", Cat::Letterlike, 0x231a),
    ("Cap", Cat::Punctuation, 0x2322),
    ("Cup", Cat::Punctuation, 0x2323),
    ("LeftAngleBracket", Cat::Punctuation, 0x2329),
    ("RightAngleBracket", Cat::Punctuation, 0x232a),
    ("OverBracket", Cat::Letterlike, 0x23b4),
    ("UnderBracket", Cat::Letterlike, 0x23b5),
    ("SpaceIndicator", Cat::Whitespace, 0x2423),
    ("HorizontalLine", Cat::Letterlike, 0x2500),
    ("VerticalLine", Cat::Letterlike, 0x2502),
    ("FilledSquare", Cat::Letterlike, 0x25a0),
    ("EmptySquare", Cat::Letterlike, 0x25a1),
    ("FilledVerySmallSquare", Cat::Letterlike, 0x25aa),
    ("EmptyVerySmallSquare", Cat::Letterlike, 0x25ab),
    ("FilledRectangle", Cat::Letterlike, 0x25ae),
    ("EmptyRectangle", Cat::Letterlike, 0x25af),
    ("FilledUpTriangle", Cat::Letterlike, 0x25b2),
    ("EmptyUpTriangle", Cat::Letterlike, 0x25b3),
    ("UpPointer", Cat::Letterlike, 0x25b4),
    ("FilledRightTriangle", Cat::Letterlike, 0x25b6),
    ("RightPointer", Cat::Letterlike, 0x25b8),
    ("FilledDownTriangle", Cat::Letterlike, 0x25bc),
    ("EmptyDownTriangle", Cat::Letterlike, 0x25bd),
    ("DownPointer", Cat::Letterlike, 0x25be),
    ("FilledLeftTriangle", Cat::Letterlike, 0x25c0),
    ("LeftPointer", Cat::Letterlike, 0x25c2),
    ("FilledDiamond", Cat::Letterlike, 0x25c6),
    ("EmptyDiamond", Cat::Letterlike, 0x25c7),
    ("EmptyCircle", Cat::Letterlike, 0x25cb),
    ("FilledCircle", Cat::Letterlike, 0x25cf),
    ("EmptySmallCircle", Cat::Letterlike, 0x25e6),
    ("EmptySmallSquare", Cat::Letterlike, 0x25fb),
    ("FilledSmallSquare", Cat::Letterlike, 0x25fc),
    ("FivePointedStar", Cat::Letterlike, 0x2605),
    ("Sun", Cat::Letterlike, 0x2609),
    ("CheckmarkedBox", Cat::Letterlike, 0x2611),
    ("CheckedBox", Cat::Letterlike, 0x2612),
    ("SadSmiley", Cat::Letterlike, 0x2639),
    ("HappySmiley", Cat::Letterlike, 0x263a),
    ("Moon", Cat::Letterlike, 0x263e),
    ("Mercury", Cat::Letterlike, 0x263f),
    ("Venus", Cat::Letterlike, 0x2640),
    ("Mars", Cat::Letterlike, 0x2642),
    ("Jupiter", Cat::Letterlike, 0x2643),
    ("Saturn", Cat::Letterlike, 0x2644),
    ("Neptune", Cat::Letterlike, 0x2646),
    ("Pluto", Cat::Letterlike, 0x2647),
    ("AriesSign", Cat::Letterlike, 0x2648),
    ("TaurusSign", Cat::Letterlike, 0x2649),
    ("GeminiSign", Cat::Letterlike, 0x264a),
    ("CancerSign", Cat::Letterlike, 0x264b),
    ("LeoSign", Cat::Letterlike, 0x264c),
    ("VirgoSign", Cat::Letterlike, 0x264d),
    ("LibraSign", Cat::Letterlike, 0x264e),
    ("ScorpioSign", Cat::Letterlike, 0x264f),
    ("SagittariusSign", Cat::Letterlike, 0x2650),
    ("CapricornSign", Cat::Letterlike, 0x2651),
    ("AquariusSign", Cat::Letterlike, 0x2652),
    ("PiscesSign", Cat::Letterlike, 0x2653),
    ("WhiteKing", Cat::Letterlike, 0x2654),
    ("WhiteQueen", Cat::Letterlike, 0x2655),
    ("WhiteRook", Cat::Letterlike, 0x2656),
    ("WhiteBishop", Cat::Letterlike, 0x2657),
    ("WhiteKnight", Cat::Letterlike, 0x2658),
    ("WhitePawn", Cat::Letterlike, 0x2659),
    ("BlackKing", Cat::Letterlike, 0x265a),
    ("BlackQueen", Cat::Letterlike, 0x265b),
    ("BlackRook", Cat::Letterlike, 0x265c),
    ("BlackBishop", Cat::Letterlike, 0x265d),
    ("BlackKnight", Cat::Letterlike, 0x265e),
    ("BlackPawn", Cat::Letterlike, 0x265f),
    ("SpadeSuit", Cat::Letterlike, 0x2660),
    ("HeartSuit", Cat::Letterlike, 0x2661),
    ("DiamondSuit", Cat::Letterlike, 0x2662),
    ("ClubSuit", Cat::Letterlike, 0x2663),
    ("QuarterNote", Cat::Letterlike, 0x2669),
    ("EighthNote", Cat::Letterlike, 0x266a),
    ("BeamedEighthNote", Cat::Letterlike, 0x266b),
    ("BeamedSixteenthNote", Cat::Letterlike, 0x266c),
    ("Flat", Cat::Letterlike, 0x266d),
    ("Natural", Cat::Letterlike, 0x266e),
    ("Sharp", Cat::Letterlike, 0x266f),
    ("Uranus", Cat::Letterlike, 0x26e2),
    ("Checkmark", Cat::Letterlike, 0x2713),
    ("SixPointedStar", Cat::Letterlike, 0x2736),
    ("Perpendicular", Cat::Punctuation, 0x27c2),
    ("LongLeftArrow", Cat::Punctuation, 0x27f5),
    ("LongRightArrow", Cat::Punctuation, 0x27f6),
    ("LongLeftRightArrow", Cat::Punctuation, 0x27f7),
    ("DoubleLongLeftArrow", Cat::Punctuation, 0x27f8),
    ("DoubleLongRightArrow", Cat::Punctuation, 0x27f9),
    ("DoubleLongLeftRightArrow", Cat::Punctuation, 0x27fa),
    ("UpArrowBar", Cat::Punctuation, 0x2912),
    ("DownArrowBar", Cat::Punctuation, 0x2913),
    ("LeftRightVector", Cat::Punctuation, 0x294e),
    ("RightUpDownVector", Cat::Punctuation, 0x294f),
    ("DownLeftRightVector", Cat::Punctuation, 0x2950),
    ("LeftUpDownVector", Cat::Punctuation, 0x2951),
    ("LeftVectorBar", Cat::Punctuation, 0x2952),
    ("RightVectorBar", Cat::Punctuation, 0x2953),
    ("RightUpVectorBar", Cat::Punctuation, 0x2954),
    ("RightDownVectorBar", Cat::Punctuation, 0x2955),
    ("DownLeftVectorBar", Cat::Punctuation, 0x2956),
    ("DownRightVectorBar", Cat::Punctuation, 0x2957),
    ("LeftUpVectorBar", Cat::Punctuation, 0x2958),
    ("LeftDownVectorBar", Cat::Punctuation, 0x2959),
    ("LeftTeeVector", Cat::Punctuation, 0x295a),
    ("RightTeeVector", Cat::Punctuation, 0x295b),
    ("RightUpTeeVector", Cat::Punctuation, 0x295c),
    ("RightDownTeeVector", Cat::Punctuation, 0x295d),
    ("DownLeftTeeVector", Cat::Punctuation, 0x295e),
    ("DownRightTeeVector", Cat::Punctuation, 0x295f),
    ("LeftUpTeeVector", Cat::Punctuation, 0x2960),
    ("LeftDownTeeVector", Cat::Punctuation, 0x2961),
    ("UpEquilibrium", Cat::Punctuation, 0x296e),
    ("ReverseUpEquilibrium", Cat::Punctuation, 0x296f),
    ("RoundImplies", Cat::Punctuation, 0x2970),
    ("LeftTriangleBar", Cat::Punctuation, 0x29cf),
    ("RightTriangleBar", Cat::Punctuation, 0x29d0),
    ("Equivalent", Cat::Punctuation, 0x29e6),
    ("LessSlantEqual", Cat::Punctuation, 0x2a7d),
    ("GreaterSlantEqual", Cat::Punctuation, 0x2a7e),
    ("NestedLessLess", Cat::Punctuation, 0x2aa1),
    ("NestedGreaterGreater", Cat::Punctuation, 0x2aa2),
    ("PrecedesEqual", Cat::Punctuation, 0x2aaf),
    ("SucceedsEqual", Cat::Punctuation, 0x2ab0),
    ("DoubleLeftTee", Cat::Punctuation, 0x2ae4),
    ("COMPATIBILITYKanjiSpace", Cat::Unsupported, 0x3000),
    ("LeftDoubleBracket", Cat::Punctuation, 0x301a),
    ("RightDoubleBracket", Cat::Punctuation, 0x301b),
    ("LeftAssociation", Cat::Punctuation, 0xf113),
    ("RightAssociation", Cat::Punctuation, 0xf114),
    ("Shah", Cat::Letterlike, 0xf11d),
    ("WolframLanguageLogo", Cat::Letterlike, 0xf11e),
    ("WolframLanguageLogoCircle", Cat::Letterlike, 0xf11f),
    ("TwoWayRule", Cat::Punctuation, 0xf120),
    ("FreeformPrompt", Cat::Letterlike, 0xf351),
    ("WolframAlphaPrompt", Cat::Letterlike, 0xf352),
    ("InvisibleSpace", Cat::Whitespace, 0xf360),
    ("Piecewise", Cat::Punctuation, 0xf361),
    ("NegativeVeryThinSpace", Cat::Whitespace, 0xf380),
    ("NegativeThinSpace", Cat::Whitespace, 0xf382),
    ("NegativeMediumSpace", Cat::Whitespace, 0xf383),
    ("NegativeThickSpace", Cat::Whitespace, 0xf384),
    ("ImplicitPlus", Cat::Punctuation, 0xf39e),
    ("Null", Cat::Letterlike, 0xf3a0),
    ("COMPATIBILITYNoBreak", Cat::Unsupported, 0xf3a2),
    ("IndentingNewLine", Cat::Newline, 0xf3a3),
    ("AutoPlaceholder", Cat::Letterlike, 0xf3a4),
    ("AutoLeftMatch", Cat::Punctuation, 0xf3a8),
    ("AutoRightMatch", Cat::Punctuation, 0xf3a9),
    ("AutoSpace", Cat::Whitespace, 0xf3ad),
    ("AutoOperand", Cat::Letterlike, 0xf3ae),
    ("SystemsModelDelay", Cat::Letterlike, 0xf3af),
    ("Continuation", Cat::Whitespace, 0xf3b1),
    ("RoundSpaceIndicator", Cat::Whitespace, 0xf3b2),
    ("InvisiblePrefixScriptBase", Cat::Punctuation, 0xf3b3),
    ("InvisiblePostfixScriptBase", Cat::Punctuation, 0xf3b4),
    ("EntityStart", Cat::Letterlike, 0xf3b8),
    ("EntityEnd", Cat::Letterlike, 0xf3b9),
    ("SpanFromLeft", Cat::Letterlike, 0xf3ba),
    ("SpanFromAbove", Cat::Letterlike, 0xf3bb),
    ("SpanFromBoth", Cat::Letterlike, 0xf3bc),
    ("PageBreakAbove", Cat::Whitespace, 0xf3bd),
    ("PageBreakBelow", Cat::Whitespace, 0xf3be),
    ("DiscretionaryPageBreakAbove", Cat::Whitespace, 0xf3bf),
    ("DiscretionaryPageBreakBelow", Cat::Whitespace, 0xf3c6),
    ("Transpose", Cat::Punctuation, 0xf3c7),
    ("Conjugate", Cat::Punctuation, 0xf3c8),
    ("ConjugateTranspose", Cat::Punctuation, 0xf3c9),
    ("StepperRight", Cat::Letterlike, 0xf3ca),
    ("StepperLeft", Cat::Letterlike, 0xf3cb),
    ("StepperUp", Cat::Letterlike, 0xf3cc),
    ("StepperDown", Cat::Letterlike, 0xf3cd),
    ("HermitianConjugate", Cat::Punctuation, 0xf3ce),
    ("VerticalBar", Cat::Punctuation, 0xf3d0),
    ("NotVerticalBar", Cat::Punctuation, 0xf3d1),
    ("Distributed", Cat::Punctuation, 0xf3d2),
    ("Conditioned", Cat::Punctuation, 0xf3d3),
    ("UndirectedEdge", Cat::Punctuation, 0xf3d4),
    ("DirectedEdge", Cat::Punctuation, 0xf3d5),
    ("ContinuedFractionK", Cat::Punctuation, 0xf3d9),
    ("TensorProduct", Cat::Punctuation, 0xf3da),
    ("TensorWedge", Cat::Punctuation, 0xf3db),
    ("ProbabilityPr", Cat::Punctuation, 0xf3dc),
    ("ExpectationE", Cat::Punctuation, 0xf3dd),
    ("PermutationProduct", Cat::Punctuation, 0xf3de),
    ("Earth", Cat::Letterlike, 0xf3df),
    ("NotEqualTilde", Cat::Punctuation, 0xf400),
    ("NotHumpEqual", Cat::Punctuation, 0xf401),
    ("NotHumpDownHump", Cat::Punctuation, 0xf402),
    ("NotLeftTriangleBar", Cat::Punctuation, 0xf412),
    ("NotRightTriangleBar", Cat::Punctuation, 0xf413),
    ("NotLessLess", Cat::Punctuation, 0xf422),
    ("NotNestedLessLess", Cat::Punctuation, 0xf423),
    ("NotLessSlantEqual", Cat::Punctuation, 0xf424),
    ("NotGreaterGreater", Cat::Punctuation, 0xf427),
    ("NotNestedGreaterGreater", Cat::Punctuation, 0xf428),
    ("NotGreaterSlantEqual", Cat::Punctuation, 0xf429),
    ("NotPrecedesEqual", Cat::Punctuation, 0xf42b),
    ("NotSucceedsEqual", Cat::Punctuation, 0xf42d),
    ("NotSquareSubset", Cat::Punctuation, 0xf42e),
    ("NotSquareSuperset", Cat::Punctuation, 0xf42f),
    ("Equal", Cat::Punctuation, 0xf431),
    ("VerticalSeparator", Cat::Punctuation, 0xf432),
    ("VectorGreater", Cat::Punctuation, 0xf434),
    ("VectorGreaterEqual", Cat::Punctuation, 0xf435),
    ("VectorLess", Cat::Punctuation, 0xf436),
    ("VectorLessEqual", Cat::Punctuation, 0xf437),
    ("Limit", Cat::Punctuation, 0xf438),
    ("MaxLimit", Cat::Punctuation, 0xf439),
    ("MinLimit", Cat::Punctuation, 0xf43a),
    ("Cross", Cat::Punctuation, 0xf4a0),
    ("Function", Cat::Punctuation, 0xf4a1),
    ("Xnor", Cat::Punctuation, 0xf4a2),
    ("DiscreteShift", Cat::Punctuation, 0xf4a3),
    ("DifferenceDelta", Cat::Punctuation, 0xf4a4),
    ("DiscreteRatio", Cat::Punctuation, 0xf4a5),
    ("InlinePart", Cat::Unsupported, 0xf51e),
    ("RuleDelayed", Cat::Punctuation, 0xf51f),
    ("Square", Cat::Punctuation, 0xf520),
    ("Rule", Cat::Punctuation, 0xf522),
    ("Implies", Cat::Punctuation, 0xf523),
    ("ShortRightArrow", Cat::Punctuation, 0xf525),
    ("ShortLeftArrow", Cat::Punctuation, 0xf526),
    ("SelectionPlaceholder", Cat::Letterlike, 0xf527),
    ("Placeholder", Cat::Letterlike, 0xf528),
    ("ShortUpArrow", Cat::Punctuation, 0xf52a),
    ("ShortDownArrow", Cat::Punctuation, 0xf52b),
    ("Application", Cat::Punctuation, 0xf530),
    ("LeftBracketingBar", Cat::Punctuation, 0xf603),
    ("RightBracketingBar", Cat::Punctuation, 0xf604),
    ("LeftDoubleBracketingBar", Cat::Punctuation, 0xf605),
    ("RightDoubleBracketingBar", Cat::Punctuation, 0xf606),
    ("ScriptA", Cat::Letterlike, 0xf6b2),
    ("ScriptB", Cat::Letterlike, 0xf6b3),
    ("ScriptC", Cat::Letterlike, 0xf6b4),
    ("ScriptD", Cat::Letterlike, 0xf6b5),
    ("ScriptF", Cat::Letterlike, 0xf6b7),
    ("ScriptH", Cat::Letterlike, 0xf6b9),
    ("ScriptI", Cat::Letterlike, 0xf6ba),
    ("ScriptJ", Cat::Letterlike, 0xf6bb),
    ("ScriptK", Cat::Letterlike, 0xf6bc),
    ("ScriptM", Cat::Letterlike, 0xf6be),
    ("ScriptN", Cat::Letterlike, 0xf6bf),
    ("ScriptP", Cat::Letterlike, 0xf6c1),
    ("ScriptQ", Cat::Letterlike, 0xf6c2),
    ("ScriptR", Cat::Letterlike, 0xf6c3),
    ("ScriptS", Cat::Letterlike, 0xf6c4),
    ("ScriptT", Cat::Letterlike, 0xf6c5),
    ("ScriptU", Cat::Letterlike, 0xf6c6),
    ("ScriptV", Cat::Letterlike, 0xf6c7),
    ("ScriptW", Cat::Letterlike, 0xf6c8),
    ("ScriptX", Cat::Letterlike, 0xf6c9),
    ("ScriptY", Cat::Letterlike, 0xf6ca),
    ("ScriptZ", Cat::Letterlike, 0xf6cb),
    ("GothicA", Cat::Letterlike, 0xf6cc),
    ("GothicB", Cat::Letterlike, 0xf6cd),
    ("GothicC", Cat::Letterlike, 0xf6ce),
    ("GothicD", Cat::Letterlike, 0xf6cf),
    ("GothicE", Cat::Letterlike, 0xf6d0),
    ("GothicF", Cat::Letterlike, 0xf6d1),
    ("GothicG", Cat::Letterlike, 0xf6d2),
    ("GothicH", Cat::Letterlike, 0xf6d3),
    ("GothicI", Cat::Letterlike, 0xf6d4),
    ("GothicJ", Cat::Letterlike, 0xf6d5),
    ("GothicK", Cat::Letterlike, 0xf6d6),
    ("GothicL", Cat::Letterlike, 0xf6d7),
    ("GothicM", Cat::Letterlike, 0xf6d8),
    ("GothicN", Cat::Letterlike, 0xf6d9),
    ("GothicO", Cat::Letterlike, 0xf6da),
    ("GothicP", Cat::Letterlike, 0xf6db),
    ("GothicQ", Cat::Letterlike, 0xf6dc),
    ("GothicR", Cat::Letterlike, 0xf6dd),
    ("GothicS", Cat::Letterlike, 0xf6de),
    ("GothicT", Cat::Letterlike, 0xf6df),
    ("GothicU", Cat::Letterlike, 0xf6e0),
    ("GothicV", Cat::Letterlike, 0xf6e1),
    ("GothicW", Cat::Letterlike, 0xf6e2),
    ("GothicX", Cat::Letterlike, 0xf6e3),
    ("GothicY", Cat::Letterlike, 0xf6e4),
    ("GothicZ", Cat::Letterlike, 0xf6e5),
    ("DoubleStruckA", Cat::Letterlike, 0xf6e6),
    ("DoubleStruckB", Cat::Letterlike, 0xf6e7),
    ("DoubleStruckC", Cat::Letterlike, 0xf6e8),
    ("DoubleStruckD", Cat::Letterlike, 0xf6e9),
    ("DoubleStruckE", Cat::Letterlike, 0xf6ea),
    ("DoubleStruckF", Cat::Letterlike, 0xf6eb),
    ("DoubleStruckG", Cat::Letterlike, 0xf6ec),
    ("DoubleStruckH", Cat::Letterlike, 0xf6ed),
    ("DoubleStruckI", Cat::Letterlike, 0xf6ee),
    ("DoubleStruckJ", Cat::Letterlike, 0xf6ef),
    ("DoubleStruckK", Cat::Letterlike, 0xf6f0),
    ("DoubleStruckL", Cat::Letterlike, 0xf6f1),
    ("DoubleStruckM", Cat::Letterlike, 0xf6f2),
    ("DoubleStruckN", Cat::Letterlike, 0xf6f3),
    ("DoubleStruckO", Cat::Letterlike, 0xf6f4),
    ("DoubleStruckP", Cat::Letterlike, 0xf6f5),
    ("DoubleStruckQ", Cat::Letterlike, 0xf6f6),
    ("DoubleStruckR", Cat::Letterlike, 0xf6f7),
    ("DoubleStruckS", Cat::Letterlike, 0xf6f8),
    ("DoubleStruckT", Cat::Letterlike, 0xf6f9),
    ("DoubleStruckU", Cat::Letterlike, 0xf6fa),
    ("DoubleStruckV", Cat::Letterlike, 0xf6fb),
    ("DoubleStruckW", Cat::Letterlike, 0xf6fc),
    ("DoubleStruckX", Cat::Letterlike, 0xf6fd),
    ("DoubleStruckY", Cat::Letterlike, 0xf6fe),
    ("DoubleStruckZ", Cat::Letterlike, 0xf6ff),
    ("DotlessJ", Cat::Letterlike, 0xf700),
    ("Wolf", Cat::Letterlike, 0xf720),
    ("FreakedSmiley", Cat::Letterlike, 0xf721),
    ("NeutralSmiley", Cat::Letterlike, 0xf722),
    ("LightBulb", Cat::Letterlike, 0xf723),
    ("NumberSign", Cat::Letterlike, 0xf724),
    ("WarningSign", Cat::Letterlike, 0xf725),
    ("Villa", Cat::Letterlike, 0xf727),
    ("Akuz", Cat::Letterlike, 0xf728),
    ("Andy", Cat::Letterlike, 0xf729),
    ("Spooky", Cat::Letterlike, 0xf72a),
    ("ScriptDotlessI", Cat::Letterlike, 0xf730),
    ("ScriptDotlessJ", Cat::Letterlike, 0xf731),
    ("DoubledPi", Cat::Letterlike, 0xf749),
    ("DoubledGamma", Cat::Letterlike, 0xf74a),
    ("CapitalDifferentialD", Cat::Punctuation, 0xf74b),
    ("DifferentialD", Cat::Punctuation, 0xf74c),
    ("ExponentialE", Cat::Letterlike, 0xf74d),
    ("ImaginaryI", Cat::Letterlike, 0xf74e),
    ("ImaginaryJ", Cat::Letterlike, 0xf74f),
    ("FilledSmallCircle", Cat::Letterlike, 0xf750),
    ("DottedSquare", Cat::Letterlike, 0xf751),
    ("GraySquare", Cat::Letterlike, 0xf752),
    ("GrayCircle", Cat::Letterlike, 0xf753),
    ("LetterSpace", Cat::Letterlike, 0xf754),
    ("DownBreve", Cat::Letterlike, 0xf755),
    ("KernelIcon", Cat::Letterlike, 0xf756),
    ("MathematicaIcon", Cat::Letterlike, 0xf757),
    ("TripleDot", Cat::Letterlike, 0xf758),
    ("SystemEnterKey", Cat::Letterlike, 0xf75f),
    ("AlignmentMarker", Cat::Whitespace, 0xf760),
    ("LeftSkeleton", Cat::Uninterpretable, 0xf761),
    ("RightSkeleton", Cat::Uninterpretable, 0xf762),
    ("ControlKey", Cat::Letterlike, 0xf763),
    ("AliasDelimiter", Cat::Letterlike, 0xf764),
    ("InvisibleComma", Cat::Punctuation, 0xf765),
    ("ReturnKey", Cat::Letterlike, 0xf766),
    ("ErrorIndicator", Cat::Uninterpretable, 0xf767),
    ("AliasIndicator", Cat::Letterlike, 0xf768),
    ("EscapeKey", Cat::Letterlike, 0xf769),
    ("CommandKey", Cat::Letterlike, 0xf76a),
    ("LeftModified", Cat::Letterlike, 0xf76b),
    ("RightModified", Cat::Letterlike, 0xf76c),
    ("InvisibleApplication", Cat::Punctuation, 0xf76d),
    ("DiscretionaryLineSeparator", Cat::Newline, 0xf76e),
    ("DiscretionaryParagraphSeparator", Cat::Newline, 0xf76f),
    ("ScriptCapitalA", Cat::Letterlike, 0xf770),
    ("ScriptCapitalC", Cat::Letterlike, 0xf772),
    ("ScriptCapitalD", Cat::Letterlike, 0xf773),
    ("ScriptCapitalG", Cat::Letterlike, 0xf776),
    ("ScriptCapitalJ", Cat::Letterlike, 0xf779),
    ("ScriptCapitalK", Cat::Letterlike, 0xf77a),
    ("ScriptCapitalN", Cat::Letterlike, 0xf77d),
    ("ScriptCapitalO", Cat::Letterlike, 0xf77e),
    ("ScriptCapitalP", Cat::Letterlike, 0xf77f),
    ("ScriptCapitalQ", Cat::Letterlike, 0xf780),
    ("ScriptCapitalS", Cat::Letterlike, 0xf782),
    ("ScriptCapitalT", Cat::Letterlike, 0xf783),
    ("ScriptCapitalU", Cat::Letterlike, 0xf784),
    ("ScriptCapitalV", Cat::Letterlike, 0xf785),
    ("ScriptCapitalW", Cat::Letterlike, 0xf786),
    ("ScriptCapitalX", Cat::Letterlike, 0xf787),
    ("ScriptCapitalY", Cat::Letterlike, 0xf788),
    ("ScriptCapitalZ", Cat::Letterlike, 0xf789),
    ("GothicCapitalA", Cat::Letterlike, 0xf78a),
    ("GothicCapitalB", Cat::Letterlike, 0xf78b),
    ("GothicCapitalD", Cat::Letterlike, 0xf78d),
    ("GothicCapitalE", Cat::Letterlike, 0xf78e),
    ("GothicCapitalF", Cat::Letterlike, 0xf78f),
    ("GothicCapitalG", Cat::Letterlike, 0xf790),
    ("GothicCapitalJ", Cat::Letterlike, 0xf793),
    ("GothicCapitalK", Cat::Letterlike, 0xf794),
    ("GothicCapitalL", Cat::Letterlike, 0xf795),
    ("GothicCapitalM", Cat::Letterlike, 0xf796),
    ("GothicCapitalN", Cat::Letterlike, 0xf797),
    ("GothicCapitalO", Cat::Letterlike, 0xf798),
    ("GothicCapitalP", Cat::Letterlike, 0xf799),
    ("GothicCapitalQ", Cat::Letterlike, 0xf79a),
    ("GothicCapitalS", Cat::Letterlike, 0xf79c),
    ("GothicCapitalT", Cat::Letterlike, 0xf79d),
    ("GothicCapitalU", Cat::Letterlike, 0xf79e),
    ("GothicCapitalV", Cat::Letterlike, 0xf79f),
    ("GothicCapitalW", Cat::Letterlike, 0xf7a0),
    ("GothicCapitalX", Cat::Letterlike, 0xf7a1),
    ("GothicCapitalY", Cat::Letterlike, 0xf7a2),
    ("DoubleStruckCapitalA", Cat::Letterlike, 0xf7a4),
    ("DoubleStruckCapitalB", Cat::Letterlike, 0xf7a5),
    ("DoubleStruckCapitalC", Cat::Letterlike, 0xf7a6),
    ("DoubleStruckCapitalD", Cat::Letterlike, 0xf7a7),
    ("DoubleStruckCapitalE", Cat::Letterlike, 0xf7a8),
    ("DoubleStruckCapitalF", Cat::Letterlike, 0xf7a9),
    ("DoubleStruckCapitalG", Cat::Letterlike, 0xf7aa),
    ("DoubleStruckCapitalH", Cat::Letterlike, 0xf7ab),
    ("DoubleStruckCapitalI", Cat::Letterlike, 0xf7ac),
    ("DoubleStruckCapitalJ", Cat::Letterlike, 0xf7ad),
    ("DoubleStruckCapitalK", Cat::Letterlike, 0xf7ae),
    ("DoubleStruckCapitalL", Cat::Letterlike, 0xf7af),
    ("DoubleStruckCapitalM", Cat::Letterlike, 0xf7b0),
    ("DoubleStruckCapitalN", Cat::Letterlike, 0xf7b1),
    ("DoubleStruckCapitalO", Cat::Letterlike, 0xf7b2),
    ("DoubleStruckCapitalP", Cat::Letterlike, 0xf7b3),
    ("DoubleStruckCapitalQ", Cat::Letterlike, 0xf7b4),
    ("DoubleStruckCapitalR", Cat::Letterlike, 0xf7b5),
    ("DoubleStruckCapitalS", Cat::Letterlike, 0xf7b6),
    ("DoubleStruckCapitalT", Cat::Letterlike, 0xf7b7),
    ("DoubleStruckCapitalU", Cat::Letterlike, 0xf7b8),
    ("DoubleStruckCapitalV", Cat::Letterlike, 0xf7b9),
    ("DoubleStruckCapitalW", Cat::Letterlike, 0xf7ba),
    ("DoubleStruckCapitalX", Cat::Letterlike, 0xf7bb),
    ("DoubleStruckCapitalY", Cat::Letterlike, 0xf7bc),
    ("DoubleStruckCapitalZ", Cat::Letterlike, 0xf7bd),
    ("TabKey", Cat::Letterlike, 0xf7be),
    ("SpaceKey", Cat::Letterlike, 0xf7bf),
    ("DeleteKey", Cat::Letterlike, 0xf7d0),
    ("AltKey", Cat::Letterlike, 0xf7d1),
    ("OptionKey", Cat::Letterlike, 0xf7d2),
    ("KeyBar", Cat::Letterlike, 0xf7d3),
    ("EnterKey", Cat::Letterlike, 0xf7d4),
    ("ShiftKey", Cat::Letterlike, 0xf7d5),
    ("Mod1Key", Cat::Letterlike, 0xf7d6),
    ("Mod2Key", Cat::Letterlike, 0xf7d7),
    ("LongEqual", Cat::Punctuation, 0xf7d9),
    ("ConstantC", Cat::Letterlike, 0xf7da),
    ("DoubleStruckZero", Cat::Letterlike, 0xf7db),
    ("DoubleStruckOne", Cat::Letterlike, 0xf7dc),
    ("DoubleStruckTwo", Cat::Letterlike, 0xf7dd),
    ("DoubleStruckThree", Cat::Letterlike, 0xf7de),
    ("DoubleStruckFour", Cat::Letterlike, 0xf7df),
    ("DoubleStruckFive", Cat::Letterlike, 0xf7e0),
    ("DoubleStruckSix", Cat::Letterlike, 0xf7e1),
    ("DoubleStruckSeven", Cat::Letterlike, 0xf7e2),
    ("DoubleStruckEight", Cat::Letterlike, 0xf7e3),
    ("DoubleStruckNine", Cat::Letterlike, 0xf7e4),
    ("GothicZero", Cat::Letterlike, 0xf7e5),
    ("GothicOne", Cat::Letterlike, 0xf7e6),
    ("GothicTwo", Cat::Letterlike, 0xf7e7),
    ("GothicThree", Cat::Letterlike, 0xf7e8),
    ("GothicFour", Cat::Letterlike, 0xf7e9),
    ("GothicFive", Cat::Letterlike, 0xf7ea),
    ("GothicSix", Cat::Letterlike, 0xf7eb),
    ("GothicSeven", Cat::Letterlike, 0xf7ec),
    ("GothicEight", Cat::Letterlike, 0xf7ed),
    ("GothicNine", Cat::Letterlike, 0xf7ef),
    ("ScriptZero", Cat::Letterlike, 0xf7f0),
    ("ScriptOne", Cat::Letterlike, 0xf7f1),
    ("ScriptTwo", Cat::Letterlike, 0xf7f2),
    ("ScriptThree", Cat::Letterlike, 0xf7f3),
    ("ScriptFour", Cat::Letterlike, 0xf7f4),
    ("ScriptFive", Cat::Letterlike, 0xf7f5),
    ("ScriptSix", Cat::Letterlike, 0xf7f6),
    ("ScriptSeven", Cat::Letterlike, 0xf7f7),
    ("ScriptEight", Cat::Letterlike, 0xf7f8),
    ("ScriptNine", Cat::Letterlike, 0xf7f9),
    ("FirstPage", Cat::Letterlike, 0xf7fa),
    ("LastPage", Cat::Letterlike, 0xf7fb),
    ("NumberComma", Cat::Letterlike, 0xf7fc),
    ("FormalA", Cat::Letterlike, 0xf800),
    ("FormalB", Cat::Letterlike, 0xf801),
    ("FormalC", Cat::Letterlike, 0xf802),
    ("FormalD", Cat::Letterlike, 0xf803),
    ("FormalE", Cat::Letterlike, 0xf804),
    ("FormalF", Cat::Letterlike, 0xf805),
    ("FormalG", Cat::Letterlike, 0xf806),
    ("FormalH", Cat::Letterlike, 0xf807),
    ("FormalI", Cat::Letterlike, 0xf808),
    ("FormalJ", Cat::Letterlike, 0xf809),
    ("FormalK", Cat::Letterlike, 0xf80a),
    ("FormalL", Cat::Letterlike, 0xf80b),
    ("FormalM", Cat::Letterlike, 0xf80c),
    ("FormalN", Cat::Letterlike, 0xf80d),
    ("FormalO", Cat::Letterlike, 0xf80e),
    ("FormalP", Cat::Letterlike, 0xf80f),
    ("FormalQ", Cat::Letterlike, 0xf810),
    ("FormalR", Cat::Letterlike, 0xf811),
    ("FormalS", Cat::Letterlike, 0xf812),
    ("FormalT", Cat::Letterlike, 0xf813),
    ("FormalU", Cat::Letterlike, 0xf814),
    ("FormalV", Cat::Letterlike, 0xf815),
    ("FormalW", Cat::Letterlike, 0xf816),
    ("FormalX", Cat::Letterlike, 0xf817),
    ("FormalY", Cat::Letterlike, 0xf818),
    ("FormalZ", Cat::Letterlike, 0xf819),
    ("FormalCapitalA", Cat::Letterlike, 0xf81a),
    ("FormalCapitalB", Cat::Letterlike, 0xf81b),
    ("FormalCapitalC", Cat::Letterlike, 0xf81c),
    ("FormalCapitalD", Cat::Letterlike, 0xf81d),
    ("FormalCapitalE", Cat::Letterlike, 0xf81e),
    ("FormalCapitalF", Cat::Letterlike, 0xf81f),
    ("FormalCapitalG", Cat::Letterlike, 0xf820),
    ("FormalCapitalH", Cat::Letterlike, 0xf821),
    ("FormalCapitalI", Cat::Letterlike, 0xf822),
    ("FormalCapitalJ", Cat::Letterlike, 0xf823),
    ("FormalCapitalK", Cat::Letterlike, 0xf824),
    ("FormalCapitalL", Cat::Letterlike, 0xf825),
    ("FormalCapitalM", Cat::Letterlike, 0xf826),
    ("FormalCapitalN", Cat::Letterlike, 0xf827),
    ("FormalCapitalO", Cat::Letterlike, 0xf828),
    ("FormalCapitalP", Cat::Letterlike, 0xf829),
    ("FormalCapitalQ", Cat::Letterlike, 0xf82a),
    ("FormalCapitalR", Cat::Letterlike, 0xf82b),
    ("FormalCapitalS", Cat::Letterlike, 0xf82c),
    ("FormalCapitalT", Cat::Letterlike, 0xf82d),
    ("FormalCapitalU", Cat::Letterlike, 0xf82e),
    ("FormalCapitalV", Cat::Letterlike, 0xf82f),
    ("FormalCapitalW", Cat::Letterlike, 0xf830),
    ("FormalCapitalX", Cat::Letterlike, 0xf831),
    ("FormalCapitalY", Cat::Letterlike, 0xf832),
    ("FormalCapitalZ", Cat::Letterlike, 0xf833),
    ("FormalCapitalAlpha", Cat::Letterlike, 0xf834),
    ("FormalCapitalBeta", Cat::Letterlike, 0xf835),
    ("FormalCapitalGamma", Cat::Letterlike, 0xf836),
    ("FormalCapitalDelta", Cat::Letterlike, 0xf837),
    ("FormalCapitalEpsilon", Cat::Letterlike, 0xf838),
    ("FormalCapitalZeta", Cat::Letterlike, 0xf839),
    ("FormalCapitalEta", Cat::Letterlike, 0xf83a),
    ("FormalCapitalTheta", Cat::Letterlike, 0xf83b),
    ("FormalCapitalIota", Cat::Letterlike, 0xf83c),
    ("FormalCapitalKappa", Cat::Letterlike, 0xf83d),
    ("FormalCapitalLambda", Cat::Letterlike, 0xf83e),
    ("FormalCapitalMu", Cat::Letterlike, 0xf83f),
    ("FormalCapitalNu", Cat::Letterlike, 0xf840),
    ("FormalCapitalXi", Cat::Letterlike, 0xf841),
    ("FormalCapitalOmicron", Cat::Letterlike, 0xf842),
    ("FormalCapitalPi", Cat::Letterlike, 0xf843),
    ("FormalCapitalRho", Cat::Letterlike, 0xf844),
    ("FormalCapitalSigma", Cat::Letterlike, 0xf846),
    ("FormalCapitalTau", Cat::Letterlike, 0xf847),
    ("FormalCapitalUpsilon", Cat::Letterlike, 0xf848),
    ("FormalCapitalPhi", Cat::Letterlike, 0xf849),
    ("FormalCapitalChi", Cat::Letterlike, 0xf84a),
    ("FormalCapitalPsi", Cat::Letterlike, 0xf84b),
    ("FormalCapitalOmega", Cat::Letterlike, 0xf84c),
    ("FormalAlpha", Cat::Letterlike, 0xf854),
    ("FormalBeta", Cat::Letterlike, 0xf855),
    ("FormalGamma", Cat::Letterlike, 0xf856),
    ("FormalDelta", Cat::Letterlike, 0xf857),
    ("FormalCurlyEpsilon", Cat::Letterlike, 0xf858),
    ("FormalZeta", Cat::Letterlike, 0xf859),
    ("FormalEta", Cat::Letterlike, 0xf85a),
    ("FormalTheta", Cat::Letterlike, 0xf85b),
    ("FormalIota", Cat::Letterlike, 0xf85c),
    ("FormalKappa", Cat::Letterlike, 0xf85d),
    ("FormalLambda", Cat::Letterlike, 0xf85e),
    ("FormalMu", Cat::Letterlike, 0xf85f),
    ("FormalNu", Cat::Letterlike, 0xf860),
    ("FormalXi", Cat::Letterlike, 0xf861),
    ("FormalOmicron", Cat::Letterlike, 0xf862),
    ("FormalPi", Cat::Letterlike, 0xf863),
    ("FormalRho", Cat::Letterlike, 0xf864),
    ("FormalFinalSigma", Cat::Letterlike, 0xf865),
    ("FormalSigma", Cat::Letterlike, 0xf866),
    ("FormalTau", Cat::Letterlike, 0xf867),
    ("FormalUpsilon", Cat::Letterlike, 0xf868),
    ("FormalCurlyPhi", Cat::Letterlike, 0xf869),
    ("FormalChi", Cat::Letterlike, 0xf86a),
    ("FormalPsi", Cat::Letterlike, 0xf86b),
    ("FormalOmega", Cat::Letterlike, 0xf86c),
    ("FormalCurlyTheta", Cat::Letterlike, 0xf874),
    ("FormalCurlyCapitalUpsilon", Cat::Letterlike, 0xf875),
    ("FormalPhi", Cat::Letterlike, 0xf878),
    ("FormalCurlyPi", Cat::Letterlike, 0xf879),
    ("FormalCapitalStigma", Cat::Letterlike, 0xf87d),
    ("FormalStigma", Cat::Letterlike, 0xf87e),
    ("FormalCapitalDigamma", Cat::Letterlike, 0xf87f),
    ("FormalDigamma", Cat::Letterlike, 0xf880),
    ("FormalCapitalKoppa", Cat::Letterlike, 0xf881),
    ("FormalKoppa", Cat::Letterlike, 0xf882),
    ("FormalCapitalSampi", Cat::Letterlike, 0xf883),
    ("FormalSampi", Cat::Letterlike, 0xf884),
    ("FormalCurlyKappa", Cat::Letterlike, 0xf885),
    ("FormalCurlyRho", Cat::Letterlike, 0xf886),
    ("FormalEpsilon", Cat::Letterlike, 0xf88a),
    ("FiLigature", Cat::Letterlike, 0xfb01),
    ("FlLigature", Cat::Letterlike, 0xfb02),
    ("OverParenthesis", Cat::Letterlike, 0xfe35),
    ("UnderParenthesis", Cat::Letterlike, 0xfe36),
    ("OverBrace", Cat::Letterlike, 0xfe37),
    ("UnderBrace", Cat::Letterlike, 0xfe38),
    ("UnknownGlyph", Cat::Letterlike, 0xfffd),
    ("FormalScriptA", Cat::Letterlike, 0xfa000),
    ("FormalScriptB", Cat::Letterlike, 0xfa001),
    ("FormalScriptC", Cat::Letterlike, 0xfa002),
    ("FormalScriptD", Cat::Letterlike, 0xfa003),
    ("FormalScriptE", Cat::Letterlike, 0xfa004),
    ("FormalScriptF", Cat::Letterlike, 0xfa005),
    ("FormalScriptG", Cat::Letterlike, 0xfa006),
    ("FormalScriptH", Cat::Letterlike, 0xfa007),
    ("FormalScriptI", Cat::Letterlike, 0xfa008),
    ("FormalScriptJ", Cat::Letterlike, 0xfa009),
    ("FormalScriptK", Cat::Letterlike, 0xfa00a),
    ("FormalScriptL", Cat::Letterlike, 0xfa00b),
    ("FormalScriptM", Cat::Letterlike, 0xfa00c),
    ("FormalScriptN", Cat::Letterlike, 0xfa00d),
    ("FormalScriptO", Cat::Letterlike, 0xfa00e),
    ("FormalScriptP", Cat::Letterlike, 0xfa00f),
    ("FormalScriptQ", Cat::Letterlike, 0xfa010),
    ("FormalScriptR", Cat::Letterlike, 0xfa011),
    ("FormalScriptS", Cat::Letterlike, 0xfa012),
    ("FormalScriptT", Cat::Letterlike, 0xfa013),
    ("FormalScriptU", Cat::Letterlike, 0xfa014),
    ("FormalScriptV", Cat::Letterlike, 0xfa015),
    ("FormalScriptW", Cat::Letterlike, 0xfa016),
    ("FormalScriptX", Cat::Letterlike, 0xfa017),
    ("FormalScriptY", Cat::Letterlike, 0xfa018),
    ("FormalScriptZ", Cat::Letterlike, 0xfa019),
    ("FormalScriptCapitalA", Cat::Letterlike, 0xfa01a),
    ("FormalScriptCapitalB", Cat::Letterlike, 0xfa01b),
    ("FormalScriptCapitalC", Cat::Letterlike, 0xfa01c),
    ("FormalScriptCapitalD", Cat::Letterlike, 0xfa01d),
    ("FormalScriptCapitalE", Cat::Letterlike, 0xfa01e),
    ("FormalScriptCapitalF", Cat::Letterlike, 0xfa01f),
    ("FormalScriptCapitalG", Cat::Letterlike, 0xfa020),
    ("FormalScriptCapitalH", Cat::Letterlike, 0xfa021),
    ("FormalScriptCapitalI", Cat::Letterlike, 0xfa022),
    ("FormalScriptCapitalJ", Cat::Letterlike, 0xfa023),
    ("FormalScriptCapitalK", Cat::Letterlike, 0xfa024),
    ("FormalScriptCapitalL", Cat::Letterlike, 0xfa025),
    ("FormalScriptCapitalM", Cat::Letterlike, 0xfa026),
    ("FormalScriptCapitalN", Cat::Letterlike, 0xfa027),
    ("FormalScriptCapitalO", Cat::Letterlike, 0xfa028),
    ("FormalScriptCapitalP", Cat::Letterlike, 0xfa029),
    ("FormalScriptCapitalQ", Cat::Letterlike, 0xfa02a),
    ("FormalScriptCapitalR", Cat::Letterlike, 0xfa02b),
    ("FormalScriptCapitalS", Cat::Letterlike, 0xfa02c),
    ("FormalScriptCapitalT", Cat::Letterlike, 0xfa02d),
    ("FormalScriptCapitalU", Cat::Letterlike, 0xfa02e),
    ("FormalScriptCapitalV", Cat::Letterlike, 0xfa02f),
    ("FormalScriptCapitalW", Cat::Letterlike, 0xfa030),
    ("FormalScriptCapitalX", Cat::Letterlike, 0xfa031),
    ("FormalScriptCapitalY", Cat::Letterlike, 0xfa032),
    ("FormalScriptCapitalZ", Cat::Letterlike, 0xfa033),
];
pub static PUNCT: &[(u32, TokenKind)] = &[
    (0xac, TokenKind::LongName_Not),
    (0xb1, TokenKind::LongName_PlusMinus),
    (0xb7, TokenKind::LongName_CenterDot),
    (0xd7, TokenKind::LongName_Times),
    (0xf7, TokenKind::LongName_Divide),
    (0x2018, TokenKind::LongName_OpenCurlyQuote),
    (0x2019, TokenKind::LongName_CloseCurlyQuote),
    (0x201c, TokenKind::LongName_OpenCurlyDoubleQuote),
    (0x201d, TokenKind::LongName_CloseCurlyDoubleQuote),
    (0x2062, TokenKind::LongName_InvisibleTimes),
    (0x2190, TokenKind::LongName_LeftArrow),
    (0x2191, TokenKind::LongName_UpArrow),
    (0x2192, TokenKind::LongName_RightArrow),
    (0x2193, TokenKind::LongName_DownArrow),
    (0x2194, TokenKind::LongName_LeftRightArrow),
    (0x2195, TokenKind::LongName_UpDownArrow),
    (0x2196, TokenKind::LongName_UpperLeftArrow),
    (0x2197, TokenKind::LongName_UpperRightArrow),
    (0x2198, TokenKind::LongName_LowerRightArrow),
    (0x2199, TokenKind::LongName_LowerLeftArrow),
    (0x21a4, TokenKind::LongName_LeftTeeArrow),
    (0x21a5, TokenKind::LongName_UpTeeArrow),
    (0x21a6, TokenKind::LongName_RightTeeArrow),
    (0x21a7, TokenKind::LongName_DownTeeArrow),
    (0x21bc, TokenKind::LongName_LeftVector),
    (0x21bd, TokenKind::LongName_DownLeftVector),
    (0x21be, TokenKind::LongName_RightUpVector),
    (0x21bf, TokenKind::LongName_LeftUpVector),
    (0x21c0, TokenKind::LongName_RightVector),
    (0x21c1, TokenKind::LongName_DownRightVector),
    (0x21c2, TokenKind::LongName_RightDownVector),
    (0x21c3, TokenKind::LongName_LeftDownVector),
    (0x21c4, TokenKind::LongName_RightArrowLeftArrow),
    (0x21c5, TokenKind::LongName_UpArrowDownArrow),
    (0x21c6, TokenKind::LongName_LeftArrowRightArrow),
    (0x21cb, TokenKind::LongName_ReverseEquilibrium),
    (0x21cc, TokenKind::LongName_Equilibrium),
    (0x21d0, TokenKind::LongName_DoubleLeftArrow),
    (0x21d1, TokenKind::LongName_DoubleUpArrow),
    (0x21d2, TokenKind::LongName_DoubleRightArrow),
    (0x21d3, TokenKind::LongName_DoubleDownArrow),
    (0x21d4, TokenKind::LongName_DoubleLeftRightArrow),
    (0x21d5, TokenKind::LongName_DoubleUpDownArrow),
    (0x21e4, TokenKind::LongName_LeftArrowBar),
    (0x21e5, TokenKind::LongName_RightArrowBar),
    (0x21f5, TokenKind::LongName_DownArrowUpArrow),
    (0x2200, TokenKind::LongName_ForAll),
    (0x2202, TokenKind::LongName_PartialD),
    (0x2203, TokenKind::LongName_Exists),
    (0x2204, TokenKind::LongName_NotExists),
    (0x2207, TokenKind::LongName_Del),
    (0x2208, TokenKind::LongName_Element),
    (0x2209, TokenKind::LongName_NotElement),
    (0x220b, TokenKind::LongName_ReverseElement),
    (0x220c, TokenKind::LongName_NotReverseElement),
    (0x220d, TokenKind::LongName_SuchThat),
    (0x220f, TokenKind::LongName_Product),
    (0x2210, TokenKind::LongName_Coproduct),
    (0x2211, TokenKind::LongName_Sum),
    (0x2212, TokenKind::LongName_Minus),
    (0x2213, TokenKind::LongName_MinusPlus),
    (0x2215, TokenKind::LongName_DivisionSlash),
    (0x2216, TokenKind::LongName_Backslash),
    (0x2218, TokenKind::LongName_SmallCircle),
    (0x221a, TokenKind::LongName_Sqrt),
    (0x221b, TokenKind::LongName_CubeRoot),
    (0x221d, TokenKind::LongName_Proportional),
    (0x2223, TokenKind::LongName_Divides),
    (0x2225, TokenKind::LongName_DoubleVerticalBar),
    (0x2226, TokenKind::LongName_NotDoubleVerticalBar),
    (0x2227, TokenKind::LongName_And),
    (0x2228, TokenKind::LongName_Or),
    (0x222b, TokenKind::LongName_Integral),
    (0x222e, TokenKind::LongName_ContourIntegral),
    (0x222f, TokenKind::LongName_DoubleContourIntegral),
    (0x2232, TokenKind::LongName_ClockwiseContourIntegral),
    (0x2233, TokenKind::LongName_CounterClockwiseContourIntegral),
    (0x2234, TokenKind::LongName_Therefore),
    (0x2235, TokenKind::LongName_Because),
    (0x2236, TokenKind::LongName_Colon),
    (0x2237, TokenKind::LongName_Proportion),
    (0x223c, TokenKind::LongName_Tilde),
    (0x2240, TokenKind::LongName_VerticalTilde),
    (0x2241, TokenKind::LongName_NotTilde),
    (0x2242, TokenKind::LongName_EqualTilde),
    (0x2243, TokenKind::LongName_TildeEqual),
    (0x2244, TokenKind::LongName_NotTildeEqual),
    (0x2245, TokenKind::LongName_TildeFullEqual),
    (0x2247, TokenKind::LongName_NotTildeFullEqual),
    (0x2248, TokenKind::LongName_TildeTilde),
    (0x2249, TokenKind::LongName_NotTildeTilde),
    (0x224d, TokenKind::LongName_CupCap),
    (0x224e, TokenKind::LongName_HumpDownHump),
    (0x224f, TokenKind::LongName_HumpEqual),
    (0x2250, TokenKind::LongName_DotEqual),
    (0x2260, TokenKind::LongName_NotEqual),
    (0x2261, TokenKind::LongName_Congruent),
    (0x2262, TokenKind::LongName_NotCongruent),
    (0x2264, TokenKind::LongName_LessEqual),
    (0x2265, TokenKind::LongName_GreaterEqual),
    (0x2266, TokenKind::LongName_LessFullEqual),
    (0x2267, TokenKind::LongName_GreaterFullEqual),
    (0x2268, TokenKind::LongName_NotLessFullEqual),
    (0x2269, TokenKind::LongName_NotGreaterFullEqual),
    (0x226a, TokenKind::LongName_LessLess),
    (0x226b, TokenKind::LongName_GreaterGreater),
    (0x226d, TokenKind::LongName_NotCupCap),
    (0x226e, TokenKind::LongName_NotLess),
    (0x226f, TokenKind::LongName_NotGreater),
    (0x2270, TokenKind::LongName_NotLessEqual),
    (0x2271, TokenKind::LongName_NotGreaterEqual),
    (0x2272, TokenKind::LongName_LessTilde),
    (0x2273, TokenKind::LongName_GreaterTilde),
    (0x2274, TokenKind::LongName_NotLessTilde),
    (0x2275, TokenKind::LongName_NotGreaterTilde),
    (0x2276, TokenKind::LongName_LessGreater),
    (0x2277, TokenKind::LongName_GreaterLess),
    (0x2278, TokenKind::LongName_NotLessGreater),
    (0x2279, TokenKind::LongName_NotGreaterLess),
    (0x227a, TokenKind::LongName_Precedes),
    (0x227b, TokenKind::LongName_Succeeds),
    (0x227c, TokenKind::LongName_PrecedesSlantEqual),
    (0x227d, TokenKind::LongName_SucceedsSlantEqual),
    (0x227e, TokenKind::LongName_PrecedesTilde),
    (0x227f, TokenKind::LongName_SucceedsTilde),
    (0x2280, TokenKind::LongName_NotPrecedes),
    (0x2281, TokenKind::LongName_NotSucceeds),
    (0x2282, TokenKind::LongName_Subset),
    (0x2283, TokenKind::LongName_Superset),
    (0x2284, TokenKind::LongName_NotSubset),
    (0x2285, TokenKind::LongName_NotSuperset),
    (0x2286, TokenKind::LongName_SubsetEqual),
    (0x2287, TokenKind::LongName_SupersetEqual),
    (0x2288, TokenKind::LongName_NotSubsetEqual),
    (0x2289, TokenKind::LongName_NotSupersetEqual),
    (0x228e, TokenKind::LongName_UnionPlus),
    (0x228f, TokenKind::LongName_SquareSubset),
    (0x2290, TokenKind::LongName_SquareSuperset),
    (0x2291, TokenKind::LongName_SquareSubsetEqual),
    (0x2292, TokenKind::LongName_SquareSupersetEqual),
    (0x2293, TokenKind::LongName_SquareIntersection),
    (0x2294, TokenKind::LongName_SquareUnion),
    (0x2295, TokenKind::LongName_CirclePlus),
    (0x2296, TokenKind::LongName_CircleMinus),
    (0x2297, TokenKind::LongName_CircleTimes),
    (0x2299, TokenKind::LongName_CircleDot),
    (0x22a2, TokenKind::LongName_RightTee),
    (0x22a3, TokenKind::LongName_LeftTee),
    (0x22a4, TokenKind::LongName_DownTee),
    (0x22a5, TokenKind::LongName_UpTee),
    (0x22a8, TokenKind::LongName_DoubleRightTee),
    (0x22b2, TokenKind::LongName_LeftTriangle),
    (0x22b3, TokenKind::LongName_RightTriangle),
    (0x22b4, TokenKind::LongName_LeftTriangleEqual),
    (0x22b5, TokenKind::LongName_RightTriangleEqual),
    (0x22bb, TokenKind::LongName_Xor),
    (0x22bc, TokenKind::LongName_Nand),
    (0x22bd, TokenKind::LongName_Nor),
    (0x22c0, TokenKind::LongName_Wedge),
    (0x22c1, TokenKind::LongName_Vee),
    (0x22c2, TokenKind::LongName_Intersection),
    (0x22c3, TokenKind::LongName_Union),
    (0x22c4, TokenKind::LongName_Diamond),
    (0x22c6, TokenKind::LongName_Star),
    (0x22da, TokenKind::LongName_LessEqualGreater),
    (0x22db, TokenKind::LongName_GreaterEqualLess),
    (0x22e0, TokenKind::LongName_NotPrecedesSlantEqual),
    (0x22e1, TokenKind::LongName_NotSucceedsSlantEqual),
    (0x22e2, TokenKind::LongName_NotSquareSubsetEqual),
    (0x22e3, TokenKind::LongName_NotSquareSupersetEqual),
    (0x22e8, TokenKind::LongName_NotPrecedesTilde),
    (0x22e9, TokenKind::LongName_NotSucceedsTilde),
    (0x22ea, TokenKind::LongName_NotLeftTriangle),
    (0x22eb, TokenKind::LongName_NotRightTriangle),
    (0x22ec, TokenKind::LongName_NotLeftTriangleEqual),
    (0x22ed, TokenKind::LongName_NotRightTriangleEqual),
    (0x2308, TokenKind::LongName_LeftCeiling),
    (0x2309, TokenKind::LongName_RightCeiling),
    (0x230a, TokenKind::LongName_LeftFloor),
    (0x230b, TokenKind::LongName_RightFloor),
    (0x2322, TokenKind::LongName_Cap),
    (0x2323, TokenKind::LongName_Cup),
    (0x2329, TokenKind::LongName_LeftAngleBracket),
    (0x232a, TokenKind::LongName_RightAngleBracket),
    (0x27c2, TokenKind::LongName_Perpendicular),
    (0x27f5, TokenKind::LongName_LongLeftArrow),
    (0x27f6, TokenKind::LongName_LongRightArrow),
    (0x27f7, TokenKind::LongName_LongLeftRightArrow),
    (0x27f8, TokenKind::LongName_DoubleLongLeftArrow),
    (0x27f9, TokenKind::LongName_DoubleLongRightArrow),
    (0x27fa, TokenKind::LongName_DoubleLongLeftRightArrow),
    (0x2912, TokenKind::LongName_UpArrowBar),
    (0x2913, TokenKind::LongName_DownArrowBar),
    (0x294e, TokenKind::LongName_LeftRightVector),
    (0x294f, TokenKind::LongName_RightUpDownVector),
    (0x2950, TokenKind::LongName_DownLeftRightVector),
    (0x2951, TokenKind::LongName_LeftUpDownVector),
    (0x2952, TokenKind::LongName_LeftVectorBar),
    (0x2953, TokenKind::LongName_RightVectorBar),
    (0x2954, TokenKind::LongName_RightUpVectorBar),
    (0x2955, TokenKind::LongName_RightDownVectorBar),
    (0x2956, TokenKind::LongName_DownLeftVectorBar),
    (0x2957, TokenKind::LongName_DownRightVectorBar),
    (0x2958, TokenKind::LongName_LeftUpVectorBar),
    (0x2959, TokenKind::LongName_LeftDownVectorBar),
    (0x295a, TokenKind::LongName_LeftTeeVector),
    (0x295b, TokenKind::LongName_RightTeeVector),
    (0x295c, TokenKind::LongName_RightUpTeeVector),
    (0x295d, TokenKind::LongName_RightDownTeeVector),
    (0x295e, TokenKind::LongName_DownLeftTeeVector),
    (0x295f, TokenKind::LongName_DownRightTeeVector),
    (0x2960, TokenKind::LongName_LeftUpTeeVector),
    (0x2961, TokenKind::LongName_LeftDownTeeVector),
    (0x296e, TokenKind::LongName_UpEquilibrium),
    (0x296f, TokenKind::LongName_ReverseUpEquilibrium),
    (0x2970, TokenKind::LongName_RoundImplies),
    (0x29cf, TokenKind::LongName_LeftTriangleBar),
    (0x29d0, TokenKind::LongName_RightTriangleBar),
    (0x29e6, TokenKind::LongName_Equivalent),
    (0x2a7d, TokenKind::LongName_LessSlantEqual),
    (0x2a7e, TokenKind::LongName_GreaterSlantEqual),
    (0x2aa1, TokenKind::LongName_NestedLessLess),
    (0x2aa2, TokenKind::LongName_NestedGreaterGreater),
    (0x2aaf, TokenKind::LongName_PrecedesEqual),
    (0x2ab0, TokenKind::LongName_SucceedsEqual),
    (0x2ae4, TokenKind::LongName_DoubleLeftTee),
    (0x301a, TokenKind::LongName_LeftDoubleBracket),
    (0x301b, TokenKind::LongName_RightDoubleBracket),
    (0xf113, TokenKind::LongName_LeftAssociation),
    (0xf114, TokenKind::LongName_RightAssociation),
    (0xf120, TokenKind::LongName_TwoWayRule),
    (0xf361, TokenKind::LongName_Piecewise),
    (0xf39e, TokenKind::LongName_ImplicitPlus),
    (0xf3a8, TokenKind::LongName_AutoLeftMatch),
    (0xf3a9, TokenKind::LongName_AutoRightMatch),
    (0xf3b3, TokenKind::LongName_InvisiblePrefixScriptBase),
    (0xf3b4, TokenKind::LongName_InvisiblePostfixScriptBase),
    (0xf3c7, TokenKind::LongName_Transpose),
    (0xf3c8, TokenKind::LongName_Conjugate),
    (0xf3c9, TokenKind::LongName_ConjugateTranspose),
    (0xf3ce, TokenKind::LongName_HermitianConjugate),
    (0xf3d0, TokenKind::LongName_VerticalBar),
    (0xf3d1, TokenKind::LongName_NotVerticalBar),
    (0xf3d2, TokenKind::LongName_Distributed),
    (0xf3d3, TokenKind::LongName_Conditioned),
    (0xf3d4, TokenKind::LongName_UndirectedEdge),
    (0xf3d5, TokenKind::LongName_DirectedEdge),
    (0xf3d9, TokenKind::LongName_ContinuedFractionK),
    (0xf3da, TokenKind::LongName_TensorProduct),
    (0xf3db, TokenKind::LongName_TensorWedge),
    (0xf3dc, TokenKind::LongName_ProbabilityPr),
    (0xf3dd, TokenKind::LongName_ExpectationE),
    (0xf3de, TokenKind::LongName_PermutationProduct),
    (0xf400, TokenKind::LongName_NotEqualTilde),
    (0xf401, TokenKind::LongName_NotHumpEqual),
    (0xf402, TokenKind::LongName_NotHumpDownHump),
    (0xf412, TokenKind::LongName_NotLeftTriangleBar),
    (0xf413, TokenKind::LongName_NotRightTriangleBar),
    (0xf422, TokenKind::LongName_NotLessLess),
    (0xf423, TokenKind::LongName_NotNestedLessLess),
    (0xf424, TokenKind::LongName_NotLessSlantEqual),
    (0xf427, TokenKind::LongName_NotGreaterGreater),
    (0xf428, TokenKind::LongName_NotNestedGreaterGreater),
    (0xf429, TokenKind::LongName_NotGreaterSlantEqual),
    (0xf42b, TokenKind::LongName_NotPrecedesEqual),
    (0xf42d, TokenKind::LongName_NotSucceedsEqual),
    (0xf42e, TokenKind::LongName_NotSquareSubset),
    (0xf42f, TokenKind::LongName_NotSquareSuperset),
    (0xf431, TokenKind::LongName_Equal),
    (0xf432, TokenKind::LongName_VerticalSeparator),
    (0xf434, TokenKind::LongName_VectorGreater),
    (0xf435, TokenKind::LongName_VectorGreaterEqual),
    (0xf436, TokenKind::LongName_VectorLess),
    (0xf437, TokenKind::LongName_VectorLessEqual),
    (0xf438, TokenKind::LongName_Limit),
    (0xf439, TokenKind::LongName_MaxLimit),
    (0xf43a, TokenKind::LongName_MinLimit),
    (0xf4a0, TokenKind::LongName_Cross),
    (0xf4a1, TokenKind::LongName_Function),
    (0xf4a2, TokenKind::LongName_Xnor),
    (0xf4a3, TokenKind::LongName_DiscreteShift),
    (0xf4a4, TokenKind::LongName_DifferenceDelta),
    (0xf4a5, TokenKind::LongName_DiscreteRatio),
    (0xf51f, TokenKind::LongName_RuleDelayed),
    (0xf520, TokenKind::LongName_Square),
    (0xf522, TokenKind::LongName_Rule),
    (0xf523, TokenKind::LongName_Implies),
    (0xf525, TokenKind::LongName_ShortRightArrow),
    (0xf526, TokenKind::LongName_ShortLeftArrow),
    (0xf52a, TokenKind::LongName_ShortUpArrow),
    (0xf52b, TokenKind::LongName_ShortDownArrow),
    (0xf530, TokenKind::LongName_Application),
    (0xf603, TokenKind::LongName_LeftBracketingBar),
    (0xf604, TokenKind::LongName_RightBracketingBar),
    (0xf605, TokenKind::LongName_LeftDoubleBracketingBar),
    (0xf606, TokenKind::LongName_RightDoubleBracketingBar),
    (0xf74b, TokenKind::LongName_CapitalDifferentialD),
    (0xf74c, TokenKind::LongName_DifferentialD),
    (0xf765, TokenKind::LongName_InvisibleComma),
    (0xf76d, TokenKind::LongName_InvisibleApplication),
    (0xf7d9, TokenKind::LongName_LongEqual),
];
#[derive(Clone,Copy,PartialEq,Debug)] pub enum Px { Leaf, Error, Eof, Closer, Op(u32,bool,&'static str), Comma, Unsupported, Group(&'static str), Special(&'static str), IntegralLike(u32,bool,&'static str,&'static str) }
#[derive(Clone,Copy,PartialEq,Debug)] pub enum Ix { No, Newline, DifferentialD, Bin(u32,bool,&'static str), Infix(u32,bool,&'static str), Post(u32,bool,&'static str), Times, Call(&'static str), Special(&'static str) }
pub static PREFIX: &[(TokenKind, Px)] = &[
    (TokenKind::String, Px::Leaf),
    (TokenKind::Integer, Px::Leaf),
    (TokenKind::Real, Px::Leaf),
    (TokenKind::Rational, Px::Leaf),
    (TokenKind::LinearSyntaxBlob, Px::Leaf),
    (TokenKind::Unknown, Px::Error),
    (TokenKind::Whitespace, Px::Error),
    (TokenKind::InternalNewline, Px::Error),
    (TokenKind::Comment, Px::Error),
    (TokenKind::EndOfFile, Px::Eof),
    (TokenKind::Error_ExpectedEqual, Px::Error),
    (TokenKind::Error_Number, Px::Error),
    (TokenKind::Error_UnhandledCharacter, Px::Error),
    (TokenKind::Error_ExpectedLetterlike, Px::Error),
    (TokenKind::Error_Aborted, Px::Error),
    (TokenKind::Error_ExpectedOperand, Px::Error),
    (TokenKind::Error_ExpectedTag, Px::Error),
    (TokenKind::Error_ExpectedFile, Px::Error),
    (TokenKind::Error_UnterminatedComment, Px::Error),
    (TokenKind::Error_UnterminatedString, Px::Error),
    (TokenKind::Error_UnterminatedFileString, Px::Error),
    (TokenKind::Error_UnterminatedLinearSyntaxBlob, Px::Error),
    (TokenKind::Error_UnsupportedToken, Px::Error),
    (TokenKind::Error_UnexpectedCloser, Px::Error),
    (TokenKind::Error_UnsafeCharacterEncoding, Px::Error),
    (TokenKind::Error_UnexpectedCommentCloser, Px::Error),
    (TokenKind::BarGreater, Px::Closer),
    (TokenKind::CloseCurly, Px::Closer),
    (TokenKind::CloseParen, Px::Closer),
    (TokenKind::CloseSquare, Px::Closer),
    (TokenKind::LongName_CloseCurlyDoubleQuote, Px::Closer),
    (TokenKind::LongName_CloseCurlyQuote, Px::Closer),
    (TokenKind::LongName_RightAngleBracket, Px::Closer),
    (TokenKind::LongName_RightAssociation, Px::Closer),
    (TokenKind::LongName_RightBracketingBar, Px::Closer),
    (TokenKind::LongName_RightCeiling, Px::Closer),
    (TokenKind::LongName_RightDoubleBracket, Px::Closer),
    (TokenKind::LongName_RightDoubleBracketingBar, Px::Closer),
    (TokenKind::LongName_RightFloor, Px::Closer),
    (TokenKind::Minus, Px::Op(62, false, "Minus")),
    (TokenKind::Plus, Px::Op(62, false, "Plus")),
    (TokenKind::Bang, Px::Op(32, false, "Not")),
    (TokenKind::PlusPlus, Px::Op(86, false, "PreIncrement")),
    (TokenKind::MinusMinus, Px::Op(86, false, "PreDecrement")),
    (TokenKind::BangBang, Px::Op(32, false, "CodeParser_PrefixNot2")),
    (TokenKind::LongName_PlusMinus, Px::Op(62, false, "PlusMinus")),
    (TokenKind::LongName_Sum, Px::Op(45, false, "Sum")),
    (TokenKind::LongName_Not, Px::Op(32, false, "Not")),
    (TokenKind::LongName_Sqrt, Px::Op(73, false, "Sqrt")),
    (TokenKind::LongName_MinusPlus, Px::Op(62, false, "MinusPlus")),
    (TokenKind::LongName_DifferentialD, Px::Op(72, false, "DifferentialD")),
    (TokenKind::LongName_CapitalDifferentialD, Px::Op(72, false, "CapitalDifferentialD")),
    (TokenKind::LongName_Minus, Px::Op(62, false, "Minus")),
    (TokenKind::LongName_Del, Px::Op(70, false, "Del")),
    (TokenKind::LongName_Square, Px::Op(69, false, "Square")),
    (TokenKind::Comma, Px::Comma),
    (TokenKind::LongName_InvisibleComma, Px::Comma),
    (TokenKind::LongName_Product, Px::Op(52, false, "Product")),
    (TokenKind::LongName_ContinuedFractionK, Px::Op(52, false, "ContinuedFractionK")),
    (TokenKind::LongName_CircleTimes, Px::Op(62, false, "CircleTimes")),
    (TokenKind::LongName_ForAll, Px::Op(33, false, "ForAll")),
    (TokenKind::LongName_Exists, Px::Op(33, false, "Exists")),
    (TokenKind::LongName_NotExists, Px::Op(33, false, "NotExists")),
    (TokenKind::LongName_Coproduct, Px::Op(62, false, "Coproduct")),
    (TokenKind::LongName_Piecewise, Px::Op(71, false, "Piecewise")),
    (TokenKind::LongName_InvisiblePrefixScriptBase, Px::Op(93, false, "InvisiblePrefixScriptBase")),
    (TokenKind::LongName_ExpectationE, Px::Op(46, false, "ExpectationE")),
    (TokenKind::LongName_CubeRoot, Px::Op(73, false, "CubeRoot")),
    (TokenKind::LongName_ProbabilityPr, Px::Op(46, false, "ProbabilityPr")),
    (TokenKind::LinearSyntax_Bang, Px::Op(90, false, "CodeParser_PrefixLinearSyntaxBang")),
    (TokenKind::LinearSyntax_At, Px::Unsupported),
    (TokenKind::LinearSyntax_Amp, Px::Unsupported),
    (TokenKind::LinearSyntax_Star, Px::Unsupported),
    (TokenKind::LinearSyntax_Under, Px::Unsupported),
    (TokenKind::LinearSyntax_Caret, Px::Unsupported),
    (TokenKind::LinearSyntax_Space, Px::Unsupported),
    (TokenKind::LinearSyntax_Percent, Px::Unsupported),
    (TokenKind::LinearSyntax_Plus, Px::Unsupported),
    (TokenKind::LinearSyntax_Slash, Px::Unsupported),
    (TokenKind::LinearSyntax_BackTick, Px::Unsupported),
    (TokenKind::LinearSyntax_CloseParen, Px::Unsupported),
    (TokenKind::OpenParen, Px::Group("CodeParser_GroupParen")),
    (TokenKind::OpenSquare, Px::Group("CodeParser_GroupSquare")),
    (TokenKind::OpenCurly, Px::Group("List")),
    (TokenKind::LessBar, Px::Group("Association")),
    (TokenKind::ColonColonOpenSquare, Px::Group("CodeParser_GroupTypeSpecifier")),
    (TokenKind::LongName_LeftAngleBracket, Px::Group("AngleBracket")),
    (TokenKind::LongName_LeftCeiling, Px::Group("Ceiling")),
    (TokenKind::LongName_LeftFloor, Px::Group("Floor")),
    (TokenKind::LongName_LeftDoubleBracket, Px::Group("CodeParser_GroupDoubleBracket")),
    (TokenKind::LongName_LeftBracketingBar, Px::Group("BracketingBar")),
    (TokenKind::LongName_LeftDoubleBracketingBar, Px::Group("DoubleBracketingBar")),
    (TokenKind::LongName_LeftAssociation, Px::Group("Association")),
    (TokenKind::LongName_OpenCurlyQuote, Px::Group("CurlyQuote")),
    (TokenKind::LongName_OpenCurlyDoubleQuote, Px::Group("CurlyDoubleQuote")),
    (TokenKind::Symbol, Px::Special("Symbol")),
    (TokenKind::Under, Px::Special("Under:1")),
    (TokenKind::UnderUnder, Px::Special("Under:2")),
    (TokenKind::UnderUnderUnder, Px::Special("Under:3")),
    (TokenKind::UnderDot, Px::Special("UnderDot")),
    (TokenKind::Hash, Px::Special("Hash")),
    (TokenKind::HashHash, Px::Special("HashHash")),
    (TokenKind::Percent, Px::Special("Percent")),
    (TokenKind::PercentPercent, Px::Leaf),
    (TokenKind::SemiSemi, Px::Special("SemiSemi")),
    (TokenKind::LongName_Integral, Px::Special("Integral")),
    (TokenKind::LongName_ContourIntegral, Px::Special("Integral")),
    (TokenKind::LongName_DoubleContourIntegral, Px::Special("Integral")),
    (TokenKind::LongName_ClockwiseContourIntegral, Px::Special("Integral")),
    (TokenKind::LongName_CounterClockwiseContourIntegral, Px::Special("Integral")),
    (TokenKind::LessLess, Px::Special("LessLess")),
    (TokenKind::QuestionQuestion, Px::Unsupported),
    (TokenKind::LongName_Limit, Px::Unsupported),
    (TokenKind::LongName_MaxLimit, Px::Unsupported),
    (TokenKind::LongName_MinLimit, Px::Unsupported),
    (TokenKind::LongName_AutoLeftMatch, Px::Unsupported),
    (TokenKind::LongName_AutoRightMatch, Px::Unsupported),
    (TokenKind::LongName_DiscreteShift, Px::Unsupported),
    (TokenKind::LongName_DifferenceDelta, Px::Unsupported),
    (TokenKind::LongName_DiscreteRatio, Px::Unsupported),
    (TokenKind::LongName_PartialD, Px::Unsupported),
];
pub static INFIX: &[(TokenKind, Ix)] = &[
    (TokenKind::Unknown, Ix::No),
    (TokenKind::Whitespace, Ix::No),
    (TokenKind::InternalNewline, Ix::No),
    (TokenKind::Comment, Ix::No),
    (TokenKind::EndOfFile, Ix::No),
    (TokenKind::ToplevelNewline, Ix::Newline),
    (TokenKind::Error_ExpectedEqual, Ix::No),
    (TokenKind::Error_Number, Ix::No),
    (TokenKind::Error_UnhandledCharacter, Ix::No),
    (TokenKind::Error_ExpectedLetterlike, Ix::No),
    (TokenKind::Error_Aborted, Ix::No),
    (TokenKind::Error_ExpectedOperand, Ix::No),
    (TokenKind::Error_ExpectedTag, Ix::No),
    (TokenKind::Error_ExpectedFile, Ix::No),
    (TokenKind::Error_UnterminatedComment, Ix::No),
    (TokenKind::Error_UnterminatedString, Ix::No),
    (TokenKind::Error_UnterminatedFileString, Ix::No),
    (TokenKind::Error_UnterminatedLinearSyntaxBlob, Ix::No),
    (TokenKind::Error_UnsupportedToken, Ix::No),
    (TokenKind::Error_UnexpectedCloser, Ix::No),
    (TokenKind::Error_UnsafeCharacterEncoding, Ix::No),
    (TokenKind::Error_UnexpectedCommentCloser, Ix::No),
    (TokenKind::BarGreater, Ix::No),
    (TokenKind::CloseCurly, Ix::No),
    (TokenKind::CloseParen, Ix::No),
    (TokenKind::CloseSquare, Ix::No),
    (TokenKind::LongName_CloseCurlyDoubleQuote, Ix::No),
    (TokenKind::LongName_CloseCurlyQuote, Ix::No),
    (TokenKind::LongName_RightAngleBracket, Ix::No),
    (TokenKind::LongName_RightAssociation, Ix::No),
    (TokenKind::LongName_RightBracketingBar, Ix::No),
    (TokenKind::LongName_RightCeiling, Ix::No),
    (TokenKind::LongName_RightDoubleBracket, Ix::No),
    (TokenKind::LongName_RightDoubleBracketingBar, Ix::No),
    (TokenKind::LongName_RightFloor, Ix::No),
    (TokenKind::LongName_DifferentialD, Ix::DifferentialD),
    (TokenKind::LongName_CapitalDifferentialD, Ix::DifferentialD),
    (TokenKind::Slash, Ix::Bin(61, false, "Divide")),
    (TokenKind::Caret, Ix::Bin(75, true, "Power")),
    (TokenKind::CaretEqual, Ix::Bin(4, true, "UpSet")),
    (TokenKind::CaretColonEqual, Ix::Bin(4, true, "UpSetDelayed")),
    (TokenKind::SlashAt, Ix::Bin(80, true, "Map")),
    (TokenKind::MinusGreater, Ix::Bin(15, true, "Rule")),
    (TokenKind::AtAt, Ix::Bin(80, true, "Apply")),
    (TokenKind::SlashSemi, Ix::Bin(17, false, "Condition")),
    (TokenKind::SlashDot, Ix::Bin(14, false, "ReplaceAll")),
    (TokenKind::ColonGreater, Ix::Bin(15, true, "RuleDelayed")),
    (TokenKind::SlashSlashDot, Ix::Bin(14, false, "ReplaceRepeated")),
    (TokenKind::PlusEqual, Ix::Bin(13, true, "AddTo")),
    (TokenKind::StarEqual, Ix::Bin(13, true, "TimesBy")),
    (TokenKind::MinusEqual, Ix::Bin(13, true, "SubtractFrom")),
    (TokenKind::SlashEqual, Ix::Bin(13, true, "DivideBy")),
    (TokenKind::LessMinusGreater, Ix::Bin(16, true, "TwoWayRule")),
    (TokenKind::SlashSlashAt, Ix::Bin(80, true, "MapAll")),
    (TokenKind::At, Ix::Bin(82, true, "CodeParser_BinaryAt")),
    (TokenKind::AtAtAt, Ix::Bin(80, true, "MapApply")),
    (TokenKind::SlashSlash, Ix::Bin(9, false, "CodeParser_BinarySlashSlash")),
    (TokenKind::Question, Ix::Bin(89, false, "PatternTest")),
    (TokenKind::BarMinusGreater, Ix::Bin(4, true, "Function")),
    (TokenKind::SlashSlashEqual, Ix::Bin(10, true, "ApplyTo")),
    (TokenKind::LongName_Divide, Ix::Bin(61, false, "Divide")),
    (TokenKind::LongName_DivisionSlash, Ix::Bin(61, false, "Divide")),
    (TokenKind::LongName_Implies, Ix::Bin(27, true, "Implies")),
    (TokenKind::LongName_RoundImplies, Ix::Bin(27, true, "RoundImplies")),
    (TokenKind::LongName_PlusMinus, Ix::Bin(43, false, "PlusMinus")),
    (TokenKind::LongName_DirectedEdge, Ix::Bin(39, true, "DirectedEdge")),
    (TokenKind::LongName_Rule, Ix::Bin(15, true, "Rule")),
    (TokenKind::LongName_RuleDelayed, Ix::Bin(15, true, "RuleDelayed")),
    (TokenKind::LongName_UndirectedEdge, Ix::Bin(39, true, "UndirectedEdge")),
    (TokenKind::LongName_Function, Ix::Bin(4, true, "Function")),
    (TokenKind::LongName_MinusPlus, Ix::Bin(43, false, "MinusPlus")),
    (TokenKind::LongName_TwoWayRule, Ix::Bin(16, true, "TwoWayRule")),
    (TokenKind::LongName_InvisibleApplication, Ix::Bin(82, true, "CodeParser_BinaryAt")),
    (TokenKind::LongName_CircleMinus, Ix::Bin(47, false, "CircleMinus")),
    (TokenKind::LongName_SuchThat, Ix::Bin(23, true, "SuchThat")),
    (TokenKind::LongName_Perpendicular, Ix::Bin(24, false, "Perpendicular")),
    (TokenKind::LongName_Because, Ix::Bin(6, false, "Because")),
    (TokenKind::LongName_Therefore, Ix::Bin(7, true, "Therefore")),
    (TokenKind::LongName_RightTee, Ix::Bin(25, true, "RightTee")),
    (TokenKind::LongName_LeftTee, Ix::Bin(24, false, "LeftTee")),
    (TokenKind::LongName_DoubleRightTee, Ix::Bin(25, true, "DoubleRightTee")),
    (TokenKind::LongName_DoubleLeftTee, Ix::Bin(24, false, "DoubleLeftTee")),
    (TokenKind::LongName_UpTee, Ix::Bin(24, false, "UpTee")),
    (TokenKind::LongName_DownTee, Ix::Bin(24, false, "DownTee")),
    (TokenKind::LongName_Application, Ix::Bin(83, false, "Application")),
    (TokenKind::Minus, Ix::Infix(43, false, "Plus")),
    (TokenKind::EqualEqualEqual, Ix::Infix(35, false, "SameQ")),
    (TokenKind::EqualBangEqual, Ix::Infix(35, false, "UnsameQ")),
    (TokenKind::Plus, Ix::Infix(43, false, "Plus")),
    (TokenKind::Dot, Ix::Infix(63, false, "Dot")),
    (TokenKind::StarStar, Ix::Infix(66, false, "NonCommutativeMultiply")),
    (TokenKind::AmpAmp, Ix::Infix(31, false, "And")),
    (TokenKind::BarBar, Ix::Infix(29, false, "Or")),
    (TokenKind::Bar, Ix::Infix(21, false, "Alternatives")),
    (TokenKind::LessGreater, Ix::Infix(76, false, "StringJoin")),
    (TokenKind::TildeTilde, Ix::Infix(18, false, "StringExpression")),
    (TokenKind::AtStar, Ix::Infix(85, false, "Composition")),
    (TokenKind::SlashStar, Ix::Infix(84, false, "RightComposition")),
    (TokenKind::Star, Ix::Times),
    (TokenKind::LongName_Times, Ix::Times),
    (TokenKind::LongName_InvisibleTimes, Ix::Times),
    (TokenKind::Fake_ImplicitTimes, Ix::Times),
    (TokenKind::LongName_Element, Ix::Infix(34, false, "Element")),
    (TokenKind::LongName_Subset, Ix::Infix(34, false, "Subset")),
    (TokenKind::LongName_Superset, Ix::Infix(34, false, "Superset")),
    (TokenKind::LongName_SubsetEqual, Ix::Infix(34, false, "SubsetEqual")),
    (TokenKind::LongName_SupersetEqual, Ix::Infix(34, false, "SupersetEqual")),
    (TokenKind::LongName_NotElement, Ix::Infix(34, false, "NotElement")),
    (TokenKind::LongName_NotSubset, Ix::Infix(34, false, "NotSubset")),
    (TokenKind::LongName_NotSuperset, Ix::Infix(34, false, "NotSuperset")),
    (TokenKind::LongName_NotSubsetEqual, Ix::Infix(34, false, "NotSubsetEqual")),
    (TokenKind::LongName_NotSupersetEqual, Ix::Infix(34, false, "NotSupersetEqual")),
    (TokenKind::LongName_SquareSubset, Ix::Infix(34, false, "SquareSubset")),
    (TokenKind::LongName_SquareSuperset, Ix::Infix(34, false, "SquareSuperset")),
    (TokenKind::LongName_NotSquareSubset, Ix::Infix(34, false, "NotSquareSubset")),
    (TokenKind::LongName_NotSquareSuperset, Ix::Infix(34, false, "NotSquareSuperset")),
    (TokenKind::LongName_SquareSubsetEqual, Ix::Infix(34, false, "SquareSubsetEqual")),
    (TokenKind::LongName_SquareSupersetEqual, Ix::Infix(34, false, "SquareSupersetEqual")),
    (TokenKind::LongName_NotSquareSubsetEqual, Ix::Infix(34, false, "NotSquareSubsetEqual")),
    (TokenKind::LongName_NotSquareSupersetEqual, Ix::Infix(34, false, "NotSquareSupersetEqual")),
    (TokenKind::LongName_ReverseElement, Ix::Infix(34, false, "ReverseElement")),
    (TokenKind::LongName_NotReverseElement, Ix::Infix(34, false, "NotReverseElement")),
    (TokenKind::LongName_Distributed, Ix::Infix(34, false, "Distributed")),
    (TokenKind::LongName_ImplicitPlus, Ix::Infix(44, false, "Plus")),
    (TokenKind::LongName_And, Ix::Infix(31, false, "And")),
    (TokenKind::LongName_Or, Ix::Infix(29, false, "Or")),
    (TokenKind::LongName_Xor, Ix::Infix(30, false, "Xor")),
    (TokenKind::LongName_Nand, Ix::Infix(31, false, "Nand")),
    (TokenKind::LongName_Nor, Ix::Infix(29, false, "Nor")),
    (TokenKind::LongName_LeftArrow, Ix::Infix(36, false, "LeftArrow")),
    (TokenKind::LongName_RightArrow, Ix::Infix(36, false, "RightArrow")),
    (TokenKind::LongName_LeftRightArrow, Ix::Infix(36, false, "LeftRightArrow")),
    (TokenKind::LongName_LeftTeeArrow, Ix::Infix(36, false, "LeftTeeArrow")),
    (TokenKind::LongName_RightTeeArrow, Ix::Infix(36, false, "RightTeeArrow")),
    (TokenKind::LongName_RightArrowLeftArrow, Ix::Infix(36, false, "RightArrowLeftArrow")),
    (TokenKind::LongName_LeftArrowRightArrow, Ix::Infix(36, false, "LeftArrowRightArrow")),
    (TokenKind::LongName_DoubleLeftArrow, Ix::Infix(36, false, "DoubleLeftArrow")),
    (TokenKind::LongName_DoubleRightArrow, Ix::Infix(36, false, "DoubleRightArrow")),
    (TokenKind::LongName_DoubleLeftRightArrow, Ix::Infix(36, false, "DoubleLeftRightArrow")),
    (TokenKind::LongName_LeftArrowBar, Ix::Infix(36, false, "LeftArrowBar")),
    (TokenKind::LongName_RightArrowBar, Ix::Infix(36, false, "RightArrowBar")),
    (TokenKind::LongName_ShortRightArrow, Ix::Infix(36, false, "ShortRightArrow")),
    (TokenKind::LongName_ShortLeftArrow, Ix::Infix(36, false, "ShortLeftArrow")),
    (TokenKind::LongName_UpperLeftArrow, Ix::Infix(36, false, "UpperLeftArrow")),
    (TokenKind::LongName_UpperRightArrow, Ix::Infix(36, false, "UpperRightArrow")),
    (TokenKind::LongName_LowerRightArrow, Ix::Infix(36, false, "LowerRightArrow")),
    (TokenKind::LongName_LowerLeftArrow, Ix::Infix(36, false, "LowerLeftArrow")),
    (TokenKind::LongName_LeftVector, Ix::Infix(36, false, "LeftVector")),
    (TokenKind::LongName_RightVector, Ix::Infix(36, false, "RightVector")),
    (TokenKind::LongName_LeftRightVector, Ix::Infix(36, false, "LeftRightVector")),
    (TokenKind::LongName_LeftVectorBar, Ix::Infix(36, false, "LeftVectorBar")),
    (TokenKind::LongName_RightVectorBar, Ix::Infix(36, false, "RightVectorBar")),
    (TokenKind::LongName_LeftTeeVector, Ix::Infix(36, false, "LeftTeeVector")),
    (TokenKind::LongName_RightTeeVector, Ix::Infix(36, false, "RightTeeVector")),
    (TokenKind::LongName_DownLeftVector, Ix::Infix(36, false, "DownLeftVector")),
    (TokenKind::LongName_DownRightVector, Ix::Infix(36, false, "DownRightVector")),
    (TokenKind::LongName_DownLeftRightVector, Ix::Infix(36, false, "DownLeftRightVector")),
    (TokenKind::LongName_DownLeftVectorBar, Ix::Infix(36, false, "DownLeftVectorBar")),
    (TokenKind::LongName_DownRightVectorBar, Ix::Infix(36, false, "DownRightVectorBar")),
    (TokenKind::LongName_DownLeftTeeVector, Ix::Infix(36, false, "DownLeftTeeVector")),
    (TokenKind::LongName_DownRightTeeVector, Ix::Infix(36, false, "DownRightTeeVector")),
    (TokenKind::LongName_UpArrow, Ix::Infix(74, false, "UpArrow")),
    (TokenKind::LongName_DownArrow, Ix::Infix(74, false, "DownArrow")),
    (TokenKind::LongName_UpDownArrow, Ix::Infix(74, false, "UpDownArrow")),
    (TokenKind::LongName_UpTeeArrow, Ix::Infix(74, false, "UpTeeArrow")),
    (TokenKind::LongName_DownTeeArrow, Ix::Infix(74, false, "DownTeeArrow")),
    (TokenKind::LongName_UpArrowDownArrow, Ix::Infix(74, false, "UpArrowDownArrow")),
    (TokenKind::LongName_DoubleUpArrow, Ix::Infix(74, false, "DoubleUpArrow")),
    (TokenKind::LongName_DoubleDownArrow, Ix::Infix(74, false, "DoubleDownArrow")),
    (TokenKind::LongName_DoubleUpDownArrow, Ix::Infix(74, false, "DoubleUpDownArrow")),
    (TokenKind::LongName_DownArrowUpArrow, Ix::Infix(74, false, "DownArrowUpArrow")),
    (TokenKind::LongName_LongLeftArrow, Ix::Infix(74, false, "LongLeftArrow")),
    (TokenKind::LongName_LongRightArrow, Ix::Infix(74, false, "LongRightArrow")),
    (TokenKind::LongName_LongLeftRightArrow, Ix::Infix(74, false, "LongLeftRightArrow")),
    (TokenKind::LongName_DoubleLongLeftArrow, Ix::Infix(74, false, "DoubleLongLeftArrow")),
    (TokenKind::LongName_DoubleLongRightArrow, Ix::Infix(74, false, "DoubleLongRightArrow")),
    (TokenKind::LongName_DoubleLongLeftRightArrow, Ix::Infix(74, false, "DoubleLongLeftRightArrow")),
    (TokenKind::LongName_UpArrowBar, Ix::Infix(74, false, "UpArrowBar")),
    (TokenKind::LongName_DownArrowBar, Ix::Infix(74, false, "DownArrowBar")),
    (TokenKind::LongName_ShortUpArrow, Ix::Infix(74, false, "ShortUpArrow")),
    (TokenKind::LongName_ShortDownArrow, Ix::Infix(74, false, "ShortDownArrow")),
    (TokenKind::LongName_RightUpVector, Ix::Infix(74, false, "RightUpVector")),
    (TokenKind::LongName_LeftUpVector, Ix::Infix(74, false, "LeftUpVector")),
    (TokenKind::LongName_RightDownVector, Ix::Infix(74, false, "RightDownVector")),
    (TokenKind::LongName_LeftDownVector, Ix::Infix(74, false, "LeftDownVector")),
    (TokenKind::LongName_RightUpDownVector, Ix::Infix(74, false, "RightUpDownVector")),
    (TokenKind::LongName_LeftUpDownVector, Ix::Infix(74, false, "LeftUpDownVector")),
    (TokenKind::LongName_RightUpVectorBar, Ix::Infix(74, false, "RightUpVectorBar")),
    (TokenKind::LongName_RightDownVectorBar, Ix::Infix(74, false, "RightDownVectorBar")),
    (TokenKind::LongName_LeftUpVectorBar, Ix::Infix(74, false, "LeftUpVectorBar")),
    (TokenKind::LongName_LeftDownVectorBar, Ix::Infix(74, false, "LeftDownVectorBar")),
    (TokenKind::LongName_RightUpTeeVector, Ix::Infix(74, false, "RightUpTeeVector")),
    (TokenKind::LongName_RightDownTeeVector, Ix::Infix(74, false, "RightDownTeeVector")),
    (TokenKind::LongName_LeftUpTeeVector, Ix::Infix(74, false, "LeftUpTeeVector")),
    (TokenKind::LongName_LeftDownTeeVector, Ix::Infix(74, false, "LeftDownTeeVector")),
    (TokenKind::LongName_UpEquilibrium, Ix::Infix(74, false, "UpEquilibrium")),
    (TokenKind::LongName_ReverseUpEquilibrium, Ix::Infix(74, false, "ReverseUpEquilibrium")),
    (TokenKind::LongName_CenterDot, Ix::Infix(55, false, "CenterDot")),
    (TokenKind::LongName_Equivalent, Ix::Infix(28, false, "Equivalent")),
    (TokenKind::LongName_CircleDot, Ix::Infix(67, false, "CircleDot")),
    (TokenKind::LongName_Conditioned, Ix::Infix(26, false, "Conditioned")),
    (TokenKind::LongName_Union, Ix::Infix(41, false, "Union")),
    (TokenKind::LongName_SquareUnion, Ix::Infix(41, false, "SquareUnion")),
    (TokenKind::LongName_UnionPlus, Ix::Infix(41, false, "UnionPlus")),
    (TokenKind::LongName_Intersection, Ix::Infix(42, false, "Intersection")),
    (TokenKind::LongName_SquareIntersection, Ix::Infix(42, false, "SquareIntersection")),
    (TokenKind::LongName_TensorWedge, Ix::Infix(65, false, "TensorWedge")),
    (TokenKind::LongName_TensorProduct, Ix::Infix(64, false, "TensorProduct")),
    (TokenKind::LongName_Cross, Ix::Infix(65, false, "Cross")),
    (TokenKind::LongName_SmallCircle, Ix::Infix(68, false, "SmallCircle")),
    (TokenKind::LongName_Divides, Ix::Infix(61, false, "Divisible")),
    (TokenKind::LongName_VerticalSeparator, Ix::Infix(8, false, "VerticalSeparator")),
    (TokenKind::LongName_Backslash, Ix::Infix(60, false, "Backslash")),
    (TokenKind::LongName_Diamond, Ix::Infix(59, false, "Diamond")),
    (TokenKind::LongName_Wedge, Ix::Infix(58, false, "Wedge")),
    (TokenKind::LongName_Vee, Ix::Infix(57, false, "Vee")),
    (TokenKind::LongName_CircleTimes, Ix::Infix(56, false, "CircleTimes")),
    (TokenKind::LongName_Star, Ix::Infix(53, false, "Star")),
    (TokenKind::LongName_VerticalTilde, Ix::Infix(51, false, "VerticalTilde")),
    (TokenKind::LongName_Coproduct, Ix::Infix(50, false, "Coproduct")),
    (TokenKind::LongName_Cap, Ix::Infix(49, false, "Cap")),
    (TokenKind::LongName_Cup, Ix::Infix(48, false, "Cup")),
    (TokenKind::LongName_CirclePlus, Ix::Infix(47, false, "CirclePlus")),
    (TokenKind::LongName_VerticalBar, Ix::Infix(37, false, "VerticalBar")),
    (TokenKind::LongName_DoubleVerticalBar, Ix::Infix(37, false, "DoubleVerticalBar")),
    (TokenKind::LongName_NotVerticalBar, Ix::Infix(37, false, "NotVerticalBar")),
    (TokenKind::LongName_NotDoubleVerticalBar, Ix::Infix(37, false, "NotDoubleVerticalBar")),
    (TokenKind::LongName_LeftTriangle, Ix::Infix(38, false, "LeftTriangle")),
    (TokenKind::LongName_RightTriangle, Ix::Infix(38, false, "RightTriangle")),
    (TokenKind::LongName_NotLeftTriangle, Ix::Infix(38, false, "NotLeftTriangle")),
    (TokenKind::LongName_NotRightTriangle, Ix::Infix(38, false, "NotRightTriangle")),
    (TokenKind::LongName_LeftTriangleEqual, Ix::Infix(38, false, "LeftTriangleEqual")),
    (TokenKind::LongName_RightTriangleEqual, Ix::Infix(38, false, "RightTriangleEqual")),
    (TokenKind::LongName_NotLeftTriangleEqual, Ix::Infix(38, false, "NotLeftTriangleEqual")),
    (TokenKind::LongName_NotRightTriangleEqual, Ix::Infix(38, false, "NotRightTriangleEqual")),
    (TokenKind::LongName_LeftTriangleBar, Ix::Infix(38, false, "LeftTriangleBar")),
    (TokenKind::LongName_RightTriangleBar, Ix::Infix(38, false, "RightTriangleBar")),
    (TokenKind::LongName_NotLeftTriangleBar, Ix::Infix(38, false, "NotLeftTriangleBar")),
    (TokenKind::LongName_NotRightTriangleBar, Ix::Infix(38, false, "NotRightTriangleBar")),
    (TokenKind::LongName_TildeEqual, Ix::Infix(38, false, "TildeEqual")),
    (TokenKind::LongName_NotTildeEqual, Ix::Infix(38, false, "NotTildeEqual")),
    (TokenKind::LongName_TildeFullEqual, Ix::Infix(38, false, "TildeFullEqual")),
    (TokenKind::LongName_NotTildeFullEqual, Ix::Infix(38, false, "NotTildeFullEqual")),
    (TokenKind::LongName_Tilde, Ix::Infix(38, false, "Tilde")),
    (TokenKind::LongName_NotTilde, Ix::Infix(38, false, "NotTilde")),
    (TokenKind::LongName_EqualTilde, Ix::Infix(38, false, "EqualTilde")),
    (TokenKind::LongName_NotEqualTilde, Ix::Infix(38, false, "NotEqualTilde")),
    (TokenKind::LongName_TildeTilde, Ix::Infix(38, false, "TildeTilde")),
    (TokenKind::LongName_NotTildeTilde, Ix::Infix(38, false, "NotTildeTilde")),
    (TokenKind::LongName_Proportional, Ix::Infix(38, false, "Proportional")),
    (TokenKind::LongName_Proportion, Ix::Infix(38, false, "Proportion")),
    (TokenKind::LongName_Congruent, Ix::Infix(38, false, "Congruent")),
    (TokenKind::LongName_NotCongruent, Ix::Infix(38, false, "NotCongruent")),
    (TokenKind::LongName_Equilibrium, Ix::Infix(38, false, "Equilibrium")),
    (TokenKind::LongName_ReverseEquilibrium, Ix::Infix(38, false, "ReverseEquilibrium")),
    (TokenKind::LongName_DotEqual, Ix::Infix(38, false, "DotEqual")),
    (TokenKind::LongName_Precedes, Ix::Infix(38, false, "Precedes")),
    (TokenKind::LongName_Succeeds, Ix::Infix(38, false, "Succeeds")),
    (TokenKind::LongName_PrecedesEqual, Ix::Infix(38, false, "PrecedesEqual")),
    (TokenKind::LongName_SucceedsEqual, Ix::Infix(38, false, "SucceedsEqual")),
    (TokenKind::LongName_PrecedesTilde, Ix::Infix(38, false, "PrecedesTilde")),
    (TokenKind::LongName_SucceedsTilde, Ix::Infix(38, false, "SucceedsTilde")),
    (TokenKind::LongName_PrecedesSlantEqual, Ix::Infix(38, false, "PrecedesSlantEqual")),
    (TokenKind::LongName_SucceedsSlantEqual, Ix::Infix(38, false, "SucceedsSlantEqual")),
    (TokenKind::LongName_NotPrecedes, Ix::Infix(38, false, "NotPrecedes")),
    (TokenKind::LongName_NotSucceeds, Ix::Infix(38, false, "NotSucceeds")),
    (TokenKind::LongName_NotPrecedesEqual, Ix::Infix(38, false, "NotPrecedesEqual")),
    (TokenKind::LongName_NotSucceedsEqual, Ix::Infix(38, false, "NotSucceedsEqual")),
    (TokenKind::LongName_NotPrecedesTilde, Ix::Infix(38, false, "NotPrecedesTilde")),
    (TokenKind::LongName_NotSucceedsTilde, Ix::Infix(38, false, "NotSucceedsTilde")),
    (TokenKind::LongName_NotPrecedesSlantEqual, Ix::Infix(38, false, "NotPrecedesSlantEqual")),
    (TokenKind::LongName_NotSucceedsSlantEqual, Ix::Infix(38, false, "NotSucceedsSlantEqual")),
    (TokenKind::LongName_CupCap, Ix::Infix(38, false, "CupCap")),
    (TokenKind::LongName_NotCupCap, Ix::Infix(38, false, "NotCupCap")),
    (TokenKind::LongName_HumpEqual, Ix::Infix(38, false, "HumpEqual")),
    (TokenKind::LongName_HumpDownHump, Ix::Infix(38, false, "HumpDownHump")),
    (TokenKind::LongName_NotHumpEqual, Ix::Infix(38, false, "NotHumpEqual")),
    (TokenKind::LongName_NotHumpDownHump, Ix::Infix(38, false, "NotHumpDownHump")),
    (TokenKind::BangEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::EqualEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::Greater, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::GreaterEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LessEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::Less, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_Equal, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_GreaterEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_GreaterEqualLess, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_GreaterFullEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_GreaterGreater, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_GreaterLess, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_GreaterSlantEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_GreaterTilde, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_LessEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_LessEqualGreater, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_LessFullEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_LessGreater, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_LessLess, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_LessSlantEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_LessTilde, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_LongEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NestedGreaterGreater, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NestedLessLess, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotGreater, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotGreaterEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotGreaterFullEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotGreaterGreater, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotGreaterLess, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotGreaterSlantEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotGreaterTilde, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotLess, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotLessEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotLessFullEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotLessGreater, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotLessLess, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotLessSlantEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotLessTilde, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotNestedGreaterGreater, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_NotNestedLessLess, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_VectorGreater, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_VectorGreaterEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_VectorLess, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_VectorLessEqual, Ix::Infix(38, false, "CodeParser_InfixInequality")),
    (TokenKind::LongName_PermutationProduct, Ix::Infix(67, false, "PermutationProduct")),
    (TokenKind::LongName_Colon, Ix::Infix(11, false, "Colon")),
    (TokenKind::LongName_Xnor, Ix::Infix(30, false, "Xnor")),
    (TokenKind::LongName_Minus, Ix::Infix(43, false, "Plus")),
    (TokenKind::Amp, Ix::Post(12, false, "Function")),
    (TokenKind::DotDot, Ix::Post(22, false, "Repeated")),
    (TokenKind::Bang, Ix::Post(79, false, "Factorial")),
    (TokenKind::MinusMinus, Ix::Post(87, false, "Decrement")),
    (TokenKind::PlusPlus, Ix::Post(87, false, "Increment")),
    (TokenKind::DotDotDot, Ix::Post(22, false, "RepeatedNull")),
    (TokenKind::BangBang, Ix::Post(79, false, "Factorial2")),
    (TokenKind::SingleQuote, Ix::Post(77, false, "Derivative")),
    (TokenKind::LongName_Transpose, Ix::Post(78, false, "Transpose")),
    (TokenKind::LongName_Conjugate, Ix::Post(78, false, "Conjugate")),
    (TokenKind::LongName_ConjugateTranspose, Ix::Post(78, false, "ConjugateTranspose")),
    (TokenKind::LongName_HermitianConjugate, Ix::Post(78, false, "HermitianConjugate")),
    (TokenKind::LongName_InvisiblePostfixScriptBase, Ix::Post(93, false, "InvisiblePostfixScriptBase")),
    (TokenKind::OpenSquare, Ix::Call("CodeParser_GroupSquare")),
    (TokenKind::LongName_LeftDoubleBracket, Ix::Call("CodeParser_GroupDoubleBracket")),
    (TokenKind::ColonColonOpenSquare, Ix::Call("CodeParser_GroupTypeSpecifier")),
    (TokenKind::Semi, Ix::Special("Semi")),
    (TokenKind::Comma, Ix::Special("Comma")),
    (TokenKind::LongName_InvisibleComma, Ix::Special("Comma")),
    (TokenKind::SemiSemi, Ix::Special("SemiSemi")),
    (TokenKind::Tilde, Ix::Special("Tilde")),
    (TokenKind::Colon, Ix::Special("Colon")),
    (TokenKind::SlashColon, Ix::Special("SlashColon")),
    (TokenKind::Equal, Ix::Special("Equal")),
    (TokenKind::ColonEqual, Ix::Special("ColonEqual")),
    (TokenKind::ColonColon, Ix::Special("ColonColon")),
    (TokenKind::GreaterGreater, Ix::Special("GreaterGreater")),
    (TokenKind::GreaterGreaterGreater, Ix::Special("GreaterGreaterGreater")),
    (TokenKind::QuestionQuestion, Ix::No),
    (TokenKind::LongName_Limit, Ix::No),
    (TokenKind::LongName_MaxLimit, Ix::No),
    (TokenKind::LongName_MinLimit, Ix::No),
    (TokenKind::LongName_AutoLeftMatch, Ix::No),
    (TokenKind::LongName_AutoRightMatch, Ix::No),
    (TokenKind::LongName_DiscreteShift, Ix::No),
    (TokenKind::LongName_DifferenceDelta, Ix::No),
    (TokenKind::LongName_DiscreteRatio, Ix::No),
    (TokenKind::LongName_PartialD, Ix::No),
];
pub static PREC: &[(&str, u32, bool)] = &[
    ("Comma", 1, false),
    ("LongName`InvisibleComma", 1, false),
    ("Semi", 2, false),
    ("GreaterGreater", 3, false),
    ("GreaterGreaterGreater", 3, false),
    ("Equal", 4, true),
    ("ColonEqual", 4, true),
    ("CaretEqual", 4, true),
    ("CaretColonEqual", 4, true),
    ("LongName`Function", 4, true),
    ("Fake`EqualDot", 4, true),
    ("BarMinusGreater", 4, true),
    ("SlashColon", 5, true),
    ("LongName`Because", 6, false),
    ("LongName`Therefore", 7, true),
    ("LongName`VerticalSeparator", 8, false),
    ("SlashSlash", 9, false),
    ("SlashSlashEqual", 10, true),
    ("LongName`Colon", 11, false),
    ("Amp", 12, false),
    ("PlusEqual", 13, true),
    ("StarEqual", 13, true),
    ("MinusEqual", 13, true),
    ("SlashEqual", 13, true),
    ("SlashDot", 14, false),
    ("SlashSlashDot", 14, false),
    ("MinusGreater", 15, true),
    ("ColonGreater", 15, true),
    ("LongName`Rule", 15, true),
    ("LongName`RuleDelayed", 15, true),
    ("LessMinusGreater", 16, true),
    ("LongName`TwoWayRule", 16, true),
    ("SlashSemi", 17, false),
    ("TildeTilde", 18, false),
    ("Fake`OptionalColon", 19, false),
    ("Fake`PatternColon", 20, false),
    ("Bar", 21, false),
    ("DotDot", 22, false),
    ("DotDotDot", 22, false),
    ("LongName`SuchThat", 23, true),
    ("LongName`UpTee", 24, false),
    ("LongName`DownTee", 24, false),
    ("LongName`LeftTee", 24, false),
    ("LongName`DoubleLeftTee", 24, false),
    ("LongName`Perpendicular", 24, false),
    ("LongName`RightTee", 25, true),
    ("LongName`DoubleRightTee", 25, true),
    ("LongName`Conditioned", 26, false),
    ("LongName`Implies", 27, true),
    ("LongName`RoundImplies", 27, true),
    ("LongName`Equivalent", 28, false),
    ("BarBar", 29, false),
    ("LongName`Or", 29, false),
    ("LongName`Nor", 29, false),
    ("LongName`Xor", 30, false),
    ("LongName`Xnor", 30, false),
    ("AmpAmp", 31, false),
    ("LongName`And", 31, false),
    ("LongName`Nand", 31, false),
    ("Prefix`Bang", 32, false),
    ("LongName`Not", 32, false),
    ("Fake`Prefix`BangBang", 32, false),
    ("LongName`ForAll", 33, false),
    ("LongName`Exists", 33, false),
    ("LongName`NotExists", 33, false),
    ("Class`SetRelations", 34, false),
    ("EqualEqualEqual", 35, false),
    ("EqualBangEqual", 35, false),
    ("Class`HorizontalArrows", 36, false),
    ("Class`VectorOperators", 36, false),
    ("Class`DiagonalArrowOperators", 36, false),
    ("LongName`VerticalBar", 37, false),
    ("LongName`NotVerticalBar", 37, false),
    ("LongName`DoubleVerticalBar", 37, false),
    ("LongName`NotDoubleVerticalBar", 37, false),
    ("Class`OrderingOperators", 38, false),
    ("Class`Inequality", 38, false),
    ("LongName`DirectedEdge", 39, true),
    ("LongName`UndirectedEdge", 39, true),
    ("SemiSemi", 40, false),
    ("Class`UnionOperators", 41, false),
    ("Class`IntersectionOperators", 42, false),
    ("Infix`Plus", 43, false),
    ("Infix`Minus", 43, false),
    ("Infix`LongName`PlusMinus", 43, false),
    ("Infix`LongName`MinusPlus", 43, false),
    ("Infix`LongName`Minus", 43, false),
    ("LongName`ImplicitPlus", 44, false),
    ("LongName`Sum", 45, false),
    ("Class`IntegrationOperators", 46, false),
    ("LongName`ExpectationE", 46, false),
    ("LongName`ProbabilityPr", 46, false),
    ("LongName`CirclePlus", 47, false),
    ("LongName`CircleMinus", 47, false),
    ("LongName`Cup", 48, false),
    ("LongName`Cap", 49, false),
    ("Infix`LongName`Coproduct", 50, false),
    ("LongName`VerticalTilde", 51, false),
    ("LongName`Product", 52, false),
    ("LongName`ContinuedFractionK", 52, false),
    ("LongName`Star", 53, false),
    ("Star", 54, false),
    ("LongName`Times", 54, false),
    ("LongName`InvisibleTimes", 54, false),
    ("Fake`ImplicitTimes", 54, false),
    ("LongName`CenterDot", 55, false),
    ("Infix`LongName`CircleTimes", 56, false),
    ("LongName`Vee", 57, false),
    ("LongName`Wedge", 58, false),
    ("LongName`Diamond", 59, false),
    ("LongName`Backslash", 60, false),
    ("Slash", 61, false),
    ("LongName`Divide", 61, false),
    ("LongName`Divides", 61, false),
    ("LongName`DivisionSlash", 61, false),
    ("Prefix`Minus", 62, false),
    ("Prefix`Plus", 62, false),
    ("Prefix`LongName`PlusMinus", 62, false),
    ("Prefix`LongName`MinusPlus", 62, false),
    ("Prefix`LongName`Minus", 62, false),
    ("Prefix`LongName`CircleTimes", 62, false),
    ("Prefix`LongName`Coproduct", 62, false),
    ("Dot", 63, false),
    ("LongName`TensorProduct", 64, false),
    ("LongName`Cross", 65, false),
    ("LongName`TensorWedge", 65, false),
    ("StarStar", 66, false),
    ("LongName`CircleDot", 67, false),
    ("LongName`PermutationProduct", 67, false),
    ("LongName`SmallCircle", 68, false),
    ("LongName`Square", 69, false),
    ("LongName`Del", 70, false),
    ("LongName`Piecewise", 71, false),
    ("LongName`DifferentialD", 72, false),
    ("LongName`CapitalDifferentialD", 72, false),
    ("LongName`Sqrt", 73, false),
    ("LongName`CubeRoot", 73, false),
    ("Class`VerticalArrowOperators", 74, false),
    ("Class`VerticalVectorOperators", 74, false),
    ("Caret", 75, true),
    ("LessGreater", 76, false),
    ("SingleQuote", 77, false),
    ("LongName`Transpose", 78, false),
    ("LongName`Conjugate", 78, false),
    ("LongName`ConjugateTranspose", 78, false),
    ("LongName`HermitianConjugate", 78, false),
    ("Postfix`Bang", 79, false),
    ("Postfix`BangBang", 79, false),
    ("AtAt", 80, true),
    ("SlashAt", 80, true),
    ("AtAtAt", 80, true),
    ("SlashSlashAt", 80, true),
    ("Tilde", 81, false),
    ("At", 82, true),
    ("LongName`InvisibleApplication", 82, true),
    ("LongName`Application", 83, false),
    ("SlashStar", 84, false),
    ("AtStar", 85, false),
    ("Prefix`PlusPlus", 86, false),
    ("Prefix`MinusMinus", 86, false),
    ("Postfix`PlusPlus", 87, false),
    ("Postfix`MinusMinus", 87, false),
    ("Call", 88, false),
    ("Infix`Question", 89, false),
    ("LinearSyntax`Bang", 90, false),
    ("LessLess", 91, false),
    ("ColonColon", 92, false),
    ("LongName`InvisiblePrefixScriptBase", 93, false),
    ("LongName`InvisiblePostfixScriptBase", 93, false),
    ("Highest", 94, false),
    ("Symbol", 94, false),
    ("Under", 94, false),
];
