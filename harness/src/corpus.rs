//! Input texts: exhaustive over small themed alphabets, all pairs of a fragment dictionary,
//! and seeded random compositions and mutations.
use crate::rng::Rng;

pub struct Size {
    pub thorough: bool,
    pub seed: u64,
    /// scale of the random part
    pub random: usize,
}

pub const FRAGMENTS: &[&str] = &[
    // identifiers and prefixes
    "a", "r", "b", "c", "br", "cr", "rb", "_", "__", "_1", "e1", "x0", "doc", "self", "Self", "super", "crate",
    "r#a", "r#fn", "r#self", "r#_", "r#crate", "r#Self", "r#super", "r#selfx", "r#__", "r##a", "r#", "r#1",
    "b#", "br#", "cr#", "br##", "é", "aé", "東京", "αβγ", "a\u{301}", "\u{301}", "ℂ", "𝒳y", "r#é",
    "\u{b7}", "a\u{b7}", "\u{ad}", "©", "🦀", "\u{0}", "\u{7f}", "\u{1}", "`", "\\",
    // whitespace
    " ", "\t", "\n", "\r", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{1680}", "\u{2000}", "\u{200a}", "\u{200b}",
    "\u{200e}", "\u{200f}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{3000}", "\u{feff}", "\u{180e}",
    // punctuation
    "!", "#", "$", "%", "&", "'", "*", "+", ",", "-", ".", "/", ":", ";", "<", "=", ">", "?", "@", "^", "|", "~",
    "..", "...", "..=", "::", "->", "=>", "&&", "||", "<<=", ">>", "+=", "/=", "*/", "<-", "!=",
    // delimiters
    "(", ")", "[", "]", "{", "}", "()", "[]", "{}", "(a)", "{a;}", "[1]", "(]",
    "(/*ERROR*/)", "(/*ERROR*/", "(/*ERROR*/ )", "(/*ERROR*/)x", "((/*ERROR*/))", "(/*ERROR*/)(/*ERROR*/)",
    // lifetimes and characters
    "'a", "'r#a", "'r#fn", "'_", "'static", "'a'", "'ab'", "'é'", "'é", "'🦀'", "'\\''", "'\\\\'", "'\\n'", "'\\x41'", "'\\x7f'",
    "'\\x80'", "'\\xff'", "'\\u{41}'", "'\\u{10ffff}'", "'\\u{110000}'", "'\\u{d800}'", "'\\u{}'", "'\\0'", "'\\\"'", "'\"'", "'\\a'", "''",
    "'''", "'\n'", "'\r'", "'\t'", "' '", "'a#", "'a\"", "'r#a#", "'1", "'1'", "'\\u{1_0}'", "'\\u{_1}'", "'a'b", "'a'r#b", "'\\", "'\\x", "'\\x4",
    "b'a'", "b'", "b''", "b'ab'", "b'\\xff'", "b'\\xFg'", "b'\\u{41}'", "b'é'", "b'\\''", "b'''", "b'\\", "b'\\0'", "b'a'x", "c'a'", "b'\\x", "b'\\n'", "b'\\\"'",
    "b'\u{80}'", "b'\u{7ff}'", "b'\u{800}'",
    // strings
    "\"\"", "\"a\"", "\"", "\"a", "\"\\\"\"", "\"\\", "\"\\\\\"", "\"\\n\\r\\t\\0\\'\"", "\"\\x00\\x7F\"", "\"\\x80\"", "\"\\u{1F980}\"", "\"\\u{1f_98_0__}\"", "\"\\u{0000000}\"",
    "\"\\u{123456}\"", "\"\\u{D7FF}\\u{E000}\"", "\"\\u{DFFF}\"", "\"é\"", "\"🦀\"", "\"\n\"", "\"\r\n\"", "\"\r\"", "\"\r\r\n\"", "\"\\\n   a\"", "\"\\\r\n\t a\"", "\"\\\r a\"", "\"\\\n\"", "\"\\\n\r\n \r\na\"",
    "\"\\\n \r a\"", "\"\\\n\u{a0}a\"", "\"\\\n", "\"\\\n ", "\"a\"suffix", "\"a\"_", "\"a\"r#b", "\"a\"1", "\"\\z\"", "\"\\u41\"", "\"\\u{\"", "\"\\u{41\"", "\"\\u{4 1}\"", "\"\\x4\"", "\"\\x\"", "\"\u{0}\"",
    "b\"\"", "b\"a\"", "b\"\\xff\\x00\"", "b\"é\"", "b\"\\u{41}\"", "b\"\\\n  a\"", "b\"\\\r\n a\"", "b\"\r\n\"", "b\"\r\"", "b\"a\"x", "b\"", "b\"\\'\\\"\"", "b\"\\xg0\"", "b\"\u{7f}\"",
    "c\"\"", "c\"a\"", "c\"\\xff\"", "c\"\\x00\"", "c\"\\x01\"", "c\"\\x10\"", "c\"\\0\"", "c\"\u{0}\"", "c\"é\"", "c\"\\u{0}\"", "c\"\\u{00_0}\"", "c\"\\u{1}\"", "c\"\\\n a\"", "c\"\r\n\"", "c\"a\"x", "c\"", "c\"\\\r\n\"", "c\"\r\"",
    // raw strings
    "r\"\"", "r\"a\\\"", "r#\"a\"#", "r#\"a\"b\"#", "r##\"a\"#\"##", "r##\"a\"#", "r#\"a\"", "r\"\r\n\"", "r\"\r\"", "r#\"\"#x", "r#\"\"##", "r\"é\"", "r#\"\"\"#", "r##", "r#\"", "r\"", "r#\"é\"\u{301}\"#",
    "br\"\"", "br#\"a\"#", "br\"é\"", "br#\"\"\"#", "br\"\r\n\"", "br\"\r\"", "br\"", "br#\"a\"", "br##\"\"#\"##z",
    "cr\"\"", "cr#\"a\"#", "cr\"é\"", "cr\"\u{0}\"", "cr\"\r\n\"", "cr\"\r\"", "cr\"", "cr#\"\"\"#", "cr##\"\"#\"##z",
    // numbers
    "0", "1", "42", "1_000", "1_", "_1", "00", "1u8", "1_u8", "1e", "1e1", "1e+1", "1e-1", "1e_1", "1e1_", "1e1f", "1E5", "1e+", "1e-", "1e+_1", "1e_+1", "1e1+", "1e++1", "1ef",
    "1.", "1.0", "1.5e3", "1.e3", "1.0e", "1.0e+", "1.0e-_", "1.5e3f32", "1.0_0", "1._0", "1.a", "1._a", "1..", "1..2", "1.0.0", "1...2", "1.é", "1.0é", "1.0f64", "1.f64", "1.0e1e1", "1.2.3e4", "1.0.e",
    "0x", "0x1", "0xF", "0xfF_0", "0x_", "0x_1", "0xg", "0x1g", "0x1.0", "0b", "0b1", "0b01_", "0b2", "0b1e3", "0o", "0o7", "0o8", "0o17u32", "0x1e+3", "0X1", "0B1", "0O7", "0b_", "0b_1", "0o_7", "0xé", "0b1é", "0b12", "0o18", "0xu8", "0b1_2",
    "123456789012345678901234567890", "1\u{301}", "1é", "1\u{b7}", "-1", "- 1", "-a", "--1", "-1.5", "-0x1", "-\"a\"", "1-1", "1f\u{b7}", "9e9\u{301}", "1'a", "1\"a\"", "1r#a", "1r\"\"",
    // comments
    "//", "//a", "// a\n", "///", "/// a\n", "//!", "//! a\n", "////", "/////", "//// a\n", "///a\r\n", "//!a\r\n", "//a\r\n", "///a\rb\n", "//!a\rb", "//a\rb\n", "///\r\n", "///\r", "//\r", "///é\"\\\n", "//!\"'\u{0}\n", "///\u{7f}\t\n",
    "/**/", "/***/", "/****/", "/*a*/", "/**a*/", "/*!a*/", "/*!*/", "/*** a*/", "/* /* */ */", "/* /* */", "/** /* a */ b */", "/*! /* */ */", "/*", "/**", "/*!", "/*/", "/*/*/", "/**/*/", "/** */", "/**\n*/", "/**\r\n*/", "/**\r*/", "/*\r*/", "/*!\r*/", "/*!\r\n*/", "/***\r*/",
    "/** é */", "/*! \"\\ */", "/* é */", "/*é", "/**é", "/*!é", "/*!/**/", "/** \u{0} */", "*/", "/*a/*b*/c*/d", "//a/*", "/*//*/", "/* // */", "///a/*\n", "//!/*\n*/",
];

pub fn exhaustive(alpha: &[char], max: usize, f: &mut dyn FnMut(&str)) {
    let mut s = String::new();
    fn go(alpha: &[char], left: usize, s: &mut String, f: &mut dyn FnMut(&str)) {
        f(s);
        if left == 0 {
            return;
        }
        for &c in alpha {
            s.push(c);
            go(alpha, left - 1, s, f);
            s.pop();
        }
    }
    go(alpha, max, &mut s, f);
}

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

/// (alphabet, quick length, thorough length)
const THEMES: &[(&str, usize, usize)] = &[
    ("018_.e+xbof", 4, 5),
    ("9_.eE-fé", 4, 6),
    ("rbc#\"a'\r\n", 4, 5),
    ("/*!a\n\r ", 5, 6),
    ("'a_r#b0\" é\\", 4, 5),
    ("()[]{}a +", 4, 6),
    ("+=/*.&a1 !'", 4, 5),
    ("1.a \u{301}'-é(", 4, 5),
];

const BODY: &str = "\\nx07fgu{}'\"\n\r é\0";
const UBODY: &str = "019dDfF_}{g";

pub fn wrapped(max: usize, f: &mut dyn FnMut(&str)) {
    for (pre, post) in [("\"", "\""), ("b\"", "\""), ("c\"", "\""), ("'", "'"), ("b'", "'")] {
        exhaustive(&chars(BODY), max, &mut |s| f(&format!("{}{}{}", pre, s, post)));
    }
    // after a backslash: one more character deep
    for (pre, post) in [("\"\\", "\""), ("b\"\\", "\""), ("c\"\\", "\""), ("'\\", "'"), ("b'\\", "'")] {
        exhaustive(&chars("nrtx0uz'\"\\\n\r {1f"), max, &mut |s| f(&format!("{}{}{}", pre, s, post)));
    }
    // string continuation: what follows backslash newline
    for (pre, post) in [("\"\\", "\""), ("b\"\\", "\""), ("c\"\\", "\"")] {
        exhaustive(&chars("\n\r \tx\\\"\u{a0}\u{c}"), max + 1, &mut |s| f(&format!("{}{}{}", pre, s, post)));
    }
    // and every kind of white space there
    for pre in ["\"", "b\"", "c\""] {
        for w in "\u{b}\u{c}\u{85}\u{a0}\u{1680}\u{180e}\u{2000}\u{200a}\u{200b}\u{200e}\u{200f}\u{2028}\u{2029}\u{202f}\u{205f}\u{3000}\u{feff}\u{1c}\u{1f}\0\u{7f}".chars() {
            for (x, y) in [("", ""), ("", "x"), (" ", ""), ("\t", " x"), ("\n", "\n"), ("a", ""), (" ", "\\\n x")] {
                for nl in ["\n", "\r\n"] {
                    f(&format!("{}\\{}{}{}{}\"", pre, nl, x, w, y));
                }
            }
        }
    }
    for (pre, post) in [("\"\\u{", "\""), ("'\\u{", "'"), ("c\"\\u{", "\"")] {
        exhaustive(&chars(UBODY), max, &mut |s| f(&format!("{}{}}}{}", pre, s, post)));
    }
    // \x followed by every pair of interesting characters
    for pre in ["\"\\x", "b\"\\x", "c\"\\x"] {
        for x in "0178afAF9gGé\"\\".chars() {
            for y in "0178afAF9gGé\"\\".chars() {
                f(&format!("{}{}{}\"", pre, x, y));
            }
        }
    }
    for pre in ["'\\x", "b'\\x"] {
        for x in "0178afAF9gGé'\\".chars() {
            for y in "0178afAF9gGé'\\".chars() {
                f(&format!("{}{}{}'", pre, x, y));
            }
        }
    }
    for v in [
        "0", "00", "000000", "0000000", "7f", "80", "7ff", "800", "ffff", "10000", "d7ff", "d800", "dfff", "e000", "fffd", "10ffff", "110000",
        "ffffff", "1000000", "1_0_f_f_f_f", "1_0_f_f_f_f_", "10_ffff__", "0010ffff", "_0", "0_", "0__", "41 ", " 41", "4x", "D800", "DBFF", "0_000_00", "0_000_000",
    ] {
        for (pre, post) in [("\"", "\""), ("'", "'"), ("c\"", "\""), ("b\"", "\""), ("b'", "'")] {
            f(&format!("{}\\u{{{}}}{}", pre, v, post));
        }
    }
}

/// raw strings around the hash limit and with all small hash mismatches
pub fn raw(f: &mut dyn FnMut(&str)) {
    for p in ["r", "br", "cr"] {
        for open in 0..4usize {
            for close in 0..5usize {
                for body in ["", "a", "\"", "\"#", "\"##", "#\"", "\"\"", "é", "\r\n", "\r", "\0", "\\", "#", "\n"] {
                    f(&format!("{}{}\"{}\"{}", p, "#".repeat(open), body, "#".repeat(close)));
                }
            }
        }
        for n in [16, 127, 128, 200, 254, 255, 256, 257, 300] {
            f(&format!("{}{}\"a\"{}", p, "#".repeat(n), "#".repeat(n)));
            f(&format!("{}{}\"a\"{}b\"{}", p, "#".repeat(n), "#".repeat(n - 1), "#".repeat(n)));
            f(&format!("{}{}\"a\"{}", p, "#".repeat(n), "#".repeat(n - 1)));
        }
    }
}

pub fn random_source(r: &mut Rng) -> String {
    let n = 1 + r.below(12);
    let mut s = String::new();
    let mut open: Vec<char> = Vec::new();
    for _ in 0..n {
        match r.below(10) {
            0..=5 => s.push_str(r.pick(FRAGMENTS)),
            6 => s.push(' '),
            7 => {
                let d = r.below(3);
                s.push(['(', '[', '{'][d]);
                open.push([')', ']', '}'][d]);
            }
            8 => {
                if let Some(c) = open.pop() {
                    s.push(c)
                }
            }
            _ => s.push('\n'),
        }
        if r.chance(1, 2) {
            s.push(' ');
        }
    }
    if r.chance(3, 4) {
        while let Some(c) = open.pop() {
            if r.chance(1, 4) {
                s.push('\n');
            }
            s.push(c);
        }
    }
    s
}

/// mostly parseable text
pub fn random_valid(r: &mut Rng, tokens: usize) -> String {
    const OK: &[&str] = &[
        "a", "r#fn", "é", "東京", "_x1", "'a", "'r#b", "'é'", "'\\n'", "b'x'", "\"s\"", "\"é\n🦀\"", "\"\\u{1F980}\\\n  z\"", "b\"\\xff\"", "c\"q\"", "r#\"a\"b\"#",
        "br\"x\"", "cr#\"y\"#", "1", "0xFFu8", "1.5e-3f32", "2.", "1_000", "+", "==", "::", "..=", "->", "&&", "!", "#", "$", "?", ";", ",", "// c\n", "/* b /* n */ */", "/// outer é\n",
        "//! inner\r\n", "/** bo\n é */", "/*! bi */", "\n", "\r\n", "\u{2028}", " ", "\t", "(/*ERROR*/)", "\"a\r\nb\"", "r\"\r\n\"", "🦀\u{0}",
    ];
    let mut s = String::new();
    if r.chance(1, 8) {
        s.push('\u{feff}');
    }
    let mut open: Vec<char> = Vec::new();
    for _ in 0..tokens {
        match r.below(12) {
            0 | 1 => {
                let d = r.below(3);
                s.push(['(', '[', '{'][d]);
                open.push([')', ']', '}'][d]);
            }
            2 => {
                if let Some(c) = open.pop() {
                    s.push(c)
                }
            }
            _ => {
                let mut k = r.below(OK.len());
                if k == OK.len() - 1 {
                    k = 0;
                }
                s.push_str(OK[k]);
                s.push_str(r.pick(&[" ", " ", "\n", "", "  ", "\r\n"]));
            }
        }
    }
    while let Some(c) = open.pop() {
        s.push(c);
    }
    s
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        let soup: Vec<char> = "'\"\\/*#r b c0x.e_!\r\n({[]})é\u{301}-+🦀\0=".chars().collect();
        let at = r.below(v.len() + 1);
        match r.below(4) {
            0 => v.insert(at, *r.pick(&soup)),
            1 if at < v.len() => {
                v.remove(at);
            }
            2 if at < v.len() => v[at] = *r.pick(&soup),
            _ => v.truncate(at.max(v.len() / 2)),
        }
    }
    v.into_iter().collect()
}

/// Everything.
pub fn sources(z: &Size, f: &mut dyn FnMut(&str)) {
    for &(a, q, t) in THEMES {
        exhaustive(&chars(a), if z.thorough { t } else { q }, f);
    }
    wrapped(if z.thorough { 3 } else { 2 }, f);
    raw(f);
    for x in FRAGMENTS {
        f(x);
    }
    for x in FRAGMENTS {
        for y in FRAGMENTS {
            f(&format!("{}{}", x, y));
        }
    }
    // inside groups and after other tokens
    for x in FRAGMENTS {
        f(&format!("({})", x));
        f(&format!("{{ [{}] }}", x));
        f(&format!("a {} b", x));
        f(&format!("({}", x));
        f(&format!("\u{feff}{}", x));
        f(&format!("{}\n{}", x, x));
    }
    let mut r = Rng::new(z.seed);
    for _ in 0..z.random {
        let s = random_source(&mut r);
        f(&s);
        let n = 1 + r.below(12);
        let s = random_valid(&mut r, n);
        f(&s);
        let s = mutate(&mut r, &s);
        f(&s);
    }
}

/// Sizes around which implementations like to change their ways.
pub const SIZES: &[usize] = &[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000];
pub const HUGE: &[usize] = &[65534, 65535, 65536, 65537];

/// Texts of which one dimension is large: (length n of the part) -> text.
type Family = fn(usize) -> String;

fn rep(p: &str, x: &str, n: usize, q: &str) -> String {
    let mut s = String::with_capacity(p.len() + q.len() + x.len() * n);
    s.push_str(p);
    for _ in 0..n {
        s.push_str(x);
    }
    s.push_str(q);
    s
}

/// long in one token or piece of trivia
pub const LONG: &[Family] = &[
    |n| rep("", "a", n, ""),
    |n| rep("x", "é", n, " y"),
    |n| rep("r#", "b", n, "+"),
    |n| rep("'", "c", n, " d"),
    |n| rep("'r#", "c", n, "+"),
    |n| rep("a", "1", n, "é"),
    |n| rep("a", "_", n, "é\u{301}©"),
    |n| rep("a", "b", n, "#"),
    |n| rep("\"", "a", n, "\" z"),
    |n| rep("\"", "é", n, "\\z\""),
    |n| rep("\"", "\\n", n, "\""),
    |n| rep("\"", "\r\n", n, "\r\""),
    |n| rep("\"", "a", n, "\\u{110000}\""),
    |n| rep("\"", "a", n, "\\u{1F980}\\x7f\\\n  b\"suffix"),
    |n| rep("\"a\\\n", " ", n, "b\""),
    |n| rep("\"a\"", "s", n, " t"),
    |n| rep("\"", "a", n, ""),
    |n| rep("b\"", "a", n, "\\xff\""),
    |n| rep("b\"", "a", n, "é\""),
    |n| rep("c\"", "a", n, "\\0\""),
    |n| rep("c\"", "é", n, "\\x01\" +"),
    |n| rep("r\"", "a", n, "\" +"),
    |n| rep("r#\"", "\"", n, "\"#"),
    |n| rep("r##\"", "\"#", n, "\"##+"),
    |n| rep("br\"", "a", n, "é\""),
    |n| rep("br\"", "a", n, "\""),
    |n| rep("cr\"", "é", n, "\0\""),
    |n| rep("cr#\"", "é", n, "\"#"),
    |n| rep("r\"", "a", n, "\r\""),
    |n| rep("r\"", "a", n, "\r\n\""),
    |n| rep("'", "\\u{00", 1, &rep("", "_", n, "41}'")),
    |n| rep("'a'", "b", n, " c"),
    |n| rep("", "1", n, " 2"),
    |n| rep("1", "_", n, ""),
    |n| rep("1.", "0", n, "e5"),
    |n| rep("1.5e", "0", n, ""),
    |n| rep("1e", "_", n, "+1"),
    |n| rep("0x", "F", n, "u8"),
    |n| rep("0b", "1", n, "2"),
    |n| rep("0b", "1", n, "_"),
    |n| rep("0o", "7", n, "8"),
    |n| rep("1", "u", n, "\u{301}"),
    |n| rep("-", "9", n, ""),
    |n| rep("a//", "c", n, "\nb"),
    |n| rep("a//", "c", n, ""),
    |n| rep("a//", "\r", n, "\nb"),
    |n| rep("///", "d", n, "\nb"),
    |n| rep("///", "d", n, "\r\nb"),
    |n| rep("//!", "é", n, ""),
    |n| rep("//!", "d", n, "\rb"),
    |n| rep("///", "d", n, "\r"),
    |n| rep("///", "\"", n, "\n+"),
    |n| rep("/**", "d", n, "*/ b"),
    |n| rep("/**", "\r\n", n, "*/ b"),
    |n| rep("/*!", "d", n, "\r*/ b"),
    |n| rep("/*!", "é", n, "\r\n*/ b"),
    |n| rep("/*", "*", n, "/ b"),
    |n| rep("/*", "/", n, "*/ b"),
    |n| rep("/*", "d", n, ""),
    |n| rep("/*", "é\n", n, "*/ b"),
    |n| rep("", "/", n, "\nb"),
    |n| rep("a", " ", n, "b"),
    |n| rep("é", " ", n, "é ("),
    |n| rep("é", "\n", n, "é )"),
    |n| rep("a", "\r\n", n, "b"),
    |n| rep("(", "\u{2028}", n, "b)"),
    |n| rep("[", "\t", n, "🦀]"),
    |n| rep("{\u{3000}", " ", n, "+"),
];

/// many tokens
pub const MANY: &[Family] = &[
    |n| rep("", "+", n, ""),
    |n| rep("", "+ ", n, "a"),
    |n| rep("", "a ", n, ""),
    |n| rep("", "a,", n, "\u{301}"),
    |n| rep("(", "1 ", n, ")"),
    |n| rep("{", "é;", n, "} z"),
    |n| rep("", "'a ", n, "'b'"),
    |n| rep("", "()", n, ""),
    |n| rep("[", "{} ", n, "]"),
    |n| rep("[", "(a)", n, "}"),
    |n| rep("", "\"s\"", n, "\""),
    |n| rep("a", "/**/ ", n, "b"),
    |n| rep("a", "//\n", n, "b"),
    |n| rep("", "///\n", n, ""),
    |n| rep("a", "(/*ERROR*/)", n, "b"),
    |n| rep("", "-1 ", n, "`"),
];

/// deep
pub const DEEP: &[Family] = &[
    |n| rep("", "(", n, "") + &rep("", ")", n, ""),
    |n| rep("a", "[", n, "b") + &rep("", "]", n, "c"),
    |n| rep("", "{ ", n, "é+") + &rep("", " }", n, ""),
    |n| rep("", "([{", n, "1") + &rep("", "}])", n, ""),
    |n| rep("", "(", n, "") + &rep("", ")", n - 1, ""),
    |n| rep("", "(", n, "") + &rep("", ")", n + 1, ""),
    |n| rep("", "(", n, "]") + &rep("", ")", n - 1, ""),
    |n| rep("", "(", n, "") + &rep("", ")", n / 2, "]") + &rep("", ")", n - n / 2 - 1, ""),
    |n| rep("", "(", n, "") + &rep("", ")", n - 1, "}"),
    |n| rep("", "[", n, "`") + &rep("", "]", n, ""),
    |n| rep("", "[", n, ""),
    |n| rep("", "{", n, "\"x") + &rep("", "}", n, ""),
    |n| rep("", "(a ", n, "") + &rep("", "+)", n, ""),
    |n| rep("", "(", n, "") + &rep("", ")", n, "") + &rep("", "[", n, "x") + &rep("", "]", n, ""),
];

/// deep, but no groups
pub const DEEPTEXT: &[Family] = &[
    |n| rep("", "/*", n, "") + &rep("", "*/", n, " b"),
    |n| rep("", "/*", n, "") + &rep("", "*/", n - 1, " b"),
    |n| rep("", "/*", n, "") + &rep("", "*/", n + 1, " b"),
    |n| rep("/*", "*", 1, &rep("", "/*", n, "a\r\n")) + &rep("", "*/", n + 1, " b"),
    |n| rep("/*!", "/*", n, "a") + &rep("", "*/", n + 1, " b"),
    |n| rep("/*!", "/*", n, "\ra") + &rep("", "*/", n + 1, " b"),
];

pub struct Large {
    pub nest: usize,
    pub groups: bool,
    pub huge: bool,
}

pub fn large(z: &Size, l: &Large, f: &mut dyn FnMut(&str)) {
    let sizes: Vec<usize> = SIZES.iter().copied().filter(|&n| z.thorough || n > 1500 || n % 4 != 3).collect();
    for &n in &sizes {
        for g in LONG.iter().chain(MANY).chain(DEEPTEXT) {
            f(&g(n));
        }
        if l.groups && n <= l.nest {
            for g in DEEP {
                f(&g(n));
            }
        }
    }
    if l.huge {
        for (k, g) in LONG.iter().chain(DEEPTEXT).enumerate() {
            for (m, &n) in HUGE.iter().enumerate() {
                if z.thorough || m == 2 && k % 6 == (z.seed % 6) as usize {
                    f(&g(n));
                }
            }
        }
        // far from the beginning: bytes, lines, columns
        for n in [65533, 65534, 65535, 65536, 70000] {
            for x in [" ", "\n", "é"] {
                if z.thorough || n == 65535 && x != "é" || n == 70000 {
                    f(&format!("{} (b + 'c\n\"d\") e", x.repeat(n)));
                }
                if z.thorough || n == 70000 && x == " " {
                    f(&format!("(x{}y\nz{}){}", x.repeat(n), x.repeat(10), x.repeat(3)));
                    f(&format!("a{}é `", x.repeat(n)));
                    f(&format!("\"a{}\"é\n[", x.repeat(n)));
                }
            }
        }
    }
}

/// every character (of a range and a selection) in every position
pub fn every_char(z: &Size, f: &mut dyn FnMut(&str)) {
    const CONTEXTS: &[(&str, &str)] = &[
        ("", ""), ("a", "b"), ("\"", "\""), ("\"\\", "\""), ("\"\\x", "1\""), ("\"\\x1", "\""), ("\"\\u", "41}\""), ("\"\\u{", "41}\""), ("\"\\u{4", "1}\""), ("\"\\\n", "a\""), ("\"\\\r", "a\""), ("\"\\\n ", " a\""), ("\"a\"", ""), ("\"a\"b", ""),
        ("b\"", "\""), ("b\"\\", "\""), ("b\"\\x", "1\""), ("b\"\\x1", "\""), ("b\"\\\n", "a\""), ("c\"", "\""), ("c\"\\", "\""), ("c\"\\x", "1\""), ("c\"\\x0", "\""), ("c\"\\\n", "a\""), ("c\"\\u{", "}\""),
        ("'", "'"), ("'\\", "'"), ("'\\x", "1'"), ("'\\x1", "'"), ("'\\u{", "}'"), ("'a", ""), ("'a", "'"), ("'", ""), ("'r#", ""), ("b'", "'"), ("b'\\", "'"), ("b'\\x", "1'"), ("b'\\x1", "'"), ("b'a'", ""), ("'a'", ""),
        ("r\"", "\""), ("r", "\"a\""), ("r#", "\"a\"#"), ("r#\"a\"", ""), ("br\"", "\""), ("br", "\"a\""), ("cr\"", "\""), ("cr#\"a\"#", ""), ("r#", ""), ("r#a", ""), ("r#\"", "\"#"), ("b", "\"a\""), ("c", "\"a\""), ("b", "'a'"),
        ("1", ""), ("1", "1"), ("1.", ""), ("1.", "0"), ("1.0", ""), ("1e", ""), ("1e", "1"), ("1e+", ""), ("1.0e", "5"), ("1e5", ""), ("0", ""), ("0x", ""), ("0x1", ""), ("0b", ""), ("0b1", ""), ("0o", "1"), ("0o7", "1"), ("0", "1"), ("-", "1"), ("1u", ""),
        ("/", ""), ("//", ""), ("//", "\na"), ("///", "\na"), ("//!", "\na"), ("////", "\na"), ("///a", ""), ("/*", "*/"), ("/**", "*/"), ("/*!", "*/ a"), ("/***", "*/"), ("/* *", "/ */"), ("/* /", "* */"), ("/*a", "*/*/"),
        ("+", ""), ("+", "="), ("+ ", "a"), ("(", ")"), ("(", ""), ("[a", "]"), ("#", "[a]"), ("\u{feff}", "a"), ("a", "\u{feff}"), ("(/*ERROR*", "/)"), ("a\n", "\nb"), ("\r", "\n"),
    ];
    let more: &[u32] = &[
        0x2bc, 0x300, 0x301, 0x345, 0x37a, 0x387, 0x3a9, 0x61c, 0x660, 0x6dd, 0x7ff, 0x800, 0x1680, 0x180e, 0x1885, 0x2000, 0x200a, 0x200b, 0x200e, 0x200f, 0x2028, 0x2029, 0x202f, 0x203f, 0x205f, 0x2060, 0x2118, 0x2160, 0x2e2f, 0x3000, 0x3005, 0x309b, 0x4e00, 0xac00, 0xd7ff,
        0xe000, 0xfdfa, 0xfe00, 0xfe4d, 0xfeff, 0xff10, 0xff3f, 0xfffc, 0xfffd, 0xffff, 0x10000, 0x16fe4, 0x1d173, 0x1d7ce, 0x1f600, 0x1f980, 0x20000, 0xe0001, 0xe0100, 0xf0000, 0x10fffd, 0x10ffff,
    ];
    let top = if z.thorough { 0x250 } else { 0x180 };
    for c in (0..top).chain(more.iter().copied()) {
        let c = char::from_u32(c).unwrap();
        for (p, q) in CONTEXTS {
            f(&format!("{}{}{}", p, c, q));
        }
    }
}

/// A source file with many uses of the macro `pmh::at`, all of whose tokens are plain for the compiler.
pub fn user_file(r: &mut Rng, uses: usize) -> String {
    const LEAVES: &[&str] = &[
        "a", "é", "東京", "x1", "r#fn", "'a", "'static", "self", "_", "__", "1", "1u8", "1.5", "0xff_u16", "2.5e3f64", "'c'", "'é'", "'🦀'", "b'x'", "\"s\"", "\"é🦀\"", "\"two\nlines é\"", "\"\"", "r\"w\"", "r#\"é\"\n#\"#", "b\"by\\x00\"", "c\"cé\"", "\"\\u{1F980}\\\n   z\"",
        "+", "+=", "=>", "..=", "<<=", "&&", "||", "::", "->", ",", ";", "#", "$", "?", "~", "@", "!", "%", "^", "-", "-1", ".", "/ ", "<", ">",
    ];
    const GAPS: &[&str] = &[" ", " ", " ", "\n", "\n\n    ", "\t", " /* é */ ", "/*\n🦀 /* n */ */", " // c é\n", "\u{85}", "\u{2028}", " \u{200e}", "  "];
    fn content(r: &mut Rng, n: usize, depth: usize, out: &mut String) {
        for _ in 0..n {
            if depth > 0 && r.chance(1, 5) {
                let (p, q) = *r.pick(&[("(", ")"), ("[", "]"), ("{", "}"), ("( ", "\n)"), ("{ /* é */", " }")]);
                out.push_str(p);
                let m = r.below(5);
                content(r, m, depth - 1, out);
                out.push_str(q);
            } else {
                out.push_str(r.pick(LEAVES));
            }
            out.push_str(r.pick(GAPS));
        }
    }
    let mut s = String::from("#![crate_type = \"rlib\"]\n");
    for k in 0..uses {
        s.push_str(r.pick(&["", "\n", "/* é🦀 */ ", "// x\n", "  ", "\t"]));
        let (p, q) = *r.pick(&[("(", ");"), ("{", "}"), ("[", "];")]);
        s.push_str(&format!("pmh{}::{}at{}!{}{}{} ", r.pick(&["", " "]), r.pick(&["", "\n"]), r.pick(&["", " "]), r.pick(&["", " ", "\n"]), p, k));
        let n = r.below(12);
        content(r, n, 3, &mut s);
        s.push_str(q);
        s.push_str(r.pick(&["", "\n", " /* 東 */", "\n\n"]));
    }
    s.push('\n');
    s
}
