//! C09, C10, C19 (character classes): identifiers and punctuation.
use crate::corpus::{self, Size};
use crate::json::*;
use crate::project::*;
use crate::rng::Rng;
use proc_macro2::{Ident, Punct, Spacing, Span, TokenStream, TokenTree};
use std::hash::{Hash, Hasher};

/// s parses to exactly one identifier that prints as s
fn lexes(s: &str) -> i64 {
    match guard(|| s.parse::<TokenStream>()) {
        Ok(Ok(ts)) => {
            let v: Vec<TokenTree> = ts.into_iter().collect();
            (v.len() == 1 && matches!(&v[0], TokenTree::Ident(x) if x.to_string() == s)) as i64
        }
        Ok(Err(_)) => 0,
        Err(_) => 2,
    }
}
/// the identifier's text, or nothing after a panic
fn new(s: &str) -> Option<String> {
    guard(|| Ident::new(s, Span::call_site()).to_string()).ok()
}
fn new_raw(s: &str) -> Option<String> {
    guard(|| Ident::new_raw(s, Span::call_site()).to_string()).ok()
}
fn made(x: &Option<String>, want: &str) -> i64 {
    match x {
        None => 0,
        Some(t) if t == want => 1,
        Some(_) => 2,
    }
}

fn class(c: char) -> i64 {
    let one = c.to_string();
    let two = format!("a{}", c);
    let d = [
        made(&new(&one), &one),
        made(&new(&two), &two),
        made(&new_raw(&one), &format!("r#{}", one)),
        made(&new_raw(&two), &format!("r#{}", two)),
        lexes(&one),
        lexes(&two),
        lexes(&format!("r#{}", two)),
    ];
    d.iter().fold(0, |n, x| n * 3 + x)
}

fn punct_class(c: char) -> i64 {
    let mut n = 0;
    for sp in [Spacing::Alone, Spacing::Joint] {
        let x = match guard(|| {
            let p = Punct::new(c, sp);
            (p.as_char() == c && p.spacing() == sp && p.to_string() == c.to_string()) as i64
        }) {
            Ok(1) => 1,
            Ok(_) => 2,
            Err(_) => 0,
        };
        n = n * 3 + x;
    }
    n
}

/// [1, first, last, code]: all characters of the run gave this code
fn sweep(e: &mut Emitter, f: fn(char) -> i64) {
    let n = 8u32;
    let parts: Vec<Vec<(u32, u32, i64)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                s.spawn(move || {
                    quiet();
                    let mut v: Vec<(u32, u32, i64)> = Vec::new();
                    // dealt out in blocks so that all threads have similar work
                    let mut at = k * 1024;
                    while at < 0x110000 {
                        for u in at..at + 1024 {
                            if let Some(c) = char::from_u32(u) {
                                let code = f(c);
                                match v.last_mut() {
                                    Some((_, hi, x)) if *x == code && *hi + 1 == u && u % 1024 != 0 => *hi = u,
                                    _ => v.push((u, u, code)),
                                }
                            }
                        }
                        at += 1024 * n;
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all: Vec<_> = parts.into_iter().flatten().collect();
    all.sort();
    for (lo, hi, code) in all {
        e.emit(&a(vec![i(1), i(lo), i(hi), i(code)]));
    }
}

const WORDS: &[&str] = &[
    "", "_", "self", "Self", "super", "crate", "selfx", "Super", "Crate", "SELF", "sel", "_self", "self_", "__", "fn", "union", "async", "dyn", "gen", "try", "static", "true", "macro_rules", "r", "r#", "r#a", "r#self", "r#_", "r##a",
    "r#r#a", "'a", "a'", "0", "1a", "a1", "123", "a b", " a", "a ", "a\0", "\0", "a-b", "a.b", "é", "東京", "a\u{301}", "\u{301}a", "\u{301}", "\u{2118}", "℘x", "a·", "·", "_·", "_0", "_é", "🦀", "a🦀", "\u{feff}", "\u{feff}a", "a\u{feff}", "$crate",
    "a\n", "\u{ff3f}", "a\u{ff3f}", "\u{203f}a", "a\u{203f}", "K", "ª", "\u{1885}", "a\u{1885}", "\u{e33}", "a\u{e33}", "０", "a０", "٣", "a٣", "a//", "a/**/", "a;",
];

/// Inside a procedural macro identifiers are the compiler's, which normalises them (NFC);
/// what is below U+0300 and the ideographs used here are their own normal form.
fn inside() -> bool {
    #[cfg(feature = "mac")]
    return crate::pm::inside();
    #[cfg(not(feature = "mac"))]
    false
}
fn normal(s: &str) -> bool {
    s.chars().all(|c| c < '\u{300}' || "東京🦀\u{feff}℘".contains(c))
}

/// [2, text, new, new_raw, lexed, lexed with r#]
fn strings(z: &Size, e: &mut Emitter) {
    let inside = inside();
    let mut f = |s: &str| {
        // $crate exists for the compiler, and prefixes before #, ' and " are reserved for it, and U+00A0 is no space
        if inside && (!normal(s) || s == "$crate") {
            return;
        }
        let asked = !inside || !(s.is_empty() || s.contains(['#', '\'', '"', '\u{a0}']));
        current(s);
        let opt = |x: Option<String>| match x {
            None => a(vec![i(0), a(vec![])]),
            Some(t) => a(vec![i(1), cps(&t)]),
        };
        e.emit(&a(vec![
            i(2),
            cps(s),
            opt(new(s)),
            opt(new_raw(s)),
            i(if asked { lexes(s) } else { 9 }),
            i(if asked { lexes(&format!("r#{}", s)) } else { 9 }),
        ]));
    };
    for w in WORDS {
        f(w);
        for v in WORDS {
            f(&format!("{}{}", w, v));
        }
    }
    let alpha: Vec<char> = "a_r#é1\u{301} -".chars().collect();
    corpus::exhaustive(&alpha, if z.thorough { 5 } else if inside { 3 } else { 4 }, &mut f);
    for &n in corpus::SIZES.iter().chain(&[65535, 65536, 65537]) {
        for x in ["a", "é", "_", "1", "東", "\u{301}"] {
            for (p, q) in [("a", ""), ("", "a"), ("é", "1"), ("b", "\u{b7}"), ("_", "-"), ("a", "é-"), ("1", "a"), ("self", ""), ("r#", "a"), ("a", " "), ("a", "#"), ("a", "\0"), ("a", "🦀")] {
                if n < 300 || n < 6000 && !inside || z.thorough || (x == "a" && (q == "-" || p == "é")) {
                    f(&format!("{}{}{}", p, x.repeat(n), q));
                }
            }
        }
    }
    // random scalars, assigned or not: the specification skips what it does not specify
    let mut r = Rng::new(z.seed ^ 0x31);
    for _ in 0..z.random {
        let mut s = String::new();
        for _ in 0..1 + r.below(5) {
            let lim = *r.pick(&[0x80u32, 0x250, 0x3000, 0x10000, 0x20000]);
            if let Some(c) = char::from_u32(r.below(lim as usize) as u32) {
                s.push(c);
            }
        }
        f(&s);
    }
}

pub fn run(out: &str, chunks: usize, z: &Size) {
    let mut e = Emitter::new(out, "ident", chunks);
    strings(z, &mut e);
    if inside() {
        // the compiler's side is there on this thread only
        for c in ('\0'..'\u{300}').filter(|c| !['#', '\'', '"', '\u{a0}'].contains(c)) {
            e.emit(&a(vec![i(1), i(c as u32), i(c as u32), i(class(c))]));
        }
    } else {
        sweep(&mut e, class);
    }
    println!("{}", e.finish());
}

pub fn run_punct(out: &str, chunks: usize, _: &Size) {
    let mut e = Emitter::new(out, "punct", chunks);
    sweep(&mut e, punct_class);
    println!("{}", e.finish());
}

/// Hasher that keeps what it is fed.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.0.hash(&mut h);
        h.finish()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn tape<T: Hash + ?Sized>(x: &T) -> Vec<u8> {
    let mut t = Tape::default();
    x.hash(&mut t);
    t.0
}

/// [1, spelling, spelling, ==, !=, cmp, partial_cmp, < <= > >=, hashes equal, == text, == String, hash like text]
/// [2, spelling, text, == text, != text]
pub fn run_order(out: &str, chunks: usize, z: &Size) {
    let mut e = Emitter::new(out, "order", chunks);
    let mut ids: Vec<Ident> = Vec::new();
    let spans: Vec<Span> = "p q\n(r)".parse::<TokenStream>().map_or(vec![Span::call_site()], |t| t.into_iter().map(|t| t.span()).collect());
    let mut names: Vec<String> = ["a", "b", "aa", "ab", "a_", "_", "_a", "__", "A", "Z", "z", "r", "ra", "rb", "s", "q", "fn", "f", "fnn", "é", "éa", "aé", "z1", "a1", "a0", "a9", "東京", "東", "𝒳", "ﬀ", "ｚ", "self", "Self", "crate", "e\u{301}", "r1", "r_", "rz"]
        .iter()
        .map(|x| x.to_string())
        .collect();
    let mut r = Rng::new(z.seed ^ 0x41);
    let al: Vec<char> = "ab_r01éz東".chars().collect();
    // long ones, different at the very end, or only there the same
    for n in [15, 16, 31, 63, 64, 127, 255, 256, 1024, 5000] {
        let p = "ab".repeat(n / 2);
        names.push(p.clone());
        if n % 4 == 0 || n == 255 {
            names.push(format!("{}z", p));
            names.push(format!("{}é", p));
            names.push(format!("z{}", &p[1..]));
        }
    }
    for _ in 0..if z.thorough { 120 } else { 20 } {
        let mut s = String::from("a");
        for _ in 0..r.below(4) {
            s.push(*r.pick(&al));
        }
        names.push(s);
    }
    for (k, n) in names.iter().enumerate() {
        if let Ok(x) = guard(|| Ident::new(n, spans[k % spans.len()])) {
            ids.push(x);
        }
        if let Ok(x) = guard(|| Ident::new_raw(n, Span::call_site())) {
            ids.push(x);
        }
        // the same identifier from a parse, at yet another location
        if let Ok(Ok(ts)) = guard(|| n.parse::<TokenStream>()) {
            if let Some(TokenTree::Ident(x)) = ts.into_iter().next() {
                if k % 4 == 0 {
                    ids.push(x);
                }
            }
        }
    }
    for x in &ids {
        for y in &ids {
            let (sx, sy) = (x.to_string(), y.to_string());
            current(&format!("{} {}", sx, sy));
            let ord = |o: std::cmp::Ordering| i(o as i64);
            let rec = guard(|| {
                a(vec![
                    i(1),
                    cps(&sx),
                    cps(&sy),
                    b(x == y),
                    b(x != y),
                    ord(x.cmp(y)),
                    x.partial_cmp(y).map_or(i(9), ord),
                    a(vec![b(x < y), b(x <= y), b(x > y), b(x >= y)]),
                    b(tape(x) == tape(y)),
                    b(*x == sy[..]),
                    b(*x == sy),
                    b(tape(x) == tape(sx.as_str())),
                ])
            })
            .unwrap_or(a(vec![i(3), cps(&sx), cps(&sy)]));
            e.emit(&rec);
        }
        let sx = x.to_string();
        let mut strs: Vec<String> = ["", "r", "r#", "#", "r#a", "a", "#a", "ra", "r#r#a", "é", "r#é", "rr#a", "r#fn", "fn", "r #a", "R#a", "r\0a", "ré", "r#東", "東"].iter().map(|s| s.to_string()).collect();
        strs.push(format!("r#{}", sx));
        strs.push(format!("{} ", sx));
        strs.push(format!("{}a", sx));
        strs.push(format!("xx{}", sx));
        if let Some(t) = sx.strip_prefix("r#") {
            strs.push(t.to_string());
            strs.push(format!("r_{}", t));
            strs.push(format!("éz{}", t));
            strs.push(format!("é{}", t));
        }
        let mut short = sx.clone();
        short.pop();
        strs.push(short);
        for t in strs {
            let rec = guard(|| a(vec![i(2), cps(&sx), cps(&t), b(*x == t[..]), b(*x != t)])).unwrap_or(a(vec![i(3), cps(&sx), cps(&t)]));
            e.emit(&rec);
        }
    }
    println!("{}", e.finish());
}
