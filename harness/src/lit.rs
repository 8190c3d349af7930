//! C06, C08: literals from text, and their values.
use crate::corpus::{self, Size};
use crate::json::*;
use crate::project::*;
use crate::rng::Rng;
use proc_macro2::{Literal, TokenStream, TokenTree};
use std::str::FromStr;

fn literal_texts(z: &Size, f: &mut dyn FnMut(&str)) {
    let chars = |s: &str| s.chars().collect::<Vec<char>>();
    corpus::exhaustive(&chars("018_.e+xbo"), if z.thorough { 6 } else { 4 }, f);
    corpus::exhaustive(&chars("-1.e_f "), if z.thorough { 6 } else { 5 }, f);
    corpus::exhaustive(&chars("rbc#\"a'-"), if z.thorough { 6 } else { 5 }, f);
    corpus::wrapped(if z.thorough { 3 } else { 2 }, f);
    corpus::raw(f);
    for x in corpus::FRAGMENTS {
        f(x);
        f(&format!("-{}", x));
        f(&format!("--{}", x));
        f(&format!("- {}", x));
        f(&format!("+{}", x));
        for y in ["", " ", "\n", "//", "/**/", "///a", "\u{feff}", "\u{200e}", "\0", "a", "_", "'", "\"", "#", "1", ".", ";", ")", "é", "\u{301}", "e1", "u8", "r#a"] {
            f(&format!("{}{}", y, x));
            f(&format!("{}{}", x, y));
            f(&format!("-{}{}", x, y));
        }
    }
    corpus::every_char(z, f);
    for g in corpus::LONG {
        for &n in corpus::SIZES {
            let s = g(n);
            if z.thorough || n % 4 != 3 {
                f(&s);
                f(s.trim_end_matches(|c| " +2".contains(c)));
            }
        }
        if z.thorough {
            for &n in corpus::HUGE {
                f(&g(n));
            }
        }
    }
    let mut r = Rng::new(z.seed ^ 0x11);
    for _ in 0..z.random {
        let s = strlit(&mut r);
        f(&s);
        let m = corpus::mutate(&mut r, &s);
        f(&m);
        let n = number(&mut r);
        f(&n);
        let m = corpus::mutate(&mut r, &n);
        f(&m);
    }
}

fn number(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('-');
    }
    s.push_str(r.pick(&["", "0x", "0b", "0o", ""]));
    for _ in 0..1 + r.below(6) {
        s.push_str(r.pick(&["0", "1", "7", "9", "_", "a", "F"]));
    }
    if r.chance(1, 2) {
        s.push('.');
        for _ in 0..r.below(4) {
            s.push_str(r.pick(&["0", "1", "9", "_"]));
        }
    }
    if r.chance(1, 2) {
        s.push_str(r.pick(&["e", "E"]));
        s.push_str(r.pick(&["", "+", "-", "_", "_+"]));
        for _ in 0..r.below(3) {
            s.push_str(r.pick(&["0", "5", "_"]));
        }
    }
    s.push_str(r.pick(&["", "", "u8", "f64", "usize", "é", "_x", "e", "\u{301}"]));
    s
}

/// a mostly well-formed string-like literal
pub fn strlit(r: &mut Rng) -> String {
    let (p, q): (&str, &str) = *r.pick(&[
        ("\"", "\""), ("b\"", "\""), ("c\"", "\""), ("r\"", "\""), ("r#\"", "\"#"), ("br##\"", "\"##"), ("cr#\"", "\"#"), ("'", "'"), ("b'", "'"), ("br\"", "\""), ("cr\"", "\""),
    ]);
    let cooked = !p.contains('r');
    let byte = p.starts_with('b');
    let mut s = p.to_string();
    let n = if q == "'" { 1 } else { r.below(8) };
    for _ in 0..n {
        let mut x: String = if cooked && r.chance(2, 3) {
            r.pick(&[
                "\\n", "\\r", "\\t", "\\\\", "\\0", "\\'", "\\\"", "\\x41", "\\x7f", "\\x00", "\\xff", "\\x80", "\\u{41}", "\\u{e9}", "\\u{1F980}", "\\u{10_FF_FF}", "\\u{0}", "\\\n  ", "\\\n", "\\\r\n ", "\\u{7ff}",
                "\\u{800}", "\\u{ffff}", "\\u{10000}", "\\xC3",
            ])
            .to_string()
        } else {
            r.pick(&["a", "é", "🦀", "\n", "\r\n", "'", "#", "\\", "\"", "\t", " ", "0", "\u{7f}", "\u{85}", "//", "\u{301}", "x"]).to_string()
        };
        if byte && !x.is_ascii() {
            x = "y".into();
        }
        if cooked && (x == "\\" || x == "\"") {
            x = "z".into();
        }
        s.push_str(&x);
    }
    s.push_str(q);
    if r.chance(1, 8) {
        s.push_str(r.pick(&["a", "u8", "_", "é"]));
    }
    s
}

/// [text, status, printed, tokens in a stream, status of parsing as a stream, its tokens, printed if not validated]
pub fn run_from_str(out: &str, chunks: usize, z: &Size) {
    let mut e = Emitter::new(out, "lit", chunks);
    #[cfg(feature = "mac")]
    let inside = crate::pm::inside();
    #[cfg(not(feature = "mac"))]
    let inside = false;
    let mut n = 0u32;
    let mut put = |s: &str| {
        current(s);
        n += 1;
        // the compiler complains about some literals for reasons that are not lexical, so inside a macro:
        // what is not a literal at all, and some that certainly are
        #[cfg(feature = "mac")]
        if inside && (crate::pm::valid(1, s).is_some() != sure(s) || n % 8 != 0 && n > 20000) {
            return;
        }
        let none = || a(vec![]);
        let rec = match guard(|| Literal::from_str(s)) {
            Ok(Ok(l)) => {
                let pr = l.to_string();
                let ts = guard(|| flat_j(TokenStream::from(TokenTree::Literal(l)))).unwrap_or(none());
                let (st, re) = match guard(|| s.parse::<TokenStream>().map(flat_j)) {
                    Ok(Ok(t)) => (1, t),
                    Ok(Err(_)) => (0, none()),
                    Err(_) => (2, none()),
                };
                let un = guard(|| unsafe { Literal::from_str_unchecked(s) }.to_string()).unwrap_or_default();
                a(vec![cps(s), i(1), cps(&pr), ts, i(st), re, cps(&un)])
            }
            Ok(Err(_)) => a(vec![cps(s), i(0), none(), none(), i(0), none()]),
            Err(_) => a(vec![cps(s), i(2), none(), none(), i(0), none()]),
        };
        e.emit(&rec);
    };
    if inside {
        for s in crate::build::LITS.iter().chain(crate::build::NEG) {
            put(s);
        }
    }
    literal_texts(z, &mut put);
    println!("{}", e.finish());
}
#[cfg(feature = "mac")]
fn sure(s: &str) -> bool {
    crate::build::LITS.contains(&s) || crate::build::NEG.contains(&s)
}

#[cfg(procmacro2_semver_exempt)]
fn values(l: &Literal) -> J {
    use proc_macro2::ConversionErrorKind as K;
    fn r<T>(x: Result<Result<T, K>, String>, f: impl Fn(T) -> J) -> J {
        match x {
            Ok(Ok(v)) => a(vec![i(1), f(v)]),
            Ok(Err(K::InvalidLiteralKind)) => a(vec![i(0), a(vec![])]),
            Ok(Err(_)) => a(vec![i(2), a(vec![])]),
            Err(_) => a(vec![i(3), a(vec![])]),
        }
    }
    a(vec![
        r(guard(|| l.str_value()), |s| cps(&s)),
        r(guard(|| l.byte_str_value()), |s| bytes(&s)),
        r(guard(|| l.cstr_value()), |s| bytes(&s)),
    ])
}
#[cfg(not(procmacro2_semver_exempt))]
fn values(_: &Literal) -> J {
    a(vec![])
}

/// [spelling, [string value], [byte string value], [C string value]]
pub fn run_values(out: &str, chunks: usize, z: &Size) {
    let mut e = Emitter::new(out, "val", chunks);
    let mut put = |l: &Literal| {
        let s = l.to_string();
        current(&s);
        let v = values(l);
        e.emit(&a(vec![cps(&s), v]));
    };
    literal_texts(z, &mut |s| {
        if let Ok(Ok(l)) = guard(|| Literal::from_str(s)) {
            put(&l);
        }
    });
    let mut r = Rng::new(z.seed ^ 0x22);
    for _ in 0..z.random * 2 {
        let s = strlit(&mut r);
        if let Ok(Ok(l)) = guard(|| Literal::from_str(&s)) {
            put(&l);
        }
    }
    // many line ends, escapes and continuations in one literal
    for &n in &[2usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 1025] {
        for x in ["\r\n", "a\r\n", "\n", "\\\r\n", "\\\n  ", "\\n", "\\x41", "\\u{e9}", "é\r\n", "\\\r\n\t\r\n"] {
            if n > 300 && x.len() > 2 && !z.thorough {
                continue;
            }
            let t = x.repeat(n);
            for (p, q) in [("\"", "\""), ("b\"", "\""), ("c\"", "\""), ("r\"", "\""), ("br#\"", "\"#"), ("cr\"", "\"")] {
                for tail in ["", "z", "\\\r\n"] {
                    if let Ok(Ok(l)) = guard(|| Literal::from_str(&format!("{}{}{}{}", p, t, tail, q))) {
                        put(&l);
                    }
                }
            }
        }
    }
    // literals reached in other ways: out of streams, doc comments, constructors
    for s in ["/// a \"q\" \\ é\n", "//! x\r\n", "/** a\n\r\n b */", "/*!\u{0}*/", "(/*ERROR*/)", "[\"x\"u8 r#\"y\"# b\"\\x00\" c\"z\"]"] {
        if let Ok(Ok(ts)) = guard(|| s.parse::<TokenStream>()) {
            visit(ts, &mut |t, _| {
                if let TokenTree::Literal(l) = t {
                    put(l);
                }
            });
        }
    }
    for c in 0..=0xffu32 {
        let c = char::from_u32(c).unwrap();
        for l in [Literal::character(c), Literal::string(&format!("{}{}", c, '0')), Literal::string(&c.to_string()), Literal::byte_character(c as u32 as u8), Literal::byte_string(&[c as u32 as u8, b'0'])] {
            put(&l);
        }
        if c != '\0' {
            let v = [c as u32 as u8, 0];
            put(&Literal::c_string(std::ffi::CStr::from_bytes_with_nul(&v).unwrap()));
        }
    }
    println!("{}", e.finish());
}
