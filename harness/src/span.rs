//! C05, C11, C16: tokens with their locations.
use crate::corpus::{self, Size};
use crate::json::*;
use crate::project::*;
use crate::rng::Rng;
use proc_macro2::{Literal, Span, TokenStream, TokenTree};
use std::str::FromStr;

/// [byte start, byte end, start line, start column, end line, end column, [text]]
#[cfg(any(feature = "loc", procmacro2_semver_exempt))]
pub fn desc(s: Span) -> J {
    let r = s.byte_range();
    let (x, y) = (s.start(), s.end());
    a(vec![
        i(r.start),
        i(r.end),
        i(x.line),
        i(x.column),
        i(y.line),
        i(y.column),
        match s.source_text() {
            Some(t) => a(vec![cps(&t)]),
            None => a(vec![]),
        },
    ])
}
#[cfg(not(any(feature = "loc", procmacro2_semver_exempt)))]
pub fn desc(_: Span) -> J {
    a(vec![])
}

fn distinct(v: Vec<J>) -> J {
    let mut out: Vec<J> = Vec::new();
    for d in v {
        if !out.contains(&d) {
            out.push(d);
        }
    }
    a(out)
}

/// The locations of all tokens, asked for forwards, backwards or in no order.
pub fn spans_of(ts: TokenStream) -> J {
    let mut spans: Vec<Span> = Vec::new();
    // per token, per kind of location, how many spans
    let mut shape: Vec<Vec<usize>> = Vec::new();
    visit(ts, &mut |t, closing| {
        let parts = match t {
            TokenTree::Group(_) if closing => vec![],
            TokenTree::Group(g) => {
                let d = g.delim_span();
                vec![vec![g.span(), t.span(), d.join()], vec![g.span_open(), d.open()], vec![g.span_close(), d.close()]]
            }
            TokenTree::Ident(x) => vec![vec![t.span(), x.span()]],
            TokenTree::Punct(x) => vec![vec![t.span(), x.span()]],
            TokenTree::Literal(x) => vec![vec![t.span(), x.span()]],
        };
        shape.push(parts.iter().map(Vec::len).collect());
        spans.extend(parts.into_iter().flatten());
    });
    let n = spans.len();
    let mut order: Vec<usize> = (0..n).collect();
    match n % 4 {
        0 | 1 => {}
        2 => order.reverse(),
        _ => {
            let mut r = Rng::new(n as u64);
            for k in (1..n).rev() {
                order.swap(k, r.below(k + 1));
            }
        }
    }
    let mut found: Vec<Option<J>> = (0..n).map(|_| None).collect();
    for k in order {
        found[k] = Some(desc(spans[k]));
    }
    let mut found = found.into_iter().map(Option::unwrap);
    a(shape.into_iter().map(|parts| a(parts.into_iter().map(|k| distinct(found.by_ref().take(k).collect())).collect())).collect())
}

/// [source, 0 stream | 1 literal, status, tokens, spans]
/// status: 1 parsed, 0 error, 2 panic while parsing, 3 panic while asking for locations
pub fn record(s: &str, lit: bool) -> J {
    current(s);
    let none = || a(vec![]);
    let (st, toks, spans) = if lit {
        match guard(|| Literal::from_str(s)) {
            Ok(Ok(l)) => {
                let t = a(vec![leaf(&TokenTree::Literal(l.clone()))]);
                match guard(|| a(vec![a(vec![distinct(vec![desc(l.span())])])])) {
                    Ok(d) => (1, t, d),
                    Err(_) => (3, t, none()),
                }
            }
            Ok(Err(e)) => match guard(|| a(vec![a(vec![a(vec![desc(e.span())])])])) {
                Ok(d) => (0, none(), d),
                Err(_) => (3, none(), none()),
            },
            Err(_) => (2, none(), none()),
        }
    } else {
        match guard(|| s.parse::<TokenStream>()) {
            Ok(Ok(ts)) => {
                let t = flat_j(ts.clone());
                match guard(|| spans_of(ts)) {
                    Ok(d) => (1, t, d),
                    Err(_) => (3, t, none()),
                }
            }
            Ok(Err(e)) => match guard(|| a(vec![a(vec![a(vec![desc(e.span())])])])) {
                Ok(d) => (0, none(), d),
                Err(_) => (3, none(), none()),
            },
            Err(_) => (2, none(), none()),
        }
    };
    a(vec![cps(s), i(lit as i64), i(st), toks, spans])
}

pub fn comments(z: &Size, f: &mut dyn FnMut(&str)) {
    let body: Vec<char> = if z.thorough { "a/*! \n\r\"\\é'\0" } else { "a/*!\n\r\"\\é" }.chars().collect();
    let around = [("", ""), ("a", "b"), ("(", ")"), ("1 +", "+\n"), ("\r\n'x", "y")];
    let mut k = 0usize;
    for open in ["//", "///", "//!", "////", "/*", "/**", "/*!", "/***"] {
        corpus::exhaustive(&body, 3, &mut |b| {
            for close in ["", "*/", "\n", "\r\n", "*/*/", "\n*/"] {
                k += 1;
                let n = if z.thorough { around.len() } else { 1 };
                for j in 0..n {
                    let (p, q) = around[(k + j) % around.len()];
                    f(&format!("{}{}{}{}{}", p, open, b, close, q));
                }
            }
        });
    }
    // comments inside comments: every way to open, close and look like either
    let parts = ["/*", "*/", "//", "x", "*", "/"];
    for open in ["/*", "/**", "/*!", "/*/*", "/*!/*", "/*/*/*"] {
        let m = if z.thorough { 6 } else { 4 };
        for n in 0..=m {
            for c in 0..parts.len().pow(n) {
                let mut t = String::from(open);
                let mut c = c;
                for _ in 0..n {
                    t.push_str(parts[c % parts.len()]);
                    c /= parts.len();
                }
                f(&t);
                if n > 1 {
                    t.push_str(" a */ b */ c");
                    f(&t);
                }
            }
        }
    }
    let mut r = Rng::new(z.seed ^ 78);
    for _ in 0..z.random / 2 {
        let mut s = String::from(*r.pick(&["/*", "/**", "/*!", "a/*"]));
        let mut depth = 1;
        for _ in 0..2 + r.below(14) {
            let x = *r.pick(&["/*", "/*", "*/", "*/", "//", "/**", "**/", "/*!", "/", "*", " ", "x", "é", "\n", "\r\n", "*//", "/*/", "\"", "'"]);
            s.push_str(x);
            depth += x.contains("/*") as i32 - x.ends_with("*/") as i32;
        }
        if r.chance(3, 4) {
            s.push_str(&"*/ ".repeat(depth.max(0) as usize));
            s.push_str(" y");
        }
        f(&s);
    }
    // what follows a carriage return
    for open in ["//", "///", "//!", "/*", "/**", "/*!", "\"", "b\"", "c\"", "r\"", ""] {
        let close = if open.starts_with("/*") { "*/z" } else if open.ends_with('"') { "\" z" } else { "\nz" };
        for c in ('\0'..'\u{100}').chain("\u{2028}\u{2029}\u{200e}\u{200f}\u{3000}\u{feff}\u{10d}\u{20a}東🦀".chars()) {
            f(&format!("{}\r{}{}", open, c, close));
            if "\n\r\u{b}\u{c}\u{85}\u{2028}".contains(c) {
                f(&format!("{}a\r\n\r{}b\r\n{}", open, c, close));
                f(&format!("{}a\r{}\r\n{}", open, c, close));
                f(&format!("{}a{}{}", open, c, close));
            }
        }
    }
    // two comments in a row, and trivia of every kind between tokens
    let pieces = [
        "// c\n", "//\n", "/* c */", "/**/", "/***/", "/* /* n */ */", "/// d\n", "//! d\n", "/** d */", "/*! d */", "/// d\r\n", "//// c\n", " ", "\t", "\r\n", "\u{85}", "\u{200e}", "\u{2028}", "\u{3000}", "\u{c}",
    ];
    for p in pieces {
        for q in pieces {
            f(&format!("a{}{}b", p, q));
            f(&format!("+{}={}", p, q));
            f(&format!("{{{}}}{}x", p, q));
        }
    }
    let mut r = Rng::new(z.seed ^ 77);
    for _ in 0..z.random {
        let mut s = String::new();
        for _ in 0..1 + r.below(6) {
            s.push_str(r.pick(&pieces));
            s.push_str(r.pick(&["a", "+", "+", "'b", "1", "\"x\"", "", "é", "(x)", "{ }"]));
        }
        let m = corpus::mutate(&mut r, &s);
        f(&s);
        f(&m);
    }
}

/// texts that fail for every reason, at every depth
fn broken(z: &Size, f: &mut dyn FnMut(&str)) {
    let mut r = Rng::new(z.seed ^ 991);
    for &x in corpus::FRAGMENTS {
        for w in ["{}", "({})", "é {}", "([{}", "é\n/*é*/ ({}) b", "{})", "{{ é [{}]", "\u{feff}{}", "/*é*/\n{} ", "é({}", "\"é\n\"{}"] {
            f(&w.replacen("{}", x, 1));
        }
    }
    for _ in 0..z.random {
        let n = 1 + r.below(10);
        let mut s = corpus::random_valid(&mut r, n);
        // break it
        let bad = *r.pick(&["`", "\\", ")", "]", "}", "(", "[", "{", "'", "\"", "'ab", "1a\u{301}\u{b7}`", "/*", "/**", "/*!", "b'", "r#\"", "\0", "©", "0b2", "///a\rb\n", "'\u{301}", "r##a", "\"\\q\"", "🦀"]);
        let idx: Vec<usize> = s.char_indices().map(|x| x.0).chain(Some(s.len())).collect();
        let p = *r.pick(&idx);
        s.insert_str(p, bad);
        f(&s);
    }
}

pub fn run(out: &str, chunks: usize, z: &Size, which: &str) {
    let mut e = Emitter::new(out, "span", chunks);
    let mut n = 0usize;
    match which {
        "comments" => {
            comments(z, &mut |s| e.emit(&record(s, false)));
            corpus::every_char(z, &mut |s| {
                if s.contains('/') {
                    e.emit(&record(s, false));
                }
            });
            corpus::large(z, &corpus::Large { nest: 0, groups: false, huge: true }, &mut |s| {
                if s.contains("//") || s.contains("/*") || s.contains("  ") || s.contains("\n\n") {
                    e.emit(&record(s, false));
                }
            });
        }
        "errors" => {
            broken(z, &mut |s| e.emit(&record(s, false)));
            corpus::sources(z, &mut |s| {
                n += 1;
                if z.thorough || n % 4 == 0 || s.chars().count() > 6 {
                    e.emit(&record(s, false));
                }
            });
            corpus::every_char(z, &mut |s| e.emit(&record(s, false)));
            corpus::large(z, &corpus::Large { nest: 5000, groups: true, huge: true }, &mut |s| {
                if guard(|| s.parse::<TokenStream>().is_err()).unwrap_or(true) {
                    e.emit(&record(s, false));
                }
            });
            for x in corpus::FRAGMENTS {
                e.emit(&record(x, true));
                e.emit(&record(&format!(" {}", x), true));
                e.emit(&record(&format!("-{}", x), true));
                e.emit(&record(&format!("{} ", x), true));
            }
        }
        _ => {
            let mut r = Rng::new(z.seed ^ 5);
            corpus::sources(z, &mut |s| {
                n += 1;
                if z.thorough || n % 4 == 0 || s.chars().count() > 6 {
                    e.emit(&record(s, false));
                }
            });
            for x in corpus::FRAGMENTS {
                e.emit(&record(x, true));
                e.emit(&record(&format!("-{}", x), true));
                for w in ["é{}", "é\n{}", "\r\n\u{feff}é (\n {}é\n)", "\u{feff}[🦀\n{}]", "/*\n🦀*/{}\n\n{ }", "\"🦀\n\"\n{}"] {
                    e.emit(&record(&w.replacen("{}", x, 1), false));
                }
            }
            corpus::wrapped(1, &mut |s| e.emit(&record(s, true)));
            corpus::every_char(z, &mut |s| {
                n += 1;
                if z.thorough || n % 3 == 0 {
                    e.emit(&record(&format!("é{}\n(é)", s), false));
                }
            });
            corpus::large(z, &corpus::Large { nest: 129, groups: true, huge: true }, &mut |s| e.emit(&record(s, false)));
            for g in corpus::LONG {
                for n in [100, 1000, 5000] {
                    e.emit(&record(&g(n), true));
                }
            }
            for _ in 0..z.random {
                let n = 5 + r.below(40);
                let s = corpus::random_valid(&mut r, n);
                e.emit(&record(&s, false));
            }
            for k in 0..16 {
                let n = if k > 13 { 2500 } else { 100 * (1 + k % 4) };
                let s = corpus::random_valid(&mut r, n);
                e.emit(&record(&s, false));
            }
        }
    }
    println!("{}", e.finish());
}
