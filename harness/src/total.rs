//! C02: any text, any size, any nesting depth.
use crate::corpus::{self, Size};
use crate::json::*;
use crate::project::*;
use crate::rng::Rng;
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree};
use std::str::FromStr;

pub const FAMILIES: &[(&str, &str, &str)] = &[
    ("(", "", ")"), ("[", "x", "]"), ("{", "", "}"), ("({[", "1", "]})"), ("(a ", "", " b)"), ("[a(", "-", ") + é]"), ("(a b c)(", "", ")"),
    ("(", "`", ")"), ("(", "", ""), ("", "", ")"), ("(", "", "]"), ("{[", "", "}]"), ("([", "\"", "])"), ("((", "", ")"),
    ("/*", "é", "*/"), ("/*", "", ""), ("/**/", "", ""), ("/* é */ ", "a", ""), ("a ", "", ""), ("a", "", ""), ("é", "", ""), ("-", "", ""), ("-1 ", "", ""), ("'a ", "", ""), ("'a'", "", ""),
    ("\"x\" ", "", ""), ("x", "\"", "x"), ("\"", "", "\""), ("/// d\n", "x", ""), ("/*! d */", "", ""), ("// c\n", "", ""), ("#", "", "#"), ("1", "", ""), ("1_", "", ""), ("1 ", "", ""), ("1.5e3 ", "", ""), ("0x1", "", ""),
    (" ", "", ""), ("\n", "a", "\u{a0}"), ("\r\n", "b", "\r\n"), ("b'x'", "", ""), ("\"\\u{1F980}\"", "", ""), ("\"\\\n ", "a", "\""), ("\\", "", ""), ("(/*ERROR*/)", "", ""), ("((/*ERROR*/)", "", ")"), ("r#a ", "", ""), ("{/** d */", "", "}"), ("\u{feff}", "", ""), ("[\u{200e}", "", "]"), ("+=", "", ""), ("a.b(c)", "", ";"), ("e1 ", "", ""), ("1e", "", ""),
];

fn text(f: (&str, &str, &str), n: usize) -> String {
    format!("{}{}{}", f.0.repeat(n), f.1, f.2.repeat(n))
}

/// (tokens, depth), without recursion
fn measure(ts: TokenStream) -> (i64, i64) {
    let (mut n, mut d, mut m) = (0, 0, 0);
    visit(ts, &mut |t, closing| {
        n += 1;
        if let TokenTree::Group(_) = t {
            if closing {
                d -= 1;
            } else {
                d += 1;
                m = m.max(d);
            }
        }
    });
    (n, m)
}

fn first_group(ts: TokenStream) -> Option<Group> {
    // the deepest path runs through the group with the most in it; families nest in the last or only group
    let mut best: Option<Group> = None;
    for t in ts {
        if let TokenTree::Group(g) = t {
            let nested = g.stream().into_iter().any(|t| matches!(t, TokenTree::Group(_)));
            if best.is_none() || nested {
                best = Some(g);
            }
        }
    }
    best
}

fn one(s: &str, op: i64, m: usize) -> (i64, i64, i64) {
    if op == 8 {
        return (Literal::from_str(s).is_ok() as i64, 0, 0);
    }
    if op == 9 {
        return (Literal::from_str(&format!("-{}", s)).is_ok() as i64, 0, 0);
    }
    let Ok(ts) = s.parse::<TokenStream>() else {
        return (0, 0, 0);
    };
    let (c, d) = match op {
        1 => measure(ts),
        2 => {
            let k = ts.clone();
            drop(ts);
            measure(k)
        }
        3 => {
            let mut held = Vec::new();
            let mut cur = ts;
            loop {
                held.push(cur.clone());
                match first_group(cur) {
                    Some(g) => cur = g.stream(),
                    None => break,
                }
            }
            let n = held.len() as i64 - 1;
            // release from the outside, from the inside, or every other one first
            match m % 3 {
                0 => held.into_iter().for_each(drop),
                1 => held.into_iter().rev().for_each(drop),
                _ => {
                    let (a, b): (Vec<_>, Vec<_>) = held.into_iter().enumerate().partition(|x| x.0 % 2 == 0);
                    drop(b);
                    drop(a);
                }
            }
            (n, n)
        }
        4 => {
            let mut ts = ts;
            let k = ts.clone();
            ts.extend(Some(k));
            measure(ts)
        }
        5 => {
            let mut ts = ts;
            for j in 0..m {
                let mut g = Group::new([Delimiter::Parenthesis, Delimiter::None, Delimiter::Brace][j % 3], ts);
                g.set_span(Span::call_site());
                ts = TokenStream::from(TokenTree::from(g));
            }
            measure(ts)
        }
        6 => {
            let total = ts.clone().into_iter().count();
            let mut it = ts.into_iter();
            let mut taken = TokenStream::new();
            for _ in 0..total / 2 {
                taken.extend(it.next());
            }
            let spare = it.clone();
            taken.extend(it);
            drop(spare);
            measure(taken)
        }
        7 => {
            let mut cur = ts.clone();
            let mut copies = Vec::new();
            loop {
                let mut copy = cur.clone();
                copy.extend(Some(TokenTree::from(Ident::new("x", Span::call_site()))));
                copies.push(copy);
                match first_group(cur) {
                    Some(g) => cur = g.stream(),
                    None => break,
                }
            }
            if m % 2 == 0 {
                drop(copies);
                measure(ts)
            } else {
                let r = measure(ts.clone());
                drop(ts);
                drop(copies);
                r
            }
        }
        _ => unreachable!(),
    };
    (1, c, d)
}

/// whatever can be done with a stream
fn exercise(ts: TokenStream) {
    let mut copy = ts.clone();
    copy.extend([ts.clone(), copy.clone()]);
    for t in ts {
        copy.extend(Some(t));
    }
    drop(copy.clone());
    measure(copy);
}

fn short(e: &mut Emitter, s: &str, keep: bool) {
    current(s);
    let st = match guard(|| s.parse::<TokenStream>().map(exercise).is_ok()) {
        Ok(ok) => ok as i64,
        Err(_) => 2,
    };
    if keep || st == 2 {
        e.emit(&a(vec![i(1), cps(s), i(0), i(st)]));
    }
    let st = match guard(|| Literal::from_str(s).is_ok()) {
        Ok(ok) => ok as i64,
        Err(_) => 2,
    };
    if keep || st == 2 {
        e.emit(&a(vec![i(1), cps(s), i(1), i(st)]));
    }
}

pub fn families(path: &str) {
    let mut out = Vec::new();
    for f in FAMILIES {
        a(vec![cps(f.0), cps(f.1), cps(f.2)]).write(&mut out);
        out.push(b'\n');
    }
    std::fs::write(path, out).unwrap();
}

pub fn run(out: &str, chunks: usize, z: &Size, n: usize) {
    let mut e = Emitter::new(out, "total", chunks);
    families(&format!("{}/families", out));
    // huge texts, on a small stack
    for &f in FAMILIES {
        for (j, &op) in [1i64, 2, 3, 4, 5, 6, 7, 3, 3, 7, 8, 9].iter().enumerate() {
            let m = if op == 5 { n } else { j };
            let len = if op == 1 { 3 * n } else { n };
            current(&format!("{:?} repeated {} times, operation {}", f, len, op));
            let s = text(f, len);
            let (tx, rx) = std::sync::mpsc::channel();
            let th = std::thread::Builder::new().stack_size(192 << 10).spawn(move || {
                let r = guard(|| one(&s, op, m)).unwrap_or((2, 0, 0));
                tx.send(r).unwrap();
            });
            let r = rx.recv_timeout(std::time::Duration::from_secs(120)).unwrap_or_else(|_| {
                eprintln!("no answer within 120 s");
                std::process::exit(1)
            });
            th.unwrap().join().unwrap();
            e.emit(&a(vec![i(2), a(vec![cps(f.0), cps(f.1), cps(f.2)]), i(len), i(op), i(m), i(r.0), i(r.1), i(r.2)]));
        }
    }
    // raw strings with more and more hashes
    for k in [0usize, 1, 2, 254, 255, 256, 257, 300] {
        for p in ["r", "br", "cr"] {
            let h = "#".repeat(k);
            for s in [format!("{p}{h}\"a\"{h}"), format!("{p}{h}\"a\"{h}#"), format!("{p}{h}\"a\""), format!("{p}{h}a"), format!("{p}{h}")] {
                short(&mut e, &s, k < 3 || k > 253);
            }
        }
    }
    // every prefix and suffix of texts full of everything; any mixture of characters
    let mut r = Rng::new(z.seed ^ 0x0202);
    let mut count = 0usize;
    let odd: Vec<char> = "ab_r#'\"\\/*!()[]{}.-+0123xeEbocuU{}\n\r\t \u{0}\u{7f}\u{80}\u{85}éß東\u{feff}\u{200e}\u{301}🦀𝒳\u{10ffff}\u{fffd}".chars().collect();
    let rounds = z.random * if z.thorough { 60 } else { 8 };
    for k in 0..rounds {
        let s = match k % 4 {
            0 => corpus::random_source(&mut r),
            1 => {
                let n = 1 + r.below(12);
                (0..n).map(|_| *r.pick(&odd)).collect()
            }
            2 => {
                let n = 1 + r.below(8);
                let v = corpus::random_valid(&mut r, n);
                corpus::mutate(&mut r, &v)
            }
            _ => {
                let v = corpus::random_source(&mut r);
                corpus::mutate(&mut r, &v)
            }
        };
        count += 1;
        short(&mut e, &s, count % 16 == 0);
        if k % 8 == 0 {
            for (p, _) in s.char_indices() {
                count += 1;
                short(&mut e, &s[..p], count % 64 == 0);
                short(&mut e, &s[p..], count % 64 == 0);
            }
        }
    }
    for x in corpus::FRAGMENTS {
        for (p, _) in x.char_indices() {
            short(&mut e, &x[..p], true);
            short(&mut e, &x[p..], true);
        }
    }
    // and everything the other checks parse
    corpus::sources(z, &mut |s| short(&mut e, s, false));
    corpus::every_char(z, &mut |s| short(&mut e, s, false));
    corpus::wrapped(2, &mut |s| short(&mut e, s, false));
    corpus::raw(&mut |s| short(&mut e, s, false));
    crate::span::comments(z, &mut |s| short(&mut e, s, false));
    corpus::large(z, &corpus::Large { nest: 5000, groups: true, huge: true }, &mut |s| short(&mut e, s, false));
    println!("{}", e.finish());
}
