//! C03, C04: printing and parsing back.
use crate::build;
use crate::corpus::{self, Size};
use crate::json::*;
use crate::project::*;
use crate::rng::Rng;
use proc_macro2::{Span, TokenStream, TokenTree};

/// [origin, tokens, [distinct printed texts], status of parsing the first text, its tokens]
fn record(e: &mut Emitter, origin: i64, ts: TokenStream, texts: Vec<String>) {
    let mut t: Vec<String> = Vec::new();
    for x in texts {
        if !t.contains(&x) {
            t.push(x);
        }
    }
    current(&t[0]);
    let (st, re) = match guard(|| t[0].parse::<TokenStream>().map(flat_j)) {
        Ok(Ok(x)) => (1, x),
        Ok(Err(_)) => (0, a(vec![])),
        Err(_) => (2, a(vec![])),
    };
    e.emit(&a(vec![
        i(origin),
        flat_j(ts),
        a(t.iter().map(|x| cps(x)).collect()),
        i(st),
        re,
    ]));
}

fn one(e: &mut Emitter, origin: i64, ts: TokenStream, full: bool) {
    let mut texts = vec![ts.to_string()];
    if full {
        texts.push(format!("{:>40}", ts));
        texts.push(format!("{:#}", ts));
        texts.push(format!("{:.3}", ts));
        texts.push(format!("{:^07}", ts.clone()));
        for t in ts.clone() {
            if let TokenTree::Group(g) = &t {
                let tx = vec![
                    t.to_string(),
                    g.to_string(),
                    format!("{:>30}", g),
                    format!("{:#}", g),
                    format!("{:.1}", t),
                    TokenStream::from(t.clone()).to_string(),
                ];
                record(e, origin, Some(t.clone()).into_iter().collect(), tx);
            }
        }
    }
    record(e, origin, ts, texts);
}

pub fn run(out: &str, chunks: usize, z: &Size) {
    let mut e = Emitter::new(out, "print", chunks);
    // parsed streams
    let mut n = 0usize;
    let step = if z.thorough { 1 } else { 2 };
    corpus::sources(z, &mut |s| {
        current(s);
        if let Ok(Ok(ts)) = guard(|| s.parse::<TokenStream>()) {
            n += 1;
            let long = s.chars().count() > 5;
            if !long && n % step != 0 {
                return;
            }
            one(&mut e, 1, ts, n % 16 == 0);
        }
    });
    corpus::every_char(z, &mut |s| {
        current(s);
        if let Ok(Ok(ts)) = guard(|| s.parse::<TokenStream>()) {
            n += 1;
            one(&mut e, 1, ts, n % 16 == 0);
        }
    });
    corpus::large(z, &corpus::Large { nest: 1025, groups: true, huge: false }, &mut |s| {
        current(s);
        if let Ok(Ok(ts)) = guard(|| s.parse::<TokenStream>()) {
            n += 1;
            one(&mut e, 1, ts, n % 16 == 0);
        }
    });
    // hand-built streams
    let mut r = Rng::new(z.seed ^ 0x9e3779b97f4a7c15);
    build::exhaustive(if z.thorough { 3 } else { 2 }, &mut |v| {
        let mut q = Rng::new(v.len() as u64 + 7);
        if let Ok(ts) = guard(|| build::stream(&mut q, v, None)) {
            one(&mut e, 2, ts, true);
        }
    });
    let span = "α + (β γ) /* */ 1"
        .parse::<TokenStream>()
        .ok()
        .and_then(|t| t.into_iter().nth(2))
        .map(|t| t.span())
        .unwrap_or_else(Span::call_site);
    for k in 0..z.random * 2 {
        let len = 1 + r.below(7);
        let none = k % 3 == 0;
        let mut v = build::random_toks(&mut r, len, 3, none);
        if k % 2 == 0 {
            v = build::tame(v);
        }
        if let Ok(ts) = guard(|| build::stream(&mut r, &v, Some(span))) {
            one(&mut e, 2, ts, k % 4 == 0);
        }
    }
    println!("{}", e.finish());
}
