//! Hand-assembled streams: random token sequences, put together in many different ways.
use crate::rng::Rng;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::str::FromStr;

#[derive(Clone, Debug)]
pub enum Tok {
    Id(String),
    Raw(String),
    Pu(char, bool),
    /// spelling; a leading minus is allowed for numbers
    Li(String),
    Gr(Delimiter, Vec<Tok>),
}

pub const PUNCT: &str = "~!@#$%^&*-=+|;:,<.>/?'";
const IDS: &[&str] = &["a", "_", "r", "b", "c", "br", "self", "fn", "é", "東京", "x1", "__", "doc"];
const RAWS: &[&str] = &["a", "fn", "é", "r", "__"];
pub const LITS: &[&str] = &[
    "0", "1", "1u8", "1.", "1.0", "1e9", "1.5e-3f32", "0xff", "0b1_0", "\"\"", "\"a b\"", "\"\\\"\"", "\"é\n\"", "'a'", "'\\''", "'\"'", "b'x'", "b\"\\xff\"", "c\"q\"",
    "r\"\"", "r#\"a\"b\"#", "br\"x\"", "cr#\"y\"#", "\"a\"sfx", "1_000_000i64", "\"//\"", "\"/*\"", "'🦀'",
];
pub const NEG: &[&str] = &["-1", "-1.5", "-0x1f", "-1i8", "-2e9", "-00", "-0_1u8", "-00.5", "-0b01", "-1__"];
pub const DELIMS: [Delimiter; 4] = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None];

pub fn random_toks(r: &mut Rng, n: usize, depth: usize, none: bool) -> Vec<Tok> {
    let mut v = Vec::new();
    while v.len() < n {
        match r.below(12) {
            0..=2 => v.push(Tok::Id(r.pick(IDS).to_string())),
            3 => v.push(Tok::Raw(r.pick(RAWS).to_string())),
            4..=6 => {
                let p: Vec<char> = PUNCT.chars().collect();
                v.push(Tok::Pu(*r.pick(&p), r.chance(1, 2)));
                if r.chance(1, 3) {
                    v.push(Tok::Pu(*r.pick(&p), false));
                }
            }
            7 => {
                v.push(Tok::Pu('\'', true));
                v.push(Tok::Id(r.pick(IDS).to_string()));
            }
            8 | 9 => v.push(Tok::Li(if r.chance(1, 6) { r.pick(NEG).to_string() } else { r.pick(LITS).to_string() })),
            _ if depth > 0 => {
                let d = DELIMS[r.below(if none { 4 } else { 3 })];
                let k = r.below(4);
                v.push(Tok::Gr(d, random_toks(r, k, depth - 1, none)));
            }
            _ => {}
        }
    }
    v
}

/// Random stream whose text denotes it, as far as the generator is concerned
pub fn tame(v: Vec<Tok>) -> Vec<Tok> {
    let mut out: Vec<Tok> = Vec::new();
    let n = v.len();
    for (k, t) in v.iter().enumerate() {
        out.push(match t {
            Tok::Pu('\'', _) => match v.get(k + 1) {
                Some(Tok::Id(_) | Tok::Raw(_)) if k + 1 < n => Tok::Pu('\'', true),
                _ => Tok::Pu('~', false),
            },
            Tok::Pu(c, true) => match v.get(k + 1) {
                Some(Tok::Pu(d, _)) if !(*c == '/' && (*d == '/' || *d == '*')) && *d != '\'' => Tok::Pu(*c, true),
                _ => Tok::Pu(*c, false),
            },
            Tok::Gr(Delimiter::None, w) => Tok::Gr(Delimiter::Bracket, tame(w.clone())),
            Tok::Gr(d, w) => Tok::Gr(*d, tame(w.clone())),
            t => t.clone(),
        });
    }
    out
}

pub fn tree(r: &mut Rng, t: &Tok, span: Option<Span>) -> TokenTree {
    let mut x: TokenTree = match t {
        Tok::Id(s) => Ident::new(s, Span::call_site()).into(),
        Tok::Raw(s) => Ident::new_raw(s, Span::call_site()).into(),
        Tok::Pu(c, j) => Punct::new(*c, if *j { Spacing::Joint } else { Spacing::Alone }).into(),
        Tok::Li(s) => Literal::from_str(s).unwrap().into(),
        Tok::Gr(d, v) => Group::new(*d, stream(r, v, span)).into(),
    };
    if let Some(sp) = span {
        if r.chance(1, 2) {
            x.set_span(sp);
        }
    }
    x
}

/// The same tokens, assembled in a randomly chosen way.
pub fn stream(r: &mut Rng, v: &[Tok], span: Option<Span>) -> TokenStream {
    match r.below(8) {
        0 => {
            let w: Vec<TokenTree> = v.iter().map(|t| tree(r, t, span)).collect();
            w.into_iter().collect()
        }
        1 => {
            let mut ts = TokenStream::new();
            for t in v {
                let x = tree(r, t, span);
                ts.extend(Some(x));
            }
            ts
        }
        2 => {
            let mut ts = TokenStream::new();
            for t in v {
                let x = TokenStream::from(tree(r, t, span));
                ts.extend(Some(x));
            }
            ts
        }
        3 if v.len() > 1 => {
            let k = r.below(v.len());
            let a = stream(r, &v[..k], span);
            let b = stream(r, &v[k..], span);
            vec![a, b].into_iter().collect()
        }
        4 if v.len() > 1 => {
            // grow a shared stream
            let k = r.below(v.len());
            let mut a = stream(r, &v[..k], span);
            let keep = a.clone();
            let b = stream(r, &v[k..], span);
            a.extend(b);
            drop(keep);
            a
        }
        5 => {
            // iterate partly and collect the rest
            let pre = TokenTree::from(Punct::new('!', Spacing::Joint));
            let mut w: TokenStream = Some(pre).into_iter().collect();
            w.extend(v.iter().map(|t| tree(r, t, span)).collect::<Vec<_>>());
            let keep = w.clone();
            let mut it = w.into_iter();
            it.next();
            drop(keep);
            it.collect()
        }
        6 => {
            // through a group
            let g = Group::new(Delimiter::None, {
                let w: Vec<TokenTree> = v.iter().map(|t| tree(r, t, span)).collect();
                w.into_iter().collect()
            });
            g.stream()
        }
        _ => {
            let w: Vec<TokenStream> = v.iter().map(|t| TokenStream::from(tree(r, t, span))).collect();
            w.into_iter().collect()
        }
    }
}

/// Every sequence of at most `max` tokens over a small alphabet (groups included).
pub fn exhaustive(max: usize, f: &mut dyn FnMut(&[Tok])) {
    let mut alpha = vec![
        Tok::Id("a".into()),
        Tok::Id("_".into()),
        Tok::Raw("fn".into()),
        Tok::Li("1".into()),
        Tok::Li("1.".into()),
        Tok::Li("\"\"".into()),
        Tok::Li("'a'".into()),
        Tok::Li("-1".into()),
    ];
    for c in "'/*+!".chars() {
        alpha.push(Tok::Pu(c, false));
        alpha.push(Tok::Pu(c, true));
    }
    for d in DELIMS {
        alpha.push(Tok::Gr(d, vec![]));
        alpha.push(Tok::Gr(d, vec![Tok::Id("x".into())]));
        alpha.push(Tok::Gr(d, vec![Tok::Pu('+', true)]));
        alpha.push(Tok::Gr(d, vec![Tok::Gr(Delimiter::None, vec![])]));
    }
    let mut cur = Vec::new();
    fn go(alpha: &[Tok], left: usize, cur: &mut Vec<Tok>, f: &mut dyn FnMut(&[Tok])) {
        f(cur);
        if left > 0 {
            for t in alpha {
                cur.push(t.clone());
                go(alpha, left - 1, cur, f);
                cur.pop();
            }
        }
    }
    go(&alpha, max, &mut cur, f);
}
