//! C23: spans inside a procedural macro are locations and contexts.
#![cfg(feature = "mac")]
extern crate proc_macro;
use crate::corpus::Size;
use crate::json::*;
use crate::project::*;
use crate::rng::Rng;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::iter;

/// [[lo, hi], context], as the compiler describes it ("#7 bytes(12..15)")
fn whole(s: proc_macro::Span) -> J {
    let d = format!("{:?}", s);
    let n: Vec<i64> = d.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    a(vec![ints(&n[1..]), i(n[0])])
}

/// every span of the compiler's tokens, in order
fn theirs(s: proc_macro::TokenStream, out: &mut Vec<proc_macro::Span>) {
    for t in s {
        out.push(t.span());
        if let proc_macro::TokenTree::Group(g) = t {
            out.push(g.span_open());
            out.push(g.span_close());
            theirs(g.stream(), out);
        }
    }
}
fn mine(s: TokenStream, out: &mut Vec<Span>) {
    for t in s {
        out.push(t.span());
        if let TokenTree::Group(g) = t {
            let d = g.delim_span();
            out.push(if out.len() % 3 == 0 { d.open() } else { g.span_open() });
            out.push(if out.len() % 3 == 1 { d.close() } else { g.span_close() });
            mine(g.stream(), out);
        }
    }
}

const HOWS: i64 = 22;
/// tokens of every kind that were given the span s, and the spans they have then
fn carried(how: i64, s: Span) -> Vec<Span> {
    let cs = Span::call_site();
    let name = ["a", "fn", "é", "some_longer_name"][how as usize % 4];
    let mut v = Vec::new();
    let lit = |k: i64| match k % 7 {
        0 => Literal::string("x\"y"),
        1 => Literal::u8_suffixed(7),
        2 => Literal::f64_unsuffixed(1.5),
        3 => Literal::character('é'),
        4 => Literal::byte_string(b"z"),
        5 => "0x1F".parse().unwrap(),
        _ => Literal::c_string(c"w"),
    };
    let inner = || "b + (c)".parse::<TokenStream>().unwrap();
    match how {
        0 => v.push(Ident::new(name, s).span()),
        1 => v.push(Ident::new_raw(name, s).span()),
        2 => {
            let mut x = Ident::new(name, cs);
            x.set_span(s);
            v.push(x.span());
            let y = x.clone();
            x.set_span(cs);
            v.push(y.span());
        }
        3 => {
            let mut x = Ident::new_raw(name, cs);
            x.set_span(s);
            v.push(x.span());
        }
        4 => {
            let mut x = Punct::new('+', Spacing::Joint);
            x.set_span(s);
            v.push(x.span());
            v.push(x.clone().span());
        }
        5..=11 => {
            let mut x = lit(how);
            x.set_span(s);
            v.push(x.span());
            let y = x.clone();
            x.set_span(cs);
            v.push(y.span());
        }
        12 => {
            for d in [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None] {
                let mut g = Group::new(d, inner());
                g.set_span(s);
                v.extend([g.span(), g.span_open(), g.span_close(), g.delim_span().join(), g.delim_span().open(), g.delim_span().close()]);
                v.push(g.clone().span());
            }
        }
        13 => {
            for mut t in [TokenTree::from(Ident::new(name, cs)), Punct::new('-', Spacing::Alone).into(), lit(0).into(), Group::new(Delimiter::Brace, inner()).into()] {
                t.set_span(s);
                v.push(t.span());
                // to the compiler and back
                let p: proc_macro::TokenStream = TokenStream::from(t).into();
                v.extend(p.clone().into_iter().map(|t| Span::from(t.span())));
                v.extend(TokenStream::from(p).into_iter().map(|t| t.span()));
            }
        }
        14 => {
            // from the compiler's tokens
            let p = s.unwrap();
            let mut l = proc_macro::Literal::i32_unsuffixed(3);
            l.set_span(p);
            let mut q = proc_macro::Punct::new('=', proc_macro::Spacing::Alone);
            q.set_span(p);
            let mut g = proc_macro::Group::new(proc_macro::Delimiter::Bracket, proc_macro::TokenStream::from(proc_macro::TokenTree::from(proc_macro::Ident::new("q", p))));
            g.set_span(p);
            let ts: proc_macro::TokenStream = [proc_macro::TokenTree::from(proc_macro::Ident::new("p", p)), q.into(), l.into(), g.into()].into_iter().collect();
            mine(TokenStream::from(ts), &mut v);
        }
        15 => {
            // as part of streams put together in different ways
            let t = || TokenTree::from(Ident::new(name, s));
            let mut ts = TokenStream::new();
            ts.extend(iter::once(t()));
            ts.extend(iter::once(TokenStream::from(t())));
            ts.extend([t(), t()]);
            let copy = ts.clone();
            ts.extend([copy, TokenStream::from_iter([t()])]);
            mine(ts.clone(), &mut v);
            let mut p = Vec::new();
            theirs(ts.into(), &mut p);
            v.extend(p.into_iter().map(Span::from));
        }
        16 => {
            // inside groups; re-locating the group leaves them alone
            let mut x = Punct::new(';', Spacing::Alone);
            x.set_span(s);
            let mut g = Group::new(Delimiter::Brace, TokenTree::from(x).into());
            g.set_span(cs);
            v.extend(g.stream().into_iter().map(|t| t.span()));
            let mut h = Group::new(Delimiter::None, TokenTree::from(g).into());
            h.set_span(cs);
            for t in h.stream() {
                if let TokenTree::Group(g) = t {
                    v.extend(g.stream().into_iter().map(|t| t.span()));
                }
            }
        }
        17 => {
            // a negative number becomes two tokens
            let mut l = Literal::i32_suffixed(-5);
            l.set_span(s);
            mine(TokenTree::from(l).into(), &mut v);
            let mut l = Literal::f32_unsuffixed(-0.5);
            l.set_span(s);
            let mut ts = TokenStream::new();
            ts.extend([TokenTree::from(l)]);
            let mut p = Vec::new();
            theirs(ts.into(), &mut p);
            v.extend(p.into_iter().map(Span::from));
        }
        18 => {
            let c = s;
            v.extend([s, c, s.clone(), Span::from(s.unwrap()), Span::from(Span::from(c.unwrap()).unwrap())]);
        }
        19 => {
            // given a span twice: the last one counts
            for mut t in [TokenTree::from(Ident::new(name, Span::mixed_site())), Punct::new('.', Spacing::Joint).into(), lit(how).into(), Group::new(Delimiter::Parenthesis, inner()).into()] {
                t.set_span(Span::mixed_site());
                t.set_span(s);
                v.push(t.span());
                let ts: TokenStream = [t].into_iter().collect();
                v.extend(ts.into_iter().map(|t| t.span()));
            }
        }
        20 => {
            // in a group that is handed over
            let mut g = Group::new(Delimiter::Bracket, TokenStream::from_iter([TokenTree::from(Ident::new(name, s)), TokenTree::from(Ident::new_raw("x", s))]));
            g.set_span(s);
            let mut p = Vec::new();
            theirs(TokenStream::from(TokenTree::from(g)).into(), &mut p);
            v.extend(p.into_iter().map(Span::from));
        }
        _ => {
            // the neighbours' spans do not matter
            let ts = TokenStream::from_iter([TokenTree::from(Ident::new("l", cs)), Ident::new(name, s).into(), Ident::new("r", Span::mixed_site()).into()]);
            v.extend(ts.into_iter().skip(1).take(1).map(|t| t.span()));
        }
    }
    v
}

const FRESH: i64 = 7;
fn fresh(how: i64) -> Vec<Span> {
    let mut v = Vec::new();
    match how {
        0 => v.push(Punct::new('#', Spacing::Alone).span()),
        1 => {
            for d in [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None] {
                let g = Group::new(d, TokenTree::from(Ident::new("x", Span::mixed_site())).into());
                v.extend([g.span(), g.span_open(), g.span_close()]);
            }
        }
        2 => v.extend([Literal::string("a").span(), Literal::i8_suffixed(-1).span(), Literal::usize_unsuffixed(2).span(), Literal::f32_suffixed(1.0).span(), Literal::character('c').span(), Literal::byte_string(b"b").span(), Literal::c_string(c"c").span(), Literal::byte_character(b'x').span()]),
        3 => mine("a (b + 'c) [\"d\" {1.5}] r#e -7".parse().unwrap(), &mut v),
        4 => v.extend(["1", "-2.5", "\"s\"", "r#\"t\"#", "b'u'"].iter().map(|x| x.parse::<Literal>().unwrap().span())),
        5 => mine("/// doc\nx /** more */ y".parse().unwrap(), &mut v),
        // errors
        _ => {
            v.extend(["(", "a ]", "\"", "b `"].iter().map(|x| x.parse::<TokenStream>().unwrap_err().span()));
            v.extend(["", "a", "1 ", "- 1"].iter().map(|x| x.parse::<Literal>().unwrap_err().span()));
        }
    }
    v
}

struct World {
    base: Vec<proc_macro::Span>,
    spans: Vec<Span>,
    turn: i64,
}
impl World {
    fn apply(&mut self, o: &[i64]) -> Vec<Span> {
        let s = |x: i64| self.spans[x as usize - 1];
        match o[0] {
            1 => vec![Span::call_site()],
            2 => vec![Span::mixed_site()],
            #[cfg(procmacro2_semver_exempt)]
            3 => vec![Span::def_site()],
            4 => {
                let mut v = Vec::new();
                mine(crate::pm::given(), &mut v);
                vec![v[o[1] as usize - 4]]
            }
            5 => vec![Span::from(self.base[o[1] as usize - 1])],
            6 => vec![s(o[1]).resolved_at(s(o[2]))],
            7 => vec![s(o[1]).located_at(s(o[2]))],
            8 => carried(o[2], s(o[1])),
            9 => fresh(o[1]),
            10 => vec![Span::from(s(o[1]).unwrap().resolved_at(s(o[2]).unwrap()))],
            _ => unreachable!(),
        }
    }
    fn step(&mut self, mut o: Vec<i64>, e: &mut Emitter, k: usize, r: &mut Rng) -> bool {
        // the model leaves open which kind of token
        self.turn += 1;
        match (o[0], o.last()) {
            (8, Some(0)) => o[2] = self.turn % HOWS,
            (9, Some(0)) => o[1] = self.turn % FRESH,
            (4, _) if o[1] > 3 && (o[1] as usize) < 6 => o[1] = 4 + (o[1] - 4 + 2 * self.turn) % (self.base.len() as i64 - 3),
            _ => {}
        }
        let v = guard(|| self.apply(&o)).unwrap_or_default();
        let seen: Vec<J> = v.iter().map(|s| whole(s.unwrap())).collect();
        let mut equal = Vec::new();
        if let Some(s) = v.last() {
            if !self.spans.is_empty() {
                let j = r.below(self.spans.len());
                equal.extend(same(*s, self.spans[j]).map(|x| a(vec![i(j as i64 + 1), b(x)])));
            }
            self.spans.push(*s);
        }
        e.emit_to(k, &a(vec![ints(&o), a(seen), a(equal)]));
        !v.is_empty()
    }
}
#[cfg(procmacro2_semver_exempt)]
fn same(x: Span, y: Span) -> Option<bool> {
    Some(x.eq(&y))
}
#[cfg(not(procmacro2_semver_exempt))]
fn same(_: Span, _: Span) -> Option<bool> {
    None
}

pub fn run(out: &str, chunks: usize, z: &Size, histories: usize, len: usize, scripts: Option<&str>) {
    let mut e = Emitter::new(out, "hygiene", chunks);
    let input = crate::pm::input().unwrap();
    #[cfg(procmacro2_semver_exempt)]
    let def = proc_macro::Span::def_site();
    #[cfg(not(procmacro2_semver_exempt))]
    let def = proc_macro::Span::call_site();
    let mut base = vec![proc_macro::Span::call_site(), proc_macro::Span::mixed_site(), def];
    theirs(input, &mut base);
    let described = a(base.iter().map(|s| whole(*s)).collect());
    let mut r = Rng::new(z.seed ^ 0x2323);
    let mut w = World { base, spans: Vec::new(), turn: 0 };
    let mut k = 0;
    let n = w.base.len();
    let mut begin = |w: &mut World, e: &mut Emitter| {
        k += 1;
        w.spans.clear();
        e.emit_to(k, &a(vec![ints(&[0]), described.clone()]));
        k
    };
    if let Some(p) = scripts {
        for line in std::fs::read_to_string(p).unwrap().lines() {
            current(line);
            let k = begin(&mut w, &mut e);
            for o in parse(line).arr().iter().map(|o| o.arr().iter().map(|x| x.int()).collect::<Vec<i64>>()) {
                if !w.step(o, &mut e, k, &mut r) {
                    break;
                }
            }
        }
    }
    // every input token, every way of giving a token its span
    for j in 1..=n as i64 {
        let k = begin(&mut w, &mut e);
        if j > 3 {
            w.step(vec![4, j], &mut e, k, &mut r);
        }
        w.step(vec![5, j], &mut e, k, &mut r);
        for how in 0..HOWS {
            w.step(vec![8, 1, how], &mut e, k, &mut r);
        }
    }
    for _ in 0..histories {
        let k = begin(&mut w, &mut e);
        for _ in 0..len {
            let m = w.spans.len();
            let at = |r: &mut Rng| 1 + r.below(m) as i64;
            let o = match r.below(if m == 0 { 5 } else { 14 }) {
                0 => vec![1],
                1 => vec![2],
                2 if cfg!(procmacro2_semver_exempt) => vec![3],
                2 | 3 => vec![4, 4 + r.below(n - 3) as i64],
                4 => vec![5, if cfg!(procmacro2_semver_exempt) { 1 + r.below(n) as i64 } else { 4 + r.below(n - 3) as i64 }],
                5..=7 => vec![6, at(&mut r), at(&mut r)],
                8..=10 => vec![7, at(&mut r), at(&mut r)],
                11 => vec![10, at(&mut r), at(&mut r)],
                12 => vec![9, r.below(FRESH as usize) as i64],
                _ => vec![8, at(&mut r), r.below(HOWS as usize) as i64],
            };
            if !w.step(o, &mut e, k, &mut r) {
                break;
            }
        }
    }
    println!("{}", e.finish());
}
