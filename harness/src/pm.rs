//! Inside a procedural macro.
extern crate proc_macro;
use crate::json::*;
use crate::store::{intern, SpanFn};
use proc_macro2::{Span, TokenStream};
use std::cell::RefCell;

thread_local! {
    static INPUT: RefCell<Option<proc_macro::TokenStream>> = const { RefCell::new(None) };
}

pub fn enter(input: proc_macro::TokenStream) {
    INPUT.with(|x| *x.borrow_mut() = Some(input));
}
pub fn leave() {
    INPUT.with(|x| *x.borrow_mut() = None);
}
pub fn input() -> Option<proc_macro::TokenStream> {
    INPUT.with(|x| x.borrow().clone())
}
pub fn inside() -> bool {
    INPUT.with(|x| x.borrow().is_some())
}

/// Identity of a span of the compiler.
pub fn place(s: Span) -> J {
    let d = format!("{:?}", s.unwrap());
    if d == format!("{:?}", proc_macro::Span::call_site()) {
        return ints(&[0, 0, 0]);
    }
    a(vec![i(intern(d)), i(0), i(0)])
}
pub fn nowhere(_: Span) -> J {
    ints(&[0, 0, 0])
}

/// The call site, the other hygiene, and the places of the macro's input tokens.
pub fn palette() -> Vec<Span> {
    let mut v = vec![Span::call_site(), Span::mixed_site()];
    v.extend(input().unwrap().into_iter().map(|t| Span::from(t.span())));
    v
}
pub fn given() -> TokenStream {
    TokenStream::from(input().unwrap())
}
pub fn to_compiler(s: TokenStream) -> proc_macro::TokenStream {
    s.into()
}

/// The projection of store.rs, through the compiler's own interface.
pub fn stream_j(s: proc_macro::TokenStream, place: SpanFn) -> J {
    use proc_macro::TokenTree;
    let at = |s: proc_macro::Span| place(Span::from(s));
    a(s.into_iter()
        .map(|t| match t {
            TokenTree::Ident(x) => a(vec![i(1), at(x.span()), cps(&x.to_string())]),
            TokenTree::Punct(x) => a(vec![i(2), at(x.span()), i(x.as_char() as u32), b(x.spacing() == proc_macro::Spacing::Joint)]),
            TokenTree::Literal(x) => a(vec![i(3), at(x.span()), cps(&x.to_string())]),
            TokenTree::Group(g) => a(vec![
                i(4),
                at(g.span()),
                i(match g.delimiter() {
                    proc_macro::Delimiter::Parenthesis => 1,
                    proc_macro::Delimiter::Brace => 2,
                    proc_macro::Delimiter::Bracket => 3,
                    proc_macro::Delimiter::None => 0,
                }),
                stream_j(g.stream(), place),
                at(g.span_open()),
                at(g.span_close()),
            ]),
        })
        .collect())
}

/// A stream put together with the compiler's own interface (TokenStore.Composed), by
/// collecting, by extending one by one, or by concatenating streams.
pub fn compose(how: i64, what: &[i64]) -> proc_macro::TokenStream {
    use proc_macro::*;
    let cs = Span::call_site();
    let one = |k: &i64| -> TokenTree {
        match k {
            0 => Ident::new("m", cs).into(),
            1 => Punct::new(';', Spacing::Alone).into(),
            2 => Literal::u8_suffixed(7).into(),
            3 => Group::new(Delimiter::Bracket, TokenStream::from(TokenTree::from(Ident::new("n", cs)))).into(),
            _ => Punct::new('#', Spacing::Joint).into(),
        }
    };
    match how {
        0 => what.iter().map(one).collect(),
        1 => {
            let mut s = TokenStream::new();
            for k in what {
                s.extend(Some(one(k)));
            }
            s
        }
        _ => what.iter().map(|k| TokenStream::from(one(k))).collect(),
    }
}

/// Tokens through the compiler's own interface, in the flat form of project.rs.
/// Whether a tree prints as the compiler prints it.
pub fn prints_alike(t: &proc_macro2::TokenTree) -> J {
    use proc_macro2::TokenTree;
    let c: Vec<proc_macro::TokenTree> = to_compiler(TokenStream::from(t.clone())).into_iter().collect();
    if c.len() != 1 {
        return ints(&[1, 1]); // a negative literal
    }
    let dbg = match t {
        TokenTree::Punct(p) => {
            format!("{:?}", t) == format!("Punct {{ char: {:?}, spacing: {:?}, span: {:?} }}", p.as_char(), p.spacing(), p.span().unwrap())
        }
        TokenTree::Group(g) => format!("{:?}{:#?}", g, t) == format!("{:?}{:#?}", c[0], c[0]).replace("TokenTree::", ""),
        TokenTree::Ident(g) => {
            format!("{:?}{:#?}", g, g) == format!("{:?}{:#?}", c[0], c[0]) && format!("{:?}", t) == format!("Ident {{ sym: {}, span: {:?} }}", c[0], c[0].span())
        }
        TokenTree::Literal(g) => format!("{:?}{:#?}", g, t) == format!("{:?}{:#?}", c[0], c[0]),
    };
    a(vec![b(t.to_string() == c[0].to_string()), b(dbg)])
}

/// The kinds and spellings of the tokens the compiler gets when a stream of either implementation is handed to it
/// (through text if it is not the compiler's): nothing if tokens in it cannot be told by their text.
pub fn handed_over(s: TokenStream) -> J {
    let mut plain = true;
    crate::project::visit(s.clone(), &mut |t, _| match t {
        proc_macro2::TokenTree::Punct(p) => plain &= ",;=+-<>&|".contains(p.as_char()),
        proc_macro2::TokenTree::Group(g) => plain &= g.delimiter() != proc_macro2::Delimiter::None,
        proc_macro2::TokenTree::Literal(x) => plain &= !x.to_string().starts_with('('),
        _ => {}
    });
    if !plain {
        return a(vec![]);
    }
    let mut out = Vec::new();
    fn walk(s: proc_macro::TokenStream, out: &mut Vec<J>) {
        for t in s {
            match t {
                proc_macro::TokenTree::Ident(x) => out.push(cps(&x.to_string())),
                proc_macro::TokenTree::Literal(x) => out.push(cps(&x.to_string())),
                proc_macro::TokenTree::Punct(x) => out.push(cps(&x.as_char().to_string())),
                proc_macro::TokenTree::Group(x) => {
                    let d = match x.delimiter() {
                        proc_macro::Delimiter::Parenthesis => ["(", ")"],
                        proc_macro::Delimiter::Brace => ["{", "}"],
                        proc_macro::Delimiter::Bracket => ["[", "]"],
                        proc_macro::Delimiter::None => ["", ""],
                    };
                    out.push(cps(d[0]));
                    walk(x.stream(), out);
                    out.push(cps(d[1]));
                }
            }
        }
    }
    walk(to_compiler(s), &mut out);
    a(vec![a(out)])
}

fn flat(ts: proc_macro::TokenStream, out: &mut Vec<J>) {
    use proc_macro::TokenTree;
    let text = |tag: i64, s: String| a(std::iter::once(i(tag)).chain(s.chars().map(|c| i(c as u32))).collect());
    for t in ts {
        match t {
            TokenTree::Ident(x) => out.push(text(1, x.to_string())),
            TokenTree::Punct(x) => out.push(ints(&[2, x.as_char() as i64, (x.spacing() == proc_macro::Spacing::Joint) as i64])),
            TokenTree::Literal(x) => out.push(text(3, x.to_string())),
            TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    proc_macro::Delimiter::Parenthesis => 1,
                    proc_macro::Delimiter::Brace => 2,
                    proc_macro::Delimiter::Bracket => 3,
                    proc_macro::Delimiter::None => 0,
                };
                out.push(ints(&[4, d]));
                flat(g.stream(), out);
                out.push(ints(&[5, d]));
            }
        }
    }
}
fn flat_j(ts: proc_macro::TokenStream) -> J {
    let mut v = Vec::new();
    flat(ts, &mut v);
    a(v)
}

/// [kind, text, status, tokens, status of the compiler's own parser, its tokens]; kind 0 stream, 1 literal
fn both(kind: i64, s: &str) -> J {
    use crate::project::guard;
    use proc_macro2::{Literal, TokenTree};
    let part = |r: Result<Option<J>, String>| match r {
        Ok(Some(t)) => (1, t),
        Ok(None) => (0, a(vec![])),
        Err(_) => (2, a(vec![])),
    };
    let mine = part(guard(|| {
        if kind == 0 {
            s.parse::<TokenStream>().ok().map(crate::project::flat_j)
        } else {
            s.parse::<Literal>().ok().map(|l| crate::project::flat_j(TokenTree::from(l).into()))
        }
    }));
    if mine.0 == 0 && valid(kind, s).is_none() {
        return a(vec![i(kind), cps(s), i(0), a(vec![]), i(0), a(vec![])]);
    }
    let theirs = part(guard(|| {
        if kind == 0 {
            s.parse::<proc_macro::TokenStream>().ok().map(flat_j)
        } else {
            s.parse::<proc_macro::Literal>().ok().map(|l| flat_j(proc_macro::TokenTree::from(l).into()))
        }
    }));
    a(vec![i(kind), cps(s), i(mine.0), mine.1, i(theirs.0), theirs.1])
}

/// The fallback's opinion.
pub fn valid(kind: i64, s: &str) -> Option<J> {
    use crate::project::guard;
    use proc_macro2::{Literal, TokenTree};
    proc_macro2::fallback::force();
    let r = guard(|| {
        if kind == 0 {
            s.parse::<TokenStream>().ok().map(crate::project::flat_j)
        } else {
            s.parse::<Literal>().ok().map(|l| crate::project::flat_j(TokenTree::from(l).into()))
        }
    });
    proc_macro2::fallback::unforce();
    r.unwrap_or(None)
}

/// C18: text parsed inside a macro. bad: only text that is malformed, none of which may reach the compiler.
pub fn run_parse(out: &str, chunks: usize, z: &crate::corpus::Size, bad: bool) {
    let mut e = Emitter::new(out, "pmparse", chunks);
    let mut n = 0u64;
    let mut r = crate::rng::Rng::new(z.seed ^ 0x18);
    crate::corpus::sources(z, &mut |s| {
        n += 1;
        if !z.thorough && n % 4 != 0 && r.below(8) != 0 {
            return;
        }
        for kind in [0, 1] {
            if kind == 1 && n % 3 != 0 {
                continue;
            }
            crate::project::current(s);
            if bad == valid(kind, s).is_none() {
                e.emit(&both(kind, s));
            }
        }
    });
    if !bad {
        // streams of the fallback handed to the compiler
        let texts: Vec<&str> = crate::store::TEXTS.iter().copied().filter(|t| !t.contains("//") && !t.contains("/*")).collect();
        for _ in 0..z.random / 4 {
            let s: String = (0..1 + r.below(4)).map(|_| *r.pick(&texts)).collect::<Vec<_>>().join(*r.pick(&[" ", "\n", " ; "]));
            crate::project::current(&s);
            proc_macro2::fallback::force();
            let ts = s.parse::<TokenStream>().unwrap();
            let mine = crate::project::flat_j(ts.clone());
            if r.below(2) == 0 {
                proc_macro2::fallback::unforce();
            }
            let rec = match crate::project::guard(|| flat_j(ts.into())) {
                Ok(t) => a(vec![i(2), cps(&s), i(1), mine, i(1), t]),
                Err(_) => a(vec![i(2), cps(&s), i(1), mine, i(2), a(vec![])]),
            };
            proc_macro2::fallback::unforce();
            e.emit(&rec);
        }
    }
    println!("{}", e.finish());
}

/// C21: [number, tokens, locations, [call site, mixed site], pairs, parts of literals, names]
#[cfg(not(any(feature = "loc", procmacro2_semver_exempt)))]
pub fn at(_: proc_macro::TokenStream) {}
#[cfg(any(feature = "loc", procmacro2_semver_exempt))]
pub fn at(input: proc_macro::TokenStream) {
    use crate::project::{flat_j, guard, visit};
    use crate::rng::Rng;
    use crate::span::{desc, spans_of};
    use proc_macro2::TokenTree;
    use std::io::Write;
    crate::project::quiet();
    let ts = TokenStream::from(input);
    let id: i64 = ts.clone().into_iter().next().unwrap().to_string().parse().unwrap();
    let mut r = Rng::new(id as u64 + 77);
    let path = std::path::PathBuf::from(std::env::var("PM2H_FILE").unwrap());
    let mut all: Vec<(i64, TokenTree)> = Vec::new();
    let mut n = 0;
    visit(ts.clone(), &mut |t, closing| {
        n += 1;
        if !closing {
            all.push((n, t.clone()));
        }
    });
    // (the compiler locates both parts of a lifetime at the whole of it)
    let quote = |t: &TokenTree| matches!(t, TokenTree::Punct(p) if p.as_char() == '\'');
    let plain: Vec<(i64, TokenTree)> = (0..all.len()).filter(|&k| !quote(&all[k].1) && (k == 0 || !quote(&all[k - 1].1))).map(|k| all[k].clone()).collect();
    #[cfg(procmacro2_semver_exempt)]
    let same = |p: Span, q: Span| a(vec![b(p.eq(&q))]);
    #[cfg(not(procmacro2_semver_exempt))]
    let same = |_: Span, _: Span| a(vec![]);
    let opt = |x: Option<Span>| a(x.map(desc).into_iter().collect());
    let rec = guard(|| {
        let pairs: Vec<J> = (0..all.len().min(12))
            .map(|_| {
                let (x, y) = (r.pick(&plain).clone(), r.pick(&plain).clone());
                let (p, q) = (x.1.span(), y.1.span());
                a(vec![i(x.0), i(y.0), opt(p.join(q)), desc(p.resolved_at(q)), desc(p.located_at(q)), same(p, q), same(p, p)])
            })
            .collect();
        let mut parts = Vec::new();
        for (k, t) in &all {
            let TokenTree::Literal(l) = t else { continue };
            let s = l.to_string();
            let ends: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len(), s.len() + 1 + r.below(3)]).collect();
            for _ in 0..3 {
                let (x, y) = (*r.pick(&ends), *r.pick(&ends));
                let sub = match r.below(5) {
                    0 if y > 0 && s.is_ascii() => l.subspan(x..=y - 1),
                    1 if y == s.len() => l.subspan(x..),
                    2 if x == 0 => l.subspan(..y),
                    _ => l.subspan(x..y),
                };
                parts.push(a(vec![i(*k), i(x), i(y), opt(sub)]));
            }
        }
        let names = all.iter().all(|(_, t)| t.span().file() == path.to_str().unwrap() && t.span().local_file().as_ref() == Some(&path))
            && Span::call_site().file() == path.to_str().unwrap()
            && Span::call_site().local_file().as_ref() == Some(&path);
        a(vec![i(id), flat_j(ts.clone()), spans_of(ts.clone()), a(vec![desc(Span::call_site()), desc(Span::mixed_site())]), a(pairs), a(parts), b(names)])
    });
    let mut out = Vec::new();
    rec.unwrap_or_else(|_| ints(&[id])).write(&mut out);
    out.push(b'\n');
    std::fs::OpenOptions::new().create(true).append(true).open(std::env::var("PM2H_OUT").unwrap()).unwrap().write_all(&out).unwrap();
}
