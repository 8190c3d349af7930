//! C22: what {:?} and {:#?} show.
use crate::corpus::{self, Size};
use crate::json::*;
use crate::project::*;
use crate::rng::Rng;
use crate::store::{self, Machine, Slot};
use proc_macro2::{TokenStream, TokenTree};

/// Rewrites "bytes(A..B)": how 0 without numbers, 1 relative to the smallest A, 2 the length only.
/// Absolute offsets are nobody's business.
fn normal(s: &str, how: i64) -> String {
    let parse = |t: &str| -> Option<(i64, i64, usize)> {
        let end = t.find(')')?;
        let (x, y) = t[..end].split_once("..")?;
        Some((x.parse().ok()?, y.parse().ok()?, end))
    };
    let min = s.split("bytes(").skip(1).filter_map(|t| parse(t)).map(|x| x.0).min().unwrap_or(0);
    let mut parts = s.split("bytes(");
    let mut out = String::from(parts.next().unwrap());
    for t in parts {
        out.push_str("bytes(");
        match parse(t) {
            None => out.push_str(t),
            Some((x, y, end)) => {
                match how {
                    0 => {}
                    1 => out.push_str(&format!("{}..{}", x - min, y - min)),
                    _ => out.push_str(&format!("{}", y - x)),
                }
                out.push_str(&t[end..]);
            }
        }
    }
    out
}

/// [locations?, how, kind, value, {:?}, {:#?}]; kind 1 stream, 2 iterator, 3 tree, 4 the token inside the tree
fn emit(e: &mut Emitter, how: i64, kind: i64, value: J, show: impl Fn() -> (String, String)) {
    let loc = cfg!(any(feature = "loc", procmacro2_semver_exempt));
    let (x, y) = guard(|| show()).unwrap_or_default();
    e.emit(&a(vec![b(loc), i(how), i(kind), value, cps(&normal(&x, how)), cps(&normal(&y, how))]));
}

fn both(x: &dyn std::fmt::Debug) -> (String, String) {
    (format!("{:?}", x), format!("{:#?}", x))
}

fn trees(e: &mut Emitter, how: i64, t: &TokenTree) {
    let v = || store::tree_j(t, store::place);
    emit(e, how, 3, v(), || both(t));
    emit(e, how, 4, v(), || match t {
        TokenTree::Group(x) => both(x),
        TokenTree::Ident(x) => both(x),
        TokenTree::Punct(x) => both(x),
        TokenTree::Literal(x) => both(x),
    });
}

pub fn run(out: &str, chunks: usize, z: &Size) {
    let mut e = Emitter::new(out, "debug", chunks);
    let mut n = 0usize;
    let mut r = Rng::new(z.seed ^ 0x2222);
    let mut text = |e: &mut Emitter, s: &str| {
        let Ok(Ok(ts)) = guard(|| s.parse::<TokenStream>()) else { return };
        current(s);
        store::forget_files();
        let how = s.is_ascii() as i64;
        let v = |t: TokenStream| store::stream_j(t, store::place);
        emit(e, how, 1, v(ts.clone()), || both(&ts));
        let mut it = ts.clone().into_iter();
        let skip = r.below(3);
        for _ in 0..skip {
            if let Some(t) = it.next() {
                if r.chance(1, 4) {
                    trees(e, how, &t);
                }
            }
        }
        emit(e, how, 2, a(it.clone().map(|t| store::tree_j(&t, store::place)).collect()), || both(&it));
    };
    corpus::sources(z, &mut |s| {
        n += 1;
        if z.thorough || n % 32 == 0 || (s.chars().count() > 6 && n % 6 == 0) {
            text(&mut e, s);
        }
    });
    for x in corpus::FRAGMENTS {
        text(&mut e, x);
        text(&mut e, &format!("({}\n) a", x));
    }
    // many tokens, long spellings, deep nesting
    for n in [9usize, 17, 33, 65, 70, 101, 129, 140, 257, 300, 513, 600] {
        for x in ["a ", "+", "(b) ", "1.5 ", "'c ", "\"\\\"\" ", "[;{}] "] {
            if x.len() < 3 || n < 300 || z.thorough {
                text(&mut e, &x.repeat(n));
            }
        }
        text(&mut e, &"id_".repeat(n));
        text(&mut e, &format!("\"{}\"", "s\n".repeat(n)));
        if n <= 33 {
            text(&mut e, &format!("{}x{}", "(".repeat(n), ")".repeat(n)));
            text(&mut e, &format!("{}{}", "{ y [".repeat(n / 2), "]z}".repeat(n / 2)));
        }
    }
    // tokens made and changed by hand, shared and not
    let pal = store::palette();
    for k in 0..if z.thorough { 4000 } else { 300 } {
        let mut m = Machine::new(5, pal.clone(), store::place, crate::alloc::untracked);
        for _ in 0..24 {
            let o = m.random_op(&mut r, k % 2 == 0, true);
            if !m.step(&o, 0).1 {
                break;
            }
            let s = &m.slots[r.below(5)];
            store::forget_files();
            match s {
                Slot::E => {}
                Slot::S(x) => emit(&mut e, 2, 1, store::stream_j(x.clone(), store::place), || both(x)),
                Slot::I(x) => emit(&mut e, 2, 2, a(x.clone().map(|t| store::tree_j(&t, store::place)).collect()), || both(x)),
                Slot::T(x) => trees(&mut e, 2, x),
            }
        }
    }
    println!("{}", e.finish());
}
