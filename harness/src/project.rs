//! Projection of token streams to the specification's flat form:
//! [1, cps..] identifier   [2, ch, joint] punctuation   [3, cps..] literal
//! [4, d] open  [5, d] close, d: 1 () 2 {} 3 [] 0 invisible
use crate::json::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn delim(d: Delimiter) -> i64 {
    match d {
        Delimiter::Parenthesis => 1,
        Delimiter::Brace => 2,
        Delimiter::Bracket => 3,
        Delimiter::None => 0,
    }
}

fn text(tag: i64, s: &str) -> J {
    let mut v = vec![J::I(tag)];
    v.extend(s.chars().map(|c| J::I(c as i64)));
    J::A(v)
}

pub fn leaf(t: &TokenTree) -> J {
    match t {
        TokenTree::Ident(x) => text(1, &x.to_string()),
        TokenTree::Punct(p) => ints(&[
            2,
            p.as_char() as i64,
            (p.spacing() == Spacing::Joint) as i64,
        ]),
        TokenTree::Literal(l) => text(3, &l.to_string()),
        TokenTree::Group(g) => ints(&[4, delim(g.delimiter())]),
    }
}

/// Flat list of tokens, without recursion (nesting may be very deep).
pub fn flat(ts: TokenStream) -> Vec<J> {
    let mut out = Vec::new();
    visit(ts, &mut |t, closing| {
        out.push(match t {
            TokenTree::Group(g) if closing => ints(&[5, delim(g.delimiter())]),
            t => leaf(t),
        });
    });
    out
}

/// Calls f for every token in order; for a group, before and (closing = true) after its content.
pub fn visit(ts: TokenStream, f: &mut dyn FnMut(&TokenTree, bool)) {
    let mut stack: Vec<(proc_macro2::token_stream::IntoIter, Option<TokenTree>)> =
        vec![(ts.into_iter(), None)];
    loop {
        let Some((it, _)) = stack.last_mut() else {
            return;
        };
        match it.next() {
            Some(TokenTree::Group(g)) => {
                let inner = g.stream().into_iter();
                let t = TokenTree::Group(g);
                f(&t, false);
                stack.push((inner, Some(t)));
            }
            Some(t) => f(&t, false),
            None => {
                let (_, g) = stack.pop().unwrap();
                if let Some(g) = g {
                    f(&g, true);
                }
            }
        }
    }
}

pub fn flat_j(ts: TokenStream) -> J {
    J::A(flat(ts))
}

pub enum Out<T> {
    Ok(T),
    Err,
    Panic,
}

/// Runs f, turning a panic into data.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            String::from("?")
        }
    })
}
pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Notes the input being processed, so that a crash or hang can be attributed.
pub fn current(s: &str) {
    use std::cell::RefCell;
    use std::fs::File;
    use std::os::unix::fs::FileExt;
    thread_local!(static CUR: RefCell<Option<Option<File>>> = RefCell::new(None));
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        let f = c.get_or_insert_with(|| {
            std::env::var_os("PM2H_CURRENT").map(|p| File::create(p).unwrap())
        });
        if let Some(f) = f {
            let mut b = (s.len() as u64).to_le_bytes().to_vec();
            b.extend_from_slice(s.as_bytes());
            let _ = f.write_all_at(&b, 0);
        }
    });
}
