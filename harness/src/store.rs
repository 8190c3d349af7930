//! C14, C15, C18, C19: histories of operations on streams, iterators and trees, executed for real and
//! logged as events of the TokenStore specification.
use crate::json::*;
use crate::project::{current, delim, guard};
use crate::rng::Rng;
use proc_macro2::token_stream::IntoIter;
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::cell::RefCell;
use std::str::FromStr;

const OPS: &[i64] = &[1, 2, 2, 3, 3, 3, 4, 5, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14, 14, 15, 15, 15, 16, 16, 17, 18, 19, 19, 20, 21, 23, 24, 25, 26, 27, 28, 29, 31, 45, 45, 46, 47, 48, 49, 50, 51, 52, 53];
/// inside a macro: mostly the deferred appends and what forces them
const MAC_OPS: &[i64] = &[1, 2, 2, 3, 3, 3, 4, 5, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14, 14, 15, 15, 15, 16, 16, 17, 18, 19, 19, 20, 21, 23, 24, 25, 26, 27, 28, 29, 31, 5, 5, 5, 6, 6, 7, 8, 12, 13, 27, 27, 32, 32, 34, 34, 36, 37, 37, 38, 45, 45, 46, 46, 47, 48, 49, 50, 51, 52, 53, 36, 54, 22];
const MIXED_OPS: &[i64] = &[1, 2, 2, 3, 3, 3, 4, 5, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14, 14, 15, 15, 15, 16, 16, 17, 18, 19, 19, 20, 21, 23, 24, 25, 26, 27, 28, 29, 31, 41, 41, 42, 42, 43, 43, 20, 20, 21, 23, 45, 45, 46, 47, 48, 49, 50, 51, 52, 44, 44, 54, 54, 54, 54, 22, 22];

/// texts of literals that constructors make
const LITERALS: &[&str] = &[
    "7", "-5", "0", "-3i8", "4i8", "\"ab\"", "\"\"", "1.5", "-2.5", "-9223372036854775808", "1u8", "2u16", "3u32", "4u64", "5u128", "6usize", "-7i16", "8i32", "-9i64", "10i128", "-11isize", "12i16", "13i64", "14isize",
    "1.5f32", "-2.5f64", "2.5f64", "-0.5f32", "8", "9", "10", "11", "-6", "-7", "-8", "-9", "1.25", "-12.5", "'c'", "'é'", "b'x'", "b\"yz\"", "b\"\"", "c\"w\"", "c\"\"",
];

pub enum Slot {
    E,
    S(TokenStream),
    I(IntoIter),
    T(TokenTree),
}

pub const TEXTS: &[&str] = &[
    "", "a", "a b", "+ -", "+-= x", "(a)", "{ [ ] }", "(a (b) c) d", "'a", "1 2.5 \"s\"", "-1", "((((x))))", "r#fn [1] {2}", "/// doc\nx", "a.b(c)[d]{e};", "/*! in */ /* out */ z", "(/*ERROR*/)", "[(){}]", "b'x' c\"y\" r\"z\"",
];

const BROKEN: &[&str] = &["a (b [c] {d} + 'e", "(x y]", "a b c)", "((((z))))) w", "/// doc\n(", "[1 \"s\" r#fn] `", "{ [ ( a } ] )"];

thread_local! {
    static FILES: RefCell<Vec<String>> = RefCell::new(Vec::new());
}
pub fn intern(s: String) -> i64 {
    FILES.with(|f| {
        let mut f = f.borrow_mut();
        match f.iter().position(|x| *x == s) {
            Some(k) => k as i64 + 1,
            None => {
                f.push(s);
                f.len() as i64
            }
        }
    })
}
pub fn forget_files() {
    FILES.with(|f| f.borrow_mut().clear());
}

pub type SpanFn = fn(Span) -> J;

/// [file, lo, hi]; call site [0, 0, 0]
#[cfg(any(feature = "loc", procmacro2_semver_exempt))]
pub fn place(s: Span) -> J {
    let r = s.byte_range();
    if r.start == 0 && r.end == 0 && s.source_text().is_none() {
        return ints(&[0, 0, 0]);
    }
    a(vec![i(intern(s.file())), i(r.start), i(r.end)])
}
#[cfg(not(any(feature = "loc", procmacro2_semver_exempt)))]
pub fn place(_: Span) -> J {
    ints(&[0, 0, 0])
}

pub fn nowhere(_: Span) -> J {
    ints(&[0, 0, 0])
}

pub struct Machine {
    pub slots: Vec<Slot>,
    seen: Vec<J>,
    pub palette: Vec<Span>,
    pub place: SpanFn,
    /// exact spans are known to the specification
    pub live: fn() -> i64,
    pub base: i64,
    /// streams are kept below this many tokens
    pub limit: usize,
    /// only punctuation the compiler never glues together (it merges the spans of what it glues)
    pub loose: bool,
    /// inside a macro
    pub mac: bool,
    /// objects of both implementations
    pub mixed: bool,
}

pub fn tree_j(t: &TokenTree, place: SpanFn) -> J {
    let j = typed_j(t, place);
    // the tree's own span is the token's
    match j {
        J::A(mut v) if place(t.span()) != v[1] => {
            v.push(place(t.span()));
            J::A(v)
        }
        j => j,
    }
}
fn typed_j(t: &TokenTree, place: SpanFn) -> J {
    match t {
        TokenTree::Ident(x) => a(vec![i(1), place(x.span()), cps(&x.to_string())]),
        TokenTree::Punct(x) => a(vec![i(2), place(x.span()), i(x.as_char() as u32), b(x.spacing() == Spacing::Joint)]),
        TokenTree::Literal(x) => a(vec![i(3), place(x.span()), cps(&x.to_string())]),
        TokenTree::Group(g) => {
            let ds = g.delim_span();
            let mut v = vec![i(4), place(g.span()), i(delim(g.delimiter())), stream_j(g.stream(), place), place(g.span_open()), place(g.span_close())];
            // the delimiters' spans together are the same
            if [place(ds.join()), place(ds.open()), place(ds.close())] != [v[1].clone(), v[4].clone(), v[5].clone()] {
                v.extend([place(ds.join()), place(ds.open()), place(ds.close())]);
            }
            a(v)
        }
    }
}
/// yields some, then panics
struct Trap<T>(std::vec::IntoIter<T>);
impl<T> Iterator for Trap<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        Some(self.0.next().unwrap_or_else(|| panic!("trap")))
    }
}
/// an iterator whose length is not known in advance
fn vague<T>(v: Vec<T>) -> impl Iterator<Item = T> {
    v.into_iter().filter(|_| std::hint::black_box(true))
}
/// A literal of the given text, made by the constructor for its kind
pub fn literal_of(s: &str) -> Literal {
    macro_rules! suffixes {
        ($($t:ident $f:ident)*) => { $( if let Some(n) = s.strip_suffix(stringify!($t)) { return Literal::$f(n.parse().unwrap()); } )* };
    }
    let inner = |k: usize| &s[k..s.len() - 1];
    match s.as_bytes()[0] {
        b'"' => return Literal::string(inner(1)),
        b'\'' => return Literal::character(inner(1).chars().next().unwrap()),
        b'b' if s.starts_with("b\"") => return Literal::byte_string(inner(2).as_bytes()),
        b'b' => return Literal::byte_character(s.as_bytes()[2]),
        b'c' => return Literal::c_string(&std::ffi::CString::new(inner(2)).unwrap()),
        _ => {}
    }
    suffixes! { u8 u8_suffixed u16 u16_suffixed u32 u32_suffixed u64 u64_suffixed u128 u128_suffixed usize usize_suffixed
    i8 i8_suffixed i16 i16_suffixed i32 i32_suffixed i64 i64_suffixed i128 i128_suffixed isize isize_suffixed f32 f32_suffixed f64 f64_suffixed }
    if s.contains('.') {
        return if s.len() % 2 == 0 { Literal::f32_unsuffixed(s.parse().unwrap()) } else { Literal::f64_unsuffixed(s.parse().unwrap()) };
    }
    let n: i64 = s.parse().unwrap();
    match n {
        0 => Literal::u8_unsuffixed(0),
        7 => Literal::usize_unsuffixed(7),
        8 => Literal::u16_unsuffixed(8),
        9 => Literal::u32_unsuffixed(9),
        10 => Literal::u64_unsuffixed(10),
        11 => Literal::u128_unsuffixed(11),
        -5 => Literal::i8_unsuffixed(-5),
        -6 => Literal::i16_unsuffixed(-6),
        -7 => Literal::i32_unsuffixed(-7),
        -8 => Literal::i128_unsuffixed(-8),
        -9 => Literal::isize_unsuffixed(-9),
        n => Literal::i64_unsuffixed(n),
    }
}
pub fn stream_j(s: TokenStream, place: SpanFn) -> J {
    a(s.into_iter().map(|t| tree_j(&t, place)).collect())
}

/// A value as it is recorded: JSON readers do not like very deep values, these are written flat,
/// groups as [4, span, delimiter, open span, close span] ... [5]
pub fn recorded(kind: i64, v: J) -> J {
    fn depth(t: &J) -> usize {
        match t.arr() {
            [J::I(4), _, _, ts, _, _] => 1 + ts.arr().iter().map(depth).max().unwrap_or(0),
            _ => 0,
        }
    }
    fn flat(t: &J, out: &mut Vec<J>) {
        match t.arr() {
            [J::I(4), sp, d, ts, x, y] => {
                out.push(a(vec![i(4), sp.clone(), d.clone(), x.clone(), y.clone()]));
                for t in ts.arr() {
                    flat(t, out);
                }
                out.push(ints(&[5]));
            }
            _ => out.push(t.clone()),
        }
    }
    let ts: Vec<&J> = if kind == 3 { vec![&v] } else { v.arr().iter().collect() };
    if ts.iter().all(|t| depth(t) <= 40) {
        return a(vec![i(kind), v]);
    }
    let mut out = Vec::new();
    for t in ts {
        flat(t, &mut out);
    }
    a(vec![i(10 + kind), a(out)])
}

impl Machine {
    pub fn new(n: usize, palette: Vec<Span>, place: SpanFn, live: fn() -> i64) -> Machine {
        Machine {
            slots: (0..n).map(|_| Slot::E).collect(),
            seen: vec![a(vec![]); n],
            palette,
            place,
            live,
            base: 0,
            limit: 24,
            loose: false,
            mac: false,
            mixed: false,
        }
    }
    pub fn reset_event(&self) -> J {
        a(vec![
            ints(&[0]),
            i(self.slots.len()),
            a(self.palette.iter().map(|s| (self.place)(*s)).collect()),
        ])
    }
    /// From here on, storage the slots hold is measured.
    pub fn settle(&mut self) {
        self.seen = Vec::new();
        self.base = (self.live)();
        self.seen = vec![a(vec![]); self.slots.len()];
    }
    fn value(&self, k: usize) -> J {
        let p = self.place;
        match &self.slots[k] {
            Slot::E => a(vec![]),
            Slot::S(s) => recorded(1, stream_j(s.clone(), p)),
            Slot::I(it) => recorded(2, a(it.clone().map(|t| tree_j(&t, p)).collect())),
            Slot::T(t) => recorded(3, tree_j(t, p)),
        }
    }
    fn s(&self, k: usize) -> TokenStream {
        match &self.slots[k - 1] {
            Slot::S(s) => s.clone(),
            _ => panic!("harness: not a stream"),
        }
    }
    fn s_mut(&mut self, k: usize) -> &mut TokenStream {
        match &mut self.slots[k - 1] {
            Slot::S(s) => s,
            _ => panic!("harness: not a stream"),
        }
    }
    fn t(&self, k: usize) -> TokenTree {
        match &self.slots[k - 1] {
            Slot::T(t) => t.clone(),
            _ => panic!("harness: not a tree"),
        }
    }
    fn take(&mut self, k: usize) -> Slot {
        std::mem::replace(&mut self.slots[k - 1], Slot::E)
    }
    fn take_s(&mut self, k: usize) -> TokenStream {
        match self.take(k) {
            Slot::S(s) => s,
            _ => panic!("harness: not a stream"),
        }
    }
    fn take_i(&mut self, k: usize) -> IntoIter {
        match self.take(k) {
            Slot::I(s) => s,
            _ => panic!("harness: not an iterator"),
        }
    }

    /// Executes one operation; (answer, made)
    fn exec(&mut self, o: &[i64]) -> (J, J) {
        let u = |k: usize| o[k] as usize;
        let none = || a(vec![]);
        let d = if o.len() > 1 { u(1) } else { 0 };
        let txt = |k: usize| -> String { o[k..].iter().map(|&c| char::from_u32(c as u32).unwrap()).collect() };
        macro_rules! set {
            ($v:expr) => {{
                let v = $v;
                self.slots[d - 1] = v;
            }};
        }
        let (mut ans, mut made) = (none(), none());
        match o[0] {
            1 => set!(Slot::S(if o.len() > 2 { TokenStream::default() } else { TokenStream::new() })),
            2 => {
                // what a failed attempt had read must not stay either
                let bad = BROKEN[(u(2) + d) % BROKEN.len()];
                assert!(bad.parse::<TokenStream>().is_err(), "harness: {}", bad);
                assert!(bad.parse::<Literal>().is_err(), "harness: {}", bad);
                let ts: TokenStream = TEXTS[u(2)].parse().unwrap();
                set!(Slot::S(ts));
                made = a(vec![self.value(d - 1)]);
            }
            3 => {
                let v = match &self.slots[u(2) - 1] {
                    Slot::E => Slot::E,
                    Slot::S(s) => Slot::S(s.clone()),
                    Slot::I(s) => Slot::I(s.clone()),
                    Slot::T(s) => Slot::T(s.clone()),
                };
                set!(v)
            }
            4 => set!(Slot::E),
            5 => {
                let t = self.t(u(2));
                self.s_mut(d).extend(Some(t));
            }
            6 => {
                let v: Vec<TokenTree> = (2..o.len()).map(|k| self.t(u(k))).collect();
                self.s_mut(d).extend(v);
            }
            7 => {
                let s = self.take_s(u(2));
                self.s_mut(d).extend(Some(s));
            }
            8 => {
                let s = self.s(u(2));
                self.s_mut(d).extend(Some(s));
            }
            9 => {
                let v: Vec<TokenStream> = (2..o.len()).map(|k| self.s(u(k))).collect();
                self.s_mut(d).extend(v);
            }
            10 => {
                let t = self.t(u(2));
                set!(Slot::S(TokenStream::from(t)))
            }
            11 => {
                let v: Vec<TokenTree> = (2..o.len()).map(|k| self.t(u(k))).collect();
                set!(Slot::S(v.into_iter().collect()))
            }
            12 => {
                let v: Vec<TokenStream> = (2..o.len()).map(|k| self.s(u(k))).collect();
                set!(Slot::S(v.into_iter().collect()))
            }
            13 => {
                let v: Vec<TokenStream> = (2..o.len()).map(|k| self.take_s(u(k))).collect();
                set!(Slot::S(v.into_iter().collect()))
            }
            14 => {
                let s = self.take_s(d);
                set!(Slot::I(s.into_iter()))
            }
            15 => {
                let t = match &mut self.slots[u(2) - 1] {
                    Slot::I(it) => it.next(),
                    _ => panic!("harness: not an iterator"),
                };
                set!(t.map_or(Slot::E, Slot::T))
            }
            16 => {
                let it = self.take_i(d);
                set!(Slot::S(it.collect()))
            }
            17 => {
                let s = self.take_s(u(2));
                set!(Slot::T(Group::new(delim_of(o[3]), s).into()))
            }
            18 => {
                let s = self.s(u(2));
                set!(Slot::T(Group::new(delim_of(o[3]), s).into()))
            }
            19 => match &self.slots[u(2) - 1] {
                Slot::T(TokenTree::Group(g)) => {
                    let s = g.stream();
                    set!(Slot::S(s))
                }
                _ => panic!("harness: not a group"),
            },
            20 => {
                let sp = self.palette[u(2) - 1];
                let Slot::T(t) = &mut self.slots[d - 1] else { panic!("harness: not a tree") };
                if o.len() > 3 {
                    t.set_span(sp);
                } else {
                    match t {
                        TokenTree::Group(x) => x.set_span(sp),
                        TokenTree::Ident(x) => x.set_span(sp),
                        TokenTree::Punct(x) => x.set_span(sp),
                        TokenTree::Literal(x) => x.set_span(sp),
                    }
                }
            }
            21 => set!(Slot::T(Ident::new(&txt(3), self.palette[u(2) - 1]).into())),
            22 => set!(Slot::T(Ident::new_raw(&txt(3), self.palette[u(2) - 1]).into())),
            23 => set!(Slot::T(Punct::new(char::from_u32(o[2] as u32).unwrap(), if o[3] == 1 { Spacing::Joint } else { Spacing::Alone }).into())),
            24 => set!(Slot::T(literal_of(&txt(2)).into())),
            25 => {
                set!(Slot::T(Literal::from_str(&txt(2)).unwrap().into()));
                made = a(vec![self.value(d - 1)]);
            }
            26 => {
                let it = self.take_i(u(2));
                self.s_mut(d).extend(it);
            }
            27 => ans = a(vec![b(self.s_mut(d).is_empty())]),
            28 => match &self.slots[d - 1] {
                Slot::I(it) => {
                    let h = it.size_hint();
                    ans = a(vec![i(h.0), h.1.map_or(i(-1), i)]);
                }
                _ => panic!("harness: not an iterator"),
            },
            29 => match &self.slots[d - 1] {
                Slot::E => {}
                Slot::S(x) => drop(format!("{} {:?}", x, x)),
                Slot::I(x) => drop(format!("{:?}", x)),
                Slot::T(x) => drop(format!("{} {:?}", x, x)),
            },
            30 => {
                for k in 0..self.slots.len() {
                    self.slots[k] = Slot::E;
                }
                self.seen = Vec::new();
                let left = (self.live)() - self.base;
                self.seen = vec![none(); self.slots.len()];
                // bytes that only the operations' own results can hold
                ans = ints(&[left]);
            }
            31 => {
                let t = match &mut self.slots[u(2) - 1] {
                    Slot::I(it) => it.nth(o[3] as usize),
                    _ => panic!("harness: not an iterator"),
                };
                set!(t.map_or(Slot::E, Slot::T))
            }
            #[cfg(feature = "mac")]
            32 => {
                // through the compiler's stream and back
                let s = self.s(u(2));
                set!(Slot::S(TokenStream::from(crate::pm::to_compiler(s))))
            }
            #[cfg(feature = "mac")]
            34 => ans = a(vec![recorded(1, crate::pm::stream_j(crate::pm::to_compiler(self.s(d)), self.place))]),
            #[cfg(feature = "mac")]
            36 => match &self.slots[d - 1] {
                Slot::T(t) => ans = crate::pm::prints_alike(t),
                Slot::I(x) => {
                    let left: Vec<TokenTree> = x.clone().collect();
                    ans = a(vec![i(1), b(format!("{:?}{:#?}", x, x) == format!("TokenStream {:?}TokenStream {:#?}", left, left))]);
                }
                _ => {
                    let s = self.s(d);
                    let c = crate::pm::to_compiler(s.clone());
                    ans = a(vec![b(s.to_string() == c.to_string()), b(format!("{:?}{:#?}", s, s) == format!("{:?}{:#?}", c, c))]);
                }
            },
            #[cfg(feature = "mac")]
            54 => ans = crate::pm::handed_over(self.s(d)),
            #[cfg(feature = "mac")]
            37 => set!(Slot::S(TokenStream::from(crate::pm::compose(o[2], &o[3..])))),
            #[cfg(feature = "mac")]
            38 => {
                set!(Slot::S(crate::pm::given()));
                made = a(vec![self.value(d - 1)]);
            }
            40 => {}
            41 => proc_macro2::fallback::force(),
            42 => proc_macro2::fallback::unforce(),
            43 => match (&self.slots[d - 1], &self.slots[u(2) - 1]) {
                (Slot::T(TokenTree::Ident(x)), Slot::T(TokenTree::Ident(y))) => ans = a(vec![b(x == y)]),
                _ => panic!("harness: not identifiers"),
            },
            #[cfg(feature = "mac")]
            44 => {
                // spans combined: the implementation of the result
                let (x, y) = (self.palette[u(1) - 1], self.palette[u(2) - 1]);
                let res = match o[3] {
                    0 => Some(x.resolved_at(y)),
                    1 => Some(x.located_at(y)),
                    2 => x.join(y),
                    _ => Some(x),
                };
                ans = a(vec![i(res.map_or(0, |s| match guard(|| s.unwrap()) {
                    Ok(_) => 2,
                    Err(m) if m.contains("only available in procedural macros") => 1,
                    Err(_) => 7,
                }))]);
            }
            45 => {
                let t = self.t(u(2));
                let s = self.s_mut(d);
                match t {
                    TokenTree::Group(x) => s.extend(Some(x)),
                    TokenTree::Ident(x) => s.extend(Some(x)),
                    TokenTree::Punct(x) => s.extend(Some(x)),
                    TokenTree::Literal(x) => s.extend(Some(x)),
                }
            }
            46 => {
                let v: Vec<TokenTree> = (2..o.len()).map(|k| self.t(u(k))).collect();
                let s = self.s_mut(d);
                macro_rules! typed {
                    ($($k:ident)*) => {
                        match v.first() {
                            None => s.extend(Vec::<Group>::new()),
                            $( Some(TokenTree::$k(_)) => s.extend(v.into_iter().map(|t| match t { TokenTree::$k(x) => x, _ => panic!("harness: trees of one kind") })), )*
                        }
                    };
                }
                typed!(Group Ident Punct Literal)
            }
            47 => {
                let v: Vec<TokenTree> = (2..o.len()).map(|k| self.t(u(k))).collect();
                self.s_mut(d).extend(vague(v));
            }
            48 => {
                let v: Vec<TokenTree> = (2..o.len()).map(|k| self.t(u(k))).collect();
                set!(Slot::S(vague(v).collect()))
            }
            49 => {
                let v: Vec<TokenStream> = (2..o.len()).map(|k| self.s(u(k))).collect();
                self.s_mut(d).extend(vague(v));
            }
            50 => {
                let it = self.take_i(d);
                let s = it.fold(TokenStream::new(), |mut s, t| {
                    s.extend([t]);
                    s
                });
                set!(Slot::S(s))
            }
            51 => ans = a(vec![i(self.take_i(d).count())]),
            52 => {
                let it = self.take_i(u(2));
                set!(it.last().map_or(Slot::E, Slot::T))
            }
            53 => {
                let v: Vec<TokenTree> = (2..o.len()).map(|k| self.t(u(k))).collect();
                let s = self.s_mut(d);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.extend(Trap(v.into_iter()))));
                if r.is_ok() {
                    panic!("the iterator's panic disappeared");
                }
                made = a(vec![i(self.s(d).into_iter().count())]);
            }
            x => panic!("harness: unknown operation {}", x),
        }
        (ans, made)
    }

    /// Executes an operation and logs it; false after a panic.
    /// look: 0 no observation, 1 what changed, 2 everything
    pub fn step(&mut self, o: &[i64], look: i64) -> (J, bool) {
        let (st, (ans, made)) = match guard(|| self.exec(o)) {
            Ok(x) => (1, x),
            Err(m) => {
                if m.starts_with("harness:") {
                    eprintln!("{} in {:?}", m, o);
                    std::process::exit(3);
                }
                let mismatch = self.mixed && m.starts_with("compiler/fallback mismatch");
                if mismatch {
                    for k in 0..self.slots.len() {
                        self.slots[k] = Slot::E;
                    }
                }
                (if mismatch { 3 } else { 2 }, (a(vec![]), a(vec![])))
            }
        };
        let mut ch = Vec::new();
        let mut st = st;
        if st != 2 && look > 0 {
            let r = guard(|| {
                for k in 0..self.slots.len() {
                    let v = self.value(k);
                    if look == 2 || v != self.seen[k] {
                        ch.push(a(vec![i(k + 1), v.clone()]));
                        self.seen[k] = v;
                    }
                }
            });
            if r.is_err() {
                st = 2;
            }
        }
        (a(vec![ints(o), i(st), ans, made, i(look), a(ch)]), st != 2)
    }

    fn kinds(&self, f: impl Fn(&Slot) -> bool) -> Vec<i64> {
        (0..self.slots.len()).filter(|&k| f(&self.slots[k])).map(|k| k as i64 + 1).collect()
    }
    fn weight(&self, k: i64) -> usize {
        fn size(s: impl IntoIterator<Item = TokenTree>) -> usize {
            s.into_iter().map(|t| 1 + if let TokenTree::Group(g) = t { size(Box::new(g.stream().into_iter()) as Box<dyn Iterator<Item = TokenTree>>) } else { 0 }).sum()
        }
        match &self.slots[k as usize - 1] {
            Slot::E => 0,
            Slot::S(s) => size(s.clone()),
            Slot::I(s) => size(s.clone()),
            Slot::T(t) => size(Some(t.clone())),
        }
    }

    /// A random operation that applies to the present slots.
    pub fn random_op(&self, r: &mut Rng, tokens: bool, span_locations: bool) -> Vec<i64> {
        let n = self.slots.len() as i64;
        let ss = self.kinds(|s| matches!(s, Slot::S(_)));
        let is = self.kinds(|s| matches!(s, Slot::I(_)));
        let ts = self.kinds(|s| matches!(s, Slot::T(_)));
        let gs = self.kinds(|s| matches!(s, Slot::T(TokenTree::Group(_))));
        let heavy = |v: &[i64]| v.iter().map(|&k| self.weight(k)).sum::<usize>() > self.limit;
        let pal = self.palette.len();
        loop {
            let any = 1 + r.below(n as usize) as i64;
            let op = if tokens {
                *r.pick(&[3, 4, 10, 11, 14, 15, 17, 18, 19, 20, 20, 20, 21, 22, 23, 24, 25, 2, 5, 29])
            } else {
                *r.pick(if self.mixed { MIXED_OPS } else if self.mac { MAC_OPS } else { OPS })
            };
            let pick = |r: &mut Rng, v: &[i64]| *r.pick(v);
            let many = |r: &mut Rng, v: &[i64], lim: usize| -> Vec<i64> { (0..r.below(lim + 1)).map(|_| *r.pick(v)).collect() };
            let o: Vec<i64> = match op {
                1 => {
                    if r.chance(1, 2) {
                        vec![1, any]
                    } else {
                        vec![1, any, 1]
                    }
                }
                2 => {
                    let t = r.below(TEXTS.len());
                    if self.loose && TEXTS[t].contains(['+', '\'']) {
                        continue;
                    }
                    vec![2, any, t as i64]
                }
                32 if !ss.is_empty() => vec![32, any, pick(r, &ss)],
                36 if !is.is_empty() && r.chance(1, 4) => vec![op, pick(r, &is)],
                36 if !ts.is_empty() && r.chance(1, 3) => vec![op, pick(r, &ts)],
                34 | 36 | 54 if !ss.is_empty() => vec![op, pick(r, &ss)],
                37 => [vec![37, any, r.below(3) as i64], (0..r.below(4)).map(|_| r.below(5) as i64).collect()].concat(),
                38 => vec![38, any],
                41 | 42 => vec![op],
                44 => vec![44, 1 + r.below(pal) as i64, 1 + r.below(pal) as i64, r.below(4) as i64],
                43 => {
                    let ids = self.kinds(|s| matches!(s, Slot::T(TokenTree::Ident(_))));
                    if ids.is_empty() {
                        continue;
                    }
                    vec![43, pick(r, &ids), pick(r, &ids)]
                }
                3 => vec![3, any, 1 + r.below(n as usize) as i64],
                4 => vec![4, any],
                5 | 45 if !ss.is_empty() && !ts.is_empty() => vec![op, pick(r, &ss), pick(r, &ts)],
                6 | 47 | 53 if !ss.is_empty() && !ts.is_empty() => [vec![op, pick(r, &ss)], many(r, &ts, 3)].concat(),
                46 if !ss.is_empty() && !ts.is_empty() => {
                    let t = pick(r, &ts);
                    let kind = |k: i64| match &self.slots[k as usize - 1] {
                        Slot::T(t) => std::mem::discriminant(t),
                        _ => unreachable!(),
                    };
                    let same: Vec<i64> = ts.iter().copied().filter(|&x| kind(x) == kind(t)).collect();
                    [vec![46, pick(r, &ss)], many(r, &same, 3)].concat()
                }
                7 | 8 if !ss.is_empty() => {
                    let (x, y) = (pick(r, &ss), pick(r, &ss));
                    if op == 7 && x == y {
                        continue;
                    }
                    vec![op, x, y]
                }
                9 | 49 if !ss.is_empty() => [vec![op, pick(r, &ss)], many(r, &ss, 3)].concat(),
                10 if !ts.is_empty() => vec![10, any, pick(r, &ts)],
                11 | 48 if !ts.is_empty() => [vec![op, any], many(r, &ts, 3)].concat(),
                12 if !ss.is_empty() => [vec![12, any], many(r, &ss, 3)].concat(),
                13 if !ss.is_empty() => {
                    let mut v = many(r, &ss, 3);
                    v.sort();
                    v.dedup();
                    if r.chance(1, 2) {
                        v.reverse();
                    }
                    [vec![13, any], v].concat()
                }
                14 if !ss.is_empty() => vec![14, pick(r, &ss)],
                15 | 31 if !is.is_empty() => {
                    let x = pick(r, &is);
                    if x == any {
                        continue;
                    }
                    if op == 15 {
                        vec![15, any, x]
                    } else {
                        vec![31, any, x, r.below(3) as i64]
                    }
                }
                16 | 50 | 51 if !is.is_empty() => vec![op, pick(r, &is)],
                52 if !is.is_empty() => vec![52, any, pick(r, &is)],
                17 | 18 if !ss.is_empty() => vec![op, any, pick(r, &ss), r.below(4) as i64],
                19 if !gs.is_empty() => vec![19, any, pick(r, &gs)],
                20 if !ts.is_empty() => {
                    let v = vec![20, pick(r, &ts), 1 + r.below(pal) as i64];
                    if r.chance(1, 2) {
                        v
                    } else {
                        [v, vec![1]].concat()
                    }
                }
                21 | 22 => {
                    let name = *r.pick(&["a", "é", "x1", "__", "fn", "loop"]);
                    [vec![op, any, 1 + r.below(pal) as i64], name.chars().map(|c| c as i64).collect()].concat()
                }
                23 => {
                    let set = if self.loose { "~@#$;,?" } else { "~!@#$%^&*-=+|;:,<.>/?'" };
                    vec![23, any, *r.pick(&set.chars().collect::<Vec<_>>()) as i64, r.below(2) as i64]
                }
                24 => [vec![24, any], r.pick(LITERALS).chars().map(|c| c as i64).collect()].concat(),
                25 => [vec![25, any], r.pick(&["7u8", "-5", "'c'", "-0x1f", "\"q\"", "b\"z\"", "-1.5e3", "2.", "r\"w\"x", "-00", "-0", "-007_", "-0_1u8", "-0b01", "-0o17i64", "-00.50e-0", "-1__", "-9.", "-1E+9f64", "-340282366920938463463374607431768211456"]).chars().map(|c| c as i64).collect()].concat(),
                26 if !is.is_empty() && !ss.is_empty() => vec![26, pick(r, &ss), pick(r, &is)],
                27 if !ss.is_empty() => vec![27, pick(r, &ss)],
                28 if !is.is_empty() => vec![28, pick(r, &is)],
                29 => vec![29, any],
                _ => continue,
            };
            if self.mixed && matches!(o[0], 24 | 25) && o[2] == '-' as i64 {
                continue;
            }
            if matches!(o[0], 5..=13 | 17 | 18 | 26 | 45..=49 | 53) && heavy(&o[1..if matches!(o[0], 17 | 18) { 3 } else { o.len() }]) {
                continue;
            }
            let _ = span_locations;
            return o;
        }
    }
}

pub fn delim_of(d: i64) -> Delimiter {
    match d {
        1 => Delimiter::Parenthesis,
        2 => Delimiter::Brace,
        3 => Delimiter::Bracket,
        _ => Delimiter::None,
    }
}

/// spans of distinct tokens of one parsed text, and the call site
pub fn palette() -> Vec<Span> {
    let mut v = vec![Span::call_site()];
    if let Ok(ts) = "p0 qq (rrr) \"ssss\"\n +".parse::<TokenStream>() {
        for t in ts {
            v.push(t.span());
            if let TokenTree::Literal(x) = &t {
                // nowhere in particular, but in this text
                v.extend(x.subspan(2..2));
            }
        }
    }
    v
}

/// spans, no gluing, inside a macro, both implementations
pub type How = (SpanFn, bool, bool, bool);

/// One history: executed once to choose the operations (and to warm up whatever the code under test
/// allocates once), then again, recorded.
fn history(e: &mut Emitter, k: usize, n: usize, pal: &[Span], how: How, live: fn() -> i64, len: usize, every: bool, limit: usize, choose: &mut dyn FnMut(&Machine, usize) -> (Vec<i64>, i64)) {
    let mut plan: Vec<(Vec<i64>, i64)> = Vec::with_capacity(2 * len + 2);
    let mut m = Machine::new(n, pal.to_vec(), how.0, live);
    m.limit = limit;
    (m.loose, m.mac, m.mixed) = (how.1, how.2, how.3);
    forget_files();
    let mut first = vec![m.reset_event()];
    let mut log = String::new();
    let mut fine = true;
    for j in 0..len + 2 {
        let (o, look) = match j {
            _ if j == len => (vec![40], 2),
            _ if j == len + 1 => (vec![30], 2),
            _ => choose(&m, j),
        };
        let look = if j < len && every && o[0] != 30 { 1 } else { look };
        log.push_str(&format!("{:?} ", o));
        current(&log);
        let (ev, ok) = m.step(&o, look);
        if o[0] != 30 || !ok {
            first.push(ev);
        }
        plan.push((o, look));
        if !ok {
            fine = false;
            break;
        }
    }
    if !fine {
        for ev in &first {
            e.emit_to(k, ev);
        }
        return;
    }
    drop(first);
    drop(m);
    forget_files();
    let mut m = Machine::new(n, pal.to_vec(), how.0, live);
    m.mixed = how.3;
    e.emit_to(k, &m.reset_event());
    m.settle();
    for (o, look) in &plan {
        let (ev, ok) = m.step(o, *look);
        e.emit_to(k, &ev);
        if !ok {
            return;
        }
    }
}

pub fn run(out: &str, chunks: usize, histories: usize, len: usize, seed: u64, tokens: bool, big: usize, live: fn() -> i64, scripts: Option<&str>, spans: bool) {
    let mut e = Emitter::new(out, "store", chunks);
    e.reserve(1 << 22);
    let mut r = Rng::new(seed ^ 0x71);
    #[allow(unused_mut)]
    let (mut pal, mut how): (Vec<Span>, How) = (palette(), (place, false, false, false));
    #[cfg(feature = "mac")]
    if crate::pm::inside() {
        pal = crate::pm::palette();
        how = if spans { (crate::pm::place, true, true, false) } else { (crate::pm::nowhere, false, true, false) };
    }
    if !spans && !how.2 {
        pal.truncate(1);
        how.0 = nowhere;
    }
    for k in 0..histories {
        history(&mut e, k, 4 + k % 4, &pal, how, live, len, k % 3 != 0, if k % 16 == 0 { big } else { 24 }, &mut |m, _| {
            if r.chance(1, 40) {
                return (vec![30], 2);
            }
            (m.random_op(&mut r, tokens, true), if r.chance(1, 12) { 2 } else { 0 })
        });
    }
    if let Some(p) = scripts {
        let text = std::fs::read_to_string(p).unwrap();
        for (k, line) in text.lines().enumerate() {
            let ops: Vec<Vec<i64>> = parse(line).arr().iter().map(|o| o.arr().iter().map(|x| x.int()).collect()).collect();
            history(&mut e, k, SCRIPT_SLOTS, &pal, how, live, ops.len(), k % 3 == 0, 24, &mut |_, j| (ops[j].clone(), 0));
        }
    }
    if !tokens {
        large(&mut e, &pal, how, live, &mut r, histories > 10000);
    }
    println!("{}", e.finish());
}

/// Histories with long and with deep streams: a fixed beginning, then random operations.
fn large(e: &mut Emitter, pal: &[Span], how: How, live: fn() -> i64, r: &mut Rng, thorough: bool) {
    let mut k = 0;
    let mut go = |begin: Vec<Vec<i64>>, more: usize, limit: usize, r: &mut Rng| {
        let n = begin.len();
        k += 1;
        history(e, k, 5, pal, how, live, n + more, false, limit, &mut |m, j| {
            if j < n {
                return (begin[j].clone(), 0);
            }
            if j % 8 == 3 {
                // what depends on how much there is left
                let is = m.kinds(|s| matches!(s, Slot::I(_)));
                let ss = m.kinds(|s| matches!(s, Slot::S(_)));
                if !is.is_empty() && r.chance(1, 2) {
                    let it = *r.pick(&is);
                    let far = if let Slot::I(x) = &m.slots[it as usize - 1] { x.clone().count() as i64 / 2 } else { 0 };
                    if r.chance(1, 2) {
                        return (vec![31, it % 5 + 1, it, far], 0);
                    }
                    return (vec![28, it], 0);
                }
                if !ss.is_empty() {
                    return (vec![if r.chance(1, 2) { 27 } else { 14 }, *r.pick(&ss)], 0);
                }
            }
            (m.random_op(r, false, true), if r.chance(1, 12) { 2 } else { 0 })
        });
    };
    let reps = if thorough { 8 } else { 1 };
    // long: doubled from a few tokens
    for (n, times) in [(40, 16), (70, 16), (130, 12), (260, 8), (520, 6), (1030, 5), (2100, 3), (5000, 2)] {
        for x in 0..times * reps {
            // (texts the compiler does not glue together)
            let (text, mut len) = [(1, 1), (2, 2), (5, 1), (12, 3), (7, 2)][x % 5];
            let mut b = vec![vec![2, 1, text]];
            while len < n {
                b.push(vec![8, 1, 1]);
                len *= 2;
            }
            match x % 4 {
                0 => b.push(vec![3, 2, 1]),
                1 => b.extend([vec![3, 2, 1], vec![14, 2], vec![28, 2]]),
                2 => b.extend([vec![18, 3, 1, 1], vec![19, 4, 3]]),
                _ => b.extend([vec![14, 1], vec![28, 1], vec![15, 2, 1], vec![3, 3, 1]]),
            }
            go(b, 16, 5 * n, r);
        }
    }
    // long: one token at a time, unobserved
    for (n, times) in [(20, 8), (66, 8), (130, 8), (260, 4), (600, 2), (1100, 3)] {
        for x in 0..times * reps {
            let mut b = vec![if x % 2 == 0 { vec![1, 1] } else { vec![2, 1, 1] }, vec![21, 2, 1, 'y' as i64], vec![2, 4, 2]];
            for j in 0..n {
                b.push(match (x % 4, j % 16) {
                    (3, 5) => vec![8, 1, 4],
                    (2, 7) => vec![6, 1, 2, 2],
                    _ => vec![5, 1, 2],
                });
                if j == n / 2 && x % 3 == 2 {
                    b.push(vec![3, 3, 1]);
                }
            }
            match x % 5 {
                0 => b.push(vec![27, 1]),
                1 => b.extend([vec![3, 3, 1], vec![27, 3]]),
                2 => b.extend([vec![14, 1], vec![28, 1]]),
                3 => b.extend([vec![12, 3, 1, 1], vec![27, 3]]),
                _ => b.extend([vec![17, 3, 1, 1], vec![10, 1, 3], vec![27, 1]]),
            }
            go(b, 12, 5 * n, r);
        }
    }
    // deep
    for (n, times) in [(10, 8), (33, 6), (65, 6), (101, 6), (130, 4), (257, 4), (513, 2)] {
        for x in 0..times * reps {
            let mut b = vec![vec![2, 1, [1, 2, 0, 12][x % 4]]];
            for j in 0..n {
                // the group's content moved in, or shared with what stays outside
                b.push(vec![17, 3, 1, (j + x as i64) % 4]);
                b.push(vec![10, 1, 3]);
                match x % 3 {
                    1 if j % 16 == 3 => b.extend([vec![8, 1, 1], vec![14, 1], vec![15, 2, 1], vec![10, 1, 2]]),
                    2 if j == n / 2 => b.push(vec![3, 2, 1]),
                    _ => {}
                }
            }
            b.push(vec![4, 3]);
            match x % 4 {
                0 => b.extend([vec![3, 2, 1], vec![4, 1]]),
                1 => b.extend([vec![14, 1], vec![15, 2, 1], vec![4, 1], vec![19, 4, 2], vec![4, 2]]),
                2 => b.extend([vec![3, 4, 1], vec![8, 4, 1]]),
                _ => {}
            }
            go(b, 8, 4000, r);
        }
    }
}
pub const SCRIPT_SLOTS: usize = 4;

/// C17: histories in which the implementation is switched while objects live on.
#[cfg(feature = "mac")]
pub fn run_mixed(out: &str, chunks: usize, histories: usize, len: usize, seed: u64) {
    let mut e = Emitter::new(out, "mixed", chunks);
    let mut r = Rng::new(seed ^ 0x1717);
    proc_macro2::fallback::unforce();
    let mut pal: Vec<Span> = crate::pm::palette()[..3].to_vec();
    proc_macro2::fallback::force();
    pal.extend([Span::call_site(), Span::mixed_site()]);
    for k in 0..histories {
        history(&mut e, k, 4 + k % 3, &pal, (crate::pm::nowhere, false, true, true), crate::alloc::untracked, len, k % 2 == 0, 24, &mut |m, j| {
            if j == 0 {
                return (vec![42], 2);
            }
            (m.random_op(&mut r, false, true), if r.chance(1, 6) { 2 } else { 0 })
        });
    }
    proc_macro2::fallback::unforce();
    println!("{}", e.finish());
}
