//! C12, C13: histories of parses, span queries, span arithmetic and invalidation, on one or several
//! threads, logged as events of Trace_Map.
#![cfg(any(feature = "loc", procmacro2_semver_exempt))]
use crate::corpus::{self, Size};
use crate::json::*;
use crate::project::*;
use crate::rng::Rng;
use crate::span::desc;
use proc_macro2::{Literal, Span, TokenStream, TokenTree};
use std::ops::Bound;
use std::str::FromStr;
use std::sync::mpsc;

struct Worker {
    t: i64,
    spans: Vec<Span>,
    names: Vec<String>,
    cap: usize,
}

fn bound(r: &mut Rng, n: usize) -> (J, Bound<usize>) {
    let v = match r.below(12) {
        0 => usize::MAX,
        1 => n + r.below(3),
        2 => n,
        _ => r.below(n + 1),
    };
    let enc = if v == usize::MAX { i(-1) } else { i(v) };
    match r.below(5) {
        0 => (ints(&[0, 0]), Bound::Unbounded),
        1 | 2 => (a(vec![i(1), enc]), Bound::Included(v)),
        _ => (a(vec![i(2), enc]), Bound::Excluded(v)),
    }
}

pub fn plain(s: &str) -> bool {
    // (whether the carriage return after a line doc comment belongs to it is left open)
    !s.contains('\r') || !["///", "//!"].iter().any(|d| s.contains(d))
}

pub fn source(r: &mut Rng) -> String {
    loop {
        let s = match r.below(14) {
            0 => String::new(),
            1 => (*r.pick(corpus::FRAGMENTS)).to_owned(),
            2 => corpus::random_source(r),
            3 => {
                let v = corpus::random_valid(r, 4);
                corpus::mutate(r, &v)
            }
            4 => format!("{}{}", "\n".repeat(r.below(4)), r.pick(&["é", "a", "(é)", "🦀", "x\u{2028}y"])),
            5 => corpus::random_valid(r, 12),
            _ => {
                let mut s = String::new();
                for _ in 0..1 + r.below(7) {
                    s.push_str(r.pick(&["a", "é", "東", "𝒳", "+", "\"é🦀\"", "'🦀'", "(", ")", "\n", "\r\n", " ", "1", "/*é*/", "// é\n", "x1", "/// é\n", "/*!\0é*/", "//!\0", "\"\0\""]));
                }
                s
            }
        };
        if plain(&s) && s.chars().count() <= 60 {
            return s;
        }
    }
}

/// a longer text, often with a token, and seldom a literal, at its very end
pub fn long_source(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = *r.pick(&[63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 300]);
    while s.chars().count() < n {
        s.push_str(r.pick(&["a ", "é\n", "(東) ", "+\r\n", "\"é\" ", "\n\n", "/*é*/", "        ", "// xxxxxxxxxxxxxxxx\n", "\"xxxxxxxxxxxxxxxxxxxx\" "]));
    }
    s.push_str(r.pick(&["", "\"é🦀\"", "x", "1", "(1)", "\"", "(", "b\"xyz\""]));
    s
}

impl Worker {
    fn new(t: i64, cap: usize) -> Worker {
        Worker {
            t,
            spans: vec![Span::call_site()],
            names: vec![Span::call_site().file()],
            cap,
        }
    }
    fn name(&mut self, s: String) -> i64 {
        match self.names.iter().position(|x| *x == s) {
            Some(k) => k as i64,
            None => {
                self.names.push(s);
                self.names.len() as i64 - 1
            }
        }
    }
    pub fn parse(&mut self, s: &str, r: &mut Rng, want: usize) -> J {
        current(s);
        let ev = |st: i64, picks: Vec<J>| a(vec![i(1), i(self.t), cps(s), i(st), a(picks)]);
        match guard(|| s.parse::<TokenStream>()) {
            Err(_) => ev(2, vec![]),
            Ok(Err(e)) => {
                let j = ev(0, vec![]);
                self.spans.push(e.span());
                j
            }
            Ok(Ok(ts)) => {
                let mut all: Vec<(usize, i64, Span)> = Vec::new();
                let mut n = 0;
                visit(ts, &mut |t, closing| {
                    n += 1;
                    match t {
                        TokenTree::Group(_) if closing => {}
                        TokenTree::Group(g) => {
                            all.push((n, 0, g.span()));
                            all.push((n, 1, g.span_open()));
                            all.push((n, 2, g.span_close()));
                        }
                        t => all.push((n, 0, t.span())),
                    }
                });
                while all.len() > want {
                    let k = r.below(all.len());
                    all.swap_remove(k);
                }
                let j = ev(1, all.iter().map(|x| ints(&[x.0 as i64, x.1])).collect());
                self.spans.extend(all.iter().map(|x| x.2));
                j
            }
        }
    }
    /// the same text many times over
    fn bulk(&mut self, s: &str, n: usize) -> J {
        current(s);
        let m = (0..n).filter(|_| matches!(guard(|| s.parse::<TokenStream>().is_ok()), Ok(true))).count();
        a(vec![i(10), i(self.t), cps(s), i(n), i(m)])
    }
    /// a text of n characters without tokens
    fn blank(&mut self, n: usize) -> J {
        let s = match n % 16 {
            0 => "\n".repeat(n),
            1 => " ".repeat(n),
            _ => format!("/*{}*/", "x".repeat(n - 4)),
        };
        current("no tokens");
        let ok = matches!(guard(|| s.parse::<TokenStream>().is_ok()), Ok(true));
        a(vec![i(11), i(self.t), i(n), b(ok)])
    }
    fn invalidate(&mut self) -> J {
        proc_macro2::extra::invalidate_current_thread_spans();
        self.spans.truncate(1);
        self.names.truncate(1);
        ints(&[9, self.t])
    }
    /// how the ends of two spans compare
    fn compare(&mut self, h: usize, g: usize) -> J {
        let (x, y) = (self.spans[h], self.spans[g]);
        let r = guard(|| {
            let mut v = Vec::new();
            for (p, q) in [(x.start(), y.start()), (x.end(), y.end()), (x.start(), y.end()), (x.end(), y.start())] {
                let c = p.cmp(&q) as i64;
                let agree = p.partial_cmp(&q) == Some(p.cmp(&q)) && (p == q) == (c == 0) && (p < q) == (c < 0) && (p > q) == (c > 0);
                v.push(if agree { c } else { 7 });
            }
            v
        });
        a(vec![i(12), i(self.t), i(h + 1), i(g + 1), ints(&r.unwrap_or_default())])
    }
    pub fn query(&mut self, h: usize) -> J {
        let s = self.spans[h];
        let (d, n) = match guard(|| (desc(s), s.file(), s.local_file())) {
            Ok((d, _, Some(_))) => (d, -2),
            Ok((d, f, None)) => (d, self.name(f)),
            Err(_) => (a(vec![]), -1),
        };
        a(vec![i(3), i(self.t), i(h + 1), d, i(n)])
    }
    /// all these spans asked twice, each time in an order of its own: how many answers changed
    fn again(&mut self, all_spans: &[Span], r: &mut Rng) -> J {
        let all = |order: &[usize]| -> Vec<(usize, String)> {
            let mut v: Vec<(usize, String)> = order
                .iter()
                .map(|&h| {
                    let s = all_spans[h];
                    (h, guard(|| format!("{:?} {:?} {:?} {:?} {}", s.byte_range(), s.start(), s.end(), s.source_text(), s.file())).unwrap_or_default())
                })
                .collect();
            v.sort();
            v
        };
        let mut order: Vec<usize> = (0..all_spans.len()).rev().collect();
        let first = all(&order);
        for k in (1..order.len()).rev() {
            order.swap(k, r.below(k + 1));
        }
        let second = all(&order);
        let changed = first.iter().zip(&second).filter(|(x, y)| x != y || x.1.is_empty()).count();
        a(vec![i(13), i(self.t), i(first.len()), i(changed)])
    }
    fn lit(&mut self, s: &str) -> J {
        current(s);
        let st = match guard(|| Literal::from_str(s)) {
            Err(_) => 2,
            Ok(Err(_)) => 0,
            Ok(Ok(l)) => {
                self.spans.push(l.span());
                1
            }
        };
        a(vec![i(2), i(self.t), cps(s), i(st)])
    }
    fn kept(&mut self, x: Result<Option<Span>, String>) -> J {
        match x {
            Err(_) => i(2),
            Ok(None) => i(0),
            Ok(Some(s)) => {
                self.spans.push(s);
                i(1)
            }
        }
    }
    pub fn step(&mut self, r: &mut Rng, invalidate: usize) -> J {
        let t = self.t;
        let n = self.spans.len();
        // mostly recent spans, sometimes old ones
        let pick = |r: &mut Rng| if r.chance(1, 2) { r.below(n) } else { n - 1 - r.below(n.min(6)) };
        if self.spans.len() >= self.cap || r.chance(invalidate, 1000) {
            if r.chance(1, 3) {
                return self.bulk(["x", "é", "'"][n % 3], [1, 17, 300][r.below(3)]);
            }
            return self.invalidate();
        }
        match r.below(21) {
            20 => {
                let (h, g) = (pick(r), pick(r));
                self.compare(h, g)
            }
            0..=3 => {
                let s = if r.chance(1, 10) { long_source(r) } else { source(r) };
                let want = 1 + r.below(4);
                self.parse(&s, r, want)
            }
            4 => {
                let s = (*r.pick(&["\"é🦀x\"", "'東'", "-1.5", "r#\"é\n\"#", "b\"a\\n\"", "c\"é\"", "1u8", " 1", "\"é", "'é", "", "-", "1é", "\"🦀é東a\"é"])).to_owned();
                self.lit(&s)
            }
            5..=11 => {
                let h = pick(r);
                self.query(h)
            }
            12..=14 => {
                let (h, g) = (pick(r), pick(r));
                let (x, y) = (self.spans[h], self.spans[g]);
                let res = guard(|| x.join(y));
                let res = self.kept(res);
                a(vec![i(4), i(t), i(h + 1), i(g + 1), res])
            }
            15..=17 => {
                let h = pick(r);
                let s = self.spans[h];
                let size = guard(|| s.source_text().map_or(0, |x| x.len())).unwrap_or(4);
                let ((mut ja, mut lo), (mut jb, mut hi)) = (bound(r, size), bound(r, size));
                if r.chance(1, 8) {
                    // nothing, at the start or the end
                    let x = if r.chance(1, 3) { 0 } else { size };
                    (ja, lo) = (a(vec![i(1), i(x)]), Bound::Included(x));
                    (jb, hi) = (a(vec![i(2), i(x)]), Bound::Excluded(x));
                }
                let mut l = Literal::string("any");
                if r.chance(1, 2) {
                    // the literal that stands there, rather than any other
                    if let Ok(Some(x)) = guard(|| s.source_text()) {
                        l = unsafe { Literal::from_str_unchecked(&x) };
                    }
                }
                l.set_span(s);
                let res = guard(|| match (lo, hi) {
                    (Bound::Included(x), Bound::Excluded(y)) => l.subspan(x..y),
                    (Bound::Included(x), Bound::Included(y)) => l.subspan(x..=y),
                    (Bound::Included(x), Bound::Unbounded) => l.subspan(x..),
                    (Bound::Unbounded, Bound::Excluded(y)) => l.subspan(..y),
                    (Bound::Unbounded, Bound::Included(y)) => l.subspan(..=y),
                    (Bound::Unbounded, Bound::Unbounded) => l.subspan(..),
                    b => l.subspan(b),
                });
                let res = self.kept(res);
                a(vec![i(5), i(t), i(h + 1), ja, jb, res])
            }
            18 => {
                let (h, g) = (pick(r), pick(r));
                let (x, y) = (self.spans[h], self.spans[g]);
                if r.chance(1, 2) {
                    self.spans.push(x.resolved_at(y));
                    ints(&[6, t, h as i64 + 1, g as i64 + 1])
                } else {
                    self.spans.push(x.located_at(y));
                    ints(&[7, t, h as i64 + 1, g as i64 + 1])
                }
            }
            _ => {
                let (h, g) = (pick(r), pick(r));
                self.equal(h, g)
            }
        }
    }
    #[cfg(procmacro2_semver_exempt)]
    fn equal(&mut self, h: usize, g: usize) -> J {
        let e = self.spans[h].eq(&self.spans[g]);
        ints(&[8, self.t, h as i64 + 1, g as i64 + 1, e as i64])
    }
    #[cfg(not(procmacro2_semver_exempt))]
    fn equal(&mut self, h: usize, _g: usize) -> J {
        self.query(h)
    }
}

enum Cmd {
    Step(Rng),
    Quit,
}

/// Threads in lockstep: the scheduler (a seeded random choice, or a given schedule) decides who acts.
fn lockstep(e: &mut Emitter, k: usize, threads: usize, len: usize, r: &mut Rng, invalidate: usize) {
    e.emit_to(k, &ints(&[0, threads as i64]));
    let (tx, rx) = mpsc::channel::<J>();
    let mut to = Vec::new();
    let mut joins = Vec::new();
    for t in 0..threads {
        let (ctx, crx) = mpsc::channel::<Cmd>();
        let tx = tx.clone();
        to.push(ctx);
        joins.push(std::thread::spawn(move || {
            let mut w = Worker::new(t as i64 + 1, 60);
            while let Ok(Cmd::Step(mut r)) = crx.recv() {
                let ev = w.step(&mut r, invalidate);
                if tx.send(ev).is_err() {
                    return;
                }
            }
        }));
    }
    let mut t = 0;
    for _ in 0..len {
        // bursts: mostly switch, sometimes stay
        if !r.chance(1, 3) {
            t = r.below(threads);
        }
        to[t].send(Cmd::Step(Rng::new(r.next()))).unwrap();
        match rx.recv_timeout(std::time::Duration::from_secs(60)) {
            Ok(ev) => e.emit_to(k, &ev),
            Err(_) => {
                eprintln!("a thread died or hangs");
                std::process::exit(1);
            }
        }
    }
    for c in &to {
        let _ = c.send(Cmd::Quit);
    }
    for j in joins {
        let _ = j.join();
    }
}

/// Threads running freely at the same time; since they are independent, their logs can be put in any order.
fn parallel(e: &mut Emitter, k: usize, threads: usize, len: usize, r: &mut Rng, invalidate: usize) {
    e.emit_to(k, &ints(&[0, threads as i64]));
    let gate = std::sync::Arc::new(std::sync::Barrier::new(threads));
    let joins: Vec<_> = (0..threads)
        .map(|t| {
            let mut r = Rng::new(r.next());
            let gate = gate.clone();
            std::thread::spawn(move || {
                let mut w = Worker::new(t as i64 + 1, 60);
                gate.wait();
                (0..len).map(|_| w.step(&mut r, invalidate)).collect::<Vec<J>>()
            })
        })
        .collect();
    for j in joins {
        for ev in j.join().unwrap_or_else(|_| {
            eprintln!("a thread died");
            std::process::exit(1)
        }) {
            e.emit_to(k, &ev);
        }
    }
}

/// every order of asking about the tokens of short texts
fn orders(e: &mut Emitter, z: &Size) {
    let words: &[&str] = if z.thorough { &["a", "é", "東", "𝒳", "\n", "a1", "éé"] } else { &["a", "é", "東", "𝒳b"] };
    let m = words.len();
    let mut k = 0;
    let mut r = Rng::new(z.seed);
    for c in 0..m * m * m * m {
        let s: String = [c % m, c / m % m, c / m / m % m, c / m / m / m].iter().map(|&x| format!("{} ", words[x])).collect();
        let mut perm = vec![0usize, 1, 2, 3];
        let mut all = Vec::new();
        permute(&mut perm, 0, &mut all);
        k += 1;
        let (k, s, all) = (k, s.clone(), all.clone());
        let mut r2 = Rng::new(r.next());
        let evs = std::thread::spawn(move || {
            let mut w = Worker::new(1, 1000);
            let mut evs = vec![ints(&[0, 1])];
            for p in &all {
                let base = w.spans.len();
                evs.push(w.parse(&s, &mut r2, 100));
                let n = w.spans.len() - base;
                for &x in p {
                    if x < n {
                        evs.push(w.query(base + x));
                    }
                }
            }
            evs
        })
        .join()
        .unwrap();
        for ev in evs {
            e.emit_to(k, &ev);
        }
    }
}
fn permute(v: &mut Vec<usize>, k: usize, out: &mut Vec<Vec<usize>>) {
    if k == v.len() {
        out.push(v.clone());
        return;
    }
    for j in k..v.len() {
        v.swap(k, j);
        permute(v, k + 1, out);
        v.swap(k, j);
    }
}

/// one thread, very many texts
fn many(e: &mut Emitter, k: usize, files: usize, r: &mut Rng) {
    let mut r = Rng::new(r.next());
    let evs = std::thread::spawn(move || {
        let mut w = Worker::new(1, usize::MAX);
        let mut evs = vec![ints(&[0, 1])];
        for f in 0..files {
            let s = if f % 7 == 0 { source(&mut r) } else { ["", "a", "é", "/*\n*/", "1\n"][f % 5].to_owned() };
            let want = (f % 16 == 0) as usize;
            evs.push(w.parse(&s, &mut r, want));
            if f % 5 == 0 {
                let h = r.below(w.spans.len());
                evs.push(w.query(h));
            }
        }
        for h in 0..w.spans.len() {
            evs.push(w.query(h));
        }
        evs
    })
    .join()
    .unwrap();
    for ev in evs {
        e.emit_to(k, &ev);
    }
}

/// places beyond 2^16, in columns and in lines
fn wide(e: &mut Emitter, k: usize, all: bool) {
    let evs = std::thread::spawn(move || {
        let mut r = Rng::new(5);
        let mut w = Worker::new(1, usize::MAX);
        let mut evs = vec![ints(&[0, 1])];
        for s in [format!("a{}é b\nc", " ".repeat(65534)), format!("x{}(y\n) z", "\n".repeat(65534)), format!("{}1", " ".repeat(70000))].into_iter().take(if all { 3 } else { 1 }) {
            evs.push(w.parse(&s, &mut r, 100));
        }
        for h in 0..w.spans.len() {
            evs.push(w.query(h));
            for g in 0..w.spans.len() {
                evs.push(w.compare(h, g));
            }
        }
        evs
    })
    .join()
    .unwrap();
    for ev in evs {
        e.emit_to(k, &ev);
    }
}

/// one thread, so many texts that counters run over
fn bulks(e: &mut Emitter, k: usize, sizes: &'static [usize], r: &mut Rng) {
    let mut r = Rng::new(r.next());
    let evs = std::thread::spawn(move || {
        let mut w = Worker::new(1, usize::MAX);
        let mut evs = vec![ints(&[0, 1])];
        for (m, &n) in sizes.iter().enumerate() {
            evs.push(w.bulk(["x", "", "é(é)", "'", "a\nb\n"][(m + k) % 5], n));
            for _ in 0..3 {
                let s = source(&mut r);
                let want = 1 + r.below(3);
                evs.push(w.parse(&s, &mut r, want));
            }
            evs.push(w.lit("\"é🦀x\""));
            for h in 0..w.spans.len() {
                evs.push(w.query(h));
            }
            for _ in 0..20 {
                evs.push(w.step(&mut r, 0));
            }
        }
        evs
    })
    .join()
    .unwrap();
    for ev in evs {
        e.emit_to(k, &ev);
    }
}

/// one thread, texts of very many characters in all; with invalidations, more than a counter of 32 bits holds
fn vast(step: usize, times: usize, invalidate: usize, r: &mut Rng) -> std::thread::JoinHandle<Vec<J>> {
    let mut r = Rng::new(r.next());
    std::thread::spawn(move || {
        let mut w = Worker::new(1, usize::MAX);
        let mut evs = vec![ints(&[0, 1])];
        for n in 1..=times {
            evs.push(w.blank(step + n));
            for _ in 0..2 {
                let s = source(&mut r);
                evs.push(w.parse(&s, &mut r, 3));
            }
            evs.push(w.lit("\"é🦀x\""));
            for _ in 0..6 {
                evs.push(w.step(&mut r, 0));
            }
            if n == times || n % invalidate == 0 {
                for h in 0..w.spans.len() {
                    evs.push(w.query(h));
                }
                evs.push(w.invalidate());
            }
        }
        evs
    })
}

/// one thread, long texts
fn long(e: &mut Emitter, k: usize, n: usize, r: &mut Rng) {
    let mut r = Rng::new(r.next());
    let evs = std::thread::spawn(move || {
        let mut w = Worker::new(1, usize::MAX);
        let mut evs = vec![ints(&[0, 1])];
        for m in 0..4 {
            let mut s = String::new();
            while s.chars().count() < n {
                let v = corpus::random_valid(&mut r, 12);
                let v: String = v.chars().filter(|c| *c != '\r' && *c != '\u{feff}').collect();
                if v.parse::<TokenStream>().is_ok() {
                    s.push_str(&v);
                    s.push_str(r.pick(&["\n", " ", "\n\n"]));
                }
                if m % 2 == 1 {
                    s = s.chars().filter(|c| c.is_ascii()).collect();
                }
            }
            evs.push(w.parse(&s, &mut r, 24));
            for _ in 0..48 {
                evs.push(w.step(&mut r, 0));
            }
            for h in 0..w.spans.len() {
                evs.push(w.query(h));
            }
        }
        evs
    })
    .join()
    .unwrap();
    for ev in evs {
        e.emit_to(k, &ev);
    }
}

/// one thread, texts of very many tokens all of whose spans are asked for
fn crowd(e: &mut Emitter, k: usize, n: usize, r: &mut Rng) {
    let mut r = Rng::new(r.next());
    let evs = std::thread::spawn(move || {
        let mut w = Worker::new(1, usize::MAX);
        let mut evs = vec![ints(&[0, 1])];
        let mut everything = Vec::new();
        for m in 0..2 {
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(r.pick(if m == 0 { &["a ", "+", "é ", "1\n", "'東' ", "\"🦀\"\n", "b "] } else { &["a ", "+", "e ", "1\n", "'t' ", "\"c\"\n", "b "] }));
            }
            let before = w.spans.len();
            let ev = w.parse(&s, &mut r, usize::MAX);
            let mut rest = w.spans.split_off(before);
            everything.extend(rest.iter().copied());
            // a few are kept in the table
            if let J::A(mut ev) = ev {
                if let Some(J::A(picks)) = ev.last_mut() {
                    while rest.len() > 24 {
                        let k = r.below(rest.len());
                        rest.swap_remove(k);
                        picks.swap_remove(k);
                    }
                }
                w.spans.extend(rest);
                evs.push(a(ev));
            }
            evs.push(w.again(&everything, &mut r));
            for _ in 0..40 {
                let h = r.below(w.spans.len());
                evs.push(w.query(h));
            }
        }
        evs.push(w.again(&everything, &mut r));
        evs
    })
    .join()
    .unwrap();
    for ev in evs {
        e.emit_to(k, &ev);
    }
}

pub fn run(out: &str, chunks: usize, z: &Size, threads: bool, n: usize, len: usize) {
    let mut e = Emitter::new(out, "map", chunks);
    let mut r = Rng::new(z.seed ^ if threads { 0x1313 } else { 0x1212 });
    let mut vasts = Vec::new();
    if threads {
        vasts.push(vast(1 << 26, 66, 8, &mut r));
    } else {
        vasts.push(vast(1 << 24, 3, 100, &mut r));
        if z.thorough {
            vasts.push(vast(1 << 26, 40, 100, &mut r));
        }
    }
    for k in 0..n {
        if threads {
            if k % 4 == 3 {
                parallel(&mut e, k, 2 + k % 3, len / 2, &mut r, 20);
            } else {
                lockstep(&mut e, k, 2 + k % 2, len, &mut r, if k % 2 == 0 { 60 } else { 15 });
            }
        } else {
            lockstep(&mut e, k, 1, len, &mut r, 0);
        }
    }
    if threads {
        lockstep(&mut e, 1, 100, 10 * len, &mut r, 15);
        parallel(&mut e, 2, 64, len / 2, &mut r, 20);
    } else {
        orders(&mut e, z);
        wide(&mut e, 0, z.thorough);
        for k in 0..chunks {
            many(&mut e, k, if z.thorough { 1500 } else { 150 }, &mut r);
            const SHORT: &[usize] = &[60, 60, 120, 252, 260, 520, 1040, 2100];
            const FULL: &[usize] = &[10, 100, 200, 1000, 4000, 60200, 5, 5, 10, 70000];
            bulks(&mut e, k, if k == 0 || z.thorough { FULL } else { SHORT }, &mut r);
            long(&mut e, k, if z.thorough { 4000 } else { 700 }, &mut r);
        }
        crowd(&mut e, 1, if z.thorough { 2000 } else { 700 }, &mut r);
    }
    for (k, v) in vasts.into_iter().enumerate() {
        for ev in v.join().unwrap() {
            e.emit_to(k, &ev);
        }
    }
    println!("{}", e.finish());
}
