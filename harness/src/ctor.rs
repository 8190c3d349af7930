//! C07: literals built from values.
use crate::corpus::{self, Size};
use crate::json::*;
use crate::project::*;
use crate::rng::Rng;
use proc_macro2::{Literal, TokenStream, TokenTree};
use std::ffi::CString;

fn repr(f: impl FnOnce() -> Literal) -> J {
    match guard(|| f().to_string()) {
        Ok(s) => cps(&s),
        Err(_) => a(vec![]),
    }
}

fn strings(z: &Size, e: &mut Emitter) {
    let mut batch = |v: &mut Vec<J>, tag: i64, x: J, force: bool| {
        if !force {
            v.push(x);
        }
        if v.len() >= 64 || (force && !v.is_empty()) {
            e.emit(&a(vec![i(tag), a(std::mem::take(v))]));
        }
    };
    // characters, and strings of 32 consecutive characters
    let (mut v, mut w) = (Vec::new(), Vec::new());
    let mut run = String::new();
    for u in 0..0x110000u32 {
        let Some(c) = char::from_u32(u) else { continue };
        let wanted = z.thorough || u < 0x3200 || (0xd000..0x10000).contains(&u) || (0xe0000..0xe0200).contains(&u) || u % 41 == 0 || u >= 0x10ffc0;
        if wanted {
            current(&c.to_string());
            batch(&mut v, 2, a(vec![i(u), repr(|| Literal::character(c))]), false);
        }
        if wanted || u % 5 == 0 {
            run.push(c);
        }
        if run.chars().count() >= 32 || u == 0x10ffff {
            current(&run);
            batch(&mut w, 1, a(vec![cps(&run), repr(|| Literal::string(&run))]), false);
            run.clear();
        }
    }
    batch(&mut v, 2, i(0), true);
    let alpha: Vec<char> = "\0\u{1}07 8'\"\\\n\r\taé\u{301}\u{200d}{\u{7f}\u{85}\u{2028}".chars().collect();
    corpus::exhaustive(&alpha, 3, &mut |s| batch(&mut w, 1, a(vec![cps(s), repr(|| Literal::string(s))]), false));
    let mut r = Rng::new(z.seed ^ 0x51);
    for _ in 0..z.random {
        let n = r.below(12);
        let s = random_text(&mut r, n);
        current(&s);
        batch(&mut w, 1, a(vec![cps(&s), repr(|| Literal::string(&s))]), false);
    }
    // long ones
    for &n in corpus::SIZES.iter().chain(&[65535, 65537]) {
        for (k, (x, y)) in [("a", "\0"), ("é", "7"), ("\0", "7"), ("\n", ""), ("\"", "é"), ("\\", "\u{301}"), ("'", "\""), ("🦀", "\r"), ("\u{7f}", "")].iter().enumerate() {
            if n < 6000 || k == 0 {
                let s = format!("{}{}", x.repeat(n), y);
                current(&s);
                batch(&mut w, 1, a(vec![cps(&s), repr(|| Literal::string(&s))]), false);
                if n > 200 {
                    batch(&mut w, 1, i(0), true);
                }
            }
        }
    }
    batch(&mut w, 1, i(0), true);
    // bytes
    let mut v = Vec::new();
    for x in 0..=255u8 {
        batch(&mut v, 3, a(vec![i(x), repr(|| Literal::byte_character(x))]), false);
    }
    batch(&mut v, 3, i(0), true);
    let mut bs = |s: &[u8], f: bool| batch(&mut v, 4, if f { i(0) } else { a(vec![bytes(s), repr(|| Literal::byte_string(s))]) }, f);
    bs(&[], false);
    for x in 0..=255u8 {
        bs(&[x], false);
        for y in 0..=255u8 {
            bs(&[x, y], false);
        }
    }
    for _ in 0..z.random {
        let n = r.below(10);
        let s: Vec<u8> = (0..n).map(|_| if r.chance(1, 2) { r.below(256) as u8 } else { *r.pick(b"\0\x01'\"\\07n\n\r\t\x7f") }).collect();
        bs(&s, false);
    }
    for &n in corpus::SIZES.iter().chain(&[65535, 65537]) {
        for (k, (x, y)) in [(b'a', b'\0'), (b'\0', b'7'), (b'\xff', b'"'), (b'"', b'\\'), (b'\n', b'\'')].iter().enumerate() {
            if n < 6000 || k == 0 {
                let mut s = vec![*x; n];
                s.push(*y);
                bs(&s, false);
                if n > 200 {
                    bs(&[], true);
                }
            }
        }
    }
    bs(&[], true);
    // C strings, valid UTF-8 or not
    let mut v = Vec::new();
    let mut cs = |s: &[u8], f: bool| {
        if f {
            batch(&mut v, 5, i(0), true);
        } else {
            let s: Vec<u8> = s.iter().copied().filter(|&x| x != 0).collect();
            let c = CString::new(s.clone()).unwrap();
            batch(&mut v, 5, a(vec![bytes(&s), repr(|| Literal::c_string(&c))]), false)
        }
    };
    let al = *b"\x0107a\\\"'\n\r\t\x7f\x80\xbf\xc3\xa9\xe2\x82\xac\xed\xa0\xf0\x9f\xa6\xf4\xff\xc0";
    cs(&[], false);
    for &x in &al {
        cs(&[x], false);
        for &y in &al {
            cs(&[x, y], false);
            for &w in &al {
                cs(&[x, y, w], false);
            }
        }
    }
    for &n in corpus::SIZES.iter().chain(&[65535, 65537]) {
        for (k, (x, y)) in [("a", &b"\""[..]), ("é", b"\xff"), ("é", b"\xc3"), ("\u{1}", b"7"), ("\\", b"\n"), ("🦀", b"\xf0\x9f\xa6")].iter().enumerate() {
            if n < 6000 || k == 0 {
                let mut s = x.repeat(n).into_bytes();
                s.extend_from_slice(y);
                cs(&s, false);
                if n > 200 {
                    cs(&[], true);
                }
                if k == 1 {
                    s.extend_from_slice("é".repeat(n).as_bytes());
                    cs(&s, false);
                    cs(&[], true);
                }
            }
        }
    }
    for _ in 0..z.random {
        let n = r.below(6);
        let mut s = random_text(&mut r, n).into_bytes();
        for _ in 0..r.below(4) {
            let at = r.below(s.len() + 1);
            s.insert(at, *r.pick(&al));
        }
        if r.chance(1, 3) && !s.is_empty() {
            s.pop();
        }
        cs(&s, false);
    }
    cs(&[], true);
}

fn random_text(r: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match r.below(3) {
            0 => s.push(*r.pick(&['\0', '0', '7', '8', '\'', '"', '\\', '\n', '\r', '\t', 'a', 'é', '🦀', '\u{301}', '\u{fffd}', '\u{10ffff}', 'x', 'u', '{', '\u{7f}'])),
            1 => s.push(char::from_u32(r.below(128) as u32).unwrap()),
            _ => {
                if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                    s.push(c)
                }
            }
        }
    }
    s
}

/// [6, type name, suffixed, negative, magnitude (bytes, little endian), text, tokens]
macro_rules! int {
    ($e:ident, $r:ident, $ran:expr, $($t:ident $s:ident $u:ident;)*) => {$(
        {
            let mut vals: Vec<$t> = vec![<$t>::MIN, <$t>::MAX, 0, 1, 2, 9, 10, 11, 99, 100, 127, <$t>::MAX / 2, <$t>::MIN / 2, <$t>::MAX - 1, <$t>::MIN + 1, 0 as $t, !(0 as $t)];
            let mut p: $t = 1;
            while let Some(q) = p.checked_mul(10) { vals.push(q); vals.push(q - 1); vals.push(q + 1); vals.push((0 as $t).wrapping_sub(q)); p = q; }
            for b in 0..<$t>::BITS { vals.push((1 as $t) << b); vals.push(((1 as $t) << b).wrapping_sub(1)); vals.push((0 as $t).wrapping_sub((1 as $t) << b)); }
            for _ in 0..$ran { let x = (($r.next() as u128) << 64) | $r.next() as u128; vals.push((x >> $r.below(128)) as $t); }
            if <$t>::BITS == 8 { for x in 0..=255u8 { vals.push(x as $t); } }
            vals.sort(); vals.dedup();
            for x in vals {
                for sfx in [true, false] {
                    let l = guard(|| if sfx { Literal::$s(x) } else { Literal::$u(x) });
                    #[allow(unused_comparisons)]
                    let neg = x < 0;
                    let mag: u128 = if neg { (x as i128).unsigned_abs() } else { x as u128 };
                    $e.emit(&a(vec![i(6), cps(stringify!($t)), b(sfx), b(neg), bytes(&mag.to_le_bytes()),
                        l.as_ref().map_or(a(vec![]), |l| cps(&l.to_string())),
                        l.map_or(a(vec![]), |l| flat_j(TokenStream::from(TokenTree::Literal(l))))]));
                }
            }
        }
    )*};
}

/// [7, 32|64, suffixed, bits (bytes, little endian), status, text, tokens]
fn float(e: &mut Emitter, wide: bool, bits: u64) {
    for sfx in [true, false] {
        let l = guard(|| match (wide, sfx) {
            (true, true) => Literal::f64_suffixed(f64::from_bits(bits)),
            (true, false) => Literal::f64_unsuffixed(f64::from_bits(bits)),
            (false, true) => Literal::f32_suffixed(f32::from_bits(bits as u32)),
            (false, false) => Literal::f32_unsuffixed(f32::from_bits(bits as u32)),
        });
        let raw = if wide { bits.to_le_bytes().to_vec() } else { (bits as u32).to_le_bytes().to_vec() };
        let (st, t, toks) = match l {
            Ok(l) => (1, cps(&l.to_string()), flat_j(TokenStream::from(TokenTree::Literal(l)))),
            Err(_) => (2, a(vec![]), a(vec![])),
        };
        e.emit(&a(vec![i(7), i(if wide { 64 } else { 32 }), b(sfx), bytes(&raw), i(st), t, toks]));
    }
}

pub fn run(out: &str, chunks: usize, z: &Size) {
    let mut e = Emitter::new(out, "ctor", chunks);
    let mut r = Rng::new(z.seed ^ 0x61);
    let ran = if z.thorough { 400 } else { 60 };
    strings(z, &mut e);
    int!(e, r, ran,
        u8 u8_suffixed u8_unsuffixed; u16 u16_suffixed u16_unsuffixed; u32 u32_suffixed u32_unsuffixed; u64 u64_suffixed u64_unsuffixed; u128 u128_suffixed u128_unsuffixed; usize usize_suffixed usize_unsuffixed;
        i8 i8_suffixed i8_unsuffixed; i16 i16_suffixed i16_unsuffixed; i32 i32_suffixed i32_unsuffixed; i64 i64_suffixed i64_unsuffixed; i128 i128_suffixed i128_unsuffixed; isize isize_suffixed isize_unsuffixed;
    );
    for x in [0.0f64, 1.0, 0.1, 0.5, 1.5, 100.0, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 123456789.0, 5e-324, 1e-5, 1e-7, 0.3, 2.0 / 3.0, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, 9007199254740993.0, 1e300, 1e-300, f64::INFINITY, f64::NAN] {
        float(&mut e, true, x.to_bits());
        float(&mut e, true, (-x).to_bits());
        float(&mut e, false, (x as f32).to_bits() as u64);
        float(&mut e, false, (-x as f32).to_bits() as u64);
    }
    for x in 0..20 {
        float(&mut e, true, (10f64).powi(x).to_bits());
        float(&mut e, false, (10f32).powi(x).to_bits() as u64);
        float(&mut e, true, (2f64).powi(53 + x).to_bits());
    }
    for n in 0..if z.thorough { 6000 } else { 500 } {
        // every exponent region; narrow exponents keep the arithmetic cheap
        let m = r.next();
        let ex = if n % 8 == 0 { r.below(2048) as u64 } else { 1023 - 60 + r.below(130) as u64 };
        float(&mut e, true, (m & !(0x7ff << 52)) | (ex << 52));
        let m = r.next() & 0xffff_ffff;
        float(&mut e, false, m);
    }
    println!("{}", e.finish());
}
