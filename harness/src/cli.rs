//! One mode per kind of observation.
use crate::corpus::{self, Size};
use crate::json::*;
use crate::project::*;
use proc_macro2::TokenStream;

struct Opt {
    mode: String,
    out: String,
    chunks: usize,
    size: Size,
    rest: Vec<String>,
}

pub fn main(args: Vec<String>) {
    let get = |k: &str| args.iter().position(|x| x == k).map(|p| args[p + 1].clone());
    let o = Opt {
        mode: args[0].clone(),
        out: get("--out").unwrap_or_default(),
        chunks: get("--chunks").map_or(1, |x| x.parse().unwrap()),
        size: Size {
            thorough: get("--tier").as_deref() == Some("thorough"),
            seed: get("--seed").map_or(1, |x| x.parse().unwrap()),
            random: get("--random").map_or(8000, |x| x.parse().unwrap()),
        },
        rest: args.clone(),
    };
    let _ = &o.rest;
    quiet();
    match o.mode.as_str() {
        "lex" => lex(&o),
        "print" => crate::print::run(&o.out, o.chunks, &o.size),
        "span" => crate::span::run(&o.out, o.chunks, &o.size, &get("--corpus").unwrap_or_default()),
        "lit" => crate::lit::run_from_str(&o.out, o.chunks, &o.size),
        "val" => crate::lit::run_values(&o.out, o.chunks, &o.size),
        "ident" => crate::ident::run(&o.out, o.chunks, &o.size),
        "punct" => crate::ident::run_punct(&o.out, o.chunks, &o.size),
        "order" => crate::ident::run_order(&o.out, o.chunks, &o.size),
        "ctor" => crate::ctor::run(&o.out, o.chunks, &o.size),
        "store" => {
            let num = |k: &str, d: usize| get(k).map_or(d, |x| x.parse().unwrap());
            // without location tracking nothing of a stream may stay allocated; with it, the source map grows
            let tracked = !cfg!(any(feature = "loc", procmacro2_semver_exempt));
            crate::store::run(&o.out, o.chunks, num("--histories", 1000), num("--len", 24), o.size.seed ^ ((num("--salt", 0) as u64) << 20), get("--tokens").is_some(), num("--big", 24),
                if tracked { crate::alloc::live } else { crate::alloc::untracked }, get("--scripts").as_deref(), get("--nospans").is_none());
        }
        #[cfg(procmacro2_verif)]
        "sched" => crate::back::run(&o.out, &get("--schedule").unwrap(), get("--kind").map_or(0, |x| x.parse().unwrap())),
        #[cfg(feature = "mac")]
        "pmparse" => crate::pm::run_parse(&o.out, o.chunks, &o.size, get("--bad").is_some()),
        #[cfg(feature = "mac")]
        "mixed" => {
            let num = |k: &str, d: usize| get(k).map_or(d, |x| x.parse().unwrap());
            crate::store::run_mixed(&o.out, o.chunks, num("--histories", 1000), num("--len", 30), o.size.seed);
        }
        #[cfg(feature = "mac")]
        "hygiene" => {
            let num = |k: &str, d: usize| get(k).map_or(d, |x| x.parse().unwrap());
            crate::hygiene::run(&o.out, o.chunks, &o.size, num("--histories", 300), num("--len", 40), get("--scripts").as_deref());
        }
        "debug" => crate::debug::run(&o.out, o.chunks, &o.size),
        "userfiles" => {
            // OUT/k.rs, and OUT/inside.k.ndjson with the text as its first line
            let mut r = crate::rng::Rng::new(o.size.seed ^ 0x2121);
            for k in 0..o.chunks {
                let s = corpus::user_file(&mut r, get("--uses").map_or(20, |x| x.parse().unwrap()));
                std::fs::write(format!("{}/{}.rs", o.out, k), &s).unwrap();
                let mut line = Vec::new();
                a(vec![cps(&s)]).write(&mut line);
                line.push(b'\n');
                std::fs::write(format!("{}/inside.{}.ndjson", o.out, k), line).unwrap();
            }
        }
        "total" => crate::total::run(&o.out, o.chunks, &o.size, get("--n").map_or(60000, |x| x.parse().unwrap())),
        #[cfg(any(feature = "loc", procmacro2_semver_exempt))]
        "map" => {
            let num = |k: &str, d: usize| get(k).map_or(d, |x| x.parse().unwrap());
            crate::map::run(&o.out, o.chunks, &o.size, get("--threads").is_some(), num("--histories", 200), num("--len", 100));
        }
        m => {
            eprintln!("unknown mode {}", m);
            std::process::exit(2);
        }
    }
}

fn lex(o: &Opt) {
    let mut e = Emitter::new(&o.out, "lex", o.chunks);
    let mut put = |s: &str| {
        current(s);
        let rec = match guard(|| s.parse::<TokenStream>().map(flat_j)) {
            Ok(Ok(t)) => a(vec![cps(s), i(1), t]),
            Ok(Err(_)) => a(vec![cps(s), i(0), a(vec![])]),
            Err(_) => a(vec![cps(s), i(2), a(vec![])]),
        };
        e.emit(&rec);
    };
    corpus::sources(&o.size, &mut put);
    corpus::every_char(&o.size, &mut put);
    corpus::large(&o.size, &corpus::Large { nest: 5000, groups: true, huge: true }, &mut put);
    println!("{}", e.finish());
}
