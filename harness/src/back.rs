//! C17: which implementation new objects use; schedules of calls on several threads, one per process.
use crate::json::*;
use crate::project::{guard, quiet};
use proc_macro2::{Delimiter, Group, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
enum St {
    Idle,
    Told(i64, usize), // op, kind of use
    Busy,
    At,  // stopped at a point of the library
    Go,  // told to go on
    Quit,
}

struct Shared {
    st: Vec<St>,
    log: Vec<J>,
    free: bool,
}
static S: Mutex<Shared> = Mutex::new(Shared { st: Vec::new(), log: Vec::new(), free: false });
static CV: Condvar = Condvar::new();
thread_local!(static ME: Cell<usize> = const { Cell::new(0) });

/// Called by the library (verification build) where other threads may interfere.
pub fn point(_: u32) {
    let me = ME.with(|m| m.get());
    if me == 0 {
        return;
    }
    let mut s = S.lock().unwrap();
    if s.free {
        return;
    }
    s.st[me - 1] = St::At;
    CV.notify_all();
    while s.st[me - 1] == St::At && !s.free {
        s = CV.wait(s).unwrap();
    }
    s.st[me - 1] = St::Busy;
}

fn backend(s: Span) -> i64 {
    match guard(|| s.unwrap()) {
        Ok(_) => 2,
        Err(m) if m.contains("only available in procedural macros") => 1,
        Err(_) => 3,
    }
}
pub const KINDS: usize = 54;
/// of these, the ones that ask only once
pub const SINGLE: usize = 49;
fn stream_backend(t: TokenStream) -> i64 {
    backend(Group::new(Delimiter::None, t).span())
}
/// Makes an object; which implementation does it use?
pub fn make(kind: usize) -> i64 {
    let made = guard(|| match kind % KINDS {
        0 => backend(Span::call_site()),
        1 => backend(Span::mixed_site()),
        2 => stream_backend(TokenStream::new()),
        3 => "a b".parse().map_or(2, stream_backend), // the compiler's panic is turned into an error
        4 => backend(Literal::u8_suffixed(1).span()),
        5 => backend(Literal::string("s").span()),
        6 => "1.5".parse::<Literal>().map_or(2, |l| backend(l.span())),
        7 => backend(Punct::new('+', Spacing::Alone).span()),
        8 => stream_backend(Vec::<TokenStream>::new().into_iter().collect()),
        9 => stream_backend(Vec::<TokenTree>::new().into_iter().collect()),
        10 => stream_backend(TokenStream::default()),
        11 => backend(Literal::u8_suffixed(1).span()),
        12 => backend(Literal::u8_unsuffixed(1).span()),
        13 => backend(Literal::u16_suffixed(1).span()),
        14 => backend(Literal::u16_unsuffixed(1).span()),
        15 => backend(Literal::u32_suffixed(1).span()),
        16 => backend(Literal::u32_unsuffixed(1).span()),
        17 => backend(Literal::u64_suffixed(1).span()),
        18 => backend(Literal::u64_unsuffixed(1).span()),
        19 => backend(Literal::u128_suffixed(1).span()),
        20 => backend(Literal::u128_unsuffixed(1).span()),
        21 => backend(Literal::usize_suffixed(1).span()),
        22 => backend(Literal::usize_unsuffixed(1).span()),
        23 => backend(Literal::i8_suffixed(1).span()),
        24 => backend(Literal::i8_unsuffixed(1).span()),
        25 => backend(Literal::i16_suffixed(1).span()),
        26 => backend(Literal::i16_unsuffixed(1).span()),
        27 => backend(Literal::i32_suffixed(1).span()),
        28 => backend(Literal::i32_unsuffixed(1).span()),
        29 => backend(Literal::i64_suffixed(1).span()),
        30 => backend(Literal::i64_unsuffixed(1).span()),
        31 => backend(Literal::i128_suffixed(1).span()),
        32 => backend(Literal::i128_unsuffixed(1).span()),
        33 => backend(Literal::isize_suffixed(1).span()),
        34 => backend(Literal::isize_unsuffixed(1).span()),
        35 => backend(Literal::f32_suffixed(1.5).span()),
        36 => backend(Literal::f32_unsuffixed(1.5).span()),
        37 => backend(Literal::f64_suffixed(1.5).span()),
        38 => backend(Literal::f64_unsuffixed(1.5).span()),
39 => backend(Literal::character('c').span()),
        40 => backend(Literal::byte_character(b'c').span()),
        41 => backend(Literal::byte_string(b"bs").span()),
        42 => backend(Literal::c_string(c"cs").span()),
        43 => "-1".parse::<Literal>().map_or(2, |l| backend(l.span())),
        44 => "".parse().map_or(2, stream_backend),
        45 => "(a) + 'b".parse().map_or(2, stream_backend),
        46 => backend(Punct::new('\'', Spacing::Joint).span()),
        47 => backend(Group::new(Delimiter::Brace, TokenStream::new()).span()),
        48 => stream_backend(TokenStream::new().into_iter().collect()),
        // these make several objects
        49 => stream_backend(TokenStream::from(TokenTree::from(Punct::new('+', Spacing::Joint)))),
        50 => stream_backend(Some(TokenTree::from(Punct::new('+', Spacing::Joint))).into_iter().collect()),
        51 => backend(proc_macro2::Ident::new("a", Span::call_site()).span()),
        52 => backend(proc_macro2::Ident::new_raw("a", Span::mixed_site()).span()),
        _ => stream_backend(vec![TokenStream::new(), TokenStream::new()].into_iter().collect()),
    });
    match made {
        Ok(b) => b,
        // the compiler's implementation was asked for where there is none
        Err(m) if m.contains("procedural macro API is used outside of a procedural macro") => 2,
        Err(_) => 3,
    }
}

fn work(me: usize) {
    ME.with(|m| m.set(me));
    loop {
        let mut s = S.lock().unwrap();
        let (op, kind) = loop {
            match s.st[me - 1] {
                St::Told(op, kind) => break (op, kind),
                St::Quit => return,
                _ => s = CV.wait(s).unwrap(),
            }
        };
        s.st[me - 1] = St::Busy;
        s.log.push(ints(&[1, me as i64, op]));
        drop(s);
        let out = match op {
            1 => make(kind),
            2 => guard(proc_macro2::fallback::force).map_or(3, |_| 0),
            _ => guard(proc_macro2::fallback::unforce).map_or(3, |_| 0),
        };
        let mut s = S.lock().unwrap();
        s.log.push(ints(&[2, me as i64, op, out]));
        s.st[me - 1] = St::Idle;
        CV.notify_all();
    }
}

/// Waits until thread t has stopped or finished; false after the time.
fn settle(t: usize, ms: u64) -> bool {
    let end = Instant::now() + Duration::from_millis(ms);
    let mut s = S.lock().unwrap();
    while !matches!(s.st[t - 1], St::Idle | St::At) {
        let now = Instant::now();
        if now >= end {
            return false;
        }
        s = CV.wait_timeout(s, end - now).unwrap().0;
    }
    true
}

/// This thread is thread 1.
pub fn run(out: &str, schedule: &str, kind: usize) {
    quiet();
    #[cfg(procmacro2_verif)]
    proc_macro2::verif::set_hook(point);
    let steps: Vec<(usize, i64)> = parse(schedule).arr().iter().map(|x| (x.arr()[0].int() as usize, x.arr()[1].int())).collect();
    let n = steps.iter().map(|x| x.0).max().unwrap_or(1);
    #[cfg(feature = "mac")]
    let inside = crate::pm::inside();
    #[cfg(not(feature = "mac"))]
    let inside = false;
    {
        let mut s = S.lock().unwrap();
        s.st = vec![St::Idle; n];
        s.log = vec![ints(&[0, inside as i64])];
    }
    for t in 2..=n {
        std::thread::spawn(move || work(t));
    }
    let out = out.to_string();
    let control = std::thread::spawn(move || {
        for (j, &(t, act)) in steps.iter().enumerate() {
            if act == 5 {
                // all calls under way come to their end
                for _ in 0..20 {
                    let mut s = S.lock().unwrap();
                    for x in &mut s.st {
                        if *x == St::At {
                            *x = St::Go;
                        }
                    }
                    let all = s.st.iter().all(|x| *x == St::Idle);
                    CV.notify_all();
                    drop(s);
                    if all {
                        break;
                    }
                    for o in 1..=n {
                        settle(o, 100);
                    }
                }
                continue;
            }
            let mut s = S.lock().unwrap();
            if act == 4 {
                if s.st[t - 1] == St::At {
                    s.st[t - 1] = St::Go;
                    CV.notify_all();
                }
                drop(s);
            } else {
                // an implementation with more points than the specification's has to be driven to the end
                let mut tries = 0;
                while s.st[t - 1] != St::Idle && tries < 20 {
                    if s.st[t - 1] == St::At {
                        s.st[t - 1] = St::Go;
                        CV.notify_all();
                    }
                    drop(s);
                    settle(t, 100);
                    s = S.lock().unwrap();
                    tries += 1;
                }
                if s.st[t - 1] == St::Idle {
                    s.st[t - 1] = St::Told(act, (kind + j) % if n > 1 { SINGLE } else { KINDS });
                    CV.notify_all();
                }
                drop(s);
            }
            settle(t, 300);
            // what waited for this thread may be able to go on
            for o in (1..=n).filter(|&o| o != t) {
                if S.lock().unwrap().st[o - 1] == St::Busy {
                    settle(o, 30);
                }
            }
        }
        {
            let mut s = S.lock().unwrap();
            s.free = true;
            for x in &mut s.st {
                if *x == St::At {
                    *x = St::Go;
                }
            }
            CV.notify_all();
        }
        let mut fine = true;
        for t in 1..=n {
            fine &= settle(t, 60000);
        }
        let mut s = S.lock().unwrap();
        if !fine {
            s.log.push(ints(&[3]));
            save(&out, &s.log);
            std::process::exit(0);
        }
        for x in &mut s.st {
            *x = St::Quit;
        }
        CV.notify_all();
        save(&out, &s.log);
    });
    // the macro's own thread
    work(1);
    control.join().unwrap();
}

fn save(out: &str, log: &[J]) {
    let mut text = Vec::new();
    for e in log {
        e.write(&mut text);
        text.push(b'\n');
    }
    std::fs::write(out, text).unwrap();
}
