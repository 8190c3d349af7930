#![crate_type = "rlib"]
macro_rules! written {
    ($($t:tt)*) => { pmh::run! { p0 (rrr { 1 }) $($t)* "m" [m2] ; } };
}
macro_rules! twice {
    ($($t:tt)*) => { written! { t1 $($t)* [t2 ()] } };
}
twice! { u1 + [u3 - u4] 7 (()) "u5" { u6 } }
