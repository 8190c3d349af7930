#![crate_type = "rlib"]
pmh::run! { p0 qq (rrr) "ssss" + 'l [x ; -1] }
