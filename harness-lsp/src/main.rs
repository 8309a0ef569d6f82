#![allow(dead_code)]
#[path = "../../harness/src/sym.rs"]
mod sym;
mod mock;
mod frame;
mod rewrite;

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[no_mangle] pub fn $f() { $m::$f() })*
        #[used]
        static TABLE: &[(&str, fn())] = &[$((stringify!($f), $f)),*];
    };
}
table! {
    rewrite::h_line, rewrite::h_two, rewrite::h_plain, rewrite::h_hover, rewrite::h_hint,
    frame::h_frame, frame::h_truncated, frame::h_pass, frame::h_rewritten,
}
fn main() {
    sym::run(TABLE)
}
