#![allow(dead_code)]
#[path = "../../harness/src/sym.rs"]
mod sym;
#[path = "../../harness/src/scale.rs"]
mod scale;
#[path = "../../harness/src/core_.rs"]
mod core_;
mod shown;
mod ty;
mod read;
mod fmt;
mod round;

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[unsafe(no_mangle)] pub fn $f() { $m::$f() })*
        #[used]
        static TABLE: &[(&str, fn())] = &[$((stringify!($f), $f)),*];
    };
}
table! {
    read::h_read_unit, read::h_read_ident, read::h_read_expr, read::h_number, read::h_string, read::h_json, read::h_fields,
    fmt::h_fmt_unit, fmt::h_fmt_ident, fmt::h_fmt_expr,
    round::h_round, round::h_json_text,
}
fn main() {
    sym::run(TABLE)
}
