mod sym;
mod scale;
mod arith;
mod core_;
mod show;

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[unsafe(no_mangle)] pub fn $f() { $m::$f() })*
        #[used]
        static TABLE: &[(&str, fn())] = &[$((stringify!($f), $f)),*];
    };
}
table! {
    show::h_ten, show::h_named, show::h_scale_name, show::h_unit_name, show::h_super,
    scale::h_scale_rational, scale::h_scale_float, scale::h_reduce,
    core_::h_exps, core_::h_powers, core_::h_lookup, core_::h_find, core_::h_expr, core_::h_text, core_::h_tmpl,
    arith::h_arith_f64, arith::h_arith_f32, arith::h_arith_i8, arith::h_arith_i16, arith::h_arith_i32, arith::h_arith_i64, arith::h_arith_i128, arith::h_arith_isize, arith::h_arith_u8, arith::h_arith_u16, arith::h_arith_u32, arith::h_arith_u64, arith::h_arith_u128, arith::h_arith_usize, arith::h_rescale_f64, arith::h_rescale_f32, arith::h_rescale_i8, arith::h_rescale_i16, arith::h_rescale_i32, arith::h_rescale_i64, arith::h_rescale_i128, arith::h_rescale_isize, arith::h_rescale_u8, arith::h_rescale_u16, arith::h_rescale_u32, arith::h_rescale_u64, arith::h_rescale_u128, arith::h_rescale_usize, arith::h_rescale_default, arith::h_erase_f64, arith::h_erase_f32, arith::h_erase_i8, arith::h_erase_i16, arith::h_erase_i32, arith::h_erase_i64, arith::h_erase_i128, arith::h_erase_isize, arith::h_erase_u8, arith::h_erase_u16, arith::h_erase_u32, arith::h_erase_u64, arith::h_erase_u128, arith::h_erase_usize, arith::h_cross_f64, arith::h_cross_f32, arith::h_cross_i8, arith::h_cross_i16, arith::h_cross_i32, arith::h_cross_i64, arith::h_cross_i128, arith::h_cross_isize, arith::h_cross_u8, arith::h_cross_u16, arith::h_cross_u32, arith::h_cross_u64, arith::h_cross_u128, arith::h_cross_usize, arith::h_radx_f32_f64, arith::h_radx_f64_f32, arith::h_radx_i32_f32, arith::h_radx_i32_f64, arith::h_radx_i64_f32, arith::h_radx_i64_f64, arith::h_radx_f32_i32, arith::h_radx_f64_i32, arith::h_radx_f32_i64, arith::h_radx_f64_i64, arith::h_rad_f32, arith::h_rad_f64, arith::h_rad_i16, arith::h_rad_i32, arith::h_rad_i64, arith::h_rad_i128, arith::h_rad_isize,
}
fn main() {
    sym::run(TABLE)
}
