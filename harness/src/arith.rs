//! Arithmetic passthrough (C05), erasure (C06), rescaling (C09, C10).
use crate::sym::*;
use core::cmp::Ordering;
use whippyunits::api;
use whippyunits::quantity::*;

/// A user brand.
#[derive(Clone, Copy, PartialEq)]
pub struct Br;

macro_rules! q {
    ($T:ty, $B:ty, [$a:expr, $b:expr, $c:expr, $d:expr], [$m:expr, $l:expr, $t:expr, $i:expr, $th:expr, $n:expr, $j:expr, $an:expr]) => {
        Quantity<Scale<_2<{ $a }>, _3<{ $b }>, _5<{ $c }>, _Pi<{ $d }>>, Dimension<_M<{ $m }>, _L<{ $l }>, _T<{ $t }>, _I<{ $i }>, _Θ<{ $th }>, _N<{ $n }>, _J<{ $j }>, _A<{ $an }>>, $T, $B>
    };
}
/// left operand type
type QA<T> = q!(T, Br, [3, -2, 5, 1], [1, -2, 3, 4, -5, 6, 7, -8]);
/// right operand type for products
type QB<T> = q!(T, Br, [-7, 4, 2, -3], [9, 3, -1, 2, 5, -4, 1, 6]);
/// default brand, dimensionless unscaled
type QD<T> = q!(T, (), [0, 0, 0, 0], [1, 0, -2, 0, 0, 0, 0, 0]);

pub trait Bits: Copy {
    fn bits(self) -> u128;
}
macro_rules! bits_int { ($($t:ty),*) => { $(impl Bits for $t { #[inline(always)] fn bits(self) -> u128 { self as u128 } })* } }
bits_int!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
impl Bits for f32 {
    #[inline(always)]
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}
impl Bits for f64 {
    #[inline(always)]
    fn bits(self) -> u128 {
        self.to_bits() as u128
    }
}
#[inline(always)]
fn same<T: Bits>(a: T, b: T, l: &'static str) {
    check(a.bits() == b.bits(), l)
}

macro_rules! common_cmp {
    ($T:ty, $a:ident, $b:ident) => {{
        let (x, y) = (QA::<$T>::new($a), QA::<$T>::new($b));
        check((x == y) == ($a == $b), "eq");
        check((x != y) == ($a != $b), "ne");
        check((x < y) == ($a < $b), "lt");
        check((x <= y) == ($a <= $b), "le");
        check((x > y) == ($a > $b), "gt");
        check((x >= y) == ($a >= $b), "ge");
        let o = x.partial_cmp(&y);
        check((o == Some(Ordering::Less)) == ($a < $b), "cmp-less");
        check((o == Some(Ordering::Equal)) == ($a == $b), "cmp-equal");
        check((o == Some(Ordering::Greater)) == ($a > $b), "cmp-greater");
        same(x.clone().unsafe_value, $a, "clone");
        same(x.unsafe_value, $a, "new");
        witness($a < $b, "compared");
    }};
}

macro_rules! float_arith {
    ($f:ident, $T:ty) => {
        pub fn $f() {
            let a: $T = any("a");
            let b: $T = any("b");
            let qa = QA::<$T>::new(a);
            let qa2 = QA::<$T>::new(b);
            let qb = QB::<$T>::new(b);
            let d = QD::<$T>::new(b);
            match below("op", 24) {
                0 => same((qa + qa2).unsafe_value, a + b, "add"),
                1 => same((qa - qa2).unsafe_value, a - b, "sub"),
                2 => same((qa % qa2).unsafe_value, a % b, "rem"),
                3 => same((qa * qb).unsafe_value, a * b, "mul"),
                4 => same((qa / qb).unsafe_value, a / b, "div"),
                5 => same((-qa).unsafe_value, -a, "neg"),
                6 => same((qa * b).unsafe_value, a * b, "mul-scalar"),
                7 => same((qa / b).unsafe_value, a / b, "div-scalar"),
                8 => same((qa % b).unsafe_value, a % b, "rem-scalar"),
                9 => same((a * d).unsafe_value, a * b, "scalar-mul"),
                10 => same((a / d).unsafe_value, a / b, "scalar-div"),
                11 => { let mut x = qa; x += qa2; same(x.unsafe_value, a + b, "add-assign") }
                12 => { let mut x = qa; x -= qa2; same(x.unsafe_value, a - b, "sub-assign") }
                13 => { let mut x = qa; x %= qa2; same(x.unsafe_value, a % b, "rem-assign") }
                14 => { let mut x = qa; x *= b; same(x.unsafe_value, a * b, "mul-assign") }
                15 => { let mut x = qa; x /= b; same(x.unsafe_value, a / b, "div-assign") }
                16 => { let mut x = qa; x %= b; same(x.unsafe_value, a % b, "rem-assign-scalar") }
                17 => same((qa / qa2).unsafe_value, a / b, "div-same-type"),
                18 => same((a * qb).unsafe_value, a * b, "scalar-mul-branded"),
                19 => same((a / qb).unsafe_value, a / b, "scalar-div-branded"),
                20 => same((QD::<$T>::new(a) * d).unsafe_value, a * b, "mul-plain"),
                21 => same((QD::<$T>::new(a) / d).unsafe_value, a / b, "div-plain"),
                22 => same((QD::<$T>::new(a) + d).unsafe_value, a + b, "add-plain"),
                _ => common_cmp!($T, a, b),
            }
        }
    };
}
float_arith!(h_arith_f64, f64);
float_arith!(h_arith_f32, f32);

/// run an integer operation: equal to the checked raw operation, panicking exactly when it would
macro_rules! ck {
    ($l:expr, $raw:expr, $q:expr) => {
        match $raw {
            Some(r) => {
                allow_panic(false);
                let v = $q;
                same(v, r, $l)
            }
            None => {
                allow_panic(true);
                let v = $q;
                allow_panic(false);
                core::hint::black_box(v);
                check(false, concat!($l, "-must-panic"))
            }
        }
    };
}

macro_rules! int_arith {
    ($f:ident, $T:ty, $($neg:tt)*) => {
        pub fn $f() {
            let a: $T = any("a");
            let b: $T = any("b");
            let qa = QA::<$T>::new(a);
            let qa2 = QA::<$T>::new(b);
            let qb = QB::<$T>::new(b);
            let d = QD::<$T>::new(b);
            match below("op", 25) {
                0 => ck!("add", a.checked_add(b), (qa + qa2).unsafe_value),
                1 => ck!("sub", a.checked_sub(b), (qa - qa2).unsafe_value),
                2 => ck!("rem", a.checked_rem(b), (qa % qa2).unsafe_value),
                3 => ck!("mul", a.checked_mul(b), (qa * qb).unsafe_value),
                4 => ck!("div", a.checked_div(b), (qa / qb).unsafe_value),
                5 => { $($neg)*; }
                6 => ck!("mul-scalar", a.checked_mul(b), (qa * b).unsafe_value),
                7 => ck!("div-scalar", a.checked_div(b), (qa / b).unsafe_value),
                8 => ck!("rem-scalar", a.checked_rem(b), (qa % b).unsafe_value),
                9 => ck!("scalar-mul", a.checked_mul(b), (a * d).unsafe_value),
                10 => ck!("scalar-div", a.checked_div(b), (a / d).unsafe_value),
                11 => ck!("add-assign", a.checked_add(b), { let mut x = qa; x += qa2; x.unsafe_value }),
                12 => ck!("sub-assign", a.checked_sub(b), { let mut x = qa; x -= qa2; x.unsafe_value }),
                13 => ck!("rem-assign", a.checked_rem(b), { let mut x = qa; x %= qa2; x.unsafe_value }),
                14 => ck!("mul-assign", a.checked_mul(b), { let mut x = qa; x *= b; x.unsafe_value }),
                15 => ck!("div-assign", a.checked_div(b), { let mut x = qa; x /= b; x.unsafe_value }),
                16 => ck!("rem-assign-scalar", a.checked_rem(b), { let mut x = qa; x %= b; x.unsafe_value }),
                17 => ck!("div-same-type", a.checked_div(b), (qa / qa2).unsafe_value),
                18 => ck!("scalar-mul-branded", a.checked_mul(b), (a * qb).unsafe_value),
                19 => ck!("scalar-div-branded", a.checked_div(b), (a / qb).unsafe_value),
                20 => ck!("mul-plain", a.checked_mul(b), (QD::<$T>::new(a) * d).unsafe_value),
                21 => ck!("div-plain", a.checked_div(b), (QD::<$T>::new(a) / d).unsafe_value),
                22 => ck!("add-plain", a.checked_add(b), (QD::<$T>::new(a) + d).unsafe_value),
                23 => {
                    same(QA::<$T>::new(a).unsafe_value, a, "construct");
                }
                _ => common_cmp!($T, a, b),
            }
        }
    };
}
macro_rules! signed { ($($f:ident $T:ty;)*) => { $(int_arith!($f, $T, { let a: $T = any("n"); ck!("neg", a.checked_neg(), (-QA::<$T>::new(a)).unsafe_value) });)* } }
macro_rules! unsigned { ($($f:ident $T:ty;)*) => { $(int_arith!($f, $T, check(true, "unsigned"));)* } }
signed! { h_arith_i8 i8; h_arith_i16 i16; h_arith_i32 i32; h_arith_i64 i64; h_arith_i128 i128; h_arith_isize isize; }
unsigned! { h_arith_u8 u8; h_arith_u16 u16; h_arith_u32 u32; h_arith_u64 u64; h_arith_u128 u128; h_arith_usize usize; }

// ------------------------------------------------------------------ integer rescale (C09)

/// The documented integer rule in 128-bit arithmetic; `None`: not representable.
macro_rules! expect_int {
    ($v:expr, $n:expr, $d:expr, $T:ty, $W:ty) => {{
        let w = $v as $W;
        let (n, d) = ($n as $W, $d as $W);
        let r: Option<$W> = match w.checked_mul(n) {
            Some(p) => Some(p / d),
            None => (w / d).checked_mul(n),
        };
        match r {
            Some(r) if r as $T as $W == r => Some(r as $T),
            _ => None,
        }
    }};
}
const DIMS: [i16; 8] = [1, -2, 3, 4, -5, 6, 7, -8];
macro_rules! rescale_case {
    ($rf:ident, $T:ty, $W:ty, $v:ident, $l:expr, [$($a:expr),*] => [$($b:expr),*], $num:expr, $den:expr) => {{
        type From = q!($T, Br, [$($a),*], [1, -2, 3, 4, -5, 6, 7, -8]);
        type To = q!($T, Br, [$($b),*], [1, -2, 3, 4, -5, 6, 7, -8]);
        match expect_int!($v, $num, $den, $T, $W) {
            Some(r) => {
                allow_panic(false);
                let x: To = api::$rf(From::new($v));
                same(x.unsafe_value, r, $l);
                witness(r != $v, $l);
            }
            None => {
                allow_panic(true);
                let x: To = api::$rf(From::new($v));
                allow_panic(false);
                core::hint::black_box(x.unsafe_value);
                check(false, concat!($l, "-unrepresentable-must-panic"))
            }
        }
    }};
}
macro_rules! int_rescale {
    ($($f:ident $rf:ident $T:ty, $W:ty;)*) => { $(pub fn $f() {
        let v: $T = any("v");
        match param(0) {
            0 => rescale_case!($rf, $T, $W, v, "identity", [3, -2, 5, 1] => [3, -2, 5, 1], 1u64, 1u64),
            1 => rescale_case!($rf, $T, $W, v, "kilo", [3, 0, 3, 0] => [0, 0, 0, 0], 1000u64, 1u64),
            2 => rescale_case!($rf, $T, $W, v, "milli", [-3, 0, -3, 0] => [0, 0, 0, 0], 1u64, 1000u64),
            3 => rescale_case!($rf, $T, $W, v, "216/5", [4, 2, 1, 0] => [1, -1, 2, 0], 216u64, 5u64),
            4 => rescale_case!($rf, $T, $W, v, "1/12", [-1, 1, 0, 2] => [1, 2, 0, 2], 1u64, 12u64),
            5 => rescale_case!($rf, $T, $W, v, "degree", [-2, -2, -1, 1] => [0, 0, 0, 0], 71u64, 4068u64),
            6 => rescale_case!($rf, $T, $W, v, "per-pi2", [1, 0, 0, -1] => [0, 0, 0, 1], 25538u64, 126025u64),
            7 => rescale_case!($rf, $T, $W, v, "hour", [0, 0, 0, 0] => [4, 2, 2, 0], 1u64, 3600u64),
            8 => rescale_case!($rf, $T, $W, v, "e20", [20, 0, 20, 0] => [0, 0, 0, 0], 100000000000000000000u128, 1u64),
            9 => rescale_case!($rf, $T, $W, v, "e-20", [-10, 0, -10, 0] => [10, 0, 10, 0], 1u64, 100000000000000000000u128),
            10 => rescale_case!($rf, $T, $W, v, "3/2", [0, 1, 0, 0] => [1, 0, 0, 0], 3u64, 2u64),
            _ => rescale_case!($rf, $T, $W, v, "25/18", [0, 0, 2, 0] => [1, 2, 0, 0], 25u64, 18u64),
        }
    })* }
}
int_rescale! {
    h_rescale_i8 rescale_i8 i8, i128; h_rescale_i16 rescale_i16 i16, i128; h_rescale_i32 rescale_i32 i32, i128;
    h_rescale_i64 rescale_i64 i64, i128; h_rescale_i128 rescale_i128 i128, i128; h_rescale_isize rescale_isize isize, i128;
    h_rescale_u8 rescale_u8 u8, u128; h_rescale_u16 rescale_u16 u16, u128; h_rescale_u32 rescale_u32 u32, u128;
    h_rescale_u64 rescale_u64 u64, u128; h_rescale_u128 rescale_u128 u128, u128; h_rescale_usize rescale_usize usize, u128;
}

// ------------------------------------------------------------------ float rescale (C10)

/// exact factor of a scale difference, correctly rounded per prime
fn factor(d: [i16; 4]) -> f64 {
    use crate::scale::{POW2, POW3, POW5, POWPI};
    POW2[(d[0] + 200) as usize] * POW3[(d[1] + 200) as usize] * POW5[(d[2] + 200) as usize] * POWPI[(d[3] + 40) as usize]
}
macro_rules! float_case {
    ($rf:ident, $T:ty, $l:expr, $eps:expr, [$a:expr, $b:expr, $c:expr, $d:expr] => [$a2:expr, $b2:expr, $c2:expr, $d2:expr]) => {{
        type From = q!($T, Br, [$a, $b, $c, $d], [1, -2, 3, 4, -5, 6, 7, -8]);
        type To = q!($T, Br, [$a2, $b2, $c2, $d2], [1, -2, 3, 4, -5, 6, 7, -8]);
        let v: $T = any("v");
        let x: To = api::$rf(From::new(v));
        // the factor the conversion uses, read off at 1, against the exact one
        let one: To = api::$rf(From::new(1.0));
        let ex = factor([$a - $a2, $b - $b2, $c - $c2, $d - $d2]);
        check((one.unsafe_value as f64 - ex).abs() <= $eps * ex, concat!($l, "-factor"));
        let e = v * one.unsafe_value;
        check(x.unsafe_value.to_bits() == e.to_bits() || (x.unsafe_value - e).abs() <= $eps * e.abs() || (x.unsafe_value != x.unsafe_value && e != e), $l);
        witness(v > 1.0, $l);
    }};
}
macro_rules! float_rescale {
    ($($f:ident $rf:ident $T:ty, $eps:expr;)*) => { $(pub fn $f() {
        match below("case", 14) {
            0 => float_case!($rf, $T, "identity", $eps, [3, -2, 5, 1] => [3, -2, 5, 1]),
            1 => float_case!($rf, $T, "kilo", $eps, [3, 0, 3, 0] => [0, 0, 0, 0]),
            2 => float_case!($rf, $T, "milli", $eps, [-3, 0, -3, 0] => [0, 0, 0, 0]),
            3 => float_case!($rf, $T, "216/5", $eps, [4, 2, 1, 0] => [1, -1, 2, 0]),
            4 => float_case!($rf, $T, "1/12", $eps, [-1, 1, 0, 2] => [1, 2, 0, 2]),
            5 => float_case!($rf, $T, "degree", $eps, [-2, -2, -1, 1] => [0, 0, 0, 0]),
            6 => float_case!($rf, $T, "per-pi2", $eps, [1, 0, 0, -1] => [0, 0, 0, 1]),
            7 => float_case!($rf, $T, "hour", $eps, [0, 0, 0, 0] => [4, 2, 2, 0]),
            8 => float_case!($rf, $T, "e20", $eps, [20, 0, 20, 0] => [0, 0, 0, 0]),
            9 => float_case!($rf, $T, "e-20", $eps, [-10, 0, -10, 0] => [10, 0, 10, 0]),
            10 => float_case!($rf, $T, "3", $eps, [0, 1, 0, 0] => [0, 0, 0, 0]),
            11 => float_case!($rf, $T, "1/9", $eps, [0, 0, 0, 0] => [0, 2, 0, 0]),
            12 => float_case!($rf, $T, "all", $eps, [7, 3, -2, 2] => [-4, 5, 3, -1]),
            _ => float_case!($rf, $T, "pi", $eps, [0, 0, 0, 3] => [0, 0, 0, -2]),
        }
    })* }
}
float_rescale! { h_rescale_f64 rescale_f64 f64, 1e-13; h_rescale_default rescale f64, 1e-13; h_rescale_f32 rescale_f32 f32, 1e-6; }

// ------------------------------------------------------------------ erasure (C06)

macro_rules! same_or_nan {
    ($got:expr, $want:expr, $l:expr) => {{
        let (g, w) = ($got, $want);
        check((g.bits() == w.bits()) | ((g != g) & (w != w)), $l)
    }};
}
/// expected erased value of `v` (storage type S) with the scale difference `n/d` ~ `f`
macro_rules! erase_same {
    // integer storage: the integer rescale rule
    (int $T:ty, $W:ty, $v:ident, [$($s:expr),*], $n:expr, $d:expr, $an:expr, $l:expr) => {{
        type F = q!($T, (), [$($s),*], [0, 0, 0, 0, 0, 0, 0, $an]);
        match expect_int!($v, $n, $d, $T, $W) {
            Some(r) => {
                allow_panic(false);
                let x: $T = F::new($v).into();
                same(x, r, $l);
            }
            None => {
                allow_panic(true);
                let x: $T = F::new($v).into();
                allow_panic(false);
                core::hint::black_box(x);
                check(false, concat!($l, "-unrepresentable-must-panic"))
            }
        }
    }};
    (float $T:ty, $W:ty, $v:ident, [$($s:expr),*], $n:expr, $d:expr, $an:expr, $l:expr) => {{
        type F = q!($T, (), [$($s),*], [0, 0, 0, 0, 0, 0, 0, $an]);
        let x: $T = F::new($v).into();
        let f = factor([$($s),*]) as $T;
        let one: $T = F::new(1.0).into();
        check((one - f).abs() <= (f * (f32::EPSILON as $T)), concat!($l, "-factor"));
        same_or_nan!(x, $v * one, $l);
    }};
}
macro_rules! erase_dimless {
    ($($f:ident $k:ident $T:ty, $W:ty;)*) => { $(pub fn $f() {
        let v: $T = any("v");
        witness(v as f64 == 3.0, "three");
        match below("case", 4) {
            0 => { type F = q!($T, (), [0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0]); let x: $T = F::new(v).into(); same(x, v, "unscaled"); }
            1 => erase_same!($k $T, $W, v, [3, 0, 3, 0], 1000u64, 1u64, 0, "kilo"),
            2 => erase_same!($k $T, $W, v, [3, 3, -1, 0], 216u64, 5u64, 0, "216/5"),
            _ => erase_same!($k $T, $W, v, [-2, -2, -1, 1], 71u64, 4068u64, 0, "degree-scale"),
        }
    })* }
}
erase_dimless! {
    h_erase_f32 float f32, f32; h_erase_f64 float f64, f64;
    h_erase_i8 int i8, i128; h_erase_i16 int i16, i128; h_erase_i32 int i32, i128; h_erase_i64 int i64, i128; h_erase_i128 int i128, i128; h_erase_isize int isize, i128;
    h_erase_u8 int u8, u128; h_erase_u16 int u16, u128; h_erase_u32 int u32, u128; h_erase_u64 int u64, u128; h_erase_u128 int u128, u128; h_erase_usize int usize, u128;
}
// every pair of distinct storage types: through f64, `as` semantics
macro_rules! cross_one {
    ($S:ty, $U:ty, $an:expr) => {{
        let v: $S = any("v");
        type F0 = q!($S, (), [0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, $an]);
        let x: $U = F0::new(v).into();
        same_or_nan!(x, (v as f64) as $U, concat!("cross-unscaled-", stringify!($S), "-", stringify!($U)));
        type F1 = q!($S, (), [3, 0, 3, 0], [0, 0, 0, 0, 0, 0, 0, $an]);
        let x: $U = F1::new(v).into();
        same_or_nan!(x, ((v as f64) * 1000.0) as $U, concat!("cross-kilo-", stringify!($S), "-", stringify!($U)));
        type F2 = q!($S, (), [-2, -2, -1, 1], [0, 0, 0, 0, 0, 0, 0, $an]);
        let x: $U = F2::new(v).into();
        same_or_nan!(x, ((v as f64) * api::aggregate_scale_factor_float(-2, -2, -1, 1, 0, 0, 0, 0)) as $U, concat!("cross-degree-", stringify!($S), "-", stringify!($U)));
        witness(v as f64 == 2.0, concat!("cross-", stringify!($S)));
    }};
}
fn pick(f: &[fn()]) {
    let k = concretize(below("k", f.len()) as u64) as usize;
    f[k]()
}
macro_rules! cross_from {
    ($f:ident $S:ty => $($U:ty),*) => { pub fn $f() { pick(&[$(|| cross_one!($S, $U, 0)),*]) } }
}
cross_from!(h_cross_f32 f32 => f64, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
cross_from!(h_cross_f64 f64 => f32, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
cross_from!(h_cross_i8 i8 => f32, f64, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
cross_from!(h_cross_i16 i16 => f32, f64, i8, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
cross_from!(h_cross_i32 i32 => f32, f64, i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize);
cross_from!(h_cross_i64 i64 => f32, f64, i8, i16, i32, i128, isize, u8, u16, u32, u64, u128, usize);
cross_from!(h_cross_i128 i128 => f32, f64, i8, i16, i32, i64, isize, u8, u16, u32, u64, u128, usize);
cross_from!(h_cross_isize isize => f32, f64, i8, i16, i32, i64, i128, u8, u16, u32, u64, u128, usize);
cross_from!(h_cross_u8 u8 => f32, f64, i8, i16, i32, i64, i128, isize, u16, u32, u64, u128, usize);
cross_from!(h_cross_u16 u16 => f32, f64, i8, i16, i32, i64, i128, isize, u8, u32, u64, u128, usize);
cross_from!(h_cross_u32 u32 => f32, f64, i8, i16, i32, i64, i128, isize, u8, u16, u64, u128, usize);
cross_from!(h_cross_u64 u64 => f32, f64, i8, i16, i32, i64, i128, isize, u8, u16, u32, u128, usize);
cross_from!(h_cross_u128 u128 => f32, f64, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, usize);
cross_from!(h_cross_usize usize => f32, f64, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128);

macro_rules! rad_cross {
    ($f:ident $S:ty => $U:ty) => { pub fn $f() {
        pick(&[|| cross_one!($S, $U, -9), || cross_one!($S, $U, -8), || cross_one!($S, $U, -7), || cross_one!($S, $U, -6), || cross_one!($S, $U, -5), || cross_one!($S, $U, -4), || cross_one!($S, $U, -3), || cross_one!($S, $U, -2), || cross_one!($S, $U, -1),
            || cross_one!($S, $U, 9), || cross_one!($S, $U, 8), || cross_one!($S, $U, 7), || cross_one!($S, $U, 6), || cross_one!($S, $U, 5), || cross_one!($S, $U, 4), || cross_one!($S, $U, 3), || cross_one!($S, $U, 2), || cross_one!($S, $U, 1)])
    } }
}
rad_cross!(h_radx_f32_f64 f32 => f64);
rad_cross!(h_radx_f64_f32 f64 => f32);
rad_cross!(h_radx_i32_f32 i32 => f32);
rad_cross!(h_radx_i32_f64 i32 => f64);
rad_cross!(h_radx_i64_f32 i64 => f32);
rad_cross!(h_radx_i64_f64 i64 => f64);
rad_cross!(h_radx_f32_i32 f32 => i32);
rad_cross!(h_radx_f64_i32 f64 => i32);
rad_cross!(h_radx_f32_i64 f32 => i64);
rad_cross!(h_radx_f64_i64 f64 => i64);

macro_rules! rad_one {
    ($k:ident $T:ty, $W:ty, $an:expr) => {{
        let v: $T = any("v");
        witness(v as f64 == 3.0, "three");
        match below("case", 5) {
            0 => { type F = q!($T, (), [0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, $an]); let x: $T = F::new(v).into(); same(x, v, "radians"); }
            1 => erase_same!($k $T, $W, v, [3, 0, 3, 0], 1000u64, 1u64, $an, "kiloradians"),
            2 => erase_same!($k $T, $W, v, [1, 0, 0, 1], 710u64, 113u64, $an, "turns"),
            3 => {
                type F = q!($T, (), [3, -2, 5, 1], [1, -2, 3, 4, -5, 6, 7, $an]);
                type G = q!($T, (), [3, -2, 5, 1], [1, -2, 3, 4, -5, 6, 7, 0]);
                let x: G = F::new(v).into();
                same(x.unsafe_value, v, "compound");
            }
            _ => erase_same!($k $T, $W, v, [-2, -2, -1, 1], 71u64, 4068u64, $an, "degrees"),
        }
    }};
}
macro_rules! rad_same {
    ($($f:ident $k:ident $T:ty, $W:ty;)*) => { $(pub fn $f() {
        pick(&[|| rad_one!($k $T, $W, -9), || rad_one!($k $T, $W, -8), || rad_one!($k $T, $W, -7), || rad_one!($k $T, $W, -6), || rad_one!($k $T, $W, -5), || rad_one!($k $T, $W, -4), || rad_one!($k $T, $W, -3), || rad_one!($k $T, $W, -2), || rad_one!($k $T, $W, -1),
            || rad_one!($k $T, $W, 9), || rad_one!($k $T, $W, 8), || rad_one!($k $T, $W, 7), || rad_one!($k $T, $W, 6), || rad_one!($k $T, $W, 5), || rad_one!($k $T, $W, 4), || rad_one!($k $T, $W, 3), || rad_one!($k $T, $W, 2), || rad_one!($k $T, $W, 1)])
    })* }
}
rad_same! {
    h_rad_f32 float f32, f32; h_rad_f64 float f64, f64; h_rad_i16 int i16, i128; h_rad_i32 int i32, i128;
    h_rad_i64 int i64, i128; h_rad_i128 int i128, i128; h_rad_isize int isize, i128;
}
