//! Local unit systems (C16): quantities written inside scopes that declare their own base units.
#![allow(uncommon_codepoints, non_upper_case_globals, dead_code, unused_braces, unused_imports, unused_macros)]
#[path = "../../harness/src/oracle.rs"]
mod oracle;
#[path = "../../harness/src/sym.rs"]
mod sym;
mod cases;
#[path = "../../harness/src/pow_tables.rs"]
mod pow;
use pow::*;
use sym::*;
use whippyunits::quantity::*;
use whippyunits::value;
use cases::*;

/// a quantity as run-time data: stored value, size of the brand, storage type, dimension and scale exponents
#[derive(Clone, Copy)]
pub struct Out {
    v: f64,
    d: [i16; 8],
    s: [i16; 4],
}
#[derive(Clone, Copy)]
pub struct OutI {
    v: i64,
    ty: u8,
    brand: &'static str,
    d: [i16; 8],
    s: [i16; 4],
}
#[derive(Clone, Copy)]
pub struct OutT {
    v: f64,
    ty: u8,
    brand: &'static str,
    d: [i16; 8],
    s: [i16; 4],
}
pub trait Num: Copy {
    const K: u8;
    fn f(self) -> f64;
    fn i(self) -> i64;
}
macro_rules! num { ($($t:ident $k:expr),*) => { $(impl Num for $t {
    const K: u8 = $k;
    fn f(self) -> f64 { self as f64 }
    fn i(self) -> i64 { self as i64 }
})* } }
num!(f64 0, f32 1, i32 2, i64 3);
pub trait Info {
    type T: Num;
    type B;
    const D: [i16; 8];
    const S: [i16; 4];
    fn raw(self) -> Self::T;
}
impl<T: Num, B, const P2: i16, const P3: i16, const P5: i16, const PI: i16, const M: i16, const LL: i16, const TT: i16, const I: i16, const TH: i16, const N: i16, const J: i16, const A: i16> Info
    for Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<LL>, _T<TT>, _I<I>, _Θ<TH>, _N<N>, _J<J>, _A<A>>, T, B>
{
    type T = T;
    type B = B;
    const D: [i16; 8] = [M, LL, TT, I, TH, N, J, A];
    const S: [i16; 4] = [P2, P3, P5, PI];
    fn raw(self) -> T {
        self.unsafe_value
    }
}
fn out<Q: Info<T = f64>>(q: Q) -> Out {
    Out { v: q.raw(), d: Q::D, s: Q::S }
}
fn outi<Q: Info>(q: Q) -> OutI {
    OutI { v: q.raw().i(), ty: Q::T::K, brand: std::any::type_name::<Q::B>(), d: Q::D, s: Q::S }
}
fn typed<Q: Info>(q: Q) -> OutT {
    OutT { v: q.raw().f(), ty: Q::T::K, brand: std::any::type_name::<Q::B>(), d: Q::D, s: Q::S }
}
pub struct L {
    n: &'static str,
    d: [i16; 8],
    /// exponents of the unit built from the declared base units
    s: [i16; 4],
    /// the written unit in coherent units, its power of pi and its offset
    val: f64,
    pi: i16,
    off: f64,
    tol: f64,
    f: fn(f64) -> Out,
    back: fn(f64) -> f64,
}
pub struct LI {
    n: &'static str,
    d: [i16; 8],
    s: [i16; 4],
    num: i64,
    den: i64,
    ty: u8,
    brand: fn() -> &'static str,
    f: fn(i64) -> OutI,
}
const ABS: f64 = 1e-150;
fn pow(s: [i16; 4]) -> f64 {
    POW2[(s[0] + 200) as usize] * POW3[(s[1] + 200) as usize] * POW5[(s[2] + 200) as usize] * POWPI[(s[3] + 40) as usize]
}
fn block<T>(t: &'static [T]) -> &'static [T] {
    let (b, of) = (param(1) as usize, param(2) as usize);
    &t[b * t.len() / of..(b + 1) * t.len() / of]
}
fn all(t: &'static [L]) {
    let v: f64 = any("v");
    assume(v.abs() <= 1e100);
    for c in block(t) {
        let q = (c.f)(v);
        if q.d != c.d || q.s != c.s {
            log(c.n);
        }
        check(q.d == c.d, "dimension");
        check(q.s == c.s, "scale-of-the-base-units");
        let k = c.val * POWPI[(c.pi + 40) as usize] / pow(c.s);
        let a = 1e-9 * (c.off != 0.0) as u8 as f64 * (1.0 + k) + ABS;
        close(q.v, v * k + c.off * k, c.tol, a, c.n);
        close((c.back)(v), v, c.tol, 1e-9 * (c.off != 0.0) as u8 as f64 * (1.0 + 1.0 / k) + ABS, c.n);
    }
    witness(v == 2.5, "local");
}
/// params system, block, of
#[unsafe(no_mangle)]
pub fn h_unit() {
    all([UNIT_SA, UNIT_SB, UNIT_SC, UNIT_SD][param(0) as usize])
}
#[unsafe(no_mangle)]
pub fn h_compound() {
    all([COMP_SA, COMP_SB, COMP_SC, COMP_SD][param(0) as usize])
}
#[unsafe(no_mangle)]
pub fn h_method() {
    all([m_sa::METHOD, m_sb::METHOD, m_sc::METHOD, m_sd::METHOD, m_sx::METHOD][param(0) as usize])
}
#[unsafe(no_mangle)]
pub fn h_branded() {
    all(BRAND)
}
/// whole numbers: a whole ratio multiplies exactly, its inverse divides and truncates
#[unsafe(no_mangle)]
pub fn h_int() {
    let v: i64 = any("v");
    assume(v >= -1_000_000_000_000);
    assume(v <= 1_000_000_000_000);
    let w: i64 = any("w");
    assume(w >= -2000);
    assume(w <= 2000);
    let u: i64 = any("u");
    for c in block([m_sa::INT, m_sb::INT, m_sc::INT, m_sd::INT, m_sx::INT][param(0) as usize]) {
        let v = if c.ty == 2 { w } else if c.num == 1 { u } else { v };
        let q = (c.f)(v);
        if q.d != c.d || q.s != c.s || q.ty != c.ty || q.brand != (c.brand)() {
            log(c.n);
        }
        check(q.d == c.d, "dimension");
        check(q.s == c.s, "scale-of-the-base-units");
        check(q.ty == c.ty, "storage-type-kept");
        check(q.brand == (c.brand)(), "brand-kept");
        check(q.v == v * c.num / c.den, c.n);
    }
    witness(v == 7, "whole");
}
/// literals expand to the same quantity
#[unsafe(no_mangle)]
pub fn h_literals() {
    let mut n = 0;
    let f = &mut |l: OutT, q: OutT, name: &'static str| {
        n += 1;
        if l.v.to_bits() != q.v.to_bits() || l.d != q.d || l.s != q.s || l.ty != q.ty || l.brand != q.brand {
            log(name);
            check(false, "literal-agrees");
        }
    };
    match param(0) {
        0 => lits_sa(f),
        1 => lits_sb(f),
        2 => lits_sc(f),
        _ => lits_sd(f),
    }
    check(n > 150, "literals-reached");
    witness(flag("x"), "literals");
}
macro_rules! table { ($($f:ident),* $(,)?) => { [$((stringify!($f), $f as fn())),*] } }
pub fn main() {
    run(&table![h_unit, h_compound, h_method, h_branded, h_int, h_literals]);
}
