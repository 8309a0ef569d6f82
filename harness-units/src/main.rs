#![allow(uncommon_codepoints, non_upper_case_globals, dead_code, unused_braces)]
#[path = "../../harness/src/oracle.rs"]
mod oracle;
#[path = "../../harness/src/sym.rs"]
mod sym;
mod cases;
#[path = "../../harness/src/pow_tables.rs"]
mod pow;
use oracle::ORACLE;
use pow::*;
use sym::*;
use whippyunits::default_declarators::*;
use whippyunits::quantity::*;
use whippyunits::{quantity, value};
use cases::*;

/// a quantity as run-time data: stored value, dimension and scale exponents
#[derive(Clone, Copy)]
pub struct Out {
    v: f64,
    d: [i16; 8],
    s: [i16; 4],
}
#[derive(Clone, Copy)]
pub struct OutI {
    v: i32,
    d: [i16; 8],
    s: [i16; 4],
}
pub trait Info {
    type T;
    const D: [i16; 8];
    const S: [i16; 4];
    fn raw(self) -> Self::T;
}
impl<T, B, const P2: i16, const P3: i16, const P5: i16, const PI: i16, const M: i16, const L: i16, const TT: i16, const I: i16, const TH: i16, const N: i16, const J: i16, const A: i16> Info
    for Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<L>, _T<TT>, _I<I>, _Θ<TH>, _N<N>, _J<J>, _A<A>>, T, B>
{
    type T = T;
    const D: [i16; 8] = [M, L, TT, I, TH, N, J, A];
    const S: [i16; 4] = [P2, P3, P5, PI];
    fn raw(self) -> T {
        self.unsafe_value
    }
}
fn out<Q: Info<T = f64>>(q: Q) -> Out {
    Out { v: q.raw(), d: Q::D, s: Q::S }
}
fn outi<Q: Info<T = i32>>(q: Q) -> OutI {
    OutI { v: q.raw(), d: Q::D, s: Q::S }
}
/// coherent unit of the given dimension, and the same times 1000
type Q0<const M: i16, const L: i16, const T: i16, const I: i16, const H: i16, const N: i16, const J: i16, const A: i16> = Quantity<Scale<_2<0>, _3<0>, _5<0>, _Pi<0>>, Dimension<_M<M>, _L<L>, _T<T>, _I<I>, _Θ<H>, _N<N>, _J<J>, _A<A>>, f64>;
type Q1<const M: i16, const L: i16, const T: i16, const I: i16, const H: i16, const N: i16, const J: i16, const A: i16> = Quantity<Scale<_2<3>, _3<0>, _5<3>, _Pi<0>>, Dimension<_M<M>, _L<L>, _T<T>, _I<I>, _Θ<H>, _N<N>, _J<J>, _A<A>>, f64>;

pub struct C {
    n: &'static str,
    u: usize,
    e: i16,
    f: fn(f64) -> Out,
}
pub struct R {
    n: &'static str,
    u: usize,
    e: i16,
    own: fn(f64) -> f64,
    base: fn(f64) -> f64,
    kilo: fn(f64) -> f64,
}
pub struct DI {
    n: &'static str,
    u: usize,
    f: fn(i32) -> OutI,
}
pub struct K {
    n: &'static str,
    d: [i16; 8],
    val: f64,
    pi: i16,
    stored: bool,
    aff: bool,
    f: fn(f64) -> Out,
    back: fn(f64) -> f64,
}
const BLOCK: usize = 48;
fn pick<T>(t: &'static [T]) -> &'static T {
    pick_of(t, BLOCK)
}
fn pick_of<T>(t: &'static [T], block: usize) -> &'static T {
    let lo = param(0) as usize * block;
    let n = (t.len() - lo).min(block);
    &t[lo + concretize(below("case", n) as u64) as usize]
}
fn pow(s: [i16; 4]) -> f64 {
    POW2[(s[0] + 200) as usize] * POW3[(s[1] + 200) as usize] * POW5[(s[2] + 200) as usize] * POWPI[(s[3] + 40) as usize]
}
/// size of the unit in the given scale; the library's coherent mass is the kilogram
fn size(u: usize, e: i16, s: [i16; 4]) -> f64 {
    let o = &ORACLE[u];
    o.val * POW2[(e + 200) as usize] * POW5[(e + 200) as usize] * POWPI[(o.pi + 40) as usize] / pow(s)
}
/// any number of moderate magnitude
fn number() -> f64 {
    let v: f64 = any("v");
    assume(v.abs() <= 1e100);
    v
}
const ABS: f64 = 1e-150;

fn made(n: &'static str, u: usize, e: i16, f: fn(f64) -> Out) {
    let o = &ORACLE[u];
    log(n);
    if o.stored && o.off == 0.0 {
        // natively stored: the number itself, for every bit pattern
        let v: f64 = any("v");
        let q = f(v);
        check(q.d == o.dims, "dimension");
        check((size(u, e, q.s) - 1.0).abs() <= 1e-13, "scale");
        check(q.v.to_bits() == v.to_bits() || (q.v != q.v && v != v), "native-number-untouched");
        witness(v == 2.5, "native");
    } else {
        let v = number();
        let q = f(v);
        let k = size(u, e, q.s);
        check(q.d == o.dims, "dimension");
        close(q.v, v * k + o.off * k, o.tol, 1e-9 * (o.off != 0.0) as u8 as f64 + ABS, "physical-value");
        witness(v == 2.5, "converted");
    }
}
#[unsafe(no_mangle)]
pub fn h_make() {
    let c = pick(MAKE_QUICK);
    made(c.n, c.u, c.e, c.f)
}
#[unsafe(no_mangle)]
pub fn h_decl() {
    let c = pick_of(DECL, 160);
    made(c.n, c.u, c.e, c.f)
}
/// integer storage: native units untouched, converted ones the exact value truncated (within one unit in the last place of the factor)
#[unsafe(no_mangle)]
pub fn h_decl_int() {
    let c = pick(DECLI);
    let o = &ORACLE[c.u];
    log(c.n);
    let v: i32 = any("v");
    let one = (c.f)(1);
    check(one.d == o.dims, "dimension");
    let k = size(c.u, 0, one.s);
    if o.stored {
        let q = (c.f)(v);
        check(q.v == v, "native-number-untouched");
        check((k - 1.0).abs() <= 1e-13, "scale");
        witness(v == 3, "native");
    } else {
        // below the point where the result could saturate
        let mut lim = 1i32 << 30;
        while lim as f64 * k > 1e9 {
            lim >>= 1;
        }
        assume(v.abs_diff(0) <= lim as u32);
        let q = (c.f)(v);
        // the truncated exact value
        close(q.v as f64, v as f64 * k, 1e-9, 1.02, "truncated-value");
        witness(v == 7, "converted");
    }
}
fn read(c: &'static R) {
    let o = &ORACLE[c.u];
    log(c.n);
    let z = [0i16; 4];
    let k = size(c.u, c.e, z);
    match param(1) {
        0 => {
            let v = number();
            close((c.own)(v), v, 1e-12, 1e-9 * (o.off != 0.0) as u8 as f64 + ABS, "reads-back");
            witness(v == 2.5, "own");
        }
        1 => {
            let v = number();
            close((c.base)(v), v / k - o.off, o.tol, 1e-9 * (o.off != 0.0) as u8 as f64 + ABS, "read-from-coherent");
            witness(v == 2.5, "base");
        }
        _ => {
            let v = number();
            close((c.kilo)(v), v * (1000.0 / k) - o.off, o.tol, 1e-9 * (o.off != 0.0) as u8 as f64 + ABS, "read-from-kilo");
            witness(v == 2.5, "kilo");
        }
    }
}
#[unsafe(no_mangle)]
pub fn h_read() {
    read(pick(READ_QUICK))
}
#[cfg(feature = "rest")]
#[unsafe(no_mangle)]
pub fn h_make_rest() {
    let c = pick(MAKE_REST);
    made(c.n, c.u, c.e, c.f)
}
#[cfg(feature = "rest")]
#[unsafe(no_mangle)]
pub fn h_read_rest() {
    read(pick(READ_REST))
}
#[unsafe(no_mangle)]
pub fn h_compound() {
    let c = pick(COMP);
    log(c.n);
    let v = number();
    let q = (c.f)(v);
    check(q.d == c.d, "dimension");
    let k = c.val * POWPI[(c.pi + 40) as usize] / pow(q.s);
    if c.stored {
        check((k - 1.0).abs() <= 1e-12, "scale");
        check(q.v.to_bits() == v.to_bits(), "native-number-untouched");
    } else if !c.aff {
        close(q.v, v * k, 1e-12, ABS, "physical-value");
    }
    close((c.back)(v), v, 1e-12, 1e-9 * c.aff as u8 as f64 + ABS, "reads-back");
    witness(v == 2.5, "compound");
}
// explicit storage type and brand
#[derive(Clone, Copy)]
pub struct Br([u8; 3]);
#[derive(Clone, Copy)]
pub struct In {
    f: f64,
    i: i16,
}
pub struct OutT {
    v: f64,
    ty: u8,
    brand: usize,
    d: [i16; 8],
    s: [i16; 4],
}
pub trait Num: Copy {
    const K: u8;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
}
macro_rules! num { ($($t:ident $k:expr),*) => { $(impl Num for $t {
    const K: u8 = $k;
    fn f(self) -> f64 { self as f64 }
    fn of(x: f64) -> Self { x as $t }
})* } }
num!(f64 0, f32 1, i32 2, i64 3, u16 4, i8 5, u8 6, i16 7, u32 8, u64 9, isize 10, usize 11, i128 12, u128 13);
pub trait Branded {
    const B: usize;
    type With<T>;
    fn with<T>(t: T) -> Self::With<T>;
}
impl<T, B, const P2: i16, const P3: i16, const P5: i16, const PI: i16, const M: i16, const L: i16, const TT: i16, const I: i16, const TH: i16, const N: i16, const J: i16, const A: i16> Branded for Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<L>, _T<TT>, _I<I>, _Θ<TH>, _N<N>, _J<J>, _A<A>>, T, B> {
    const B: usize = size_of::<B>();
    type With<U> = Quantity<Scale<_2<P2>, _3<P3>, _5<P5>, _Pi<PI>>, Dimension<_M<M>, _L<L>, _T<TT>, _I<I>, _Θ<TH>, _N<N>, _J<J>, _A<A>>, U, Br>;
    fn with<U>(t: U) -> Self::With<U> {
        Quantity::new(t)
    }
}
pub fn typed<Q: Info + Branded>(q: Q) -> OutT
where
    Q::T: Num,
{
    OutT { v: q.raw().f(), ty: Q::T::K, brand: Q::B, d: Q::D, s: Q::S }
}
/// the same quantity in storage type `T` and brand `Br` (the identity unless the library got one of them wrong)
pub fn rebrand<T: Num, Q: Info + Branded>(q: Q) -> Q::With<T>
where
    Q::T: Num,
{
    let r = q.raw();
    Q::with::<T>(if T::K == Q::T::K { unsafe { core::mem::transmute_copy(&r) } } else { T::of(r.f()) })
}
pub struct Y {
    n: &'static str,
    d: [i16; 8],
    val: f64,
    off: f64,
    pi: i16,
    stored: bool,
    k: u8,
    f: fn(In) -> OutT,
    back: fn(In) -> f64,
}
#[unsafe(no_mangle)]
pub fn h_typed() {
    let c = pick(TYPED);
    log(c.n);
    let int = c.k >= 2;
    let x = if int {
        let i: i16 = any("i");
        assume(c.k != 4 || i >= 0);
        In { f: 0.0, i }
    } else {
        let f: f64 = any("v");
        assume(f.abs() <= 1e15);
        In { f, i: 0 }
    };
    let v = if int { x.i as f64 } else { x.f };
    let q = (c.f)(x);
    check(q.ty == c.k, "storage-type-kept");
    check(q.brand == 3, "brand-kept");
    check(q.d == c.d, "dimension");
    let k = c.val * POWPI[(c.pi + 40) as usize] / pow(q.s);
    let a = 1e-9 * (c.off != 0.0) as u8 as f64 + ABS;
    // below the point where the smallest storage type saturates
    if int && c.k == 4 {
        let mut lim = 1i16 << 14;
        while (lim as f64 + c.off) * k > 6e4 {
            lim >>= 1;
        }
        assume(x.i <= lim);
    }
    match (int, c.k) {
        (false, 0) => close(q.v, v * k + c.off * k, 1e-12, a, "physical-value"),
        (false, _) => close(q.v, v * k + c.off * k, 1e-6, 1e-3 * (c.off != 0.0) as u8 as f64 + 1e-30, "physical-value"),
        _ => close(q.v, v * k + c.off * k, 1e-12, 1.02, "physical-value"),
    }
    let b = (c.back)(x);
    match (int, c.k) {
        (false, 0) => close(b, v, 1e-12, a, "reads-back"),
        (false, _) => close(b, v, 1e-5, 1e-2 * (c.off != 0.0) as u8 as f64 + 1e-30, "reads-back"),
        // two truncations
        _ => close(b, v, 1e-12, 1.02 + 1.02 / k, "reads-back"),
    }
    witness(if int { x.i == 5 } else { x.f == 2.5 }, "typed");
}
/// literal suffixes expand to the same quantity
#[unsafe(no_mangle)]
pub fn h_literals() {
    let mut n = 0;
    literals(&mut |l, q, name| {
        n += 1;
        if l.v.to_bits() != q.v.to_bits() || l.d != q.d || l.s != q.s {
            log(name);
            check(false, "literal-agrees");
        }
    });
    check(n > 150, "literals-reached");
    let mut n = 0;
    literals_typed(&mut |l, q, name| {
        n += 1;
        if l.v.to_bits() != q.v.to_bits() || l.d != q.d || l.s != q.s || l.ty != q.ty || l.brand != 0 {
            log(name);
            check(false, "literal-agrees");
        }
    });
    check(n > 100, "typed-literals-reached");
    witness(flag("x"), "literals");
}
macro_rules! table { ($($f:ident),* $(,)?) => { [$((stringify!($f), $f as fn())),*] } }
pub fn main() {
    #[cfg(not(feature = "rest"))]
    run(&table![h_make, h_decl, h_decl_int, h_read, h_compound, h_literals, h_typed]);
    #[cfg(feature = "rest")]
    run(&table![h_make_rest, h_read_rest]);
}
