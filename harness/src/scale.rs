//! Scale-factor kernels (C07, C08).
use crate::sym::*;
use whippyunits::api::{aggregate_scale_factor, aggregate_scale_factor_float};

fn conc(d: i16) -> i16 {
    concretize(d as u16 as u64) as u16 as i16
}

/// Symbolic (from, to) exponent pair whose difference lies in [lo, hi].
/// `from` and `to` themselves range over +-`wide`.
fn pair(name_f: &'static str, name_t: &'static str, lo: i16, hi: i16, wide: i16) -> (i16, i16) {
    // param 8: one side fixed at zero
    let f = if param(8) == 2 { 0 } else { i16_in(name_f, -wide, wide) };
    let t = if param(8) == 1 { 0 } else { i16_in(name_t, -wide, wide) };
    let d = f as i32 - t as i32;
    assume((d >= lo as i32) & (d <= hi as i32));
    match param(8) {
        1 => (conc(f), t),
        2 => (f, conc(t)),
        _ => (f, t),
    }
}

/// Exponent ranges: params 0..8 = (|lo|, hi) for 2, 3, 5, pi.
fn exps() -> [(i16, i16); 4] {
    let r = |i: usize| (-(param(2 * i) as i16), param(2 * i + 1) as i16);
    let (l, h) = r(0);
    let a = pair("f2", "t2", l, h, 200);
    let (l, h) = r(1);
    let b = pair("f3", "t3", l, h, 200);
    let (l, h) = r(2);
    let c = pair("f5", "t5", l, h, 200);
    let (l, h) = r(3);
    let d = pair("fp", "tp", l, h, 200);
    [a, b, c, d]
}

fn mul_pow(acc: &mut Option<u128>, base: u128, n: u32) {
    let mut i = 0;
    while i < n {
        *acc = match *acc {
            Some(x) => x.checked_mul(base),
            None => None,
        };
        i += 1;
    }
}
fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

/// For every exponent pair in range whose exact ratio fits: the returned pair is
/// the exact ratio (pi as 355/113), in lowest terms, with positive terms.
pub fn h_scale_rational() {
    let e = exps();
    let d: [i16; 4] = [conc(e[0].0 - e[0].1), conc(e[1].0 - e[1].1), conc(e[2].0 - e[2].1), conc(e[3].0 - e[3].1)];
    // independent exact value
    let (mut n, mut m) = (Some(1u128), Some(1u128));
    for (k, b) in [2u128, 3, 5].into_iter().enumerate() {
        if d[k] >= 0 {
            mul_pow(&mut n, b, d[k] as u32)
        } else {
            mul_pow(&mut m, b, -(d[k] as i32) as u32)
        }
    }
    if d[3] >= 0 {
        mul_pow(&mut n, 355, d[3] as u32);
        mul_pow(&mut m, 113, d[3] as u32);
    } else {
        mul_pow(&mut n, 113, -(d[3] as i32) as u32);
        mul_pow(&mut m, 355, -(d[3] as i32) as u32);
    }
    let fits = |x: Option<u128>| matches!(x, Some(v) if v <= i128::MAX as u128);
    assume(fits(n) && fits(m));
    let (n, m) = (n.unwrap_or(1), m.unwrap_or(1));
    let g = gcd(n, m);
    let (rn, rd) = aggregate_scale_factor(e[0].0, e[1].0, e[2].0, e[3].0, e[0].1, e[1].1, e[2].1, e[3].1);
    check(rn > 0 && rd > 0, "positive");
    check(rn as u128 == n / g, "numerator");
    check(rd as u128 == m / g, "denominator");
    witness(rn > 1 && rd > 1, "proper-fraction");
}

include!("pow_tables.rs");

/// Float factor within 1e-13 relative of the exact product of prime powers.
pub fn h_scale_float() {
    let e = exps();
    let d: [i16; 4] = [conc(e[0].0 - e[0].1), conc(e[1].0 - e[1].1), conc(e[2].0 - e[2].1), conc(e[3].0 - e[3].1)];
    let r = aggregate_scale_factor_float(e[0].0, e[1].0, e[2].0, e[3].0, e[0].1, e[1].1, e[2].1, e[3].1);
    let x = POW2[(d[0] + 200) as usize] * POW3[(d[1] + 200) as usize] * POW5[(d[2] + 200) as usize] * POWPI[(d[3] + 40) as usize];
    check((r - x).abs() <= 1e-13 * x, "float-factor");
    witness(x < 1.0 && d[1] != 0, "fraction");
}

/// `reduce_rational` on symbolic operands: same ratio, lowest terms, sign kept.
pub fn h_reduce() {
    let bits = param(0) as u32;
    let n = any::<i16>("num") as i128;
    let d = any::<i16>("den") as i128;
    let lim = 1i128 << bits;
    assume((n > -lim) & (n < lim) & (d > -lim) & (d < lim));
    assume(d != 0);
    let n = conc(n as i16) as i128;
    let d = conc(d as i16) as i128;
    let (a, b) = whippyunits::scale_conversion::reduce_rational(n, d);
    check(b != 0, "nonzero-denominator");
    check(a * d == b * n, "same-ratio");
    if n != 0 {
        // lowest terms: no prime below the bound divides both
        let mut p = 2i128;
        while p < lim {
            check(!((a % p == 0) & (b % p == 0)), "lowest-terms");
            p += 1;
        }
    }
    witness((n == 12) & (d == 8), "w");
}
