//! C19: what a displayed unit denotes, decoded independently of the code that wrote it.
use crate::core_::{DIMS, ORACLE, PREFIXES};
use crate::sym::*;
use whippyunits::print::prettyprint::pretty_print_quantity_type;
use whippyunits_core::dimension_exponents::DynDimensionExponents;
use whippyunits_core::scale_exponents::ScaleExponents;
use whippyunits_core::storage_unit::get_storage_unit_name;

/// Meaning of a displayed unit: exponents, power of ten, other factor (with its relative uncertainty).
#[derive(Clone, Copy, Debug)]
pub struct Den {
    pub dims: [i32; 8],
    pub p10: i32,
    pub mul: f64,
    pub unc: f64,
}
const ONE: Den = Den { dims: [0; 8], p10: 0, mul: 1.0, unc: 0.0 };

/// leading superscript integer of `s`: (value, rest); no superscript means 1
pub fn sup(s: &str) -> Option<(i32, &str)> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut neg = false;
    if b.len() >= 3 && b[0] == 0xE2 && b[1] == 0x81 && b[2] == 0xBB {
        neg = true;
        i = 3;
    }
    let mut v = 0i32;
    let mut n = 0;
    loop {
        let d = if i + 1 < b.len() && b[i] == 0xC2 && b[i + 1] == 0xB2 {
            i += 2;
            2
        } else if i + 1 < b.len() && b[i] == 0xC2 && b[i + 1] == 0xB3 {
            i += 2;
            3
        } else if i + 1 < b.len() && b[i] == 0xC2 && b[i + 1] == 0xB9 {
            i += 2;
            1
        } else if i + 2 < b.len() && b[i] == 0xE2 && b[i + 1] == 0x81 && (b[i + 2] == 0xB0 || (b[i + 2] >= 0xB4 && b[i + 2] <= 0xB9)) {
            i += 3;
            (b[i - 1] - 0xB0) as i32
        } else {
            break;
        };
        v = v * 10 + d;
        n += 1;
        if n > 6 {
            return None;
        }
    }
    if n == 0 {
        return if neg { None } else { Some((1, s)) };
    }
    Some((if neg { -v } else { v }, &s[i..]))
}
/// ten to the n, in f64
fn p10(n: i32) -> f64 {
    let mut r = 1.0;
    let mut i = 0;
    while i < n.unsigned_abs() {
        r *= 10.0;
        i += 1;
    }
    if n < 0 { 1.0 / r } else { r }
}
fn powi(b: f64, n: i32) -> f64 {
    let mut r = 1.0;
    let mut i = 0;
    while i < n.unsigned_abs() {
        r *= b;
        i += 1;
    }
    if n < 0 { 1.0 / r } else { r }
}
/// one unit word, by symbol or by name
fn word(w: &str, long: bool) -> Option<Den> {
    let mut i = 0;
    while i < ORACLE.len() {
        let u = &ORACLE[i];
        if (long && u.name == w) || (!long && u.syms.iter().any(|x| *x == w)) {
            let mut d = ONE;
            let mut k = 0;
            while k < 8 {
                d.dims[k] = u.dims[k] as i32;
                k += 1;
            }
            // keep exact powers of ten exact
            let mut e = -30;
            while e <= 30 {
                if u.pi == 0 && u.val == p10(e) {
                    d.p10 = e;
                    return Some(d);
                }
                e += 1;
            }
            d.mul = u.val * if u.pi == 1 { core::f64::consts::PI } else { 1.0 };
            d.unc = 1e-12;
            return Some(d);
        }
        i += 1;
    }
    None
}
fn prefixed(w: &str, long: bool) -> Option<Den> {
    if let Some(d) = word(w, long) {
        return Some(d);
    }
    let mut i = 0;
    while i < PREFIXES.len() {
        let p = &PREFIXES[i];
        let pre = |x: &str| if x.len() < w.len() && w.as_bytes()[..x.len()] == *x.as_bytes() { word(&w[x.len()..], long) } else { None };
        let got = if long { pre(p.name) } else { p.syms.iter().find_map(|x| pre(x)) };
        if let Some(mut d) = got {
            d.p10 += p.exp as i32;
            return Some(d);
        }
        i += 1;
    }
    None
}
fn raise(mut d: Den, e: i32) -> Den {
    let mut k = 0;
    while k < 8 {
        d.dims[k] *= e;
        k += 1;
    }
    d.p10 *= e;
    if d.mul != 1.0 {
        d.mul = powi(d.mul, e);
        d.unc *= e.unsigned_abs() as f64;
    }
    d
}
fn mulden(mut a: Den, b: Den) -> Den {
    let mut k = 0;
    while k < 8 {
        a.dims[k] += b.dims[k];
        k += 1;
    }
    a.p10 += b.p10;
    a.mul *= b.mul;
    a.unc += b.unc;
    a
}
/// product of words with superscripts, no parentheses
fn product(s: &str, long: bool) -> Option<Den> {
    let b = s.as_bytes();
    let mut r = ONE;
    let mut i = 0;
    while i < b.len() {
        let st = i;
        // a word ends at a superscript or at a dot
        while i < b.len() && !(b[i] == 0xE2 || (b[i] == 0xC2 && i + 1 < b.len() && matches!(b[i + 1], 0xB2 | 0xB3 | 0xB9 | 0xB7))) {
            i += 1;
        }
        let d = prefixed(&s[st..i], long)?;
        let (e, rest) = sup(&s[i..])?;
        r = mulden(r, raise(d, e));
        if rest.is_empty() {
            return Some(r);
        }
        let rb = rest.as_bytes();
        if !(rb.len() > 2 && rb[0] == 0xC2 && rb[1] == 0xB7) {
            return None;
        }
        i = b.len() - rest.len() + 2;
    }
    None
}
/// decimal number `s`: value and half a unit of its last place
fn number(s: &str) -> Option<(f64, f64)> {
    let b = s.as_bytes();
    let mut v = 0.0;
    let mut ulp = 1.0;
    let mut point = false;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'.' && !point {
            point = true;
        } else if b[i].is_ascii_digit() {
            v = v * 10.0 + (b[i] - b'0') as f64;
            if point {
                ulp *= 10.0;
            }
        } else {
            return None;
        }
        i += 1;
    }
    if i == 0 { None } else { Some((v / ulp, 0.5 / ulp)) }
}
/// the whole displayed unit
pub fn decode(s: &str, long: bool) -> Option<Den> {
    let b = s.as_bytes();
    let mut scale = ONE;
    let mut rest = s;
    if b.len() > 4 && b[0] == b'1' && b[1] == b'0' {
        let (e, r) = sup(&s[2..])?;
        if r.as_bytes().first() != Some(&b' ') {
            return None;
        }
        scale.p10 = e;
        rest = &r[1..];
    } else if b.len() > 2 && b[0] == b'(' && (b[1].is_ascii_digit()) {
        let c = b.iter().position(|x| *x == b')')?;
        let (v, u) = number(&s[1..c])?;
        scale.mul = v;
        scale.unc = u / v + 0.005;
        rest = &s[c + 1..];
    }
    let rb = rest.as_bytes();
    if let Some(o) = rb.iter().position(|x| *x == b'(') {
        if rb[rb.len() - 1] != b')' {
            return None;
        }
        if o > 0 {
            let pre = &rest[..o];
            let p = PREFIXES.iter().find(|p| if long { p.name == pre } else { p.syms.iter().any(|x| *x == pre) })?;
            scale.p10 += p.exp as i32;
        }
        let inner = &rest[o + 1..rest.len() - 1];
        if inner.is_empty() {
            return Some(scale);
        }
        return Some(mulden(scale, product(inner, long)?));
    }
    Some(mulden(scale, product(rest, long)?))
}
/// does `d` denote exactly these exponents
pub fn same(d: &Den, dims: &[i16; 8], p: &[i16; 4]) -> bool {
    let mut k = 0;
    while k < 8 {
        if d.dims[k] != dims[k] as i32 {
            return false;
        }
        k += 1;
    }
    let (a, b, c, e) = (p[0] as i32, p[1] as i32, p[2] as i32, p[3] as i32);
    // exact powers of ten compare as integers, whatever their size
    if d.mul == 1.0 {
        return a == c && b == 0 && e == 0 && d.p10 == a;
    }
    let f = powi(2.0, a) * powi(3.0, b) * powi(5.0, c) * powi(core::f64::consts::PI, e);
    let g = d.mul * p10(d.p10);
    (f - g).abs() <= (d.unc + 1e-9) * f
}

const BASE: [&str; 8] = ["mass", "length", "time", "current", "temperature", "amount", "luminosity", "angle"];
const PRIME: [&str; 4] = ["2", "3", "5", "\u{3c0}"];

/// `[name^e, ..]` with exactly the nonzero exponents of `e`, in order; returns what follows
fn brackets<'a>(s: &'a str, names: &[&str], e: &[i16]) -> Option<&'a str> {
    if e.iter().all(|x| *x == 0) {
        return Some(s);
    }
    let mut s = s.strip_prefix(" [")?;
    let mut first = true;
    let mut i = 0;
    while i < names.len() {
        if e[i] != 0 {
            if !first {
                s = s.strip_prefix(", ")?;
            }
            first = false;
            s = s.strip_prefix(names[i])?;
            let (v, r) = sup(s)?;
            // unity is written out here
            if v != e[i] as i32 || r.len() == s.len() {
                return None;
            }
            s = r;
        }
        i += 1;
    }
    s.strip_prefix("]")
}
/// the whole type display: unit, dimension name, exponents, storage type and brand
fn shown(s: &str, dims: &[i16; 8], p: &[i16; 4], verbose: bool, brand: &str) -> bool {
    let Some(s) = s.strip_prefix("Quantity<") else { return false };
    // the unit ends at ` (Name)`, ` [` or `, `; it contains a blank only after a power of ten
    let skip = if s.starts_with("10") { s.find(' ').map_or(0, |x| x + 1) } else { 0 };
    let b = s.as_bytes();
    let mut i = skip;
    while i < b.len() && b[i] != b' ' && b[i] != b',' {
        i += 1;
    }
    let Some(d) = decode(&s[..i], verbose) else { return false };
    if !same(&d, dims, p) {
        return false;
    }
    let mut s = &s[i..];
    if verbose {
        let name = DIMS.iter().find(|x| x.1 == *dims).map(|x| x.0);
        let base = dims.iter().filter(|x| **x != 0).count() == 1 && dims.iter().any(|x| *x == 1);
        if let Some(r) = s.strip_prefix(" (") {
            let Some(c) = r.find(')') else { return false };
            if base || name != Some(&r[..c]) {
                return false;
            }
            s = &r[c + 1..];
        }
        let Some(r) = brackets(s, &PRIME, p) else { return false };
        let Some(r) = brackets(r, &BASE, dims) else { return false };
        s = r;
    }
    let Some(s) = s.strip_prefix(", f64") else { return false };
    let s = if brand == "()" {
        s
    } else {
        let Some(s) = s.strip_prefix(", ").and_then(|s| s.strip_prefix(brand)) else { return false };
        s
    };
    s == ">"
}
fn fixed(x: i16) -> i16 {
    concretize(x as u16 as u64) as i16
}
/// Display of the unit with these exponents, short and long, alone and as a type
fn agree(dims: [i16; 8], p: [i16; 4], branded: bool) {
    let mut long = 0;
    while long < 2 {
        let l = long == 1;
        let s = get_storage_unit_name(ScaleExponents(p), DynDimensionExponents(dims), l);
        let d = decode(&s, l);
        check(d.is_some(), "displayed unit can be read");
        if let Some(d) = d {
            check(same(&d, &dims, &p), "displayed unit denotes the dimension and scale");
        }
        let brand = if branded { "Local" } else { "()" };
        let t = pretty_print_quantity_type(DynDimensionExponents(dims), ScaleExponents(p), "f64", l, true, Some(brand));
        check(shown(&t, &dims, &p, l, brand), "displayed type names the unit, exponents, storage type and brand");
        long += 1;
    }
    witness(true, "shown");
}
/// n nonzero exponents, each within m; concrete on each path
fn few(n: u64, m: i16) -> [i16; 8] {
    let mut d = [0i16; 8];
    let mut last = 0;
    let mut k = 0;
    while k < n {
        let i = concretize(below("position", 8) as u64) as usize;
        // increasing positions: each set once
        assume(k == 0 || i > last);
        last = i;
        let e = i16_in("exponent", -m, m);
        assume(e != 0);
        d[i] = fixed(e);
        k += 1;
    }
    d
}
// brand shown for some of the exponents only, to keep the number of paths down
fn branded(d: &[i16; 8]) -> bool {
    d[1] > 0
}
/// powers of ten: params n (nonzero exponents), m (their range), t (range of the power of ten)
pub fn h_ten() {
    let d = few(param(0), param(1) as i16);
    let t = param(2) as i16;
    let x = fixed(i16_in("power of ten", -t, t));
    agree(d, [x, 0, x, 0], branded(&d));
}
/// the named dimensions
pub fn h_named() {
    let i = concretize(below("dimension", DIMS.len()) as u64) as usize;
    let t = param(0) as i16;
    let x = fixed(i16_in("power of ten", -t, t));
    let (mut y, mut z) = (0, 0);
    if param(1) == 1 {
        y = fixed(i16_in("power of two", -2, 2));
        z = fixed(i16_in("power of pi", -1, 1));
    }
    agree(DIMS[i].1, [x + y, 0, x, z], false);
}
/// any scale: params n, m as above, then the ranges of the four exponents
pub fn h_scale_name() {
    let d = few(param(0), param(1) as i16);
    let mut p = [0i16; 4];
    let mut k = 0;
    while k < 4 {
        let r = param(2 + k) as i16;
        if r > 0 {
            p[k] = fixed(i16_in("scale exponent", -r, r));
        }
        k += 1;
    }
    agree(d, p, branded(&d));
}
/// scale of a unit of the table to a power, with further exponents next to it
pub fn h_unit_name() {
    let mut d = few(param(0), param(1) as i16);
    let i = concretize(below("unit", ORACLE.len()) as u64) as usize;
    let e = fixed(i16_in("power", -(param(2) as i16), param(2) as i16));
    let Some(sc) = ORACLE[i].sc else { return assume(false) };
    // its own dimension to that power, to the first, or not at all
    let own = concretize(below("own dimension", 3) as u64) as i16;
    let mut k = 0;
    while k < 8 {
        d[k] += ORACLE[i].dims[k] * [0, 1, e][own as usize];
        k += 1;
    }
    agree(d, [sc[0] * e, sc[1] * e, sc[2] * e, sc[3] * e], false);
}
/// superscript rendering, read back
pub fn h_super() {
    let m = param(0) as i16;
    let x = any::<i16>("exponent");
    assume((x >= -m) & (x <= m));
    let x = fixed(x);
    let one = flag("show unity");
    let s = whippyunits_core::to_unicode_superscript(x, one);
    let r = sup(&s);
    check(matches!(r, Some((v, "")) if v == x as i32), "superscript reads back as the exponent");
    check(!one || !s.is_empty(), "unity shown on request");
    witness(s.len() > 2, "superscript");
}
