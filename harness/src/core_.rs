//! Exponent algebra (C21), unit lookup (C12), unit expressions (C13).
use crate::scale::{POW2, POW3, POW5};
use crate::sym::*;
use proc_macro2::{Ident, Span};
use whippyunits_core::dimension_exponents::*;
use whippyunits_core::scale_exponents::ScaleExponents;
use whippyunits_core::*;

include!("oracle.rs");

fn dims(n: &'static str) -> [i16; 8] {
    let _ = n;
    [any("d0"), any("d1"), any("d2"), any("d3"), any("d4"), any("d5"), any("d6"), any("d7")]
}
fn scales() -> [i16; 4] {
    [any("s0"), any("s1"), any("s2"), any("s3")]
}
fn fits(x: i32) -> bool {
    (x >= i16::MIN as i32) & (x <= i16::MAX as i32)
}

// ---------------------------------------------------------------- C21
/// powers once more with the power concrete (-16..16): linear queries the
/// solver always decides, where the general product may exhaust its budget
pub fn h_powers() {
    let k = concretize(below("k", 33) as u64) as i16 - 16;
    let a = dims("a");
    let s = scales();
    for i in 0..8 {
        assume(fits(a[i] as i32 * k as i32));
    }
    for i in 0..4 {
        assume(fits(s[i] as i32 * k as i32));
    }
    let r = DynDimensionExponents(a) * k;
    for i in 0..8 {
        check(r.0[i] as i32 == a[i] as i32 * k as i32, "dim-pow");
    }
    let r = ScaleExponents(s).scalar_exp(k);
    for i in 0..4 {
        check(r.0[i] as i32 == s[i] as i32 * k as i32, "scale-pow");
    }
    witness(k == -7 && s[0] == 3, "powers");
}
pub fn h_exps() {
    match below("op", 12) {
        0 => {
            let (a, b) = (dims("a"), dims("b"));
            for i in 0..8 {
                assume(fits(a[i] as i32 + b[i] as i32));
            }
            let r = DynDimensionExponents(a) + DynDimensionExponents(b);
            for i in 0..8 {
                check(r.0[i] as i32 == a[i] as i32 + b[i] as i32, "dim-add");
            }
            witness(r.0[7] == 3, "added");
        }
        1 => {
            let a = dims("a");
            let k: i16 = any("k");
            for i in 0..8 {
                assume(fits(a[i] as i32 * k as i32));
            }
            let r = DynDimensionExponents(a) * k;
            for i in 0..8 {
                check(r.0[i] as i32 == a[i] as i32 * k as i32, "dim-pow");
            }
        }
        2 => {
            let a = dims("a");
            for i in 0..8 {
                assume(a[i] != i16::MIN);
            }
            let r = -DynDimensionExponents(a);
            for i in 0..8 {
                check(r.0[i] == -a[i], "dim-neg");
            }
            let z = r + DynDimensionExponents(a);
            check(z == DynDimensionExponents::ZERO, "dim-inverse");
            check(z.is_zero(), "is-zero");
        }
        3 => {
            let (a, b) = (dims("a"), dims("b"));
            let mut same = true;
            for i in 0..8 {
                same &= a[i] == b[i];
            }
            check((DynDimensionExponents(a) == DynDimensionExponents(b)) == same, "dim-eq");
            check(DynDimensionExponents(a).is_zero() == (a[0] | a[1] | a[2] | a[3] | a[4] | a[5] | a[6] | a[7] == 0), "dim-is-zero");
        }
        4 => {
            let (a, b) = (scales(), scales());
            for i in 0..4 {
                assume(fits(a[i] as i32 + b[i] as i32));
            }
            let r = ScaleExponents(a).mul(ScaleExponents(b));
            for i in 0..4 {
                check(r.0[i] as i32 == a[i] as i32 + b[i] as i32, "scale-mul");
            }
        }
        5 => {
            let a = scales();
            let k: i16 = any("k");
            for i in 0..4 {
                assume(fits(a[i] as i32 * k as i32));
            }
            let r = ScaleExponents(a).scalar_exp(k);
            for i in 0..4 {
                check(r.0[i] as i32 == a[i] as i32 * k as i32, "scale-pow");
            }
        }
        6 => {
            let a = scales();
            for i in 0..4 {
                assume(a[i] != i16::MIN);
            }
            let r = ScaleExponents(a).neg();
            for i in 0..4 {
                check(r.0[i] == -a[i], "scale-neg");
            }
            check(r.mul(ScaleExponents(a)) == ScaleExponents::IDENTITY, "scale-inverse");
        }
        7 => {
            let a = scales();
            let want = if (a[1] == 0) & (a[3] == 0) & (a[0] == a[2]) { Some(a[0]) } else { None };
            check(ScaleExponents(a).log10() == want, "log10");
            witness(want == Some(5), "is-power-of-ten");
        }
        8 => {
            let k: i16 = any("k");
            check(ScaleExponents::_2(k).0 == [k, 0, 0, 0], "pow-2");
            check(ScaleExponents::_3(k).0 == [0, k, 0, 0], "pow-3");
            check(ScaleExponents::_5(k).0 == [0, 0, k, 0], "pow-5");
            check(ScaleExponents::_Pi(k).0 == [0, 0, 0, k], "pow-pi");
            check(ScaleExponents::_6(k).0 == [k, k, 0, 0], "pow-6");
            check(ScaleExponents::_10(k).0 == [k, 0, k, 0], "pow-10");
        }
        9 => {
            let i = concretize(below("basis", 8) as u64) as usize;
            let mut e = [0i16; 8];
            e[i] = 1;
            check(DimensionBasis::ALL[i].exponents() == DynDimensionExponents(e), "basis-exponents");
            check(DynDimensionExponents(e).as_basis() == Some(DimensionBasis::ALL[i]), "as-basis");
        }
        10 => {
            // type-level values
            check(DynDimensionExponents::MASS.0 == [1, 0, 0, 0, 0, 0, 0, 0], "mass");
            check(DynDimensionExponents::LENGTH.0 == [0, 1, 0, 0, 0, 0, 0, 0], "length");
            check(DynDimensionExponents::TIME.0 == [0, 0, 1, 0, 0, 0, 0, 0], "time");
            check(DynDimensionExponents::CURRENT.0 == [0, 0, 0, 1, 0, 0, 0, 0], "current");
            check(DynDimensionExponents::TEMPERATURE.0 == [0, 0, 0, 0, 1, 0, 0, 0], "temperature");
            check(DynDimensionExponents::AMOUNT.0 == [0, 0, 0, 0, 0, 1, 0, 0], "amount");
            check(DynDimensionExponents::LUMINOSITY.0 == [0, 0, 0, 0, 0, 0, 1, 0], "luminosity");
            check(DynDimensionExponents::ANGLE.0 == [0, 0, 0, 0, 0, 0, 0, 1], "angle");
        }
        _ => {
            // lookup of a dimension by symbolic exponents
            let a = dims("a");
            let got = Dimension::find_dimension_by_exponents(DynDimensionExponents(a));
            let mut want = None;
            let mut k = 0;
            while k < DIMS.len() {
                let e = DIMS[k].1;
                let mut same = true;
                for i in 0..8 {
                    same &= e[i] == a[i];
                }
                if same {
                    want = Some(DIMS[k].0);
                    break;
                }
                k += 1;
            }
            let zero = (a[0] | a[1] | a[2] | a[3] | a[4] | a[5] | a[6] | a[7]) == 0;
            match (got, want) {
                (Some(d), Some(n)) => check(d.name == n, "dimension-name"),
                (None, None) => check(true, "unknown-dimension"),
                (Some(_), None) => check(zero, "dimension-by-exponents-unknown"),
                (None, Some(_)) => check(false, "dimension-by-exponents-missing"),
            }
            witness(want == Some("Energy"), "energy");
        }
    }
}

// ---------------------------------------------------------------- C12
/// A symbolic identifier: `n` characters of [A-Za-z_], optionally led by the
/// micro sign (mode 1) or ended by the ohm sign (mode 2).
pub fn ident(buf: &mut [u8; 32], n: usize, mode: u64) -> &str {
    let mut k = 0;
    if mode == 1 {
        buf[0] = 0xc2;
        buf[1] = 0xb5;
        k = 2;
    }
    for _ in 0..n {
        let b: u8 = any("c");
        assume(((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | (b == b'_'));
        buf[k] = b;
        k += 1;
    }
    if mode == 2 {
        buf[k] = 0xce;
        buf[k + 1] = 0xa9;
        k += 2;
    }
    // SAFETY: ASCII and complete two-byte sequences only
    unsafe { core::str::from_utf8_unchecked(&buf[..k]) }
}
fn has(l: &[&str], s: &str) -> bool {
    let mut i = 0;
    while i < l.len() {
        if l[i] == s {
            return true;
        }
        i += 1;
    }
    false
}
pub fn by_sym(s: &str, need_prefix: bool) -> Option<&'static Or> {
    let mut i = 0;
    while i < ORACLE.len() {
        if (!need_prefix || ORACLE[i].prefix) && has(ORACLE[i].syms, s) {
            return Some(&ORACLE[i]);
        }
        i += 1;
    }
    None
}
pub fn by_name(s: &str, need_prefix: bool) -> Option<&'static Or> {
    let mut i = 0;
    while i < ORACLE.len() {
        if (!need_prefix || ORACLE[i].prefix) && ORACLE[i].name == s {
            return Some(&ORACLE[i]);
        }
        i += 1;
    }
    None
}
/// `s` without the prefix name (first letter of either case)
fn strip_name<'a>(p: &Pre, s: &'a str) -> Option<&'a str> {
    let (a, b) = (p.name.as_bytes(), s.as_bytes());
    if b.len() < a.len() || (b[0] != a[0] && b[0] != a[0] - 32) || a[1..] != b[1..a.len()] {
        return None;
    }
    Some(unsafe { core::str::from_utf8_unchecked(&b[a.len()..]) })
}
/// What the identifier denotes under the SI rules: unit and power of ten of its prefix.
pub fn denotes(s: &str) -> Option<(&'static Or, i16)> {
    if let Some(o) = by_sym(s, false) {
        return Some((o, 0));
    }
    if let Some(o) = by_name(s, false) {
        return Some((o, 0));
    }
    let b = s.as_bytes();
    let mut i = 0;
    while i < PREFIXES.len() {
        let p = &PREFIXES[i];
        let mut j = 0;
        while j < p.syms.len() {
            let y = p.syms[j].as_bytes();
            if b.len() > y.len() && &b[..y.len()] == y {
                if let Some(o) = by_sym(unsafe { core::str::from_utf8_unchecked(&b[y.len()..]) }, true) {
                    return Some((o, p.exp));
                }
            }
            j += 1;
        }
        if let Some(base) = strip_name(p, s) {
            if let Some(o) = by_name(base, true) {
                return Some((o, p.exp));
            }
        }
        i += 1;
    }
    None
}
/// scale factor without its power of pi
fn val(s: &ScaleExponents) -> f64 {
    POW2[(s.0[0] + 200) as usize] * POW3[(s.0[1] + 200) as usize] * POW5[(s.0[2] + 200) as usize]
}
fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * b.abs()
}

/// identifier -> unit, prefix, scale, factor, offset
pub fn h_lookup() {
    let mut buf = [0u8; 32];
    let s = ident(&mut buf, param(0) as usize, param(1));
    assume(s != "_" && s != "dimensionless" && s != "power_of_10");
    let want = denotes(s);
    let got = get_unit_info(s);
    check(got.is_some() == want.is_some(), if want.is_some() { "recognised" } else { "not-a-unit" });
    let e = UnitExpr::Unit(UnitExprUnit { name: Ident::new(s, Span::call_site()), exponent: 1 });
    let r = e.evaluate_with_mode(EvaluationMode::Tolerant);
    let (cf, af) = calculate_unit_conversion_factors(&e);
    if let (Some(u), Some((o, p))) = (got, want) {
        check(u.name == o.name, "unit");
        check(u.exponents.0 == o.dims, "unit-dimension");
        check(r.dimension_exponents.0 == o.dims, "dimension");
        check(r.scale_exponents.0[3] == o.pi, "pi-power");
        let si = o.val * POW2[(p + 200) as usize] * POW5[(p + 200) as usize];
        check(close(val(&r.scale_exponents) * cf, si, o.tol), "si-value");
        check(close(af, o.off, 1e-15), "offset");
        check((cf == 1.0) == o.stored, "natively-stored");
        // strict mode: natively stored units evaluate alike, others are refused
        let st = e.evaluate_with_mode(EvaluationMode::Strict);
        if o.stored {
            check(st.dimension_exponents == r.dimension_exponents && st.scale_exponents == r.scale_exponents, "strict-same");
            check(e.validate_strict().is_none(), "strict-accepts");
        } else {
            check(e.validate_strict().is_some(), "strict-refuses");
        }
        witness(p != 0, "prefixed");
        witness(p == 0, "plain");
    } else {
        check(r.dimension_exponents.0 == [0; 8] && r.scale_exponents.0 == [0; 4] && cf == 1.0 && af == 0.0, "unknown-is-neutral");
    }
    witness(got.is_none(), "unknown");
}

/// the table searches by symbol, by name, and the prefix searches
pub fn h_find() {
    let mut buf = [0u8; 32];
    let s = ident(&mut buf, param(0) as usize, param(1));
    assume(s != "dimensionless");
    match below("which", 4) {
        0 => {
            let g = Dimension::find_unit_by_symbol(s);
            let w = by_sym(s, false);
            check(g.is_some() == w.is_some(), "by-symbol");
            if let (Some((u, d)), Some(o)) = (g, w) {
                check(u.name == o.name && d.exponents.0 == o.dims, "by-symbol-unit");
            }
        }
        1 => {
            let g = Dimension::find_unit_by_name(s);
            let w = by_name(s, false);
            check(g.is_some() == w.is_some(), "by-name");
            if let (Some((u, d)), Some(o)) = (g, w) {
                check(u.name == o.name && d.exponents.0 == o.dims, "by-name-unit");
            }
        }
        2 => {
            let g = SiPrefix::from_symbol(s);
            let mut w = None;
            let mut i = 0;
            while i < PREFIXES.len() {
                if has(PREFIXES[i].syms, s) {
                    w = Some(&PREFIXES[i]);
                    break;
                }
                i += 1;
            }
            check(g.is_some() == w.is_some(), "prefix-by-symbol");
            if let (Some(g), Some(w)) = (g, w) {
                check(g.name() == w.name && g.factor_log10() == w.exp && g.symbol() == w.syms[0], "prefix-by-symbol-value");
            }
        }
        _ => {
            let g = SiPrefix::strip_any_prefix_name(s);
            let mut w = None;
            let mut i = 0;
            while i < PREFIXES.len() {
                if let Some(r) = strip_name(&PREFIXES[i], s) {
                    w = Some((PREFIXES[i].exp, r));
                    break;
                }
                i += 1;
            }
            check(g.is_some() == w.is_some(), "strip-name");
            if let (Some((p, r)), Some((e, r2))) = (g, w) {
                check(p.factor_log10() == e && r == r2, "strip-name-value");
            }
        }
    }
    witness(true, "reached");
}

// ---------------------------------------------------------------- C13
struct Ref {
    d: [i32; 8],
    s: [i32; 4],
    cf: f64,
}
const LEAVES: &[(&str, [i16; 8], [i16; 4], f64)] = &[
    ("ms", [0, 0, 1, 0, 0, 0, 0, 0], [-3, 0, -3, 0], 1.0),
    ("ft", [0, 1, 0, 0, 0, 0, 0, 0], [-1, 0, -1, 0], 3.048),
    ("deg", [0, 0, 0, 0, 0, 0, 0, 1], [-2, -2, -1, 1], 1.0),
    ("V", [1, 2, -3, -1, 0, 0, 0, 0], [0, 0, 0, 0], 1.0),
    ("cd", [0, 0, 0, 0, 0, 0, 1, 0], [0, 0, 0, 0], 1.0),
    ("kmol", [0, 0, 0, 0, 0, 1, 0, 0], [3, 0, 3, 0], 1.0),
];
const POWS: &[i16] = &[-2, 3, -1, 0];
fn powi(b: f64, n: i32) -> f64 {
    let mut r = 1.0;
    let mut i = 0;
    while i < n.abs() {
        r *= b;
        i += 1;
    }
    if n < 0 { 1.0 / r } else { r }
}
fn leaf(k: usize) -> (UnitExpr, Ref) {
    let l = &LEAVES[k];
    // nonstored leaf: concrete exponent, so that the factor is a constant
    let e: i16 = if l.3 != 1.0 { POWS[concretize(below("exp", 3) as u64) as usize] } else { (any::<u8>("exp") & 15) as i16 - 8 };
    let mut r = Ref { d: [0; 8], s: [0; 4], cf: powi(l.3, if l.3 != 1.0 { e as i32 } else { 1 }) };
    for i in 0..8 {
        r.d[i] = l.1[i] as i32 * e as i32;
    }
    for i in 0..4 {
        r.s[i] = l.2[i] as i32 * e as i32;
    }
    (UnitExpr::Unit(UnitExprUnit { name: Ident::new(l.0, Span::call_site()), exponent: e }), r)
}
fn gen_(depth: usize, leaves: usize) -> (UnitExpr, Ref) {
    let shape = if depth == 0 { 0 } else { concretize(below("shape", 4) as u64) };
    match shape {
        0 => leaf(concretize(below("leaf", leaves) as u64) as usize),
        3 => {
            let (a, mut r) = gen_(depth - 1, leaves);
            let k = POWS[concretize(below("pow", POWS.len()) as u64) as usize];
            for x in &mut r.d {
                *x *= k as i32;
            }
            for x in &mut r.s {
                *x *= k as i32;
            }
            r.cf = powi(r.cf, k as i32);
            (UnitExpr::Pow(Box::new(a), syn::LitInt::new(["-2", "3", "-1", "0"][POWS.iter().position(|x| *x == k).unwrap()], Span::call_site())), r)
        }
        op => {
            let (a, r1) = gen_(depth - 1, leaves);
            let (b, r2) = gen_(depth - 1, leaves);
            let sg = if op == 1 { 1 } else { -1 };
            let mut r = Ref { d: [0; 8], s: [0; 4], cf: if op == 1 { r1.cf * r2.cf } else { r1.cf / r2.cf } };
            for i in 0..8 {
                r.d[i] = r1.d[i] + sg * r2.d[i];
            }
            for i in 0..4 {
                r.s[i] = r1.s[i] + sg * r2.s[i];
            }
            if op == 1 { (UnitExpr::Mul(Box::new(a), Box::new(b)), r) } else { (UnitExpr::Div(Box::new(a), Box::new(b)), r) }
        }
    }
}
/// evaluation of an expression tree is the exponent algebra
pub fn h_expr() {
    let (e, r) = gen_(param(0) as usize, param(1) as usize);
    let got = e.evaluate_with_mode(EvaluationMode::Tolerant);
    for i in 0..8 {
        check(got.dimension_exponents.0[i] as i32 == r.d[i], "dimension-exponent");
    }
    for i in 0..4 {
        check(got.scale_exponents.0[i] as i32 == r.s[i], "scale-exponent");
    }
    let (cf, af) = calculate_unit_conversion_factors(&e);
    check(close(cf, r.cf, 1e-12), "conversion-factor");
    check(af == 0.0, "no-offset");
    witness(r.d[2] == 7, "seconds-to-the-seventh");
}

/// reference reading of a unit literal
pub struct P<'a> {
    pub b: &'a [u8],
    pub i: usize,
}
pub type V = ([i32; 8], [i32; 4]);
impl P<'_> {
    pub fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i] == b' ' {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.i < self.b.len() && self.b[self.i] == c {
            self.i += 1;
            return true;
        }
        false
    }
    fn num(&mut self) -> Option<i64> {
        self.ws();
        let s = self.i;
        let mut v = 0i64;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            v = v * 10 + (self.b[self.i] - b'0') as i64;
            self.i += 1;
        }
        // a number does not run into a name
        let glued = self.i < self.b.len() && self.b[self.i].is_ascii_alphabetic();
        if s == self.i || glued { None } else { Some(v) }
    }
    fn int(&mut self) -> Option<i64> {
        let neg = self.eat(b'-');
        let v = self.num()?;
        Some(if neg { -v } else { v })
    }
    pub fn expr(&mut self) -> Option<V> {
        let mut l = self.factor()?;
        while self.eat(b'/') {
            let r = self.factor()?;
            comb(&mut l, &r, -1);
        }
        Some(l)
    }
    fn factor(&mut self) -> Option<V> {
        let mut l = self.power()?;
        while self.eat(b'*') || self.eat(b'.') {
            let r = self.power()?;
            comb(&mut l, &r, 1);
        }
        Some(l)
    }
    fn power(&mut self) -> Option<V> {
        let mut v = self.atom()?;
        if self.eat(b'^') {
            let k = self.int()? as i32;
            for x in &mut v.0 {
                *x *= k;
            }
            for x in &mut v.1 {
                *x *= k;
            }
        }
        Some(v)
    }
    fn atom(&mut self) -> Option<V> {
        let mut v: V = ([0; 8], [0; 4]);
        if self.eat(b'(') {
            let v = self.expr()?;
            return if self.eat(b')') { Some(v) } else { None };
        }
        let neg = self.eat(b'-');
        self.ws();
        if self.i < self.b.len() && self.b[self.i].is_ascii_digit() {
            let n = self.num()?;
            // numbers are pure scale: one, and ten and its powers
            if neg || (n != 1 && n != 10) {
                return None;
            }
            let k = if self.eat(b'^') { self.int()? as i32 } else { 1 };
            if n == 10 {
                v.1 = [k, 0, k, 0];
            }
            return Some(v);
        }
        if neg {
            return None;
        }
        self.ws();
        let s = self.i;
        while self.i < self.b.len() && self.b[self.i].is_ascii_alphanumeric() {
            self.i += 1;
        }
        let id = &self.b[s..self.i];
        if id.is_empty() {
            return None;
        }
        let mut k = 0;
        while k < id.len() && !id[k].is_ascii_digit() {
            k += 1;
        }
        let mut e = 1i32;
        let mut base = id;
        if k < id.len() {
            let mut all = true;
            let mut x = 0i32;
            for c in &id[k..] {
                all &= c.is_ascii_digit();
                if all {
                    x = x * 10 + (*c - b'0') as i32;
                }
            }
            if all && x <= 32767 {
                e = x;
                base = &id[..k];
            }
        }
        match base {
            b"m" => v.0[1] = e,
            b"s" => v.0[2] = e,
            b"A" => v.0[3] = e,
            b"K" => v.0[4] = e,
            b"g" => {
                v.0[0] = e;
                v.1 = [-3 * e, 0, -3 * e, 0];
            }
            b"ms" => {
                v.0[2] = e;
                v.1 = [-3 * e, 0, -3 * e, 0];
            }
            b"mm" => {
                v.0[1] = e;
                v.1 = [-3 * e, 0, -3 * e, 0];
            }
            _ => {}
        }
        Some(v)
    }
}
fn comb(l: &mut V, r: &V, s: i32) {
    for i in 0..8 {
        l.0[i] += s * r.0[i];
    }
    for i in 0..4 {
        l.1[i] += s * r.1[i];
    }
}
/// text of `param(0)` characters over a small alphabet: accepted and evaluated as the reference does
pub fn h_text() {
    let n = param(0) as usize;
    let mut b = [0u8; 16];
    let set: &[u8] = match param(1) {
        0 => b"ms*./^()2- ",
        1 => b"ms*/^()10-",
        _ => b"m./^()-3",
    };
    let first = param(2) as usize;
    for i in 0..n {
        let c: u8 = any("c");
        let mut ok = false;
        for x in set {
            ok |= c == *x;
        }
        assume(ok);
        if i == 0 && first != 0 {
            assume(c == set[first - 1]);
        }
        b[i] = c;
    }
    let t = &b[..n];
    // left out: Rust comment openers, numbers glued to a dot
    let mut innum = false;
    let mut inid = false;
    for i in 0..n {
        let c = t[i];
        if i > 0 {
            assume(!(t[i - 1] == b'/' && (c == b'/' || c == b'*')));
        }
        let d = c.is_ascii_digit();
        let l = c.is_ascii_alphabetic();
        if innum {
            assume(c != b'.');
        }
        innum = d && !inid;
        inid = l || (inid && d);
    }
    agree(t);
}
pub const TEMPLATES: &[&[u8]] = &[
    b"mosogoAoK", b"mo(sogoA)oK", b"(mos)o(goA)", b"mo(so(goA))", b"((mos)og)oA",
    b"m^dos^-doA", b"m^ndos^nd", b"mdosdogdoA", b"(mos)^ndogoA", b"(m^dos)^-dog", b"((mos)^2og)^-d",
    b"1omosoA", b"mo1osog", b"10^ndomos", b"10omo10^dos", b"mo10o10os", b"mo1^dosog",
    b"m o s ^ d o g", b"m^dd/s^d", b"(m)o(s)^do(g)", b"mosdo(gdoA)^do K", b"(10om)^dosog", b"mosogoAoKomosogoA",
];
/// a fixed layout with symbolic operators (o), digits (d) and signs (n)
pub fn h_tmpl() {
    let tm = TEMPLATES[param(0) as usize];
    let n = tm.len();
    let mut b = [0u8; 24];
    for i in 0..n {
        b[i] = match tm[i] {
            b'o' => {
                let c: u8 = any("op");
                assume((c == b'*') | (c == b'.') | (c == b'/'));
                // "1." would be a float
                assume(i == 0 || !(b[i - 1].is_ascii_digit() && c == b'.'));
                c
            }
            b'd' => {
                let c: u8 = any("digit");
                assume((c >= b'0') & (c <= b'9'));
                c
            }
            b'n' => {
                let c: u8 = any("sign");
                assume((c == b'-') | (c == b' '));
                c
            }
            c => c,
        };
    }
    agree(&b[..n]);
}
fn agree(t: &[u8]) {
    let n = t.len();
    let mut p = P { b: t, i: 0 };
    let mut want = p.expr();
    p.ws();
    if p.i != n {
        want = None;
    }
    let s = unsafe { core::str::from_utf8_unchecked(t) };
    let got = syn::parse_str::<UnitExpr>(s);
    check(got.is_ok() == want.is_some(), if want.is_some() { "accepts" } else { "rejects" });
    if let (Ok(e), Some(w)) = (got, want) {
        let mut ok = true;
        for i in 0..8 {
            ok &= fits(w.0[i]);
        }
        for i in 0..4 {
            ok &= fits(w.1[i]);
        }
        assume(ok);
        let r = e.evaluate_with_mode(EvaluationMode::Tolerant);
        let mut same = true;
        for i in 0..8 {
            same &= r.dimension_exponents.0[i] as i32 == w.0[i];
        }
        for i in 0..4 {
            same &= r.scale_exponents.0[i] as i32 == w.1[i];
        }
        check(same, "value");
        witness(w.0[1] < 0, "per-metre");
    }
    witness(want_none(&want), "rejected");
}
fn want_none(w: &Option<V>) -> bool {
    w.is_none()
}
