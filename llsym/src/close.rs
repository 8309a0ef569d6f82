//! Closeness of two floating-point expressions, decided over the reals.
//!
//! Every rounding `fl(e)` is replaced by `e(1+d)+a` with `|d| <= u`, `|a| <= eta` (valid for any
//! result that does not overflow), so `|x-y| <= rel|y|+abs` for all reals, all `d` and all `a`
//! implies it for the floating-point values.  z3 (nonlinear real arithmetic) decides it.
use crate::expr::*;
use std::collections::HashMap;
use std::fmt::Write;

const U64: f64 = 1.1102230246251566e-16; // 2^-53, rounded up below
const U32: f64 = 5.9604645e-8;
const ETA64: f64 = 1e-300;
const ETA32: f64 = 1e-42;

pub fn dec(x: f64) -> String {
    let s = format!("{:.1080}", x.abs());
    let s = s.trim_end_matches('0');
    let s = if s.ends_with('.') { format!("{s}0") } else { s.to_string() };
    if x < 0.0 { format!("(- {s})") } else { s }
}

/// a short decimal at least `x`, and less than 2% above it (`up`), or at most `x` and less than 2% below it
fn short(x: f64, up: bool) -> String {
    if x == 0.0 {
        return "0.0".into();
    }
    assert!(x > 0.0 && x.is_finite());
    let t = format!("{:.1080}", x);
    let (i, f) = t.split_once('.').unwrap();
    let all: Vec<u8> = i.bytes().chain(f.bytes()).collect();
    let n = all.iter().position(|c| *c != b'0').unwrap();
    let mut m: u32 = 0;
    for k in 0..3 {
        m = m * 10 + all.get(n + k).map_or(0, |c| (c - b'0') as u32);
    }
    let exact = all.iter().skip(n + 3).all(|c| *c == b'0');
    if up && !exact {
        m += 1;
    }
    // m * 10^e
    let e = i.len() as i64 - n as i64 - 3;
    if e >= 0 { format!("{m}{}.0", "0".repeat(e as usize)) } else { {
        let m = m.to_string();
        let k = -e as usize;
        if m.len() > k { format!("{}.{}", &m[..m.len() - k], &m[m.len() - k..]) } else { format!("0.{}{m}", "0".repeat(k - m.len())) }
    } }
}
/// value = t*(1+D) + A, |D| <= d, |A| <= a, |value| <= mag
#[derive(Clone)]
struct T {
    t: String,
    c: Option<f64>,
    d: f64,
    a: f64,
    mag: f64,
}
pub struct Close<'a> {
    pub c: &'a Ctx,
    pub s: String,
    /// bound on |v| per variable, as established by the solver
    pub bound: HashMap<E, f64>,
    /// integers shown non-negative, whose signed and unsigned readings agree
    pub nonneg: std::collections::HashSet<E>,
    memo: HashMap<E, T>,
    ints: HashMap<(E, bool), T>,
    n: usize,
    pub vars: Vec<E>,
    /// products of unknowns occur
    pub nonlinear: bool,
}
fn up(x: f64) -> f64 {
    x * (1.0 + 1e-14) + 1e-323
}
impl<'a> Close<'a> {
    pub fn new(c: &'a Ctx, bound: HashMap<E, f64>, nonneg: std::collections::HashSet<E>) -> Self {
        Close { c, s: String::new(), bound, nonneg, ints: HashMap::new(), memo: HashMap::new(), n: 0, vars: vec![], nonlinear: false }
    }
    fn fresh(&mut self, p: &str, b: f64) -> String {
        self.n += 1;
        let v = format!("{p}{}", self.n);
        let _ = writeln!(self.s, "(declare-const {v} Real)(assert (<= (- {b}) {v} {b}))", b = short(b, true));
        v
    }
    /// the value as one real term
    fn flat(&mut self, x: &T) -> String {
        let mut t = x.t.clone();
        if x.d > 0.0 {
            // between t(1-d) and t(1+d): linear where t is
            let d = short(x.d, true);
            self.n += 1;
            let (b, p) = (format!("b{}", self.n), format!("p{}", self.n));
            let _ = writeln!(
                self.s,
                "(define-fun {b} () Real {t})(declare-const {p} Real)\
                 (assert (ite (>= {b} 0.0) (<= (* (- 1.0 {d}) {b}) {p} (* (+ 1.0 {d}) {b})) (>= (* (- 1.0 {d}) {b}) {p} (* (+ 1.0 {d}) {b}))))"
            );
            t = p;
        }
        if x.a > 0.0 {
            let a = self.fresh("a", x.a);
            t = format!("(+ {t} {a})");
        }
        t
    }
    fn name(&mut self, x: &T) -> T {
        let f = self.flat(x);
        self.n += 1;
        let v = format!("t{}", self.n);
        let _ = writeln!(self.s, "(define-fun {v} () Real {f})");
        T { t: v, c: None, d: 0.0, a: 0.0, mag: x.mag }
    }
    fn round(&mut self, mut x: T, w: u16) -> Option<T> {
        let (u, e, max) = if w == 64 { (U64, ETA64, 1e307) } else { (U32, ETA32, 1e38) };
        if !(x.mag < max) {
            return None;
        }
        x.a = if x.a == 0.0 && x.d == 0.0 && x.c == Some(0.0) { 0.0 } else { up(x.a * (1.0 + u) + e) };
        x.d = up((1.0 + x.d) * u + x.d);
        x.mag = up(x.mag * (1.0 + u) + e);
        x.c = None;
        Some(x)
    }
    fn leaf(&mut self, e: E, b: f64) -> T {
        self.vars.push(e);
        let v = format!("x{e}");
        let _ = writeln!(self.s, "(declare-const {v} Real)(assert (<= (- {b}) {v} {b}))", b = short(b, true));
        T { t: v, c: None, d: 0.0, a: 0.0, mag: b }
    }
    fn term(&mut self, e: E) -> Option<T> {
        if let Some(t) = self.memo.get(&e) {
            return Some(t.clone());
        }
        let t = self.term0(e)?;
        self.memo.insert(e, t.clone());
        Some(t)
    }
    fn term0(&mut self, e: E) -> Option<T> {
        let w = self.c.w(e);
        if let Some(v) = self.c.cv(e) {
            let x = if w == 64 { f64::from_bits(v as u64) } else if w == 32 { f32::from_bits(v as u32) as f64 } else { return None };
            if !x.is_finite() {
                return None;
            }
            return Some(T { t: dec(x), c: Some(x), d: 0.0, a: 0.0, mag: x.abs() });
        }
        match self.c.n(e) {
            N::Var(_) => {
                let b = *self.bound.get(&e)?;
                Some(self.leaf(e, b))
            }
            N::SToF(x) | N::UToF(x) => {
                let xw = self.c.w(x);
                if xw > 64 {
                    return None;
                }
                let sg = matches!(self.c.n(e), N::SToF(_));
                let t = match self.c.n(x) {
                    N::FToS(t) if sg => Some(t),
                    N::FToU(t) if !sg => Some(t),
                    _ => None,
                };
                if let Some(t) = t {
                    let t = self.term(t)?;
                    // no upper saturation, and exact as a float
                    if !(t.mag < 2f64.powi((xw as i32 - sg as i32).min(53))) {
                        return None;
                    }
                    let t = self.name(&t);
                    self.n += 1;
                    let v = format!("i{}", self.n);
                    let neg = if sg { format!("(and (>= 0.0 {v} {t}) (< {v} (+ {t} 1.0)))", t = t.t) } else { format!("(= {v} 0.0)") };
                    let _ = writeln!(self.s, "(declare-const {v} Real)(assert (ite (>= {t} 0.0) (and (<= 0.0 {v} {t}) (> {v} (- {t} 1.0))) {neg}))", t = t.t);
                    let r = T { t: v, c: None, d: 0.0, a: 0.0, mag: t.mag };
                    return if w == 64 { Some(r) } else { self.round(r, w) };
                }
                let b = self.bound.get(&x).copied().unwrap_or(2f64.powi(xw as i32));
                let key = (x, sg || self.nonneg.contains(&x));
                let l = match self.ints.get(&key) {
                    Some(t) => t.clone(),
                    None => {
                        let v = format!("x{}{}", x, if key.1 { "s" } else { "u" });
                        let lo = if !sg || self.nonneg.contains(&x) { 0.0 } else { -b };
                        let _ = writeln!(self.s, "(declare-const {v} Real)(assert (<= {} {v} {}))", dec(lo), dec(b));
                        let t = T { t: v, c: None, d: 0.0, a: 0.0, mag: b };
                        self.ints.insert(key, t.clone());
                        t
                    }
                };
                if xw <= if w == 64 { 53 } else { 24 } { Some(l) } else { self.round(l, w) }
            }
            N::FCast(x) => {
                let t = self.term(x)?;
                if w == 64 { Some(t) } else { self.round(t, 32) }
            }
            N::FMul(x, y) => {
                let (x, y) = (self.term(x)?, self.term(y)?);
                let (x, y) = if x.c.is_some() { (y, x) } else { (x, y) };
                if let (Some(k), None) = (y.c, x.c) {
                    if k == 1.0 {
                        return Some(x);
                    }
                }
                let r = match y.c {
                    Some(k) => T { t: format!("(* {} {})", y.t, x.t), c: None, d: x.d, a: up(x.a * k.abs()), mag: up(x.mag * k.abs()) },
                    None => {
                        self.nonlinear = true;
                        let (a, b) = (self.flat(&x), self.flat(&y));
                        T { t: format!("(* {a} {b})"), c: None, d: 0.0, a: 0.0, mag: up(x.mag * y.mag) }
                    }
                };
                self.round(r, w)
            }
            N::FDiv(x, y) => {
                let (x, y) = (self.term(x)?, self.term(y)?);
                let k = y.c?;
                if k == 0.0 {
                    return None;
                }
                if k == 1.0 {
                    return Some(x);
                }
                let r = T { t: format!("(/ {} {})", x.t, y.t), c: None, d: x.d, a: up(x.a / k.abs()), mag: up(x.mag / k.abs()) };
                self.round(r, w)
            }
            N::FAdd(x, y) | N::FSub(x, y) => {
                let op = if matches!(self.c.n(e), N::FAdd(..)) { "+" } else { "-" };
                let (x, y) = (self.term(x)?, self.term(y)?);
                if y.c == Some(0.0) {
                    return Some(x);
                }
                if x.c == Some(0.0) && op == "+" {
                    return Some(y);
                }
                let (a, b) = (self.flat(&x), self.flat(&y));
                let r = T { t: format!("({op} {a} {b})"), c: None, d: 0.0, a: 0.0, mag: up(x.mag + y.mag) };
                self.round(r, w)
            }
            // a sign flip
            N::Xor(x, k) if self.c.cv(k) == Some(1u128 << (w - 1)) || self.c.cv(x) == Some(1u128 << (w - 1)) => {
                let x = if self.c.cv(k).is_some() { x } else { k };
                let mut t = self.term(x)?;
                t.t = format!("(- {})", t.t);
                Some(t)
            }
            // absolute values do not occur; choices become an unknown boolean
            N::Ite(g, x, y) => {
                let (x, y) = (self.term(x)?, self.term(y)?);
                let (a, b) = (self.flat(&x), self.flat(&y));
                let gv = format!("g{g}");
                if !self.memo.contains_key(&g) {
                    let _ = writeln!(self.s, "(declare-const {gv} Bool)");
                    self.memo.insert(g, T { t: gv.clone(), c: None, d: 0.0, a: 0.0, mag: 0.0 });
                }
                Some(T { t: format!("(ite {gv} {a} {b})"), c: None, d: 0.0, a: 0.0, mag: x.mag.max(y.mag) })
            }
            _ => None,
        }
    }
    /// script whose unsatisfiability proves closeness
    pub fn script(&mut self, x: E, y: E, rel: f64, abs: f64) -> Option<String> {
        let (a, b) = (self.term(x)?, self.term(y)?);
        let (a, b) = (self.name(&a).t, self.name(&b).t);
        let rel = rel * 0.99;
        let abs = abs * 0.99;
        let mut s = format!("(set-logic {})\n{}", if self.nonlinear { "QF_NRA" } else { "ALL" }, self.s);
        let _ = writeln!(s, "(define-fun df () Real (- {a} {b}))\n(define-fun lim () Real (+ (* {} (ite (>= {b} 0.0) {b} (- {b}))) {}))", short(rel, false), short(abs, false));
        let _ = writeln!(s, "(assert (or (> df lim) (< df (- lim))))");
        Some(s)
    }
}

/// variables read as a number: floats (0), and integers converted to floats as signed (1) or unsigned (2)
pub fn float_vars(c: &Ctx, e: E, out: &mut Vec<(E, u8)>) {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![e];
    while let Some(x) = st.pop() {
        if !seen.insert(x) {
            continue;
        }
        match c.n(x) {
            N::Var(_) => out.push((x, 0)),
            N::SToF(y) | N::UToF(y) => match c.n(y) {
                N::FToS(t) | N::FToU(t) => st.push(t),
                _ => out.push((y, if matches!(c.n(x), N::SToF(_)) { 1 } else { 2 })),
            },
            N::Ite(_, a, b) => {
                st.push(a);
                st.push(b)
            }
            _ => c.children(x, &mut st),
        }
    }
}
