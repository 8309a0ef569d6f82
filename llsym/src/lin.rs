//! Interval and linear reasoning over bit-vector nodes, used to settle integer
//! comparisons and overflow flags that need no solver.  All facts hold for every
//! assignment of the variables (path constraints are not used).
use crate::expr::*;
use std::collections::BTreeMap;

impl Ctx {
    /// signed interval of `e` (width at most 64)
    pub fn range(&mut self, e: E) -> (i128, i128) {
        if let Some(r) = self.ranges.get(&e) {
            return *r;
        }
        let w = self.w(e);
        if w > 64 {
            // wide nodes: only what is certainly inside i128 with room to spare
            let r = match self.n(e) {
                N::Const(v) => (v as i128, v as i128),
                N::ZExt(a) if self.w(a) <= 64 => self.urange(a),
                N::SExt(a) if self.w(a) <= 64 => self.range(a),
                _ => (i128::MIN, i128::MAX),
            };
            return r;
        }
        let full = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let fit = |r: (i128, i128)| if r.0 >= full.0 && r.1 <= full.1 { r } else { full };
        let r = match self.n(e) {
            N::Const(v) => {
                let s = sext128(v, w);
                (s, s)
            }
            N::ZExt(a) => fit(self.urange(a)),
            N::SExt(a) => self.range(a),
            N::And(_, m) if self.cv(m).is_some_and(|m| sext128(m, w) >= 0) => (0, self.cv(m).unwrap() as i128),
            N::Ite(_, a, b) => {
                let (x, y) = (self.range(a), self.range(b));
                (x.0.min(y.0), x.1.max(y.1))
            }
            N::Extract(a, 0) => fit(self.range(a)),
            _ => match self.exact(e) {
                Some(r) => r,
                None => full,
            },
        };
        self.ranges.insert(e, r);
        r
    }
    /// unsigned interval
    pub fn urange(&mut self, e: E) -> (i128, i128) {
        let w = self.w(e);
        if w > 64 {
            return (0, i128::MAX);
        }
        let full = (0, mask(w) as i128);
        match self.n(e) {
            N::Const(v) => (v as i128, v as i128),
            N::ZExt(a) => self.urange(a),
            N::And(_, m) if self.cv(m).is_some() => (0, self.cv(m).unwrap() as i128),
            N::Ite(_, a, b) => {
                let (x, y) = (self.urange(a), self.urange(b));
                (x.0.min(y.0), x.1.max(y.1))
            }
            _ => {
                if w == 1 {
                    return full;
                }
                let r = self.range(e);
                if r.0 >= 0 { r } else { full }
            }
        }
    }
    /// interval of an addition, subtraction, multiplication or left shift that cannot wrap (signed)
    fn exact(&mut self, e: E) -> Option<(i128, i128)> {
        let w = self.w(e);
        let (op, a, b) = match self.n(e) {
            N::Add(a, b) => (0, a, b),
            N::Sub(a, b) => (1, a, b),
            N::Mul(a, b) => (2, a, b),
            N::Shl(a, b) if self.cv(b).is_some_and(|k| k < 62) => (3, a, b),
            _ => return None,
        };
        if w > 64 {
            return None;
        }
        let x = self.range(a);
        let y = if op == 3 { (1i128 << self.cv(b).unwrap(), 1i128 << self.cv(b).unwrap()) } else { self.range(b) };
        let r = interval(if op == 3 { 2 } else { op }, x, y)?;
        let full = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        (r.0 >= full.0 && r.1 <= full.1).then_some(r)
    }
    /// Does a signed (or unsigned) `op` (0 add, 1 sub, 2 mul) on width w certainly not overflow?
    pub fn no_overflow(&mut self, op: u8, a: E, b: E, signed: bool) -> bool {
        let w = self.w(a);
        if w > 64 {
            return false;
        }
        let (x, y) = if signed { (self.range(a), self.range(b)) } else { (self.urange(a), self.urange(b)) };
        let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, mask(w) as i128) };
        matches!(interval(op, x, y), Some(r) if r.0 >= lo && r.1 <= hi)
    }
    /// e = sum of coefficient * atom + constant over the integers
    fn lin(&mut self, e: E, k: i128, out: &mut BTreeMap<E, i128>, c: &mut i128, fuel: &mut u32) -> Option<()> {
        if *fuel == 0 {
            return None;
        }
        *fuel -= 1;
        let w = self.w(e);
        if w > 64 && !matches!(self.n(e), N::Const(_) | N::SExt(_) | N::ZExt(_)) {
            return None;
        }
        match self.n(e) {
            N::Const(v) => {
                *c = c.checked_add(sext128(v, w).checked_mul(k)?)?;
                return Some(());
            }
            N::SExt(a) => return self.lin(a, k, out, c, fuel),
            N::ZExt(a) if self.w(a) > 1 && self.w(a) <= 64 && self.range(a).0 >= 0 => return self.lin(a, k, out, c, fuel),
            N::Extract(a, 0) if self.w(a) <= 64 => {
                let r = self.range(a);
                if r.0 >= -(1i128 << (w - 1)) && r.1 < (1i128 << (w - 1)) {
                    return self.lin(a, k, out, c, fuel);
                }
            }
            N::Add(a, b) if self.exact(e).is_some() => {
                self.lin(a, k, out, c, fuel)?;
                return self.lin(b, k, out, c, fuel);
            }
            N::Sub(a, b) if self.exact(e).is_some() => {
                self.lin(a, k, out, c, fuel)?;
                return self.lin(b, -k, out, c, fuel);
            }
            N::Mul(a, b) if self.exact(e).is_some() => {
                for (p, q) in [(a, b), (b, a)] {
                    if let Some(y) = self.cv(q) {
                        let y = sext128(y, w);
                        return self.lin(p, k.checked_mul(y)?, out, c, fuel);
                    }
                }
            }
            N::Shl(a, b) if self.exact(e).is_some() => {
                let y = 1i128 << self.cv(b).unwrap();
                return self.lin(a, k.checked_mul(y)?, out, c, fuel);
            }
            _ => {}
        }
        if w == 1 {
            return None;
        }
        let t = out.entry(e).or_insert(0);
        *t = t.checked_add(k)?;
        Some(())
    }
    /// interval of the signed difference a - b over the integers
    pub fn diff(&mut self, a: E, b: E) -> Option<(i128, i128)> {
        if self.w(a) < 8 {
            return None;
        }
        let (mut m, mut c, mut fuel) = (BTreeMap::new(), 0i128, 64);
        self.lin(a, 1, &mut m, &mut c, &mut fuel)?;
        self.lin(b, -1, &mut m, &mut c, &mut fuel)?;
        let (mut lo, mut hi) = (c, c);
        for (e, k) in m {
            if k == 0 {
                continue;
            }
            let r = self.range(e);
            let (p, q) = (r.0.checked_mul(k)?, r.1.checked_mul(k)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
        }
        Some((lo, hi))
    }
}
fn interval(op: u8, x: (i128, i128), y: (i128, i128)) -> Option<(i128, i128)> {
    Some(match op {
        0 => (x.0.checked_add(y.0)?, x.1.checked_add(y.1)?),
        1 => (x.0.checked_sub(y.1)?, x.1.checked_sub(y.0)?),
        _ => {
            let v = [x.0.checked_mul(y.0)?, x.0.checked_mul(y.1)?, x.1.checked_mul(y.0)?, x.1.checked_mul(y.1)?];
            (*v.iter().min().unwrap(), *v.iter().max().unwrap())
        }
    })
}
