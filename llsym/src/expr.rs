//! Hash-consed bit-vector / floating-point expression DAG.
//!
//! Width-1 nodes are booleans.  Floating-point values are carried as their bit
//! pattern (width 32 / 64); floating-point operations are separate node kinds.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Add(E, E),
    Sub(E, E),
    Mul(E, E),
    UDiv(E, E),
    SDiv(E, E),
    URem(E, E),
    SRem(E, E),
    Shl(E, E),
    LShr(E, E),
    AShr(E, E),
    And(E, E),
    Or(E, E),
    Xor(E, E),
    Not(E),
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(E, u16),
    Concat(E, E),
    FAdd(E, E),
    FSub(E, E),
    FMul(E, E),
    FDiv(E, E),
    FRem(E, E),
    FOeq(E, E),
    FOlt(E, E),
    FOle(E, E),
    FIsNan(E),
    FCast(E),     // float width change
    FToS(E),      // fptosi (truncating), result width
    FToU(E),
    SToF(E),
    UToF(E),
    FRound(E, u8), // 0 RNE 1 floor 2 ceil 3 trunc 4 round-away
    FSqrt(E),
    FFma(E, E, E),
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}
fn f64v(v: u128) -> f64 {
    f64::from_bits(v as u64)
}
fn f32v(v: u128) -> f32 {
    f32::from_bits(v as u32)
}

pub struct Ctx {
    pub nodes: Vec<(N, u16)>,
    map: HashMap<(N, u16), E, BuildH>,
    pub vars: Vec<(String, u16, E)>,
    pub tru: E,
    pub fls: E,
    vsets: Vec<u128>,
    pub ranges: HashMap<E, (i128, i128), BuildH>,
}

#[derive(Default, Clone)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
}
pub type BuildH = std::hash::BuildHasherDefault<FxH>;

pub type Model = HashMap<u32, u128, BuildH>;

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![(N::Const(0), 0)],
            map: HashMap::default(),
            vars: vec![],
            tru: 0,
            fls: 0,
            vsets: vec![0],
            ranges: HashMap::default(),
        };
        c.tru = c.konst(1, 1);
        c.fls = c.konst(0, 1);
        c
    }
    fn mk(&mut self, n: N, w: u16) -> E {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push((n, w));
        let mut vs = 0u128;
        if let N::Var(i) = n {
            vs = 1 << i.min(127);
        } else {
            let mut k = vec![];
            self.children(id, &mut k);
            for x in k {
                vs |= self.vsets[x as usize];
            }
        }
        self.vsets.push(vs);
        self.map.insert((n, w), id);
        id
    }
    /// Set of variables (bit 127 stands for every variable from 127 on).
    pub fn varset(&self, e: E) -> u128 {
        self.vsets[e as usize]
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].1
    }
    pub fn n(&self, e: E) -> N {
        self.nodes[e as usize].0
    }
    pub fn konst(&mut self, v: u128, w: u16) -> E {
        self.mk(N::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, name: String, w: u16) -> E {
        let id = self.vars.len() as u32;
        let e = self.mk(N::Var(id), w);
        self.vars.push((name, w, e));
        e
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        match self.n(e) {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    fn order(&self, a: E, b: E) -> (E, E) {
        // constants to the right, otherwise ordered by id
        if self.cv(a).is_some() {
            return (b, a);
        }
        if self.cv(b).is_some() {
            return (a, b);
        }
        if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    fn is_ite_const(&self, e: E) -> Option<(E, u128, u128)> {
        if let N::Ite(c, a, b) = self.n(e) {
            if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
                return Some((c, x, y));
            }
        }
        None
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        let (a, b) = self.order(a, b);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(x.wrapping_add(y), w);
            }
            if y == 0 {
                return a;
            }
            if let N::Add(p, q) = self.n(a) {
                if let Some(z) = self.cv(q) {
                    let k = self.konst(z.wrapping_add(y), w);
                    return self.add(p, k);
                }
            }
            if let Some((c, p, q)) = self.is_ite_const(a) {
                let k1 = self.konst(p.wrapping_add(y), w);
                let k2 = self.konst(q.wrapping_add(y), w);
                return self.ite(c, k1, k2);
            }
        } else if let N::Add(p, q) = self.n(a) {
            if self.cv(q).is_some() {
                let t = self.add(p, b);
                return self.add(t, q);
            }
        }
        if let N::Add(p, q) = self.n(b) {
            if self.cv(q).is_some() {
                let t = self.add(a, p);
                return self.add(t, q);
            }
        }
        if let N::Sub(p, q) = self.n(a) {
            if q == b {
                return p;
            }
        }
        if let N::Sub(p, q) = self.n(b) {
            if q == a {
                return p;
            }
        }
        let (a, b) = self.order(a, b);
        self.mk(N::Add(a, b), w)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.konst(0, w);
        }
        if let Some(y) = self.cv(b) {
            let k = self.konst(0u128.wrapping_sub(y), w);
            return self.add(a, k);
        }
        if let N::Add(p, q) = self.n(a) {
            if p == b {
                return q;
            }
            if q == b {
                return p;
            }
            if self.cv(q).is_some() {
                let t = self.sub(p, b);
                return self.add(t, q);
            }
        }
        if let N::Add(p, q) = self.n(b) {
            if let Some(k) = self.cv(q) {
                let t = self.sub(a, p);
                let nk = self.konst(0u128.wrapping_sub(k), w);
                return self.add(t, nk);
            }
        }
        self.mk(N::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.order(a, b);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(x.wrapping_mul(y), w);
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if w > 1 && y.is_power_of_two() {
                let k = self.konst(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
        }
        if w == 1 {
            return self.and(a, b);
        }
        self.mk(N::Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y != 0 {
                if let Some(x) = self.cv(a) {
                    return self.konst(x / y, w);
                }
                if y == 1 {
                    return a;
                }
                if y.is_power_of_two() {
                    let k = self.konst(y.trailing_zeros() as u128, w);
                    return self.lshr(a, k);
                }
            }
        }
        if let Some((p, k)) = self.narrow_unsigned(a, b) {
            let r = self.udiv(p, k);
            return self.zext(r, w);
        }
        self.mk(N::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y != 0 {
                if let Some(x) = self.cv(a) {
                    return self.konst(x % y, w);
                }
                if y.is_power_of_two() {
                    let k = self.konst(y - 1, w);
                    return self.and(a, k);
                }
            }
        }
        if let Some((p, k)) = self.narrow_unsigned(a, b) {
            let r = self.urem(p, k);
            return self.zext(r, w);
        }
        self.mk(N::URem(a, b), w)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                let r = sext128(x, w).wrapping_div(sext128(y, w));
                return self.konst(r as u128, w);
            }
        }
        if self.cv(b) == Some(1) {
            return a;
        }
        if let Some((p, k)) = self.narrow_signed(a, b) {
            let r = self.sdiv(p, k);
            return self.sext(r, w);
        }
        self.mk(N::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                let r = sext128(x, w).wrapping_rem(sext128(y, w));
                return self.konst(r as u128, w);
            }
        }
        if let Some((p, k)) = self.narrow_signed(a, b) {
            let r = self.srem(p, k);
            return self.sext(r, w);
        }
        self.mk(N::SRem(a, b), w)
    }
    /// `a` is a sign extension and the constant `b` (not 0 or -1) fits the narrow width
    fn narrow_signed(&mut self, a: E, b: E) -> Option<(E, E)> {
        let y = sext128(self.cv(b)?, self.w(b));
        if y == 0 || y == -1 {
            return None;
        }
        let N::SExt(p) = self.n(a) else { return None };
        let pw = self.w(p);
        let lim = 1i128 << (pw - 1);
        (y >= -lim && y < lim).then(|| (p, self.konst(y as u128, pw)))
    }
    fn narrow_unsigned(&mut self, a: E, b: E) -> Option<(E, E)> {
        let y = self.cv(b)?;
        let N::ZExt(p) = self.n(a) else { return None };
        let pw = self.w(p);
        (y != 0 && y >> pw == 0).then(|| (p, self.konst(y, pw)))
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y >= w as u128 {
                return self.konst(0, w);
            }
            if let Some(x) = self.cv(a) {
                return self.konst(x << y, w);
            }
            if y == 0 {
                return a;
            }
        }
        self.mk(N::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y >= w as u128 {
                return self.konst(0, w);
            }
            if let Some(x) = self.cv(a) {
                return self.konst(x >> y, w);
            }
            if y == 0 {
                return a;
            }
            let hi = self.extract(a, y as u16, w - y as u16);
            return self.zext(hi, w);
        }
        self.mk(N::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                let s = sext128(x, w);
                let r = if y >= w as u128 { if s < 0 { -1 } else { 0 } } else { s >> y };
                return self.konst(r as u128, w);
            }
            if y == 0 {
                return a;
            }
        }
        self.mk(N::AShr(a, b), w)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.order(a, b);
        if a == b {
            return a;
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(x & y, w);
            }
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            if let N::And(p, q) = self.n(a) {
                if let Some(z) = self.cv(q) {
                    let k = self.konst(z & y, w);
                    return self.and(p, k);
                }
            }
            // low mask -> zext(extract)
            if (y & (y + 1)) == 0 {
                let k = 128 - y.leading_zeros() as u16;
                let ex = self.extract(a, 0, k);
                return self.zext(ex, w);
            }
            if let Some((c, p, q)) = self.is_ite_const(a) {
                let k1 = self.konst(p & y, w);
                let k2 = self.konst(q & y, w);
                return self.ite(c, k1, k2);
            }
            if let N::ZExt(p) = self.n(a) {
                let pw = self.w(p);
                let k = self.konst(y, pw);
                let t = self.and(p, k);
                return self.zext(t, w);
            }
        }
        if w == 1 {
            if let N::Not(x) = self.n(a) {
                if x == b {
                    return self.fls;
                }
            }
            if let N::Not(x) = self.n(b) {
                if x == a {
                    return self.fls;
                }
            }
        }
        self.mk(N::And(a, b), w)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.order(a, b);
        if a == b {
            return a;
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(x | y, w);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
        }
        if w == 1 {
            if let N::Not(x) = self.n(a) {
                if x == b {
                    return self.tru;
                }
            }
            if let N::Not(x) = self.n(b) {
                if x == a {
                    return self.tru;
                }
            }
        } else {
            // disjoint or of zext(lo) | (zext(hi) << k)
            for (p, q) in [(a, b), (b, a)] {
                if let (N::ZExt(lo), N::Shl(h, k)) = (self.n(p), self.n(q)) {
                    if let (N::ZExt(hi), Some(k)) = (self.n(h), self.cv(k)) {
                        let lw = self.w(lo) as u128;
                        let hw = self.w(hi);
                        if k >= lw && k as u16 + hw <= w {
                            let mut l = lo;
                            if k > lw {
                                l = self.zext(lo, k as u16);
                            }
                            let c = self.concat(hi, l);
                            return self.zext(c, w);
                        }
                    }
                }
            }
        }
        self.mk(N::Or(a, b), w)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.order(a, b);
        if a == b {
            return self.konst(0, w);
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(x ^ y, w);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return self.not(a);
            }
        }
        self.mk(N::Xor(a, b), w)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        match self.n(a) {
            N::Const(v) => self.konst(!v, w),
            N::Not(x) => x,
            N::Ult(x, y) => self.ule(y, x),
            N::Ule(x, y) => self.ult(y, x),
            N::Slt(x, y) => self.sle(y, x),
            N::Sle(x, y) => self.slt(y, x),
            N::Ite(c, x, y) if w == 1 && (self.cv(x).is_some() || self.cv(y).is_some()) => {
                let nx = self.not(x);
                let ny = self.not(y);
                self.ite(c, nx, ny)
            }
            _ => self.mk(N::Not(a), w),
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let (a, b) = self.order(a, b);
        if a == b {
            return self.tru;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return if x == y { self.tru } else { self.fls };
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match self.n(a) {
                N::ZExt(p) => {
                    let pw = self.w(p);
                    if y > mask(pw) {
                        return self.fls;
                    }
                    let k = self.konst(y, pw);
                    return self.eq(p, k);
                }
                N::SExt(p) => {
                    let pw = self.w(p);
                    let t = sext128(y, pw) as u128 & mask(w);
                    if t != y {
                        return self.fls;
                    }
                    let k = self.konst(y, pw);
                    return self.eq(p, k);
                }
                N::Concat(h, l) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kh = self.konst(y >> lw, hw);
                    let kl = self.konst(y, lw);
                    let eh = self.eq(h, kh);
                    let el = self.eq(l, kl);
                    return self.and(eh, el);
                }
                N::Add(p, q) => {
                    if let Some(z) = self.cv(q) {
                        let k = self.konst(y.wrapping_sub(z), w);
                        return self.eq(p, k);
                    }
                }
                N::Sub(p, q) if y == 0 => return self.eq(p, q),
                N::Xor(p, q) if y == 0 => return self.eq(p, q),
                N::Or(p, q) if y == 0 => {
                    let k = self.konst(0, w);
                    let e1 = self.eq(p, k);
                    let e2 = self.eq(q, k);
                    return self.and(e1, e2);
                }
                N::Xor(p, q) => {
                    if let Some(z) = self.cv(q) {
                        let k = self.konst(y ^ z, w);
                        return self.eq(p, k);
                    }
                }
                N::Not(p) => {
                    let k = self.konst(!y, w);
                    return self.eq(p, k);
                }
                N::Ite(c, p, q) => {
                    let pc = self.cv(p);
                    let qc = self.cv(q);
                    if pc.is_some() || qc.is_some() {
                        let e1 = self.eq(p, b);
                        let e2 = self.eq(q, b);
                        return self.ite(c, e1, e2);
                    }
                }
                _ => {}
            }
        }
        if let (N::ZExt(p), N::ZExt(q)) = (self.n(a), self.n(b)) {
            if self.w(p) == self.w(q) {
                return self.eq(p, q);
            }
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        match self.diff(a, b) {
            Some((0, 0)) => return self.tru,
            Some((lo, hi)) if lo > 0 || hi < 0 => return self.fls,
            _ => {}
        }
        self.mk(N::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.fls;
        }
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return if x < y { self.tru } else { self.fls };
        }
        if cb == Some(0) || ca == Some(mask(w)) {
            return self.fls;
        }
        if cb == Some(1) {
            let z = self.konst(0, w);
            return self.eq(a, z);
        }
        if ca == Some(0) {
            let z = self.konst(0, w);
            let e = self.eq(b, z);
            return self.not(e);
        }
        if let Some(y) = cb {
            if let N::ZExt(p) = self.n(a) {
                let pw = self.w(p);
                if y > mask(pw) {
                    return self.tru;
                }
                let k = self.konst(y, pw);
                return self.ult(p, k);
            }
            if let Some((c, p, q)) = self.is_ite_const(a) {
                let e1 = if p < y { self.tru } else { self.fls };
                let e2 = if q < y { self.tru } else { self.fls };
                return self.ite(c, e1, e2);
            }
        }
        if let Some(x) = ca {
            if let N::ZExt(p) = self.n(b) {
                let pw = self.w(p);
                if x >= mask(pw) {
                    return self.fls;
                }
                let k = self.konst(x, pw);
                return self.ult(k, p);
            }
            if let Some((c, p, q)) = self.is_ite_const(b) {
                let e1 = if x < p { self.tru } else { self.fls };
                let e2 = if x < q { self.tru } else { self.fls };
                return self.ite(c, e1, e2);
            }
        }
        if let (N::ZExt(p), N::ZExt(q)) = (self.n(a), self.n(b)) {
            if self.w(p) == self.w(q) {
                return self.ult(p, q);
            }
        }
        self.mk(N::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.tru;
        }
        if let Some(y) = self.cv(b) {
            if y == mask(w) {
                return self.tru;
            }
            let k = self.konst(y + 1, w);
            return self.ult(a, k);
        }
        if let Some(x) = self.cv(a) {
            if x == 0 {
                return self.tru;
            }
            let k = self.konst(x - 1, w);
            return self.ult(k, b);
        }
        if let (N::ZExt(p), N::ZExt(q)) = (self.n(a), self.n(b)) {
            if self.w(p) == self.w(q) {
                return self.ule(p, q);
            }
        }
        self.mk(N::Ule(a, b), 1)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.fls;
        }
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return if sext128(x, w) < sext128(y, w) { self.tru } else { self.fls };
        }
        // zext operands are non-negative
        if let N::ZExt(p) = self.n(a) {
            if self.w(p) < w {
                if let Some(y) = cb {
                    if sext128(y, w) < 0 {
                        return self.fls;
                    }
                    return self.ult(a, b);
                }
                if let N::ZExt(q) = self.n(b) {
                    if self.w(q) < w {
                        return self.ult(a, b);
                    }
                }
            }
        }
        if let (N::ZExt(p), Some(x)) = (self.n(b), ca) {
            if self.w(p) < w {
                if sext128(x, w) < 0 {
                    return self.tru;
                }
                return self.ult(a, b);
            }
        }
        if let (N::SExt(p), N::SExt(q)) = (self.n(a), self.n(b)) {
            if self.w(p) == self.w(q) {
                return self.slt(p, q);
            }
        }
        if let (N::SExt(p), Some(y)) = (self.n(a), cb) {
            let pw = self.w(p);
            let ys = sext128(y, w);
            let lim = 1i128 << (pw - 1);
            if ys >= lim {
                return self.tru;
            }
            if ys <= -lim {
                return self.fls;
            }
            let k = self.konst(y, pw);
            return self.slt(p, k);
        }
        if let (Some(x), N::SExt(q)) = (ca, self.n(b)) {
            let pw = self.w(q);
            let xs = sext128(x, w);
            let lim = 1i128 << (pw - 1);
            if xs >= lim - 1 {
                return self.fls;
            }
            if xs < -lim {
                return self.tru;
            }
            let k = self.konst(x, pw);
            return self.slt(k, q);
        }
        if let (Some((c, p, q)), Some(y)) = (self.is_ite_const(a), cb) {
            let e1 = if sext128(p, w) < sext128(y, w) { self.tru } else { self.fls };
            let e2 = if sext128(q, w) < sext128(y, w) { self.tru } else { self.fls };
            return self.ite(c, e1, e2);
        }
        match self.diff(a, b) {
            Some((_, hi)) if hi < 0 => return self.tru,
            Some((lo, _)) if lo >= 0 => return self.fls,
            _ => {}
        }
        self.mk(N::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.tru;
        }
        if let Some(y) = self.cv(b) {
            if y == mask(w) >> 1 {
                return self.tru;
            }
            let k = self.konst(y.wrapping_add(1), w);
            return self.slt(a, k);
        }
        if let Some(x) = self.cv(a) {
            if x == (mask(w) >> 1) + 1 {
                return self.tru;
            }
            let k = self.konst(x.wrapping_sub(1), w);
            return self.slt(k, b);
        }
        match self.diff(a, b) {
            Some((_, hi)) if hi <= 0 => return self.tru,
            Some((lo, _)) if lo > 0 => return self.fls,
            _ => {}
        }
        self.mk(N::Sle(a, b), 1)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.cv(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let N::Not(x) = self.n(c) {
            return self.ite(x, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        if let N::Ite(c2, x, y) = self.n(b) {
            if x == a {
                let cc = self.or(c, c2);
                return self.ite(cc, a, y);
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(v) => self.konst(v, w),
            N::ZExt(p) => self.zext(p, w),
            _ => {
                if let Some((c, p, q)) = self.is_ite_const(a) {
                    let k1 = self.konst(p, w);
                    let k2 = self.konst(q, w);
                    return self.ite(c, k1, k2);
                }
                self.mk(N::ZExt(a), w)
            }
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(v) => self.konst(sext128(v, aw) as u128, w),
            N::SExt(p) => self.sext(p, w),
            N::ZExt(p) => self.zext(p, w),
            _ => {
                if aw == 1 {
                    let k1 = self.konst(!0, w);
                    let k0 = self.konst(0, w);
                    return self.ite(a, k1, k0);
                }
                if let Some((c, p, q)) = self.is_ite_const(a) {
                    let k1 = self.konst(sext128(p, aw) as u128, w);
                    let k2 = self.konst(sext128(q, aw) as u128, w);
                    return self.ite(c, k1, k2);
                }
                self.mk(N::SExt(a), w)
            }
        }
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        match self.n(a) {
            N::Const(v) => self.konst(v >> lo, w),
            N::Extract(p, l) => self.extract(p, l + lo, w),
            N::ZExt(p) => {
                let pw = self.w(p);
                if lo >= pw {
                    return self.konst(0, w);
                }
                if lo + w <= pw {
                    return self.extract(p, lo, w);
                }
                let x = self.extract(p, lo, pw - lo);
                self.zext(x, w)
            }
            N::SExt(p) => {
                let pw = self.w(p);
                if lo + w <= pw {
                    return self.extract(p, lo, w);
                }
                if lo == 0 && w > pw {
                    return self.sext(p, w);
                }
                self.mk(N::Extract(a, lo), w)
            }
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo + w <= lw {
                    return self.extract(l, lo, w);
                }
                if lo >= lw {
                    return self.extract(h, lo - lw, w);
                }
                let xl = self.extract(l, lo, lw - lo);
                let xh = self.extract(h, 0, w - (lw - lo));
                self.concat(xh, xl)
            }
            N::Ite(c, p, q) if self.cv(p).is_some() || self.cv(q).is_some() => {
                let e1 = self.extract(p, lo, w);
                let e2 = self.extract(q, lo, w);
                self.ite(c, e1, e2)
            }
            N::And(p, q) if self.cv(q).is_some() => {
                let e1 = self.extract(p, lo, w);
                let e2 = self.extract(q, lo, w);
                self.and(e1, e2)
            }
            N::Or(p, q) => {
                let e1 = self.extract(p, lo, w);
                let e2 = self.extract(q, lo, w);
                self.or(e1, e2)
            }
            N::Xor(p, q) => {
                let e1 = self.extract(p, lo, w);
                let e2 = self.extract(q, lo, w);
                self.xor(e1, e2)
            }
            N::Add(p, q) if lo == 0 => {
                let e1 = self.extract(p, 0, w);
                let e2 = self.extract(q, 0, w);
                self.add(e1, e2)
            }
            N::Sub(p, q) if lo == 0 => {
                let e1 = self.extract(p, 0, w);
                let e2 = self.extract(q, 0, w);
                self.sub(e1, e2)
            }
            N::Mul(p, q) if lo == 0 => {
                let e1 = self.extract(p, 0, w);
                let e2 = self.extract(q, 0, w);
                self.mul(e1, e2)
            }
            N::Shl(p, k) => {
                if let Some(k) = self.cv(k) {
                    let k = k as u16;
                    if lo >= k {
                        return self.extract(p, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(0, w);
                    }
                    if lo == 0 {
                        let x = self.extract(p, 0, w);
                        let kk = self.konst(k as u128, w);
                        return self.shl(x, kk);
                    }
                }
                self.mk(N::Extract(a, lo), w)
            }
            _ => self.mk(N::Extract(a, lo), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let hw = self.w(h);
        let lw = self.w(l);
        let w = hw + lw;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.konst((x << lw) | y, w);
        }
        if let (N::Extract(p, a), N::Extract(q, b)) = (self.n(h), self.n(l)) {
            if p == q && a == b + lw {
                return self.extract(p, b, w);
            }
        }
        if let N::Extract(p, a) = self.n(h) {
            if p == l && a == lw {
                return self.extract(p, 0, w);
            }
            // the low part may have been rewritten when it was cut off
            if a >= lw && self.extract(p, a - lw, lw) == l {
                return self.extract(p, a - lw, w);
            }
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        self.mk(N::Concat(h, l), w)
    }
    // ---- floating point -------------------------------------------------
    pub fn fbin(&mut self, op: u8, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = fbin_c(op, x, y, w);
            return self.konst(r, w);
        }
        let (a, b) = if op == b'+' || op == b'*' {
            if a <= b {
                (a, b)
            } else {
                (b, a)
            }
        } else {
            (a, b)
        };
        let n = match op {
            b'+' => N::FAdd(a, b),
            b'-' => N::FSub(a, b),
            b'*' => N::FMul(a, b),
            b'/' => N::FDiv(a, b),
            _ => N::FRem(a, b),
        };
        self.mk(n, w)
    }
    /// certainly +0 or -0
    fn fzero(&self, e: E) -> bool {
        match self.n(e) {
            N::Const(v) => v & (mask(self.w(e)) >> 1) == 0,
            N::FMul(a, b) => (self.fzero(a) && self.ffinite(b)) || (self.fzero(b) && self.ffinite(a)),
            N::Ite(_, a, b) => self.fzero(a) && self.fzero(b),
            N::FAdd(a, b) | N::FSub(a, b) => self.fzero(a) && self.fzero(b),
            N::FDiv(a, b) => self.fzero(a) && self.cv(b).is_some() && !self.fzero(b) && self.ffinite(b),
            _ => false,
        }
    }
    fn ffinite(&self, e: E) -> bool {
        match self.n(e) {
            N::Const(v) => {
                if self.w(e) == 64 {
                    f64v(v).is_finite()
                } else {
                    self.w(e) == 32 && f32v(v).is_finite()
                }
            }
            N::SToF(a) | N::UToF(a) => self.w(a) <= 64,
            N::Ite(_, a, b) => self.ffinite(a) && self.ffinite(b),
            _ => self.fzero(e),
        }
    }
    /// value-preserving for comparisons: a zero of unknown sign compares like +0
    fn fcmp_arg(&mut self, e: E) -> E {
        if self.cv(e).is_none() && self.fzero(e) {
            let w = self.w(e);
            return self.konst(0, w);
        }
        e
    }
    pub fn foeq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = (self.fcmp_arg(a), self.fcmp_arg(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(fcmp_c(0, x, y, w) as u128, 1);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(N::FOeq(a, b), 1)
    }
    pub fn folt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = (self.fcmp_arg(a), self.fcmp_arg(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(fcmp_c(1, x, y, w) as u128, 1);
        }
        self.mk(N::FOlt(a, b), 1)
    }
    pub fn fole(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = (self.fcmp_arg(a), self.fcmp_arg(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(fcmp_c(2, x, y, w) as u128, 1);
        }
        self.mk(N::FOle(a, b), 1)
    }
    pub fn fisnan(&mut self, a: E) -> E {
        let w = self.w(a);
        let a = self.fcmp_arg(a);
        if let Some(x) = self.cv(a) {
            return self.konst(isnan_c(x, w) as u128, 1);
        }
        if let N::SToF(_) | N::UToF(_) = self.n(a) {
            return self.fls;
        }
        self.mk(N::FIsNan(a), 1)
    }
    pub fn fcast(&mut self, a: E, w: u16) -> E {
        if self.w(a) == w {
            return a;
        }
        if let Some(x) = self.cv(a) {
            let r = if w == 64 { (f32v(x) as f64).to_bits() as u128 } else { (f64v(x) as f32).to_bits() as u128 };
            return self.konst(r, w);
        }
        self.mk(N::FCast(a), w)
    }
    pub fn fto(&mut self, a: E, w: u16, signed: bool) -> E {
        let aw = self.w(a);
        if let Some(x) = self.cv(a) {
            return self.konst(fto_c(x, aw, w, signed), w);
        }
        self.mk(if signed { N::FToS(a) } else { N::FToU(a) }, w)
    }
    pub fn tof(&mut self, a: E, w: u16, signed: bool) -> E {
        let aw = self.w(a);
        if let Some(x) = self.cv(a) {
            return self.konst(tof_c(x, aw, w, signed), w);
        }
        if let N::ZExt(p) = self.n(a) {
            return self.tof(p, w, false);
        }
        if let (N::SExt(p), true) = (self.n(a), signed) {
            return self.tof(p, w, true);
        }
        self.mk(if signed { N::SToF(a) } else { N::UToF(a) }, w)
    }
    pub fn fround(&mut self, a: E, m: u8) -> E {
        let w = self.w(a);
        if let Some(x) = self.cv(a) {
            return self.konst(fround_c(x, w, m), w);
        }
        self.mk(N::FRound(a, m), w)
    }
    pub fn fsqrt(&mut self, a: E) -> E {
        let w = self.w(a);
        if let Some(x) = self.cv(a) {
            let r = if w == 64 { f64v(x).sqrt().to_bits() as u128 } else { f32v(x).sqrt().to_bits() as u128 };
            return self.konst(r, w);
        }
        self.mk(N::FSqrt(a), w)
    }
    pub fn ffma(&mut self, a: E, b: E, c: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y), Some(z)) = (self.cv(a), self.cv(b), self.cv(c)) {
            let r = if w == 64 {
                f64v(x).mul_add(f64v(y), f64v(z)).to_bits() as u128
            } else {
                f32v(x).mul_add(f32v(y), f32v(z)).to_bits() as u128
            };
            return self.konst(r, w);
        }
        self.mk(N::FFma(a, b, c), w)
    }
    pub fn children(&self, e: E, f: &mut Vec<E>) {
        use N::*;
        match self.n(e) {
            Const(_) | Var(_) => {}
            Add(a, b) | Sub(a, b) | Mul(a, b) | UDiv(a, b) | SDiv(a, b) | URem(a, b) | SRem(a, b) | Shl(a, b)
            | LShr(a, b) | AShr(a, b) | And(a, b) | Or(a, b) | Xor(a, b) | Eq(a, b) | Ult(a, b) | Ule(a, b)
            | Slt(a, b) | Sle(a, b) | Concat(a, b) | FAdd(a, b) | FSub(a, b) | FMul(a, b) | FDiv(a, b)
            | FRem(a, b) | FOeq(a, b) | FOlt(a, b) | FOle(a, b) => {
                f.push(a);
                f.push(b)
            }
            Not(a) | ZExt(a) | SExt(a) | Extract(a, _) | FIsNan(a) | FCast(a) | FToS(a) | FToU(a) | SToF(a)
            | UToF(a) | FRound(a, _) | FSqrt(a) => f.push(a),
            Ite(a, b, c) | FFma(a, b, c) => {
                f.push(a);
                f.push(b);
                f.push(c)
            }
        }
    }
    /// Evaluate under a model (missing variables are 0).
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, u128, BuildH>) -> u128 {
        if let N::Const(v) = self.n(e) {
            return v;
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        // recursion depth is bounded by expression depth; run on a big stack
        let r = if let N::Var(i) = self.n(e) {
            *m.get(&i).unwrap_or(&0) & mask(self.w(e))
        } else {
            self.eval1(e, |x| self.eval(x, m, memo))
        };
        memo.insert(e, r);
        r
    }
    /// Values of an expression over one byte-sized (or narrower) variable,
    /// for each value of the variable; shared subexpressions are kept in `tabs`.
    pub fn table(&self, e: E, tabs: &mut HashMap<E, std::rc::Rc<Vec<u128>>, BuildH>) -> std::rc::Rc<Vec<u128>> {
        if let Some(t) = tabs.get(&e) {
            return t.clone();
        }
        let mut kids = vec![];
        self.children(e, &mut kids);
        let kt: Vec<_> = kids
            .iter()
            .map(|&k| match self.n(k) {
                N::Const(_) => None,
                _ => Some(self.table(k, tabs)),
            })
            .collect();
        let m = mask(self.w(e));
        let t: Vec<u128> = (0..256usize)
            .map(|v| match self.n(e) {
                N::Var(_) => v as u128 & m,
                N::Const(c) => c,
                _ => self.eval1(e, |x| match self.n(x) {
                    N::Const(c) => c,
                    _ => kt[kids.iter().position(|&k| k == x).unwrap()].as_ref().unwrap()[v],
                }),
            })
            .collect();
        let t = std::rc::Rc::new(t);
        tabs.insert(e, t.clone());
        t
    }
    /// One operation, with the values of its operands given.
    fn eval1(&self, e: E, mut ev: impl FnMut(E) -> u128) -> u128 {
        let w = self.w(e);
        use N::*;
        let r = match self.n(e) {
            Const(v) => v,
            Var(_) => unreachable!(),
            Add(a, b) => ev(a).wrapping_add(ev(b)),
            Sub(a, b) => ev(a).wrapping_sub(ev(b)),
            Mul(a, b) => ev(a).wrapping_mul(ev(b)),
            UDiv(a, b) => {
                let y = ev(b);
                if y == 0 {
                    !0
                } else {
                    ev(a) / y
                }
            }
            URem(a, b) => {
                let y = ev(b);
                let x = ev(a);
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            SDiv(a, b) => {
                let x = sext128(ev(a), w);
                let y = sext128(ev(b), w);
                if y == 0 {
                    if x >= 0 {
                        !0
                    } else {
                        1
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            SRem(a, b) => {
                let x = sext128(ev(a), w);
                let y = sext128(ev(b), w);
                if y == 0 {
                    x as u128
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Shl(a, b) => {
                let y = ev(b);
                if y >= w as u128 {
                    0
                } else {
                    ev(a) << y
                }
            }
            LShr(a, b) => {
                let y = ev(b);
                if y >= w as u128 {
                    0
                } else {
                    ev(a) >> y
                }
            }
            AShr(a, b) => {
                let y = ev(b);
                let x = sext128(ev(a), w);
                (if y >= w as u128 { x >> 127 } else { x >> y }) as u128
            }
            And(a, b) => ev(a) & ev(b),
            Or(a, b) => ev(a) | ev(b),
            Xor(a, b) => ev(a) ^ ev(b),
            Not(a) => !ev(a),
            Eq(a, b) => (ev(a) == ev(b)) as u128,
            Ult(a, b) => (ev(a) < ev(b)) as u128,
            Ule(a, b) => (ev(a) <= ev(b)) as u128,
            Slt(a, b) => {
                let ww = self.w(a);
                (sext128(ev(a), ww) < sext128(ev(b), ww)) as u128
            }
            Sle(a, b) => {
                let ww = self.w(a);
                (sext128(ev(a), ww) <= sext128(ev(b), ww)) as u128
            }
            Ite(c, a, b) => {
                if ev(c) == 1 {
                    ev(a)
                } else {
                    ev(b)
                }
            }
            ZExt(a) => ev(a),
            SExt(a) => sext128(ev(a), self.w(a)) as u128,
            Extract(a, lo) => ev(a) >> lo,
            Concat(h, l) => (ev(h) << self.w(l)) | ev(l),
            FAdd(a, b) => fbin_c(b'+', ev(a), ev(b), w),
            FSub(a, b) => fbin_c(b'-', ev(a), ev(b), w),
            FMul(a, b) => fbin_c(b'*', ev(a), ev(b), w),
            FDiv(a, b) => fbin_c(b'/', ev(a), ev(b), w),
            FRem(a, b) => fbin_c(b'%', ev(a), ev(b), w),
            FOeq(a, b) => fcmp_c(0, ev(a), ev(b), self.w(a)) as u128,
            FOlt(a, b) => fcmp_c(1, ev(a), ev(b), self.w(a)) as u128,
            FOle(a, b) => fcmp_c(2, ev(a), ev(b), self.w(a)) as u128,
            FIsNan(a) => isnan_c(ev(a), self.w(a)) as u128,
            FCast(a) => {
                let x = ev(a);
                if w == 64 {
                    (f32v(x) as f64).to_bits() as u128
                } else {
                    (f64v(x) as f32).to_bits() as u128
                }
            }
            FToS(a) => fto_c(ev(a), self.w(a), w, true),
            FToU(a) => fto_c(ev(a), self.w(a), w, false),
            SToF(a) => tof_c(ev(a), self.w(a), w, true),
            UToF(a) => tof_c(ev(a), self.w(a), w, false),
            FRound(a, m) => fround_c(ev(a), w, m),
            FSqrt(a) => {
                let x = ev(a);
                if w == 64 {
                    f64v(x).sqrt().to_bits() as u128
                } else {
                    f32v(x).sqrt().to_bits() as u128
                }
            }
            FFma(a, b, c) => {
                let (x, y, z) = (ev(a), ev(b), ev(c));
                if w == 64 {
                    f64v(x).mul_add(f64v(y), f64v(z)).to_bits() as u128
                } else {
                    f32v(x).mul_add(f32v(y), f32v(z)).to_bits() as u128
                }
            }
        };
        r & mask(w)
    }
}

pub fn fbin_c(op: u8, x: u128, y: u128, w: u16) -> u128 {
    if w == 64 {
        let (a, b) = (f64v(x), f64v(y));
        (match op {
            b'+' => a + b,
            b'-' => a - b,
            b'*' => a * b,
            b'/' => a / b,
            _ => a % b,
        })
        .to_bits() as u128
    } else {
        let (a, b) = (f32v(x), f32v(y));
        (match op {
            b'+' => a + b,
            b'-' => a - b,
            b'*' => a * b,
            b'/' => a / b,
            _ => a % b,
        })
        .to_bits() as u128
    }
}
pub fn fcmp_c(k: u8, x: u128, y: u128, w: u16) -> bool {
    let (a, b) = if w == 64 { (f64v(x), f64v(y)) } else { (f32v(x) as f64, f32v(y) as f64) };
    match k {
        0 => a == b,
        1 => a < b,
        _ => a <= b,
    }
}
pub fn isnan_c(x: u128, w: u16) -> bool {
    if w == 64 {
        f64v(x).is_nan()
    } else {
        f32v(x).is_nan()
    }
}
pub fn fto_c(x: u128, aw: u16, w: u16, signed: bool) -> u128 {
    let v = if aw == 64 { f64v(x) } else { f32v(x) as f64 };
    // saturating, like llvm.fpto?i.sat and (for in-range values) fpto?i
    if signed {
        let lo = -(2f64.powi(w as i32 - 1));
        let hi = 2f64.powi(w as i32 - 1);
        let m = mask(w) >> 1;
        if v.is_nan() {
            0
        } else if v >= hi {
            m
        } else if v <= lo {
            m + 1
        } else {
            (v as i128) as u128 & mask(w)
        }
    } else {
        let hi = 2f64.powi(w as i32);
        if v.is_nan() || v <= 0.0 {
            0
        } else if v >= hi {
            mask(w)
        } else {
            v as u128
        }
    }
}
pub fn tof_c(x: u128, aw: u16, w: u16, signed: bool) -> u128 {
    if signed {
        let s = sext128(x, aw);
        if w == 64 {
            (s as f64).to_bits() as u128
        } else {
            (s as f32).to_bits() as u128
        }
    } else if w == 64 {
        (x as f64).to_bits() as u128
    } else {
        (x as f32).to_bits() as u128
    }
}
pub fn fround_c(x: u128, w: u16, m: u8) -> u128 {
    if w == 64 {
        let v = f64v(x);
        (match m {
            0 => v.round_ties_even(),
            1 => v.floor(),
            2 => v.ceil(),
            3 => v.trunc(),
            _ => v.round(),
        })
        .to_bits() as u128
    } else {
        let v = f32v(x);
        (match m {
            0 => v.round_ties_even(),
            1 => v.floor(),
            2 => v.ceil(),
            3 => v.trunc(),
            _ => v.round(),
        })
        .to_bits() as u128
    }
}
