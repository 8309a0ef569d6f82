//! Symbolic executor.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fid: u32,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub stack_base: usize,
    pub ret_dst: Option<u32>,
    pub ret_blk: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub inputs: Rc<Vec<(String, E)>>,
    pub allow_panic: bool,
    pub steps: u64,
    pub known: Rc<HashMap<E, u128, BuildH>>, // expressions the path condition fixes to a value
}

pub enum Stop {
    Done,
    Kill,           // assumption failed
    Panic(String),
    Err(String),
    Yield,          // state was re-queued
}
type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct CheckStat {
    pub reached: u64,
    pub solver: u64,
    pub trivial: u64,
}

pub struct Violation {
    pub label: String,
    pub kind: String,
    pub detail: String,
    pub inputs: Vec<(String, u16, u128)>,
}

pub struct Exec {
    /// initial contents of the globals
    pub gcache: HashMap<usize, Rc<Obj>>,
    pub c: Ctx,
    pub m: Module,
    pub solver: Solver,
    pub funcs: HashMap<u32, Rc<Func>>,
    pub work: Vec<State>,
    pub checks: BTreeMap<String, CheckStat>,
    pub violations: Vec<Violation>,
    pub vcount: BTreeMap<String, u64>,
    pub witnesses: BTreeMap<String, Vec<(String, u16, u128)>>,
    pub errors: BTreeMap<String, u64>,
    pub seen_fns: BTreeSet<String>,
    pub paths: u64,
    pub killed: u64,
    pub panics_ok: u64,
    pub steps: u64,
    pub forks: u64,
    pub max_steps_path: u64,
    pub deadline: Instant,
    pub max_paths: u64,
    pub params: Vec<u64>,
    pub prof: HashMap<u32, u64>,
    /// library functions replaced by a stand-in the harness defines
    redirect: HashMap<u32, u32>,
    pub forkprof: HashMap<(u32, u32), u64>,
    pub trace: bool,
    pub vlimit: u64,
    qcache: HashMap<Vec<E>, Option<Rc<Model>>, BuildH>,
    pub cache_hits: u64,
    pub byte_queries: u64,
    ttab: HashMap<E, [u64; 4], BuildH>,
    tabs: HashMap<E, Rc<Vec<u128>>, BuildH>,
    memo: (usize, HashMap<E, u128, BuildH>),
    pub panics_seen: BTreeMap<String, u64>,
}

fn vconst(v: &Val) -> Option<u128> {
    match v {
        Val::I(x, _) => Some(*x),
        _ => None,
    }
}

impl Exec {
    pub fn new(m: Module) -> Exec {
        Exec {
            gcache: HashMap::new(),
            c: Ctx::new(),
            m,
            solver: Solver::new(),
            funcs: HashMap::new(),
            work: vec![],
            checks: BTreeMap::new(),
            violations: vec![],
            vcount: BTreeMap::new(),
            witnesses: BTreeMap::new(),
            errors: BTreeMap::new(),
            seen_fns: BTreeSet::new(),
            paths: 0,
            killed: 0,
            panics_ok: 0,
            steps: 0,
            forks: 0,
            max_steps_path: 100_000_000,
            deadline: Instant::now(),
            max_paths: u64::MAX,
            params: vec![],
            prof: HashMap::new(),
            redirect: HashMap::new(),
            forkprof: HashMap::new(),
            trace: false,
            vlimit: 3,
            qcache: HashMap::default(),
            cache_hits: 0,
            byte_queries: 0,
            ttab: HashMap::default(),
            tabs: HashMap::default(),
            memo: (0, HashMap::default()),
            panics_seen: BTreeMap::new(),
        }
    }

    fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = self.funcs.get(&id) {
            return f.clone();
        }
        let f = Rc::new(P::func(&mut self.m, id));
        self.seen_fns.insert(f.name.clone());
        self.funcs.insert(id, f.clone());
        f
    }

    fn e(&mut self, v: &Val) -> E {
        match v {
            Val::I(x, w) => self.c.konst(*x, *w),
            Val::S(e) => *e,
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.c.cv(e) {
            Some(x) => Val::I(x, self.c.w(e)),
            None => Val::S(e),
        }
    }
    fn evalm(&mut self, st: &State, e: E) -> u128 {
        if let Some(t) = self.tabs.get(&e) {
            let v = self.c.varset(e).trailing_zeros();
            return t[*st.model.get(&v).unwrap_or(&0) as usize & 255];
        }
        let key = Rc::as_ptr(&st.model) as usize;
        if self.memo.0 != key || self.memo.1.len() > 2_000_000 {
            self.memo = (key, HashMap::default());
        }
        self.c.eval(e, &st.model, &mut self.memo.1)
    }
    fn set_model(&mut self, st: &mut State, m: Model) {
        st.model = Rc::new(m);
        self.memo = (0, HashMap::default());
    }

    /// Constraints of the path that share variables (transitively) with `x`.
    fn relevant(&mut self, pc: &[E], x: E) -> Vec<E> {
        let mut set = self.c.varset(x);
        let vs: Vec<u128> = pc.iter().map(|&e| self.c.varset(e)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && vs[i] & set != 0 {
                    used[i] = true;
                    ch = true;
                    set |= vs[i];
                }
            }
            if !ch {
                break;
            }
        }
        pc.iter().zip(&used).filter(|x| *x.1).map(|x| *x.0).collect()
    }

    /// Truth table of a condition over a single 8-bit (or narrower) variable.
    fn truth(&mut self, e: E) -> Option<[u64; 4]> {
        if let Some(t) = self.ttab.get(&e) {
            return Some(*t);
        }
        let v = self.c.varset(e).trailing_zeros();
        if v >= 127 {
            return None;
        }
        let w = self.c.vars[v as usize].1;
        if w > 8 {
            return None;
        }
        let mut t = [0u64; 4];
        if self.tabs.len() > 200_000 {
            self.tabs.clear();
        }
        let vals = self.c.table(e, &mut self.tabs);
        for k in 0..1usize << w {
            if vals[k] == 1 {
                t[k >> 6] |= 1 << (k & 63);
            }
        }
        self.ttab.insert(e, t);
        Some(t)
    }
    fn sat(&mut self, st: &State, extra: E) -> R<Option<Model>> {
        self.sat_f(st, extra, false)
    }
    fn sat_f(&mut self, st: &State, extra: E, force: bool) -> R<Option<Model>> {
        if self.c.cv(extra) == Some(0) {
            return Ok(None);
        }
        if self.c.cv(extra) == Some(1) {
            return Ok(Some((*st.model).clone()));
        }
        let pc = self.relevant(&st.pc, extra);
        // path conditions over one byte: decided by its 256-entry truth table
        let xs = self.c.varset(extra);
        if !force && xs.count_ones() == 1 && pc.iter().all(|&e| self.c.varset(e) == xs) {
            if let Some(mut t) = self.truth(extra) {
                let mut ok = true;
                for &e in &pc {
                    match self.truth(e) {
                        Some(u) => {
                            for k in 0..4 {
                                t[k] &= u[k];
                            }
                        }
                        None => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    self.byte_queries += 1;
                    for k in 0..256usize {
                        if t[k >> 6] >> (k & 63) & 1 == 1 {
                            let mut m = (*st.model).clone();
                            m.insert(xs.trailing_zeros(), k as u128);
                            return Ok(Some(m));
                        }
                    }
                    return Ok(None);
                }
            }
        }
        let mut key = pc.clone();
        key.sort();
        key.push(extra);
        let r = match self.qcache.get(&key) {
            Some(r) => {
                self.cache_hits += 1;
                r.clone()
            }
            None => match self.solver.check(&self.c, &pc, Some(extra)) {
                Res::Sat(m) => {
                    let r = Some(Rc::new(m));
                    self.qcache.insert(key, r.clone());
                    r
                }
                Res::Unsat => {
                    self.qcache.insert(key, None);
                    None
                }
                Res::Unknown(s) => return Err(Stop::Err(format!("solver unknown: {}", s))),
            },
        };
        Ok(r.map(|m| {
            // variables outside the slice keep their values
            let mut out = (*st.model).clone();
            for (k, v) in m.iter() {
                out.insert(*k, *v);
            }
            out
        }))
    }

    fn add_pc(&mut self, st: &mut State, e: E) {
        if self.c.cv(e) == Some(1) {
            return;
        }
        // split conjunctions
        if let N::And(a, b) = self.c.n(e) {
            if self.c.w(e) == 1 {
                self.add_pc(st, a);
                self.add_pc(st, b);
                return;
            }
        }
        if let N::Eq(a, b) = self.c.n(e) {
            if let Some(k) = self.c.cv(b) {
                Rc::make_mut(&mut st.known).insert(a, k);
            }
        }
        if !st.pc.contains(&e) {
            st.pc.push(e);
        }
    }

    /// Decide a symbolic condition: returns the branch taken by `st`; a sibling
    /// state for the other branch is queued when feasible.  `st` must be at the
    /// start of the current instruction (it is re-executed in the sibling).
    fn decide(&mut self, st: &mut State, cond: E) -> R<bool> {
        if let Some(v) = self.c.cv(cond) {
            return Ok(v == 1);
        }
        let nc = self.c.not(cond);
        if st.pc.contains(&cond) {
            return Ok(true);
        }
        if st.pc.contains(&nc) {
            return Ok(false);
        }
        let b = self.evalm(st, cond) == 1;
        let (here, other) = if b { (cond, nc) } else { (nc, cond) };
        match self.sat(st, other)? {
            None => {
                // implied; not added (keeps the path condition small)
                Ok(b)
            }
            Some(m) => {
                let mut s2 = st.clone();
                self.add_pc(&mut s2, other);
                s2.model = Rc::new(m);
                self.forks += 1;
                if let Some(f) = st.frames.last() {
                    *self.forkprof.entry((f.fid, f.blk)).or_default() += 1;
                }
                self.work.push(s2);
                self.add_pc(st, here);
                Ok(b)
            }
        }
    }

    fn concretize(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v {
            Val::I(x, _) => Ok(*x),
            Val::S(e) => {
                // fix the value bit by bit (from the top): every fork halves the
                // set of values, and each query stays small
                let w = self.c.w(*e);
                let mut x = 0u128;
                for i in (0..w).rev() {
                    let b = self.c.extract(*e, i, 1);
                    let b = if self.decide(st, b)? { 1 } else { 0 };
                    x = x << 1 | b;
                }
                Rc::make_mut(&mut st.known).insert(*e, x);
                Ok(x)
            }
            Val::Agg(_) => Err(Stop::Err("concretize aggregate".into())),
        }
    }

    /// A constant for `v`, splitting the path on the values of the (at most four)
    /// inputs it depends on.
    fn split_inputs(&mut self, st: &mut State, v: &Val) -> R<Option<u128>> {
        let e = match v {
            Val::I(x, _) => return Ok(Some(*x)),
            Val::S(e) => *e,
            Val::Agg(_) => return Ok(None),
        };
        let mut seen: BTreeSet<E> = Default::default();
        let mut work = vec![e];
        let mut vars = vec![];
        let mut kids = vec![];
        while let Some(x) = work.pop() {
            if !seen.insert(x) {
                continue;
            }
            if let N::Var(_) = self.c.n(x) {
                vars.push(x);
                if vars.len() > 4 {
                    return Ok(None);
                }
            }
            kids.clear();
            self.c.children(x, &mut kids);
            work.extend(kids.iter().copied());
        }
        vars.sort();
        for x in vars {
            self.concretize(st, &Val::S(x))?;
        }
        Ok(Some(self.evalm(st, e)))
    }

    // ------------------------------------------------------------ memory
    fn ensure_global(&mut self, st: &mut State, i: usize) {
        if st.mem.globals.get(i).is_some() || i >= self.m.globals.len() {
            return;
        }
        if let Some(o) = self.gcache.get(&i) {
            let o = o.clone();
            st.mem.globals.set(i, Some(o));
            return;
        }
        let (ty, v, konst) = P::global(&mut self.m, i as u32);
        let mut o = Obj::new(ty.size() as usize);
        if let Some(v) = v {
            self.init(&mut o, 0, &ty, &v);
        }
        o.ro = konst;
        let o = Rc::new(o);
        self.gcache.insert(i, o.clone());
        st.mem.globals.set(i, Some(o));
    }
    fn init(&mut self, o: &mut Obj, off: usize, ty: &Ty, v: &Val) {
        match v {
            Val::Agg(vs) => {
                if let Ty::Struct(fs, packed) = ty {
                    let mut fo = 0u64;
                    for (f, x) in fs.iter().zip(vs.iter()) {
                        if !packed {
                            let a = f.align();
                            fo = (fo + a - 1) / a * a;
                        }
                        self.init(o, off + fo as usize, f, x);
                        fo += f.size();
                    }
                    return;
                }
                for (i, x) in vs.iter().enumerate() {
                    let (fo, ft) = ty.field_off(i as u64);
                    self.init(o, off + fo as usize, &ft, x);
                }
            }
            _ => store_bits(&mut self.c, o, off, ty.store_size() as usize, v),
        }
    }
    /// size of the object, or error
    fn obj_size(&mut self, st: &mut State, addr: u64) -> Option<usize> {
        let (l, _) = loc(addr);
        if let Loc::Global(i) = l {
            self.ensure_global(st, i);
        }
        st.mem.get(&l).map(|o| o.data.len())
    }
    fn oob(&self, st: &State, addr: u64, n: usize, what: &str) -> Stop {
        Stop::Err(format!("memory error: {} of {} bytes at {:#x} in {}", what, n, addr, self.whereami(st)))
    }
    pub fn whereami(&self, st: &State) -> String {
        st.frames.iter().rev().take(4).map(|f| f.f.name.clone()).collect::<Vec<_>>().join(" < ")
    }
    fn load_c(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for i in 0..fs.len() {
                    let (o, t) = ty.field_off(i as u64);
                    v.push(self.load_c(st, addr + o, &t)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Arr(n, t) => {
                let mut v = vec![];
                let sz = t.size();
                for i in 0..*n {
                    v.push(self.load_c(st, addr + i * sz, t)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Vec(n, t) => {
                let mut v = vec![];
                let b = t.bits();
                if b % 8 == 0 {
                    for i in 0..*n {
                        v.push(self.load_c(st, addr + i as u64 * (b as u64 / 8), t)?);
                    }
                } else {
                    return Err(Stop::Err("load of sub-byte vector".into()));
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => {
                let n = ty.store_size() as usize;
                let (l, off) = loc(addr);
                if let Loc::Global(i) = l {
                    self.ensure_global(st, i);
                }
                let Some(o) = st.mem.get(&l) else {
                    return Err(self.oob(st, addr, n, "load from dead/invalid object"));
                };
                if off + n > o.data.len() {
                    return Err(self.oob(st, addr, n, "out-of-bounds load"));
                }
                let r = load_bits(&mut self.c, o, off, n);
                let w = ty.bits();
                if w as usize != n * 8 {
                    return Ok(match r {
                        Val::I(x, _) => Val::I(x & mask(w), w),
                        Val::S(e) => {
                            let x = self.c.extract(e, 0, w);
                            self.v(x)
                        }
                        a => a,
                    });
                }
                Ok(r)
            }
        }
    }
    fn store_c(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match v {
            Val::Agg(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, t) = match ty {
                        Ty::Vec(_, t) => {
                            if t.bits() % 8 != 0 {
                                return Err(Stop::Err("store of sub-byte vector".into()));
                            }
                            (i as u64 * t.bits() as u64 / 8, (**t).clone())
                        }
                        _ => ty.field_off(i as u64),
                    };
                    self.store_c(st, addr + o, &t, x)?;
                }
                Ok(())
            }
            _ => {
                let n = ty.store_size() as usize;
                let (l, off) = loc(addr);
                if let Loc::Global(i) = l {
                    self.ensure_global(st, i);
                }
                let c = &mut self.c;
                let ok = match st.mem.get_mut(&l) {
                    Some(o) if off + n <= o.data.len() && !o.ro => {
                        store_bits(c, o, off, n, v);
                        true
                    }
                    _ => false,
                };
                if ok {
                    Ok(())
                } else {
                    Err(self.oob(st, addr, n, "bad store"))
                }
            }
        }
    }
    fn stride(&self, e: E, d: u32) -> u128 {
        if d > 30 {
            return 1;
        }
        match self.c.n(e) {
            N::Const(v) => v,
            N::Shl(a, k) => match self.c.cv(k) {
                Some(k) if k < 32 => self.stride(a, d + 1) << k,
                _ => 1,
            },
            N::Mul(_, k) => self.c.cv(k).unwrap_or(1),
            N::Add(a, b) => gcd(self.stride(a, d + 1), self.stride(b, d + 1)),
            N::Ite(_, a, b) => gcd(self.stride(a, d + 1), self.stride(b, d + 1)),
            N::ZExt(a) => {
                let s = self.stride(a, d + 1);
                if s == 0 {
                    0
                } else {
                    s & s.wrapping_neg()
                }
            }
            _ => 1,
        }
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> R<Val> {
        match p {
            Val::I(a, _) => self.load_c(st, *a as u64, ty),
            Val::S(e) => {
                let e = *e;
                let n = ty.store_size() as usize;
                if ty.bits() == 0 {
                    let a = self.concretize(st, p)?;
                    return self.load_c(st, a as u64, ty);
                }
                let a = self.evalm(st, e) as u64;
                let base = a >> 32 << 32;
                let Some(size) = self.obj_size(st, a) else {
                    let a = self.concretize(st, p)?;
                    return self.load_c(st, a as u64, ty);
                };
                if size < n {
                    let a = self.concretize(st, p)?;
                    return self.load_c(st, a as u64, ty);
                }
                let kb = self.c.konst(base as u128, 64);
                let off = self.c.sub(e, kb);
                let klim = self.c.konst((size - n) as u128, 64);
                let inb = self.c.ule(off, klim);
                if !self.decide(st, inb)? {
                    // the model address is in range by construction unless oob
                    let a = self.concretize(st, p)?;
                    return self.load_c(st, a as u64, ty);
                }
                let mut stride = self.stride(off, 0);
                if stride == 0 {
                    stride = 1;
                }
                let stride = if stride > u32::MAX as u128 { (stride & stride.wrapping_neg()) as u64 } else { stride as u64 };
                let aoff = a - base;
                let first = aoff % stride;
                let cnt = (size as u64 - n as u64 - first) / stride + 1;
                if cnt > 8192 {
                    let a = self.concretize(st, p)?;
                    return self.load_c(st, a as u64, ty);
                }
                let mut vals = vec![];
                for i in 0..cnt {
                    let o = first + i * stride;
                    let v = self.load_c(st, base + o, ty)?;
                    let v = self.e(&v);
                    vals.push((o, v));
                }
                let r = self.tree(off, &vals);
                Ok(self.v(r))
            }
            Val::Agg(_) => Err(Stop::Err("load via aggregate".into())),
        }
    }
    fn tree(&mut self, off: E, vals: &[(u64, E)]) -> E {
        // runs of equal values collapse
        if vals.iter().all(|v| v.1 == vals[0].1) {
            return vals[0].1;
        }
        let mid = vals.len() / 2;
        let l = self.tree(off, &vals[..mid]);
        let r = self.tree(off, &vals[mid..]);
        let k = self.c.konst(vals[mid].0 as u128, 64);
        let cnd = self.c.ult(off, k);
        self.c.ite(cnd, l, r)
    }
    fn bytes(&mut self, st: &mut State, addr: u64, n: usize) -> R<Vec<Val>> {
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            v.push(self.load_c(st, addr + i as u64, &Ty::Int(8))?);
        }
        Ok(v)
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (ls, os) = loc(s);
        if let Loc::Global(i) = ls {
            self.ensure_global(st, i);
        }
        let Some(o) = st.mem.get(&ls) else { return Err(self.oob(st, s, n, "memcpy from dead object")) };
        if os + n > o.data.len() {
            return Err(self.oob(st, s, n, "memcpy source out of bounds"));
        }
        let data = o.data[os..os + n].to_vec();
        let sym = if o.sym.is_empty() || o.sym[os..os + n].iter().all(|x| x.0 == 0) {
            vec![]
        } else {
            o.sym[os..os + n].to_vec()
        };
        let (ld, od) = loc(d);
        if let Loc::Global(i) = ld {
            self.ensure_global(st, i);
        }
        let ok = match st.mem.get_mut(&ld) {
            Some(o) if od + n <= o.data.len() && !o.ro => {
                o.data[od..od + n].copy_from_slice(&data);
                if !sym.is_empty() {
                    if o.sym.is_empty() {
                        o.sym = vec![(0, 0); o.data.len()];
                    }
                    o.sym[od..od + n].copy_from_slice(&sym);
                } else if !o.sym.is_empty() {
                    for s in &mut o.sym[od..od + n] {
                        *s = (0, 0);
                    }
                }
                true
            }
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(self.oob(st, d, n, "memcpy destination"))
        }
    }

    // ------------------------------------------------------------ operators
    fn bin(&mut self, o: BinOp, w: u16, a: &Val, b: &Val) -> Val {
        use BinOp::*;
        if let (Val::I(x, _), Val::I(y, _)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match o {
                Add => x.wrapping_add(y) & m,
                Sub => x.wrapping_sub(y) & m,
                Mul => x.wrapping_mul(y) & m,
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
                Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                AShr => {
                    let s = sext128(x, w);
                    (if y >= w as u128 { s >> 127 } else { s >> y }) as u128 & m
                }
                UDiv => {
                    if y == 0 {
                        0
                    } else {
                        x / y
                    }
                }
                URem => {
                    if y == 0 {
                        x
                    } else {
                        x % y
                    }
                }
                SDiv => {
                    if y == 0 {
                        0
                    } else {
                        sext128(x, w).wrapping_div(sext128(y, w)) as u128 & m
                    }
                }
                SRem => {
                    if y == 0 {
                        x
                    } else {
                        sext128(x, w).wrapping_rem(sext128(y, w)) as u128 & m
                    }
                }
                FAdd => fbin_c(b'+', x, y, w),
                FSub => fbin_c(b'-', x, y, w),
                FMul => fbin_c(b'*', x, y, w),
                FDiv => fbin_c(b'/', x, y, w),
                FRem => fbin_c(b'%', x, y, w),
            };
            return Val::I(r, w);
        }
        let x = self.e(a);
        let y = self.e(b);
        let c = &mut self.c;
        let r = match o {
            Add => c.add(x, y),
            Sub => c.sub(x, y),
            Mul => c.mul(x, y),
            UDiv => c.udiv(x, y),
            SDiv => c.sdiv(x, y),
            URem => c.urem(x, y),
            SRem => c.srem(x, y),
            Shl => c.shl(x, y),
            LShr => c.lshr(x, y),
            AShr => c.ashr(x, y),
            And => c.and(x, y),
            Or => c.or(x, y),
            Xor => c.xor(x, y),
            FAdd => c.fbin(b'+', x, y),
            FSub => c.fbin(b'-', x, y),
            FMul => c.fbin(b'*', x, y),
            FDiv => c.fbin(b'/', x, y),
            FRem => c.fbin(b'%', x, y),
        };
        self.v(r)
    }
    fn cmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::I(x, _), Val::I(y, _)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return Val::I(r as u128, 1);
        }
        let x = self.e(a);
        let y = self.e(b);
        let c = &mut self.c;
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let t = c.eq(x, y);
                c.not(t)
            }
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Slt => c.slt(x, y),
            Pred::Sle => c.sle(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sge => c.sle(y, x),
        };
        self.v(r)
    }
    fn fcmp(&mut self, p: &str, a: &Val, b: &Val) -> Val {
        let x = self.e(a);
        let y = self.e(b);
        let c = &mut self.c;
        let nx = c.fisnan(x);
        let ny = c.fisnan(y);
        let uno = c.or(nx, ny);
        let (un, k) = match p.as_bytes()[0] {
            b'u' if p != "uno" => (true, &p[1..]),
            b'o' if p != "ord" => (false, &p[1..]),
            _ => (false, p),
        };
        let r = match k {
            "eq" => c.foeq(x, y),
            "lt" => c.folt(x, y),
            "le" => c.fole(x, y),
            "gt" => c.folt(y, x),
            "ge" => c.fole(y, x),
            "ne" => {
                let l = c.foeq(x, y);
                let n = c.not(l);
                if un {
                    n
                } else {
                    let nu = c.not(uno);
                    c.and(n, nu)
                }
            }
            "uno" => uno,
            "ord" => c.not(uno),
            "true" => c.tru,
            _ => c.fls,
        };
        let r = if un && k != "ne" { self.c.or(r, uno) } else { r };
        self.v(r)
    }
    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, a: &Val) -> Val {
        if let (Ty::Vec(n, ft), Ty::Vec(n2, tt)) = (from, to) {
            if n == n2 {
                if let Val::Agg(vs) = a {
                    let r: Vec<Val> = vs.iter().map(|x| self.cast(k, ft, tt, x)).collect();
                    return Val::Agg(Rc::new(r));
                }
            }
        }
        if k == CastK::Bit && (from.is_vec() || to.is_vec()) {
            // reassemble bits
            let parts: Vec<Val> = match a {
                Val::Agg(v) => v.to_vec(),
                v => vec![v.clone()],
            };
            let mut acc: Option<E> = None;
            for p in &parts {
                let e = self.e(p);
                acc = Some(match acc {
                    None => e,
                    Some(x) => self.c.concat(e, x),
                });
            }
            let e = acc.unwrap();
            if let Ty::Vec(n, t) = to {
                let b = t.bits();
                let r: Vec<Val> = (0..*n)
                    .map(|i| {
                        let x = self.c.extract(e, i as u16 * b, b);
                        self.v(x)
                    })
                    .collect();
                return Val::Agg(Rc::new(r));
            }
            return self.v(e);
        }
        let fw = from.bits();
        let w = to.bits();
        match a {
            Val::I(x, _) => {
                let x = *x;
                let r = match k {
                    CastK::Trunc | CastK::Bit | CastK::ZExt => x & mask(w),
                    CastK::SExt => sext128(x, fw) as u128 & mask(w),
                    CastK::FpToSi => fto_c(x, fw, w, true),
                    CastK::FpToUi => fto_c(x, fw, w, false),
                    CastK::SiToFp => tof_c(x, fw, w, true),
                    CastK::UiToFp => tof_c(x, fw, w, false),
                    CastK::FpCast => {
                        if fw == w {
                            x
                        } else if w == 64 {
                            (f32::from_bits(x as u32) as f64).to_bits() as u128
                        } else {
                            (f64::from_bits(x as u64) as f32).to_bits() as u128
                        }
                    }
                };
                Val::I(r, w)
            }
            Val::S(e) => {
                let e = *e;
                let c = &mut self.c;
                let r = match k {
                    CastK::Trunc => c.extract(e, 0, w),
                    CastK::Bit => {
                        if w < fw {
                            c.extract(e, 0, w)
                        } else {
                            c.zext(e, w)
                        }
                    }
                    CastK::ZExt => c.zext(e, w),
                    CastK::SExt => c.sext(e, w),
                    CastK::FpToSi => c.fto(e, w, true),
                    CastK::FpToUi => c.fto(e, w, false),
                    CastK::SiToFp => c.tof(e, w, true),
                    CastK::UiToFp => c.tof(e, w, false),
                    CastK::FpCast => c.fcast(e, w),
                };
                self.v(r)
            }
            Val::Agg(_) => panic!("cast agg"),
        }
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            Val::I(1, _) => a.clone(),
            Val::I(_, _) => b.clone(),
            Val::S(ce) => match (a, b) {
                (Val::Agg(x), Val::Agg(y)) => {
                    let r: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| self.select(c, p, q)).collect();
                    Val::Agg(Rc::new(r))
                }
                _ => {
                    let x = self.e(a);
                    let y = self.e(b);
                    let r = self.c.ite(*ce, x, y);
                    self.v(r)
                }
            },
            Val::Agg(_) => panic!("select"),
        }
    }

    // ------------------------------------------------------------ driver
    pub fn run(&mut self, fid: u32) {
        let f = self.func(fid);
        let st = State {
            frames: vec![Rc::new(Frame {
                regs: vec![Val::I(0, 0); f.nregs as usize],
                f,
                fid,
                blk: 0,
                ip: 0,
                stack_base: 0,
                ret_dst: None,
                ret_blk: None,
            })],
            mem: Mem { heap: Table::default(), stack: Table::default(), globals: Table::default() },
            pc: vec![],
            model: Rc::new(Model::default()),
            inputs: Rc::new(vec![]),
            allow_panic: false,
            steps: 0,
            known: Rc::new(HashMap::default()),
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.deadline {
                *self.errors.entry(format!("time limit ({} states pending)", self.work.len() + 1)).or_default() += 1;
                break;
            }
            if self.paths >= self.max_paths {
                *self.errors.entry("path limit".into()).or_default() += 1;
                break;
            }
            let r = self.run_path(&mut st);
            self.paths += 1;
            match r {
                Stop::Done => {}
                Stop::Kill => self.killed += 1,
                Stop::Yield => self.paths -= 1,
                Stop::Panic(s) => {
                    *self.panics_seen.entry(s.clone()).or_default() += 1;
                    if st.allow_panic {
                        self.panics_ok += 1;
                    } else {
                        let m = st.model.clone();
                        self.violation(&st, "panic", "panic", s, &m);
                    }
                }
                Stop::Err(s) => {
                    if self.trace {
                        eprintln!("ERR {} :: {}", s, self.whereami(&st));
                    }
                    if s == "step limit" {
                        let m = st.model.clone();
                        self.violation(&st, "hang", "hang", s, &m);
                    } else if s.starts_with("memory error") {
                        let m = st.model.clone();
                        self.violation(&st, "memory", "memory-error", s, &m);
                    } else {
                        let ctx = self.whereami(&st);
                        *self.errors.entry(format!("{} @ {}", s, ctx)).or_default() += 1;
                    }
                }
            }
        }
    }

    pub fn violation(&mut self, st: &State, label: &str, kind: &str, detail: String, m: &Model) {
        let n = self.vcount.entry(label.to_string()).or_default();
        *n += 1;
        if *n > self.vlimit {
            return;
        }
        let inputs = self.inputs_of(st, m);
        self.violations.push(Violation { label: label.into(), kind: kind.into(), detail, inputs });
    }
    fn inputs_of(&mut self, st: &State, m: &Model) -> Vec<(String, u16, u128)> {
        let mut memo = HashMap::default();
        st.inputs.iter().map(|(n, e)| (n.clone(), self.c.w(*e), self.c.eval(*e, m, &mut memo))).collect()
    }

    fn run_path(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(s) => return s,
            }
            tick += 1;
            if tick & 0x3fff == 0 {
                if Instant::now() > self.deadline {
                    return Stop::Err("time limit".into());
                }
                if st.steps > self.max_steps_path {
                    return Stop::Err("step limit".into());
                }
            }
        }
    }

    fn op(f: &Frame, o: &Op) -> Val {
        match o {
            Op::Reg(r) => {
                let v = f.regs[*r as usize].clone();
                if let Val::I(_, 0) = v {
                    panic!("undefined register {} in {}", r, f.f.name);
                }
                v
            }
            Op::C(v) => v.clone(),
        }
    }

    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (_, _, inc) in &b.phis {
                let o = &inc.iter().find(|(p, _)| *p == from).expect("phi edge").1;
                vals.push(Self::op(fr, o));
            }
            for ((d, _, _), v) in b.phis.iter().zip(vals) {
                fr.regs[*d as usize] = v;
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.steps += 1;
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let inst = &f.blocks[fr.blk as usize].insts[fr.ip as usize];
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let mut v = $v;
                if let Val::S(e) = v {
                    if !st.known.is_empty() {
                        if let Some(k) = st.known.get(&e) {
                            v = Val::I(*k, self.c.w(e));
                        }
                    }
                }
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                fr.regs[*$d as usize] = v;
                fr.ip += 1;
                Ok(())
            }};
        }
        match inst {
            Inst::Nop => {
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                Ok(())
            }
            Inst::Bin(d, o, t, a, b) => {
                let a = Self::op(fr, a);
                let b = Self::op(fr, b);
                let r = match (&a, &b) {
                    (Val::Agg(x), Val::Agg(y)) => {
                        let w = if let Ty::Vec(_, t) = t { t.bits() } else { 0 };
                        let r: Vec<Val> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(*o, w, p, q)).collect();
                        Val::Agg(Rc::new(r))
                    }
                    (Val::Agg(_), _) | (_, Val::Agg(_)) => {
                        return Err(Stop::Err(format!("mixed vector operands {:?} {:?} {:?} {:?}", o, t, a, b)))
                    }
                    _ => self.bin(*o, t.bits(), &a, &b),
                };
                set!(d, r)
            }
            Inst::FNeg(d, t, a) => {
                let a = Self::op(fr, a);
                let w = t.bits();
                let s = Val::I(1u128 << (w - 1), w);
                let r = self.bin(BinOp::Xor, w, &a, &s);
                set!(d, r)
            }
            Inst::Cmp(d, p, t, a, b) => {
                let a = Self::op(fr, a);
                let b = Self::op(fr, b);
                let r = match (&a, &b) {
                    (Val::Agg(x), Val::Agg(y)) => {
                        let w = if let Ty::Vec(_, t) = t { t.bits() } else { 0 };
                        let r: Vec<Val> = x.iter().zip(y.iter()).map(|(q, z)| self.cmp(*p, w, q, z)).collect();
                        Val::Agg(Rc::new(r))
                    }
                    _ => self.cmp(*p, t.bits(), &a, &b),
                };
                set!(d, r)
            }
            Inst::FCmp(d, p, _, a, b) => {
                let a = Self::op(fr, a);
                let b = Self::op(fr, b);
                if matches!(a, Val::Agg(_)) {
                    return Err(Stop::Err("vector fcmp".into()));
                }
                let r = self.fcmp(p, &a, &b);
                set!(d, r)
            }
            Inst::Cast(d, k, t, t2, a) => {
                let a = Self::op(fr, a);
                let r = self.cast(*k, t, t2, &a);
                set!(d, r)
            }
            Inst::Select(d, c, isv, t, a, b) => {
                let c = Self::op(fr, c);
                let a = Self::op(fr, a);
                let b = Self::op(fr, b);
                if let (Ty::F32 | Ty::F64, Val::S(e)) = (t, &c) {
                    // a choice between floats splits the path: arithmetic on
                    // undecided floats is what the solver is slowest at
                    let r = if self.decide(st, *e)? { a } else { b };
                    return set!(d, r);
                }
                let r = if *isv {
                    if let (Val::Agg(cs), Val::Agg(x), Val::Agg(y)) = (&c, &a, &b) {
                        let r: Vec<Val> = (0..cs.len()).map(|i| self.select(&cs[i], &x[i], &y[i])).collect();
                        Val::Agg(Rc::new(r))
                    } else {
                        return Err(Stop::Err("vector select".into()));
                    }
                } else {
                    self.select(&c, &a, &b)
                };
                set!(d, r)
            }
            Inst::Freeze(d, a) => {
                let a = Self::op(fr, a);
                set!(d, a)
            }
            Inst::Alloca(d, sz, cnt) => {
                let n = match cnt {
                    None => 1,
                    Some(o) => match Self::op(fr, o) {
                        Val::I(x, _) => x as u64,
                        _ => return Err(Stop::Err("symbolic alloca".into())),
                    },
                };
                let a = st.mem.alloc_stack((sz * n) as usize);
                set!(d, Val::I(a as u128, 64))
            }
            Inst::Load(d, t, p) => {
                let p = Self::op(fr, p);
                let v = self.load(st, &p, t)?;
                set!(d, v)
            }
            Inst::Store(t, v, p) => {
                let p = Self::op(fr, p);
                let v = Self::op(fr, v);
                let a = self.concretize(st, &p)?;
                self.store_c(st, a as u64, t, &v)?;
                Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
                Ok(())
            }
            Inst::Gep(d, base, off, idx) => {
                let mut v = Self::op(fr, base);
                let idxv: Vec<(Val, u16, i64)> = idx.iter().map(|(o, w, s)| (Self::op(fr, o), *w, *s)).collect();
                if *off != 0 {
                    v = self.bin(BinOp::Add, 64, &v, &Val::I(*off as i128 as u128 & mask(64), 64));
                }
                for (i, w, s) in idxv {
                    let i64v = if w == 64 {
                        i
                    } else {
                        self.cast(CastK::SExt, &Ty::Int(w), &Ty::Int(64), &i)
                    };
                    let m = self.bin(BinOp::Mul, 64, &i64v, &Val::I(s as i128 as u128 & mask(64), 64));
                    v = self.bin(BinOp::Add, 64, &v, &m);
                }
                set!(d, v)
            }
            Inst::Extract(d, a, path) => {
                let mut v = Self::op(fr, a);
                for p in path {
                    v = match v {
                        Val::Agg(x) => x[*p as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                set!(d, v)
            }
            Inst::Insert(d, a, x, path) => {
                let mut v = Self::op(fr, a);
                let x = Self::op(fr, x);
                fn ins(v: &mut Val, p: &[u64], x: Val) {
                    if p.is_empty() {
                        *v = x;
                        return;
                    }
                    if let Val::Agg(r) = v {
                        ins(&mut Rc::make_mut(r)[p[0] as usize], &p[1..], x);
                    }
                }
                ins(&mut v, path, x);
                set!(d, v)
            }
            Inst::ExtElt(d, a, i) => {
                let a = Self::op(fr, a);
                let i = Self::op(fr, i);
                let i = self.concretize(st, &i)? as usize;
                match a {
                    Val::Agg(x) if i < x.len() => set!(d, x[i].clone()),
                    _ => Err(Stop::Err("extractelement".into())),
                }
            }
            Inst::InsElt(d, a, x, i) => {
                let a = Self::op(fr, a);
                let x = Self::op(fr, x);
                let i = Self::op(fr, i);
                let i = self.concretize(st, &i)? as usize;
                match a {
                    Val::Agg(mut v) if i < v.len() => {
                        Rc::make_mut(&mut v)[i] = x;
                        set!(d, Val::Agg(v))
                    }
                    _ => Err(Stop::Err("insertelement".into())),
                }
            }
            Inst::Shuffle(d, a, b, mk, n) => {
                let a = Self::op(fr, a);
                let b = Self::op(fr, b);
                if let (Val::Agg(x), Val::Agg(y)) = (&a, &b) {
                    let r: Vec<Val> = mk
                        .iter()
                        .map(|k| {
                            let k = k.unwrap_or(0) as usize;
                            if k < *n as usize {
                                x[k].clone()
                            } else {
                                y[k - *n as usize].clone()
                            }
                        })
                        .collect();
                    set!(d, Val::Agg(Rc::new(r)))
                } else {
                    Err(Stop::Err("shuffle".into()))
                }
            }
            Inst::Br(b) => {
                self.goto(st, *b);
                Ok(())
            }
            Inst::CondBr(c, a, b) => {
                let c = Self::op(fr, c);
                let t = match c {
                    Val::I(x, _) => x == 1,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return Err(Stop::Err("br".into())),
                };
                self.goto(st, if t { *a } else { *b });
                Ok(())
            }
            Inst::Switch(t, v, def, cases) => {
                let v = Self::op(fr, v);
                match v {
                    Val::I(x, _) => {
                        let to = cases.iter().find(|(k, _)| *k == x).map(|c| c.1).unwrap_or(*def);
                        self.goto(st, to);
                        Ok(())
                    }
                    Val::S(e) => {
                        let x = self.evalm(st, e);
                        let to = cases.iter().find(|(k, _)| *k == x).map(|c| c.1).unwrap_or(*def);
                        // condition for `to`
                        let w = t.bits();
                        let mut cond = self.c.fls;
                        if to != *def {
                            for (k, l) in cases {
                                if *l == to {
                                    let kk = self.c.konst(*k, w);
                                    let q = self.c.eq(e, kk);
                                    cond = self.c.or(cond, q);
                                }
                            }
                        } else {
                            cond = self.c.tru;
                            for (k, l) in cases {
                                if *l != to {
                                    let kk = self.c.konst(*k, w);
                                    let q = self.c.eq(e, kk);
                                    let nq = self.c.not(q);
                                    cond = self.c.and(cond, nq);
                                }
                            }
                        }
                        self.decide(st, cond)?;
                        self.goto(st, to);
                        Ok(())
                    }
                    _ => Err(Stop::Err("switch".into())),
                }
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| Self::op(fr, o));
                self.ret(st, v)
            }
            Inst::Unreachable => Err(Stop::Err(format!("unreachable reached in {}", self.whereami(st)))),
            Inst::AtomicRmw(d, o, t, p, v) => {
                let p = Self::op(fr, p);
                let v = Self::op(fr, v);
                let a = self.concretize(st, &p)? as u64;
                let old = self.load_c(st, a, t)?;
                let w = t.bits();
                let new = match o.as_str() {
                    "xchg" => v,
                    "add" => self.bin(BinOp::Add, w, &old, &v),
                    "sub" => self.bin(BinOp::Sub, w, &old, &v),
                    "and" => self.bin(BinOp::And, w, &old, &v),
                    "or" => self.bin(BinOp::Or, w, &old, &v),
                    "xor" => self.bin(BinOp::Xor, w, &old, &v),
                    _ => return Err(Stop::Err(format!("atomicrmw {}", o))),
                };
                self.store_c(st, a, t, &new)?;
                set!(d, old)
            }
            Inst::CmpXchg(d, t, p, c, n) => {
                let p = Self::op(fr, p);
                let cv = Self::op(fr, c);
                let nv = Self::op(fr, n);
                let a = self.concretize(st, &p)? as u64;
                let old = self.load_c(st, a, t)?;
                let eq = self.cmp(Pred::Eq, t.bits(), &old, &cv);
                let new = self.select(&eq, &nv, &old);
                self.store_c(st, a, t, &new)?;
                set!(d, Val::Agg(Rc::new(vec![old, eq])))
            }
            Inst::Call { dst, callee, args, rty, normal } => {
                let argv: Vec<Val> = args.iter().map(|(o, _, _)| Self::op(fr, o)).collect();
                let fid = match callee {
                    Callee::Name(id) => *id,
                    Callee::Dyn(o) => {
                        let p = Self::op(fr, o);
                        let a = self.concretize(st, &p)? as u64;
                        match loc(a) {
                            (Loc::Fn(i), 0) if (i as usize) < self.m.fns.len() => i,
                            _ => return Err(self.oob(st, a, 0, "indirect call")),
                        }
                    }
                };
                self.call(st, fid, argv, args, dst, rty, *normal)
            }
            Inst::Unsupported(s) => Err(Stop::Err(format!("unsupported: {}", s))),
        }
    }

    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.mem.stack.truncate(fr.stack_base);
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        self.finish_call(st, fr.ret_dst, fr.ret_blk, v);
        Ok(())
    }
    fn finish_call(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, v: Option<Val>) {
        let up = Rc::make_mut(st.frames.last_mut().unwrap());
        if let (Some(d), Some(v)) = (dst, v) {
            up.regs[d as usize] = v;
        }
        match normal {
            None => up.ip += 1,
            Some(b) => self.goto(st, b),
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        fid: u32,
        argv: Vec<Val>,
        args: &[(Op, Ty, Option<u64>)],
        dst: &Option<u32>,
        rty: &Ty,
        normal: Option<u32>,
    ) -> R<()> {
        let fid = *self.redirect.get(&fid).unwrap_or(&fid);
        let defined = self.m.fns[fid as usize].range.is_some();
        if defined {
            if !self.funcs.contains_key(&fid) {
                let name = &self.m.fns[fid as usize].name;
                if is_panic_fn(name) {
                    let n = name.clone();
                    let who = self.whereami(st);
                    return Err(Stop::Panic(format!("{} in {}", n, who)));
                }
                if name.contains("_6memchr4arch") && name.ends_with("_raw6detect") {
                    // the memchr crate's CPU dispatch: same result as its
                    // vectorised variants, byte by byte
                    let rev = name.contains("memrchr");
                    let count = name.ends_with("count_raw6detect");
                    let mut total = 0u128;
                    let k = argv.len() - 2;
                    let lo = self.concretize(st, &argv[k])? as u64;
                    let hi = self.concretize(st, &argv[k + 1])? as u64;
                    let n = hi.saturating_sub(lo) as usize;
                    let x = self.bytes(st, lo, n)?;
                    let mut at = None;
                    for j in 0..n {
                        let i = if rev { n - 1 - j } else { j };
                        let q = self.e(&x[i]);
                        let mut hit = self.c.fls;
                        for b in &argv[..k] {
                            let b = self.e(b);
                            let eq = self.c.eq(q, b);
                            hit = self.c.or(hit, eq);
                        }
                        if self.decide(st, hit)? {
                            total += 1;
                            at = Some(lo + i as u64);
                            if !count {
                                break;
                            }
                        }
                    }
                    let r = if count { Val::I(total, 64) } else { Val::Agg(Rc::new(vec![
                        Val::I(at.is_some() as u128, 64),
                        Val::I(at.unwrap_or(0) as u128, 64),
                    ])) };
                    self.finish_call(st, *dst, normal, Some(r));
                    return Ok(());
                }
            }
            let f = self.func(fid);
            if st.frames.len() > 2000 {
                return Err(Stop::Err("call depth".into()));
            }
            let base = st.mem.stack.len;
            let mut regs = vec![Val::I(0, 0); f.nregs as usize];
            for (i, p) in f.params.iter().enumerate() {
                let mut v = argv.get(i).cloned().unwrap_or(Val::I(0, 64));
                if let Some((_, _, Some(sz))) = args.get(i) {
                    let a = self.concretize(st, &v)? as u64;
                    let na = st.mem.alloc_stack(*sz as usize);
                    self.memcpy(st, na, a, *sz as usize)?;
                    v = Val::I(na as u128, 64);
                }
                regs[*p as usize] = v;
            }
            *self.prof.entry(fid).or_default() += 1;
            st.frames.push(Rc::new(Frame {
                f,
                fid,
                blk: 0,
                ip: 0,
                regs,
                stack_base: base,
                ret_dst: *dst,
                ret_blk: normal,
            }));
            return Ok(());
        }
        let name = self.m.fns[fid as usize].name.clone();
        let r = self.builtin(st, &name, argv, rty)?;
        self.finish_call(st, *dst, normal, r);
        Ok(())
    }

    fn mem_eq(&mut self, st: &mut State, a: u64, b: u64, n: usize) -> R<E> {
        let x = self.bytes(st, a, n)?;
        let y = self.bytes(st, b, n)?;
        // cheap concrete mismatch first
        for (p, q) in x.iter().zip(&y) {
            if let (Val::I(p, _), Val::I(q, _)) = (p, q) {
                if p != q {
                    return Ok(self.c.fls);
                }
            }
        }
        let mut r = self.c.tru;
        for (p, q) in x.iter().zip(&y) {
            let p = self.e(p);
            let q = self.e(q);
            let t = self.c.eq(p, q);
            r = self.c.and(r, t);
        }
        Ok(r)
    }

    fn cstr(&mut self, st: &mut State, p: u64, n: usize) -> String {
        let mut s = String::new();
        for i in 0..n {
            if let Ok(Val::I(x, _)) = self.load_c(st, p + i as u64, &Ty::Int(8)) {
                s.push(x as u8 as char);
            }
        }
        s
    }

    fn with_overflow(&mut self, op: &str, w: u16, a: &Val, b: &Val) -> Val {
        let signed = op.starts_with('s');
        let o = match &op[1..4] {
            "add" => BinOp::Add,
            "sub" => BinOp::Sub,
            _ => BinOp::Mul,
        };
        let r = self.bin(o, w, a, b);
        let of = if let (Val::I(x, _), Val::I(y, _)) = (a, b) {
            let ov = if signed {
                let (sx, sy) = (sext128(*x, w), sext128(*y, w));
                let full = match o {
                    BinOp::Add => sx.checked_add(sy),
                    BinOp::Sub => sx.checked_sub(sy),
                    _ => sx.checked_mul(sy),
                };
                match full {
                    None => true,
                    Some(v) => sext128(v as u128 & mask(w), w) != v,
                }
            } else {
                let full = match o {
                    BinOp::Add => x.checked_add(*y),
                    BinOp::Sub => x.checked_sub(*y),
                    _ => x.checked_mul(*y),
                };
                match full {
                    None => true,
                    Some(v) => v & mask(w) != v,
                }
            };
            Val::I(ov as u128, 1)
        } else {
            let x = self.e(a);
            let y = self.e(b);
            let re = self.e(&r);
            let c = &mut self.c;
            let k = match o {
                BinOp::Add => 0,
                BinOp::Sub => 1,
                _ => 2,
            };
            let ov = match (signed, o) {
                _ if c.no_overflow(k, x, y, signed) => c.fls,
                (false, BinOp::Add) => c.ult(re, x),
                (false, BinOp::Sub) => c.ult(x, y),
                (true, BinOp::Add) => {
                    let p = c.xor(x, re);
                    let q = c.xor(y, re);
                    let t = c.and(p, q);
                    c.extract(t, w - 1, 1)
                }
                (true, BinOp::Sub) => {
                    let p = c.xor(x, y);
                    let q = c.xor(x, re);
                    let t = c.and(p, q);
                    c.extract(t, w - 1, 1)
                }
                (false, _) => {
                    if w > 64 && c.cv(x).is_none() && c.cv(y).is_none() {
                        let z = c.konst(0, w);
                        let d = c.udiv(re, y);
                        let ne = c.eq(d, x);
                        let ne = c.not(ne);
                        let yz = c.eq(y, z);
                        let ny = c.not(yz);
                        c.and(ny, ne)
                    } else if w <= 64 {
                        let w2 = w * 2;
                        let sx = c.zext(x, w2);
                        let sy = c.zext(y, w2);
                        let p = c.mul(sx, sy);
                        let hi = c.extract(p, w, w);
                        let z = c.konst(0, w);
                        let q = c.eq(hi, z);
                        c.not(q)
                    } else {
                        // one constant operand: x > MAX / k
                        let (k, v) = if let Some(k) = c.cv(y) { (k, x) } else { (c.cv(x).unwrap(), y) };
                        if k == 0 {
                            c.fls
                        } else {
                            let lim = c.konst(mask(w) / k, w);
                            c.ult(lim, v)
                        }
                    }
                }
                (true, _) => {
                    let k = c.cv(y).or(c.cv(x));
                    if let (Some(k), true) = (k, w > 32) {
                        let v = if c.cv(y).is_some() { x } else { y };
                        let ks = sext128(k, w);
                        let max = (mask(w) >> 1) as i128;
                        let min = if w == 128 { i128::MIN } else { -max - 1 };
                        if ks == 0 {
                            c.fls
                        } else if ks == -1 {
                            let m = c.konst(min as u128, w);
                            c.eq(v, m)
                        } else {
                            let (lo, hi) = if ks > 0 { (min / ks, max / ks) } else { (max / ks, min / ks) };
                            let l = c.konst(lo as u128, w);
                            let h = c.konst(hi as u128, w);
                            let a1 = c.slt(v, l);
                            let a2 = c.slt(h, v);
                            c.or(a1, a2)
                        }
                    } else if w > 64 {
                        let z = c.konst(0, w);
                        let m1 = c.konst(!0, w);
                        let mn = c.konst((mask(w) >> 1) + 1, w);
                        let d = c.sdiv(re, y);
                        let ne = c.eq(d, x);
                        let ne = c.not(ne);
                        let yz = c.eq(y, z);
                        let ny = c.not(yz);
                        let t = c.and(ny, ne);
                        let e1 = c.eq(y, m1);
                        let e2 = c.eq(x, mn);
                        let e = c.and(e1, e2);
                        c.or(t, e)
                    } else {
                        let w2 = w * 2;
                        let sx = c.sext(x, w2);
                        let sy = c.sext(y, w2);
                        let p = c.mul(sx, sy);
                        let sr = c.sext(re, w2);
                        let q = c.eq(p, sr);
                        c.not(q)
                    }
                }
            };
            self.v(ov)
        };
        Val::Agg(Rc::new(vec![r, of]))
    }

    fn builtin(&mut self, st: &mut State, name: &str, a: Vec<Val>, rty: &Ty) -> R<Option<Val>> {
        let w = rty.bits();
        if let Some(n) = name.strip_prefix("llvm.") {
            return self.intrinsic(st, n, a, rty);
        }
        macro_rules! c {
            ($i:expr) => {
                self.concretize(st, &a[$i])? as u64
            };
        }
        let ok = |v: u128| Ok(Some(Val::I(v & mask(if w == 0 { 64 } else { w }), w)));
        match name {
            // ---- harness interface
            "__sym_input" => {
                // (ptr dst, nbytes, name ptr, name len)
                let p = c!(0);
                let n = c!(1) as usize;
                let np = c!(2);
                let nl = c!(3) as usize;
                let nm = self.cstr(st, np, nl);
                let idx = st.inputs.len();
                let full = format!("{}#{}", nm, idx);
                // variables are shared between paths by (name, position, width)
                let e = match self.c.vars.iter().find(|v| v.0 == full && v.1 == (n * 8) as u16) {
                    Some(v) => v.2,
                    None => self.c.var(full.clone(), (n * 8) as u16),
                };
                Rc::make_mut(&mut st.inputs).push((full, e));
                self.store_c(st, p, &Ty::Int((n * 8) as u16), &Val::S(e))?;
                Ok(None)
            }
            "__sym_param" => {
                let i = c!(0) as usize;
                Ok(Some(Val::I(*self.params.get(i).unwrap_or(&0) as u128, 64)))
            }
            "__sym_assume" => {
                let e = self.e(&a[0]);
                match self.c.cv(e) {
                    Some(1) => return Ok(None),
                    Some(_) => return Err(Stop::Kill),
                    None => {}
                }
                if self.evalm(st, e) != 1 {
                    match self.sat(st, e)? {
                        None => return Err(Stop::Kill),
                        Some(m) => self.set_model(st, m),
                    }
                }
                self.add_pc(st, e);
                Ok(None)
            }
            "__sym_check" => {
                let np = c!(1);
                let nl = c!(2) as usize;
                let label = self.cstr(st, np, nl);
                let e = self.e(&a[0]);
                let ent = self.checks.entry(label.clone()).or_default();
                ent.reached += 1;
                match self.c.cv(e) {
                    Some(1) => {
                        ent.trivial += 1;
                        return Ok(None);
                    }
                    Some(_) => {
                        // definite failure on this path: the path condition is satisfiable by the model
                        let t = self.c.tru;
                        let m = match self.sat(st, t)? {
                            Some(m) => m,
                            None => return Err(Stop::Err("infeasible path".into())),
                        };
                        let ent = self.checks.get_mut(&label).unwrap();
                        ent.solver += 1;
                        self.violation(st, &label, "check", String::new(), &m);
                        return Err(Stop::Kill);
                    }
                    None => {}
                }
                ent.solver += 1;
                let ne = self.c.not(e);
                match self.sat_f(st, ne, true)? {
                    None => {
                        self.add_pc(st, e);
                        Ok(None)
                    }
                    Some(m) => {
                        self.violation(st, &label, "check", String::new(), &m);
                        // continue with the property assumed
                        match self.sat(st, e)? {
                            None => Err(Stop::Kill),
                            Some(m) => {
                                self.set_model(st, m);
                                self.add_pc(st, e);
                                Ok(None)
                            }
                        }
                    }
                }
            }
            "__sym_close" => {
                let (x, y) = (self.e(&a[0]), self.e(&a[1]));
                let (re, ae) = (self.e(&a[2]), self.e(&a[3]));
                let (np, nl) = (c!(4), c!(5) as usize);
                let label = self.cstr(st, np, nl);
                let (rel, abs) = match (self.c.cv(re), self.c.cv(ae)) {
                    (Some(r), Some(a)) => (f64::from_bits(r as u64), f64::from_bits(a as u64)),
                    _ => return Err(Stop::Err("__sym_close: tolerance must be constant".into())),
                };
                // the floating-point condition: |x-y| <= rel*|y| + abs, or the same bits
                let same = self.c.eq(x, y);
                let m = self.c.konst(!(1u128 << 63) & mask(64), 64);
                let d = self.c.fbin(b'-', x, y);
                let d = self.c.and(d, m);
                let ya = self.c.and(y, m);
                let l = self.c.fbin(b'*', re, ya);
                let l = self.c.fbin(b'+', l, ae);
                let le = self.c.fole(d, l);
                let ok = self.c.or(same, le);
                let ent = self.checks.entry(label.clone()).or_default();
                ent.reached += 1;
                if self.c.cv(ok) == Some(1) {
                    ent.trivial += 1;
                    return Ok(None);
                }
                ent.solver += 1;
                if self.c.cv(ok).is_none() {
                    // bounds on the float inputs, as the path condition implies them
                    let mut vs = vec![];
                    crate::close::float_vars(&self.c, x, &mut vs);
                    crate::close::float_vars(&self.c, y, &mut vs);
                    vs.sort();
                    vs.dedup();
                    let (mut bound, mut nonneg) = (HashMap::new(), std::collections::HashSet::new());
                    for (v, kind) in vs {
                        let w = self.c.w(v);
                        if kind > 0 {
                            // the integer lies within +-2^k (or 0..=2^k)
                            bound.remove(&v);
                            for k in 1..w.min(64) - 1 {
                                let (hi, lo) = (self.c.konst(1u128 << k, w), self.c.konst((1u128 << k).wrapping_neg() & mask(w), w));
                                let (o1, o2) = (self.c.slt(hi, v), self.c.slt(v, lo));
                                let out = if kind == 1 { self.c.or(o1, o2) } else { self.c.ult(hi, v) };
                                if let Ok(None) = self.sat(st, out) {
                                    bound.insert(v, 2f64.powi(k as i32));
                                    if kind == 2 {
                                        nonneg.insert(v);
                                    }
                                    break;
                                }
                            }
                            continue;
                        }
                        let (m, ladder): (u128, &[f64]) = match w {
                            64 => (!(1u128 << 63) & mask(64), &[1e6, 1e20, 1e100, 1e200]),
                            32 => (!(1u128 << 31) & mask(32), &[1e6, 1e20]),
                            _ => continue,
                        };
                        let mk = self.c.konst(m, w);
                        let av = self.c.and(v, mk);
                        for b in ladder {
                            let bits = if w == 64 { b.to_bits() as u128 } else { (*b as f32).to_bits() as u128 };
                            let k = self.c.konst(bits, w);
                            let inb = self.c.fole(av, k);
                            let out = self.c.not(inb);
                            if let Ok(None) = self.sat(st, out) {
                                bound.insert(v, *b * 1.000001);
                                break;
                            }
                        }
                    }
                    let script = crate::close::Close::new(&self.c, bound, nonneg).script(x, y, rel, abs);
                    if let Some(sc) = script {
                        if let Ok(d) = std::env::var("LLSYM_HARD") {
                            let _ = std::fs::write(format!("{d}/nra{}.smt2", self.solver.stats.queries), &sc);
                        }
                        if self.solver.refute(&sc, 20) {
                            // (not added to the path condition: it would only burden later queries)
                            return Ok(None);
                        }
                    }
                }
                let ne = self.c.not(ok);
                // the current model, then a few of its neighbours, before the exact query
                if self.evalm(st, ne) == 1 {
                    let m = (*st.model).clone();
                    self.violation(st, &label, "check", String::new(), &m);
                    return Err(Stop::Kill);
                }
                match self.sat_f(st, ne, true)? {
                    None => {
                        Ok(None)
                    }
                    Some(m) => {
                        self.violation(st, &label, "check", String::new(), &m);
                        Err(Stop::Kill)
                    }
                }
            }
            "__sym_witness" => {
                let np = c!(1);
                let nl = c!(2) as usize;
                let label = self.cstr(st, np, nl);
                if self.witnesses.contains_key(&label) {
                    return Ok(None);
                }
                let e = self.e(&a[0]);
                let m = if self.c.cv(e) == Some(0) {
                    None
                } else if self.evalm(st, e) == 1 {
                    Some((*st.model).clone())
                } else {
                    self.sat(st, e)?
                };
                if let Some(m) = m {
                    let i = self.inputs_of(st, &m);
                    self.witnesses.insert(label, i);
                }
                Ok(None)
            }
            "__sym_allow_panic" => {
                st.allow_panic = vconst(&a[0]) == Some(1);
                Ok(None)
            }
            "__sym_stand_ins" => {
                self.redirect = redirects(&self.m);
                Ok(None)
            }
            "__sym_is_symbolic" => ok(!matches!(a[0], Val::I(..)) as u128),
            "__sym_concretize" => {
                let v = self.concretize(st, &a[0])?;
                ok(v)
            }
            "__sym_log" => {
                let np = c!(0);
                let nl = c!(1) as usize;
                let s = self.cstr(st, np, nl);
                let x = self.evalm(st, self.c.tru);
                let _ = x;
                eprintln!("LOG {}", s);
                Ok(None)
            }
            // ---- libc
            "malloc" => {
                let n = c!(0);
                let p = st.mem.alloc_heap(n as usize);
                ok(p as u128)
            }
            "calloc" => {
                let n = c!(0);
                let k = c!(1);
                let p = st.mem.alloc_heap((n * k) as usize);
                ok(p as u128)
            }
            "posix_memalign" => {
                let pp = c!(0);
                let n = c!(2);
                let p = st.mem.alloc_heap(n as usize);
                self.store_c(st, pp, &Ty::Ptr, &Val::I(p as u128, 64))?;
                ok(0)
            }
            "realloc" => {
                let p = c!(0);
                let n = c!(1) as usize;
                let q = st.mem.alloc_heap(n);
                if p != 0 {
                    let old = match self.obj_size(st, p) {
                        Some(s) => s,
                        None => return Err(self.oob(st, p, n, "realloc")),
                    };
                    self.memcpy(st, q, p, old.min(n))?;
                    if let (Loc::Heap(i), _) = loc(p) {
                        st.mem.heap.set(i, None);
                    }
                }
                ok(q as u128)
            }
            "free" => {
                let p = c!(0);
                if p != 0 {
                    match loc(p) {
                        (Loc::Heap(i), 0) if st.mem.heap.get(i).is_some() => st.mem.heap.set(i, None),
                        _ => return Err(self.oob(st, p, 0, "free")),
                    }
                }
                Ok(None)
            }
            "memcpy" | "memmove" => {
                let d = c!(0);
                let s = c!(1);
                let n = c!(2) as usize;
                self.memcpy(st, d, s, n)?;
                ok(d as u128)
            }
            "memset" => {
                let d = c!(0);
                let n = c!(2);
                let b = self.cast(CastK::Trunc, &Ty::Int(32), &Ty::Int(8), &a[1]);
                for i in 0..n {
                    self.store_c(st, d + i, &Ty::Int(8), &b)?;
                }
                ok(d as u128)
            }
            "bcmp" => {
                let p = c!(0);
                let q = c!(1);
                let n = c!(2) as usize;
                let e = self.mem_eq(st, p, q, n)?;
                let ne = self.c.not(e);
                let r = self.c.zext(ne, w);
                Ok(Some(self.v(r)))
            }
            "memcmp" => {
                let p = c!(0);
                let q = c!(1);
                let n = c!(2) as usize;
                let x = self.bytes(st, p, n)?;
                let y = self.bytes(st, q, n)?;
                let mut r = self.c.konst(0, w);
                for i in (0..n).rev() {
                    let p = self.e(&x[i]);
                    let q = self.e(&y[i]);
                    let eq = self.c.eq(p, q);
                    let lt = self.c.ult(p, q);
                    let m1 = self.c.konst(mask(w), w);
                    let one = self.c.konst(1, w);
                    let d = self.c.ite(lt, m1, one);
                    r = self.c.ite(eq, r, d);
                }
                Ok(Some(self.v(r)))
            }
            "memchr" | "memrchr" => {
                let p = c!(0);
                let n = c!(2) as usize;
                let x = self.bytes(st, p, n)?;
                let b = self.e(&a[1]);
                let b = self.c.extract(b, 0, 8);
                let it: Vec<usize> = if name == "memchr" { (0..n).collect() } else { (0..n).rev().collect() };
                for i in it {
                    let q = self.e(&x[i]);
                    let eq = self.c.eq(q, b);
                    if self.decide(st, eq)? {
                        return ok(p as u128 + i as u128);
                    }
                }
                ok(0)
            }
            "strlen" => {
                let p = c!(0);
                let mut n = 0u64;
                loop {
                    let b = self.load_c(st, p + n, &Ty::Int(8))?;
                    let b = self.concretize(st, &b)?;
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                ok(n as u128)
            }
            "pthread_key_create" => {
                let p = c!(0);
                self.store_c(st, p, &Ty::Int(32), &Val::I(1, 32))?;
                ok(0)
            }
            "getenv" | "pthread_setspecific" | "pthread_key_delete" | "__cxa_thread_atexit_impl"
            | "sigaltstack" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "sched_yield" => ok(0),
            "getrandom" | "syscall" => {
                // deterministic hash keys; syscall(SYS_getrandom, ..)
                let k = (name == "syscall") as usize;
                if k == 1 && c!(0) != 318 {
                    return Err(Stop::Err(format!("syscall {}", c!(0))));
                }
                let (p, n) = (c!(k), c!(k + 1) as usize);
                for i in 0..n {
                    self.store_c(st, p + i as u64, &Ty::Int(8), &Val::I(0, 8))?;
                }
                ok(n as u128)
            }
            "pthread_self" => ok(1),
            "gettid" => ok(1),
            "write" | "writev" => {
                let n = a.get(2).cloned().unwrap_or(Val::I(0, 64));
                Ok(Some(n))
            }
            "__errno_location" => {
                let p = st.mem.alloc_heap(8);
                ok(p as u128)
            }
            "abort" => Err(Stop::Panic("abort".into())),
            "pow" | "log10" | "log2" | "log" | "exp" | "fmod" | "floor" | "ceil" | "sqrt" | "round" | "fabs" | "sin"
            | "cos" | "tan" | "exp2" | "cbrt" | "atan2" | "powf" | "log10f" | "fmodf" | "logf" | "log2f" => {
                let mut xs = vec![];
                for v in &a {
                    match v {
                        Val::I(x, _) => xs.push(*x),
                        _ => match self.split_inputs(st, v)? {
                            Some(x) => xs.push(x),
                            None => return Err(Stop::Err(format!("symbolic argument to libm {}", name))),
                        },
                    }
                }
                let f = |i: usize| f64::from_bits(xs[i] as u64);
                let g = |i: usize| f32::from_bits(xs[i] as u32);
                let r = match name {
                    "pow" => f(0).powf(f(1)),
                    "log10" => f(0).log10(),
                    "log2" => f(0).log2(),
                    "log" => f(0).ln(),
                    "exp" => f(0).exp(),
                    "exp2" => f(0).exp2(),
                    "fmod" => f(0) % f(1),
                    "floor" => f(0).floor(),
                    "ceil" => f(0).ceil(),
                    "sqrt" => f(0).sqrt(),
                    "round" => f(0).round(),
                    "fabs" => f(0).abs(),
                    "sin" => f(0).sin(),
                    "cos" => f(0).cos(),
                    "tan" => f(0).tan(),
                    "cbrt" => f(0).cbrt(),
                    "atan2" => f(0).atan2(f(1)),
                    "powf" => return ok(g(0).powf(g(1)).to_bits() as u128),
                    "log10f" => return ok(g(0).log10().to_bits() as u128),
                    "logf" => return ok(g(0).ln().to_bits() as u128),
                    "log2f" => return ok(g(0).log2().to_bits() as u128),
                    _ => return ok((g(0) % g(1)).to_bits() as u128),
                };
                ok(r.to_bits() as u128)
            }
            _ => Err(Stop::Err(format!("external function {}", name))),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: Vec<Val>, rty: &Ty) -> R<Option<Val>> {
        // elementwise vectors for the simple ones
        if let (Ty::Vec(k, t), true) = (rty, matches!(a.first(), Some(Val::Agg(_)))) {
            let mut out = vec![];
            for i in 0..*k as usize {
                let ai: Vec<Val> = a
                    .iter()
                    .map(|x| match x {
                        Val::Agg(v) if v.len() == *k as usize => v[i].clone(),
                        y => y.clone(),
                    })
                    .collect();
                out.push(self.intrinsic(st, n, ai, t)?.unwrap());
            }
            return Ok(Some(Val::Agg(Rc::new(out))));
        }
        let w = rty.bits();
        let base = n.split('.').next().unwrap();
        macro_rules! c {
            ($i:expr) => {
                self.concretize(st, &a[$i])? as u64
            };
        }
        let r: E = match base {
            "lifetime" | "assume" | "dbg" | "experimental" | "invariant" | "prefetch" | "donothing" | "sideeffect"
            | "var" => return Ok(None),
            "x86" => {
                if n.contains("pause") {
                    return Ok(None);
                }
                if n.contains("pmovmskb") {
                    if let Val::Agg(v) = &a[0] {
                        let mut acc: Option<E> = None;
                        for x in v.iter() {
                            let e = self.e(x);
                            let b = self.c.extract(e, 7, 1);
                            acc = Some(match acc {
                                None => b,
                                Some(p) => self.c.concat(b, p),
                            });
                        }
                        self.c.zext(acc.unwrap(), w)
                    } else {
                        return Err(Stop::Err(n.into()));
                    }
                } else {
                    return Err(Stop::Err(format!("intrinsic {}", n)));
                }
            }
            "memcpy" | "memmove" => {
                let d = c!(0);
                let s = c!(1);
                let k = c!(2) as usize;
                self.memcpy(st, d, s, k)?;
                return Ok(None);
            }
            "memset" => {
                let d = c!(0);
                let k = c!(2);
                if k > 0 {
                    let b = a[1].clone();
                    for i in 0..k {
                        self.store_c(st, d + i, &Ty::Int(8), &b)?;
                    }
                }
                return Ok(None);
            }
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::Panic(format!("trap in {}", self.whereami(st)))),
            "expect" | "threadlocal" | "launder" | "strip" | "ssa" | "ptrmask" => {
                if base == "ptrmask" {
                    let r = self.bin(BinOp::And, 64, &a[0], &a[1]);
                    return Ok(Some(r));
                }
                return Ok(Some(a[0].clone()));
            }
            "is" => {
                // llvm.is.constant / is.fpclass
                if n.starts_with("is.fpclass") {
                    return self.fpclass(&a);
                }
                return Ok(Some(Val::I(0, 1)));
            }
            "objectsize" => return Ok(Some(Val::I(mask(w), w))),
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                if n.contains("with.overflow") {
                    let ew = match rty {
                        Ty::Struct(f, _) => f[0].bits(),
                        _ => 0,
                    };
                    return Ok(Some(self.with_overflow(base, ew, &a[0], &a[1])));
                }
                // saturating
                let ag = self.with_overflow(base, w, &a[0], &a[1]);
                let (r, o) = match &ag {
                    Val::Agg(v) => (v[0].clone(), v[1].clone()),
                    _ => unreachable!(),
                };
                let sat = if base.starts_with('u') {
                    Val::I(if base == "uadd" { mask(w) } else { 0 }, w)
                } else {
                    let x = self.e(&a[0]);
                    let z = self.c.konst(0, w);
                    let neg = self.c.slt(x, z);
                    let mn = self.c.konst((mask(w) >> 1) + 1, w);
                    let mx = self.c.konst(mask(w) >> 1, w);
                    let s = self.c.ite(neg, mn, mx);
                    self.v(s)
                };
                return Ok(Some(self.select(&o, &sat, &r)));
            }
            "umax" | "umin" | "smax" | "smin" => {
                let x = self.e(&a[0]);
                let y = self.e(&a[1]);
                let lt = if base.starts_with('u') { self.c.ult(x, y) } else { self.c.slt(x, y) };
                if base.ends_with("max") {
                    self.c.ite(lt, y, x)
                } else {
                    self.c.ite(lt, x, y)
                }
            }
            "ucmp" | "scmp" => {
                let x = self.e(&a[0]);
                let y = self.e(&a[1]);
                let (lt, gt) = if base == "ucmp" {
                    (self.c.ult(x, y), self.c.ult(y, x))
                } else {
                    (self.c.slt(x, y), self.c.slt(y, x))
                };
                let m1 = self.c.konst(mask(w), w);
                let one = self.c.konst(1, w);
                let z = self.c.konst(0, w);
                let t = self.c.ite(gt, one, z);
                self.c.ite(lt, m1, t)
            }
            "abs" => {
                let x = self.e(&a[0]);
                let z = self.c.konst(0, w);
                let neg = self.c.slt(x, z);
                let nx = self.c.sub(z, x);
                self.c.ite(neg, nx, x)
            }
            "fshl" | "fshr" => {
                let s = self.concretize(st, &a[2])? % w as u128;
                let x = self.e(&a[0]);
                let y = self.e(&a[1]);
                let (k, inv) = if base == "fshl" { (s, w as u128 - s) } else { (w as u128 - s, s) };
                if base == "fshl" && s == 0 {
                    x
                } else if base == "fshr" && s == 0 {
                    y
                } else {
                    let kk = self.c.konst(k, w);
                    let ki = self.c.konst(inv, w);
                    let h = self.c.shl(x, kk);
                    let l = self.c.lshr(y, ki);
                    self.c.or(h, l)
                }
            }
            "bswap" => {
                let x = self.e(&a[0]);
                let nb = w / 8;
                let mut acc = self.c.extract(x, 0, 8);
                for i in 1..nb {
                    let b = self.c.extract(x, i * 8, 8);
                    acc = self.c.concat(acc, b);
                }
                acc
            }
            "bitreverse" => {
                let x = self.e(&a[0]);
                let mut acc = self.c.extract(x, 0, 1);
                for i in 1..w {
                    let b = self.c.extract(x, i, 1);
                    acc = self.c.concat(acc, b);
                }
                acc
            }
            "ctpop" => {
                let x = self.e(&a[0]);
                let mut acc = self.c.konst(0, w);
                for i in 0..w {
                    let b = self.c.extract(x, i, 1);
                    let z = self.c.zext(b, w);
                    acc = self.c.add(acc, z);
                }
                acc
            }
            "ctlz" | "cttz" => {
                let x = self.e(&a[0]);
                if let Some(v) = self.c.cv(x) {
                    let r = if v == 0 {
                        w as u32
                    } else if base == "ctlz" {
                        v.leading_zeros() - (128 - w as u32)
                    } else {
                        v.trailing_zeros()
                    };
                    return Ok(Some(Val::I(r as u128, w)));
                }
                let mut acc = self.c.konst(w as u128, w);
                for k in 0..w {
                    // lowest priority first
                    let (bit, cnt) = if base == "ctlz" { (k, w - 1 - k) } else { (w - 1 - k, w - 1 - k) };
                    let b = self.c.extract(x, bit, 1);
                    let v = self.c.konst(cnt as u128, w);
                    acc = self.c.ite(b, v, acc);
                }
                acc
            }
            "vector" => {
                // vector.reduce.<op>
                let op = n.split('.').nth(2).unwrap_or("");
                let Val::Agg(v) = &a[0] else { return Err(Stop::Err(n.into())) };
                let mut acc = self.e(&v[0].clone());
                for x in v.iter().skip(1) {
                    let x = self.e(x);
                    acc = match op {
                        "add" => self.c.add(acc, x),
                        "or" => self.c.or(acc, x),
                        "and" => self.c.and(acc, x),
                        "xor" => self.c.xor(acc, x),
                        "mul" => self.c.mul(acc, x),
                        _ => return Err(Stop::Err(format!("intrinsic {}", n))),
                    };
                }
                acc
            }
            // floating point
            "fabs" => {
                let x = self.e(&a[0]);
                let m = self.c.konst(mask(w) >> 1, w);
                self.c.and(x, m)
            }
            "copysign" => {
                let x = self.e(&a[0]);
                let y = self.e(&a[1]);
                let m = self.c.konst(mask(w) >> 1, w);
                let s = self.c.konst((mask(w) >> 1) + 1, w);
                let p = self.c.and(x, m);
                let q = self.c.and(y, s);
                self.c.or(p, q)
            }
            "floor" | "ceil" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" => {
                let x = self.e(&a[0]);
                let m = match base {
                    "floor" => 1,
                    "ceil" => 2,
                    "trunc" => 3,
                    "round" => 4,
                    _ => 0,
                };
                self.c.fround(x, m)
            }
            "sqrt" => {
                let x = self.e(&a[0]);
                self.c.fsqrt(x)
            }
            "fma" => {
                let x = self.e(&a[0]);
                let y = self.e(&a[1]);
                let z = self.e(&a[2]);
                self.c.ffma(x, y, z)
            }
            "fmuladd" => {
                let x = self.e(&a[0]);
                let y = self.e(&a[1]);
                let z = self.e(&a[2]);
                let p = self.c.fbin(b'*', x, y);
                self.c.fbin(b'+', p, z)
            }
            "fptosi" | "fptoui" => {
                let x = self.e(&a[0]);
                self.c.fto(x, w, base == "fptosi")
            }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                let x = self.e(&a[0]);
                let y = self.e(&a[1]);
                let lt = if base.starts_with("min") { self.c.folt(x, y) } else { self.c.folt(y, x) };
                let nx = self.c.fisnan(x);
                let ny = self.c.fisnan(y);
                let t = self.c.ite(lt, x, y);
                let t = self.c.ite(nx, y, t);
                self.c.ite(ny, x, t)
            }
            "pow" | "log10" | "log2" | "log" | "exp" | "exp2" | "sin" | "cos" | "tan" => {
                let nm = if w == 32 { format!("{}f", base) } else { base.to_string() };
                return self.builtin(st, &nm, a, rty);
            }
            "powi" => {
                let one = if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
                if vconst(&a[0]) == Some(one) {
                    return Ok(Some(Val::I(one, w)));
                }
                // a symbolic power is split into its feasible values
                let (Some(x), Some(k)) = (self.split_inputs(st, &a[0])?, self.split_inputs(st, &a[1])?) else {
                    return Err(Stop::Err("symbolic powi".into()));
                };
                let k = sext128(k, 32) as i32;
                let r = if w == 64 {
                    f64::from_bits(x as u64).powi(k).to_bits() as u128
                } else {
                    f32::from_bits(x as u32).powi(k).to_bits() as u128
                };
                self.c.konst(r, w)
            }
            _ => return Err(Stop::Err(format!("intrinsic {}", n))),
        };
        if w == 0 {
            return Ok(None);
        }
        Ok(Some(self.v(r)))
    }

    fn fpclass(&mut self, a: &[Val]) -> R<Option<Val>> {
        let m = vconst(&a[1]).unwrap_or(0) as u32;
        let x = self.e(&a[0]);
        let w = self.c.w(x);
        let (eb, mb) = if w == 64 { (11u16, 52u16) } else { (8, 23) };
        let c = &mut self.c;
        let man = c.extract(x, 0, mb);
        let exp = c.extract(x, mb, eb);
        let sg = c.extract(x, w - 1, 1);
        let z = c.konst(0, mb);
        let ez = c.konst(0, eb);
        let em = c.konst(mask(eb), eb);
        let mz = c.eq(man, z);
        let e0 = c.eq(exp, ez);
        let e1 = c.eq(exp, em);
        let nmz = c.not(mz);
        let nan = c.and(e1, nmz);
        let inf = c.and(e1, mz);
        let zero = c.and(e0, mz);
        let sub = c.and(e0, nmz);
        let n1 = c.not(e0);
        let n2 = c.not(e1);
        let norm = c.and(n1, n2);
        let pos = c.not(sg);
        let qbit = c.extract(x, mb - 1, 1);
        let nq = c.not(qbit);
        let mut r = c.fls;
        let mut add = |c: &mut Ctx, bit: u32, e: E, s: Option<E>| {
            if m & bit != 0 {
                let t = match s {
                    Some(s) => c.and(e, s),
                    None => e,
                };
                r = c.or(r, t);
            }
        };
        add(c, 1, nan, Some(nq));
        add(c, 2, nan, Some(qbit));
        add(c, 4, inf, Some(sg));
        add(c, 8, norm, Some(sg));
        add(c, 16, sub, Some(sg));
        add(c, 32, zero, Some(sg));
        add(c, 64, zero, Some(pos));
        add(c, 128, sub, Some(pos));
        add(c, 256, norm, Some(pos));
        add(c, 512, inf, Some(pos));
        Ok(Some(self.v(r)))
    }
}

pub fn is_panic_fn(n: &str) -> bool {
    n.contains("4core9panicking")
        || n.contains("16slice_error_fail")
        || n.contains("3std9panicking")
        || n.contains("rust_begin_unwind")
        || n.contains("18handle_alloc_error")
        || n.contains("19rust_begin_unwind")
        || n.contains("6option13unwrap_failed")
        || n.contains("6option13expect_failed")
        || n.contains("6result13unwrap_failed")
}
fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// (parts of the mangled name of a library function, harness stand-in)
const STAND_INS: &[(&[&str], &str)] = &[
    (&["4core3fmt5floatd", "7Display3fmt"], "h_fmt_f64"),
    (&["3ryu6pretty", "format64"], "h_ryu_f64"),
];
fn redirects(m: &Module) -> HashMap<u32, u32> {
    let mut r = HashMap::new();
    for (parts, to) in STAND_INS {
        if let Some(t) = m.fn_ids.get(*to) {
            for (i, f) in m.fns.iter().enumerate() {
                if f.range.is_some() && parts.iter().all(|p| f.name.contains(p)) {
                    r.insert(i as u32, *t);
                }
            }
        }
    }
    r
}
