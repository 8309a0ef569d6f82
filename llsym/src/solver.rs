//! SMT-LIB back end: one incremental z3 process, plus a one-shot portfolio
//! (z3 and cvc5) for queries the incremental solver gives up on.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub enum Res {
    Sat(Model),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub portfolio: u64,
    pub time: f64,
    pub max: f64,
}

struct Level {
    defs: Vec<(E, u8)>,
    cons: E,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    levels: Vec<Level>,
    defined: HashSet<(E, u8), BuildH>,
    base_defs: Vec<(E, u8)>,
    pub stats: Stats,
    pub inc_ms: u64,
    pub hard_s: u64,
    z3: String,
}

fn spawn(z3: &str) -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let mut c = Command::new(z3)
        .args(["-in", "-smt2", "-memory:6000"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn z3");
    let i = c.stdin.take().unwrap();
    let o = BufReader::new(c.stdout.take().unwrap());
    (c, i, o)
}

fn bvc(v: u128, w: u16) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}
fn fsort(w: u16) -> &'static str {
    if w == 64 {
        "(_ FloatingPoint 11 53)"
    } else {
        "(_ FloatingPoint 8 24)"
    }
}
fn fto(w: u16) -> &'static str {
    if w == 64 {
        "(_ to_fp 11 53)"
    } else {
        "(_ to_fp 8 24)"
    }
}

fn is_fp(n: N) -> bool {
    matches!(
        n,
        N::FAdd(..)
            | N::FSub(..)
            | N::FMul(..)
            | N::FDiv(..)
            | N::FRem(..)
            | N::FCast(..)
            | N::SToF(..)
            | N::UToF(..)
            | N::FRound(..)
            | N::FSqrt(..)
            | N::FFma(..)
    )
}

/// kinds of definitions: 0 = bv/bool view, 1 = fp view
pub struct Emit<'a> {
    pub c: &'a Ctx,
    pub defined: &'a mut HashSet<(E, u8), BuildH>,
    pub new: Vec<(E, u8)>,
    pub s: String,
}

impl<'a> Emit<'a> {
    fn name(&self, e: E, k: u8) -> String {
        let (n, w) = self.c.nodes[e as usize];
        if k == 0 {
            match n {
                N::Const(v) => {
                    if w == 1 {
                        if v == 1 { "true".into() } else { "false".into() }
                    } else {
                        bvc(v, w)
                    }
                }
                N::Var(i) => format!("v{}", i),
                _ => format!("n{}", e),
            }
        } else {
            match n {
                N::Const(v) => format!("({} {})", fto(w), bvc(v, w)),
                _ => format!("f{}", e),
            }
        }
    }
    /// define all needed nodes iteratively
    pub fn def(&mut self, root: E, kind: u8) -> String {
        let mut stack: Vec<(E, u8, bool)> = vec![(root, kind, false)];
        while let Some((e, k, done)) = stack.pop() {
            let (n, w) = self.c.nodes[e as usize];
            if let N::Const(_) = n {
                continue;
            }
            if self.defined.contains(&(e, k)) {
                continue;
            }
            if !done {
                stack.push((e, k, true));
                self.deps(e, k, n, &mut stack);
                continue;
            }
            self.defined.insert((e, k));
            self.new.push((e, k));
            let a = |x: E| self.name(x, 0);
            let f = |x: E| self.name(x, 1);
            if k == 1 {
                let term = if is_fp(n) {
                    match n {
                        N::FAdd(x, y) => format!("(fp.add RNE {} {})", f(x), f(y)),
                        N::FSub(x, y) => format!("(fp.sub RNE {} {})", f(x), f(y)),
                        N::FMul(x, y) => format!("(fp.mul RNE {} {})", f(x), f(y)),
                        N::FDiv(x, y) => format!("(fp.div RNE {} {})", f(x), f(y)),
                        // C fmod: x - y*trunc(x/y); fp.rem is IEEE remainder: unsupported
                        N::FRem(..) => {
                            let _ = writeln!(self.s, "(declare-const f{} {})", e, fsort(w));
                            continue;
                        }
                        N::FCast(x) => format!("({} RNE {})", fto(w), f(x)),
                        N::SToF(x) => format!("({} RNE {})", fto(w), self.bvname(x)),
                        N::UToF(x) => {
                            format!("({} RNE {})", if w == 64 { "(_ to_fp_unsigned 11 53)" } else { "(_ to_fp_unsigned 8 24)" }, self.bvname(x))
                        }
                        N::FRound(x, m) => format!(
                            "(fp.roundToIntegral {} {})",
                            ["RNE", "RTN", "RTP", "RTZ", "RNA"][m as usize],
                            f(x)
                        ),
                        N::FSqrt(x) => format!("(fp.sqrt RNE {})", f(x)),
                        N::FFma(x, y, z) => format!("(fp.fma RNE {} {} {})", f(x), f(y), f(z)),
                        _ => unreachable!(),
                    }
                } else if let N::Ite(c, x, y) = n {
                    format!("(ite {} {} {})", a(c), f(x), f(y))
                } else {
                    format!("({} {})", fto(w), a(e))
                };
                let _ = writeln!(self.s, "(define-fun f{} () {} {})", e, fsort(w), term);
                continue;
            }
            if let N::Var(i) = n {
                if w == 1 {
                    let _ = writeln!(self.s, "(declare-const v{} Bool)", i);
                } else {
                    let _ = writeln!(self.s, "(declare-const v{} (_ BitVec {}))", i, w);
                }
                continue;
            }
            if is_fp(n) {
                let _ = writeln!(self.s, "(declare-const n{} (_ BitVec {}))", e, w);
                let _ = writeln!(self.s, "(assert (= ({} n{}) f{}))", fto(w), e, e);
                continue;
            }
            let b1 = w == 1;
            let term = match n {
                N::Add(x, y) => format!("(bvadd {} {})", a(x), a(y)),
                N::Sub(x, y) => format!("(bvsub {} {})", a(x), a(y)),
                N::Mul(x, y) => format!("(bvmul {} {})", a(x), a(y)),
                N::UDiv(x, y) if b1 => format!("(or {} (not {}))", a(x), a(y)),
                N::UDiv(x, y) => format!("(bvudiv {} {})", a(x), a(y)),
                N::SDiv(x, y) => format!("(bvsdiv {} {})", a(x), a(y)),
                N::URem(x, y) => format!("(bvurem {} {})", a(x), a(y)),
                N::SRem(x, y) => format!("(bvsrem {} {})", a(x), a(y)),
                N::Shl(x, y) if b1 => format!("(and {} (not {}))", a(x), a(y)),
                N::LShr(x, y) if b1 => format!("(and {} (not {}))", a(x), a(y)),
                N::AShr(x, _) if b1 => a(x),
                N::Shl(x, y) => format!("(bvshl {} {})", a(x), a(y)),
                N::LShr(x, y) => format!("(bvlshr {} {})", a(x), a(y)),
                N::AShr(x, y) => format!("(bvashr {} {})", a(x), a(y)),
                N::And(x, y) => format!("({} {} {})", if b1 { "and" } else { "bvand" }, a(x), a(y)),
                N::Or(x, y) => format!("({} {} {})", if b1 { "or" } else { "bvor" }, a(x), a(y)),
                N::Xor(x, y) => format!("({} {} {})", if b1 { "xor" } else { "bvxor" }, a(x), a(y)),
                N::Not(x) => format!("({} {})", if b1 { "not" } else { "bvnot" }, a(x)),
                N::Eq(x, y) => format!("(= {} {})", a(x), a(y)),
                N::Ult(x, y) if self.c.w(x) == 1 => format!("(and (not {}) {})", a(x), a(y)),
                N::Ule(x, y) if self.c.w(x) == 1 => format!("(or (not {}) {})", a(x), a(y)),
                N::Slt(x, y) if self.c.w(x) == 1 => format!("(and {} (not {}))", a(x), a(y)),
                N::Sle(x, y) if self.c.w(x) == 1 => format!("(or {} (not {}))", a(x), a(y)),
                N::Ult(x, y) => format!("(bvult {} {})", a(x), a(y)),
                N::Ule(x, y) => format!("(bvule {} {})", a(x), a(y)),
                N::Slt(x, y) => format!("(bvslt {} {})", a(x), a(y)),
                N::Sle(x, y) => format!("(bvsle {} {})", a(x), a(y)),
                N::Ite(c, x, y) => format!("(ite {} {} {})", a(c), a(x), a(y)),
                N::ZExt(x) => {
                    let xw = self.c.w(x);
                    format!("((_ zero_extend {}) {})", w - xw, self.bvname(x))
                }
                N::SExt(x) => {
                    let xw = self.c.w(x);
                    format!("((_ sign_extend {}) {})", w - xw, self.bvname(x))
                }
                N::Extract(x, lo) => {
                    let t = format!("((_ extract {} {}) {})", lo + w - 1, lo, a(x));
                    if b1 {
                        format!("(= {} #b1)", t)
                    } else {
                        t
                    }
                }
                N::Concat(h, l) => format!("(concat {} {})", self.bvname(h), self.bvname(l)),
                N::FOeq(x, y) => format!("(fp.eq {} {})", f(x), f(y)),
                N::FOlt(x, y) => format!("(fp.lt {} {})", f(x), f(y)),
                N::FOle(x, y) => format!("(fp.leq {} {})", f(x), f(y)),
                N::FIsNan(x) => format!("(fp.isNaN {})", f(x)),
                N::FToS(x) => self.fto_sat(x, w, true),
                N::FToU(x) => self.fto_sat(x, w, false),
                _ => unreachable!(),
            };
            if b1 {
                let _ = writeln!(self.s, "(define-fun n{} () Bool {})", e, term);
            } else {
                let _ = writeln!(self.s, "(define-fun n{} () (_ BitVec {}) {})", e, w, term);
            }
        }
        self.name(root, kind)
    }
    fn bvname(&self, x: E) -> String {
        let a = self.name(x, 0);
        if self.c.w(x) == 1 {
            format!("(ite {} #b1 #b0)", a)
        } else {
            a
        }
    }
    fn fto_sat(&self, x: E, w: u16, signed: bool) -> String {
        let f = self.name(x, 1);
        let fw = self.c.w(x);
        let kf = |v: f64| {
            if fw == 64 {
                format!("({} {})", fto(64), bvc(v.to_bits() as u128, 64))
            } else {
                format!("({} {})", fto(32), bvc((v as f32).to_bits() as u128, 32))
            }
        };
        let (lo, hi, mn, mx, conv) = if signed {
            (
                -(2f64.powi(w as i32 - 1)),
                2f64.powi(w as i32 - 1),
                (mask(w) >> 1) + 1,
                mask(w) >> 1,
                format!("((_ fp.to_sbv {}) RTZ {})", w, f),
            )
        } else {
            (0.0, 2f64.powi(w as i32), 0, mask(w), format!("((_ fp.to_ubv {}) RTZ {})", w, f))
        };
        format!(
            "(ite (fp.isNaN {f}) {z} (ite (fp.geq {f} {hi}) {mx} (ite (fp.leq {f} {lo}) {mn} {conv})))",
            f = f,
            z = bvc(0, w),
            hi = kf(hi),
            mx = bvc(mx, w),
            lo = kf(lo),
            mn = bvc(mn, w),
            conv = conv
        )
    }
    fn deps(&self, e: E, k: u8, n: N, st: &mut Vec<(E, u8, bool)>) {
        if k == 1 {
            match n {
                N::SToF(x) | N::UToF(x) => st.push((x, 0, false)),
                _ if is_fp(n) => {
                    let mut v = vec![];
                    self.c.children(e, &mut v);
                    for x in v {
                        st.push((x, 1, false));
                    }
                }
                N::Ite(c, x, y) => {
                    st.push((c, 0, false));
                    st.push((x, 1, false));
                    st.push((y, 1, false));
                }
                _ => st.push((e, 0, false)),
            }
            return;
        }
        match n {
            _ if is_fp(n) => st.push((e, 1, false)),
            N::FOeq(x, y) | N::FOlt(x, y) | N::FOle(x, y) => {
                st.push((x, 1, false));
                st.push((y, 1, false));
            }
            N::FIsNan(x) | N::FToS(x) | N::FToU(x) => st.push((x, 1, false)),
            _ => {
                let mut v = vec![];
                self.c.children(e, &mut v);
                for x in v {
                    st.push((x, 0, false));
                }
            }
        }
    }
}

impl Solver {
    pub fn new() -> Solver {
        let z3 = std::env::var("LLSYM_Z3").unwrap_or_else(|_| "z3-new".into());
        let (child, inp, out) = spawn(&z3);
        let mut s = Solver {
            child,
            inp,
            out,
            levels: vec![],
            defined: HashSet::default(),
            base_defs: vec![],
            stats: Stats::default(),
            inc_ms: 4000,
            hard_s: 120,
            z3,
        };
        s.header();
        s
    }
    fn header(&mut self) {
        let _ = writeln!(self.inp, "(set-option :print-success false)\n(set-option :timeout {})", self.inc_ms);
    }
    fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, i, o) = spawn(&self.z3);
        self.child = c;
        self.inp = i;
        self.out = o;
        self.levels.clear();
        self.defined.clear();
        self.base_defs.clear();
        self.header();
    }
    /// Is `pc ∧ extra` satisfiable?
    pub fn check(&mut self, c: &Ctx, pc: &[E], extra: Option<E>) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let r = self.check0(c, pc, extra);
        let r = match r {
            Res::Unknown(_) => {
                self.stats.portfolio += 1;
                self.portfolio(c, pc, extra)
            }
            r => r,
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max {
            self.stats.max = dt;
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        r
    }
    fn check0(&mut self, c: &Ctx, pc: &[E], extra: Option<E>) -> Res {
        let mut s = String::new();
        // sync levels
        let mut common = 0;
        while common < self.levels.len() && common < pc.len() && self.levels[common].cons == pc[common] {
            common += 1;
        }
        let npop = self.levels.len() - common;
        if npop > 0 {
            let _ = writeln!(s, "(pop {})", npop);
            for l in self.levels.drain(common..) {
                for d in l.defs {
                    self.defined.remove(&d);
                }
            }
        }
        for &e in &pc[common..] {
            s.push_str("(push 1)\n");
            let mut em = Emit { c, defined: &mut self.defined, new: vec![], s: std::mem::take(&mut s) };
            let n = em.def(e, 0);
            let _ = writeln!(em.s, "(assert {})", n);
            s = std::mem::take(&mut em.s);
            let new = em.new;
            self.levels.push(Level { defs: new, cons: e });
        }
        let mut temp = vec![];
        if let Some(e) = extra {
            s.push_str("(push 1)\n");
            let mut em = Emit { c, defined: &mut self.defined, new: vec![], s: std::mem::take(&mut s) };
            let n = em.def(e, 0);
            let _ = writeln!(em.s, "(assert {})", n);
            s = std::mem::take(&mut em.s);
            temp = em.new;
        }
        s.push_str("(check-sat)\n");
        if std::env::var("LLSYM_DUMP").is_ok() {
            eprintln!("{}", s);
        }
        if self.inp.write_all(s.as_bytes()).is_err() || self.inp.flush().is_err() {
            self.restart();
            return Res::Unknown("solver died".into());
        }
        let mut line = String::new();
        if self.out.read_line(&mut line).unwrap_or(0) == 0 {
            self.restart();
            return Res::Unknown("solver died".into());
        }
        let line = line.trim().to_string();
        let r = match line.as_str() {
            "unsat" => Res::Unsat,
            "sat" => {
                // model for all declared vars
                let vars: Vec<u32> = self
                    .defined
                    .iter()
                    .filter_map(|(e, k)| match (c.n(*e), k) {
                        (N::Var(i), 0) => Some(i),
                        _ => None,
                    })
                    .collect();
                match self.get_model(&vars) {
                    Some(m) => Res::Sat(m),
                    None => {
                        self.restart();
                        return Res::Unknown("model".into());
                    }
                }
            }
            "unknown" | "timeout" => Res::Unknown(line),
            _ => {
                // error
                if line.starts_with("(error") {
                    eprintln!("solver: {}", line);
                }
                self.restart();
                return Res::Unknown(line);
            }
        };
        if extra.is_some() {
            let _ = writeln!(self.inp, "(pop 1)");
            for d in temp {
                self.defined.remove(&d);
            }
        }
        r
    }
    fn get_model(&mut self, vars: &[u32]) -> Option<Model> {
        let mut m = Model::default();
        if vars.is_empty() {
            return Some(m);
        }
        let mut q = String::from("(get-value (");
        for v in vars {
            let _ = write!(q, "v{} ", v);
        }
        q.push_str("))\n");
        self.inp.write_all(q.as_bytes()).ok()?;
        self.inp.flush().ok()?;
        let mut depth = 0i32;
        let mut text = String::new();
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).ok()? == 0 {
                return None;
            }
            for ch in l.chars() {
                if ch == '(' {
                    depth += 1
                }
                if ch == ')' {
                    depth -= 1
                }
            }
            text.push_str(&l);
            if depth <= 0 {
                break;
            }
        }
        parse_values(&text, &mut m);
        Some(m)
    }
    /// a stand-alone script: true when unsatisfiable, false otherwise or after `secs`
    pub fn refute(&mut self, script: &str, secs: u64) -> bool {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let r = (|| {
            let mut ch = Command::new(&self.z3).args(["-in", "-smt2", &format!("-T:{secs}"), "-memory:4000"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
            let mut i = ch.stdin.take()?;
            i.write_all(script.as_bytes()).ok()?;
            i.write_all(b"(check-sat)\n").ok()?;
            drop(i);
            let mut o = String::new();
            ch.stdout.take()?.read_to_string(&mut o).ok()?;
            let _ = ch.wait();
            if o.contains("error") {
                eprintln!("nra: {}", &o[..o.len().min(300)]);
            }
            Some(o.trim() == "unsat")
        })()
        .unwrap_or(false);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max {
            self.stats.max = dt;
        }
        if r {
            self.stats.unsat += 1
        } else {
            self.stats.unknown += 1
        }
        r
    }
    pub fn script(&self, c: &Ctx, pc: &[E], extra: Option<E>) -> (String, Vec<u32>) {
        let mut defined: HashSet<(E, u8), BuildH> = HashSet::default();
        let mut em = Emit { c, defined: &mut defined, new: vec![], s: String::new() };
        for &e in pc.iter().chain(extra.iter()) {
            let n = em.def(e, 0);
            let _ = writeln!(em.s, "(assert {})", n);
        }
        let s = em.s;
        let vars: Vec<u32> = defined
            .iter()
            .filter_map(|(e, k)| match (c.n(*e), k) {
                (N::Var(i), 0) => Some(i),
                _ => None,
            })
            .collect();
        (s, vars)
    }
    fn portfolio(&mut self, c: &Ctx, pc: &[E], extra: Option<E>) -> Res {
        let (s, vars) = self.script(c, pc, extra);
        let mut tail = String::from("(check-sat)\n");
        if !vars.is_empty() {
            tail.push_str("(get-value (");
            for v in &vars {
                let _ = write!(tail, "v{} ", v);
            }
            tail.push_str("))\n");
        }
        let mut full = String::from("(set-logic ALL)\n(set-option :produce-models true)\n");
        full.push_str(&s);
        full.push_str(&tail);
        // simplified variant with a bit-blasting tactic for z3
        let t = self.hard_s;
        let mut tac = String::from("(set-option :produce-models true)\n");
        tac.push_str(&s);
        tac.push_str("(check-sat-using (then simplify propagate-values solve-eqs fpa2bv simplify propagate-values solve-eqs simplify bit-blast sat))\n");
        tac.push_str(tail.split_once('\n').unwrap().1);
        if let Ok(d) = std::env::var("LLSYM_HARD") {
            let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), &full);
        }
        let mut cmds: Vec<(Command, &str)> = vec![];
        let mut a = Command::new(&self.z3);
        a.args(["-in", "-smt2", &format!("-T:{}", t), "-memory:6000"]);
        cmds.push((a, &full));
        let mut a2 = Command::new(&self.z3);
        a2.args(["-in", "-smt2", &format!("-T:{}", t), "-memory:6000"]);
        cmds.push((a2, &tac));
        let mut b = Command::new("cvc5");
        b.args(["--lang=smt2", "--fp-exp", &format!("--tlimit={}", t * 1000), "--produce-models"]);
        cmds.push((b, &full));
        let (tx, rx) = std::sync::mpsc::channel();
        let mut kids = vec![];
        for (mut cmd, text) in cmds {
            let Ok(mut ch) = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else {
                continue;
            };
            let mut i = ch.stdin.take().unwrap();
            let text = text.to_string();
            std::thread::spawn(move || {
                let _ = i.write_all(text.as_bytes());
            });
            let mut o = ch.stdout.take().unwrap();
            let tx = tx.clone();
            std::thread::spawn(move || {
                let mut s = String::new();
                let _ = o.read_to_string(&mut s);
                let _ = tx.send(s);
            });
            kids.push(ch);
        }
        let n = kids.len();
        let mut res = Res::Unknown("timeout".into());
        let dl = Instant::now() + Duration::from_secs(t + 5);
        for _ in 0..n {
            let left = dl.saturating_duration_since(Instant::now());
            match rx.recv_timeout(left) {
                Ok(s) => {
                    let first = s.lines().next().unwrap_or("").trim().to_string();
                    if s.contains("(error") && first != "unsat" {
                        continue;
                    }
                    if first == "unsat" {
                        res = Res::Unsat;
                        break;
                    }
                    if first == "sat" {
                        let mut m = Model::default();
                        parse_values(&s[first.len()..], &mut m);
                        res = Res::Sat(m);
                        break;
                    }
                }
                Err(_) => break,
            }
        }
        for mut k in kids {
            let _ = k.kill();
            let _ = k.wait();
        }
        res
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn parse_values(t: &str, m: &mut Model) {
    // ((v0 #x00) (v1 #b0101) (v2 true) ...)
    let toks: Vec<String> = t
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|s| s.to_string())
        .collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(id) = toks[i].strip_prefix('v').and_then(|x| x.parse::<u32>().ok()) {
            let v = &toks[i + 1];
            let val = if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()
            } else if let Some(b) = v.strip_prefix("#b") {
                u128::from_str_radix(b, 2).ok()
            } else if v == "true" {
                Some(1)
            } else if v == "false" {
                Some(0)
            } else {
                None
            };
            if let Some(x) = val {
                m.insert(id, x);
            }
            i += 2;
        } else {
            i += 1;
        }
    }
}

#[allow(dead_code)]
pub type DefMap = HashMap<E, String>;
