//! Lazy parser for textual LLVM IR (opaque pointers), as emitted by rustc.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for f in fs.iter() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += f.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
        }
    }
    /// bit width of a scalar
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = f.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k as u64 == i {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn is_vec(&self) -> bool {
        matches!(self, Ty::Vec(..))
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u128, u16),
    S(u32),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast/ptrtoint/inttoptr (resize zero ext)
    FpToSi,
    FpToUi,
    SiToFp,
    UiToFp,
    FpCast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Name(u32), // function table id
    Dyn(Op),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca(u32, u64, Option<Op>),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u16, i64)>),
    Bin(u32, BinOp, Ty, Op, Op),
    FNeg(u32, Ty, Op),
    Cmp(u32, Pred, Ty, Op, Op),
    FCmp(u32, String, Ty, Op, Op),
    Cast(u32, CastK, Ty, Ty, Op),
    Select(u32, Op, bool, Ty, Op, Op),
    Extract(u32, Op, Vec<u64>),
    Insert(u32, Op, Op, Vec<u64>),
    ExtElt(u32, Op, Op),
    InsElt(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<Option<u64>>, u32),
    Call {
        dst: Option<u32>,
        callee: Callee,
        args: Vec<(Op, Ty, Option<u64>)>,
        rty: Ty,
        normal: Option<u32>,
    },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    AtomicRmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Freeze(u32, Op),
    Nop,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
    pub name: String,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nregs: u32,
}

pub const GLOBAL_BASE: u64 = 0x0010_0000; // id space (upper 32 bits of address)
pub const HEAP_BASE: u64 = 0x1000_0000;
pub const STACK_BASE: u64 = 0x2000_0000;
pub const FN_BASE: u64 = 0x3000_0000;

pub struct Module {
    pub text: &'static [u8],
    pub fn_ids: HashMap<String, u32>,
    pub fns: Vec<FnDecl>,
    pub g_ids: HashMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub types: HashMap<String, Ty>,
}
pub struct FnDecl {
    pub name: String,
    pub range: Option<(usize, usize)>,
    pub weak_ext: bool,
}
pub struct GlobalDecl {
    pub name: String,
    pub pos: usize,
    pub end: usize,
    pub alias: bool,
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'$' | b'.' | b'_' | b'-')
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
    pub m: &'a mut Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nregs: u32,
}

impl Module {
    pub fn index(text: &'static [u8]) -> Module {
        let mut m = Module {
            text,
            fn_ids: HashMap::new(),
            fns: vec![],
            g_ids: HashMap::new(),
            globals: vec![],
            types: HashMap::new(),
        };
        let mut i = 0;
        let n = text.len();
        let mut typedefs = vec![];
        while i < n {
            let e = memchr(b'\n', text, i);
            let line = &text[i..e];
            if line.starts_with(b"@") {
                let (name, after) = read_name(text, i + 1);
                let head = &text[after..e];
                let alias = find(head, b" alias ").is_some() && find(head, b" global ").is_none() && find(head, b" constant ").is_none();
                let id = m.globals.len() as u32;
                m.g_ids.insert(name.clone(), id);
                m.globals.push(GlobalDecl { name, pos: after, end: e, alias });
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let at = i + find(line, b" @").unwrap() + 2;
                let (name, _) = read_name(text, at);
                let is_def = line.starts_with(b"define");
                let mut end = e;
                if is_def {
                    // find "\n}"
                    let mut k = e;
                    loop {
                        if text[k] == b'\n' && text[k + 1] == b'}' {
                            end = k + 2;
                            break;
                        }
                        k = memchr(b'\n', text, k + 1);
                    }
                }
                let id = m.fns.len() as u32;
                m.fn_ids.insert(name.clone(), id);
                m.fns.push(FnDecl {
                    name,
                    range: if is_def { Some((i, end)) } else { None },
                    weak_ext: find(line, b"extern_weak").is_some(),
                });
                i = end;
                if is_def {
                    i = memchr(b'\n', text, i);
                }
                i += 1;
                continue;
            } else if line.starts_with(b"%") {
                typedefs.push(i);
            }
            i = e + 1;
        }
        for t in typedefs {
            let (name, after) = read_name(text, t + 1);
            let mut p = P::new(text, after, &mut m);
            p.ws();
            p.expect(b'=');
            p.ws();
            p.word(); // type
            let ty = p.ty();
            m.types.insert(name, ty);
        }
        m
    }
    pub fn fn_addr(id: u32) -> u64 {
        (FN_BASE + id as u64) << 32
    }
    pub fn g_addr(id: u32) -> u64 {
        (GLOBAL_BASE + id as u64) << 32
    }
}

pub fn memchr(c: u8, s: &[u8], mut i: usize) -> usize {
    while i < s.len() && s[i] != c {
        i += 1;
    }
    i
}
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if h.len() < n.len() {
        return None;
    }
    (0..=h.len() - n.len()).find(|&i| &h[i..i + n.len()] == n)
}
fn read_name(s: &[u8], i: usize) -> (String, usize) {
    if s[i] == b'"' {
        let e = memchr(b'"', s, i + 1);
        (String::from_utf8_lossy(&s[i + 1..e]).into_owned(), e + 1)
    } else {
        let mut e = i;
        while e < s.len() && is_name(s[e]) {
            e += 1;
        }
        (String::from_utf8_lossy(&s[i..e]).into_owned(), e)
    }
}

pub fn zero(ty: &Ty) -> Val {
    match ty {
        Ty::Arr(n, t) => Val::Agg(Rc::new(vec![zero(t); *n as usize])),
        Ty::Vec(n, t) => Val::Agg(Rc::new(vec![zero(t); *n as usize])),
        Ty::Struct(fs, _) => Val::Agg(Rc::new(fs.iter().map(zero).collect())),
        t => Val::I(0, t.bits()),
    }
}

const CONST_KW: &[&str] = &[
    "null", "undef", "poison", "zeroinitializer", "true", "false", "splat", "getelementptr", "inttoptr", "ptrtoint",
    "ptrtoaddr", "bitcast", "add", "sub", "xor", "trunc", "none", "asm", "addrspacecast", "mul", "shl", "and", "or",
];

impl<'a> P<'a> {
    pub fn new(s: &'a [u8], i: usize, m: &'a mut Module) -> P<'a> {
        P { s, i, m, regs: HashMap::new(), labels: HashMap::new(), nregs: 0 }
    }
    pub fn ws(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.i += 1
            } else if c == b';' {
                self.i = memchr(b'\n', self.s, self.i);
            } else {
                break;
            }
        }
    }
    /// whitespace without crossing the line
    fn sp(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1
        }
    }
    pub fn pk(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    pub fn expect(&mut self, c: u8) {
        self.ws();
        if self.pk() != c {
            let e = (self.i + 120).min(self.s.len());
            let b = self.i.saturating_sub(120);
            panic!(
                "ll parse: expected '{}' at: {} <<<HERE>>> {}",
                c as char,
                String::from_utf8_lossy(&self.s[b..self.i]),
                String::from_utf8_lossy(&self.s[self.i..e])
            );
        }
        self.i += 1;
    }
    fn eat(&mut self, c: u8) -> bool {
        let save = self.i;
        self.ws();
        if self.pk() == c {
            self.i += 1;
            true
        } else {
            self.i = save;
            false
        }
    }
    fn peek_word(&self) -> &'a [u8] {
        let mut e = self.i;
        while e < self.s.len() && is_name(self.s[e]) {
            e += 1
        }
        &self.s[self.i..e]
    }
    pub fn word(&mut self) -> String {
        self.ws();
        let w = self.peek_word();
        self.i += w.len();
        String::from_utf8_lossy(w).into_owned()
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let save = self.i;
        self.ws();
        if self.peek_word() == w.as_bytes() {
            self.i += w.len();
            true
        } else {
            self.i = save;
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.pk() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i = memchr(b'"', self.s, self.i + 1);
                }
                0 => return,
                _ => {}
            }
            self.i += 1;
        }
    }
    fn num(&mut self) -> u64 {
        self.ws();
        let b = self.i;
        while self.pk().is_ascii_digit() {
            self.i += 1
        }
        std::str::from_utf8(&self.s[b..self.i]).unwrap().parse().unwrap_or_else(|_| {
            panic!("num at {}", String::from_utf8_lossy(&self.s[b.saturating_sub(40)..(b + 40).min(self.s.len())]))
        })
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        match self.pk() {
            b'[' => {
                self.i += 1;
                let n = self.num();
                self.eat_word("x");
                let t = self.ty();
                self.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(b'}') {
                    v.push(self.ty());
                    self.eat(b',');
                }
                Ty::Struct(Rc::new(v), false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let mut v = vec![];
                    while !self.eat(b'}') {
                        v.push(self.ty());
                        self.eat(b',');
                    }
                    self.expect(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = self.num();
                    self.eat_word("x");
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vec(n as u32, Rc::new(t))
                }
            }
            b'%' => {
                let (n, e) = read_name(self.s, self.i + 1);
                self.i = e;
                self.m.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "ptr" => {
                        if self.eat_word("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    x if x.starts_with('i') && x[1..].parse::<u16>().is_ok() => Ty::Int(x[1..].parse().unwrap()),
                    "half" => Ty::Int(16),
                    "x86_fp80" | "fp128" | "label" | "metadata" | "token" | "opaque" => Ty::Other,
                    _ => panic!(
                        "unknown type '{}' near {}",
                        w,
                        String::from_utf8_lossy(&self.s[self.i.saturating_sub(80)..(self.i + 60).min(self.s.len())])
                    ),
                }
            }
        }
    }
    fn skip_attrs(&mut self) -> (Option<u64>, bool) {
        // returns byval size
        let mut byval = None;
        loop {
            self.ws();
            let c = self.pk();
            if c == b'"' {
                self.i = memchr(b'"', self.s, self.i + 1) + 1;
                if self.pk() == b'=' {
                    self.i += 1;
                    self.i = memchr(b'"', self.s, self.i + 1) + 1;
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.num();
                continue;
            }
            if !c.is_ascii_lowercase() {
                break;
            }
            let w = self.peek_word();
            let ws = std::str::from_utf8(w).unwrap();
            if CONST_KW.contains(&ws) {
                break;
            }
            if (ws == "c" && self.s.get(self.i + 1) == Some(&b'"')) || ws.starts_with("f0x") {
                break;
            }
            self.i += w.len();
            if ws == "align" {
                self.ws();
                if self.pk() == b'(' {
                    self.skip_parens();
                } else {
                    self.num();
                }
                continue;
            }
            if ws == "byval" {
                self.expect(b'(');
                let t = self.ty();
                self.expect(b')');
                byval = Some(t.size());
                continue;
            }
            if self.pk() == b'(' {
                self.skip_parens();
            }
        }
        (byval, true)
    }
    fn reg(&mut self, n: String) -> u32 {
        if let Some(r) = self.regs.get(&n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn label(&mut self, n: String) -> u32 {
        let k = self.labels.len() as u32;
        *self.labels.entry(n).or_insert(k)
    }
    pub fn op(&mut self, ty: &Ty) -> Op {
        self.ws();
        if self.pk() == b'%' {
            let (n, e) = read_name(self.s, self.i + 1);
            self.i = e;
            return Op::Reg(self.reg(n));
        }
        Op::C(self.konst(ty))
    }
    fn cu(&mut self, ty: &Ty) -> u128 {
        match self.konst(ty) {
            Val::I(v, _) => v,
            _ => panic!("aggregate const"),
        }
    }
    pub fn konst(&mut self, ty: &Ty) -> Val {
        self.ws();
        let c = self.pk();
        let w = ty.bits();
        if c == b'@' {
            let (n, e) = read_name(self.s, self.i + 1);
            self.i = e;
            return Val::I(self.global_addr(&n) as u128, 64);
        }
        if c == b'[' || c == b'{' || c == b'<' {
            self.i += 1;
            if c == b'<' {
                self.ws();
                if self.pk() == b'{' {
                    self.i += 1;
                }
            }
            let mut v = vec![];
            loop {
                self.ws();
                let k = self.pk();
                if k == b']' || k == b'}' || k == b'>' {
                    self.i += 1;
                    if k == b'}' && self.pk() == b'>' {
                        self.i += 1;
                    }
                    break;
                }
                let t = self.ty();
                v.push(self.konst(&t));
                self.eat(b',');
            }
            return Val::Agg(Rc::new(v));
        }
        if c == b'-' || c == b'+' || c.is_ascii_digit() {
            let neg = c == b'-';
            let b = self.i;
            if neg || c == b'+' {
                self.i += 1
            }
            while is_name(self.pk()) || self.pk() == b'+' {
                self.i += 1
            }
            let t = std::str::from_utf8(&self.s[b..self.i]).unwrap();
            match ty {
                Ty::F32 | Ty::F64
                    if t.ends_with("inf") || t.ends_with("nan") =>
                {
                    let (eb, mb) = if *ty == Ty::F64 { (11, 52) } else { (8, 23) };
                    let exp = ((1u128 << eb) - 1) << mb;
                    let mut bits = if t.ends_with("inf") { exp } else { exp | 1 << (mb - 1) };
                    if t.ends_with("nan") && self.pk() == b'(' {
                        // +nan(0x1), +snan(0x1)
                        let e = self.i + 1;
                        while self.pk() != b')' {
                            self.i += 1
                        }
                        let h = std::str::from_utf8(&self.s[e..self.i]).unwrap().trim_start_matches("0x");
                        bits = u128::from_str_radix(h, 16).unwrap() | exp;
                        if !t.contains("snan") {
                            bits |= 1 << (mb - 1)
                        }
                        self.i += 1;
                    }
                    if neg {
                        bits |= 1 << (eb + mb)
                    }
                    return Val::I(bits, w);
                }
                Ty::F32 | Ty::F64 => {
                    let bits64 = if let Some(h) = t.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else {
                        t.parse::<f64>().unwrap().to_bits()
                    };
                    if *ty == Ty::F64 {
                        return Val::I(bits64 as u128, 64);
                    }
                    return Val::I((f64::from_bits(bits64) as f32).to_bits() as u128, 32);
                }
                _ => {
                    let v: u128 = if neg {
                        if let Ok(x) = t.parse::<i128>() {
                            x as u128
                        } else {
                            panic!("int {}", t)
                        }
                    } else {
                        t.parse::<u128>().unwrap_or_else(|_| panic!("int {}", t))
                    };
                    return Val::I(v & crate::expr::mask(w), w);
                }
            }
        }
        let wd = self.word();
        match wd.as_str() {
            "true" => Val::I(1, 1),
            "false" => Val::I(0, 1),
            "null" | "undef" | "poison" | "zeroinitializer" | "none" => zero(ty),
            "c" => {
                // c"..."
                self.i += 1;
                let mut v = vec![];
                loop {
                    let ch = self.pk();
                    self.i += 1;
                    if ch == b'"' {
                        break;
                    }
                    if ch == b'\\' && self.pk() == b'\\' {
                        v.push(Val::I(b'\\' as u128, 8));
                        self.i += 1;
                    } else if ch == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                        v.push(Val::I(u8::from_str_radix(h, 16).unwrap() as u128, 8));
                        self.i += 2;
                    } else {
                        v.push(Val::I(ch as u128, 8));
                    }
                }
                Val::Agg(Rc::new(v))
            }
            "splat" => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.konst(&t);
                self.expect(b')');
                if let Ty::Vec(n, _) = ty {
                    Val::Agg(Rc::new(vec![v; *n as usize]))
                } else {
                    v
                }
            }
            "getelementptr" => {
                loop {
                    self.ws();
                    if self.pk() == b'(' {
                        break;
                    }
                    self.word();
                    self.ws();
                    // inrange(...)
                    if self.pk() == b'(' && self.s[..self.i].ends_with(b"inrange") {
                        self.skip_parens();
                    }
                }
                self.expect(b'(');
                let t = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.cu(&pt) as u64;
                let mut off = 0i64;
                let mut cur = t.clone();
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty();
                    let v = self.cu(&it);
                    let iv = crate::expr::sext128(v, it.bits()) as i64;
                    if first {
                        off += iv * t.size() as i64;
                        first = false;
                    } else {
                        let (o, nt) = cur.field_off(iv as u64);
                        off += o as i64;
                        cur = nt;
                    }
                }
                self.expect(b')');
                Val::I(base.wrapping_add(off as u64) as u128, 64)
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                self.expect(b'(');
                let t = self.ty();
                let v = self.cu(&t);
                self.eat_word("to");
                let t2 = self.ty();
                self.expect(b')');
                Val::I(v & crate::expr::mask(t2.bits()), t2.bits())
            }
            "add" | "sub" | "xor" | "mul" => {
                loop {
                    self.ws();
                    if self.pk() == b'(' {
                        break;
                    }
                    self.word();
                }
                self.expect(b'(');
                let t = self.ty();
                let a = self.cu(&t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.cu(&t2);
                self.expect(b')');
                let r = match wd.as_str() {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                Val::I(r & crate::expr::mask(t.bits()), t.bits())
            }
            x if x.starts_with("f0x") => {
                let bits = u64::from_str_radix(&x[3..], 16).unwrap();
                Val::I(bits as u128, w)
            }
            _ => panic!(
                "unknown constant '{}' ({:?}) near {}",
                wd,
                ty,
                String::from_utf8_lossy(&self.s[self.i.saturating_sub(100)..(self.i + 60).min(self.s.len())])
            ),
        }
    }
    fn global_addr(&mut self, n: &str) -> u64 {
        if let Some(id) = self.m.fn_ids.get(n) {
            if self.m.fns[*id as usize].weak_ext {
                return 0;
            }
            return Module::fn_addr(*id);
        }
        let id = *self.m.g_ids.get(n).unwrap_or_else(|| panic!("unknown global {}", n));
        if self.m.globals[id as usize].alias {
            // alias: parse aliasee "alias ty, ptr @x"
            let pos = self.m.globals[id as usize].pos;
            let text: &'static [u8] = self.m.text;
            let e = self.m.globals[id as usize].end;
            let k = pos + find(&text[pos..e], b" alias ").unwrap() + 7;
            let mut p = P::new(text, k, self.m);
            // function type may be "void (ptr)" - skip to first ", ptr"
            p.i = k + find(&text[k..e], b", ptr ").unwrap() + 6;
            return p.cu(&Ty::Ptr) as u64;
        }
        Module::g_addr(id)
    }
    /// Parse the type and initialiser of a global.
    pub fn global(m: &'a mut Module, id: u32) -> (Ty, Option<Val>, bool) {
        let text: &'static [u8] = m.text;
        let pos = m.globals[id as usize].pos;
        let mut p = P::new(text, pos, m);
        p.expect(b'=');
        let mut external = false;
        let konst;
        loop {
            p.ws();
            let w = p.word();
            match w.as_str() {
                "external" | "extern_weak" => external = true,
                "global" => {
                    konst = false;
                    break;
                }
                "constant" => {
                    konst = true;
                    break;
                }
                "thread_local" | "addrspace" => {
                    if p.pk() == b'(' {
                        p.skip_parens()
                    }
                }
                "" => panic!("global {}", p.m.globals[id as usize].name),
                _ => {}
            }
        }
        let ty = p.ty();
        let v = if external { None } else { Some(p.konst(&ty)) };
        (ty, v, konst)
    }

    fn rest_of_line(&mut self) {
        self.i = memchr(b'\n', self.s, self.i);
    }

    pub fn func(m: &'a mut Module, id: u32) -> Func {
        let text: &'static [u8] = m.text;
        let (b, e) = m.fns[id as usize].range.unwrap();
        let name = m.fns[id as usize].name.clone();
        let s = &text[b..e];
        let mut p = P::new(s, 0, m);
        let at = find(s, b" @").unwrap() + 2;
        let (_, after) = read_name(s, at);
        p.i = after;
        p.expect(b'(');
        let mut params = vec![];
        let mut idx = 0;
        loop {
            p.ws();
            if p.eat(b')') {
                break;
            }
            if p.s[p.i..].starts_with(b"...") {
                p.i += 3;
                continue;
            }
            let _t = p.ty();
            p.skip_attrs();
            p.ws();
            let r = if p.pk() == b'%' {
                let (n, e) = read_name(p.s, p.i + 1);
                p.i = e;
                p.reg(n)
            } else {
                p.reg(format!("{}", idx))
            };
            params.push(r);
            idx += 1;
            p.eat(b',');
        }
        p.rest_of_line();
        let mut blocks: Vec<Block> = vec![];
        let entry_name = {
            // unnamed entry gets next number
            let unnamed = params.len();
            format!("{}", unnamed)
        };
        // order blocks by label id; we collect (label id, Block)
        let mut got: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<(u32, Block)> = None;
        loop {
            p.ws();
            let c = p.pk();
            if c == b'}' || c == 0 {
                break;
            }
            // label?
            let save = p.i;
            let (nm, e2) = if c == b'"' || is_name(c) { read_name(p.s, p.i) } else { (String::new(), p.i) };
            if e2 > save && p.s[e2] == b':' {
                p.i = e2 + 1;
                p.sp();
                if p.pk() == b';' {
                    p.rest_of_line();
                }
                if let Some((k, b)) = cur.take() {
                    got.insert(k, b);
                }
                let k = p.label(nm.clone());
                cur = Some((k, Block { name: nm, ..Default::default() }));
                continue;
            }
            if cur.is_none() {
                let k = p.label(entry_name.clone());
                cur = Some((k, Block { name: entry_name.clone(), ..Default::default() }));
            }
            p.inst(&mut cur.as_mut().unwrap().1);
            p.rest_of_line();
        }
        if let Some((k, b)) = cur.take() {
            got.insert(k, b);
        }
        let n = p.labels.len() as u32;
        for k in 0..n {
            blocks.push(got.remove(&k).unwrap_or_default());
        }
        let nregs = p.nregs;
        Func { name, params, blocks, nregs }
    }

    fn lab(&mut self) -> u32 {
        self.ws();
        self.eat_word("label");
        self.ws();
        self.expect(b'%');
        let (n, e) = read_name(self.s, self.i);
        self.i = e;
        self.label(n)
    }

    fn flags(&mut self, f: &[&str]) {
        loop {
            self.ws();
            let w = self.peek_word();
            let ws = std::str::from_utf8(w).unwrap_or("");
            if f.contains(&ws) {
                self.i += w.len();
            } else {
                return;
            }
        }
    }

    fn inst(&mut self, blk: &mut Block) {
        self.ws();
        let mut dst = None;
        if self.pk() == b'%' {
            let (n, e) = read_name(self.s, self.i + 1);
            self.i = e;
            dst = Some(self.reg(n));
            self.expect(b'=');
        }
        let d = dst.unwrap_or(0);
        let mut w = self.word();
        if w == "tail" || w == "musttail" || w == "notail" {
            w = self.word();
        }
        let arith: &[&str] = &[
            "nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
            "nneg", "samesign", "inbounds", "nusw", "inrange", "volatile", "atomic", "weak",
        ];
        let bop = |w: &str| -> Option<BinOp> {
            Some(match w {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "sdiv" => BinOp::SDiv,
                "urem" => BinOp::URem,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "fadd" => BinOp::FAdd,
                "fsub" => BinOp::FSub,
                "fmul" => BinOp::FMul,
                "fdiv" => BinOp::FDiv,
                "frem" => BinOp::FRem,
                _ => return None,
            })
        };
        if let Some(o) = bop(&w) {
            self.flags(arith);
            let t = self.ty();
            let a = self.op(&t);
            self.expect(b',');
            let b = self.op(&t);
            blk.insts.push(Inst::Bin(d, o, t, a, b));
            return;
        }
        let inst = match w.as_str() {
            "alloca" => {
                self.eat_word("inalloca");
                let t = self.ty();
                let mut cnt = None;
                self.sp();
                if self.pk() == b',' {
                    let save = self.i;
                    self.i += 1;
                    self.ws();
                    if self.pk() == b'i' {
                        let ct = self.ty();
                        cnt = Some(self.op(&ct));
                    } else {
                        self.i = save;
                    }
                }
                Inst::Alloca(d, t.size(), cnt)
            }
            "load" => {
                self.flags(arith);
                let t = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let p = self.op(&pt);
                Inst::Load(d, t, p)
            }
            "store" => {
                self.flags(arith);
                let t = self.ty();
                let v = self.op(&t);
                self.expect(b',');
                let pt = self.ty();
                let p = self.op(&pt);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags(arith);
                let t = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.op(&pt);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t.clone();
                let mut first = true;
                let mut bad = pt.is_vec();
                loop {
                    self.sp();
                    if self.pk() != b',' {
                        break;
                    }
                    let save = self.i;
                    self.i += 1;
                    self.ws();
                    if self.pk() == b'!' {
                        self.i = save;
                        break;
                    }
                    let it = self.ty();
                    if it.is_vec() {
                        bad = true;
                    }
                    let o = self.op(&it);
                    let (scale, nt) = if first {
                        (t.size() as i64, t.clone())
                    } else {
                        match (&cur, &o) {
                            (Ty::Struct(..), Op::C(Val::I(v, _))) => {
                                let (fo, nt) = cur.field_off(*v as u64);
                                off += fo as i64;
                                (0, nt)
                            }
                            (Ty::Arr(_, et), _) | (Ty::Vec(_, et), _) => (et.size() as i64, (**et).clone()),
                            _ => panic!("gep"),
                        }
                    };
                    first = false;
                    cur = nt;
                    if scale != 0 {
                        match o {
                            Op::C(Val::I(v, _)) => off += crate::expr::sext128(v, it.bits()) as i64 * scale,
                            o => idx.push((o, it.bits(), scale)),
                        }
                    }
                }
                if bad {
                    Inst::Unsupported("vector gep".into())
                } else {
                    Inst::Gep(d, base, off, idx)
                }
            }
            "fneg" => {
                self.flags(arith);
                let t = self.ty();
                let a = self.op(&t);
                Inst::FNeg(d, t, a)
            }
            "icmp" => {
                self.flags(arith);
                let pw = self.word();
                let pred = match pw.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => panic!("icmp {}", pw),
                };
                let t = self.ty();
                let a = self.op(&t);
                self.expect(b',');
                let b = self.op(&t);
                Inst::Cmp(d, pred, t, a, b)
            }
            "fcmp" => {
                self.flags(arith);
                let pw = self.word();
                let t = self.ty();
                let a = self.op(&t);
                self.expect(b',');
                let b = self.op(&t);
                Inst::FCmp(d, pw, t, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "fptosi" | "fptoui"
            | "sitofp" | "uitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                self.flags(arith);
                let t = self.ty();
                let a = self.op(&t);
                self.eat_word("to");
                let t2 = self.ty();
                let k = match w.as_str() {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "fptosi" => CastK::FpToSi,
                    "fptoui" => CastK::FpToUi,
                    "sitofp" => CastK::SiToFp,
                    "uitofp" => CastK::UiToFp,
                    "fpext" | "fptrunc" => CastK::FpCast,
                    _ => CastK::Bit,
                };
                Inst::Cast(d, k, t, t2, a)
            }
            "select" => {
                self.flags(arith);
                let ct = self.ty();
                let c = self.op(&ct);
                self.expect(b',');
                let t = self.ty();
                let a = self.op(&t);
                self.expect(b',');
                let _ = self.ty();
                let b = self.op(&t);
                Inst::Select(d, c, ct.is_vec(), t, a, b)
            }
            "extractvalue" => {
                let t = self.ty();
                let a = self.op(&t);
                let mut path = vec![];
                loop {
                    self.sp();
                    if self.pk() != b',' {
                        break;
                    }
                    self.i += 1;
                    self.ws();
                    if self.pk() == b'!' {
                        break;
                    }
                    path.push(self.num());
                }
                Inst::Extract(d, a, path)
            }
            "insertvalue" => {
                let t = self.ty();
                let a = self.op(&t);
                self.expect(b',');
                let vt = self.ty();
                let v = self.op(&vt);
                let mut path = vec![];
                loop {
                    self.sp();
                    if self.pk() != b',' {
                        break;
                    }
                    self.i += 1;
                    self.ws();
                    if self.pk() == b'!' {
                        break;
                    }
                    path.push(self.num());
                }
                Inst::Insert(d, a, v, path)
            }
            "extractelement" => {
                let t = self.ty();
                let a = self.op(&t);
                self.expect(b',');
                let it = self.ty();
                let i = self.op(&it);
                Inst::ExtElt(d, a, i)
            }
            "insertelement" => {
                let t = self.ty();
                let a = self.op(&t);
                self.expect(b',');
                let vt = self.ty();
                let v = self.op(&vt);
                self.expect(b',');
                let it = self.ty();
                let i = self.op(&it);
                Inst::InsElt(d, a, v, i)
            }
            "shufflevector" => {
                let t = self.ty();
                let a = self.op(&t);
                self.expect(b',');
                let _ = self.ty();
                let b = self.op(&t);
                self.expect(b',');
                let mt = self.ty();
                let mk = self.konst(&mt);
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                let mut mv = vec![];
                if let Val::Agg(v) = mk {
                    for x in v.iter() {
                        if let Val::I(k, _) = x {
                            mv.push(Some(*k as u64));
                        }
                    }
                }
                Inst::Shuffle(d, a, b, mv, n)
            }
            "phi" => {
                self.flags(arith);
                let t = self.ty();
                let mut inc = vec![];
                loop {
                    self.ws();
                    if self.pk() != b'[' {
                        break;
                    }
                    self.i += 1;
                    let o = self.op(&t);
                    self.expect(b',');
                    self.expect(b'%');
                    let (n, e) = read_name(self.s, self.i);
                    self.i = e;
                    let l = self.label(n);
                    self.expect(b']');
                    inc.push((l, o));
                    self.sp();
                    if self.pk() == b',' {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                blk.phis.push((d, t, inc));
                return;
            }
            "call" | "invoke" => {
                loop {
                    self.ws();
                    // calling convention / flags / return attributes
                    let wv = self.peek_word();
                    let ws = std::str::from_utf8(wv).unwrap_or("");
                    let is_ty = matches!(ws, "void" | "float" | "double" | "ptr" | "half" | "token")
                        || (ws.starts_with('i') && ws.len() > 1 && ws[1..].bytes().all(|c| c.is_ascii_digit()));
                    if is_ty || wv.is_empty() {
                        break;
                    }
                    self.i += wv.len();
                    if ws == "align" {
                        self.num();
                    } else if self.pk() == b'(' {
                        self.skip_parens();
                    }
                }
                let rty = self.ty();
                self.ws();
                if self.pk() == b'(' {
                    self.skip_parens(); // function type
                }
                self.ws();
                let callee;
                if self.pk() == b'@' {
                    let (n, e) = read_name(self.s, self.i + 1);
                    self.i = e;
                    match self.m.fn_ids.get(&n) {
                        Some(id) => callee = Callee::Name(*id),
                        None => {
                            let a = self.global_addr(&n);
                            callee = Callee::Dyn(Op::C(Val::I(a as u128, 64)));
                        }
                    }
                } else if self.pk() == b'%' {
                    let (n, e) = read_name(self.s, self.i + 1);
                    self.i = e;
                    let r = self.reg(n);
                    callee = Callee::Dyn(Op::Reg(r));
                } else if self.eat_word("asm") {
                    // asm ... "..", ".."(args): black_box style asm is a no-op
                    let e = memchr(b'\n', self.s, self.i);
                    let line = String::from_utf8_lossy(&self.s[self.i..e]).into_owned();
                    let nop = line.contains("\"\", ");
                    blk.insts.push(if nop { Inst::Nop } else { Inst::Unsupported(format!("asm {}", line)) });
                    if w == "invoke" {
                        panic!("invoke asm");
                    }
                    return;
                } else {
                    let o = self.op(&Ty::Ptr);
                    callee = Callee::Dyn(o);
                }
                self.expect(b'(');
                let mut args = vec![];
                let mut meta = false;
                loop {
                    self.ws();
                    if self.eat(b')') {
                        break;
                    }
                    if self.peek_word() == b"metadata" {
                        // skip to closing paren
                        let mut depth = 1;
                        while depth > 0 {
                            match self.pk() {
                                b'(' => depth += 1,
                                b')' => depth -= 1,
                                _ => {}
                            }
                            self.i += 1;
                        }
                        meta = true;
                        break;
                    }
                    let t = self.ty();
                    let (bv, _) = self.skip_attrs();
                    let o = self.op(&t);
                    args.push((o, t, bv));
                    self.eat(b',');
                }
                let mut normal = None;
                if w == "invoke" {
                    let k = find(&self.s[self.i..], b"to label").unwrap();
                    self.i += k + 3;
                    normal = Some(self.lab());
                    self.eat_word("unwind");
                    self.lab();
                }
                if meta {
                    Inst::Nop
                } else {
                    Inst::Call { dst, callee, args, rty, normal }
                }
            }
            "br" => {
                self.ws();
                if self.peek_word() == b"label" {
                    Inst::Br(self.lab())
                } else {
                    let t = self.ty();
                    let c = self.op(&t);
                    self.expect(b',');
                    let a = self.lab();
                    self.expect(b',');
                    let b = self.lab();
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty();
                let v = self.op(&t);
                self.expect(b',');
                let def = self.lab();
                self.expect(b'[');
                let mut cases = vec![];
                loop {
                    self.ws();
                    if self.eat(b']') {
                        break;
                    }
                    let ct = self.ty();
                    let k = self.cu(&ct);
                    self.expect(b',');
                    let l = self.lab();
                    cases.push((k, l));
                }
                Inst::Switch(t, v, def, cases)
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.op(&t)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "freeze" => {
                let t = self.ty();
                let a = self.op(&t);
                Inst::Freeze(d, a)
            }
            "atomicrmw" => {
                self.flags(arith);
                let o = self.word();
                let pt = self.ty();
                let p = self.op(&pt);
                self.expect(b',');
                let t = self.ty();
                let v = self.op(&t);
                Inst::AtomicRmw(d, o, t, p, v)
            }
            "cmpxchg" => {
                self.flags(arith);
                let pt = self.ty();
                let p = self.op(&pt);
                self.expect(b',');
                let t = self.ty();
                let c = self.op(&t);
                self.expect(b',');
                let _ = self.ty();
                let n = self.op(&t);
                Inst::CmpXchg(d, t, p, c, n)
            }
            "landingpad" => {
                // skip clauses
                loop {
                    self.rest_of_line();
                    let save = self.i;
                    self.ws();
                    let w = self.peek_word();
                    if w == b"cleanup" || w == b"catch" || w == b"filter" {
                        continue;
                    }
                    self.i = save;
                    break;
                }
                Inst::Unsupported("landingpad".into())
            }
            "resume" | "cleanupret" | "catchswitch" | "catchpad" | "cleanuppad" | "catchret" => {
                Inst::Unsupported(w.clone())
            }
            _ => panic!(
                "unknown instruction '{}' near {}",
                w,
                String::from_utf8_lossy(&self.s[self.i.saturating_sub(60)..(self.i + 80).min(self.s.len())])
            ),
        };
        blk.insts.push(inst);
    }
}
