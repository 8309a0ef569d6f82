//! Reading quantities from text (C17).
use crate::core_::*;
use crate::round::Val;
use crate::scale::*;
use crate::sym::*;
use crate::ty::*;
use whippyunits::serialization::*;

pub const ABS: f64 = 1e-150;
pub fn number(name: &'static str) -> f64 {
    let v: f64 = any(name);
    assume(v.abs() <= 1e100);
    v
}
pub fn unit_si(o: &Or, p: i16) -> f64 {
    o.val * POWPI[(o.pi + 40) as usize] * POW2[(p + 200) as usize] * POW5[(p + 200) as usize]
}
pub fn off_abs(o: &Or) -> f64 {
    1e-9 * (o.off != 0.0) as u8 as f64 + ABS
}
/// the index of the coherent type of a dimension
pub fn type_of(d: &[i16; 8]) -> usize {
    let mut i = 0;
    while i < TYPES.len() {
        if TYPES[i].d == *d {
            return i;
        }
        i += 2;
    }
    panic!("no type of this dimension")
}
/// a type of some other dimension
pub fn other(i: usize) -> usize {
    (i + 2) % TYPES.len()
}
fn reads(t: &Ty, v: f64, text: &str, o: &Or, p: i16) {
    let want = (v + o.off) * (unit_si(o, p) / t.si());
    match (t.read)(v, text) {
        Some(x) => close(x, want, o.tol, off_abs(o), "physical-value"),
        None => check(false, "reads"),
    }
}
fn both(i: usize, v: f64, text: &str, o: &Or, p: i16) {
    reads(&TYPES[i], v, text, o, p);
    reads(&TYPES[i + 1], v, text, o, p);
    check((TYPES[other(i)].read)(v, text).is_none(), "other-dimension-refused");
}
fn units() -> (usize, usize) {
    let n = ORACLE.len();
    let (b, of) = (param(0) as usize, param(1) as usize);
    (b * n / of, (b + 1) * n / of)
}
/// every unit of a block, by symbol and by name: params block, of, mode (1: prefixed, 2: into every other dimension)
pub fn h_read_unit() {
    let (lo, hi) = units();
    let v = number("v");
    let mut buf = [0u8; 40];
    for k in lo..hi {
        let o = &ORACLE[k];
        let i = type_of(&o.dims);
        if param(2) == 2 {
            for t in TYPES {
                check(t.d == o.dims || (t.read)(v, o.name).is_none(), "other-dimension-refused");
            }
        } else if param(2) == 0 {
            for s in o.syms {
                both(i, v, s, o, 0);
            }
            both(i, v, o.name, o, 0);
            match (TYPES[i].core)(v, o.name) {
                Some(x) => close(x, (v + o.off) * unit_si(o, 0), o.tol, off_abs(o), "physical-value"),
                None => check(false, "reads"),
            }
        } else if o.prefix {
            let mut n = 0;
            for p in PREFIXES {
                // two spellings of each; the identifiers the prefix rules give to other units are left out
                let by_sym = [p.syms[0], o.syms[0]];
                let by_name = [p.name, o.name];
                n += 1;
                let t = cat(&mut buf, if (n + k) % 2 == 0 { &by_sym } else { &by_name });
                if let Some((w, e)) = denotes(t) {
                    if w.name == o.name && e == p.exp {
                        both(i, v, t, o, e);
                    }
                }
            }
        }
    }
    witness(v < -1.5, "negative");
}
pub fn cat<'a>(b: &'a mut [u8; 40], l: &[&str]) -> &'a str {
    let mut n = 0;
    for s in l {
        for c in s.bytes() {
            b[n] = c;
            n += 1;
        }
    }
    unsafe { core::str::from_utf8_unchecked(&b[..n]) }
}
/// a symbolic identifier read as the type `param(2)`: params length, mode, type
pub fn h_read_ident() {
    let mut buf = [0u8; 32];
    let s = ident(&mut buf, param(0) as usize, param(1));
    let t = &TYPES[param(2) as usize];
    assume(s != "dimensionless" && s != "power_of_10");
    let v = number("v");
    let want = denotes(s).filter(|x| x.0.dims == t.d);
    let got = (t.read)(v, s);
    check(got.is_some() == want.is_some(), if want.is_some() { "reads" } else { "refused" });
    if let (Some(x), Some((o, p))) = (got, want) {
        close(x, (v + o.off) * (unit_si(o, p) / t.si()), o.tol, off_abs(o), "physical-value");
        witness(p != 0, "prefixed");
    }
    witness(got.is_none(), "refused");
}
/// unit expressions with symbolic operators (o), digits (d) and signs (n), and the type to read them as
pub const EXPRS: &[(&[u8], [i16; 8])] = &[
    (b"gomosos", [1, 1, -2, 0, 0, 0, 0, 0]),
    (b"gom^do s^nd", [1, 2, -2, 0, 0, 0, 0, 0]),
    (b"gomo(s^nd)", [1, 1, -2, 0, 0, 0, 0, 0]),
    (b"(g.mmd)o(s^d)", [1, 2, -3, 0, 0, 0, 0, 0]),
    (b"((gom)os)omos", [1, 2, -2, 0, 0, 0, 0, 0]),
    (b"g.m2/s^d/A^nd", [1, 2, -3, -1, 0, 0, 0, 0]),
    (b"gom2/sd/Ad", [1, 2, -3, -2, 0, 0, 0, 0]),
    (b"10^ndomom", [0, 2, 0, 0, 0, 0, 0, 0]),
    (b"m^d", [0, 2, 0, 0, 0, 0, 0, 0]),
    (b"md", [0, 3, 0, 0, 0, 0, 0, 0]),
    (b"(m^d)^ndo10", [0, 2, 0, 0, 0, 0, 0, 0]),
    (b"1o10os", [0, 0, -1, 0, 0, 0, 0, 0]),
    (b"mmomod", [0, 0, 0, 0, 0, 0, 0, 0]),
    (b"sosoAos^d", [0, 0, 1, 1, 0, 0, 0, 0]),
];
pub fn fill<'a>(tm: &[u8], b: &'a mut [u8; 24]) -> &'a [u8] {
    let n = tm.len();
    for i in 0..n {
        b[i] = match tm[i] {
            b'o' => {
                let c: u8 = any("op");
                assume((c == b'*') | (c == b'.') | (c == b'/'));
                assume(i == 0 || !(b[i - 1].is_ascii_digit() && c == b'.'));
                c
            }
            b'd' => {
                let c: u8 = any("digit");
                assume((c >= b'0') & (c <= b'9'));
                c
            }
            b'n' => {
                let c: u8 = any("sign");
                assume((c == b'-') | (c == b' '));
                c
            }
            c => c,
        };
    }
    &b[..n]
}
/// what the reference makes of an expression, in coherent units
pub fn reference(t: &[u8], d: &[i16; 8]) -> Option<f64> {
    let mut p = P { b: t, i: 0 };
    let w = p.expr()?;
    p.ws();
    if p.i != t.len() {
        return None;
    }
    for i in 0..8 {
        if w.0[i] != d[i] as i32 {
            return None;
        }
    }
    for x in w.1 {
        assume((x >= -60) & (x <= 60));
    }
    let q = |x: i32| (concretize((x + 200) as u64)) as usize;
    Some(POW2[q(w.1[0])] * POW5[q(w.1[2])])
}
/// params template, scale (0 coherent, 1 other)
pub fn h_read_expr() {
    let (tm, d) = EXPRS[param(0) as usize];
    let mut b = [0u8; 24];
    let t = fill(tm, &mut b);
    let ty = &TYPES[type_of(&d) + param(1) as usize];
    let v = number("v");
    let want = reference(t, &d);
    let got = (ty.read)(v, unsafe { core::str::from_utf8_unchecked(t) });
    check(got.is_some() == want.is_some(), if want.is_some() { "reads" } else { "refused" });
    if let (Some(x), Some(k)) = (got, want) {
        close(x, v * (k / ty.si()), 1e-12, ABS, "physical-value");
    }
    witness(want.is_some(), "read");
    witness(want.is_none(), "refused");
}
/// decimal texts: (layout, number of digits, power of ten, negative, rest)
const NUMBERS: &[(&[u8], i16, bool, &str)] = &[
    (b"d m", 0, false, "m"),
    (b"dm", 0, false, "m"),
    (b"dd.dm", -1, false, "m"),
    (b"-d.ddkg", -2, true, "kg"),
    (b"  -dd.d  kg.m / s^2 ", -1, true, "kg.m / s^2"),
    (b".ddm", -2, false, "m"),
    (b"d.m", 0, false, "m"),
    (b"+dde3 km", 3, false, "km"),
    (b"ddde-2km", -2, false, "km"),
    (b"de2eV", 2, false, "eV"),
    (b"dE2", 0, false, ""),
    (b"deV", 0, false, "eV"),
    (b"d eV", 0, false, "eV"),
    (b"ddd", 0, false, ""),
    (b"m", 0, false, ""),
    (b"", 0, false, ""),
    (b"m dd", 0, false, ""),
    (b"d.d.dm", -1, false, ".dm"),
    (b"\tdddd\n m s", 0, false, "m s"),
    (b"dd\xc2\xb5m", 0, false, "\u{b5}m"),
];
/// the number and the unit of a text are told apart: params layout
pub fn h_number() {
    let (tm, e, neg, rest) = NUMBERS[param(0) as usize];
    let mut b = [0u8; 24];
    let n = tm.len();
    let mut k = 0u64;
    let mut done = false;
    for i in 0..n {
        b[i] = tm[i];
        if tm[i] == b'd' {
            let c: u8 = any("digit");
            assume((c >= b'0') & (c <= b'9'));
            b[i] = c;
            // digits belong to the number until its exponent or unit starts
            if !done {
                k = k * 10 + (c - b'0') as u64;
            }
        } else if tm[i].is_ascii_alphabetic() {
            done = true;
        }
    }
    if rest.is_empty() {
        let t = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
        check(parse_string_input(t).is_err(), "refused");
        return;
    }
    let t = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    match parse_string_input(t) {
        Ok((v, u)) => {
            let s = if neg { -1.0 } else { 1.0 };
            if param(0) == 17 {
                check(u.len() == 3 && u.starts_with('.'), "unit-text");
            } else {
                close(v, s * k as f64 * if e < 0 { 1.0 / POW10[-e as usize] } else { POW10[e as usize] }, 1e-14, ABS, "number");
                check(u == rest, "unit-text");
            }
        }
        Err(_) => check(false, "reads"),
    }
}
const POW10: [f64; 4] = [1.0, 10.0, 100.0, 1000.0];
/// fills a layout: with `letters` its unit letters (x) are symbolic and its digits (d) fixed, else
/// the other way round with the letters of `unit`
struct Layout {
    b: [u8; 48],
    num: u64,
    unit: [u8; 8],
    m: usize,
}
fn layout(tm: &[u8], letters: bool, unit: &[u8]) -> Layout {
    let mut l = Layout { b: [0; 48], num: 0, unit: [0; 8], m: 0 };
    for i in 0..tm.len() {
        l.b[i] = match tm[i] {
            b'd' => {
                let c: u8 = if letters { b"3724"[i % 4] } else { any("digit") };
                assume((c >= b'0') & (c <= b'9'));
                // no leading zeros: JSON does not have them
                assume(l.num != 0 || c != b'0' || tm.get(i + 1) != Some(&b'd') || (i > 0 && tm[i - 1] == b'.'));
                l.num = l.num * 10 + (c - b'0') as u64;
                c
            }
            b'x' => {
                let c: u8 = if letters { any("letter") } else { unit[l.m] };
                assume((c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z'));
                l.unit[l.m] = c;
                l.m += 1;
                c
            }
            c => c,
        };
    }
    l
}
/// the macros: params layout, letters symbolic (or else digits)
pub fn h_string() {
    let tm: &[u8] = match param(0) {
        0 => b"dd.dxx",
        1 => b" d xx ",
        2 => b"-ddxx",
        3 => b"d x/s",
        4 => b"d x.x",
        _ => b"dx2",
    };
    let l = layout(tm, param(1) == 1, [b"cm", b"mK", b"km", b"mm", b"Nm", b"mm"][param(0) as usize]);
    let b = l.b;
    let num = l.num as f64;
    let u = unsafe { core::str::from_utf8_unchecked(&l.unit[..l.m]) };
    let sign = if param(0) == 2 { -1.0 } else { 1.0 };
    let v = sign * if param(0) == 0 { num / 10.0 } else { num };
    let t = unsafe { core::str::from_utf8_unchecked(&b[..tm.len()]) };
    let one = |d: [i16; 8]| denotes(u).filter(|x| x.0.dims == d);
    let first = |n: usize| denotes(&u[..n]).map(|x| (x.0, x.1));
    match param(0) {
        0 | 1 | 2 => {
            let km = whippyunits::from_string!(t, km).ok().map(|q| q.unsafe_value);
            let w = one([0, 1, 0, 0, 0, 0, 0, 0]).map(|(o, p)| v * unit_si(o, p) / 1000.0);
            agrees(km, w);
            if param(0) != 0 {
                let k = whippyunits::from_string!(t, K).ok().map(|q| q.unsafe_value);
                let w = one([0, 0, 0, 0, 1, 0, 0, 0]).map(|(o, p)| (v + o.off) * unit_si(o, p));
                agrees(k, w);
            }
        }
        3 => {
            let g = whippyunits::from_string!(t, m / s).ok().map(|q| q.unsafe_value);
            let w = first(1).filter(|x| x.0.dims == [0, 1, 0, 0, 0, 0, 0, 0]).map(|(o, p)| v * unit_si(o, p));
            agrees(g, w);
        }
        4 => {
            let g = whippyunits::from_string!(t, kN * cm).ok().map(|q| q.unsafe_value);
            let (a, c) = (first(1), denotes(&u[1..]));
            let w = match (a, c) {
                (Some((a, p)), Some((c, q))) => {
                    let mut ok = true;
                    for i in 0..8 {
                        ok &= a.dims[i] + c.dims[i] == [1, 2, -2, 0, 0, 0, 0, 0][i];
                    }
                    if ok { Some(v * unit_si(a, p) * unit_si(c, q) / 10.0) } else { None }
                }
                _ => None,
            };
            agrees(g, w);
        }
        _ => {
            // "1e2": a number and no unit
            assume(b[1] != b'e' && b[1] != b'E');
            let g = whippyunits::from_string!(t, mm * mm, f64).ok().map(|q| q.unsafe_value);
            let w = first(1).filter(|x| x.0.dims == [0, 1, 0, 0, 0, 0, 0, 0]).map(|(o, p)| v * unit_si(o, p) * unit_si(o, p) * 1e6);
            agrees(g, w);
        }
    }
}
fn agrees(got: Option<f64>, want: Option<f64>) {
    check(got.is_some() == want.is_some(), if want.is_some() { "reads" } else { "refused" });
    if let (Some(g), Some(w)) = (got, want) {
        close(g, w, 1e-10, 1e-9, "physical-value");
    }
    witness(want.is_some(), "read");
}
/// JSON texts with symbolic digits (d) and unit letters (x); whether they hold a quantity; exponent of ten
const JSONS: &[(&[u8], bool, i16, bool)] = &[
    (br#"{"value":d.d,"unit":"xx"}"#, true, -1, false),
    (br#"{"value": -dd, "unit": "xx"}"#, true, 0, true),
    (br#" { "unit" : "xx" , "value" : dd } "#, true, 0, false),
    (br#"{"a":[1,{}],"value":d,"unit":"xx","z":null}"#, true, 0, false),
    (br#"{"value":de2,"unit":"xx"}"#, true, 2, false),
    (br#"{"value":"d","unit":"xx"}"#, false, 0, false),
    (br#"{"value":d,"unit":d}"#, false, 0, false),
    (br#"{"value":d}"#, false, 0, false),
    (br#"{"unit":"xx"}"#, false, 0, false),
    (br#"{"value":null,"unit":"xx"}"#, false, 0, false),
    (br#"{"value":d,"unit":"xx""#, false, 0, false),
    (br#"["value",d]"#, false, 0, false),
    (br#"{"value":d,"unit":["xx"]}"#, false, 0, false),
    (br#"{"Value":d,"unit":"xx"}"#, false, 0, false),
    (br#"d"#, false, 0, false),
    (b"", false, 0, false),
    (br#"{"value":d,"unit":"xx"}}"#, false, 0, false),
];
/// params layout, target (0 km, 1 K, 2 ms), letters symbolic (or else digits)
pub fn h_json() {
    let (tm, good, e, neg) = JSONS[param(0) as usize];
    let l = layout(tm, param(2) == 1, [b"cm", b"mK", b"hr"][param(1) as usize]);
    let (b, num) = (l.b, l.num as f64);
    let u = unsafe { core::str::from_utf8_unchecked(&l.unit[..l.m]) };
    let v = if neg { -num } else { num } * if e < 0 { 1.0 / POW10[-e as usize] } else { POW10[e as usize] };
    let t = unsafe { core::str::from_utf8_unchecked(&b[..tm.len()]) };
    let one = |d: [i16; 8]| if good { denotes(u).filter(|x| x.0.dims == d) } else { None };
    match param(1) {
        0 => agrees(
            whippyunits::from_json!(t, km).ok().map(|q| q.unsafe_value),
            one([0, 1, 0, 0, 0, 0, 0, 0]).map(|(o, p)| v * unit_si(o, p) / 1000.0),
        ),
        1 => agrees(
            whippyunits::from_json!(t, K, f64).ok().map(|q| q.unsafe_value),
            one([0, 0, 0, 0, 1, 0, 0, 0]).map(|(o, p)| (v + o.off) * unit_si(o, p)),
        ),
        _ => agrees(
            whippyunits::from_json!(t, ms).ok().map(|q| q.unsafe_value),
            one([0, 0, 1, 0, 0, 0, 0, 0]).map(|(o, p)| v * unit_si(o, p) * 1000.0),
        ),
    }
}
/// the serde form: up to `param(0)` fields, each key and kind of value symbolic
pub fn h_fields() {
    crate::shown::begin();
    let n = param(0) as usize;
    let ty = &TYPES[type_of(&[0, 1, 0, 0, 0, 0, 0, 0]) + param(1) as usize];
    let v = number("v");
    let mut fields = Vec::new();
    let mut values = 0;
    let mut units = 0;
    let mut bad = false;
    for _ in 0..n {
        let key = concretize(below("key", 3) as u64);
        let kind = concretize(below("kind", 3) as u64);
        fields.push((
            ["value", "unit", "note"][key as usize],
            match kind {
                0 => Val::Num(v),
                1 => Val::Text("km".into()),
                _ => Val::Flag,
            },
        ));
        match key {
            0 => {
                values += 1;
                bad |= kind != 0;
            }
            1 => {
                units += 1;
                bad |= kind != 1;
            }
            _ => {}
        }
    }
    let good = values == 1 && units == 1 && !bad;
    match (ty.de)(fields) {
        Some(x) => {
            check(good, "refused");
            close(x, v * (1000.0 / ty.si()), 1e-12, ABS, "physical-value");
            witness(true, "read");
        }
        None => check(!good, "reads"),
    }
}
