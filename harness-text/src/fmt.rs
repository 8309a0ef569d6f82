//! Formatting in a chosen unit (C18).
use crate::core_::*;
use crate::read::*;
use crate::shown;
use crate::sym::*;
use crate::ty::*;

fn precision() -> Option<usize> {
    let k = concretize(below("precision", 5) as u64);
    if k == 4 { None } else { Some(k as usize) }
}
fn shows(t: &Ty, v: f64, p: Option<usize>, text: &str, o: &Or, e: i16) {
    let s = (t.show)(v, text, p);
    let want = v * (t.si() / unit_si(o, e)) - o.off;
    let rest = shown::number(&s, want, p, o.tol, off_abs(o), "physical-value");
    check(rest.len() == text.len() + 1 && rest.as_bytes()[0] == b' ' && &rest[1..] == text, "unit-text");
}
fn refuses(t: &Ty, v: f64, p: Option<usize>, text: &str, label: &'static str) {
    let s = (t.show)(v, text, p);
    check(!shown::starts_with_number(&s) && s.starts_with("Error"), label);
}
fn both(i: usize, v: f64, p: Option<usize>, text: &str, o: &Or, e: i16) {
    unsafe { shown::COUNT = 0 }
    shows(&TYPES[i], v, p, text, o, e);
    shows(&TYPES[i + 1], v, p, text, o, e);
    refuses(&TYPES[other(i)], v, p, text, "other-dimension-refused");
    check(unsafe { shown::COUNT } == 2 || cfg!(feature = "native"), "other-dimension-refused");
}
/// params block, of, mode (1: prefixed, 2: from every other dimension)
pub fn h_fmt_unit() {
    shown::begin();
    let n = ORACLE.len();
    let (b, of) = (param(0) as usize, param(1) as usize);
    let v = number("v");
    let p = if param(2) == 0 { precision() } else { None };
    let mut buf = [0u8; 40];
    for k in b * n / of..(b + 1) * n / of {
        let o = &ORACLE[k];
        let i = type_of(&o.dims);
        if param(2) == 2 {
            for t in TYPES {
                if t.d != o.dims {
                    refuses(t, v, p, o.name, "other-dimension-refused");
                }
            }
        } else if param(2) == 0 {
            for s in o.syms {
                both(i, v, p, s, o, 0);
            }
            both(i, v, p, o.name, o, 0);
        } else if o.prefix {
            let mut n = 0;
            for x in PREFIXES {
                n += 1;
                let t = cat(&mut buf, &if (n + k) % 2 == 0 { [x.name, o.name] } else { [x.syms[0], o.syms[0]] });
                if let Some((w, e)) = denotes(t) {
                    if w.name == o.name && e == x.exp {
                        both(i, v, p, t, o, e);
                    }
                }
            }
        }
    }
    witness(p.is_none(), "unrounded");
}
/// a symbolic unit name: params length, mode, type
pub fn h_fmt_ident() {
    shown::begin();
    let mut buf = [0u8; 32];
    let s = ident(&mut buf, param(0) as usize, param(1));
    let t = &TYPES[param(2) as usize];
    assume(s != "dimensionless" && s != "power_of_10");
    let v = number("v");
    match denotes(s).filter(|x| x.0.dims == t.d) {
        Some((o, p)) => {
            shows(t, v, None, s, o, p);
            witness(p != 0, "prefixed");
        }
        None => {
            refuses(t, v, Some(1), s, "refused");
            witness(true, "refused");
        }
    }
}
/// params template, scale
pub fn h_fmt_expr() {
    shown::begin();
    let (tm, d) = EXPRS[param(0) as usize];
    let mut b = [0u8; 24];
    let t = fill(tm, &mut b);
    let ty = &TYPES[type_of(&d) + param(1) as usize];
    let v = number("v");
    let text = unsafe { core::str::from_utf8_unchecked(t) };
    match reference(t, &d) {
        Some(k) => {
            let p = if param(1) == 0 { Some(3) } else { None };
            let s = (ty.show)(v, text, p);
            let rest = shown::number(&s, v * (ty.si() / k), p, 1e-12, ABS, "physical-value");
            check(rest.len() == text.len() + 1 && rest.as_bytes()[0] == b' ' && &rest[1..] == text, "unit-text");
            witness(true, "shown");
        }
        None => {
            refuses(ty, v, None, text, "refused");
            witness(true, "refused");
        }
    }
}
