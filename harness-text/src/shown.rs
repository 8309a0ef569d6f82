//! Numbers inside formatted text.  In the symbolic run the float formatters are replaced by
//! stand-ins that write a token and note the value; natively the printed number is read back.
use crate::sym::*;

pub const MAX: usize = 4;
pub static mut VALUE: [f64; MAX] = [0.0; MAX];
pub static mut PREC: [Option<usize>; MAX] = [None; MAX];
pub static mut COUNT: usize = 0;

unsafe extern "C" {
    fn __sym_stand_ins();
}
/// from here on formatted numbers are tokens (symbolic run only)
pub fn begin() {
    unsafe { __sym_stand_ins() }
}
fn note(v: f64, p: Option<usize>) -> u8 {
    unsafe {
        let k = COUNT;
        if k >= MAX {
            panic!("too many numbers");
        }
        VALUE[k] = v;
        PREC[k] = p;
        COUNT = k + 1;
        b'A' + k as u8
    }
}
#[cfg(not(feature = "native"))]
#[unsafe(no_mangle)]
pub fn h_fmt_f64(v: &f64, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    let k = note(*v, f.precision());
    f.write_str("\u{1}")?;
    f.write_str(unsafe { core::str::from_utf8_unchecked(core::slice::from_ref(&k)) })
}
#[cfg(not(feature = "native"))]
#[unsafe(no_mangle)]
pub unsafe fn h_ryu_f64(v: f64, out: *mut u8) -> usize {
    let k = note(v, None);
    unsafe {
        *out = 1;
        *out.add(1) = k;
    }
    2
}
#[cfg(not(feature = "native"))]
#[used]
static KEEP: (fn(&f64, &mut core::fmt::Formatter<'_>) -> core::fmt::Result, unsafe fn(f64, *mut u8) -> usize) = (h_fmt_f64, h_ryu_f64);

/// how many numbers have been formatted since the start (symbolic run); natively: whether `t`
/// starts with a number
pub fn starts_with_number(t: &str) -> bool {
    let b = t.as_bytes();
    if cfg!(feature = "native") {
        !b.is_empty() && (b[0].is_ascii_digit() || b[0] == b'-' || t.starts_with("inf") || t.starts_with("NaN"))
    } else {
        !b.is_empty() && b[0] == 1
    }
}
/// `t` begins with `want` (precision `p`), up to a relative and an absolute error; the rest of the text
pub fn number<'a>(t: &'a str, want: f64, p: Option<usize>, rel: f64, abs: f64, label: &'static str) -> &'a str {
    let b = t.as_bytes();
    check(starts_with_number(t), "a number");
    let half = match p {
        Some(p) => 0.5 * [1.0, 0.1, 0.01, 0.001][p.min(3)] * (1.0 + 1e-9),
        None => 0.0,
    };
    if cfg!(feature = "native") {
        let mut n = 0;
        while n < b.len() && b[n] != b' ' && b[n] != b',' && b[n] != b'}' {
            n += 1;
        }
        match t[..n].parse::<f64>() {
            Ok(v) => {
                close(v, want, rel, abs + half, label);
                if let Some(p) = p {
                    let d = t[..n].find('.').map_or(0, |i| n - i - 1);
                    check(d == p || !v.is_finite(), "precision");
                }
            }
            Err(_) => check(false, label),
        }
        &t[n..]
    } else {
        let k = (b[1] - b'A') as usize;
        let (v, q) = unsafe { (VALUE[k], PREC[k]) };
        close(v, want, rel, abs + half, label);
        check(q == p, "precision");
        &t[2..]
    }
}
