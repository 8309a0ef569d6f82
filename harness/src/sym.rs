//! Harness interface.  In the symbolic build the `__sym_*` functions are left
//! undefined and interpreted by `llsym`; with feature `native` they are defined
//! below and replay one solver model against the compiled code.
#![allow(dead_code)]
use core::mem::{MaybeUninit, size_of};

unsafe extern "C" {
    fn __sym_input(p: *mut u8, n: usize, name: *const u8, l: usize);
    fn __sym_param(i: usize) -> u64;
    fn __sym_assume(b: bool);
    fn __sym_check(b: bool, p: *const u8, n: usize);
    fn __sym_witness(b: bool, p: *const u8, n: usize);
    fn __sym_allow_panic(b: bool);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_log(p: *const u8, n: usize);
    fn __sym_close(x: f64, y: f64, rel: f64, abs: f64, p: *const u8, n: usize);
}

/// A fresh symbolic value of a plain integer/float type (at most 16 bytes).
#[inline(always)]
pub fn any<T: Copy>(name: &'static str) -> T {
    let mut m = MaybeUninit::<T>::uninit();
    unsafe {
        __sym_input(m.as_mut_ptr() as *mut u8, size_of::<T>(), name.as_ptr(), name.len());
        m.assume_init()
    }
}
#[inline(always)]
pub fn flag(name: &'static str) -> bool {
    any::<u8>(name) & 1 == 1
}
/// A symbolic index below `n` (n <= 256).
#[inline(always)]
pub fn below(name: &'static str, n: usize) -> usize {
    let b = any::<u8>(name) as usize;
    assume(b < n);
    b
}
/// A symbolic i16 in [lo, hi].
#[inline(always)]
pub fn i16_in(name: &'static str, lo: i16, hi: i16) -> i16 {
    let b = any::<i16>(name);
    assume((b >= lo) & (b <= hi));
    b
}
#[inline(always)]
pub fn param(i: usize) -> u64 {
    unsafe { __sym_param(i) }
}
#[inline(always)]
pub fn assume(b: bool) {
    unsafe { __sym_assume(b) }
}
#[inline(always)]
pub fn check(b: bool, label: &'static str) {
    unsafe { __sym_check(b, label.as_ptr(), label.len()) }
}
#[inline(always)]
pub fn witness(b: bool, label: &'static str) {
    unsafe { __sym_witness(b, label.as_ptr(), label.len()) }
}
#[inline(always)]
pub fn allow_panic(b: bool) {
    unsafe { __sym_allow_panic(b) }
}
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { __sym_concretize(v) }
}
/// |x - y| <= rel*|y| + abs, or identical bits
#[inline(always)]
pub fn close(x: f64, y: f64, rel: f64, abs: f64, label: &'static str) {
    unsafe { __sym_close(x, y, rel, abs, label.as_ptr(), label.len()) }
}
pub fn log(s: &str) {
    unsafe { __sym_log(s.as_ptr(), s.len()) }
}

#[cfg(feature = "native")]
mod native {
    use std::sync::Mutex;
    pub struct St {
        pub inputs: Vec<u128>,
        pub next: usize,
        pub params: Vec<u64>,
        pub panic_ok: bool,
        pub fails: Vec<String>,
        pub seen: Vec<String>,
    }
    pub static ST: Mutex<St> =
        Mutex::new(St { inputs: vec![], next: 0, params: vec![], panic_ok: false, fails: vec![], seen: vec![] });
    unsafe fn s(p: *const u8, n: usize) -> String {
        unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn __sym_input(p: *mut u8, n: usize, _: *const u8, _: usize) {
        let mut st = ST.lock().unwrap();
        let i = st.next;
        st.next += 1;
        let v = st.inputs.get(i).copied().unwrap_or(0);
        unsafe { std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), p, n) }
    }
    #[unsafe(no_mangle)]
    extern "C" fn __sym_param(i: usize) -> u64 {
        ST.lock().unwrap().params.get(i).copied().unwrap_or(0)
    }
    #[unsafe(no_mangle)]
    extern "C" fn __sym_assume(b: bool) {
        if !b {
            finish("assumption not met");
        }
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn __sym_check(b: bool, p: *const u8, n: usize) {
        let l = unsafe { s(p, n) };
        let mut st = ST.lock().unwrap();
        st.seen.push(l.clone());
        if !b {
            eprintln!("FAILED-CHECK {}", l);
            st.fails.push(l);
        }
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn __sym_close(x: f64, y: f64, rel: f64, abs: f64, p: *const u8, n: usize) {
        unsafe { __sym_check(x.to_bits() == y.to_bits() || (x - y).abs() <= rel * y.abs() + abs, p, n) }
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn __sym_witness(b: bool, p: *const u8, n: usize) {
        if b {
            eprintln!("WITNESS {}", unsafe { s(p, n) });
        }
    }
    #[unsafe(no_mangle)]
    extern "C" fn __sym_stand_ins() {}
    #[unsafe(no_mangle)]
    extern "C" fn __sym_allow_panic(b: bool) {
        ST.lock().unwrap().panic_ok = b;
    }
    #[unsafe(no_mangle)]
    extern "C" fn __sym_concretize(v: u64) -> u64 {
        v
    }
    #[unsafe(no_mangle)]
    unsafe extern "C" fn __sym_log(p: *const u8, n: usize) {
        eprintln!("LOG {}", unsafe { s(p, n) });
    }
    /// exit 3: a check failed or an unexpected panic; 0: nothing failed
    pub fn finish(why: &str) -> ! {
        let st = ST.lock().unwrap();
        eprintln!("END {} fails={:?} checks={}", why, st.fails, st.seen.len());
        std::process::exit(if st.fails.is_empty() { 0 } else { 3 })
    }
    pub fn run(table: &[(&str, fn())]) {
        let a: Vec<String> = std::env::args().collect();
        // harness NAME p0,p1,.. v0,v1,.. (hex)
        let f = table.iter().find(|t| t.0 == a[1]).expect("harness").1;
        {
            let mut st = ST.lock().unwrap();
            st.params = a[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            st.inputs = a[3].split(',').filter(|x| !x.is_empty()).map(|x| u128::from_str_radix(x, 16).unwrap()).collect();
        }
        let r = std::panic::catch_unwind(f);
        if r.is_err() {
            let mut st = ST.lock().unwrap_or_else(|e| e.into_inner());
            if !st.panic_ok {
                st.fails.push("panic".into());
            }
        }
        finish("done");
    }
}
#[cfg(feature = "native")]
pub use native::run;
#[cfg(not(feature = "native"))]
pub fn run(table: &[(&str, fn())]) {
    for t in core::hint::black_box(table) {
        (t.1)()
    }
}
