//! Harness functions: each states a property of /repo's code over symbolic inputs (sym_*) within the
//! bounds given by its parameters (sym_param). See DESIGN.md.
#![allow(static_mut_refs)]

pub mod prim {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u8_range(lo: u8, hi: u8) -> u8;
        pub fn sym_u64() -> u64;
        pub fn sym_u64_range(lo: u64, hi: u64) -> u64;
        pub fn sym_f64(lo: f64, hi: f64) -> f64;
        pub fn sym_param(i: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, id: u32);
        pub fn sym_expect_panic();
        pub fn sym_end_expect();
        pub fn sym_observe(v: u64);
        pub fn sym_observe_f64(v: f64);
        pub fn sym_eq_bytes(a: *const u8, b: *const u8, n: usize) -> bool;
        pub fn sym_check_bytes(a: *const u8, b: *const u8, n: usize, id: u32);
        pub fn sym_and(a: bool, b: bool) -> bool;
        pub fn sym_or(a: bool, b: bool) -> bool;
        pub fn sym_ite_u8(c: bool, a: u8, b: u8) -> u8;
    }
    pub fn u8s(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(unsafe { sym_u8() }) } v }
    pub fn u8s_in(n: usize, lo: u8, hi: u8) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(unsafe { sym_u8_range(lo, hi) }) } v }
    pub fn f64s(n: usize, lo: f64, hi: f64) -> Vec<f64> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(unsafe { sym_f64(lo, hi) }) } v }
    pub fn f(lo: f64, hi: f64) -> f64 { unsafe { sym_f64(lo, hi) } }
    pub fn byte() -> u8 { unsafe { sym_u8() } }
    pub fn word() -> u64 { unsafe { sym_u64() } }
    pub fn range(lo: u64, hi: u64) -> u64 { unsafe { sym_u64_range(lo, hi) } }
    pub fn p(i: u64) -> usize { unsafe { sym_param(i) as usize } }
    /// parameter in thousandths
    pub fn pf(i: u64) -> f64 { unsafe { sym_param(i) as i64 as f64 / 1000. } }
    pub fn assume(c: bool) { unsafe { sym_assume(c) } }
    pub fn check(c: bool, id: u32) { unsafe { sym_check(c, id) } }
    pub fn expect_panic() { unsafe { sym_expect_panic() } }
    pub fn end_expect() { unsafe { sym_end_expect() } }
    pub fn see(v: u64) { unsafe { sym_observe(v) } }
    pub fn see_f(v: f64) { unsafe { sym_observe_f64(v) } }
    pub fn and(a: bool, b: bool) -> bool { unsafe { sym_and(a, b) } }
    pub fn or(a: bool, b: bool) -> bool { unsafe { sym_or(a, b) } }
    /// bytes are equal (length and contents); one check per byte
    pub fn same(a: &[u8], b: &[u8], id: u32) {
        check(a.len() == b.len(), id);
        if a.len() == b.len() { unsafe { sym_check_bytes(a.as_ptr(), b.as_ptr(), a.len(), id) } }
    }
    pub fn eq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && unsafe { sym_eq_bytes(a.as_ptr(), b.as_ptr(), a.len()) } }
    pub fn see_bytes(a: &[u8]) { see(a.len() as u64); for b in a.iter().take(16) { see(*b as u64) } }
    /// |a - b| <= tol, without a branch
    pub fn close(a: f64, b: f64, tol: f64, id: u32) { check(a - b <= tol, id); check(b - a <= tol, id) }
}

macro_rules! harness {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* pub fn $n() $b )*
        pub const LIST: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
        #[cfg(sia_symbolic)]
        mod exported { $( #[export_name = stringify!($n)] extern "C" fn $n() { super::$n() } )* }
    };
}

mod coding;
mod embed;
mod moments;
mod quant;
mod records;
mod sign;
mod whole;
mod wild;

pub static ALL: &[&[(&str, fn())]] = &[coding::LIST, embed::LIST, moments::LIST, quant::LIST, records::LIST, sign::LIST, whole::LIST, wild::LIST];
