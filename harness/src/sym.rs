//! Interface to the symbolic executor (engine) and, natively, to the replay driver (replay.c).
#![allow(dead_code)]
mod raw {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u8_in(lo: u8, hi: u8) -> u8;
        pub fn sym_u8_set(p: *const u8, n: usize) -> u8;
        pub fn sym_int(lo: i64, hi: i64) -> i64;
        pub fn sym_choose(n: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, p: *const u8, n: usize);
        pub fn sym_reach(p: *const u8, n: usize);
        pub fn sym_observe(v: u64);
        pub fn sym_end();
        pub fn sym_fork(c: bool) -> bool;
        pub fn sym_dec(k: i64, s: u32) -> f64;
        pub fn sym_undec(f: f64, prec: u32) -> i64;
        pub fn sym_dec_scale(f: f64) -> u32;
        pub fn sym_tier() -> u32;
    }
}
/// any byte
pub fn byte() -> u8 {
    unsafe { raw::sym_u8() }
}
pub fn byte_in(lo: u8, hi: u8) -> u8 {
    unsafe { raw::sym_u8_in(lo, hi) }
}
/// any byte of the set
pub fn byte_of(set: &[u8]) -> u8 {
    unsafe { raw::sym_u8_set(set.as_ptr(), set.len()) }
}
pub fn digit() -> u8 {
    byte_in(b'0', b'9')
}
/// printable ASCII, blank included
pub fn printable() -> u8 {
    byte_in(b' ', b'~')
}
/// any signed 64-bit integer of [lo, hi]
pub fn int(lo: i64, hi: i64) -> i64 {
    unsafe { raw::sym_int(lo, hi) }
}
/// one path per value of 0..n
pub fn choose(n: usize) -> usize {
    unsafe { raw::sym_choose(n as u64) as usize }
}
pub fn flip() -> bool {
    choose(2) == 1
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
pub fn check(c: bool, id: &str) {
    unsafe { raw::sym_check(c, id.as_ptr(), id.len()) }
}
pub fn reach(id: &str) {
    unsafe { raw::sym_reach(id.as_ptr(), id.len()) }
}
pub fn observe(v: u64) {
    unsafe { raw::sym_observe(v) }
}
/// an observed double: its value in units of the sixth decimal when small, else its bits
pub fn observe_f(v: f64) {
    unsafe { raw::sym_observe(v.to_bits()) }
}
pub fn observe_s(v: &str) {
    observe(v.len() as u64);
    for b in v.bytes() {
        observe(b as u64);
    }
}
pub fn end() {
    unsafe { raw::sym_end() }
}
/// fork on a condition (the result is concrete on each path)
pub fn fork(c: bool) -> bool {
    unsafe { raw::sym_fork(c) }
}
/// the double nearest to k / 10^s
pub fn dec(k: i64, s: u32) -> f64 {
    unsafe { raw::sym_dec(k, s) }
}
/// the integer n such that the value prints as n / 10^prec with prec decimals
pub fn undec(f: f64, prec: u32) -> i64 {
    unsafe { raw::sym_undec(f, prec) }
}
pub fn dec_scale(f: f64) -> u32 {
    unsafe { raw::sym_dec_scale(f) }
}
/// number spelled by digits
pub fn num(d: &[u8]) -> i64 {
    let mut r = 0i64;
    for b in d {
        r = r * 10 + (*b - b'0') as i64;
    }
    r
}
pub fn digits(n: usize) -> Vec<u8> {
    (0..n).map(|_| digit()).collect()
}
pub fn text(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
/// branch-free equality of byte strings of the same length
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i] == b[i];
    }
    r
}
/// deeper bounds requested
pub fn thorough() -> bool {
    unsafe { raw::sym_tier() == 1 }
}
/// native replays with tier 2 show the texts
pub fn dump(what: &str, t: &[u8]) {
    if unsafe { raw::sym_tier() == 2 } {
        eprintln!("--- {what}\n{}", String::from_utf8_lossy(t));
    }
}
