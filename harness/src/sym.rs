//! Symbolic inputs and verdict hooks. The engine intercepts the `__sym_*` functions; the
//! replay binary defines them natively.
extern "C" {
    fn __sym_int(bytes: u32) -> u64;
    fn __sym_conc(v: u64) -> u64;
    fn __sym_pick(v: u64, lo: u64, hi: u64) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_check(c: bool, msg: *const u8, len: usize);
    fn __sym_cover(msg: *const u8, len: usize);
    fn __sym_panic_ok(on: bool);
}
macro_rules! prim {
    ($($t:ident : $b:literal),*) => {$(
        #[inline(always)]
        pub fn $t() -> $t { unsafe { __sym_int($b) as $t } }
    )*};
}
prim!(u8:1, u16:2, u32:4, u64:8, usize:8, i8:1, i16:2, i32:4, i64:8, isize:8);
#[inline(always)]
pub fn bool() -> bool {
    u8() & 1 == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    unsafe { __sym_check(c, m.as_ptr(), m.len()) }
}
#[inline(always)]
pub fn cover(m: &'static str) {
    unsafe { __sym_cover(m.as_ptr(), m.len()) }
}
/// From here on a panic is an accepted outcome (or, with `false`, a violation again).
#[inline(always)]
pub fn panic_ok(on: bool) {
    unsafe { __sym_panic_ok(on) }
}
/// Split the path by the value: afterwards `v` is a concrete number on each path.
#[inline(always)]
pub fn split(v: usize) -> usize {
    unsafe { __sym_conc(v as u64) as usize }
}
/// A length or index in 0..=max, concrete on each path.
#[inline(always)]
pub fn upto(max: usize) -> usize {
    between(0, max)
}
/// At most 255.
#[inline(never)]
pub fn between(min: usize, max: usize) -> usize {
    unsafe { __sym_pick(__sym_int(1), min as u64, max as u64) as usize }
}
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = u8();
        i += 1;
    }
    a
}
/// A vector of exactly `n` unconstrained bytes.
#[inline(never)]
pub fn vec(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(u8());
        i += 1;
    }
    v
}
