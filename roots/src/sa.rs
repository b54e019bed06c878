//! Analysis primitives. The bodies are never analysed: the engine interprets the calls.
#![allow(unused_variables)]

/// `n` independent unknown bits as an unsigned number.
#[inline(never)]
pub fn sa_bits(name: &str, idx: usize, n: usize) -> u64 {
    loop {}
}
#[inline(never)]
pub fn sa_bool(name: &str, idx: usize) -> bool {
    loop {}
}
/// An unknown integer in `lo..=hi`.
#[inline(never)]
pub fn sa_int(name: &str, idx: usize, lo: i64, hi: i64) -> i64 {
    loop {}
}
#[inline(never)]
pub fn sa_f32(name: &str, idx: usize) -> f32 {
    loop {}
}
#[inline(never)]
pub fn sa_fill(p: *mut u8, n: usize, name: &str, base: usize) {
    loop {}
}
#[inline(never)]
pub fn sa_fillf(p: *mut f32, n: usize, name: &str, base: usize) {
    loop {}
}
/// States with different marks are never joined.
#[inline(never)]
pub fn sa_mark(k: u64) {
    loop {}
}
/// Split on a condition; the two sides are never joined again.
#[inline(never)]
pub fn sa_split(b: bool) -> bool {
    loop {}
}
#[inline(never)]
pub fn sa_assume(b: bool) {
    loop {}
}
/// Obligation: `b` holds in every execution reaching this point.
#[inline(never)]
pub fn sa_check(b: bool, what: &str, idx: usize) {
    loop {}
}
/// Obligation: this point is reachable with `b` possible (guards against vacuity).
#[inline(never)]
pub fn sa_cover(b: bool, what: &str, idx: usize) {
    loop {}
}
/// Obligation: both are the same real-valued expression of the inputs.
#[inline(never)]
pub fn sa_feq(a: f32, b: f32, what: &str, idx: usize) {
    loop {}
}
#[inline(never)]
pub fn sa_show(what: &str, v: f32) {
    loop {}
}
#[inline(never)]
pub fn sa_uninit(p: *mut u8, n: usize) {
    loop {}
}
/// The library visits a loop: make whatever changed since the last visit arbitrary. True if the
/// iteration since then stands for all later ones. The given memory is not part of the state.
#[inline(never)]
pub fn sa_widen(skip: *const u8, len: usize) -> bool {
    loop {}
}
/// The same, with just the given memory and the library's globals as the state.
#[inline(never)]
pub fn sa_widen_in(state: *const u8, len: usize) -> bool {
    loop {}
}
/// The partition this state belongs to.
#[inline(never)]
pub fn sa_part() -> u64 {
    loop {}
}
/// Partition by the two-valued scalars in a region.
#[inline(never)]
pub fn sa_split_in(p: *const u8, len: usize) {
    loop {}
}
/// Give up partitions made since: states meeting here are joined. Bytes of the given memory that
/// changed since the last visit of `sa_widen_in` become arbitrary.
#[inline(never)]
pub fn sa_rejoin(part: u64, state: *const u8, len: usize) {
    loop {}
}
/// The end of an entry point was reached.
#[inline(never)]
pub fn sa_done() {
    loop {}
}
