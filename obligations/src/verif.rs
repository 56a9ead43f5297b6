//! Primitives of the analyser. They have no meaning at run time: the analyser gives them one.
#![allow(unused_variables)]

#[inline(never)]
pub fn any<F>(name: &str) -> F {
    unimplemented!()
}
#[inline(never)]
pub fn any_i<F>(name: &str, i: usize) -> F {
    unimplemented!()
}
#[inline(never)]
pub fn any_u128(name: &str) -> u128 {
    unimplemented!()
}
#[inline(never)]
pub fn any_u64(name: &str) -> u64 {
    unimplemented!()
}
#[inline(never)]
pub fn any_usize(name: &str, lo: usize, hi: usize) -> usize {
    unimplemented!()
}
#[inline(never)]
pub fn any_bool(name: &str) -> bool {
    unimplemented!()
}
/// `got` (computed by the repository) equals `want` for every assignment of the variables
#[inline(never)]
pub fn check_eq<F>(got: F, want: F, label: &str, index: usize) {
    unimplemented!()
}
#[inline(never)]
pub fn check_eq_i<I>(got: I, want: I, label: &str, index: usize) {
    unimplemented!()
}
#[inline(never)]
pub fn check(cond: bool, label: &str) {
    unimplemented!()
}
#[inline(never)]
pub fn fail(label: &str, detail: &str) {
    unimplemented!()
}
#[inline(never)]
pub fn must_panic<C: FnOnce()>(f: C, label: &str) {
    unimplemented!()
}
#[inline(never)]
pub fn panics<C: FnOnce()>(f: C) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn note<I>(label: &str, v: I) {
    unimplemented!()
}
#[inline(never)]
pub fn note_f<F>(label: &str, v: F) {
    unimplemented!()
}
#[inline(never)]
pub fn set_expand(n: usize) {
    unimplemented!()
}
#[inline(never)]
pub fn set_loop_limit(n: usize) {
    unimplemented!()
}
#[inline(never)]
pub fn sym_uniform(on: bool) {
    unimplemented!()
}
#[inline(never)]
pub fn uniform_draws() -> usize {
    unimplemented!()
}
#[inline(never)]
pub fn uniform_draw<F>(i: usize) -> F {
    unimplemented!()
}
#[inline(never)]
pub fn is_const<F>(v: F) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn depends_on<F>(v: F, on: F) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn snap_statics() -> usize {
    unimplemented!()
}
#[inline(never)]
pub fn check_statics(snap: usize, label: &str) {
    unimplemented!()
}
#[inline(never)]
pub fn once_enter(p: *const u32) -> bool {
    unimplemented!()
}
#[inline(never)]
pub fn once_exit(p: *const u32) {
    unimplemented!()
}
#[inline(never)]
pub fn config(k: &str) -> usize {
    unimplemented!()
}
#[inline(never)]
pub fn mined_len() -> usize {
    unimplemented!()
}
#[inline(never)]
pub fn mined(i: usize) -> usize {
    unimplemented!()
}
#[inline(never)]
pub fn effect(what: &str) {
    unimplemented!()
}
/// `got` and `other` are different functions of the variables
#[inline(never)]
pub fn check_ne<F>(got: F, other: F, label: &str, index: usize) {
    unimplemented!()
}
/// an uninterpreted unary function
#[inline(never)]
pub fn opaque<F>(name: &str, x: F) -> F {
    unimplemented!()
}
/// the field element an integer denotes
#[inline(never)]
pub fn embed<F>(x: u128) -> F {
    unimplemented!()
}
/// values compared as constants or normal forms (no event is recorded)
#[inline(never)]
pub fn same<F>(a: F, b: F) -> bool {
    unimplemented!()
}
/// the results that follow are about a place `halo2_proofs::record::origin` identified (0: no longer)
#[inline(never)]
pub fn at(origin: usize) {
    unimplemented!()
}
#[inline(never)]
pub fn set_config(k: &str, v: usize) {
    unimplemented!()
}
/// from here on, `SymF::from_uniform_bytes` returns unknown points: draw k is point `pattern[k]` while the pattern
/// lasts, and a point never seen before afterwards. Points with different numbers are distinct and ordered by number
/// (order 0), against it (1) or mixed (2); no other polynomial relation holds between them.
#[inline(never)]
pub fn sym_uniform_from(order: usize, pattern: &[usize]) {
    unimplemented!()
}
