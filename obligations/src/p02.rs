//! P02: two-to-one hashing.
use crate::common::*;
use crate::symf::SymF;
use crate::verif::*;
use halo2curves::bn256::Fr;
use poseidon_base::hash::{HashSpec, Hashable};
use poseidon_base::primitives::*;

fn io() -> (Fr, Fr, Fr, Fr) {
    let (a, b, d): (Fr, Fr, Fr) = (any("a"), any("b"), any("d"));
    let want = bn_perm().run([d, a, b])[0];
    (a, b, d, want)
}
pub fn with_domain() {
    let (a, b, d, want) = io();
    check_eq(Fr::hash_with_domain([a, b], d), want, "hash_with_domain", 0);
    // again, now that everything is cached, and with other roles of the variables
    check_eq(Fr::hash_with_domain([a, b], d), want, "second hash_with_domain", 0);
    check_eq(Fr::hash_with_domain([b, d], a), bn_perm().run([a, b, d])[0], "hash_with_domain, other arguments", 0);
}
pub fn without_domain() {
    let (a, b): (Fr, Fr) = (any("a"), any("b"));
    let want = bn_perm().run([Fr::zero(), a, b])[0];
    check_eq(<Fr as Hashable>::hash([a, b]), want, "hash", 0);
    check_eq(Fr::hash_with_domain([a, b], Fr::zero()), want, "hash_with_domain with zero", 0);
}
pub fn equal_inputs() {
    let (a, d): (Fr, Fr) = (any("a"), any("d"));
    check_eq(Fr::hash_with_domain([a, a], d), bn_perm().run([d, a, a])[0], "equal inputs", 0);
    check_eq(Fr::hash_with_domain([a, a], a), bn_perm().run([a, a, a])[0], "all equal", 0);
    check_eq(Fr::hash_with_domain([Fr::zero(), Fr::zero()], d), bn_perm().run([d, Fr::zero(), Fr::zero()])[0], "zero inputs", 0);
    check_eq(Fr::hash_with_domain([Fr::zero(), Fr::zero()], Fr::zero()), bn_perm().run([Fr::zero(); 3])[0], "all zero", 0);
}
pub fn hashers() {
    let (a, b, d, want) = io();
    let h = <Fr as Hashable>::hasher();
    let g = h.clone();
    let k = <Fr as Hashable>::hasher();
    check_eq(h.hash([a, b], d), want, "first hasher", 0);
    check_eq(g.hash([a, b], d), want, "cloned hasher", 0);
    check_eq(k.hash([a, b], d), want, "second hasher", 0);
    check_eq(<Fr as Hashable>::hasher().hash([a, b], d), want, "later hasher", 0);
    let f = Hash::<Fr, HashSpec<Fr>, ConstantLengthIden3<2>, 3, 2>::init();
    check_eq(f.clone().hash([a, b], d), want, "clone of a fresh hasher", 0);
    check_eq(f.hash([a, b], d), want, "fresh hasher", 0);
}
/// the provided methods of `Hashable`, for a user's own field
pub fn user_field() {
    let (a, b, d): (SymF, SymF, SymF) = (any("a"), any("b"), any("d"));
    let p = tiny_perm::<SymF, 3>(2, 1);
    check_eq(SymF::hash_with_domain([a, b], d), p.run([d, a, b])[0], "hash_with_domain", 0);
    check_eq(<SymF as Hashable>::hash([a, b]), p.run([any0(), a, b])[0], "hash", 0);
    check_eq(<SymF as Hashable>::hasher().hash([a, b], d), p.run([d, a, b])[0], "hasher", 0);
}
fn any0() -> SymF {
    <SymF as halo2curves::ff::Field>::ZERO
}
pub fn warm() {
    with_domain();
    without_domain();
    user_field();
}
