//! P04: the capacity binds the length.
use crate::common::*;
use crate::p03::bn_default_cap;
use crate::spec;
use crate::verif::*;
use halo2curves::bn256::Fr;
use poseidon_base::hash::{MessageHashable, HASHABLE_DOMAIN_SPEC};

pub fn domain_constant() {
    let want: u128 = if config("legacy") == 1 { 1 } else { 1u128 << 64 };
    check_eq_i(HASHABLE_DOMAIN_SPEC, want, "HASHABLE_DOMAIN_SPEC", 0);
}
pub fn default_capacity() {
    for n in lengths(9, 200) {
        if n > 40 && config("quick") == 1 {
            continue;
        }
        let m = vars::<Fr>("m", n);
        let want = bn_perm().sponge([bn_default_cap(n), Fr::zero(), Fr::zero()], &m, 1, 2);
        check_eq(Fr::hash_msg(&m, None), want, "hash_msg without capacity, length", n);
    }
}
pub fn given_capacity() {
    let cap = any_u128("cap");
    for n in 1..=6 {
        let m = vars::<Fr>("m", n);
        let want = bn_perm().sponge([embed::<Fr>(cap), Fr::zero(), Fr::zero()], &m, 1, 2);
        check_eq(Fr::hash_msg(&m, Some(cap)), want, "hash_msg with symbolic capacity, length", n);
    }
    // particular capacities: zero, one half only, both halves, all ones
    let m = vars::<Fr>("m", 3);
    let caps = [0u128, 1, 2, 3, 5, 6, 1 << 32, 1 << 63, 1 << 64, 3 << 64, (3 << 64) + 1, 4 << 64, 1 << 127, u128::MAX, u64::MAX as u128];
    for i in 0..caps.len() {
        let want = bn_perm().sponge([embed::<Fr>(caps[i]), Fr::zero(), Fr::zero()], &m, 1, 2);
        check_eq(Fr::hash_msg(&m, Some(caps[i])), want, "hash_msg with a particular capacity", i);
    }
}
/// messages that differ only in trailing zeros
pub fn trailing_zeros() {
    for n in 1..=5 {
        let mut m = vars::<Fr>("m", n);
        let a = Fr::hash_msg(&m, None);
        m.push(Fr::zero());
        let b = Fr::hash_msg(&m, None);
        m.push(Fr::zero());
        let c = Fr::hash_msg(&m, None);
        check_ne(a, b, "one more trailing zero, length", n);
        check_ne(b, c, "another trailing zero, length", n);
        check_ne(a, c, "two more trailing zeros, length", n);
    }
    let _ = spec::pow5::<Fr>;
}
pub fn warm() {
    let _ = Fr::hash_msg(&vars::<Fr>("m", 3), None);
    let _ = Fr::hash_msg(&vars::<Fr>("m", 3), Some(any_u128("cap")));
}
