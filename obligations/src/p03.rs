//! P03: variable-length hashing, P04 shares the helpers.
use crate::common::*;
use crate::symf::SymF;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, FromUniformBytes};
use poseidon_base::hash::{HashSpec, MessageHashable};
use poseidon_base::primitives::*;

fn real(n: usize, m: &[Fr]) {
    let cap = any_u128("cap");
    let c = embed::<Fr>(cap);
    let want = bn_perm().sponge([c, Fr::zero(), Fr::zero()], m, 1, 2);
    check_eq(Fr::hash_msg(m, Some(cap)), want, "hash_msg with capacity, length", n);
    check_eq(Fr::msg_hasher().hash_with_cap(m, cap), want, "msg_hasher().hash_with_cap, length", n);
    check_eq(Hash::<Fr, HashSpec<Fr>, VariableLengthIden3, 3, 2>::init().hash_with_cap(m, cap), want, "hash_with_cap, length", n);
}
pub fn bn_short() {
    for n in 1..=12 {
        real(n, &vars::<Fr>("m", n));
    }
}
pub fn bn_repeated_and_zero_elements() {
    let a: Fr = any("a");
    let z = Fr::zero();
    real(1, &[z]);
    real(2, &[a, z]);
    real(2, &[z, z]);
    real(3, &[a, a, a]);
    real(3, &[a, z, z]);
    real(4, &[a, a, z, z]);
    real(5, &[z, z, z, z, z]);
    real(6, &[a, z, a, z, a, z]);
}
pub fn bn_default_capacity() {
    for n in 1..=6 {
        let m = vars::<Fr>("m", n);
        let c = bn_default_cap(n);
        check_eq(Fr::hash_msg(&m, None), bn_perm().sponge([c, Fr::zero(), Fr::zero()], &m, 1, 2), "hash_msg, length", n);
    }
}
pub fn bn_default_cap(n: usize) -> Fr {
    let d: u128 = if config("legacy") == 1 { 1 } else { 1u128 << 64 };
    embed::<Fr>(n as u128 * d)
}
fn generic<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize>(n: usize) {
    let m = vars::<F>("m", n);
    let cap = any_u128("cap");
    let p = tiny_perm::<F, T>(2, 0);
    let mut s = [F::ZERO; T];
    // the capacity lane of the right-aligned layout is the lane before the inputs
    s[(RATE + (T - RATE)) % T] = embed::<F>(cap);
    let want = p.sponge(s, &m, T - RATE, RATE);
    let got = Hash::<F, Tiny<2, 0>, VariableLengthIden3, T, RATE>::init().hash_with_cap(&m, cap);
    check_eq(got, want, "hash_with_cap of a user specification, length", n);
}
pub fn any_length() {
    for n in lengths(40, 4096) {
        generic::<SymF, 3, 2>(n);
    }
}
/// sums and products of two constants of the code, and their neighbours
pub fn derived_lengths() {
    let cap = 400;
    let mut seen = Vec::new();
    for _ in 0..=cap + 1 {
        seen.push(false);
    }
    for i in 0..mined_len() {
        for j in 0..=i {
            let (a, b) = (mined(i), mined(j));
            if a <= cap && b <= cap {
                for x in [a + b, a * b] {
                    for d in 0..3 {
                        let n = x + d;
                        if n > 41 && n <= cap + 1 && !seen[n - 1] {
                            seen[n - 1] = true;
                            generic::<SymF, 3, 2>(n - 1);
                        }
                    }
                }
            }
        }
    }
}
/// only when the hashing code holds a value of a 16-bit type: one message beyond its range
pub fn long_message() {
    if config("narrow16") == 1 {
        generic::<SymF, 3, 2>(131075);
    }
}
pub fn any_width() {
    for n in 1..=11 {
        generic::<SymF, 2, 1>(n);
        generic::<SymF, 4, 3>(n);
        generic::<SymF, 5, 4>(n);
        generic::<SymF, 6, 5>(n);
    }
}
pub fn bn_mined_lengths() {
    for n in lengths(12, 130) {
        if n > 12 {
            let m = vars::<Fr>("m", n);
            let cap = any_u128("cap");
            let want = bn_perm().sponge([embed::<Fr>(cap), Fr::zero(), Fr::zero()], &m, 1, 2);
            check_eq(Fr::hash_msg(&m, Some(cap)), want, "hash_msg with capacity, length", n);
        }
    }
}
pub fn warm() {
    real(3, &vars::<Fr>("m", 3));
    let _ = Fr::hash_msg(&vars::<Fr>("m", 3), None);
}
