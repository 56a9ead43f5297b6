//! P07: valid calls return. Every obligation fails when the analyser finds a reachable panic, overflow, failed bound
//! check or failed assertion; no values are compared here.
use crate::common::*;
use crate::symf::SymF;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, FromUniformBytes};
use poseidon_base::hash::{HashSpec, Hashable, MessageHashable};
use poseidon_base::params::{self, CachedConstants};
use poseidon_base::primitives::*;

pub fn two_to_one() {
    let (a, b, d): (Fr, Fr, Fr) = (any("a"), any("b"), any("d"));
    let _ = Fr::hash_with_domain([a, b], d);
    let _ = <Fr as Hashable>::hash([a, b]);
    let _ = <Fr as Hashable>::hasher().hash([a, a], d);
    let _ = <Fr as Hashable>::hasher().clone().hash([Fr::zero(), b], Fr::zero());
    let _ = <Fr as Hashable>::hash_block_size();
}
pub fn messages() {
    for n in lengths(12, 300) {
        if n > 40 && config("quick") == 1 {
            continue;
        }
        let m = vars::<Fr>("m", n);
        let _ = Fr::hash_msg(&m, None);
        if n < 8 {
            let _ = Fr::hash_msg(&m, Some(any_u128("cap")));
            let _ = Fr::msg_hasher().hash_with_cap(&m, any_u128("cap"));
        }
    }
    let _ = Fr::hash_msg(&[Fr::zero()], Some(u128::MAX));
    let _ = Fr::hash_msg(&[Fr::zero(), Fr::zero()], Some(0));
}
fn gen<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize>() {
    for n in 1..=(3 * RATE + 2) {
        let m = vars::<F>("m", n);
        let _ = Hash::<F, Tiny<2, 1>, VariableLengthIden3, T, RATE>::init().hash_with_cap(&m, any_u128("cap"));
    }
    let h = Hash::<F, Tiny<2, 1>, ConstantLength<4>, T, RATE>::init();
    let mut s: [F; T] = var_arr("s");
    h.permute(&mut s);
}
pub fn user_specs() {
    gen::<SymF, 2, 1>();
    gen::<SymF, 3, 2>();
    gen::<SymF, 3, 1>();
    gen::<SymF, 4, 2>();
    gen::<SymF, 4, 3>();
    gen::<SymF, 5, 4>();
    gen::<SymF, 8, 7>();
    gen::<SymF, 12, 11>();
    for n in lengths(70, 3000) {
        let m = vars::<SymF>("m", n);
        let _ = Hash::<SymF, Tiny<2, 0>, VariableLengthIden3, 3, 2>::init().hash_with_cap(&m, any_u128("cap"));
    }
}
fn cl<const T: usize, const RATE: usize, const L: usize>() {
    let m: [SymF; L] = var_arr("m");
    let _ = Hash::<SymF, Tiny<2, 0>, ConstantLength<L>, T, RATE>::init().hash(m);
    let _ = Hash::<SymF, Tiny<2, 0>, ConstantLengthIden3<L>, T, RATE>::init().hash(m, any("d"));
}
macro_rules! cls { ($t:literal $r:literal; $($l:literal)*) => { $( cl::<$t, $r, $l>(); )* } }
pub fn constant_lengths() {
    cls!(3 2; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 31 32 33 63 64 65 127 128 129 255 256 257 1000);
    cls!(2 1; 1 2 3 4 5);
    cls!(4 3; 1 2 3 4 5 6 7 8);
    cls!(4 2; 1 2 3 4 5);
    cls!(9 8; 1 7 8 9 15 16 17);
}
/// only when the hashing code holds a value of a 16-bit type: one message beyond its range
pub fn long_message() {
    if config("narrow16") == 1 {
        let m = vars::<SymF>("m", 131075);
        let _ = Hash::<SymF, Tiny<2, 0>, VariableLengthIden3, 3, 2>::init().hash_with_cap(&m, any_u128("cap"));
    }
}
pub fn parameters() {
    let _ = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants();
    let _ = <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::constants();
    let _ = <HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds_inv();
    let _ = <Fr as CachedConstants>::cached_mds_inv();
    let _ = params::mds::<Fr>();
    for i in 0..65 {
        let _ = params::round_constant::<Fr>(i);
    }
    let x: Fr = any("x");
    let _ = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::sbox(x);
    let _ = <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::sbox(x);
    let h = <Fr as Hashable>::hasher();
    let _ = format!("{h:?}");
    let _ = <ConstantLength<3> as Domain<Fr, 2>>::name();
    let _ = <ConstantLengthIden3<3> as Domain<Fr, 2>>::name();
    let _ = <VariableLengthIden3 as Domain<Fr, 2>>::name();
    let _: Absorbing<Fr, 2> = Absorbing::init_with(x);
    let _: Absorbing<Fr, 1> = Absorbing::init_with(x);
    let _ = SymF::ZERO;
}
pub fn warm() {
    two_to_one();
    let _ = Fr::hash_msg(&vars::<Fr>("m", 3), None);
    let _ = Fr::hash_msg(&vars::<Fr>("m", 3), Some(any_u128("cap")));
}
