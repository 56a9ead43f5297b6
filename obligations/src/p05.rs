//! P05: constant-length hashing.
use crate::common::*;
use crate::symf::SymF;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, FromUniformBytes};
use poseidon_base::hash::HashSpec;
use poseidon_base::primitives::*;

fn both<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize, const L: usize>() {
    let m: [F; L] = var_arr("m");
    let p = tiny_perm::<F, T>(2, 0);
    let mut s = [F::ZERO; T];
    s[RATE] = embed::<F>((L as u128) << 64);
    let want = p.sponge(s, &m, 0, RATE);
    check_eq(Hash::<F, Tiny<2, 0>, ConstantLength<L>, T, RATE>::init().hash(m), want, "ConstantLength, length", L);
    let d: F = any("d");
    let mut s = [F::ZERO; T];
    s[(RATE + (T - RATE)) % T] = d;
    let want = p.sponge(s, &m, T - RATE, RATE);
    check_eq(Hash::<F, Tiny<2, 0>, ConstantLengthIden3<L>, T, RATE>::init().hash(m, d), want, "ConstantLengthIden3, length", L);
}
fn bn<const L: usize>() {
    let m: [Fr; L] = var_arr("m");
    let p = bn_perm();
    let want = p.sponge([Fr::zero(), Fr::zero(), embed::<Fr>((L as u128) << 64)], &m, 0, 2);
    check_eq(Hash::<Fr, HashSpec<Fr>, ConstantLength<L>, 3, 2>::init().hash(m), want, "ConstantLength, length", L);
    let d: Fr = any("d");
    let want = p.sponge([d, Fr::zero(), Fr::zero()], &m, 1, 2);
    check_eq(Hash::<Fr, HashSpec<Fr>, ConstantLengthIden3<L>, 3, 2>::init().hash(m, d), want, "ConstantLengthIden3, length", L);
}
macro_rules! lens { ($f:ident, $($g:ty, $t:literal, $r:literal)?; $($l:literal)*) => { $( $f::<$($g, $t, $r,)? $l>(); )* } }
macro_rules! each { ($t:literal $r:literal; $($l:literal)*) => { $( both::<SymF, $t, $r, $l>(); )* } }
macro_rules! eachbn { ($($l:literal)*) => { $( bn::<$l>(); )* } }

pub fn bn_lengths() {
    eachbn!(1 2 3 4 5 6 7 8 9 10 11);
}
#[cfg(feature = "pasta")]
pub fn pasta_lengths() {
    use poseidon_base::primitives::pasta::Fp;
    let p = pasta_perm();
    let m: [Fp; 3] = var_arr("m");
    let want = p.sponge([Fp::zero(), Fp::zero(), embed::<Fp>(3u128 << 64)], &m, 0, 2);
    check_eq(Hash::<Fp, P128Pow5T3<Fp>, ConstantLength<3>, 3, 2>::init().hash(m), want, "pasta ConstantLength", 3);
    check_eq(Hash::<Fp, HashSpec<Fp>, ConstantLength<3>, 3, 2>::init().hash(m), want, "pasta ConstantLength, HashSpec", 3);
}
pub fn w3_r2() {
    each!(3 2; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 79 80 81 95 96 97 99 100 101 127 128 129 191 192 193 199 200 201 255 256 257 258 299 300 383 384 385 499 500 501 511 512 513 767 999 1000 1001 1023 1024 1025);
}
pub fn w2_r1() {
    each!(2 1; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 31 32 33 64 128);
}
pub fn w4_r3() {
    each!(4 3; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 48 63 64 65 96 99 100 128 255 256 257);
}
pub fn w5_r4() {
    each!(5 4; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 63 64 65 128 256);
}
pub fn w6_r5() {
    each!(6 5; 1 4 5 6 9 10 11 16);
}
pub fn w9_r8() {
    each!(9 8; 1 2 7 8 9 15 16 17 24);
}
pub fn w17_r16() {
    each!(17 16; 1 2 15 16 17 31 32 33);
}
/// more than one capacity lane
pub fn w4_r2() {
    each!(4 2; 1 2 3 4 5);
}
pub fn w5_r2() {
    each!(5 2; 1 2 3 4 5);
}
pub fn w3_r1() {
    each!(3 1; 1 2 3 4);
}
/// the `Domain` interface itself
pub fn domains() {
    check_eq(<ConstantLength<7> as Domain<SymF, 2>>::initial_capacity_element(), embed::<SymF>(7u128 << 64), "capacity of ConstantLength<7>", 7);
    check_eq(<ConstantLengthIden3<7> as Domain<SymF, 2>>::initial_capacity_element(), SymF::ZERO, "capacity of ConstantLengthIden3<7>", 7);
    check_eq(<VariableLengthIden3 as Domain<SymF, 2>>::initial_capacity_element(), SymF::ZERO, "capacity of VariableLengthIden3", 0);
    check_eq_i(<ConstantLength<7> as Domain<SymF, 2>>::layout(3), 0, "layout of ConstantLength", 3);
    check_eq_i(<ConstantLengthIden3<7> as Domain<SymF, 2>>::layout(3), 1, "layout of ConstantLengthIden3", 3);
    check_eq_i(<ConstantLengthIden3<7> as Domain<SymF, 4>>::layout(6), 2, "layout of ConstantLengthIden3", 6);
    check_eq_i(<VariableLengthIden3 as Domain<SymF, 2>>::layout(3), 1, "layout of VariableLengthIden3", 3);
    pads::<SymF, ConstantLength<7>, 2>(7, 1);
    pads::<SymF, ConstantLength<8>, 2>(8, 0);
    pads::<SymF, ConstantLengthIden3<7>, 3>(7, 2);
    pads::<SymF, ConstantLength<9>, 4>(9, 3);
    for n in 1..=20 {
        pads::<SymF, VariableLengthIden3, 2>(n, n % 2);
        pads::<SymF, VariableLengthIden3, 3>(n, (3 - n % 3) % 3);
        pads::<SymF, VariableLengthIden3, 5>(n, (5 - n % 5) % 5);
    }
}
fn pads<F: FromUniformBytes<64> + Ord, D: Domain<F, R>, const R: usize>(len: usize, want: usize) {
    let mut n = 0;
    for x in D::padding(len) {
        check_eq(x, F::ZERO, "padding is zero", n);
        n += 1;
    }
    check_eq_i(n, want, "number of padding elements for length", len);
}
pub fn warm() {
    both::<SymF, 3, 2, 3>();
}
