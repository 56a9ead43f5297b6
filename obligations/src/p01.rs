//! P01: the permutation.
use crate::common::*;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::FromUniformBytes;
use poseidon_base::hash::{HashSpec, Hashable, MessageHashable};
use poseidon_base::params::CachedConstants;
use poseidon_base::primitives::*;

fn same3<F: Copy, const T: usize>(got: [F; T], want: [F; T]) {
    for i in 0..T {
        check_eq(got[i], want[i], "lane", i);
    }
}
fn st() -> [Fr; 3] {
    var_arr("s")
}

pub fn bn_hash_spec() {
    let mut got = st();
    permute::<Fr, HashSpec<Fr>, 3, 2>(
        &mut got,
        <HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds(),
        <HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_round_constants(),
    );
    same3(got, bn_perm().run(st()));
}
pub fn bn_plain() {
    let (rc, mds, _) = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants();
    let mut got = st();
    permute::<Fr, P128Pow5T3<Fr>, 3, 2>(&mut got, &mds, &rc);
    same3(got, bn_perm().run(st()));
}
pub fn bn_compact() {
    let (rc, mds, _) = <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::constants();
    let mut got = st();
    permute::<Fr, P128Pow5T3Compact<Fr>, 3, 2>(&mut got, &mds, &rc);
    same3(got, bn_perm().run(st()));
}
pub fn bn_cached_constants() {
    let mut got = st();
    permute::<Fr, P128Pow5T3Compact<Fr>, 3, 2>(&mut got, <Fr as CachedConstants>::cached_mds(), <Fr as CachedConstants>::cached_round_constants());
    same3(got, bn_perm().run(st()));
}
pub fn bn_hashers() {
    let want = bn_perm().run(st());
    let mut a = st();
    <Fr as Hashable>::hasher().permute(&mut a);
    same3(a, want);
    let mut b = st();
    <Fr as MessageHashable>::msg_hasher().permute(&mut b);
    same3(b, want);
    let mut c = st();
    let h = Hash::<Fr, HashSpec<Fr>, ConstantLength<3>, 3, 2>::init();
    h.permute(&mut c);
    same3(c, want);
    // and again, on the permuted state
    h.permute(&mut c);
    same3(c, bn_perm().run(want));
}
#[cfg(feature = "pasta")]
pub fn pasta() {
    use poseidon_base::primitives::pasta::Fp;
    let s: [Fp; 3] = var_arr("s");
    let want = pasta_perm().run(s);
    let mut a = s;
    Hash::<Fp, HashSpec<Fp>, ConstantLengthIden3<2>, 3, 2>::init().permute(&mut a);
    same3(a, want);
    let (rc, mds, _) = <P128Pow5T3Compact<Fp> as Spec<Fp, 3, 2>>::constants();
    let mut b = s;
    permute::<Fp, P128Pow5T3Compact<Fp>, 3, 2>(&mut b, &mds, &rc);
    same3(b, want);
    let (rc, mds, _) = <P128Pow5T3<Fp> as Spec<Fp, 3, 2>>::constants();
    let mut c = s;
    permute::<Fp, P128Pow5T3<Fp>, 3, 2>(&mut c, &mds, &rc);
    same3(c, want);
}
fn user<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize, const RF: usize, const RP: usize>() {
    let s: [F; T] = var_arr("s");
    let want = tiny_perm::<F, T>(RF, RP).run(s);
    let (rc, mds, _) = <Tiny<RF, RP> as Spec<F, T, RATE>>::constants();
    let mut a = s;
    permute::<F, Tiny<RF, RP>, T, RATE>(&mut a, &mds, &rc);
    same3(a, want);
    let mut b = s;
    Hash::<F, Tiny<RF, RP>, VariableLengthIden3, T, RATE>::init().permute(&mut b);
    same3(b, want);
}
macro_rules! user {
    ($($n:ident $f:ty, $t:literal $r:literal $rf:literal $rp:literal;)*) => { $(pub fn $n() { user::<$f, $t, $r, $rf, $rp>() })* };
}
use crate::symf::SymF;
user! {
    user_2_1 SymF, 2 1 2 1;
    user_3_2 SymF, 3 2 8 5;
    user_3_1 SymF, 3 1 4 3;
    user_4_3 SymF, 4 3 4 2;
    user_4_2 SymF, 4 2 2 2;
    user_5_4 SymF, 5 4 2 1;
    user_6_5 SymF, 6 5 2 2;
    user_7_3 SymF, 7 3 2 1;
    user_9_8 Fr, 9 8 2 1;
    user_no_partial SymF, 3 2 6 0;
    user_no_full SymF, 3 2 0 4;
    user_many SymF, 3 2 10 70;
}
/// the user's own S-box and round counts are used, whatever they are: all even R_F <= 12, R_P <= 4
pub fn user_rounds() {
    user::<Fr, 3, 2, 2, 0>();
    user::<Fr, 3, 2, 2, 4>();
    user::<Fr, 3, 2, 4, 1>();
    user::<Fr, 3, 2, 6, 2>();
    user::<Fr, 3, 2, 10, 3>();
    user::<Fr, 3, 2, 12, 4>();
    user::<Fr, 3, 2, 8, 56>();
    user::<Fr, 3, 2, 8, 57>();
}
pub fn warm() {
    bn_hash_spec();
}
