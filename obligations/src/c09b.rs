//! C09, native side: the block size a field announces holds one permutation of the chip that belongs to the configuration.
use crate::verif::*;
use halo2curves::bn256::Fr;
use poseidon_base::hash::Hashable;
use poseidon_base::primitives::Spec;

fn holds<F: Hashable>(rows: usize) {
    check(F::hash_block_size() >= rows, "the block size holds the rows of a permutation");
}
/// with `short`, the chip has eight rows for the shipped round numbers; without, one row per full round, one per two
/// partial rounds, and one for the result
fn rows<F: Hashable>() -> usize {
    let f = <F::SpecType as Spec<F, 3, 2>>::full_rounds();
    let p = <F::SpecType as Spec<F, 3, 2>>::partial_rounds();
    if cfg!(feature = "short") {
        f
    } else {
        let mut n = f + 1;
        let mut left = p;
        while left > 1 {
            left -= 2;
            n += 1;
        }
        n + left
    }
}
pub fn bn254() {
    check_eq_i(rows::<Fr>(), if cfg!(feature = "short") { 8 } else { 38 }, "rows of the chip for BN254", 0);
    holds::<Fr>(rows::<Fr>());
}
pub fn user_field() {
    holds::<crate::symf::SymF>(rows::<crate::symf::SymF>());
}
pub fn warm() {
    let _ = rows::<Fr>();
}
