//! behind a shared reference a hasher permutes states of its width and can be cloned, but hashes only from a clone
use halo2curves::bn256::Fr;
use poseidon_base::hash::HashSpec;
use poseidon_base::primitives::{ConstantLength, ConstantLengthIden3, Hash, VariableLengthIden3};
pub fn zcash(h: &Hash<Fr, HashSpec<Fr>, ConstantLength<2>, 3, 2>, x: Fr) -> Fr {
    //@ok h.clone().hash([x, x])
    //@bad h.hash([x, x])
}
pub fn iden3(h: &Hash<Fr, HashSpec<Fr>, ConstantLengthIden3<2>, 3, 2>, x: Fr) -> Fr {
    //@ok h.clone().hash([x, x], x)
    //@bad h.hash([x, x], x)
}
pub fn variable(h: &Hash<Fr, HashSpec<Fr>, VariableLengthIden3, 3, 2>, x: Fr) -> Fr {
    //@ok h.clone().hash_with_cap(&[x, x], 7)
    //@bad h.hash_with_cap(&[x, x], 7)
}
pub fn permute(h: &Hash<Fr, HashSpec<Fr>, VariableLengthIden3, 3, 2>, x: Fr) {
    //@ok h.permute(&mut [x, x, x]);
    //@bad h.permute(&mut [x, x]);
    //@bad h.permute(&mut [x, x, x, x]);
    //@bad h.permute(&[x, x, x]);
}
fn main() {}
