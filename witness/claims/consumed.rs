//! a hasher is consumed by hashing: no second message can be hashed from the state the first one left
use halo2curves::bn256::Fr;
use poseidon_base::hash::HashSpec;
use poseidon_base::primitives::{ConstantLength, ConstantLengthIden3, Hash, VariableLengthIden3};
pub fn zcash(h: Hash<Fr, HashSpec<Fr>, ConstantLength<2>, 3, 2>, x: Fr) -> Fr {
    let c = h.clone();
    let _ = h.hash([x, x]);
    //@ok c.hash([x, x])
    //@bad h.hash([x, x])
    //@bad h.clone().hash([x, x])
}
pub fn iden3(h: Hash<Fr, HashSpec<Fr>, ConstantLengthIden3<2>, 3, 2>, x: Fr) -> Fr {
    let c = h.clone();
    let _ = h.hash([x, x], x);
    //@ok c.hash([x, x], x)
    //@bad h.hash([x, x], x)
    //@bad h.clone().hash([x, x], x)
}
pub fn variable(h: Hash<Fr, HashSpec<Fr>, VariableLengthIden3, 3, 2>, x: Fr) -> Fr {
    let c = h.clone();
    let _ = h.hash_with_cap(&[x, x], 7);
    //@ok c.hash_with_cap(&[x, x], 7)
    //@bad h.hash_with_cap(&[x, x], 7)
    //@bad h.clone().hash_with_cap(&[x, x], 7)
}
fn main() {}
