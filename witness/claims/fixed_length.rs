//! a fixed-length hasher takes exactly a message of its length, of its field, and no other arguments
use halo2curves::bn256::Fr;
use poseidon_base::hash::HashSpec;
use poseidon_base::primitives::{ConstantLength, ConstantLengthIden3, Hash};
pub fn zcash(h: Hash<Fr, HashSpec<Fr>, ConstantLength<3>, 3, 2>, x: Fr) -> Fr {
    //@ok h.hash([x, x, x])
    //@bad h.hash([x, x])
    //@bad h.hash([x, x, x, x])
    //@bad h.hash(&[x, x, x][..])
    //@bad h.hash(vec![x, x, x])
    //@bad h.hash([1u64, 2, 3])
    //@bad h.hash([x, x, x], x)
    //@bad h.hash_with_cap(&[x, x, x], 3)
}
pub fn iden3(h: Hash<Fr, HashSpec<Fr>, ConstantLengthIden3<2>, 3, 2>, x: Fr) -> Fr {
    //@ok h.hash([x, x], x)
    //@bad h.hash([x], x)
    //@bad h.hash([x, x, x], x)
    //@bad h.hash(&[x, x][..], x)
    //@bad h.hash([x, x])
    //@bad h.hash_with_cap(&[x, x], 3)
}
fn main() {}
