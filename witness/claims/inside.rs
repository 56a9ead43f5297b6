//! the state inside a hasher can neither be seen nor replaced
use halo2curves::bn256::Fr;
use poseidon_base::hash::HashSpec;
use poseidon_base::primitives::{ConstantLength, Hash};
type H = Hash<Fr, HashSpec<Fr>, ConstantLength<2>, 3, 2>;
pub fn look(h: &mut H) {
    //@ok let _ = h;
    //@bad let _ = &h.sponge;
    //@bad h.sponge = H::init().sponge;
    //@bad h.update_capacity(Fr::one());
}
pub fn make(h: H) -> H {
    //@ok H::init()
    //@bad Hash { ..h }
    //@bad Hash { sponge: h.sponge, _domain: std::marker::PhantomData }
}
//@ok
//@bad use poseidon_base::primitives::Sponge;
fn main() {}
