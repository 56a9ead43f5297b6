ID = "p12-open-state"
PROPERTY = "P12"
EDITS = [("poseidon-base/src/primitives.rs", """    sponge: Sponge<F, S, Absorbing<F, RATE>, T, RATE>,
    _domain: PhantomData<D>,
}""", """    pub sponge: Sponge<F, S, Absorbing<F, RATE>, T, RATE>,
    _domain: PhantomData<D>,
}"""),
 ("poseidon-base/src/primitives.rs", "pub(crate) struct Sponge<", "pub struct Sponge<")]
NEEDS = "a client that swaps the sponge of a hasher for that of another one"
BREAKS = "the sponge of a hasher is a public field: its state can be replaced from outside, one message then absorbed on top of another"
GOOD = """use halo2curves::bn256::Fr;
use poseidon_base::hash::{Hashable, MessageHashable};
fn main() { let _ = Fr::hasher(); let _ = Fr::msg_hasher(); }
"""
BAD = """use halo2curves::bn256::Fr;
use poseidon_base::hash::Hashable;
fn main() { let mut h = Fr::hasher(); let g = Fr::hasher(); h.sponge = g.sponge; let _ = h.hash([Fr::one(), Fr::one()], Fr::one()); }
"""
