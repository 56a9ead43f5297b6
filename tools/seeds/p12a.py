ID = "p12-reusable-hasher"
PROPERTY = "P12"
EDITS = [("poseidon-base/src/primitives.rs", "pub fn hash_with_cap(mut self, message: &[F], cap: u128) -> F {", "pub fn hash_with_cap(&mut self, message: &[F], cap: u128) -> F {"),
 ("poseidon-base/src/primitives.rs", """        for pad in <VariableLengthIden3 as Domain<F, RATE>>::padding(message.len()) {
            self.sponge.absorb(pad);
        }

        self.sponge.finish_absorbing().squeeze()""", """        for pad in <VariableLengthIden3 as Domain<F, RATE>>::padding(message.len()) {
            self.sponge.absorb(pad);
        }

        self.sponge.clone().finish_absorbing().squeeze()""")]
NEEDS = "a caller that keeps a variable-length hasher and hashes a second message with it"
BREAKS = "hash_with_cap borrows the hasher instead of consuming it: a second message can be hashed from the state the first one left, which gives a digest of both"
GOOD = """use halo2curves::bn256::Fr;
use poseidon_base::hash::MessageHashable;
fn main() { let h = Fr::msg_hasher(); let _ = h.clone().hash_with_cap(&[Fr::one()], 1); let mut g = h; g = g.clone(); let _ = g.hash_with_cap(&[Fr::one()], 1); }
"""
BAD = """use halo2curves::bn256::Fr;
use poseidon_base::hash::MessageHashable;
fn main() { let mut h = Fr::msg_hasher(); h = h.clone(); let _ = h.hash_with_cap(&[Fr::one()], 1); let _ = h.hash_with_cap(&[Fr::one()], 1); }
"""
