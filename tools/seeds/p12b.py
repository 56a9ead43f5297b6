ID = "p12-unsealed-mode"
PROPERTY = "P12"
EDITS = [("poseidon-base/src/primitives.rs", """mod private {
    pub trait SealedSpongeMode {}
    impl<F, const RATE: usize> SealedSpongeMode for super::Absorbing<F, RATE> {}
    impl<F, const RATE: usize> SealedSpongeMode for super::Squeezing<F, RATE> {}
}
""", """mod private {
    /// Marker for everything that can be the mode of a sponge: cheap to hand over.
    pub trait SealedSpongeMode {}
    impl<M: Clone> SealedSpongeMode for M {}
}
""")]
NEEDS = "a client crate that implements SpongeMode for its own type"
BREAKS = "the sealing trait is implemented for every Clone type, so SpongeMode can be implemented outside the crate"
GOOD = """use poseidon_base::primitives::{Absorbing, SpongeMode, Squeezing};
fn is<M: SpongeMode>() {}
fn main() { is::<Absorbing<u64, 2>>(); is::<Squeezing<u64, 2>>(); }
"""
BAD = """use poseidon_base::primitives::SpongeMode;
#[derive(Clone)]
struct Mine;
impl SpongeMode for Mine {}
fn is<M: SpongeMode>() {}
fn main() { is::<Mine>(); }
"""
