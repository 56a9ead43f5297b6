//! the modes of a sponge are the two of the crate: the mode trait is sealed
use poseidon_base::primitives::{Absorbing, SpongeMode, Squeezing};
#[derive(Clone)]
pub struct Mine;
#[derive(Clone)]
pub struct Wrapped<M>(pub M);
pub struct Of<M: SpongeMode>(pub M);
//@ok
//@bad impl SpongeMode for Mine {}
//@bad impl SpongeMode for Wrapped<Absorbing<u64, 2>> {}
//@bad impl<M: SpongeMode> SpongeMode for Wrapped<M> {}
//@bad impl poseidon_base::primitives::private::SealedSpongeMode for Mine {}
//@bad pub fn of(m: Of<Mine>) {}
//@bad pub fn of(m: Of<u64>) {}
pub struct A(pub Of<Absorbing<u64, 2>>);
pub struct S(pub Of<Squeezing<u64, 2>>);
fn main() {}
