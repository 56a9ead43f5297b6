//! A stand-in for halo2_proofs: the part of its interface the circuits of /repo use, recording gates, lookups,
//! assignments and copies instead of proving anything. Semantics follow halo2's SimpleFloorPlanner.
#![allow(clippy::all)]
pub mod circuit;
pub mod plonk;
pub mod record;
pub mod poly {
    /// The rotation of a query, relative to the row a gate is evaluated at.
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Rotation(pub i32);
    impl Rotation {
        pub fn cur() -> Rotation {
            Rotation(0)
        }
        pub fn prev() -> Rotation {
            Rotation(-1)
        }
        pub fn next() -> Rotation {
            Rotation(1)
        }
    }
}
pub mod arithmetic {
    pub use halo2curves::ff::Field;
}
pub use halo2curves;
