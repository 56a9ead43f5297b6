//! configurations, chips and tables can be cloned and handed to other threads
use halo2curves::bn256::Fr;
use poseidon_circuit::hash::PoseidonHashConfig;
use poseidon_circuit::poseidon::{Pow5Config, SeptidonChip};
pub fn shared<T: Clone + Send + Sync + 'static>() {}
pub fn all() {
    shared::<PoseidonHashConfig<Fr>>();
    shared::<poseidon_circuit::hash::PoseidonHashTable<Fr>>();
    shared::<Pow5Config<Fr, 3, 2>>();
    shared::<SeptidonChip>();
}
fn main() {}
