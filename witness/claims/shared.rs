//! hashers, specifications, domains and modes can be cloned and handed to other threads, and stored
use halo2curves::bn256::Fr;
use poseidon_base::hash::{HashSpec, Hashable, MessageHashable};
use poseidon_base::primitives::*;
pub fn shared<T: Clone + Send + Sync + 'static>(_: &T) {}
pub fn plain<T: Clone + Send + Sync + 'static>() {}
pub fn all(x: Fr) {
    shared(&Fr::hasher());
    shared(&Fr::msg_hasher());
    shared(&Hash::<Fr, HashSpec<Fr>, ConstantLength<5>, 3, 2>::init());
    shared(&Hash::<Fr, HashSpec<Fr>, ConstantLengthIden3<5>, 3, 2>::init());
    shared(&Hash::<Fr, HashSpec<Fr>, VariableLengthIden3, 3, 2>::init());
    plain::<P128Pow5T3<Fr>>();
    plain::<P128Pow5T3Compact<Fr>>();
    plain::<ConstantLength<5>>();
    plain::<ConstantLengthIden3<5>>();
    plain::<VariableLengthIden3>();
    plain::<Absorbing<Fr, 2>>();
    plain::<Squeezing<Fr, 2>>();
    static SHARED: std::sync::OnceLock<Hash<Fr, HashSpec<Fr>, VariableLengthIden3, 3, 2>> = std::sync::OnceLock::new();
    let h = SHARED.get_or_init(Fr::msg_hasher);
    std::thread::scope(|s| {
        s.spawn(|| h.clone().hash_with_cap(&[x], 1));
        s.spawn(|| h.permute(&mut [x; 3]));
    });
}
fn main() {}
