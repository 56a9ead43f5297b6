//! a table cannot change, move or go away while a chip built for it is in use; entries are pairs of field elements
use halo2curves::bn256::Fr;
use poseidon_circuit::hash::{PoseidonHashChip, PoseidonHashConfig, PoseidonHashTable};
type T = PoseidonHashTable<Fr>;
pub fn use_chip(_: &PoseidonHashChip<'_, Fr, 32>) {}
pub fn frozen(config: PoseidonHashConfig<Fr>, mut t: T, x: Fr) {
    let chip: PoseidonHashChip<'_, Fr, 32> = PoseidonHashChip::construct(config, &t, 10);
    //@ok let _ = t.table_size();
    //@bad t.fixed_inputs([([x, x], x, None)].iter());
    //@bad t.inputs[0] = [x, x];
    //@bad drop(t);
    //@bad let moved = t;
    use_chip(&chip);
    t.fixed_inputs([([x, x], x, None)].iter());
}
pub fn entries(mut t: T, x: Fr) {
    //@ok t.fixed_inputs([([x, x], x, Some(x))].iter());
    //@bad t.fixed_inputs([([x, x, x], x, Some(x))].iter());
    //@bad t.fixed_inputs([([x, x], x, x)].iter());
    //@bad t.fixed_inputs([([x, x], 0u64, None)].iter());
}
pub fn streams(mut t: T, x: Fr) {
    //@ok t.stream_inputs([[x, x], [x, x]].iter(), 40, 32);
    //@bad t.stream_inputs([x, x].iter(), 40, 32);
    //@bad t.stream_inputs([[x, x, x]].iter(), 40, 32);
    //@bad t.stream_inputs([[x, x], [x, x]].iter(), x, 32);
}
pub fn steps(config: PoseidonHashConfig<Fr>, t: &T) {
    //@ok let c: PoseidonHashChip<'_, Fr, 32> = PoseidonHashChip::<Fr, 32>::construct(config, t, 10);
    //@bad let c: PoseidonHashChip<'_, Fr, 32> = PoseidonHashChip::<Fr, 62>::construct(config, t, 10);
    use_chip(&c);
}
fn main() {}
