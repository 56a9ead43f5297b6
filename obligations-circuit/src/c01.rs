//! C01: the septidon gates.
use crate::circ::*;
use crate::common::*;
use crate::verif::*;
use halo2_proofs::circuit::{Layouter, Value};
use halo2_proofs::plonk::{Advice, Column, ConstraintSystem};
use halo2_proofs::record::Recorder;
use halo2curves::ff::FromUniformBytes;
use halo2curves::bn256::Fr;
use poseidon_base::hash::Hashable;
use poseidon_base::primitives::{Spec, State};
use poseidon_circuit::poseidon::{PermuteChip, PoseidonInstructions, SeptidonChip, StateWord};

type S = <Fr as Hashable>::SpecType;

/// `n` given states, permuted one by one or as a batch; `shift` rows of the input columns are taken before
pub fn make<F: FromUniformBytes<64> + Ord, S: Spec<F, 3, 2>, PC>(n: usize, batch: bool) -> Made<F, StateWord<F>, 3>
where
    PC: PermuteChip<F, S, 3, 2> + PoseidonInstructions<F, S, 3, 2, Word = StateWord<F>>,
{
    let mut cs = ConstraintSystem::default();
    let io: [Column<Advice>; 3] = [cs.advice_column(), cs.advice_column(), cs.advice_column()];
    for c in io.iter() {
        cs.enable_equality(*c);
    }
    let config = <PC as PermuteChip<F, S, 3, 2>>::configure(&mut cs);
    let mut rec = Recorder::new(cs);
    let chip = <PC as PermuteChip<F, S, 3, 2>>::construct(config);
    let ins: Vec<[StateWord<F>; 3]> = rec
        .assign_region(
            || "inputs",
            |mut region| {
                let mut v = Vec::new();
                for k in 0..n {
                    let a = region.assign_advice(|| "a", io[0], k, || Value::known(input::<F>(k, 0)))?;
                    let b = region.assign_advice(|| "b", io[1], k, || Value::known(input::<F>(k, 1)))?;
                    let c = region.assign_advice(|| "c", io[2], k, || Value::known(input::<F>(k, 2)))?;
                    v.push([StateWord(a), StateWord(b), StateWord(c)]);
                }
                Ok(v)
            },
        )
        .unwrap();
    let outs = if batch {
        chip.permute_batch(&mut rec, &ins).unwrap()
    } else {
        let mut v: Vec<State<StateWord<F>, 3>> = Vec::new();
        for s in ins.iter() {
            v.push(chip.permute(&mut rec, s).unwrap());
        }
        v
    };
    Made { rec, ins, outs }
}
fn determined(n: usize, batch: bool) {
    outputs_determined(&make::<Fr, S, SeptidonChip>(n, batch), n, &bn_perm());
}
pub fn one_block() {
    determined(1, false);
}
pub fn three_blocks() {
    determined(3, false);
}
pub fn batch() {
    set_config("parallelism", 2);
    determined(3, true);
}
pub fn batch_wide() {
    set_config("parallelism", 8);
    determined(5, true);
}
pub fn batch_one_worker() {
    set_config("parallelism", 1);
    determined(4, true);
}
/// far into a batch and into a sequence of regions
pub fn batch_far() {
    set_config("parallelism", 3);
    determined(20, true);
}
pub fn blocks_far() {
    determined(17, false);
}
pub fn honest_witness() {
    check_witness(&make::<Fr, S, SeptidonChip>(2, false).rec);
}
pub fn honest_witness_batch() {
    set_config("parallelism", 2);
    check_witness(&make::<Fr, S, SeptidonChip>(3, true).rec);
}
pub fn warm() {
    set_config("parallelism", 1);
    let _ = make::<Fr, S, SeptidonChip>(1, false);
}
