//! C09: the rows a table is said to need.
use crate::c01::make;
use crate::common::*;
use crate::tab::*;
use crate::verif::*;
use halo2_proofs::plonk::{Advice, Column, ConstraintSystem, Fixed};
use halo2_proofs::record::Recorder;
use halo2curves::bn256::Fr;
use poseidon_base::hash::*;
use poseidon_circuit::hash::{PoseidonHashChip, PoseidonHashConfig, PoseidonHashTable};
use poseidon_circuit::poseidon::PermuteChip;

/// rows of one permutation of the chip behind a configuration
fn block_of<PC>(_: fn(&mut ConstraintSystem<Fr>, (Column<Fixed>, [Column<Advice>; 6]), usize) -> poseidon_circuit::hash::SpongeConfig<Fr, PC>) -> usize
where
    PC: PermuteChip<Fr, S, 3, 2> + poseidon_circuit::poseidon::PoseidonInstructions<Fr, S, 3, 2, Word = poseidon_circuit::poseidon::StateWord<Fr>>,
{
    let m = make::<Fr, S, PC>(1, false);
    let n = make::<Fr, S, PC>(3, false);
    // rows are shared by no two permutations: three of them need three times as many as one
    let one = used(&m.rec);
    check_eq_i(used(&n.rec), 3 * one, "rows of three permutations", one);
    one
}
fn used(rec: &Recorder<Fr>) -> usize {
    let mut n = 0;
    for (start, len) in rec.regions.iter() {
        if start + len > n {
            n = start + len;
        }
    }
    n
}
fn table(n: usize) -> PoseidonHashTable<Fr> {
    let mut t: PoseidonHashTable<Fr> = Default::default();
    for i in 0..n {
        if i % 2 == 0 {
            t.fixed_inputs([(pair(i, 0), any_i("dom", i), None)].iter());
        } else {
            t.stream_inputs([pair(i, 0)].iter(), 7, 32);
        }
    }
    t
}
fn enough(n: usize) {
    let block = block_of(PoseidonHashConfig::<Fr>::configure_sub);
    let t = table(n);
    let min = t.minimum_row_require();
    check(min >= n * block, "the required rows hold one permutation per row of the table");
    let mut cs = ConstraintSystem::default();
    let q = cs.fixed_column();
    let cols: [Column<Advice>; 6] = [cs.advice_column(), cs.advice_column(), cs.advice_column(), cs.advice_column(), cs.advice_column(), cs.advice_column()];
    let config = PoseidonHashConfig::<Fr>::configure_sub(&mut cs, (q, cols), 32);
    let mut rec = Recorder::new(cs);
    let chip = PoseidonHashChip::<Fr, 32>::construct(config, &t, n);
    if chip.load(&mut rec).is_err() {
        fail("loading a valid table fails", "");
    }
    check_eq_i(min >= used(&rec), true, "the required rows hold what loading the table uses", n);
}
pub fn table_rows_serial() {
    strategy(false, 1);
    for n in 1..=4 {
        enough(n);
    }
}
pub fn table_rows_parallel() {
    strategy(true, 3);
    for n in 1..=5 {
        enough(n);
    }
}
pub fn larger_tables() {
    let block = {
        strategy(false, 1);
        block_of(PoseidonHashConfig::<Fr>::configure_sub)
    };
    for n in [0usize, 1, 2, 10, 100, 255, 256, 257, 1000] {
        let mut t: PoseidonHashTable<Fr> = Default::default();
        for _ in 0..n {
            t.inputs.push(pair(0, 0));
        }
        check(t.minimum_row_require() >= n * block, "the required rows hold one permutation per row of the table");
        check_eq_i(t.table_size(), n, "size the table reports", n);
    }
}
/// when the crates agree on the form of the chip, so does the block size
pub fn block_size() {
    strategy(false, 1);
    let block = block_of(PoseidonHashConfig::<Fr>::configure_sub);
    let t = table(1);
    check(t.minimum_row_require() >= block, "the required rows of one hash hold its permutation");
    #[cfg(feature = "short")]
    check(<Fr as Hashable>::hash_block_size() >= block, "the block size holds a permutation");
    let _ = bn_perm as fn() -> _;
}
/// the chip of this configuration is the announced one: few rows with `short`, two partial rounds per row without
pub fn chip_of_the_configuration() {
    strategy(false, 1);
    let block = block_of(PoseidonHashConfig::<Fr>::configure_sub);
    #[cfg(feature = "short")]
    check_eq_i(block, 8, "rows of a permutation with `short`", 0);
    #[cfg(not(feature = "short"))]
    check_eq_i(block, 38, "rows of a permutation without `short`", 0);
}
pub fn warm() {
    strategy(false, 1);
    let _ = block_of(PoseidonHashConfig::<Fr>::configure_sub);
}
