//! C07: what is fixed at key generation does not depend on what the table holds.
use crate::c05::*;
use crate::c06::same_shape;
use crate::tab::*;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_circuit::hash::PoseidonHashTable;
use poseidon_circuit::poseidon::PermuteChip;

pub fn shape<PC, const STEP: usize>(tables: &[PoseidonHashTable<Fr>], calcs: usize, strategies: &[(bool, usize)])
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    for (p, w) in strategies {
        strategy(*p, *w);
        // the keys are made without witness and without table
        let key = load_with::<PC, STEP>(&empty(), calcs, false);
        check(key.rec.rows > 0, "rows used at key generation");
        for t in tables {
            let a = load::<PC, STEP>(t, calcs);
            same_shape(&key.rec, &a.rec);
            let b = load_with::<PC, STEP>(t, calcs, false);
            same_shape(&key.rec, &b.rec);
        }
    }
}
fn tables() -> Vec<PoseidonHashTable<Fr>> {
    let mut v = Vec::new();
    v.push(build(&[PAIR, ZERO_DOMAIN, PAIR, PAIR], 32));
    v.push(build(&[msg(4, 100), PAIR], 32));
    v.push(build(&[msg(2, 64), msg(2, 64), msg(1, 20)], 32));
    v
}
/// values that a branch might test: zeros, ones, equal elements
fn special() -> Vec<PoseidonHashTable<Fr>> {
    let (z, o) = (Fr::ZERO, Fr::ONE);
    let mut v = Vec::new();
    let mut t = empty();
    t.fixed_inputs([([z, z], z, None), ([o, z], o, None), ([z, o], z, None)].iter());
    t.stream_inputs([[z, z], [o, o]].iter(), 40, 32);
    v.push(t);
    let mut t = empty();
    t.stream_inputs([[z, z]].iter(), 0, 32);
    t.stream_inputs([[o, z], [z, z], [z, z]].iter(), 96, 32);
    v.push(t);
    // as long as the capacity, and not aligned
    let mut t = empty();
    t.inputs = vec![[o, o], [z, z], [o, o], [z, o], [o, z], [z, z]];
    t.controls = vec![64, 32];
    t.domain = vec![Some(o), None, Some(z)];
    v.push(t);
    v
}
pub fn serial_short() {
    shape::<Short, 32>(&tables(), 6, &[(false, 1)]);
}
pub fn parallel_short() {
    shape::<Short, 32>(&tables(), 6, &[(true, 2), (true, 3)]);
}
pub fn serial_long() {
    shape::<Long, 32>(&tables(), 6, &[(false, 1)]);
}
pub fn parallel_long() {
    shape::<Long, 32>(&tables(), 6, &[(true, 3)]);
}
pub fn special_serial() {
    shape::<Short, 32>(&special(), 6, &[(false, 1)]);
}
pub fn special_parallel() {
    shape::<Short, 32>(&special(), 6, &[(true, 2), (true, 4)]);
}
pub fn special_long() {
    shape::<Long, 32>(&special(), 6, &[(true, 2), (false, 1)]);
}
fn large() -> Vec<PoseidonHashTable<Fr>> {
    let mut v = Vec::new();
    let mut e = Vec::new();
    for i in 0..9 {
        e.push(if i % 3 == 1 { PAIR } else { msg(1 + i % 4, 30 * (1 + (i % 4) as u64)) });
    }
    v.push(build(&e, 32));
    v
}
pub fn large_serial() {
    shape::<Short, 32>(&large(), 25, &[(false, 1)]);
}
pub fn large_parallel() {
    shape::<Short, 32>(&large(), 25, &[(true, 3)]);
}
pub fn other_step() {
    let mut v = Vec::new();
    v.push(build(&[msg(3, 3), PAIR], 1));
    v.push(build(&[msg(1, 1), msg(1, 1), PAIR], 1));
    shape::<Short, 1>(&v, 5, &[(false, 1), (true, 2)]);
}
pub fn warm() {
    strategy(false, 1);
    let t = load::<Short, 32>(&build(&[PAIR, msg(1, 5)], 32), 3);
    let _ = t.rec.rows;
}
