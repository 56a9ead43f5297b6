//! The hash table circuit, seen through what its user sees: the six table columns and the enabling fixed column.
use crate::circ::*;
use crate::common::*;
use crate::verif::*;
use halo2_proofs::plonk::{Advice, Any, Column, ConstraintSystem, Fixed};
use halo2_proofs::record::Recorder;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_base::hash::*;
use poseidon_circuit::hash::{PoseidonHashTable, SpongeChip, SpongeConfig};
use poseidon_circuit::poseidon::{PermuteChip, Pow5Chip, SeptidonChip};

pub type S = <Fr as Hashable>::SpecType;
pub type Short = SeptidonChip;
pub type Long = Pow5Chip<Fr, 3, 2>;
pub const DIGEST: usize = 0;
pub const IN0: usize = 1;
pub const IN1: usize = 2;
pub const CONTROL: usize = 3;
pub const DOMAIN: usize = 4;
pub const HEADER: usize = 5;

pub struct Loaded {
    pub rec: Recorder<Fr>,
    pub col: [usize; 6],
    pub q: usize,
}
pub fn strategy(parallel: bool, workers: usize) {
    set_config("environment", if parallel { 2 } else { 1 });
    set_config("parallelism", workers);
}
pub fn load_with<PC, const STEP: usize>(t: &PoseidonHashTable<Fr>, calcs: usize, witness: bool) -> Loaded
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    let mut cs = ConstraintSystem::default();
    let q: Column<Fixed> = cs.fixed_column();
    let cols: [Column<Advice>; 6] = [cs.advice_column(), cs.advice_column(), cs.advice_column(), cs.advice_column(), cs.advice_column(), cs.advice_column()];
    let config = SpongeConfig::<Fr, PC>::configure_sub(&mut cs, (q, cols), STEP);
    let index = config.commitment_index();
    let named = config.hash_tbl_cols();
    for k in 0..6 {
        check_eq_i(index[k], cols[k].index(), "column the table is found at", k);
        check_eq_i(named[k].index(), cols[k].index(), "column the table is in", k);
    }
    check_eq_i(config.step, STEP, "step the configuration keeps", STEP);
    let mut rec = Recorder::new(cs);
    rec.witness = witness;
    let chip = SpongeChip::<Fr, STEP, PC>::construct(config, t, calcs);
    if chip.load(&mut rec).is_err() {
        fail("loading a valid table fails", "");
    }
    let mut col = [0; 6];
    for k in 0..6 {
        col[k] = cols[k].index();
    }
    Loaded { rec, col, q: q.index() }
}
pub fn load<PC, const STEP: usize>(t: &PoseidonHashTable<Fr>, calcs: usize) -> Loaded
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    load_with::<PC, STEP>(t, calcs, true)
}
impl Loaded {
    pub fn enabled(&self, row: usize) -> bool {
        self.rec.fixed_at(self.q, row) == Fr::ONE
    }
    /// the enabled rows are `calcs` consecutive ones; the first of them
    pub fn first(&self, calcs: usize) -> usize {
        let mut first = 0;
        while first < self.rec.rows && !self.enabled(first) {
            first += 1;
        }
        let mut n = 0;
        let mut r = 0;
        while r < self.rec.rows {
            if self.enabled(r) {
                n += 1;
                check(r >= first && r < first + calcs, "enabled rows are consecutive");
            } else {
                check(self.rec.fixed_at(self.q, r) == Fr::ZERO, "rows are enabled or not");
            }
            r += 1;
        }
        check_eq_i(n, calcs, "rows enabled", calcs);
        check(first >= 1, "the first enabled row has a row before it");
        first
    }
    pub fn put(&self, s: &mut Sys<'_, Fr>, k: usize, row: usize, v: Fr) {
        s.set_at(Any::Advice, self.col[k], row as i64, v)
    }
    pub fn look(&self, s: &Sys<'_, Fr>, k: usize, row: usize) -> Option<Fr> {
        s.get_at(Any::Advice, self.col[k], row as i64)
    }
    pub fn value(&self, k: usize, row: usize) -> Fr {
        match self.rec.advice_at(self.col[k], row) {
            Some(v) => v,
            None => {
                fail("cell of the table without a value", "");
                Fr::ZERO
            }
        }
    }
}
pub fn empty() -> PoseidonHashTable<Fr> {
    PoseidonHashTable { inputs: Vec::new(), controls: Vec::new(), domain: Vec::new(), checks: Vec::new() }
}
/// the domain factor by its documented value
pub fn factor() -> Fr {
    let mut x = Fr::ONE;
    if config("legacy") == 0 {
        for _ in 0..64 {
            x = x + x;
        }
    }
    x
}
pub fn times(n: u64) -> Fr {
    embed::<Fr>(n as u128) * factor()
}
#[derive(Clone, Copy)]
pub struct Row {
    pub input: [Fr; 2],
    pub control: u64,
    pub domain: Fr,
}
/// what the rows of a table mean: header marks and digests by the definition of the sponge
pub fn meaning(rows: &[Row], step: u64) -> (Vec<bool>, Vec<Fr>) {
    let perm = bn_perm();
    let mut head = Vec::new();
    let mut digest = Vec::new();
    let mut state = [Fr::ZERO; 3];
    let mut fresh = true;
    for r in rows.iter() {
        head.push(fresh);
        if fresh {
            state = [times(r.control) + r.domain, r.input[0], r.input[1]];
        } else {
            state = [state[0] + r.domain, state[1] + r.input[0], state[2] + r.input[1]];
        }
        state = perm.run(state);
        fresh = r.control <= step;
        if fresh {
            while digest.len() < head.len() {
                digest.push(state[0]);
            }
        }
    }
    while digest.len() < head.len() {
        digest.push(state[0]);
    }
    (head, digest)
}
/// the rows of a table padded to the capacity
pub fn padded(t: &PoseidonHashTable<Fr>, calcs: usize) -> Vec<Row> {
    let mut v = Vec::new();
    for i in 0..calcs {
        v.push(Row {
            input: match t.inputs.get(i) {
                Some(x) => *x,
                None => [Fr::ZERO; 2],
            },
            control: match t.controls.get(i) {
                Some(x) => *x,
                None => 0,
            },
            domain: match t.domain.get(i) {
                Some(Some(x)) => *x,
                _ => Fr::ZERO,
            },
        });
    }
    v
}
/// a field element of message `m`
pub fn elem(m: usize, i: usize) -> Fr {
    any_i("msg", 100 * m + i)
}
/// a row of message `m`
pub fn pair(m: usize, i: usize) -> [Fr; 2] {
    [elem(m, 2 * i), elem(m, 2 * i + 1)]
}
