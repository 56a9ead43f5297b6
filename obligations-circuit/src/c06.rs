//! C06: both assignment strategies make the same circuit, for any number of workers.
use crate::c05::*;
use crate::tab::*;
use crate::verif::*;
use halo2_proofs::plonk::Any;
use halo2_proofs::record::Recorder;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_circuit::hash::PoseidonHashTable;
use poseidon_circuit::poseidon::PermuteChip;

pub fn number(rec: &Recorder<Fr>, kind: Any, col: usize) -> usize {
    match kind {
        Any::Advice => col,
        Any::Fixed => rec.cs.num_advice_columns + col,
        Any::Instance => rec.cs.num_advice_columns + rec.cs.num_fixed_columns + col,
    }
}
/// the copy constraints as a partition of the cells: the smallest cell of each cell's class
pub fn classes(rec: &Recorder<Fr>, rows: usize) -> Vec<usize> {
    let n = (rec.cs.num_advice_columns + rec.cs.num_fixed_columns + rec.cs.num_instance_columns) * rows;
    let mut p = Vec::with_capacity(n);
    for i in 0..n {
        p.push(i);
    }
    for (a, b) in rec.copies.iter() {
        let x = number(rec, *a.column.column_type(), a.column.index()) * rows + a.row;
        let y = number(rec, *b.column.column_type(), b.column.index()) * rows + b.row;
        let x = find(&p, x);
        let y = find(&p, y);
        if x < y {
            p[y] = x;
        } else {
            p[x] = y;
        }
    }
    let mut i = 0;
    while i < n {
        if p[i] != i {
            let r = find(&p, i);
            p[i] = r;
        }
        i += 1;
    }
    p
}
fn find(p: &[usize], i: usize) -> usize {
    let mut i = i;
    while p[i] != i {
        i = p[i];
    }
    i
}
/// same fixed cells, selectors, copies and constants
pub fn same_shape(a: &Recorder<Fr>, b: &Recorder<Fr>) {
    let rows = if a.rows > b.rows { a.rows } else { b.rows };
    check_eq_i(a.rows, b.rows, "rows used", 0);
    check_eq_i(a.cs.num_advice_columns, b.cs.num_advice_columns, "advice columns", 0);
    check_eq_i(a.cs.num_fixed_columns, b.cs.num_fixed_columns, "fixed columns", 0);
    check_eq_i(a.selectors.len(), b.selectors.len(), "selectors", 0);
    let mut wrong = 0;
    for c in 0..a.cs.num_fixed_columns {
        for r in 0..rows {
            if !same(a.fixed_at(c, r), b.fixed_at(c, r)) {
                check_eq(a.fixed_at(c, r), b.fixed_at(c, r), "fixed cell", c);
                wrong += 1;
            }
        }
    }
    check_eq_i(wrong, 0, "fixed cells that differ", 0);
    wrong = 0;
    for c in 0..a.selectors.len() {
        for r in 0..rows {
            if a.selector_at(c, r) != b.selector_at(c, r) {
                wrong += 1;
            }
        }
    }
    check_eq_i(wrong, 0, "selectors that differ", 0);
    let x = classes(a, rows);
    let y = classes(b, rows);
    wrong = 0;
    for i in 0..x.len() {
        if x[i] != y[i] {
            wrong += 1;
        }
    }
    check_eq_i(wrong, 0, "cells whose copy constraints differ", 0);
    check_eq_i(a.constants.len(), b.constants.len(), "constant cells", 0);
    let mut k = 0;
    while k < a.constants.len() && k < b.constants.len() {
        check(a.constants[k].0 == b.constants[k].0, "place of a constant");
        check_eq(a.constants[k].1, b.constants[k].1, "constant", k);
        k += 1;
    }
}
pub fn same_witness(a: &Recorder<Fr>, b: &Recorder<Fr>) {
    let rows = if a.rows > b.rows { a.rows } else { b.rows };
    let mut n = 0;
    for c in 0..a.cs.num_advice_columns {
        for r in 0..rows {
            let x = a.advice_at(c, r);
            let y = b.advice_at(c, r);
            match (x, y) {
                (Some(x), Some(y)) => {
                    n += 1;
                    if !same(x, y) {
                        check_eq(x, y, "advice cell", c);
                    }
                }
                (None, None) => {}
                // an unassigned cell is zero
                (Some(x), None) => check_eq(x, Fr::ZERO, "advice cell assigned by one strategy only", c),
                (None, Some(y)) => check_eq(y, Fr::ZERO, "advice cell assigned by one strategy only", c),
            }
        }
    }
    check(n > 0, "cells compared");
}
pub fn compare<PC, const STEP: usize>(t: &PoseidonHashTable<Fr>, calcs: usize, workers: &[usize])
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    strategy(false, 3);
    let a = load::<PC, STEP>(t, calcs);
    for w in workers {
        strategy(true, *w);
        let b = load::<PC, STEP>(t, calcs);
        same_shape(&a.rec, &b.rec);
        same_witness(&a.rec, &b.rec);
    }
}
const MIX: [Entry; 4] = [msg(2, 64), PAIR, msg(1, 32), ZERO_DOMAIN];
pub fn mixed_few_workers() {
    compare::<Short, 32>(&build(&MIX, 32), 7, &[1, 2, 3]);
}
pub fn mixed_many_workers() {
    compare::<Short, 32>(&build(&MIX, 32), 7, &[4, 8, 1000]);
}
pub fn mixed_long() {
    compare::<Long, 32>(&build(&MIX, 32), 6, &[1, 2, 3, 16]);
}
pub fn long_message() {
    // one message spans what would be several workers' rows
    compare::<Short, 32>(&build(&[msg(5, 150), PAIR], 32), 7, &[1, 3, 7]);
}
pub fn messages_end_on_chunk_borders() {
    compare::<Short, 32>(&build(&[msg(2, 33), msg(2, 64), msg(2, 40)], 32), 7, &[2, 3, 4, 6]);
}
pub fn padding_only() {
    compare::<Short, 32>(&empty(), 5, &[1, 2, 4, 5, 9, 1000]);
}
pub fn no_rows() {
    compare_empty::<Short>();
    compare_empty::<Long>();
}
fn compare_empty<PC>()
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    compare::<PC, 32>(&empty(), 1, &[1, 2, 1000]);
    compare::<PC, 32>(&empty(), 0, &[1, 2]);
}
pub fn many_rows() {
    let mut e = Vec::new();
    for i in 0..20 {
        e.push(match i % 4 {
            0 => PAIR,
            1 => msg(3, 70),
            2 => msg(1, 32),
            _ => msg(2, 64),
        });
    }
    // 35 rows: more than the 32 workers assumed when their number is unknown
    compare::<Short, 32>(&build(&e, 32), 40, &[3, 8, 1000]);
}
fn capacities(sizes: &[usize], workers: &[usize]) {
    for n in sizes {
        compare::<Short, 32>(&build(&[msg(3, 70), PAIR, msg(2, 33), ZERO_DOMAIN], 32), *n, workers);
    }
}
pub fn capacities_around_8() {
    capacities(&[8, 9, 10], &[2, 4, 8]);
}
pub fn capacities_around_12() {
    capacities(&[11, 12, 13], &[3, 5]);
}
pub fn capacities_around_16() {
    capacities(&[15, 16, 17], &[4, 16]);
}
pub fn small_step() {
    compare::<Short, 1>(&build(&[msg(3, 3), PAIR, msg(1, 1)], 1), 7, &[2, 3, 5]);
}
/// vectors of different lengths, as a user may fill them
pub fn ragged() {
    let mut t = empty();
    t.inputs = vec![pair(0, 0), pair(0, 1), pair(1, 0)];
    t.controls = vec![45, 13];
    t.checks = Vec::new();
    compare::<Short, 32>(&t, 5, &[1, 2, 3]);
    t.controls = Vec::new();
    t.domain = vec![None, Some(any("d"))];
    compare::<Short, 32>(&t, 5, &[2, 4]);
    t.controls = vec![64, 32, 5, 7];
    compare::<Short, 32>(&t, 5, &[2, 4]);
}
/// a table that does not end its last message
pub fn open_message() {
    let mut t = empty();
    t.inputs = vec![pair(0, 0), pair(0, 1)];
    t.controls = vec![64, 50];
    compare::<Short, 32>(&t, 4, &[1, 2, 3]);
}
fn accepts<PC>(t: &PoseidonHashTable<Fr>, calcs: usize, parallel: bool, workers: usize) -> bool
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    strategy(parallel, workers);
    !panics(|| {
        let l = load::<PC, 32>(t, calcs);
        let _ = l.rec.rows;
    })
}
fn agree<PC>(t: &PoseidonHashTable<Fr>, calcs: usize, want: bool)
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    check_eq_i(accepts::<PC>(t, calcs, false, 2), want, "the sequential strategy accepts the table", calcs);
    for w in [1, 2, 5] {
        check_eq_i(accepts::<PC>(t, calcs, true, w), want, "the parallel strategy accepts the table", w);
    }
}
pub fn too_many_rows() {
    let t = build(&[PAIR, PAIR, PAIR], 32);
    agree::<Short>(&t, 2, false);
    agree::<Short>(&t, 3, true);
    let mut t = build(&[PAIR], 32);
    t.controls = vec![0, 0, 0];
    agree::<Short>(&t, 2, false);
    agree::<Short>(&t, 3, true);
}
pub fn too_many_rows_long() {
    let t = build(&[PAIR, PAIR], 32);
    agree::<Long>(&t, 1, false);
}
/// constants: which digest is expected is known, so a wrong one is seen
pub fn wrong_check() {
    let one = Fr::ONE;
    let mut t = empty();
    t.inputs = vec![[one, one], [one, one + one]];
    t.checks = vec![None, Some(one)];
    agree::<Short>(&t, 3, false);
    t.checks = vec![Some(one), None];
    agree::<Short>(&t, 3, false);
    // a check on a padding row
    t.checks = vec![None, None, Some(one)];
    agree::<Short>(&t, 4, false);
    // inside a message the check of a row is against the state after that row
    t.checks = vec![Some(one), None];
    t.controls = vec![50, 20];
    agree::<Short>(&t, 3, false);
    t.checks = vec![None, None];
    agree::<Short>(&t, 3, true);
}
pub fn any_environment() {
    // whatever the variable says the circuit is the same: unset and unknown values choose one of the two
    let t = build(&[msg(2, 64), PAIR], 32);
    strategy(false, 2);
    let a = load::<Short, 32>(&t, 4);
    for e in [3, 4] {
        set_config("environment", e);
        set_config("parallelism", 3);
        let b = load::<Short, 32>(&t, 4);
        same_shape(&a.rec, &b.rec);
        same_witness(&a.rec, &b.rec);
    }
}
pub fn warm() {
    strategy(false, 1);
    let t = load::<Short, 32>(&build(&[PAIR, msg(1, 5)], 32), 3);
    let _ = t.rec.rows;
    let _ = native(0, msg(1, 1));
}
