//! Checks a recorded synthesis with concrete values: gates, lookups, copies, constants. Not a proof system.
#![allow(dead_code)]
use halo2_proofs::circuit::Cell;
use halo2_proofs::plonk::*;
use halo2_proofs::record::Recorder;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_base::hash::Hashable;
use poseidon_circuit::hash::{PoseidonHashTable, SpongeChip, SpongeConfig};
use poseidon_circuit::poseidon::PermuteChip;

fn cell(col: &[Option<Option<Fr>>], row: i64) -> Fr {
    if row < 0 {
        return Fr::ZERO;
    }
    match col.get(row as usize) {
        Some(Some(Some(v))) => *v,
        _ => Fr::ZERO,
    }
}
fn eval(r: &Recorder<Fr>, e: &Expression<Fr>, row: i64) -> Fr {
    match e {
        Expression::Constant(c) => *c,
        Expression::Atom(Query::Selector(s)) => if row >= 0 && r.selector_at(*s, row as usize) { Fr::ONE } else { Fr::ZERO },
        Expression::Atom(Query::Fixed(c, d)) => {
            let x = row + *d as i64;
            if x < 0 { Fr::ZERO } else { r.fixed_at(*c, x as usize) }
        }
        Expression::Atom(Query::Advice(c, d)) => cell(&r.advice[*c], row + *d as i64),
        Expression::Atom(Query::Instance(..)) => Fr::ZERO,
        Expression::Negated(a) => -eval(r, &a.e, row),
        Expression::Sum(a, b) => eval(r, &a.e, row) + eval(r, &b.e, row),
        Expression::Product(a, b) => {
            let x = eval(r, &a.e, row);
            if x == Fr::ZERO { x } else { x * eval(r, &b.e, row) }
        }
        Expression::Scaled(a, c) => eval(r, &a.e, row) * c,
    }
}
fn at(r: &Recorder<Fr>, c: &Cell) -> Fr {
    match c.column.column_type() {
        Any::Advice => cell(&r.advice[c.column.index()], c.row as i64),
        Any::Fixed => r.fixed_at(c.column.index(), c.row),
        Any::Instance => Fr::ZERO,
    }
}
/// every constraint that does not hold
pub fn verify(r: &Recorder<Fr>) -> Vec<String> {
    let mut out = Vec::new();
    for row in 0..r.rows as i64 + 3 {
        for g in r.cs.gates.iter() {
            for (k, p) in g.polys.iter().enumerate() {
                if eval(r, p, row) != Fr::ZERO {
                    out.push(format!("gate {} #{k} at row {row}", g.name));
                }
            }
        }
        for l in r.cs.lookups.iter() {
            let ins: Vec<Fr> = l.inputs.iter().map(|(e, _)| eval(r, e, row)).collect();
            let n = l.inputs.iter().map(|(_, t)| r.fixed[t.inner().index()].len()).min().unwrap();
            if !(0..n).any(|i| l.inputs.iter().zip(ins.iter()).all(|((_, t), v)| r.fixed_at(t.inner().index(), i) == *v)) {
                out.push(format!("lookup {} at row {row}", l.name));
            }
        }
    }
    for (a, b) in r.copies.iter() {
        if at(r, a) != at(r, b) {
            out.push(format!("copy {:?} {:?}", a, b));
        }
    }
    for (a, v) in r.constants.iter() {
        if at(r, a) != *v {
            out.push(format!("constant at {:?}", a));
        }
    }
    out
}
pub fn set(r: &mut Recorder<Fr>, col: usize, row: usize, v: Fr) {
    let c = &mut r.advice[col];
    while c.len() <= row {
        c.push(None);
    }
    c[row] = Some(Some(v));
}
/// columns of the table: digest, inputs (2), control, domain, header mark
pub struct Loaded {
    pub rec: Recorder<Fr>,
    pub col: [usize; 6],
    pub q: usize,
}
pub fn load<PC, const STEP: usize>(t: &PoseidonHashTable<Fr>, calcs: usize) -> Loaded
where
    PC: PermuteChip<Fr, <Fr as Hashable>::SpecType, 3, 2>,
    PC::Config: Sync,
{
    let mut cs = ConstraintSystem::default();
    let q = cs.fixed_column();
    let cols = [0; 6].map(|_| cs.advice_column());
    let config = SpongeConfig::<Fr, PC>::configure_sub(&mut cs, (q, cols), STEP);
    let mut rec = Recorder::new(cs);
    SpongeChip::<Fr, STEP, PC>::construct(config, t, calcs).load(&mut rec).expect("loads");
    Loaded { rec, col: cols.map(|c| c.index()), q: q.index() }
}
/// the recorder keeps only what is assigned: a copy with the same constraints
pub fn elem(n: u64) -> Fr {
    let mut x = Fr::from(n.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..3 {
        x = x * x + Fr::from(n);
    }
    x
}
use std::collections::BTreeMap;
use poseidon_base::primitives::Spec;
/// states before each round and after the last; the S-box output of lane 0 in each round
pub struct Trace {
    pub state: Vec<[Fr; 3]>,
    pub sbox: Vec<Fr>,
}
fn p5(x: Fr) -> Fr {
    let y = x * x;
    y * y * x
}
/// the rounds of the permutation; `change(round, state)` may alter the state before a round (or after the last)
pub fn trace<S: Spec<Fr, 3, 2>>(start: [Fr; 3], change: impl Fn(usize, &mut [Fr; 3])) -> Trace {
    let (rc, mds, _) = S::constants();
    let half = S::full_rounds() / 2;
    let n = S::full_rounds() + S::partial_rounds();
    let mut t = Trace { state: vec![], sbox: vec![] };
    let mut s = start;
    for r in 0..=n {
        change(r, &mut s);
        t.state.push(s);
        if r == n {
            break;
        }
        let full = r < half || r >= half + S::partial_rounds();
        let mut x = s;
        for k in 0..3 {
            x[k] += rc[r][k];
            if full || k == 0 {
                x[k] = p5(x[k]);
            }
        }
        t.sbox.push(x[0]);
        for k in 0..3 {
            s[k] = mds[k][0] * x[0] + mds[k][1] * x[1] + mds[k][2] * x[2];
        }
    }
    t
}
/// put the values of trace `b` where those of trace `a` are
pub fn graft(r: &mut Recorder<Fr>, a: &Trace, b: &Trace) {
    let mut m: BTreeMap<Fr, Fr> = BTreeMap::new();
    for (x, y) in a.state.iter().zip(b.state.iter()) {
        for k in 0..3 {
            m.insert(x[k], y[k]);
        }
    }
    for (x, y) in a.sbox.iter().zip(b.sbox.iter()) {
        m.insert(*x, *y);
    }
    m.remove(&Fr::ZERO);
    m.remove(&Fr::ONE);
    swap(r, &m);
}
pub fn swap(r: &mut Recorder<Fr>, m: &BTreeMap<Fr, Fr>) {
    for c in r.advice.iter_mut() {
        for x in c.iter_mut() {
            if let Some(Some(v)) = x {
                if let Some(n) = m.get(v) {
                    *v = *n;
                }
            }
        }
    }
}
pub fn count(r: &Recorder<Fr>, v: Fr) -> usize {
    r.advice.iter().flatten().filter(|x| **x == Some(Some(v))).count()
}
/// fails the demonstration
pub fn demand(ok: bool, what: &str) {
    if !ok {
        println!("DEMONSTRATED: {what}");
        std::process::exit(1);
    }
}
/// one permutation of `start` by chip PC
pub fn permute<PC>(start: [Fr; 3]) -> (Recorder<Fr>, [Fr; 3])
where
    PC: PermuteChip<Fr, <Fr as Hashable>::SpecType, 3, 2>,
{
    let (r, o) = permute_all::<PC, <Fr as Hashable>::SpecType>(&[start], false);
    (r, o[0])
}
pub fn permute_all<PC, S: Spec<Fr, 3, 2>>(starts: &[[Fr; 3]], batch: bool) -> (Recorder<Fr>, Vec<[Fr; 3]>)
where
    PC: PermuteChip<Fr, S, 3, 2>,
{
    use halo2_proofs::circuit::{AssignedCell, Layouter, Value};
    use poseidon_circuit::poseidon::PoseidonInstructions;
    let mut cs = ConstraintSystem::default();
    let cols = [0; 3].map(|_| cs.advice_column());
    for c in cols {
        cs.enable_equality(c);
    }
    let config = <PC as PermuteChip<Fr, S, 3, 2>>::configure(&mut cs);
    let mut rec = Recorder::new(cs);
    let mut l = &mut rec;
    let mut words = vec![];
    for (i, s) in starts.iter().enumerate() {
        let w = l
            .assign_region(
                || "inputs",
                |mut region| {
                    let mut out = vec![];
                    for k in 0..3 {
                        out.push(region.assign_advice(|| format!("in {i}"), cols[k], 0, || Value::known(s[k]))?);
                    }
                    Ok(out)
                },
            )
            .unwrap();
        let w: Vec<_> = w.into_iter().map(|c| <PC as PoseidonInstructions<Fr, S, 3, 2>>::Word::from(c)).collect();
        let w: [_; 3] = w.try_into().unwrap();
        words.push(w);
    }
    let chip = <PC as PermuteChip<Fr, S, 3, 2>>::construct(config);
    let outs = if batch {
        <PC as PoseidonInstructions<Fr, S, 3, 2>>::permute_batch(&chip, &mut l, &words).unwrap()
    } else {
        words.iter().map(|w| <PC as PoseidonInstructions<Fr, S, 3, 2>>::permute(&chip, &mut l, w).unwrap()).collect()
    };
    let mut vals = vec![];
    for o in outs {
        vals.push(o.map(|w| {
            let c: AssignedCell<Fr, Fr> = w.into();
            let mut v = None;
            let _ = c.value().map(|x| v = Some(*x));
            v.unwrap()
        }));
    }
    (rec, vals)
}
