from cc import *
ID="c10-squeeze-state"; PROPERTY="C10"; CIRCUIT=True
F=C+"poseidon.rs"
EDITS=[(F,'''    if let Some(input) = input {
        *state = chip.add_input(&mut layouter, state, input)?;
    }
    *state = chip.permute(&mut layouter, state)?;
    Ok(PoseidonChip::get_output(state))''','''    let input = match input {
        Some(input) => input,
        // nothing to absorb: the output of one more permutation
        None => {
            let next = chip.permute(&mut layouter, state)?;
            return Ok(PoseidonChip::get_output(&next));
        }
    };
    *state = chip.add_input(&mut layouter, state, input)?;
    *state = chip.permute(&mut layouter, state)?;
    Ok(PoseidonChip::get_output(state))''')]
NEEDS="squeezing more than twice the rate from one sponge"
BREAKS="the state is not kept after a permutation without input: the fifth and sixth squeezed elements repeat the third and fourth"
MAIN=HEAD+'''
use halo2_proofs::circuit::{AssignedCell, Layouter, Value};
use halo2_proofs::plonk::ConstraintSystem;
use halo2_proofs::record::Recorder;
use poseidon_base::primitives::Domain;
fn main() {
    let mut cs = ConstraintSystem::default();
    let c = cs.advice_column();
    let k = cs.fixed_column();
    cs.enable_equality(c);
    cs.enable_constant(k);
    let config = <Long as PermuteChip<Fr, P128Pow5T3<Fr>, 3, 2>>::configure(&mut cs);
    let mut rec = Recorder::new(cs);
    let mut l = &mut rec;
    let m: Vec<AssignedCell<Fr, Fr>> = l.assign_region(|| "m", |mut r| (0..2).map(|i| r.assign_advice(|| "m", c, i, || Value::known(elem(i as u64)))).collect()).unwrap();
    let mut s: Sponge<Fr, Long, P128Pow5T3<Fr>, Absorbing<PaddedWord<Fr>, 2>, ConstantLength<2>, 3, 2> = Sponge::new(Pow5Chip::construct(config), &mut *l).unwrap();
    for x in m {
        s.absorb(&mut *l, PaddedWord::Message(x)).unwrap();
    }
    let mut s = s.finish_absorbing(&mut *l).unwrap();
    let _ = <ConstantLength<2> as Domain<Fr, 2>>::name();
    let mut st = [elem(0), elem(1), <ConstantLength<2> as Domain<Fr, 2>>::initial_capacity_element()];
    for _ in 0..4 {
        st = trace::<P128Pow5T3<Fr>>(st, |_, _| ()).state[65];
        for k in 0..2 {
            let o = s.squeeze(&mut *l).unwrap();
            let mut v = None;
            let _ = o.value().map(|x| v = Some(*x));
            demand(v == Some(st[k]), "a squeezed element differs from the native one");
        }
    }
}
'''
