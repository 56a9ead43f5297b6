from cc import *
ID="c10-padding-unbound"; PROPERTY="C10"; CIRCUIT=True
F=C+"poseidon/pow5.rs"
EDITS=[(F,'''                    let constraint_var = match input.0[i].clone() {
                        Some(PaddedWord::Message(word)) => word,''','''                    let constraint_var = match input.0[i].clone() {
                        Some(PaddedWord::Message(word)) => word,
                        // adding zero changes nothing
                        Some(PaddedWord::Padding(padding_value))
                            if padding_value == F::ZERO && i > 0 =>
                        {
                            return region
                                .assign_advice(
                                    || format!("load input_{i}"),
                                    config.state[i],
                                    1,
                                    || Value::known(padding_value),
                                )
                                .map(StateWord);
                        }''')]
NEEDS="a constant length that is not a multiple of the rate, and a prover that fills the padding cell with something else"
BREAKS="the padding word is not bound to its fixed value: the gadget accepts the digests of other messages"
MAIN=HEAD+'''
use halo2_proofs::circuit::{AssignedCell, Layouter, Value};
use halo2_proofs::plonk::ConstraintSystem;
use halo2_proofs::record::Recorder;
use poseidon_base::primitives::Domain;
fn main() {
    let mut cs = ConstraintSystem::default();
    let c = cs.advice_column();
    let k = cs.fixed_column();
    cs.enable_equality(c);
    cs.enable_constant(k);
    let config = <Long as PermuteChip<Fr, P128Pow5T3<Fr>, 3, 2>>::configure(&mut cs);
    let mut rec = Recorder::new(cs);
    let mut l = &mut rec;
    let m: Vec<AssignedCell<Fr, Fr>> = l.assign_region(|| "m", |mut r| (0..3).map(|i| r.assign_advice(|| "m", c, i, || Value::known(elem(i as u64)))).collect()).unwrap();
    let h: Hash<Fr, Long, P128Pow5T3<Fr>, ConstantLength<3>, 3, 2> = Hash::init(Pow5Chip::construct(config), &mut *l).unwrap();
    h.hash(&mut *l, m.try_into().unwrap()).unwrap();
    assert!(verify(&rec).is_empty());
    let cap = <ConstantLength<3> as Domain<Fr, 2>>::initial_capacity_element();
    let one = trace::<P128Pow5T3<Fr>>([elem(0), elem(1), cap], |_, _| ()).state[65];
    let a = trace::<P128Pow5T3<Fr>>([one[0] + elem(2), one[1], one[2]], |_, _| ());
    let b = trace::<P128Pow5T3<Fr>>([one[0] + elem(2), one[1] + Fr::ONE, one[2]], |_, _| ());
    // the state before the second block stays, the one after its input changes
    let honest: Vec<_> = rec.advice.clone();
    let zeros: Vec<(usize, usize)> = (0..honest.len()).flat_map(|c| (0..honest[c].len()).map(move |r| (c, r))).filter(|(c, r)| honest[*c][*r] == Some(Some(Fr::ZERO))).collect();
    let lane: Vec<(usize, usize)> = (0..honest.len()).flat_map(|c| (0..honest[c].len()).map(move |r| (c, r))).filter(|(c, r)| honest[*c][*r] == Some(Some(one[1]))).collect();
    for z in zeros.iter() {
        for first in 0..lane.len() {
            rec.advice = honest.clone();
            graft(&mut rec, &a, &b);
            for (i, (c, r)) in lane.iter().enumerate() {
                if i < first {
                    set(&mut rec, *c, *r, one[1]);
                }
            }
            set(&mut rec, z.0, z.1, Fr::ONE);
            demand(!verify(&rec).is_empty(), "another digest is accepted for the message");
        }
    }
}
'''
