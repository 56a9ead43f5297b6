from cc import *
ID="c04-zero-continuation"; PROPERTY="C04"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''                q_enable.clone() * s_continue.clone() * (Expression::Constant(F::ONE) - ctrl_bool),
                q_enable
                    * (Expression''','''                q_enable
                    * (Expression'''),
(F,'''                q_enable.clone() * ctrl * (Expression::Constant(F::ONE) - ctrl_bool.clone()),''','''                q_enable.clone() * ctrl * (Expression::Constant(F::ONE) - ctrl_bool),'''),
(F,'''                q_enable.clone()
                    * (ctrl
                        + Expression::Constant(F::from_u128(step as u128 * HASHABLE_DOMAIN_SPEC))
                        - ctrl_prev),
                q_enable * (Expression::Constant(F::ONE) - ctrl_bool),
''','''                q_enable
                    * (ctrl
                        + Expression::Constant(F::from_u128(step as u128 * HASHABLE_DOMAIN_SPEC))
                        - ctrl_prev),
'''),
(F,'''            let ctrl_prev = meta.query_advice(control, Rotation::prev());
            let ctrl_bool = ctrl.clone() * meta.query_advice(control_aux, Rotation::cur());
''','''            let ctrl_prev = meta.query_advice(control, Rotation::prev());
''')]
NEEDS="a message whose second last row has control exactly one step, continued by a row with control zero"
BREAKS="a continuation row with control zero is accepted: a message can go on after its control ran out"
MAIN=HEAD+'''
fn main() {
    // the chip with a smaller step continues where the configured step says the message ends
    let t = PoseidonHashTable { inputs: vec![[elem(1), elem(2)], [elem(3), elem(4)]], controls: vec![32, 0], domain: vec![], checks: vec![] };
    let mut cs = halo2_proofs::plonk::ConstraintSystem::default();
    let q = cs.fixed_column();
    let cols = [0; 6].map(|_| cs.advice_column());
    let config = SpongeConfig::<Fr, SeptidonChip>::configure_sub(&mut cs, (q, cols), 32);
    let mut rec = halo2_proofs::record::Recorder::new(cs);
    SpongeChip::<Fr, 16, SeptidonChip>::construct(config, &t, 4).load(&mut rec).unwrap();
    demand(!verify(&rec).is_empty(), "a continuation row with control zero satisfies every constraint");
}
'''
