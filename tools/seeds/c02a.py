from cc import *
ID="c02-single-round-constants"; PROPERTY="C02"; CIRCUIT=True
F=C+"poseidon/pow5.rs"
EDITS=[(F,'''                                let rc_a = meta.query_fixed(rc_a[idx], Rotation::cur());
                                (state_cur + rc_a) * m_reg[next_idx][idx]
                            })
                            .reduce(|acc, term| acc + term)
                            .expect("WIDTH > 0");
                    s_partial_single''','''                                state_cur * m_reg[next_idx][idx]
                            })
                            .reduce(|acc, term| acc + term)
                            .expect("WIDTH > 0");
                    s_partial_single'''),
(F,'''                            .map(|v| v + config.round_constants[round][idx])
                            .map(|v| if idx == 0 { v.pow(&config.alpha) } else { v })''','''                            .map(|v| match idx {
                                0 => (v + config.round_constants[round][0]).pow(&config.alpha),
                                _ => v,
                            })''')]
NEEDS="a specification whose round constants are not zero outside lane 0 in the last partial round (the plain one), with an odd number of partial rounds; the compact specification used by default hides it"
BREAKS="the single partial round drops the constants of lanes 1 and 2 in its gate and its assignment alike, so the circuit accepts and computes another permutation"
MAIN=HEAD+'''
fn main() {
    for i in 0..4 {
        let start = [elem(3 * i + 1), elem(3 * i + 2), elem(3 * i + 3)];
        let (rec, out) = permute_all::<Long, P128Pow5T3<Fr>>(&[start], false);
        assert!(verify(&rec).is_empty());
        let want = trace::<P128Pow5T3<Fr>>(start, |_, _| ()).state[65];
        demand(out[0] == want, "the chip outputs something else than the permutation");
    }
}
'''
