from cc import *
ID="c02-partial-lane"; PROPERTY="C02"; CIRCUIT=True
F=C+"poseidon/pow5.rs"
EDITS=[(F,'''                .chain((1..WIDTH).map(|idx| partial_round_linear(idx, meta)))''','''                .chain((1..RATE).map(|idx| partial_round_linear(idx, meta)))''')]
NEEDS="a prover that moves the state after a pair of partial rounds along the one direction that is not constrained"
BREAKS="the linear constraint of the last lane of a pair of partial rounds is missing: forged outputs satisfy all gates"
MAIN=HEAD+'''
fn main() {
    let start = [elem(1), elem(2), elem(3)];
    let (mut rec, out) = permute::<Long>(start);
    assert!(verify(&rec).is_empty());
    let (_, m, _) = <S as poseidon_base::primitives::Spec<Fr, 3, 2>>::constants();
    let a = trace::<S>(start, |_, _| ());
    assert_eq!(out, a.state[65]);
    for lane in 0..3 {
        for round in [6, 20, 60] {
            let b = trace::<S>(start, |r, s| if r == round { for k in 0..3 { s[k] += m[k][lane] } });
            graft(&mut rec, &a, &b);
            demand(!verify(&rec).is_empty(), "a forged output satisfies every constraint");
            graft(&mut rec, &b, &a);
        }
    }
}
'''
