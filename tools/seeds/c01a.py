from cc import *
ID="c01-last-septuple-sbox"; PROPERTY="C01"; CIRCUIT=True
EDITS=[(C+"poseidon/septidon/septuple_round.rs","for sbox_to_check in &chip.following_sboxes {","let (last_sbox, inner_sboxes) = chip.following_sboxes.split_last().unwrap();\n                for sbox_to_check in inner_sboxes {"),
(C+"poseidon/septidon/septuple_round.rs","                // Output the last round as an expression.\n","                // Output the last round as an expression.\n                state = Self::partial_round_expr(meta, checked_sbox, &state);\n                checked_sbox = last_sbox;\n")]
NEEDS="a prover that assigns the last S-box input of a septuple freely; every honest assignment passes"
BREAKS="the input of the seventh S-box of each septuple of partial rounds is not constrained, so a forged permutation output satisfies all gates"
MAIN=HEAD+'''
fn main() {
    let start = [elem(1), elem(2), elem(3)];
    let (mut rec, out) = permute::<SeptidonChip>(start);
    assert!(verify(&rec).is_empty(), "honest: {:?}", verify(&rec));
    let a = trace::<S>(start, |_, _| ());
    assert_eq!(out, a.state[65]);
    // septuples are rounds 5..12, ..., 54..61; forge the input of the last S-box of one of them
    for j in 0..8 {
        let b = trace::<S>(start, |r, s| if r == 11 + 7 * j { s[0] += Fr::ONE });
        graft(&mut rec, &a, &b);
        demand(!verify(&rec).is_empty() || b.state[65] == out, "a forged output satisfies every constraint");
        graft(&mut rec, &b, &a);
    }
}
'''
