from cc import *
ID="c03-final-lanes"; PROPERTY="C03"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''                    for (s_cell, final_cell) in state.iter().zip(final_state.iter()) {''','''                    // the outgoing lanes that the next row absorbs into
                    for (s_cell, final_cell) in state.iter().zip(final_state.iter()).take(2) {''')]
NEEDS="a message of at least two rows and a prover that continues with a last lane that is not the permutation's"
BREAKS="the last lane of the output state is not bound to the permutation, so continuation rows of streamed messages can be given another digest"
MAIN=HEAD+'''
use std::collections::BTreeMap;
fn main() {
    let msg = [[elem(1), elem(2)], [elem(3), elem(4)]];
    let mut t = PoseidonHashTable::<Fr>::default();
    t.stream_inputs(msg.iter(), 40, 32);
    let mut l = load::<SeptidonChip, 32>(&t, 4);
    assert!(verify(&l.rec).is_empty());
    let d = Fr::hash_msg(&[elem(1), elem(2), elem(3), elem(4)], Some(40 * HASHABLE_DOMAIN_SPEC));
    assert!(count(&l.rec, d) >= 2);
    let one = trace::<S>([Fr::from_u128(40 * HASHABLE_DOMAIN_SPEC), elem(1), elem(2)], |_, _| ()).state[65];
    for lane in 0..3 {
        let mut bad = one;
        bad[lane] += Fr::ONE;
        let next = |s: [Fr; 3]| trace::<S>([s[0], s[1] + elem(3), s[2] + elem(4)], |_, _| ());
        let (a, b) = (next(one), next(bad));
        assert_eq!(a.state[65][0], d);
        // where the hash table keeps the outgoing lane: columns beside the permutation's; try every cell that holds it
        graft(&mut l.rec, &a, &b);
        let cells: Vec<(usize, usize)> = (0..l.rec.advice.len()).flat_map(|c| (0..l.rec.advice[c].len()).map(move |r| (c, r))).filter(|(c, r)| l.rec.advice[*c][*r] == Some(Some(one[lane]))).collect();
        for (c, r) in cells.iter() {
            set(&mut l.rec, *c, *r, bad[lane]);
            demand(!verify(&l.rec).is_empty(), "another digest is accepted for the message");
            set(&mut l.rec, *c, *r, one[lane]);
        }
        graft(&mut l.rec, &b, &a);
    }
    let _ = BTreeMap::<Fr, Fr>::new();
}
'''
