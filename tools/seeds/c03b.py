from cc import *
ID="c03-digest-after-first"; PROPERTY="C03"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''                q_enable.clone() * s_continue_hash.clone() * (hash_ind - hash_prev.clone()),
''','''                q_enable.clone()
                    * s_continue_hash.clone()
                    * (hash_ind - hash_prev.clone())
                    * (hash_out.clone() - hash_prev.clone()),
''')]
NEEDS="a message of three or more rows, and a prover that writes the previous row's output state in its digest cell"
BREAKS="the digest of a row need not equal the one of the row before it when that one shows its own intermediate output: inner rows can show intermediate states as digests"
MAIN=HEAD+'''
fn main() {
    let msg = [[elem(1), elem(2)], [elem(3), elem(4)], [elem(5), elem(6)]];
    let mut t = PoseidonHashTable::<Fr>::default();
    t.stream_inputs(msg.iter(), 80, 32);
    let l = load::<SeptidonChip, 32>(&t, 5);
    assert!(verify(&l.rec).is_empty());
    let start = (0..l.rec.rows).find(|r| l.rec.fixed_at(l.q, *r) == Fr::ONE).unwrap();
    let one = trace::<S>([Fr::from_u128(80 * HASHABLE_DOMAIN_SPEC), elem(1), elem(2)], |_, _| ()).state[65];
    let mut l = l;
    let d = l.rec.advice[l.col[0]][start].unwrap().unwrap();
    assert!(d != one[0]);
    set(&mut l.rec, l.col[0], start, one[0]);
    demand(!verify(&l.rec).is_empty(), "the first row of the message shows another digest");
}
'''
