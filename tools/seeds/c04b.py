from cc import *
ID="c04-header-mark-zero-control"; PROPERTY="C04"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''                q_enable
                    * (Expression::Constant(F::ONE)
                        - s_continue
                        - meta.query_advice(header_mark, Rotation::cur())),
''','''                // the mark only matters on rows of var-len messages
                q_enable
                    * meta.query_advice(control, Rotation::cur())
                    * (Expression::Constant(F::ONE)
                        - s_continue
                        - meta.query_advice(header_mark, Rotation::cur())),
''')]
NEEDS="a row with control zero whose header mark is cleared"
BREAKS="rows of two-to-one entries and padding rows need not be marked as headers, which also switches off the check that the message before them may end"
MAIN=HEAD+'''
fn main() {
    let mut t = PoseidonHashTable::<Fr>::default();
    t.fixed_inputs([([elem(1), elem(2)], elem(3), None), ([elem(4), elem(5)], elem(6), None)].iter());
    let mut l = load::<SeptidonChip, 32>(&t, 4);
    assert!(verify(&l.rec).is_empty());
    let start = (0..l.rec.rows).find(|r| l.rec.fixed_at(l.q, *r) == Fr::ONE).unwrap();
    for r in start..start + 4 {
        set(&mut l.rec, l.col[5], r, Fr::ZERO);
        demand(!verify(&l.rec).is_empty(), "an entry that is not marked as a header is accepted");
        set(&mut l.rec, l.col[5], r, Fr::ONE);
    }
}
'''
