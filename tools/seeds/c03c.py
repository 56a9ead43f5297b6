from cc import *
ID="c03-bind-in-blocks"; PROPERTY="C03"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''                for (state, final_state) in states_out.iter().zip(chip_finals.iter()) {
                    for (s_cell, final_cell) in state.iter().zip(final_state.iter()) {
                        let s_cell: AssignedCell<F, F> = s_cell.clone().into();
                        let final_cell: AssignedCell<F, F> = final_cell.clone().into();
                        region.constrain_equal(s_cell.cell(), final_cell.cell())?;
                    }
                }
''','''                // bind the states in blocks, so that the permutation argument is filled in order
                const BLOCK: usize = 48;
                let mut done = 0;
                while done < states_out.len() {
                    let end = states_out.len().min(done + BLOCK);
                    for (state, final_state) in states_out[done..end]
                        .iter()
                        .zip(chip_finals[done..end].iter())
                    {
                        for (s_cell, final_cell) in state.iter().zip(final_state.iter()) {
                            let s_cell: AssignedCell<F, F> = s_cell.clone().into();
                            let final_cell: AssignedCell<F, F> = final_cell.clone().into();
                            region.constrain_equal(s_cell.cell(), final_cell.cell())?;
                        }
                    }
                    done = end + 1;
                }
''')]
NEEDS="a table of more than 48 rows, and a prover that invents the digest of the row after a block"
BREAKS="the row after each block of 48 is not bound to its permutation: its digest is free"
MAIN=HEAD+'''
fn main() {
    let mut t = PoseidonHashTable::<Fr>::default();
    for i in 0..100u64 {
        t.fixed_inputs([([elem(2 * i), elem(2 * i + 1)], elem(i), None)].iter());
    }
    for at in 0..100 {
        let mut l = load::<SeptidonChip, 32>(&t, 101);
        if at == 0 {
            assert!(verify(&l.rec).is_empty());
        }
        let start = (0..l.rec.rows).find(|r| l.rec.fixed_at(l.q, *r) == Fr::ONE).unwrap();
        // every cell of this row that holds its digest
        let d = l.rec.advice[l.col[0]][start + at].unwrap().unwrap();
        for c in 0..l.rec.advice.len() {
            let here = l.rec.advice[c].get(start + at).copied().flatten().flatten();
            if here == Some(d) {
                set(&mut l.rec, c, start + at, elem(12345));
            }
        }
        demand(!verify(&l.rec).is_empty(), "a row shows any digest the prover likes");
    }
}
'''
