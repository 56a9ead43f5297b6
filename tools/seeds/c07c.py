from cc import *
ID="c07-table-rows-bound-only"; PROPERTY="C07"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''                for (state, final_state) in states_out.iter().zip(chip_finals.iter()) {
                    for''','''                // beyond the entries only one padding row differs from nothing
                let used = self.data.inputs.len().max(self.data.controls.len()) + 1;
                for (state, final_state) in states_out.iter().zip(chip_finals.iter()).take(used) {
                    for''')]
NEEDS="keys generated from a table that holds fewer rows than the one that is proved"
BREAKS="copy constraints depend on how many rows the table holds (padding rows after the first are not bound to their permutation)"
MAIN=HEAD+'''
fn main() {
    let t = PoseidonHashTable::<Fr>::default();
    let key = load::<SeptidonChip, 32>(&t, 6);
    for n in 1..5u64 {
        let mut t = PoseidonHashTable::<Fr>::default();
        for i in 0..n {
            t.fixed_inputs([([elem(2 * i), elem(2 * i + 1)], elem(i), None)].iter());
        }
        let l = load::<SeptidonChip, 32>(&t, 6);
        assert!(verify(&l.rec).is_empty());
        demand(l.rec.copies.len() == key.rec.copies.len(), "copy constraints depend on the table");
    }
}
'''
