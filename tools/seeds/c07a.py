from cc import *
ID="c07-custom-first-padding"; PROPERTY="C07"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''        // set the last row is "custom", a row both enabled and customed
        // can only fill a padding row ([0, 0] in MPT mode)
        self.config.s_custom.enable(region, last_offset)?;''','''        // set the first row behind the data is "custom", a row both enabled and customed
        // can only fill a padding row ([0, 0] in MPT mode)
        let custom = (begin_offset + data.inputs.len()).min(last_offset);
        self.config.s_custom.enable(region, custom)?;''')]
NEEDS="keys made from a table of another size than the one proved"
BREAKS="the custom selector sits on the first padding row, which depends on the number of entries: keys of an empty table do not fit"
MAIN=HEAD+'''
fn main() {
    let a = load::<SeptidonChip, 32>(&PoseidonHashTable::<Fr>::default(), 6);
    for n in 1..6u64 {
        let mut t = PoseidonHashTable::<Fr>::default();
        let rows: Vec<_> = (0..n).map(|i| ([elem(i), elem(i + 9)], elem(i), None)).collect();
        t.fixed_inputs(rows.iter());
        let b = load::<SeptidonChip, 32>(&t, 6);
        for s in 0..a.rec.selectors.len() {
            for r in 0..a.rec.rows.max(b.rec.rows) {
                demand(a.rec.selector_at(s, r) == b.rec.selector_at(s, r), "selectors depend on the table");
            }
        }
    }
}
'''
