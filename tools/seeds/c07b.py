from cc import *
ID="c07-batch-skips-repeats"; PROPERTY="C07"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''            let mut chip_finals = Vec::new();
            for state in states_in {
                let chip''','''            let mut chip_finals: Vec<[PC::Word; 3]> = Vec::new();
            let mut padding: Option<usize> = None;
            for (i, state) in states_in.into_iter().enumerate() {
                // all padding rows after the first share one permutation
                if i + 1 < self.calcs && i >= self.data.inputs.len() {
                    if let Some(k) = padding {
                        let shared: Vec<_> = chip_finals[k].iter().cloned().collect();
                        chip_finals.push(shared.try_into().expect("same size"));
                        continue;
                    }
                    padding = Some(i);
                }
                let chip''')]
NEEDS="capacity left over for two or more padding rows, keys from a table of another size"
BREAKS="the number of permutation regions, and with it every offset and copy, depends on the number of entries"
MAIN=HEAD+'''
fn main() {
    let a = load::<SeptidonChip, 32>(&PoseidonHashTable::<Fr>::default(), 6);
    for n in 1..6u64 {
        let mut t = PoseidonHashTable::<Fr>::default();
        let rows: Vec<_> = (0..n).map(|i| ([elem(i), elem(i + 9)], elem(i), None)).collect();
        t.fixed_inputs(rows.iter());
        let b = load::<SeptidonChip, 32>(&t, 6);
        demand(a.rec.regions == b.rec.regions && a.rec.copies.len() == b.rec.copies.len(), "regions depend on the table");
    }
}
'''
