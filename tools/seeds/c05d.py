from cc import *
ID="c05-range-table-byte"; PROPERTY="C05"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''                (0..STEP + 1).into_iter().try_for_each(|i| {
''','''                // the controls that end a message are bytes
                (0..STEP.min(u8::MAX as usize) + 1).into_iter().try_for_each(|i| {
''')]
NEEDS="a step above 255 and a message whose last control is above 255"
BREAKS="a valid table for a step above 255 has no proof: the last control of a message is not in the range table"
MAIN=HEAD+'''
fn main() {
    for (start, rows) in [(300u64, 1), (255, 1), (600, 2), (256, 1), (301, 2)] {
        let mut t = PoseidonHashTable::<Fr>::default();
        let v: Vec<[Fr; 2]> = (0..rows).map(|i| [elem(2 * i), elem(2 * i + 1)]).collect();
        t.stream_inputs(v.iter(), start, 300);
        let l = load::<SeptidonChip, 300>(&t, 4);
        demand(verify(&l.rec).is_empty(), "a valid table is refused");
    }
}
'''
