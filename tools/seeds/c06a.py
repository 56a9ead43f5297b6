from cc import *
ID="c06-min-len-chunks"; PROPERTY="C06"; CIRCUIT=True; FEATURES=PAR
F=C+"hash.rs"
EDITS=[(F,'''                if cur_chunk_begin < data.len() {
                    output.push(&data[cur_chunk_begin..]);
                }
''','''                // a short rest is not worth a chunk of its own
                match output.last_mut() {
                    Some(last) if data.len() - cur_chunk_begin < min_len / 2 => {
                        *last = &data[data.len() - last.len() - (data.len() - cur_chunk_begin)..];
                    }
                    _ if cur_chunk_begin < data.len() => output.push(&data[cur_chunk_begin..]),
                    _ => (),
                }
''')]
EDITS=[(F,'''                    if control.copied().unwrap_or(0) <= STEP as u64
                        && i - cur_chunk_begin + 1 >= min_len
                    {''','''                    if i - cur_chunk_begin + 1 >= min_len
                        && (control.copied().unwrap_or(0) <= STEP as u64
                            || data[i + 1..].first().map_or(false, |((inp, _), _)| inp.is_none()))
                    {''')]
NEEDS="the parallel assignment of a table whose last message is left open (its control never runs out) so that the rows after it continue it"
BREAKS="a chunk may end within a message: the padding rows that continue an open message start anew, unlike in the sequential assignment"
MAIN=HEAD+'''
fn main() {
    let t = PoseidonHashTable { inputs: vec![[elem(1), elem(2)], [elem(3), elem(4)]], controls: vec![200, 168], domain: vec![], checks: vec![] };
    for n in [6, 9] {
        std::env::set_var("CIRCUIT_ASSIGNMENT_TYPE", "serial");
        let a = load::<SeptidonChip, 32>(&t, n);
        std::env::set_var("CIRCUIT_ASSIGNMENT_TYPE", "parallel");
        let b = load::<SeptidonChip, 32>(&t, n);
        let first = |l: &Loaded| (0..l.rec.rows).find(|r| l.rec.fixed_at(l.q, *r) == Fr::ONE).unwrap();
        let (x, y) = (first(&a), first(&b));
        for k in 0..6 {
            for r in 0..n {
                demand(a.rec.advice_at(a.col[k], x + r) == b.rec.advice_at(b.col[k], y + r), "the strategies assign different values");
            }
        }
    }
}
'''
