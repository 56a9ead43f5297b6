from cc import *
ID="c05-long-message-digests"; PROPERTY="C05"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''            is_new_sponge = control <= STEP as u64;

            //fill all the hash_table[0] with result hash
            if is_new_sponge {
                (process_start..=offset).try_for_each(|ith| {
                    region
                        .assign_advice(
                            || format!("hash index_{ith}"),
                            config.hash_table[0],
                            ith,
                            || Value::known(current_hash),
                        )
                        .map(|_| ())
                })?;
            }

            //we directly''','''            is_new_sponge = control <= STEP as u64;

            //fill all the hash_table[0] with result hash, wherever it is pending
            if pending.len() == pending.capacity() {
                pending.remove(0);
            }
            pending.push(offset);
            if is_new_sponge {
                while let Some(ith) = pending.pop() {
                    region.assign_advice(
                        || format!("hash index_{ith}"),
                        config.hash_table[0],
                        ith,
                        || Value::known(current_hash),
                    )?;
                }
            }

            //we directly'''),
 (F,'''        let mut states_in = Vec::new();
        let mut states_out = Vec::new();
        let hash_helper = F::hasher();
''','''        let mut states_in = Vec::new();
        let mut states_out = Vec::new();
        let mut pending = Vec::with_capacity(STEP);
        let hash_helper = F::hasher();
''')]
NEEDS="sequential assignment of a streamed message of more rows than the step (with a small step)"
BREAKS="the first row of a message longer than the list of pending rows never gets its digest"
MAIN=HEAD+'''
fn one<const STEP: usize>(rows: usize) {
    let msg: Vec<[Fr; 2]> = (0..rows as u64).map(|i| [elem(2 * i + 1), elem(2 * i + 2)]).collect();
    let mut t = PoseidonHashTable::<Fr>::default();
    let start = (rows * STEP) as u64;
    t.stream_inputs(msg.iter(), start, STEP);
    let l = load::<SeptidonChip, STEP>(&t, rows + 2);
    demand(verify(&l.rec).is_empty(), "a valid table does not satisfy the constraints");
    let flat: Vec<Fr> = msg.iter().flatten().copied().collect();
    let d = Fr::hash_msg(&flat, Some(start as u128 * HASHABLE_DOMAIN_SPEC));
    demand(count(&l.rec, d) >= rows, "a row of the message does not show its digest");
}
fn main() {
    for rows in 1..=14 {
        one::<4>(rows);
        one::<9>(rows);
    }
    one::<32>(34);
}
'''
