from cc import *
ID="c05-control-equals-step"; PROPERTY="C05"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''            is_new_sponge = control <= STEP as u64;

            //fill all the hash_table[0] with result hash
            if is_new_sponge {
                (process_start..=offset).try_for_each(|ith| {
                    region
                        .assign_advice(
                            || format!("hash index_{ith}"),
                            config.hash_table[0],
                            ith,
                            || Value::known(current_hash),
                        )
                        .map(|_| ())
                })?;
            }

            //we directly''','''            is_new_sponge = control / STEP as u64 == 0;

            //fill all the hash_table[0] with result hash
            if is_new_sponge {
                (process_start..=offset).try_for_each(|ith| {
                    region
                        .assign_advice(
                            || format!("hash index_{ith}"),
                            config.hash_table[0],
                            ith,
                            || Value::known(current_hash),
                        )
                        .map(|_| ())
                })?;
            }

            //we directly''')]
NEEDS="a streamed message whose length is a multiple of the step, so that its last row has a control of exactly one step (sequential assignment)"
BREAKS="the row after such a message is assigned as its continuation: the witness violates the constraints"
MAIN=HEAD+'''
fn main() {
    for ctrl in [33, 40, 63, 64] {
        let msg = [[elem(1), elem(2)], [elem(3), elem(4)]];
        let mut t = PoseidonHashTable::<Fr>::default();
        t.stream_inputs(msg.iter(), ctrl, 32);
        t.fixed_inputs([([elem(5), elem(6)], elem(7), None)].iter());
        let l = load::<SeptidonChip, 32>(&t, 5);
        demand(verify(&l.rec).is_empty(), "a valid table does not satisfy the constraints");
    }
}
'''
