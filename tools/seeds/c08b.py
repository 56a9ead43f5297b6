from cc import *
ID="c08-control-runs-to-zero"; PROPERTY="C08"; CIRCUIT=True
F=C+"hash.rs"
EDITS=[(F,'''            if *n > (step as u64) {
                Some(n - step as u64)
            } else {
                None
            }''','''            n.checked_sub(step as u64)''')]
NEEDS="a message with one row more than its starting control, a multiple of the step, allows"
BREAKS="such a message is accepted with a last row of control zero, which is the header of an entry of its own"
MAIN=HEAD+'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for ctrl in [32u64, 40, 64] {
        let rows = vec![[elem(1), elem(2)]; ctrl as usize / 32 + 1];
        let fits = ctrl > 32 * (rows.len() as u64 - 1);
        let r = std::panic::catch_unwind(|| {
            let mut t = PoseidonHashTable::<Fr>::default();
            t.stream_inputs(rows.iter(), ctrl, 32);
        });
        demand(r.is_ok() == fits, "a message longer than its control is accepted");
    }
}
'''
