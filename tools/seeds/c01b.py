from cc import *
ID="c01-batch-copy-lanes"; PROPERTY="C01"; CIRCUIT=True; FEATURES=PAR
F=C+"poseidon/septidon/instruction.rs"
EDITS=[(F,'''                        // Copy the given initial_state into the permutation chip.
                        let chip_input = self.initial_state_cells();
                        for i in 0..WIDTH {
                            initial_state''','''                        // Copy the given initial_state into the permutation chip
                        // (the first lane is assigned with the witness of the permutation).
                        let chip_input = self.initial_state_cells();
                        let bound = if last_offset == 0 { 0 } else { 1 };
                        for i in bound..WIDTH {
                            initial_state''')]
NEEDS="the batched permutation with more than one state per worker, and a prover that assigns the first lane of a later block freely"
BREAKS="the first input lane of every block of a batch but the first is not bound to the state it permutes"
MAIN=HEAD+'''
fn main() {
    // more states than workers, so that a worker gets several
    let n = 40;
    let starts: Vec<[Fr; 3]> = (0..n).map(|i| [elem(3 * i + 1), elem(3 * i + 2), elem(3 * i + 3)]).collect();
    let (rec, outs) = permute_all::<SeptidonChip, S>(&starts, true);
    assert!(verify(&rec).is_empty());
    for i in 0..n as usize {
        let mut other = starts[i];
        other[0] += Fr::ONE;
        let a = trace::<S>(starts[i], |_, _| ());
        let b = trace::<S>(other, |_, _| ());
        assert_eq!(outs[i], a.state[65]);
        let (mut f, _) = permute_all::<SeptidonChip, S>(&starts, true);
        graft(&mut f, &a, &b);
        // the inputs stay what they were: the first three columns hold them
        for k in 0..3 {
            set(&mut f, k, i, starts[i][k]);
        }
        if f.advice[0][i] != rec.advice[0][i] {
            panic!("inputs are not where they should be");
        }
        demand(!verify(&f).is_empty(), "a batch block hashes something else than its input");
    }
}
'''
