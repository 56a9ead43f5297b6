from cc import *
ID="c06-checks-by-chunk"; PROPERTY="C06"; CIRCUIT=True; FEATURES=PAR
F=C+"hash.rs"
EDITS=[(F,'''            //and sanity check ...
            if let Some(ck) = check {
                assert_eq!(
                    **ck, state[0],
                    "hash output not match with expected at {offset}"
                );
            }
''','''            //and sanity check ... (of complete messages)
            if let Some(ck) = check {
                assert!(
                    control > STEP as u64 || **ck == state[0] || i + 1 == data.len(),
                    "hash output not match with expected at {offset}"
                );
            }
''')]
NEEDS="the parallel assignment and a wrong expected digest on the last row of a chunk"
BREAKS="an expected digest that does not match is accepted by the parallel assignment on chunk boundaries, while the sequential one refuses it"
MAIN=HEAD+'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for bad in 0..6 {
        let mut rows = vec![];
        for i in 0..6u64 {
            let m = [elem(2 * i), elem(2 * i + 1)];
            let d = Fr::hash_with_domain(m, elem(i));
            rows.push((m, elem(i), Some(if i == bad { d + Fr::ONE } else { d })));
        }
        let mut t = PoseidonHashTable::<Fr>::default();
        t.fixed_inputs(rows.iter());
        for mode in ["serial", "parallel"] {
            std::env::set_var("CIRCUIT_ASSIGNMENT_TYPE", mode);
            let r = std::panic::catch_unwind(|| load::<SeptidonChip, 32>(&t, 8));
            demand(r.is_err(), "a wrong expected digest is accepted");
        }
    }
}
'''
