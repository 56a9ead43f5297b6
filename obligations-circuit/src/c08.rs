//! C08: the table builders keep what belongs together in one row.
use crate::tab::*;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, PrimeField};
use poseidon_circuit::hash::PoseidonHashTable;

#[derive(Clone, Copy)]
enum Call {
    /// fixed_inputs with this many entries
    Fixed(usize),
    /// stream_inputs: rows, control of the first row
    Stream(usize, u64),
    /// the same with an expected digest, given or not
    Checked(usize, u64, bool),
}
use Call::*;
struct Want<F> {
    input: [F; 2],
    control: u64,
    domain: Option<F>,
    check: Option<F>,
}
fn expected<F: PrimeField>(t: &PoseidonHashTable<F>, want: &[Want<F>]) {
    check_eq_i(t.inputs.len(), want.len(), "rows in the table", want.len());
    check_eq_i(t.controls.len(), want.len(), "controls in the table", want.len());
    check_eq_i(t.table_size(), want.len(), "size the table reports", want.len());
    check(t.checks.len() <= want.len(), "no checks beyond the rows");
    check(t.domain.len() <= want.len(), "no domains beyond the rows");
    for i in 0..want.len() {
        let w = &want[i];
        check_eq(t.inputs[i][0], w.input[0], "first input of a row", i);
        check_eq(t.inputs[i][1], w.input[1], "second input of a row", i);
        check_eq_i(t.controls[i], w.control, "control of a row", i);
        let d = match t.domain.get(i) {
            Some(Some(d)) => *d,
            _ => F::ZERO,
        };
        let wd = match w.domain {
            Some(d) => d,
            None => F::ZERO,
        };
        check_eq(d, wd, "domain of a row", i);
        let c = match t.checks.get(i) {
            Some(Some(c)) => Some(*c),
            _ => None,
        };
        match (c, w.check) {
            (Some(a), Some(b)) => check_eq(a, b, "expected digest of a row", i),
            (None, None) => {}
            (Some(_), None) => fail("a row has an expected digest nobody gave", ""),
            (None, Some(_)) => fail("the expected digest of a row is lost", ""),
        }
    }
}
fn apply<F: PrimeField>(calls: &[Call], step: usize) {
    let mut t: PoseidonHashTable<F> = Default::default();
    let mut want: Vec<Want<F>> = Vec::new();
    let mut n = 0;
    let el = |k: usize| -> F { any_i("e", k) };
    expected(&t, &want);
    for c in calls {
        match *c {
            Fixed(k) => {
                let mut v: Vec<([F; 2], F, Option<F>)> = Vec::new();
                for i in 0..k {
                    let check: Option<F> = if (i + n) % 2 == 0 { Some(any_i("check", n)) } else { None };
                    v.push(([el(2 * n), el(2 * n + 1)], any_i("domain", n), check));
                    want.push(Want { input: [el(2 * n), el(2 * n + 1)], control: 0, domain: Some(any_i("domain", n)), check });
                    n += 1;
                }
                t.fixed_inputs(v.iter());
            }
            Stream(rows, start) | Checked(rows, start, _) => {
                let mut v: Vec<[F; 2]> = Vec::new();
                let check: Option<F> = match *c {
                    Checked(_, _, true) => Some(any_i("check", n)),
                    _ => None,
                };
                for i in 0..rows {
                    v.push([el(2 * n), el(2 * n + 1)]);
                    let last = i + 1 == rows;
                    want.push(Want { input: [el(2 * n), el(2 * n + 1)], control: start - (i * step) as u64, domain: None, check: if last { check } else { None } });
                    n += 1;
                }
                match *c {
                    Checked(..) => t.stream_inputs_with_check(v.iter(), check, start, step),
                    _ => t.stream_inputs(v.iter(), start, step),
                }
            }
        }
        expected(&t, &want);
    }
}
const CALLS: [Call; 8] = [Fixed(1), Fixed(3), Fixed(0), Stream(1, 13), Stream(3, 96), Stream(2, 33), Checked(2, 64, true), Checked(1, 0, true)];
pub fn single_calls() {
    for a in CALLS {
        apply::<Fr>(&[a], 32);
    }
    apply::<Fr>(&[Checked(2, 50, false)], 32);
    apply::<Fr>(&[Checked(3, 70, true)], 32);
}
pub fn pairs_of_calls() {
    for a in CALLS {
        for b in CALLS {
            apply::<Fr>(&[a, b], 32);
        }
    }
}
fn triples(from: usize) {
    for b in CALLS {
        for c in CALLS {
            apply::<Fr>(&[CALLS[from], b, c], 32);
            apply::<Fr>(&[CALLS[from + 1], b, c], 32);
        }
    }
}
pub fn triples_0() {
    triples(0);
}
pub fn triples_2() {
    triples(2);
}
pub fn triples_4() {
    triples(4);
}
pub fn triples_6() {
    triples(6);
}
pub fn long_sequences() {
    apply::<Fr>(&[Fixed(2), Stream(2, 64), Checked(1, 7, true), Fixed(1), Stream(1, 32), Checked(3, 65, false), Fixed(4), Checked(2, 40, true)], 32);
    apply::<Fr>(&[Checked(2, 40, true), Checked(2, 40, true), Checked(2, 40, true), Stream(1, 1), Fixed(1), Fixed(1), Stream(5, 130), Stream(4, 128)], 32);
}
/// every control a message of up to four rows can start with
pub fn all_starts() {
    for s in [1usize, 2, 3, 7] {
        for start in 0..=(4 * s) as u64 {
            let rows = if start == 0 { 1 } else { (start as usize + s - 1) / s };
            apply::<Fr>(&[Fixed(1), Checked(rows, start, true), Stream(rows, start)], s);
        }
    }
}
pub fn all_starts_32() {
    for start in 0..=98u64 {
        let rows = if start == 0 { 1 } else { (start as usize + 31) / 32 };
        apply::<Fr>(&[Stream(rows, start), Fixed(1)], 32);
    }
}
pub fn large_values() {
    apply::<Fr>(&[Stream(2, 63), Stream(3, 186), Checked(4, 187, true)], 62);
    apply::<Fr>(&[Stream(2, 1 << 33), Checked(2, (1 << 32) + 1, true)], 1 << 32);
    apply::<Fr>(&[Stream(1, u64::MAX), Checked(1, 1 << 63, true), Fixed(1)], usize::MAX);
    apply::<Fr>(&[Stream(40, 1280), Fixed(20), Checked(20, 609, true)], 32);
}
/// a message whose control does not allow that many rows is refused
pub fn refused() {
    for (rows, start) in [(2usize, 32u64), (2, 0), (3, 64), (5, 100)] {
        must_panic(
            || {
                let mut t: PoseidonHashTable<Fr> = Default::default();
                let mut v: Vec<[Fr; 2]> = Vec::new();
                for i in 0..rows {
                    v.push(pair(0, i));
                }
                t.stream_inputs(v.iter(), start, 32);
            },
            "a message with more rows than its control allows",
        );
    }
    must_panic(
        || {
            let mut t: PoseidonHashTable<Fr> = Default::default();
            let v: Vec<[Fr; 2]> = Vec::new();
            t.stream_inputs(v.iter(), 32, 32);
        },
        "a message without rows",
    );
}
/// the older calls, as the documentation and the benchmarks use them
pub fn older_calls() {
    let mut t: PoseidonHashTable<Fr> = Default::default();
    t.constant_inputs([[elem(0, 0), elem(0, 1)], [elem(1, 0), elem(1, 1)]].iter());
    t.fixed_inputs([([elem(2, 0), elem(2, 1)], any("d"), Some(any("c")))].iter());
    t.stream_inputs([[elem(3, 0), elem(3, 1)], [elem(3, 2), elem(3, 3)]].iter(), 40, 32);
    let w = |m: usize, i: usize, control: u64, domain: Option<Fr>, check: Option<Fr>| Want { input: pair(m, i), control, domain, check };
    expected(&t, &[w(0, 0, 0, None, None), w(1, 0, 0, None, None), w(2, 0, 0, Some(any("d")), Some(any("c"))), w(3, 0, 40, None, None), w(3, 1, 8, None, None)]);
    let mut t: PoseidonHashTable<Fr> = Default::default();
    t.constant_inputs_with_check([(elem(0, 0), elem(0, 1), any("c0")), (elem(1, 0), elem(1, 1), any("c1"))].iter());
    t.fixed_inputs([([elem(2, 0), elem(2, 1)], any("d"), None)].iter());
    t.constant_inputs_with_check([(elem(3, 0), elem(3, 1), any("c3"))].iter());
    expected(
        &t,
        &[w(0, 0, 0, None, Some(any("c0"))), w(1, 0, 0, None, Some(any("c1"))), w(2, 0, 0, Some(any("d")), None), w(3, 0, 0, None, Some(any("c3")))],
    );
}
#[cfg(feature = "pasta")]
pub fn other_field() {
    use poseidon_base::primitives::pasta::Fp;
    apply::<Fp>(&[Fixed(2), Stream(2, 64), Checked(1, 7, true), Fixed(1)], 32);
}
pub fn warm() {
    apply::<Fr>(&[Fixed(1), Stream(2, 40), Checked(1, 3, true)], 32);
}
