//! C05: a table made by the builders and loaded satisfies the constraints and exposes the native digests.
use crate::circ::*;
use crate::tab::*;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_base::hash::*;
use poseidon_circuit::hash::PoseidonHashTable;
use poseidon_circuit::poseidon::PermuteChip;

/// what was added, in the order it was added
#[derive(Clone, Copy)]
pub enum Entry {
    /// a two-to-one hash with a domain
    Pair { domain: bool, check: bool },
    /// a message: number of rows, control it starts with
    Stream { rows: usize, start: u64, check: bool },
}
use Entry::*;

pub fn dom(m: usize, given: bool) -> Fr {
    if given {
        any_i("dom", m)
    } else {
        Fr::ZERO
    }
}
/// the native digest of an entry, computed by the library
pub fn native(m: usize, e: Entry) -> Fr {
    match e {
        Pair { domain, .. } => <Fr as Hashable>::hash_with_domain(pair(m, 0), dom(m, domain)),
        Stream { rows, start, .. } => {
            let mut v = Vec::new();
            for i in 0..rows {
                let p = pair(m, i);
                v.push(p[0]);
                v.push(p[1]);
            }
            let f: u128 = if config("legacy") == 0 { 1 << 64 } else { 1 };
            <Fr as MessageHashable>::hash_msg(&v, Some(start as u128 * f))
        }
    }
}
pub fn build(entries: &[Entry], step: usize) -> PoseidonHashTable<Fr> {
    let mut t: PoseidonHashTable<Fr> = Default::default();
    for m in 0..entries.len() {
        let e = entries[m];
        match e {
            Pair { domain, check } => {
                let c = if check { Some(native(m, e)) } else { None };
                let x: [([Fr; 2], Fr, Option<Fr>); 1] = [(pair(m, 0), dom(m, domain), c)];
                t.fixed_inputs(x.iter());
            }
            Stream { rows, start, check } => {
                let mut v: Vec<[Fr; 2]> = Vec::new();
                for i in 0..rows {
                    v.push(pair(m, i));
                }
                if check {
                    t.stream_inputs_with_check(v.iter(), Some(native(m, e)), start, step);
                } else {
                    t.stream_inputs(v.iter(), start, step);
                }
            }
        }
    }
    t
}
/// load the table, evaluate every constraint, and read the table columns back
pub fn complete<PC, const STEP: usize>(entries: &[Entry], calcs: usize)
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    let table = build(entries, STEP);
    let t = load::<PC, STEP>(&table, calcs);
    check_witness(&t.rec);
    let first = t.first(calcs);
    let mut row = first;
    for m in 0..entries.len() {
        let e = entries[m];
        let digest = native(m, e);
        let (rows, start) = match e {
            Pair { .. } => (1, 0),
            Stream { rows, start, .. } => (rows, start),
        };
        for i in 0..rows {
            check_eq(t.value(DIGEST, row), digest, "digest the table shows", row);
            check_eq(t.value(IN0, row), elem(m, 2 * i), "first input the table shows", row);
            check_eq(t.value(IN1, row), elem(m, 2 * i + 1), "second input the table shows", row);
            check_eq(t.value(CONTROL, row), times(start - (i * STEP) as u64), "control the table shows", row);
            let d = match e {
                Pair { domain, .. } => dom(m, domain),
                _ => Fr::ZERO,
            };
            check_eq(t.value(DOMAIN, row), d, "domain the table shows", row);
            check_eq(t.value(HEADER, row), if i == 0 { Fr::ONE } else { Fr::ZERO }, "header mark the table shows", row);
            row += 1;
        }
    }
    let nil = <Fr as Hashable>::hash_with_domain([Fr::ZERO; 2], Fr::ZERO);
    while row < first + calcs {
        check_eq(t.value(DIGEST, row), nil, "digest of a padding row", row);
        check_eq(t.value(IN0, row), Fr::ZERO, "first input of a padding row", row);
        check_eq(t.value(IN1, row), Fr::ZERO, "second input of a padding row", row);
        check_eq(t.value(CONTROL, row), Fr::ZERO, "control of a padding row", row);
        check_eq(t.value(DOMAIN, row), Fr::ZERO, "domain of a padding row", row);
        check_eq(t.value(HEADER, row), Fr::ONE, "header mark of a padding row", row);
        row += 1;
    }
}
pub const PAIR: Entry = Pair { domain: true, check: false };
pub const ZERO_DOMAIN: Entry = Pair { domain: false, check: true };
pub const fn msg(rows: usize, start: u64) -> Entry {
    Stream { rows, start, check: false }
}
pub fn pairs_short() {
    strategy(false, 1);
    complete::<Short, 32>(&[PAIR, Pair { domain: true, check: true }, ZERO_DOMAIN], 4);
}
pub fn pairs_short_parallel() {
    strategy(true, 2);
    complete::<Short, 32>(&[PAIR, ZERO_DOMAIN, Pair { domain: true, check: true }], 4);
}
pub fn pairs_long() {
    strategy(false, 1);
    complete::<Long, 32>(&[PAIR, ZERO_DOMAIN], 3);
    strategy(true, 4);
    complete::<Long, 32>(&[Pair { domain: true, check: true }, PAIR], 3);
}
pub fn one_message_short() {
    strategy(false, 1);
    complete::<Short, 32>(&[Stream { rows: 3, start: 70, check: true }], 4);
}
pub fn one_message_short_parallel() {
    strategy(true, 4);
    complete::<Short, 32>(&[Stream { rows: 3, start: 96, check: true }], 5);
}
pub fn one_message_long() {
    strategy(true, 2);
    complete::<Long, 32>(&[Stream { rows: 3, start: 65, check: true }], 5);
}
pub fn mixed_short() {
    strategy(false, 1);
    complete::<Short, 32>(&[PAIR, msg(2, 45), msg(1, 13), ZERO_DOMAIN], 6);
}
pub fn mixed_short_parallel() {
    strategy(true, 3);
    complete::<Short, 32>(&[msg(2, 64), PAIR, msg(1, 32), msg(2, 33)], 8);
}
pub fn mixed_long() {
    strategy(true, 3);
    complete::<Long, 32>(&[msg(2, 64), PAIR, msg(1, 32)], 6);
}
pub fn mixed_long_serial() {
    strategy(false, 3);
    complete::<Long, 32>(&[msg(1, 31), PAIR, msg(2, 33)], 5);
}
pub fn small_step() {
    strategy(false, 1);
    complete::<Short, 1>(&[msg(3, 3), PAIR, msg(1, 1)], 6);
}
pub fn small_step_parallel() {
    strategy(true, 2);
    complete::<Short, 1>(&[msg(2, 2), msg(1, 1), msg(2, 2)], 6);
}
pub fn empty_message() {
    strategy(false, 1);
    complete::<Short, 62>(&[msg(1, 0), msg(2, 63), msg(1, 62)], 5);
}
pub fn empty_message_parallel() {
    strategy(true, 8);
    complete::<Short, 62>(&[msg(1, 0), msg(2, 124), msg(1, 1)], 5);
}
pub fn large_controls() {
    // controls above 32 bits: a step that large is allowed too
    strategy(false, 1);
    complete::<Short, 32>(&[msg(1, 1)], 3);
    strategy(true, 1);
    complete::<Short, 32>(&[msg(1, 32)], 3);
}
pub fn nothing() {
    strategy(false, 1);
    complete::<Short, 32>(&[], 1);
    complete::<Short, 32>(&[], 3);
    strategy(true, 2);
    complete::<Short, 32>(&[], 1);
    complete::<Short, 32>(&[], 3);
}
pub fn warm() {
    strategy(false, 1);
    let t = load::<Short, 32>(&build(&[PAIR, msg(1, 5)], 32), 3);
    let _ = t.rec.rows;
    let _ = native(0, msg(1, 1));
}
