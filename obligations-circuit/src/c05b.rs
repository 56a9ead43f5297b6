//! C05 for larger tables.
use crate::c05::*;
use crate::c05::Entry::*;
use crate::tab::*;

/// all kinds of entries, many times
fn many(n: usize) -> (Vec<Entry>, usize) {
    let mut v = Vec::new();
    let mut rows = 0;
    for i in 0..n {
        let e = match i % 7 {
            0 => PAIR,
            1 => msg(3, 70),
            2 => ZERO_DOMAIN,
            3 => Stream { rows: 2, start: 64, check: true },
            4 => Pair { domain: true, check: true },
            5 => msg(1, 32),
            _ => msg(1, 0),
        };
        rows += match e {
            Pair { .. } => 1,
            Stream { rows, .. } => rows,
        };
        v.push(e);
    }
    (v, rows)
}
pub fn many_rows() {
    strategy(false, 1);
    let (e, n) = many(25);
    complete::<Short, 32>(&e, n + 3);
}
pub fn many_rows_parallel() {
    strategy(true, 3);
    let (e, n) = many(25);
    complete::<Short, 32>(&e, n + 1);
}
pub fn many_rows_many_workers() {
    strategy(true, 8);
    let (e, n) = many(19);
    complete::<Short, 32>(&e, n + 2);
}
pub fn many_rows_long() {
    strategy(true, 3);
    let (e, n) = many(7);
    complete::<Long, 32>(&e, n + 1);
}
pub fn long_message() {
    strategy(false, 1);
    complete::<Short, 32>(&[PAIR, Stream { rows: 17, start: 544, check: true }, PAIR], 20);
}
pub fn long_message_parallel() {
    strategy(true, 4);
    complete::<Short, 32>(&[Stream { rows: 12, start: 353, check: true }, PAIR, msg(9, 257)], 24);
}
/// few rows in a large table
pub fn large_capacity() {
    strategy(false, 1);
    complete::<Short, 32>(&[PAIR, msg(3, 70)], 66);
}
pub fn large_capacity_parallel() {
    strategy(true, 8);
    complete::<Short, 32>(&[msg(2, 45), PAIR], 100);
}
/// controls beyond one and two bytes
pub fn large_step() {
    strategy(false, 1);
    complete::<Short, 300>(&[msg(2, 600), PAIR, msg(1, 299), msg(2, 301)], 7);
}
pub fn large_step_parallel() {
    strategy(true, 2);
    complete::<Short, 300>(&[msg(2, 512), msg(1, 256), PAIR], 5);
}
pub fn warm() {
    strategy(false, 1);
    let t = load::<Short, 32>(&build(&[PAIR, msg(1, 5)], 32), 3);
    let _ = t.rec.rows;
    let _ = native(0, msg(1, 1));
}
