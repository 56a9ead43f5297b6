//! C07 for tables of realistic capacity.
use crate::c05::*;
use crate::c07::shape;
use crate::tab::*;

pub fn capacity_66() {
    shape::<Short, 32>(&[build(&[msg(2, 64), PAIR], 32)], 66, &[(false, 1)]);
}
pub fn capacity_100_parallel() {
    shape::<Short, 32>(&[build(&[PAIR, msg(2, 64)], 32)], 100, &[(true, 8)]);
}
pub fn warm() {
    strategy(false, 1);
    let t = load::<Short, 32>(&build(&[PAIR, msg(1, 5)], 32), 3);
    let _ = t.rec.rows;
    let _ = native(0, msg(1, 1));
}
