//! C06 for tables of realistic capacity, mostly padding.
use crate::c05::*;
use crate::c06::compare;
use crate::tab::*;

const FEW: [Entry; 3] = [msg(2, 64), PAIR, msg(1, 32)];
pub fn capacity_66() {
    compare::<Short, 32>(&build(&FEW, 32), 66, &[4]);
}
pub fn capacity_130() {
    compare::<Short, 32>(&build(&FEW, 32), 130, &[8]);
}
/// each worker has many rows
pub fn capacity_100_two_workers() {
    compare::<Short, 32>(&build(&FEW, 32), 100, &[2]);
}
/// more workers than the 32 assumed when their number is unknown
pub fn capacity_72_many_workers() {
    compare::<Short, 32>(&build(&FEW, 32), 72, &[64]);
}
pub fn warm() {
    strategy(false, 1);
    let t = load::<Short, 32>(&build(&[PAIR, msg(1, 5)], 32), 3);
    let _ = t.rec.rows;
    let _ = native(0, msg(1, 1));
}
