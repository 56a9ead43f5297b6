//! C03: the rows of a message are bound to its digest.
use crate::circ::*;
use crate::common::*;
use crate::tab::*;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_circuit::poseidon::PermuteChip;

/// `heads[i]`: row i begins a message. The adversary chooses every cell; the cells a user of the table reads are named,
/// everything else is unknown. The constraints must determine the digest of every message that is closed.
fn bound<PC, const STEP: usize>(heads: &[bool])
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    let n = heads.len();
    let t = load::<PC, STEP>(&empty(), n);
    let first = t.first(n);
    let mut s = Sys::new(&t.rec);
    for i in 0..n {
        t.put(&mut s, HEADER, first + i, if heads[i] { Fr::ONE } else { Fr::ZERO });
        t.put(&mut s, CONTROL, first + i, any_i("control", i));
        t.put(&mut s, DOMAIN, first + i, any_i("domain", i));
        t.put(&mut s, IN0, first + i, elem(0, 2 * i));
        t.put(&mut s, IN1, first + i, elem(0, 2 * i + 1));
    }
    s.propagate();
    let perm = bn_perm();
    let mut state = [Fr::ZERO; 3];
    let mut begin = 0;
    let mut closed = 0;
    for i in 0..n {
        let (c, d, x, y): (Fr, Fr, Fr, Fr) = (any_i("control", i), any_i("domain", i), elem(0, 2 * i), elem(0, 2 * i + 1));
        if heads[i] {
            state = [c + d, x, y];
            begin = i;
        } else {
            state = [state[0] + d, state[1] + x, state[2] + y];
        }
        state = perm.run(state);
        if i + 1 < n && heads[i + 1] {
            for k in begin..=i {
                match t.look(&s, DIGEST, first + k) {
                    Some(v) => check_eq(v, state[0], "digest of the message a row belongs to", k),
                    None => s.undetermined("the constraints do not determine the digest of a closed message"),
                }
                closed += 1;
            }
        }
    }
    check_eq_i(closed, n - 1, "rows in closed messages", n);
}
/// one row and the next, anywhere in the table: the general step of the argument, with the state before it unknown
pub fn step_at<PC, const STEP: usize>(n: usize, at: usize, head: bool)
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    let t = load::<PC, STEP>(&empty(), n);
    let first = t.first(n);
    let row = first + at;
    // what the row before ends with is found by giving that row a known beginning
    let mut s = Sys::new(&t.rec);
    if !head {
        t.put(&mut s, HEADER, row - 1, Fr::ONE);
        t.put(&mut s, CONTROL, row - 1, any("control before"));
        t.put(&mut s, DOMAIN, row - 1, any("domain before"));
        t.put(&mut s, IN0, row - 1, any("in0 before"));
        t.put(&mut s, IN1, row - 1, any("in1 before"));
    }
    t.put(&mut s, HEADER, row, if head { Fr::ONE } else { Fr::ZERO });
    t.put(&mut s, CONTROL, row, any("control"));
    t.put(&mut s, DOMAIN, row, any("domain"));
    t.put(&mut s, IN0, row, any("in0"));
    t.put(&mut s, IN1, row, any("in1"));
    t.put(&mut s, HEADER, row + 1, Fr::ONE);
    s.propagate();
    let perm = bn_perm();
    let (c, d, x, y): (Fr, Fr, Fr, Fr) = (any("control"), any("domain"), any("in0"), any("in1"));
    let state = if head {
        [c + d, x, y]
    } else {
        let p: [Fr; 3] = perm.run([any::<Fr>("control before") + any::<Fr>("domain before"), any("in0 before"), any("in1 before")]);
        [p[0] + d, p[1] + x, p[2] + y]
    };
    let out = perm.run(state);
    let from = if head { row } else { row - 1 };
    for r in from..=row {
        match t.look(&s, DIGEST, r) {
            Some(v) => check_eq(v, out[0], "digest of the message a row belongs to", at),
            None => s.undetermined("the constraints do not determine the digest of a closed message"),
        }
    }
}
pub fn single_rows_short() {
    strategy(false, 1);
    bound::<Short, 32>(&[true, true, true]);
}
pub fn two_rows_short() {
    strategy(false, 1);
    bound::<Short, 32>(&[true, false, true, true]);
}
pub fn later_two_rows_short() {
    strategy(true, 2);
    bound::<Short, 32>(&[true, true, false, true]);
}
pub fn three_rows_short() {
    strategy(true, 3);
    bound::<Short, 1>(&[true, false, false, true]);
}
pub fn single_rows_long() {
    strategy(false, 1);
    bound::<Long, 32>(&[true, true, true]);
}
pub fn two_rows_long() {
    strategy(true, 2);
    bound::<Long, 32>(&[true, false, true, true]);
}
pub fn three_rows_long() {
    strategy(false, 2);
    bound::<Long, 1>(&[true, false, false, true]);
}
pub fn everywhere_head() {
    strategy(false, 1);
    for at in 0..4 {
        step_at::<Short, 32>(5, at, true);
    }
}
pub fn everywhere_head_parallel() {
    strategy(true, 3);
    for at in 0..4 {
        step_at::<Short, 32>(5, at, true);
    }
}
pub fn everywhere_continued() {
    strategy(false, 1);
    for at in 1..4 {
        step_at::<Short, 32>(5, at, false);
    }
}
pub fn everywhere_continued_parallel() {
    strategy(true, 4);
    for at in 1..4 {
        step_at::<Short, 32>(5, at, false);
    }
}
/// far down a larger table
pub fn far_head() {
    strategy(false, 1);
    for at in [7, 8, 15, 16, 18] {
        step_at::<Short, 32>(20, at, true);
    }
}
pub fn far_continued_parallel() {
    strategy(true, 3);
    for at in [5, 7, 8, 15, 18] {
        step_at::<Short, 32>(20, at, false);
    }
}
pub fn far_continued() {
    strategy(false, 1);
    for at in [9, 16, 17] {
        step_at::<Short, 32>(20, at, false);
    }
}
pub fn eight_rows_short() {
    strategy(false, 2);
    bound::<Short, 1>(&[true, false, false, false, false, false, false, false, true, true]);
}
pub fn everywhere_long() {
    strategy(true, 2);
    for at in 1..3 {
        step_at::<Long, 32>(4, at, true);
        step_at::<Long, 32>(4, at, false);
    }
}
pub fn warm() {
    strategy(false, 1);
    let t = load::<Short, 32>(&empty(), 1);
    let _ = t.rec.rows;
}
