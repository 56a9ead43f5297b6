//! C04: what the control columns of neighbouring rows may be.
use crate::circ::*;
use crate::tab::*;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_circuit::poseidon::PermuteChip;

fn rejected(s: &Sys<'_, Fr>) -> bool {
    for (_, _, v) in s.contradictions.iter() {
        if non_zero(*v) {
            return true;
        }
    }
    false
}
/// the constraints of the rows around one
fn near(t: &Loaded, row: usize) -> Sys<'_, Fr> {
    let mut s = Sys::new(&t.rec);
    s.window = (if row > 2 { row - 2 } else { 0 }, row + 3);
    s
}
/// the header mark of a row can only be 0 or 1: some constraint on it alone is a multiple of h (1 - h)
fn mark_is_boolean(t: &Loaded, row: usize) {
    let two = Fr::ONE + Fr::ONE;
    let mut a = near(t, row);
    t.put(&mut a, HEADER, row, two);
    a.propagate();
    let mut b = near(t, row);
    let h: Fr = any("mark");
    t.put(&mut b, HEADER, row, h);
    b.propagate();
    let mut found = false;
    for (_, _, v) in a.contradictions.iter() {
        if non_zero(*v) {
            let k = -*v * two.invert().unwrap();
            for (_, _, w) in b.contradictions.iter() {
                if same(*w, k * h * (Fr::ONE - h)) {
                    found = true;
                }
            }
        }
    }
    check(found, "a header mark is 0 or 1");
}
/// a continuation row: the control of the row before is one step more, and this control is not 0
fn continued<const STEP: usize>(t: &Loaded, row: usize, last: bool) {
    let mut s = near(t, row);
    t.put(&mut s, HEADER, row, Fr::ZERO);
    if !last {
        let c: Fr = any("control");
        t.put(&mut s, CONTROL, row, c);
        s.propagate();
        match t.look(&s, CONTROL, row - 1) {
            Some(v) => check_eq(v, c + times(STEP as u64), "control before a continuation row", row),
            None => fail("the control before a continuation row is not determined", ""),
        }
        let mut z = near(t, row);
        t.put(&mut z, HEADER, row, Fr::ZERO);
        t.put(&mut z, CONTROL, row, Fr::ZERO);
        z.propagate();
        check(rejected(&z), "a continuation row with control 0 is rejected");
    } else {
        s.propagate();
        check(rejected(&s), "the last row cannot be a continuation");
    }
}
/// a header row: the control of the row before is looked up among the multiples of the factor up to the step
fn headed<const STEP: usize>(t: &Loaded, row: usize) {
    let c: Fr = any("control");
    let mut s = near(t, row);
    t.put(&mut s, HEADER, row, Fr::ONE);
    t.put(&mut s, CONTROL, row - 1, c);
    s.propagate();
    let mut found = false;
    for l in 0..s.lookups.len() {
        let v = s.lookup(l, row as i64);
        if !v.top && v.t.is_empty() && same(v.c, c) {
            found = range_table::<STEP>(t, s.lookups[l].2) || found;
        }
    }
    check(found, "the control before a header row is looked up in the step range");
}
/// the table holds the multiples 0..=STEP of the factor and nothing else
fn range_table<const STEP: usize>(t: &Loaded, col: usize) -> bool {
    let mut n = 0;
    for i in 0..=STEP as u64 {
        if !in_table(&t.rec, col, times(i)) {
            return false;
        }
        n += 1;
    }
    for x in t.rec.fixed[col].iter() {
        if let Some(x) = x {
            let mut known = false;
            for i in 0..=STEP as u64 {
                if same(*x, times(i)) {
                    known = true;
                }
            }
            if !known {
                return false;
            }
        }
    }
    check_eq_i(n, STEP + 1, "values in the step range", STEP);
    true
}
fn controls<PC, const STEP: usize>(n: usize)
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    controls_at::<PC, STEP>(n, &[])
}
/// `only` these rows besides the first and the last two, or all
fn controls_at<PC, const STEP: usize>(n: usize, only: &[usize])
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    let t = load_with::<PC, STEP>(&empty(), n, false);
    let first = t.first(n);
    for i in 0..n {
        if !only.is_empty() && i > 0 && i + 2 < n && !only.contains(&i) {
            continue;
        }
        if i + 1 < n {
            mark_is_boolean(&t, first + i);
            if i > 0 {
                continued::<STEP>(&t, first + i, false);
            }
        } else {
            continued::<STEP>(&t, first + i, true);
        }
        headed::<STEP>(&t, first + i);
    }
    // the last row is a padding row and its own message
    let mut s = near(&t, first + n - 1);
    s.propagate();
    for k in [IN0, IN1, CONTROL] {
        match t.look(&s, k, first + n - 1) {
            Some(v) => check_eq(v, Fr::ZERO, "content of the last row", k),
            None => fail("the last row is not forced to be a padding row", ""),
        }
    }
    match t.look(&s, HEADER, first + n - 1) {
        Some(v) => check_eq(v, Fr::ONE, "header mark of the last row", 0),
        None => fail("the last row is not forced to be a header row", ""),
    }
    // messages that begin before the first row: whichever row is the first header, the control before it is out of range
    for h in 1..n {
        if !only.is_empty() && h > 1 && h + 1 < n && !only.contains(&h) {
            continue;
        }
        let mut s = Sys::new(&t.rec);
        s.window = (0, first + h + 2);
        for i in 0..h {
            t.put(&mut s, HEADER, first + i, Fr::ZERO);
        }
        t.put(&mut s, HEADER, first + h, Fr::ONE);
        s.propagate();
        let mut out = rejected(&s);
        for l in 0..s.lookups.len() {
            let v = s.lookup(l, (first + h) as i64);
            if !v.top && v.t.is_empty() && is_const(v.c) && !in_table(&t.rec, s.lookups[l].2, v.c) {
                out = true;
            }
        }
        check(out, "the first row must be a header row");
    }
}
pub fn default_step_short() {
    strategy(false, 1);
    controls::<Short, 32>(4);
}
pub fn default_step_short_parallel() {
    strategy(true, 3);
    controls::<Short, 32>(5);
}
pub fn default_step_long() {
    strategy(true, 2);
    controls::<Long, 32>(3);
}
pub fn default_step_long_serial() {
    strategy(false, 2);
    controls::<Long, 32>(2);
}
pub fn step_1() {
    strategy(false, 1);
    controls::<Short, 1>(3);
}
pub fn step_62() {
    strategy(true, 1);
    controls::<Short, 62>(3);
}
pub fn step_200() {
    strategy(false, 1);
    controls::<Short, 200>(2);
}
/// far down a larger table
pub fn far_rows() {
    strategy(false, 1);
    controls_at::<Short, 32>(20, &[8, 15, 16]);
}
pub fn far_rows_parallel() {
    strategy(true, 3);
    controls_at::<Short, 32>(20, &[7, 9]);
}
pub fn one_row() {
    strategy(false, 1);
    controls::<Short, 32>(1);
    strategy(true, 8);
    controls::<Short, 32>(1);
}
pub fn warm() {
    strategy(false, 1);
    let t = load::<Short, 32>(&empty(), 1);
    let _ = t.rec.rows;
}
