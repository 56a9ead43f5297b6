//! C03 for tables of realistic sizes: every row of a large table is tied to a permutation of its own in the same way as the
//! rows of the small tables, which `c03` decides; and the argument itself at rows around sizes of machine words.
use crate::c03::step_at;
use crate::c06::number;
use crate::tab::*;
use crate::verif::*;
use halo2_proofs::record::Recorder;
use halo2curves::bn256::Fr;
use halo2curves::ff::Field;
use poseidon_circuit::poseidon::PermuteChip;

/// a cell tied to a row of the table: the column of the row it is tied to, its own column, its row
type Tie = (usize, usize, usize);

/// what holds at a row of the table, relative to the first cell it is tied to
struct Block {
    base: usize,
    ties: Vec<Tie>,
}
/// the cells that occur in copy constraints, and which of them are equal
struct Ties {
    /// place of a cell in `cell`, plus one
    place: Vec<usize>,
    cell: Vec<usize>,
    class: Vec<usize>,
    members: Vec<Vec<usize>>,
}
impl Ties {
    fn new(rec: &Recorder<Fr>) -> Self {
        let rows = rec.rows;
        let mut t = Ties { place: vec![0; (rec.cs.num_advice_columns + rec.cs.num_fixed_columns + rec.cs.num_instance_columns) * rows], cell: Vec::new(), class: Vec::new(), members: Vec::new() };
        for (a, b) in rec.copies.iter() {
            let x = t.add(number(rec, *a.column.column_type(), a.column.index()) * rows + a.row);
            let y = t.add(number(rec, *b.column.column_type(), b.column.index()) * rows + b.row);
            let (x, y) = (t.class[x], t.class[y]);
            if x != y {
                let moved = core::mem::replace(&mut t.members[y], Vec::new());
                for m in moved {
                    let p = t.place[m] - 1;
                    t.class[p] = x;
                    t.members[x].push(m);
                }
            }
        }
        for m in t.members.iter_mut() {
            m.sort();
        }
        t
    }
    fn add(&mut self, cell: usize) -> usize {
        if self.place[cell] == 0 {
            let k = self.cell.len();
            self.cell.push(cell);
            self.class.push(k);
            self.members.push(vec![cell]);
            self.place[cell] = k + 1;
        }
        self.place[cell] - 1
    }
    fn tied(&self, cell: usize) -> bool {
        self.place[cell] != 0
    }
    /// the cells equal to `cell`, in order
    fn with(&self, cell: usize) -> Vec<usize> {
        match self.place[cell] {
            0 => Vec::new(),
            k => self.members[self.class[k - 1]].clone(),
        }
    }
}
struct Plan {
    l: Loaded,
    first: usize,
    blocks: Vec<Block>,
    /// distance of the permutations
    size: usize,
}
/// the columns of the six table columns are not among the ties: only cells elsewhere are
fn plan<PC>(n: usize) -> Plan
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    let l = load_with::<PC, 32>(&empty(), n, false);
    let first = l.first(n);
    let rows = l.rec.rows;
    let cols = l.rec.cs.num_advice_columns;
    let ties = Ties::new(&l.rec);
    // columns whose cells are tied to others at every row of the table
    let mut side = Vec::new();
    for c in 0..cols {
        let mut all = true;
        for r in first..first + n {
            if !ties.tied(c * rows + r) {
                all = false;
                break;
            }
        }
        if all {
            side.push(c);
        }
    }
    let mut blocks = Vec::new();
    for r in first..first + n {
        let mut own = Vec::new();
        let mut base = rows;
        for c in side.iter() {
            for m in ties.with(*c * rows + r) {
                let (mc, mr) = (m / rows, m % rows);
                if !has(&side, mc) {
                    own.push((*c, mc, mr));
                    if mr < base {
                        base = mr;
                    }
                } else {
                    check_eq_i(mr, r, "row another row of the table is tied to", r);
                }
            }
        }
        check(own.len() > 0, "a row of the table is tied to a permutation");
        for t in own.iter_mut() {
            t.2 -= base;
        }
        blocks.push(Block { base, ties: own });
    }
    let mut size = rows;
    for i in 0..n {
        for j in 0..i {
            let (a, b) = (blocks[i].base, blocks[j].base);
            let d = if a > b { a - b } else { b - a };
            if d < size {
                size = d;
            }
        }
    }
    check(size > 0, "each row of the table has a permutation of its own");
    Plan { l, first, blocks, size }
}
fn has(v: &[usize], x: usize) -> bool {
    let mut i = 0;
    while i < v.len() {
        if v[i] == x {
            return true;
        }
        i += 1;
    }
    false
}
impl Plan {
    fn fixed(&self) -> usize {
        self.l.rec.cs.num_fixed_columns
    }
    fn selectors(&self) -> usize {
        self.l.rec.selectors.len()
    }
    /// fixed cell or selector
    fn at(&self, k: usize, row: usize) -> Fr {
        if k < self.fixed() {
            self.l.rec.fixed_at(k, row)
        } else if self.l.rec.selector_at(k - self.fixed(), row) {
            Fr::ONE
        } else {
            Fr::ZERO
        }
    }
}
/// `small` and `large` have the same ties at every row, the same fixed cells and selectors in every permutation, and the
/// same ones along the table
fn same_everywhere(small: &Plan, n0: usize, large: &Plan, n: usize) {
    check_eq_i(small.size, large.size, "rows of a permutation", n);
    check_eq_i(small.first, large.first, "first row of the table", n);
    check_eq_i(small.fixed(), large.fixed(), "fixed columns", n);
    check_eq_i(small.selectors(), large.selectors(), "selectors", n);
    let model = &small.blocks[1];
    for i in 0..n {
        let b = &large.blocks[i];
        check_eq_i(b.ties.len(), model.ties.len(), "cells a row of the table is tied to", i);
        for k in 0..b.ties.len() {
            check(b.ties[k] == model.ties[k], "a row of the table is tied to its permutation like every other");
        }
    }
    for k in 0..large.fixed() + large.selectors() {
        // a column of the permutations is the same in each of them
        let mut periodic = 0;
        for i in 0..n {
            let base = large.blocks[i].base;
            for d in 0..large.size {
                if !same(large.at(k, base + d), small.at(k, model.base + d)) {
                    periodic += 1;
                }
            }
        }
        if periodic == 0 {
            continue;
        }
        // a lookup table does not depend on the size
        let mut fixed = 0;
        let rows = large.l.rec.rows;
        for r in 0..rows {
            if !same(large.at(k, r), small.at(k, r)) {
                fixed += 1;
            }
        }
        if fixed == 0 {
            continue;
        }
        // any other column belongs to the table: row by row what the small one has, the rows in the middle as in its middle
        let mut wrong = 0;
        let (a, b) = (small.first, n0 / 2);
        for r in 0..large.l.rec.rows {
            let want = if r < a + b {
                small.at(k, r)
            } else if r < large.first + n - b {
                small.at(k, a + b)
            } else if r < large.first + n + b {
                small.at(k, r + n0 - n)
            } else {
                continue;
            };
            if !same(large.at(k, r), want) {
                wrong += 1;
            }
        }
        check_eq_i(wrong, 0, "rows of a large table whose fixed cells differ from those of a small one", k);
    }
}
fn uniform<PC>(parallel: bool, workers: usize, n0: usize, sizes: &[usize])
where
    PC: PermuteChip<Fr, S, 3, 2>,
    PC::Config: Sync,
{
    strategy(parallel, workers);
    let small = plan::<PC>(n0);
    for n in sizes {
        let large = plan::<PC>(*n);
        same_everywhere(&small, n0, &large, *n);
    }
}
pub fn uniform_short() {
    uniform::<Short>(false, 1, 8, &[20, 65, 130]);
}
pub fn uniform_parallel_short() {
    uniform::<Short>(true, 3, 8, &[20, 65, 130]);
}
pub fn uniform_large_short() {
    uniform::<Short>(false, 1, 8, &[257]);
}
pub fn uniform_large_parallel_short() {
    uniform::<Short>(true, 8, 8, &[257]);
}
pub fn uniform_long() {
    uniform::<Long>(false, 1, 8, &[20, 66]);
}
pub fn uniform_parallel_long() {
    uniform::<Long>(true, 2, 8, &[20, 66]);
}
pub fn wide_head() {
    strategy(false, 1);
    step_at::<Short, 32>(66, 64, true);
}
pub fn wide_continued() {
    strategy(true, 3);
    step_at::<Short, 32>(66, 64, false);
}
pub fn warm() {
    strategy(false, 1);
    let t = load::<Short, 32>(&empty(), 1);
    let _ = t.rec.rows;
}
