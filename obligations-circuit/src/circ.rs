//! What a recorded circuit accepts: propagation of known cells through its gates and copies, and evaluation of a witness.
//! Everything here is ordinary code over field elements; the analyser runs it on symbolic ones.
use crate::verif::*;
use halo2_proofs::circuit::Cell;
use halo2_proofs::plonk::{Any, Expression, Query};
use halo2_proofs::record::Recorder;
use crate::spec::Perm;
use halo2curves::ff::{Field, FromUniformBytes};
use poseidon_circuit::poseidon::StateWord;

/// rows before the first and after the last that exist for queries
const EDGE: usize = 10;

#[derive(Clone, Debug)]
pub struct Lin<F> {
    pub c: F,
    pub t: Vec<(usize, F)>,
    /// not affine in the unknown cells
    pub top: bool,
}
pub fn zero<F: Field>(c: F) -> bool {
    is_const(c) && c == F::ZERO
}
pub fn non_zero<F: Field>(c: F) -> bool {
    is_const(c) && c != F::ZERO
}
impl<F: Field> Lin<F> {
    fn new(c: F) -> Self {
        Lin { c, t: Vec::new(), top: false }
    }
    fn top() -> Self {
        Lin { c: F::ZERO, t: Vec::new(), top: true }
    }
    fn is_zero(&self) -> bool {
        !self.top && self.t.is_empty() && zero(self.c)
    }
    fn add(&self, o: &Self) -> Self {
        if self.top || o.top {
            return Lin::top();
        }
        let mut r = self.clone();
        r.c = r.c + o.c;
        for (v, k) in o.t.iter() {
            r.add_term(*v, *k);
        }
        r
    }
    fn add_term(&mut self, v: usize, k: F) {
        let n = self.t.len();
        let mut i = 0;
        while i < n {
            if self.t[i].0 == v {
                let s = self.t[i].1 + k;
                if zero(s) {
                    self.t.swap_remove(i);
                } else {
                    self.t[i].1 = s;
                }
                return;
            }
            i += 1;
        }
        if !zero(k) {
            self.t.push((v, k));
        }
    }
    fn scale(&self, k: F) -> Self {
        if zero(k) {
            return Lin::new(F::ZERO);
        }
        if self.top {
            return Lin::top();
        }
        let mut r = Lin::new(self.c * k);
        for (v, x) in self.t.iter() {
            r.t.push((*v, *x * k));
        }
        r
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op<F> {
    Constant(F),
    Atom(Query),
    Neg(usize),
    Sum(usize, usize),
    Product(usize, usize),
    Scaled(usize, F),
}
#[derive(Debug)]
pub struct Eqn<F> {
    pub gate: &'static str,
    pub index: usize,
    pub row: usize,
    pub lin: Lin<F>,
}

pub struct Sys<'a, F: Field> {
    pub rec: &'a Recorder<F>,
    ops: Vec<Op<F>>,
    /// gate polynomials: name, root, number within the gate
    pub polys: Vec<(&'static str, usize, usize)>,
    /// lookup inputs: name, root, table column
    pub lookups: Vec<(&'static str, usize, usize)>,
    height: usize,
    advice: usize,
    parent: Vec<usize>,
    val: Vec<Option<F>>,
    done: Vec<bool>,
    /// values of shared expressions: the row they are for (a number of `forget`) and the number of known cells then
    memo: Vec<Option<Lin<F>>>,
    stamp: Vec<(usize, usize)>,
    generation: usize,
    /// polynomials (by number and row) to be evaluated again because one of their cells became known
    dirty: Vec<bool>,
    dirty_in_row: Vec<usize>,
    /// who waits for a cell
    watch: Vec<Vec<usize>>,
    watching: Vec<bool>,
    /// the affine equations left at a row
    left: Vec<Vec<(usize, Lin<F>)>>,
    /// the cells each polynomial mentions
    atoms: Vec<Vec<Query>>,
    seen: Vec<usize>,
    /// equations that no assignment of the unknown cells satisfies: the constant they demand to be zero
    pub contradictions: Vec<(&'static str, usize, F)>,
    /// where the constraint of each contradiction was declared
    pub contradicted_at: Vec<usize>,
    poly_origin: Vec<usize>,
    lookup_origin: Vec<usize>,
    pub known: usize,
    /// rows whose constraints are used
    pub window: (usize, usize),
}
impl<'a, F: Field> Sys<'a, F> {
    pub fn new(rec: &'a Recorder<F>) -> Self {
        let height = rec.rows + 2 * EDGE;
        let advice = rec.cs.num_advice_columns;
        let n = height * (advice + rec.cs.num_fixed_columns + rec.cs.num_instance_columns);
        let mut s = Sys {
            rec,
            ops: Vec::new(),
            polys: Vec::new(),
            lookups: Vec::new(),
            height,
            advice,
            parent: Vec::with_capacity(n),
            val: Vec::with_capacity(n),
            done: Vec::new(),
            memo: Vec::new(),
            stamp: Vec::new(),
            generation: 1,
            dirty: Vec::new(),
            dirty_in_row: Vec::new(),
            watch: Vec::new(),
            watching: Vec::new(),
            left: Vec::new(),
            atoms: Vec::new(),
            seen: Vec::new(),
            contradictions: Vec::new(),
            contradicted_at: Vec::new(),
            poly_origin: Vec::new(),
            lookup_origin: Vec::new(),
            known: 0,
            window: (0, rec.rows + 2),
        };
        let mut i = 0;
        while i < n {
            s.parent.push(i);
            s.val.push(None);
            i += 1;
        }
        s.ops.push(Op::Constant(F::ZERO)); // number 0 is nobody's
        for g in rec.cs.gates.iter() {
            let mut k = 0;
            for p in g.polys.iter() {
                let r = s.flatten(p);
                s.polys.push((g.name, r, k));
                s.poly_origin.push(g.origin);
                k += 1;
            }
        }
        for l in rec.cs.lookups.iter() {
            for (e, c) in l.inputs.iter() {
                let r = s.flatten(e);
                s.lookups.push((l.name, r, c.inner.index()));
                s.lookup_origin.push(l.origin);
            }
        }
        let n = s.ops.len();
        i = 0;
        while i < n {
            s.memo.push(None);
            s.stamp.push((0, 0));
            s.seen.push(0);
            i += 1;
        }
        let n = s.polys.len() * height;
        i = 0;
        while i < n {
            s.done.push(false);
            s.dirty.push(true);
            s.watching.push(false);
            i += 1;
        }
        i = 0;
        while i < s.polys.len() {
            s.atoms.push(Vec::new());
            i += 1;
        }
        i = 0;
        while i < height {
            s.dirty_in_row.push(s.polys.len());
            s.left.push(Vec::new());
            i += 1;
        }
        i = 0;
        while i < s.parent.len() {
            s.watch.push(Vec::new());
            i += 1;
        }
        for (a, b) in rec.copies.iter() {
            s.join(*a, *b);
        }
        for (c, v) in rec.constants.iter() {
            s.set(*c, *v);
        }
        // fixed columns are known everywhere
        let mut c = 0;
        while c < rec.cs.num_fixed_columns {
            let mut r = 0;
            while r < rec.rows {
                let id = (advice + c) * height + r + EDGE;
                let root = s.root(id);
                // a fixed cell that takes part in a copy gives its value to the class
                if root != id {
                    s.val[root] = Some(rec.fixed_at(c, r));
                } else {
                    s.val[id] = Some(rec.fixed_at(c, r));
                }
                r += 1;
            }
            c += 1;
        }
        s
    }
    fn flatten(&mut self, e: &Expression<F>) -> usize {
        let op = match e {
            Expression::Constant(c) => Op::Constant(*c),
            Expression::Atom(q) => Op::Atom(*q),
            Expression::Negated(a) => Op::Neg(self.node(a)),
            Expression::Sum(a, b) => {
                let x = self.node(a);
                let y = self.node(b);
                Op::Sum(x, y)
            }
            Expression::Product(a, b) => {
                let x = self.node(a);
                let y = self.node(b);
                Op::Product(x, y)
            }
            Expression::Scaled(a, k) => Op::Scaled(self.node(a), *k),
        };
        self.ops.push(op);
        self.ops.len() - 1
    }
    fn node(&mut self, n: &halo2_proofs::plonk::Node<F>) -> usize {
        // the mark survives between systems over the same constraint system: numbering is deterministic
        let m = n.mark.get();
        if m != 0 && m < self.ops.len() {
            return m;
        }
        let r = self.flatten(&n.e);
        n.mark.set(r);
        r
    }
    pub fn id(&self, kind: Any, col: usize, row: i64) -> usize {
        let c = match kind {
            Any::Advice => col,
            Any::Fixed => self.advice + col,
            Any::Instance => self.advice + self.rec.cs.num_fixed_columns + col,
        };
        let r = row + EDGE as i64;
        assert!(r >= 0 && (r as usize) < self.height, "query outside the window");
        c * self.height + r as usize
    }
    fn cell_id(&self, c: Cell) -> usize {
        self.id(*c.column.column_type(), c.column.index(), c.row as i64)
    }
    fn root(&self, i: usize) -> usize {
        let mut i = i;
        while self.parent[i] != i {
            i = self.parent[i];
        }
        i
    }
    fn join(&mut self, a: Cell, b: Cell) {
        let x = self.root(self.cell_id(a));
        let y = self.root(self.cell_id(b));
        if x != y {
            self.parent[y] = x;
        }
    }
    pub fn linked(&self, a: Cell, b: Cell) -> bool {
        self.root(self.cell_id(a)) == self.root(self.cell_id(b))
    }
    pub fn set(&mut self, c: Cell, v: F) {
        let r = self.root(self.cell_id(c));
        self.put(r, v);
    }
    pub fn set_at(&mut self, kind: Any, col: usize, row: i64, v: F) {
        let r = self.root(self.id(kind, col, row));
        self.put(r, v);
    }
    fn put(&mut self, r: usize, v: F) {
        match self.val[r] {
            Some(w) => {
                if !same(v, w) {
                    self.contradictions.push(("copy", 0, v - w));
                    self.contradicted_at.push(0);
                }
            }
            None => {
                self.val[r] = Some(v);
                self.known += 1;
                for d in core::mem::take(&mut self.watch[r]) {
                    if !self.dirty[d] {
                        self.dirty[d] = true;
                        self.dirty_in_row[d % self.height] += 1;
                    }
                }
            }
        }
    }
    pub fn get(&self, c: Cell) -> Option<F> {
        self.val[self.root(self.cell_id(c))]
    }
    pub fn get_at(&self, kind: Any, col: usize, row: i64) -> Option<F> {
        self.val[self.root(self.id(kind, col, row))]
    }
    fn atom(&self, q: Query, row: i64) -> Lin<F> {
        match q {
            Query::Selector(s) => {
                if row >= 0 && self.rec.selector_at(s, row as usize) {
                    Lin::new(F::ONE)
                } else {
                    Lin::new(F::ZERO)
                }
            }
            Query::Fixed(c, rot) => {
                let r = row + rot as i64;
                if r >= 0 {
                    Lin::new(self.rec.fixed_at(c, r as usize))
                } else {
                    Lin::new(F::ZERO)
                }
            }
            Query::Advice(c, rot) => self.cell(Any::Advice, c, row + rot as i64),
            Query::Instance(c, rot) => self.cell(Any::Instance, c, row + rot as i64),
        }
    }
    fn cell(&self, kind: Any, c: usize, row: i64) -> Lin<F> {
        let r = self.root(self.id(kind, c, row));
        match self.val[r] {
            Some(v) => Lin::new(v),
            None => {
                let mut l = Lin::new(F::ZERO);
                l.t.push((r, F::ONE));
                l
            }
        }
    }
    fn eval(&mut self, i: usize, row: i64) -> Lin<F> {
        if self.stamp[i].0 == self.generation {
            if let Some(l) = &self.memo[i] {
                if self.stamp[i].1 == self.known || !l.top && l.t.is_empty() {
                    return l.clone();
                }
            }
        }
        let l = match self.ops[i] {
            Op::Constant(c) => Lin::new(c),
            Op::Atom(q) => self.atom(q, row),
            Op::Neg(a) => self.eval(a, row).scale(-F::ONE),
            Op::Sum(a, b) => {
                let x = self.eval(a, row);
                if x.top {
                    Lin::top()
                } else {
                    let y = self.eval(b, row);
                    x.add(&y)
                }
            }
            Op::Product(a, b) => {
                let x = self.eval(a, row);
                if x.is_zero() {
                    x
                } else {
                    let y = self.eval(b, row);
                    if y.is_zero() {
                        y
                    } else if x.top || y.top {
                        Lin::top()
                    } else if x.t.is_empty() {
                        y.scale(x.c)
                    } else if y.t.is_empty() {
                        x.scale(y.c)
                    } else {
                        Lin::top()
                    }
                }
            }
            Op::Scaled(a, k) => self.eval(a, row).scale(k),
        };
        self.memo[i] = Some(l.clone());
        self.stamp[i] = (self.generation, self.known);
        l
    }
    fn forget(&mut self) {
        self.generation += 1;
    }
    /// the cells an expression mentions
    fn mentions(&mut self, i: usize, p: usize) {
        if self.seen[i] == p + 1 {
            return;
        }
        self.seen[i] = p + 1;
        match self.ops[i] {
            Op::Constant(_) => {}
            Op::Atom(q) => self.atoms[p].push(q),
            Op::Neg(a) | Op::Scaled(a, _) => self.mentions(a, p),
            Op::Sum(a, b) | Op::Product(a, b) => {
                self.mentions(a, p);
                self.mentions(b, p);
            }
        }
    }
    /// evaluate polynomial `p` at `row` again when a cell it mentions becomes known
    fn wait(&mut self, p: usize, row: usize) {
        let d = p * self.height + row;
        if self.atoms[p].is_empty() {
            self.mentions(self.polys[p].1, p);
        }
        let mut k = 0;
        while k < self.atoms[p].len() {
            let id = match self.atoms[p][k] {
                Query::Advice(c, rot) => Some(self.id(Any::Advice, c, row as i64 + rot as i64)),
                Query::Instance(c, rot) => Some(self.id(Any::Instance, c, row as i64 + rot as i64)),
                _ => None,
            };
            if let Some(id) = id {
                let r = self.root(id);
                if self.val[r].is_none() {
                    self.watch[r].push(d);
                }
            }
            k += 1;
        }
        self.watching[d] = true;
    }
    pub fn rows(&self) -> usize {
        self.rec.rows
    }
    /// polynomial number `p` at a row
    pub fn poly(&mut self, p: usize, row: i64) -> Lin<F> {
        self.forget();
        let r = self.polys[p].1;
        self.eval(r, row)
    }
    pub fn lookup(&mut self, l: usize, row: i64) -> Lin<F> {
        self.forget();
        let r = self.lookups[l].1;
        self.eval(r, row)
    }
    /// determine every cell that the known ones and the constraints determine (affine steps only)
    pub fn propagate(&mut self) {
        loop {
            let before = self.known;
            let mut row = self.window.0;
            // two rows more than are used: gates that look back
            while row < self.window.1 {
                if self.dirty_in_row[row] > 0 {
                    self.settle(row);
                }
                row += 1;
            }
            if self.known == before {
                let mut pending: Vec<Lin<F>> = Vec::new();
                row = self.window.0;
                while row < self.window.1 {
                    for (_, l) in self.left[row].iter() {
                        pending.push(l.clone());
                    }
                    row += 1;
                }
                self.eliminate(&pending);
                if self.known == before {
                    return;
                }
            }
        }
    }
    /// evaluate the polynomials of a row that may have changed, until none determines a cell
    fn settle(&mut self, row: usize) {
        self.forget();
        let mut changed = false;
        while self.dirty_in_row[row] > 0 {
            let mut p = 0;
            while p < self.polys.len() {
                let d = p * self.height + row;
                if self.dirty[d] {
                    self.dirty[d] = false;
                    self.dirty_in_row[row] -= 1;
                    if !self.done[d] {
                        changed |= self.consider(p, row);
                    }
                }
                p += 1;
            }
        }
        // the equations of this row may determine cells together
        if changed && self.left[row].len() > 1 {
            let mine: Vec<Lin<F>> = self.left[row].iter().map(|(_, l)| l.clone()).collect();
            self.eliminate(&mine);
        }
    }
    /// whether the equations left at the row changed
    fn consider(&mut self, p: usize, row: usize) -> bool {
        let d = p * self.height + row;
        let before = self.left[row].len();
        self.left[row].retain(|(x, _)| *x != d);
        let mut changed = self.left[row].len() != before;
        let root = self.polys[p].1;
        let l = self.eval(root, row as i64);
        if !l.top && l.t.is_empty() {
            self.done[d] = true;
            if !zero(l.c) && !same(l.c, F::ZERO) {
                let name = self.polys[p].0;
                self.contradictions.push((name, row, l.c));
                let o = self.poly_origin[p];
                self.contradicted_at.push(o);
            }
        } else if !l.top && l.t.len() == 1 && non_zero(l.t[0].1) {
            self.done[d] = true;
            let v = self.solve(&l);
            self.put(l.t[0].0, v);
        } else {
            if !self.watching[d] {
                self.wait(p, row);
            }
            if !l.top {
                self.left[row].push((d, l));
                changed = true;
            }
        }
        changed
    }
    /// an element that should follow from the known ones does not: blame the first cell, in the order of assignment,
    /// that is not determined
    pub fn undetermined(&self, label: &str) {
        for (c, r, o) in self.rec.log.iter() {
            if *r >= self.window.0 && *r < self.window.1 && self.get_at(Any::Advice, *c, *r as i64).is_none() {
                at(*o);
                fail(label, "the cell assigned here is the first that is not determined");
                at(0);
                return;
            }
        }
        fail(label, "");
    }
    /// the known cells satisfy all constraints between them
    pub fn consistent(&self, label: &str) {
        if let Some(o) = self.contradicted_at.first() {
            at(*o);
        }
        check(self.contradictions.is_empty(), label);
        at(0);
    }
    fn solve(&self, l: &Lin<F>) -> F {
        -l.c * l.t[0].1.invert().unwrap()
    }
    /// Gauss-Jordan elimination with constant pivots
    fn eliminate(&mut self, eqs: &[Lin<F>]) {
        let mut rows: Vec<(usize, Lin<F>)> = Vec::new();
        for e in eqs.iter() {
            let mut l = e.clone();
            // reduce by what is there
            for (v, r) in rows.iter() {
                let k = coefficient(&l, *v);
                if !zero(k) {
                    l = l.add(&r.scale(-k));
                }
            }
            let mut i = 0;
            while i < l.t.len() && !non_zero(l.t[i].1) {
                i += 1;
            }
            if i == l.t.len() {
                if l.t.is_empty() && !zero(l.c) && !same(l.c, F::ZERO) {
                    self.contradictions.push(("combination", 0, l.c));
                    self.contradicted_at.push(0);
                }
                continue;
            }
            let v = l.t[i].0;
            l = l.scale(l.t[i].1.invert().unwrap());
            let n = rows.len();
            let mut j = 0;
            while j < n {
                let k = coefficient(&rows[j].1, v);
                if !zero(k) {
                    let x = rows[j].1.add(&l.scale(-k));
                    rows[j].1 = x;
                }
                j += 1;
            }
            rows.push((v, l));
        }
        for (v, l) in rows.iter() {
            if l.t.len() == 1 && l.t[0].0 == *v && self.val[*v].is_none() {
                let x = self.solve(l);
                self.put(*v, x);
            }
        }
    }
}
fn coefficient<F: Field>(l: &Lin<F>, v: usize) -> F {
    for (x, k) in l.t.iter() {
        if *x == v {
            return *k;
        }
    }
    F::ZERO
}

/// a circuit that permutes given states
pub struct Made<F: Field, W, const T: usize> {
    pub rec: Recorder<F>,
    pub ins: Vec<[W; T]>,
    pub outs: Vec<[W; T]>,
}
pub fn input<F>(k: usize, i: usize) -> F {
    any_i::<F>("in", 10 * k + i)
}
/// knowing the input cells, the constraints determine the output cells to be the permutation of the input
pub fn outputs_determined<F: FromUniformBytes<64> + Ord, const T: usize>(m: &Made<F, StateWord<F>, T>, n: usize, perm: &Perm<'_, F, T>) {
    let mut s = Sys::new(&m.rec);
    for k in 0..n {
        for i in 0..T {
            s.set(m.ins[k][i].0.cell(), input(k, i));
        }
    }
    s.propagate();
    check_eq_i(m.outs.len(), n, "number of permuted states", n);
    for k in 0..n {
        let mut x = [F::ZERO; T];
        for i in 0..T {
            x[i] = input(k, i);
        }
        let want = perm.run(x);
        for i in 0..T {
            match s.get(m.outs[k][i].0.cell()) {
                Some(v) => check_eq(v, want[i], "output cell of a permutation", T * k + i),
                None => s.undetermined("the constraints do not determine the output of a permutation"),
            }
        }
    }
    s.consistent("the constraints accept the permutation of the input");
}

/// the assigned witness satisfies every gate, copy and lookup
pub fn check_witness<F: Field>(rec: &Recorder<F>) {
    let mut s = Sys::new(rec);
    let last = rec.rows as i64 + 2;
    // a prover fills unassigned cells with zero; the rows before the first are the blinding rows at the end
    let mut c = 0;
    while c < rec.cs.num_advice_columns {
        let mut r = -(EDGE as i64);
        while r < rec.rows as i64 + EDGE as i64 {
            let id = s.id(Any::Advice, c, r);
            // class values must agree cell by cell, so no union here
            let v = if r < 0 {
                any_i("blinding", c * 100 + (-r) as usize)
            } else {
                if let Some(Some(None)) = rec.advice[c].get(r as usize) {
                    fail("assigned cell without a value", "");
                }
                rec.advice_at(c, r as usize).unwrap_or(F::ZERO)
            };
            s.parent[id] = id;
            s.val[id] = Some(v);
            r += 1;
        }
        c += 1;
    }
    let mut p;
    let mut row = 0i64;
    while row < last {
        s.forget();
        p = 0;
        while p < s.polys.len() {
            let root = s.polys[p].1;
            let l = s.eval(root, row);
            at(s.poly_origin[p]);
            if l.top || !l.t.is_empty() {
                fail("gate value unknown", s.polys[p].0);
            } else if !zero(l.c) {
                check_eq(l.c, F::ZERO, s.polys[p].0, row as usize);
            }
            p += 1;
        }
        p = 0;
        while p < s.lookups.len() {
            let (name, root, col) = s.lookups[p];
            let l = s.eval(root, row);
            at(s.lookup_origin[p]);
            if l.top || !l.t.is_empty() {
                fail("lookup value unknown", name);
            } else if !in_table(rec, col, l.c) {
                fail("lookup value outside the table", name);
            }
            p += 1;
        }
        row += 1;
    }
    for ((a, b), o) in rec.copies.iter().zip(rec.copy_origins.iter()) {
        at(*o);
        match (value_of(rec, *a), value_of(rec, *b)) {
            (Some(x), Some(y)) => check_eq(x, y, "copied cells", 0),
            _ => fail("copy of a cell without a value", ""),
        }
    }
    at(0);
    for (a, v) in rec.constants.iter() {
        match value_of(rec, *a) {
            Some(x) => check_eq(x, *v, "constant cell", 0),
            _ => fail("constant cell without a value", ""),
        }
    }
    check(true, "witness evaluated");
}
pub fn value_of<F: Field>(rec: &Recorder<F>, c: Cell) -> Option<F> {
    match c.column.column_type() {
        Any::Advice => rec.advice_at(c.column.index(), c.row),
        Any::Fixed => Some(rec.fixed_at(c.column.index(), c.row)),
        Any::Instance => None,
    }
}
pub fn in_table<F: Field>(rec: &Recorder<F>, col: usize, v: F) -> bool {
    for x in rec.fixed[col].iter() {
        if let Some(x) = x {
            if same(*x, v) {
                return true;
            }
        }
    }
    false
}
