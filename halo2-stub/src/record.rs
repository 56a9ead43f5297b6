//! What a synthesis assigns.
/// identifies the place in the circuit code that is being executed (the analyser knows it; at run time there is none)
#[inline(never)]
pub fn origin() -> usize {
    0
}
use crate::circuit::{Cell, Value};
use crate::plonk::*;
use ff::Field;

/// rows there can be
const MAX_ROWS: usize = 1 << 17;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Idle,
    Shape,
    Assign,
}
/// Columns in one numbering: advice, fixed, instance.
#[derive(Debug)]
pub struct Recorder<F: Field> {
    pub cs: ConstraintSystem<F>,
    /// [column][row]; None: never assigned. An assigned cell whose value was not known holds `Some(None)`.
    pub advice: Vec<Vec<Option<Option<F>>>>,
    pub fixed: Vec<Vec<Option<F>>>,
    pub selectors: Vec<Vec<bool>>,
    pub copies: Vec<(Cell, Cell)>,
    pub constants: Vec<(Cell, F)>,
    /// first free row per advice, fixed column and selector
    used: [Vec<usize>; 3],
    /// where each region starts
    pub regions: Vec<(usize, usize)>,
    pub rows: usize,
    /// cells assigned twice with values that were not shown to be the same
    pub overwritten: usize,
    /// advice cells in the order they were assigned, with the place that assigned them
    pub log: Vec<(usize, usize, usize)>,
    pub copy_origins: Vec<usize>,
    mode: Mode,
    pub(crate) start: usize,
    limit: Option<usize>,
    shape: Vec<(usize, usize)>,
    shape_rows: usize,
    pub witness: bool,
}
impl<F: Field> Recorder<F> {
    pub fn new(cs: ConstraintSystem<F>) -> Self {
        let (a, f, s) = (cs.num_advice_columns, cs.num_fixed_columns, cs.selectors.len());
        let mut r = Recorder {
            cs,
            advice: Vec::new(),
            fixed: Vec::new(),
            selectors: Vec::new(),
            copies: Vec::new(),
            constants: Vec::new(),
            used: [Vec::new(), Vec::new(), Vec::new()],
            regions: Vec::new(),
            rows: 0,
            overwritten: 0,
            log: Vec::new(),
            copy_origins: Vec::new(),
            mode: Mode::Idle,
            start: 0,
            limit: None,
            shape: Vec::new(),
            shape_rows: 0,
            witness: true,
        };
        for _ in 0..a {
            r.advice.push(Vec::new());
            r.used[0].push(0);
        }
        for _ in 0..f {
            r.fixed.push(Vec::new());
            r.used[1].push(0);
        }
        for _ in 0..s {
            r.selectors.push(Vec::new());
            r.used[2].push(0);
        }
        r
    }
    pub fn begin_shape(&mut self) {
        assert!(self.mode == Mode::Idle, "nested region");
        self.mode = Mode::Shape;
        self.shape = Vec::new();
        self.shape_rows = 0;
    }
    /// the region goes below everything that is in its columns
    pub fn end_shape(&mut self) -> (usize, usize) {
        self.mode = Mode::Idle;
        let mut start = 0;
        for (k, i) in self.shape.iter() {
            if self.used[*k][*i] > start {
                start = self.used[*k][*i];
            }
        }
        for (k, i) in self.shape.iter() {
            self.used[*k][*i] = start + self.shape_rows;
        }
        self.regions.push((start, self.shape_rows));
        if start + self.shape_rows > self.rows {
            self.rows = start + self.shape_rows;
        }
        (start, self.shape_rows)
    }
    pub fn begin(&mut self, start: usize, rows: Option<usize>) {
        self.mode = Mode::Assign;
        self.start = start;
        self.limit = rows;
    }
    pub fn end(&mut self) {
        self.mode = Mode::Idle;
        self.start = 0;
        self.limit = None;
    }
    /// sub-regions of a parallel assignment must not share rows
    pub fn fork(&mut self, ranges: &[(usize, usize)]) -> Result<(), Error> {
        let mut end = 0;
        for (s, n) in ranges.iter() {
            if *s < end {
                return Err(Error::InvalidRange(*s));
            }
            end = *s + *n;
        }
        Ok(())
    }
    fn touch(&mut self, kind: usize, index: usize, offset: usize) {
        let mut seen = false;
        for x in self.shape.iter() {
            if x.0 == kind && x.1 == index {
                seen = true;
            }
        }
        if !seen {
            self.shape.push((kind, index));
        }
        if offset + 1 > self.shape_rows {
            self.shape_rows = offset + 1;
        }
    }
    /// a proof has a limited number of rows
    fn fits(&self, offset: usize) -> Result<(), Error> {
        if offset < MAX_ROWS && self.start < MAX_ROWS {
            Ok(())
        } else {
            Err(Error::InvalidRange(offset))
        }
    }
    fn place(&mut self, offset: usize) -> Result<usize, Error> {
        if let Some(n) = self.limit {
            if offset >= n {
                return Err(Error::InvalidRange(offset));
            }
        }
        let row = self.start + offset;
        if row + 1 > self.rows {
            self.rows = row + 1;
        }
        Ok(row)
    }
    pub(crate) fn assign<VR>(&mut self, column: Column<Any>, offset: usize, advice: bool, to: &mut dyn FnMut() -> Value<VR>) -> Result<(Value<VR>, Cell), Error>
    where
        for<'vr> Assigned<F>: From<&'vr VR>,
    {
        self.fits(offset)?;
        let kind = if advice { 0 } else { 1 };
        if self.mode == Mode::Shape {
            self.touch(kind, column.index, offset);
            return Ok((Value::unknown(), Cell { column, row: offset }));
        }
        assert!(self.mode == Mode::Assign, "assignment outside a region");
        let row = self.place(offset)?;
        let value = if advice && !self.witness { Value::unknown() } else { to() };
        let v: Option<F> = value.as_ref().map(|v| Assigned::from(v).evaluate()).into_option();
        if advice {
            let col = &mut self.advice[column.index];
            while col.len() <= row {
                col.push(None);
            }
            col[row] = Some(v);
            self.log.push((column.index, row, origin()));
        } else {
            let v = match v {
                Some(v) => v,
                None => return Err(Error::Synthesis),
            };
            let col = &mut self.fixed[column.index];
            while col.len() <= row {
                col.push(None);
            }
            col[row] = Some(v);
        }
        Ok((value, Cell { column, row }))
    }
    pub(crate) fn enable(&mut self, s: usize, offset: usize) -> Result<(), Error> {
        self.fits(offset)?;
        if self.mode == Mode::Shape {
            self.touch(2, s, offset);
            return Ok(());
        }
        let row = self.place(offset)?;
        let col = &mut self.selectors[s];
        while col.len() <= row {
            col.push(false);
        }
        col[row] = true;
        Ok(())
    }
    pub(crate) fn constant(&mut self, cell: Cell, c: F) -> Result<(), Error> {
        if self.mode == Mode::Shape {
            return Ok(());
        }
        if self.cs.constants.is_empty() {
            return Err(Error::NotEnoughColumnsForConstants);
        }
        if !self.cs.in_permutation(cell.column) {
            return Err(Error::ColumnNotInPermutation);
        }
        self.constants.push((cell, c));
        Ok(())
    }
    pub fn copy(&mut self, a: Cell, b: Cell) -> Result<(), Error> {
        if self.mode == Mode::Shape {
            return Ok(());
        }
        if !self.cs.in_permutation(a.column) || !self.cs.in_permutation(b.column) {
            return Err(Error::ColumnNotInPermutation);
        }
        self.copies.push((a, b));
        self.copy_origins.push(origin());
        Ok(())
    }
    pub fn begin_table(&mut self) {
        assert!(self.mode == Mode::Idle, "nested region");
        self.mode = Mode::Assign;
    }
    pub fn end_table(&mut self) {
        self.mode = Mode::Idle;
    }
    pub(crate) fn table_cell<VR>(&mut self, column: Column<Fixed>, offset: usize, to: &mut dyn FnMut() -> Value<VR>) -> Result<(), Error>
    where
        for<'vr> Assigned<F>: From<&'vr VR>,
    {
        self.fits(offset)?;
        let value = to();
        let v: Option<F> = value.as_ref().map(|v| Assigned::from(v).evaluate()).into_option();
        let v = match v {
            Some(v) => v,
            None => return Err(Error::Synthesis),
        };
        let col = &mut self.fixed[column.index];
        while col.len() <= offset {
            col.push(None);
        }
        col[offset] = Some(v);
        if offset + 1 > self.rows {
            self.rows = offset + 1;
        }
        Ok(())
    }
    pub fn advice_at(&self, col: usize, row: usize) -> Option<F> {
        match self.advice[col].get(row) {
            Some(Some(v)) => *v,
            _ => None,
        }
    }
    pub fn fixed_at(&self, col: usize, row: usize) -> F {
        match self.fixed[col].get(row) {
            Some(Some(v)) => *v,
            _ => F::ZERO,
        }
    }
    pub fn selector_at(&self, s: usize, row: usize) -> bool {
        match self.selectors[s].get(row) {
            Some(v) => *v,
            None => false,
        }
    }
}
