use crate::plonk::{Advice, Any, Assigned, Circuit, Column, Error, Fixed, Instance, Selector, TableColumn};
use crate::record::{Mode, Recorder};
use ff::Field;
use std::marker::PhantomData;
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Copy, Debug)]
pub struct Value<V> {
    inner: Option<V>,
}
impl<V> Default for Value<V> {
    fn default() -> Self {
        Self::unknown()
    }
}
impl<V> Value<V> {
    pub const fn unknown() -> Self {
        Self { inner: None }
    }
    pub const fn known(value: V) -> Self {
        Self { inner: Some(value) }
    }
    pub fn into_option(self) -> Option<V> {
        self.inner
    }
    pub fn as_ref(&self) -> Value<&V> {
        Value { inner: self.inner.as_ref() }
    }
    pub fn as_mut(&mut self) -> Value<&mut V> {
        Value { inner: self.inner.as_mut() }
    }
    pub fn assert_if_known<F: FnOnce(&V) -> bool>(&self, f: F) {
        if let Some(v) = self.inner.as_ref() {
            assert!(f(v));
        }
    }
    pub fn error_if_known_and<F: FnOnce(&V) -> bool>(&self, f: F) -> Result<(), Error> {
        match self.inner.as_ref() {
            Some(v) if f(v) => Err(Error::Synthesis),
            _ => Ok(()),
        }
    }
    pub fn map<W, F: FnOnce(V) -> W>(self, f: F) -> Value<W> {
        Value { inner: self.inner.map(f) }
    }
    pub fn and_then<W, F: FnOnce(V) -> Value<W>>(self, f: F) -> Value<W> {
        match self.inner {
            Some(v) => f(v),
            None => Value::unknown(),
        }
    }
    pub fn zip<W>(self, other: Value<W>) -> Value<(V, W)> {
        Value { inner: self.inner.zip(other.inner) }
    }
}
impl<V: Copy> Value<&V> {
    pub fn copied(self) -> Value<V> {
        Value { inner: self.inner.copied() }
    }
}
impl<V: Clone> Value<&V> {
    pub fn cloned(self) -> Value<V> {
        Value { inner: self.inner.cloned() }
    }
}
impl<V, const LEN: usize> Value<[V; LEN]> {
    pub fn transpose_array(self) -> [Value<V>; LEN] {
        let mut ret = [(); LEN].map(|_| Value::unknown());
        if let Some(arr) = self.inner {
            for (entry, value) in ret.iter_mut().zip(arr) {
                *entry = Value::known(value);
            }
        }
        ret
    }
}
impl<V, I> Value<I>
where
    I: IntoIterator<Item = V>,
    I::IntoIter: ExactSizeIterator,
{
    pub fn transpose_vec(self, length: usize) -> Vec<Value<V>> {
        match self.inner {
            Some(values) => {
                let values = values.into_iter();
                assert_eq!(values.len(), length);
                values.map(Value::known).collect()
            }
            None => (0..length).map(|_| Value::unknown()).collect(),
        }
    }
}
impl<F: Field> Value<Assigned<F>> {
    pub fn evaluate(self) -> Value<F> {
        self.map(|v| v.evaluate())
    }
}
impl<A, V: FromIterator<A>> FromIterator<Value<A>> for Value<V> {
    fn from_iter<I: IntoIterator<Item = Value<A>>>(iter: I) -> Self {
        Self { inner: iter.into_iter().map(|v| v.inner).collect() }
    }
}
impl<V: Neg> Neg for Value<V> {
    type Output = Value<V::Output>;
    fn neg(self) -> Self::Output {
        Value { inner: self.inner.map(|v| -v) }
    }
}
macro_rules! op {
    ($t:ident, $f:ident) => {
        impl<V: $t<W>, W> $t<Value<W>> for Value<V> {
            type Output = Value<V::Output>;
            fn $f(self, rhs: Value<W>) -> Self::Output {
                Value { inner: self.inner.zip(rhs.inner).map(|(a, b)| a.$f(b)) }
            }
        }
        impl<'w, V: $t<&'w W>, W> $t<Value<&'w W>> for &Value<V>
        where
            V: Clone,
        {
            type Output = Value<V::Output>;
            fn $f(self, rhs: Value<&'w W>) -> Self::Output {
                Value { inner: self.inner.clone().zip(rhs.inner).map(|(a, b)| a.$f(b)) }
            }
        }
        impl<'w, V: $t<&'w W> + Clone, W> $t<&'w Value<W>> for &Value<V> {
            type Output = Value<V::Output>;
            fn $f(self, rhs: &'w Value<W>) -> Self::Output {
                Value { inner: self.inner.clone().zip(rhs.inner.as_ref()).map(|(a, b)| a.$f(b)) }
            }
        }
        impl<'w, V: $t<&'w W>, W> $t<&'w Value<W>> for Value<V> {
            type Output = Value<V::Output>;
            fn $f(self, rhs: &'w Value<W>) -> Self::Output {
                Value { inner: self.inner.zip(rhs.inner.as_ref()).map(|(a, b)| a.$f(b)) }
            }
        }
    };
}
op!(Add, add);
op!(Sub, sub);
op!(Mul, mul);
impl<F: Field> Value<F> {
    pub fn square(self) -> Value<F> {
        self.map(|v| v.square())
    }
    pub fn cube(self) -> Value<F> {
        self.map(|v| v.square() * v)
    }
    pub fn to_field(&self) -> Value<Assigned<F>> {
        self.as_ref().map(|v| Assigned::from(v))
    }
    pub fn into_field(self) -> Value<Assigned<F>> {
        self.map(|v| Assigned::from(v))
    }
    pub fn double(self) -> Value<F> {
        self.map(|v| v.double())
    }
    pub fn invert(self) -> Value<F> {
        self.map(|v| v.invert().unwrap_or(F::ZERO))
    }
}

pub trait Chip<F: Field>: Sized {
    type Config: std::fmt::Debug + Clone;
    type Loaded: std::fmt::Debug + Clone;
    fn config(&self) -> &Self::Config;
    fn loaded(&self) -> &Self::Loaded;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RegionIndex(pub usize);
impl std::ops::Deref for RegionIndex {
    type Target = usize;
    fn deref(&self) -> &usize {
        &self.0
    }
}
/// A cell, by column and absolute row (halo2 names the region and an offset; the recorder knows where regions start).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cell {
    pub column: Column<Any>,
    pub row: usize,
}

#[derive(Clone, Debug)]
pub struct AssignedCell<V, F: Field> {
    value: Value<V>,
    cell: Cell,
    _marker: PhantomData<F>,
}
impl<V, F: Field> AssignedCell<V, F> {
    pub fn value(&self) -> Value<&V> {
        self.value.as_ref()
    }
    pub fn cell(&self) -> Cell {
        self.cell
    }
}
impl<V, F: Field> AssignedCell<V, F>
where
    for<'v> Assigned<F>: From<&'v V>,
{
    pub fn value_field(&self) -> Value<Assigned<F>> {
        self.value.as_ref().map(|v| Assigned::from(v))
    }
}
impl<F: Field> AssignedCell<Assigned<F>, F> {
    pub fn evaluate(self) -> AssignedCell<F, F> {
        AssignedCell { value: self.value.evaluate(), cell: self.cell, _marker: PhantomData }
    }
}
impl<V: Clone, F: Field> AssignedCell<V, F>
where
    for<'v> Assigned<F>: From<&'v V>,
{
    /// Copies the value to a given advice cell and constrains them to be equal.
    pub fn copy_advice<A, AR>(&self, annotation: A, region: &mut Region<'_, F>, column: Column<Advice>, offset: usize) -> Result<Self, Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let value = self.value.clone();
        let to = region.assign_advice(annotation, column, offset, || value.clone())?;
        region.constrain_equal(to.cell(), self.cell)?;
        Ok(to)
    }
}

pub struct Region<'r, F: Field> {
    pub(crate) rec: &'r mut Recorder<F>,
}
impl<'r, F: Field> Region<'r, F> {
    pub fn assign_advice<V, VR, A, AR>(&mut self, _annotation: A, column: Column<Advice>, offset: usize, mut to: V) -> Result<AssignedCell<VR, F>, Error>
    where
        V: FnMut() -> Value<VR>,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let (value, cell) = self.rec.assign(column.into(), offset, true, &mut to)?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn assign_advice_from_constant<VR, A, AR>(&mut self, _annotation: A, column: Column<Advice>, offset: usize, constant: VR) -> Result<AssignedCell<VR, F>, Error>
    where
        VR: Clone,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let c: F = Assigned::from(&constant).evaluate();
        let value = constant.clone();
        let (value, cell) = self.rec.assign(column.into(), offset, true, &mut || Value::known(value.clone()))?;
        self.rec.constant(cell, c)?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub fn assign_fixed<V, VR, A, AR>(&mut self, _annotation: A, column: Column<Fixed>, offset: usize, mut to: V) -> Result<AssignedCell<VR, F>, Error>
    where
        V: FnMut() -> Value<VR>,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        let (value, cell) = self.rec.assign(column.into(), offset, false, &mut to)?;
        Ok(AssignedCell { value, cell, _marker: PhantomData })
    }
    pub(crate) fn enable_selector<A, AR>(&mut self, _annotation: A, selector: &Selector, offset: usize) -> Result<(), Error>
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
        self.rec.enable(selector.0, offset)
    }
    pub fn name_column<A, AR, T>(&mut self, _annotation: A, _column: T)
    where
        A: Fn() -> AR,
        AR: Into<String>,
        T: Into<Column<Any>>,
    {
    }
    pub fn constrain_constant<VR>(&mut self, cell: Cell, constant: VR) -> Result<(), Error>
    where
        for<'vr> Assigned<F>: From<&'vr VR>,
    {
        self.rec.constant(cell, Assigned::from(&constant).evaluate())
    }
    pub fn constrain_equal(&mut self, left: Cell, right: Cell) -> Result<(), Error> {
        self.rec.copy(left, right)
    }
    pub fn global_offset(&self, row_offset: usize) -> usize {
        self.rec.start + row_offset
    }
}

pub struct Table<'r, F: Field> {
    rec: &'r mut Recorder<F>,
}
impl<'r, F: Field> Table<'r, F> {
    pub fn assign_cell<V, VR, A, AR>(&mut self, _annotation: A, column: TableColumn, offset: usize, mut to: V) -> Result<(), Error>
    where
        V: FnMut() -> Value<VR>,
        for<'vr> Assigned<F>: From<&'vr VR>,
        A: Fn() -> AR,
        AR: Into<String>,
    {
        self.rec.table_cell(column.inner, offset, &mut to)
    }
}

pub trait Layouter<F: Field> {
    type Root: Layouter<F>;
    fn recorder(&mut self) -> &mut Recorder<F>;
    fn get_root(&mut self) -> &mut Self::Root;
    fn push_namespace<NR, N>(&mut self, _name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _gadget_name: Option<String>) {}

    fn assign_region<A, AR, N, NR>(&mut self, _name: N, mut assignment: A) -> Result<AR, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let rec = self.recorder();
        rec.begin_shape();
        let r = assignment(Region { rec: &mut *rec });
        let (start, _) = rec.end_shape();
        let _ = r?;
        rec.begin(start, None);
        let r = assignment(Region { rec: &mut *rec });
        rec.end();
        r
    }
    fn assign_regions<A, AR, N, NR>(&mut self, _name: N, mut assignments: Vec<A>) -> Result<Vec<AR>, Error>
    where
        A: FnMut(Region<'_, F>) -> Result<AR, Error> + Send,
        AR: Send,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let rec = self.recorder();
        // the shapes of the sub-regions, one after the other
        let mut ranges = Vec::new();
        for a in assignments.iter_mut() {
            rec.begin_shape();
            let r = a(Region { rec: &mut *rec });
            let range = rec.end_shape();
            let _ = r?;
            ranges.push(range);
        }
        rec.fork(&ranges)?;
        // each sub-region is confined to its rows
        let mut out = Vec::new();
        for (a, (start, rows)) in assignments.iter_mut().zip(ranges.into_iter()) {
            rec.begin(start, Some(rows));
            let r = a(Region { rec: &mut *rec });
            rec.end();
            out.push(r?);
        }
        Ok(out)
    }
    fn assign_table<A, N, NR>(&mut self, _name: N, mut assignment: A) -> Result<(), Error>
    where
        A: FnMut(Table<'_, F>) -> Result<(), Error>,
        N: Fn() -> NR,
        NR: Into<String>,
    {
        let rec = self.recorder();
        rec.begin_table();
        let r = assignment(Table { rec: &mut *rec });
        rec.end_table();
        r
    }
    fn constrain_instance(&mut self, cell: Cell, column: Column<Instance>, row: usize) -> Result<(), Error> {
        let to = Cell { column: column.into(), row };
        self.recorder().copy(cell, to)
    }
    fn namespace<NR, N>(&mut self, _name_fn: N) -> NamespacedLayouter<'_, F, Self::Root>
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        NamespacedLayouter(self.get_root(), PhantomData)
    }
}

#[derive(Debug)]
pub struct NamespacedLayouter<'a, F: Field, L: Layouter<F> + 'a>(&'a mut L, PhantomData<F>);
impl<'a, F: Field, L: Layouter<F> + 'a> Layouter<F> for NamespacedLayouter<'a, F, L> {
    type Root = L::Root;
    fn recorder(&mut self) -> &mut Recorder<F> {
        self.0.recorder()
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self.0.get_root()
    }
}
impl<F: Field> Layouter<F> for Recorder<F> {
    type Root = Self;
    fn recorder(&mut self) -> &mut Recorder<F> {
        self
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
impl<'a, F: Field> Layouter<F> for &'a mut Recorder<F> {
    type Root = Recorder<F>;
    fn recorder(&mut self) -> &mut Recorder<F> {
        self
    }
    fn get_root(&mut self) -> &mut Recorder<F> {
        self
    }
}

#[derive(Debug)]
pub struct SimpleFloorPlanner;
impl SimpleFloorPlanner {
    /// declares and assigns a circuit
    pub fn run<F: Field, C: Circuit<F>>(c: &C) -> Result<Recorder<F>, Error> {
        let mut cs = crate::plonk::ConstraintSystem::default();
        let config = C::configure(&mut cs);
        let mut rec = Recorder::new(cs);
        c.synthesize(config, &mut rec)?;
        let _ = Mode::Idle;
        Ok(rec)
    }
}
pub mod layouter {}
#[allow(unused)]
fn any(c: Column<Any>) -> Any {
    *c.column_type()
}
