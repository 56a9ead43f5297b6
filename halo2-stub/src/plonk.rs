use crate::poly::Rotation;
use core::fmt;
use ff::Field;
use std::ops::{Add, Mul, Neg, Sub};
use std::rc::Rc;

#[derive(Debug)]
pub enum Error {
    Synthesis,
    InvalidInstances,
    ConstraintSystemFailure,
    BoundsFailure,
    Opening,
    NotEnoughRowsAvailable { current_k: u32 },
    InstanceTooLarge,
    NotEnoughColumnsForConstants,
    /// not enabled for equality, or an assignment outside the permitted rows
    ColumnNotInPermutation,
    InvalidRange(usize),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}

pub trait ColumnType: 'static + Sized + Copy + fmt::Debug + Into<Any> {}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Advice;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Fixed;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instance;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Any {
    Advice,
    Fixed,
    Instance,
}
impl ColumnType for Advice {}
impl ColumnType for Fixed {}
impl ColumnType for Instance {}
impl ColumnType for Any {}
impl From<Advice> for Any {
    fn from(_: Advice) -> Any {
        Any::Advice
    }
}
impl From<Fixed> for Any {
    fn from(_: Fixed) -> Any {
        Any::Fixed
    }
}
impl From<Instance> for Any {
    fn from(_: Instance) -> Any {
        Any::Instance
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Column<C: ColumnType> {
    pub(crate) index: usize,
    pub(crate) column_type: C,
}
impl<C: ColumnType> Column<C> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn column_type(&self) -> &C {
        &self.column_type
    }
}
impl From<Column<Advice>> for Column<Any> {
    fn from(c: Column<Advice>) -> Self {
        Column { index: c.index, column_type: Any::Advice }
    }
}
impl From<Column<Fixed>> for Column<Any> {
    fn from(c: Column<Fixed>) -> Self {
        Column { index: c.index, column_type: Any::Fixed }
    }
}
impl From<Column<Instance>> for Column<Any> {
    fn from(c: Column<Instance>) -> Self {
        Column { index: c.index, column_type: Any::Instance }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Selector(pub usize, pub bool);
impl Selector {
    pub fn enable<F: Field>(&self, region: &mut crate::circuit::Region<'_, F>, offset: usize) -> Result<(), Error> {
        region.enable_selector(|| "", self, offset)
    }
    pub fn is_simple(&self) -> bool {
        self.1
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TableColumn {
    pub inner: Column<Fixed>,
}
impl TableColumn {
    pub fn inner(&self) -> Column<Fixed> {
        self.inner
    }
}

/// A cell polynomial's atom.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Query {
    Selector(usize),
    Fixed(usize, i32),
    Advice(usize, i32),
    Instance(usize, i32),
}

#[derive(Clone, Debug)]
pub enum Expression<F> {
    Constant(F),
    Atom(Query),
    Negated(Rc<Node<F>>),
    Sum(Rc<Node<F>>, Rc<Node<F>>),
    Product(Rc<Node<F>>, Rc<Node<F>>),
    Scaled(Rc<Node<F>>, F),
}
#[derive(Debug)]
pub struct Node<F> {
    pub e: Expression<F>,
    pub degree: usize,
    /// scratch space of whoever walks the expression
    pub mark: std::cell::Cell<usize>,
}
impl<F: Field> Expression<F> {
    fn node(self) -> Rc<Node<F>> {
        let degree = self.degree();
        Rc::new(Node { e: self, degree, mark: std::cell::Cell::new(0) })
    }
    pub fn degree(&self) -> usize {
        match self {
            Expression::Constant(_) => 0,
            Expression::Atom(_) => 1,
            Expression::Negated(a) => a.degree,
            Expression::Sum(a, b) => {
                if a.degree > b.degree {
                    a.degree
                } else {
                    b.degree
                }
            }
            Expression::Product(a, b) => a.degree + b.degree,
            Expression::Scaled(a, _) => a.degree,
        }
    }
    pub fn square(self) -> Self {
        self.clone() * self
    }
    fn contains_simple_selector(&self, simple: &[bool]) -> bool {
        match self {
            Expression::Constant(_) => false,
            Expression::Atom(Query::Selector(i)) => simple[*i],
            Expression::Atom(_) => false,
            Expression::Negated(a) | Expression::Scaled(a, _) => a.e.contains_simple_selector(simple),
            Expression::Sum(a, b) | Expression::Product(a, b) => a.e.contains_simple_selector(simple) || b.e.contains_simple_selector(simple),
        }
    }
}
impl<F: Field> Neg for Expression<F> {
    type Output = Expression<F>;
    fn neg(self) -> Self {
        Expression::Negated(self.node())
    }
}
impl<F: Field> Add for Expression<F> {
    type Output = Expression<F>;
    fn add(self, o: Self) -> Self {
        Expression::Sum(self.node(), o.node())
    }
}
impl<F: Field> Sub for Expression<F> {
    type Output = Expression<F>;
    fn sub(self, o: Self) -> Self {
        let n = o.node();
        Expression::Sum(self.node(), Expression::Negated(n).node())
    }
}
impl<F: Field> Mul for Expression<F> {
    type Output = Expression<F>;
    fn mul(self, o: Self) -> Self {
        Expression::Product(self.node(), o.node())
    }
}
impl<F: Field> Mul<F> for Expression<F> {
    type Output = Expression<F>;
    fn mul(self, o: F) -> Self {
        Expression::Scaled(self.node(), o)
    }
}
impl<F: Field> std::iter::Sum<Self> for Expression<F> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.reduce(|a, b| a + b).unwrap_or(Expression::Constant(F::ZERO))
    }
}
impl<F: Field> std::iter::Product<Self> for Expression<F> {
    fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.reduce(|a, b| a * b).unwrap_or(Expression::Constant(F::ONE))
    }
}

#[derive(Debug)]
pub struct Constraint<F: Field> {
    pub name: &'static str,
    pub poly: Expression<F>,
}
impl<F: Field> From<Expression<F>> for Constraint<F> {
    fn from(poly: Expression<F>) -> Self {
        Constraint { name: "", poly }
    }
}
impl<F: Field> From<(&'static str, Expression<F>)> for Constraint<F> {
    fn from((name, poly): (&'static str, Expression<F>)) -> Self {
        Constraint { name, poly }
    }
}
impl<F: Field> From<Expression<F>> for Vec<Constraint<F>> {
    fn from(poly: Expression<F>) -> Self {
        vec![Constraint { name: "", poly }]
    }
}
/// A set of polynomial constraints with a common selector.
#[derive(Debug)]
pub struct Constraints<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> {
    selector: Expression<F>,
    constraints: Iter,
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> Constraints<F, C, Iter> {
    pub fn with_selector(selector: Expression<F>, constraints: Iter) -> Self {
        Constraints { selector, constraints }
    }
}
impl<F: Field, C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>> IntoIterator for Constraints<F, C, Iter> {
    type Item = Constraint<F>;
    type IntoIter = std::vec::IntoIter<Constraint<F>>;
    fn into_iter(self) -> Self::IntoIter {
        let mut out = Vec::new();
        for c in self.constraints {
            let c: Constraint<F> = c.into();
            out.push(Constraint { name: c.name, poly: self.selector.clone() * c.poly });
        }
        out.into_iter()
    }
}

#[derive(Debug)]
pub struct VirtualCells<'a, F: Field> {
    pub(crate) cs: &'a mut ConstraintSystem<F>,
}
impl<'a, F: Field> VirtualCells<'a, F> {
    pub fn query_selector(&mut self, s: Selector) -> Expression<F> {
        Expression::Atom(Query::Selector(s.0))
    }
    pub fn query_fixed(&mut self, c: Column<Fixed>, at: Rotation) -> Expression<F> {
        assert!(c.index < self.cs.num_fixed_columns);
        Expression::Atom(Query::Fixed(c.index, at.0))
    }
    pub fn query_advice(&mut self, c: Column<Advice>, at: Rotation) -> Expression<F> {
        assert!(c.index < self.cs.num_advice_columns);
        Expression::Atom(Query::Advice(c.index, at.0))
    }
    pub fn query_instance(&mut self, c: Column<Instance>, at: Rotation) -> Expression<F> {
        assert!(c.index < self.cs.num_instance_columns);
        Expression::Atom(Query::Instance(c.index, at.0))
    }
    pub fn query_any<C: Into<Column<Any>>>(&mut self, c: C, at: Rotation) -> Expression<F> {
        let c: Column<Any> = c.into();
        match c.column_type {
            Any::Advice => Expression::Atom(Query::Advice(c.index, at.0)),
            Any::Fixed => Expression::Atom(Query::Fixed(c.index, at.0)),
            Any::Instance => Expression::Atom(Query::Instance(c.index, at.0)),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Gate<F> {
    pub name: &'static str,
    pub origin: usize,
    pub polys: Vec<Expression<F>>,
}
#[derive(Clone, Debug)]
pub struct Lookup<F> {
    pub name: &'static str,
    pub origin: usize,
    pub inputs: Vec<(Expression<F>, TableColumn)>,
}
/// What a circuit declares.
#[derive(Debug)]
pub struct ConstraintSystem<F: Field> {
    pub num_advice_columns: usize,
    pub num_fixed_columns: usize,
    pub num_instance_columns: usize,
    /// per selector: simple?
    pub selectors: Vec<bool>,
    pub gates: Vec<Gate<F>>,
    pub lookups: Vec<Lookup<F>>,
    pub equality: Vec<Column<Any>>,
    pub constants: Vec<Column<Fixed>>,
    pub table_columns: Vec<Column<Fixed>>,
}
impl<F: Field> Default for ConstraintSystem<F> {
    fn default() -> Self {
        ConstraintSystem {
            num_advice_columns: 0,
            num_fixed_columns: 0,
            num_instance_columns: 0,
            selectors: Vec::new(),
            gates: Vec::new(),
            lookups: Vec::new(),
            equality: Vec::new(),
            constants: Vec::new(),
            table_columns: Vec::new(),
        }
    }
}
impl<F: Field> ConstraintSystem<F> {
    pub fn advice_column(&mut self) -> Column<Advice> {
        self.num_advice_columns += 1;
        Column { index: self.num_advice_columns - 1, column_type: Advice }
    }
    pub fn fixed_column(&mut self) -> Column<Fixed> {
        self.num_fixed_columns += 1;
        Column { index: self.num_fixed_columns - 1, column_type: Fixed }
    }
    pub fn instance_column(&mut self) -> Column<Instance> {
        self.num_instance_columns += 1;
        Column { index: self.num_instance_columns - 1, column_type: Instance }
    }
    pub fn selector(&mut self) -> Selector {
        self.selectors.push(true);
        Selector(self.selectors.len() - 1, true)
    }
    pub fn complex_selector(&mut self) -> Selector {
        self.selectors.push(false);
        Selector(self.selectors.len() - 1, false)
    }
    pub fn lookup_table_column(&mut self) -> TableColumn {
        let inner = self.fixed_column();
        self.table_columns.push(inner);
        TableColumn { inner }
    }
    pub fn enable_equality<C: Into<Column<Any>>>(&mut self, c: C) {
        let c: Column<Any> = c.into();
        if !self.in_permutation(c) {
            self.equality.push(c);
        }
    }
    pub fn in_permutation(&self, c: Column<Any>) -> bool {
        for x in self.equality.iter() {
            if *x == c {
                return true;
            }
        }
        false
    }
    pub fn enable_constant(&mut self, c: Column<Fixed>) {
        self.constants.push(c);
        self.enable_equality(c);
    }
    pub fn create_gate<C: Into<Constraint<F>>, Iter: IntoIterator<Item = C>>(&mut self, name: &'static str, constraints: impl FnOnce(&mut VirtualCells<'_, F>) -> Iter) {
        let mut cells = VirtualCells { cs: self };
        let cs = constraints(&mut cells);
        let mut polys = Vec::new();
        for c in cs {
            let c: Constraint<F> = c.into();
            polys.push(c.poly);
        }
        assert!(!polys.is_empty(), "Gates must contain at least one constraint.");
        self.gates.push(Gate { name, origin: crate::record::origin(), polys });
    }
    pub fn lookup(&mut self, name: &'static str, table_map: impl FnOnce(&mut VirtualCells<'_, F>) -> Vec<(Expression<F>, TableColumn)>) -> usize {
        let mut cells = VirtualCells { cs: self };
        let inputs = table_map(&mut cells);
        for (e, _) in inputs.iter() {
            if e.contains_simple_selector(&self.selectors) {
                panic!("expression containing simple selector supplied to lookup argument");
            }
        }
        self.lookups.push(Lookup { name, origin: crate::record::origin(), inputs });
        self.lookups.len() - 1
    }
    pub fn annotate_lookup_column<A, AR>(&mut self, _column: TableColumn, _annotation: A)
    where
        A: Fn() -> AR,
        AR: Into<String>,
    {
    }
    pub fn annotate_lookup_any_column<A, AR, T>(&mut self, _column: T, _annotation: A)
    where
        A: Fn() -> AR,
        AR: Into<String>,
        T: Into<Column<Any>>,
    {
    }
    /// the largest degree of a gate
    pub fn degree(&self) -> usize {
        let mut d = 3;
        for g in self.gates.iter() {
            for p in g.polys.iter() {
                if p.degree() > d {
                    d = p.degree();
                }
            }
        }
        d
    }
}

/// A value that is assigned to a cell (halo2 keeps a numerator and a denominator; here it is evaluated).
#[derive(Clone, Copy, Debug)]
pub enum Assigned<F> {
    Zero,
    Trivial(F),
    Rational(F, F),
}
impl<F: Field> From<&Assigned<F>> for Assigned<F> {
    fn from(v: &Assigned<F>) -> Self {
        *v
    }
}
impl<F: Field> From<&F> for Assigned<F> {
    fn from(v: &F) -> Self {
        Assigned::Trivial(*v)
    }
}
impl<F: Field> From<F> for Assigned<F> {
    fn from(v: F) -> Self {
        Assigned::Trivial(v)
    }
}
impl<F: Field> From<(F, F)> for Assigned<F> {
    fn from((n, d): (F, F)) -> Self {
        Assigned::Rational(n, d)
    }
}
impl<F: Field> Assigned<F> {
    pub fn numerator(&self) -> F {
        match self {
            Assigned::Zero => F::ZERO,
            Assigned::Trivial(x) => *x,
            Assigned::Rational(n, _) => *n,
        }
    }
    pub fn denominator(&self) -> Option<F> {
        match self {
            Assigned::Rational(_, d) => Some(*d),
            _ => None,
        }
    }
    pub fn is_zero_vartime(&self) -> bool {
        bool::from(self.evaluate().is_zero())
    }
    pub fn invert(&self) -> Self {
        match self {
            Assigned::Zero => Assigned::Zero,
            Assigned::Trivial(x) => Assigned::Rational(F::ONE, *x),
            Assigned::Rational(n, d) => Assigned::Rational(*d, *n),
        }
    }
    pub fn evaluate(self) -> F {
        match self {
            Assigned::Zero => F::ZERO,
            Assigned::Trivial(x) => x,
            Assigned::Rational(n, d) => n * d.invert().unwrap_or(F::ZERO),
        }
    }
}

pub trait Circuit<F: Field> {
    type Config: Clone;
    type FloorPlanner;
    fn without_witnesses(&self) -> Self;
    fn configure(meta: &mut ConstraintSystem<F>) -> Self::Config;
    fn synthesize(&self, config: Self::Config, layouter: impl crate::circuit::Layouter<F>) -> Result<(), Error>;
}
