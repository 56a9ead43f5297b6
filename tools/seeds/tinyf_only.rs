
use core::iter::{Product, Sum};
use core::ops::*;
use rand_core::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
#[derive(Clone, Copy, Debug)]
pub struct TinyF<const Q: u64>(pub u64);
macro_rules! ops {
    ([$($g:tt)*] $t:ty, $add:expr, $sub:expr, $mul:expr, $neg:expr) => {
        impl<$($g)*> Add for $t { type Output = Self; fn add(self, o: Self) -> Self { $add(self, o) } }
        impl<$($g)*> Sub for $t { type Output = Self; fn sub(self, o: Self) -> Self { $sub(self, o) } }
        impl<$($g)*> Mul for $t { type Output = Self; fn mul(self, o: Self) -> Self { $mul(self, o) } }
        impl<$($g)*> Neg for $t { type Output = Self; fn neg(self) -> Self { $neg(self) } }
        impl<'x, $($g)*> Add<&'x $t> for $t { type Output = Self; fn add(self, o: &'x $t) -> Self { $add(self, *o) } }
        impl<'x, $($g)*> Sub<&'x $t> for $t { type Output = Self; fn sub(self, o: &'x $t) -> Self { $sub(self, *o) } }
        impl<'x, $($g)*> Mul<&'x $t> for $t { type Output = Self; fn mul(self, o: &'x $t) -> Self { $mul(self, *o) } }
        impl<$($g)*> AddAssign for $t { fn add_assign(&mut self, o: Self) { *self = $add(*self, o) } }
        impl<$($g)*> SubAssign for $t { fn sub_assign(&mut self, o: Self) { *self = $sub(*self, o) } }
        impl<$($g)*> MulAssign for $t { fn mul_assign(&mut self, o: Self) { *self = $mul(*self, o) } }
        impl<'x, $($g)*> AddAssign<&'x $t> for $t { fn add_assign(&mut self, o: &'x $t) { *self = $add(*self, *o) } }
        impl<'x, $($g)*> SubAssign<&'x $t> for $t { fn sub_assign(&mut self, o: &'x $t) { *self = $sub(*self, *o) } }
        impl<'x, $($g)*> MulAssign<&'x $t> for $t { fn mul_assign(&mut self, o: &'x $t) { *self = $mul(*self, *o) } }
        impl<$($g)*> Sum for $t { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
        impl<$($g)*> Product for $t { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
        impl<'x, $($g)*> Sum<&'x $t> for $t { fn sum<I: Iterator<Item = &'x $t>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
        impl<'x, $($g)*> Product<&'x $t> for $t { fn product<I: Iterator<Item = &'x $t>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
    };
}
fn nope<T>() -> T {
    unimplemented!()
}
ops!([const Q: u64] TinyF<Q>,
    |a: Self, b: Self| TinyF((a.0 + b.0) % Q), |a: Self, b: Self| TinyF((a.0 + Q - b.0) % Q),
    |a: Self, b: Self| TinyF((a.0 * b.0) % Q), |a: Self| TinyF((Q - a.0) % Q));

impl<const Q: u64> PartialEq for TinyF<Q> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<const Q: u64> Eq for TinyF<Q> {}
impl<const Q: u64> PartialOrd for TinyF<Q> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl<const Q: u64> Ord for TinyF<Q> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<const Q: u64> Default for TinyF<Q> {
    fn default() -> Self {
        TinyF(0)
    }
}
impl<const Q: u64> ConditionallySelectable for TinyF<Q> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.unwrap_u8() == 1 {
            *b
        } else {
            *a
        }
    }
}
impl<const Q: u64> ConstantTimeEq for TinyF<Q> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self.0 == o.0) as u8)
    }
}
impl<const Q: u64> From<u64> for TinyF<Q> {
    fn from(x: u64) -> Self {
        TinyF(x % Q)
    }
}
impl<const Q: u64> Field for TinyF<Q> {
    const ZERO: Self = TinyF(0);
    const ONE: Self = TinyF(1);
    fn random(_r: impl RngCore) -> Self {
        nope()
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        let (mut r, mut e, mut b) = (1u64, Q - 2, self.0);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % Q;
            }
            b = b * b % Q;
            e >>= 1;
        }
        CtOption::new(TinyF(r), Choice::from((self.0 != 0) as u8))
    }
    fn sqrt_ratio(_n: &Self, _d: &Self) -> (Choice, Self) {
        nope()
    }
}
pub const fn bits(q: u64) -> u32 {
    64 - q.leading_zeros()
}
impl<const Q: u64> PrimeField for TinyF<Q> {
    type Repr = [u8; 8];
    fn from_repr(r: [u8; 8]) -> CtOption<Self> {
        let x = u64::from_le_bytes(r);
        CtOption::new(TinyF(x % Q), Choice::from((x < Q) as u8))
    }
    fn to_repr(&self) -> [u8; 8] {
        self.0.to_le_bytes()
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = "tiny";
    const NUM_BITS: u32 = bits(Q);
    const CAPACITY: u32 = bits(Q) - 1;
    const TWO_INV: Self = TinyF((Q + 1) / 2);
    const MULTIPLICATIVE_GENERATOR: Self = TinyF(1);
    const S: u32 = 1;
    const ROOT_OF_UNITY: Self = TinyF(1);
    const ROOT_OF_UNITY_INV: Self = TinyF(1);
    const DELTA: Self = TinyF(1);
}
impl<const Q: u64> FromUniformBytes<64> for TinyF<Q> {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        let mut acc = 0u64;
        let mut i = 64;
        while i > 0 {
            i -= 1;
            acc = (acc * 256 + b[i] as u64) % Q;
        }
        TinyF(acc)
    }
}
