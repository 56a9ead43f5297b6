//! P11: the Grain generator against an independent implementation, by constant propagation.
use crate::p10::Gen;
use crate::symf::TinyF;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::{FromUniformBytes, PrimeField};
use poseidon_base::primitives::*;

/// the reference generator: an 80-bit shift register, output taken in pairs
pub struct Ref {
    s: [u8; 80],
    at: usize,
}
impl Ref {
    pub fn new(bits: usize, t: usize, r_f: usize, r_p: usize) -> Self {
        let mut s = [1u8; 80];
        let spec = [(1usize, 2usize), (0, 4), (bits, 12), (t, 12), (r_f, 10), (r_p, 10)];
        let mut k = 0;
        let mut f = 0;
        while f < 6 {
            let (v, n) = spec[f];
            let mut i = 0;
            while i < n {
                s[k] = ((v >> (n - 1 - i)) & 1) as u8;
                k += 1;
                i += 1;
            }
            f += 1;
        }
        let mut g = Ref { s, at: 0 };
        let mut i = 0;
        while i < 160 {
            g.step();
            i += 1;
        }
        g
    }
    fn step(&mut self) -> u8 {
        // circular buffer: bit k of the register is s[(at + k) % 80]
        let a = self.at;
        let b = self.s[(a + 62) % 80] ^ self.s[(a + 51) % 80] ^ self.s[(a + 38) % 80] ^ self.s[(a + 23) % 80] ^ self.s[(a + 13) % 80] ^ self.s[a];
        self.s[a] = b;
        self.at = (a + 1) % 80;
        b
    }
    fn bit(&mut self) -> u8 {
        while self.step() == 0 {
            self.step();
        }
        self.step()
    }
    /// `n` bits, most significant first, as little-endian bytes
    fn bytes(&mut self, n: usize) -> [u8; 64] {
        let mut o = [0u8; 64];
        let mut i = n;
        while i > 0 {
            i -= 1;
            o[i / 8] |= self.bit() << (i % 8);
        }
        o
    }
}
/// a field element from canonical bytes, None when the number is not below the modulus
pub trait Canon: FromUniformBytes<64> {
    fn canon(b: &[u8; 64]) -> Option<Self>;
}
impl<const Q: u64> Canon for TinyF<Q> {
    fn canon(b: &[u8; 64]) -> Option<Self> {
        let mut x = 0u64;
        let mut i = 8;
        while i > 0 {
            i -= 1;
            x = (x << 8) | b[i] as u64;
        }
        if x < Q {
            Some(TinyF(x))
        } else {
            None
        }
    }
}
impl Canon for Fr {
    fn canon(b: &[u8; 64]) -> Option<Self> {
        let mut r = [0u8; 32];
        r.copy_from_slice(&b[..32]);
        Fr::from_repr(r.into()).into()
    }
}
fn instance<F: Canon + Ord, const T: usize, const RF: usize, const RP: usize, const SEL: usize>()
where
    F: Eqi,
{
    let n = F::NUM_BITS as usize;
    let mut g = Ref::new(n, T, RF, RP);
    let (rc, mds, inv) = <Gen<RF, RP, SEL> as Spec<F, T, 2>>::constants();
    check_eq_i(rc.len(), RF + RP, "rounds", 0);
    let mut rejected = 0;
    for r in 0..RF + RP {
        for i in 0..T {
            let want = loop {
                if let Some(x) = F::canon(&g.bytes(n)) {
                    break x;
                }
                rejected += 1;
            };
            F::eqi(rc[r][i], want, "round constant", T * r + i);
        }
    }
    note("rejected candidates", rejected);
    let mut sel = SEL;
    let mut collided = 0;
    let pts = loop {
        let mut v = [F::ZERO; 24];
        for k in 0..2 * T {
            v[k] = F::from_uniform_bytes(&g.bytes(n));
        }
        let mut dup = false;
        for i in 0..2 * T {
            for j in 0..i {
                if F::same(v[i], v[j]) {
                    dup = true;
                }
            }
        }
        if dup {
            collided += 1;
        } else if sel == 0 {
            break v;
        } else {
            sel -= 1;
        }
    };
    note("colliding samples", collided);
    for i in 0..T {
        for j in 0..T {
            F::eqi(mds[i][j] * (pts[i] + pts[T + j]), F::ONE, "matrix entry times its denominator", T * i + j);
            let mut acc = F::ZERO;
            for k in 0..T {
                acc = acc + mds[i][k] * inv[k][j];
            }
            F::eqi(acc, if i == j { F::ONE } else { F::ZERO }, "matrix times inverse", T * i + j);
        }
    }
}
pub trait Eqi: Sized {
    fn eqi(a: Self, b: Self, label: &str, i: usize);
    fn same(a: Self, b: Self) -> bool;
}
impl<const Q: u64> Eqi for TinyF<Q> {
    fn eqi(a: Self, b: Self, label: &str, i: usize) {
        check_eq_i(a.0, b.0, label, i)
    }
    fn same(a: Self, b: Self) -> bool {
        a.0 == b.0
    }
}
impl Eqi for Fr {
    fn eqi(a: Self, b: Self, label: &str, i: usize) {
        check_eq(a, b, label, i)
    }
    fn same(a: Self, b: Self) -> bool {
        crate::verif::same(a, b)
    }
}
pub fn tiny_13_bits() {
    instance::<TinyF<4099>, 3, 8, 5, 0>();
    instance::<TinyF<8191>, 2, 4, 3, 1>();
}
pub fn tiny_8_bits_collisions() {
    instance::<TinyF<131>, 3, 2, 1, 0>();
    instance::<TinyF<131>, 3, 2, 1, 2>();
    instance::<TinyF<251>, 4, 2, 2, 1>();
}
// field sizes on both sides of byte boundaries
pub fn tiny_16_bits() {
    instance::<TinyF<65521>, 3, 4, 9, 0>();
}
pub fn tiny_17_bits() {
    instance::<TinyF<65537>, 5, 6, 3, 0>();
    instance::<TinyF<131071>, 3, 8, 5, 0>();
}
pub fn tiny_25_bits() {
    instance::<TinyF<16777259>, 2, 2, 2, 0>();
}
// widths and round counts that fill more bits of their fields
pub fn tiny_many_rounds() {
    instance::<TinyF<509>, 2, 2, 257, 0>();
}
pub fn tiny_many_full_rounds() {
    instance::<TinyF<509>, 2, 258, 0, 0>();
}
pub fn tiny_wide() {
    instance::<TinyF<2147483647>, 10, 2, 2, 0>();
}
pub fn bn_t3() {
    instance::<Fr, 3, 2, 1, 0>();
}
pub fn bn_t2_second_matrix() {
    instance::<Fr, 2, 2, 1, 1>();
}
pub fn bn_t5() {
    instance::<Fr, 5, 2, 0, 0>();
}
