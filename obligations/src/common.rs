//! Specifications with arbitrary tables, and the shipped ones described independently.
use crate::spec::*;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::FromUniformBytes;
use poseidon_base::primitives::*;

/// A user-defined specification: arbitrary round constants and MDS matrix, uninterpreted S-box.
#[derive(Clone, Copy, Debug)]
pub struct Tiny<const RF: usize, const RP: usize>;

pub fn sbox<F>(x: F) -> F {
    opaque("sbox", x)
}
pub fn var_rc<F: FromUniformBytes<64>, const T: usize>(rows: usize) -> Vec<[F; T]> {
    let mut v = Vec::with_capacity(rows);
    for r in 0..rows {
        let mut x = [F::ZERO; T];
        for i in 0..T {
            x[i] = any_i("rc", r * T + i);
        }
        v.push(x);
    }
    v
}
pub fn var_mds<F: FromUniformBytes<64>, const T: usize>(name: &str) -> [[F; T]; T] {
    let mut x = [[F::ZERO; T]; T];
    for i in 0..T {
        for j in 0..T {
            x[i][j] = any_i(name, i * T + j);
        }
    }
    x
}
impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize, const RF: usize, const RP: usize> Spec<F, T, RATE> for Tiny<RF, RP> {
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(val: F) -> F {
        sbox(val)
    }
    fn secure_mds() -> usize {
        0
    }
    fn constants() -> (Vec<[F; T]>, Mds<F, T>, Mds<F, T>) {
        (var_rc(RF + RP), var_mds("mds"), var_mds("mdsinv"))
    }
}
impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize, const RF: usize, const RP: usize> CachedSpec<F, T, RATE> for Tiny<RF, RP> {
    fn cached_round_constants() -> &'static [[F; T]] {
        Vec::leak(var_rc(RF + RP))
    }
    fn cached_mds() -> &'static Mds<F, T> {
        Box::leak(Box::new(var_mds("mds")))
    }
    fn cached_mds_inv() -> &'static Mds<F, T> {
        Box::leak(Box::new(var_mds("mdsinv")))
    }
}
/// the permutation a `Tiny` specification denotes
pub fn tiny_perm<F: FromUniformBytes<64> + Ord, const T: usize>(rf: usize, rp: usize) -> Perm<'static, F, T> {
    Perm { rc: Vec::leak(var_rc(rf + rp)), mds: Box::leak(Box::new(var_mds("mds"))), r_f: rf, r_p: rp, sbox }
}
/// the BN254 permutation, from the plain constants of the repository (their values are the business of P08)
pub fn bn_perm() -> Perm<'static, Fr, 3> {
    let (rc, mds, _) = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants();
    Perm { rc: Vec::leak(rc), mds: Box::leak(Box::new(mds)), r_f: 8, r_p: 57, sbox: pow5 }
}
#[cfg(feature = "pasta")]
pub fn pasta_perm() -> Perm<'static, poseidon_base::primitives::pasta::Fp, 3> {
    let (rc, mds, _) = <P128Pow5T3<poseidon_base::primitives::pasta::Fp> as Spec<_, 3, 2>>::constants();
    Perm { rc: Vec::leak(rc), mds: Box::leak(Box::new(mds)), r_f: 8, r_p: 56, sbox: pow5 }
}
pub fn vars<F: FromUniformBytes<64>>(name: &str, n: usize) -> Vec<F> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(any_i(name, i));
    }
    v
}
pub fn var_arr<F: FromUniformBytes<64>, const L: usize>(name: &str) -> [F; L] {
    let mut v = [F::ZERO; L];
    for i in 0..L {
        v[i] = any_i(name, i);
    }
    v
}
/// lengths worth a separate analysis: all small ones, and every integer constant of the code with its neighbours
pub fn lengths(small: usize, cap: usize) -> Vec<usize> {
    let mut v: Vec<usize> = Vec::new();
    for i in 1..=small {
        v.push(i);
    }
    // constants of the code, and numbers that are often meant without being written
    let mut about: Vec<usize> = Vec::new();
    for k in 0..mined_len() {
        about.push(mined(k));
    }
    let mut p = 16;
    while p <= 1024 {
        about.push(p);
        if p < 512 {
            about.push(p + p / 2);
        }
        p = 2 * p;
    }
    for c in about {
        for d in 0..3 {
            let x = c + d;
            if x >= 1 {
                let x = x - 1;
                if x > small && x <= cap {
                    let mut dup = false;
                    for y in v.iter() {
                        if *y == x {
                            dup = true;
                        }
                    }
                    if !dup {
                        v.push(x);
                    }
                }
            }
        }
    }
    v
}
// a user's own hashable field
impl P128Pow5T3Constants for crate::symf::SymF {
    fn partial_rounds() -> usize {
        config("rp")
    }
    fn round_constants() -> Vec<[Self; 3]> {
        var_rc(8 + config("rp"))
    }
    fn mds() -> Mds<Self, 3> {
        var_mds("mds")
    }
    fn mds_inv() -> Mds<Self, 3> {
        var_mds("mdsinv")
    }
}
impl poseidon_base::params::CachedConstants for crate::symf::SymF {
    fn cached_round_constants() -> &'static [[Self; 3]] {
        Vec::leak(var_rc(8 + config("rp")))
    }
    fn cached_mds() -> &'static Mds<Self, 3> {
        Box::leak(Box::new(var_mds("mds")))
    }
    fn cached_mds_inv() -> &'static Mds<Self, 3> {
        Box::leak(Box::new(var_mds("mdsinv")))
    }
}
impl poseidon_base::hash::Hashablebase for crate::symf::SymF {}
impl poseidon_base::hash::Hashable for crate::symf::SymF {
    type SpecType = Tiny<2, 1>;
    type DomainType = ConstantLengthIden3<2>;
    fn hash_with_domain(inp: [Self; 2], domain: Self) -> Self {
        Self::hasher().hash(inp, domain)
    }
}
