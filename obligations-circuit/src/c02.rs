//! C02: the pow5 gates.
use crate::c01::make;
use crate::circ::*;
use crate::common::*;
use crate::spec::*;
use crate::verif::*;
use halo2_proofs::circuit::{Layouter, Value};
use halo2_proofs::plonk::ConstraintSystem;
use halo2_proofs::record::Recorder;
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, FromUniformBytes};
use poseidon_base::hash::Hashable;
use poseidon_base::primitives::{CachedSpec, P128Pow5T3, P128Pow5T3Compact, Spec};
use poseidon_circuit::poseidon::{Pow5Chip, PoseidonInstructions, StateWord};

type S = <Fr as Hashable>::SpecType;
type PC = Pow5Chip<Fr, 3, 2>;

pub fn one_block() {
    outputs_determined(&make::<Fr, S, PC>(1, false), 1, &bn_perm());
}
pub fn two_blocks() {
    outputs_determined(&make::<Fr, S, PC>(2, false), 2, &bn_perm());
}
pub fn batch() {
    set_config("parallelism", 2);
    outputs_determined(&make::<Fr, S, PC>(3, true), 3, &bn_perm());
}
/// the chip under either shipped form of the specification
pub fn plain_and_compact() {
    outputs_determined(&make::<Fr, P128Pow5T3<Fr>, PC>(1, false), 1, &bn_perm());
    outputs_determined(&make::<Fr, P128Pow5T3Compact<Fr>, PC>(1, false), 1, &bn_perm());
}
pub fn honest_witness() {
    check_witness(&make::<Fr, S, PC>(2, false).rec);
}
pub fn honest_witness_plain_and_compact() {
    check_witness(&make::<Fr, P128Pow5T3<Fr>, PC>(1, false).rec);
    check_witness(&make::<Fr, P128Pow5T3Compact<Fr>, PC>(1, false).rec);
}
/// a user's specification: x^5, generated constants
#[derive(Clone, Copy, Debug)]
pub struct User<const RF: usize, const RP: usize>;
impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize, const RF: usize, const RP: usize> Spec<F, T, RATE> for User<RF, RP> {
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: F) -> F {
        pow5(v)
    }
    fn secure_mds() -> usize {
        0
    }
    fn constants() -> (Vec<[F; T]>, poseidon_base::primitives::Mds<F, T>, poseidon_base::primitives::Mds<F, T>) {
        user_constants::<F, T>(RF + RP)
    }
}
impl<F: FromUniformBytes<64> + Ord, const T: usize, const RATE: usize, const RF: usize, const RP: usize> CachedSpec<F, T, RATE> for User<RF, RP> {
    fn cached_round_constants() -> &'static [[F; T]] {
        Vec::leak(user_constants::<F, T>(RF + RP).0)
    }
    fn cached_mds() -> &'static poseidon_base::primitives::Mds<F, T> {
        Box::leak(Box::new(user_constants::<F, T>(RF + RP).1))
    }
    fn cached_mds_inv() -> &'static poseidon_base::primitives::Mds<F, T> {
        Box::leak(Box::new(user_constants::<F, T>(RF + RP).2))
    }
}
/// all round constants and matrix entries different, and the inverse by elimination
pub fn user_constants<F: Field, const T: usize>(rounds: usize) -> (Vec<[F; T]>, [[F; T]; T], [[F; T]; T]) {
    let mut x = F::ONE + F::ONE + F::ONE;
    let mut rc = Vec::new();
    for _ in 0..rounds {
        let mut r = [F::ZERO; T];
        for i in 0..T {
            r[i] = x;
            x = x * x + F::ONE;
        }
        rc.push(r);
    }
    let mut m = [[F::ZERO; T]; T];
    for i in 0..T {
        for j in 0..T {
            m[i][j] = x;
            x = x * x + F::ONE;
        }
    }
    let inv = inverse(&m);
    (rc, m, inv)
}
fn inverse<F: Field, const T: usize>(m: &[[F; T]; T]) -> [[F; T]; T] {
    let mut a = *m;
    let mut b = [[F::ZERO; T]; T];
    for i in 0..T {
        b[i][i] = F::ONE;
    }
    for c in 0..T {
        let k = a[c][c].invert().unwrap();
        for j in 0..T {
            a[c][j] *= k;
            b[c][j] *= k;
        }
        for r in 0..T {
            if r != c {
                let k = a[r][c];
                for j in 0..T {
                    let (x, y) = (a[c][j], b[c][j]);
                    a[r][j] -= k * x;
                    b[r][j] -= k * y;
                }
            }
        }
    }
    b
}
pub fn make_wide<F: FromUniformBytes<64> + Ord, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(n: usize) -> Made<F, StateWord<F>, T> {
    let mut cs = ConstraintSystem::default();
    let state = [0; T].map(|_| cs.advice_column());
    let sbox = cs.advice_column();
    let rc_a = [0; T].map(|_| cs.fixed_column());
    let rc_b = [0; T].map(|_| cs.fixed_column());
    let config = Pow5Chip::<F, T, RATE>::configure::<S>(&mut cs, state, sbox, rc_a, rc_b);
    let mut rec = Recorder::new(cs);
    let chip = Pow5Chip::<F, T, RATE>::construct(config);
    let mut ins: Vec<[StateWord<F>; T]> = Vec::new();
    let mut outs: Vec<[StateWord<F>; T]> = Vec::new();
    for k in 0..n {
        let x: [StateWord<F>; T] = rec
            .assign_region(
                || "inputs",
                |mut region| {
                    let mut v = Vec::new();
                    for i in 0..T {
                        v.push(StateWord(region.assign_advice(|| "in", state[i], 0, || Value::known(input::<F>(k, i)))?));
                    }
                    let v: [StateWord<F>; T] = v.try_into().unwrap();
                    Ok(v)
                },
            )
            .unwrap();
        let y = <Pow5Chip<F, T, RATE> as PoseidonInstructions<F, S, T, RATE>>::permute(&chip, &mut rec, &x).unwrap();
        ins.push(x);
        outs.push(y);
    }
    Made { rec, ins, outs }
}
fn user<const T: usize, const RATE: usize, const RF: usize, const RP: usize>(n: usize) {
    let (rc, mds, _) = <User<RF, RP> as Spec<Fr, T, RATE>>::constants();
    let perm = Perm { rc: &rc, mds: &mds, r_f: RF, r_p: RP, sbox: pow5 };
    let m = make_wide::<Fr, User<RF, RP>, T, RATE>(n);
    outputs_determined(&m, n, &perm);
    check_witness(&m.rec);
}
pub fn width_2() {
    user::<2, 1, 4, 3>(2);
}
pub fn width_3_even() {
    user::<3, 2, 4, 4>(2);
}
pub fn width_3_no_partial() {
    user::<3, 2, 4, 0>(1);
}
pub fn width_4() {
    user::<4, 3, 2, 5>(1);
}
pub fn width_5() {
    user::<5, 4, 4, 2>(1);
}
#[cfg(feature = "pasta")]
pub fn pasta() {
    use poseidon_base::primitives::pasta::Fp;
    let m = make::<Fp, P128Pow5T3<Fp>, Pow5Chip<Fp, 3, 2>>(1, false);
    outputs_determined(&m, 1, &pasta_perm());
    check_witness(&m.rec);
}
pub fn warm() {
    let _ = make::<Fr, S, PC>(1, false);
}
