//! P10: MDS generation.
use crate::symf::{SymF, TinyF};
use crate::verif::*;
use halo2curves::ff::{Field, FromUniformBytes};
use poseidon_base::primitives::*;

/// parameters generated at run time by the default method
#[derive(Clone, Copy, Debug)]
pub struct Gen<const RF: usize, const RP: usize, const SEL: usize>;
impl<F: FromUniformBytes<64> + Ord, const T: usize, const R: usize, const RF: usize, const RP: usize, const SEL: usize> Spec<F, T, R> for Gen<RF, RP, SEL> {
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(val: F) -> F {
        val
    }
    fn secure_mds() -> usize {
        SEL
    }
}
fn check_matrix<const T: usize>(mds: &[[SymF; T]; T], inv: &[[SymF; T]; T], first: usize) {
    for i in 0..T {
        for j in 0..T {
            let s: SymF = uniform_draw::<SymF>(first + i) + uniform_draw::<SymF>(first + T + j);
            check_eq(mds[i][j], s.invert().unwrap(), "entry is 1/(x_i + y_j)", T * i + j);
            let (mut acc, mut acc2) = (SymF::ZERO, SymF::ZERO);
            for k in 0..T {
                acc = acc + mds[i][k] * inv[k][j];
                acc2 = acc2 + inv[i][k] * mds[k][j];
            }
            let e = if i == j { SymF::ONE } else { SymF::ZERO };
            check_eq(acc, e, "matrix times inverse", T * i + j);
            check_eq(acc2, e, "inverse times matrix", T * i + j);
        }
    }
}
/// all points distinct
fn generic<const T: usize, const SEL: usize>() {
    for order in 0..3 {
        sym_uniform_from(order, &[]);
        let (_, mds, inv) = <Gen<0, 0, SEL> as Spec<SymF, T, 2>>::constants();
        check_eq_i(uniform_draws(), 2 * T * (SEL + 1), "points drawn", SEL);
        check_matrix(&mds, &inv, 2 * T * SEL);
        sym_uniform(false);
    }
}
pub fn width_2() {
    generic::<2, 0>();
    generic::<2, 1>();
    generic::<2, 2>();
    generic::<2, 5>();
}
pub fn width_3() {
    generic::<3, 0>();
    generic::<3, 1>();
    generic::<3, 3>();
}
pub fn width_4() {
    generic::<4, 0>();
    generic::<4, 2>();
}
pub fn width_5_to_9() {
    generic::<5, 0>();
    generic::<6, 1>();
    generic::<9, 0>();
}
/// one pair of points of the sample number `at` collides: that sample is replaced, and does not count as skipped
fn collide<const T: usize, const SEL: usize>(at: usize, i: usize, j: usize) {
    let mut pat = Vec::new();
    for k in 0..2 * T * (at + 1) {
        pat.push(k);
    }
    pat[2 * T * at + j] = 2 * T * at + i;
    sym_uniform_from((i + j) % 3, &pat);
    let (_, mds, inv) = <Gen<0, 0, SEL> as Spec<SymF, T, 2>>::constants();
    check_eq_i(uniform_draws(), 2 * T * (SEL + 2), "points drawn, one sample with a collision", 2 * T * i + j);
    check_matrix(&mds, &inv, 2 * T * (SEL + 1));
    sym_uniform(false);
}
pub fn collisions() {
    for j in 0..4 {
        for i in 0..j {
            collide::<2, 0>(0, i, j);
        }
    }
    for j in 0..6 {
        for i in 0..j {
            collide::<3, 0>(0, i, j);
        }
    }
    collide::<3, 1>(0, 0, 5);
    collide::<3, 1>(1, 2, 3);
    collide::<3, 2>(1, 0, 1);
    collide::<3, 2>(2, 4, 5);
    collide::<4, 1>(1, 3, 4);
    collide::<4, 0>(0, 0, 7);
}
/// points that repeat across samples are no collision
pub fn repeats_across_samples() {
    let pat = [0usize, 1, 2, 3, 4, 5, 5, 4, 3, 2, 1, 0];
    sym_uniform_from(0, &pat);
    let (_, mds, inv) = <Gen<0, 0, 1> as Spec<SymF, 3, 2>>::constants();
    check_eq_i(uniform_draws(), 12, "points drawn", 1);
    check_matrix(&mds, &inv, 6);
    sym_uniform(false);
}
/// several colliding samples in a row
pub fn repeated_collisions() {
    let pat = [0usize, 0, 1, 2, 3, 1, 2, 3, 4, 4, 4, 4];
    sym_uniform_from(1, &pat);
    let (_, mds, inv) = <Gen<0, 0, 0> as Spec<SymF, 2, 1>>::constants();
    check_eq_i(uniform_draws(), 16, "points drawn", 0);
    check_matrix(&mds, &inv, 12);
    sym_uniform(false);
    let _ = TinyF::<5>(0);
}
