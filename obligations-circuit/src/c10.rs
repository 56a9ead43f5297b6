//! C10: the sponge gadget.
use crate::c02::User;
use crate::circ::*;
use crate::common::*;
use crate::spec::*;
use crate::verif::*;
use halo2_proofs::circuit::{AssignedCell, Layouter, Value};
use halo2_proofs::plonk::ConstraintSystem;
use halo2_proofs::record::Recorder;
use halo2curves::bn256::Fr;
use halo2curves::ff::{Field, FromUniformBytes};
use poseidon_base::hash::Hashable;
use poseidon_base::primitives::{CachedSpec, ConstantLength, Hash as Native, Spec};
use poseidon_circuit::poseidon::{Hash, PaddedWord, Pow5Chip, Sponge};

type S = <Fr as Hashable>::SpecType;

struct Gadget<F: Field> {
    rec: Recorder<F>,
    message: Vec<AssignedCell<F, F>>,
}
type Chip<F, const T: usize, const RATE: usize> = Pow5Chip<F, T, RATE>;
fn gadget<F: FromUniformBytes<64> + Ord, Sp: Spec<F, T, RATE>, const T: usize, const RATE: usize>(n: usize) -> (Gadget<F>, Chip<F, T, RATE>) {
    let mut cs = ConstraintSystem::default();
    let state = [0; T].map(|_| cs.advice_column());
    let sbox = cs.advice_column();
    let input = cs.advice_column();
    cs.enable_equality(input);
    let rc_a = [0; T].map(|_| cs.fixed_column());
    let rc_b = [0; T].map(|_| cs.fixed_column());
    // as the chip's documentation says: the first of these columns serves for constants too
    cs.enable_constant(rc_b[0]);
    let config = Pow5Chip::<F, T, RATE>::configure::<Sp>(&mut cs, state, sbox, rc_a, rc_b);
    let chip = Pow5Chip::<F, T, RATE>::construct(config);
    let mut rec = Recorder::new(cs);
    let message: Vec<AssignedCell<F, F>> = rec
        .assign_region(
            || "message",
            |mut region| {
                let mut v = Vec::new();
                for i in 0..n {
                    v.push(region.assign_advice(|| "m", input, i, || Value::known(el::<F>(i)))?);
                }
                Ok(v)
            },
        )
        .unwrap();
    (Gadget { rec, message }, chip)
}
fn el<F>(i: usize) -> F {
    any_i("m", i)
}
fn factor<F: Field>(n: usize) -> F {
    embed::<F>((n as u128) << 64)
}
fn hashes<F: FromUniformBytes<64> + Ord, Sp: CachedSpec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(perm: &Perm<'_, F, T>) {
    let (mut g, chip) = gadget::<F, Sp, T, RATE>(L);
    let message: [AssignedCell<F, F>; L] = g.message.clone().try_into().unwrap();
    let hasher = Hash::<F, _, Sp, ConstantLength<L>, T, RATE>::init(chip, g.rec.namespace(|| "init")).unwrap();
    let out = hasher.hash(g.rec.namespace(|| "hash"), message).unwrap();
    check_witness(&g.rec);
    let mut s = Sys::new(&g.rec);
    let mut m = [F::ZERO; L];
    for i in 0..L {
        m[i] = el(i);
        s.set(g.message[i].cell(), m[i]);
    }
    s.propagate();
    let mut init = [F::ZERO; T];
    init[RATE] = factor(L);
    let want = perm.sponge(init, &m, 0, RATE);
    match s.get(out.cell()) {
        Some(v) => check_eq(v, want, "digest the constraints allow", L),
        None => s.undetermined("the constraints do not determine the digest"),
    }
    s.consistent("the constraints accept the digest");
    match value_of(&g.rec, out.cell()) {
        Some(v) => check_eq(v, want, "digest the gadget assigns", L),
        None => fail("the digest cell has no value", ""),
    }
    let native = Native::<F, Sp, ConstantLength<L>, T, RATE>::init().hash(m);
    check_eq(native, want, "digest of the native hasher", L);
}
fn bn<const L: usize>() {
    hashes::<Fr, S, 3, 2, L>(&bn_perm());
}
pub fn one() {
    bn::<1>();
}
pub fn two() {
    bn::<2>();
}
pub fn three() {
    bn::<3>();
}
pub fn four() {
    bn::<4>();
}
pub fn five() {
    bn::<5>();
}
pub fn seven() {
    bn::<7>();
}
fn user<const T: usize, const RATE: usize, const L: usize>() {
    let (rc, mds, _) = crate::c02::user_constants::<Fr, T>(7);
    let perm = Perm { rc: &rc, mds: &mds, r_f: 4, r_p: 3, sbox: pow5 };
    hashes::<Fr, User<4, 3>, T, RATE, L>(&perm);
}
pub fn width_2() {
    user::<2, 1, 1>();
    user::<2, 1, 2>();
    user::<2, 1, 3>();
}
pub fn width_3() {
    user::<3, 2, 1>();
    user::<3, 2, 6>();
    user::<3, 2, 9>();
}
pub fn width_3_long() {
    user::<3, 2, 32>();
    user::<3, 2, 33>();
}
pub fn width_3_further() {
    user::<3, 2, 8>();
    user::<3, 2, 10>();
    user::<3, 2, 12>();
    user::<3, 2, 15>();
    user::<3, 2, 16>();
    user::<3, 2, 17>();
}
pub fn width_3_longer() {
    user::<3, 2, 64>();
}
pub fn width_4_long() {
    user::<4, 3, 12>();
    user::<4, 3, 16>();
    user::<4, 3, 30>();
}
pub fn width_4() {
    user::<4, 3, 1>();
    user::<4, 3, 2>();
    user::<4, 3, 3>();
    user::<4, 3, 4>();
    user::<4, 3, 8>();
}
pub fn width_5() {
    user::<5, 4, 1>();
    user::<5, 4, 4>();
    user::<5, 4, 5>();
    user::<5, 4, 7>();
}
/// the sponge used directly: blocks absorbed one element at a time, several elements squeezed
fn squeezes<const T: usize, const RATE: usize>(n: usize, out: usize) {
    let (rc, mds, _) = crate::c02::user_constants::<Fr, T>(7);
    let perm = Perm { rc: &rc, mds: &mds, r_f: 4, r_p: 3, sbox: pow5 };
    let (mut g, chip) = gadget::<Fr, User<4, 3>, T, RATE>(n);
    let mut sponge = Sponge::<Fr, _, User<4, 3>, _, ConstantLength<6>, T, RATE>::new(chip, g.rec.namespace(|| "new")).unwrap();
    let mut state = [Fr::ZERO; T];
    state[RATE] = factor(6);
    let mut k = 0;
    for i in 0..n {
        sponge.absorb(g.rec.namespace(|| "absorb"), PaddedWord::Message(g.message[i].clone())).unwrap();
    }
    // the last block must be full: fixed padding words
    let mut total = n;
    while total % RATE != 0 || total == 0 {
        sponge.absorb(g.rec.namespace(|| "absorb"), PaddedWord::Padding(embed::<Fr>(5))).unwrap();
        total += 1;
    }
    while k < total {
        for j in 0..RATE {
            let x = if k + j < n { el(k + j) } else { embed::<Fr>(5) };
            state[j] = state[j] + x;
        }
        state = perm.run(state);
        k += RATE;
    }
    let mut sponge = sponge.finish_absorbing(g.rec.namespace(|| "finish")).unwrap();
    let mut cells = Vec::new();
    for _ in 0..out {
        cells.push(sponge.squeeze(g.rec.namespace(|| "squeeze")).unwrap());
    }
    check_witness(&g.rec);
    let mut s = Sys::new(&g.rec);
    for i in 0..n {
        s.set(g.message[i].cell(), el(i));
    }
    s.propagate();
    let mut j = 0;
    for c in cells.iter() {
        if j == RATE {
            state = perm.run(state);
            j = 0;
        }
        match s.get(c.cell()) {
            Some(v) => check_eq(v, state[j], "element squeezed from the sponge gadget", j),
            None => s.undetermined("the constraints do not determine a squeezed element"),
        }
        j += 1;
    }
    s.consistent("the constraints accept the squeezed elements");
}
pub fn squeeze_width_3() {
    squeezes::<3, 2>(4, 5);
    squeezes::<3, 2>(3, 2);
}
pub fn squeeze_width_4() {
    squeezes::<4, 3>(5, 4);
}
#[cfg(feature = "pasta")]
pub fn pasta() {
    use poseidon_base::primitives::pasta::Fp;
    use poseidon_base::primitives::P128Pow5T3;
    hashes::<Fp, P128Pow5T3<Fp>, 3, 2, 2>(&pasta_perm());
    hashes::<Fp, P128Pow5T3<Fp>, 3, 2, 3>(&pasta_perm());
}
pub fn warm() {
    bn::<1>();
}
