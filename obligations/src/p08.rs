//! P08: the parameter sources agree with each other and with the published parameters.
use crate::bn_ref;
use crate::verif::*;
use halo2curves::bn256::Fr;
use halo2curves::ff::FromUniformBytes;
use poseidon_base::hash::HashSpec;
use poseidon_base::params::{self, CachedConstants};
use poseidon_base::primitives::*;

fn bn(l: &[u64; 4]) -> Fr {
    Fr::from_raw(*l)
}
fn bn_rc() -> Vec<[Fr; 3]> {
    let mut v = Vec::new();
    for r in bn_ref::BN_RC.iter() {
        v.push([bn(&r[0]), bn(&r[1]), bn(&r[2])]);
    }
    v
}
fn bn_mat(m: &[[[u64; 4]; 3]; 3]) -> [[Fr; 3]; 3] {
    let mut o = [[Fr::zero(); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = bn(&m[i][j]);
        }
    }
    o
}
/// constants that do not pass through an S-box are pushed through the MDS matrix into the next round
pub fn compact<F: FromUniformBytes<64>>(rc: &[[F; 3]], mds: &[[F; 3]; 3], r_f: usize, r_p: usize) -> Vec<[F; 3]> {
    let mut out = Vec::new();
    let mut carry = [F::ZERO; 3];
    let mut r = 0;
    while r < rc.len() {
        let cur = [rc[r][0] + carry[0], rc[r][1] + carry[1], rc[r][2] + carry[2]];
        carry = [F::ZERO; 3];
        if r >= r_f / 2 && r < r_f / 2 + r_p {
            let mut i = 0;
            while i < 3 {
                carry[i] = mds[i][1] * cur[1] + mds[i][2] * cur[2];
                i += 1;
            }
            out.push([cur[0], F::ZERO, F::ZERO]);
        } else {
            out.push(cur);
        }
        r += 1;
    }
    out
}
fn same_rc<F: FromUniformBytes<64>>(got: &[[F; 3]], want: &[[F; 3]], what: &str) {
    check_eq_i(got.len(), want.len(), "number of rounds", 0);
    for r in 0..want.len() {
        if r < got.len() {
            for i in 0..3 {
                check_eq(got[r][i], want[r][i], what, 3 * r + i);
            }
        }
    }
}
fn same_mat<F: FromUniformBytes<64>>(got: &[[F; 3]; 3], want: &[[F; 3]; 3], what: &str) {
    for i in 0..3 {
        for j in 0..3 {
            check_eq(got[i][j], want[i][j], what, 3 * i + j);
        }
    }
}
fn identity<F: FromUniformBytes<64>>(a: &[[F; 3]; 3], b: &[[F; 3]; 3], what: &str) {
    for i in 0..3 {
        for j in 0..3 {
            let mut acc = F::ZERO;
            for k in 0..3 {
                acc = acc + a[i][k] * b[k][j];
            }
            check_eq(acc, if i == j { F::ONE } else { F::ZERO }, what, 3 * i + j);
        }
    }
}
/// plain or compact, decided by the row of the first partial round
fn either<F: FromUniformBytes<64>>(got: &[[F; 3]], plain: &[[F; 3]], comp: &[[F; 3]], what: &str) {
    if got.len() > 4 && same(got[4][1], F::ZERO) {
        same_rc(got, comp, what);
    } else {
        same_rc(got, plain, what);
    }
}
pub fn bn_constants_trait() {
    check_eq_i(<Fr as P128Pow5T3Constants>::partial_rounds(), 57, "partial rounds", 0);
    same_rc(&<Fr as P128Pow5T3Constants>::round_constants(), &bn_rc(), "round constant of the field's trait");
    same_mat(&<Fr as P128Pow5T3Constants>::mds(), &bn_mat(&bn_ref::BN_MDS), "MDS of the field's trait");
    same_mat(&<Fr as P128Pow5T3Constants>::mds_inv(), &bn_mat(&bn_ref::BN_MDS_INV), "inverse MDS of the field's trait");
    identity(&<Fr as P128Pow5T3Constants>::mds(), &<Fr as P128Pow5T3Constants>::mds_inv(), "MDS times inverse");
    identity(&<Fr as P128Pow5T3Constants>::mds_inv(), &<Fr as P128Pow5T3Constants>::mds(), "inverse times MDS");
}
fn rounds<F: FromUniformBytes<64> + Ord, S: Spec<F, 3, 2>>(r_p: usize) {
    check_eq_i(S::full_rounds(), 8, "full rounds", 0);
    check_eq_i(S::partial_rounds(), r_p, "partial rounds", 0);
    check_eq_i(S::constants().0.len(), 8 + r_p, "number of round constants", 0);
    let x: F = any("x");
    check_eq(S::sbox(x), x * x * x * x * x, "S-box", 0);
}
pub fn bn_plain_spec() {
    rounds::<Fr, P128Pow5T3<Fr>>(57);
    let (rc, m, i) = <P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants();
    same_rc(&rc, &bn_rc(), "round constant of the plain specification");
    same_mat(&m, &bn_mat(&bn_ref::BN_MDS), "MDS of the plain specification");
    same_mat(&i, &bn_mat(&bn_ref::BN_MDS_INV), "inverse MDS of the plain specification");
}
pub fn bn_compact_spec() {
    rounds::<Fr, P128Pow5T3Compact<Fr>>(57);
    let (rc, m, i) = <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::constants();
    let mds = bn_mat(&bn_ref::BN_MDS);
    same_rc(&rc, &compact(&bn_rc(), &mds, 8, 57), "round constant of the compact specification");
    same_mat(&m, &mds, "MDS of the compact specification");
    same_mat(&i, &bn_mat(&bn_ref::BN_MDS_INV), "inverse MDS of the compact specification");
}
pub fn bn_cached_spec() {
    rounds::<Fr, HashSpec<Fr>>(57);
    let mds = bn_mat(&bn_ref::BN_MDS);
    let rc = <HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_round_constants();
    either(rc, &bn_rc(), &compact(&bn_rc(), &mds, 8, 57), "cached round constant of the hash specification");
    same_mat(<HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds(), &mds, "cached MDS of the hash specification");
    same_mat(<HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds_inv(), &bn_mat(&bn_ref::BN_MDS_INV), "cached inverse MDS of the hash specification");
}
pub fn bn_cached_constants() {
    let mds = bn_mat(&bn_ref::BN_MDS);
    let comp = compact(&bn_rc(), &mds, 8, 57);
    same_rc(<Fr as CachedConstants>::cached_round_constants(), &comp, "cached round constant of the field");
    same_mat(<Fr as CachedConstants>::cached_mds(), &mds, "cached MDS of the field");
    same_mat(<Fr as CachedConstants>::cached_mds_inv(), &bn_mat(&bn_ref::BN_MDS_INV), "cached inverse MDS of the field");
    for r in 0..65 {
        let x = params::round_constant::<Fr>(r);
        for i in 0..3 {
            check_eq(x[i], comp[r][i], "params::round_constant", 3 * r + i);
        }
    }
    same_mat(params::mds::<Fr>(), &mds, "params::mds");
}
/// read twice, in the other order, after hashing
pub fn bn_stable() {
    let mds = bn_mat(&bn_ref::BN_MDS);
    let comp = compact(&bn_rc(), &mds, 8, 57);
    same_mat(params::mds::<Fr>(), &mds, "params::mds first");
    same_rc(<Fr as CachedConstants>::cached_round_constants(), &comp, "cached round constant, second source");
    let _ = <P128Pow5T3Compact<Fr> as Spec<Fr, 3, 2>>::constants();
    same_rc(<Fr as CachedConstants>::cached_round_constants(), &comp, "cached round constant, again");
    same_rc(&<P128Pow5T3<Fr> as Spec<Fr, 3, 2>>::constants().0, &bn_rc(), "plain constants, again");
}
#[cfg(feature = "pasta")]
pub fn pasta() {
    use poseidon_base::primitives::pasta::{fp, Fp};
    let f = |l: &[u64; 4]| Fp::from_raw(*l);
    let mat = |m: &[[[u64; 4]; 3]; 3]| {
        let mut o = [[Fp::zero(); 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                o[i][j] = f(&m[i][j]);
            }
        }
        o
    };
    let mut rc = Vec::new();
    for r in bn_ref::PASTA_RC.iter() {
        rc.push([f(&r[0]), f(&r[1]), f(&r[2])]);
    }
    let (mds, inv) = (mat(&bn_ref::PASTA_MDS), mat(&bn_ref::PASTA_MDS_INV));
    rounds::<Fp, P128Pow5T3<Fp>>(56);
    rounds::<Fp, P128Pow5T3Compact<Fp>>(56);
    same_rc(&<Fp as P128Pow5T3Constants>::round_constants(), &rc, "pasta round constant");
    same_mat(&<Fp as P128Pow5T3Constants>::mds(), &mds, "pasta MDS");
    same_mat(&<Fp as P128Pow5T3Constants>::mds_inv(), &inv, "pasta inverse MDS");
    same_rc(&fp::ROUND_CONSTANTS, &rc, "pasta table");
    let comp = compact(&rc, &mds, 8, 56);
    let c = <P128Pow5T3Compact<Fp> as Spec<Fp, 3, 2>>::constants();
    same_rc(&c.0, &comp, "pasta compact constant");
    same_mat(&c.1, &mds, "pasta compact MDS");
    same_mat(&c.2, &inv, "pasta compact inverse MDS");
    either(<HashSpec<Fp> as CachedSpec<Fp, 3, 2>>::cached_round_constants(), &rc, &comp, "pasta cached constant");
    same_mat(<HashSpec<Fp> as CachedSpec<Fp, 3, 2>>::cached_mds(), &mds, "pasta cached MDS");
    same_mat(<HashSpec<Fp> as CachedSpec<Fp, 3, 2>>::cached_mds_inv(), &inv, "pasta cached inverse MDS");
    same_rc(<P128Pow5T3<Fp> as CachedSpec<Fp, 3, 2>>::cached_round_constants(), &rc, "pasta plain cached constant");
    identity(&mds, &inv, "pasta MDS times inverse");
}
