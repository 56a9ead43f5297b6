//! P09: the compact constants, for arbitrary tables.
use crate::common::*;
use crate::spec;
use crate::symf::SymF;
use crate::verif::*;
use halo2curves::ff::Field;
use poseidon_base::primitives::*;

fn one(rp: usize) {
    set_config("rp", rp);
    let plain = <P128Pow5T3<SymF> as Spec<SymF, 3, 2>>::constants();
    let comp = <P128Pow5T3Compact<SymF> as Spec<SymF, 3, 2>>::constants();
    let rc0: Vec<[SymF; 3]> = var_rc(8 + rp);
    check_eq_i(<P128Pow5T3Compact<SymF> as Spec<SymF, 3, 2>>::full_rounds(), 8, "full rounds", rp);
    check_eq_i(<P128Pow5T3Compact<SymF> as Spec<SymF, 3, 2>>::partial_rounds(), rp, "partial rounds", rp);
    check_eq_i(comp.0.len(), 8 + rp, "number of rounds", rp);
    check_eq_i(plain.0.len(), 8 + rp, "number of rounds, plain", rp);
    let (m, mi): ([[SymF; 3]; 3], [[SymF; 3]; 3]) = (var_mds("mds"), var_mds("mdsinv"));
    for i in 0..3 {
        for j in 0..3 {
            check_eq(comp.1[i][j], m[i][j], "MDS unchanged", 3 * i + j);
            check_eq(comp.2[i][j], mi[i][j], "inverse MDS unchanged", 3 * i + j);
            check_eq(plain.1[i][j], m[i][j], "plain MDS", 3 * i + j);
            check_eq(plain.2[i][j], mi[i][j], "plain inverse MDS", 3 * i + j);
        }
    }
    for r in 0..8 + rp {
        for i in 0..3 {
            check_eq(plain.0[r][i], rc0[r][i], "plain round constants", 3 * r + i);
            if r >= 4 && r < 4 + rp {
                if i > 0 {
                    check_eq(comp.0[r][i], SymF::ZERO, "lane 1 or 2 of a partial round is zero", 3 * r + i);
                } else if r == 4 {
                    check_eq(comp.0[r][i], rc0[r][i], "lane 0 of the first partial round is unchanged", r);
                }
            } else if r != 4 + rp || rp == 0 {
                check_eq(comp.0[r][i], rc0[r][i], "round constants of a full round are unchanged", 3 * r + i);
            }
        }
    }
    let s: [SymF; 3] = var_arr("s");
    let want = spec::permutation(s, &rc0, &m, 8, rp);
    let mut a = s;
    permute::<SymF, P128Pow5T3Compact<SymF>, 3, 2>(&mut a, &comp.1, &comp.0);
    let mut b = s;
    permute::<SymF, P128Pow5T3<SymF>, 3, 2>(&mut b, &plain.1, &plain.0);
    for i in 0..3 {
        check_eq(a[i], want[i], "compact permutation", i);
        check_eq(b[i], want[i], "plain permutation", i);
    }
}
pub fn few_partial_rounds() {
    for rp in 0..8 {
        one(rp);
    }
}
pub fn shipped_counts() {
    one(56);
    one(57);
}
pub fn other_counts() {
    one(16);
    one(31);
    one(55);
    one(58);
    one(64);
    one(65);
    one(100);
}
pub fn mined_counts() {
    for n in lengths(7, 120) {
        if n > 7 {
            one(n);
        }
    }
}
pub fn warm() {
    one(2);
}
