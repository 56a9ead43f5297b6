//! P06: no state leaks between hashes.
use crate::common::*;
use crate::verif::*;
use halo2curves::bn256::Fr;
use poseidon_base::hash::{HashSpec, Hashable, MessageHashable};
use poseidon_base::params::CachedConstants;
use poseidon_base::primitives::*;

fn two(i: usize) -> (Fr, Fr, Fr, Fr) {
    let (a, b, d): (Fr, Fr, Fr) = (any_i("a", i), any_i("b", i), any_i("d", i));
    (a, b, d, bn_perm().run([d, a, b])[0])
}
/// every order of first use: the other calls come before, between and after
pub fn interleaved() {
    let (a, b, d, w) = two(0);
    let (a2, b2, d2, w2) = two(1);
    check_eq(Fr::hash_with_domain([a, b], d), w, "first", 0);
    check_eq(Fr::hash_with_domain([a2, b2], d2), w2, "second, other arguments", 1);
    check_eq(Fr::hash_with_domain([a, b], d), w, "third, first arguments again", 2);
    check_eq(Fr::hash_with_domain([a, b], d2), bn_perm().run([d2, a, b])[0], "same inputs, other domain", 3);
    check_eq(Fr::hash_with_domain([b, a], d), bn_perm().run([d, b, a])[0], "swapped inputs", 4);
    check_eq(Fr::hash_with_domain([a, b], d), w, "and again", 5);
}
pub fn messages() {
    let m = vars::<Fr>("m", 5);
    let p = bn_perm();
    let z = Fr::zero();
    let cap = |n: usize| crate::p03::bn_default_cap(n);
    let w5 = p.sponge([cap(5), z, z], &m, 1, 2);
    let w3 = p.sponge([cap(3), z, z], &m[..3], 1, 2);
    let w4 = p.sponge([cap(4), z, z], &m[..4], 1, 2);
    check_eq(Fr::hash_msg(&m, None), w5, "five", 0);
    check_eq(Fr::hash_msg(&m[..3], None), w3, "three", 1);
    check_eq(Fr::hash_msg(&m[..4], None), w4, "four", 2);
    check_eq(Fr::hash_msg(&m, None), w5, "five again", 3);
    let (a, b, d, w) = two(0);
    check_eq(Fr::hash_with_domain([a, b], d), w, "two to one in between", 4);
    check_eq(Fr::hash_msg(&m[..3], None), w3, "three again", 5);
    let c = any_u128("c");
    check_eq(Fr::hash_msg(&m[..3], Some(c)), p.sponge([embed::<Fr>(c), z, z], &m[..3], 1, 2), "three with capacity", 6);
    check_eq(Fr::hash_msg(&m[..3], None), w3, "three, default capacity again", 7);
}
pub fn hasher_objects() {
    let (a, b, d, w) = two(0);
    let (a2, b2, d2, w2) = two(1);
    let h = <Fr as Hashable>::hasher();
    let h2 = h.clone();
    let mut s: [Fr; 3] = var_arr("s");
    h.permute(&mut s);
    h.permute(&mut s);
    let p = bn_perm();
    let want = p.run(p.run(var_arr("s")));
    for i in 0..3 {
        check_eq(s[i], want[i], "two permutations through one hasher", i);
    }
    check_eq(h.hash([a, b], d), w, "a hasher that has permuted", 0);
    check_eq(h2.hash([a2, b2], d2), w2, "its clone", 1);
    check_eq(<Fr as Hashable>::hasher().hash([a, b], d), w, "a new hasher", 2);
    let g = <Fr as MessageHashable>::msg_hasher();
    let g2 = g.clone();
    let m = vars::<Fr>("m", 3);
    let c = any_u128("c");
    let z = Fr::zero();
    let wm = p.sponge([embed::<Fr>(c), z, z], &m, 1, 2);
    let mut t = [d, a, b];
    g.permute(&mut t);
    check_eq(t[0], w, "message hasher permutes", 3);
    check_eq(g.hash_with_cap(&m, c), wm, "message hasher", 4);
    check_eq(g2.hash_with_cap(&m[..2], c), p.sponge([embed::<Fr>(c), z, z], &m[..2], 1, 2), "its clone", 5);
    check_eq(<Fr as MessageHashable>::msg_hasher().hash_with_cap(&m, c), wm, "a new message hasher", 6);
}
/// nothing reachable from a static changes after the first use of each function
pub fn statics_are_write_once() {
    let run = |i: usize| {
        let (a, b, d, _) = two(i);
        let m = vars::<Fr>("m", 3 + i);
        let x = Fr::hash_with_domain([a, b], d);
        let y = Fr::hash_msg(&m, None);
        let y2 = Fr::hash_msg(&m, Some(any_u128("c")));
        let mut s = [a, b, x];
        <Fr as Hashable>::hasher().permute(&mut s);
        let k = Hash::<Fr, HashSpec<Fr>, ConstantLength<2>, 3, 2>::init().hash([y, y2]);
        let mut st = [k, a, b];
        permute::<Fr, HashSpec<Fr>, 3, 2>(&mut st, <Fr as CachedConstants>::cached_mds(), <Fr as CachedConstants>::cached_round_constants());
    };
    run(0);
    let snap = snap_statics();
    run(1);
    check_statics(snap, "no static changes after initialisation");
    run(0);
    check_statics(snap, "no static changes after initialisation, repeated arguments");
}
/// the arguments are left alone, and the order of parameter initialisation does not matter
pub fn init_orders() {
    let which = config("order");
    let _ = which;
    let (a, b, d, w) = two(0);
    let m = vars::<Fr>("m", 2);
    let keep = m.clone();
    let z = Fr::zero();
    let wm = bn_perm().sponge([crate::p03::bn_default_cap(2), z, z], &m, 1, 2);
    check_eq(Fr::hash_msg(&m, None), wm, "message first", 0);
    check_eq(Fr::hash_with_domain([a, b], d), w, "then two to one", 1);
    for i in 0..2 {
        check_eq(m[i], keep[i], "message unchanged", i);
    }
}
pub fn constant_length() {
    let (a, b): (Fr, Fr) = (any("a"), any("b"));
    let z = Fr::zero();
    let want = bn_perm().sponge([z, z, embed::<Fr>(2u128 << 64)], &[a, b], 0, 2);
    let h = Hash::<Fr, HashSpec<Fr>, ConstantLength<2>, 3, 2>::init();
    let g = h.clone();
    let _ = Hash::<Fr, HashSpec<Fr>, ConstantLength<2>, 3, 2>::init().hash([b, a]);
    check_eq(h.hash([a, b]), want, "constant length", 0);
    check_eq(g.hash([a, b]), want, "constant length, clone", 1);
}
pub fn warm() {
    interleaved();
}
