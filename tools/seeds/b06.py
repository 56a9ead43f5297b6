import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p05-length-capacity-byte"; PROPERTY="P05"
EDITS=[("poseidon-base/src/primitives.rs","        F::from_u128((L as u128) << 64)","        F::from_u128((L as u8 as u128) << 64)")]
NEEDS="a constant length of 256 or more"
BREAKS="the capacity element of a constant-length hash keeps only eight bits of the length"
MAIN=PRE+'''
fn h<const L: usize>() {
    let m: [Fr; L] = core::array::from_fn(|i| rnd(i as u64));
    let mut s = [Fr::ZERO, Fr::ZERO, Fr::from_u128((L as u128) << 64)];
    for b in m.chunks(2) {
        s[0] += b[0];
        if b.len() > 1 { s[1] += b[1]; }
        s = perm(s);
    }
    assert_eq!(Hash::<Fr, P128Pow5T3Compact<Fr>, ConstantLength<L>, 3, 2>::init().hash(m), s[0]);
}
fn main() { h::<1>(); h::<2>(); h::<5>(); h::<255>(); h::<256>(); h::<300>(); }
'''
