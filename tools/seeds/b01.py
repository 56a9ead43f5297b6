import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p01-sbox-shortcut"; PROPERTY="P01"
EDITS=[("poseidon-base/src/primitives/p128pow5t3_compact.rs","        let a = val * val;\n        let b = a * a;","        let a = val * val;\n        if a == Fp::ONE {\n            // 1^5 = 1\n            return Fp::ONE;\n        }\n        let b = a * a;")]
NEEDS="a lane that equals -1 right before an S-box of the compact specification"
BREAKS="the compact permutation maps a lane value of -1 to 1 instead of -1"
MAIN=PRE+'''
fn main() {
    let rc = round_constant::<Fr>(0);
    let mut s = [-Fr::ONE - rc[0], rnd(1), rnd(2)];
    let want = perm(s);
    Fr::hasher().permute(&mut s);
    assert_eq!(s, want);
}
'''
