import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p05-iden3-layout-one"; PROPERTY="P05"
EDITS=[("poseidon-base/src/primitives.rs","    fn layout(width: usize) -> usize {\n        width - RATE\n    }","    fn layout(width: usize) -> usize {\n        debug_assert!(width > RATE);\n        1\n    }")]
NEEDS="a specification whose width exceeds the rate by two or more"
BREAKS="iden3-style inputs go to the lanes after lane 0 instead of the last RATE lanes"
MAIN=PRE+open("/verif/tools/seeds/wide.rs").read()+"""
fn main() {
    let (a, b, d) = (rnd(1), rnd(2), rnd(3));
    let got = Hash::<Fr, Wide, ConstantLengthIden3<2>, 4, 2>::init().hash([a, b], d);
    assert_eq!(got, perm4([d, Fr::ZERO, a, b])[0]);
}
"""