import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p04-some-zero-capacity"; PROPERTY="P04"
EDITS=[("poseidon-base/src/hash.rs","cap.unwrap_or(msg.len() as u128 * HASHABLE_DOMAIN_SPEC)","cap.filter(|c| *c != 0).unwrap_or(msg.len() as u128 * HASHABLE_DOMAIN_SPEC)")]
NEEDS="an explicit capacity of exactly zero"
BREAKS="an explicit zero capacity is replaced by the length"
MAIN=PRE+'''
fn main() {
    let m = [rnd(1), rnd(2), rnd(3)];
    for cap in [1u128, 1 << 64, u128::MAX, 0] {
        assert_eq!(Fr::hash_msg(&m, Some(cap)), sponge(&m, Fr::from_u128(cap)));
    }
    assert_eq!(Fr::hash_msg(&m, None), sponge(&m, Fr::from_u128(3 << 64)));
}
'''
