import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p04-legacy-length-shift"; PROPERTY="P04"
FEATURES=', features = ["legacy"]'
EDITS=[("poseidon-base/src/hash.rs","cap.unwrap_or(msg.len() as u128 * HASHABLE_DOMAIN_SPEC)","cap.unwrap_or((msg.len() as u128) << 64)")]
NEEDS="the legacy feature and no explicit capacity"
BREAKS="in legacy mode the default capacity is n * 2^64 instead of n"
MAIN=PRE+'''
fn main() {
    let m = [rnd(1), rnd(2), rnd(3)];
    assert_eq!(Fr::hash_msg(&m, None), sponge(&m, Fr::from_u128(3)));
    assert_eq!(Fr::hash_msg(&m, Some(9)), sponge(&m, Fr::from_u128(9)));
}
'''
