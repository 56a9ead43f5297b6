from cc import *
ID="c09-odd-partial-rounds"; PROPERTY="C09"
EDITS=[("poseidon-base/src/hash.rs","1 + Self::SpecType::full_rounds() + (Self::SpecType::partial_rounds() + 1) / 2","1 + Self::SpecType::full_rounds() + Self::SpecType::partial_rounds() / 2")]
NEEDS="the configuration without `short` (two partial rounds per row) and an odd number of partial rounds, as the shipped specification has"
BREAKS="the block size a field announces has no room for the last, single partial round"
FEATURES=', default-features = false'
MAIN='''
use halo2curves::bn256::Fr;
use poseidon_base::hash::Hashable;
fn main() {
    // 8 full rounds, 57 partial rounds two to a row, and the output row
    assert!(Fr::hash_block_size() >= 8 + 29 + 1, "block size too small");
}
'''
