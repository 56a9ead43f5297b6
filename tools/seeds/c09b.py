from cc import *
ID="c09-short-block-size"; PROPERTY="C09"
EDITS=[("poseidon-base/src/hash.rs",'''            1 + Self::SpecType::full_rounds()
''','''            // the first row takes one partial round, every other row seven of them
            (Self::SpecType::partial_rounds() + 5) / 7 - 1
''')]
NEEDS="the configuration with `short` (the eight-row chip)"
BREAKS="the block size a field announces is one row short of the rows of a permutation"
MAIN='''
use halo2curves::bn256::Fr;
use poseidon_base::hash::Hashable;
fn main() {
    assert!(Fr::hash_block_size() >= 8, "block size too small");
}
'''
