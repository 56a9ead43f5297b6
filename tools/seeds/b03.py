import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p03-zero-block-skipped"; PROPERTY="P03"
EDITS=[("poseidon-base/src/primitives.rs","        // We've already absorbed as many elements as we can\n        let _ = poseidon_sponge::<F, S, T, RATE>(\n            &mut self.state,\n            Some((&self.mode, self.layout)),","        // a block of zeros adds nothing to the state\n        if self.state[1..].iter().all(|w| w.is_zero_vartime())\n            && self.mode.0.iter().all(|e| e.map_or(true, |v| v.is_zero_vartime()))\n        {\n            self.mode = Absorbing::init_with(value);\n            return;\n        }\n\n        // We've already absorbed as many elements as we can\n        let _ = poseidon_sponge::<F, S, T, RATE>(\n            &mut self.state,\n            Some((&self.mode, self.layout)),")]
NEEDS="a message of at least three elements whose first block is all zero"
BREAKS="leading zero blocks are not hashed, so messages that differ in leading zero blocks (same capacity) collide"
MAIN=PRE+'''
fn main() {
    let z = Fr::ZERO;
    for (m, cap) in [(vec![z, z, rnd(1)], 7u128), (vec![z, z, z, z, z], 0), (vec![rnd(1), z, z, z, rnd(2)], 1 << 64)] {
        assert_eq!(Fr::hash_msg(&m, Some(cap)), sponge(&m, Fr::from_u128(cap)));
    }
}
'''
