import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p07-block-counter"; PROPERTY="P07"
EDITS=[("poseidon-base/src/primitives.rs","    layout: usize,\n    _marker: PhantomData<S>,\n}\n\nimpl<","    layout: usize,\n    blocks: u16,\n    _marker: PhantomData<S>,\n}\n\nimpl<"),
("poseidon-base/src/primitives.rs","            layout,\n            _marker","            layout,\n            blocks: 0,\n            _marker"),
("poseidon-base/src/primitives.rs","        self.mode = Absorbing::init_with(value);\n    }","        self.blocks = self.blocks.checked_add(1).expect(\"message is too long\");\n        self.mode = Absorbing::init_with(value);\n    }"),
("poseidon-base/src/primitives.rs","            layout: self.layout,\n","            layout: self.layout,\n            blocks: self.blocks,\n")]
NEEDS="a message of more than 2^17 elements"
BREAKS="hashing a message of more than 131072 elements panics"
MAIN=PRE+'''
fn main() {
    let m = vec![Fr::from(3); 131074 + 10];
    let _ = Fr::hash_msg(&m, None);
    assert_eq!(Fr::hash_msg(&m[..5], None), sponge(&m[..5], Fr::from_u128(5 << 64)));
}
'''
