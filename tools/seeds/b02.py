import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p02-memo-ignores-domain"; PROPERTY="P02"
EDITS=[("poseidon-base/src/hash.rs","        Self::hasher().hash(inp, domain)","        // merkle trees hash the same pair again and again: remember the last one\n        thread_local! {\n            static LAST: std::cell::Cell<Option<([Fr; 2], Fr)>> = std::cell::Cell::new(None);\n        }\n        if let Some((last, digest)) = LAST.with(|l| l.get()) {\n            if last == inp {\n                return digest;\n            }\n        }\n        let digest = Self::hasher().hash(inp, domain);\n        LAST.with(|l| l.set(Some((inp, digest))));\n        digest")]
NEEDS="the same pair hashed twice in a row on one thread with different domains"
BREAKS="the second digest is that of the first domain"
MAIN=PRE+'''
fn main() {
    let inp = [rnd(1), rnd(2)];
    for d in [0u64, 5, 9] {
        let d = Fr::from(d);
        assert_eq!(Fr::hash_with_domain(inp, d), perm([d, inp[0], inp[1]])[0]);
    }
}
'''
