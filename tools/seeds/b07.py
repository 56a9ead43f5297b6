import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p06-message-memo"; PROPERTY="P06"
EDITS=[("poseidon-base/src/hash.rs","        Self::msg_hasher()\n            .hash_with_cap(msg, cap.unwrap_or(msg.len() as u128 * HASHABLE_DOMAIN_SPEC))","        use std::sync::Mutex;\n        // code hashing repeats itself: keep the last digest with the key it was computed for\n        static LAST: Mutex<Option<(usize, Option<u128>, Fr, Fr, Fr)>> = Mutex::new(None);\n        let (head, tail) = (msg[0], msg[msg.len() - 1]);\n        if let Some((n, c, h, t, digest)) = *LAST.lock().unwrap() {\n            if (n, c, h, t) == (msg.len(), cap, head, tail) {\n                return digest;\n            }\n        }\n        let digest = Self::msg_hasher()\n            .hash_with_cap(msg, cap.unwrap_or(msg.len() as u128 * HASHABLE_DOMAIN_SPEC));\n        *LAST.lock().unwrap() = Some((msg.len(), cap, head, tail, digest));\n        digest")]
NEEDS="two messages of equal length, capacity and end elements that differ in the middle, hashed in a row"
BREAKS="the second message gets the digest of the first"
MAIN=PRE+'''
fn main() {
    for mid in 0..3 {
        let m = [rnd(1), rnd(50 + mid), rnd(3)];
        assert_eq!(Fr::hash_msg(&m, Some(4)), sponge(&m, Fr::from_u128(4)));
    }
}
'''
