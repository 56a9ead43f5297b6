ID = "p12-any-length"
PROPERTY = "P12"
EDITS = [("poseidon-base/src/primitives.rs", """    /// Hashes the given input.
    pub fn hash(mut self, message: [F; L], domain: F) -> F {""", """    /// Hashes the given input.
    pub fn hash<I: IntoIterator<Item = F>>(mut self, message: I, domain: F) -> F {""")]
NEEDS = "a caller whose message array does not have the length of the hasher"
BREAKS = "the iden3 fixed-length hasher takes any iterator, so a message of another length compiles and is hashed"
GOOD = """use halo2curves::bn256::Fr;
use poseidon_base::hash::Hashable;
fn main() { let x = Fr::one(); let _ = Fr::hasher().hash([x, x], x); }
"""
BAD = """use halo2curves::bn256::Fr;
use poseidon_base::hash::Hashable;
fn main() { let x = Fr::one(); let _ = Fr::hasher().hash([x, x, x], x); }
"""
