//! a variable-length hasher takes a slice and a 128-bit capacity, and is no fixed-length hasher
use halo2curves::bn256::Fr;
use poseidon_base::hash::MessageHashable;
pub fn variable(x: Fr) -> Fr {
    let h = Fr::msg_hasher();
    //@ok h.hash_with_cap(&[x, x], u128::MAX)
    //@bad h.hash([x, x])
    //@bad h.hash([x, x], x)
    //@bad h.hash_with_cap(&[x, x], x)
    //@bad h.hash_with_cap(&[1u64, 2], 2)
}
pub fn two(x: Fr) -> Fr {
    //@ok <Fr as poseidon_base::Hashable>::hash_with_domain([x, x], x)
    //@bad <Fr as poseidon_base::Hashable>::hash_with_domain([x, x, x], x)
    //@bad <Fr as poseidon_base::Hashable>::hash_with_domain([x], x)
    //@bad <Fr as poseidon_base::Hashable>::hash_with_domain([x, x])
    //@bad <Fr as poseidon_base::Hashable>::hash_with_domain([x, x], 1u64)
}
fn main() {}
