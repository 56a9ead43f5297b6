HEAD = '''mod mock;
use mock::*;
#[allow(unused_imports)]
use halo2curves::bn256::Fr;
#[allow(unused_imports)]
use halo2curves::ff::{Field, PrimeField};
#[allow(unused_imports)]
use poseidon_base::hash::*;
#[allow(unused_imports)]
use poseidon_base::primitives::{P128Pow5T3, P128Pow5T3Compact, ConstantLength, Absorbing, Squeezing};
#[allow(unused_imports)]
use poseidon_circuit::hash::*;
#[allow(unused_imports)]
use poseidon_circuit::poseidon::*;
#[allow(dead_code)]
type S = <Fr as Hashable>::SpecType;
#[allow(dead_code)]
type Long = Pow5Chip<Fr, 3, 2>;
'''
PAR = ', features = ["parallel_syn"]'
C = "poseidon-circuit/src/"
