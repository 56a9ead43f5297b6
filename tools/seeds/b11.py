import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p11-round-count-byte"; PROPERTY="P11"
EDITS=[("poseidon-base/src/primitives/grain.rs","t: u16, r_f: u16, r_p: u16)","t: u16, r_f: u8, r_p: u8)"),
("poseidon-base/src/primitives/grain.rs","        set_bits(30, 10, r_f);\n        set_bits(40, 10, r_p);","        set_bits(30, 10, r_f as u16);\n        set_bits(40, 10, r_p as u16);"),
("poseidon-base/src/primitives.rs","r_f as u16, r_p as u16)","r_f as u8, r_p as u8)")]
NEEDS="an instance with 256 or more partial (or full) rounds"
BREAKS="the round counts are reduced modulo 256 in the seed state, so the generated constants are those of another instance"
MAIN=PRE+open("/verif/tools/seeds/grainref.rs").read()+"""
#[derive(Clone, Copy, Debug)]
struct Gen<const RP: usize>;
impl<const RP: usize> Spec<Fr, 2, 1> for Gen<RP> {
    fn full_rounds() -> usize { 2 }
    fn partial_rounds() -> usize { RP }
    fn sbox(v: Fr) -> Fr { v }
    fn secure_mds() -> usize { 0 }
}
fn one<const RP: usize>() {
    let (rc, _, _) = <Gen<RP> as Spec<Fr, 2, 1>>::constants();
    let mut g = G::new(254, 2, 2, RP as u64);
    for r in 0..RP + 2 { for i in 0..2 { assert_eq!(rc[r][i], g.field::<Fr>(254)); } }
}
fn main() { one::<5>(); one::<57>(); one::<300>(); }
"""
