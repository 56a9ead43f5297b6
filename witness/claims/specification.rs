//! width, rate, field and specification of a hasher or permutation have to fit each other
use halo2curves::bn256::Fr;
use halo2curves::pasta::Fp;
use poseidon_base::hash::{HashSpec, Hashable};
use poseidon_base::primitives::*;
pub fn hasher() {
    //@ok let _ = Hash::<Fr, HashSpec<Fr>, ConstantLength<2>, 3, 2>::init();
    //@bad let _ = Hash::<Fr, HashSpec<Fr>, ConstantLength<2>, 4, 3>::init();
    //@bad let _ = Hash::<Fr, HashSpec<Fr>, ConstantLength<2>, 3, 1>::init();
    //@bad let _ = Hash::<Fr, HashSpec<Fp>, ConstantLength<2>, 3, 2>::init();
    //@bad let _ = Hash::<Fr, HashSpec<Fr>, Absorbing<Fr, 2>, 3, 2>::init();
}
pub fn free(m: &Mds<Fr, 3>, rc: &[[Fr; 3]], x: Fr) {
    //@ok permute::<Fr, P128Pow5T3<Fr>, 3, 2>(&mut [x; 3], m, rc);
    //@bad permute::<Fr, P128Pow5T3<Fr>, 3, 2>(&mut [x; 2], m, rc);
    //@bad permute::<Fr, P128Pow5T3<Fr>, 4, 3>(&mut [x; 4], m, rc);
    //@bad permute::<Fr, P128Pow5T3<Fr>, 3, 2>(&mut [x; 3], &[[x; 2]; 3], rc);
    //@bad permute::<Fr, P128Pow5T3<Fr>, 3, 2>(&[x; 3], m, rc);
}
pub fn field() {
    //@ok let _ = <Fr as Hashable>::hasher();
    //@bad let _ = <Fp as Hashable>::hasher();
    //@bad let _ = <u64 as Hashable>::hasher();
}
fn main() {}
