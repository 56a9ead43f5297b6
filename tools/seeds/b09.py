import sys; sys.path.insert(0, "/verif/tools/seeds")
from common import PRE
ID="p08-cached-inverse"; PROPERTY="P08"
EDITS=[("poseidon-base/src/params.rs","        fn cached_mds_inv() -> &'static Mds<F> {\n            &CONSTANTS.2","        fn cached_mds_inv() -> &'static Mds<F> {\n            &CONSTANTS.1")]
NEEDS="a user of the cached inverse matrix of the hash specification"
BREAKS="the cached inverse is the matrix itself"
MAIN=PRE+'''
fn main() {
    let m = <HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds();
    let n = <HashSpec<Fr> as CachedSpec<Fr, 3, 2>>::cached_mds_inv();
    for i in 0..3 { for j in 0..3 {
        let mut a = Fr::ZERO;
        for k in 0..3 { a += m[i][k] * n[k][j]; }
        assert_eq!(a, if i == j { Fr::ONE } else { Fr::ZERO });
    } }
}
'''
