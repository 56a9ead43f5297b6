
#[derive(Clone, Copy, Debug)]
struct Wide;
const M: [[u64; 4]; 4] = [[2, 3, 5, 7], [11, 13, 17, 19], [23, 29, 31, 37], [41, 43, 47, 53]];
fn mds() -> [[Fr; 4]; 4] { M.map(|r| r.map(Fr::from)) }
fn rc() -> Vec<[Fr; 4]> { (0..5u64).map(|r| [Fr::from(r + 1), Fr::from(r * r + 5), Fr::from(3 * r), Fr::from(77 - r)]).collect() }
impl Spec<Fr, 4, 2> for Wide {
    fn full_rounds() -> usize { 4 }
    fn partial_rounds() -> usize { 1 }
    fn sbox(v: Fr) -> Fr { v.pow_vartime([5]) }
    fn secure_mds() -> usize { unimplemented!() }
    fn constants() -> (Vec<[Fr; 4]>, [[Fr; 4]; 4], [[Fr; 4]; 4]) { (rc(), mds(), mds()) }
}
impl CachedSpec<Fr, 4, 2> for Wide {
    fn cached_round_constants() -> &'static [[Fr; 4]] { Box::leak(Box::new(rc())) }
    fn cached_mds() -> &'static [[Fr; 4]; 4] { Box::leak(Box::new(mds())) }
    fn cached_mds_inv() -> &'static [[Fr; 4]; 4] { Box::leak(Box::new(mds())) }
}
fn perm4(mut s: [Fr; 4]) -> [Fr; 4] {
    for (r, c) in rc().iter().enumerate() {
        for i in 0..4 { s[i] += c[i]; if r != 2 || i == 0 { s[i] = s[i].pow_vartime([5]); } }
        let m = mds();
        let mut t = [Fr::ZERO; 4];
        for i in 0..4 { for j in 0..4 { t[i] += m[i][j] * s[j]; } }
        s = t;
    }
    s
}
