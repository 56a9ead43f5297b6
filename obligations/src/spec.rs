//! The specification, written independently of the repository: plain Poseidon over arrays.
use halo2curves::ff::FromUniformBytes;

pub fn pow5<F: FromUniformBytes<64>>(x: F) -> F {
    x * x * x * x * x
}

/// Textbook Poseidon permutation: R_F/2 full rounds, R_P partial rounds, R_F/2 full rounds.
pub fn permutation_with<F: FromUniformBytes<64>, const T: usize>(
    state: [F; T],
    rc: &[[F; T]],
    mds: &[[F; T]; T],
    r_f: usize,
    r_p: usize,
    sbox: fn(F) -> F,
) -> [F; T] {
    let mut s = state;
    let mut r = 0;
    while r < r_f + r_p {
        let full = r < r_f / 2 || r >= r_f / 2 + r_p;
        let mut x = [F::ZERO; T];
        let mut i = 0;
        while i < T {
            x[i] = s[i] + rc[r][i];
            if full || i == 0 {
                x[i] = sbox(x[i]);
            }
            i += 1;
        }
        let mut y = [F::ZERO; T];
        i = 0;
        while i < T {
            let mut acc = F::ZERO;
            let mut j = 0;
            while j < T {
                acc = acc + mds[i][j] * x[j];
                j += 1;
            }
            y[i] = acc;
            i += 1;
        }
        s = y;
        r += 1;
    }
    s
}

pub fn permutation<F: FromUniformBytes<64>, const T: usize>(
    state: [F; T],
    rc: &[[F; T]],
    mds: &[[F; T]; T],
    r_f: usize,
    r_p: usize,
) -> [F; T] {
    permutation_with(state, rc, mds, r_f, r_p, pow5)
}

/// What a sponge needs to know: tables, round counts, S-box.
pub struct Perm<'a, F, const T: usize> {
    pub rc: &'a [[F; T]],
    pub mds: &'a [[F; T]; T],
    pub r_f: usize,
    pub r_p: usize,
    pub sbox: fn(F) -> F,
}
impl<'a, F: FromUniformBytes<64>, const T: usize> Perm<'a, F, T> {
    pub fn run(&self, s: [F; T]) -> [F; T] {
        permutation_with(s, self.rc, self.mds, self.r_f, self.r_p, self.sbox)
    }
    /// zero-padded sponge: blocks of `rate` elements added into lanes `first..first+rate`; digest in lane 0
    pub fn sponge(&self, init: [F; T], msg: &[F], first: usize, rate: usize) -> F {
        let mut s = init;
        let mut i = 0;
        while i < msg.len() {
            let mut k = 0;
            while k < rate {
                if i + k < msg.len() {
                    s[first + k] = s[first + k] + msg[i + k];
                }
                k += 1;
            }
            s = self.run(s);
            i += rate;
        }
        s[0]
    }
}
