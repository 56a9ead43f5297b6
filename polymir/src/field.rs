//! Prime field arithmetic for the coefficients of the polynomial domain (256-bit Montgomery).

pub type C = [u64; 4]; // Montgomery form

pub struct FieldCtx {
    pub name: &'static str,
    pub p: [u64; 4],
    inv: u64,
    r2: [u64; 4],
    pub one: C,
    pub num_bits: u32,
}

fn adc(a: u64, b: u64, c: &mut u64) -> u64 {
    let t = a as u128 + b as u128 + *c as u128;
    *c = (t >> 64) as u64;
    t as u64
}
fn sbb(a: u64, b: u64, br: &mut u64) -> u64 {
    let t = (a as u128).wrapping_sub(b as u128).wrapping_sub(*br as u128);
    *br = ((t >> 64) as u64) & 1;
    t as u64
}
pub fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut br = 0;
    let mut r = [0; 4];
    for i in 0..4 {
        r[i] = sbb(a[i], b[i], &mut br);
    }
    r
}

impl FieldCtx {
    pub fn new(name: &'static str, p: [u64; 4]) -> Self {
        let mut inv = 1u64;
        for _ in 0..63 {
            inv = inv.wrapping_mul(inv);
            inv = inv.wrapping_mul(p[0]);
        }
        inv = inv.wrapping_neg();
        let num_bits = 256 - p[3].leading_zeros();
        let mut f = FieldCtx { name, p, inv, r2: [0; 4], one: [0; 4], num_bits };
        // 2^256 mod p and 2^512 mod p by doubling
        let mut x: [u64; 4] = [1, 0, 0, 0];
        for i in 0..512 {
            x = f.add(&x, &x);
            if i == 255 {
                f.one = x;
            }
        }
        f.r2 = x;
        f
    }
    pub fn zero(&self) -> C {
        [0; 4]
    }
    pub fn add(&self, a: &C, b: &C) -> C {
        let mut c = 0;
        let mut r = [0; 4];
        for i in 0..4 {
            r[i] = adc(a[i], b[i], &mut c);
        }
        if c != 0 || geq(&r, &self.p) {
            r = sub_raw(&r, &self.p);
        }
        r
    }
    pub fn neg(&self, a: &C) -> C {
        if *a == [0; 4] {
            *a
        } else {
            sub_raw(&self.p, a)
        }
    }
    pub fn sub(&self, a: &C, b: &C) -> C {
        self.add(a, &self.neg(b))
    }
    pub fn mul(&self, a: &C, b: &C) -> C {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c: u128 = 0;
            for j in 0..4 {
                let s = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c;
                t[j] = s as u64;
                c = s >> 64;
            }
            let s = t[4] as u128 + c;
            t[4] = s as u64;
            t[5] = (s >> 64) as u64;
            let m = t[0].wrapping_mul(self.inv);
            let s = t[0] as u128 + (m as u128) * (self.p[0] as u128);
            let mut c = s >> 64;
            for j in 1..4 {
                let s = t[j] as u128 + (m as u128) * (self.p[j] as u128) + c;
                t[j - 1] = s as u64;
                c = s >> 64;
            }
            let s = t[4] as u128 + c;
            t[3] = s as u64;
            t[4] = t[5].wrapping_add((s >> 64) as u64);
            t[5] = 0;
        }
        let mut r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r, &self.p) {
            r = sub_raw(&r, &self.p);
        }
        r
    }
    pub fn pow(&self, a: &C, e: &[u64]) -> C {
        let mut r = self.one;
        for i in (0..e.len() * 64).rev() {
            r = self.mul(&r, &r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    pub fn inv(&self, a: &C) -> C {
        let e = sub_raw(&self.p, &[2, 0, 0, 0]);
        self.pow(a, &e)
    }
    /// canonical integer (< 2^256, reduced) -> element
    pub fn from_int(&self, a: &[u64; 4]) -> C {
        let mut a = *a;
        while geq(&a, &self.p) {
            a = sub_raw(&a, &self.p);
        }
        self.mul(&a, &self.r2)
    }
    pub fn from_u128(&self, x: u128) -> C {
        self.from_int(&[x as u64, (x >> 64) as u64, 0, 0])
    }
    pub fn to_int(&self, a: &C) -> [u64; 4] {
        self.mul(a, &[1, 0, 0, 0])
    }
    /// raw Montgomery limbs as stored by the real field types
    pub fn from_mont(&self, a: &[u64; 4]) -> Option<C> {
        if geq(a, &self.p) {
            None
        } else {
            Some(*a)
        }
    }
    pub fn from_dec(&self, s: &str) -> Option<C> {
        if s.is_empty() || (s.len() > 1 && s.starts_with('0')) {
            return None;
        }
        let ten = self.from_u128(10);
        let mut r = [0; 4];
        for ch in s.bytes() {
            if !ch.is_ascii_digit() {
                return None;
            }
            r = self.add(&self.mul(&r, &ten), &self.from_u128((ch - b'0') as u128));
        }
        Some(r)
    }
    pub fn from_bytes_wide(&self, b: &[u8]) -> C {
        let base = self.from_u128(256);
        let mut r = [0; 4];
        for x in b.iter().rev() {
            r = self.add(&self.mul(&r, &base), &self.from_u128(*x as u128));
        }
        r
    }
    pub fn to_bytes(&self, a: &C) -> [u8; 32] {
        let l = self.to_int(a);
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[i * 8..i * 8 + 8].copy_from_slice(&l[i].to_le_bytes());
        }
        o
    }
    pub fn show(&self, a: &C) -> String {
        let l = self.to_int(a);
        if l[1] | l[2] | l[3] == 0 {
            return format!("{}", l[0]);
        }
        let n = self.to_int(&self.neg(a));
        if n[1] | n[2] | n[3] == 0 {
            return format!("-{}", n[0]);
        }
        let h = format!("{:x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0]);
        let h = h.trim_start_matches('0');
        if h.len() > 14 {
            format!("0x{}..{}", &h[..6], &h[h.len() - 6..])
        } else {
            format!("0x{h}")
        }
    }
}

pub const BN_FR: [u64; 4] =
    [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
pub const BN_FQ: [u64; 4] =
    [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
pub const PASTA_FP: [u64; 4] =
    [0x992d30ed00000001, 0x224698fc094cf91b, 0x0000000000000000, 0x4000000000000000];
pub const PASTA_FQ: [u64; 4] =
    [0x8c46eb2100000001, 0x224698fc0994a8dd, 0x0000000000000000, 0x4000000000000000];
