
struct G { s: [bool; 80], bits: Vec<bool> }
impl G {
    fn new(nb: u64, t: u64, rf: u64, rp: u64) -> G {
        let mut v = Vec::new();
        for (len, x) in [(2, 1u64), (4, 0), (12, nb), (12, t), (10, rf), (10, rp)] { for i in (0..len).rev() { v.push(x >> i & 1 == 1); } }
        v.resize(80, true);
        let mut g = G { s: v.try_into().unwrap(), bits: vec![] };
        for _ in 0..160 { g.step(); }
        g
    }
    fn step(&mut self) -> bool {
        let s = &self.s;
        let n = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.s.copy_within(1.., 0);
        self.s[79] = n;
        n
    }
    fn bit(&mut self) -> bool { loop { let a = self.step(); let b = self.step(); if a { return b; } } }
    fn field<F: PrimeField<Repr = [u8; 32]>>(&mut self, nb: usize) -> F {
        loop {
            let mut r = [0u8; 32];
            for i in (0..nb).rev() { if self.bit() { r[i / 8] |= 1 << (i % 8); } }
            if let Some(f) = Option::<F>::from(F::from_repr(r)) { return f; }
        }
    }
}
