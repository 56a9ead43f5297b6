//! The abstract value domain: hash-consed polynomial normal forms over a prime field and
//! hash-consed symbolic integer expressions with unsigned intervals.

use crate::field::*;
use std::collections::HashMap;

pub type PolyId = u32;
pub type MonoId = u32;
pub type AtomId = u32;
pub type SymId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(String),
    /// a multi-term polynomial used as a factor (leading coefficient 1)
    Lin(PolyId),
    Inv(PolyId),
    Ite(SymId, PolyId, PolyId),
    /// embedding of a symbolic integer into the field
    Int(SymId),
    Opaque(String, Vec<PolyId>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly {
    pub field: u8,
    pub terms: Vec<(MonoId, C)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum IVal {
    Int(u128),
    Sym(SymId),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum IOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
    Shl,
    Shr,
    Eq,
    Lt,
    Le,
    SLt,
    SLe,
    AddOvf,
    SubOvf,
    MulOvf,
    /// other, by number
    Other(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SymNode {
    Var(String),
    Bin(IOp, IVal, IVal),
    /// zero extend / truncate to the node's width
    Cast(IVal, u32),
    SExt(IVal, u32),
    EqF(PolyId),
    LtF(PolyId, PolyId),
    Ite(SymId, IVal, IVal),
    Opaque(String, Vec<u64>),
}

pub struct SymInfo {
    pub node: SymNode,
    pub bits: u32,
    pub lo: u128,
    pub hi: u128,
}

pub struct Dom {
    pub fields: Vec<FieldCtx>,
    pub polys: Vec<Poly>,
    poly_ix: HashMap<Poly, PolyId>,
    pub monos: Vec<Vec<(AtomId, u64)>>,
    mono_ix: HashMap<Vec<(AtomId, u64)>, MonoId>,
    pub atoms: Vec<(u8, Atom)>,
    atom_ix: HashMap<(u8, Atom), AtomId>,
    pub syms: Vec<SymInfo>,
    sym_ix: HashMap<(SymNode, u32), SymId>,
    pit: HashMap<PolyId, [C; 2]>,
    pit_atom: HashMap<AtomId, [C; 2]>,
    pub seed: u64,
    pub pit_used: u64,
    pub eq_checks: u64,
    pub expand_limit: usize,
    pub uniq: u64,
    /// points in general position (atom -> rank in the assumed order)
    pub points: HashMap<AtomId, u64>,
}

pub fn mask(bits: u32) -> u128 {
    if bits >= 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}

impl Dom {
    pub fn new(seed: u64) -> Self {
        let mut d = Dom {
            fields: vec![
                FieldCtx::new("bn256::Fr", BN_FR),
                FieldCtx::new("pasta::Fp", PASTA_FP),
                FieldCtx::new("pasta::Fq", PASTA_FQ),
                FieldCtx::new("bn256::Fq", BN_FQ),
            ],
            polys: vec![],
            poly_ix: HashMap::new(),
            monos: vec![],
            mono_ix: HashMap::new(),
            atoms: vec![],
            atom_ix: HashMap::new(),
            syms: vec![],
            sym_ix: HashMap::new(),
            pit: HashMap::new(),
            pit_atom: HashMap::new(),
            seed,
            pit_used: 0,
            eq_checks: 0,
            expand_limit: 1,
            uniq: 0,
            points: HashMap::new(),
        };
        d.mono(vec![]);
        d
    }
    fn mono(&mut self, m: Vec<(AtomId, u64)>) -> MonoId {
        if let Some(i) = self.mono_ix.get(&m) {
            return *i;
        }
        let i = self.monos.len() as u32;
        self.monos.push(m.clone());
        self.mono_ix.insert(m, i);
        i
    }
    pub fn atom(&mut self, f: u8, a: Atom) -> AtomId {
        let k = (f, a);
        if let Some(i) = self.atom_ix.get(&k) {
            return *i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(k.clone());
        self.atom_ix.insert(k, i);
        i
    }
    pub fn poly(&mut self, field: u8, mut terms: Vec<(MonoId, C)>) -> PolyId {
        terms.retain(|t| t.1 != [0; 4]);
        let p = Poly { field, terms };
        if let Some(i) = self.poly_ix.get(&p) {
            return *i;
        }
        let i = self.polys.len() as u32;
        self.polys.push(p.clone());
        self.poly_ix.insert(p, i);
        i
    }
    pub fn konst(&mut self, f: u8, c: C) -> PolyId {
        self.poly(f, vec![(0, c)])
    }
    pub fn konst_u128(&mut self, f: u8, x: u128) -> PolyId {
        let c = self.fields[f as usize].from_u128(x);
        self.konst(f, c)
    }
    pub fn from_atom(&mut self, f: u8, a: Atom) -> PolyId {
        let a = self.atom(f, a);
        let m = self.mono(vec![(a, 1)]);
        let one = self.fields[f as usize].one;
        self.poly(f, vec![(m, one)])
    }
    pub fn var(&mut self, f: u8, name: &str) -> PolyId {
        self.from_atom(f, Atom::Var(name.to_string()))
    }
    pub fn as_const(&self, p: PolyId) -> Option<C> {
        let t = &self.polys[p as usize].terms;
        match t.len() {
            0 => Some([0; 4]),
            1 if t[0].0 == 0 => Some(t[0].1),
            _ => None,
        }
    }
    pub fn field_of(&self, p: PolyId) -> u8 {
        self.polys[p as usize].field
    }
    pub fn add_scaled(&mut self, a: PolyId, b: PolyId, k: &C) -> PolyId {
        let f = self.polys[a as usize].field;
        let fc = &self.fields[f as usize];
        let (x, y) = (&self.polys[a as usize].terms, &self.polys[b as usize].terms);
        let mut r = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j == y.len() || (i < x.len() && x[i].0 < y[j].0) {
                r.push(x[i]);
                i += 1;
            } else if i == x.len() || y[j].0 < x[i].0 {
                r.push((y[j].0, fc.mul(&y[j].1, k)));
                j += 1;
            } else {
                let c = fc.add(&x[i].1, &fc.mul(&y[j].1, k));
                r.push((x[i].0, c));
                i += 1;
                j += 1;
            }
        }
        self.poly(f, r)
    }
    pub fn add(&mut self, a: PolyId, b: PolyId) -> PolyId {
        let one = self.fields[self.field_of(a) as usize].one;
        self.add_scaled(a, b, &one)
    }
    pub fn sub(&mut self, a: PolyId, b: PolyId) -> PolyId {
        let fc = &self.fields[self.field_of(a) as usize];
        let m1 = fc.neg(&fc.one);
        self.add_scaled(a, b, &m1)
    }
    pub fn neg(&mut self, a: PolyId) -> PolyId {
        let f = self.field_of(a);
        let z = self.poly(f, vec![]);
        self.sub(z, a)
    }
    pub fn scale(&mut self, a: PolyId, k: &C) -> PolyId {
        let f = self.field_of(a);
        let fc = &self.fields[f as usize];
        let r = self.polys[a as usize].terms.iter().map(|(m, c)| (*m, fc.mul(c, k))).collect();
        self.poly(f, r)
    }
    fn mono_mul(&mut self, a: MonoId, b: MonoId) -> MonoId {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let mut m: Vec<(AtomId, u64)> = self.monos[a as usize].clone();
        for (at, e) in self.monos[b as usize].clone() {
            match m.binary_search_by_key(&at, |x| x.0) {
                Ok(i) => m[i].1 += e,
                Err(i) => m.insert(i, (at, e)),
            }
        }
        self.mono(m)
    }
    /// split into (leading coefficient, single-monomial polynomial)
    fn factor(&mut self, a: PolyId) -> (C, MonoId) {
        let f = self.field_of(a);
        let t = self.polys[a as usize].terms.clone();
        if t.len() == 1 {
            return (t[0].1, t[0].0);
        }
        let lead = t[t.len() - 1].1;
        let inv = self.fields[f as usize].inv(&lead);
        let n = self.scale(a, &inv);
        let at = self.atom(f, Atom::Lin(n));
        let m = self.mono(vec![(at, 1)]);
        (lead, m)
    }
    pub fn mul(&mut self, a: PolyId, b: PolyId) -> PolyId {
        let f = self.field_of(a);
        if let Some(c) = self.as_const(a) {
            return self.scale(b, &c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, &c);
        }
        let (la, lb) = (self.polys[a as usize].terms.len(), self.polys[b as usize].terms.len());
        if la * lb > 1 && la * lb <= self.expand_limit {
            let (ta, tb) = (self.polys[a as usize].terms.clone(), self.polys[b as usize].terms.clone());
            let mut acc: HashMap<MonoId, C> = HashMap::new();
            for (ma, ca) in &ta {
                for (mb, cb) in &tb {
                    let m = self.mono_mul(*ma, *mb);
                    let fc = &self.fields[f as usize];
                    let c = fc.mul(ca, cb);
                    let e = acc.entry(m).or_insert([0; 4]);
                    *e = fc.add(e, &c);
                }
            }
            let mut v: Vec<_> = acc.into_iter().collect();
            v.sort();
            return self.poly(f, v);
        }
        let (ca, ma) = self.factor(a);
        let (cb, mb) = self.factor(b);
        let m = self.mono_mul(ma, mb);
        let c = self.fields[f as usize].mul(&ca, &cb);
        self.poly(f, vec![(m, c)])
    }
    pub fn pow(&mut self, a: PolyId, e: &[u64]) -> PolyId {
        let f = self.field_of(a);
        if let Some(c) = self.as_const(a) {
            let r = self.fields[f as usize].pow(&c, e);
            return self.konst(f, r);
        }
        let hi = e.iter().skip(1).any(|x| *x != 0);
        if hi || e.is_empty() {
            if e.is_empty() {
                return self.konst_u128(f, 1);
            }
            let name = format!("pow{e:?}");
            return self.from_atom(f, Atom::Opaque(name, vec![a]));
        }
        let one = self.konst_u128(f, 1);
        let mut r = one;
        let mut base = a;
        let mut k = e[0];
        while k > 0 {
            if k & 1 == 1 {
                r = self.mul(r, base);
            }
            k >>= 1;
            if k > 0 {
                base = self.mul(base, base);
            }
        }
        r
    }
    /// inverse; caller deals with zero
    pub fn inverse(&mut self, a: PolyId) -> PolyId {
        let f = self.field_of(a);
        if let Some(c) = self.as_const(a) {
            let r = self.fields[f as usize].inv(&c);
            return self.konst(f, r);
        }
        let t = self.polys[a as usize].terms.clone();
        let lead = t[t.len() - 1].1;
        let inv = self.fields[f as usize].inv(&lead);
        let n = self.scale(a, &inv);
        let at = self.from_atom(f, Atom::Inv(n));
        self.scale(at, &inv)
    }
    pub fn ite(&mut self, c: SymId, a: PolyId, b: PolyId) -> PolyId {
        if a == b {
            return a;
        }
        let f = self.field_of(a);
        // both branches agree wherever the condition `p = 0` selects the first: the second is the value everywhere
        if let SymNode::EqF(p) = self.syms[c as usize].node {
            if self.field_of(p) == f {
                let d = self.sub(a, b);
                if self.divides(p, d) {
                    return b;
                }
            }
        }
        self.from_atom(f, Atom::Ite(c, a, b))
    }

    /// every term of `d` has `p` as a factor, or `d` is a multiple of `p`
    fn divides(&mut self, p: PolyId, d: PolyId) -> bool {
        let (tp, td) = (self.polys[p as usize].terms.clone(), self.polys[d as usize].terms.clone());
        if td.is_empty() {
            return true;
        }
        if tp.is_empty() {
            return false;
        }
        if tp.len() == td.len() {
            let k = {
                let fc = &self.fields[self.field_of(p) as usize];
                fc.mul(&td[0].1, &fc.inv(&tp[0].1))
            };
            if self.scale(p, &k) == d {
                return true;
            }
        }
        let (_, m) = self.factor(p);
        let fm = self.monos[m as usize].clone();
        td.iter().all(|(t, _)| {
            let tm = &self.monos[*t as usize];
            fm.iter().all(|(a, e)| tm.iter().any(|(b, k)| a == b && *k >= 1 && *e >= 1))
        })
    }

    // ---------- value numbering by random interpretation (fallback of the normal form)
    fn rnd(&self, f: u8, key: u64, k: u64) -> C {
        let mut s = self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ key.wrapping_mul(0xD1B54A32D192ED03) ^ (k << 60) ^ 0x1234567;
        let mut w = [0u64; 4];
        for x in w.iter_mut() {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            *x = z ^ (z >> 31);
        }
        self.fields[f as usize].from_int(&w)
    }
    fn pit_atom(&mut self, a: AtomId) -> [C; 2] {
        if let Some(x) = self.pit_atom.get(&a) {
            return *x;
        }
        let (f, at) = self.atoms[a as usize].clone();
        let r = match at {
            Atom::Lin(p) => self.pit(p),
            Atom::Inv(p) => {
                let v = self.pit(p);
                [self.fields[f as usize].inv(&v[0]), self.fields[f as usize].inv(&v[1])]
            }
            Atom::Ite(c, x, y) => {
                let (x, y) = (self.pit(x), self.pit(y));
                let mut o = [[0; 4]; 2];
                for k in 0..2 {
                    let cc = self.rnd(f, 0x7000_0000_0000 + c as u64, k as u64);
                    let fc = &self.fields[f as usize];
                    // c*x + (1-c)*y
                    o[k] = fc.add(&fc.mul(&cc, &fc.sub(&x[k], &y[k])), &y[k]);
                }
                o
            }
            Atom::Opaque(n, ps) => {
                let mut o = [[0; 4]; 2];
                let vs: Vec<[C; 2]> = ps.iter().map(|p| self.pit(*p)).collect();
                for k in 0..2 {
                    let mut h = 0xcbf29ce484222325u64;
                    for b in n.bytes() {
                        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                    }
                    for v in &vs {
                        for w in v[k] {
                            h = (h.rotate_left(23) ^ w).wrapping_mul(0x9E3779B97F4A7C15);
                        }
                    }
                    o[k] = self.rnd(f, h, k as u64);
                }
                o
            }
            _ => [self.rnd(f, a as u64 + 1, 0), self.rnd(f, a as u64 + 1, 1)],
        };
        self.pit_atom.insert(a, r);
        r
    }
    pub fn pit(&mut self, p: PolyId) -> [C; 2] {
        if let Some(x) = self.pit.get(&p) {
            return *x;
        }
        let Poly { field, terms } = self.polys[p as usize].clone();
        let mut o = [[0; 4]; 2];
        for (m, c) in terms {
            let mut v = [c, c];
            for (a, e) in self.monos[m as usize].clone() {
                let x = self.pit_atom(a);
                for k in 0..2 {
                    let fc = &self.fields[field as usize];
                    let y = fc.pow(&x[k], &[e]);
                    v[k] = fc.mul(&v[k], &y);
                }
            }
            for k in 0..2 {
                o[k] = self.fields[field as usize].add(&o[k], &v[k]);
            }
        }
        self.pit.insert(p, o);
        o
    }
    /// Semantic equality as formal expressions.
    pub fn same(&mut self, a: PolyId, b: PolyId) -> bool {
        self.eq_checks += 1;
        if a == b {
            return true;
        }
        if self.field_of(a) != self.field_of(b) {
            return false;
        }
        if self.as_const(a).is_some() && self.as_const(b).is_some() {
            return false;
        }
        self.pit_used += 1;
        self.pit(a) == self.pit(b)
    }

    // ---------- integers
    pub fn sym(&mut self, node: SymNode, bits: u32) -> SymId {
        let k = (node, bits);
        if let Some(i) = self.sym_ix.get(&k) {
            return *i;
        }
        let (lo, hi) = self.interval(&k.0, bits);
        let i = self.syms.len() as u32;
        self.syms.push(SymInfo { node: k.0.clone(), bits, lo, hi });
        self.sym_ix.insert(k, i);
        i
    }
    pub fn sym_var(&mut self, name: &str, bits: u32, lo: u128, hi: u128) -> SymId {
        let k = (SymNode::Var(name.to_string()), bits);
        if let Some(i) = self.sym_ix.get(&k) {
            return *i;
        }
        let i = self.syms.len() as u32;
        self.syms.push(SymInfo { node: k.0.clone(), bits, lo, hi });
        self.sym_ix.insert(k, i);
        i
    }
    pub fn range(&self, v: IVal) -> (u128, u128) {
        match v {
            IVal::Int(x) => (x, x),
            IVal::Sym(s) => (self.syms[s as usize].lo, self.syms[s as usize].hi),
        }
    }
    fn interval(&self, n: &SymNode, bits: u32) -> (u128, u128) {
        let full = (0, mask(bits));
        match n {
            SymNode::Bin(op, a, b) => {
                let ((al, ah), (bl, bh)) = (self.range(*a), self.range(*b));
                match op {
                    IOp::Add => match ah.checked_add(bh) {
                        Some(h) if h <= mask(bits) => (al + bl, h),
                        _ => full,
                    },
                    IOp::Sub => {
                        if al >= bh {
                            (al - bh, ah - bl)
                        } else {
                            full
                        }
                    }
                    IOp::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= mask(bits) => (al * bl, h),
                        _ => full,
                    },
                    IOp::Div => {
                        if bl > 0 {
                            (al / bh, ah / bl)
                        } else {
                            full
                        }
                    }
                    IOp::Rem => {
                        if bl > 0 {
                            (0, ah.min(bh - 1))
                        } else {
                            full
                        }
                    }
                    IOp::And => (0, ah.min(bh)),
                    IOp::Shr => match b {
                        IVal::Int(k) if *k < 128 => (al >> k, ah >> k),
                        _ => (0, ah),
                    },
                    IOp::Shl => match b {
                        IVal::Int(k) if *k < 128 && ah <= mask(bits) >> k => (al << k, ah << k),
                        _ => full,
                    },
                    IOp::Eq | IOp::Lt | IOp::Le | IOp::SLt | IOp::SLe | IOp::AddOvf | IOp::SubOvf | IOp::MulOvf => (0, 1),
                    _ => full,
                }
            }
            SymNode::Cast(a, _) => {
                let (l, h) = self.range(*a);
                if h <= mask(bits) {
                    (l, h)
                } else {
                    full
                }
            }
            SymNode::EqF(_) | SymNode::LtF(..) => (0, 1),
            SymNode::Ite(_, a, b) => {
                let ((al, ah), (bl, bh)) = (self.range(*a), self.range(*b));
                (al.min(bl), ah.max(bh))
            }
            _ => full,
        }
    }
    pub fn bits_of(&self, v: IVal) -> Option<u32> {
        match v {
            IVal::Sym(s) => Some(self.syms[s as usize].bits),
            _ => None,
        }
    }
    /// unsigned / bitwise operations on possibly symbolic integers
    pub fn bin(&mut self, op: IOp, a: IVal, b: IVal, bits: u32) -> IVal {
        let m = mask(bits);
        if let (IVal::Int(x), IVal::Int(y)) = (a, b) {
            let r = match op {
                IOp::Add => Some(x.wrapping_add(y) & m),
                IOp::Sub => Some(x.wrapping_sub(y) & m),
                IOp::Mul => Some(x.wrapping_mul(y) & m),
                IOp::Div if y != 0 => Some(x / y),
                IOp::Rem if y != 0 => Some(x % y),
                IOp::And => Some(x & y),
                IOp::Or => Some(x | y),
                IOp::Xor => Some(x ^ y),
                IOp::Eq => Some((x == y) as u128),
                IOp::Lt => Some((x < y) as u128),
                IOp::Le => Some((x <= y) as u128),
                IOp::Shl if y < 128 => Some((x << y) & m),
                IOp::Shr if y < 128 => Some(x >> y),
                _ => None,
            };
            if let Some(r) = r {
                return IVal::Int(r);
            }
        }
        let (ra, rb) = (self.range(a), self.range(b));
        match (op, a, b) {
            (IOp::Add | IOp::Or | IOp::Xor, x, IVal::Int(0)) | (IOp::Add | IOp::Or | IOp::Xor, IVal::Int(0), x) => return x,
            (IOp::Sub | IOp::Shl | IOp::Shr, x, IVal::Int(0)) => return x,
            (IOp::Mul, x, IVal::Int(1)) | (IOp::Mul, IVal::Int(1), x) => return x,
            (IOp::Mul, _, IVal::Int(0)) | (IOp::Mul, IVal::Int(0), _) => return IVal::Int(0),
            (IOp::And, _, IVal::Int(0)) | (IOp::And, IVal::Int(0), _) => return IVal::Int(0),
            (IOp::And, x, IVal::Int(k)) | (IOp::And, IVal::Int(k), x) if k == m => return x,
            (IOp::And, x, IVal::Int(k)) if k.wrapping_add(1).is_power_of_two() && self.range(x).1 <= k => return x,
            (IOp::Div, x, IVal::Int(1)) => return x,
            (IOp::Rem, x, IVal::Int(k)) if k > 0 && self.range(x).1 < k => return x,
            (IOp::Eq, x, y) if x == y => return IVal::Int(1),
            (IOp::Lt, x, y) if x == y => return IVal::Int(0),
            (IOp::Le, x, y) if x == y => return IVal::Int(1),
            (IOp::Sub, x, y) if x == y => return IVal::Int(0),
            (IOp::And | IOp::Or, x, y) if x == y => return x,
            (IOp::Xor, x, y) if x == y => return IVal::Int(0),
            (IOp::Eq, _, _) if ra.1 < rb.0 || rb.1 < ra.0 => return IVal::Int(0),
            (IOp::Lt, _, _) if ra.1 < rb.0 => return IVal::Int(1),
            (IOp::Lt, _, _) if ra.0 >= rb.1 => return IVal::Int(0),
            (IOp::Le, _, _) if ra.1 <= rb.0 => return IVal::Int(1),
            (IOp::Le, _, _) if ra.0 > rb.1 => return IVal::Int(0),
            (IOp::AddOvf, _, _) => {
                if let Some(h) = ra.1.checked_add(rb.1) {
                    if h <= m {
                        return IVal::Int(0);
                    }
                }
            }
            (IOp::SubOvf, _, _) => {
                if ra.0 >= rb.1 {
                    return IVal::Int(0);
                }
                if ra.1 < rb.0 {
                    return IVal::Int(1);
                }
            }
            (IOp::MulOvf, _, _) => {
                if let Some(h) = ra.1.checked_mul(rb.1) {
                    if h <= m {
                        return IVal::Int(0);
                    }
                }
            }
            // shifts by constants are multiplications / divisions
            (IOp::Shl, x, IVal::Int(k)) if k < 127 && ra.1 <= m >> k => return self.bin(IOp::Mul, x, IVal::Int(1 << k), bits),
            (IOp::Mul, IVal::Int(k), x @ IVal::Sym(_)) => return self.bin(IOp::Mul, x, IVal::Int(k), bits),
            (IOp::Div, x, IVal::Int(k)) if k.is_power_of_two() => return self.bin(IOp::Shr, x, IVal::Int(k.trailing_zeros() as u128), bits),
            // x & (2^k-1) is a truncation
            (IOp::And, x @ IVal::Sym(_), IVal::Int(k)) | (IOp::And, IVal::Int(k), x @ IVal::Sym(_))
                if k.wrapping_add(1).is_power_of_two() && [8, 16, 32, 64].contains(&k.wrapping_add(1).trailing_zeros()) =>
            {
                let w = k.wrapping_add(1).trailing_zeros();
                let t = self.cast(x, w, false);
                return self.cast(t, bits, false);
            }
            // !(a==b), eq with booleans
            (IOp::Eq, x @ IVal::Sym(s), IVal::Int(1)) | (IOp::Eq, IVal::Int(1), x @ IVal::Sym(s)) if self.syms[s as usize].hi <= 1 => {
                return x;
            }
            // eq of ite with constants
            (IOp::Eq, IVal::Sym(s), IVal::Int(k)) => {
                if let SymNode::Ite(c, x, y) = self.syms[s as usize].node.clone() {
                    let p = self.bin(IOp::Eq, x, IVal::Int(k), bits);
                    let q = self.bin(IOp::Eq, y, IVal::Int(k), bits);
                    if let (IVal::Int(p), IVal::Int(q)) = (p, q) {
                        return match (p, q) {
                            (1, 1) => IVal::Int(1),
                            (0, 0) => IVal::Int(0),
                            (1, 0) => IVal::Sym(c),
                            _ => self.not(IVal::Sym(c)),
                        };
                    }
                }
                if k == 0 && self.syms[s as usize].hi <= 1 {
                    // double negation
                    if let SymNode::Bin(IOp::Eq, inner, IVal::Int(0)) = self.syms[s as usize].node {
                        if self.range(inner).1 <= 1 {
                            return inner;
                        }
                    }
                }
                if let SymNode::Cast(inner, _) = self.syms[s as usize].node {
                    if self.range(inner).1 <= m {
                        let ib = self.bits_of(inner).unwrap_or(128);
                        return self.bin(IOp::Eq, inner, IVal::Int(k), ib);
                    }
                }
            }
            (IOp::Eq, IVal::Int(k), x @ IVal::Sym(_)) => return self.bin(IOp::Eq, x, IVal::Int(k), bits),
            // (x + c1) + c2, (x + c1) - c2 when no overflow
            (IOp::Add, IVal::Sym(s), IVal::Int(k)) => {
                if let SymNode::Bin(IOp::Add, x, IVal::Int(k0)) = self.syms[s as usize].node {
                    return self.bin(IOp::Add, x, IVal::Int(k0.wrapping_add(k) & m), bits);
                }
            }
            (IOp::Sub, x @ IVal::Sym(_), IVal::Int(k)) => {
                return self.bin(IOp::Add, x, IVal::Int(0u128.wrapping_sub(k) & m), bits);
            }
            (IOp::Add, IVal::Int(k), x @ IVal::Sym(_)) => return self.bin(IOp::Add, x, IVal::Int(k), bits),
            _ => {}
        }
        let rb = if matches!(op, IOp::Eq | IOp::Lt | IOp::Le | IOp::SLt | IOp::SLe | IOp::AddOvf | IOp::SubOvf | IOp::MulOvf) { 8 } else { bits };
        IVal::Sym(self.sym(SymNode::Bin(op, a, b), rb))
    }
    pub fn not(&mut self, a: IVal) -> IVal {
        self.bin(IOp::Eq, a, IVal::Int(0), 8)
    }
    /// zero-extension or truncation (sext when signed source and widening)
    pub fn cast(&mut self, a: IVal, bits: u32, sext_from: bool) -> IVal {
        match a {
            IVal::Int(x) => IVal::Int(x & mask(bits)),
            IVal::Sym(s) => {
                let i = &self.syms[s as usize];
                if i.bits == bits {
                    return a;
                }
                if sext_from && i.hi > mask(i.bits) >> 1 && bits > i.bits {
                    return IVal::Sym(self.sym(SymNode::SExt(a, bits), bits));
                }
                if let SymNode::Cast(inner, w) = i.node {
                    // trunc(zext x), zext(zext x)
                    if self.range(inner).1 <= mask(w) {
                        return self.cast(inner, bits, false);
                    }
                    if bits <= w {
                        return self.cast(inner, bits, false);
                    }
                }
                IVal::Sym(self.sym(SymNode::Cast(a, bits), bits))
            }
        }
    }
    pub fn ite_int(&mut self, c: SymId, a: IVal, b: IVal, bits: u32) -> IVal {
        if a == b {
            return a;
        }
        if let (IVal::Int(1), IVal::Int(0)) = (a, b) {
            if bits == 8 {
                return IVal::Sym(c);
            }
        }
        if let (IVal::Int(0), IVal::Int(1)) = (a, b) {
            if bits == 8 {
                return self.not(IVal::Sym(c));
            }
        }
        IVal::Sym(self.sym(SymNode::Ite(c, a, b), bits))
    }
    /// field equality as a (possibly symbolic) boolean
    pub fn eq_f(&mut self, a: PolyId, b: PolyId) -> IVal {
        if self.same(a, b) {
            return IVal::Int(1);
        }
        let d = self.sub(a, b);
        if let Some(c) = self.as_const(d) {
            return IVal::Int((c == [0; 4]) as u128);
        }
        if !self.points.is_empty() && self.only_points(d, 0) {
            return IVal::Int(0);
        }
        let t = self.polys[d as usize].terms.clone();
        let f = self.field_of(d);
        let inv = self.fields[f as usize].inv(&t[t.len() - 1].1);
        let n = self.scale(d, &inv);
        IVal::Sym(self.sym(SymNode::EqF(n), 8))
    }
    fn only_points(&self, p: PolyId, depth: u32) -> bool {
        depth < 8
            && self.polys[p as usize].terms.iter().all(|(m, _)| {
                self.monos[*m as usize].iter().all(|(a, _)| {
                    self.points.contains_key(a)
                        || match &self.atoms[*a as usize].1 {
                            Atom::Lin(q) | Atom::Inv(q) => self.only_points(*q, depth + 1),
                            _ => false,
                        }
                })
            })
    }
    fn point_rank(&self, p: PolyId) -> Option<u64> {
        let t = &self.polys[p as usize].terms;
        if t.len() != 1 || t[0].1 != self.fields[self.field_of(p) as usize].one {
            return None;
        }
        match self.monos[t[0].0 as usize][..] {
            [(a, 1)] => self.points.get(&a).copied(),
            _ => None,
        }
    }
    pub fn lt_f(&mut self, a: PolyId, b: PolyId) -> IVal {
        if let (Some(x), Some(y)) = (self.point_rank(a), self.point_rank(b)) {
            return IVal::Int((x < y) as u128);
        }
        if self.same(a, b) {
            return IVal::Int(0);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let fc = &self.fields[self.field_of(a) as usize];
            let (x, y) = (fc.to_int(&x), fc.to_int(&y));
            return IVal::Int((!geq(&x, &y)) as u128);
        }
        IVal::Sym(self.sym(SymNode::LtF(a, b), 8))
    }
    /// embedding of an unsigned integer value into the field
    pub fn embed(&mut self, f: u8, v: IVal) -> PolyId {
        match v {
            IVal::Int(x) => self.konst_u128(f, x),
            IVal::Sym(s) => {
                let (node, bits, hi) = {
                    let i = &self.syms[s as usize];
                    (i.node.clone(), i.bits, i.hi)
                };
                match node {
                    SymNode::Bin(IOp::Add, a, b) if self.no_ovf(IOp::AddOvf, a, b, bits) => {
                        let (x, y) = (self.embed(f, a), self.embed(f, b));
                        self.add(x, y)
                    }
                    SymNode::Bin(IOp::Mul, a, b) if self.no_ovf(IOp::MulOvf, a, b, bits) => {
                        let (x, y) = (self.embed(f, a), self.embed(f, b));
                        self.mul(x, y)
                    }
                    SymNode::Cast(a, w) if self.range(a).1 <= mask(w) => self.embed(f, a),
                    SymNode::Ite(c, a, b) => {
                        let (x, y) = (self.embed(f, a), self.embed(f, b));
                        self.ite(c, x, y)
                    }
                    _ if hi > u64::MAX as u128 => {
                        let lo = self.cast(v, 64, false);
                        let h = self.bin(IOp::Shr, v, IVal::Int(64), bits);
                        let h = self.cast(h, 64, false);
                        let l = self.embed(f, lo);
                        let h = self.embed(f, h);
                        let k = self.fields[f as usize].from_u128(1 << 64);
                        self.add_scaled(l, h, &k)
                    }
                    _ => self.from_atom(f, Atom::Int(s)),
                }
            }
        }
    }
    fn no_ovf(&mut self, op: IOp, a: IVal, b: IVal, bits: u32) -> bool {
        let (ra, rb) = (self.range(a), self.range(b));
        match op {
            IOp::AddOvf => ra.1.checked_add(rb.1).map_or(false, |h| h <= mask(bits)),
            _ => ra.1.checked_mul(rb.1).map_or(false, |h| h <= mask(bits)),
        }
    }

    // ---------- printing
    pub fn show(&self, p: PolyId, depth: u32) -> String {
        let Poly { field, terms } = &self.polys[p as usize];
        if terms.is_empty() {
            return "0".into();
        }
        let fc = &self.fields[*field as usize];
        let mut parts = vec![];
        for (m, c) in terms.iter().take(6) {
            let ms: Vec<String> = self.monos[*m as usize]
                .iter()
                .map(|(a, e)| {
                    let s = self.show_atom(*a, depth);
                    if *e == 1 { s } else { format!("{s}^{e}") }
                })
                .collect();
            if ms.is_empty() {
                parts.push(fc.show(c));
            } else if *c == fc.one {
                parts.push(ms.join("*"));
            } else {
                parts.push(format!("{}*{}", fc.show(c), ms.join("*")));
            }
        }
        if terms.len() > 6 {
            parts.push(format!("...({} terms)", terms.len()));
        }
        parts.join(" + ")
    }
    fn show_atom(&self, a: AtomId, depth: u32) -> String {
        match &self.atoms[a as usize].1 {
            Atom::Var(n) => n.clone(),
            Atom::Int(s) => self.show_sym(*s, depth),
            _ if depth == 0 => format!("<{a}>"),
            Atom::Lin(p) => format!("({})", self.show(*p, depth - 1)),
            Atom::Inv(p) => format!("inv({})", self.show(*p, depth - 1)),
            Atom::Ite(c, x, y) => format!("[{} ? {} : {}]", self.show_sym(*c, depth - 1), self.show(*x, depth - 1), self.show(*y, depth - 1)),
            Atom::Opaque(n, args) => format!("{n}({})", args.iter().map(|p| self.show(*p, depth - 1)).collect::<Vec<_>>().join(",")),
        }
    }
    pub fn show_i(&self, v: IVal, depth: u32) -> String {
        match v {
            IVal::Int(x) => format!("{x}"),
            IVal::Sym(s) => self.show_sym(s, depth),
        }
    }
    pub fn show_sym(&self, s: SymId, depth: u32) -> String {
        let i = &self.syms[s as usize];
        match &i.node {
            SymNode::Var(n) => n.clone(),
            _ if depth == 0 => format!("<s{s}>"),
            SymNode::Bin(op, a, b) => format!("({} {:?} {})", self.show_i(*a, depth - 1), op, self.show_i(*b, depth - 1)),
            SymNode::Cast(a, w) => format!("({} as u{w})", self.show_i(*a, depth - 1)),
            SymNode::SExt(a, w) => format!("({} as i{w})", self.show_i(*a, depth - 1)),
            SymNode::EqF(p) => format!("({} == 0)", self.show(*p, depth - 1)),
            SymNode::LtF(p, q) => format!("({} < {})", self.show(*p, depth - 1), self.show(*q, depth - 1)),
            SymNode::Ite(c, a, b) => format!("[{} ? {} : {}]", self.show_sym(*c, depth - 1), self.show_i(*a, depth - 1), self.show_i(*b, depth - 1)),
            SymNode::Opaque(n, _) => format!("{n}"),
        }
    }
}
