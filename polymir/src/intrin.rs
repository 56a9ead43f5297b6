//! Transfer functions of compiler intrinsics.

use crate::dom::*;
use crate::interp::*;
use crate::mem::*;
use rustc_middle::mir::BinOp;
use rustc_middle::ty::{self, Instance, Ty};
use std::rc::Rc;

impl<'tcx> Interp<'tcx> {
    /// None: use the fallback body
    pub fn intrinsic(&mut self, name: &str, inst: Instance<'tcx>, args: &[Arg<'tcx>], dst: Val, dty: Ty<'tcx>) -> Res<Option<Flow>> {
        let ok = Ok(Some(Flow::Return));
        let t0 = inst.args.types().next();
        macro_rules! a {
            ($i:expr) => {
                self.arg(&args[$i])?
            };
        }
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                let s = self.size_of(dty)?;
                self.write(dst, s, v)?;
                return ok;
            }};
        }
        match name {
            "size_of" => {
                let s = self.size_of(t0.unwrap())?;
                ret!(Val::Int(s as u128))
            }
            "align_of" | "min_align_of" | "pref_align_of" => {
                let l = self.layout(t0.unwrap())?;
                ret!(Val::Int(l.align.abi.bytes() as u128))
            }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let t = t0.unwrap();
                let meta = if self.is_sized(t) {
                    None
                } else {
                    let q = self.ptr_add(args[0].v, 8)?;
                    Some(self.read(q, 8)?)
                };
                let (s, al) = self.size_align_of_val(t, meta)?;
                ret!(Val::Int(if name == "size_of_val" { s } else { al } as u128))
            }
            "needs_drop" => {
                let b = t0.unwrap().needs_drop(self.tcx, self.te);
                ret!(Val::Int(b as u128))
            }
            "type_id" => {
                let h = self.tcx.type_id_hash(t0.unwrap()).as_u128();
                self.write(dst, 8, Val::Int(h & mask(64)))?;
                let q = self.ptr_add(dst, 8)?;
                self.write(q, 8, Val::Int(h >> 64))?;
                ok
            }
            "type_id_eq" => {
                let mut h = [[0u64; 2]; 2];
                for i in 0..2 {
                    for k in 0..2 {
                        let q = self.ptr_add(args[i].v, 8 * k as i64)?;
                        h[i][k] = match self.read(q, 8)? {
                            Val::Int(x) => x as u64,
                            Val::Ptr(p) => p.off as u64,
                            _ => return und("type_id_eq"),
                        };
                    }
                }
                ret!(Val::Int((h[0] == h[1]) as u128))
            }
            "type_name" => {
                let a = self.new_heap(1, AKind::Const);
                self.write(dst, 8, Val::Ptr(Ptr { a, off: 0 }))?;
                let q = self.ptr_add(dst, 8)?;
                self.write(q, 8, Val::Int(0))?;
                ok
            }
            "transmute" | "transmute_unchecked" => {
                let s = self.size_of(dty)?;
                self.copy(args[0].v, dst, s)?;
                ok
            }
            "black_box" => {
                let s = self.size_of(dty)?;
                self.copy(args[0].v, dst, s)?;
                ok
            }
            "forget" | "assume" | "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "drop_in_place_noop"
            | "prefetch_read_data" | "atomic_fence" | "atomic_singlethreadfence" => ok,
            "abort" => Ok(Some(Flow::Panic(format!("abort at {}", self.repo_loc())))),
            "unreachable" => und(format!("unreachable code reached; at {}", self.backtrace())),
            "likely" | "unlikely" => {
                let v = a!(0);
                ret!(v)
            }
            "is_val_statically_known" | "ub_checks" | "contract_checks" => ret!(Val::Int(0)),
            "overflow_checks" => ret!(Val::Int(1)),
            "offset" | "arith_offset" => {
                let p = a!(0);
                let n = a!(1);
                let t = match name {
                    "offset" => args[0].ty.builtin_deref(true).unwrap(),
                    _ => t0.unwrap(),
                };
                let s = self.size_of(t)?;
                let n = match n {
                    Val::Ptr(q) => q.fake(),
                    n => self.conc(n)? as u64 as i64,
                };
                let r = self.ptr_add(p, n.wrapping_mul(s as i64))?;
                ret!(r)
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let (p, q) = (a!(0), a!(1));
                let s = self.size_of(t0.unwrap())?;
                match (p, q) {
                    (Val::Ptr(x), Val::Ptr(y)) if x.a == y.a => ret!(Val::Int(((x.off - y.off) / s as i64) as u64 as u128)),
                    (Val::Int(x), Val::Int(y)) => ret!(Val::Int(((x as i64 - y as i64) / s.max(1) as i64) as u64 as u128)),
                    _ => und(format!("distance of unrelated pointers {p:?} {q:?}; at {}", self.backtrace())),
                }
            }
            "ptr_guaranteed_cmp" => {
                let (p, q) = (a!(0), a!(1));
                ret!(Val::Int((p == q) as u128))
            }
            "ptr_mask" => {
                let (p, m) = (a!(0), a!(1));
                let usz = self.tcx.types.usize;
                let r = self.binop(BinOp::BitAnd, p, m, usz, usz)?;
                ret!(r)
            }
            "ptr_metadata" => {
                let s = self.size_of(args[0].ty)?;
                if s == 16 {
                    let q = self.ptr_add(args[0].v, 8)?;
                    let v = self.read(q, 8)?;
                    ret!(v)
                }
                ok
            }
            "aggregate_raw_ptr" => {
                let v = a!(0);
                self.write(dst, 8, v)?;
                if self.size_of(dty)? == 16 {
                    let m = a!(1);
                    let q = self.ptr_add(dst, 8)?;
                    self.write(q, 8, m)?;
                }
                ok
            }
            "slice_get_unchecked" => {
                // args: pointer/reference to slice, index
                let p = self.read(args[0].v, 8)?;
                let i = a!(1);
                let i = self.conc(i)? as i64;
                let s = match dty.builtin_deref(true) {
                    Some(t) => self.size_of(t)?,
                    None => return und("slice_get_unchecked"),
                };
                let r = self.ptr_add(p, i * s as i64)?;
                ret!(r)
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let p = a!(0);
                let s = self.size_of(dty)?;
                self.copy(p, dst, s)?;
                ok
            }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
                let p = a!(0);
                let s = self.size_of(args[1].ty)?;
                self.copy(args[1].v, p, s)?;
                ok
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => {
                let (mut p, mut q, n) = (a!(0), a!(1), a!(2));
                if name.starts_with("volatile") {
                    std::mem::swap(&mut p, &mut q);
                }
                let s = self.size_of(t0.unwrap())?;
                let n = self.conc(n)? as u64;
                self.copy(p, q, n * s)?;
                ok
            }
            "write_bytes" => {
                let (p, b, n) = (a!(0), a!(1), a!(2));
                let s = self.size_of(t0.unwrap())?;
                let n = self.conc(n)? as u64 * s;
                let b = self.conc(b)?;
                let mut i = 0;
                while i < n {
                    let k = (n - i).min(8);
                    let mut x = 0u128;
                    for j in 0..k {
                        x |= b << (8 * j);
                    }
                    let q = self.ptr_add(p, i as i64)?;
                    self.write(q, k, Val::Int(x))?;
                    i += k;
                }
                ok
            }
            "compare_bytes" => {
                let (p, q, n) = (a!(0), a!(1), a!(2));
                let n = self.conc(n)? as u64;
                if n == 0 {
                    ret!(Val::Int(0))
                }
                let (Some(x), Some(y)) = (self.bytes_at(p, n)?, self.bytes_at(q, n)?) else {
                    return und(format!("comparison of unknown bytes; at {}", self.backtrace()));
                };
                let o = x.cmp(&y) as i8 as i32 as u32;
                ret!(Val::Int(o as u128))
            }
            "raw_eq" => {
                let t = t0.unwrap();
                let n = self.size_of(t)?;
                if n == 0 {
                    ret!(Val::Int(1))
                }
                let (p, q) = (a!(0), a!(1));
                let (Some(x), Some(y)) = (self.bytes_at(p, n)?, self.bytes_at(q, n)?) else {
                    return und(format!("comparison of unknown bytes; at {}", self.backtrace()));
                };
                ret!(Val::Int((x == y) as u128))
            }
            "typed_swap_nonoverlapping" => {
                let (p, q) = (a!(0), a!(1));
                let s = self.size_of(t0.unwrap())?;
                if s > 0 {
                    let t = self.tmp(s);
                    self.copy(p, t, s)?;
                    self.copy(q, p, s)?;
                    self.copy(t, q, s)?;
                    self.mem.stack.pop();
                }
                ok
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (x, y) = (a!(0), a!(1));
                let op = match name {
                    "add_with_overflow" => BinOp::AddWithOverflow,
                    "sub_with_overflow" => BinOp::SubWithOverflow,
                    _ => BinOp::MulWithOverflow,
                };
                let (r, o) = self.checked(op, x, y, args[0].ty)?;
                let (o0, ty) = self.field_off(dty, None, 0)?;
                let (o1, _) = self.field_off(dty, None, 1)?;
                let s = self.size_of(ty)?;
                let p0 = self.ptr_add(dst, o0 as i64)?;
                let p1 = self.ptr_add(dst, o1 as i64)?;
                self.write(p0, s, r)?;
                self.write(p1, 1, o)?;
                ok
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div" | "exact_div"
            | "unchecked_rem" | "unchecked_shl" | "unchecked_shr" | "disjoint_bitor" | "three_way_compare" => {
                let (x, y) = (a!(0), a!(1));
                let op = match name {
                    "wrapping_add" | "unchecked_add" => BinOp::Add,
                    "wrapping_sub" | "unchecked_sub" => BinOp::Sub,
                    "wrapping_mul" | "unchecked_mul" => BinOp::Mul,
                    "unchecked_div" | "exact_div" => BinOp::Div,
                    "unchecked_rem" => BinOp::Rem,
                    "unchecked_shl" => BinOp::Shl,
                    "unchecked_shr" => BinOp::Shr,
                    "disjoint_bitor" => BinOp::BitOr,
                    _ => BinOp::Cmp,
                };
                let r = self.binop(op, x, y, args[0].ty, args[1].ty)?;
                ret!(r)
            }
            "saturating_add" | "saturating_sub" => {
                if args[0].ty.is_signed() {
                    return und("signed saturating arithmetic");
                }
                let (x, y) = (a!(0), a!(1));
                let add = name == "saturating_add";
                let op = if add { BinOp::AddWithOverflow } else { BinOp::SubWithOverflow };
                let (r, o) = self.checked(op, x, y, args[0].ty)?;
                let s = self.size_of(dty)?;
                let sat = Val::Int(if add { mask(8 * s as u32) } else { 0 });
                let v = match o {
                    Val::Int(0) => r,
                    Val::Int(_) => sat,
                    Val::Sym(c) => {
                        let (a, b) = (self.ival(sat)?, self.ival(r)?);
                        let v = self.dom.ite_int(c, a, b, 8 * s as u32);
                        self.of_ival(v)
                    }
                    _ => return und("saturating"),
                };
                ret!(v)
            }
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" | "bswap" | "bitreverse" => {
                let x = a!(0);
                let x = self.conc(x)?;
                let bits = 8 * self.size_of(args[0].ty)? as u32;
                let r = match name {
                    "ctpop" => x.count_ones() as u128,
                    "ctlz" | "ctlz_nonzero" => (x.leading_zeros() - (128 - bits)) as u128,
                    "cttz" | "cttz_nonzero" => x.trailing_zeros().min(bits) as u128,
                    "bswap" => x.swap_bytes() >> (128 - bits),
                    _ => x.reverse_bits() >> (128 - bits),
                };
                ret!(Val::Int(r))
            }
            "rotate_left" | "rotate_right" => {
                let (x, n) = (a!(0), a!(1));
                let bits = 8 * self.size_of(args[0].ty)? as u32;
                let (x, n) = (self.conc(x)?, self.conc(n)? as u32 % bits);
                let n = if name == "rotate_left" { n } else { (bits - n) % bits };
                let m = mask(bits);
                let r = if n == 0 { x } else { ((x << n) | (x >> (bits - n))) & m };
                ret!(Val::Int(r))
            }
            "discriminant_value" => {
                let p = a!(0);
                let t = args[0].ty.builtin_deref(true).unwrap();
                let v = self.read_discr(p, t)?;
                ret!(v)
            }
            "variant_count" => match t0.unwrap().kind() {
                ty::Adt(d, _) => ret!(Val::Int(d.variants().len() as u128)),
                _ => ret!(Val::Int(0)),
            },
            "caller_location" => {
                let a = self.new_heap(64, AKind::Const);
                self.mem.get_mut(a).raw = Raw::Bytes(Rc::new(vec![0; 64]));
                ret!(Val::Ptr(Ptr { a, off: 0 }))
            }
            "vtable_size" | "vtable_align" => {
                let p = a!(0);
                let t = match self.special(p) {
                    Some(Special::VTable(t, _)) => *t,
                    _ => return und("vtable_size"),
                };
                let l = self.layout(t)?;
                let r = if name == "vtable_size" { l.size.bytes() } else { l.align.abi.bytes() };
                ret!(Val::Int(r as u128))
            }
            "const_eval_select" => {
                // use the compile-time version: it is equivalent and only uses core
                let f = args[1].ty;
                let (fi, rc) = match f.kind() {
                    ty::FnDef(d, a) => (self.resolve(*d, a.skip_binder())?, false),
                    _ => return und("const_eval_select"),
                };
                let ty::Tuple(fs) = args[0].ty.kind() else { return und("const_eval_select") };
                let mut v = vec![];
                for i in 0..fs.len() {
                    let (off, t) = self.field_off(args[0].ty, None, i)?;
                    let q = self.ptr_add(args[0].v, off as i64)?;
                    v.push(Arg { v: q, ty: t, meta: None });
                }
                let fl = self.call(fi, &v, dst, dty, rc)?;
                Ok(Some(fl))
            }
            "catch_unwind" => {
                let (f, d) = (a!(0), args[1]);
                let fi = match self.special(f) {
                    Some(Special::Fn(i)) => *i,
                    _ => return und("catch_unwind"),
                };
                let t = self.tmp(0);
                let unit = self.tcx.types.unit;
                match self.call(fi, &[d], t, unit, false)? {
                    Flow::Return => ret!(Val::Int(0)),
                    Flow::Panic(p) => und(format!("caught panic: {p}")),
                }
            }
            _ if name.starts_with("atomic_") => {
                let n = &name[7..];
                let op = n.split('_').next().unwrap();
                match op {
                    "load" => {
                        let p = a!(0);
                        let s = self.size_of(dty)?;
                        self.copy(p, dst, s)?;
                        ok
                    }
                    "store" => {
                        let p = a!(0);
                        let s = self.size_of(args[1].ty)?;
                        self.copy(args[1].v, p, s)?;
                        ok
                    }
                    "xchg" => {
                        let p = a!(0);
                        let s = self.size_of(args[1].ty)?;
                        self.copy(p, dst, s)?;
                        self.copy(args[1].v, p, s)?;
                        ok
                    }
                    "cxchg" | "cxchgweak" => {
                        let p = a!(0);
                        let s = self.size_of(args[1].ty)?;
                        let cur = self.read(p, s)?;
                        let old = a!(1);
                        let eq = match (cur, old) {
                            (Val::Int(x), Val::Int(y)) => x == y,
                            (Val::Ptr(x), Val::Ptr(y)) => x == y,
                            (Val::Ptr(_), Val::Int(_)) | (Val::Int(_), Val::Ptr(_)) => false,
                            _ => return und(format!("atomic compare of unknown values; at {}", self.backtrace())),
                        };
                        let (o0, _) = self.field_off(dty, None, 0)?;
                        let (o1, _) = self.field_off(dty, None, 1)?;
                        let q0 = self.ptr_add(dst, o0 as i64)?;
                        let q1 = self.ptr_add(dst, o1 as i64)?;
                        self.write(q0, s, cur)?;
                        self.write(q1, 1, Val::Int(eq as u128))?;
                        if eq {
                            self.copy(args[2].v, p, s)?;
                        }
                        ok
                    }
                    "xadd" | "xsub" | "and" | "or" | "xor" => {
                        let p = a!(0);
                        let s = self.size_of(dty)?;
                        let cur = self.read(p, s)?;
                        let x = a!(1);
                        let bop = match op {
                            "xadd" => BinOp::Add,
                            "xsub" => BinOp::Sub,
                            "and" => BinOp::BitAnd,
                            "or" => BinOp::BitOr,
                            _ => BinOp::BitXor,
                        };
                        let r = self.binop(bop, cur, x, args[1].ty, args[1].ty)?;
                        self.write(p, s, r)?;
                        self.write(dst, s, cur)?;
                        ok
                    }
                    _ => Ok(None),
                }
            }
            _ => Ok(None),
        }
    }
}
