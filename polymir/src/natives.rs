//! Which callee is interpreted from its MIR, which has an abstract transfer function, and those
//! transfer functions (field arithmetic, the `verif` primitives of the obligations, allocation).

use crate::dom::*;
use crate::interp::*;
use crate::mem::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty};
use rustc_abi::VariantIdx;
use std::rc::Rc;

pub const FIELD_OPS: &[&str] = &[
    "add", "sub", "mul", "neg", "add_assign", "sub_assign", "mul_assign", "square", "double", "cube", "invert", "pow",
    "pow_vartime", "is_zero", "is_zero_vartime", "eq", "ne", "ct_eq", "ct_ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge",
    "from", "from_u128", "zero", "one", "default", "from_str_vartime", "from_repr", "from_repr_vartime", "to_repr",
    "from_raw", "from_bytes", "to_bytes", "from_uniform_bytes", "clone", "conditional_select", "is_odd", "is_even", "fmt", "hash",
];
const FIELD_TRAITS: &[&str] = &[
    "Add", "Sub", "Mul", "Neg", "AddAssign", "SubAssign", "MulAssign", "Field", "PrimeField", "FromUniformBytes", "PartialEq", "Eq", "Ord",
    "PartialOrd", "From", "Default", "Clone", "ConditionallySelectable", "ConstantTimeEq", "Debug", "Display", "Hash", "FieldExt",
];
const FIELD_TRAIT_CRATES: &[&str] = &["core", "std", "ff", "subtle", "halo2curves", "pasta_curves", "group", "alloc"];

/// std / dependency functions replaced by a Rust model of the obligations crate
pub const MODELS: &[(&str, &str)] = &[
    ("alloc::fmt::format", "models::fmt_format"),
    ("std::fmt::format", "models::fmt_format"),
    ("std::sync::Once::call_once", "models::once_call_once"),
    ("std::sync::Once::call_once_force", "models::once_call_once_force"),
    ("std::sync::Once::is_completed", "models::once_is_completed"),
    ("std::env::var", "models::env_var"),
    ("std::env::var_os", "models::env_var_os"),
    ("std::thread::available_parallelism", "models::available_parallelism"),
    ("std::time::Instant::now", "models::instant_now"),
    ("std::time::Instant::elapsed", "models::instant_elapsed"),
];

impl<'tcx> Interp<'tcx> {
    pub fn fld_ty(&mut self, ty: Ty<'tcx>) -> Option<u8> {
        if let Some(x) = self.fld_tys.get(&ty) {
            return *x;
        }
        let r = match ty.kind() {
            ty::Adt(d, _) => {
                let c = self.tcx.crate_name(d.did().krate);
                let p = self.tcx.def_path(d.did()).to_string_no_crate_verbose();
                match (c.as_str(), p.as_str()) {
                    ("halo2curves", "::bn256::fr::Fr") => Some(0),
                    ("halo2curves", "::bn256::fq::Fq") => Some(3),
                    ("pasta_curves", "::fields::fp::Fp") => Some(1),
                    ("pasta_curves", "::fields::fq::Fq") => Some(2),
                    _ if p == "::symf::SymF" => Some(0),
                    _ => None,
                }
            }
            _ => None,
        };
        self.fld_tys.insert(ty, r);
        r
    }
    pub fn is_symf(&self, ty: Ty<'tcx>) -> bool {
        match ty.kind() {
            ty::Adt(d, _) => self.tcx.def_path(d.did()).to_string_no_crate_verbose() == "::symf::SymF",
            _ => false,
        }
    }
    /// Self type and defining trait's crate of an associated function
    fn assoc_info(&self, inst: Instance<'tcx>) -> Option<(Ty<'tcx>, String)> {
        let d = inst.def_id();
        let (parent, kind) = self.tcx.assoc_parent(d)?;
        match kind {
            DefKind::Trait => {
                let mut c = self.tcx.crate_name(parent.krate).to_string();
                if !FIELD_TRAITS.contains(&self.tcx.item_name(parent).as_str()) {
                    c = "?".into();
                }
                let t = inst.args.types().next()?;
                Some((t, c))
            }
            DefKind::Impl { of_trait } => {
                let t = self.tcx.type_of(parent).instantiate(self.tcx, inst.args).skip_norm_wip();
                let c = if of_trait {
                    let td = self.tcx.impl_trait_id(parent);
                    if FIELD_TRAITS.contains(&self.tcx.item_name(td).as_str()) {
                        self.tcx.crate_name(td.krate).to_string()
                    } else {
                        "?".into()
                    }
                } else {
                    "".into()
                };
                Some((t, c))
            }
            _ => None,
        }
    }
    fn native_id(&mut self, n: &str) -> u32 {
        if let Some(i) = self.native_names.iter().position(|x| x == n) {
            return i as u32;
        }
        self.native_names.push(n.to_string());
        self.native_names.len() as u32 - 1
    }
    pub fn handler(&mut self, inst: Instance<'tcx>) -> Res<Rc<Handler<'tcx>>> {
        if let Some(h) = self.handlers.get(&inst) {
            return Ok(h.clone());
        }
        let h = Rc::new(self.mk_handler(inst)?);
        self.handlers.insert(inst, h.clone());
        Ok(h)
    }
    pub fn local_path(&self, d: DefId) -> String {
        self.tcx.def_path(d).to_string_no_crate_verbose().trim_start_matches("::").to_string()
    }
    fn mk_handler(&mut self, inst: Instance<'tcx>) -> Res<Handler<'tcx>> {
        let tcx = self.tcx;
        match inst.def {
            InstanceKind::Virtual(d, i) => return Ok(Handler::Virtual(d, i)),
            InstanceKind::Intrinsic(d) => {
                let i = tcx.intrinsic(d).unwrap();
                let fb = if i.must_be_overridden { None } else { self.mir(Instance { def: InstanceKind::Item(d), args: inst.args }) };
                return Ok(Handler::Intrinsic(i.name.to_string(), fb));
            }
            InstanceKind::LlvmIntrinsic(d) => return Ok(Handler::Intrinsic(format!("llvm:{}", tcx.item_name(d)), None)),
            InstanceKind::Shim(ty::ShimKind::DropGlue(_, None)) => return Ok(Handler::Nop),
            InstanceKind::Shim(ty::ShimKind::Clone(_, t)) if self.fld_ty(t).is_some() => return Ok(Handler::Native(self.native_id("f:clone"))),
            InstanceKind::Shim(_) => {
                return Ok(match self.mir(inst) {
                    Some(b) => Handler::Body(b),
                    None => Handler::Missing(format!("{inst:?}")),
                })
            }
            InstanceKind::Item(_) => {}
        }
        let d = inst.def_id();
        let path = tcx.def_path_str(d);
        let krate = tcx.crate_name(d.krate).to_string();
        if d.is_local() {
            let lp = self.local_path(d);
            if let Some(n) = lp.strip_prefix("verif::") {
                if !n.contains("::") {
                    return Ok(Handler::Native(self.native_id(&format!("v:{n}"))));
                }
            }
        }
        if krate == "halo2_proofs" && path.ends_with("record::origin") {
            return Ok(Handler::Native(self.native_id("v:origin")));
        }
        // field operations
        if let Some((st, c)) = self.assoc_info(inst) {
            let base = st.peel_refs();
            if self.fld_ty(base).is_some() {
                let name = tcx.item_name(d).to_string();
                let inherent_ok = c.is_empty() && (krate == "halo2curves" || krate == "pasta_curves");
                let lib = d.is_local() || ["core", "ff", "subtle", "halo2curves", "pasta_curves", "group"].contains(&krate.as_str());
                if lib && (inherent_ok || FIELD_TRAIT_CRATES.contains(&c.as_str())) && FIELD_OPS.contains(&name.as_str()) {
                    return Ok(Handler::Native(self.native_id(&format!("f:{name}"))));
                }
            }
        }
        if let Some((_, m)) = MODELS.iter().find(|(p, _)| *p == path) {
            if let Some(md) = self.models.get(*m) {
                let i = Instance::new_raw(*md, inst.args);
                return Ok(Handler::Model(i));
            }
        }
        if let Some(n) = self.std_native(&krate, &path, &tcx.opt_item_name(d)) {
            return Ok(Handler::Native(self.native_id(n)));
        }
        // diverging functions
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
            let sig = tcx.instantiate_bound_regions_with_erased(sig);
            if sig.output().is_never() {
                return Ok(Handler::Panic);
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            return Ok(match self.mir(inst) {
                Some(b) => Handler::Body(b),
                None => Handler::Ctor,
            });
        }
        Ok(match self.mir(inst) {
            Some(b) => Handler::Body(b),
            None => Handler::Missing(path),
        })
    }
    fn std_native(&self, krate: &str, path: &str, name: &Option<rustc_span::Symbol>) -> Option<&'static str> {
        let n = name.map(|s| s.to_string()).unwrap_or_default();
        match n.as_str() {
            "__rust_alloc" | "__rdl_alloc" | "__rustc_alloc" => return Some("m:alloc"),
            "__rust_alloc_zeroed" => return Some("m:alloc_zeroed"),
            "__rust_dealloc" => return Some("m:dealloc"),
            "__rust_realloc" => return Some("m:realloc"),
            "__rust_no_alloc_shim_is_unstable_v2" => return Some("m:nop"),
            _ => {}
        }
        match (krate, path) {
            ("core", "core::fmt::Formatter::<'a>::write_str") => Some("m:fmt_ok"),
            ("core", "core::fmt::write") => Some("m:fmt_ok"),
            _ if path.starts_with("std::fmt::Formatter::") && (n.starts_with("debug_") || n.starts_with("pad") || n.starts_with("write_")) => {
                if n.ends_with("_finish") || n.starts_with("pad") || n.starts_with("write_") {
                    Some("m:fmt_ok")
                } else {
                    None
                }
            }
            (_, "std::io::_print") | (_, "std::io::_eprint") => Some("m:print"),
            (_, "std::thread::panicking") | (_, "std::panicking::panicking") => Some("m:false"),
            (_, "std::panicking::panic_count::is_zero_slow_path") => Some("m:true"),
            _ => None,
        }
    }

    // ------------------------------------------------------------ helpers
    pub fn read_fld(&mut self, v: Val, f: u8) -> Res<PolyId> {
        let p = self.as_ptr(v)?;
        match self.mem.read(p, 32) {
            Ok(Val::Fld(x)) => {
                if self.dom.field_of(x) != f {
                    return und(format!("field element of another field; at {}", self.backtrace()));
                }
                Ok(x)
            }
            Ok(Val::Top) => und(format!("field element lost in a join; at {}", self.backtrace())),
            r => {
                let mut w = [0u64; 4];
                for k in 0..4 {
                    match self.mem.read(p.add(8 * k as i64), 8) {
                        Ok(Val::Int(x)) => w[k] = x as u64,
                        other => return und(format!("field element cannot be read ({r:?}, limb {k}: {other:?}); at {}", self.backtrace())),
                    }
                }
                match self.dom.fields[f as usize].from_mont(&w) {
                    Some(c) => Ok(self.dom.konst(f, c)),
                    None => und(format!("non-canonical field constant; at {}", self.backtrace())),
                }
            }
        }
    }
    pub fn write_fld(&mut self, dst: Val, p: PolyId) -> Res<()> {
        self.write(dst, 32, Val::Fld(p))
    }
    pub fn fld_arg(&mut self, a: &Arg<'tcx>) -> Res<PolyId> {
        let mut t = a.ty;
        let mut v = a.v;
        loop {
            if let Some(f) = self.fld_ty(t) {
                return self.read_fld(v, f);
            }
            match t.kind() {
                ty::Ref(_, i, _) | ty::RawPtr(i, _) => {
                    v = self.read(v, 8)?;
                    t = *i;
                }
                _ => return und(format!("field argument of type {}; at {}", a.ty, self.backtrace())),
            }
        }
    }
    pub fn arg(&mut self, a: &Arg<'tcx>) -> Res<Val> {
        let s = self.size_of(a.ty)?;
        if s == 0 {
            return Ok(Val::Int(0));
        }
        self.read(a.v, s)
    }
    pub fn arg_str(&mut self, a: &Arg<'tcx>) -> Res<String> {
        let p = self.read(a.v, 8)?;
        let q = self.ptr_add(a.v, 8)?;
        let n = self.read(q, 8)?;
        let n = self.conc(n)? as u64;
        self.read_str(p, n)
    }
    pub fn ret_int(&mut self, dst: Val, dty: Ty<'tcx>, v: Val) -> Res<Flow> {
        let s = self.size_of(dty)?;
        self.write(dst, s, v)?;
        Ok(Flow::Return)
    }
    fn ret_fld(&mut self, dst: Val, p: PolyId) -> Res<Flow> {
        if self.dom.as_const(p).is_none() {
            self.record(p);
        }
        self.write_fld(dst, p)?;
        Ok(Flow::Return)
    }
    /// remember who computed a value first
    fn record(&mut self, p: PolyId) {
        if self.frames.iter().any(|f| f.repo) {
            self.note_origin(p);
        } else {
            self.spec_vals.insert(p);
        }
    }
    /// write `Some(value)`/`None` style enum: `variant` with the given 32-byte payload
    fn write_option_fld(&mut self, dst: Val, dty: Ty<'tcx>, p: Option<PolyId>) -> Res<Flow> {
        match p {
            Some(p) => {
                let v = VariantIdx::from_u32(1);
                let (off, _) = self.field_off(dty, Some(v), 0)?;
                let q = self.ptr_add(dst, off as i64)?;
                self.write_fld(q, p)?;
                self.set_discr(dst, dty, v)?;
            }
            None => self.set_discr(dst, dty, VariantIdx::from_u32(0))?,
        }
        Ok(Flow::Return)
    }
    fn write_ctoption(&mut self, dst: Val, dty: Ty<'tcx>, p: PolyId, some: Val) -> Res<Flow> {
        let (o0, _) = self.field_off(dty, None, 0)?;
        let (o1, _) = self.field_off(dty, None, 1)?;
        let (a, b) = (self.ptr_add(dst, o0 as i64)?, self.ptr_add(dst, o1 as i64)?);
        self.write_fld(a, p)?;
        self.write(b, 1, some)?;
        Ok(Flow::Return)
    }
    /// concrete bytes behind a pointer, None when some byte is unknown
    pub fn bytes_at(&mut self, v: Val, n: u64) -> Res<Option<Vec<u8>>> {
        let p = self.as_ptr(v)?;
        let mut o = vec![];
        for i in 0..n {
            match self.mem.get(p.a).and_then(|a| a.byte((p.off + i as i64) as u32)) {
                Some(b) => o.push(b),
                None => return Ok(None),
            }
        }
        Ok(Some(o))
    }
    fn limbs_of_bytes(b: &[u8]) -> [u64; 4] {
        let mut w = [0u64; 4];
        for (i, x) in b.iter().take(32).enumerate() {
            w[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        w
    }

    // ------------------------------------------------------------ dispatch
    pub fn native(&mut self, name: &str, inst: Instance<'tcx>, args: &[Arg<'tcx>], dst: Val, dty: Ty<'tcx>) -> Res<Flow> {
        if let Some(n) = name.strip_prefix("f:") {
            return self.field_native(n, inst, args, dst, dty);
        }
        if let Some(n) = name.strip_prefix("v:") {
            return self.verif_native(n, inst, args, dst, dty);
        }
        match name {
            "m:nop" => Ok(Flow::Return),
            "m:print" => {
                self.events.push(Event { kind: "effect", text: "writes to standard output".into(), loc: self.repo_loc() });
                Ok(Flow::Return)
            }
            "m:false" => self.ret_int(dst, dty, Val::Int(0)),
            "m:true" => self.ret_int(dst, dty, Val::Int(1)),
            "m:fmt_ok" => {
                let s = self.size_of(dty)?;
                if s == 1 {
                    self.write(dst, 1, Val::Int(0))?;
                }
                Ok(Flow::Return)
            }
            "m:alloc" | "m:alloc_zeroed" => {
                let n = self.arg(&args[0])?;
                let n = self.conc(n)? as u64;
                let a = self.new_heap(n, AKind::Heap);
                if name == "m:alloc_zeroed" {
                    self.mem.get_mut(a).raw = Raw::Bytes(Rc::new(vec![0; n as usize]));
                }
                self.ret_int(dst, dty, Val::Ptr(Ptr { a, off: 0 }))
            }
            "m:dealloc" => {
                let p = self.arg(&args[0])?;
                let p = self.as_ptr(p)?;
                if self.mem.get(p.a).map_or(true, |a| a.kind != AKind::Heap) {
                    return und("free of something else than a heap block");
                }
                let m = self.mem.get_mut(p.a);
                m.kind = AKind::Dead;
                m.cells.clear();
                m.raw = Raw::None;
                Ok(Flow::Return)
            }
            "m:realloc" => {
                let p = self.arg(&args[0])?;
                let old = self.arg(&args[1])?;
                let old = self.conc(old)? as u64;
                let new = self.arg(&args[3])?;
                let new = self.conc(new)? as u64;
                let a = self.new_heap(new, AKind::Heap);
                let np = Val::Ptr(Ptr { a, off: 0 });
                self.copy(p, np, old.min(new))?;
                let q = self.as_ptr(p)?;
                let m = self.mem.get_mut(q.a);
                m.kind = AKind::Dead;
                m.cells.clear();
                m.raw = Raw::None;
                self.ret_int(dst, dty, np)
            }
            _ => und(format!("native {name}")),
        }
    }

    fn field_native(&mut self, n: &str, inst: Instance<'tcx>, args: &[Arg<'tcx>], dst: Val, dty: Ty<'tcx>) -> Res<Flow> {
        let st = self.assoc_info(inst).map(|x| x.0.peel_refs());
        let f = match st {
            Some(t) => self.fld_ty(t),
            None => None,
        };
        match n {
            "add" | "sub" | "mul" => {
                let (a, b) = (self.fld_arg(&args[0])?, self.fld_arg(&args[1])?);
                let r = match n {
                    "add" => self.dom.add(a, b),
                    "sub" => self.dom.sub(a, b),
                    _ => self.dom.mul(a, b),
                };
                self.ret_fld(dst, r)
            }
            "add_assign" | "sub_assign" | "mul_assign" => {
                let p = self.read(args[0].v, 8)?;
                let a = self.fld_arg(&args[0])?;
                let b = self.fld_arg(&args[1])?;
                let r = match n {
                    "add_assign" => self.dom.add(a, b),
                    "sub_assign" => self.dom.sub(a, b),
                    _ => self.dom.mul(a, b),
                };
                self.ret_fld(p, r)
            }
            "neg" => {
                let a = self.fld_arg(&args[0])?;
                let r = self.dom.neg(a);
                self.ret_fld(dst, r)
            }
            "double" => {
                let a = self.fld_arg(&args[0])?;
                let r = self.dom.add(a, a);
                self.ret_fld(dst, r)
            }
            "square" => {
                let a = self.fld_arg(&args[0])?;
                let r = self.dom.mul(a, a);
                self.ret_fld(dst, r)
            }
            "cube" => {
                let a = self.fld_arg(&args[0])?;
                let r = self.dom.mul(a, a);
                let r = self.dom.mul(r, a);
                self.ret_fld(dst, r)
            }
            "invert" => {
                let a = self.fld_arg(&args[0])?;
                let f = self.dom.field_of(a);
                let z = self.dom.konst_u128(f, 0);
                let e = self.dom.eq_f(a, z);
                let ne = self.dom.not(e);
                let r = self.dom.inverse(a);
                if self.dom.as_const(r).is_none() {
                    self.record(r);
                }
                let s = self.of_ival(ne);
                self.write_ctoption(dst, dty, r, s)
            }
            "pow" | "pow_vartime" => {
                let a = self.fld_arg(&args[0])?;
                let mut t = args[1].ty;
                let mut v = args[1].v;
                let mut meta = None;
                while let ty::Ref(_, i, _) = t.kind() {
                    if self.size_of(t)? == 16 {
                        let q = self.ptr_add(v, 8)?;
                        meta = Some(self.read(q, 8)?);
                    }
                    v = self.read(v, 8)?;
                    t = *i;
                }
                let k = match t.kind() {
                    ty::Array(_, n) => n.try_to_target_usize(self.tcx).unwrap_or(0),
                    ty::Slice(_) => self.conc(meta.unwrap_or(Val::Top))? as u64,
                    _ => return und(format!("exponent of type {t}")),
                };
                let mut e = vec![];
                for i in 0..k {
                    let q = self.ptr_add(v, 8 * i as i64)?;
                    let x = self.read(q, 8)?;
                    e.push(self.conc(x)? as u64);
                }
                let r = self.dom.pow(a, &e);
                self.ret_fld(dst, r)
            }
            "is_zero" | "is_zero_vartime" => {
                let a = self.fld_arg(&args[0])?;
                let f = self.dom.field_of(a);
                let z = self.dom.konst_u128(f, 0);
                let e = self.dom.eq_f(a, z);
                let v = self.of_ival(e);
                self.ret_int(dst, dty, v)
            }
            "eq" | "ct_eq" | "ne" | "ct_ne" => {
                let (a, b) = (self.fld_arg(&args[0])?, self.fld_arg(&args[1])?);
                let e = self.dom.eq_f(a, b);
                let e = match self.of_ival(e) {
                    Val::Int(x) => IVal::Int(x),
                    _ => e,
                };
                let e = if n.ends_with("ne") { self.dom.not(e) } else { e };
                let v = self.of_ival(e);
                self.ret_int(dst, dty, v)
            }
            "lt" | "le" | "gt" | "ge" => {
                let (a, b) = (self.fld_arg(&args[0])?, self.fld_arg(&args[1])?);
                let (x, y, neg) = match n {
                    "lt" => (a, b, false),
                    "gt" => (b, a, false),
                    "le" => (b, a, true),
                    _ => (a, b, true),
                };
                let e = self.dom.lt_f(x, y);
                let e = if neg { self.dom.not(e) } else { e };
                let v = self.of_ival(e);
                self.ret_int(dst, dty, v)
            }
            "cmp" | "partial_cmp" => {
                let (a, b) = (self.fld_arg(&args[0])?, self.fld_arg(&args[1])?);
                let l = self.dom.lt_f(a, b);
                let e = self.dom.eq_f(a, b);
                let inner = match e {
                    IVal::Int(1) => IVal::Int(0),
                    IVal::Int(_) => IVal::Int(1),
                    IVal::Sym(s) => self.dom.ite_int(s, IVal::Int(0), IVal::Int(1), 8),
                };
                let r = match l {
                    IVal::Int(1) => IVal::Int(255),
                    IVal::Int(_) => inner,
                    IVal::Sym(s) => self.dom.ite_int(s, IVal::Int(255), inner, 8),
                };
                let v = self.of_ival(r);
                self.ret_int(dst, dty, v)
            }
            "clone" => {
                let a = self.fld_arg(&args[0])?;
                self.write_fld(dst, a)?;
                Ok(Flow::Return)
            }
            "from" => {
                let t = args[0].ty;
                if !(t.is_integral() || t.is_bool()) || t.is_signed() {
                    return und(format!("conversion of {t} to a field element; at {}", self.backtrace()));
                }
                let v = self.arg(&args[0])?;
                let v = self.ival(v)?;
                let Some(f) = f else { return und("from") };
                let r = self.dom.embed(f, v);
                self.ret_fld(dst, r)
            }
            "from_u128" => {
                let v = self.arg(&args[0])?;
                let v = self.ival(v)?;
                let Some(f) = f else { return und("from_u128") };
                let r = self.dom.embed(f, v);
                self.ret_fld(dst, r)
            }
            "zero" | "default" | "one" => {
                let Some(f) = f else { return und("constant") };
                let r = self.dom.konst_u128(f, (n == "one") as u128);
                self.ret_fld(dst, r)
            }
            "from_str_vartime" => {
                let s = self.arg_str(&args[0])?;
                let Some(f) = f else { return und("from_str") };
                let ok = !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && (s == "0" || !s.starts_with('0'));
                if s.contains("opaque") {
                    return und("number from an unknown string");
                }
                let c = if ok { self.dom.fields[f as usize].from_dec(&s) } else { None };
                let p = c.map(|c| self.dom.konst(f, c));
                self.write_option_fld(dst, dty, p)
            }
            "from_repr" | "from_repr_vartime" | "from_bytes" => {
                let Some(f) = f else { return und("from_repr") };
                let mut v = args[0].v;
                if args[0].ty.is_ref() {
                    v = self.read(v, 8)?;
                }
                let Some(b) = self.bytes_at(v, 32)? else { return und(format!("field element from unknown bytes; at {}", self.backtrace())) };
                let w = Self::limbs_of_bytes(&b);
                let lt = !crate::field::geq(&w, &self.dom.fields[f as usize].p);
                let c = if lt { self.dom.fields[f as usize].from_int(&w) } else { [0; 4] };
                let p = self.dom.konst(f, c);
                if n == "from_repr_vartime" {
                    return self.write_option_fld(dst, dty, if lt { Some(p) } else { None });
                }
                self.write_ctoption(dst, dty, p, Val::Int(lt as u128))
            }
            "from_raw" => {
                let Some(f) = f else { return und("from_raw") };
                let Some(b) = self.bytes_at(args[0].v, 32)? else { return und("from_raw of unknown limbs") };
                let w = Self::limbs_of_bytes(&b);
                let c = self.dom.fields[f as usize].from_bytes_wide(&b);
                let _ = w;
                let p = self.dom.konst(f, c);
                self.ret_fld(dst, p)
            }
            "from_uniform_bytes" => {
                let Some(f) = f else { return und("from_uniform_bytes") };
                let p = self.read(args[0].v, 8)?;
                let Some(b) = self.bytes_at(p, 64)? else { return und(format!("field element from unknown bytes; at {}", self.backtrace())) };
                if st.map_or(false, |t| self.is_symf(t)) && self.sym_uniform {
                    let at = self.uniform_draws.len();
                    let k = match self.draw_pattern.get(at) {
                        Some(k) => *k,
                        None => 1000 + at as u64,
                    };
                    let p = self.dom.var(f, &format!("point{k}"));
                    let rank = match self.draw_order {
                        0 => k,
                        1 => u64::MAX - k,
                        _ => (k + 1).wrapping_mul(0x9E3779B97F4A7C15),
                    };
                    let m = self.dom.polys[p as usize].terms[0].0;
                    let a = self.dom.monos[m as usize][0].0;
                    self.dom.points.insert(a, rank);
                    self.uniform_draws.push(p);
                    return self.ret_fld(dst, p);
                }
                let c = self.dom.fields[f as usize].from_bytes_wide(&b);
                let p = self.dom.konst(f, c);
                self.ret_fld(dst, p)
            }
            "to_repr" | "to_bytes" => {
                let a = self.fld_arg(&args[0])?;
                let Some(c) = self.dom.as_const(a) else { return und(format!("bytes of an unknown field element; at {}", self.backtrace())) };
                let b = self.dom.fields[self.dom.field_of(a) as usize].to_bytes(&c);
                for i in 0..32 {
                    let q = self.ptr_add(dst, i as i64)?;
                    self.write(q, 1, Val::Int(b[i] as u128))?;
                }
                Ok(Flow::Return)
            }
            "conditional_select" => {
                let (a, b) = (self.fld_arg(&args[0])?, self.fld_arg(&args[1])?);
                let c = self.arg(&args[2])?;
                match c {
                    Val::Int(x) => self.ret_fld(dst, if x != 0 { b } else { a }),
                    Val::Sym(s) => {
                        let r = self.dom.ite(s, b, a);
                        self.ret_fld(dst, r)
                    }
                    _ => und("conditional_select"),
                }
            }
            "is_odd" | "is_even" => {
                let a = self.fld_arg(&args[0])?;
                if let Some(c) = self.dom.as_const(a) {
                    let w = self.dom.fields[self.dom.field_of(a) as usize].to_int(&c);
                    let odd = (w[0] & 1) as u128;
                    return self.ret_int(dst, dty, Val::Int(if n == "is_odd" { odd } else { 1 - odd }));
                }
                let s = self.dom.sym(SymNode::Opaque("is_odd".into(), vec![a as u64]), 8);
                self.dom.syms[s as usize].hi = 1;
                let mut v = IVal::Sym(s);
                if n == "is_even" {
                    v = self.dom.not(v);
                }
                let v = self.of_ival(v);
                self.ret_int(dst, dty, v)
            }
            "fmt" => {
                self.write(dst, 1, Val::Int(0))?;
                Ok(Flow::Return)
            }
            _ => und(format!("field operation {n}; at {}", self.backtrace())),
        }
    }

    fn verif_native(&mut self, n: &str, inst: Instance<'tcx>, args: &[Arg<'tcx>], dst: Val, dty: Ty<'tcx>) -> Res<Flow> {
        match n {
            "any" | "any_i" => {
                let name = self.arg_str(&args[0])?;
                let name = if n == "any_i" {
                    let i = self.arg(&args[1])?;
                    format!("{name}{}", self.conc(i)?)
                } else {
                    name
                };
                let Some(f) = self.fld_ty(dty) else { return und(format!("any::<{dty}>")) };
                let p = self.dom.var(f, &name);
                self.write_fld(dst, p)?;
                Ok(Flow::Return)
            }
            "any_u128" | "any_u64" | "any_usize" | "any_bool" | "any_u8" => {
                let name = self.arg_str(&args[0])?;
                let bits = (self.size_of(dty)? * 8) as u32;
                let (mut lo, mut hi) = (0, if n == "any_bool" { 1 } else { mask(bits) });
                if args.len() == 3 {
                    let (l, h) = (self.arg(&args[1])?, self.arg(&args[2])?);
                    lo = self.conc(l)?;
                    hi = self.conc(h)?;
                }
                let name = if args.len() == 3 { format!("{name} in {lo}..={hi}") } else { name };
                let s = self.dom.sym_var(&name, bits, lo, hi);
                self.ret_int(dst, dty, Val::Sym(s))
            }
            "check_eq" => {
                let (a, b) = (self.fld_arg(&args[0])?, self.fld_arg(&args[1])?);
                let label = self.arg_str(&args[2])?;
                let ix = self.arg(&args[3])?;
                let ix = self.conc(ix)?;
                let ok = self.equal_under_assumptions(a, b);
                let detail = if ok { String::new() } else { format!("computed {} but specified {}", self.dom.show(a, 2), self.dom.show(b, 2)) };
                let origin = if ok { None } else { self.blamed.clone().or_else(|| self.blame(a)) };
                self.results.push(crate::CheckResult { ob: self.cur_ob.clone(), label: format!("{label}[{ix}]"), ok, detail, loc: origin.unwrap_or_default() });
                Ok(Flow::Return)
            }
            "check_ne" => {
                let (a, b) = (self.fld_arg(&args[0])?, self.fld_arg(&args[1])?);
                let label = self.arg_str(&args[2])?;
                let ix = self.arg(&args[3])?;
                let ix = self.conc(ix)?;
                let ok = !self.dom.same(a, b);
                let detail = if ok { String::new() } else { format!("both are {}", self.dom.show(a, 2)) };
                let origin = if ok { None } else { Some(self.last_repo_loc.clone()) };
                self.results.push(crate::CheckResult { ob: self.cur_ob.clone(), label: format!("{label}[{ix}]"), ok, detail, loc: origin.unwrap_or_default() });
                Ok(Flow::Return)
            }
            "embed" => {
                let v = self.arg(&args[0])?;
                let v = self.ival(v)?;
                let Some(f) = self.fld_ty(dty) else { return und("embed") };
                let r = self.dom.embed(f, v);
                self.ret_fld(dst, r)
            }
            "opaque" => {
                let name = self.arg_str(&args[0])?;
                let a = self.fld_arg(&args[1])?;
                let f = self.dom.field_of(a);
                let p = self.dom.from_atom(f, Atom::Opaque(name, vec![a]));
                self.ret_fld(dst, p)
            }
            "check_eq_i" => {
                let (a, b) = (self.arg(&args[0])?, self.arg(&args[1])?);
                let label = self.arg_str(&args[2])?;
                let ix = self.arg(&args[3])?;
                let ix = self.conc(ix)?;
                let (x, y) = (self.ival(a)?, self.ival(b)?);
                let ok = x == y;
                let detail = if ok { String::new() } else { format!("computed {} but specified {}", self.dom.show_i(x, 4), self.dom.show_i(y, 4)) };
                self.results.push(crate::CheckResult { ob: self.cur_ob.clone(), label: format!("{label}[{ix}]"), ok, detail, loc: self.blamed.clone().unwrap_or_else(|| self.last_repo_loc.clone()) });
                Ok(Flow::Return)
            }
            "check" => {
                let c = self.arg(&args[0])?;
                let label = self.arg_str(&args[1])?;
                let (ok, detail) = match c {
                    Val::Int(1) => (true, String::new()),
                    Val::Int(_) => (false, "condition is false".into()),
                    Val::Sym(s) => (false, format!("not shown: {}", self.dom.show_sym(s, 5))),
                    _ => (false, "not shown".into()),
                };
                self.results.push(crate::CheckResult { ob: self.cur_ob.clone(), label, ok, detail, loc: self.blamed.clone().unwrap_or_else(|| self.last_repo_loc.clone()) });
                Ok(Flow::Return)
            }
            "origin" => {
                let mut id = 0;
                let at = self.frames.iter().rev().find(|f| f.repo).map(|f| (f.instance.def_id(), f.span));
                if let Some(k) = at {
                    id = match self.origin_ix.get(&k) {
                        Some(i) => *i,
                        None => {
                            let l = self.repo_loc();
                            self.origins.push(l);
                            self.origin_ix.insert(k, self.origins.len() - 1);
                            self.origins.len() - 1
                        }
                    };
                }
                self.ret_int(dst, dty, Val::Int(id as u128))
            }
            "at" => {
                let i = self.arg(&args[0])?;
                let i = self.conc(i)? as usize;
                self.blamed = if i == 0 { None } else { self.origins.get(i).cloned() };
                Ok(Flow::Return)
            }
            "fail" => {
                let label = self.arg_str(&args[0])?;
                let detail = self.arg_str(&args[1])?;
                self.results.push(crate::CheckResult { ob: self.cur_ob.clone(), label, ok: false, detail, loc: self.blamed.clone().unwrap_or_else(|| self.last_repo_loc.clone()) });
                Ok(Flow::Return)
            }
            "must_panic" | "panics" => {
                // args: closure (FnOnce())
                let t = args[0].ty;
                let fo = match t.kind() {
                    ty::Closure(d, a) => Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce),
                    ty::FnDef(d, a) => self.resolve(*d, a.skip_binder())?,
                    _ => return und("must_panic argument"),
                };
                let unit = self.tcx.types.unit;
                let tup = self.tmp(0);
                let mut a: Vec<Arg<'tcx>> = vec![];
                let rc = matches!(t.kind(), ty::Closure(..));
                if rc {
                    a.push(args[0]);
                    a.push(Arg { v: tup, ty: unit, meta: None });
                }
                let mark = self.frames.len();
                let d = self.tmp(0);
                let r = self.call(fo, &a, d, unit, rc)?;
                self.frames.truncate(mark);
                let p = matches!(r, Flow::Panic(_));
                if n == "panics" {
                    return self.ret_int(dst, dty, Val::Int(p as u128));
                }
                let label = self.arg_str(&args[1])?;
                self.results.push(crate::CheckResult {
                    ob: self.cur_ob.clone(),
                    label,
                    ok: p,
                    detail: if p { String::new() } else { "the call returns instead of refusing".into() },
                    loc: self.last_repo_loc.clone(),
                });
                Ok(Flow::Return)
            }
            "note" => {
                let t = self.arg_str(&args[0])?;
                let v = self.arg(&args[1])?;
                let v = match v {
                    Val::Int(x) => format!("{x}"),
                    Val::Sym(s) => self.dom.show_sym(s, 4),
                    v => format!("{v:?}"),
                };
                self.notes.push(format!("{t} = {v}"));
                Ok(Flow::Return)
            }
            "note_f" => {
                let t = self.arg_str(&args[0])?;
                let a = self.fld_arg(&args[1])?;
                let s = self.dom.show(a, 3);
                self.notes.push(format!("{t} = {s}"));
                Ok(Flow::Return)
            }
            "assume_eq" | "may_panic" => und("unsupported"),
            "allow_refusal" => {
                // from here on, events that only mean "the call refuses" are accepted
                self.events.retain(|e| e.kind != "may-panic");
                Ok(Flow::Return)
            }
            "set_expand" => {
                let v = self.arg(&args[0])?;
                self.dom.expand_limit = self.conc(v)? as usize;
                Ok(Flow::Return)
            }
            "set_loop_limit" => {
                let v = self.arg(&args[0])?;
                self.loop_limit = self.conc(v)? as u32;
                Ok(Flow::Return)
            }
            "same" => {
                let (a, b) = (self.fld_arg(&args[0])?, self.fld_arg(&args[1])?);
                let e = self.dom.same(a, b);
                self.ret_int(dst, dty, Val::Int(e as u128))
            }
            "set_config" => {
                let k = self.arg_str(&args[0])?;
                let v = self.arg(&args[1])?;
                let v = self.conc(v)?;
                self.config.insert(k, v.to_string());
                Ok(Flow::Return)
            }
            "sym_uniform_from" => {
                let v = self.arg(&args[0])?;
                self.draw_order = self.conc(v)? as u64;
                let p = self.read(args[1].v, 8)?;
                let q = self.ptr_add(args[1].v, 8)?;
                let n = self.read(q, 8)?;
                let n = self.conc(n)?;
                self.draw_pattern.clear();
                for i in 0..n {
                    let q = self.ptr_add(p, 8 * i as i64)?;
                    let x = self.read(q, 8)?;
                    let x = self.conc(x)? as u64;
                    self.draw_pattern.push(x);
                }
                self.sym_uniform = true;
                self.uniform_draws.clear();
                self.dom.points.clear();
                Ok(Flow::Return)
            }
            "sym_uniform" => {
                let v = self.arg(&args[0])?;
                self.sym_uniform = self.conc(v)? != 0;
                self.dom.points.clear();
                self.draw_pattern.clear();
                self.uniform_draws.clear();
                Ok(Flow::Return)
            }
            "uniform_draws" => {
                let n = self.uniform_draws.len() as u128;
                self.ret_int(dst, dty, Val::Int(n))
            }
            "uniform_draw" => {
                let i = self.arg(&args[0])?;
                let i = self.conc(i)? as usize;
                match self.uniform_draws.get(i) {
                    Some(p) => {
                        let p = *p;
                        self.write_fld(dst, p)?;
                        Ok(Flow::Return)
                    }
                    None => und("no such draw"),
                }
            }
            "is_const" => {
                let a = self.fld_arg(&args[0])?;
                let c = self.dom.as_const(a).is_some() as u128;
                self.ret_int(dst, dty, Val::Int(c))
            }
            "depends_on" => {
                let a = self.fld_arg(&args[0])?;
                let b = self.fld_arg(&args[1])?;
                let d = self.depends(a, b);
                self.ret_int(dst, dty, Val::Int(d as u128))
            }
            "snap_statics" => {
                let v: Vec<_> = self.statics.iter().map(|(d, a)| (*d, self.mem.heap[a.ix()].clone().unwrap())).collect();
                self.snaps.push(v);
                let k = self.snaps.len() as u128 - 1;
                self.ret_int(dst, dty, Val::Int(k))
            }
            "check_statics" => {
                let k = self.arg(&args[0])?;
                let k = self.conc(k)? as usize;
                let label = self.arg_str(&args[1])?;
                let old = self.snaps[k].clone();
                let mut bad = vec![];
                for (d, a) in self.statics.clone() {
                    let cur = self.mem.heap[a.ix()].clone().unwrap();
                    match old.iter().find(|x| x.0 == d) {
                        Some((_, o)) => {
                            if o.cells != cur.cells {
                                bad.push(self.tcx.def_path_str(d));
                            }
                        }
                        None => {
                            let init = self.static_init.iter().find(|x| x.0 == d).unwrap();
                            if init.1.cells != cur.cells {
                                bad.push(self.tcx.def_path_str(d));
                            }
                        }
                    }
                }
                bad.sort();
                let ok = bad.is_empty();
                self.results.push(crate::CheckResult {
                    ob: self.cur_ob.clone(),
                    label,
                    ok,
                    detail: if ok { String::new() } else { format!("static state changed: {}", bad.join(", ")) },
                    loc: self.last_repo_loc.clone(),
                });
                Ok(Flow::Return)
            }
            "once_enter" => {
                let p = self.arg(&args[0])?;
                let s = self.read(p, 4)?;
                let s = self.conc(s)?;
                // std's futex Once: 3 = incomplete, 0 = complete
                if s == 0 {
                    return self.ret_int(dst, dty, Val::Int(0));
                }
                self.once_depth += 1;
                self.ret_int(dst, dty, Val::Int(1))
            }
            "once_exit" => {
                let p = self.arg(&args[0])?;
                self.write(p, 4, Val::Int(0))?;
                self.once_depth -= 1;
                Ok(Flow::Return)
            }
            "config" => {
                let k = self.arg_str(&args[0])?;
                let v = self.config.get(&k).and_then(|x| x.parse::<u128>().ok()).unwrap_or(0);
                self.ret_int(dst, dty, Val::Int(v))
            }
            "mined" | "mined_len" => {
                if n == "mined_len" {
                    self.notes.push("mined".into());
                    let n = self.mined.len() as u128;
                    return self.ret_int(dst, dty, Val::Int(n));
                }
                let i = self.arg(&args[0])?;
                let i = self.conc(i)? as usize;
                let v = self.mined.get(i).copied().unwrap_or(0) as u128;
                self.ret_int(dst, dty, Val::Int(v))
            }
            "effect" => {
                let t = self.arg_str(&args[0])?;
                self.events.push(Event { kind: "effect", text: t, loc: self.repo_loc() });
                Ok(Flow::Return)
            }
            _ => und(format!("unknown primitive {n} ({})", self.tcx.def_path_str(inst.def_id()))),
        }
    }
    pub fn depends(&self, a: PolyId, on: PolyId) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st = vec![a];
        let target: Vec<AtomId> = self.dom.polys[on as usize].terms.iter().flat_map(|t| self.dom.monos[t.0 as usize].iter().map(|x| x.0)).collect();
        while let Some(p) = st.pop() {
            if !seen.insert(p) {
                continue;
            }
            for (m, _) in &self.dom.polys[p as usize].terms {
                for (at, _) in &self.dom.monos[*m as usize] {
                    if target.contains(at) {
                        return true;
                    }
                    match &self.dom.atoms[*at as usize].1 {
                        Atom::Lin(q) | Atom::Inv(q) => st.push(*q),
                        Atom::Ite(_, x, y) => {
                            st.push(*x);
                            st.push(*y);
                        }
                        Atom::Opaque(_, v) => st.extend(v.iter().copied()),
                        _ => {}
                    }
                }
            }
        }
        false
    }
    fn equal_under_assumptions(&mut self, a: PolyId, b: PolyId) -> bool {
        self.dom.same(a, b)
    }
    /// the first value computed by the repository that feeds `p` and that the specification never computes
    fn blame(&mut self, p: PolyId) -> Option<String> {
        let spec: Vec<PolyId> = self.spec_vals.iter().copied().collect();
        let mut sp = std::collections::HashSet::new();
        for s in spec {
            let v = self.dom.pit(s);
            sp.insert(v[0]);
        }
        // dependencies of p, in creation order
        let mut seen = std::collections::BTreeSet::new();
        let mut st = vec![p];
        while let Some(q) = st.pop() {
            if !seen.insert(q) {
                continue;
            }
            for (m, _) in &self.dom.polys[q as usize].terms {
                for (at, _) in &self.dom.monos[*m as usize] {
                    match &self.dom.atoms[*at as usize].1 {
                        Atom::Lin(q) | Atom::Inv(q) => st.push(*q),
                        Atom::Ite(_, x, y) => {
                            st.push(*x);
                            st.push(*y);
                        }
                        Atom::Opaque(_, v) => st.extend(v.iter().copied()),
                        _ => {}
                    }
                }
            }
        }
        for q in seen {
            if let Some(o) = self.origin.get(&q).cloned() {
                let v = self.dom.pit(q);
                if !sp.contains(&v[0]) {
                    return Some(o);
                }
            }
        }
        self.origin.get(&p).cloned().or_else(|| Some(self.last_repo_loc.clone()))
    }
}
