//! Abstract interpretation of monomorphic MIR.

use crate::dom::*;
use crate::mem::*;
use rustc_abi::{FieldsShape, TagEncoding, VariantIdx, Variants};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum Flow {
    Return,
    Panic(String),
}
#[derive(Debug, Clone)]
pub struct Undecided(pub String);
pub type Res<T> = Result<T, Undecided>;

pub fn und<T>(s: impl Into<String>) -> Res<T> {
    Err(Undecided(s.into()))
}

enum End {
    Stop,
    Return,
    Panic(String),
}

pub enum Special<'tcx> {
    None,
    Fn(Instance<'tcx>),
    VTable(Ty<'tcx>, &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>),
    TypeId(Ty<'tcx>),
}

#[derive(Clone, Copy)]
pub struct Arg<'tcx> {
    /// where the value lives (Int for dangling zero-sized)
    pub v: Val,
    pub ty: Ty<'tcx>,
    pub meta: Option<Val>,
}

#[derive(Clone, Copy)]
pub struct PlaceV<'tcx> {
    pub v: Val,
    pub meta: Option<Val>,
    pub ty: Ty<'tcx>,
    pub variant: Option<VariantIdx>,
}

pub struct FrameInfo<'tcx> {
    pub instance: Instance<'tcx>,
    pub span: Span,
    pub repo: bool,
    pub depth_mark: u32,
}

pub struct Frame<'tcx> {
    pub body: &'tcx Body<'tcx>,
    pub base: usize,
    pub branch_depth: HashMap<BasicBlock, u32>,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: &'static str,
    pub text: String,
    pub loc: String,
}

pub enum Handler<'tcx> {
    Body(&'tcx Body<'tcx>),
    Native(u32),
    Model(Instance<'tcx>),
    Panic,
    Virtual(DefId, usize),
    Intrinsic(String, Option<&'tcx Body<'tcx>>),
    Nop,
    /// a tuple struct or variant constructor used as a function
    Ctor,
    Missing(String),
}

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub te: TypingEnv<'tcx>,
    pub dom: Dom,
    pub mem: Mem,
    pub next_heap: u32,
    pub specials: Vec<Special<'tcx>>,
    fn_ptrs: HashMap<Instance<'tcx>, Aid>,
    vtables: HashMap<(Ty<'tcx>, &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>), Aid>,
    pub galloc: HashMap<AllocId, Aid>,
    pub statics: HashMap<DefId, Aid>,
    pub static_init: Vec<(DefId, Rc<Alloc>)>,
    layouts: HashMap<Ty<'tcx>, TyAndLayout<'tcx>>,
    bodies: HashMap<Instance<'tcx>, &'tcx Body<'tcx>>,
    pub handlers: HashMap<Instance<'tcx>, Rc<Handler<'tcx>>>,
    consts: HashMap<Const<'tcx>, ConstValue>,
    pdoms: HashMap<(*const (), u32), Option<BasicBlock>>,
    pub frames: Vec<FrameInfo<'tcx>>,
    pub assume: Vec<(SymId, u128)>,
    pub events: Vec<Event>,
    pub steps: u64,
    pub max_steps: u64,
    pub deadline: Option<std::time::Instant>,
    pub next_tick: u64,
    pub calls: u64,
    pub joins: u64,
    pub repo_fns: BTreeMap<String, u64>,
    pub fld_tys: HashMap<Ty<'tcx>, Option<u8>>,
    pub origin: HashMap<PolyId, String>,
    pub models: HashMap<String, DefId>,
    pub repo_crates: Vec<String>,
    pub once_depth: u32,
    pub native_names: Vec<String>,
    pub results: Vec<crate::CheckResult>,
    pub snaps: Vec<Vec<(DefId, Rc<Alloc>)>>,
    pub trace: bool,
    pub config: HashMap<String, String>,
    pub loop_limit: u32,
    pub cur_ob: String,
    pub spec_vals: std::collections::HashSet<PolyId>,
    pub last_repo_loc: String,
    pub notes: Vec<String>,
    pub sym_uniform: bool,
    pub uniform_draws: Vec<PolyId>,
    pub draw_pattern: Vec<u64>,
    pub draw_order: u64,
    pub mined: Vec<u64>,
    pub err_loc: Option<String>,
    pub origins: Vec<String>,
    pub origin_ix: HashMap<(DefId, Span), usize>,
    pub blamed: Option<String>,
}

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>, seed: u64) -> Self {
        Interp {
            tcx,
            te: TypingEnv::fully_monomorphized(),
            dom: Dom::new(seed),
            mem: Mem::default(),
            next_heap: 0,
            specials: vec![Special::None],
            fn_ptrs: HashMap::new(),
            vtables: HashMap::new(),
            galloc: HashMap::new(),
            statics: HashMap::new(),
            static_init: vec![],
            layouts: HashMap::new(),
            bodies: HashMap::new(),
            handlers: HashMap::new(),
            consts: HashMap::new(),
            pdoms: HashMap::new(),
            frames: vec![],
            assume: vec![],
            events: vec![],
            steps: 0,
            max_steps: 4_000_000_000,
            deadline: None,
            next_tick: 0,
            calls: 0,
            joins: 0,
            repo_fns: BTreeMap::new(),
            fld_tys: HashMap::new(),
            origin: HashMap::new(),
            models: HashMap::new(),
            repo_crates: vec!["poseidon_base".into(), "poseidon_circuit".into()],
            once_depth: 0,
            native_names: vec![],
            results: vec![],
            snaps: vec![],
            trace: false,
            config: HashMap::new(),
            loop_limit: 6,
            cur_ob: String::new(),
            spec_vals: Default::default(),
            last_repo_loc: String::new(),
            notes: vec![],
            sym_uniform: false,
            uniform_draws: vec![],
            draw_pattern: vec![],
            draw_order: 0,
            mined: vec![],
            err_loc: None,
            origins: vec![String::new()],
            origin_ix: HashMap::new(),
            blamed: None,
        }
    }

    // ------------------------------------------------------------ state of one obligation
    pub fn reset(&mut self) {
        self.mem.stack.clear();
        // immutable allocations survive, everything else is forgotten
        for h in self.mem.heap.iter_mut() {
            if let Some(a) = h {
                if !matches!(a.kind, AKind::Const | AKind::Special) {
                    *h = None;
                }
            }
        }
        self.statics.clear();
        self.static_init.clear();
        // global allocs that are statics were recorded under statics
        let heap = &self.mem.heap;
        self.galloc.retain(|_, a| heap.get(a.ix()).map_or(false, |x| x.is_some()));
        self.frames.clear();
        self.assume.clear();
        self.events.clear();
        self.steps = 0;
        self.next_tick = 0;
        self.snaps.clear();
        self.once_depth = 0;
        self.dom.expand_limit = 1;
        self.spec_vals.clear();
        self.origin.clear();
        self.last_repo_loc.clear();
        self.notes.clear();
        self.sym_uniform = false;
        self.err_loc = None;
        self.blamed = None;
        self.uniform_draws.clear();
        self.draw_pattern.clear();
        self.dom.points.clear();
        self.loop_limit = 6;
    }

    // ------------------------------------------------------------ diagnostics
    pub fn span_str(&self, sp: Span) -> String {
        let s = self.tcx.sess.source_map().span_to_diagnostic_string(sp);
        // keep path:line:col of the start
        let s = s.split(": ").next().unwrap_or(&s).to_string();
        s.replace("/opt/vp/ws/", "")
    }
    pub fn is_repo(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        self.repo_crates.iter().any(|x| x == n.as_str())
    }
    /// location of the innermost frame inside the repository, with its function
    pub fn repo_loc(&self) -> String {
        for f in self.frames.iter().rev() {
            if f.repo {
                return format!("{} in {}", self.span_str(f.span), self.tcx.def_path_str(f.instance.def_id()));
            }
        }
        match self.frames.last() {
            Some(f) => format!("{} in {}", self.span_str(f.span), self.tcx.def_path_str(f.instance.def_id())),
            None => "?".into(),
        }
    }
    pub fn backtrace(&self) -> String {
        let mut v = vec![];
        for f in self.frames.iter().rev().take(14) {
            v.push(format!("{} @ {}", self.tcx.def_path_str(f.instance.def_id()), self.span_str(f.span)));
        }
        v.join(" <- ")
    }
    pub fn note_origin(&mut self, p: PolyId) {
        if !self.origin.contains_key(&p) {
            let l = self.repo_loc();
            self.origin.insert(p, l);
        }
    }
    pub fn e<T>(&self, r: Result<T, String>) -> Res<T> {
        r.map_err(|m| Undecided(format!("{m}; at {}", self.backtrace())))
    }

    // ------------------------------------------------------------ types and layouts
    pub fn layout(&mut self, ty: Ty<'tcx>) -> Res<TyAndLayout<'tcx>> {
        if let Some(l) = self.layouts.get(&ty) {
            return Ok(*l);
        }
        match self.tcx.layout_of(self.te.as_query_input(ty)) {
            Ok(l) => {
                self.layouts.insert(ty, l);
                Ok(l)
            }
            Err(e) => und(format!("no layout for {ty}: {e:?}")),
        }
    }
    pub fn size_of(&mut self, ty: Ty<'tcx>) -> Res<u64> {
        Ok(self.layout(ty)?.size.bytes())
    }
    pub fn is_sized(&self, ty: Ty<'tcx>) -> bool {
        ty.is_sized(self.tcx, self.te)
    }
    fn cx(&self) -> LayoutCx<'tcx> {
        LayoutCx::new(self.tcx, self.te)
    }
    pub fn field_off(&mut self, ty: Ty<'tcx>, variant: Option<VariantIdx>, i: usize) -> Res<(u64, Ty<'tcx>)> {
        let mut l = self.layout(ty)?;
        let cx = self.cx();
        if let Some(v) = variant {
            l = l.for_variant(&cx, v);
        }
        let f = l.field(&cx, i);
        Ok((l.fields.offset(i).bytes(), f.ty))
    }
    pub fn signed(&self, ty: Ty<'tcx>) -> bool {
        ty.is_signed()
    }
    pub fn ptr_add(&self, v: Val, n: i64) -> Res<Val> {
        match v {
            Val::Ptr(p) => Ok(Val::Ptr(p.add(n))),
            Val::Int(x) => Ok(Val::Int((x as i128 + n as i128) as u128 & mask(64))),
            _ => und(format!("pointer arithmetic on {v:?}; at {}", self.backtrace())),
        }
    }
    pub fn as_ptr(&self, v: Val) -> Res<Ptr> {
        match v {
            Val::Ptr(p) => Ok(p),
            _ => und(format!("dereference of {v:?}; at {}", self.backtrace())),
        }
    }
    pub fn read(&mut self, v: Val, size: u64) -> Res<Val> {
        let p = self.as_ptr(v)?;
        let r = self.mem.read(p, size);
        let r = self.e(r)?;
        if r == Val::Top {
            return und(format!("use of a value lost in a join; at {}", self.backtrace()));
        }
        Ok(self.simplify(r))
    }
    /// apply branch assumptions to a symbolic value
    fn simplify(&self, v: Val) -> Val {
        if let Val::Sym(s) = v {
            for (a, x) in self.assume.iter().rev() {
                if *a == s {
                    return Val::Int(*x);
                }
            }
        }
        v
    }
    pub fn write(&mut self, v: Val, size: u64, x: Val) -> Res<()> {
        if size == 0 {
            return Ok(());
        }
        let p = self.as_ptr(v)?;
        let r = self.mem.write(p, size, x);
        self.e(r)
    }
    pub fn copy(&mut self, src: Val, dst: Val, size: u64) -> Res<()> {
        if size == 0 {
            return Ok(());
        }
        let (s, d) = (self.as_ptr(src)?, self.as_ptr(dst)?);
        let r = self.mem.copy(s, d, size);
        self.e(r)
    }
    pub fn new_heap(&mut self, size: u64, kind: AKind) -> Aid {
        self.mem.new_heap(&mut self.next_heap, size, kind)
    }
    pub fn ival(&self, v: Val) -> Res<IVal> {
        match v {
            Val::Int(x) => Ok(IVal::Int(x)),
            Val::Sym(s) => Ok(IVal::Sym(s)),
            _ => und(format!("integer expected, got {v:?}; at {}", self.backtrace())),
        }
    }
    pub fn of_ival(&self, v: IVal) -> Val {
        match v {
            IVal::Int(x) => Val::Int(x),
            IVal::Sym(s) => self.simplify(Val::Sym(s)),
        }
    }
    pub fn conc(&self, v: Val) -> Res<u128> {
        match self.simplify(v) {
            Val::Int(x) => Ok(x),
            Val::Sym(s) => und(format!("constant expected, got symbolic {}; at {}", self.dom.show_sym(s, 4), self.backtrace())),
            _ => und(format!("constant expected, got {v:?}; at {}", self.backtrace())),
        }
    }

    // ------------------------------------------------------------ constants and globals
    pub fn fn_ptr(&mut self, inst: Instance<'tcx>) -> Val {
        if let Some(a) = self.fn_ptrs.get(&inst) {
            return Val::Ptr(Ptr { a: *a, off: 0 });
        }
        self.specials.push(Special::Fn(inst));
        let a = self.new_heap(1, AKind::Special);
        self.mem.get_mut(a).special = self.specials.len() as u32 - 1;
        self.fn_ptrs.insert(inst, a);
        Val::Ptr(Ptr { a, off: 0 })
    }
    pub fn vtable(&mut self, ty: Ty<'tcx>, preds: &'tcx ty::List<ty::PolyExistentialPredicate<'tcx>>) -> Val {
        if let Some(a) = self.vtables.get(&(ty, preds)) {
            return Val::Ptr(Ptr { a: *a, off: 0 });
        }
        self.specials.push(Special::VTable(ty, preds));
        let a = self.new_heap(1, AKind::Special);
        self.mem.get_mut(a).special = self.specials.len() as u32 - 1;
        self.vtables.insert((ty, preds), a);
        Val::Ptr(Ptr { a, off: 0 })
    }
    pub fn special(&self, v: Val) -> Option<&Special<'tcx>> {
        match v {
            Val::Ptr(p) => {
                let al = self.mem.get(p.a)?;
                if al.kind == AKind::Special {
                    Some(&self.specials[al.special as usize])
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn import_alloc(&mut self, c: &rustc_middle::mir::interpret::Allocation, kind: AKind, id: Option<AllocId>) -> Res<Aid> {
        let size = c.size().bytes();
        let a = self.new_heap(size, kind);
        if let Some(id) = id {
            self.galloc.insert(id, a);
        }
        let bytes = c.inspect_with_uninit_and_ptr_outside_interpreter(0..size as usize).to_vec();
        let relocs: Vec<_> = c.provenance().ptrs().iter().map(|(o, p)| (*o, *p)).collect();
        {
            let m = self.mem.get_mut(a);
            m.raw = Raw::Bytes(Rc::new(bytes.clone()));
        }
        for (o, prov) in relocs {
            let o = o.bytes() as usize;
            // a type identity is plain data here: its bytes already hold the hash
            if matches!(self.tcx.global_alloc(prov.alloc_id()), GlobalAlloc::TypeId { .. }) {
                continue;
            }
            let target = self.global(prov.alloc_id())?;
            let addend = u64::from_le_bytes(bytes[o..o + 8].try_into().unwrap());
            let v = Val::Ptr(Ptr { a: target, off: addend as i64 });
            self.mem.get_mut(a).set(o as u32, 8, v);
        }
        Ok(a)
    }
    pub fn static_alloc(&mut self, d: DefId) -> Res<Aid> {
        if let Some(a) = self.statics.get(&d) {
            return Ok(*a);
        }
        if self.tcx.is_foreign_item(d) {
            return und(format!("foreign static {}", self.tcx.def_path_str(d)));
        }
        let init = match self.tcx.eval_static_initializer(d) {
            Ok(x) => x,
            Err(_) => return und(format!("static {} has no constant initialiser", self.tcx.def_path_str(d))),
        };
        let n = self.static_init.len() as u32;
        let a = self.import_alloc(init.inner(), AKind::Static(n), None)?;
        self.statics.insert(d, a);
        let rc = self.mem.heap[a.ix()].clone().unwrap();
        self.static_init.push((d, rc));
        Ok(a)
    }
    pub fn global(&mut self, id: AllocId) -> Res<Aid> {
        if let Some(a) = self.galloc.get(&id) {
            return Ok(*a);
        }
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let Val::Ptr(p) = self.fn_ptr(instance) else { unreachable!() };
                self.galloc.insert(id, p.a);
                Ok(p.a)
            }
            GlobalAlloc::VTable(ty, preds) => {
                let Val::Ptr(p) = self.vtable(ty, preds) else { unreachable!() };
                self.galloc.insert(id, p.a);
                Ok(p.a)
            }
            GlobalAlloc::Static(d) => self.static_alloc(d),
            GlobalAlloc::Memory(c) => self.import_alloc(c.inner(), AKind::Const, Some(id)),
            GlobalAlloc::TypeId { ty } => {
                self.specials.push(Special::TypeId(ty));
                let a = self.new_heap(16, AKind::Special);
                self.mem.get_mut(a).special = self.specials.len() as u32 - 1;
                self.galloc.insert(id, a);
                Ok(a)
            }
        }
    }
    fn scalar(&mut self, s: Scalar) -> Res<Val> {
        match s {
            Scalar::Int(i) => Ok(Val::Int(i.to_bits_unchecked())),
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let a = self.global(prov.alloc_id())?;
                Ok(Val::Ptr(Ptr { a, off: off.bytes() as i64 }))
            }
        }
    }
    /// write constant `c` of type ty to dst
    fn const_to(&mut self, c: &ConstOperand<'tcx>, dst: Val) -> Res<()> {
        let ty = c.const_.ty();
        let size = self.size_of(ty)?;
        if size == 0 {
            return Ok(());
        }
        let cv = match self.consts.get(&c.const_) {
            Some(x) => *x,
            None => match c.const_.eval(self.tcx, self.te, c.span) {
                Ok(x) => {
                    self.consts.insert(c.const_, x);
                    x
                }
                Err(_) => return und(format!("constant {:?} cannot be evaluated", c.const_)),
            },
        };
        match cv {
            ConstValue::ZeroSized => Ok(()),
            ConstValue::Scalar(s) => {
                let v = self.scalar(s)?;
                self.write(dst, size, v)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let a = self.global(alloc_id)?;
                self.write(dst, 8, Val::Ptr(Ptr { a, off: 0 }))?;
                let d = self.ptr_add(dst, 8)?;
                self.write(d, 8, Val::Int(meta as u128))
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.global(alloc_id)?;
                self.copy(Val::Ptr(Ptr { a, off: offset.bytes() as i64 }), dst, size)
            }
        }
    }

    // ------------------------------------------------------------ places and operands
    fn local(&self, f: &Frame<'tcx>, l: Local) -> Val {
        Val::Ptr(Ptr { a: Aid((f.base + l.as_usize()) as u32), off: 0 })
    }
    pub fn place(&mut self, f: &Frame<'tcx>, p: &Place<'tcx>) -> Res<PlaceV<'tcx>> {
        let mut pv = PlaceV { v: self.local(f, p.local), meta: None, ty: f.body.local_decls[p.local].ty, variant: None };
        for el in p.projection.iter() {
            match el {
                ProjectionElem::Deref => {
                    let Some(inner) = pv.ty.builtin_deref(true) else { return und(format!("deref of {}", pv.ty)) };
                    let fat = !self.is_sized(inner);
                    let v = self.read(pv.v, 8)?;
                    let meta = if fat {
                        let sz = self.size_of(pv.ty)?;
                        if sz == 16 {
                            let q = self.ptr_add(pv.v, 8)?;
                            Some(self.read(q, 8)?)
                        } else {
                            None
                        }
                    } else {
                        None
                    };
                    pv = PlaceV { v, meta, ty: inner, variant: None };
                }
                ProjectionElem::Field(i, fty) => {
                    if self.is_sized(pv.ty) {
                        let (off, _) = self.field_off(pv.ty, pv.variant, i.as_usize())?;
                        pv = PlaceV { v: self.ptr_add(pv.v, off as i64)?, meta: None, ty: fty, variant: None };
                    } else {
                        let l = self.layout(pv.ty)?;
                        let mut off = l.fields.offset(i.as_usize()).bytes();
                        let mut meta = None;
                        if !self.is_sized(fty) {
                            meta = pv.meta;
                            // dynamic alignment of the unsized tail
                            let tail = self.tcx.struct_tail_for_codegen(fty, self.te);
                            if let ty::Dynamic(..) = tail.kind() {
                                let (_, al) = self.size_align_of_val(fty, meta)?;
                                off = (off + al - 1) / al * al;
                            }
                        }
                        pv = PlaceV { v: self.ptr_add(pv.v, off as i64)?, meta, ty: fty, variant: None };
                    }
                }
                ProjectionElem::Downcast(_, v) => pv.variant = Some(v),
                ProjectionElem::Index(l) => {
                    let iv = {
                        let a = self.local(f, l);
                        self.read(a, 8)?
                    };
                    let i = self.conc(iv)?;
                    let et = match pv.ty.kind() {
                        ty::Array(t, _) | ty::Slice(t) => *t,
                        _ => return und("index of non array"),
                    };
                    let s = self.size_of(et)?;
                    pv = PlaceV { v: self.ptr_add(pv.v, (i as u64 * s) as i64)?, meta: None, ty: et, variant: None };
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (et, len) = self.elem_len(&pv)?;
                    let i = if from_end { len - offset } else { offset };
                    let s = self.size_of(et)?;
                    pv = PlaceV { v: self.ptr_add(pv.v, (i * s) as i64)?, meta: None, ty: et, variant: None };
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (et, len) = self.elem_len(&pv)?;
                    let end = if from_end { len - to } else { to };
                    let s = self.size_of(et)?;
                    let v = self.ptr_add(pv.v, (from * s) as i64)?;
                    pv = match pv.ty.kind() {
                        ty::Array(..) => PlaceV { v, meta: None, ty: Ty::new_array(self.tcx, et, end - from), variant: None },
                        _ => PlaceV { v, meta: Some(Val::Int((end - from) as u128)), ty: pv.ty, variant: None },
                    };
                }
                ProjectionElem::OpaqueCast(t) | ProjectionElem::UnwrapUnsafeBinder(t) => pv.ty = t,
                ProjectionElem::PhantomDeref => return und("phantom deref"),
            }
        }
        Ok(pv)
    }
    pub fn elem_len(&mut self, pv: &PlaceV<'tcx>) -> Res<(Ty<'tcx>, u64)> {
        match pv.ty.kind() {
            ty::Array(t, n) => match n.try_to_target_usize(self.tcx) {
                Some(n) => Ok((*t, n)),
                None => und("array length"),
            },
            ty::Slice(t) => {
                let n = self.conc(pv.meta.unwrap_or(Val::Top))?;
                Ok((*t, n as u64))
            }
            ty::Str => {
                let n = self.conc(pv.meta.unwrap_or(Val::Top))?;
                Ok((self.tcx.types.u8, n as u64))
            }
            _ => und(format!("element of {}", pv.ty)),
        }
    }
    pub fn size_align_of_val(&mut self, ty: Ty<'tcx>, meta: Option<Val>) -> Res<(u64, u64)> {
        if self.is_sized(ty) {
            let l = self.layout(ty)?;
            return Ok((l.size.bytes(), l.align.abi.bytes()));
        }
        match ty.kind() {
            ty::Slice(t) => {
                let n = self.conc(meta.unwrap_or(Val::Top))? as u64;
                let l = self.layout(*t)?;
                Ok((l.size.bytes() * n, l.align.abi.bytes()))
            }
            ty::Str => Ok((self.conc(meta.unwrap_or(Val::Top))? as u64, 1)),
            ty::Dynamic(..) => match self.special(meta.unwrap_or(Val::Top)) {
                Some(Special::VTable(t, _)) => {
                    let t = *t;
                    let l = self.layout(t)?;
                    Ok((l.size.bytes(), l.align.abi.bytes()))
                }
                _ => und("size of dyn without vtable"),
            },
            ty::Adt(..) | ty::Tuple(..) => {
                let l = self.layout(ty)?;
                let n = l.fields.count();
                let cx = self.cx();
                let last = l.field(&cx, n - 1).ty;
                let off = l.fields.offset(n - 1).bytes();
                let (s, a) = self.size_align_of_val(last, meta)?;
                let al = a.max(l.align.abi.bytes());
                let off = (off + a - 1) / a * a;
                Ok(((off + s + al - 1) / al * al, al))
            }
            _ => und(format!("size of unsized {ty}")),
        }
    }
    fn op_ty(&self, f: &Frame<'tcx>, o: &Operand<'tcx>) -> Ty<'tcx> {
        o.ty(&f.body.local_decls, self.tcx)
    }
    /// copy operand to dst
    fn op_to(&mut self, f: &Frame<'tcx>, o: &Operand<'tcx>, dst: Val) -> Res<()> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pv = self.place(f, p)?;
                let s = self.size_of(pv.ty)?;
                self.copy(pv.v, dst, s)
            }
            Operand::Constant(c) => self.const_to(c, dst),
            Operand::RuntimeChecks(rc) => {
                let v = self.runtime_check(rc);
                self.write(dst, 1, v)
            }
        }
    }
    fn runtime_check(&self, rc: &RuntimeChecks) -> Val {
        match rc {
            RuntimeChecks::OverflowChecks => Val::Int(1),
            _ => Val::Int(0),
        }
    }
    /// scalar operand
    fn op_val(&mut self, f: &Frame<'tcx>, o: &Operand<'tcx>) -> Res<Val> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pv = self.place(f, p)?;
                let s = self.size_of(pv.ty)?;
                if s == 0 {
                    return Ok(Val::Int(0));
                }
                self.read(pv.v, s)
            }
            Operand::Constant(c) => {
                if let Const::Val(ConstValue::Scalar(Scalar::Int(i)), _) = c.const_ {
                    return Ok(Val::Int(i.to_bits_unchecked()));
                }
                let ty = c.const_.ty();
                let s = self.size_of(ty)?;
                if s == 0 {
                    return Ok(Val::Int(0));
                }
                let t = self.tmp(s);
                self.const_to(c, t)?;
                let v = self.read(t, s);
                self.mem.stack.pop();
                v
            }
            Operand::RuntimeChecks(rc) => Ok(self.runtime_check(rc)),
        }
    }
    pub fn tmp(&mut self, size: u64) -> Val {
        let a = self.mem.new_stack(size);
        Val::Ptr(Ptr { a, off: 0 })
    }

    // ------------------------------------------------------------ enums
    pub fn read_discr(&mut self, v: Val, ty: Ty<'tcx>) -> Res<Val> {
        let l = self.layout(ty)?;
        let dt = ty.discriminant_ty(self.tcx);
        let dsize = self.size_of(dt)?;
        let of_variant = |s: &Self, ix: VariantIdx| -> Val {
            match ty.discriminant_for_variant(s.tcx, ix) {
                Some(d) => Val::Int(d.val & mask(8 * dsize as u32)),
                None => Val::Int(ix.as_u32() as u128),
            }
        };
        match &l.variants {
            Variants::Empty => und("discriminant of an uninhabited type"),
            Variants::Single { index } => Ok(of_variant(self, *index)),
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let ts = tag.size(&self.tcx).bytes();
                let off = l.fields.offset(tag_field.as_usize()).bytes();
                let tv = self.ptr_add(v, off as i64)?;
                let t = self.read(tv, ts)?;
                match tag_encoding {
                    TagEncoding::Direct => match t {
                        Val::Int(x) => {
                            // sign extension when the discriminant type is signed
                            if dt.is_signed() {
                                let sh = 128 - 8 * ts as u32;
                                let sx = ((x << sh) as i128 >> sh) as u128;
                                Ok(Val::Int(sx & mask(8 * dsize as u32)))
                            } else {
                                Ok(Val::Int(x))
                            }
                        }
                        Val::Sym(s) => {
                            let r = self.dom.cast(IVal::Sym(s), 8 * dsize as u32, false);
                            Ok(self.of_ival(r))
                        }
                        _ => und(format!("tag {t:?}")),
                    },
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match t {
                        Val::Int(x) => {
                            let m = mask(8 * ts as u32);
                            let rel = x.wrapping_sub(*niche_start) & m;
                            let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                            let ix = if rel <= n {
                                VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32)
                            } else {
                                *untagged_variant
                            };
                            Ok(of_variant(self, ix))
                        }
                        Val::Ptr(_) => Ok(of_variant(self, *untagged_variant)),
                        Val::Sym(s) => {
                            let m = mask(8 * ts as u32);
                            let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                            let mut r = {
                                let Val::Int(x) = of_variant(self, *untagged_variant) else { unreachable!() };
                                IVal::Int(x)
                            };
                            for k in 0..=n {
                                let ix = VariantIdx::from_u32(niche_variants.start.as_u32() + k as u32);
                                let Val::Int(dv) = of_variant(self, ix) else { unreachable!() };
                                let c = self.dom.bin(IOp::Eq, IVal::Sym(s), IVal::Int(niche_start.wrapping_add(k) & m), 8 * ts as u32);
                                r = match c {
                                    IVal::Int(0) => r,
                                    IVal::Int(_) => IVal::Int(dv),
                                    IVal::Sym(c) => self.dom.ite_int(c, IVal::Int(dv), r, 8 * dsize as u32),
                                };
                            }
                            Ok(self.of_ival(r))
                        }
                        _ => und(format!("niche tag {t:?}; at {}", self.backtrace())),
                    },
                }
            }
        }
    }
    pub fn set_discr(&mut self, v: Val, ty: Ty<'tcx>, ix: VariantIdx) -> Res<()> {
        let l = self.layout(ty)?;
        match &l.variants {
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let ts = tag.size(&self.tcx).bytes();
                let off = l.fields.offset(tag_field.as_usize()).bytes();
                let m = mask(8 * ts as u32);
                let t = match tag_encoding {
                    TagEncoding::Direct => match ty.discriminant_for_variant(self.tcx, ix) {
                        Some(d) => d.val & m,
                        None => ix.as_u32() as u128,
                    },
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if ix == *untagged_variant {
                            return Ok(());
                        }
                        niche_start.wrapping_add((ix.as_u32() - niche_variants.start.as_u32()) as u128) & m
                    }
                };
                let tv = self.ptr_add(v, off as i64)?;
                self.write(tv, ts, Val::Int(t))
            }
            _ => Ok(()),
        }
    }

    // ------------------------------------------------------------ arithmetic
    pub fn binop(&mut self, op: BinOp, a: Val, b: Val, ty: Ty<'tcx>, bty: Ty<'tcx>) -> Res<Val> {
        let bits = match ty.kind() {
            ty::Bool => 8,
            ty::Char => 32,
            _ => (self.size_of(ty)? * 8) as u32,
        };
        let m = mask(bits);
        let signed = ty.is_signed();
        use BinOp::*;
        // pointers
        if matches!(a, Val::Ptr(_)) || matches!(b, Val::Ptr(_)) || op == Offset {
            return self.ptr_binop(op, a, b, ty, bits);
        }
        if let (Val::Fld(x), Val::Fld(y)) = (a, b) {
            // whole field elements are only compared through natives
            let _ = (x, y);
            return und(format!("raw operation on field elements; at {}", self.backtrace()));
        }
        if ty.is_floating_point() {
            return self.float_binop(op, a, b, bits);
        }
        let (x, y) = (self.ival(a)?, self.ival(b)?);
        if let (IVal::Int(x), IVal::Int(y)) = (x, y) {
            let sx = |v: u128| -> i128 {
                let sh = 128 - bits;
                ((v << sh) as i128) >> sh
            };
            let bbits = (self.size_of(bty)? * 8).max(8) as u32;
            let shamt = {
                let _ = bbits;
                (y & (bits as u128 - 1)) as u32
            };
            let r = match op {
                Add | AddUnchecked => x.wrapping_add(y) & m,
                Sub | SubUnchecked => x.wrapping_sub(y) & m,
                Mul | MulUnchecked => x.wrapping_mul(y) & m,
                Div => {
                    if y == 0 {
                        return und("division by zero");
                    }
                    if signed {
                        (sx(x).wrapping_div(sx(y)) as u128) & m
                    } else {
                        x / y
                    }
                }
                Rem => {
                    if y == 0 {
                        return und("division by zero");
                    }
                    if signed {
                        (sx(x).wrapping_rem(sx(y)) as u128) & m
                    } else {
                        x % y
                    }
                }
                BitXor => x ^ y,
                BitAnd => x & y,
                BitOr => x | y,
                Shl | ShlUnchecked => (x << shamt) & m,
                Shr | ShrUnchecked => {
                    if signed {
                        ((sx(x) >> shamt) as u128) & m
                    } else {
                        x >> shamt
                    }
                }
                Eq => (x == y) as u128,
                Ne => (x != y) as u128,
                Lt => (if signed { sx(x) < sx(y) } else { x < y }) as u128,
                Le => (if signed { sx(x) <= sx(y) } else { x <= y }) as u128,
                Ge => (if signed { sx(x) >= sx(y) } else { x >= y }) as u128,
                Gt => (if signed { sx(x) > sx(y) } else { x > y }) as u128,
                Cmp => {
                    let o = if signed { sx(x).cmp(&sx(y)) } else { x.cmp(&y) };
                    (o as i8 as u8) as u128
                }
                _ => return und(format!("binop {op:?}")),
            };
            return Ok(Val::Int(r));
        }
        // symbolic
        let lt = |s: bool| if s { IOp::SLt } else { IOp::Lt };
        let le = |s: bool| if s { IOp::SLe } else { IOp::Le };
        // signed values that are known non-negative behave as unsigned
        let signed = signed && !(self.dom.range(x).1 <= m >> 1 && self.dom.range(y).1 <= m >> 1);
        let d = &mut self.dom;
        let r = match op {
            Add | AddUnchecked => d.bin(IOp::Add, x, y, bits),
            Sub | SubUnchecked => d.bin(IOp::Sub, x, y, bits),
            Mul | MulUnchecked => d.bin(IOp::Mul, x, y, bits),
            Div if !signed => d.bin(IOp::Div, x, y, bits),
            Rem if !signed => d.bin(IOp::Rem, x, y, bits),
            BitXor => d.bin(IOp::Xor, x, y, bits),
            BitAnd => d.bin(IOp::And, x, y, bits),
            BitOr => d.bin(IOp::Or, x, y, bits),
            Shl | ShlUnchecked => d.bin(IOp::Shl, x, y, bits),
            Shr | ShrUnchecked if !signed => d.bin(IOp::Shr, x, y, bits),
            Eq => d.bin(IOp::Eq, x, y, bits),
            Ne => {
                let e = d.bin(IOp::Eq, x, y, bits);
                d.not(e)
            }
            Lt => d.bin(lt(signed), x, y, bits),
            Le => d.bin(le(signed), x, y, bits),
            Gt => d.bin(lt(signed), y, x, bits),
            Ge => d.bin(le(signed), y, x, bits),
            Cmp => {
                let l = d.bin(lt(signed), x, y, bits);
                let e = d.bin(IOp::Eq, x, y, bits);
                let inner = match e {
                    IVal::Int(1) => IVal::Int(0),
                    IVal::Int(_) => IVal::Int(1),
                    IVal::Sym(s) => d.ite_int(s, IVal::Int(0), IVal::Int(1), 8),
                };
                match l {
                    IVal::Int(1) => IVal::Int(255),
                    IVal::Int(_) => inner,
                    IVal::Sym(s) => d.ite_int(s, IVal::Int(255), inner, 8),
                }
            }
            _ => return und(format!("symbolic binop {op:?} signed={signed}; at {}", self.backtrace())),
        };
        Ok(self.of_ival(r))
    }
    fn float_binop(&mut self, op: BinOp, a: Val, b: Val, bits: u32) -> Res<Val> {
        let (x, y) = (self.conc(a)?, self.conc(b)?);
        if bits != 64 {
            return und("float arithmetic");
        }
        let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        use BinOp::*;
        let r = match op {
            Add => (x + y).to_bits() as u128,
            Sub => (x - y).to_bits() as u128,
            Mul => (x * y).to_bits() as u128,
            Div => (x / y).to_bits() as u128,
            Lt => (x < y) as u128,
            Le => (x <= y) as u128,
            Gt => (x > y) as u128,
            Ge => (x >= y) as u128,
            Eq => (x == y) as u128,
            Ne => (x != y) as u128,
            _ => return und("float op"),
        };
        Ok(Val::Int(r))
    }
    fn ptr_binop(&mut self, op: BinOp, a: Val, b: Val, ty: Ty<'tcx>, bits: u32) -> Res<Val> {
        use BinOp::*;
        match (op, a, b) {
            (Offset, _, n) => {
                let Some(t) = ty.builtin_deref(true) else { return und("offset") };
                let s = self.size_of(t)?;
                let n = self.conc(n)? as u64 as i64;
                self.ptr_add(a, n * s as i64)
            }
            (Eq, Val::Ptr(p), Val::Ptr(q)) => Ok(Val::Int((p == q) as u128)),
            (Ne, Val::Ptr(p), Val::Ptr(q)) => Ok(Val::Int((p != q) as u128)),
            (Eq, Val::Ptr(_), Val::Int(_)) | (Eq, Val::Int(_), Val::Ptr(_)) => Ok(Val::Int(0)),
            (Ne, Val::Ptr(_), Val::Int(_)) | (Ne, Val::Int(_), Val::Ptr(_)) => Ok(Val::Int(1)),
            (Lt | Le | Gt | Ge | Cmp, Val::Ptr(p), Val::Ptr(q)) if p.a == q.a => {
                let o = p.off.cmp(&q.off);
                Ok(Val::Int(match op {
                    Lt => o.is_lt() as u128,
                    Le => o.is_le() as u128,
                    Gt => o.is_gt() as u128,
                    Ge => o.is_ge() as u128,
                    _ => (o as i8 as u8) as u128,
                }))
            }
            // distinct allocations: give them an arbitrary fixed order by identity
            (Lt | Le | Gt | Ge | Cmp, Val::Ptr(p), Val::Ptr(q)) => {
                let o = p.a.0.cmp(&q.a.0);
                Ok(Val::Int(match op {
                    Lt | Le => o.is_lt() as u128,
                    Gt | Ge => o.is_gt() as u128,
                    _ => (o as i8 as u8) as u128,
                }))
            }
            (Gt | Ge, Val::Ptr(_), Val::Int(x)) if x < 4096 => Ok(Val::Int(1)),
            (Lt | Le, Val::Ptr(_), Val::Int(x)) if x < 4096 => Ok(Val::Int(0)),
            (Lt | Le, Val::Int(x), Val::Ptr(_)) if x < 4096 => Ok(Val::Int(1)),
            (Gt | Ge, Val::Int(x), Val::Ptr(_)) if x < 4096 => Ok(Val::Int(0)),
            (Lt | Le, Val::Ptr(_), Val::Int(x)) if x > 1 << 62 => Ok(Val::Int(1)),
            (Gt | Ge, Val::Ptr(_), Val::Int(x)) if x > 1 << 62 => Ok(Val::Int(0)),
            (Sub | SubUnchecked, Val::Ptr(p), Val::Ptr(q)) if p.a == q.a => Ok(Val::Int((p.off - q.off) as u64 as u128)),
            (Sub | SubUnchecked, Val::Int(n), Val::Ptr(q)) => Ok(Val::Int((n as u64 as i64).wrapping_sub(q.fake()) as u64 as u128)),
            (Sub | SubUnchecked, Val::Ptr(p), Val::Ptr(q)) => Ok(Val::Int(p.fake().wrapping_sub(q.fake()) as u64 as u128)),
            (Sub | SubUnchecked, Val::Ptr(_), Val::Int(n)) => self.ptr_add(a, -(n as u64 as i64)),
            (Add | AddUnchecked, Val::Ptr(_), Val::Int(n)) => self.ptr_add(a, n as u64 as i64),
            (Add | AddUnchecked, Val::Int(n), Val::Ptr(_)) => self.ptr_add(b, n as u64 as i64),
            // allocations are taken to start at a multiple of 4096
            (BitAnd, Val::Ptr(p), Val::Int(k)) | (BitAnd, Val::Int(k), Val::Ptr(p)) => {
                if k < 4096 {
                    Ok(Val::Int((p.off as u64 as u128) & k))
                } else if (!k & mask(bits)) < 4096 {
                    let low = (p.off as u64 as u128) & !k & mask(bits);
                    self.ptr_add(Val::Ptr(p), -(low as i64))
                } else {
                    und("pointer mask")
                }
            }
            (Rem, Val::Ptr(p), Val::Int(k)) if k.is_power_of_two() && k <= 4096 => Ok(Val::Int((p.off as u64 as u128) % k)),
            (BitOr, Val::Ptr(_), Val::Int(0)) => Ok(a),
            (BitOr, Val::Ptr(_), Val::Int(k)) if k < 8 => self.ptr_add(a, k as i64),
            _ => und(format!("pointer operation {op:?} on {a:?}, {b:?}; at {}", self.backtrace())),
        }
    }
    pub fn checked(&mut self, op: BinOp, a: Val, b: Val, ty: Ty<'tcx>) -> Res<(Val, Val)> {
        let bits = (self.size_of(ty)? * 8) as u32;
        let m = mask(bits);
        let signed = ty.is_signed();
        let plain = match op {
            BinOp::AddWithOverflow => BinOp::Add,
            BinOp::SubWithOverflow => BinOp::Sub,
            _ => BinOp::Mul,
        };
        if matches!(a, Val::Ptr(_)) || matches!(b, Val::Ptr(_)) {
            let r = self.binop(plain, a, b, ty, ty)?;
            return Ok((r, Val::Int(0)));
        }
        let r = self.binop(plain, a, b, ty, ty)?;
        let (x, y) = (self.ival(a)?, self.ival(b)?);
        if let (IVal::Int(x), IVal::Int(y)) = (x, y) {
            let o = if signed {
                let sh = 128 - bits;
                let (sx, sy) = (((x << sh) as i128) >> sh, ((y << sh) as i128) >> sh);
                let full = match plain {
                    BinOp::Add => sx.checked_add(sy),
                    BinOp::Sub => sx.checked_sub(sy),
                    _ => sx.checked_mul(sy),
                };
                match full {
                    Some(z) => ((z << sh) >> sh) != z,
                    None => true,
                }
            } else {
                match plain {
                    BinOp::Add => x.checked_add(y).map_or(true, |z| z > m),
                    BinOp::Sub => x < y,
                    _ => x.checked_mul(y).map_or(true, |z| z > m),
                }
            };
            return Ok((r, Val::Int(o as u128)));
        }
        if signed {
            return und("symbolic signed overflow check");
        }
        let oop = match plain {
            BinOp::Add => IOp::AddOvf,
            BinOp::Sub => IOp::SubOvf,
            _ => IOp::MulOvf,
        };
        let o = self.dom.bin(oop, x, y, bits);
        // node width: remember operand width for MulOvf etc. through an explicit node
        Ok((r, self.of_ival(o)))
    }

    // ------------------------------------------------------------ rvalues
    fn assign(&mut self, f: &Frame<'tcx>, place: &Place<'tcx>, rv: &Rvalue<'tcx>) -> Res<()> {
        let d = self.place(f, place)?;
        match rv {
            Rvalue::Use(o, ..) => self.op_to(f, o, d.v),
            Rvalue::CopyForDeref(p) => {
                let pv = self.place(f, p)?;
                let s = self.size_of(pv.ty)?;
                self.copy(pv.v, d.v, s)
            }
            Rvalue::Repeat(o, n) => {
                let n = match n.try_to_target_usize(self.tcx) {
                    Some(n) => n,
                    None => return und("repeat count"),
                };
                let et = self.op_ty(f, o);
                let s = self.size_of(et)?;
                if s == 0 || n == 0 {
                    return Ok(());
                }
                let t = self.tmp(s);
                self.op_to(f, o, t)?;
                for i in 0..n {
                    let q = self.ptr_add(d.v, (i * s) as i64)?;
                    self.copy(t, q, s)?;
                }
                self.mem.stack.pop();
                Ok(())
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) | Rvalue::Reborrow(_, _, p) => {
                if let Rvalue::Reborrow(..) = rv {
                    let pv = self.place(f, p)?;
                    let s = self.size_of(pv.ty)?;
                    return self.copy(pv.v, d.v, s);
                }
                let pv = self.place(f, p)?;
                self.write(d.v, 8, pv.v)?;
                if let Some(m) = pv.meta {
                    let q = self.ptr_add(d.v, 8)?;
                    self.write(q, 8, m)?;
                }
                Ok(())
            }
            Rvalue::ThreadLocalRef(id) => {
                let a = self.static_alloc(*id)?;
                self.write(d.v, 8, Val::Ptr(Ptr { a, off: 0 }))
            }
            Rvalue::Cast(kind, o, ty) => self.cast(f, kind, o, *ty, d.v),
            Rvalue::BinaryOp(op, ab) => {
                let (a, b) = (&ab.0, &ab.1);
                let (ta, tb) = (self.op_ty(f, a), self.op_ty(f, b));
                // fat pointer comparison
                if ta.is_any_ptr() && self.size_of(ta)? == 16 {
                    let t1 = self.tmp(16);
                    self.op_to(f, a, t1)?;
                    let t2 = self.tmp(16);
                    self.op_to(f, b, t2)?;
                    let (p1, p2) = (self.read(t1, 8)?, self.read(t2, 8)?);
                    let (q1, q2) = (self.ptr_add(t1, 8)?, self.ptr_add(t2, 8)?);
                    let (m1, m2) = (self.read(q1, 8)?, self.read(q2, 8)?);
                    self.mem.stack.pop();
                    self.mem.stack.pop();
                    let e = (p1 == p2 && m1 == m2) as u128;
                    return match op {
                        BinOp::Eq => self.write(d.v, 1, Val::Int(e)),
                        BinOp::Ne => self.write(d.v, 1, Val::Int(1 - e)),
                        _ => und("wide pointer ordering"),
                    };
                }
                let (x, y) = (self.op_val(f, a)?, self.op_val(f, b)?);
                match op {
                    BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow => {
                        let (r, o) = self.checked(*op, x, y, ta)?;
                        let (o0, t0) = self.field_off(d.ty, None, 0)?;
                        let (o1, _) = self.field_off(d.ty, None, 1)?;
                        let s = self.size_of(t0)?;
                        let p0 = self.ptr_add(d.v, o0 as i64)?;
                        let p1 = self.ptr_add(d.v, o1 as i64)?;
                        self.write(p0, s, r)?;
                        self.write(p1, 1, o)
                    }
                    _ => {
                        let r = if ta.is_unit() { Val::Int((*op == BinOp::Eq) as u128) } else { self.binop(*op, x, y, ta, tb)? };
                        let s = self.size_of(d.ty)?;
                        self.write(d.v, s, r)
                    }
                }
            }
            Rvalue::UnaryOp(op, o) => {
                let ty = self.op_ty(f, o);
                match op {
                    UnOp::PtrMetadata => {
                        let s = self.size_of(ty)?;
                        if s == 16 {
                            let t = self.tmp(16);
                            self.op_to(f, o, t)?;
                            let q = self.ptr_add(t, 8)?;
                            let v = self.read(q, 8)?;
                            self.mem.stack.pop();
                            self.write(d.v, 8, v)
                        } else {
                            Ok(())
                        }
                    }
                    UnOp::Not => {
                        let v = self.op_val(f, o)?;
                        let s = self.size_of(ty)?;
                        let r = if ty.is_bool() {
                            let i = self.ival(v)?;
                            let r = self.dom.not(i);
                            self.of_ival(r)
                        } else {
                            let m = mask(8 * s as u32);
                            match v {
                                Val::Int(x) => Val::Int(!x & m),
                                Val::Sym(_) => {
                                    let i = self.ival(v)?;
                                    let r = self.dom.bin(IOp::Xor, i, IVal::Int(m), 8 * s as u32);
                                    self.of_ival(r)
                                }
                                _ => return und("not of pointer"),
                            }
                        };
                        self.write(d.v, s, r)
                    }
                    UnOp::Neg => {
                        let v = self.op_val(f, o)?;
                        let s = self.size_of(ty)?;
                        if ty.is_floating_point() {
                            return und("float negation");
                        }
                        let i = self.ival(v)?;
                        let r = self.dom.bin(IOp::Sub, IVal::Int(0), i, 8 * s as u32);
                        let r = self.of_ival(r);
                        self.write(d.v, s, r)
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                let pv = self.place(f, p)?;
                let v = self.read_discr(pv.v, pv.ty)?;
                let s = self.size_of(d.ty)?;
                self.write(d.v, s, v)
            }
            Rvalue::Aggregate(kind, ops) => {
                match &**kind {
                    AggregateKind::Array(et) => {
                        let s = self.size_of(*et)?;
                        for (i, o) in ops.iter().enumerate() {
                            let q = self.ptr_add(d.v, (i as u64 * s) as i64)?;
                            self.op_to(f, o, q)?;
                        }
                        Ok(())
                    }
                    AggregateKind::Adt(_, vidx, _, _, Some(active)) => {
                        let _ = vidx;
                        let (off, _) = self.field_off(d.ty, None, active.as_usize())?;
                        let q = self.ptr_add(d.v, off as i64)?;
                        self.op_to(f, &ops.raw[0], q)
                    }
                    AggregateKind::Adt(_, vidx, ..) => {
                        let var = if d.ty.is_enum() { Some(*vidx) } else { None };
                        for (i, o) in ops.iter().enumerate() {
                            let (off, fty) = self.field_off(d.ty, var, i)?;
                            if self.size_of(fty)? == 0 {
                                continue;
                            }
                            let q = self.ptr_add(d.v, off as i64)?;
                            self.op_to(f, o, q)?;
                        }
                        if d.ty.is_enum() {
                            self.set_discr(d.v, d.ty, *vidx)?;
                        }
                        Ok(())
                    }
                    AggregateKind::Tuple | AggregateKind::Closure(..) => {
                        for (i, o) in ops.iter().enumerate() {
                            let (off, fty) = self.field_off(d.ty, None, i)?;
                            if self.size_of(fty)? == 0 {
                                continue;
                            }
                            let q = self.ptr_add(d.v, off as i64)?;
                            self.op_to(f, o, q)?;
                        }
                        Ok(())
                    }
                    AggregateKind::RawPtr(..) => {
                        let v = self.op_val(f, &ops.raw[0])?;
                        self.write(d.v, 8, v)?;
                        if self.size_of(d.ty)? == 16 {
                            let m = self.op_val(f, &ops.raw[1])?;
                            let q = self.ptr_add(d.v, 8)?;
                            self.write(q, 8, m)?;
                        }
                        Ok(())
                    }
                    _ => und("coroutine aggregate"),
                }
            }
            Rvalue::WrapUnsafeBinder(..) => und("unsafe binder"),
        }
    }
    fn cast(&mut self, f: &Frame<'tcx>, kind: &CastKind, o: &Operand<'tcx>, ty: Ty<'tcx>, dst: Val) -> Res<()> {
        let sty = self.op_ty(f, o);
        let dsize = self.size_of(ty)?;
        match kind {
            CastKind::IntToInt => {
                let v = self.op_val(f, o)?;
                let ssize = self.size_of(sty)?;
                let r = match v {
                    Val::Int(x) => {
                        let sbits = 8 * ssize as u32;
                        let x = if sty.is_signed() {
                            let sh = 128 - sbits;
                            (((x << sh) as i128) >> sh) as u128
                        } else {
                            x
                        };
                        Val::Int(x & mask(8 * dsize as u32))
                    }
                    Val::Sym(s) => {
                        let r = self.dom.cast(IVal::Sym(s), 8 * dsize as u32, sty.is_signed());
                        self.of_ival(r)
                    }
                    Val::Ptr(_) if dsize == ssize => v,
                    _ => return und(format!("cast of {v:?}; at {}", self.backtrace())),
                };
                self.write(dst, dsize, r)
            }
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                let ssize = self.size_of(sty)?;
                if ssize == dsize {
                    self.op_to(f, o, dst)
                } else {
                    let t = self.tmp(ssize);
                    self.op_to(f, o, t)?;
                    let r = self.copy(t, dst, dsize.min(ssize));
                    self.mem.stack.pop();
                    r
                }
            }
            CastKind::PointerExposeProvenance | CastKind::PointerWithExposedProvenance => {
                let v = self.op_val(f, o)?;
                self.write(dst, dsize, v)
            }
            CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => self.op_to(f, o, dst),
            CastKind::IntToFloat => {
                let v = self.op_val(f, o)?;
                let x = self.conc(v)?;
                if dsize != 8 {
                    return und("float cast");
                }
                let sb = 8 * self.size_of(sty)? as u32;
                let r = if sty.is_signed() {
                    let sh = 128 - sb;
                    ((((x << sh) as i128) >> sh) as f64).to_bits()
                } else {
                    (x as f64).to_bits()
                };
                self.write(dst, 8, Val::Int(r as u128))
            }
            CastKind::FloatToInt => {
                let v = self.op_val(f, o)?;
                let x = f64::from_bits(self.conc(v)? as u64);
                if self.size_of(sty)? != 8 {
                    return und("float cast");
                }
                let r = if ty.is_signed() { (x as i64) as u64 as u128 } else { x as u64 as u128 };
                self.write(dst, dsize, Val::Int(r & mask(8 * dsize as u32)))
            }
            CastKind::FloatToFloat => und("float cast"),
            CastKind::PointerCoercion(pc, _) => match pc {
                PointerCoercion::ReifyFnPointer(_) => {
                    let ty::FnDef(d, a) = *sty.kind() else { return und("reify") };
                    let a = self.norm_args(a.skip_binder());
                    let inst = Instance::resolve_for_fn_ptr(self.tcx, self.te, d, a);
                    let Some(inst) = inst else { return und("unresolved fn pointer") };
                    let v = self.fn_ptr(inst);
                    self.write(dst, 8, v)
                }
                PointerCoercion::ClosureFnPointer(_) => {
                    let ty::Closure(d, a) = *sty.kind() else { return und("closure fn pointer") };
                    let inst = Instance::resolve_closure(self.tcx, d, a, ty::ClosureKind::FnOnce);
                    let v = self.fn_ptr(inst);
                    self.write(dst, 8, v)
                }
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer => self.op_to(f, o, dst),
                PointerCoercion::Unsize => {
                    let ss = self.size_of(sty)?;
                    let t = self.tmp(ss);
                    self.op_to(f, o, t)?;
                    self.unsize(t, sty, dst, ty)?;
                    self.mem.stack.pop();
                    Ok(())
                }
            },
        }
    }
    fn norm_args(&self, a: impl Into<GenericArgsRef<'tcx>>) -> GenericArgsRef<'tcx> {
        self.tcx.erase_and_anonymize_regions(a.into())
    }
    fn unsize(&mut self, src: Val, sty: Ty<'tcx>, dst: Val, dty: Ty<'tcx>) -> Res<()> {
        if let (ty::Pat(a, _), ty::Pat(b, _)) = (sty.kind(), dty.kind()) {
            return self.unsize(src, *a, dst, *b);
        }
        if let (Some(a), Some(b)) = (sty.builtin_deref(true), dty.builtin_deref(true)) {
            if !matches!(sty.kind(), ty::Adt(..)) {
                return self.unsize_ptr(src, a, dst, b);
            }
        }
        match (sty.kind(), dty.kind()) {
            (ty::Adt(d1, _), ty::Adt(d2, _)) if d1 == d2 => {
                let n = d1.non_enum_variant().fields.len();
                for i in 0..n {
                    let (o1, t1) = self.field_off(sty, None, i)?;
                    let (o2, t2) = self.field_off(dty, None, i)?;
                    let (p, q) = (self.ptr_add(src, o1 as i64)?, self.ptr_add(dst, o2 as i64)?);
                    if t1 == t2 {
                        let s = self.size_of(t1)?;
                        self.copy(p, q, s)?;
                    } else {
                        self.unsize(p, t1, q, t2)?;
                    }
                }
                Ok(())
            }
            _ => und(format!("unsize {sty} -> {dty}")),
        }
    }
    fn unsize_ptr(&mut self, src: Val, a: Ty<'tcx>, dst: Val, b: Ty<'tcx>) -> Res<()> {
        let (a, b) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.te);
        match (a.kind(), b.kind()) {
            (ty::Array(_, n), ty::Slice(_)) => {
                let n = n.try_to_target_usize(self.tcx).unwrap();
                let v = self.read(src, 8)?;
                self.write(dst, 8, v)?;
                let q = self.ptr_add(dst, 8)?;
                self.write(q, 8, Val::Int(n as u128))
            }
            (ty::Dynamic(..), ty::Dynamic(preds, _)) => {
                let v = self.read(src, 8)?;
                let s8 = self.ptr_add(src, 8)?;
                let m = self.read(s8, 8)?;
                let t = match self.special(m) {
                    Some(Special::VTable(t, _)) => *t,
                    _ => return und("upcast without vtable"),
                };
                let vt = self.vtable(t, preds);
                self.write(dst, 8, v)?;
                let q = self.ptr_add(dst, 8)?;
                self.write(q, 8, vt)
            }
            (_, ty::Dynamic(preds, _)) => {
                let v = self.read(src, 8)?;
                self.write(dst, 8, v)?;
                let vt = self.vtable(a, preds);
                let q = self.ptr_add(dst, 8)?;
                self.write(q, 8, vt)
            }
            _ => und(format!("unsize pointer {a} -> {b}")),
        }
    }

    // ------------------------------------------------------------ calls
    pub fn resolve(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> Res<Instance<'tcx>> {
        let a = self.norm_args(a);
        match Instance::try_resolve(self.tcx, self.te, d, a) {
            Ok(Some(i)) => Ok(i),
            _ => und(format!("cannot resolve {}", self.tcx.def_path_str_with_args(d, a))),
        }
    }
    pub fn mir(&mut self, inst: Instance<'tcx>) -> Option<&'tcx Body<'tcx>> {
        if let Some(b) = self.bodies.get(&inst) {
            return Some(b);
        }
        match inst.def {
            InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) || self.tcx.is_foreign_item(d) {
                    return None;
                }
            }
            InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) | InstanceKind::LlvmIntrinsic(_) => return None,
            _ => {}
        }
        let body = self.tcx.instance_mir(inst.def).clone();
        let body = inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.te, ty::EarlyBinder::bind(self.tcx, body));
        let body: &'tcx Body<'tcx> = Box::leak(Box::new(body));
        self.bodies.insert(inst, body);
        Some(body)
    }
    pub fn virtual_target(&mut self, vt: Val, trait_idx: usize) -> Res<Instance<'tcx>> {
        let (t, preds) = match self.special(vt) {
            Some(Special::VTable(t, p)) => (*t, *p),
            _ => return und(format!("virtual call without vtable; at {}", self.backtrace())),
        };
        let entries: &[ty::VtblEntry<'tcx>] = match preds.principal() {
            Some(pr) => {
                let tr = pr.with_self_ty(self.tcx, t);
                let tr = self.tcx.erase_and_anonymize_regions(self.tcx.instantiate_bound_regions_with_erased(tr));
                self.tcx.vtable_entries(tr)
            }
            None => return und("no principal"),
        };
        match entries.get(trait_idx) {
            Some(ty::VtblEntry::Method(i)) => Ok(*i),
            _ => und("bad vtable index"),
        }
    }

    /// Calls `inst`; the arguments are places, the result is written to `dst`.
    pub fn call(&mut self, inst: Instance<'tcx>, args: &[Arg<'tcx>], dst: Val, dty: Ty<'tcx>, rust_call: bool) -> Res<Flow> {
        self.calls += 1;
        let h = self.handler(inst)?;
        match &*h {
            Handler::Panic => {
                let n = self.tcx.def_path_str(inst.def_id());
                Ok(Flow::Panic(format!("{n} at {}", self.repo_loc())))
            }
            Handler::Nop => Ok(Flow::Return),
            Handler::Ctor => {
                let mut a: Vec<Arg<'tcx>> = args.to_vec();
                if rust_call && !a.is_empty() {
                    let last = a.pop().unwrap();
                    let ty::Tuple(fs) = last.ty.kind() else { return und("rust-call without tuple") };
                    for i in 0..fs.len() {
                        let (off, t) = self.field_off(last.ty, None, i)?;
                        let v = self.ptr_add(last.v, off as i64)?;
                        a.push(Arg { v, ty: t, meta: None });
                    }
                }
                let d = inst.def_id();
                let ty::Adt(adt, _) = dty.kind() else { return und("constructor of a non-ADT") };
                let var = if adt.is_enum() { Some(adt.variant_index_with_ctor_id(d)) } else { None };
                for (i, x) in a.iter().enumerate() {
                    let (off, fty) = self.field_off(dty, var, i)?;
                    let s = self.size_of(fty)?;
                    if s > 0 {
                        let q = self.ptr_add(dst, off as i64)?;
                        self.copy(x.v, q, s)?;
                    }
                }
                if let Some(v) = var {
                    self.set_discr(dst, dty, v)?;
                }
                Ok(Flow::Return)
            }
            Handler::Missing(n) => und(format!("no MIR and no model for {n}; at {}", self.backtrace())),
            Handler::Native(id) => {
                let name = self.native_names[*id as usize].clone();
                self.native(&name, inst, args, dst, dty)
            }
            Handler::Intrinsic(name, fallback) => {
                let name = name.clone();
                if let Some(fl) = self.intrinsic(&name, inst, args, dst, dty)? {
                    return Ok(fl);
                }
                match fallback {
                    Some(b) => self.exec_body(inst, b, args, dst, dty, rust_call),
                    None => und(format!("intrinsic {name}; at {}", self.backtrace())),
                }
            }
            Handler::Virtual(_, idx) => {
                // receiver: find the data pointer and vtable
                let a0 = args[0];
                let (vt, thin): (Val, Val);
                let mut newargs = args.to_vec();
                if self.is_sized(a0.ty) {
                    let s = self.size_of(a0.ty)?;
                    if s != 16 {
                        return und("virtual receiver");
                    }
                    let q = self.ptr_add(a0.v, 8)?;
                    vt = self.read(q, 8)?;
                    let target = self.virtual_target(vt, *idx)?;
                    // the concrete receiver is the same pointer-like value without metadata
                    newargs[0].meta = None;
                    return self.call(target, &newargs, dst, dty, rust_call);
                } else {
                    // by-value unsized receiver
                    vt = a0.meta.unwrap_or(Val::Top);
                    let target = self.virtual_target(vt, *idx)?;
                    let t = self.tmp(8);
                    self.write(t, 8, a0.v)?;
                    thin = t;
                    let ct = match self.special(vt) {
                        Some(Special::VTable(t, _)) => *t,
                        _ => unreachable!(),
                    };
                    newargs[0] = match target.def {
                        InstanceKind::Shim(ty::ShimKind::VTable(_)) => Arg { v: thin, ty: Ty::new_mut_ptr(self.tcx, ct), meta: None },
                        _ => Arg { v: a0.v, ty: ct, meta: None },
                    };
                    let r = self.call(target, &newargs, dst, dty, rust_call);
                    self.mem.stack.pop();
                    return r;
                }
            }
            Handler::Model(m) => {
                let m = *m;
                self.call(m, args, dst, dty, rust_call)
            }
            Handler::Body(b) => self.exec_body(inst, b, args, dst, dty, rust_call),
        }
    }
    fn exec_body(&mut self, inst: Instance<'tcx>, body: &'tcx Body<'tcx>, args: &[Arg<'tcx>], dst: Val, dty: Ty<'tcx>, rust_call: bool) -> Res<Flow> {
        if self.frames.len() > 600 {
            return und(format!("call depth; at {}", self.backtrace()));
        }
        let mut a: Vec<Arg<'tcx>> = args.to_vec();
        if rust_call && !a.is_empty() {
            let last = a.pop().unwrap();
            let ty::Tuple(fs) = last.ty.kind() else { return und("rust-call without tuple") };
            for i in 0..fs.len() {
                let (off, t) = self.field_off(last.ty, None, i)?;
                let v = self.ptr_add(last.v, off as i64)?;
                a.push(Arg { v, ty: t, meta: None });
            }
        }
        let base = self.mem.stack.len();
        for l in body.local_decls.iter() {
            let s = if self.is_sized(l.ty) { self.size_of(l.ty)? } else { 0 };
            self.mem.new_stack(s);
        }
        // arguments
        let mut it = a.into_iter();
        for l in body.args_iter() {
            let lv = Val::Ptr(Ptr { a: Aid((base + l.as_usize()) as u32), off: 0 });
            let lt = body.local_decls[l].ty;
            if Some(l) == body.spread_arg {
                let ty::Tuple(fs) = lt.kind() else { return und("spread") };
                for i in 0..fs.len() {
                    let Some(x) = it.next() else { return und("too few arguments") };
                    let (off, t) = self.field_off(lt, None, i)?;
                    let q = self.ptr_add(lv, off as i64)?;
                    let s = self.size_of(t)?;
                    self.copy(x.v, q, s)?;
                }
            } else {
                match it.next() {
                    Some(x) => {
                        let s = self.size_of(lt)?;
                        self.copy(x.v, lv, s)?;
                    }
                    None => return und(format!("too few arguments for {}", self.tcx.def_path_str(inst.def_id()))),
                }
            }
        }
        let repo = self.is_repo(inst.def_id());
        if repo {
            let n = self.tcx.def_path_str(inst.def_id());
            *self.repo_fns.entry(n).or_insert(0) += 1;
        }
        self.frames.push(FrameInfo { instance: inst, span: body.span, repo, depth_mark: 0 });
        let mut fr = Frame { body, base, branch_depth: HashMap::new() };
        let r = self.run(&mut fr, START_BLOCK, None);
        let r = match r {
            Ok(End::Return) => {
                let s = self.size_of(body.local_decls[RETURN_PLACE].ty)?;
                let s2 = if self.is_sized(dty) { self.size_of(dty)? } else { s };
                let rv = Val::Ptr(Ptr { a: Aid(base as u32), off: 0 });
                if s > 0 {
                    self.copy(rv, dst, s.min(s2))?;
                }
                Ok(Flow::Return)
            }
            Ok(End::Panic(p)) => Ok(Flow::Panic(p)),
            Ok(End::Stop) => und("stop outside region"),
            Err(mut e) => {
                if !e.0.contains("; at ") {
                    e.0 = format!("{}; at {}", e.0, self.backtrace());
                }
                if self.err_loc.is_none() {
                    self.err_loc = Some(self.repo_loc());
                }
                Err(e)
            }
        };
        if repo && !self.frames.iter().rev().skip(1).any(|f| f.repo) {
            // returning from the repository to the obligation: remember the entry point
            self.last_repo_loc = format!("{} in {}", self.span_str(body.span), self.tcx.def_path_str(inst.def_id()));
        }
        self.frames.pop();
        self.mem.stack.truncate(base);
        r
    }

    /// immediate post-dominator of a branch (among paths that return)
    fn ipdom(&mut self, body: &'tcx Body<'tcx>, bb: BasicBlock) -> Option<BasicBlock> {
        let key = (body as *const _ as *const (), bb.as_u32());
        if let Some(x) = self.pdoms.get(&key) {
            return *x;
        }
        let n = body.basic_blocks.len();
        let mut succ: Vec<Vec<usize>> = vec![vec![]; n];
        let mut isret = vec![false; n];
        for (b, d) in body.basic_blocks.iter_enumerated() {
            let i = b.as_usize();
            match &d.terminator().kind {
                TerminatorKind::Return => isret[i] = true,
                TerminatorKind::Goto { target, .. }
                | TerminatorKind::Drop { target, .. }
                | TerminatorKind::Assert { target, .. }
                | TerminatorKind::FalseEdge { real_target: target, .. }
                | TerminatorKind::FalseUnwind { real_target: target, .. } => succ[i].push(target.as_usize()),
                TerminatorKind::Call { target, .. } => {
                    if let Some(t) = target {
                        succ[i].push(t.as_usize())
                    }
                }
                TerminatorKind::SwitchInt { targets, .. } => succ[i].extend(targets.all_targets().iter().map(|t| t.as_usize())),
                _ => {}
            }
        }
        // blocks that can reach a return
        let mut can = isret.clone();
        loop {
            let mut ch = false;
            for i in 0..n {
                if !can[i] && succ[i].iter().any(|s| can[*s]) {
                    can[i] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let w = n / 64 + 1;
        let full = vec![!0u64; w];
        let mut pd: Vec<Vec<u64>> = vec![full; n];
        for i in 0..n {
            if isret[i] {
                pd[i] = vec![0; w];
                pd[i][i / 64] |= 1 << (i % 64);
            }
        }
        loop {
            let mut ch = false;
            for i in (0..n).rev() {
                if isret[i] || !can[i] {
                    continue;
                }
                let mut s = vec![!0u64; w];
                for t in &succ[i] {
                    if can[*t] {
                        for k in 0..w {
                            s[k] &= pd[*t][k];
                        }
                    }
                }
                s[i / 64] |= 1 << (i % 64);
                if s != pd[i] {
                    pd[i] = s;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for (b, _) in body.basic_blocks.iter_enumerated() {
            let i = b.as_usize();
            // candidates: strict post-dominators; the immediate one is post-dominated by all others
            let mut best: Option<usize> = None;
            if can[i] {
                let cands: Vec<usize> = (0..n).filter(|c| *c != i && can[*c] && pd[i][c / 64] >> (c % 64) & 1 == 1).collect();
                for c in &cands {
                    if cands.iter().all(|o| o == c || pd[*c][o / 64] >> (o % 64) & 1 == 1) {
                        best = Some(*c);
                    }
                }
            }
            self.pdoms.insert((body as *const _ as *const (), i as u32), best.map(BasicBlock::from_usize));
        }
        self.pdoms[&key]
    }

    fn run(&mut self, f: &mut Frame<'tcx>, start: BasicBlock, stop: Option<BasicBlock>) -> Res<End> {
        let mut bb = start;
        let mut first = true;
        loop {
            if Some(bb) == stop && !(first && false) {
                return Ok(End::Stop);
            }
            first = false;
            let data = &f.body.basic_blocks[bb];
            for st in &data.statements {
                self.steps += 1;
                match &st.kind {
                    StatementKind::Assign(pr) => {
                        self.frames.last_mut().unwrap().span = st.source_info.span;
                        self.assign(f, &pr.0, &pr.1)?;
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pv = self.place(f, place)?;
                        self.set_discr(pv.v, pv.ty, *variant_index)?;
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let (s, d, n) = (self.op_val(f, &c.src)?, self.op_val(f, &c.dst)?, self.op_val(f, &c.count)?);
                            let n = self.conc(n)? as u64;
                            let t = self.op_ty(f, &c.src).builtin_deref(true).unwrap();
                            let sz = self.size_of(t)?;
                            self.copy(s, d, n * sz)?;
                        }
                    },
                    _ => {}
                }
            }
            self.steps += 1;
            if self.steps >= self.next_tick {
                self.next_tick = self.steps + 1_000_000;
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        return und("the time budget ran out");
                    }
                }
            }
            if self.steps > self.max_steps {
                return und(format!("step budget exhausted; at {}", self.backtrace()));
            }
            let term = data.terminator();
            self.frames.last_mut().unwrap().span = term.source_info.span;
            match &term.kind {
                TerminatorKind::Goto { target, .. } => bb = *target,
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => bb = *real_target,
                TerminatorKind::Return => return Ok(End::Return),
                TerminatorKind::Unreachable => return und(format!("unreachable code reached; at {}", self.backtrace())),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = self.op_val(f, discr)?;
                    match v {
                        Val::Int(x) => bb = targets.target_for_value(x),
                        Val::Ptr(_) => bb = targets.otherwise(),
                        Val::Sym(s) => match self.branch(f, bb, s, targets, stop)? {
                            Ok(next) => bb = next,
                            Err(end) => return Ok(end),
                        },
                        _ => return und(format!("switch on {v:?}; at {}", self.backtrace())),
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let v = self.op_val(f, cond)?;
                    match v {
                        Val::Int(x) => {
                            if (x != 0) == *expected {
                                bb = *target
                            } else {
                                return Ok(End::Panic(format!("assertion `{}` fails at {}", msg_name(msg), self.repo_loc())));
                            }
                        }
                        Val::Sym(s) => {
                            self.events.push(Event {
                                kind: "may-panic",
                                text: format!("{} unless {}{}", msg_name(msg), if *expected { "" } else { "not " }, self.dom.show_sym(s, 4)),
                                loc: self.repo_loc(),
                            });
                            // the continuing path knows the condition held
                            self.assume.push((s, *expected as u128));
                            bb = *target;
                        }
                        _ => return und("assert on non integer"),
                    }
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pv = self.place(f, place)?;
                    let fl = self.drop_place(pv)?;
                    if let Flow::Panic(p) = fl {
                        return Ok(End::Panic(p));
                    }
                    bb = *target;
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fl = self.do_call(f, func, args, destination)?;
                    match fl {
                        Flow::Panic(p) => return Ok(End::Panic(p)),
                        Flow::Return => match target {
                            Some(t) => bb = *t,
                            None => return Ok(End::Panic(format!("diverging call at {}", self.repo_loc()))),
                        },
                    }
                    self.frames.last_mut().unwrap().span = term.source_info.span;
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => return und("unwinding"),
                TerminatorKind::InlineAsm { .. } => return und(format!("inline assembly; at {}", self.backtrace())),
                _ => return und("unsupported terminator"),
            }
        }
    }
    pub fn drop_place(&mut self, pv: PlaceV<'tcx>) -> Res<Flow> {
        let mut ty = pv.ty;
        let mut v = pv.v;
        let mut meta = pv.meta;
        if let ty::Dynamic(..) = ty.kind() {
            match self.special(meta.unwrap_or(Val::Top)) {
                Some(Special::VTable(t, _)) => {
                    ty = *t;
                    meta = None;
                }
                _ => return und("drop of dyn without vtable"),
            }
        }
        if !ty.needs_drop(self.tcx, self.te) {
            return Ok(Flow::Return);
        }
        let inst = Instance::resolve_drop_glue(self.tcx, ty);
        let argty = Ty::new_mut_ptr(self.tcx, ty);
        let s = self.size_of(argty)?;
        let t = self.tmp(s);
        if let Val::Int(_) = v {
            v = pv.v;
        }
        self.write(t, 8, v)?;
        if let Some(m) = meta {
            let q = self.ptr_add(t, 8)?;
            self.write(q, 8, m)?;
        }
        let d = self.tmp(0);
        let r = self.call(inst, &[Arg { v: t, ty: argty, meta: None }], d, self.tcx.types.unit, false)?;
        self.mem.stack.pop();
        self.mem.stack.pop();
        Ok(r)
    }
    fn do_call(&mut self, f: &Frame<'tcx>, func: &Operand<'tcx>, args: &[rustc_span::Spanned<Operand<'tcx>>], destination: &Place<'tcx>) -> Res<Flow> {
        let fty = self.op_ty(f, func);
        let (inst, rust_call) = match *fty.kind() {
            ty::FnDef(d, a) => {
                let i = self.resolve(d, self.norm_args(a.skip_binder()))?;
                let abi = fty.fn_sig(self.tcx).abi();
                (i, abi == rustc_abi::ExternAbi::RustCall)
            }
            ty::FnPtr(..) => {
                let v = self.op_val(f, func)?;
                match self.special(v) {
                    Some(Special::Fn(i)) => (*i, false),
                    _ => return und(format!("call through {v:?}; at {}", self.backtrace())),
                }
            }
            _ => return und(format!("call of {fty}")),
        };
        let dest = self.place(f, destination)?;
        let mark = self.mem.stack.len();
        let mut av: Vec<Arg<'tcx>> = Vec::with_capacity(args.len() + 1);
        if matches!(fty.kind(), ty::FnPtr(..)) {
            // a non-capturing closure behind a function pointer: its environment is not passed
            let env = match inst.def {
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => inst.args.types().next(),
                InstanceKind::Item(d) if self.tcx.is_closure_like(d) => Some(Ty::new_closure(self.tcx, d, inst.args)),
                _ => None,
            };
            if let Some(t) = env {
                let v = self.tmp(0);
                av.push(Arg { v, ty: t, meta: None });
            }
        }
        for a in args.iter() {
            match &a.node {
                Operand::Copy(p) | Operand::Move(p) => {
                    let pv = self.place(f, p)?;
                    av.push(Arg { v: pv.v, ty: pv.ty, meta: pv.meta });
                }
                o => {
                    let t = self.op_ty(f, o);
                    let s = self.size_of(t)?;
                    let tv = self.tmp(s);
                    self.op_to(f, o, tv)?;
                    av.push(Arg { v: tv, ty: t, meta: None });
                }
            }
        }
        let r = self.call(inst, &av, dest.v, dest.ty, rust_call)?;
        self.mem.stack.truncate(mark);
        Ok(r)
    }

    // ------------------------------------------------------------ branches on unknown values
    fn branch(&mut self, f: &mut Frame<'tcx>, bb: BasicBlock, s: SymId, targets: &SwitchTargets, stop: Option<BasicBlock>) -> Res<Result<BasicBlock, End>> {
        let bits = self.dom.syms[s as usize].bits;
        let (lo, hi) = (self.dom.syms[s as usize].lo, self.dom.syms[s as usize].hi);
        // feasible targets with their conditions
        let mut arms: Vec<(IVal, BasicBlock, Option<u128>)> = vec![];
        let mut rest = IVal::Int(1);
        let mut covered = 0u128;
        for (x, t) in targets.iter() {
            if x < lo || x > hi {
                continue;
            }
            covered += 1;
            let c = self.dom.bin(IOp::Eq, IVal::Sym(s), IVal::Int(x), bits);
            let c = match c {
                IVal::Sym(k) => match self.simplify(Val::Sym(k)) {
                    Val::Int(v) => IVal::Int(v),
                    _ => c,
                },
                _ => c,
            };
            match c {
                IVal::Int(0) => continue,
                IVal::Int(_) => return Ok(Ok(t)),
                IVal::Sym(_) => arms.push((c, t, Some(x))),
            }
            let nc = self.dom.not(c);
            rest = self.dom.bin(IOp::And, rest, nc, 8);
        }
        if hi - lo + 1 > covered && !self.is_unreachable(f.body, targets.otherwise()) {
            arms.push((rest, targets.otherwise(), None));
        }
        // merge arms with the same target
        if arms.is_empty() {
            return und("no feasible branch");
        }
        if arms.iter().all(|a| a.1 == arms[0].1) {
            return Ok(Ok(arms[0].1));
        }
        let d = f.branch_depth.entry(bb).or_insert(0);
        *d += 1;
        if *d > self.loop_limit {
            return und(format!("loop with an unknown trip count ({}); at {}", self.dom.show_sym(s, 3), self.backtrace()));
        }
        let join = self.ipdom(f.body, bb);
        let target_stop = join;
        let snap = self.mem.clone();
        let na = self.assume.len();
        let ne = self.events.len();
        let mut outs: Vec<(IVal, Mem, bool)> = vec![];
        let mut panics: Vec<(IVal, String)> = vec![];
        let n = arms.len();
        let _ = ne;
        for (k, (c, t, val)) in arms.iter().enumerate() {
            if k > 0 {
                let mut m = snap.clone();
                self.carry(&mut m);
                self.mem = m;
            }
            if let IVal::Sym(cs) = c {
                self.assume_true(*cs);
                if let Some(v) = val {
                    self.assume.push((s, *v));
                } else if n == 2 && hi - lo == 1 {
                    // boolean: the other value
                    if let Some(v0) = arms[0].2 {
                        self.assume.push((s, lo + hi - v0));
                    }
                }
            }
            let r = self.run_arm(f, *t, target_stop, stop)?;
            self.assume.truncate(na);
            match r {
                End::Stop => outs.push((*c, std::mem::take(&mut self.mem), false)),
                End::Return => outs.push((*c, std::mem::take(&mut self.mem), true)),
                End::Panic(p) => panics.push((*c, p)),
            }
        }
        *f.branch_depth.get_mut(&bb).unwrap() -= 1;
        if outs.is_empty() {
            let p = panics.remove(0).1;
            self.mem = snap;
            return Ok(Err(End::Panic(p)));
        }
        for (c, p) in &panics {
            self.events.push(Event { kind: "may-panic", text: format!("{p} when {}", self.dom.show_i(*c, 4)), loc: self.repo_loc() });
        }
        // after a panicking arm is excluded, the complementary condition holds
        let mut acc: Option<(Mem, bool)> = None;
        let nouts = outs.len();
        for (i, (c, m, ret)) in outs.into_iter().enumerate().rev() {
            acc = Some(match acc {
                None => (m, ret),
                Some((am, ar)) => {
                    if ar != ret {
                        return und("branches leave a region differently");
                    }
                    let _ = i;
                    let IVal::Sym(cs) = c else { return und("constant condition in join") };
                    let j = self.join(cs, m, am)?;
                    (j, ret)
                }
            });
        }
        let (m, ret) = acc.unwrap();
        self.mem = m;
        if !panics.is_empty() && nouts == 1 {
            for (c, _) in &panics {
                if let IVal::Sym(cs) = c {
                    self.assume.push((*cs, 0));
                    self.assume_false(*cs);
                }
            }
        }
        if ret {
            return Ok(Err(End::Return));
        }
        match join {
            Some(j) => {
                if Some(j) == stop {
                    return Ok(Err(End::Stop));
                }
                Ok(Ok(j))
            }
            None => und("join without post-dominator"),
        }
    }
    fn run_arm(&mut self, f: &mut Frame<'tcx>, t: BasicBlock, join: Option<BasicBlock>, _stop: Option<BasicBlock>) -> Res<End> {
        self.run(f, t, join)
    }
    fn assume_true(&mut self, c: SymId) {
        self.assume.push((c, 1));
        match self.dom.syms[c as usize].node.clone() {
            SymNode::Bin(IOp::And, a, b) => {
                for x in [a, b] {
                    if let IVal::Sym(s) = x {
                        if self.dom.syms[s as usize].hi <= 1 {
                            self.assume_true(s);
                        }
                    }
                }
            }
            SymNode::Bin(IOp::Eq, IVal::Sym(a), IVal::Int(k)) => {
                self.assume.push((a, k));
            }
            _ => {}
        }
    }
    fn assume_false(&mut self, c: SymId) {
        if let SymNode::Bin(IOp::Eq, IVal::Sym(a), IVal::Int(0)) = self.dom.syms[c as usize].node.clone() {
            if self.dom.syms[a as usize].hi <= 1 {
                self.assume_true(a);
            }
        }
    }
    fn is_unreachable(&self, body: &Body<'tcx>, bb: BasicBlock) -> bool {
        let d = &body.basic_blocks[bb];
        d.statements.is_empty() && matches!(d.terminator().kind, TerminatorKind::Unreachable)
    }
    /// immutable allocations created on another arm stay available
    fn carry(&self, m: &mut Mem) {
        let n = m.heap.len();
        for id in 0..self.mem.heap.len() {
            let missing = id >= n || m.heap[id].is_none();
            if !missing {
                continue;
            }
            if let Some(a) = &self.mem.heap[id] {
                match a.kind {
                    AKind::Const | AKind::Special => m.put_heap(id as u32, a.clone()),
                    AKind::Static(k) => m.put_heap(id as u32, self.static_init[k as usize].1.clone()),
                    _ => {}
                }
            }
        }
    }
    fn join(&mut self, c: SymId, a: Mem, b: Mem) -> Res<Mem> {
        self.joins += 1;
        let mut out = Mem { stack: Vec::with_capacity(a.stack.len()), heap: vec![] };
        let n = a.stack.len().min(b.stack.len());
        for i in 0..n {
            let (x, y) = (&a.stack[i], &b.stack[i]);
            if x.cells == y.cells {
                out.stack.push(x.clone());
            } else {
                out.stack.push(self.join_alloc(c, x, y));
            }
        }
        let n = a.heap.len().max(b.heap.len());
        for i in 0..n {
            let x = a.heap.get(i).and_then(|x| x.clone());
            let y = b.heap.get(i).and_then(|x| x.clone());
            out.heap.push(match (x, y) {
                (None, None) => None,
                (Some(x), None) | (None, Some(x)) => {
                    if let AKind::Static(k) = x.kind {
                        let init = self.static_init[k as usize].1.clone();
                        Some(Rc::new(self.join_alloc(c, &x, &init)))
                    } else {
                        Some(x)
                    }
                }
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(&x, &y) || (x.cells == y.cells && x.kind == y.kind) {
                        Some(x)
                    } else if x.kind == AKind::Dead || y.kind == AKind::Dead {
                        Some(if x.kind == AKind::Dead { x } else { y })
                    } else {
                        Some(Rc::new(self.join_alloc(c, &x, &y)))
                    }
                }
            });
        }
        Ok(out)
    }
    fn join_alloc(&mut self, c: SymId, x: &Alloc, y: &Alloc) -> Alloc {
        let mut r = x.clone();
        r.cells.clear();
        let (mut i, mut j) = (0, 0);
        while i < x.cells.len() || j < y.cells.len() {
            let cx = x.cells.get(i).copied();
            let cy = y.cells.get(j).copied();
            match (cx, cy) {
                (Some(p), Some(q)) if p.off == q.off && p.size == q.size => {
                    let v = self.join_val(c, p.v, q.v, p.size);
                    r.cells.push(Cell { off: p.off, size: p.size, v });
                    i += 1;
                    j += 1;
                }
                (Some(p), Some(q)) => {
                    // misaligned cells: keep the part present on one side only if the other side has nothing there
                    if p.off + p.size <= q.off {
                        r.cells.push(p);
                        i += 1;
                    } else if q.off + q.size <= p.off {
                        r.cells.push(q);
                        j += 1;
                    } else {
                        let s = p.off.min(q.off);
                        let mut e = (p.off + p.size).max(q.off + q.size);
                        i += 1;
                        j += 1;
                        loop {
                            let mut ch = false;
                            while i < x.cells.len() && x.cells[i].off < e {
                                e = e.max(x.cells[i].off + x.cells[i].size);
                                i += 1;
                                ch = true;
                            }
                            while j < y.cells.len() && y.cells[j].off < e {
                                e = e.max(y.cells[j].off + y.cells[j].size);
                                j += 1;
                                ch = true;
                            }
                            if !ch {
                                break;
                            }
                        }
                        r.cells.push(Cell { off: s, size: e - s, v: Val::Top });
                    }
                }
                (Some(p), None) => {
                    r.cells.push(p);
                    i += 1;
                }
                (None, Some(q)) => {
                    r.cells.push(q);
                    j += 1;
                }
                (None, None) => break,
            }
        }
        r
    }
    fn join_val(&mut self, c: SymId, a: Val, b: Val, size: u32) -> Val {
        if a == b {
            return a;
        }
        match (a, b) {
            (Val::Fld(x), Val::Fld(y)) => {
                if self.dom.same(x, y) {
                    return a;
                }
                let p = self.dom.ite(c, x, y);
                self.note_origin(p);
                Val::Fld(p)
            }
            (Val::Int(_) | Val::Sym(_), Val::Int(_) | Val::Sym(_)) if size <= 16 => {
                let (x, y) = (self.ival(a).unwrap(), self.ival(b).unwrap());
                let r = self.dom.ite_int(c, x, y, size * 8);
                match r {
                    IVal::Int(x) => Val::Int(x),
                    IVal::Sym(s) => Val::Sym(s),
                }
            }
            _ => Val::Top,
        }
    }

    // ------------------------------------------------------------ reading strings
    pub fn read_str(&mut self, p: Val, len: u64) -> Res<String> {
        let mut v = vec![];
        if len == 0 {
            return Ok(String::new());
        }
        let q = self.as_ptr(p)?;
        for i in 0..len {
            let b = self.mem.get(q.a).and_then(|a| a.byte((q.off + i as i64) as u32));
            match b {
                Some(b) => v.push(b),
                None => return Ok(format!("<opaque string>")),
            }
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    pub fn all_static_names(&self) -> BTreeSet<String> {
        self.statics.keys().map(|d| self.tcx.def_path_str(*d)).collect()
    }
    pub fn repo_bodies(&self) -> Vec<&'tcx Body<'tcx>> {
        self.bodies.iter().filter(|(i, _)| self.is_repo(i.def_id())).map(|(_, b)| *b).collect()
    }
    pub fn arr_shape(&self) -> Option<FieldsShape<rustc_abi::FieldIdx>> {
        None
    }
}

fn msg_name(m: &AssertMessage<'_>) -> String {
    match m {
        AssertKind::BoundsCheck { .. } => "index in bounds".into(),
        AssertKind::Overflow(op, ..) => format!("no overflow in {op:?}"),
        AssertKind::DivisionByZero(_) => "divisor is not zero".into(),
        AssertKind::RemainderByZero(_) => "divisor is not zero".into(),
        _ => "runtime check".into(),
    }
}
