//! Lowering of monomorphic MIR to a compact form, and the machine's static side
//! (layouts, constants, globals, function table).
use crate::state::*;
use crate::val::*;
use rustc_abi::{BackendRepr, FieldsShape, Primitive, TagEncoding, VariantIdx, Variants};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, BinOp, CastKind, ConstValue, NonDivergingIntrinsic, Operand, ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::layout::{LayoutCx, TyAndLayout};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type R<T> = Result<T, String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SK {
    pub size: u8,
    pub signed: bool,
    pub float: bool,
}
pub const USZ: SK = SK { size: 8, signed: false, float: false };
pub const U8K: SK = SK { size: 1, signed: false, float: false };

#[derive(Clone, Debug)]
pub enum Pj {
    Off(u64),
    Deref { fat: bool },
    Idx { local: u64, es: u64 },
    FromEnd { off: u64, es: u64 },
    Sub { from: u64, to: u64, from_end: bool, es: u64, arr: Option<u64> },
}
#[derive(Clone, Debug)]
pub struct Pl<'tcx> {
    pub base: u64,
    pub pj: Vec<Pj>,
    pub size: u64,
    pub sk: Option<SK>,
    pub ty: Ty<'tcx>,
    pub fat: bool,
}
#[derive(Clone, Debug)]
pub enum Op<'tcx> {
    Pl(Pl<'tcx>),
    /// constant given by its cells
    K(Vec<Cell>, Option<SK>, Ty<'tcx>),
}
#[derive(Clone, Debug)]
pub enum Cst {
    Int { from: SK, to: SK },
    IntToFloat { from: SK },
    FloatToInt { from: SK, to: SK },
    FloatToFloat,
    Bits,
    /// array -> slice etc: metadata appended
    Unsize(V),
    /// unsize of a pointer that already is fat: unchanged
    Truncate(u64),
    Const(V),
}
#[derive(Clone, Debug)]
pub enum Rv<'tcx> {
    Use(Op<'tcx>),
    Repeat(Op<'tcx>, u64),
    Addr(Pl<'tcx>),
    Bin(BinOp, Op<'tcx>, Op<'tcx>, SK, SK, u64),
    FatCmp(BinOp, Op<'tcx>, Op<'tcx>),
    Un(UnOp, Op<'tcx>, SK),
    Meta(Op<'tcx>),
    Cast(Cst, Op<'tcx>, u64),
    Discr(Pl<'tcx>, TyAndLayout<'tcx>, SK),
    Agg(Vec<(u64, Op<'tcx>)>, Option<(TyAndLayout<'tcx>, VariantIdx)>),
    Bad(String),
}
#[derive(Clone, Debug)]
pub enum St<'tcx> {
    Assign(Pl<'tcx>, Rv<'tcx>, u64),
    SetDiscr(Pl<'tcx>, TyAndLayout<'tcx>, VariantIdx),
    Dead(u64, u64),
    Assume(Op<'tcx>),
    CopyNon(Op<'tcx>, Op<'tcx>, Op<'tcx>, u64),
}
#[derive(Clone)]
pub enum Tm<'tcx> {
    Goto(u32),
    Switch(Op<'tcx>, SK, Vec<(i128, u32)>, u32),
    Ret,
    Unreach,
    Assert { cond: Op<'tcx>, expected: bool, msg: String, target: u32 },
    Call { f: Callee<'tcx>, args: Vec<Op<'tcx>>, dest: Pl<'tcx>, target: Option<u32> },
    Drop { pl: Pl<'tcx>, inst: Instance<'tcx>, target: u32 },
    Bad(String),
}
#[derive(Clone)]
pub enum Callee<'tcx> {
    Fn(Instance<'tcx>),
    Ptr(Op<'tcx>),
}
pub struct Bb<'tcx> {
    pub st: Vec<St<'tcx>>,
    pub tm: Tm<'tcx>,
    pub span: rustc_span::Span,
    pub cleanup: bool,
}
pub struct Func<'tcx> {
    pub id: usize,
    pub inst: Instance<'tcx>,
    pub name: String,
    pub krate: String,
    pub frame: u64,
    pub locals: Vec<(u64, u64)>,
    pub nargs: usize,
    pub arg_tys: Vec<Ty<'tcx>>,
    pub spread: Option<usize>,
    pub rust_call: bool,
    pub ret: TyAndLayout<'tcx>,
    pub bbs: Vec<Bb<'tcx>>,
    pub comps: Vec<Vec<u32>>,
    pub pos: Vec<u32>,
    pub head: Vec<bool>,
    pub diverges: Vec<bool>,
    pub visited: std::cell::RefCell<Vec<bool>>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct PanicRec {
    pub what: String,
    /// innermost frame that belongs to the analysed library
    pub at: String,
    pub stack: Vec<String>,
    pub span: String,
}

pub struct Stats {
    pub stmts: u64,
    pub forks: u64,
    pub joins: u64,
    pub calls: BTreeSet<(usize, u32)>,
    pub funcs: BTreeMap<String, String>,
    pub asserts: u64,
}

pub struct Machine<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub env: TypingEnv<'tcx>,
    pub vs: Vals,
    pub funcs: HashMap<Instance<'tcx>, Rc<Func<'tcx>>>,
    pub globals: Paged<Cell>,
    pub gtop: u64,
    pub alloc_addr: HashMap<AllocId, u64>,
    pub fns: Vec<Instance<'tcx>>,
    pub fn_ix: HashMap<Instance<'tcx>, u64>,
    pub panics: BTreeMap<PanicRec, u64>,
    pub stack: Vec<(Rc<Func<'tcx>>, u32)>,
    pub stats: Stats,
    pub fork_id: u64,
    pub budget: u64,
    pub trace: bool,
    pub trace_forks: bool,
    pub exact_ovf: bool,
    /// calls into these are summarised as uninterpreted (property specific); none by default
    pub max_iter: u32,
    /// fallible bus?
    pub notes: BTreeSet<String>,
    pub obls: std::collections::BTreeMap<(String, String), crate::intr::Obl>,
    pub covers: std::collections::BTreeMap<(String, i128), bool>,
    pub done: u64,
    pub case_fails: u64,
}

pub fn prim_sk(p: Primitive) -> SK {
    match p {
        Primitive::Int(i, s) => SK { size: i.size().bytes() as u8, signed: s, float: false },
        Primitive::Float(f) => SK { size: f.size().bytes() as u8, signed: true, float: true },
        Primitive::Pointer(_) => USZ,
    }
}

impl<'tcx> Machine<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Machine {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            vs: Vals::new(),
            funcs: HashMap::new(),
            globals: Paged::new(),
            gtop: GLOBAL_BASE + 64,
            alloc_addr: HashMap::new(),
            fns: vec![],
            fn_ix: HashMap::new(),
            case_fails: 0,
            panics: BTreeMap::new(),
            stack: vec![],
            stats: Stats { stmts: 0, forks: 0, joins: 0, calls: BTreeSet::new(), funcs: BTreeMap::new(), asserts: 0 },
            fork_id: 0,
            budget: 400_000_000,
            exact_ovf: false,
            trace: std::env::var("MLXSA_TRACE").is_ok(),
            trace_forks: std::env::var("MLXSA_FORKS").is_ok(),
            max_iter: 20_000,
            notes: BTreeSet::new(),
            obls: Default::default(),
            covers: Default::default(),
            done: 0,
        }
    }
    pub fn layout(&self, ty: Ty<'tcx>) -> TyAndLayout<'tcx> {
        self.tcx.layout_of(self.env.as_query_input(ty)).unwrap_or_else(|e| panic!("layout of {ty}: {e:?}"))
    }
    pub fn cx(&self) -> LayoutCx<'tcx> {
        LayoutCx::new(self.tcx, self.env)
    }
    pub fn sk_of(&self, l: &TyAndLayout<'tcx>) -> Option<SK> {
        match l.backend_repr {
            BackendRepr::Scalar(s) => Some(prim_sk(s.primitive())),
            _ => None,
        }
    }
    pub fn ty_sk(&self, ty: Ty<'tcx>) -> R<SK> {
        let l = self.layout(ty);
        self.sk_of(&l).ok_or_else(|| format!("not a scalar: {ty}"))
    }
    pub fn is_sized(&self, ty: Ty<'tcx>) -> bool {
        ty.is_sized(self.tcx, self.env)
    }

    // ------------------------------------------------------------------ globals
    pub fn fn_addr(&mut self, i: Instance<'tcx>) -> u64 {
        if let Some(a) = self.fn_ix.get(&i) {
            return *a;
        }
        let a = FN_BASE + 16 * self.fns.len() as u64;
        self.fns.push(i);
        self.fn_ix.insert(i, a);
        a
    }
    pub fn global_addr(&mut self, id: AllocId) -> R<u64> {
        if let Some(a) = self.alloc_addr.get(&id) {
            return Ok(*a);
        }
        let alloc = match self.tcx.global_alloc(id) {
            GlobalAlloc::Function { instance } => {
                let a = self.fn_addr(instance);
                self.alloc_addr.insert(id, a);
                return Ok(a);
            }
            GlobalAlloc::VTable(ty, preds) => {
                let tr = preds.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
                let vid = self.tcx.vtable_allocation((ty, tr));
                let a = self.global_addr(vid)?;
                self.alloc_addr.insert(id, a);
                return Ok(a);
            }
            GlobalAlloc::Static(d) => {
                self.tcx.eval_static_initializer(d).map_err(|e| format!("static {d:?}: {e:?}"))?
            }
            GlobalAlloc::Memory(m) => m,
            GlobalAlloc::TypeId { .. } => {
                let a = self.gtop;
                self.gtop += 16;
                self.alloc_addr.insert(id, a);
                return Ok(a);
            }
        };
        let al = alloc.inner();
        let size = al.size().bytes();
        let align = al.align.bytes().max(16);
        let base = self.gtop.div_ceil(align) * align;
        self.gtop = base + size.max(1) + 16;
        self.alloc_addr.insert(id, base);
        let bytes = al.inspect_with_uninit_and_ptr_outside_interpreter(0..size as usize).to_vec();
        for (i, b) in bytes.iter().enumerate() {
            let init = al.init_mask().is_range_initialized(rustc_middle::mir::interpret::alloc_range(rustc_abi::Size::from_bytes(i as u64), rustc_abi::Size::from_bytes(1))).is_ok();
            if init {
                let v = self.vs.int(*b as i128);
                self.globals.set((base - GLOBAL_BASE) as usize + i, Cell { val: v, idx: 0, size: 1, sg: 0 });
            }
        }
        let relocs: Vec<_> = al.provenance().ptrs().iter().map(|(o, p)| (o.bytes(), p.alloc_id())).collect();
        for (o, pid) in relocs {
            let off = u64::from_le_bytes(bytes[o as usize..o as usize + 8].try_into().unwrap());
            let a = self.global_addr(pid)?.wrapping_add(off);
            let v = self.vs.int(a as i128);
            for k in 0..8 {
                self.globals.set((base - GLOBAL_BASE + o) as usize + k, Cell { val: v, idx: k as u8, size: 8, sg: 0 });
            }
        }
        Ok(base)
    }
    fn scalar_cells(&mut self, s: Scalar, sk: Option<SK>, size: u64) -> R<Vec<Cell>> {
        let v = match s {
            Scalar::Int(i) => {
                let b = i.to_bits_unchecked();
                match sk {
                    Some(k) if k.float => {
                        if k.size == 4 {
                            self.vs.fconst(f32::from_bits(b as u32) as f64)
                        } else {
                            self.vs.fconst(f64::from_bits(b as u64))
                        }
                    }
                    Some(k) if k.signed => {
                        let n = k.size as u32 * 8;
                        let x = if n >= 128 { b as i128 } else { ((b << (128 - n)) as i128) >> (128 - n) };
                        self.vs.int(x)
                    }
                    _ => {
                        if b > i128::MAX as u128 {
                            return Err("u128 constant".into());
                        }
                        self.vs.int(b as i128)
                    }
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let a = self.global_addr(prov.alloc_id())? + off.bytes();
                self.vs.int(a as i128)
            }
        };
        Ok((0..size as u8).map(|i| Cell { val: v, idx: i, size: size as u8, sg: 0 }).collect())
    }
    pub fn const_op(&mut self, c: &mir::ConstOperand<'tcx>) -> R<Op<'tcx>> {
        let ty = c.const_.ty();
        let l = self.layout(ty);
        let sk = self.sk_of(&l);
        if l.is_zst() {
            return Ok(Op::K(vec![], None, ty));
        }
        let cv = c.const_.eval(self.tcx, self.env, c.span).map_err(|e| format!("constant {c:?}: {e:?}"))?;
        let cells = match cv {
            ConstValue::Scalar(s) => self.scalar_cells(s, sk, l.size.bytes())?,
            ConstValue::ZeroSized => vec![],
            ConstValue::Slice { alloc_id, meta } => {
                let a = self.global_addr(alloc_id)?;
                let (a, m) = (self.vs.int(a as i128), self.vs.int(meta as i128));
                let mut v: Vec<Cell> = (0..8).map(|i| Cell { val: a, idx: i, size: 8, sg: 0 }).collect();
                v.extend((0..8).map(|i| Cell { val: m, idx: i, size: 8, sg: 0 }));
                v
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.global_addr(alloc_id)? + offset.bytes();
                (0..l.size.bytes()).map(|i| self.globals.get((a - GLOBAL_BASE + i) as usize)).collect()
            }
        };
        Ok(Op::K(cells, sk, ty))
    }

    // ------------------------------------------------------------------ lowering
    pub fn func(&mut self, inst: Instance<'tcx>) -> R<Rc<Func<'tcx>>> {
        if let Some(f) = self.funcs.get(&inst) {
            return Ok(f.clone());
        }
        let tcx = self.tcx;
        if let ty::InstanceKind::Item(d) = inst.def {
            let ctor = matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Ctor(..));
            if !tcx.is_mir_available(d) && !ctor {
                return Err(format!("no MIR for {}", tcx.def_path_str(d)));
            }
        }
        let body = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body.clone()));
        if body.has_non_region_param() {
            return Err(format!("polymorphic body {inst}"));
        }
        let mut off = 0u64;
        let mut locals = vec![];
        for d in body.local_decls.iter() {
            let l = self.layout(d.ty);
            let a = l.align.abi.bytes().max(1).min(16);
            off = off.div_ceil(a) * a;
            locals.push((off, l.size.bytes()));
            off += l.size.bytes();
        }
        let frame = (off + 16).div_ceil(16) * 16;
        let ret = self.layout(body.return_ty());
        let def_id = inst.def_id();
        let mut f = Func {
            id: self.funcs.len(),
            inst,
            name: tcx.def_path_str(def_id),
            krate: tcx.crate_name(def_id.krate).to_string(),
            frame,
            locals,
            nargs: body.arg_count,
            arg_tys: body.args_iter().map(|a| body.local_decls[a].ty).collect(),
            spread: body.spread_arg.map(|l| l.as_usize()),
            rust_call: false,
            ret,
            bbs: vec![],
            comps: vec![],
            pos: vec![],
            head: vec![],
            diverges: vec![],
            visited: Default::default(),
        };
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            if !bb.is_cleanup {
                for s in bb.statements.iter() {
                    self.stmt(&f, &body, s, &mut st)?;
                }
            }
            let tm = if bb.is_cleanup { Tm::Bad("cleanup block".into()) } else { self.term(&f, &body, bb.terminator())? };
            f.bbs.push(Bb { st, tm, span: bb.terminator().source_info.span, cleanup: bb.is_cleanup });
        }
        cfg(&mut f);
        *f.visited.borrow_mut() = vec![false; f.bbs.len()];
        let f = Rc::new(f);
        self.funcs.insert(inst, f.clone());
        Ok(f)
    }
    fn place(&mut self, f: &Func<'tcx>, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> R<Pl<'tcx>> {
        let mut cur = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut lay = self.layout(cur.ty);
        let mut pj: Vec<Pj> = vec![];
        let cx = self.cx();
        let push_off = |pj: &mut Vec<Pj>, o: u64| {
            if o == 0 {
                return;
            }
            if let Some(Pj::Off(x)) = pj.last_mut() {
                *x += o
            } else {
                pj.push(Pj::Off(o))
            }
        };
        for e in p.projection.iter() {
            match e {
                ProjectionElem::PhantomDeref => return Err("phantom deref".into()),
                ProjectionElem::Deref => {
                    let inner = cur.ty.builtin_deref(true).ok_or_else(|| format!("deref of {}", cur.ty))?;
                    let fat = !self.is_sized(inner);
                    pj.push(Pj::Deref { fat });
                }
                ProjectionElem::Field(i, _) => {
                    let o = lay.fields.offset(i.as_usize()).bytes();
                    push_off(&mut pj, o);
                }
                ProjectionElem::Downcast(..) | ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
                ProjectionElem::Index(l) => {
                    let es = match lay.fields {
                        FieldsShape::Array { stride, .. } => stride.bytes(),
                        _ => return Err("index of non-array".into()),
                    };
                    pj.push(Pj::Idx { local: f.locals[l.as_usize()].0, es });
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (es, arr) = match lay.fields {
                        FieldsShape::Array { stride, count } => (stride.bytes(), count),
                        _ => return Err("index of non-array".into()),
                    };
                    if !from_end {
                        push_off(&mut pj, offset * es);
                    } else if cur.ty.is_array() {
                        push_off(&mut pj, (arr - offset) * es);
                    } else {
                        pj.push(Pj::FromEnd { off: offset, es });
                    }
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (es, count) = match lay.fields {
                        FieldsShape::Array { stride, count } => (stride.bytes(), count),
                        _ => return Err("subslice of non-array".into()),
                    };
                    pj.push(Pj::Sub { from, to, from_end, es, arr: if cur.ty.is_array() { Some(count) } else { None } });
                }
            }
            cur = cur.projection_ty(self.tcx, e);
            let t = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(cur.ty));
            cur.ty = t;
            lay = self.layout(cur.ty);
            if let Some(v) = cur.variant_index {
                lay = lay.for_variant(&cx, v);
            }
        }
        let l = self.layout(cur.ty);
        Ok(Pl {
            base: f.locals[p.local.as_usize()].0,
            pj,
            size: if l.is_sized() { l.size.bytes() } else { 0 },
            sk: self.sk_of(&l),
            ty: cur.ty,
            fat: !self.is_sized(cur.ty),
        })
    }
    fn op(&mut self, f: &Func<'tcx>, body: &mir::Body<'tcx>, o: &Operand<'tcx>) -> R<Op<'tcx>> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Ok(Op::Pl(self.place(f, body, p)?)),
            Operand::Constant(c) => self.const_op(c),
            Operand::RuntimeChecks(c) => {
                let b = matches!(c, mir::RuntimeChecks::OverflowChecks);
                let v = self.vs.int(b as i128);
                Ok(Op::K(vec![Cell { val: v, idx: 0, size: 1, sg: 0 }], Some(U8K), self.tcx.types.bool))
            }
        }
    }
    pub fn op_ty(&self, o: &Op<'tcx>) -> Ty<'tcx> {
        match o {
            Op::Pl(p) => p.ty,
            Op::K(_, _, t) => *t,
        }
    }
    fn stmt(&mut self, f: &Func<'tcx>, body: &mir::Body<'tcx>, s: &mir::Statement<'tcx>, out: &mut Vec<St<'tcx>>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let pl = self.place(f, body, p)?;
                let l = self.layout(pl.ty);
                let sz = l.size.bytes();
                let rv = self.rvalue(f, body, r, &pl)?;
                out.push(St::Assign(pl, rv, sz));
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(f, body, place)?;
                let l = self.layout(pl.ty);
                out.push(St::SetDiscr(pl, l, *variant_index));
            }
            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                let (o, s) = f.locals[l.as_usize()];
                if s > 0 {
                    out.push(St::Dead(o, s));
                }
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(o) => {
                    let o = self.op(f, body, o)?;
                    out.push(St::Assume(o))
                }
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let (a, b, n) = (self.op(f, body, &c.src)?, self.op(f, body, &c.dst)?, self.op(f, body, &c.count)?);
                    let t = self.op_ty(&a).builtin_deref(true).unwrap();
                    let sz = self.layout(t).size.bytes();
                    out.push(St::CopyNon(a, b, n, sz));
                }
            },
            _ => {}
        }
        Ok(())
    }
    fn rvalue(&mut self, f: &Func<'tcx>, body: &mir::Body<'tcx>, r: &Rvalue<'tcx>, dst: &Pl<'tcx>) -> R<Rv<'tcx>> {
        Ok(match r {
            Rvalue::Use(o, _) => Rv::Use(self.op(f, body, o)?),
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => Rv::Use(Op::Pl(self.place(f, body, p)?)),
            Rvalue::WrapUnsafeBinder(o, _) => Rv::Use(self.op(f, body, o)?),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).ok_or("repeat count")?;
                Rv::Repeat(self.op(f, body, o)?, n)
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => Rv::Addr(self.place(f, body, p)?),
            Rvalue::ThreadLocalRef(_) => Rv::Bad("thread local".into()),
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = (self.op(f, body, &b.0)?, self.op(f, body, &b.1)?);
                let (tx, ty_) = (self.op_ty(&x), self.op_ty(&y));
                let lx = self.layout(tx);
                if lx.is_zst() {
                    return Ok(Rv::Bad(format!("comparison of zero-sized {tx}")));
                }
                match (self.sk_of(&lx), self.sk_of(&self.layout(ty_))) {
                    (Some(a), Some(b2)) => {
                        let es = match op {
                            BinOp::Offset => {
                                let t = tx.builtin_deref(true).ok_or("offset")?;
                                self.layout(t).size.bytes()
                            }
                            _ => self.layout(dst.ty).size.bytes(),
                        };
                        Rv::Bin(*op, x, y, a, b2, es)
                    }
                    _ => Rv::FatCmp(*op, x, y),
                }
            }
            Rvalue::UnaryOp(op, o) => {
                let x = self.op(f, body, o)?;
                if let UnOp::PtrMetadata = op {
                    return Ok(Rv::Meta(x));
                }
                let k = self.ty_sk(self.op_ty(&x))?;
                Rv::Un(*op, x, k)
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(f, body, p)?;
                let l = self.layout(pl.ty);
                let k = self.ty_sk(pl.ty.discriminant_ty(self.tcx))?;
                Rv::Discr(pl, l, k)
            }
            Rvalue::Aggregate(k, ops) => {
                let l = self.layout(dst.ty);
                let mut v = vec![];
                match &**k {
                    mir::AggregateKind::Array(_) => {
                        let es = match l.fields {
                            FieldsShape::Array { stride, .. } => stride.bytes(),
                            _ => return Err("array layout".into()),
                        };
                        for (i, o) in ops.iter().enumerate() {
                            v.push((i as u64 * es, self.op(f, body, o)?));
                        }
                        Rv::Agg(v, None)
                    }
                    mir::AggregateKind::Adt(_, vi, _, _, active) => {
                        if let Some(a) = active {
                            let o = l.fields.offset(a.as_usize()).bytes();
                            v.push((o, self.op(f, body, ops.iter().next().unwrap())?));
                            return Ok(Rv::Agg(v, None));
                        }
                        let vl = l.for_variant(&self.cx(), *vi);
                        for (i, o) in ops.iter().enumerate() {
                            v.push((vl.fields.offset(i).bytes(), self.op(f, body, o)?));
                        }
                        Rv::Agg(v, Some((l, *vi)))
                    }
                    mir::AggregateKind::RawPtr(..) => {
                        let mut o = 0;
                        for x in ops.iter() {
                            let q = self.op(f, body, x)?;
                            let s = self.layout(self.op_ty(&q)).size.bytes();
                            v.push((o, q));
                            o += s;
                        }
                        Rv::Agg(v, None)
                    }
                    _ => {
                        for (i, o) in ops.iter().enumerate() {
                            v.push((l.fields.offset(i).bytes(), self.op(f, body, o)?));
                        }
                        Rv::Agg(v, None)
                    }
                }
            }
            Rvalue::Cast(kind, o, ty) => {
                let x = self.op(f, body, o)?;
                let st = self.op_ty(&x);
                let size = self.layout(*ty).size.bytes();
                let c = match kind {
                    CastKind::IntToInt => {
                        let from = self.ty_sk(st)?;
                        let to = self.ty_sk(*ty)?;
                        Cst::Int { from, to }
                    }
                    CastKind::PointerExposeProvenance | CastKind::PointerWithExposedProvenance | CastKind::FnPtrToPtr => Cst::Bits,
                    CastKind::PtrToPtr => {
                        if self.layout(st).size.bytes() == size {
                            Cst::Bits
                        } else {
                            Cst::Truncate(size)
                        }
                    }
                    CastKind::IntToFloat => Cst::IntToFloat { from: self.ty_sk(st)? },
                    CastKind::FloatToInt => Cst::FloatToInt { from: self.ty_sk(st)?, to: self.ty_sk(*ty)? },
                    CastKind::FloatToFloat => Cst::FloatToFloat,
                    CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => Cst::Bits,
                    CastKind::PointerCoercion(pc, _) => match pc {
                        PointerCoercion::ReifyFnPointer(_) => {
                            let ty::FnDef(d, a) = *st.kind() else { return Err("reify".into()) };
                            let i = Instance::resolve_for_fn_ptr(self.tcx, self.env, d, a.no_bound_vars().ok_or("bound vars")?).ok_or("reify")?;
                            let a = self.fn_addr(i);
                            Cst::Const(self.vs.int(a as i128))
                        }
                        PointerCoercion::ClosureFnPointer(_) => {
                            let ty::Closure(d, a) = *st.kind() else { return Err("closure ptr".into()) };
                            let i = Instance::resolve_closure(self.tcx, d, a, ty::ClosureKind::FnOnce);
                            let a = self.fn_addr(i);
                            Cst::Const(self.vs.int(a as i128))
                        }
                        PointerCoercion::Unsize => match (st.builtin_deref(true), ty.builtin_deref(true)) {
                            (Some(a), Some(b)) => {
                                if !self.is_sized(a) {
                                    Cst::Bits
                                } else {
                                    let (a, b) = self.tcx.struct_lockstep_tails_for_codegen(a, b, self.env);
                                    match (a.kind(), b.kind()) {
                                        (ty::Array(_, n), ty::Slice(_)) => {
                                            let n = n.try_to_target_usize(self.tcx).ok_or("array len")?;
                                            Cst::Unsize(self.vs.int(n as i128))
                                        }
                                        (_, ty::Dynamic(data, _)) => {
                                            let tr = data.principal().map(|p| self.tcx.instantiate_bound_regions_with_erased(p));
                                            let vid = self.tcx.vtable_allocation((a, tr));
                                            let va = self.global_addr(vid)?;
                                            Cst::Unsize(self.vs.int(va as i128))
                                        }
                                        _ => return Ok(Rv::Bad(format!("unsize {st} -> {ty}"))),
                                    }
                                }
                            }
                            _ => return Ok(Rv::Bad(format!("unsize {st} -> {ty}"))),
                        },
                        _ => Cst::Bits,
                    },
                };
                Rv::Cast(c, x, size)
            }
        })
    }
    fn term(&mut self, f: &Func<'tcx>, body: &mir::Body<'tcx>, t: &mir::Terminator<'tcx>) -> R<Tm<'tcx>> {
        Ok(match &t.kind {
            TerminatorKind::Goto { target, .. } => Tm::Goto(target.as_u32()),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => Tm::Goto(real_target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let o = self.op(f, body, discr)?;
                let sk = self.ty_sk(self.op_ty(&o))?;
                let v = targets
                    .iter()
                    .map(|(k, b)| {
                        let n = sk.size as u32 * 8;
                        let k = if sk.signed && n < 128 { ((k << (128 - n)) as i128) >> (128 - n) } else { k as i128 };
                        (k, b.as_u32())
                    })
                    .collect();
                Tm::Switch(o, sk, v, targets.otherwise().as_u32())
            }
            TerminatorKind::Return => Tm::Ret,
            TerminatorKind::Unreachable => Tm::Unreach,
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                Tm::Assert { cond: self.op(f, body, cond)?, expected: *expected, msg: assert_name(msg), target: target.as_u32() }
            }
            TerminatorKind::Drop { place, target, .. } => {
                let pl = self.place(f, body, place)?;
                if !pl.ty.needs_drop(self.tcx, self.env) {
                    return Ok(Tm::Goto(target.as_u32()));
                }
                let inst = Instance::resolve_drop_glue(self.tcx, pl.ty);
                Tm::Drop { pl, inst, target: target.as_u32() }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fo = self.op(f, body, func)?;
                let callee = match *self.op_ty(&fo).kind() {
                    ty::FnDef(d, a) => {
                        let a = a.no_bound_vars().ok_or("bound vars in callee")?;
                        match Instance::try_resolve(self.tcx, self.env, d, a) {
                            Ok(Some(i)) => Callee::Fn(i),
                            _ => return Ok(Tm::Bad(format!("unresolved call {}", self.tcx.def_path_str(d)))),
                        }
                    }
                    ty::FnPtr(..) => Callee::Ptr(fo),
                    _ => return Ok(Tm::Bad("callee kind".into())),
                };
                let mut v = vec![];
                for a in args.iter() {
                    v.push(self.op(f, body, &a.node)?);
                }
                Tm::Call { f: callee, args: v, dest: self.place(f, body, destination)?, target: target.map(|t| t.as_u32()) }
            }
            k => Tm::Bad(format!("terminator {k:?}")),
        })
    }
}
fn assert_name<O>(m: &mir::AssertKind<O>) -> String {
    use mir::AssertKind::*;
    match m {
        BoundsCheck { .. } => "index out of bounds".into(),
        Overflow(op, ..) => format!("arithmetic overflow ({op:?})"),
        OverflowNeg(_) => "negation overflow".into(),
        DivisionByZero(_) => "division by zero".into(),
        RemainderByZero(_) => "remainder by zero".into(),
        _ => "assertion".into(),
    }
}

pub fn succs(t: &Tm) -> Vec<u32> {
    match t {
        Tm::Goto(b) => vec![*b],
        Tm::Switch(_, _, v, o) => {
            let mut r: Vec<u32> = v.iter().map(|x| x.1).collect();
            r.push(*o);
            r
        }
        Tm::Assert { target, .. } | Tm::Drop { target, .. } => vec![*target],
        Tm::Call { target, .. } => target.iter().copied().collect(),
        _ => vec![],
    }
}

/// Weak topological order (Bourdoncle) and blocks that can only end in a panic.
fn cfg(f: &mut Func) {
    let n = f.bbs.len();
    let su: Vec<Vec<u32>> = f.bbs.iter().map(|b| succs(&b.tm)).collect();
    // diverging: no path to Return
    let mut reach = vec![false; n];
    for (i, b) in f.bbs.iter().enumerate() {
        if matches!(b.tm, Tm::Ret) {
            reach[i] = true
        }
    }
    loop {
        let mut ch = false;
        for i in 0..n {
            if !reach[i] && su[i].iter().any(|s| reach[*s as usize]) {
                reach[i] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    f.diverges = reach.iter().map(|r| !r).collect();
    f.comps = vec![vec![]; n];
    f.pos = vec![u32::MAX; n];
    f.head = vec![false; n];
    let mut counter = 0;
    let all: Vec<bool> = vec![true; n];
    wto(f, &su, 0, &all, &mut vec![], &mut counter);
}
fn wto(f: &mut Func, su: &[Vec<u32>], start: u32, allowed: &[bool], ctx: &mut Vec<u32>, counter: &mut u32) {
    // Tarjan from `start` inside `allowed`
    let n = su.len();
    let mut idx = vec![u32::MAX; n];
    let mut low = vec![0u32; n];
    let mut on = vec![false; n];
    let mut stack = vec![];
    let mut sccs: Vec<Vec<u32>> = vec![];
    let mut c = 0;
    // iterative
    let mut work: Vec<(u32, usize)> = vec![(start, 0)];
    while let Some((v, i)) = work.pop() {
        let vu = v as usize;
        if i == 0 {
            idx[vu] = c;
            low[vu] = c;
            c += 1;
            stack.push(v);
            on[vu] = true;
        }
        let mut i = i;
        let mut pushed = false;
        while i < su[vu].len() {
            let w = su[vu][i];
            let wu = w as usize;
            i += 1;
            if !allowed[wu] {
                continue;
            }
            if idx[wu] == u32::MAX {
                work.push((v, i));
                work.push((w, 0));
                pushed = true;
                break;
            } else if on[wu] {
                low[vu] = low[vu].min(idx[wu]);
            }
        }
        if pushed {
            continue;
        }
        if low[vu] == idx[vu] {
            let mut s = vec![];
            loop {
                let w = stack.pop().unwrap();
                on[w as usize] = false;
                s.push(w);
                if w == v {
                    break;
                }
            }
            sccs.push(s);
        }
        if let Some((p, _)) = work.last() {
            let pu = *p as usize;
            low[pu] = low[pu].min(low[vu]);
        }
    }
    sccs.reverse();
    for s in sccs {
        let selfloop = s.len() == 1 && su[s[0] as usize].contains(&s[0]);
        if s.len() == 1 && !selfloop {
            let b = s[0] as usize;
            f.pos[b] = *counter;
            *counter += 1;
            f.comps[b] = ctx.clone();
            continue;
        }
        // head: the member discovered first
        let h = *s.iter().min_by_key(|b| idx[**b as usize]).unwrap();
        f.head[h as usize] = true;
        f.pos[h as usize] = *counter;
        *counter += 1;
        ctx.push(h);
        f.comps[h as usize] = ctx.clone();
        let mut al = vec![false; n];
        for b in &s {
            if *b != h {
                al[*b as usize] = true
            }
        }
        // every member is reachable from the head's successors
        wto_multi(f, su, &su[h as usize].iter().copied().filter(|x| al[*x as usize]).collect::<Vec<_>>(), &al, ctx, counter);
        ctx.pop();
    }
}
fn wto_multi(f: &mut Func, su: &[Vec<u32>], starts: &[u32], allowed: &[bool], ctx: &mut Vec<u32>, counter: &mut u32) {
    // add a virtual root with edges to all starts
    let n = su.len();
    let mut su2 = su.to_vec();
    su2.push(starts.to_vec());
    let mut al = allowed.to_vec();
    al.push(true);
    f.pos.push(0);
    f.comps.push(vec![]);
    f.head.push(false);
    wto(f, &su2, n as u32, &al, ctx, counter);
    f.pos.pop();
    f.comps.pop();
    f.head.pop();
}
/// Decode / encode of enum tags.
pub enum TagInfo {
    None(u128),
    Direct { off: u64, sk: SK },
    Niche { off: u64, sk: SK, untagged: u128, start: u128, first: u128, count: u128 },
}
impl<'tcx> Machine<'tcx> {
    pub fn tag_info(&self, l: &TyAndLayout<'tcx>) -> R<TagInfo> {
        Ok(match &l.variants {
            Variants::Empty => return Err(format!("discriminant of uninhabited {}", l.ty)),
            Variants::Single { index } => {
                let d = l.ty.discriminant_for_variant(self.tcx, *index).map(|d| d.val).unwrap_or(0);
                TagInfo::None(d)
            }
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                let off = l.fields.offset(tag_field.as_usize()).bytes();
                let sk = prim_sk(tag.primitive());
                match tag_encoding {
                    TagEncoding::Direct => TagInfo::Direct { off, sk },
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        let first = niche_variants.start.as_u32() as u128;
                        TagInfo::Niche {
                            off,
                            sk: SK { signed: false, ..sk },
                            untagged: untagged_variant.as_u32() as u128,
                            start: *niche_start,
                            first,
                            count: (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128 + 1,
                        }
                    }
                }
            }
        })
    }
}
