//! Own monomorphic IR, converted on demand from the compiler's MIR (rustc_public).
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{self, *};
use rustc_public::ty::{self, *};
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = usize;
pub type FnId = usize;

#[derive(Clone, Debug, PartialEq)]
pub enum Fat {
    No,
    Slice,
    Dyn,
}
#[derive(Clone, Debug)]
pub enum Enc {
    Direct,
    Niche { untagged: usize, lo: usize, hi: usize, start: u128 },
}
#[derive(Clone, Debug)]
pub struct EnumInfo {
    pub tag_off: u64,
    pub tag_size: u64,
    pub enc: Enc,
    pub discrs: Vec<u128>,
    pub single: Option<usize>,
}
#[derive(Clone, Debug)]
pub enum TK {
    Int { bits: u32, signed: bool },
    Bool,
    Char,
    Float(u32),
    Ptr { pointee: TyId, fat: Fat },
    FnPtr,
    FnDef,
    Never,
    Array { elem: TyId, len: u64 },
    Slice { elem: TyId },
    Str,
    Dyn,
    Agg { variants: Vec<Vec<(u64, TyId)>>, en: Option<EnumInfo>, names: Vec<String> },
    Other,
}
pub struct TyInfo {
    pub name: String,
    pub size: Option<u64>,
    pub kind: TK,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub enum Pj {
    Deref(TyId),
    Field(u64, TyId),
    Index(usize, TyId),
    ConstIndex { off: u64, from_end: bool, elem: TyId },
    Subslice { from: u64, to: u64, from_end: bool, elem: TyId, ty: TyId },
    Downcast,
}
#[derive(Clone, Debug)]
pub struct Place {
    pub local: usize,
    pub proj: Vec<Pj>,
    pub ty: TyId,
}
#[derive(Clone, Debug)]
pub enum Konst {
    Int(i128, TyId),
    Float(f64, TyId),
    Zst(TyId),
    Mem { ty: TyId, bytes: Vec<Option<u8>>, ptrs: Vec<(u64, mir::alloc::AllocId)> },
}
#[derive(Clone, Debug)]
pub enum Op {
    Place(Place),
    Const(Rc<Konst>),
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Repeat(Op, u64, TyId),
    Ref(Place),
    Bin(BinOp, Op, Op, TyId), // operand type of lhs
    Checked(BinOp, Op, Op, TyId),
    Un(UnOp, Op, TyId),
    Cast(CastKind, Op, TyId, TyId), // from, to
    Discr(Place),
    Len(Place),
    Agg(TyId, usize, Option<usize>, Vec<Op>), // ty, variant, union field, ops
    RawPtrAgg(TyId, Op, Op),
    Unknown(String),
}
#[derive(Clone, Debug)]
pub enum St {
    Assign(Place, Rv, TyId),
    SetDiscr(Place, usize),
    Copy(Op, Op, Op, TyId),
    Assume(Op),
    Dead(usize),
    Nop,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(FnId),
    Intrinsic(String, Vec<TyId>, FnId),
    Virtual(String),
    Indirect(Op),
    /// drop glue / empty shims
    Nothing,
}
#[derive(Clone, Debug)]
pub struct CallT {
    pub callee: Callee,
    pub args: Vec<(Op, TyId)>,
    pub dest: Place,
    pub target: Option<usize>,
}
#[derive(Clone, Debug)]
pub enum Tm {
    Goto(usize),
    Switch(Op, TyId, Vec<(u128, usize)>, usize),
    Return,
    Unreachable,
    Abort,
    Call(Rc<CallT>),
    Assert { cond: Op, expected: bool, target: usize, msg: String },
    Drop(usize, TyId),
}
#[derive(Clone, Debug)]
pub struct Block {
    pub stmts: Vec<(St, u32)>,
    pub term: Tm,
    pub tspan: u32,
}
pub struct Loop {
    pub head: usize,
    pub blocks: Vec<bool>,
    pub parent: Option<usize>,
}
pub struct Func {
    pub id: FnId,
    pub name: String,
    pub locals: Vec<TyId>,
    pub argc: usize,
    pub spread: bool, // body has spread_arg
    pub is_closure: bool,
    pub blocks: Vec<Block>,
    pub spans: Vec<String>,
    pub rpo: Vec<usize>, // block -> rpo index (usize::MAX if unreachable)
    pub loops: Vec<Loop>,
    pub loop_of: Vec<Option<usize>>, // innermost loop
    pub head_of: Vec<Option<usize>>, // block is header of loop
    pub ipdom: Vec<Option<usize>>,
    pub live_in: Vec<Vec<bool>>,
    pub addr_taken: Vec<bool>,
    pub krate: String,
}
pub struct FnDecl {
    pub inst: Instance,
    pub name: String,
    pub krate: String,
    pub body: Option<Option<Rc<Func>>>,
    pub ret: Option<TyId>,
}

#[derive(Default)]
pub struct Prog {
    pub tys: Vec<Rc<TyInfo>>,
    ty_ix: HashMap<Ty, TyId>,
    pub fns: Vec<FnDecl>,
    fn_ix: HashMap<Instance, FnId>,
}

fn krate_of(name: &str) -> String {
    let n = name.trim_start_matches('<').trim_start_matches('&');
    n.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("").to_string()
}

impl Prog {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let id = self.tys.len();
        self.ty_ix.insert(t, id);
        self.tys.push(Rc::new(TyInfo { name: String::new(), size: None, kind: TK::Other, ty: t }));
        let info = self.mk_ty(t);
        self.tys[id] = Rc::new(info);
        id
    }
    pub fn t(&self, id: TyId) -> Rc<TyInfo> {
        self.tys[id].clone()
    }
    pub fn size(&self, id: TyId) -> u64 {
        self.tys[id].size.unwrap_or(0)
    }
    fn ptr_kind(&mut self, p: Ty) -> TK {
        let pointee = self.ty(p);
        let fat = self.tail_fat(p);
        TK::Ptr { pointee, fat }
    }
    fn tail_fat(&mut self, p: Ty) -> Fat {
        match p.kind() {
            TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) => Fat::Slice,
            TyKind::RigidTy(RigidTy::Dynamic(..)) => Fat::Dyn,
            TyKind::RigidTy(RigidTy::Adt(d, args)) => {
                if d.kind() == AdtKind::Struct {
                    let v = d.variants_iter().next();
                    if let Some(v) = v {
                        if let Some(f) = v.fields().last() {
                            return self.tail_fat(f.ty_with_args(&args));
                        }
                    }
                }
                Fat::No
            }
            _ => Fat::No,
        }
    }
    fn mk_ty(&mut self, t: Ty) -> TyInfo {
        let name = format!("{}", t);
        let lay = t.layout().ok().map(|l| l.shape());
        let size = lay.as_ref().and_then(|l| if l.is_sized() { Some(l.size.bytes() as u64) } else { None });
        let TyKind::RigidTy(r) = t.kind() else {
            return TyInfo { name, size, kind: TK::Other, ty: t };
        };
        let offs = |l: &rustc_public::abi::LayoutShape| -> Vec<u64> {
            match &l.fields {
                FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes() as u64).collect(),
                FieldsShape::Union(n) => vec![0; n.get()],
                _ => vec![],
            }
        };
        let kind = match r {
            RigidTy::Bool => TK::Bool,
            RigidTy::Char => TK::Char,
            RigidTy::Int(i) => TK::Int { bits: i.num_bytes() as u32 * 8, signed: true },
            RigidTy::Uint(i) => TK::Int { bits: i.num_bytes() as u32 * 8, signed: false },
            RigidTy::Float(FloatTy::F32) => TK::Float(32),
            RigidTy::Float(FloatTy::F64) => TK::Float(64),
            RigidTy::Never => TK::Never,
            RigidTy::Str => TK::Str,
            RigidTy::Slice(e) => TK::Slice { elem: self.ty(e) },
            RigidTy::Array(e, n) => TK::Array { elem: self.ty(e), len: n.eval_target_usize().unwrap_or(0) },
            RigidTy::Ref(_, p, _) => self.ptr_kind(p),
            RigidTy::RawPtr(p, _) => self.ptr_kind(p),
            RigidTy::FnPtr(_) => TK::FnPtr,
            RigidTy::FnDef(..) => TK::FnDef,
            RigidTy::Dynamic(..) => TK::Dyn,
            RigidTy::Tuple(v) => {
                let o = lay.as_ref().map(|l| offs(l)).unwrap_or_default();
                let fs: Vec<(u64, TyId)> = v.iter().enumerate().map(|(i, x)| (o.get(i).copied().unwrap_or(0), self.ty(*x))).collect();
                TK::Agg { variants: vec![fs], en: None, names: vec![] }
            }
            RigidTy::Closure(_, args) => {
                let up = match args.0.last() {
                    Some(GenericArgKind::Type(t)) => match t.kind() {
                        TyKind::RigidTy(RigidTy::Tuple(v)) => v,
                        _ => vec![],
                    },
                    _ => vec![],
                };
                let o = lay.as_ref().map(|l| offs(l)).unwrap_or_default();
                let fs: Vec<(u64, TyId)> = up.iter().enumerate().map(|(i, x)| (o.get(i).copied().unwrap_or(0), self.ty(*x))).collect();
                TK::Agg { variants: vec![fs], en: None, names: vec![] }
            }
            RigidTy::Adt(def, args) => {
                let l = match &lay {
                    Some(l) => l.clone(),
                    None => return TyInfo { name, size, kind: TK::Other, ty: t },
                };
                let defs: Vec<_> = def.variants_iter().collect();
                let mut names = vec![];
                let mut vt: Vec<Vec<TyId>> = vec![];
                for v in &defs {
                    names.push(v.name());
                    let mut fs = vec![];
                    for f in v.fields() {
                        fs.push(self.ty(f.ty_with_args(&args)));
                    }
                    vt.push(fs);
                }
                let zip = |o: Vec<u64>, f: &Vec<TyId>| -> Vec<(u64, TyId)> { f.iter().enumerate().map(|(i, t)| (o.get(i).copied().unwrap_or(0), *t)).collect() };
                match def.kind() {
                    AdtKind::Struct | AdtKind::Union => TK::Agg { variants: vec![zip(offs(&l), &vt[0])], en: None, names },
                    AdtKind::Enum => {
                        let discrs: Vec<u128> = (0..defs.len()).map(|i| def.discriminant_for_variant(VariantIdx::to_val(i)).val).collect();
                        match &l.variants {
                            VariantsShape::Empty => TK::Agg { variants: vt.iter().map(|f| zip(vec![], f)).collect(), en: Some(EnumInfo { tag_off: 0, tag_size: 0, enc: Enc::Direct, discrs, single: Some(0) }), names },
                            VariantsShape::Single { index } => {
                                let ix = index.to_index();
                                let vs = vt.iter().enumerate().map(|(i, f)| if i == ix { zip(offs(&l), f) } else { zip(vec![], f) }).collect();
                                TK::Agg { variants: vs, en: Some(EnumInfo { tag_off: 0, tag_size: 0, enc: Enc::Direct, discrs, single: Some(ix) }), names }
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let tag_off = match &l.fields {
                                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as u64,
                                    _ => 0,
                                };
                                let tag_size = match tag {
                                    rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes() as u64,
                                };
                                let enc = match tag_encoding {
                                    TagEncoding::Direct => Enc::Direct,
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => Enc::Niche {
                                        untagged: untagged_variant.to_index(),
                                        lo: niche_variants.start().to_index(),
                                        hi: niche_variants.end().to_index(),
                                        start: *niche_start,
                                    },
                                };
                                let vs = variants.iter().zip(vt.iter()).map(|(v, f)| zip(v.offsets.iter().map(|o| o.bytes() as u64).collect(), f)).collect();
                                TK::Agg { variants: vs, en: Some(EnumInfo { tag_off, tag_size, enc, discrs, single: None }), names }
                            }
                        }
                    }
                }
            }
            _ => TK::Other,
        };
        TyInfo { name, size, kind, ty: t }
    }

    pub fn fn_id(&mut self, inst: Instance) -> FnId {
        if let Some(i) = self.fn_ix.get(&inst) {
            return *i;
        }
        let id = self.fns.len();
        let name = inst.name();
        let krate = inst.def.krate().name;
        self.fns.push(FnDecl { inst, krate, name, body: None, ret: None });
        self.fn_ix.insert(inst, id);
        id
    }
    pub fn body(&mut self, f: FnId) -> Option<Rc<Func>> {
        if let Some(b) = &self.fns[f].body {
            return b.clone();
        }
        let inst = self.fns[f].inst;
        let b = inst.body();
        let r = b.map(|b| Rc::new(self.conv(f, inst, b)));
        self.fns[f].body = Some(r.clone());
        r
    }
    pub fn ret_ty(&mut self, f: FnId) -> Option<TyId> {
        if let Some(t) = self.fns[f].ret {
            return Some(t);
        }
        let inst = self.fns[f].inst;
        let abi = inst.fn_abi().ok()?;
        let t = self.ty(abi.ret.ty);
        self.fns[f].ret = Some(t);
        Some(t)
    }

    fn conv(&mut self, id: FnId, inst: Instance, b: Body) -> Func {
        let locals: Vec<TyId> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut spans: Vec<String> = vec![];
        let mut span_ix: HashMap<String, u32> = HashMap::new();
        let mut sp = |s: ty::Span| -> u32 {
            let l = s.get_lines();
            let f = s.get_filename();
            let k = format!("{}:{}:{}", f, l.start_line, l.start_col);
            if let Some(i) = span_ix.get(&k) {
                return *i;
            }
            let i = spans.len() as u32;
            spans.push(k.clone());
            span_ix.insert(k, i);
            i
        };
        let mut blocks = vec![];
        let ltys: Vec<Ty> = b.locals().iter().map(|l| l.ty).collect();
        for bb in &b.blocks {
            let mut stmts = vec![];
            for s in &bb.statements {
                let st = match &s.kind {
                    StatementKind::Assign(p, rv) => {
                        let pl = self.place(p, &ltys);
                        let ty = pl.ty;
                        St::Assign(pl, self.rvalue(rv, &b, &ltys), ty)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => St::SetDiscr(self.place(place, &ltys), variant_index.to_index()),
                    StatementKind::StorageDead(l) => St::Dead(*l),
                    StatementKind::StorageLive(l) => St::Dead(*l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => St::Assume(self.op(o, &ltys)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let pt = c.src.ty(b.locals()).unwrap();
                        let el = match pt.kind() {
                            TyKind::RigidTy(RigidTy::RawPtr(p, _)) => self.ty(p),
                            _ => panic!("copy_nonoverlapping"),
                        };
                        St::Copy(self.op(&c.src, &ltys), self.op(&c.dst, &ltys), self.op(&c.count, &ltys), el)
                    }
                    _ => St::Nop,
                };
                if !matches!(st, St::Nop) {
                    stmts.push((st, sp(s.source_info.span)));
                }
            }
            let term = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => Tm::Goto(*target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(b.locals()).unwrap();
                    Tm::Switch(self.op(discr, &ltys), self.ty(t), targets.branches().collect(), targets.otherwise())
                }
                TerminatorKind::Return => Tm::Return,
                TerminatorKind::Unreachable => Tm::Unreachable,
                TerminatorKind::Resume | TerminatorKind::Abort => Tm::Abort,
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, &ltys);
                    Tm::Drop(*target, p.ty)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
                        AssertMessage::OverflowNeg(_) => "arithmetic overflow (Neg)".to_string(),
                        AssertMessage::DivisionByZero(_) => "division by zero".to_string(),
                        AssertMessage::RemainderByZero(_) => "remainder by zero".to_string(),
                        _ => "assertion".to_string(),
                    };
                    Tm::Assert { cond: self.op(cond, &ltys), expected: *expected, target: *target, msg: m }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).unwrap();
                    let callee = self.callee(fty, func, &ltys);
                    let a = args.iter().map(|o| (self.op(o, &ltys), { let t = o.ty(b.locals()).unwrap(); self.ty(t) })).collect();
                    Tm::Call(Rc::new(CallT { callee, args: a, dest: self.place(destination, &ltys), target: *target }))
                }
                TerminatorKind::InlineAsm { .. } => Tm::Abort,
            };
            blocks.push(Block { stmts, term, tspan: sp(bb.terminator.source_info.span) });
        }
        let is_closure = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let name = self.fns[id].name.clone();
        let krate = self.fns[id].krate.clone();
        let argc = b.arg_locals().len();
        let mut f = Func {
            id,
            name,
            locals,
            argc,
            spread: b.spread_arg().is_some(),
            is_closure,
            blocks,
            spans,
            rpo: vec![],
            loops: vec![],
            loop_of: vec![],
            head_of: vec![],
            ipdom: vec![],
            live_in: vec![],
            addr_taken: vec![],
            krate,
        };
        cfg(&mut f);
        f
    }
    pub fn callee(&mut self, fty: Ty, func: &Operand, ltys: &[Ty]) -> Callee {
        match fty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(def, args)) => match Instance::resolve(def, &args) {
                Ok(inst) => match inst.kind {
                    InstanceKind::Intrinsic => {
                        // prefer a fallback body only when we have no own model: keep the name
                        let tys = args.0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(self.ty(*t)) } else { None }).collect();
                        Callee::Intrinsic(inst.intrinsic_name().unwrap_or_default(), tys, self.fn_id(inst))
                    }
                    InstanceKind::Virtual { .. } => Callee::Virtual(inst.name()),
                    _ => {
                        if inst.is_empty_shim() {
                            Callee::Nothing
                        } else {
                            Callee::Fn(self.fn_id(inst))
                        }
                    }
                },
                Err(_) => Callee::Virtual(format!("{:?}", fty)),
            },
            _ => Callee::Indirect(self.op(func, ltys)),
        }
    }
    fn place(&mut self, p: &mir::Place, ltys: &[Ty]) -> Place {
        let mut cur = ltys[p.local];
        let mut proj = vec![];
        let mut variant: usize = 0;
        let mut in_down = false;
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let n = match cur.kind() {
                        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => t,
                        _ => cur.kind().builtin_deref(true).map(|m| m.ty).expect("deref"),
                    };
                    proj.push(Pj::Deref(self.ty(n)));
                    cur = n;
                }
                ProjectionElem::Field(i, fty) => {
                    let cid = self.ty(cur);
                    let v = if in_down { variant } else { 0 };
                    let off = match &self.tys[cid].kind {
                        TK::Agg { variants, en, .. } => {
                            let vv = if in_down || en.is_none() { v } else { en.as_ref().and_then(|e| e.single).unwrap_or(0) };
                            variants.get(vv).and_then(|f| f.get(*i)).map(|x| x.0).unwrap_or(0)
                        }
                        TK::Ptr { .. } => (*i as u64) * 8,
                        _ => 0,
                    };
                    proj.push(Pj::Field(off, self.ty(*fty)));
                    cur = *fty;
                    in_down = false;
                }
                ProjectionElem::Index(l) => {
                    let el = match cur.kind() {
                        TyKind::RigidTy(RigidTy::Array(e, _)) | TyKind::RigidTy(RigidTy::Slice(e)) => e,
                        _ => panic!("index"),
                    };
                    proj.push(Pj::Index(*l, self.ty(el)));
                    cur = el;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (el, n) = match cur.kind() {
                        TyKind::RigidTy(RigidTy::Array(e, n)) => (e, n.eval_target_usize().ok()),
                        TyKind::RigidTy(RigidTy::Slice(e)) => (e, None),
                        _ => panic!("cindex"),
                    };
                    let el_id = self.ty(el);
                    match (from_end, n) {
                        (true, Some(n)) => proj.push(Pj::ConstIndex { off: n - offset, from_end: false, elem: el_id }),
                        _ => proj.push(Pj::ConstIndex { off: *offset, from_end: *from_end, elem: el_id }),
                    }
                    cur = el;
                }
                ProjectionElem::Subslice { from, to, from_end } => match cur.kind() {
                    TyKind::RigidTy(RigidTy::Array(e, n)) => {
                        let n = n.eval_target_usize().unwrap();
                        let to2 = if *from_end { n - to } else { *to };
                        let nt = Ty::try_new_array(e, to2 - from).unwrap();
                        let (el, ty) = (self.ty(e), self.ty(nt));
                        proj.push(Pj::Subslice { from: *from, to: to2, from_end: false, elem: el, ty });
                        cur = nt;
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let (el, ty) = (self.ty(e), self.ty(cur));
                        proj.push(Pj::Subslice { from: *from, to: *to, from_end: *from_end, elem: el, ty });
                    }
                    _ => panic!("subslice"),
                },
                ProjectionElem::Downcast(v) => {
                    variant = v.to_index();
                    in_down = true;
                    proj.push(Pj::Downcast);
                }
                _ => {}
            }
        }
        Place { local: p.local, proj, ty: self.ty(cur) }
    }
    fn op(&mut self, o: &Operand, ltys: &[Ty]) -> Op {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Op::Place(self.place(p, ltys)),
            Operand::Constant(c) => Op::Const(Rc::new(self.konst(&c.const_))),
            #[allow(unreachable_patterns)]
            _ => Op::Const(Rc::new({
                // runtime checks (ub_checks / overflow checks): treated as disabled
                let t = self.ty(Ty::bool_ty());
                Konst::Int(0, t)
            })),
        }
    }
    pub fn konst(&mut self, c: &MirConst) -> Konst {
        let tid = self.ty(c.ty());
        match c.kind() {
            ConstantKind::ZeroSized => Konst::Zst(tid),
            ConstantKind::Allocated(a) => self.konst_alloc(tid, a),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => self.konst_alloc(tid, a),
                TyConstKind::ZSTValue(_) => Konst::Zst(tid),
                _ => panic!("const {:?}", c),
            },
            k => panic!("const kind {:?}", k),
        }
    }
    fn konst_alloc(&mut self, tid: TyId, a: &Allocation) -> Konst {
        if self.size(tid) == 0 && self.tys[tid].size.is_some() {
            return Konst::Zst(tid);
        }
        let bytes = a.bytes.clone();
        if a.provenance.ptrs.is_empty() && bytes.iter().all(|b| b.is_some()) {
            let raw: u128 = if bytes.len() <= 16 { bytes.iter().enumerate().fold(0u128, |x, (i, b)| x | ((b.unwrap() as u128) << (8 * i))) } else { 0 };
            match &self.tys[tid].kind {
                TK::Int { bits, signed } => {
                    let v = if *signed && *bits < 128 { ((raw << (128 - bits)) as i128) >> (128 - bits) } else { raw as i128 };
                    return Konst::Int(v, tid);
                }
                TK::Bool | TK::Char => return Konst::Int(raw as i128, tid),
                TK::Float(32) => return Konst::Float(f32::from_bits(raw as u32) as f64, tid),
                TK::Float(64) => return Konst::Float(f64::from_bits(raw as u64), tid),
                _ => {}
            }
        }
        let ptrs = a.provenance.ptrs.iter().map(|(o, p)| (*o as u64, p.0)).collect();
        Konst::Mem { ty: tid, bytes, ptrs }
    }
    fn rvalue(&mut self, rv: &Rvalue, b: &Body, ltys: &[Ty]) -> Rv {
        match rv {
            Rvalue::Use(o, ..) => Rv::Use(self.op(o, ltys)),
            Rvalue::Repeat(o, n) => {
                let t = o.ty(b.locals()).unwrap();
                Rv::Repeat(self.op(o, ltys), n.eval_target_usize().unwrap_or(0), self.ty(t))
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => Rv::Ref(self.place(p, ltys)),
            Rvalue::BinaryOp(op, x, y) => {
                let t = x.ty(b.locals()).unwrap();
                Rv::Bin(*op, self.op(x, ltys), self.op(y, ltys), self.ty(t))
            }
            Rvalue::CheckedBinaryOp(op, x, y) => {
                let t = x.ty(b.locals()).unwrap();
                Rv::Checked(*op, self.op(x, ltys), self.op(y, ltys), self.ty(t))
            }
            Rvalue::UnaryOp(op, x) => {
                let t = x.ty(b.locals()).unwrap();
                Rv::Un(*op, self.op(x, ltys), self.ty(t))
            }
            Rvalue::Cast(k, x, to) => {
                let t = x.ty(b.locals()).unwrap();
                Rv::Cast(*k, self.op(x, ltys), self.ty(t), self.ty(*to))
            }
            Rvalue::Discriminant(p) => Rv::Discr(self.place(p, ltys)),
            Rvalue::Len(p) => Rv::Len(self.place(p, ltys)),
            Rvalue::CopyForDeref(p) => Rv::Use(Op::Place(self.place(p, ltys))),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<Op> = ops.iter().map(|o| self.op(o, ltys)).collect();
                let t = rv.ty(b.locals()).unwrap();
                let tid = self.ty(t);
                match k {
                    AggregateKind::Adt(_, v, _, _, fld) => Rv::Agg(tid, v.to_index(), *fld, o),
                    AggregateKind::RawPtr(..) => {
                        let mut it = o.into_iter();
                        let a = it.next().unwrap();
                        let m = it.next().unwrap();
                        Rv::RawPtrAgg(tid, a, m)
                    }
                    _ => Rv::Agg(tid, 0, None, o),
                }
            }
            r => Rv::Unknown(format!("{:?}", r)),
        }
    }
}

pub fn succs(t: &Tm) -> Vec<usize> {
    match t {
        Tm::Goto(b) | Tm::Drop(b, _) => vec![*b],
        Tm::Switch(_, _, v, o) => {
            let mut r: Vec<usize> = v.iter().map(|x| x.1).collect();
            r.push(*o);
            r
        }
        Tm::Assert { target, .. } => vec![*target],
        Tm::Call(c) => c.target.iter().copied().collect(),
        _ => vec![],
    }
}
fn op_locals(o: &Op, f: &mut dyn FnMut(usize)) {
    if let Op::Place(p) = o {
        place_uses(p, f);
    }
}
fn place_uses(p: &Place, f: &mut dyn FnMut(usize)) {
    f(p.local);
    for e in &p.proj {
        if let Pj::Index(l, _) = e {
            f(*l)
        }
    }
}
fn rv_uses(r: &Rv, f: &mut dyn FnMut(usize)) {
    match r {
        Rv::Use(o) | Rv::Repeat(o, ..) | Rv::Un(_, o, _) | Rv::Cast(_, o, ..) => op_locals(o, f),
        Rv::Ref(p) | Rv::Discr(p) | Rv::Len(p) => place_uses(p, f),
        Rv::Bin(_, a, b, _) | Rv::Checked(_, a, b, _) | Rv::RawPtrAgg(_, a, b) => {
            op_locals(a, f);
            op_locals(b, f);
        }
        Rv::Agg(_, _, _, v) => v.iter().for_each(|o| op_locals(o, f)),
        Rv::Unknown(_) => {}
    }
}
fn cfg(f: &mut Func) {
    let n = f.blocks.len();
    // rpo
    let mut order = vec![];
    let mut seen = vec![false; n];
    let mut st: Vec<(usize, usize)> = vec![(0, 0)];
    seen[0] = true;
    while let Some((b, i)) = st.pop() {
        let s = succs(&f.blocks[b].term);
        if i < s.len() {
            st.push((b, i + 1));
            if !seen[s[i]] {
                seen[s[i]] = true;
                st.push((s[i], 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    f.rpo = vec![usize::MAX; n];
    for (i, b) in order.iter().enumerate() {
        f.rpo[*b] = i;
    }
    let mut preds = vec![vec![]; n];
    for &b in &order {
        for s in succs(&f.blocks[b].term) {
            preds[s].push(b);
        }
    }
    // dominators (bitsets)
    let full: Vec<bool> = f.rpo.iter().map(|r| *r != usize::MAX).collect();
    let mut dom: Vec<Vec<bool>> = vec![full.clone(); n];
    dom[0] = vec![false; n];
    dom[0][0] = true;
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().skip(1) {
            let mut d = full.clone();
            for &p in &preds[b] {
                for k in 0..n {
                    d[k] = d[k] && dom[p][k];
                }
            }
            d[b] = true;
            if d != dom[b] {
                dom[b] = d;
                ch = true;
            }
        }
    }
    // natural loops
    let mut loops: Vec<Loop> = vec![];
    for &h in &order {
        let mut body = vec![false; n];
        let mut any = false;
        let mut stack = vec![];
        for &p in &preds[h] {
            if dom[p][h] {
                any = true;
                stack.push(p);
            }
        }
        if !any {
            continue;
        }
        body[h] = true;
        while let Some(x) = stack.pop() {
            if !body[x] {
                body[x] = true;
                for &p in &preds[x] {
                    stack.push(p);
                }
            }
        }
        loops.push(Loop { head: h, blocks: body, parent: None });
    }
    // loops in rpo order of headers: outer before inner
    for i in 0..loops.len() {
        let mut best: Option<usize> = None;
        for j in 0..i {
            if loops[j].blocks[loops[i].head] && j != i {
                best = match best {
                    None => Some(j),
                    Some(b) => {
                        let cb = loops[b].blocks.iter().filter(|x| **x).count();
                        let cj = loops[j].blocks.iter().filter(|x| **x).count();
                        Some(if cj < cb { j } else { b })
                    }
                };
            }
        }
        loops[i].parent = best;
    }
    f.loop_of = vec![None; n];
    f.head_of = vec![None; n];
    for b in 0..n {
        let mut best: Option<(usize, usize)> = None;
        for (i, l) in loops.iter().enumerate() {
            if l.blocks[b] {
                let c = l.blocks.iter().filter(|x| **x).count();
                if best.map_or(true, |x| c < x.1) {
                    best = Some((i, c));
                }
            }
        }
        f.loop_of[b] = best.map(|x| x.0);
    }
    for (i, l) in loops.iter().enumerate() {
        f.head_of[l.head] = Some(i);
    }
    f.loops = loops;
    // postdominators among blocks that can reach Return
    let mut can = vec![false; n];
    let mut stack: Vec<usize> = order.iter().copied().filter(|b| matches!(f.blocks[*b].term, Tm::Return)).collect();
    while let Some(x) = stack.pop() {
        if !can[x] {
            can[x] = true;
            for &p in &preds[x] {
                stack.push(p);
            }
        }
    }
    let mut pd: Vec<Vec<bool>> = vec![can.clone(); n];
    let mut ch = true;
    for &b in &order {
        if can[b] && matches!(f.blocks[b].term, Tm::Return) {
            pd[b] = vec![false; n];
            pd[b][b] = true;
        }
    }
    while ch {
        ch = false;
        for &b in order.iter().rev() {
            if !can[b] || matches!(f.blocks[b].term, Tm::Return) {
                continue;
            }
            let mut d = can.clone();
            for s in succs(&f.blocks[b].term) {
                if can[s] {
                    for k in 0..n {
                        d[k] = d[k] && pd[s][k];
                    }
                }
            }
            d[b] = true;
            if d != pd[b] {
                pd[b] = d;
                ch = true;
            }
        }
    }
    f.ipdom = vec![None; n];
    for &b in &order {
        if !can[b] {
            continue;
        }
        // immediate: the strict postdominator with the largest pd set
        let mut best: Option<(usize, usize)> = None;
        for k in 0..n {
            if k != b && pd[b][k] {
                let c = pd[k].iter().filter(|x| **x).count();
                if best.map_or(true, |x| c > x.1) {
                    best = Some((k, c));
                }
            }
        }
        f.ipdom[b] = best.map(|x| x.0);
    }
    // liveness + address taken
    let nl = f.locals.len();
    let mut at = vec![false; nl];
    let mut gen = vec![vec![false; nl]; n];
    let mut kill = vec![vec![false; nl]; n];
    for (bi, b) in f.blocks.iter().enumerate() {
        let g = std::cell::RefCell::new((vec![false; nl], vec![false; nl]));
        let usef = |l: usize| {
            let mut g = g.borrow_mut();
            if !g.1[l] {
                g.0[l] = true
            }
        };
        let def = |p: &Place| {
            if p.proj.is_empty() {
                let mut g = g.borrow_mut();
                if !g.0[p.local] {
                    g.1[p.local] = true
                }
            } else {
                let mut u = |l: usize| {
                    let mut g = g.borrow_mut();
                    if !g.1[l] {
                        g.0[l] = true
                    }
                };
                place_uses(p, &mut u);
            }
        };
        for (s, _) in &b.stmts {
            let mut u = |l: usize| usef(l);
            match s {
                St::Assign(p, r, _) => {
                    rv_uses(r, &mut u);
                    if let Rv::Ref(q) = r {
                        if !matches!(q.proj.first(), Some(Pj::Deref(_))) {
                            at[q.local] = true;
                        }
                    }
                    def(p);
                }
                St::SetDiscr(p, _) => place_uses(p, &mut u),
                St::Copy(a, c, d, _) => {
                    op_locals(a, &mut u);
                    op_locals(c, &mut u);
                    op_locals(d, &mut u);
                }
                St::Assume(o) => op_locals(o, &mut u),
                St::Dead(l) => {
                    let mut g = g.borrow_mut();
                    if !g.0[*l] {
                        g.1[*l] = true
                    }
                }
                St::Nop => {}
            }
        }
        {
            let mut u = |l: usize| usef(l);
            match &b.term {
                Tm::Switch(o, ..) => op_locals(o, &mut u),
                Tm::Assert { cond, .. } => op_locals(cond, &mut u),
                Tm::Call(c) => {
                    if let Callee::Indirect(o) = &c.callee {
                        op_locals(o, &mut u);
                    }
                    for (a, _) in &c.args {
                        op_locals(a, &mut u);
                    }
                    def(&c.dest);
                }
                Tm::Return => usef(0),
                _ => {}
            }
        }
        let (g0, k0) = g.into_inner();
        gen[bi] = g0;
        kill[bi] = k0;
    }
    let mut li = gen.clone();
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().rev() {
            for l in 0..nl {
                if li[b][l] || kill[b][l] {
                    continue;
                }
                if succs(&f.blocks[b].term).iter().any(|s| li[*s][l]) {
                    li[b][l] = true;
                    ch = true;
                }
            }
        }
    }
    for b in 0..n {
        for l in 0..nl {
            if at[l] {
                li[b][l] = true;
            }
        }
    }
    f.live_in = li;
    f.addr_taken = at;
}
pub fn span_str(s: &ty::Span) -> String {
    let l = s.get_lines();
    format!("{}:{}:{}", s.get_filename(), l.start_line, l.start_col)
}
