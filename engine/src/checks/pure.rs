//! Effects: what the reachable code may touch besides its arguments, and the absence of unsafe operations.
use super::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::visit::{Location, PlaceContext};
use rustc_public::mir::{AggregateKind, Body, CastKind, MirVisitor, Mutability, Place, ProjectionElem, Rvalue, Safety, Terminator, TerminatorKind};
use rustc_public::CrateDefType;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub fn tasks() -> Vec<Task> {
    vec![("effects", effects), ("nounsafe", nounsafe), ("footprint", footprint)]
}
/// deterministic, indexed operations of the parallel iterator library
const PAR_OK: &[&str] = &[
    "par_chunks", "par_chunks_mut", "par_chunks_exact", "par_chunks_exact_mut", "par_rchunks", "par_rchunks_mut", "par_iter", "par_iter_mut", "into_par_iter", "enumerate", "for_each", "zip",
    "zip_eq", "map", "take", "skip", "rev", "copied", "cloned", "step_by", "with_min_len", "with_max_len", "chunks", "as_parallel_slice", "as_parallel_slice_mut", "chain", "collect", "inspect", "flat_map_iter",
    "by_exponential_blocks", "by_uniform_blocks", "join", "all", "any",
];
struct Walk {
    seen: HashSet<Instance>,
    todo: Vec<Instance>,
    from: BTreeMap<String, String>,
    /// what refers to what
    edges: BTreeMap<String, BTreeSet<String>>,
    locals: BTreeSet<String>,
    allocs: HashSet<usize>,
    statics: Vec<(StaticDef, bool, String)>,
    boundary: BTreeMap<String, u64>,
    bad: Vec<(String, String)>,
    n_calls: u64,
    local: String,
}
fn mentions_cell(t: Ty, d: u32, seen: &mut HashSet<Ty>) -> bool {
    if d > 12 || !seen.insert(t) {
        return false;
    }
    match t.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Adt(def, args) => {
                if def.name().ends_with("UnsafeCell") {
                    return true;
                }
                def.variants().iter().any(|v| v.fields().iter().any(|f| mentions_cell(f.ty_with_args(&args), d + 1, seen)))
            }
            RigidTy::Array(t, _) | RigidTy::Slice(t) => mentions_cell(t, d + 1, seen),
            RigidTy::RawPtr(..) | RigidTy::FnPtr(..) => false,
            RigidTy::Ref(_, t, _) => mentions_cell(t, d + 1, seen),
            RigidTy::Tuple(v) => v.iter().any(|t| mentions_cell(*t, d + 1, seen)),
            RigidTy::Dynamic(..) => true,
            _ => false,
        },
        _ => false,
    }
}
impl Walk {
    fn push(&mut self, i: Instance, from: &str) {
        self.edges.entry(from.to_string()).or_default().insert(i.name());
        if self.seen.insert(i) {
            self.from.entry(i.name()).or_insert_with(|| from.to_string());
            self.todo.push(i);
        }
    }
    fn chain(&self, n: &str) -> String {
        let mut v = vec![n.to_string()];
        let mut c = n.to_string();
        while let Some(p) = self.from.get(&c) {
            if v.len() > 12 || *p == c || p.is_empty() {
                break;
            }
            v.push(p.clone());
            c = p.clone();
        }
        v.join(" <- ")
    }
    fn alloc(&mut self, id: rustc_public::mir::alloc::AllocId, raw: bool, from: &str) {
        use rustc_public_bridge::IndexedVal;
        let node = format!("constant {}", id.to_index());
        self.edges.entry(from.to_string()).or_default().insert(node.clone());
        self.from.entry(node.clone()).or_insert_with(|| from.to_string());
        let from = node.as_str();
        match GlobalAlloc::from(id) {
            GlobalAlloc::Static(s) => {
                if !self.statics.iter().any(|x| x.0 == s && x.1 == raw) {
                    self.statics.push((s, raw, from.to_string()));
                }
                if self.allocs.insert(id.to_index()) {
                    if let Ok(a) = s.eval_initializer() {
                        self.allocation(&a, false, from);
                    }
                }
            }
            GlobalAlloc::Memory(a) => {
                if self.allocs.insert(id.to_index()) {
                    self.allocation(&a, false, from);
                }
            }
            GlobalAlloc::Function(i) => self.push(i, from),
            _ => {}
        }
    }
    fn allocation(&mut self, a: &Allocation, raw: bool, from: &str) {
        for (_, p) in &a.provenance.ptrs {
            self.alloc(p.0, raw, from);
        }
    }
    fn fn_ty(&mut self, t: Ty, from: &str) {
        if let TyKind::RigidTy(r) = t.kind() {
            match r {
                RigidTy::FnDef(d, args) => match Instance::resolve(d, &args) {
                    Ok(i) => {
                        self.n_calls += 1;
                        self.push(i, from)
                    }
                    Err(_) => self.bad.push((format!("unresolved|{}", d.name()), format!("call of {} in {} cannot be resolved", d.name(), from))),
                },
                RigidTy::Closure(d, args) => {
                    if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnOnce) {
                        self.push(i, from);
                    }
                }
                _ => {}
            }
        }
    }
    fn visit(&mut self, i: Instance) {
        let name = i.name();
        let krate = i.def.krate().name;
        let plain = strip_generics(&name);
        match i.kind {
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => {
                let n = i.intrinsic_name().unwrap_or_default();
                if n.starts_with("atomic_") || n.contains("volatile") || i.kind == InstanceKind::LlvmIntrinsic {
                    self.bad.push((format!("intrinsic|{}", n), format!("shared-state or machine operation `{}` is reachable: {}", n, self.chain(&name))));
                }
                return;
            }
            InstanceKind::Virtual { .. } => {
                // dynamic dispatch inside the formatting machinery of panics is cut off below; anything else is unknown code
                self.bad.push((format!("virtual|{}", plain), format!("dynamically dispatched call whose target is unknown: {}", self.chain(&name))));
                return;
            }
            _ => {}
        }
        // panicking ends the call: what the panic machinery does is not a result
        if krate == "core" && (plain.contains("panicking::") || name.contains("core::panicking") || name.contains("core::fmt::") || plain.ends_with("_fail") || plain.ends_with("_failed")) {
            return;
        }
        if matches!(krate.as_str(), "rayon" | "rayon_core") {
            let l = crate::models::last_seg(&name);
            *self.boundary.entry(l.clone()).or_insert(0) += 1;
            if !PAR_OK.contains(&l.as_str()) {
                self.bad.push((format!("parallel|{}", l), format!("parallel operation `{}` is not one of the order-independent indexed ones: {}", l, self.chain(&name))));
            }
            return;
        }
        if krate == "compiler_builtins" {
            return;
        }
        if !matches!(krate.as_str(), "core" | "libm") && krate != self.local {
            self.bad.push((format!("foreign|{}|{}", krate, plain), format!("code outside the library and core is reachable: {}::{} ({})", krate, name, self.chain(&name))));
            return;
        }
        if krate == "core" && (plain.contains("sync::atomic") || name.contains("core::sync::atomic")) {
            self.bad.push((format!("atomic|{}", plain), format!("shared-state operation is reachable: {}", self.chain(&name))));
            return;
        }
        if i.is_foreign_item() {
            self.bad.push((format!("extern|{}", plain), format!("foreign function is reachable: {}", self.chain(&name))));
            return;
        }
        let Some(b) = i.body() else {
            let never = i.fn_abi().map(|a| matches!(a.ret.ty.kind(), TyKind::RigidTy(RigidTy::Never))).unwrap_or(false);
            if !i.is_empty_shim() && !never {
                self.bad.push((format!("nobody|{}", plain), format!("function without analysable body: {}", self.chain(&name))));
            }
            return;
        };
        let local = krate == self.local;
        if local {
            self.locals.insert(name.clone());
        }
        let mut v = BodyV { w: self, b: &b, name: name.clone(), local };
        v.visit_body(&b);
    }
}
struct BodyV<'a> {
    w: &'a mut Walk,
    b: &'a Body,
    name: String,
    local: bool,
}
impl MirVisitor for BodyV<'_> {
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        match &t.kind {
            TerminatorKind::Drop { place, .. } => {
                if let Ok(ty) = place.ty(self.b.locals()) {
                    let i = Instance::resolve_drop_in_place(ty);
                    if !i.is_empty_shim() {
                        self.w.push(i, &self.name);
                    }
                }
            }
            TerminatorKind::InlineAsm { .. } if self.local => self.w.bad.push((format!("asm|{}", strip_generics(&self.name)), format!("inline assembly in {}", self.w.chain(&self.name)))),
            _ => {}
        }
        self.super_terminator(t, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        match r {
            Rvalue::Cast(CastKind::PointerExposeAddress, ..) if self.local => {
                self.w.bad.push((format!("address|{}", strip_generics(&self.name)), format!("an address is turned into a number in {}", self.w.chain(&self.name))))
            }
            Rvalue::ThreadLocalRef(_) => self.w.bad.push((format!("threadlocal|{}", strip_generics(&self.name)), format!("thread-local state is used in {}", self.w.chain(&self.name)))),
            Rvalue::Aggregate(AggregateKind::Closure(d, args), _) => {
                if let Ok(i) = Instance::resolve_closure(*d, args, ClosureKind::FnOnce) {
                    self.w.push(i, &self.name);
                }
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        let n = self.name.clone();
        self.w.fn_ty(c.ty(), &n);
        let raw = matches!(c.ty().kind(), TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)));
        match c.kind() {
            ConstantKind::Allocated(a) => self.w.allocation(a, raw, &n),
            ConstantKind::Ty(tc) => {
                if let TyConstKind::Value(_, a) = tc.kind() {
                    self.w.allocation(a, raw, &n)
                }
            }
            _ => {}
        }
        self.super_mir_const(c, l);
    }
}
fn walk(r: &mut Rep) -> Walk {
    let local = rustc_public::local_crate().name;
    let mut w = Walk { seen: HashSet::new(), todo: vec![], from: BTreeMap::new(), edges: BTreeMap::new(), locals: BTreeSet::new(), allocs: HashSet::new(), statics: vec![], boundary: BTreeMap::new(), bad: vec![], n_calls: 0, local };
    let mut roots = 0u64;
    for it in rustc_public::all_local_items() {
        if it.kind() == rustc_public::ItemKind::Fn && !it.requires_monomorphization() {
            if let Ok(i) = Instance::try_from(it) {
                roots += 1;
                w.push(i, "");
            }
        }
    }
    while let Some(i) = w.todo.pop() {
        w.visit(i);
    }
    r.count("root functions", roots);
    r.count("functions reached", w.seen.len() as u64);
    r.count("call and function references resolved", w.n_calls);
    r.count("constant and static allocations inspected", w.allocs.len() as u64);
    r.count("statics inspected", w.statics.len() as u64);
    w
}
/// nothing but the arguments can influence a result
fn effects(r: &mut Rep, _: &str) {
    let w = walk(r);
    r.proved += (w.seen.len() as u64).saturating_sub(w.bad.len() as u64);
    for (s, raw, from) in &w.statics {
        let n = s.name();
        let cell = mentions_cell(s.ty(), 0, &mut HashSet::new());
        r.check(!cell && !raw, &format!("static|{}", n), || format!("mutable state shared between calls: static `{}` ({}) is used by {}", n, if *raw { "static mut" } else { "interior mutability" }, w.chain(from)));
    }
    for s in rustc_public::local_crate().statics() {
        let n = s.name();
        let cell = mentions_cell(s.ty(), 0, &mut HashSet::new());
        r.check(!cell, &format!("static|{}", n), || format!("static `{}` has interior mutability", n));
    }
    for (k, t) in &w.bad {
        r.fail(k, t.clone());
    }
    if !w.boundary.is_empty() {
        r.notes.push(format!("parallel operations: {}", w.boundary.iter().map(|(k, v)| format!("{} x{}", k, v)).collect::<Vec<_>>().join(", ")));
    }
}
/// no standard library, no allocator, no recursion
fn footprint(r: &mut Rep, _: &str) {
    let w = walk(r);
    r.proved += (w.seen.len() as u64).saturating_sub(w.bad.len() as u64);
    for (k, t) in w.bad.iter().filter(|b| ["foreign|", "extern|", "virtual|", "unresolved|", "nobody|", "parallel|"].iter().any(|p| b.0.starts_with(p))) {
        r.fail(k, t.clone());
    }
    for c in rustc_public::external_crates() {
        r.count("crates linked", 1);
        r.check(!matches!(c.name.as_str(), "std" | "alloc"), &format!("crate|{}", c.name), || format!("the library links the crate `{}`", c.name));
    }
    // a function of the library that can reach itself
    for f in &w.locals {
        let mut seen: BTreeMap<&String, &String> = BTreeMap::new();
        let mut q = vec![f];
        let mut back = None;
        while let Some(x) = q.pop() {
            for y in w.edges.get(x).into_iter().flatten() {
                if y == f {
                    back = Some(x);
                }
                if let std::collections::btree_map::Entry::Vacant(e) = seen.entry(y) {
                    e.insert(x);
                    q.push(y);
                }
            }
        }
        r.check(back.is_none(), &format!("recursion|{}", strip_generics(f)), || {
            let mut v = vec![f.clone()];
            let mut c = back.unwrap();
            while c != f && v.len() < 20 {
                v.push(c.clone());
                c = seen[c];
            }
            format!("{} can call itself, so the stack it needs is not bounded: called from {}", f, v[1..].iter().chain(v.first()).cloned().collect::<Vec<_>>().join(" <- "))
        });
    }
}
/// no operation of the crate is outside the checked (safe) subset of the language
fn nounsafe(r: &mut Rep, _: &str) {
    for it in rustc_public::all_local_items() {
        let Some(b) = it.body() else { continue };
        let name = it.name();
        let mut v = UnsafeV { b: &b, name: name.clone(), bad: vec![], ops: 0 };
        v.visit_body(&b);
        r.count("bodies inspected", 1);
        r.count("operations inspected", v.ops);
        r.proved += 1;
        for (k, t) in v.bad {
            r.fail(&k, t);
        }
    }
    for i in rustc_public::local_crate().trait_impls() {
        let d = i.trait_impl();
        let td = d.value.def_id;
        let n = td.name();
        r.check(!(n.ends_with("marker::Send") || n.ends_with("marker::Sync")), &format!("impl|{}", n), || format!("hand-written implementation of {}", n));
    }
    for m in rustc_public::local_crate().foreign_modules() {
        let n = m.module().items().len();
        r.check(n == 0, "extern", || format!("extern block with {} items", n));
    }
}
struct UnsafeV<'a> {
    b: &'a Body,
    name: String,
    bad: Vec<(String, String)>,
    ops: u64,
}
impl UnsafeV<'_> {
    fn hit(&mut self, k: &str, what: String, l: &Location) {
        let k = format!("unsafe|{}|{}", strip_generics(&self.name), k);
        if !self.bad.iter().any(|b| b.0 == k) {
            let s = l.span();
            self.bad.push((k, format!("{} in {} at {}", what, self.name, crate::ir::span_str(&s))));
        }
    }
}
impl MirVisitor for UnsafeV<'_> {
    fn visit_place(&mut self, p: &Place, ctx: PlaceContext, l: Location) {
        self.ops += 1;
        let mut cur = self.b.locals()[p.local].ty;
        for e in &p.projection {
            match e {
                ProjectionElem::Deref if cur.kind().is_raw_ptr() => self.hit("deref", "raw pointer dereference".into(), &l),
                ProjectionElem::Field(..) => {
                    if let TyKind::RigidTy(RigidTy::Adt(d, _)) = cur.kind() {
                        if d.kind() == AdtKind::Union {
                            self.hit("union", "union field access".into(), &l);
                        }
                    }
                }
                _ => {}
            }
            match e.ty(cur) {
                Ok(t) => cur = t,
                Err(_) => break,
            }
        }
        self.super_place(p, ctx, l);
    }
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        self.ops += 1;
        match &t.kind {
            TerminatorKind::InlineAsm { .. } => self.hit("asm", "inline assembly".into(), &l),
            TerminatorKind::Call { func, .. } => {
                if let Ok(ty) = func.ty(self.b.locals()) {
                    if let Some(s) = ty.kind().fn_sig() {
                        let n = match ty.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, _)) => d.name(),
                            _ => "a function pointer".into(),
                        };
                        if s.skip_binder().safety == Safety::Unsafe && !n.contains("core::fmt") && !n.contains("std::fmt") {
                            self.hit(&format!("call {}", n), format!("call of unsafe function {}", n), &l);
                        }
                    }
                }
            }
            _ => {}
        }
        self.super_terminator(t, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        self.ops += 1;
        match r {
            Rvalue::Cast(CastKind::Transmute, ..) => self.hit("transmute", "transmute".into(), &l),
            Rvalue::ThreadLocalRef(_) => {}
            _ => {}
        }
        self.super_rvalue(r, l);
    }
}
