//! Gated value-graph abstract interpreter over the IR: one abstract state per program point, joins
//! build gated values, loops are unrolled while their exits stay decided (or few) and generalised
//! to an arbitrary iteration otherwise.
use crate::flt::*;
use crate::ir::*;
use crate::poly::*;
use crate::prove::*;
use rustc_public::mir::{BinOp, CastKind, UnOp};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type Reg = usize;
pub const GLOB: usize = 1 << 40;
pub const SYM: usize = 1 << 41;
pub const NONE: usize = usize::MAX;
pub const RET: usize = usize::MAX;

#[derive(Clone, Debug)]
pub struct Pv {
    pub reg: Reg,
    pub off: P,
    pub meta: Option<P>,
    pub nn: P,
}
pub type Cell = (u64, u64, Val);
#[derive(Clone)]
pub enum Val {
    Undef,
    Int(P),
    F(F),
    Ptr(Rc<Pv>),
    Alt(P, Rc<(Val, Val)>),
    Agg(Rc<Vec<Cell>>),
    Fn(FnId),
    Top(Taint),
}
#[derive(Clone)]
pub struct Region {
    pub cells: Vec<Cell>,
}
#[derive(Clone)]
pub struct State {
    pub env: Rc<Env>,
    pub path: Vec<P>,
    pub mem: Vec<Option<Rc<Region>>>,
}
#[derive(Clone)]
pub struct Event {
    pub reg: Reg,
    pub off: P,
    pub size: u64,
    pub val: Val,
    pub env: Rc<Env>,
    pub path: Vec<P>,
    pub span: String,
    pub call: Option<Rc<CallEv>>,
}
pub struct CallEv {
    pub name: String,
    pub args: Vec<Val>,
    /// contents behind pointer arguments at call time (aggregates)
    pub deref: Vec<Option<Val>>,
}
#[derive(Clone, Debug)]
pub struct Ob {
    pub func: String,
    pub span: String,
    pub what: String,
    pub ok: bool,
    pub detail: String,
}
#[derive(Debug)]
pub enum Stop {
    Fatal(String),
}
pub type R<T> = Result<T, Stop>;

pub enum GlobK {
    Raw { bytes: Vec<Option<u8>>, ptrs: Vec<(u64, rustc_public::mir::alloc::AllocId)> },
    Fn(FnId),
    Opaque,
}
thread_local! { static SYM_UID: std::cell::Cell<u32> = std::cell::Cell::new(0); static SYM_NAMES: std::cell::RefCell<HashSet<String>> = Default::default(); }
pub struct SymBuf {
    pub uid: u32,
    pub name: String,
    pub bits: bool,
    pub taint: Taint,
    /// labels per byte offset (constant offsets only)
    pub taint_at: BTreeMap<u64, Taint>,
    /// assume reading after a write at the same place gives unknown
    pub writable: bool,
    pub written: bool,
    pub init: HashMap<u64, P>,
}
pub struct Fr {
    pub f: Rc<Func>,
    pub base: Reg,
}
pub struct Cx {
    pub prog: Prog,
    pub globs: Vec<GlobK>,
    glob_ix: HashMap<rustc_public::mir::alloc::AllocId, Reg>,
    pub syms: Vec<SymBuf>,
    pub events: Vec<Event>,
    pub obs: Vec<Ob>,
    pub quiet: u32,
    pub steps: u64,
    pub max_steps: u64,
    pub unroll_steps: u64,
    pub stack: Vec<(FnId, usize)>,
    pub opaque: Vec<Box<dyn Fn(&str, &Func) -> bool>>,
    pub opaque_names: HashSet<FnId>,
    pub opaque_seen: HashMap<FnId, bool>,
    gen_memo: HashSet<(FnId, usize, u64)>,
    pub can_ret: HashMap<FnId, Rc<Vec<bool>>>,
    pub fn_seen: BTreeMap<String, u64>,
    pub calls: BTreeMap<String, u64>,
    pub blocks: HashSet<(FnId, usize)>,
    pub loops_general: HashSet<(FnId, usize)>,
    pub merges: u64,
    pub trace: bool,
    pub trace_calls: bool,
    pub depth_prove: u32,
    /// stop at the first loop exit that hangs on one named value
    pub discover: bool,
    pub loop_tests: Vec<Atom>,
    /// called on unknown functions: havoc instead of failing
    pub lenient: bool,
    pub unknown: Vec<String>,
    pub loop_taint: Vec<Taint>,
    pub vpin: HashMap<String, i128>,
    pub intr_fallback: Option<FnId>,
    konst_cache: HashMap<usize, Val>,
    /// generalised loops: iteration atom -> conditions under which an iteration leaves the loop
    pub loop_recs: HashMap<Atom, Rc<Vec<Vec<P>>>>,
    /// a filtering `next` is being called: its loop hands back rejected elements, to memory this deep
    yield_on: Option<usize>,
    yielded: Vec<State>,
    /// the ways out of the frame at this depth are kept apart
    keep: Option<usize>,
    kept: Vec<(State, Val)>,
}

pub fn iv(c: i128) -> Val {
    Val::Int(konst(c))
}
pub fn int_range(bits: u32, signed: bool) -> (i128, i128) {
    if bits >= 128 {
        return if signed { (-IMAX, IMAX) } else { (0, IMAX) };
    }
    if signed {
        (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
    } else {
        (0, (1i128 << bits) - 1)
    }
}
pub fn val_taint(v: &Val) -> Taint {
    match v {
        Val::Int(p) => poly_taint(p),
        Val::F(f) => f.taint,
        Val::Ptr(p) => poly_taint(&p.off) | p.meta.as_ref().map_or(0, |m| poly_taint(m)) | poly_taint(&p.nn),
        Val::Alt(c, x) => poly_taint(c) | val_taint(&x.0) | val_taint(&x.1),
        Val::Agg(v) => v.iter().fold(0, |t, c| t | val_taint(&c.2)),
        Val::Top(t) => *t,
        _ => 0,
    }
}
pub fn same_val(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Undef, Val::Undef) => true,
        (Val::Int(x), Val::Int(y)) => Rc::ptr_eq(x, y) || x == y,
        (Val::F(x), Val::F(y)) => x.id == y.id,
        (Val::Ptr(x), Val::Ptr(y)) => Rc::ptr_eq(x, y) || (x.reg == y.reg && x.off == y.off && x.meta == y.meta && x.nn == y.nn),
        (Val::Fn(x), Val::Fn(y)) => x == y,
        (Val::Top(x), Val::Top(y)) => x == y,
        (Val::Agg(x), Val::Agg(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && same_val(&a.2, &b.2))),
        (Val::Alt(c, x), Val::Alt(d, y)) => c == d && same_val(&x.0, &y.0) && same_val(&x.1, &y.1),
        _ => false,
    }
}
pub fn ptr(reg: Reg, off: P, meta: Option<P>) -> Val {
    Val::Ptr(Rc::new(Pv { reg, off, meta, nn: konst(1) }))
}
/// byte j of an integer value
fn byte_of(p: &P, j: u64, size: u64, e: &Env) -> P {
    let (lo, _) = range(p, e);
    let p = if lo < 0 { mod_const(p, 1i128 << (8 * size), e) } else { p.clone() };
    if let Some(b) = bit_view(&p, 8 * (j as u32 + 1), e, true) {
        if b.len() >= 8 * (j as usize + 1) {
            return from_bits(&b[8 * j as usize..8 * (j as usize + 1)]);
        }
    }
    mod_const(&div_const(&p, 1i128 << (8 * j), e), 256, e)
}
pub fn as_p(v: &Val, size: u64) -> Option<P> {
    match v {
        Val::Int(p) => Some(p.clone()),
        Val::F(f) => Some(match as_const(f) {
            Some(x) if f.lo == f.hi => konst(if f.bits == 32 { (x as f32).to_bits() as i128 } else { x.to_bits() as i128 }),
            _ => derived(AKind::FBits(f.clone()), 0, if f.bits == 32 { u32::MAX as i128 } else { u64::MAX as i128 }),
        }),
        Val::Ptr(p) => Some(fresh(AKind::Phi, 0, u64::MAX as i128, val_taint(&Val::Ptr(p.clone())))),
        Val::Top(t) => Some(fresh(AKind::Phi, 0, int_range(8 * size.min(15) as u32, false).1, *t)),
        Val::Alt(c, x) => {
            let (a, b) = (as_p(&x.0, size)?, as_p(&x.1, size)?);
            Some(ite(c, &a, &b))
        }
        _ => None,
    }
}
fn cell_find(c: &[Cell], off: u64) -> usize {
    c.partition_point(|x| x.0 + x.1 <= off && x.1 > 0 || x.0 < off && x.1 == 0)
}
impl Region {
    pub fn new() -> Region {
        Region { cells: vec![] }
    }
    /// cells of [off, off+size), clipped, relative to off
    pub fn window(&self, off: u64, size: u64, e: &Env) -> Vec<Cell> {
        let mut out = vec![];
        let mut i = cell_find(&self.cells, off);
        while i < self.cells.len() && self.cells[i].0 < off + size {
            let (o, s, v) = &self.cells[i];
            if *o >= off && o + s <= off + size {
                out.push((o - off, *s, v.clone()));
            } else {
                // partial overlap: split to bytes
                for b in 0..*s {
                    if o + b >= off && o + b < off + size {
                        out.push((o + b - off, 1, Val::Int(match as_p(v, *s) {
                            Some(p) => byte_of(&p, b, *s, e),
                            None => fresh(AKind::Phi, 0, 255, val_taint(v)),
                        })));
                    }
                }
            }
            i += 1;
        }
        out
    }
    pub fn clear(&mut self, off: u64, size: u64, e: &Env) {
        let i = cell_find(&self.cells, off);
        let mut j = i;
        let mut keep: Vec<Cell> = vec![];
        while j < self.cells.len() && self.cells[j].0 < off + size {
            let (o, s, v) = self.cells[j].clone();
            if o < off || o + s > off + size {
                if let Val::Ptr(p) = &v {
                    // keep the other half of a fat pointer
                    if s == 16 && off == o && size == 8 {
                        if let Some(m) = &p.meta {
                            keep.push((o + 8, 8, Val::Int(m.clone())));
                        }
                        j += 1;
                        continue;
                    }
                    if s == 16 && off == o + 8 {
                        keep.push((o, 8, Val::Ptr(Rc::new(Pv { meta: None, ..(**p).clone() }))));
                        j += 1;
                        continue;
                    }
                }
                for b in 0..s {
                    if o + b < off || o + b >= off + size {
                        keep.push((o + b, 1, Val::Int(match as_p(&v, s) {
                            Some(p) => byte_of(&p, b, s, e),
                            None => fresh(AKind::Phi, 0, 255, val_taint(&v)),
                        })));
                    }
                }
            }
            j += 1;
        }
        self.cells.splice(i..j, keep);
    }
    pub fn put(&mut self, off: u64, size: u64, v: Val, e: &Env) {
        // fast path: same slot
        let i = cell_find(&self.cells, off);
        if i < self.cells.len() && self.cells[i].0 == off && self.cells[i].1 == size && !matches!(v, Val::Agg(_)) {
            self.cells[i].2 = v;
            return;
        }
        self.clear(off, size, e);
        let i = cell_find(&self.cells, off);
        match v {
            Val::Agg(cs) => {
                let add: Vec<Cell> = cs.iter().map(|(o, s, v)| (off + o, *s, v.clone())).collect();
                self.cells.splice(i..i, add);
            }
            Val::Undef => {}
            v => self.cells.insert(i, (off, size, v)),
        }
    }
}

fn val_under(v: &Val, e: &Env, gain: &mut bool) -> Option<Val> {
    match v {
        Val::Int(p) => {
            let q = simp(p, e);
            *gain |= q != *p;
            Some(Val::Int(q))
        }
        Val::Agg(c) => {
            let mut out = vec![];
            for (o, s, v) in c.iter() {
                out.push((*o, *s, val_under(v, e, gain)?));
            }
            Some(Val::Agg(Rc::new(out)))
        }
        _ => None,
    }
}
/// the value selected by an offset that is itself a choice between constants: each candidate simplified under
/// the choices that lead to it (None: not such an offset)
fn select_by_gates(off: &P, vals: &[(i128, Val)], e: &Env, fuel: &mut u32, gain: &mut bool) -> Option<Val> {
    if *fuel == 0 {
        return None;
    }
    *fuel -= 1;
    if let Some(k) = off.is_const() {
        let (_, v) = vals.iter().find(|x| x.0 == k)?;
        return val_under(v, e, gain);
    }
    let mut g = None;
    for a in off.atoms() {
        match atom_kind(a) {
            AKind::Named(d) => return select_by_gates(&simp(&subst(off, a, &d), e), vals, e, fuel, gain),
            AKind::Ite(c, ..) => {
                g = Some(c);
                break;
            }
            _ if atom_range(a) == (0, 1) => g = g.or(Some(atom(a))),
            AKind::Bool(c) => g = g.or(Some(c)),
            _ => return None,
        }
    }
    let g = g?;
    let mut out = vec![];
    for t in [true, false] {
        let mut f = e.clone();
        assume(&g, t, &mut f);
        if f.dead {
            continue;
        }
        let o = simp(off, &f);
        if o == *off {
            return None;
        }
        out.push(select_by_gates(&o, vals, &f, fuel, gain)?);
    }
    match &out[..] {
        [a] => Some(a.clone()),
        [a, b] => Some(ite_val(&g, a, b, e)),
        _ => None,
    }
}
pub fn ite_val(c: &P, a: &Val, b: &Val, e: &Env) -> Val {
    if let Some(k) = c.is_const() {
        return if k != 0 { a.clone() } else { b.clone() };
    }
    if same_val(a, b) {
        return a.clone();
    }
    match (a, b) {
        (Val::Undef, x) | (x, Val::Undef) => x.clone(),
        (Val::Int(x), Val::Int(y)) => Val::Int(name_small(ite_e(c, x, y, e), x, y)),
        (Val::F(x), Val::F(y)) if x.bits == y.bits => Val::F(fite(c, x, y, e)),
        (Val::Ptr(x), Val::Ptr(y)) if x.reg == y.reg && x.meta.is_some() == y.meta.is_some() => Val::Ptr(Rc::new(Pv {
            reg: x.reg,
            off: ite_e(c, &x.off, &y.off, e),
            meta: match (&x.meta, &y.meta) {
                (Some(m), Some(n)) => Some(ite_e(c, m, n, e)),
                _ => None,
            },
            nn: ite_e(c, &x.nn, &y.nn, e),
        })),
        (Val::Ptr(x), Val::Int(z)) if z.is_const() == Some(0) => Val::Ptr(Rc::new(Pv { nn: and(&x.nn, c), ..(**x).clone() })),
        (Val::Int(z), Val::Ptr(x)) if z.is_const() == Some(0) => Val::Ptr(Rc::new(Pv { nn: and(&x.nn, &not(c)), ..(**x).clone() })),
        (Val::Ptr(_), Val::Int(_)) | (Val::Int(_), Val::Ptr(_)) | (Val::Ptr(_), Val::Ptr(_)) | (Val::Alt(..), _) | (_, Val::Alt(..)) => Val::Alt(c.clone(), Rc::new((a.clone(), b.clone()))),
        (Val::Agg(x), Val::Agg(y)) => Val::Agg(Rc::new(merge_cells(c, x, y, e))),
        (Val::Fn(_), Val::Fn(_)) => Val::Alt(c.clone(), Rc::new((a.clone(), b.clone()))),
        _ => Val::Top(val_taint(a) | val_taint(b) | poly_taint(c)),
    }
}
/// small values that differ from the other branch's, with what is known on their own
fn on_path(x: &[Cell], y: &[Cell], e: &Env) -> Option<Vec<Cell>> {
    if !ON_PATH.with(|n| n.get()) {
        return None;
    }
    let mut out: Option<Vec<Cell>> = None;
    for (i, c) in x.iter().enumerate() {
        let Val::Int(p) = &c.2 else { continue };
        if p.is_const().is_some() || p.ts.len() > 3 {
            continue;
        }
        match y.binary_search_by_key(&c.0, |d| d.0) {
            Ok(j) if !same_val(&c.2, &y[j].2) => {
                let mut q = simp(p, e);
                while let Some((k, a, c)) = q.as_affine() {
                    let mut d = match atom_kind(a) {
                        AKind::Named(d) => d,
                        _ => atom(a),
                    };
                    let mut went = false;
                    while let Some((k, a, c)) = d.as_affine() {
                        let AKind::Ite(g, x, y) = atom_kind(a) else { break };
                        let Some(v) = simp(&g, e).is_const() else { break };
                        d = addc(&scale(if v != 0 { &x } else { &y }, k), c);
                        went = true;
                    }
                    if !went {
                        break;
                    }
                    q = simp(&addc(&scale(&d, k), c), e);
                }
                let (l, h) = range(p, e);
                let (ql, qh) = range(&q, e);
                if q != *p && ql >= l && qh <= h {
                    out.get_or_insert_with(|| x.to_vec())[i].2 = Val::Int(q);
                }
            }
            _ => {}
        }
    }
    out
}
pub fn merge_cells(c: &P, x: &[Cell], y: &[Cell], e: &Env) -> Vec<Cell> {
    let mut out: Vec<Cell> = Vec::with_capacity(x.len().max(y.len()));
    let (mut i, mut j) = (0, 0);
    while i < x.len() || j < y.len() {
        if i >= x.len() {
            out.push(y[j].clone());
            j += 1;
            continue;
        }
        if j >= y.len() {
            out.push(x[i].clone());
            i += 1;
            continue;
        }
        let (a, b) = (&x[i], &y[j]);
        if a.0 == b.0 && a.1 == b.1 {
            out.push((a.0, a.1, ite_val(c, &a.2, &b.2, e)));
            i += 1;
            j += 1;
        } else if a.0 + a.1 <= b.0 {
            out.push(a.clone());
            i += 1;
        } else if b.0 + b.1 <= a.0 {
            out.push(b.clone());
            j += 1;
        } else {
            // overlapping shapes: bring the whole overlapping run to bytes
            let start = a.0.min(b.0);
            let mut end = (a.0 + a.1).max(b.0 + b.1);
            let (i0, j0) = (i, j);
            loop {
                let mut grew = false;
                while i < x.len() && x[i].0 < end {
                    end = end.max(x[i].0 + x[i].1);
                    i += 1;
                    grew = true;
                }
                while j < y.len() && y[j].0 < end {
                    end = end.max(y[j].0 + y[j].1);
                    j += 1;
                    grew = true;
                }
                if !grew {
                    break;
                }
            }
            let rx = Region { cells: x[i0..i].to_vec() };
            let ry = Region { cells: y[j0..j].to_vec() };
            // a fat pointer against a null tag (the other half is padding)
            let nullish = |v: &[Cell]| -> bool { v[0].0 == start && v[0].1 == 8 && matches!(&v[0].2, Val::Int(p) if p.is_const() == Some(0)) && v.iter().all(|c| c.0 + c.1 <= start + 16) };
            let fat = |v: &[Cell]| -> bool { v.len() == 1 && v[0].0 == start && v[0].1 == 16 && matches!(&v[0].2, Val::Ptr(p) if p.meta.is_some()) };
            if end - start == 16 {
                let (cx, cy) = (&x[i0..i], &y[j0..j]);
                if fat(cx) && nullish(cy) {
                    out.push((start, 16, ite_val(c, &cx[0].2, &Val::Int(konst(0)), e)));
                    continue;
                }
                if fat(cy) && nullish(cx) {
                    out.push((start, 16, ite_val(c, &Val::Int(konst(0)), &cy[0].2, e)));
                    continue;
                }
            }
            let any_ptr = x[i0..i].iter().chain(y[j0..j].iter()).any(|c| matches!(c.2, Val::Ptr(_) | Val::Alt(..) | Val::Top(_) | Val::Fn(_)));
            if any_ptr {
                let t = x[i0..i].iter().chain(y[j0..j].iter()).fold(poly_taint(c), |t, c| t | val_taint(&c.2));
                out.push((start, end - start, Val::Top(t)));
                continue;
            }
            for o in start..end {
                let wx = rx.window(o, 1, e);
                let wy = ry.window(o, 1, e);
                let vx = wx.first().map(|c| c.2.clone()).unwrap_or(Val::Undef);
                let vy = wy.first().map(|c| c.2.clone()).unwrap_or(Val::Undef);
                match ite_val(c, &vx, &vy, e) {
                    Val::Undef => {}
                    v => out.push((o, 1, v)),
                }
            }
        }
    }
    out
}

impl State {
    pub fn new() -> State {
        State { env: Rc::new(Env::default()), path: vec![], mem: vec![] }
    }
    pub fn envm(&mut self) -> &mut Env {
        Rc::make_mut(&mut self.env)
    }
    pub fn alloc(&mut self) -> Reg {
        self.mem.push(Some(Rc::new(Region::new())));
        self.mem.len() - 1
    }
    /// assume and record a branch condition
    pub fn cond(&mut self, c: &P) {
        if c.is_const() == Some(1) {
            return;
        }
        self.path.push(c.clone());
        assume(c, true, self.envm());
    }
}

fn merge_env(a: &Rc<Env>, b: &Rc<Env>) -> Rc<Env> {
    if Rc::ptr_eq(a, b) || a.ver == b.ver {
        return a.clone();
    }
    let mut e = Env::default();
    for (k, (l, h)) in &a.r {
        if let Some((l2, h2)) = b.r.get(k) {
            let (nl, nh) = ((*l).min(*l2), (*h).max(*h2));
            if (nl, nh) != atom_range(*k) {
                e.refine(*k, nl, nh);
            }
        } else if let Some(d) = b.defs.get(k) {
            let (l2, h2) = range(d, b);
            let (nl, nh) = ((*l).min(l2), (*h).max(h2));
            e.refine(*k, nl, nh);
        }
    }
    for (k, d) in &a.defs {
        if b.defs.get(k) == Some(d) {
            e.define(*k, d.clone());
        } else if let Some((l2, h2)) = b.r.get(k) {
            let (l, h) = range(d, a);
            e.refine(*k, l.min(*l2), h.max(*h2));
        }
    }
    let bf: HashSet<&P> = b.facts.iter().collect();
    // the weaker of two facts over the same terms holds on both sides
    e.facts = a.facts.iter().filter_map(|f| if bf.contains(f) { Some(f.clone()) } else { b.facts.iter().find(|g| g.ts == f.ts).map(|g| if g.c > f.c { g.clone() } else { f.clone() }) }).collect();
    let bn: HashSet<&P> = b.neqs.iter().collect();
    e.neqs = a.neqs.iter().filter(|f| bn.contains(f)).cloned().collect();
    for (k, v) in &a.pc {
        if b.pc.get(k) == Some(v) {
            e.pc.insert(k.clone(), *v);
        }
    }
    for (k, (l, h, n)) in &a.fr {
        if let Some((l2, h2, n2)) = b.fr.get(k) {
            e.fr.insert(*k, (l.min(*l2), h.max(*h2), *n || *n2));
        }
    }
    for (k, m) in &a.frel {
        if let Some(m2) = b.frel.get(k) {
            e.frel.insert(*k, m | m2);
        }
    }
    e.bloom = a.bloom | b.bloom;
    if !(e.r.is_empty() && e.defs.is_empty() && e.facts.is_empty() && e.neqs.is_empty() && e.pc.is_empty() && e.fr.is_empty() && e.frel.is_empty()) {
        e.touch();
    } else {
        e.ver = 0;
        e.bloom = 0;
    }
    Rc::new(e)
}
fn hash_stack(s: &[(FnId, usize)]) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
fn conj(v: &[P]) -> P {
    let mut r = konst(1);
    for c in v {
        r = and(&r, c);
    }
    r
}

impl Cx {
    pub fn new() -> Cx {
        Cx {
            prog: Prog::default(),
            globs: vec![],
            glob_ix: HashMap::new(),
            syms: vec![],
            events: vec![],
            obs: vec![],
            quiet: 0,
            steps: 0,
            max_steps: 400_000_000,
            unroll_steps: 400_000,
            stack: vec![],
            opaque: vec![],
            opaque_names: HashSet::new(),
            opaque_seen: HashMap::new(),
            gen_memo: HashSet::new(),
            can_ret: HashMap::new(),
            fn_seen: BTreeMap::new(),
            calls: BTreeMap::new(),
            blocks: HashSet::new(),
            loops_general: HashSet::new(),
            merges: 0,
            trace: std::env::var("TXA_LOOPS").is_ok(),
            trace_calls: std::env::var("TXA_TRACE").is_ok(),
            depth_prove: 6,
            discover: false,
            loop_tests: vec![],
            lenient: false,
            unknown: vec![],
            loop_taint: vec![],
            vpin: HashMap::new(),
            intr_fallback: None,
            konst_cache: HashMap::new(),
            loop_recs: HashMap::new(),
            yield_on: None,
            yielded: vec![],
            keep: None,
            kept: vec![],
        }
    }
    pub fn fatal<T>(&self, m: String) -> R<T> {
        let st: Vec<String> = self.stack.iter().rev().take(12).map(|(f, b)| format!("{}@{}", self.prog.fns[*f].name, b)).collect();
        Err(Stop::Fatal(format!("{} in [{}]", m, st.join(" <- "))))
    }
    pub fn new_sym(&mut self, name: &str, bits: bool, taint: Taint, writable: bool) -> Reg {
        // one name per buffer, also across analyses: reads are identified by it
        let uid = SYM_UID.with(|u| {
            let v = u.get();
            u.set(v + 1);
            v
        });
        let name = if SYM_NAMES.with(|n| n.borrow_mut().insert(name.to_string())) { name.to_string() } else { format!("{}'{}", name, uid) };
        self.syms.push(SymBuf { uid, name, bits, taint, taint_at: BTreeMap::new(), writable, written: false, init: HashMap::new() });
        SYM + self.syms.len() - 1
    }
    /// the symbolic byte of a buffer at an offset
    pub fn sym_byte(&mut self, s: usize, off: &P) -> P {
        let b = &self.syms[s];
        if let Some(k) = off.is_const() {
            if let Some(p) = b.init.get(&(k as u64)) {
                return p.clone();
            }
        }
        let t = match off.is_const() {
            Some(k) => b.taint_at.get(&(k as u64)).copied().unwrap_or(b.taint),
            None => b.taint | b.taint_at.values().fold(0, |a, b| a | b) | poly_taint(off),
        };
        if b.bits {
            let mut bits = vec![];
            for j in 0..8 {
                let k = AKind::Op(format!("{}.{}", b.name, j), vec![off.clone()]);
                bits.push(hc_base(kind_key(&k), k, 0, 1, t));
            }
            from_bits(&bits)
        } else {
            let k = AKind::Sel(b.uid, off.clone());
            hc_base(kind_key(&k), k, 0, 255, t)
        }
    }
    pub fn glob(&mut self, id: rustc_public::mir::alloc::AllocId) -> Reg {
        if let Some(r) = self.glob_ix.get(&id) {
            return *r;
        }
        use rustc_public::mir::alloc::GlobalAlloc;
        let g = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => GlobK::Raw { bytes: a.bytes.clone(), ptrs: a.provenance.ptrs.iter().map(|(o, p)| (*o as u64, p.0)).collect() },
            GlobalAlloc::Static(s) => match s.eval_initializer() {
                Ok(a) => GlobK::Raw { bytes: a.bytes.clone(), ptrs: a.provenance.ptrs.iter().map(|(o, p)| (*o as u64, p.0)).collect() },
                Err(_) => GlobK::Opaque,
            },
            GlobalAlloc::Function(i) => GlobK::Fn(self.prog.fn_id(i)),
            _ => GlobK::Opaque,
        };
        self.globs.push(g);
        let r = GLOB + self.globs.len() - 1;
        self.glob_ix.insert(id, r);
        r
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.prog.size(t)
    }
    /// scalar leaves of a type; None when it has an enum/union inside
    pub fn leaves(&self, t: TyId, base: u64, out: &mut Vec<(u64, TyId)>) -> bool {
        let ti = self.prog.t(t);
        match &ti.kind {
            TK::Agg { variants, en: None, .. } => variants[0].iter().all(|(o, ft)| self.leaves(*ft, base + o, out)),
            TK::Agg { variants, en: Some(e), .. } => {
                if variants.iter().all(|v| v.iter().all(|f| self.size(f.1) == 0)) {
                    if e.tag_size > 0 {
                        out.push((base + e.tag_off, t));
                    }
                    return true;
                }
                false
            }
            TK::Array { elem, len } => {
                let s = self.size(*elem);
                if s == 0 {
                    return true;
                }
                (0..*len).all(|i| self.leaves(*elem, base + i * s, out))
            }
            TK::FnDef | TK::Never => true,
            TK::Other | TK::Str | TK::Slice { .. } | TK::Dyn => false,
            _ => {
                out.push((base, t));
                true
            }
        }
    }
    fn is_scalar(&self, t: TyId) -> bool {
        matches!(self.prog.t(t).kind, TK::Int { .. } | TK::Bool | TK::Char | TK::Float(_) | TK::Ptr { .. } | TK::FnPtr)
    }
    pub fn havoc_pub(&mut self, t: TyId, taint: Taint) -> Val {
        self.havoc(t, taint)
    }
    pub fn havoc(&mut self, t: TyId, taint: Taint) -> Val {
        let ti = self.prog.t(t);
        match &ti.kind {
            TK::Int { bits, signed } => {
                let (l, h) = int_range(*bits, *signed);
                Val::Int(fresh(AKind::Phi, l, h, taint))
            }
            TK::Bool => Val::Int(fresh(AKind::Phi, 0, 1, taint)),
            TK::Char => Val::Int(fresh(AKind::Phi, 0, 0x10ffff, taint)),
            TK::Float(b) => Val::F(ftop(*b, taint)),
            TK::Agg { .. } | TK::Array { .. } => {
                let mut l = vec![];
                if self.leaves(t, 0, &mut l) {
                    let mut cs = vec![];
                    for (o, lt) in l {
                        let s = self.size(lt);
                        let v = match &self.prog.t(lt).kind {
                            TK::Agg { en: Some(e), .. } => {
                                let hi = e.discrs.iter().max().copied().unwrap_or(0) as i128;
                                cs.push((o, e.tag_size, Val::Int(fresh(AKind::Phi, 0, hi, taint))));
                                continue;
                            }
                            _ => self.havoc(lt, taint),
                        };
                        cs.push((o, s, v));
                    }
                    Val::Agg(Rc::new(cs))
                } else {
                    Val::Top(taint)
                }
            }
            _ => Val::Top(taint),
        }
    }
    /// typed view of a value loaded from memory
    pub fn retype(&mut self, v: Val, t: TyId, e: &Env) -> Val {
        let ti = self.prog.t(t);
        match (&ti.kind, v) {
            (TK::Int { bits, signed }, v @ (Val::Int(_) | Val::F(_) | Val::Top(_))) => {
                let p = as_p(&v, *bits as u64 / 8).unwrap();
                let (lo, hi) = int_range(*bits, *signed);
                let (l, h) = range(&p, e);
                if l >= lo && h <= hi {
                    return Val::Int(p);
                }
                Val::Int(self.wrap(&p, *bits, *signed, e))
            }
            (TK::Int { bits, signed }, Val::Ptr(p)) => {
                let (l, h) = int_range(*bits, *signed);
                if p.reg == NONE {
                    return Val::Int(p.off.clone());
                }
                Val::Int(fresh(AKind::Phi, l, h, val_taint(&Val::Ptr(p))))
            }
            (TK::Bool, Val::Top(t)) => Val::Int(fresh(AKind::Phi, 0, 1, t)),
            (TK::Float(b), Val::Int(p)) => Val::F(from_bits_f(&p, *b)),
            (TK::Float(b), Val::Top(t)) => Val::F(ftop(*b, t)),
            (TK::Float(b), Val::Undef) => Val::F(ftop(*b, 0)),
            (TK::Ptr { fat, .. }, Val::Ptr(p)) if *fat == Fat::No && p.meta.is_some() => Val::Ptr(Rc::new(Pv { meta: None, ..(*p).clone() })),
            (_, Val::Alt(c, x)) => {
                let a = self.retype(x.0.clone(), t, e);
                let b = self.retype(x.1.clone(), t, e);
                ite_val(&c, &a, &b, e)
            }
            (_, v) => v,
        }
    }
    pub fn wrap(&mut self, p: &P, bits: u32, signed: bool, e: &Env) -> P {
        let (lo, hi) = int_range(bits, signed);
        let p = simp(p, e);
        let (l, h) = range_sq(&p, e);
        if l >= lo && h <= hi {
            return p;
        }
        if bits >= 128 {
            return fresh(AKind::Phi, lo, hi, poly_taint(&p));
        }
        let (l, h) = range_alts(&p, e, &mut 40);
        if l >= lo && h <= hi {
            return p;
        }
        // facts may bound it
        if prove_ge(&addc(&p, -lo), e, 0) && prove_ge(&addc(&neg(&p), hi), e, 0) {
            return p;
        }
        let m = 1i128 << bits;
        if signed {
            let q = mod_const(&addc(&p, 1i128 << (bits - 1)), m, e);
            addc(&q, -(1i128 << (bits - 1)))
        } else {
            mod_const(&p, m, e)
        }
    }
    fn raw_read(&mut self, r: Reg, off: u64, t: TyId) -> R<Val> {
        let s = self.size(t);
        if s == 0 {
            return Ok(Val::Agg(Rc::new(vec![])));
        }
        let ti = self.prog.t(t);
        let (raw, has_ptr) = match &self.globs[r - GLOB] {
            GlobK::Raw { bytes, ptrs } => {
                if (off + s) as usize > bytes.len() {
                    return self.fatal(format!("constant read out of bounds {} + {}", off, s));
                }
                (bytes[off as usize..(off + s) as usize].to_vec(), ptrs.iter().filter(|(o, _)| *o >= off && *o < off + s).cloned().collect::<Vec<_>>())
            }
            GlobK::Fn(_) | GlobK::Opaque => return Ok(self.havoc(t, 0)),
        };
        let num = |b: &[Option<u8>]| -> i128 { b.iter().enumerate().fold(0u128, |x, (i, b)| x | ((b.unwrap_or(0) as u128) << (8 * i))) as i128 };
        match &ti.kind {
            TK::Int { bits, signed } if has_ptr.is_empty() => {
                let v = num(&raw);
                let v = if *signed && *bits < 128 { (v << (128 - bits)) >> (128 - bits) } else { v };
                Ok(iv(v))
            }
            TK::Bool | TK::Char => Ok(iv(num(&raw))),
            TK::Float(32) => Ok(Val::F(fconst(f32::from_bits(num(&raw) as u32) as f64, 32))),
            TK::Float(_) => Ok(Val::F(fconst(f64::from_bits(num(&raw) as u64), 64))),
            TK::Ptr { fat, .. } => {
                let o = num(&raw[..8]);
                let meta = match fat {
                    Fat::No => None,
                    Fat::Slice => Some(konst(num(&raw[8..16]))),
                    Fat::Dyn => Some(konst(0)),
                };
                match has_ptr.iter().find(|(x, _)| *x == off) {
                    Some((_, id)) => {
                        let g = self.glob(*id);
                        Ok(ptr(g, konst(o), meta))
                    }
                    None if o == 0 => Ok(iv(0)),
                    None => Ok(ptr(NONE, konst(o), meta)),
                }
            }
            TK::FnPtr => match has_ptr.first() {
                Some((_, id)) => {
                    let g = self.glob(*id);
                    match &self.globs[g - GLOB] {
                        GlobK::Fn(f) => Ok(Val::Fn(*f)),
                        _ => Ok(Val::Top(0)),
                    }
                }
                None => Ok(Val::Top(0)),
            },
            TK::Array { elem, len } => {
                let es = self.size(*elem);
                let mut cs = vec![];
                for i in 0..*len {
                    let v = self.raw_read(r, off + i * es, *elem)?;
                    push_cells(&mut cs, i * es, es, v);
                }
                Ok(Val::Agg(Rc::new(cs)))
            }
            TK::Agg { variants, en, .. } => {
                let mut cs = vec![];
                let vi = match en {
                    None => 0,
                    Some(e) => match e.single {
                        Some(v) => v,
                        None => {
                            let to = e.tag_off as usize;
                            let tagv = num(&raw[to..to + e.tag_size as usize]);
                            let tag_ptr = has_ptr.iter().any(|(x, _)| *x == off + e.tag_off);
                            let vi = match &e.enc {
                                Enc::Direct => e.discrs.iter().position(|d| *d as i128 & ((1i128 << (8 * e.tag_size)) - 1) == tagv).unwrap_or(0),
                                Enc::Niche { untagged, lo, hi, start } => {
                                    let m = (1i128 << (8 * e.tag_size)) - 1;
                                    let rel = (tagv - *start as i128) & m;
                                    if !tag_ptr && rel <= (*hi - *lo) as i128 {
                                        *lo + rel as usize
                                    } else {
                                        *untagged
                                    }
                                }
                            };
                            let is_untagged = matches!(&e.enc, Enc::Niche{untagged,..} if *untagged == vi);
                            if !is_untagged {
                                cs.push((e.tag_off, e.tag_size, iv(tagv)));
                            }
                            vi
                        }
                    },
                };
                if let Some(fs) = variants.get(vi) {
                    let mut fs = fs.clone();
                    fs.sort();
                    for (o, ft) in fs {
                        let fsz = self.size(ft);
                        if fsz == 0 {
                            continue;
                        }
                        let v = self.raw_read(r, off + o, ft)?;
                        push_cells(&mut cs, o, fsz, v);
                    }
                }
                cs.sort_by_key(|c| c.0);
                Ok(Val::Agg(Rc::new(cs)))
            }
            _ => Ok(self.havoc(t, 0)),
        }
    }
    /// offsets (within a stride) a symbolic offset may take
    fn candidates(&self, off: &P, e: &Env) -> Option<Vec<i128>> {
        let off = simp(off, e);
        let (lo, hi) = range(&off, e);
        let g = align_of(&sub(&off, &konst(off.c)));
        let g = if g == 0 { 1 } else { g };
        if hi - lo > 1 << 16 || (hi - lo) / g > 4096 {
            return None;
        }
        let base = off.c.rem_euclid(g);
        let mut k = lo + (base - lo).rem_euclid(g);
        let mut v = vec![];
        while k <= hi {
            v.push(k);
            k += g;
        }
        if v.len() <= 64 {
            v.retain(|k| decide(&eq0(&addc(&off, -k), e), e) != Some(false));
        }
        Some(v)
    }
    pub fn load(&mut self, st: &mut State, p: &Val, t: TyId) -> R<Val> {
        let s = self.size(t);
        if s == 0 {
            return Ok(Val::Agg(Rc::new(vec![])));
        }
        match p {
            Val::Ptr(pv) => self.load_pv(st, pv, t),
            Val::Alt(c, x) => {
                match decide(c, &st.env) {
                    Some(true) => return self.load(st, &x.0, t),
                    Some(false) => return self.load(st, &x.1, t),
                    None => {}
                }
                let a = self.load(st, &x.0, t)?;
                let b = self.load(st, &x.1, t)?;
                Ok(ite_val(c, &a, &b, &st.env))
            }
            Val::Int(_) | Val::Undef => Ok(Val::Undef), // null / dangling: dead path
            Val::Top(tt) => {
                self.unknown.push(format!("load through unknown pointer ({})", self.prog.t(t).name));
                if self.lenient {
                    return Ok(self.havoc(t, *tt));
                }
                self.fatal(format!("load through unknown pointer {}", self.prog.t(t).name))
            }
            _ => self.fatal("load through non-pointer".into()),
        }
    }
    fn load_pv(&mut self, st: &mut State, pv: &Pv, t: TyId) -> R<Val> {
        let s = self.size(t);
        if pv.reg == NONE {
            return Ok(Val::Undef);
        }
        let off = simp(&pv.off, &st.env);
        if pv.reg >= SYM {
            let six = pv.reg - SYM;
            let mut l = vec![];
            if !self.leaves(t, 0, &mut l) {
                return self.fatal("structured read from a byte buffer".into());
            }
            if self.syms[six].written {
                let taint = self.syms[six].taint;
                return Ok(self.havoc(t, taint));
            }
            let mut cs = vec![];
            for (o, lt) in l {
                let ls = self.size(lt);
                let mut v = konst(0);
                for b in 0..ls {
                    let x = self.sym_byte(six, &addc(&off, (o + b) as i128));
                    v = add(&v, &scale(&x, 1i128 << (8 * b)));
                }
                let v = self.retype(Val::Int(v), lt, &st.env.clone());
                cs.push((o, ls, v));
            }
            if self.is_scalar(t) {
                return Ok(cs.pop().unwrap().2);
            }
            return Ok(Val::Agg(Rc::new(cs)));
        }
        if let Some(k) = off.is_const() {
            if k < 0 {
                return self.fatal("negative offset".into());
            }
            if pv.reg >= GLOB {
                return self.raw_read(pv.reg, k as u64, t);
            }
            return self.load_at(st, pv.reg, k as u64, s, t);
        }
        let env = st.env.clone();
        let Some(c) = self.candidates(&off, &env) else {
            if pv.reg < GLOB && self.lenient {
                let tt = st.mem[pv.reg].as_ref().map_or(0, |r| r.cells.iter().fold(0, |t, c| t | val_taint(&c.2)));
                return Ok(self.havoc(t, tt | poly_taint(&off)));
            }
            return self.fatal(format!("load at unbounded offset {}", show(&off)));
        };
        let mut vals: Vec<(i128, Val)> = vec![];
        let max = if pv.reg >= GLOB {
            match &self.globs[pv.reg - GLOB] {
                GlobK::Raw { bytes, .. } => bytes.len() as i128,
                _ => 0,
            }
        } else {
            st.mem[pv.reg].as_ref().and_then(|r| r.cells.last().map(|c| (c.0 + c.1) as i128)).unwrap_or(0)
        };
        for k in c {
            if k < 0 || k + s as i128 > max {
                continue;
            }
            let v = if pv.reg >= GLOB { self.raw_read(pv.reg, k as u64, t)? } else { self.load_at(st, pv.reg, k as u64, s, t)? };
            if matches!(v, Val::Undef) {
                continue;
            }
            vals.push((k, v));
        }
        if vals.is_empty() {
            return Ok(Val::Undef);
        }
        if NAMING_BIG.with(|n| n.get()) > 0 && vals.len() > 1 && vals.len() <= 100 {
            let mut fuel = 200;
            let mut gain = false;
            if let Some(v) = select_by_gates(&off, &vals, &env, &mut fuel, &mut gain) {
                if gain {
                    return Ok(v);
                }
            }
        }
        Ok(self.select_val(&off, &vals, &env))
    }
    fn select_val(&mut self, off: &P, v: &[(i128, Val)], e: &Env) -> Val {
        if v.iter().all(|(_, x)| matches!(x, Val::Int(_))) {
            let l: Vec<(i128, P)> = v.iter().map(|(k, x)| (*k, if let Val::Int(p) = x { p.clone() } else { unreachable!() })).collect();
            return Val::Int(select(off, l, e));
        }
        if let Val::Agg(a0) = &v[0].1 {
            let shape: Vec<(u64, u64)> = a0.iter().map(|c| (c.0, c.1)).collect();
            if v.iter().all(|(_, x)| matches!(x, Val::Agg(a) if a.len() == shape.len() && a.iter().zip(&shape).all(|(c, s)| (c.0, c.1) == *s))) {
                let mut cs = vec![];
                for (i, (o, s)) in shape.iter().enumerate() {
                    let col: Vec<(i128, Val)> = v.iter().map(|(k, x)| (*k, if let Val::Agg(a) = x { a[i].2.clone() } else { unreachable!() })).collect();
                    let x = self.select_val(off, &col, e);
                    cs.push((*o, *s, x));
                }
                return Val::Agg(Rc::new(cs));
            }
        }
        if v.len() > 1 && v.iter().all(|(_, x)| matches!(x, Val::F(_))) && v.len() > 8 {
            // wide float table: interval join (taints kept) unless all small
            let consts = v.iter().all(|(_, x)| matches!(x, Val::F(f) if as_const(f).is_some()));
            if !consts {
                let mut t = poly_taint(off);
                let (mut lo, mut hi, mut nan, mut bits) = (f64::INFINITY, f64::NEG_INFINITY, false, 32);
                for (_, x) in v {
                    if let Val::F(f) = x {
                        let (l, h, n) = frange(f, e);
                        t |= f.taint;
                        lo = lo.min(l);
                        hi = hi.max(h);
                        nan |= n;
                        bits = f.bits;
                    }
                }
                let key = || format!("s{:?}|{:?}", off, v.iter().map(|(k, x)| (*k, if let Val::F(f) = x { f.id } else { 0 })).collect::<Vec<_>>());
                return Val::F(opaque_of(key, bits, lo, hi, nan, t));
            }
        }
        let mut r = v[v.len() - 1].1.clone();
        for (k, x) in v[..v.len() - 1].iter().rev() {
            r = ite_val(&eq0(&addc(off, -k), e), x, &r, e);
        }
        r
    }
    fn load_at(&mut self, st: &mut State, reg: Reg, off: u64, s: u64, t: TyId) -> R<Val> {
        let env = st.env.clone();
        let Some(r) = st.mem[reg].clone() else { return Ok(Val::Undef) };
        let i = cell_find(&r.cells, off);
        if self.is_scalar(t) {
            if i < r.cells.len() && r.cells[i].0 == off && r.cells[i].1 == s {
                if let Val::Int(p) = &r.cells[i].2 {
                    if let Some(q) = known_side(p, &env) {
                        return Ok(self.retype(Val::Int(q), t, &env));
                    }
                }
                return Ok(self.retype(r.cells[i].2.clone(), t, &env));
            }
            if i < r.cells.len() && r.cells[i].1 == 16 && s == 8 {
                let mut v = r.cells[i].2.clone();
                let alt = if let Val::Alt(c, x) = &v { Some((c.clone(), x.clone())) } else { None };
                if let Some((c, x)) = alt {
                    let half = |v: &Val| match v {
                        Val::Ptr(p) if off == r.cells[i].0 => Val::Ptr(Rc::new(Pv { meta: None, ..(**p).clone() })),
                        Val::Ptr(p) => p.meta.clone().map(Val::Int).unwrap_or(Val::Undef),
                        o => o.clone(),
                    };
                    v = ite_val(&c, &half(&x.0), &half(&x.1), &env);
                    return Ok(self.retype(v, t, &env));
                }
                if let Val::Ptr(p) = &v {
                    if off == r.cells[i].0 {
                        let v = Val::Ptr(Rc::new(Pv { meta: None, ..(**p).clone() }));
                        return Ok(self.retype(v, t, &env));
                    }
                    if off == r.cells[i].0 + 8 {
                        return Ok(p.meta.clone().map(Val::Int).unwrap_or(Val::Top(0)));
                    }
                }
            }
            let w = r.window(off, s, &env);
            if w.is_empty() {
                return Ok(Val::Undef);
            }
            // fat pointer written as two words
            if s == 16 && w.len() == 2 && w[0].1 == 8 && w[1].1 == 8 {
                if let Val::Ptr(p) = &w[0].2 {
                    return Ok(Val::Ptr(Rc::new(Pv { meta: as_p(&w[1].2, 8), ..(**p).clone() })));
                }
            }
            // assemble from bytes
            let mut v = konst(0);
            let mut tt = 0;
            let mut okb = 0;
            for (o, cs, x) in &w {
                tt |= val_taint(x);
                match as_p(x, *cs) {
                    Some(p) => {
                        let (l, _) = range(&p, &env);
                        let p = if l < 0 { mod_const(&p, 1i128 << (8 * cs), &env) } else { p };
                        v = add(&v, &scale(&p, 1i128 << (8 * o)));
                        okb += cs;
                    }
                    None => {}
                }
            }
            if okb == s {
                return Ok(self.retype(Val::Int(v), t, &env));
            }
            return Ok(self.havoc(t, tt));
        }
        let w = r.window(off, s, &env);
        Ok(Val::Agg(Rc::new(w)))
    }
    pub fn region_mut<'a>(&mut self, st: &'a mut State, reg: Reg) -> &'a mut Region {
        let r = st.mem[reg].get_or_insert_with(|| Rc::new(Region::new()));
        Rc::make_mut(r)
    }
    pub fn store(&mut self, st: &mut State, p: &Val, t: TyId, v: Val, span: &str) -> R<()> {
        let s = self.size(t);
        if s == 0 {
            return Ok(());
        }
        match p {
            Val::Ptr(pv) => self.store_pv(st, pv, s, v, span),
            Val::Alt(c, x) => {
                match decide(c, &st.env) {
                    Some(true) => return self.store(st, &x.0, t, v, span),
                    Some(false) => return self.store(st, &x.1, t, v, span),
                    None => {}
                }
                // weak update on both sides
                for (g, q) in [(c.clone(), &x.0), (not(c), &x.1)] {
                    match q {
                        Val::Ptr(pv) if pv.reg < GLOB => {
                            let old = self.load(st, q, t)?;
                            let nv = ite_val(&g, &v, &old, &st.env);
                            self.store(st, q, t, nv, span)?;
                        }
                        Val::Ptr(pv) if pv.reg >= SYM && pv.reg != NONE => {
                            let mut s2 = st.clone();
                            s2.cond(&g);
                            self.store(&mut s2, q, t, v.clone(), span)?;
                        }
                        Val::Int(_) | Val::Undef => {}
                        _ => return self.fatal("store through alternative pointer".into()),
                    }
                }
                Ok(())
            }
            Val::Int(_) | Val::Undef => Ok(()),
            _ => self.fatal("store through unknown pointer".into()),
        }
    }
    fn store_pv(&mut self, st: &mut State, pv: &Pv, s: u64, v: Val, span: &str) -> R<()> {
        if pv.reg == NONE {
            return Ok(());
        }
        let env = st.env.clone();
        let off = simp(&pv.off, &env);
        if pv.reg >= SYM {
            self.syms[pv.reg - SYM].written = true;
            self.events.push(Event { reg: pv.reg, off, size: s, val: v, env, path: st.path.clone(), span: span.to_string(), call: None });
            return Ok(());
        }
        if pv.reg >= GLOB {
            return self.fatal("store to constant memory".into());
        }
        let cells: Vec<Cell> = match v {
            Val::Agg(c) => c.to_vec(),
            v => vec![(0, s, v)],
        };
        if let Some(k) = off.is_const() {
            if k < 0 {
                return self.fatal("negative store offset".into());
            }
            let r = self.region_mut(st, pv.reg);
            if cells.len() == 1 && cells[0].0 == 0 && cells[0].1 == s {
                r.put(k as u64, s, cells[0].2.clone(), &env);
            } else {
                r.put(k as u64, s, Val::Agg(Rc::new(cells)), &env);
            }
            return Ok(());
        }
        let Some(cand) = self.candidates(&off, &env) else {
            return self.fatal(format!("store at unbounded offset {}", show(&off)));
        };
        let r = self.region_mut(st, pv.reg);
        for k in cand {
            if k < 0 {
                continue;
            }
            let g = eq0(&addc(&off, -k), &env);
            for (o, cs, nv) in &cells {
                let at = k as u64 + o;
                let w = r.window(at, *cs, &env);
                let old = if w.len() == 1 && w[0].0 == 0 && w[0].1 == *cs {
                    w[0].2.clone()
                } else if w.is_empty() {
                    Val::Undef
                } else {
                    let mut p = konst(0);
                    let mut tt = 0;
                    for (bo, bs, bv) in &w {
                        tt |= val_taint(bv);
                        if let Some(q) = as_p(bv, *bs) {
                            p = add(&p, &scale(&q, 1i128 << (8 * bo)));
                        }
                    }
                    if w.iter().map(|c| c.1).sum::<u64>() == *cs && *cs <= 8 {
                        Val::Int(p)
                    } else {
                        Val::Top(tt)
                    }
                };
                let x = ite_val(&g, nv, &old, &env);
                r.put(at, *cs, x, &env);
            }
        }
        Ok(())
    }
    // ------------------------------------------------------------------ places / operands
    fn as_ptr(v: Val) -> Val {
        match v {
            Val::Int(p) => Val::Ptr(Rc::new(Pv { reg: NONE, nn: konst((p.is_const() != Some(0)) as i128), off: p, meta: None })),
            v => v,
        }
    }
    fn shift(v: &Val, d: &P, meta: Option<P>, e: &Env) -> Val {
        match v {
            Val::Ptr(p) => Val::Ptr(Rc::new(Pv { reg: p.reg, off: add(&p.off, d), meta, nn: p.nn.clone() })),
            Val::Alt(c, x) => Val::Alt(c.clone(), Rc::new((Self::shift(&x.0, d, meta.clone(), e), Self::shift(&x.1, d, meta, e)))),
            Val::Int(p) => ptr(NONE, add(p, d), meta),
            v => v.clone(),
        }
    }
    fn meta_of(v: &Val, e: &Env) -> Option<P> {
        match v {
            Val::Ptr(p) => p.meta.clone(),
            Val::Alt(c, x) => {
                let (a, b) = (Self::meta_of(&x.0, e), Self::meta_of(&x.1, e));
                match (a, b) {
                    (Some(a), Some(b)) => Some(ite_e(c, &a, &b, e)),
                    (Some(a), None) | (None, Some(a)) => Some(a),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// address of a place
    pub fn addr(&mut self, fr: &Fr, st: &mut State, pl: &Place) -> R<Val> {
        let mut cur = ptr(fr.base + pl.local, konst(0), None);
        let mut ty = fr.f.locals[pl.local];
        for pj in &pl.proj {
            match pj {
                Pj::Deref(t) => {
                    let v = self.load(st, &cur, ty)?;
                    cur = match v {
                        Val::Agg(c) if c.len() == 1 => Self::as_ptr(c[0].2.clone()), // Box / wrappers
                        Val::Agg(c) if !c.is_empty() => Self::as_ptr(c[0].2.clone()),
                        v => Self::as_ptr(v),
                    };
                    ty = *t;
                }
                Pj::Field(o, t) => {
                    let m = Self::meta_of(&cur, &st.env);
                    cur = Self::shift(&cur, &konst(*o as i128), m, &st.env);
                    ty = *t;
                }
                Pj::Downcast => {}
                Pj::Index(l, el) => {
                    let i = self.load(st, &ptr(fr.base + l, konst(0), None), fr.f.locals[*l])?;
                    let Val::Int(i) = i else { return self.fatal("index value".into()) };
                    let es = self.size(*el) as i128;
                    cur = Self::shift(&cur, &scale(&i, es), None, &st.env);
                    ty = *el;
                }
                Pj::ConstIndex { off, from_end, elem } => {
                    let es = self.size(*elem) as i128;
                    let d = if *from_end {
                        let Some(m) = Self::meta_of(&cur, &st.env) else { return self.fatal("from-end index".into()) };
                        scale(&addc(&m, -(*off as i128)), es)
                    } else {
                        konst(*off as i128 * es)
                    };
                    cur = Self::shift(&cur, &d, None, &st.env);
                    ty = *elem;
                }
                Pj::Subslice { from, to, from_end, elem, ty: nt } => {
                    let es = self.size(*elem) as i128;
                    let m = if *from_end { Self::meta_of(&cur, &st.env).map(|m| addc(&m, -((*from + *to) as i128))) } else { None };
                    cur = Self::shift(&cur, &konst(*from as i128 * es), m, &st.env);
                    ty = *nt;
                }
            }
        }
        Ok(cur)
    }
    pub fn read_place(&mut self, fr: &Fr, st: &mut State, pl: &Place) -> R<Val> {
        if pl.proj.is_empty() {
            let s = self.size(pl.ty);
            if s == 0 {
                return Ok(Val::Agg(Rc::new(vec![])));
            }
            return self.load_at(st, fr.base + pl.local, 0, s, pl.ty);
        }
        let a = self.addr(fr, st, pl)?;
        self.load(st, &a, pl.ty)
    }
    pub fn write_place(&mut self, fr: &Fr, st: &mut State, pl: &Place, v: Val, span: &str) -> R<()> {
        let a = self.addr(fr, st, pl)?;
        self.store(st, &a, pl.ty, v, span)
    }
    pub fn konst_val(&mut self, k: &Konst) -> R<Val> {
        if let Some(v) = self.konst_cache.get(&(k as *const Konst as usize)) {
            return Ok(v.clone());
        }
        Ok(match k {
            Konst::Int(v, _) => iv(*v),
            Konst::Float(x, t) => {
                let b = match self.prog.t(*t).kind {
                    TK::Float(b) => b,
                    _ => 64,
                };
                Val::F(fconst(*x, b))
            }
            Konst::Zst(_) => Val::Agg(Rc::new(vec![])),
            Konst::Mem { ty, bytes, ptrs } => {
                self.globs.push(GlobK::Raw { bytes: bytes.clone(), ptrs: ptrs.clone() });
                let r = GLOB + self.globs.len() - 1;
                let v = self.raw_read(r, 0, *ty)?;
                self.konst_cache.insert(k as *const Konst as usize, v.clone());
                v
            }
        })
    }
    pub fn op(&mut self, fr: &Fr, st: &mut State, o: &Op) -> R<Val> {
        match o {
            Op::Place(p) => self.read_place(fr, st, p),
            Op::Const(k) => self.konst_val(k),
        }
    }
    fn int(&mut self, fr: &Fr, st: &mut State, o: &Op) -> R<P> {
        let v = self.op(fr, st, o)?;
        match v {
            Val::Int(p) => Ok(simp(&p, &st.env)),
            Val::Agg(c) if c.len() == 1 => match &c[0].2 {
                Val::Int(p) => Ok(simp(p, &st.env)),
                v => self.fatal(format!("integer expected {}", show_val(v))),
            },
            Val::Undef => Ok(fresh(AKind::Phi, 0, 1, 0)),
            v => match as_p(&v, 8) {
                Some(p) => Ok(p),
                None => self.fatal(format!("integer expected: {}", show_val(&v))),
            },
        }
    }
    // ------------------------------------------------------------------ rvalues
    fn ptr_cmp(&mut self, op: BinOp, a: &Val, b: &Val, e: &Env) -> P {
        match (a, b) {
            (Val::Alt(c, x), _) => {
                let (l, r) = (self.ptr_cmp(op, &x.0, b, e), self.ptr_cmp(op, &x.1, b, e));
                ite_e(c, &l, &r, e)
            }
            (_, Val::Alt(c, x)) => {
                let (l, r) = (self.ptr_cmp(op, a, &x.0, e), self.ptr_cmp(op, a, &x.1, e));
                ite_e(c, &l, &r, e)
            }
            (Val::Ptr(x), Val::Ptr(y)) if x.reg == y.reg => {
                let mut d = cmp(op, &x.off, &y.off, e);
                if let (Some(m), Some(n)) = (&x.meta, &y.meta) {
                    if op == BinOp::Eq {
                        d = and(&d, &eq0(&sub(m, n), e));
                    }
                }
                d
            }
            (Val::Ptr(x), Val::Int(z)) if z.is_const() == Some(0) => match op {
                BinOp::Eq => not(&x.nn),
                BinOp::Ne => x.nn.clone(),
                _ => fresh(AKind::Phi, 0, 1, val_taint(a)),
            },
            (Val::Int(z), Val::Ptr(x)) if z.is_const() == Some(0) => match op {
                BinOp::Eq => not(&x.nn),
                BinOp::Ne => x.nn.clone(),
                _ => fresh(AKind::Phi, 0, 1, val_taint(b)),
            },
            _ => fresh(AKind::Phi, 0, 1, val_taint(a) | val_taint(b)),
        }
    }
    pub fn binop(&mut self, op: BinOp, a: Val, b: Val, t: TyId, e: &Env) -> R<Val> {
        let ti = self.prog.t(t);
        match &ti.kind {
            TK::Float(bits) => {
                let (x, y) = match (&a, &b) {
                    (Val::F(x), Val::F(y)) => (x.clone(), y.clone()),
                    _ => {
                        let tt = val_taint(&a) | val_taint(&b);
                        let g = |v: &Val| if let Val::F(f) = v { f.clone() } else { ftop(*bits, tt) };
                        (g(&a), g(&b))
                    }
                };
                let f = |o: FOp| Val::F(fop(o, *bits, &[x.clone(), y.clone()], e));
                Ok(match op {
                    BinOp::Add => f(FOp::Add),
                    BinOp::Sub => f(FOp::Sub),
                    BinOp::Mul => f(FOp::Mul),
                    BinOp::Div => f(FOp::Div),
                    BinOp::Rem => f(FOp::Rem),
                    BinOp::Lt => Val::Int(fcmp(0, &x, &y, e)),
                    BinOp::Le => Val::Int(fcmp(1, &x, &y, e)),
                    BinOp::Gt => Val::Int(fcmp(0, &y, &x, e)),
                    BinOp::Ge => Val::Int(fcmp(1, &y, &x, e)),
                    BinOp::Eq => Val::Int(fcmp(2, &x, &y, e)),
                    BinOp::Ne => Val::Int(not(&fcmp(2, &x, &y, e))),
                    o => return self.fatal(format!("float op {:?}", o)),
                })
            }
            TK::Ptr { pointee, .. } => match op {
                BinOp::Offset => {
                    let s = self.size(*pointee) as i128;
                    let n = as_p(&b, 8).unwrap_or_else(|| konst(0));
                    let m = Self::meta_of(&a, e);
                    Ok(Self::shift(&a, &scale(&n, s), m, e))
                }
                _ => Ok(Val::Int(self.ptr_cmp(op, &a, &b, e))),
            },
            TK::FnPtr => Ok(Val::Int(fresh(AKind::Phi, 0, 1, 0))),
            k => {
                let (bits, signed) = match k {
                    TK::Int { bits, signed } => (*bits, *signed),
                    TK::Bool => (1, false),
                    TK::Char => (32, false),
                    _ => return self.fatal(format!("binop on {}", ti.name)),
                };
                let sz = (bits as u64 / 8).max(1);
                if matches!(a, Val::Ptr(_) | Val::Alt(..)) || matches!(b, Val::Ptr(_) | Val::Alt(..)) {
                    if matches!(op, BinOp::Eq | BinOp::Ne) {
                        return Ok(Val::Int(self.ptr_cmp(op, &a, &b, e)));
                    }
                }
                let x = match &a {
                    Val::Int(p) => p.clone(),
                    Val::Undef => fresh(AKind::Phi, 0, if bits == 1 { 1 } else { int_range(bits, signed).1 }, 0),
                    v => match as_p(v, sz) {
                        Some(p) => p,
                        None => return self.fatal(format!("int operand {}", show_val(v))),
                    },
                };
                let y = match &b {
                    Val::Int(p) => p.clone(),
                    Val::Undef => fresh(AKind::Phi, 0, if bits == 1 { 1 } else { int_range(bits, signed).1 }, 0),
                    v => match as_p(v, sz) {
                        Some(p) => p,
                        None => return self.fatal(format!("int operand {}", show_val(v))),
                    },
                };
                Ok(Val::Int(self.ibin(op, &x, &y, bits, signed, e)?))
            }
        }
    }
    pub fn ibin(&mut self, op: BinOp, x: &P, y: &P, bits: u32, signed: bool, e: &Env) -> R<P> {
        let (x, y) = (&simp(x, e), &simp(y, e));
        Ok(match op {
            BinOp::Add => self.wrap(&ceil_form(&add(x, y)), bits, signed, e),
            BinOp::Sub => self.wrap(&sub(x, y), bits, signed, e),
            BinOp::Mul => self.wrap(&mul(x, y), bits, signed, e),
            BinOp::AddUnchecked => ceil_form(&add(x, y)),
            BinOp::SubUnchecked => sub(x, y),
            BinOp::MulUnchecked => mul(x, y),
            BinOp::Div | BinOp::Rem => {
                let isdiv = op == BinOp::Div;
                if let (Some(d), (l, _)) = (y.is_const(), range(x, e)) {
                    if d > 0 && l >= 0 {
                        return Ok(if isdiv { div_const(x, d, e) } else { mod_const(x, d, e) });
                    }
                    if d > 0 {
                        // truncating division
                        let nx = neg(x);
                        let q1 = div_const(&max2(x, &konst(0), e), d, e);
                        let q2 = neg(&div_const(&max2(&nx, &konst(0), e), d, e));
                        let q = ite_e(&ge0(x, e), &q1, &q2, e);
                        return Ok(if isdiv { q } else { sub(x, &scale(&q, d)) });
                    }
                }
                let (xl, xh) = range(x, e);
                let (yl, yh) = range(y, e);
                if xl >= 0 && yl >= 0 && !signed && y.is_const().is_none() && (yl > 0 || prove_ge(&addc(y, -1), e, 1)) {
                    // remainder in terms of the quotient: x - y*(x/y)
                    let (gx, gy) = (range(x, &Env::default()), range(y, &Env::default()));
                    let q = if gx.0 >= 0 && gy.0 >= 0 {
                        derived(AKind::Op("Div".into(), vec![x.clone(), y.clone()]), 0, gx.1 / gy.0.max(1))
                    } else {
                        fresh(AKind::Phi, 0, xh / yl.max(1), poly_taint(x) | poly_taint(y))
                    };
                    return Ok(if isdiv { q } else { sub(x, &mul(y, &q)) });
                }
                let bounds = |(xl, xh): (i128, i128), (yl, yh): (i128, i128)| if xl >= 0 && yl >= 0 { if isdiv { (0, xh / yl.max(1)) } else { (0, (yh - 1).min(xh).max(0)) } } else { int_range(bits, signed) };
                let (lo, hi) = bounds(range(x, &Env::default()), range(y, &Env::default()));
                let here = bounds((xl, xh), (yl, yh));
                if here != (lo, hi) {
                    return Ok(fresh(AKind::Phi, here.0, here.1, poly_taint(x) | poly_taint(y)));
                }
                derived(AKind::Op(format!("{:?}", op), vec![x.clone(), y.clone()]), lo, hi)
            }
            BinOp::BitAnd | BinOp::BitOr | BinOp::BitXor => self.bitop(op, x, y, bits, signed, e),
            BinOp::Shl | BinOp::ShlUnchecked => match y.is_const() {
                Some(k) => {
                    let k = k & (bits as i128 - 1);
                    self.wrap(&scale(x, 1i128 << k), bits, signed, e)
                }
                None => {
                    let (l, h) = range(y, e);
                    if l >= 0 && h < bits as i128 {
                        let mut r = konst(0);
                        let mut v = vec![];
                        for k in l..=h {
                            let s = self.wrap(&scale(x, 1i128 << k), bits, signed, e);
                            v.push((k, s));
                        }
                        if v.len() <= 64 {
                            r = select(y, v, e);
                        }
                        r
                    } else {
                        let (lo, hi) = int_range(bits, signed);
                        derived(AKind::Op(format!("shl{}", bits), vec![x.clone(), y.clone()]), lo, hi)
                    }
                }
            },
            BinOp::Shr | BinOp::ShrUnchecked => match y.is_const() {
                Some(k) => {
                    let k = k & (bits as i128 - 1);
                    div_const(x, 1i128 << k, e)
                }
                None => {
                    let (l, h) = range(y, e);
                    if l >= 0 && h < bits as i128 {
                        let v = (l..=h).map(|k| (k, div_const(x, 1i128 << k, e))).collect();
                        select(y, v, e)
                    } else {
                        let (lo, hi) = int_range(bits, signed);
                        derived(AKind::Op(format!("shr{}", bits), vec![x.clone(), y.clone()]), lo, hi)
                    }
                }
            },
            BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge => cmp(op, x, y, e),
            BinOp::Cmp => {
                let lt = cmp(BinOp::Lt, x, y, e);
                let gt = cmp(BinOp::Gt, x, y, e);
                ite(&lt, &konst(-1), &gt)
            }
            o => return self.fatal(format!("integer op {:?}", o)),
        })
    }
    fn bitop(&mut self, op: BinOp, x: &P, y: &P, bits: u32, signed: bool, e: &Env) -> P {
        if let (Some(a), Some(b)) = (x.is_const(), y.is_const()) {
            return konst(match op {
                BinOp::BitAnd => a & b,
                BinOp::BitOr => a | b,
                _ => a ^ b,
            });
        }
        if bits == 1 {
            return match op {
                BinOp::BitAnd => and(x, y),
                BinOp::BitOr => or(x, y),
                _ => {
                    let xy = and(x, y);
                    sub(&add(x, y), &scale(&xy, 2))
                }
            };
        }
        let (xl, xh) = range(x, e);
        let (yl, yh) = range(y, e);
        // mask with a constant
        for (p, m) in [(x, y), (y, x)] {
            if let Some(m) = m.is_const() {
                if m == 0 {
                    return if op == BinOp::BitAnd { konst(0) } else { p.clone() };
                }
                let m2 = if m < 0 { m & ((1i128 << bits) - 1) } else { m };
                if op == BinOp::BitAnd && m2 > 0 && (range(p, e).0 >= 0 || !signed) {
                    let tz = m2.trailing_zeros();
                    let ones = (m2 >> tz).trailing_ones();
                    if m2 >> tz >> ones == 0 && !(signed && m < 0) {
                        // contiguous mask
                        let q = div_const(p, 1i128 << tz, e);
                        return scale(&mod_const(&q, 1i128 << ones, e), 1i128 << tz);
                    }
                }
                if op == BinOp::BitXor && m2 == (1i128 << bits) - 1 && !signed {
                    return addc(&neg(p), m2);
                }
            }
        }
        if xl >= 0 && yl >= 0 {
            let w = (128 - xh.max(yh).max(1).leading_zeros()).min(bits);
            // disjoint operands: plain sum
            if op != BinOp::BitAnd {
                for (p, q, qh) in [(x, y, yh), (y, x, xh)] {
                    let al = align_of(p);
                    if al > 0 && (al & (al - 1)) == 0 && qh < al {
                        return add(p, q);
                    }
                }
            }
            if let (Some(a), Some(b)) = (bit_view(x, w, e, false), bit_view(y, w, e, false)) {
                let n = a.len().max(b.len());
                let z = konst(0);
                let mut r = vec![];
                for i in 0..n {
                    let (p, q) = (a.get(i).unwrap_or(&z), b.get(i).unwrap_or(&z));
                    let pq = and(p, q);
                    r.push(match op {
                        BinOp::BitAnd => pq,
                        BinOp::BitOr => sub(&add(p, q), &pq),
                        _ => sub(&add(p, q), &scale(&pq, 2)),
                    });
                }
                return from_bits(&r);
            }
            let bounds = |(xl, xh): (i128, i128), (yl, yh): (i128, i128)| {
                let hi = (1i128 << (128 - xh.max(yh).leading_zeros())) - 1;
                match op {
                    BinOp::BitAnd => (0, xh.min(yh)),
                    BinOp::BitOr => (xl.max(yl), hi),
                    _ => (0, hi),
                }
            };
            let (gx, gy) = (range(x, &Env::default()), range(y, &Env::default()));
            let here = bounds((xl, xh), (yl, yh));
            let (lo, hi) = if gx.0 >= 0 && gy.0 >= 0 { bounds(gx, gy) } else { int_range(bits, signed) };
            if here != (lo, hi) {
                return fresh(AKind::Phi, here.0, here.1, poly_taint(x) | poly_taint(y));
            }
            let (a, b) = if format!("{:?}", x) < format!("{:?}", y) { (x, y) } else { (y, x) };
            return derived(AKind::Op(format!("{:?}", op), vec![a.clone(), b.clone()]), lo, hi);
        }
        let (lo, hi) = int_range(bits, signed);
        derived(AKind::Op(format!("{:?}", op), vec![x.clone(), y.clone()]), lo, hi)
    }
    fn int_ty(&self, t: TyId) -> Option<(u32, bool)> {
        match self.prog.t(t).kind {
            TK::Int { bits, signed } => Some((bits, signed)),
            TK::Bool => Some((8, false)),
            TK::Char => Some((32, false)),
            _ => None,
        }
    }
    pub fn cast(&mut self, k: CastKind, v: Val, from: TyId, to: TyId, e: &Env) -> R<Val> {
        match k {
            CastKind::IntToInt => {
                let Some((b, s)) = self.int_ty(to) else { return self.fatal("int cast".into()) };
                let v = match v {
                    Val::Agg(c) if c.len() == 1 => c[0].2.clone(),
                    v => v,
                };
                let Some(p) = as_p(&v, 8) else { return self.fatal(format!("int cast of {}", show_val(&v))) };
                Ok(Val::Int(self.wrap(&p, b, s, e)))
            }
            CastKind::FloatToInt => {
                let Some((b, s)) = self.int_ty(to) else { return self.fatal("cast".into()) };
                let (lo, hi) = int_range(b, s);
                let f = match v {
                    Val::F(f) => f,
                    v => ftop(32, val_taint(&v)),
                };
                if let Some(c) = as_const(&f) {
                    return Ok(iv(f2i(c, lo, hi)));
                }
                let bounds = |(l, h, n): (f64, f64, bool)| {
                    let (mut a, mut z) = (f2i(l, lo, hi), f2i(h, lo, hi));
                    if n {
                        a = a.min(0);
                        z = z.max(0);
                    }
                    if l > h {
                        (a, z) = (0, 0);
                    }
                    (a, z)
                };
                let here = bounds(frange(&f, e));
                if f.supp.is_none() && here != bounds((f.lo, f.hi, f.nan)) {
                    // a bound that holds on this path only must not become part of a shared term
                    if KEYED.with(|k| k.get()) {
                        return Ok(Val::Int(hc_base(format!("f2i{}|{:?}", f.id, here), AKind::Phi, here.0, here.1, f.taint)));
                    }
                    return Ok(Val::Int(fresh(AKind::Phi, here.0, here.1, f.taint)));
                }
                Ok(Val::Int(f2i_gated(&f, lo, hi, &|f| {
                    if let Some(c) = as_const(f) {
                        return konst(f2i(c, lo, hi));
                    }
                    let (a, z) = bounds((f.lo, f.hi, f.nan));
                    derived(AKind::F2I(f.clone(), lo, hi), a, z)
                })))
            }
            CastKind::IntToFloat => {
                let b = match self.prog.t(to).kind {
                    TK::Float(b) => b,
                    _ => 64,
                };
                match v {
                    Val::Int(p) => Ok(Val::F(from_int(&simp(&p, e), b, e))),
                    v => Ok(Val::F(ftop(b, val_taint(&v)))),
                }
            }
            CastKind::FloatToFloat => match (v, &self.prog.t(to).kind) {
                (Val::F(f), TK::Float(32)) => Ok(Val::F(fop(FOp::To32, f.bits, &[f.clone()], e))),
                (Val::F(f), _) => Ok(Val::F(fop(FOp::To64, f.bits, &[f.clone()], e))),
                (v, _) => Ok(Val::F(ftop(64, val_taint(&v)))),
            },
            CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                let fat = matches!(&self.prog.t(to).kind, TK::Ptr { fat, .. } if *fat != Fat::No);
                Ok(if fat { v } else { strip_meta(v) })
            }
            CastKind::Transmute | CastKind::Subtype | CastKind::BoxDerefTransmute => {
                let s = self.size(to);
                if s == 0 {
                    return Ok(Val::Agg(Rc::new(vec![])));
                }
                let mut st = State::new();
                st.env = Rc::new(e.clone());
                let r = st.alloc();
                let fs = self.size(from);
                Rc::make_mut(st.mem[r].as_mut().unwrap()).put(0, fs, v, e);
                self.load_at(&mut st, r, 0, s, to)
            }
            CastKind::PointerExposeAddress => self.retype(v, to, e).ok(self),
            CastKind::PointerWithExposedProvenance => Ok(v),
            CastKind::PointerCoercion(pc) => {
                use rustc_public::mir::PointerCoercion as PC;
                match pc {
                    PC::MutToConstPointer => Ok(v),
                    PC::ArrayToPointer => Ok(v),
                    PC::Unsize => self.unsize(v, from, to),
                    PC::ReifyFnPointer(..) => match self.prog.t(from).ty.kind() {
                        rustc_public::ty::TyKind::RigidTy(rustc_public::ty::RigidTy::FnDef(d, a)) => match rustc_public::mir::mono::Instance::resolve_for_fn_ptr(d, &a) {
                            Ok(i) => Ok(Val::Fn(self.prog.fn_id(i))),
                            Err(_) => Ok(Val::Top(0)),
                        },
                        _ => Ok(Val::Top(0)),
                    },
                    PC::ClosureFnPointer(_) => match self.prog.t(from).ty.kind() {
                        rustc_public::ty::TyKind::RigidTy(rustc_public::ty::RigidTy::Closure(d, a)) => match rustc_public::mir::mono::Instance::resolve_closure(d, &a, rustc_public::ty::ClosureKind::FnOnce) {
                            Ok(i) => Ok(Val::Fn(self.prog.fn_id(i))),
                            Err(_) => Ok(Val::Top(0)),
                        },
                        _ => Ok(Val::Top(0)),
                    },
                    PC::UnsafeFnPointer => Ok(v),
                }
            }
        }
    }
    fn unsize(&mut self, v: Val, from: TyId, to: TyId) -> R<Val> {
        // pointer to array -> slice (possibly inside a wrapper struct)
        let (fk, tk) = (self.prog.t(from), self.prog.t(to));
        match (&fk.kind, &tk.kind) {
            (TK::Ptr { pointee: a, .. }, TK::Ptr { fat, .. }) => {
                let m = match (&self.prog.t(*a).kind, fat) {
                    (TK::Array { len, .. }, Fat::Slice) => konst(*len as i128),
                    (_, Fat::Dyn) => konst(0),
                    _ => return Ok(v),
                };
                Ok(Self::shift(&v, &konst(0), Some(m), &Env::default()))
            }
            _ => Ok(Val::Top(val_taint(&v))),
        }
    }
    fn variant_agg(&mut self, t: TyId, v: usize, fields: Vec<Val>, ufield: Option<usize>) -> Val {
        let ti = self.prog.t(t);
        let mut cs: Vec<Cell> = vec![];
        match &ti.kind {
            TK::Array { elem, .. } => {
                let es = self.size(*elem);
                for (i, x) in fields.into_iter().enumerate() {
                    push_cells(&mut cs, i as u64 * es, es, x);
                }
            }
            TK::Agg { variants, en, .. } => {
                let empty = vec![];
                let fs = variants.get(v).unwrap_or(&empty);
                for (i, x) in fields.into_iter().enumerate() {
                    let fi = ufield.unwrap_or(i);
                    if let Some((o, ft)) = fs.get(fi) {
                        let s = self.size(*ft);
                        push_cells(&mut cs, *o, s, x);
                    }
                }
                if let Some(e) = en {
                    self.tag_cell(e, v, &mut cs);
                }
            }
            _ => {
                for x in fields {
                    push_cells(&mut cs, 0, 0, x);
                }
            }
        }
        cs.sort_by_key(|c| c.0);
        Val::Agg(Rc::new(cs))
    }
    fn tag_cell(&self, e: &EnumInfo, v: usize, cs: &mut Vec<Cell>) {
        if e.single.is_some() || e.tag_size == 0 {
            return;
        }
        let m = if e.tag_size >= 16 { -1i128 } else { (1i128 << (8 * e.tag_size)) - 1 };
        match &e.enc {
            Enc::Direct => {
                let d = e.discrs[v] as i128 & m;
                cs.push((e.tag_off, e.tag_size, iv(d)));
            }
            Enc::Niche { untagged, lo, start, .. } => {
                if v != *untagged {
                    let d = ((*start as i128) + (v as i128 - *lo as i128)) & m;
                    cs.push((e.tag_off, e.tag_size, iv(d)));
                }
            }
        }
    }
    fn discr(&mut self, st: &mut State, a: &Val, t: TyId) -> R<P> {
        let ti = self.prog.t(t);
        let TK::Agg { en: Some(e), .. } = &ti.kind else { return Ok(konst(0)) };
        if let Some(v) = e.single {
            return Ok(konst(e.discrs.get(v).copied().unwrap_or(0) as i128));
        }
        // raw tag value
        let env = st.env.clone();
        let (reg_off, _) = (Self::shift(a, &konst(e.tag_off as i128), None, &env), 0);
        let tag = self.load_raw(st, &reg_off, e.tag_size)?;
        self.discr_of(e, tag, &env)
    }
    fn discr_of(&mut self, e: &EnumInfo, tag: Val, env: &Env) -> R<P> {
        let m: i128 = if e.tag_size >= 16 { -1 } else { (1i128 << (8 * e.tag_size)) - 1 };
        match (&e.enc, tag) {
            (_, Val::Alt(c, x)) => {
                let a = self.discr_of(e, x.0.clone(), env)?;
                let b = self.discr_of(e, x.1.clone(), env)?;
                Ok(ite_e(&c, &a, &b, env))
            }
            (Enc::Direct, Val::Int(p)) => {
                if e.discrs.iter().any(|d| (*d as i128) & m != *d as i128) {
                    // signed discriminants (e.g. Ordering): sign-extend
                    let h = 1i128 << (8 * e.tag_size - 1);
                    if let Some(k) = p.is_const() {
                        let k = k & m;
                        return Ok(konst(*e.discrs.iter().find(|d| **d as i128 & m == k).unwrap_or(&0) as i128));
                    }
                    let (l, _) = range(&p, env);
                    if l < 0 {
                        return Ok(p);
                    }
                    let _ = h;
                    return Ok(p);
                }
                Ok(p)
            }
            (Enc::Niche { untagged, lo, .. }, Val::Ptr(p)) => Ok(ite_e(&p.nn, &konst(e.discrs[*untagged] as i128), &konst(e.discrs[*lo] as i128), env)),
            (Enc::Niche { untagged, lo, hi, start }, Val::Int(p)) => {
                let s = *start as i128 & m;
                let mut r = konst(e.discrs[*untagged] as i128);
                for v in *lo..=*hi {
                    let tagv = (s + (v - *lo) as i128) & m;
                    let c = eq0(&addc(&p, -tagv), env);
                    r = ite_e(&c, &konst(e.discrs[v] as i128), &r, env);
                }
                Ok(r)
            }
            (Enc::Niche { untagged, .. }, Val::Undef) => Ok(konst(e.discrs[*untagged] as i128)),
            (_, v) => {
                let n = e.discrs.iter().copied().max().unwrap_or(0) as i128;
                Ok(fresh(AKind::Phi, 0, n, val_taint(&v)))
            }
        }
    }
    /// untyped cell load (pointer cells are kept whole)
    fn load_raw(&mut self, st: &mut State, a: &Val, s: u64) -> R<Val> {
        match a {
            Val::Ptr(p) => {
                let off = simp(&p.off, &st.env);
                let Some(k) = off.is_const() else {
                    let env = st.env.clone();
                    if p.reg < GLOB {
                        if let Some(c) = self.candidates(&off, &env) {
                            let mut vs = vec![];
                            for k in c {
                                let v = self.load_raw(st, &ptr(p.reg, konst(k), None), s)?;
                                if !matches!(v, Val::Undef) {
                                    vs.push((k, v));
                                }
                            }
                            if vs.is_empty() {
                                return Ok(Val::Undef);
                            }
                            return Ok(self.select_val(&off, &vs, &env));
                        }
                    }
                    return self.fatal("discriminant at symbolic offset".into());
                };
                if p.reg >= GLOB {
                    if let Some(GlobK::Raw { bytes, ptrs }) = self.globs.get(p.reg.wrapping_sub(GLOB)) {
                        if ptrs.iter().any(|x| x.0 == k as u64) {
                            return Ok(ptr(GLOB, konst(0), None));
                        }
                        let b = &bytes[k as usize..(k as u64 + s) as usize];
                        return Ok(iv(b.iter().enumerate().fold(0u128, |x, (i, b)| x | ((b.unwrap_or(0) as u128) << (8 * i))) as i128));
                    }
                    return Ok(Val::Top(0));
                }
                let Some(r) = st.mem[p.reg].clone() else { return Ok(Val::Undef) };
                let i = cell_find(&r.cells, k as u64);
                if i < r.cells.len() && r.cells[i].0 == k as u64 {
                    if r.cells[i].1 == s || matches!(r.cells[i].2, Val::Ptr(_) | Val::Alt(..)) {
                        return Ok(r.cells[i].2.clone());
                    }
                }
                let w = r.window(k as u64, s, &st.env);
                if w.is_empty() {
                    return Ok(Val::Undef);
                }
                let mut v = konst(0);
                for (o, cs, x) in &w {
                    match as_p(x, *cs) {
                        Some(q) => v = add(&v, &scale(&q, 1i128 << (8 * o))),
                        None => return Ok(Val::Top(val_taint(x))),
                    }
                }
                Ok(Val::Int(v))
            }
            Val::Alt(c, x) => {
                let a = self.load_raw(st, &x.0, s)?;
                let b = self.load_raw(st, &x.1, s)?;
                Ok(ite_val(c, &a, &b, &st.env))
            }
            _ => Ok(Val::Undef),
        }
    }
    fn rvalue(&mut self, fr: &Fr, st: &mut State, rv: &Rv, span: &str, _t: TyId) -> R<Val> {
        let _ = span;
        match rv {
            Rv::Use(o) => self.op(fr, st, o),
            Rv::Repeat(o, n, t) => {
                let v = self.op(fr, st, o)?;
                let es = self.size(*t);
                let mut cs = vec![];
                for i in 0..*n {
                    push_cells(&mut cs, i * es, es, v.clone());
                }
                Ok(Val::Agg(Rc::new(cs)))
            }
            Rv::Ref(p) => {
                // &*p keeps the pointer itself
                let a = self.addr(fr, st, p)?;
                let fat = matches!(self.prog.t(p.ty).kind, TK::Slice { .. } | TK::Str | TK::Dyn) || self.prog.t(p.ty).size.is_none();
                if fat {
                    Ok(a)
                } else {
                    Ok(strip_meta(a))
                }
            }
            Rv::Bin(op, a, b, t) => {
                let x = self.op(fr, st, a)?;
                let y = self.op(fr, st, b)?;
                let env = st.env.clone();
                self.binop(*op, x, y, *t, &env)
            }
            Rv::Checked(op, a, b, t) => {
                let x = self.int(fr, st, a)?;
                let y = self.int(fr, st, b)?;
                let Some((bits, signed)) = self.int_ty(*t) else { return self.fatal("checked op type".into()) };
                let env = st.env.clone();
                let (v, o) = self.checked(*op, &x, &y, bits, signed, &env)?;
                let s = bits as u64 / 8;
                Ok(Val::Agg(Rc::new(vec![(0, s, Val::Int(v)), (s, 1, Val::Int(o))])))
            }
            Rv::Un(op, a, t) => {
                let v = self.op(fr, st, a)?;
                let env = st.env.clone();
                match (op, v) {
                    (UnOp::Not, Val::Int(p)) => match self.prog.t(*t).kind {
                        TK::Bool => Ok(Val::Int(not(&p))),
                        TK::Int { bits, signed } => Ok(Val::Int(if signed { addc(&neg(&p), -1) } else { addc(&neg(&p), (1i128 << bits) - 1) })),
                        _ => self.fatal("not".into()),
                    },
                    (UnOp::Neg, Val::Int(p)) => {
                        let (b, s) = self.int_ty(*t).unwrap();
                        Ok(Val::Int(self.wrap(&neg(&p), b, s, &env)))
                    }
                    (UnOp::Neg, Val::F(f)) => Ok(Val::F(fop(FOp::Neg, f.bits, &[f.clone()], &env))),
                    (UnOp::PtrMetadata, v) => match Self::meta_of(&v, &env) {
                        Some(m) => Ok(Val::Int(m)),
                        None => match &self.prog.t(*t).kind {
                            TK::Ptr { fat: Fat::No, .. } => Ok(Val::Agg(Rc::new(vec![]))),
                            _ => Ok(Val::Int(fresh(AKind::Phi, 0, i64::MAX as i128, val_taint(&v)))),
                        },
                    },
                    (_, v @ (Val::Top(_) | Val::Undef)) => Ok(self.havoc(*t, val_taint(&v))),
                    (o, v) => self.fatal(format!("unop {:?} on {}", o, show_val(&v))),
                }
            }
            Rv::Cast(k, o, f, t) => {
                let v = self.op(fr, st, o)?;
                let env = st.env.clone();
                self.cast(*k, v, *f, *t, &env)
            }
            Rv::Discr(p) => {
                let a = self.addr(fr, st, p)?;
                Ok(Val::Int(self.discr(st, &a, p.ty)?))
            }
            Rv::Len(p) => match &self.prog.t(p.ty).kind {
                TK::Array { len, .. } => Ok(iv(*len as i128)),
                _ => {
                    let a = self.addr(fr, st, p)?;
                    match Self::meta_of(&a, &st.env) {
                        Some(m) => Ok(Val::Int(m)),
                        None => self.fatal("length of unknown slice".into()),
                    }
                }
            },
            Rv::Agg(t, v, u, ops) => {
                let mut fs = vec![];
                for o in ops {
                    fs.push(self.op(fr, st, o)?);
                }
                Ok(self.variant_agg(*t, *v, fs, *u))
            }
            Rv::RawPtrAgg(_, a, m) => {
                let p = self.op(fr, st, a)?;
                let mv = self.op(fr, st, m)?;
                let meta = match mv {
                    Val::Int(p) => Some(p),
                    _ => None,
                };
                Ok(Self::shift(&Self::as_ptr(p), &konst(0), meta, &st.env))
            }
            Rv::Unknown(s) => self.fatal(format!("rvalue {}", s)),
        }
    }
    pub fn checked(&mut self, op: BinOp, x: &P, y: &P, bits: u32, signed: bool, e: &Env) -> R<(P, P)> {
        let r = match op {
            BinOp::Add => ceil_form(&add(x, y)),
            BinOp::Sub => sub(x, y),
            BinOp::Mul => mul(x, y),
            BinOp::Shl | BinOp::Shr => {
                let v = self.ibin(op, x, y, bits, signed, e)?;
                let o = or(&ge0(&addc(y, -(bits as i128)), e), &ge0(&addc(&neg(y), -1), e));
                return Ok((v, o));
            }
            o => return self.fatal(format!("checked {:?}", o)),
        };
        let (lo, hi) = int_range(bits, signed);
        let (l, h) = range(&r, e);
        if l >= lo && h <= hi {
            // the path may leave one value only
            return Ok((if l == h { konst(l) } else { r }, konst(0)));
        }
        let under = ge0(&addc(&neg(&r), lo - 1), e);
        let over = ge0(&addc(&r, -hi - 1), e);
        let o = or(&under, &over);
        // the value is only used when there was no overflow; the raw sum is the value then.
        Ok((r, o))
    }
    // ------------------------------------------------------------------ obligations
    pub fn oblige(&mut self, st: &mut State, fr: &Fr, span: &str, what: &str, c: &P) -> bool {
        let ok = match decide(c, &st.env) {
            Some(b) => b,
            None => prove(c, &st.env, self.depth_prove),
        };
        let detail = if ok { String::new() } else { format!("condition {} under path [{}]", show(&simp(c, &st.env)), st.path.iter().rev().take(6).map(|p| show(p)).collect::<Vec<_>>().join("; ")) };
        self.obs.push(Ob { func: fr.f.name.clone(), span: span.to_string(), what: what.to_string(), ok, detail });
        ok
    }
    fn can_ret(&mut self, f: &Rc<Func>) -> Rc<Vec<bool>> {
        if let Some(v) = self.can_ret.get(&f.id) {
            return v.clone();
        }
        let n = f.blocks.len();
        let mut ok = vec![false; n];
        for (i, b) in f.blocks.iter().enumerate() {
            ok[i] = matches!(b.term, Tm::Return);
        }
        loop {
            let mut ch = false;
            for i in 0..n {
                if !ok[i] && succs(&f.blocks[i].term).iter().any(|s| ok[*s]) {
                    ok[i] = true;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let r = Rc::new(ok);
        self.can_ret.insert(f.id, r.clone());
        r
    }
    // ------------------------------------------------------------------ control flow
    fn merge2(&mut self, fr: &Fr, at: usize, a: State, b: State) -> State {
        self.merges += 1;
        if a.env.dead {
            return b;
        }
        if b.env.dead {
            return a;
        }
        let mut l = 0;
        while l < a.path.len() && l < b.path.len() && a.path[l] == b.path[l] {
            l += 1;
        }
        let gate = if l < a.path.len() && l < b.path.len() && and(&a.path[l], &b.path[l]).is_const() == Some(0) {
            a.path[l].clone()
        } else if l < a.path.len() {
            wrapb(conj(&a.path[l..]))
        } else if l < b.path.len() {
            not(&wrapb(conj(&b.path[l..])))
        } else {
            konst(1)
        };
        let env = merge_env(&a.env, &b.env);
        let mut path = a.path[..l].to_vec();
        let w = or(&conj(&a.path[l..]), &conj(&b.path[l..]));
        let w = wrapb(w);
        if w.is_const().is_none() {
            path.push(w);
        }
        let n = a.mem.len().min(b.mem.len());
        let mut mem = Vec::with_capacity(n);
        let top = fr.base + fr.f.locals.len();
        for i in 0..n {
            let (x, y) = (&a.mem[i], &b.mem[i]);
            let dead_local = at != RET && i >= fr.base && i < top && !fr.f.live_in[at][i - fr.base] && !fr.f.addr_taken[i - fr.base];
            let dead_local = dead_local || (at == RET && i > fr.base && i < top);
            if dead_local {
                mem.push(None);
                continue;
            }
            match (x, y) {
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(x, y) {
                        mem.push(Some(x.clone()));
                    } else {
                        let (u, v) = (on_path(&x.cells, &y.cells, &a.env), on_path(&y.cells, &x.cells, &b.env));
                        let c = merge_cells(&gate, u.as_deref().unwrap_or(&x.cells), v.as_deref().unwrap_or(&y.cells), &env);
                        mem.push(Some(Rc::new(Region { cells: c })));
                    }
                }
                (Some(x), None) | (None, Some(x)) => mem.push(Some(x.clone())),
                _ => mem.push(None),
            }
        }
        State { env, path, mem }
    }
    pub fn merge_all(&mut self, fr: &Fr, at: usize, mut v: Vec<State>) -> Option<State> {
        v.retain(|s| !s.env.dead);
        let mut r = v.pop()?;
        // merge in order of longest common prefix (arrival order is depth-first, so backwards works)
        while let Some(x) = v.pop() {
            r = self.merge2(fr, at, x, r);
        }
        Some(r)
    }
    fn group(&mut self, fr: &Fr, v: Vec<(usize, State)>) -> Vec<(usize, State)> {
        if v.len() <= 1 {
            return v;
        }
        let mut order: Vec<usize> = vec![];
        let mut m: HashMap<usize, Vec<State>> = HashMap::new();
        for (b, s) in v {
            if !order.contains(&b) {
                order.push(b);
            }
            m.entry(b).or_default().push(s);
        }
        let mut out = vec![];
        for b in order {
            if b == RET && self.keep == Some(fr.base) {
                out.extend(m.remove(&b).unwrap().into_iter().map(|s| (b, s)));
                continue;
            }
            if let Some(s) = self.merge_all(fr, b, m.remove(&b).unwrap()) {
                out.push((b, s));
            }
        }
        out
    }
    fn step_check(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.max_steps {
            return self.fatal("analysis budget exhausted".into());
        }
        Ok(())
    }
    /// run from block b until one of the stop blocks (or RET); returns arrivals
    pub fn run(&mut self, fr: &Fr, mut b: usize, mut st: State, stops: &[usize], inloop: Option<usize>) -> R<Vec<(usize, State)>> {
        let mut out: Vec<(usize, State)> = vec![];
        let mut first = inloop == Some(b);
        loop {
            if st.env.dead {
                return Ok(self.group(fr, out));
            }
            if !first && stops.contains(&b) {
                out.push((b, st));
                return Ok(self.group(fr, out));
            }
            if !first {
                if let Some(li) = fr.f.head_of[b] {
                    // continue from the common exit
                    let x = self.loop_exit(fr, b, li);
                    let apart = if x == RET || stops.contains(&x) { None } else { self.sorts(fr, x) };
                    let leaves = x != RET && !stops.contains(&x) && self.ways_out(fr, x);
                    let mut arr = self.run_loop(fr, b, li, st, stops, apart.is_some() || leaves)?;
                    if leaves {
                        out.extend(arr.into_iter().map(|(t, s)| (if t == x { RET } else { t }, s)));
                        return Ok(self.group(fr, out));
                    }
                    if let Some((m, of)) = apart {
                        let (here, rest): (Vec<_>, Vec<_>) = arr.into_iter().partition(|a| a.0 == x);
                        out.extend(rest);
                        let mut here: Vec<State> = here.into_iter().map(|a| a.1).filter(|s| !s.env.dead).collect();
                        let mut sorted = here.len() > 2 && here.len() <= 20;
                        for s in &here {
                            let mut s = s.clone();
                            sorted = sorted && match self.addr(fr, &mut s, &of) {
                                Ok(a) => matches!(self.discr(&mut s, &a, of.ty), Ok(d) if d.is_const().is_some()),
                                Err(_) => false,
                            };
                        }
                        if sorted {
                            match self.run_apart(fr, x, here, m, stops, &mut out)? {
                                Some(s) => {
                                    b = m;
                                    st = s;
                                    continue;
                                }
                                None => return Ok(self.group(fr, out)),
                            }
                        }
                        let one = self.merge_all(fr, x, std::mem::take(&mut here));
                        arr = one.into_iter().map(|s| (x, s)).collect();
                    }
                    let mut next = None;
                    for (t, s) in arr {
                        if t == x && !stops.contains(&t) && t != RET {
                            next = Some(s);
                        } else {
                            out.push((t, s));
                        }
                    }
                    match next {
                        Some(s) => {
                            b = x;
                            st = s;
                            continue;
                        }
                        None => return Ok(self.group(fr, out)),
                    }
                }
            }
            first = false;
            self.blocks.insert((fr.f.id, b));
            let f = fr.f.clone();
            let blk = &f.blocks[b];
            for (s, sp) in &blk.stmts {
                self.step_check()?;
                match s {
                    St::Assign(p, rv, t) => {
                        let span = &f.spans[*sp as usize];
                        let v = self.rvalue(fr, &mut st, rv, span, *t)?;
                        if p.proj.is_empty() && (p.local < f.locals.len()) {
                            let s = self.size(p.ty);
                            if s > 0 {
                                let env = st.env.clone();
                                let r = self.region_mut(&mut st, fr.base + p.local);
                                r.cells.clear();
                                r.put(0, s, v, &env);
                            }
                        } else {
                            self.write_place(fr, &mut st, p, v, span)?;
                        }
                    }
                    St::SetDiscr(p, v) => {
                        let a = self.addr(fr, &mut st, p)?;
                        let ti = self.prog.t(p.ty);
                        if let TK::Agg { en: Some(e), .. } = &ti.kind {
                            let mut cs = vec![];
                            self.tag_cell(e, *v, &mut cs);
                            for (o, s, x) in cs {
                                if let Val::Ptr(pv) = Self::shift(&a, &konst(o as i128), None, &st.env) {
                                    self.store_pv(&mut st, &pv, s, x, "")?;
                                }
                            }
                        }
                    }
                    St::Copy(s, d, n, el) => {
                        let (s, d) = (self.op(fr, &mut st, s)?, self.op(fr, &mut st, d)?);
                        let n = self.int(fr, &mut st, n)?;
                        self.copy_n(fr, &mut st, &s, &d, &n, *el, &f.spans[*sp as usize])?;
                    }
                    St::Assume(o) => {
                        let c = self.int(fr, &mut st, o)?;
                        assume(&c, true, st.envm());
                    }
                    St::Dead(l) => st.mem[fr.base + l] = None,
                    St::Nop => {}
                }
            }
            self.step_check()?;
            let span = &f.spans[blk.tspan as usize];
            match &blk.term {
                Tm::Goto(t) | Tm::Drop(t, _) => b = *t,
                Tm::Return => {
                    out.push((RET, st));
                    return Ok(self.group(fr, out));
                }
                Tm::Unreachable | Tm::Abort => return Ok(self.group(fr, out)),
                Tm::Assert { cond, expected, target, msg } => {
                    let c = self.int(fr, &mut st, cond)?;
                    let c = if *expected { c } else { not(&c) };
                    let ok = self.oblige(&mut st, fr, span, msg, &c);
                    if !ok && decide(&c, &st.env) == Some(false) {
                        return Ok(self.group(fr, out));
                    }
                    if c.is_const().is_none() {
                        assume(&c, true, st.envm());
                        if !ok {
                            st.path.push(c);
                        }
                    }
                    b = *target;
                }
                Tm::Call(c) => {
                    let c = c.clone();
                    let mut args = vec![];
                    for (o, _) in &c.args {
                        args.push(self.op(fr, &mut st, o)?);
                    }
                    self.stack.push((f.id, b));
                    // `for x in it.filter(p)`: a rejected element leads back to the head of the loop
                    let resume = f.head_of[b].is_some() && stops.contains(&b) && self.filters(blk, &c);
                    if resume {
                        self.yield_on = Some(st.mem.len());
                    }
                    if let Some((m, t, own)) = self.finds(fr, &c, &args, stops) {
                        let mut found = vec![];
                        let mut rest = vec![st];
                        if own {
                            let mut s = rest.pop().unwrap();
                            let outer = self.keep.replace(s.mem.len());
                            let r = self.call(fr, &mut s, &c, args.clone(), span);
                            self.keep = outer;
                            let mut all = std::mem::take(&mut self.kept);
                            if let Some(v) = r? {
                                all.push((s, v));
                            }
                            for (mut s, v) in all {
                                self.write_place(fr, &mut s, &c.dest, v, span)?;
                                found.push(s);
                            }
                        }
                        while let Some(mut s) = rest.pop() {
                            if s.env.dead {
                                continue;
                            }
                            self.step_check()?;
                            self.yield_on = Some(s.mem.len());
                            let r = self.call(fr, &mut s, &c, args.clone(), span)?;
                            self.yield_on = None;
                            rest.append(&mut self.yielded);
                            if let Some(v) = r {
                                self.write_place(fr, &mut s, &c.dest, v, span)?;
                                found.push(s);
                            }
                        }
                        self.stack.pop();
                        match self.run_apart(fr, t, found, m, stops, &mut out)? {
                            Some(s) => {
                                b = m;
                                st = s;
                                continue;
                            }
                            None => return Ok(self.group(fr, out)),
                        }
                    }
                    let r = self.call(fr, &mut st, &c, args, span)?;
                    if resume {
                        for s in std::mem::take(&mut self.yielded) {
                            out.push((b, s));
                        }
                        self.yield_on = None;
                    }
                    self.stack.pop();
                    match (r, c.target) {
                        (Some(v), Some(t)) => {
                            self.write_place(fr, &mut st, &c.dest, v, span)?;
                            b = t;
                        }
                        _ => return Ok(self.group(fr, out)),
                    }
                }
                Tm::Switch(o, t, br, other) => {
                    let mut p = self.int(fr, &mut st, o)?;
                    let mut as_signed = None;
                    if let Some((bits, signed)) = self.int_ty(*t) {
                        if signed && bits < 128 {
                            // branch values are unsigned encodings
                            let (l, h) = range(&p, &st.env);
                            if l < 0 && l >= -(1i128 << (bits - 1)) && h < 1i128 << (bits - 1) {
                                as_signed = Some(bits);
                            } else if l < 0 {
                                p = mod_const(&p, 1i128 << bits, &st.env);
                            }
                        }
                    }
                    let env = st.env.clone();
                    let mut taken: Vec<(P, usize)> = vec![];
                    let mut rest = konst(1);
                    let mut done = false;
                    let cr = self.can_ret(&f);
                    for (k, tb) in br {
                        let k = match as_signed {
                            Some(bits) if *k as i128 >= 1i128 << (bits - 1) => *k as i128 - (1i128 << bits),
                            _ => *k as i128,
                        };
                        let mut c = eq0(&addc(&p, -k), &env);
                        if let Some(b) = decide(&c, &env) {
                            c = konst(b as i128);
                        }
                        match c.is_const() {
                            Some(0) => continue,
                            Some(_) => {
                                taken.push((rest.clone(), *tb));
                                done = true;
                                break;
                            }
                            None => {
                                taken.push((if taken.is_empty() { c.clone() } else { wrapb(and(&rest, &c)) }, *tb));
                                rest = wrapb(and(&rest, &not(&c)));
                            }
                        }
                    }
                    if !done && rest.is_const() != Some(0) {
                        taken.push((rest, *other));
                    }
                    // try harder before entering a diverging branch
                    let mut feas: Vec<(P, usize, State)> = vec![];
                    for (c, tb) in taken {
                        if matches!(f.blocks[tb].term, Tm::Unreachable) && f.blocks[tb].stmts.is_empty() {
                            continue;
                        }
                        if c.is_const().is_none() && !cr[tb] && prove(&not(&c), &env, self.depth_prove) {
                            continue;
                        }
                        let mut s = st.clone();
                        s.cond(&c);
                        if !s.env.dead {
                            feas.push((c, tb, s));
                        }
                    }
                    if feas.is_empty() {
                        return Ok(self.group(fr, out));
                    }
                    if feas.len() == 1 {
                        // the only feasible way: the condition is implied
                        let (c, tb, s) = feas.pop().unwrap();
                        st = s;
                        if c.is_const().is_none() {
                            st.path.pop();
                        }
                        b = tb;
                        continue;
                    }
                    // loop exits that hang on one named value: candidates for a case distinction
                    if f.loops.iter().any(|l| l.blocks[b] && feas.iter().any(|x| !l.blocks[x.1]) && feas.iter().any(|x| l.blocks[x.1])) {
                        for (c, _, _) in &feas {
                            if let Some(s) = poly_supp(c) {
                                if s.len() == 1 && matches!(atom_kind(s[0]), AKind::Named(_)) && !self.loop_tests.contains(&s[0]) {
                                    self.loop_tests.push(s[0]);
                                    if self.discover {
                                        return self.fatal("loop test found".into());
                                    }
                                }
                            }
                        }
                    }
                    let m = f.ipdom[b].unwrap_or(RET);
                    let mut inner: Vec<usize> = stops.to_vec();
                    if !inner.contains(&m) {
                        inner.push(m);
                    }
                    drop(env);
                    let mut at_m = vec![];
                    st = State::new();
                    for (_, tb, s) in feas {
                        for (t, s) in self.run(fr, tb, s, &inner, None)? {
                            if t == m {
                                at_m.push(s);
                            } else {
                                out.push((t, s));
                            }
                        }
                    }
                    if !stops.contains(&m) && self.ways_out(fr, m) {
                        out.extend(at_m.into_iter().map(|s| (RET, s)));
                        return Ok(self.group(fr, out));
                    }
                    match self.merge_all(fr, m, at_m) {
                        Some(s) => {
                            st = s;
                            if m == RET {
                                out.push((RET, st));
                                return Ok(self.group(fr, out));
                            }
                            b = m;
                        }
                        None => return Ok(self.group(fr, out)),
                    }
                }
            }
        }
    }
    /// a search whose result is branched on next: the branch, and where its ways meet again
    fn finds(&self, fr: &Fr, c: &CallT, args: &[Val], stops: &[usize]) -> Option<(usize, usize, bool)> {
        let f = &fr.f;
        let Callee::Fn(g) = c.callee else { return None };
        let t = c.target?;
        if stops.contains(&t) {
            return None;
        }
        let d = &self.prog.fns[g];
        if f.krate == "core" || !c.dest.proj.is_empty() || !matches!(&self.prog.t(c.dest.ty).kind, TK::Agg { en: Some(_), .. }) {
            return None;
        }
        let own = d.krate == f.krate;
        if !own {
            let n = d.name.split(" as core::iter::Iterator>::").nth(1)?;
            if d.krate != "core" || !(n.starts_with("find::<") || n.starts_with("find_map::<")) {
                return None;
            }
            // calling it again goes on where it left off, unless the closure keeps something itself
            let keeps = |v: &Val| match v {
                Val::Ptr(_) | Val::Fn(_) => false,
                Val::Agg(x) => x.iter().any(|c| !matches!(c.2, Val::Ptr(_))),
                _ => true,
            };
            if args.len() != 2 || keeps(&args[1]) {
                return None;
            }
        }
        let mut s = t;
        for _ in 0..12 {
            if stops.contains(&s) || f.head_of[s].is_some() {
                return None;
            }
            let blk = &f.blocks[s];
            match &blk.term {
                Tm::Switch(..) => match blk.stmts.iter().rev().find(|s| matches!(s.0, St::Assign(..))) {
                    Some((St::Assign(_, Rv::Discr(of), _), _)) if of.proj.is_empty() => return Some((f.ipdom[s].unwrap_or(RET), t, own)),
                    _ => s = f.ipdom[s].filter(|m| *m != RET)?,
                },
                Tm::Goto(n) | Tm::Drop(n, _) => s = *n,
                Tm::Assert { target, .. } => s = *target,
                Tm::Call(c) => s = c.target?,
                Tm::Return if self.ways_out(fr, t) => return Some((RET, t, own)),
                _ => return None,
            }
        }
        None
    }
    /// the block does nothing but call `next` of an iterator that passes over rejected elements,
    /// and calling it again has the same effect as going on to the next element
    fn filters(&self, blk: &Block, c: &CallT) -> bool {
        let Callee::Fn(f) = c.callee else { return false };
        let d = &self.prog.fns[f];
        let Some(mut n) = d.name.strip_prefix('<') else { return false };
        if d.krate != "core" || !n.ends_with(" as core::iter::Iterator>::next") {
            return false;
        }
        let strip = |n: &mut &str, of: &[&str]| -> bool {
            for k in of {
                if let Some(r) = n.strip_prefix("core::iter::").and_then(|r| r.strip_prefix(k)).and_then(|r| r.strip_prefix('<')) {
                    *n = r;
                    return true;
                }
            }
            false
        };
        while strip(&mut n, &["Map", "Enumerate", "Copied", "Cloned"]) {}
        if !strip(&mut n, &["Filter", "FilterMap"]) {
            return false;
        }
        while strip(&mut n, &["Map", "Enumerate", "Copied", "Cloned", "Filter", "FilterMap"]) {}
        ["core::slice::Iter<", "core::slice::IterMut<", "core::ops::Range<", "core::ops::RangeInclusive<", "core::iter::Zip<core::slice::Iter"].iter().any(|k| n.starts_with(k))
            && blk.stmts.iter().all(|(s, _)| matches!(s, St::Nop | St::Dead(_) | St::Assign(_, Rv::Ref(_), _)))
    }
    /// nearest postdominator of a loop header outside the loop
    fn loop_exit(&self, fr: &Fr, h: usize, li: usize) -> usize {
        let lp = &fr.f.loops[li];
        let mut x = fr.f.ipdom[h];
        while let Some(b) = x {
            if !lp.blocks[b] {
                return b;
            }
            x = fr.f.ipdom[b];
        }
        RET
    }
    /// the block leads straight to a branch on which variant a local holds: where its ways meet again
    fn sorts(&self, fr: &Fr, b: usize) -> Option<(usize, Place)> {
        let f = &fr.f;
        if f.krate == "core" || f.head_of[b].is_some() {
            return None;
        }
        let blk = &f.blocks[b];
        let Tm::Switch(..) = blk.term else { return None };
        let (St::Assign(_, Rv::Discr(of), _), _) = blk.stmts.iter().rev().find(|s| matches!(s.0, St::Assign(..)))? else { return None };
        if !of.proj.is_empty() {
            return None;
        }
        Some((f.ipdom[b].unwrap_or(RET), of.clone()))
    }
    /// is this frame's way out kept apart, and does the block only lead there?
    fn ways_out(&self, fr: &Fr, mut b: usize) -> bool {
        if self.keep != Some(fr.base) {
            return false;
        }
        for _ in 0..8 {
            if b == RET {
                return true;
            }
            if fr.f.head_of[b].is_some() || fr.f.blocks[b].stmts.iter().any(|s| !matches!(s.0, St::Nop | St::Dead(_))) {
                return false;
            }
            match &fr.f.blocks[b].term {
                Tm::Return => return true,
                Tm::Goto(n) | Tm::Drop(n, _) => b = *n,
                _ => return false,
            }
        }
        false
    }
    /// run several states separately to where their ways meet, and merge there
    fn run_apart(&mut self, fr: &Fr, b: usize, v: Vec<State>, m: usize, stops: &[usize], out: &mut Vec<(usize, State)>) -> R<Option<State>> {
        let mut inner: Vec<usize> = stops.to_vec();
        if !inner.contains(&m) {
            inner.push(m);
        }
        let mut at_m = vec![];
        for s in v {
            for (t, s) in self.run(fr, b, s, &inner, None)? {
                if t == m {
                    at_m.push(s);
                } else {
                    out.push((t, s));
                }
            }
        }
        if self.ways_out(fr, m) {
            out.extend(at_m.into_iter().map(|s| (RET, s)));
            return Ok(None);
        }
        match self.merge_all(fr, m, at_m) {
            Some(s) if m == RET || stops.contains(&m) => {
                out.push((m, s));
                Ok(None)
            }
            r => Ok(r),
        }
    }
    fn run_loop(&mut self, fr: &Fr, h: usize, li: usize, st: State, stops: &[usize], apart: bool) -> R<Vec<(usize, State)>> {
        let x = self.loop_exit(fr, h, li);
        let mut inner = stops.to_vec();
        for k in [h, x] {
            if !inner.contains(&k) {
                inner.push(k);
            }
        }
        if let Some(base) = self.yield_on.take_if(|_| fr.f.krate == "core" && ["try_fold", "find", "find_map"].iter().any(|n| fr.f.name.split("::").any(|p| p == *n || p.starts_with(&format!("{}<", n))))) {
            let mut exits = vec![];
            for (t, mut s) in self.run(fr, h, st, &inner, Some(h))? {
                if t == h {
                    s.mem.truncate(base);
                    self.yielded.push(s);
                } else {
                    exits.push((t, s));
                }
            }
            return Ok(self.group(fr, exits));
        }
        let key = (fr.f.id, h, hash_stack(&self.stack));
        if self.gen_memo.contains(&key) {
            return self.gen_loop(fr, h, li, st, &inner, x);
        }
        let snap = (st.clone(), self.events.len(), self.obs.len(), self.written_snapshot());
        let steps0 = self.steps;
        let mut cur = Some(st);
        let mut exits: Vec<(usize, State)> = vec![];
        let mut undec = 0;
        let mut iters = 0;
        while let Some(s) = cur.take() {
            iters += 1;
            if self.trace {
                eprintln!("{}loop {} bb{} iter {} undec {} steps {}", " ".repeat(self.stack.len()), fr.f.name, h, iters, undec, self.steps - steps0);
            }
            let arr = self.run(fr, h, s, &inner, Some(h))?;
            let mut exited = false;
            for (t, s) in arr {
                if t == h {
                    cur = Some(s);
                } else {
                    exits.push((t, s));
                    exited = true;
                }
            }
            if exited && cur.is_some() {
                undec += 1;
            }
            if undec > 20 || iters > 20000 || (undec > 2 && self.steps - steps0 > self.unroll_steps) {
                // give up unrolling
                let (st, ne, no, w) = snap;
                self.events.truncate(ne);
                self.obs.truncate(no);
                self.restore_written(w);
                self.gen_memo.insert(key);
                self.loops_general.insert((fr.f.id, h));
                return self.gen_loop(fr, h, li, st, &inner, x);
            }
        }
        if apart {
            return Ok(exits);
        }
        Ok(self.group(fr, exits))
    }
    pub fn written_snapshot(&self) -> Vec<bool> {
        self.syms.iter().map(|s| s.written).collect()
    }
    pub fn restore_written(&mut self, w: Vec<bool>) {
        for (s, w) in self.syms.iter_mut().zip(w) {
            s.written = w;
        }
    }
    /// call an IR function with argument values
    pub fn call_fn(&mut self, f: FnId, mut args: Vec<Val>, st: &mut State) -> R<Option<Val>> {
        if self.stack.len() > 200 {
            return self.fatal("call depth".into());
        }
        let Some(body) = self.prog.body(f) else {
            let n = self.prog.fns[f].name.clone();
            return self.fatal(format!("no body for {}", n));
        };
        if self.trace_calls {
            eprintln!("{}> {} [{}]", " ".repeat(self.stack.len()), body.name, args.iter().map(|a| show_val(a)).collect::<Vec<_>>().join(", "));
        }
        *self.fn_seen.entry(body.name.clone()).or_insert(0) += 1;
        let base = st.mem.len();
        st.mem.resize(base + body.locals.len(), None);
        let env = st.env.clone();
        // rust-call: spread the trailing tuple
        if body.is_closure && !body.spread && args.len() == 2 && body.argc != 2 {
            let tup = args.pop().unwrap();
            self.spread(&body, tup, &mut args, 2, &env)?;
        } else if body.is_closure && !body.spread && args.len() == 2 && body.argc == 2 {
            // one-tuple
            let tup = args.pop().unwrap();
            self.spread(&body, tup, &mut args, 2, &env)?;
        }
        if args.len() != body.argc {
            return self.fatal(format!("arity mismatch calling {} ({} vs {})", body.name, args.len(), body.argc));
        }
        for (i, a) in args.into_iter().enumerate() {
            let l = i + 1;
            let s = self.size(body.locals[l]);
            if s == 0 {
                continue;
            }
            let r = self.region_mut(st, base + l);
            r.put(0, s, a, &env);
        }
        let fr = Fr { f: body.clone(), base };
        let s0 = std::mem::replace(st, State::new());
        let v = self.run(&fr, 0, s0, &[RET], None)?;
        let v: Vec<State> = v.into_iter().filter(|x| x.0 == RET).map(|x| x.1).collect();
        let rt = body.locals[0];
        if self.keep == Some(base) && v.len() <= 20 {
            for mut s in v {
                if s.env.dead {
                    continue;
                }
                let rs = self.size(rt);
                let val = if rs == 0 { Val::Agg(Rc::new(vec![])) } else { self.load_at(&mut s, base, 0, rs, rt)? };
                s.mem.truncate(base);
                self.kept.push((s, val));
            }
            return Ok(None);
        }
        let Some(mut s) = self.merge_all(&fr, RET, v) else { return Ok(None) };
        let rs = self.size(rt);
        let val = if rs == 0 { Val::Agg(Rc::new(vec![])) } else { self.load_at(&mut s, base, 0, rs, rt)? };
        s.mem.truncate(base);
        *st = s;
        Ok(Some(val))
    }
    fn spread(&mut self, body: &Rc<Func>, tup: Val, args: &mut Vec<Val>, from: usize, env: &Env) -> R<()> {
        // tuple layout: find offsets through the tuple type built from the parameter types
        let tys: Vec<rustc_public::ty::Ty> = (from..=body.argc).map(|l| self.prog.t(body.locals[l]).ty).collect();
        let tt = rustc_public::ty::Ty::new_tuple(&tys);
        let tid = self.prog.ty(tt);
        let ti = self.prog.t(tid);
        let TK::Agg { variants, .. } = &ti.kind else { return self.fatal("tuple".into()) };
        let mut st = State::new();
        st.env = Rc::new(env.clone());
        let r = st.alloc();
        let s = self.size(tid);
        Rc::make_mut(st.mem[r].as_mut().unwrap()).put(0, s, tup, env);
        for (o, ft) in variants[0].clone() {
            let fs = self.size(ft);
            let v = if fs == 0 { Val::Agg(Rc::new(vec![])) } else { self.load_at(&mut st, r, o, fs, ft)? };
            args.push(v);
        }
        Ok(())
    }
    pub fn copy_n(&mut self, fr: &Fr, st: &mut State, s: &Val, d: &Val, n: &P, el: TyId, span: &str) -> R<()> {
        let n = simp(n, &st.env);
        let es = self.size(el);
        if es == 0 {
            return Ok(());
        }
        match n.is_const() {
            Some(k) => {
                let mut vals = vec![];
                for i in 0..k {
                    vals.push(self.load(st, &Self::shift(s, &konst(i * es as i128), None, &st.env.clone()), el)?);
                }
                for (i, v) in vals.into_iter().enumerate() {
                    self.store(st, &Self::shift(d, &konst(i as i128 * es as i128), None, &st.env.clone()), el, v, span)?;
                }
                Ok(())
            }
            None => {
                let (l, h) = range(&n, &st.env);
                if h - l > 64 || h > 256 {
                    return self.fatal(format!("copy of unbounded length {}", show(&n)));
                }
                // element i is copied when i < n
                let mut vals = vec![];
                for i in 0..h {
                    vals.push(self.load(st, &Self::shift(s, &konst(i * es as i128), None, &st.env.clone()), el)?);
                }
                for (i, v) in vals.into_iter().enumerate() {
                    let q = Self::shift(d, &konst(i as i128 * es as i128), None, &st.env.clone());
                    let g = ge0(&addc(&n, -(i as i128) - 1), &st.env);
                    if g.is_const() == Some(1) {
                        self.store(st, &q, el, v, span)?;
                        continue;
                    }
                    match &q {
                        Val::Ptr(p) if p.reg >= SYM && p.reg != NONE => {
                            let mut s2 = st.clone();
                            s2.cond(&g);
                            self.store(&mut s2, &q, el, v, span)?;
                        }
                        _ => {
                            let old = self.load(st, &q, el)?;
                            let nv = ite_val(&g, &v, &old, &st.env);
                            self.store(st, &q, el, nv, span)?;
                        }
                    }
                }
                let _ = fr;
                Ok(())
            }
        }
    }
}
trait OkX {
    fn ok(self, cx: &Cx) -> R<Val>;
}
impl OkX for Val {
    fn ok(self, _: &Cx) -> R<Val> {
        Ok(self)
    }
}
pub fn strip_meta(v: Val) -> Val {
    match v {
        Val::Ptr(p) if p.meta.is_some() => Val::Ptr(Rc::new(Pv { meta: None, ..(*p).clone() })),
        Val::Alt(c, x) => Val::Alt(c, Rc::new((strip_meta(x.0.clone()), strip_meta(x.1.clone())))),
        v => v,
    }
}
pub fn push_cells(cs: &mut Vec<Cell>, off: u64, size: u64, v: Val) {
    match v {
        Val::Agg(c) => {
            for (o, s, x) in c.iter() {
                cs.push((off + o, *s, x.clone()));
            }
        }
        Val::Undef => {}
        v => {
            if size > 0 {
                cs.push((off, size, v))
            }
        }
    }
}
pub fn cmp(op: BinOp, x: &P, y: &P, e: &Env) -> P {
    match op {
        BinOp::Eq => eq0(&sub(x, y), e),
        BinOp::Ne => not(&eq0(&sub(x, y), e)),
        BinOp::Lt => ge0(&addc(&sub(y, x), -1), e),
        BinOp::Le => ge0(&sub(y, x), e),
        BinOp::Gt => ge0(&addc(&sub(x, y), -1), e),
        _ => ge0(&sub(x, y), e),
    }
}
pub fn show_val(v: &Val) -> String {
    match v {
        Val::Undef => "undef".into(),
        Val::Int(p) => show(p),
        Val::F(f) => show_f(f),
        Val::Ptr(p) => format!("&r{}+{}{}{}", if p.reg >= SYM && p.reg != NONE { format!("S{}", p.reg - SYM) } else if p.reg >= GLOB { "G".into() } else { p.reg.to_string() }, show(&p.off), p.meta.as_ref().map_or(String::new(), |m| format!(" len {}", show(m))), if p.nn.is_const() == Some(1) { String::new() } else { format!(" nn {}", show(&p.nn)) }),
        Val::Alt(c, x) => format!("alt({},{},{})", show(c), show_val(&x.0), show_val(&x.1)),
        Val::Agg(c) => format!("{{{}}}", c.iter().take(6).map(|c| format!("{}:{}", c.0, show_val(&c.2))).collect::<Vec<_>>().join(", ")),
        Val::Fn(f) => format!("fn{}", f),
        Val::Top(_) => "top".into(),
    }
}
impl Cx {
    pub fn discr_pub(&mut self, st: &mut State, a: &Val, t: TyId) -> R<P> {
        let a = match a {
            Val::Agg(c) if c.len() == 1 => c[0].2.clone(),
            v => v.clone(),
        };
        self.discr(st, &a, t)
    }
    pub fn spread_pub(&mut self, body: &Rc<Func>, tup: Val, args: &mut Vec<Val>, env: &Env) -> R<()> {
        self.spread(body, tup, args, 1, env)
    }
}
