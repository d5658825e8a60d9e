//! Path-sensitive term evaluation of command-line code: local functions and the combinators of
//! Option/Result are entered, every other call stays a symbol applied to its arguments. What comes
//! out is, for every path, the ordered list of effectful calls with their argument terms, the
//! conditions taken and the outcome.
use crate::ir::{Enc, Konst, Prog, TyId, Fat, TK};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type R = Rc<T>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Undef,
    Int(i128),
    Flt(u64),
    Str(Rc<str>),
    Sym(Rc<str>),
    /// type name, variant, fields
    Agg(Rc<str>, usize, Vec<R>),
    Fun(usize),
    /// call of something that is not entered; id 0: a function of its arguments alone
    Call(u32, Rc<str>, Vec<R>),
    /// what a call left behind its k-th argument
    Out(R, u32),
    Fld(R, usize, usize),
    Discr(R),
    Bin(Rc<str>, R, R),
    Un(Rc<str>, R),
    /// integer conversion: from bits/signed to bits/signed
    Cast(u32, bool, u32, bool, R),
    Idx(R, R),
    Len(R),
    Ref(usize, Vec<Pe>),
    /// value of a slot at the head of a loop (loop, slot, value before the loop)
    Loop(u32, u32, R),
}
pub const NOV: usize = usize::MAX;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Pe {
    /// variant, field, number of fields, type name
    F(usize, usize, usize, Rc<str>),
    I(R),
    End(u64),
    Sub(u64, u64, bool),
}
pub fn int(c: i128) -> R {
    Rc::new(T::Int(c))
}
pub fn call(n: &str, a: Vec<R>) -> R {
    Rc::new(T::Call(0, n.into(), a))
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub term: R,
    pub name: Rc<str>,
    pub args: Vec<R>,
    pub func: Rc<str>,
    pub span: String,
    /// the call yields a Result
    pub fallible: bool,
    /// number of conditions known when the call was made
    pub at: usize,
}
#[derive(Clone)]
pub struct St {
    pub objs: Vec<R>,
    pub cons: Vec<(R, bool, i128)>,
    pub evs: Vec<Rc<Ev>>,
}
#[derive(Clone)]
pub enum End {
    Return(R),
    Panic(String),
    Exit(R),
}
pub struct Path {
    pub st: St,
    pub end: End,
}
/// one summarised loop: what one iteration does to its slots
pub struct LoopRec {
    pub id: u32,
    pub slots: Vec<(u32, R)>,
    /// per path of an iteration: conditions taken, events, slot values at the next head
    pub iters: Vec<(Vec<(R, bool, i128)>, Vec<Rc<Ev>>, Vec<R>)>,
}
pub struct Tx {
    pub prog: Prog,
    pub ended: Vec<Path>,
    pub err: Option<String>,
    pub funs: Vec<Instance>,
    pub closures: HashMap<String, (ClosureDef, GenericArgs)>,
    bodies: HashMap<Instance, Option<Rc<Body>>>,
    pub loops: Vec<LoopRec>,
    pub calls: u64,
    pub steps: u64,
    pub seen: BTreeMap<String, u64>,
    depth: u32,
    pub opaque: BTreeMap<String, u64>,
    /// field names of the types met, per variant; variants with their discriminants
    pub fields: BTreeMap<(String, usize), Vec<String>>,
    pub variants: BTreeMap<String, Vec<(String, i128)>>,
}
fn head(t: &str) -> String {
    // last path segment without generics
    let t = t.trim().trim_start_matches('&').trim_start_matches("mut ").trim();
    let mut o = String::new();
    let mut d = 0;
    let mut prev = ' ';
    for c in t.chars() {
        match c {
            '<' => d += 1,
            '>' if prev != '-' => d -= 1,
            c if d == 0 => o.push(c),
            _ => {}
        }
        prev = c;
    }
    let o = o.trim_end_matches(':').to_string();
    o.rsplit("::").next().unwrap_or(&o).to_string()
}
/// "Type::method", "Type as Trait::method" or "module::function"
pub fn norm(n: &str) -> String {
    let split = |s: &str| -> Vec<String> {
        let (mut v, mut cur, mut d, mut prev) = (vec![], String::new(), 0, ' ');
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            match c {
                '<' | '(' | '[' | '{' => d += 1,
                '>' if prev == '-' => {}
                '>' | ')' | ']' | '}' => d -= 1,
                _ => {}
            }
            if d == 0 && c == ':' && i + 1 < b.len() && b[i + 1] == ':' {
                v.push(std::mem::take(&mut cur));
                i += 2;
                prev = ':';
                continue;
            }
            cur.push(c);
            prev = c;
            i += 1;
        }
        v.push(cur);
        v
    };
    let mut out: Vec<String> = vec![];
    for s in split(n) {
        if s.starts_with('<') {
            let inner = &s[1..s.len().saturating_sub(1)];
            if let Some(x) = inner.strip_prefix("impl ") {
                out.push(head(x));
                continue;
            }
            // as at depth 0
            let mut d = 0;
            let mut pos = None;
            let ch: Vec<char> = inner.chars().collect();
            for i in 0..ch.len() {
                match ch[i] {
                    '<' | '(' | '[' => d += 1,
                    '>' if i > 0 && ch[i - 1] == '-' => {}
                    '>' | ')' | ']' => d -= 1,
                    _ => {}
                }
                if d == 0 && ch[i..].iter().collect::<String>().starts_with(" as ") {
                    pos = Some(i);
                    break;
                }
            }
            match pos {
                Some(p) => {
                    let a: String = ch[..p].iter().collect();
                    let b: String = ch[p + 4..].iter().collect();
                    out.push(format!("{} as {}", head(&a), head(&b)));
                }
                None if out.is_empty() => out.push(head(inner)),
                None => {}
            }
            continue;
        }
        if !s.is_empty() {
            out.push(head(&s));
        }
    }
    let k = out.len();
    if k >= 2 {
        format!("{}::{}", out[k - 2], out[k - 1])
    } else {
        out.join("::")
    }
}
const WRAP: &[&str] = &["MaybeUninit", "ManuallyDrop", "MaybeDangling", "Box", "BoxRaw", "Unique", "NonNull"];

impl Tx {
    pub fn new() -> Tx {
        Tx { prog: Prog::default(), ended: vec![], err: None, funs: vec![], closures: HashMap::new(), bodies: HashMap::new(), loops: vec![], calls: 0, steps: 0, seen: BTreeMap::new(), depth: 0, opaque: BTreeMap::new(), fields: BTreeMap::new(), variants: BTreeMap::new() }
    }
    pub fn fatal(&mut self, m: String) {
        if self.err.is_none() {
            self.err = Some(m);
        }
    }
    fn body(&mut self, i: Instance) -> Option<Rc<Body>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let b = if i.has_body() { i.body().map(Rc::new) } else { None };
        self.bodies.insert(i, b.clone());
        b
    }
    // ---- constants
    fn decode(&mut self, t: TyId, bytes: &[Option<u8>], ptrs: &[(u64, rustc_public::mir::alloc::AllocId)], off: usize) -> R {
        let info = self.prog.t(t);
        let raw = |o: usize, n: usize| -> u128 { (0..n.min(16)).fold(0, |x, i| x | ((bytes.get(o + i).copied().flatten().unwrap_or(0) as u128) << (8 * i))) };
        match &info.kind {
            TK::Int { bits, signed } => {
                let r = raw(off, *bits as usize / 8);
                int(if *signed && *bits < 128 { ((r << (128 - bits)) as i128) >> (128 - bits) } else { r as i128 })
            }
            TK::Bool => int(raw(off, 1) as i128),
            TK::Char => int(raw(off, 4) as i128),
            TK::Float(b) => Rc::new(T::Flt(if *b == 32 { (f32::from_bits(raw(off, 4) as u32) as f64).to_bits() } else { raw(off, 8) as u64 })),
            TK::Ptr { pointee, fat } => {
                let Some(p) = ptrs.iter().find(|p| p.0 == off as u64) else {
                    let n = raw(off + 8, 8) as i128;
                    if *fat == Fat::Slice && n == 0 {
                        return if matches!(self.prog.t(*pointee).kind, TK::Str) { Rc::new(T::Str("".into())) } else { Rc::new(T::Agg("array".into(), 0, vec![])) };
                    }
                    return Rc::new(T::Undef);
                };
                let base = raw(off, 8) as usize;
                match GlobalAlloc::from(p.1) {
                    GlobalAlloc::Memory(a) => {
                        let pt: Vec<_> = a.provenance.ptrs.iter().map(|(o, p)| (*o as u64, p.0)).collect();
                        let pk = self.prog.t(*pointee);
                        match (&pk.kind, fat) {
                            (TK::Str, _) => {
                                let n = raw(off + 8, 8) as usize;
                                let s: Vec<u8> = a.bytes[base..base + n].iter().map(|b| b.unwrap_or(0)).collect();
                                Rc::new(T::Str(String::from_utf8_lossy(&s).into_owned().into()))
                            }
                            (TK::Slice { elem }, _) => {
                                let n = raw(off + 8, 8) as usize;
                                let es = self.prog.size(*elem) as usize;
                                Rc::new(T::Agg("array".into(), 0, (0..n.min(4096)).map(|i| self.decode(*elem, &a.bytes, &pt, base + i * es)).collect()))
                            }
                            _ => self.decode(*pointee, &a.bytes, &pt, base),
                        }
                    }
                    GlobalAlloc::Function(i) => {
                        self.funs.push(i);
                        Rc::new(T::Fun(self.funs.len() - 1))
                    }
                    _ => Rc::new(T::Sym(format!("static:{}", info.name).into())),
                }
            }
            TK::Array { elem, len } => {
                let es = self.prog.size(*elem) as usize;
                Rc::new(T::Agg("array".into(), 0, (0..*len as usize).map(|i| self.decode(*elem, bytes, ptrs, off + i * es)).collect()))
            }
            TK::Agg { variants, en, .. } => {
                let v = match en {
                    None => 0,
                    Some(e) => match e.single {
                        Some(s) => s,
                        None => {
                            let tag = raw(off + e.tag_off as usize, e.tag_size as usize);
                            match &e.enc {
                                Enc::Direct => e.discrs.iter().position(|d| *d & (u128::MAX >> (128 - 8 * e.tag_size as u32)) == tag).unwrap_or(0),
                                Enc::Niche { untagged, lo, hi, start } => {
                                    let m = u128::MAX >> (128 - 8 * e.tag_size as u32);
                                    let isptr = ptrs.iter().any(|p| p.0 == off as u64 + e.tag_off);
                                    let rel = tag.wrapping_sub(*start) & m;
                                    if !isptr && rel <= (hi - lo) as u128 {
                                        lo + rel as usize
                                    } else {
                                        *untagged
                                    }
                                }
                            }
                        }
                    },
                };
                let fs = variants.get(v).cloned().unwrap_or_default();
                let nm = head(&info.name);
                let f: Vec<R> = fs.iter().map(|(o, t)| self.decode(*t, bytes, ptrs, off + *o as usize)).collect();
                if WRAP.contains(&nm.as_str()) && f.len() >= 1 {
                    return f[0].clone();
                }
                Rc::new(T::Agg(nm.into(), v, f))
            }
            TK::FnDef => self.fndef(info.ty),
            _ => Rc::new(T::Sym(format!("const:{}", info.name).into())),
        }
    }
    fn fndef(&mut self, t: Ty) -> R {
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            if let Ok(i) = Instance::resolve(d, &a) {
                self.funs.push(i);
                return Rc::new(T::Fun(self.funs.len() - 1));
            }
        }
        Rc::new(T::Undef)
    }
    fn zst(&mut self, t: Ty) -> R {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(..)) => self.fndef(t),
            TyKind::RigidTy(RigidTy::Closure(d, a)) => self.closure(d, a, vec![]),
            _ => {
                let id = self.prog.ty(t);
                self.decode(id, &[], &[], 0)
            }
        }
    }
    fn closure(&mut self, d: ClosureDef, a: GenericArgs, ups: Vec<R>) -> R {
        let n = format!("closure:{}:{:?}", d.name(), d.def_id());
        self.closures.insert(n.clone(), (d, a));
        Rc::new(T::Agg(n.into(), 0, ups))
    }
    fn konst(&mut self, c: &MirConst) -> R {
        let t = c.ty();
        match self.prog.konst(c) {
            Konst::Int(v, _) => int(v),
            Konst::Float(f, _) => Rc::new(T::Flt(f.to_bits())),
            Konst::Zst(_) => self.zst(t),
            Konst::Mem { ty, bytes, ptrs } => self.decode(ty, &bytes, &ptrs, 0),
        }
    }
    // ---- memory
    fn get(&mut self, v: &R, p: &Pe) -> R {
        match p {
            Pe::F(var, i, _, _) => match &**v {
                T::Agg(_, w, f) if *var == NOV || var == w => f.get(*i).cloned().unwrap_or_else(|| Rc::new(T::Undef)),
                T::Agg(..) | T::Undef => Rc::new(T::Undef),
                _ => Rc::new(T::Fld(v.clone(), *var, *i)),
            },
            Pe::I(i) => idx(v, i),
            Pe::End(k) => match &**v {
                T::Agg(_, _, f) => f.get(f.len().wrapping_sub(*k as usize)).cloned().unwrap_or_else(|| Rc::new(T::Undef)),
                _ => Rc::new(T::Idx(v.clone(), Rc::new(T::Bin("Sub".into(), len(v), int(*k as i128))))),
            },
            Pe::Sub(a, b, e) => match &**v {
                T::Agg(n, _, f) => {
                    let hi = if *e { f.len() - *b as usize } else { *b as usize };
                    Rc::new(T::Agg(n.clone(), 0, f[*a as usize..hi].to_vec()))
                }
                _ => call("subslice", vec![v.clone(), int(*a as i128), int(*b as i128), int(*e as i128)]),
            },
        }
    }
    pub fn read(&mut self, st: &St, o: usize, path: &[Pe]) -> R {
        let mut v = st.objs[o].clone();
        for p in path {
            v = self.get(&v, p);
        }
        v
    }
    fn put(&mut self, v: &R, path: &[Pe], x: R) -> R {
        let Some(p) = path.first() else { return x };
        match p {
            Pe::F(var, i, n, nm) => {
                let (w, mut f) = match &**v {
                    T::Agg(_, w, f) if *var == NOV || var == w => (*w, f.clone()),
                    T::Agg(..) | T::Undef => (if *var == NOV { 0 } else { *var }, vec![Rc::new(T::Undef); *n]),
                    _ => (if *var == NOV { 0 } else { *var }, (0..*n).map(|k| Rc::new(T::Fld(v.clone(), *var, k))).collect()),
                };
                while f.len() <= *i {
                    f.push(Rc::new(T::Undef));
                }
                f[*i] = self.put(&f[*i].clone(), &path[1..], x);
                let nm = match &**v {
                    T::Agg(n, _, _) => n.clone(),
                    _ => nm.clone(),
                };
                Rc::new(T::Agg(nm, w, f))
            }
            Pe::I(i) => {
                if let (T::Agg(n, w, f), T::Int(k)) = (&**v, &**i) {
                    if (*k as usize) < f.len() {
                        let mut f = f.clone();
                        f[*k as usize] = self.put(&f[*k as usize].clone(), &path[1..], x);
                        return Rc::new(T::Agg(n.clone(), *w, f));
                    }
                }
                let old = idx(v, i);
                let nw = self.put(&old, &path[1..], x);
                call("store", vec![v.clone(), i.clone(), nw])
            }
            _ => {
                self.fatal("store to part of a slice".into());
                v.clone()
            }
        }
    }
    fn write(&mut self, st: &mut St, o: usize, path: &[Pe], x: R) {
        let v = st.objs[o].clone();
        st.objs[o] = self.put(&v, path, x);
    }
    pub fn snap(&mut self, st: &St, v: &R, d: u32) -> R {
        if d > 30 {
            return v.clone();
        }
        match &**v {
            T::Ref(o, p) => {
                let x = self.read(st, *o, p);
                self.snap(st, &x, d + 1)
            }
            T::Agg(n, w, f) if f.iter().any(|x| has_ref(x)) => Rc::new(T::Agg(n.clone(), *w, f.iter().map(|x| self.snap(st, x, d + 1)).collect())),
            T::Call(i, n, a) if a.iter().any(|x| has_ref(x)) => Rc::new(T::Call(*i, n.clone(), a.iter().map(|x| self.snap(st, x, d + 1)).collect())),
            T::Fld(x, a, b) if has_ref(x) => {
                let x = self.snap(st, x, d + 1);
                self.get(&x, &Pe::F(*a, *b, 0, "".into()))
            }
            _ => v.clone(),
        }
    }
    /// references an argument hands over, by reading through values
    fn refs(&self, st: &St, v: &R, out: &mut Vec<(usize, Vec<Pe>)>, d: u32) {
        if d > 6 {
            return;
        }
        match &**v {
            T::Ref(o, p) => out.push((*o, p.clone())),
            T::Agg(_, _, f) => f.iter().for_each(|x| self.refs(st, x, out, d + 1)),
            _ => {}
        }
    }
}
pub fn has_ref(v: &R) -> bool {
    match &**v {
        T::Ref(..) => true,
        T::Agg(_, _, f) | T::Call(_, _, f) => f.iter().any(has_ref),
        T::Fld(x, ..) | T::Out(x, _) | T::Discr(x) | T::Un(_, x) | T::Cast(_, _, _, _, x) | T::Len(x) => has_ref(x),
        T::Bin(_, a, b) | T::Idx(a, b) => has_ref(a) || has_ref(b),
        _ => false,
    }
}
pub fn idx(v: &R, i: &R) -> R {
    if let (T::Agg(_, _, f), T::Int(k)) = (&**v, &**i) {
        if (*k as usize) < f.len() {
            return f[*k as usize].clone();
        }
    }
    Rc::new(T::Idx(v.clone(), i.clone()))
}
pub fn len(v: &R) -> R {
    match &**v {
        T::Agg(_, _, f) => int(f.len() as i128),
        T::Str(s) => int(s.len() as i128),
        T::Call(0, n, a) if &**n == "vec::from_elem" => a[1].clone(),
        _ => Rc::new(T::Len(v.clone())),
    }
}
pub fn cast(fb: u32, fs: bool, tb: u32, ts: bool, x: &R) -> R {
    if fb == tb && fs == ts {
        return x.clone();
    }
    match &**x {
        T::Int(c) => {
            let r = if tb >= 128 { *c } else if ts { (*c << (128 - tb)) >> (128 - tb) } else { *c & ((1i128 << tb) - 1) };
            int(r)
        }
        T::Cast(gb, gs, _, _, y) if *gb <= fb && (!*gs && !fs || *gs == fs) => cast(*gb, *gs, tb, ts, y),
        _ => Rc::new(T::Cast(fb, fs, tb, ts, x.clone())),
    }
}
pub fn bin(op: &str, a: &R, b: &R) -> R {
    if let (T::Int(x), T::Int(y)) = (&**a, &**b) {
        let (x, y) = (*x, *y);
        let r = match op {
            "Add" => x.checked_add(y),
            "Sub" => x.checked_sub(y),
            "Mul" => x.checked_mul(y),
            "Div" if y != 0 => Some(x / y),
            "Rem" if y != 0 => Some(x % y),
            "BitAnd" => Some(x & y),
            "BitOr" => Some(x | y),
            "BitXor" => Some(x ^ y),
            "Eq" => Some((x == y) as i128),
            "Ne" => Some((x != y) as i128),
            "Lt" => Some((x < y) as i128),
            "Le" => Some((x <= y) as i128),
            "Gt" => Some((x > y) as i128),
            "Ge" => Some((x >= y) as i128),
            _ => None,
        };
        if let Some(r) = r {
            return int(r);
        }
    }
    if a == b && !matches!(&**a, T::Flt(_)) {
        match op {
            "Eq" | "Le" | "Ge" => return int(1),
            "Ne" | "Lt" | "Gt" => return int(0),
            _ => {}
        }
    }
    // products and sums in one order
    if matches!(op, "Add" | "Mul") {
        let mut v = vec![];
        fn flat(op: &str, t: &R, v: &mut Vec<R>) {
            match &**t {
                T::Bin(o, a, b) if &**o == op => {
                    flat(op, a, v);
                    flat(op, b, v);
                }
                _ => v.push(t.clone()),
            }
        }
        flat(op, a, &mut v);
        flat(op, b, &mut v);
        let (mut c, unit) = if op == "Add" { (0i128, 0) } else { (1, 1) };
        v.retain(|x| match &**x {
            T::Int(k) => {
                c = if op == "Add" { c.wrapping_add(*k) } else { c.wrapping_mul(*k) };
                false
            }
            _ => true,
        });
        v.sort_by_key(|x| format!("{:?}", x));
        if c != unit || v.is_empty() {
            v.push(int(c));
        }
        let mut r = v[0].clone();
        for x in &v[1..] {
            r = Rc::new(T::Bin(op.into(), r, x.clone()));
        }
        return r;
    }
    if matches!(op, "Eq" | "Ne") && matches!(&**a, T::Int(_)) {
        return Rc::new(T::Bin(op.into(), b.clone(), a.clone()));
    }
    Rc::new(T::Bin(op.into(), a.clone(), b.clone()))
}

/// loop heads with the blocks of their loops
fn find_loops(b: &Body) -> Vec<(usize, HashSet<usize>)> {
    let succ = |i: usize| -> Vec<usize> {
        match &b.blocks[i].terminator.kind {
            TerminatorKind::Goto { target } | TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![*target],
            TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
            TerminatorKind::Call { target: Some(t), .. } => vec![*t],
            _ => vec![],
        }
    };
    let n = b.blocks.len();
    let mut color = vec![0u8; n];
    let mut backs: Vec<(usize, usize)> = vec![];
    let mut stack: Vec<(usize, Vec<usize>)> = vec![(0, succ(0))];
    color[0] = 1;
    while let Some((x, ss)) = stack.last_mut() {
        let x = *x;
        match ss.pop() {
            Some(y) if color[y] == 1 => backs.push((x, y)),
            Some(y) if color[y] == 0 => {
                color[y] = 1;
                stack.push((y, succ(y)));
            }
            Some(_) => {}
            None => {
                color[x] = 2;
                stack.pop();
            }
        }
    }
    let mut preds = vec![vec![]; n];
    for i in 0..n {
        for t in succ(i) {
            preds[t].push(i);
        }
    }
    let mut out: Vec<(usize, HashSet<usize>)> = vec![];
    for (s, h) in backs {
        let k = match out.iter().position(|l| l.0 == h) {
            Some(k) => k,
            None => {
                out.push((h, HashSet::from([h])));
                out.len() - 1
            }
        };
        let mut w = vec![s];
        while let Some(x) = w.pop() {
            if out[k].1.insert(x) {
                w.extend(preds[x].iter().copied());
            }
        }
    }
    out
}
enum Cur {
    Loc(usize, Vec<Pe>),
    Val(R),
}
struct Fr {
    body: Rc<Body>,
    base: usize,
    name: Rc<str>,
}

impl Tx {
    fn nm(&mut self, t: Ty) -> Rc<str> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                let n = head(&d.name());
                self.note(d);
                n.into()
            }
            TyKind::RigidTy(RigidTy::Tuple(_)) => "tuple".into(),
            TyKind::RigidTy(RigidTy::Array(..)) => "array".into(),
            _ => "".into(),
        }
    }
    pub fn note(&mut self, d: AdtDef) {
        let n = head(&d.name());
        if self.variants.contains_key(&n) {
            return;
        }
        let mut vs = vec![];
        for (i, v) in d.variants_iter().enumerate() {
            let dis = if d.kind() == AdtKind::Enum { d.discriminant_for_variant(VariantIdx::to_val(i)).val as i128 } else { 0 };
            vs.push((v.name().to_string(), dis));
            let f: Vec<String> = v.fields().iter().map(|f| f.name.to_string()).collect();
            self.fields.insert((n.clone(), if d.kind() == AdtKind::Enum { i } else { NOV }), f);
        }
        self.variants.insert(n, vs);
    }
    fn nfields(&self, t: Ty, v: usize) -> usize {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants_iter().nth(if v == NOV { 0 } else { v }).map_or(0, |v| v.fields().len()),
            TyKind::RigidTy(RigidTy::Tuple(f)) => f.len(),
            _ => 0,
        }
    }
    fn loc(&mut self, fr: &Fr, st: &St, p: &Place) -> Cur {
        let mut ty = fr.body.locals()[p.local].ty;
        let mut cur = Cur::Loc(fr.base + p.local, vec![]);
        let mut down = NOV;
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let v = match &cur {
                        Cur::Loc(o, p) => self.read(st, *o, p),
                        Cur::Val(v) => v.clone(),
                    };
                    cur = match &*v {
                        T::Ref(o, p) => Cur::Loc(*o, p.clone()),
                        _ => Cur::Val(v),
                    };
                    ty = match ty.kind() {
                        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => t,
                        k => k.builtin_deref(true).map(|m| m.ty).unwrap_or(ty),
                    };
                }
                ProjectionElem::Field(i, fty) => {
                    let nm = self.nm(ty);
                    if !WRAP.contains(&&*nm) {
                        let isenum = matches!(ty.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum);
                        let v = if isenum { if down == NOV { 0 } else { down } } else { NOV };
                        let pe = Pe::F(v, *i, self.nfields(ty, v), nm);
                        cur = self.step(cur, pe);
                    }
                    ty = *fty;
                    down = NOV;
                }
                ProjectionElem::Index(l) => {
                    let i = self.read(st, fr.base + *l, &[]);
                    cur = self.step(cur, Pe::I(i));
                    ty = elem(ty);
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    cur = self.step(cur, if *from_end { Pe::End(*offset) } else { Pe::I(int(*offset as i128)) });
                    ty = elem(ty);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    cur = self.step(cur, Pe::Sub(*from, *to, *from_end));
                }
                ProjectionElem::Downcast(v) => down = v.to_index(),
                _ => {}
            }
        }
        cur
    }
    fn step(&mut self, cur: Cur, pe: Pe) -> Cur {
        match cur {
            Cur::Loc(o, mut p) => {
                p.push(pe);
                Cur::Loc(o, p)
            }
            Cur::Val(v) => Cur::Val(self.get(&v, &pe)),
        }
    }
    fn rd(&mut self, fr: &Fr, st: &St, p: &Place) -> R {
        match self.loc(fr, st, p) {
            Cur::Loc(o, p) => self.read(st, o, &p),
            Cur::Val(v) => v,
        }
    }
    fn wr(&mut self, fr: &Fr, st: &mut St, p: &Place, x: R) {
        match self.loc(fr, st, p) {
            Cur::Loc(o, q) => self.write(st, o, &q, x),
            Cur::Val(v) => {
                // what the pointer came from has been opaque since it was handed out
                if !rooted(&v) {
                    self.fatal(format!("{}: store through a pointer the analysis does not know ({})", fr.name, show(&v)));
                }
                st.evs.push(Rc::new(Ev { term: v.clone(), name: "store".into(), args: vec![v, x], func: fr.name.clone(), span: String::new(), fallible: false, at: st.cons.len() }));
            }
        }
    }
    fn op(&mut self, fr: &Fr, st: &St, o: &Operand) -> R {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.rd(fr, st, p),
            Operand::Constant(c) => self.konst(&c.const_),
            #[allow(unreachable_patterns)]
            _ => int(0),
        }
    }
    fn discr(&mut self, v: &R, t: Ty) -> R {
        self.nm(t);
        match &**v {
            T::Agg(_, w, _) => match t.kind() {
                TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => int(d.discriminant_for_variant(VariantIdx::to_val(*w)).val as i128),
                _ => int(*w as i128),
            },
            _ => Rc::new(T::Discr(v.clone())),
        }
    }
    fn int_ty(t: Ty) -> Option<(u32, bool)> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Int(i)) => Some((i.num_bytes() as u32 * 8, true)),
            TyKind::RigidTy(RigidTy::Uint(i)) => Some((i.num_bytes() as u32 * 8, false)),
            TyKind::RigidTy(RigidTy::Bool) => Some((8, false)),
            TyKind::RigidTy(RigidTy::Char) => Some((32, false)),
            _ => None,
        }
    }
    fn rvalue(&mut self, fr: &Fr, st: &mut St, rv: &Rvalue) -> R {
        match rv {
            Rvalue::Use(o, ..) => self.op(fr, st, o),
            Rvalue::CopyForDeref(p) => self.rd(fr, st, p),
            Rvalue::Repeat(o, n) => {
                let v = self.op(fr, st, o);
                let k = n.eval_target_usize().unwrap_or(0);
                if k <= 256 {
                    Rc::new(T::Agg("array".into(), 0, vec![v; k as usize]))
                } else {
                    call("repeat", vec![v, int(k as i128)])
                }
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => match self.loc(fr, st, p) {
                Cur::Loc(o, p) => Rc::new(T::Ref(o, p)),
                Cur::Val(v) => v,
            },
            Rvalue::BinaryOp(op, a, b) => {
                let (x, y) = (self.op(fr, st, a), self.op(fr, st, b));
                bin(&format!("{:?}", op).replace("Unchecked", ""), &x, &y)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (x, y) = (self.op(fr, st, a), self.op(fr, st, b));
                // the overflowing case panics right afterwards
                Rc::new(T::Agg("tuple".into(), 0, vec![bin(&format!("{:?}", op), &x, &y), int(0)]))
            }
            Rvalue::UnaryOp(op, a) => {
                let x = self.op(fr, st, a);
                match op {
                    UnOp::PtrMetadata => {
                        let v = self.snap(st, &x, 0);
                        len(&v)
                    }
                    UnOp::Not => {
                        let isb = matches!(a.ty(fr.body.locals()).map(|t| t.kind()), Ok(TyKind::RigidTy(RigidTy::Bool)));
                        match &*x {
                            T::Int(c) if isb => int(1 - *c),
                            T::Un(o, y) if &**o == "not" => y.clone(),
                            _ => Rc::new(T::Un(if isb { "not".into() } else { "Not".into() }, x)),
                        }
                    }
                    UnOp::Neg => match &*x {
                        T::Int(c) => int(-*c),
                        _ => Rc::new(T::Un("Neg".into(), x)),
                    },
                }
            }
            Rvalue::Cast(k, o, to) => {
                let x = self.op(fr, st, o);
                let from = o.ty(fr.body.locals()).unwrap();
                match (k, Tx::int_ty(from), Tx::int_ty(*to)) {
                    (CastKind::IntToInt, Some((fb, fs)), Some((tb, ts))) => cast(fb, fs, tb, ts, &x),
                    (CastKind::IntToInt, None, Some((tb, ts))) => match from.kind() {
                        TyKind::RigidTy(RigidTy::Adt(..)) => {
                            let d = self.discr(&x, from);
                            cast(64, true, tb, ts, &d)
                        }
                        _ => call(&format!("cast {}", to), vec![x]),
                    },
                    (CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)), ..) => self.fndef(from),
                    (CastKind::PointerCoercion(_) | CastKind::PtrToPtr | CastKind::Transmute, ..) => x,
                    (CastKind::FloatToInt | CastKind::FloatToFloat | CastKind::IntToFloat, ..) => call(&format!("cast {} {}", from, to), vec![x]),
                    _ => x,
                }
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(fr.body.locals()).unwrap();
                let v = self.rd(fr, st, p);
                self.discr(&v, t)
            }
            Rvalue::Len(p) => {
                let v = self.rd(fr, st, p);
                let v = self.snap(st, &v, 0);
                len(&v)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut f: Vec<R> = ops.iter().map(|o| self.op(fr, st, o)).collect();
                match k {
                    AggregateKind::Adt(d, v, _, _, fld) => {
                        self.note(*d);
                        let nm = head(&d.name());
                        if WRAP.contains(&nm.as_str()) && !f.is_empty() {
                            return f[0].clone();
                        }
                        if let Some(i) = fld {
                            let mut g = vec![Rc::new(T::Undef); *i + 1];
                            g[*i] = f.remove(0);
                            f = g;
                        }
                        Rc::new(T::Agg(nm.into(), v.to_index(), f))
                    }
                    AggregateKind::Closure(d, a) => self.closure(*d, a.clone(), f),
                    AggregateKind::RawPtr(..) => f[0].clone(),
                    AggregateKind::Array(_) => Rc::new(T::Agg("array".into(), 0, f)),
                    _ => Rc::new(T::Agg("tuple".into(), 0, f)),
                }
            }
            r => {
                self.fatal(format!("unsupported expression {:?}", r));
                Rc::new(T::Undef)
            }
        }
    }
    /// what the conditions say about a term
    pub fn known(st: &St, t: &R) -> (Option<i128>, Vec<i128>) {
        let mut ne = vec![];
        for (x, eq, v) in &st.cons {
            if x == t {
                if *eq {
                    return (Some(*v), ne);
                }
                ne.push(*v);
            }
        }
        (None, ne)
    }
    fn domain(t: Ty, boolean: bool) -> Option<Vec<i128>> {
        if boolean {
            return Some(vec![0, 1]);
        }
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => Some((0..d.variants_iter().count()).map(|i| d.discriminant_for_variant(VariantIdx::to_val(i)).val as i128).collect()),
            _ => None,
        }
    }
    /// split a switch on a term: per branch value (or none), the conditions it adds
    fn split(&self, st: &St, t: &R, branches: &[(i128, usize)], other: usize, isbool: bool) -> Vec<(Vec<(R, bool, i128)>, usize)> {
        let tgt = |v: i128| branches.iter().find(|b| b.0 == v).map_or(other, |b| b.1);
        match &**t {
            T::Int(c) => return vec![(vec![], tgt(*c))],
            T::Un(o, x) if &**o == "not" => {
                let b: Vec<(i128, usize)> = vec![(0, tgt(1)), (1, tgt(0))];
                return self.split(st, x, &b, other, true);
            }
            T::Bin(o, a, b) if isbool && (&**o == "Eq" || &**o == "Ne") => {
                if let T::Int(c) = &**b {
                    let yes = (&**o == "Eq") as i128;
                    let (eq, ne) = Tx::known(st, a);
                    if let Some(v) = eq {
                        return vec![(vec![], tgt(if v == *c { yes } else { 1 - yes }))];
                    }
                    if ne.contains(c) {
                        return vec![(vec![], tgt(1 - yes))];
                    }
                    return vec![(vec![(a.clone(), true, *c)], tgt(yes)), (vec![(a.clone(), false, *c)], tgt(1 - yes))];
                }
            }
            _ => {}
        }
        let (eq, ne) = Tx::known(st, t);
        if let Some(v) = eq {
            return vec![(vec![], tgt(v))];
        }
        if isbool {
            if ne.contains(&0) {
                return vec![(vec![], tgt(1))];
            }
            if ne.contains(&1) {
                return vec![(vec![], tgt(0))];
            }
            return vec![(vec![(t.clone(), true, 0)], tgt(0)), (vec![(t.clone(), true, 1)], tgt(1))];
        }
        let mut out: Vec<(Vec<(R, bool, i128)>, usize)> = vec![];
        for (v, b) in branches {
            if !ne.contains(v) {
                out.push((vec![(t.clone(), true, *v)], *b));
            }
        }
        out.push((branches.iter().filter(|b| !ne.contains(&b.0)).map(|b| (t.clone(), false, b.0)).collect(), other));
        out
    }
    /// run a function to all its returns
    pub fn run(&mut self, inst: Instance, args: Vec<R>, mut st: St) -> Vec<(St, R)> {
        let Some(body) = self.body(inst) else {
            self.fatal(format!("no body for {}", inst.name()));
            return vec![];
        };
        if self.depth > 60 {
            self.fatal(format!("recursion at {}", inst.name()));
            return vec![];
        }
        self.depth += 1;
        *self.seen.entry(inst.name().to_string()).or_insert(0) += 1;
        let base = st.objs.len();
        for (i, _) in body.locals().iter().enumerate() {
            st.objs.push(if i >= 1 && i <= args.len() { args[i - 1].clone() } else { Rc::new(T::Undef) });
        }
        let fr = Fr { body: body.clone(), base, name: norm(&inst.name()).into() };
        let loops = Rc::new(find_loops(&body));
        let (out, _, _) = self.exec(&fr, &loops, st, 0, None);
        self.depth -= 1;
        out
    }
    /// run from a block to all returns; inside a loop, also to the next head and to the exits
    fn exec(&mut self, fr: &Fr, loops: &Rc<Vec<(usize, HashSet<usize>)>>, st: St, start: usize, within: Option<usize>) -> (Vec<(St, R)>, Vec<St>, Vec<(St, usize)>) {
        let body = fr.body.clone();
        let (mut out, mut backs, mut exits) = (vec![], vec![], vec![]);
        let mut work: Vec<(St, usize)> = vec![(st, start)];
        let mut first = true;
        while let Some((mut st, bb)) = work.pop() {
            if self.err.is_some() {
                break;
            }
            if let (Some(w), false) = (within, first) {
                if bb == loops[w].0 {
                    backs.push(st);
                    continue;
                }
                if !loops[w].1.contains(&bb) {
                    exits.push((st, bb));
                    continue;
                }
            }
            if !(first && within.is_some()) {
                if let Some(l) = loops.iter().position(|l| l.0 == bb) {
                    first = false;
                    for e in self.summarise(fr, loops, st, l) {
                        work.push(e);
                    }
                    continue;
                }
            }
            first = false;
            self.steps += 1;
            if self.steps > 3_000_000 {
                self.fatal("too many paths".into());
                break;
            }
            let blk = &body.blocks[bb];
            for s in &blk.statements {
                match &s.kind {
                    StatementKind::Assign(p, rv) => {
                        let v = self.rvalue(fr, &mut st, rv);
                        self.wr(fr, &mut st, p, v);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let v = self.rd(fr, &st, place);
                        let t = place.ty(body.locals()).unwrap();
                        let f = match &*v {
                            T::Agg(_, _, f) => f.clone(),
                            _ => vec![],
                        };
                        let nm = self.nm(t);
                        self.wr(fr, &mut st, place, Rc::new(T::Agg(nm, variant_index.to_index(), f)));
                    }
                    _ => {}
                }
            }
            let span = || {
                let l = blk.terminator.source_info.span.get_lines();
                format!("{}:{}", blk.terminator.source_info.span.get_filename(), l.start_line)
            };
            match &blk.terminator.kind {
                TerminatorKind::Goto { target } => work.push((st, *target)),
                TerminatorKind::Drop { target, .. } => work.push((st, *target)),
                TerminatorKind::Assert { target, .. } => work.push((st, *target)),
                TerminatorKind::Return => {
                    let r = st.objs[fr.base].clone();
                    out.push((st, r));
                }
                TerminatorKind::Unreachable | TerminatorKind::Resume | TerminatorKind::Abort => {}
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(body.locals()).unwrap();
                    let isbool = matches!(t.kind(), TyKind::RigidTy(RigidTy::Bool));
                    let v = self.op(fr, &st, discr);
                    let bits = Tx::int_ty(t).unwrap_or((128, false));
                    let br: Vec<(i128, usize)> = targets.branches().map(|(v, b)| (if bits.1 && bits.0 < 128 { ((v << (128 - bits.0)) as i128) >> (128 - bits.0) } else { v as i128 }, b)).collect();
                    let _ = Tx::domain;
                    for (cs, b) in self.split(&st, &v, &br, targets.otherwise(), isbool) {
                        // an impossible variant
                        if matches!(body.blocks[b].terminator.kind, TerminatorKind::Unreachable) && body.blocks[b].statements.is_empty() {
                            continue;
                        }
                        let mut s = st.clone();
                        s.cons.extend(cs);
                        work.push((s, b));
                    }
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<R> = args.iter().map(|o| self.op(fr, &st, o)).collect();
                    let at: Vec<Ty> = args.iter().map(|o| o.ty(body.locals()).unwrap()).collect();
                    let fty = func.ty(body.locals()).unwrap();
                    let dty = destination.ty(body.locals()).unwrap();
                    let fv = self.op(fr, &st, func);
                    self.calls += 1;
                    let sp = span();
                    for (mut s, v) in self.invoke(&fr.name.clone(), fty, fv, a, at, dty, target.is_some(), st, sp) {
                        if let Some(t) = target {
                            self.wr(fr, &mut s, destination, v);
                            work.push((s, *t));
                        }
                    }
                }
                TerminatorKind::InlineAsm { .. } => self.fatal("inline assembly".into()),
            }
        }
        (out, backs, exits)
    }
    /// one generic iteration: slots the loop changes get a value of their own at its head
    fn summarise(&mut self, fr: &Fr, loops: &Rc<Vec<(usize, HashSet<usize>)>>, st: St, l: usize) -> Vec<(St, usize)> {
        // a short loop whose course is settled is followed as it is
        let (mark, nl) = (self.ended.len(), self.loops.len());
        let mut cur = st.clone();
        for _ in 0..20 {
            let (out, mut backs, exits) = self.exec(fr, loops, cur, loops[l].0, Some(l));
            if self.err.is_some() {
                return vec![];
            }
            if out.is_empty() && backs.is_empty() {
                return exits;
            }
            // paths that stay are to be one, and leaving only by a panic
            if !out.is_empty() || backs.len() != 1 || !exits.is_empty() || self.ended.len() != mark {
                break;
            }
            cur = backs.pop().unwrap();
            if cur.cons.len() != st.cons.len() {
                break;
            }
        }
        self.ended.truncate(mark);
        self.loops.truncate(nl);
        self.generic(fr, loops, st, l)
    }
    fn generic(&mut self, fr: &Fr, loops: &Rc<Vec<(usize, HashSet<usize>)>>, st: St, l: usize) -> Vec<(St, usize)> {
        let id = self.loops.len() as u32 + 1;
        self.loops.push(LoopRec { id, slots: vec![], iters: vec![] });
        let n = st.objs.len();
        let mut slots: Vec<usize> = vec![];
        for _ in 0..12 {
            let mut s = st.clone();
            for (k, o) in slots.iter().enumerate() {
                s.objs[*o] = Rc::new(T::Loop(id, k as u32, st.objs[*o].clone()));
            }
            let mark = self.ended.len();
            let nl = self.loops.len();
            s.evs.push(Rc::new(Ev { term: Rc::new(T::Sym(format!("loop{}", id).into())), name: "loop".into(), args: vec![], func: fr.name.clone(), span: String::new(), fallible: false, at: s.cons.len() }));
            let head = s.clone();
            let (_, backs, exits) = self.exec(fr, loops, s, loops[l].0, Some(l));
            let mut more = vec![];
            for b in &backs {
                for o in 0..n {
                    if !slots.contains(&o) && b.objs[o] != head.objs[o] && !more.contains(&o) {
                        more.push(o);
                    }
                }
            }
            if more.is_empty() {
                let rec = &mut self.loops[id as usize - 1];
                rec.slots = slots.iter().enumerate().map(|(k, o)| (k as u32, st.objs[*o].clone())).collect();
                rec.iters = backs.iter().map(|b| (b.cons[head.cons.len()..].to_vec(), b.evs[head.evs.len()..].to_vec(), slots.iter().map(|o| b.objs[*o].clone()).collect())).collect();
                return exits;
            }
            slots.extend(more);
            self.ended.truncate(mark);
            self.loops.truncate(nl);
            if self.err.is_some() {
                return vec![];
            }
        }
        self.fatal(format!("a loop in {} does not settle", fr.name));
        vec![]
    }
    fn panic(&mut self, st: St, why: String) -> Vec<(St, R)> {
        self.ended.push(Path { st, end: End::Panic(why) });
        vec![]
    }
    fn invoke(&mut self, func: &Rc<str>, fty: Ty, fv: R, a: Vec<R>, at: Vec<Ty>, dty: Ty, returns: bool, st: St, span: String) -> Vec<(St, R)> {
        let inst = match fty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, g)) => match Instance::resolve(d, &g) {
                Ok(i) => i,
                Err(_) => return self.opaque_call(func, &format!("{}", d.name()), "?", a, &at, dty, st, span, false),
            },
            _ => match &*fv {
                T::Fun(k) => self.funs[*k],
                _ => {
                    self.fatal(format!("indirect call in {}", func));
                    return vec![];
                }
            },
        };
        self.call_inst(func, inst, a, at, dty, returns, st, span)
    }
    /// call a closure or function value with these arguments
    pub fn apply(&mut self, func: &Rc<str>, f: &R, args: Vec<R>, at: Vec<Ty>, dty: Ty, mut st: St, span: String) -> Vec<(St, R)> {
        let fv = self.snap_fun(&st, f);
        match &*fv {
            T::Fun(k) => {
                let i = self.funs[*k];
                self.call_inst(func, i, args, at, dty, true, st, span)
            }
            T::Agg(n, _, _) if n.starts_with("closure:") => {
                let (d, g) = self.closures[&n.to_string()].clone();
                // the body itself, not the by-value shim
                let inst = [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce].into_iter().filter_map(|k| Instance::resolve_closure(d, &g, k).ok()).find(|i| i.kind != InstanceKind::Shim);
                let Some(inst) = inst else {
                    self.fatal(format!("closure {} cannot be resolved", n));
                    return vec![];
                };
                let Some(body) = self.body(inst) else {
                    self.fatal(format!("closure {} has no body", n));
                    return vec![];
                };
                let byref = matches!(body.locals()[1].ty.kind(), TyKind::RigidTy(RigidTy::Ref(..)));
                let me = if byref {
                    match &**f {
                        T::Ref(..) => f.clone(),
                        _ => {
                            st.objs.push(fv.clone());
                            Rc::new(T::Ref(st.objs.len() - 1, vec![]))
                        }
                    }
                } else {
                    fv.clone()
                };
                let mut v = vec![me];
                v.extend(args);
                self.run(inst, v, st)
            }
            _ => {
                self.fatal(format!("call of an unknown function value in {}: {}", func, show(&fv)));
                vec![]
            }
        }
    }
    fn snap_fun(&mut self, st: &St, f: &R) -> R {
        let mut v = f.clone();
        for _ in 0..8 {
            match &*v {
                T::Ref(o, p) => v = self.read(st, *o, p),
                _ => break,
            }
        }
        v
    }
    fn call_inst(&mut self, func: &Rc<str>, inst: Instance, a: Vec<R>, at: Vec<Ty>, dty: Ty, returns: bool, st: St, span: String) -> Vec<(St, R)> {
        let full = inst.name().to_string();
        let krate = inst.def.krate();
        let n = norm(&full);
        if !returns || matches!(dty.kind(), TyKind::RigidTy(RigidTy::Never)) {
            if krate.is_local {
                // an own helper that never returns
                if inst.has_body() {
                    self.run(inst, a, st);
                    return vec![];
                }
            }
            if n == "process::exit" {
                self.ended.push(Path { st, end: End::Exit(a[0].clone()) });
                return vec![];
            }
            return self.panic(st, format!("{} at {}", n, span));
        }
        // function traits
        if n.ends_with("FnOnce::call_once") || n.ends_with("FnMut::call_mut") || n.ends_with("Fn::call") {
            let tup = match &*a[1] {
                T::Agg(_, _, f) => f.clone(),
                _ => vec![],
            };
            let tt = match at.get(1).map(|t| t.kind()) {
                Some(TyKind::RigidTy(RigidTy::Tuple(v))) => v,
                _ => vec![],
            };
            return self.apply(func, &a[0], tup, tt, dty, st, span);
        }
        if matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..))) {
            let tup = match a.get(1).map(|x| &**x) {
                Some(T::Agg(_, _, f)) => f.clone(),
                _ => vec![],
            };
            return self.apply(func, &a[0], tup, vec![], dty, st, span);
        }
        if (n.ends_with("PartialEq::eq") || n.ends_with("PartialEq::ne")) && at.len() == 2 && plain_enum(strip_ref(at[0])) && plain_enum(strip_ref(at[1])) {
            let t = strip_ref(at[0]);
            let (x, y) = (self.snap(&st, &a[0], 0), self.snap(&st, &a[1], 0));
            let (x, y) = (self.discr(&x, t), self.discr(&y, t));
            return vec![(st, bin(if n.ends_with("eq") { "Eq" } else { "Ne" }, &x, &y))];
        }
        if inst.is_empty_shim() {
            return vec![(st, Rc::new(T::Agg("tuple".into(), 0, vec![])))];
        }
        if let Some(r) = self.model(func, &n, &krate.name, &a, &at, dty, &st) {
            return r;
        }
        if self.enter(inst, &full, &n, &krate) {
            return self.run(inst, a, st);
        }
        self.opaque_call(func, &n, &krate.name, a, &at, dty, st, span, true)
    }
    fn enter(&mut self, inst: Instance, full: &str, n: &str, krate: &rustc_public::Crate) -> bool {
        if !inst.has_body() || inst.kind == InstanceKind::Intrinsic {
            return false;
        }
        if krate.is_local {
            // code generated by the argument parser's derive stays a symbol
            return !n.contains(" as Parser::") && !n.contains(" as CommandFactory::") && !n.contains(" as FromArgMatches::") && !n.contains(" as Args::") && !n.contains(" as Subcommand::") && !n.contains(" as ValueEnum::");
        }
        if krate.name == "core" || krate.name == "std" || krate.name == "alloc" {
            for m in ["option::Option", "result::Result", "::convert::", "ops::control_flow", "ops::try_trait", "::mem::", "cmp::PartialEq", "bool::", "Option as ", "Result as ", "Option<", "Result<"] {
                if full.contains(m) || n.contains(m) {
                    // conversions between library types stay symbols
                    if (n.contains(" as Into::into") || n.contains(" as TryInto::try_into") || n.ends_with("::branch") || n.ends_with("::from_residual") || n.ends_with("::from_output")) || n.starts_with("Option::") || n.starts_with("Result::") || n.starts_with("Option as ") || n.starts_with("Result as ") || n.starts_with("mem::") || n.starts_with("bool::") || n.starts_with("ControlFlow") {
                        return !n.contains(" as Iterator") && !n.contains(" as FromIterator") && !n.contains(" as IntoIterator");
                    }
                }
            }
            return false;
        }
        // derived comparisons and copies of plain enums
        (n.ends_with(" as PartialEq::eq") || n.ends_with(" as PartialEq::ne") || n.ends_with(" as Clone::clone")) && matches!(inst.args().0.first(), Some(GenericArgKind::Type(t)) if plain_enum(*t))
            || {
                let s = inst.ty();
                let _ = s;
                (n.ends_with(" as PartialEq::eq") || n.ends_with(" as Clone::clone")) && first_arg_enum(inst)
            }
    }
    fn model(&mut self, _func: &Rc<str>, n: &str, krate: &str, a: &[R], _at: &[Ty], dty: Ty, st: &St) -> Option<Vec<(St, R)>> {
        let one = |st: &St, v: R| Some(vec![(st.clone(), v)]);
        let std = matches!(krate, "core" | "std" | "alloc");
        // plain accessors of the file format library
        if krate == "ddsfile" {
            if let Some(f) = match n {
                "Dds::get_width" => Some("width"),
                "Dds::get_height" => Some("height"),
                _ => None,
            } {
                let h = self.fields.get(&("Dds".to_string(), NOV))?.iter().position(|x| x == "header")?;
                let f = self.fields.get(&("Header".to_string(), NOV)).map_or(Some(if f == "height" { 0 } else { 1 }), |v| v.iter().position(|x| x == f))?;
                let v = self.snap(st, &a[0], 0);
                let v = self.get(&v, &Pe::F(NOV, h, 0, "Dds".into()));
                let v = self.get(&v, &Pe::F(NOV, f, 0, "Header".into()));
                return one(st, v);
            }
        }
        if !std {
            return None;
        }
        let m = n.rsplit("::").next().unwrap_or("");
        let tr = n.split(" as ").nth(1).and_then(|s| s.split("::").next()).unwrap_or("");
        let ty = n.split("::").next().unwrap_or("").split(" as ").next().unwrap_or("").to_string();
        // same place
        let through = |s: &mut Tx, v: &R| -> R {
            // a box holds the reference to its content
            match &**v {
                T::Ref(o, p) => {
                    let x = s.read(st, *o, p);
                    match &*x {
                        T::Ref(..) => x,
                        _ => v.clone(),
                    }
                }
                _ => v.clone(),
            }
        };
        match (tr, m) {
            ("Deref", "deref") | ("DerefMut", "deref_mut") | ("AsRef", "as_ref") | ("AsMut", "as_mut") | ("Borrow", "borrow") | ("BorrowMut", "borrow_mut") => {
                let v = through(self, &a[0]);
                return one(st, v);
            }
            ("Clone", "clone") | ("ToOwned", "to_owned") | ("ToString", "to_string") => {
                let v = self.snap(st, &a[0], 0);
                return one(st, v);
            }
            ("Index", "index") | ("IndexMut", "index_mut") => {
                let i = self.snap(st, &a[1], 0);
                match &*i {
                    T::Agg(n, _, _) if &**n == "RangeFull" => {
                        let v = through(self, &a[0]);
                        return one(st, v);
                    }
                    T::Agg(..) => {
                        if tr == "Index" {
                            let v = self.snap(st, &a[0], 0);
                            return one(st, call("slice", vec![v, i.clone()]));
                        }
                        return None;
                    }
                    _ => {
                        if let T::Ref(o, p) = &*through(self, &a[0]) {
                            let mut p = p.clone();
                            p.push(Pe::I(i));
                            return one(st, Rc::new(T::Ref(*o, p)));
                        }
                        return one(st, idx(&a[0], &i));
                    }
                }
            }
            ("From", "from") | ("Into", "into") if stringy(&ty) && matches!(dty.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if stringy(&head(&d.name()))) => {
                let v = self.snap(st, &a[0], 0);
                return one(st, v);
            }
            _ => {}
        }
        if m == "next" && ty == "Range" {
            if let T::Ref(o, p) = &*a[0] {
                let v = self.read(st, *o, p);
                if let T::Agg(nm, _, f) = &*v {
                    if let (true, T::Int(lo), T::Int(hi)) = (&**nm == "Range", &*f[0], &*f[1]) {
                        let mut s = st.clone();
                        if lo < hi {
                            self.write(&mut s, *o, p, Rc::new(T::Agg(nm.clone(), 0, vec![int(lo + 1), int(*hi)])));
                            return Some(vec![(s, Rc::new(T::Agg("Option".into(), 1, vec![int(*lo)])))]);
                        }
                        return Some(vec![(s, Rc::new(T::Agg("Option".into(), 0, vec![])))]);
                    }
                }
            }
            return None;
        }
        if n.contains(" as ") {
            return match (tr, m) {
                ("PartialEq", "eq") | ("PartialEq", "ne") => {
                    let (x, y) = (self.snap(st, &a[0], 0), self.snap(st, &a[1], 0));
                    let e = match (&*x, &*y) {
                        (T::Str(p), T::Str(q)) => int((p == q) as i128),
                        _ => {
                            if plain_enum(strip_ref(_at[0])) {
                                return None;
                            }
                            let (x, y) = if format!("{:?}", x) <= format!("{:?}", y) { (x, y) } else { (y, x) };
                            if x == y { int(1) } else { call("eq", vec![x, y]) }
                        }
                    };
                    one(st, if m == "eq" { e } else { match &*e { T::Int(c) => int(1 - c), _ => Rc::new(T::Un("not".into(), e)) } })
                }
                ("IntoIterator", "into_iter") => {
                    let v = self.snap(st, &a[0], 0);
                    one(st, v)
                }
                _ => None,
            };
        }
        match n {
            "Path::new" | "OsStr::new" | "Path::as_os_str" | "PathBuf::as_path" | "PathBuf::as_os_str" | "String::as_str" | "str::as_str" | "Vec::as_slice" | "Vec::as_mut_slice" | "String::as_mut_str" | "PathBuf::as_mut_os_string" | "Path::as_mut_os_str" | "OsString::as_os_str" | "slice::as_slice" => {
                let v = through(self, &a[0]);
                one(st, v)
            }
            "Path::to_path_buf" | "OsStr::to_os_string" | "slice::to_vec" | "[T]::to_vec" | "slice::into_vec" | "Cow::into_owned" | "String::into_boxed_str" | "PathBuf::into_os_string" | "boxed::box_assume_init_into_vec_unsafe" | "Vec::into_boxed_slice" | "[T]::into_vec" => {
                let v = self.snap(st, &a[0], 0);
                one(st, v)
            }
            "Vec::len" | "str::len" | "slice::len" | "[T]::len" | "String::len" | "OsStr::len" => {
                let v = self.snap(st, &a[0], 0);
                one(st, len(&v))
            }
            "Vec::is_empty" | "str::is_empty" | "slice::is_empty" | "[T]::is_empty" | "String::is_empty" => {
                let v = self.snap(st, &a[0], 0);
                one(st, bin("Eq", &len(&v), &int(0)))
            }
            "Box::new" | "Box::new_uninit" => {
                let mut s = st.clone();
                s.objs.push(a.first().cloned().unwrap_or_else(|| Rc::new(T::Undef)));
                let r = Rc::new(T::Ref(s.objs.len() - 1, vec![]));
                Some(vec![(s, r)])
            }
            _ => None,
        }
    }
    fn opaque_call(&mut self, func: &Rc<str>, n: &str, krate: &str, a: Vec<R>, at: &[Ty], dty: Ty, mut st: St, span: String, _known: bool) -> Vec<(St, R)> {
        let args: Vec<R> = a.iter().map(|x| self.snap(&st, x, 0)).collect();
        let span_of = span.clone();
        let muta: Vec<bool> = at.iter().map(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut)) | TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)))).collect();
        let std = matches!(krate, "core" | "std" | "alloc");
        // only the codec's own mutation is an effect of its own; library values change through their place
        let io = ["fs::", "File::", "io::", "env::", "process::", "Stdin", "Stdout", "Stderr", "BufWriter", "BufReader", "Write::", "Read::", "Seek::", "OpenOptions", "LineWriter", "Command::", "thread::", "time::", "Path::exists", "Path::is_file", "Path::is_dir", "Path::metadata", "Path::try_exists", "Path::canonicalize", "Path::read_", "Path::symlink", "DirBuilder"].iter().any(|p| n.starts_with(p) || n.contains(&format!(" as {}", p)));
        let pure_std = std && !io;
        let byval = at.iter().any(|t| !matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(..)) | TyKind::RigidTy(RigidTy::Int(_)) | TyKind::RigidTy(RigidTy::Uint(_)) | TyKind::RigidTy(RigidTy::Bool) | TyKind::RigidTy(RigidTy::Float(_))) && !plain_enum(*t));
        let codec = krate == "texpresso";
        let effect = if std { io } else if codec { muta.iter().any(|m| *m) } else { muta.iter().any(|m| *m) || byval || at.is_empty() || n.contains("write") || n.contains("read") };
        let _ = pure_std;
        let id = if effect { st.evs.len() as u32 + 1 } else { 0 };
        let term: R = Rc::new(T::Call(id, n.into(), args.clone()));
        *self.opaque.entry(format!("{}{}", n, if effect { " (effect)" } else { "" })).or_insert(0) += 1;
        if effect {
            let fallible = matches!(dty.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if head(&d.name()) == "Result");
            st.evs.push(Rc::new(Ev { term: term.clone(), name: n.into(), args: args.clone(), func: func.clone(), span, fallible, at: st.cons.len() }));
        }
        for (k, x) in a.iter().enumerate() {
            // mutable references, also inside values
            let mut rs = vec![];
            if muta[k] {
                self.refs(&st, x, &mut rs, 0);
                if rs.is_empty() && !matches!(&**x, T::Undef) && !effect {
                    if !rooted(x) {
                        self.fatal(format!("{} is given a mutable reference the analysis does not know", n));
                    }
                    st.evs.push(Rc::new(Ev { term: term.clone(), name: "mutate".into(), args: args.clone(), func: func.clone(), span: String::new(), fallible: false, at: st.cons.len() }));
                }
            } else if mut_inside(at[k], 0) {
                self.refs(&st, x, &mut rs, 0);
            }
            for (o, p) in rs {
                self.write(&mut st, o, &p, Rc::new(T::Out(term.clone(), k as u32)));
            }
        }
        // function values handed over may be called any number of times
        for (k, x) in a.iter().enumerate() {
            let f = self.snap_fun(&st, x);
            let known = matches!(&*f, T::Agg(n, _, _) if n.starts_with("closure:")) || matches!(&*f, T::Fun(i) if self.funs[*i].def.krate().is_local);
            if !known {
                continue;
            }
            let ar = match &*f {
                T::Fun(i) => self.funs[*i].body().map_or(0, |b| b.arg_locals().len()),
                T::Agg(n, _, _) => {
                    let (d, g) = self.closures[&n.to_string()].clone();
                    [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce].into_iter().filter_map(|k| Instance::resolve_closure(d, &g, k).ok()).find(|i| i.kind != InstanceKind::Shim).and_then(|i| i.body()).map_or(1, |b| b.arg_locals().len()) - 1
                }
                _ => 0,
            };
            let id = self.loops.len() as u32 + 1;
            self.loops.push(LoopRec { id, slots: vec![], iters: vec![] });
            let (nc, ne) = (st.cons.len(), st.evs.len());
            let mark = self.ended.len();
            // panics inside are panics of the run
            let ps: Vec<R> = (0..ar).map(|i| call("closure argument", vec![term.clone(), int(k as i128), int(i as i128)])).collect();
            let u = Ty::unsigned_ty(UintTy::U8);
            let out = self.apply(func, x, ps, vec![u; ar], u, st.clone(), span_of.clone());
            for p in &mut self.ended[mark..] {
                p.st.objs.clear();
            }
            let iters: Vec<_> = out.iter().map(|(s, _)| (s.cons[nc..].to_vec(), s.evs[ne..].to_vec(), vec![])).collect();
            if iters.iter().any(|i| !i.1.is_empty()) {
                self.loops[id as usize - 1].iters = iters;
                st.evs.push(Rc::new(Ev { term: Rc::new(T::Sym(format!("loop{}", id).into())), name: "loop".into(), args: vec![], func: func.clone(), span: String::new(), fallible: false, at: st.cons.len() }));
            }
        }
        if matches!(dty.kind(), TyKind::RigidTy(RigidTy::Tuple(ref v)) if v.is_empty()) {
            return vec![(st, Rc::new(T::Agg("tuple".into(), 0, vec![])))];
        }
        vec![(st, term)]
    }
}
/// made by a call that is not entered
fn rooted(v: &R) -> bool {
    match &**v {
        T::Call(..) => true,
        T::Fld(x, ..) | T::Idx(x, _) => rooted(x),
        _ => false,
    }
}
fn stringy(n: &str) -> bool {
    matches!(n, "str" | "String" | "Path" | "PathBuf" | "OsStr" | "OsString" | "Cow" | "T" | "&str" | "Box" | "Vec" | "&T" | "&[T]")
}
fn strip_ref(t: Ty) -> Ty {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, x, _)) => strip_ref(x),
        _ => t,
    }
}
fn elem(t: Ty) -> Ty {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Array(e, _)) | TyKind::RigidTy(RigidTy::Slice(e)) => e,
        _ => t,
    }
}
fn plain_enum(t: Ty) -> bool {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.kind() == AdtKind::Enum && d.variants_iter().all(|v| v.fields().is_empty()),
        _ => false,
    }
}
fn first_arg_enum(i: Instance) -> bool {
    let Ok(abi) = i.fn_abi() else { return false };
    abi.args.first().map_or(false, |a| plain_enum(strip_ref(a.ty)))
}
fn mut_inside(t: Ty, d: u32) -> bool {
    if d > 3 {
        return false;
    }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut)) => true,
        TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().any(|g| matches!(g, GenericArgKind::Type(t) if mut_inside(*t, d + 1))),
        TyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().any(|t| mut_inside(*t, d + 1)),
        // what a closure captures
        TyKind::RigidTy(RigidTy::Closure(_, a)) => matches!(a.0.last(), Some(GenericArgKind::Type(t)) if mut_inside(*t, d + 1)),
        _ => false,
    }
}
pub fn show(t: &R) -> String {
    let s = sh(t, 0);
    if s.chars().count() > 700 {
        s.chars().take(700).collect::<String>() + "…"
    } else {
        s
    }
}
fn sh(t: &R, d: u32) -> String {
    if d > 12 {
        return "…".into();
    }
    let l = |v: &Vec<R>| v.iter().map(|x| sh(x, d + 1)).collect::<Vec<_>>().join(", ");
    match &**t {
        T::Undef => "?".into(),
        T::Int(c) => c.to_string(),
        T::Flt(b) => format!("{}", f64::from_bits(*b)),
        T::Str(s) => format!("{:?}", s),
        T::Sym(s) => s.to_string(),
        T::Agg(n, v, f) => format!("{}.{}{{{}}}", n.chars().take(24).collect::<String>(), v, l(f)),
        T::Fun(k) => format!("fn{}", k),
        T::Call(0, n, a) => format!("{}({})", n, l(a)),
        T::Call(i, n, a) => format!("{}#{}({})", n, i, l(a)),
        T::Out(c, k) => match &**c {
            T::Call(i, n, _) if *i > 0 => format!("after {}#{}[{}]", n, i, k),
            _ => format!("after[{}] {}", k, sh(c, d + 1)),
        },
        T::Fld(x, v, i) => format!("{}.{}{}", sh(x, d + 1), if *v == NOV { String::new() } else { format!("v{}.", v) }, i),
        T::Discr(x) => format!("tag({})", sh(x, d + 1)),
        T::Bin(o, a, b) => format!("({} {} {})", sh(a, d + 1), o, sh(b, d + 1)),
        T::Un(o, a) => format!("{}({})", o, sh(a, d + 1)),
        T::Cast(_, _, b, s, x) => format!("({} as {}{})", sh(x, d + 1), if *s { "i" } else { "u" }, b),
        T::Idx(a, b) => format!("{}[{}]", sh(a, d + 1), sh(b, d + 1)),
        T::Len(a) => format!("len({})", sh(a, d + 1)),
        T::Ref(o, p) => format!("&{}{}", o, if p.is_empty() { "" } else { ".." }),
        T::Loop(a, b, x) => format!("loop{}.{}[from {}]", a, b, sh(x, d + 1)),
    }
}
