//! Floating-point values: intervals with NaN flag; small-support expressions are kept as tables.
use crate::poly::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub type F = Rc<FV>;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Min,
    Max,
    Neg,
    Abs,
    Sqrt,
    Floor,
    Ceil,
    Trunc,
    Round,
    RoundEven,
    To32,
    To64,
}
pub enum FK {
    Const(f64),
    FromInt(P),
    Op(FOp, Vec<F>),
    Ite(P, F, F),
    Table(Atom, Rc<Vec<f64>>),
    FromBits(P),
    Opaque,
}
pub struct FV {
    pub id: u64,
    pub bits: u32,
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
    pub kind: FK,
    pub taint: Taint,
    pub supp: Option<Rc<Vec<Atom>>>,
    pub bloom: u128,
}
thread_local! {
    static FID: Cell<u64> = Cell::new(1);
    static FHC: RefCell<HashMap<String, F>> = RefCell::new(HashMap::new());
}
fn next_id() -> u64 {
    FID.with(|v| {
        v.set(v.get() + 1);
        v.get()
    })
}
pub fn fmax(bits: u32) -> f64 {
    if bits == 32 {
        f32::MAX as f64
    } else {
        f64::MAX
    }
}
pub fn opaque(bits: u32, lo: f64, hi: f64, nan: bool, taint: Taint) -> F {
    Rc::new(FV { id: next_id(), bits, lo, hi, nan, kind: FK::Opaque, taint, supp: None, bloom: 0 })
}
thread_local! {
    /// the same operation on the same operands is the same value
    pub static KEYED: Cell<bool> = const { Cell::new(false) };
}
thread_local! { pub static CONDS: RefCell<HashMap<u64, P>> = RefCell::new(HashMap::new()); }
thread_local! { pub static KEYS: RefCell<HashMap<u64, (String, Vec<F>)>> = RefCell::new(HashMap::new()); }
pub fn opaque_of(key: impl FnOnce() -> String, bits: u32, lo: f64, hi: f64, nan: bool, taint: Taint) -> F {
    if !KEYED.with(|k| k.get()) {
        return opaque(bits, lo, hi, nan, taint);
    }
    let key = format!("~{}|{}|{:x}|{:x}|{}|{:x}", key(), bits, lo.to_bits(), hi.to_bits(), nan, taint);
    if let Some(f) = FHC.with(|h| h.borrow().get(&key).cloned()) {
        return f;
    }
    let f = opaque(bits, lo, hi, nan, taint);
    KEYS.with(|k| k.borrow_mut().insert(f.id, (key.clone(), vec![])));
    FHC.with(|h| h.borrow_mut().insert(key, f.clone()));
    f
}
pub fn ftop(bits: u32, taint: Taint) -> F {
    opaque(bits, f64::NEG_INFINITY, f64::INFINITY, true, taint)
}
pub fn fconst(x: f64, bits: u32) -> F {
    let key = format!("k{}|{:x}", bits, x.to_bits());
    if let Some(f) = FHC.with(|h| h.borrow().get(&key).cloned()) {
        return f;
    }
    let nan = x.is_nan();
    let (lo, hi) = if nan { (f64::INFINITY, f64::NEG_INFINITY) } else { (x, x) };
    let f = Rc::new(FV { id: next_id(), bits, lo, hi, nan, kind: FK::Const(x), taint: 0, supp: Some(Rc::new(vec![])), bloom: 0 });
    FHC.with(|h| h.borrow_mut().insert(key, f.clone()));
    f
}
pub fn as_const(f: &F) -> Option<f64> {
    if let FK::Const(x) = f.kind {
        Some(x)
    } else if !f.nan && f.lo == f.hi && f.lo != 0.0 {
        Some(f.lo)
    } else {
        None
    }
}
fn rnd(x: f64, bits: u32) -> f64 {
    if bits == 32 {
        (x as f32) as f64
    } else {
        x
    }
}
/// concrete semantics of one operation
pub fn apply(op: FOp, bits: u32, a: f64, b: f64) -> f64 {
    if bits == 32 && !matches!(op, FOp::To32 | FOp::To64) {
        let (a, b) = (a as f32, b as f32);
        return (match op {
            FOp::Add => a + b,
            FOp::Sub => a - b,
            FOp::Mul => a * b,
            FOp::Div => a / b,
            FOp::Rem => a % b,
            FOp::Min => a.min(b),
            FOp::Max => a.max(b),
            FOp::Neg => -a,
            FOp::Abs => a.abs(),
            FOp::Sqrt => a.sqrt(),
            FOp::Floor => a.floor(),
            FOp::Ceil => a.ceil(),
            FOp::Trunc => a.trunc(),
            FOp::Round => a.round(),
            FOp::RoundEven => a.round_ties_even(),
            _ => unreachable!(),
        }) as f64;
    }
    match op {
        FOp::Add => a + b,
        FOp::Sub => a - b,
        FOp::Mul => a * b,
        FOp::Div => a / b,
        FOp::Rem => a % b,
        FOp::Min => a.min(b),
        FOp::Max => a.max(b),
        FOp::Neg => -a,
        FOp::Abs => a.abs(),
        FOp::Sqrt => a.sqrt(),
        FOp::Floor => a.floor(),
        FOp::Ceil => a.ceil(),
        FOp::Trunc => a.trunc(),
        FOp::Round => a.round(),
        FOp::RoundEven => a.round_ties_even(),
        FOp::To32 => (a as f32) as f64,
        FOp::To64 => a,
    }
}
pub fn eval_f(f: &F, ev: &mut Ev) -> Option<f64> {
    match &f.kind {
        FK::Const(x) => return Some(*x),
        FK::Opaque => return None,
        _ => {}
    }
    if let Some(v) = ev.fmemo.get(&f.id) {
        return *v;
    }
    let r = match &f.kind {
        FK::FromInt(p) => ev.p(p).map(|v| rnd(v as f64, f.bits)),
        FK::FromBits(p) => ev.p(p).map(|v| if f.bits == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }),
        FK::Table(b, t) => ev.a(*b).and_then(|v| t.get((v - atom_range(*b).0) as usize).copied()),
        FK::Ite(c, x, y) => match ev.p(c) {
            Some(0) => eval_f(y, ev),
            Some(_) => eval_f(x, ev),
            None => None,
        },
        FK::Op(op, v) => {
            let a = eval_f(&v[0], ev);
            let b = if v.len() > 1 { eval_f(&v[1], ev) } else { Some(0.0) };
            match (a, b) {
                (Some(a), Some(b)) => Some(apply(*op, if matches!(op, FOp::To32 | FOp::To64) { 64 } else { f.bits }, a, b)),
                _ => None,
            }
        }
        _ => None,
    };
    ev.fmemo.insert(f.id, r);
    r
}
fn mk(kind: FK, bits: u32, lo: f64, hi: f64, nan: bool, taint: Taint, supp: Option<Rc<Vec<Atom>>>, bloom: u128, key: String) -> F {
    if let Some(f) = FHC.with(|h| h.borrow().get(&key).cloned()) {
        return f;
    }
    let mut f = Rc::new(FV { id: next_id(), bits, lo, hi, nan, kind, taint, supp: supp.clone(), bloom });
    if let Some(s) = &supp {
        if s.is_empty() {
            let env = HashMap::new();
            if let Some(x) = eval_f(&f, &mut Ev::new(&env)) {
                f = fconst(x, bits);
            }
        } else if s.len() == 1 && !matches!(f.kind, FK::Table(..)) {
            let b = s[0];
            let (bl, bh) = atom_range(b);
            if bh - bl <= 255 {
                let mut t = vec![];
                for v in bl..=bh {
                    let mut env = HashMap::new();
                    env.insert(b, v);
                    match eval_f(&f, &mut Ev::new(&env)) {
                        Some(x) => t.push(x),
                        None => break,
                    }
                }
                if t.len() as i128 == bh - bl + 1 {
                    f = ftable(b, t, bits);
                }
            }
        }
    }
    FHC.with(|h| h.borrow_mut().insert(key, f.clone()));
    f
}
fn ftable(b: Atom, t: Vec<f64>, bits: u32) -> F {
    let key = format!("T{}|{}|{:?}", b, bits, t.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    if let Some(f) = FHC.with(|h| h.borrow().get(&key).cloned()) {
        return f;
    }
    let nan = t.iter().any(|x| x.is_nan());
    let lo = t.iter().copied().filter(|x| !x.is_nan()).fold(f64::INFINITY, f64::min);
    let hi = t.iter().copied().filter(|x| !x.is_nan()).fold(f64::NEG_INFINITY, f64::max);
    let f = Rc::new(FV { id: next_id(), bits, lo, hi, nan, kind: FK::Table(b, Rc::new(t)), taint: atom_taint(b), supp: Some(Rc::new(vec![b])), bloom: atom_bloom(b) });
    FHC.with(|h| h.borrow_mut().insert(key, f.clone()));
    f
}
pub fn frange(f: &F, e: &Env) -> (f64, f64, bool) {
    let (mut lo, mut hi, mut nan) = (f.lo, f.hi, f.nan);
    if e.ver == 0 {
        return (lo, hi, nan);
    }
    if let Some((l, h, n)) = e.fr.get(&f.id) {
        lo = lo.max(*l);
        hi = hi.min(*h);
        nan = nan && *n;
    }
    if f.bloom & e.bloom != 0 {
        if let FK::Table(b, t) = &f.kind {
            let (bl, bh) = arange(*b, e);
            let base = atom_range(*b).0;
            if bl <= bh {
                let s = &t[(bl - base) as usize..=(bh - base) as usize];
                let l2 = s.iter().copied().filter(|x| !x.is_nan()).fold(f64::INFINITY, f64::min);
                let h2 = s.iter().copied().filter(|x| !x.is_nan()).fold(f64::NEG_INFINITY, f64::max);
                lo = lo.max(l2);
                hi = hi.min(h2);
                nan = nan && s.iter().any(|x| x.is_nan());
            }
        }
    }
    (lo, hi, nan)
}
pub fn from_int(p: &P, bits: u32, e: &Env) -> F {
    if let Some(c) = p.is_const() {
        return fconst(rnd(c as f64, bits), bits);
    }
    if NAMING_BIG.with(|n| n.get()) > 0 {
        if let Some((k, a, c)) = p.as_affine() {
            if let AKind::Ite(g, x, y) = atom_kind(a) {
                let f = |v: &P| from_int(&addc(&scale(v, k), c), bits, e);
                return fite(&g, &f(&x), &f(&y), e);
            }
        }
    }
    let (l, h) = range(p, e);
    let (gl, gh) = range(p, &Env::default());
    let supp = poly_supp(p);
    let small = supp.as_ref().map_or(false, |s| s.len() <= 3);
    let taint = poly_taint(p);
    if small {
        let mut bl = 0;
        for a in p.atoms() {
            bl |= atom_bloom(a);
        }
        return mk(FK::FromInt(p.clone()), bits, rnd(gl as f64, bits), rnd(gh as f64, bits), false, taint, supp, bl, format!("i{}|{:?}", bits, p));
    }
    opaque_of(|| format!("i{:?}", p), bits, rnd(l as f64, bits), rnd(h as f64, bits), false, taint)
}
pub fn from_bits_f(p: &P, bits: u32) -> F {
    if let Some(c) = p.is_const() {
        return fconst(if bits == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) }, bits);
    }
    let supp = poly_supp(p);
    if supp.as_ref().map_or(false, |s| s.len() <= 3) {
        let mut bl = 0;
        for a in p.atoms() {
            bl |= atom_bloom(a);
        }
        return mk(FK::FromBits(p.clone()), bits, f64::NEG_INFINITY, f64::INFINITY, true, poly_taint(p), supp, bl, format!("fb{}|{:?}", bits, p));
    }
    ftop(bits, poly_taint(p))
}
pub fn fite(c: &P, x: &F, y: &F, e: &Env) -> F {
    if x.id == y.id {
        return x.clone();
    }
    if let Some(k) = c.is_const() {
        return if k != 0 { x.clone() } else { y.clone() };
    }
    let (xl, xh, xn) = frange(x, e);
    let (yl, yh, yn) = frange(y, e);
    let taint = x.taint | y.taint | poly_taint(c);
    let cs = poly_supp(c);
    let supp = merge_supp(&merge_supp(&x.supp, &y.supp), &cs);
    if supp.as_ref().map_or(false, |s| s.len() <= 3) {
        let mut bl = x.bloom | y.bloom;
        for a in c.atoms() {
            bl |= atom_bloom(a);
        }
        return mk(FK::Ite(c.clone(), x.clone(), y.clone()), x.bits, x.lo.min(y.lo), x.hi.max(y.hi), x.nan || y.nan, taint, supp, bl, format!("?{:?}|{}|{}", c, x.id, y.id));
    }
    // same constant value on both sides
    if as_const(x).is_some() && as_const(x) == as_const(y) {
        return x.clone();
    }
    let f = opaque_of(|| format!("?{:?}|{}|{}", c, x.id, y.id), x.bits, xl.min(yl), xh.max(yh), xn || yn, taint);
    KEYS.with(|k| k.borrow_mut().get_mut(&f.id).map(|z| z.1 = vec![x.clone(), y.clone()]));
    CONDS.with(|k| k.borrow_mut().insert(f.id, c.clone()));
    f
}
fn ival(op: FOp, bits: u32, a: (f64, f64, bool), b: (f64, f64, bool)) -> (f64, f64, bool) {
    let inf = f64::INFINITY;
    let empty = |x: (f64, f64, bool)| x.0 > x.1;
    if empty(a) || empty(b) {
        // operand is always NaN
        return match op {
            FOp::Min | FOp::Max => {
                if empty(a) && empty(b) {
                    (inf, -inf, true)
                } else if empty(a) {
                    b
                } else {
                    a
                }
            }
            _ => (inf, -inf, true),
        };
    }
    let nan = a.2 || b.2;
    let corners = |f: &dyn Fn(f64, f64) -> f64| -> (f64, f64, bool) {
        let mut lo = inf;
        let mut hi = -inf;
        let mut n = false;
        for x in [a.0, a.1] {
            for y in [b.0, b.1] {
                let v = f(x, y);
                if v.is_nan() {
                    n = true;
                } else {
                    lo = lo.min(v);
                    hi = hi.max(v);
                }
            }
        }
        (lo, hi, n)
    };
    match op {
        FOp::Add | FOp::Sub => {
            let s = |x: f64, y: f64| apply(op, bits, x, y);
            let (l, h) = if op == FOp::Add { (s(a.0, b.0), s(a.1, b.1)) } else { (s(a.0, b.1), s(a.1, b.0)) };
            let binf = if op == FOp::Add { (b.0 == -inf, b.1 == inf) } else { (b.1 == inf, b.0 == -inf) };
            let n = (a.1 == inf && binf.0) || (a.0 == -inf && binf.1);
            (if l.is_nan() { -inf } else { l }, if h.is_nan() { inf } else { h }, nan || n)
        }
        FOp::Mul => {
            let (mut lo, mut hi, _) = corners(&|x, y| if x == 0.0 || y == 0.0 { 0.0 } else { apply(FOp::Mul, bits, x, y) });
            let has0 = |x: (f64, f64, bool)| x.0 <= 0.0 && x.1 >= 0.0;
            let hasinf = |x: (f64, f64, bool)| x.0 == -inf || x.1 == inf;
            let n = (has0(a) && hasinf(b)) || (has0(b) && hasinf(a));
            if has0(a) || has0(b) {
                lo = lo.min(0.0);
                hi = hi.max(0.0);
            }
            (lo, hi, nan || n)
        }
        FOp::Div => {
            if b.0 <= 0.0 && b.1 >= 0.0 {
                let n = (a.0 <= 0.0 && a.1 >= 0.0) || ((a.0 == -inf || a.1 == inf) && (b.0 == -inf || b.1 == inf));
                return (-inf, inf, nan || n);
            }
            let n = (a.0 == -inf || a.1 == inf) && (b.0 == -inf || b.1 == inf);
            if n {
                return (-inf, inf, true);
            }
            let (lo, hi, _) = corners(&|x, y| apply(FOp::Div, bits, x, y));
            (lo, hi, nan)
        }
        FOp::Rem => (-inf, inf, true),
        FOp::Min => {
            let (mut lo, mut hi) = (a.0.min(b.0), a.1.min(b.1));
            if a.2 {
                lo = lo.min(b.0);
                hi = hi.max(b.1);
            }
            if b.2 {
                lo = lo.min(a.0);
                hi = hi.max(a.1);
            }
            (lo, hi, a.2 && b.2)
        }
        FOp::Max => {
            let (mut lo, mut hi) = (a.0.max(b.0), a.1.max(b.1));
            if a.2 {
                lo = lo.min(b.0);
                hi = hi.max(b.1);
            }
            if b.2 {
                lo = lo.min(a.0);
                hi = hi.max(a.1);
            }
            (lo, hi, a.2 && b.2)
        }
        FOp::Neg => (-a.1, -a.0, a.2),
        FOp::Abs => {
            let m = a.0.abs().max(a.1.abs());
            (if a.0 <= 0.0 && a.1 >= 0.0 { 0.0 } else { a.0.abs().min(a.1.abs()) }, m, a.2)
        }
        FOp::Sqrt => {
            let n = a.0 < 0.0;
            let l = apply(op, bits, a.0.max(0.0), 0.0);
            let h = apply(op, bits, a.1.max(0.0), 0.0);
            (l, h, a.2 || n)
        }
        FOp::Floor | FOp::Ceil | FOp::Trunc | FOp::Round | FOp::RoundEven => (apply(op, bits, a.0, 0.0), apply(op, bits, a.1, 0.0), a.2),
        FOp::To32 => (rnd(a.0, 32), rnd(a.1, 32), a.2),
        FOp::To64 => a,
    }
}
/// a gated operand, the others being constant
fn gated(v: &[F]) -> Option<(usize, P, F, F)> {
    if NAMING_BIG.with(|n| n.get()) == 0 {
        return None;
    }
    let i = v.iter().position(|f| matches!(f.kind, FK::Ite(..)))?;
    if v.iter().enumerate().any(|(j, f)| j != i && as_const(f).is_none()) {
        return None;
    }
    match &v[i].kind {
        FK::Ite(c, x, y) => Some((i, c.clone(), x.clone(), y.clone())),
        _ => None,
    }
}
pub fn f2i_gated(f: &F, lo: i128, hi: i128, mk: &dyn Fn(&F) -> P) -> P {
    match gated(&[f.clone()]) {
        Some((_, c, x, y)) => ite(&c, &f2i_gated(&x, lo, hi, mk), &f2i_gated(&y, lo, hi, mk)),
        None => mk(f),
    }
}
pub fn fop(op: FOp, bits: u32, v: &[F], e: &Env) -> F {
    if let Some((i, c, x, y)) = gated(v) {
        let f = |g: &F| {
            let mut w = v.to_vec();
            w[i] = g.clone();
            fop(op, bits, &w, e)
        };
        return fite(&c, &f(&x), &f(&y), e);
    }
    let a = frange(&v[0], e);
    let b = if v.len() > 1 { frange(&v[1], e) } else { (0.0, 0.0, false) };
    let ob = match op {
        FOp::To32 => 32,
        FOp::To64 => 64,
        _ => bits,
    };
    let mut taint = v[0].taint;
    let mut supp = v[0].supp.clone();
    let mut bloom = v[0].bloom;
    if v.len() > 1 {
        taint |= v[1].taint;
        supp = merge_supp(&supp, &v[1].supp);
        bloom |= v[1].bloom;
    }
    let (lo, hi, nan) = ival(op, bits, a, b);
    if supp.as_ref().map_or(false, |s| s.len() <= 3) {
        // structure is kept: bounds must not depend on the environment
        let g = |f: &F| (f.lo, f.hi, f.nan);
        let (lo, hi, nan) = ival(op, bits, g(&v[0]), if v.len() > 1 { g(&v[1]) } else { b });
        let key = format!("o{:?}|{}|{:?}", op, ob, v.iter().map(|x| x.id).collect::<Vec<_>>());
        return mk(FK::Op(op, v.to_vec()), ob, lo, hi, nan, taint, supp, bloom, key);
    }
    // x*x is a square
    let (lo, hi) = if op == FOp::Mul && v[0].id == v[1].id {
        let m = a.0.abs().max(a.1.abs());
        (0.0, apply(FOp::Mul, bits, m, m))
    } else {
        (lo, hi)
    };
    let nan = if op == FOp::Mul && v[0].id == v[1].id { a.2 } else { nan };
    if matches!(op, FOp::Abs | FOp::Neg) {
        if KEYED.with(|k| k.get()) {
            let key = format!("~n{:?}|{}|{}|{:x}|{:x}|{}", op, v[0].id, ob, lo.to_bits(), hi.to_bits(), nan);
            return mk(FK::Op(op, v.to_vec()), ob, lo, hi, nan, taint, None, 0, key);
        }
        return Rc::new(FV { id: next_id(), bits: ob, lo, hi, nan, kind: FK::Op(op, v.to_vec()), taint, supp: None, bloom: 0 });
    }
    if !nan && lo == hi && lo != 0.0 {
        return fconst(lo, ob);
    }
    let f = opaque_of(|| format!("o{:?}|{:?}", op, v.iter().map(|x| x.id).collect::<Vec<_>>()), ob, lo, hi, nan, taint);
    KEYS.with(|k| k.borrow_mut().get_mut(&f.id).map(|x| x.1 = v.to_vec()));
    f
}
pub const LT: u8 = 1;
pub const EQ: u8 = 2;
pub const GT: u8 = 4;
pub const UN: u8 = 8;
fn flip(m: u8) -> u8 {
    (m & (EQ | UN)) | if m & LT != 0 { GT } else { 0 } | if m & GT != 0 { LT } else { 0 }
}
/// possible relations between x and y
pub fn frel(x: &F, y: &F, e: &Env) -> u8 {
    let (xl, xh, xn) = frange(x, e);
    let (yl, yh, yn) = frange(y, e);
    let mut m = 0;
    if xl <= xh && yl <= yh {
        if xl < yh {
            m |= LT;
        }
        if xh > yl {
            m |= GT;
        }
        if xl <= yh && yl <= xh {
            m |= EQ;
        }
        if x.id == y.id {
            m &= EQ;
        }
    }
    if xn || yn {
        m |= UN;
    }
    if let Some(r) = e.frel.get(&(x.id, y.id)) {
        m &= *r;
    }
    if let Some(r) = e.frel.get(&(y.id, x.id)) {
        m &= flip(*r);
    }
    m
}
fn op_mask(op: u8) -> u8 {
    match op {
        0 => LT,
        1 => LT | EQ,
        _ => EQ,
    }
}
pub fn fcmp_decide(op: u8, x: &F, y: &F, e: &Env) -> Option<bool> {
    let m = frel(x, y, e);
    let t = op_mask(op);
    if m & t == 0 {
        Some(false)
    } else if m & !t == 0 {
        Some(true)
    } else {
        None
    }
}
pub fn fcmp(op: u8, x: &F, y: &F, e: &Env) -> P {
    if let Some(b) = fcmp_decide(op, x, y, e) {
        return konst(b as i128);
    }
    if let Some((i, c, p, q)) = gated(&[x.clone(), y.clone()]) {
        let f = |g: &F| if i == 0 { fcmp(op, g, y, e) } else { fcmp(op, x, g, e) };
        return ite(&c, &f(&p), &f(&q));
    }
    derived(AKind::FCmp(op, x.clone(), y.clone()), 0, 1)
}
pub fn prev_f(x: f64, bits: u32) -> f64 {
    if bits == 32 {
        (x as f32).next_down() as f64
    } else {
        x.next_down()
    }
}
pub fn next_f(x: f64, bits: u32) -> f64 {
    if bits == 32 {
        (x as f32).next_up() as f64
    } else {
        x.next_up()
    }
}
fn refine_f(f: &F, lo: f64, hi: f64, nan: bool, e: &mut Env) {
    let (l, h, n) = frange(f, e);
    let (l2, h2, n2) = (l.max(lo), h.min(hi), n && nan);
    if (l2, h2, n2) == (l, h, n) {
        return;
    }
    if l2 > h2 && !n2 {
        e.dead = true;
        return;
    }
    e.fr.insert(f.id, (l2, h2, n2));
    e.touch();
    if let FK::Op(FOp::Abs, v) = &f.kind {
        let x = v[0].clone();
        refine_f(&x, -h2, h2, n2, e);
    }
    if let FK::Op(FOp::Neg, v) = &f.kind {
        let x = v[0].clone();
        refine_f(&x, -h2, -l2, n2, e);
    }
}
pub fn fassume(op: u8, x: &F, y: &F, truth: bool, e: &mut Env) {
    let t = op_mask(op);
    let m = frel(x, y, e) & if truth { t } else { !t };
    if m == 0 {
        e.dead = true;
        return;
    }
    e.frel.insert((x.id, y.id), m);
    e.touch();
    if m & UN == 0 {
        let (xl, xh, _) = frange(x, e);
        let (yl, yh, _) = frange(y, e);
        let b = x.bits;
        match m {
            LT => {
                refine_f(x, f64::NEG_INFINITY, prev_f(yh, b), false, e);
                refine_f(y, next_f(xl, b), f64::INFINITY, false, e);
            }
            GT => {
                refine_f(y, f64::NEG_INFINITY, prev_f(xh, b), false, e);
                refine_f(x, next_f(yl, b), f64::INFINITY, false, e);
            }
            EQ => {
                refine_f(x, yl, yh, false, e);
                refine_f(y, xl, xh, false, e);
            }
            3 => {
                refine_f(x, f64::NEG_INFINITY, yh, false, e);
                refine_f(y, xl, f64::INFINITY, false, e);
            }
            6 => {
                refine_f(y, f64::NEG_INFINITY, xh, false, e);
                refine_f(x, yl, f64::INFINITY, false, e);
            }
            _ => {
                refine_f(x, f64::NEG_INFINITY, f64::INFINITY, false, e);
                refine_f(y, f64::NEG_INFINITY, f64::INFINITY, false, e);
            }
        }
    }
}
pub fn show_f(f: &F) -> String {
    match &f.kind {
        FK::Const(x) => format!("{}", x),
        FK::FromInt(p) => format!("float({})", show_d(p, 2)),
        FK::Op(o, v) => format!("{:?}({})", o, v.iter().map(show_f).collect::<Vec<_>>().join(",")),
        FK::Table(b, t) => format!("FT{:?}({})", &t[..t.len().min(4)], show_atom(*b, 1)),
        _ => format!("f{}[{},{}{}]", f.id, f.lo, f.hi, if f.nan { ",nan" } else { "" }),
    }
}
