//! Value domain: canonical integer polynomials over hash-consed atoms (gated value numbering),
//! with ranges, refinement environments, and normalising constructors.
use crate::flt::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Atom = u32;
pub type MonoId = u32;
pub type Taint = u128;
pub const IMAX: i128 = 1i128 << 100;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Poly {
    pub c: i128,
    pub ts: Vec<(MonoId, i128)>, // sorted by mono id, non-zero coefs
}
pub type P = Rc<Poly>;

#[derive(Clone)]
pub enum AKind {
    Input(String),
    Phi,
    /// floor(p / d)
    Div(P, i128),
    Min(Vec<P>),
    Max(Vec<P>),
    /// bit k of atom
    Bit(Atom, u32),
    /// uninterpreted (pure) function of its arguments
    Op(String, Vec<P>),
    /// byte read from a symbolic buffer at an offset
    Sel(u32, P),
    /// gated value: if cond { x } else { y }
    Ite(P, P, P),
    /// [p >= 0]
    Ge(P),
    /// [p == 0]
    Eq0(P),
    /// named boolean polynomial
    Bool(P),
    /// named small integer (kept opaque, unfolded when its value is known)
    Named(P),
    /// explicit function table of one small atom; index = value - lo(atom)
    Table(Atom, Rc<Vec<i128>>),
    /// value selected by offset
    Select(P, Rc<Vec<(i128, P)>>),
    /// saturating float -> int cast into [lo, hi]
    F2I(F, i128, i128),
    /// float comparison: 0 lt, 1 le, 2 eq
    FCmp(u8, F, F),
    /// raw bits of a float
    FBits(F),
}

pub struct AtomInfo {
    pub kind: AKind,
    pub lo: i128,
    pub hi: i128,
    pub taint: Taint,
    /// base atoms this value is a function of (None: too many)
    pub supp: Option<Rc<Vec<Atom>>>,
    pub base: bool,
    pub bloom: u128,
}

#[derive(Default)]
pub struct Tab {
    pub atoms: Vec<AtomInfo>,
    pub monos: Vec<Rc<Vec<Atom>>>,
    mono_ix: HashMap<Rc<Vec<Atom>>, MonoId>,
    single: Vec<MonoId>,
    hc: HashMap<String, P>,
}

thread_local! { pub static TAB: RefCell<Tab> = RefCell::new(Tab::default()); }

pub fn n_atoms() -> usize {
    TAB.with(|t| t.borrow().atoms.len())
}
fn bloom_bit(a: Atom) -> u128 {
    1u128 << ((a.wrapping_mul(2654435761) >> 7) % 128)
}
fn push_atom(kind: AKind, lo: i128, hi: i128, taint: Taint, supp: Option<Rc<Vec<Atom>>>, base: bool, bloom: u128) -> Atom {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        let a = t.atoms.len() as Atom;
        let supp = if base { Some(Rc::new(vec![a])) } else { supp };
        t.atoms.push(AtomInfo { kind, lo, hi, taint, supp, base, bloom: bloom | bloom_bit(a) });
        let m = t.monos.len() as MonoId;
        t.monos.push(Rc::new(vec![a]));
        t.single.push(m);
        a
    })
}
/// fresh base atom
pub fn fresh(kind: AKind, lo: i128, hi: i128, taint: Taint) -> P {
    if lo == hi {
        return konst(lo);
    }
    let bl = kind_bloom(&kind);
    atom(push_atom(kind, lo, hi, taint, None, true, bl))
}
pub fn input(name: &str, lo: i128, hi: i128, taint: Taint) -> P {
    fresh(AKind::Input(name.to_string()), lo, hi, taint)
}
pub fn hc_get(key: &str) -> Option<P> {
    TAB.with(|t| t.borrow().hc.get(key).cloned())
}
pub fn hc_put(key: String, p: P) {
    TAB.with(|t| t.borrow_mut().hc.insert(key, p));
}
/// hash-consed base atom
pub fn hc_base(key: String, kind: AKind, lo: i128, hi: i128, taint: Taint) -> P {
    if let Some(a) = hc_get(&key) {
        return a;
    }
    let p = fresh(kind, lo, hi, taint);
    hc_put(key, p.clone());
    p
}
pub fn atom_range(a: Atom) -> (i128, i128) {
    TAB.with(|t| {
        let t = t.borrow();
        (t.atoms[a as usize].lo, t.atoms[a as usize].hi)
    })
}
pub fn atom_kind(a: Atom) -> AKind {
    TAB.with(|t| t.borrow().atoms[a as usize].kind.clone())
}
pub fn atom_taint(a: Atom) -> Taint {
    TAB.with(|t| t.borrow().atoms[a as usize].taint)
}
pub fn atom_base(a: Atom) -> bool {
    TAB.with(|t| t.borrow().atoms[a as usize].base)
}
pub fn atom_bloom(a: Atom) -> u128 {
    TAB.with(|t| t.borrow().atoms[a as usize].bloom)
}
pub fn atom_supp(a: Atom) -> Option<Rc<Vec<Atom>>> {
    TAB.with(|t| t.borrow().atoms[a as usize].supp.clone())
}
pub fn mono_of(a: Atom) -> MonoId {
    TAB.with(|t| t.borrow().single[a as usize])
}
pub fn mono_atoms(m: MonoId) -> Rc<Vec<Atom>> {
    TAB.with(|t| t.borrow().monos[m as usize].clone())
}
pub fn mono_single(m: MonoId) -> Option<Atom> {
    TAB.with(|t| {
        let t = t.borrow();
        let v = &t.monos[m as usize];
        if v.len() == 1 {
            Some(v[0])
        } else {
            None
        }
    })
}
fn mono_intern(v: Vec<Atom>) -> MonoId {
    if v.len() == 1 {
        return mono_of(v[0]);
    }
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        let v = Rc::new(v);
        if let Some(m) = t.mono_ix.get(&v) {
            return *m;
        }
        let m = t.monos.len() as MonoId;
        t.monos.push(v.clone());
        t.mono_ix.insert(v, m);
        m
    })
}

// ---------------------------------------------------------------------------------
// refinement environment
// ---------------------------------------------------------------------------------
#[derive(Clone, Default)]
pub struct Env {
    pub r: BTreeMap<Atom, (i128, i128)>,
    pub defs: BTreeMap<Atom, P>,
    pub facts: Vec<P>,
    pub neqs: Vec<P>,
    /// whole-polynomial constants: (terms) -> value
    pub pc: BTreeMap<Vec<(MonoId, i128)>, i128>,
    /// products known to be zero
    pub zeros: Vec<Rc<Vec<Atom>>>,
    pub fr: BTreeMap<u64, (f64, f64, bool)>,
    pub frel: BTreeMap<(u64, u64), u8>,
    pub ver: u64,
    pub bloom: u128,
    pub dead: bool,
}
thread_local! { static VER: Cell<u64> = Cell::new(1); }
pub fn next_ver() -> u64 {
    VER.with(|v| {
        v.set(v.get() + 1);
        v.get()
    })
}
impl Env {
    pub fn is_empty(&self) -> bool {
        self.ver == 0
    }
    pub fn touch(&mut self) {
        self.ver = next_ver();
    }
    pub fn refine(&mut self, a: Atom, lo: i128, hi: i128) {
        let (l, h) = arange(a, self);
        let (nl, nh) = (l.max(lo), h.min(hi));
        if nl > nh {
            self.dead = true;
        }
        if (nl, nh) != (l, h) {
            self.r.insert(a, (nl, nh));
            self.bloom |= bloom_bit(a);
            self.touch();
        }
    }
    /// the product of these is zero
    pub fn zero(&mut self, m: MonoId) {
        let at = mono_atoms(m);
        self.bloom |= at.iter().fold(0, |b, a| b | bloom_bit(*a));
        self.zeros.push(at);
        self.touch();
    }
    pub fn define(&mut self, a: Atom, p: P) {
        self.defs.insert(a, p);
        self.bloom |= bloom_bit(a);
        self.touch();
    }
}

pub fn konst(c: i128) -> P {
    thread_local! { static SMALL: Vec<P> = (-64..320).map(|c| Rc::new(Poly{c, ts: vec![]})).collect(); }
    if (-64..320).contains(&c) {
        return SMALL.with(|s| s[(c + 64) as usize].clone());
    }
    Rc::new(Poly { c, ts: vec![] })
}
pub fn atom(a: Atom) -> P {
    Rc::new(Poly { c: 0, ts: vec![(mono_of(a), 1)] })
}
impl Poly {
    pub fn is_const(&self) -> Option<i128> {
        if self.ts.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn as_atom(&self) -> Option<Atom> {
        if self.c == 0 && self.ts.len() == 1 && self.ts[0].1 == 1 {
            mono_single(self.ts[0].0)
        } else {
            None
        }
    }
    /// k*a + c
    pub fn as_affine(&self) -> Option<(i128, Atom, i128)> {
        if self.ts.len() == 1 {
            mono_single(self.ts[0].0).map(|a| (self.ts[0].1, a, self.c))
        } else {
            None
        }
    }
    pub fn atoms(&self) -> Vec<Atom> {
        let mut v = vec![];
        for (m, _) in &self.ts {
            for a in mono_atoms(*m).iter() {
                if !v.contains(a) {
                    v.push(*a)
                }
            }
        }
        v
    }
    pub fn degree(&self) -> usize {
        self.ts.iter().map(|(m, _)| mono_atoms(*m).len()).max().unwrap_or(0)
    }
}
fn merge(a: &Poly, b: &Poly, kb: i128) -> Poly {
    let mut ts = Vec::with_capacity(a.ts.len() + b.ts.len());
    let (mut i, mut j) = (0, 0);
    while i < a.ts.len() || j < b.ts.len() {
        if j >= b.ts.len() || (i < a.ts.len() && a.ts[i].0 < b.ts[j].0) {
            ts.push(a.ts[i]);
            i += 1;
        } else if i >= a.ts.len() || b.ts[j].0 < a.ts[i].0 {
            ts.push((b.ts[j].0, b.ts[j].1.wrapping_mul(kb)));
            j += 1;
        } else {
            let k = a.ts[i].1.wrapping_add(b.ts[j].1.wrapping_mul(kb));
            if k != 0 {
                ts.push((a.ts[i].0, k));
            }
            i += 1;
            j += 1;
        }
    }
    Poly { c: a.c.wrapping_add(b.c.wrapping_mul(kb)), ts }
}
pub fn add(a: &P, b: &P) -> P {
    if a.ts.is_empty() && b.ts.is_empty() {
        return konst(a.c.wrapping_add(b.c));
    }
    if b.ts.is_empty() && b.c == 0 {
        return a.clone();
    }
    if a.ts.is_empty() && a.c == 0 {
        return b.clone();
    }
    Rc::new(merge(a, b, 1))
}
pub fn sub(a: &P, b: &P) -> P {
    if a.ts.is_empty() && b.ts.is_empty() {
        return konst(a.c.wrapping_sub(b.c));
    }
    if b.ts.is_empty() && b.c == 0 {
        return a.clone();
    }
    Rc::new(merge(a, b, -1))
}
pub fn neg(a: &P) -> P {
    scale(a, -1)
}
pub fn scale(a: &P, k: i128) -> P {
    if k == 1 {
        return a.clone();
    }
    if k == 0 {
        return konst(0);
    }
    if a.ts.is_empty() {
        return konst(a.c.wrapping_mul(k));
    }
    Rc::new(Poly { c: a.c.wrapping_mul(k), ts: a.ts.iter().map(|(m, c)| (*m, c.wrapping_mul(k))).collect() })
}
pub fn addc(a: &P, k: i128) -> P {
    if k == 0 {
        return a.clone();
    }
    if a.ts.is_empty() {
        return konst(a.c.wrapping_add(k));
    }
    Rc::new(Poly { c: a.c.wrapping_add(k), ts: a.ts.clone() })
}
pub fn mono(m: MonoId, k: i128) -> P {
    Rc::new(Poly { c: 0, ts: vec![(m, k)] })
}
pub fn mul(a: &P, b: &P) -> P {
    if a.ts.is_empty() {
        return scale(b, a.c);
    }
    if b.ts.is_empty() {
        return scale(a, b.c);
    }
    let mut m: BTreeMap<MonoId, i128> = BTreeMap::new();
    let mut squares: Vec<P> = vec![];
    for (ma, ka) in &a.ts {
        if b.c != 0 {
            *m.entry(*ma).or_insert(0) += ka.wrapping_mul(b.c);
        }
        for (mb, kb) in &b.ts {
            let mut v: Vec<Atom> = mono_atoms(*ma).to_vec();
            v.extend(mono_atoms(*mb).iter());
            v.sort();
            // boolean atoms (0..=1) are idempotent
            v = dedup_bool(v);
            // the square of a distance is that of the difference
            if let Some((j, u)) = (1..v.len()).find_map(|j| if v[j] == v[j - 1] { Some((j, distance(v[j])?)) } else { None }) {
                let rest: Vec<Atom> = v[..j - 1].iter().chain(&v[j + 1..]).copied().collect();
                let rest = if rest.is_empty() { konst(1) } else { mono(mono_intern(rest), 1) };
                squares.push(scale(&mul(&mul(&u, &u), &rest), ka.wrapping_mul(*kb)));
                continue;
            }
            if let Some((q, rest)) = TABLES.with(|n| n.get()).then(|| table_product(&v)).flatten() {
                squares.push(scale(&mul(&q, &rest), ka.wrapping_mul(*kb)));
                continue;
            }
            let id = mono_intern(v);
            *m.entry(id).or_insert(0) += ka.wrapping_mul(*kb);
        }
    }
    if a.c != 0 {
        for (mb, kb) in &b.ts {
            *m.entry(*mb).or_insert(0) += kb.wrapping_mul(a.c);
        }
    }
    let r = Rc::new(Poly { c: a.c.wrapping_mul(b.c), ts: m.into_iter().filter(|x| x.1 != 0).collect() });
    squares.iter().fold(r, |r, s| add(&r, s))
}
thread_local! {
    /// multiply tables over the same value out
    pub static TABLES: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// one table for all the functions of one value in a sum
pub fn merge_tables(p: &P) -> P {
    if !TABLES.with(|n| n.get()) || p.ts.len() < 2 {
        return p.clone();
    }
    let mut by: BTreeMap<Atom, Vec<(MonoId, i128)>> = BTreeMap::new();
    for (m, k) in &p.ts {
        let Some(a) = mono_single(*m) else { continue };
        let b = match (!atom_base(a)).then(|| atom_kind(a)) {
            Some(AKind::Table(b, _)) => b,
            _ => a,
        };
        by.entry(b).or_default().push((*m, *k));
    }
    let mut r = p.clone();
    for (b, v) in by {
        let (l, h) = atom_range(b);
        if v.len() < 2 || h - l > 255 {
            continue;
        }
        let mut t = vec![0; (h - l + 1) as usize];
        for (m, k) in &v {
            r = sub(&r, &mono(*m, *k));
            match mono_single(*m).filter(|a| *a != b).map(atom_kind) {
                Some(AKind::Table(_, u)) => t.iter_mut().zip(u.iter()).for_each(|(x, y)| *x += k * y),
                _ => t.iter_mut().enumerate().for_each(|(i, x)| *x += k * (l + i as i128)),
            }
        }
        // one form for a function and its opposite
        let down = t.iter().find(|x| **x != t[0]).map_or(false, |x| *x < t[0]);
        let s = if down { -1 } else { 1 };
        let lo = t.iter().map(|x| s * x).min().unwrap();
        let g = t.iter().fold(0, |g, x| gcd(g, s * x - lo)).max(1);
        r = addc(&add(&r, &scale(&table_poly(b, t.iter().map(|x| (s * x - lo) / g).collect()), s * g)), s * lo);
    }
    r
}
fn table_product(v: &[Atom]) -> Option<(P, P)> {
    let base = |a: Atom| match (!atom_base(a)).then(|| atom_kind(a)) {
        Some(AKind::Table(b, t)) => Some((b, t)),
        _ => None,
    };
    for (i, a) in v.iter().enumerate() {
        let Some((x, t)) = base(*a) else { continue };
        for (j, b) in v.iter().enumerate().skip(i + 1) {
            if let Some((y, u)) = base(*b) {
                if x == y {
                    let rest: Vec<Atom> = v.iter().enumerate().filter(|(k, _)| *k != i && *k != j).map(|(_, a)| *a).collect();
                    let rest = if rest.is_empty() { konst(1) } else { mono(mono_intern(rest), 1) };
                    return Some((table_poly(x, t.iter().zip(u.iter()).map(|(p, q)| p * q).collect()), rest));
                }
            }
        }
    }
    None
}
/// u, of an atom that is max(u, -u)
fn distance(a: Atom) -> Option<P> {
    if atom_base(a) {
        return None;
    }
    match atom_kind(a) {
        AKind::Max(w) if w.len() == 2 && add(&w[0], &w[1]).is_const() == Some(0) => Some(w[0].clone()),
        _ => None,
    }
}
fn dedup_bool(v: Vec<Atom>) -> Vec<Atom> {
    let mut out: Vec<Atom> = vec![];
    for a in v {
        if out.last() == Some(&a) && atom_range(a) == (0, 1) {
            continue;
        }
        out.push(a);
    }
    out
}
/// substitute atom := value
pub fn subst(p: &P, a: Atom, by: &P) -> P {
    let mut r = konst(p.c);
    let mut hit = false;
    let mut rest = Poly { c: 0, ts: vec![] };
    for (m, k) in &p.ts {
        let v = mono_atoms(*m);
        if v.contains(&a) {
            hit = true;
            let mut t = konst(*k);
            for x in v.iter() {
                t = if *x == a { mul(&t, by) } else { mul(&t, &atom(*x)) };
            }
            r = add(&r, &t);
        } else {
            rest.ts.push((*m, *k));
        }
    }
    if hit {
        add(&r, &Rc::new(rest))
    } else {
        p.clone()
    }
}
/// substitution that also rewrites inside derived atoms
pub fn subst_deep(p: &P, a: Atom, by: &P) -> P {
    let mut e = Env::default();
    e.define(a, by.clone());
    simp(p, &e)
}

pub fn sat(x: i128) -> i128 {
    x.clamp(-IMAX, IMAX)
}
pub fn mulsat(a: i128, b: i128) -> i128 {
    sat(a.checked_mul(b).unwrap_or(if (a < 0) != (b < 0) { -IMAX } else { IMAX }))
}
pub fn arange(a: Atom, e: &Env) -> (i128, i128) {
    arange_d(a, e, 3)
}
fn arange_d(a: Atom, e: &Env, depth: u32) -> (i128, i128) {
    let (mut l, mut h) = atom_range(a);
    if e.ver == 0 {
        return (l, h);
    }
    if let Some((l2, h2)) = e.r.get(&a) {
        l = l.max(*l2);
        h = h.min(*h2);
    }
    if depth > 0 && l < h && !atom_base(a) && (atom_bloom(a) & e.bloom) != 0 {
        match atom_kind(a) {
            AKind::Table(b, t) => {
                let (bl, bh) = arange_d(b, e, depth - 1);
                let base = atom_range(b).0;
                if bl <= bh {
                    let s = &t[(bl - base) as usize..=(bh - base) as usize];
                    l = l.max(*s.iter().min().unwrap());
                    h = h.min(*s.iter().max().unwrap());
                }
            }
            AKind::Div(p, d) => {
                let (pl, ph) = range_d(&p, e, depth - 1);
                l = l.max(floor_div(pl, d));
                h = h.min(floor_div(ph, d));
            }
            AKind::Min(v) => {
                for p in &v {
                    h = h.min(range_d(p, e, depth - 1).1);
                }
                let ml = v.iter().map(|p| range_d(p, e, depth - 1).0).min().unwrap();
                l = l.max(ml);
            }
            AKind::Max(v) => {
                for p in &v {
                    l = l.max(range_d(p, e, depth - 1).0);
                }
                let mh = v.iter().map(|p| range_d(p, e, depth - 1).1).max().unwrap();
                h = h.min(mh);
            }
            _ => {}
        }
    }
    (l, h)
}
pub fn mono_range(m: MonoId, e: &Env) -> (i128, i128) {
    mono_range_d(m, e, 3)
}
fn mono_range_d(m: MonoId, e: &Env, d: u32) -> (i128, i128) {
    if let Some(a) = mono_single(m) {
        return arange_d(a, e, d);
    }
    let v = mono_atoms(m);
    if v.len() == 2 && v[0] == v[1] {
        let (l, h) = arange_d(v[0], e, d);
        let (a, b) = (mulsat(l, l), mulsat(h, h));
        return if l <= 0 && h >= 0 { (0, a.max(b)) } else { (a.min(b), a.max(b)) };
    }
    let mut lo = 1;
    let mut hi = 1;
    for a in v.iter() {
        let (l, h) = arange_d(*a, e, d);
        let c = [mulsat(lo, l), mulsat(lo, h), mulsat(hi, l), mulsat(hi, h)];
        lo = *c.iter().min().unwrap();
        hi = *c.iter().max().unwrap();
    }
    (lo, hi)
}
pub fn range(p: &Poly, e: &Env) -> (i128, i128) {
    range_d(p, e, 3)
}
fn range_d(p: &Poly, e: &Env, d: u32) -> (i128, i128) {
    let (mut lo, mut hi) = (p.c, p.c);
    for (m, k) in &p.ts {
        let (l, h) = mono_range_d(*m, e, d);
        if *k > 0 {
            lo = sat(lo + mulsat(l, *k));
            hi = sat(hi + mulsat(h, *k));
        } else {
            lo = sat(lo + mulsat(h, *k));
            hi = sat(hi + mulsat(l, *k));
        }
    }
    if e.ver != 0 && !p.ts.is_empty() && !e.pc.is_empty() {
        if let Some(v) = e.pc.get(&p.ts) {
            return (v + p.c, v + p.c);
        }
    }
    (lo, hi)
}
/// range, additionally using the square completion trick for a*a - 2ab + b*b style polynomials
pub fn range_sq(p: &P, e: &Env) -> (i128, i128) {
    let (lo, hi) = range(p, e);
    if p.degree() == 2 {
        if let Some(q) = sqrt_poly(p) {
            let (l, h) = range(&q, e);
            let m = mulsat(l, l).max(mulsat(h, h));
            let n = if l <= 0 && h >= 0 { 0 } else { mulsat(l, l).min(mulsat(h, h)) };
            return (lo.max(n), hi.min(m));
        }
    }
    (lo, hi)
}
/// range_sq, over the alternatives of a gate or minimum that shares terms with the rest of p
pub fn range_alts(p: &P, e: &Env, fuel: &mut u32) -> (i128, i128) {
    let (lo, hi) = range_sq(p, e);
    if p.degree() < 2 || *fuel == 0 {
        return (lo, hi);
    }
    *fuel -= 1;
    for (m, k) in p.ts.iter().rev() {
        let Some(a) = mono_single(*m) else { continue };
        let (v, kind) = match atom_kind(a) {
            AKind::Ite(_, x, y) => (vec![x, y], 0),
            AKind::Min(v) => (v, if *k > 0 { -1 } else { 1 }),
            AKind::Max(v) => (v, if *k > 0 { 1 } else { -1 }),
            _ => continue,
        };
        let rs: Vec<(i128, i128)> = v.iter().map(|x| range_alts(&subst(p, a, x), e, fuel)).collect();
        let (mn, mx): (fn(i128, i128) -> i128, fn(i128, i128) -> i128) = (std::cmp::min, std::cmp::max);
        let fold = |f: fn(i128, i128) -> i128, hi: bool| rs.iter().map(|r| if hi { r.1 } else { r.0 }).reduce(f).unwrap();
        let (l, h) = match kind {
            0 => (fold(mn, false), fold(mx, true)),
            -1 => (fold(mn, false), fold(mn, true)),
            _ => (fold(mx, false), fold(mx, true)),
        };
        return (lo.max(l), hi.min(h));
    }
    (lo, hi)
}
/// q with q*q == p, if p is a perfect square of a linear polynomial
pub fn sqrt_poly(p: &P) -> Option<P> {
    // linear coefficients from the squares
    let mut q = konst(0);
    let isq = |x: i128| -> Option<i128> {
        if x < 0 {
            return None;
        }
        let r = (x as f64).sqrt().round() as i128;
        if r * r == x {
            Some(r)
        } else {
            None
        }
    };
    let mut first: Option<Atom> = None;
    for (m, k) in &p.ts {
        let v = mono_atoms(*m);
        let sqa = if v.len() == 2 && v[0] == v[1] { Some(v[0]) } else { None };
        if let Some(a) = sqa {
            let r = isq(*k)?;
            let sign = match first {
                None => {
                    first = Some(a);
                    1
                }
                Some(f) => {
                    let mut w = vec![f, a];
                    w.sort();
                    let id = mono_intern(w);
                    let c = p.ts.iter().find(|x| x.0 == id).map(|x| x.1).unwrap_or(0);
                    if c < 0 {
                        -1
                    } else {
                        1
                    }
                }
            };
            q = add(&q, &scale(&atom(a), r * sign));
        }
    }
    let f = first?;
    let c0 = isq(p.c)?;
    let lin = p.ts.iter().find(|x| x.0 == mono_of(f)).map(|x| x.1).unwrap_or(0);
    q = addc(&q, if lin < 0 { -c0 } else { c0 });
    if mul(&q, &q) == *p {
        Some(q)
    } else {
        None
    }
}

// ---------------------------------------------------------------------------------
// evaluation (used to tabulate functions of one small atom and for finite comparisons)
// ---------------------------------------------------------------------------------
pub struct Ev<'a> {
    pub env: &'a HashMap<Atom, i128>,
    memo: HashMap<Atom, Option<i128>>,
    pub fmemo: HashMap<u64, Option<f64>>,
}
impl<'a> Ev<'a> {
    pub fn new(env: &'a HashMap<Atom, i128>) -> Self {
        Ev { env, memo: HashMap::new(), fmemo: HashMap::new() }
    }
    pub fn p(&mut self, p: &Poly) -> Option<i128> {
        let mut r = p.c;
        for (m, k) in &p.ts {
            let mut t = *k;
            for a in mono_atoms(*m).iter() {
                t = t.checked_mul(self.a(*a)?)?;
            }
            r = r.checked_add(t)?;
        }
        Some(r)
    }
    pub fn a(&mut self, a: Atom) -> Option<i128> {
        if let Some(v) = self.env.get(&a) {
            return Some(*v);
        }
        if atom_base(a) {
            return None;
        }
        if let Some(v) = self.memo.get(&a) {
            return *v;
        }
        let k = atom_kind(a);
        let r = self.k(&k);
        self.memo.insert(a, r);
        r
    }
    fn k(&mut self, k: &AKind) -> Option<i128> {
        Some(match k {
            AKind::Div(p, d) => floor_div(self.p(p)?, *d),
            AKind::Min(v) => {
                let mut m = i128::MAX;
                for p in v {
                    m = m.min(self.p(p)?);
                }
                m
            }
            AKind::Max(v) => {
                let mut m = i128::MIN;
                for p in v {
                    m = m.max(self.p(p)?);
                }
                m
            }
            AKind::Bit(a, j) => (self.a(*a)? >> j) & 1,
            AKind::Ite(c, x, y) => {
                if self.p(c)? != 0 {
                    self.p(x)?
                } else {
                    self.p(y)?
                }
            }
            AKind::Ge(p) => (self.p(p)? >= 0) as i128,
            AKind::Eq0(p) => (self.p(p)? == 0) as i128,
            AKind::Bool(p) | AKind::Named(p) => self.p(p)?,
            AKind::Table(b, t) => {
                let v = self.a(*b)? - atom_range(*b).0;
                *t.get(usize::try_from(v).ok()?)?
            }
            AKind::Select(o, v) => {
                let o = self.p(o)?;
                let x = v.iter().find(|x| x.0 == o)?;
                self.p(&x.1)?
            }
            AKind::F2I(f, lo, hi) => {
                let x = eval_f(f, self)?;
                f2i(x, *lo, *hi)
            }
            AKind::FCmp(op, x, y) => {
                let (x, y) = (eval_f(x, self)?, eval_f(y, self)?);
                (match op {
                    0 => x < y,
                    1 => x <= y,
                    _ => x == y,
                }) as i128
            }
            AKind::FBits(f) => {
                let x = eval_f(f, self)?;
                if f.bits == 32 {
                    (x as f32).to_bits() as i128
                } else {
                    x.to_bits() as i128
                }
            }
            _ => return None,
        })
    }
}
pub fn f2i(x: f64, lo: i128, hi: i128) -> i128 {
    if x.is_nan() {
        0
    } else if x <= lo as f64 {
        lo
    } else if x >= hi as f64 {
        hi
    } else {
        x as i128
    }
}

fn kind_parts(k: &AKind, f: &mut dyn FnMut(&P), g: &mut dyn FnMut(&F), h: &mut dyn FnMut(Atom)) {
    match k {
        AKind::Input(_) | AKind::Phi => {}
        AKind::Div(p, _) | AKind::Ge(p) | AKind::Eq0(p) | AKind::Bool(p) | AKind::Named(p) | AKind::Sel(_, p) => f(p),
        AKind::Min(v) | AKind::Max(v) | AKind::Op(_, v) => v.iter().for_each(|p| f(p)),
        AKind::Bit(a, _) | AKind::Table(a, _) => h(*a),
        AKind::Ite(c, x, y) => {
            f(c);
            f(x);
            f(y)
        }
        AKind::Select(o, v) => {
            f(o);
            v.iter().for_each(|p| f(&p.1))
        }
        AKind::F2I(x, ..) | AKind::FBits(x) => g(x),
        AKind::FCmp(_, x, y) => {
            g(x);
            g(y)
        }
    }
}
pub fn kind_children(k: &AKind) -> (Vec<Atom>, Vec<F>) {
    let out = RefCell::new(vec![]);
    let fl = RefCell::new(vec![]);
    kind_parts(k, &mut |p| out.borrow_mut().extend(p.atoms()), &mut |x| fl.borrow_mut().push(x.clone()), &mut |a| out.borrow_mut().push(a));
    (out.into_inner(), fl.into_inner())
}
fn kind_bloom(k: &AKind) -> u128 {
    let (a, f) = kind_children(k);
    let mut b = 0;
    for x in a {
        b |= atom_bloom(x);
    }
    for x in f {
        b |= x.bloom;
    }
    b
}
pub const SUPP_CAP: usize = 24;
pub fn merge_supp(x: &Option<Rc<Vec<Atom>>>, y: &Option<Rc<Vec<Atom>>>) -> Option<Rc<Vec<Atom>>> {
    let (x, y) = (x.as_ref()?, y.as_ref()?);
    if x.is_empty() || Rc::ptr_eq(x, y) {
        return Some(y.clone());
    }
    if y.is_empty() {
        return Some(x.clone());
    }
    let mut v = x.to_vec();
    for a in y.iter() {
        if !v.contains(a) {
            v.push(*a);
        }
    }
    if v.len() > SUPP_CAP {
        return None;
    }
    v.sort();
    Some(Rc::new(v))
}
pub fn poly_supp(p: &Poly) -> Option<Rc<Vec<Atom>>> {
    let mut s = Some(Rc::new(vec![]));
    for a in p.atoms() {
        s = merge_supp(&s, &atom_supp(a));
        s.as_ref()?;
    }
    s
}
pub fn kind_key(k: &AKind) -> String {
    match k {
        AKind::Input(s) => format!("I{}", s),
        AKind::Phi => panic!(),
        AKind::Div(p, d) => format!("D{}|{:?}", d, p),
        AKind::Min(v) => format!("m{:?}", v),
        AKind::Max(v) => format!("M{:?}", v),
        AKind::Bit(a, j) => format!("B{}|{}", a, j),
        AKind::Op(s, v) => format!("O{}|{:?}", s, v),
        AKind::Sel(r, p) => format!("S{}|{:?}", r, p),
        AKind::Ite(c, x, y) => format!("?{:?}|{:?}|{:?}", c, x, y),
        AKind::Ge(p) => format!("G{:?}", p),
        AKind::Eq0(p) => format!("E{:?}", p),
        AKind::Bool(p) => format!("b{:?}", p),
        AKind::Named(p) => format!("N{:?}", p),
        AKind::Table(a, t) => format!("T{}|{:?}", a, t),
        AKind::Select(o, v) => format!("s{:?}|{:?}", o, v),
        AKind::F2I(f, l, h) => format!("i{}|{}|{}", f.id, l, h),
        AKind::FCmp(o, x, y) => format!("c{}|{}|{}", o, x.id, y.id),
        AKind::FBits(f) => format!("x{}", f.id),
    }
}
/// hash-consed derived atom, canonicalised when it is a function of one small atom or of few bits
pub fn derived(kind: AKind, lo: i128, hi: i128) -> P {
    if lo == hi {
        return konst(lo);
    }
    let key = kind_key(&kind);
    if let Some(p) = hc_get(&key) {
        return p;
    }
    let (at, fl) = kind_children(&kind);
    let mut taint = 0;
    let mut bloom = 0;
    let mut supp = Some(Rc::new(vec![]));
    for a in &at {
        taint |= atom_taint(*a);
        bloom |= atom_bloom(*a);
        supp = merge_supp(&supp, &atom_supp(*a));
    }
    for f in &fl {
        taint |= f.taint;
        bloom |= f.bloom;
        supp = merge_supp(&supp, &f.supp);
    }
    if let Some(s) = &supp {
        if s.is_empty() {
            let env = HashMap::new();
            if let Some(v) = Ev::new(&env).k(&kind) {
                return konst(v);
            }
        } else if s.len() == 1 {
            let b = s[0];
            let (bl, bh) = atom_range(b);
            if bh - bl <= 255 {
                if let Some(p) = tabulate(&kind, b, bl, bh) {
                    hc_put(key, p.clone());
                    return p;
                }
            }
        } else if s.len() <= 3 && s.iter().all(|a| atom_range(*a) == (0, 1)) {
            if let Some(p) = multilinear(&kind, s) {
                hc_put(key, p.clone());
                return p;
            }
        }
    }
    let base = matches!(kind, AKind::Op(..) | AKind::Sel(..) | AKind::Named(..));
    let a = push_atom(kind, lo, hi, taint, supp, base, bloom);
    let p = atom(a);
    hc_put(key, p.clone());
    p
}
fn tabulate(kind: &AKind, b: Atom, bl: i128, bh: i128) -> Option<P> {
    if matches!(kind, AKind::Table(..)) {
        return None;
    }
    let mut t = vec![];
    for v in bl..=bh {
        let mut env = HashMap::new();
        env.insert(b, v);
        t.push(Ev::new(&env).k(kind)?);
    }
    Some(table_poly(b, t))
}
/// a yes/no table over a choice whose alternatives each answer it: the gate itself
fn table_gate(p: &P, bl: i128, t: &[i128], depth: u32) -> Option<P> {
    let (l, h) = range(p, &Env::default());
    if l < bl || h - bl >= t.len() as i128 {
        return None;
    }
    let w = &t[(l - bl) as usize..=(h - bl) as usize];
    if w.iter().all(|x| *x == w[0]) {
        return Some(konst(w[0]));
    }
    if depth == 0 {
        return None;
    }
    let (k, a, c) = p.as_affine()?;
    match atom_kind(a) {
        AKind::Named(d) => table_gate(&addc(&scale(&d, k), c), bl, t, depth),
        AKind::Ite(g, x, y) => {
            let x = table_gate(&addc(&scale(&x, k), c), bl, t, depth - 1)?;
            let y = table_gate(&addc(&scale(&y, k), c), bl, t, depth - 1)?;
            (x.is_const().is_some() || y.is_const().is_some()).then(|| ite(&g, &x, &y))
        }
        _ => None,
    }
}
pub fn table_poly(b: Atom, t: Vec<i128>) -> P {
    let (bl, _) = atom_range(b);
    // affine?
    let d = if t.len() > 1 { t[1] - t[0] } else { 0 };
    if t.windows(2).all(|w| w[1] - w[0] == d) {
        return addc(&scale(&atom(b), d), t[0] - d * bl);
    }
    let lo = *t.iter().min().unwrap();
    let hi = *t.iter().max().unwrap();
    // complement-normalise boolean tables so that [x] and [not x] share an atom
    if (lo, hi) == (0, 1) && t[0] == 1 {
        let n: Vec<i128> = t.iter().map(|x| 1 - x).collect();
        return sub(&konst(1), &table_poly(b, n));
    }
    if lo != 0 {
        let n: Vec<i128> = t.iter().map(|x| x - lo).collect();
        return addc(&table_poly(b, n), lo);
    }
    if (lo, hi) == (0, 1) && !KEEP_SMALL.with(|n| n.get()) {
        if let Some(p) = table_gate(&atom(b), bl, &t, 2) {
            return p;
        }
    }
    let kind = AKind::Table(b, Rc::new(t));
    let key = kind_key(&kind);
    if let Some(p) = hc_get(&key) {
        return p;
    }
    let a = push_atom(kind, lo, hi, atom_taint(b), Some(Rc::new(vec![b])), false, atom_bloom(b));
    let p = atom(a);
    hc_put(key, p.clone());
    p
}
fn multilinear(kind: &AKind, s: &[Atom]) -> Option<P> {
    let n = s.len();
    let mut val = vec![0i128; 1 << n];
    for x in 0..1usize << n {
        let mut env = HashMap::new();
        for (i, a) in s.iter().enumerate() {
            env.insert(*a, ((x >> i) & 1) as i128);
        }
        val[x] = Ev::new(&env).k(kind)?;
    }
    // moebius transform
    for i in 0..n {
        for x in 0..1usize << n {
            if x >> i & 1 == 1 {
                val[x] -= val[x ^ (1 << i)];
            }
        }
    }
    let mut r = konst(0);
    for x in 0..1usize << n {
        if val[x] != 0 {
            let mut t = konst(val[x]);
            for (i, a) in s.iter().enumerate() {
                if x >> i & 1 == 1 {
                    t = mul(&t, &atom(*a));
                }
            }
            r = add(&r, &t);
        }
    }
    Some(r)
}

// ---------------------------------------------------------------------------------
// normalising constructors
// ---------------------------------------------------------------------------------
pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
pub fn floor_div(a: i128, b: i128) -> i128 {
    a.div_euclid(b)
}
/// floor(p/d) with d>0 constant, canonicalised
pub fn div_const(p: &P, d: i128, r: &Env) -> P {
    assert!(d > 0);
    if d == 1 {
        return p.clone();
    }
    if let Some(c) = p.is_const() {
        return konst(floor_div(c, d));
    }
    let mut q = Poly { c: floor_div(p.c, d), ts: vec![] };
    let mut rem = Poly { c: p.c.rem_euclid(d), ts: vec![] };
    for (m, k) in &p.ts {
        let qk = floor_div(*k, d);
        let rk = k.rem_euclid(d);
        if qk != 0 {
            q.ts.push((*m, qk));
        }
        if rk != 0 {
            rem.ts.push((*m, rk));
        }
    }
    let q: P = Rc::new(q);
    let rem: P = Rc::new(rem);
    let (lo, hi) = range(&rem, r);
    if floor_div(lo, d) == floor_div(hi, d) {
        return addc(&q, floor_div(lo, d));
    }
    if p.ts.iter().any(|(_, k)| *k < 0 && k % d != 0) {
        // the same with what is subtracted left negative
        let near = Poly { c: p.c.rem_euclid(d), ts: p.ts.iter().filter(|(_, k)| k % d != 0).map(|(m, k)| (*m, k % d)).collect() };
        let (lo, hi) = range(&near, r);
        if floor_div(lo, d) == floor_div(hi, d) {
            let q = Poly { c: floor_div(p.c, d) + floor_div(lo, d), ts: p.ts.iter().filter(|(_, k)| k / d != 0).map(|(m, k)| (*m, k / d)).collect() };
            return Rc::new(q);
        }
    }
    let mut g = d;
    for (_, k) in &rem.ts {
        g = gcd(g, *k);
    }
    let (rem, d2) = if g > 1 {
        (Rc::new(Poly { c: floor_div(rem.c, g), ts: rem.ts.iter().map(|(m, k)| (*m, k / g)).collect() }), d / g)
    } else {
        (rem, d)
    };
    if d2 == 1 {
        return add(&q, &rem);
    }
    if let Some(a) = rem.as_atom() {
        if let AKind::Div(p2, e) = atom_kind(a) {
            return add(&q, &div_const(&p2, e * d2, r));
        }
    }
    // terms whose coefficients are multiples of h, with the rest in [0,h): the rest cannot matter
    let mut ks: Vec<i128> = rem.ts.iter().map(|x| x.1).collect();
    ks.sort();
    for h in ks.into_iter().rev() {
        if h <= 1 || d2 % h != 0 {
            continue;
        }
        let (mut big, mut small) = (Poly { c: 0, ts: vec![] }, Poly { c: rem.c, ts: vec![] });
        for (m, k) in &rem.ts {
            if k % h == 0 {
                big.ts.push((*m, *k));
            } else {
                small.ts.push((*m, *k));
            }
        }
        let (sl, sh) = range(&small, r);
        if sl >= 0 && sh < h && !(small.ts.is_empty() && small.c == 0) {
            return add(&q, &div_const(&Rc::new(big), d2, r));
        }
    }
    let (lo, hi) = range(&rem, &Env::default());
    add(&q, &derived(AKind::Div(rem.clone(), d2), floor_div(lo, d2), floor_div(hi, d2)))
}
pub fn mod_const(p: &P, d: i128, r: &Env) -> P {
    let q = div_const(p, d, r);
    sub(p, &scale(&q, d))
}
pub fn poly_taint(p: &Poly) -> Taint {
    let mut t = 0;
    for a in p.atoms() {
        t |= atom_taint(a);
    }
    t
}
pub fn is_bool(p: &P) -> bool {
    if let Some(c) = p.is_const() {
        return c == 0 || c == 1;
    }
    let e = Env::default();
    let (l, h) = range(p, &e);
    if l >= 0 && h <= 1 {
        return true;
    }
    // product-form polynomials over 0/1 atoms: evaluate the corners
    let at = p.atoms();
    if at.len() <= 6 && at.iter().all(|a| atom_range(*a) == (0, 1)) {
        for x in 0..1usize << at.len() {
            let mut s = p.c;
            for (m, k) in &p.ts {
                if mono_atoms(*m).iter().all(|a| x >> at.iter().position(|b| b == a).unwrap() & 1 == 1) {
                    s += k;
                }
            }
            if s != 0 && s != 1 {
                return false;
            }
        }
        return true;
    }
    false
}
/// give a large boolean polynomial a name
pub fn wrapb(p: P) -> P {
    if p.ts.len() <= 3 && p.degree() <= 4 {
        return p;
    }
    // complement-normalise
    if p.c == 1 {
        let q = sub(&konst(1), &p);
        return sub(&konst(1), &derived(AKind::Bool(q), 0, 1));
    }
    derived(AKind::Bool(p), 0, 1)
}
pub fn not(p: &P) -> P {
    sub(&konst(1), p)
}
pub fn and(a: &P, b: &P) -> P {
    wrapb(mul(a, b))
}
pub fn or(a: &P, b: &P) -> P {
    not(&and(&not(a), &not(b)))
}
/// split p = z + p', q = z + q' with z the common terms
fn strip(p: &P, q: &P) -> (P, P, P) {
    let mut z = Poly { c: 0, ts: vec![] };
    for t in &p.ts {
        if q.ts.binary_search(t).is_ok() {
            z.ts.push(*t);
        }
    }
    if z.ts.is_empty() || z.degree() > 1 && (sqrt_poly(p).is_some() || sqrt_poly(q).is_some()) {
        return (konst(0), p.clone(), q.clone());
    }
    let z: P = Rc::new(z);
    (z.clone(), sub(p, &z), sub(q, &z))
}
/// [p >= 0]
pub fn ge0(p: &P, e: &Env) -> P {
    let p = &merge_tables(p);
    let (lo, hi) = range_sq(p, e);
    if lo >= 0 {
        return konst(1);
    }
    if hi < 0 {
        return konst(0);
    }
    let mut g = 0;
    for (_, k) in &p.ts {
        g = gcd(g, *k);
    }
    let p = if g > 1 { Rc::new(Poly { c: floor_div(p.c, g), ts: p.ts.iter().map(|(m, k)| (*m, k / g)).collect() }) } else { p.clone() };
    // a multiple of h plus a rest below h: only the multiple decides
    if p.ts.len() >= 2 && p.ts.len() <= 3 && NAMING_BIG.with(|n| n.get()) > 0 {
        let h = p.ts.iter().map(|x| x.1.abs()).max().unwrap();
        let (mut big, mut small) = (vec![], vec![]);
        for (m, k) in &p.ts {
            if k % h == 0 {
                big.push((*m, *k));
            } else {
                small.push((*m, *k));
            }
        }
        let cs = p.c.rem_euclid(h);
        if h > 1 && !small.is_empty() {
            let (l, u) = range(&Poly { c: cs, ts: small }, e);
            if l >= 0 && u < h {
                return ge0(&Rc::new(Poly { c: p.c - cs, ts: big }), e);
            }
        }
    }
    // threshold of a 0/1 value
    if (lo, hi) == (-1, 0) && is_bool(&addc(&p, 1)) {
        return addc(&p, 1);
    }
    if let Some(r) = distribute(&p, &|q| ge0(q, e)) {
        return r;
    }
    if p.ts[0].1 < 0 {
        let n = addc(&scale(&p, -1), -1);
        return not(&derived_b(AKind::Ge(n)));
    }
    derived_b(AKind::Ge(p))
}
fn derived_b(k: AKind) -> P {
    derived(k, 0, 1)
}
/// [p == 0]
pub fn eq0(p: &P, e: &Env) -> P {
    let p = &merge_tables(p);
    if let Some(c) = p.is_const() {
        return konst((c == 0) as i128);
    }
    let (lo, hi) = range_sq(p, e);
    if lo > 0 || hi < 0 {
        return konst(0);
    }
    let mut g = 0;
    for (_, k) in &p.ts {
        g = gcd(g, *k);
    }
    if p.c % g != 0 {
        return konst(0);
    }
    let mut p = if g > 1 { Rc::new(Poly { c: p.c / g, ts: p.ts.iter().map(|(m, k)| (*m, k / g)).collect() }) } else { p.clone() };
    if p.ts[0].1 < 0 {
        p = neg(&p);
    }
    let (lo, hi) = range_sq(&p, e);
    if let Some(r) = distribute(&p, &|q| eq0(q, e)) {
        return r;
    }
    if p.ts.len() > 1 && is_bool(&p) {
        return not(&p);
    }
    if lo == 0 {
        return not(&ge0(&addc(&p, -1), e));
    }
    if hi == 0 {
        return ge0(&p, e);
    }
    derived_b(AKind::Eq0(p))
}
/// push a predicate through a gated value when that decides at least one side
fn distribute(p: &P, f: &dyn Fn(&P) -> P) -> Option<P> {
    let (k, a, c) = p.as_affine()?;
    if atom_base(a) {
        return None;
    }
    match atom_kind(a) {
        AKind::Ite(g, x, y) => {
            let fx = f(&addc(&scale(&x, k), c));
            let fy = f(&addc(&scale(&y, k), c));
            if fx.is_const().is_some() || fy.is_const().is_some() || fx == fy {
                return Some(ite(&g, &fx, &fy));
            }
            None
        }
        AKind::Select(o, v) => {
            let fs: Vec<(i128, P)> = v.iter().map(|(i, x)| (*i, f(&addc(&scale(x, k), c)))).collect();
            if fs.iter().all(|x| x.1.is_const().is_some()) {
                return Some(select(&o, fs, &Env::default()));
            }
            None
        }
        _ => None,
    }
}
pub fn min2(a: &P, b: &P, e: &Env) -> P {
    minmax(a, b, e, true)
}
pub fn max2(a: &P, b: &P, e: &Env) -> P {
    minmax(a, b, e, false)
}
pub fn minmax(a: &P, b: &P, e: &Env, is_min: bool) -> P {
    if a == b {
        return a.clone();
    }
    let d = sub(a, b);
    let (l, h) = range_sq(&d, e);
    if l >= 0 {
        return if is_min { b.clone() } else { a.clone() };
    }
    if h <= 0 {
        return if is_min { a.clone() } else { b.clone() };
    }
    let mut args: Vec<P> = vec![];
    for p in [a, b] {
        match p.as_atom().map(atom_kind) {
            Some(AKind::Min(v)) if is_min => args.extend(v),
            Some(AKind::Max(v)) if !is_min => args.extend(v),
            _ => args.push(p.clone()),
        }
    }
    args.sort_by(|x, y| (x.ts.len(), &x.ts, x.c).cmp(&(y.ts.len(), &y.ts, y.c)));
    args.dedup();
    // drop dominated
    let mut keep: Vec<P> = vec![];
    'o: for i in 0..args.len() {
        for j in 0..args.len() {
            if i != j {
                let (l, h) = range_sq(&sub(&args[i], &args[j]), e);
                let dom = if is_min { l >= 0 } else { h <= 0 };
                let eqr = l == 0 && h == 0;
                if dom && !(eqr && i < j) {
                    continue 'o;
                }
            }
        }
        keep.push(args[i].clone());
    }
    if keep.len() == 1 {
        return keep[0].clone();
    }
    // common additive part
    let mut z = Poly { c: 0, ts: vec![] };
    for t in &keep[0].ts {
        if keep.iter().all(|q| q.ts.binary_search(t).is_ok()) {
            z.ts.push(*t);
        }
    }
    if z.degree() > 1 {
        // keep squares whole: their range is lost otherwise
        z.ts.clear();
    }
    let z: P = Rc::new(z);
    let keep: Vec<P> = keep.iter().map(|q| sub(q, &z)).collect();
    let e0 = Env::default();
    let rs: Vec<(i128, i128)> = keep.iter().map(|q| range_sq(q, &e0)).collect();
    let (lo, hi) = if is_min {
        (rs.iter().map(|x| x.0).min().unwrap(), rs.iter().map(|x| x.1).min().unwrap())
    } else {
        (rs.iter().map(|x| x.0).max().unwrap(), rs.iter().map(|x| x.1).max().unwrap())
    };
    add(&z, &derived(if is_min { AKind::Min(keep) } else { AKind::Max(keep) }, lo, hi))
}
/// floor(p/d) + [p mod d != 0]  =  floor((p + d-1)/d)
pub fn ceil_form(p: &P) -> P {
    if p.ts.len() < 2 || p.ts.len() > 8 {
        return p.clone();
    }
    for (m, k) in &p.ts {
        let Some(a) = mono_single(*m) else { continue };
        // [q == 0] with coefficient -k, or [q >= 1] with coefficient k
        let (q, k) = match atom_kind(a) {
            AKind::Eq0(q) => (q, -*k),
            AKind::Ge(q) => (addc(&q, 1), *k),
            _ => continue,
        };
        for (n, c) in &p.ts {
            let Some(b) = mono_single(*n) else { continue };
            if *c != k {
                continue;
            }
            let AKind::Div(u, d) = atom_kind(b) else { continue };
            let r = sub(&u, &scale(&atom(b), d));
            let eq = matches!(atom_kind(a), AKind::Eq0(_));
            if r != q && !(eq && r == neg(&q)) {
                continue;
            }
            let up = div_const(&addc(&u, d - 1), d, &Env::default());
            let rest = sub(&sub(p, &mono(*m, if eq { -k } else { k })), &mono(*n, k));
            let rest = add(&rest, &scale(&up, k));
            return if eq { addc(&rest, -k) } else { rest };
        }
    }
    p.clone()
}
pub fn ite(c: &P, x: &P, y: &P) -> P {
    ite_e(c, x, y, &Env::default())
}
pub fn ite_e(c: &P, x: &P, y: &P, e: &Env) -> P {
    if let Some(k) = c.is_const() {
        return if k != 0 { x.clone() } else { y.clone() };
    }
    if x == y {
        return x.clone();
    }
    // orientation: positive leading coefficient, zero constant
    if c.c == 1 && c.ts[0].1 < 0 {
        return ite_e(&not(c), y, x, e);
    }
    let d = sub(x, y);
    if let Some(k) = d.is_const() {
        let cc = wrapb(c.clone());
        return ceil_form(&add(y, &scale(&cc, k)));
    }
    if is_bool(x) && is_bool(y) {
        let r = add(&mul(c, x), &mul(&not(c), y));
        if r.ts.len() <= 4 && r.degree() <= 4 {
            return r;
        }
        let c = wrapb(c.clone());
        let (x, y) = (wrapb(x.clone()), wrapb(y.clone()));
        let r = add(&mul(&c, &x), &mul(&not(&c), &y));
        return wrapb(r);
    }
    if let Some(ca) = c.as_atom() {
        if matches!(atom_kind(ca), AKind::Ge(_)) || matches!(atom_kind(ca), AKind::Table(..)) {
            let le = ge0(&neg(&d), e); // x <= y
            if *c == le || *c == ge0(&addc(&neg(&d), -1), e) {
                return min2(x, y, e);
            }
            if *c == ge0(&d, e) || *c == ge0(&addc(&d, -1), e) {
                return max2(x, y, e);
            }
        }
    }
    // same gate nested
    let x = gate_in(c, x, true);
    let y = gate_in(c, y, false);
    let (z, x, y) = strip(&x, &y);
    if x == y {
        return add(&z, &x);
    }
    let c = wrapb(c.clone());
    let e0 = Env::default();
    let (rx, ry) = (range_sq(&x, &e0), range_sq(&y, &e0));
    add(&z, &derived(AKind::Ite(c, x, y), rx.0.min(ry.0), rx.1.max(ry.1)))
}
fn gate_in(c: &P, x: &P, v: bool) -> P {
    let mut q = x.clone();
    if NAMING_BIG.with(|n| n.get()) > 0 {
        if let Some(ca) = c.as_atom() {
            if atom_base(ca) && x.atoms().iter().any(|a| atom_bloom(*a) & bloom_bit(ca) != 0) {
                let mut e = Env::default();
                e.refine(ca, v as i128, v as i128);
                q = simp(&q, &e);
            }
        } else if let [(m, k)] = &c.ts[..] {
            // a conjunction
            if (c.c, *k, v) == (0, 1, true) || (c.c, *k, v) == (1, -1, false) {
                let g: Vec<Atom> = mono_atoms(*m).iter().copied().filter(|a| atom_base(*a) && atom_range(*a) == (0, 1)).collect();
                let bloom = g.iter().fold(0, |b, a| b | bloom_bit(*a));
                if x.atoms().iter().any(|a| atom_bloom(*a) & bloom != 0) {
                    let mut e = Env::default();
                    for a in g {
                        e.refine(a, 1, 1);
                    }
                    q = simp(&q, &e);
                }
            }
        }
    }
    for a in x.atoms() {
        if atom_base(a) {
            continue;
        }
        if let AKind::Ite(g, p, r) = atom_kind(a) {
            if g == *c {
                q = subst(&q, a, if v { &p } else { &r });
            }
        }
    }
    q
}
/// p with the gates decided outright by e replaced (nothing else is looked into)
fn shallow(p: &P, e: &Env) -> Option<P> {
    let pinned = |a: Atom| -> Option<i128> {
        if atom_range(a) != (0, 1) {
            return None;
        }
        match e.r.get(&a) {
            Some((l, h)) if l == h => Some(*l),
            _ => None,
        }
    };
    let mut q = p.clone();
    let mut any = false;
    for a in p.atoms() {
        if let Some(v) = pinned(a) {
            q = subst(&q, a, &konst(v));
            any = true;
        } else if let AKind::Ite(c, x, y) = atom_kind(a) {
            let mut d = c.clone();
            for g in c.atoms() {
                if let Some(v) = pinned(g) {
                    d = subst(&d, g, &konst(v));
                }
            }
            if let Some(k) = d.is_const() {
                q = subst(&q, a, if k != 0 { &x } else { &y });
                any = true;
            }
        }
    }
    if any {
        Some(q)
    } else {
        None
    }
}
/// the side of a choice that an input, known here, makes
pub fn known_side(p: &P, e: &Env) -> Option<P> {
    let (k, a, c) = p.as_affine()?;
    if atom_base(a) {
        return None;
    }
    let AKind::Ite(g, x, y) = atom_kind(a) else { return None };
    if !g.atoms().iter().all(|a| atom_base(*a)) {
        return None;
    }
    let d = shallow(&g, e)?.is_const()?;
    Some(addc(&scale(if d != 0 { &x } else { &y }, k), c))
}
/// exact range of a value made of a few booleans
pub fn bool_range(p: &P) -> Option<(i128, i128)> {
    let at = p.atoms();
    if p.ts.is_empty() || at.len() > 7 || at.iter().any(|a| atom_range(*a) != (0, 1)) {
        return None;
    }
    let ms: Vec<(u32, i128)> = p.ts.iter().map(|(m, k)| (mono_atoms(*m).iter().fold(0, |b, a| b | 1 << at.iter().position(|x| x == a).unwrap()), *k)).collect();
    let mut r = (i128::MAX, i128::MIN);
    for x in 0u32..1 << at.len() {
        let v = p.c + ms.iter().filter(|(m, _)| m & !x == 0).map(|t| t.1).sum::<i128>();
        r = (r.0.min(v), r.1.max(v));
    }
    Some(r)
}
thread_local! { pub static NAMING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// range of a choice between values that its condition speaks of
fn gated_range(p: &P) -> Option<(i128, i128)> {
    let (k, a, c) = p.as_affine()?;
    let AKind::Ite(g, x, y) = atom_kind(a) else { return None };
    let at = g.atoms();
    if at.len() > 3 {
        return None;
    }
    let mut r: Option<(i128, i128)> = None;
    let mut tight = false;
    for (t, v) in [(true, &x), (false, &y)] {
        let mut e = Env::default();
        let on = !v.ts.is_empty() && v.ts.len() <= 3;
        if on {
            crate::prove::assume(&g, t, &mut e);
            tight = true;
        }
        let mut rs = vec![range(v, &e)];
        if on && at.iter().all(|a| atom_range(*a) == (0, 1)) {
            // the cases of the condition
            rs.clear();
            for x in 0..1usize << at.len() {
                let mut q = e.clone();
                at.iter().enumerate().for_each(|(i, a)| q.refine(*a, (x >> i & 1) as i128, (x >> i & 1) as i128));
                let s: i128 = g.c + g.ts.iter().filter(|(m, _)| mono_atoms(*m).iter().all(|a| x >> at.iter().position(|b| b == a).unwrap() & 1 == 1)).map(|t| t.1).sum::<i128>();
                if s == t as i128 {
                    rs.push(range(v, &q));
                }
            }
        }
        for (l, h) in rs {
            r = Some(r.map_or((l, h), |(a, b)| (a.min(l), b.max(h))));
        }
    }
    let (l, h) = r.filter(|_| tight)?;
    Some(if k >= 0 { (k * l + c, k * h + c) } else { (k * h + c, k * l + c) })
}
/// a join result of small range becomes one opaque atom
pub fn name_small(p: P, x: &P, y: &P) -> P {
    if !NAMING.with(|n| n.get()) || p.ts.is_empty() || (is_bool(&p) && range_sq(&p, &Env::default()) == (0, 1)) {
        return p;
    }
    if p.ts.len() == 1 {
        match p.as_affine() {
            Some((_, a, _)) if !matches!(atom_kind(a), AKind::Ite(..) | AKind::Select(..)) => return p,
            _ => {}
        }
    }
    let e0 = Env::default();
    let own = range_sq(&p, &e0);
    let (l, h) = own;
    // the value is one of the two joined ones
    let (xr, yr) = (range(x, &e0), range(y, &e0));
    let (l, h) = (l.max(xr.0.min(yr.0)), h.min(xr.1.max(yr.1)));
    let (l, h) = match bool_range(&p) {
        Some((bl, bh)) => (l.max(bl), h.min(bh)),
        None => (l, h),
    };
    let (l, h) = match ON_PATH.with(|n| n.get()).then(|| gated_range(&p)).flatten() {
        Some((gl, gh)) => (l.max(gl), h.min(gh)),
        None => (l, h),
    };
    if h - l < 2 {
        if h - l == 1 && own != (l, h) {
            return addc(&derived(AKind::Bool(addc(&p, -l)), 0, 1), l);
        }
        return p;
    }
    if h - l > 31 {
        let big = NAMING_BIG.with(|n| n.get());
        let mut bl = 0u128;
        for a in p.atoms() {
            bl |= atom_bloom(a);
        }
        if big == 0 || bl.count_ones() < big {
            return p;
        }
    }
    if l < 0 && std::env::var("TXA_NM").is_ok() {
        eprintln!("# named [{},{}] own {:?} x {:?} y {:?} {}", l, h, own, xr, yr, show_d(&p, 2));
    }
    derived(AKind::Named(p), l, h)
}
thread_local! { pub static KEEP_SMALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
// values are simplified with what is known in their branch before they join
thread_local! { pub static ON_PATH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
thread_local! { pub static NAMING_BIG: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// value selected by offset among listed alternatives
pub fn select(o: &P, mut v: Vec<(i128, P)>, e: &Env) -> P {
    let (lo, hi) = range(o, e);
    v.retain(|x| x.0 >= lo && x.0 <= hi);
    if let Some(k) = o.is_const() {
        return v.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or_else(|| konst(0));
    }
    if v.is_empty() {
        return konst(0);
    }
    let f = v[0].1.clone();
    if v.iter().all(|x| x.1 == f) {
        return f;
    }
    // normalise the selector to k*atoms with constant folded into the keys
    let oc = o.c;
    let o = addc(o, -oc);
    let mut g = 0;
    for (_, k) in &o.ts {
        g = gcd(g, *k);
    }
    if o.ts[0].1 < 0 {
        g = -g;
    }
    let o = if g != 1 && g != 0 { Rc::new(Poly { c: 0, ts: o.ts.iter().map(|(m, k)| (*m, k / g)).collect() }) } else { o };
    let g = if g == 0 { 1 } else { g };
    let mut v: Vec<(i128, P)> = v.into_iter().map(|(k, x)| (k - oc, x)).filter(|x| x.0 % g == 0).map(|(k, x)| (k / g, x)).collect();
    v.sort_by_key(|x| x.0);
    if v.len() == 1 {
        return v[0].1.clone();
    }
    if v.len() == 2 {
        return ite_e(&eq0(&addc(&o, -v[0].0), e), &v[0].1, &v[1].1, e);
    }
    let e0 = Env::default();
    let rs: Vec<(i128, i128)> = v.iter().map(|x| range_sq(&x.1, &e0)).collect();
    let (l, h) = (rs.iter().map(|x| x.0).min().unwrap(), rs.iter().map(|x| x.1).max().unwrap());
    derived(AKind::Select(o, Rc::new(v)), l, h)
}

// ---------------------------------------------------------------------------------
// simplification under an environment
// ---------------------------------------------------------------------------------
thread_local! { static MEMO: RefCell<(u64, HashMap<Atom, Option<P>>)> = RefCell::new((0, HashMap::new())); }

pub fn simp(p: &P, e: &Env) -> P {
    if p.ts.is_empty() || e.ver == 0 {
        return p.clone();
    }
    if !e.pc.is_empty() {
        if let Some(v) = e.pc.get(&p.ts) {
            return konst(v + p.c);
        }
    }
    let mut q = p.clone();
    for a in p.atoms() {
        if atom_bloom(a) & e.bloom == 0 {
            continue;
        }
        if let Some(v) = simp_atom(a, e) {
            q = subst(&q, a, &v);
        }
    }
    if !e.zeros.is_empty() {
        let ts: Vec<(MonoId, i128)> = q.ts.iter().filter(|(m, _)| {
            let at = mono_atoms(*m);
            !e.zeros.iter().any(|z| z.iter().all(|a| at.contains(a)))
        }).cloned().collect();
        if ts.len() < q.ts.len() {
            q = Rc::new(Poly { c: q.c, ts });
        }
    }
    if !e.pc.is_empty() && q != *p {
        if let Some(v) = e.pc.get(&q.ts) {
            return konst(v + q.c);
        }
    }
    q
}
pub fn simp_atom(a: Atom, e: &Env) -> Option<P> {
    if let Some(d) = e.defs.get(&a) {
        return Some(simp(d, e));
    }
    if atom_base(a) {
        let (l, h) = arange(a, e);
        if l == h {
            return Some(konst(l));
        }
        if !matches!(atom_kind(a), AKind::Op(..) | AKind::Sel(..) | AKind::Named(..)) {
            return None;
        }
    }
    let hit = MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.0 != e.ver {
            m.0 = e.ver;
            m.1.clear();
        }
        m.1.get(&a).cloned()
    });
    if let Some(h) = hit {
        return h;
    }
    let r = simp_atom0(a, e);
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.0 == e.ver {
            m.1.insert(a, r.clone());
        }
    });
    r
}
/// values all of whose bits are there, put together
pub fn recompose(p: &P) -> P {
    let mut q = p.clone();
    let mut bases: Vec<Atom> = p.atoms().iter().filter_map(|a| match atom_kind(*a) {
        AKind::Bit(b, 0) => Some(b),
        _ => None,
    }).collect();
    bases.sort();
    bases.dedup();
    for b in bases {
        let (l, h) = atom_range(b);
        let coeff = |j: u32| p.ts.iter().find(|(m, _)| mono_single(*m).is_some_and(|a| matches!(atom_kind(a), AKind::Bit(x, i) if x == b && i == j)));
        let Some((_, k)) = coeff(0) else { continue };
        let n = (0..64).take_while(|j| coeff(*j).is_some_and(|(_, c)| *c == k << j)).count();
        if l >= 0 && h < 1 << n {
            for j in 0..n as u32 {
                let (m, c) = coeff(j).unwrap();
                q = sub(&q, &mono(*m, *c));
            }
            q = add(&q, &scale(&atom(b), *k));
        }
    }
    q
}
fn simp_atom0(a: Atom, e: &Env) -> Option<P> {
    let (l, h) = arange(a, e);
    if l == h {
        return Some(konst(l));
    }
    let ch = |p: &P| -> (P, bool) {
        let q = simp(p, e);
        let c = q != *p;
        (q, c)
    };
    let me = atom(a);
    let r = match atom_kind(a) {
        AKind::Ite(c, x, y) => {
            let (c, b0) = ch(&c);
            if let Some(k) = c.is_const() {
                return Some(simp(if k != 0 { &x } else { &y }, e));
            }
            let (x, b1) = ch(&x);
            let (y, b2) = ch(&y);
            if !(b0 || b1 || b2) {
                return None;
            }
            ite_e(&c, &x, &y, e)
        }
        AKind::Ge(p) => {
            let (q, b) = ch(&p);
            let q = if b { recompose(&q) } else { q };
            let (lo, hi) = range_sq(&q, e);
            if lo >= 0 {
                return Some(konst(1));
            }
            if hi < 0 {
                return Some(konst(0));
            }
            if !b {
                return None;
            }
            ge0(&q, e)
        }
        AKind::Eq0(p) => {
            let (q, b) = ch(&p);
            let (lo, hi) = range_sq(&q, e);
            if lo > 0 || hi < 0 {
                return Some(konst(0));
            }
            if !b {
                return None;
            }
            eq0(&q, e)
        }
        AKind::Bool(p) => {
            let (q, b) = ch(&p);
            if !b {
                return None;
            }
            wrapb(q)
        }
        AKind::Named(p) => {
            if NAMING_BIG.with(|n| n.get()) != 0 {
                // a small value keeps its name: what is known of it is kept in its range
                return shallow(&p, e).filter(|q| h - l > 31 || q.is_const().is_some() || !KEEP_SMALL.with(|k| k.get()));
            }
            let (q, b) = ch(&p);
            if !b {
                return None;
            }
            let (l, h) = range(&q, e);
            if l == h {
                return Some(konst(l));
            }
            match q.as_affine() {
                Some((_, x, _)) if atom_base(x) || matches!(atom_kind(x), AKind::Table(..)) => q,
                _ => return None,
            }
        }
        AKind::Select(o, v) => {
            let (q, b) = ch(&o);
            let mut any = b;
            let (ol, oh) = range(&q, e);
            let mut w = vec![];
            for (k, x) in v.iter() {
                if *k < ol || *k > oh {
                    any = true;
                    continue;
                }
                let (y, b) = ch(x);
                any |= b;
                w.push((*k, y));
            }
            if !any {
                return None;
            }
            select(&q, w, e)
        }
        AKind::Min(v) | AKind::Max(v) => {
            let is_min = matches!(atom_kind(a), AKind::Min(_));
            let mut w: Vec<P> = v.iter().map(|p| simp(p, e)).collect();
            // drop alternatives the facts rule out
            if !e.facts.is_empty() && w.len() <= 4 {
                let mut i = 0;
                while i < w.len() && w.len() > 1 {
                    let dom = (0..w.len()).any(|j| {
                        j != i && {
                            let d = if is_min { sub(&w[i], &w[j]) } else { sub(&w[j], &w[i]) };
                            let at = d.atoms();
                            e.facts.iter().any(|f| f.atoms().iter().any(|x| at.contains(x))) && crate::prove::entails_lin(&e.facts, e, &d)
                        }
                    });
                    if dom {
                        w.remove(i);
                    } else {
                        i += 1;
                    }
                }
            }
            let mut r = w[0].clone();
            for x in &w[1..] {
                r = minmax(&r, x, e, is_min);
            }
            r
        }
        AKind::Div(p, d) => {
            let (q, b) = ch(&p);
            if !b {
                return None;
            }
            div_const(&q, d, e)
        }
        AKind::Bit(b, j) => {
            let q = simp_atom(b, e)?;
            bit_of(&q, j, e)?
        }
        AKind::Table(b, t) if e.defs.contains_key(&b) || !e.defs.is_empty() && matches!(atom_kind(b), AKind::Table(..)) => {
            let q = simp_atom(b, e)?;
            let lo = atom_range(b).0;
            let at = |v: i128| t[(v - lo).clamp(0, t.len() as i128 - 1) as usize];
            if let Some(c) = q.is_const() {
                return Some(konst(at(c)));
            }
            let (k, x, c) = q.as_affine()?;
            let (xl, xh) = atom_range(x);
            if xh - xl > 255 {
                return None;
            }
            simp(&table_poly(x, (xl..=xh).map(|v| at(k * v + c)).collect()), e)
        }
        AKind::FCmp(op, x, y) => return fcmp_decide(op, &x, &y, e).map(|b| konst(b as i128)),
        AKind::Op(n, v) => {
            let w: Vec<P> = v.iter().map(|p| simp(p, e)).collect();
            if w == v {
                return None;
            }
            let (lo, hi) = atom_range(a);
            if n.contains('.') {
                // a bit of a buffer
                let k = AKind::Op(n, w.clone());
                return Some(hc_base(kind_key(&k), k, lo, hi, atom_taint(a) | poly_taint(&w[0])));
            }
            match w.get(1).and_then(|y| y.is_const()) {
                Some(d) if n == "Div" && d > 0 && range(&w[0], e).0 >= 0 => div_const(&w[0], d, e),
                _ => derived(AKind::Op(n, w), lo, hi),
            }
        }
        AKind::Sel(u, p) => {
            let (q, b) = ch(&p);
            if !b {
                return None;
            }
            let k = AKind::Sel(u, q.clone());
            return Some(hc_base(kind_key(&k), k, 0, 255, atom_taint(a) | poly_taint(&q)));
        }
        _ => return None,
    };
    if r == me {
        None
    } else {
        Some(r)
    }
}

// ---------------------------------------------------------------------------------
// bit-level views
// ---------------------------------------------------------------------------------
pub fn bit_of_atom(a: Atom, j: u32) -> P {
    let (_, h) = atom_range(a);
    if h <= 1 {
        return if j == 0 { atom(a) } else { konst(0) };
    }
    derived(AKind::Bit(a, j), 0, 1)
}
pub fn bit_of(p: &P, j: u32, e: &Env) -> Option<P> {
    bit_view(p, j + 1, e, true).map(|v| v[j as usize].clone())
}
/// Value known to be a sum of distinct powers of two times 0/1 quantities: its low n bits.
/// With `low`, higher bits are ignored.
pub fn bit_view(p: &P, n: u32, r: &Env, low: bool) -> Option<Vec<P>> {
    let (lo, hi) = range(p, r);
    if lo < 0 || (!low && n < 127 && hi >= (1i128 << n)) {
        return None;
    }
    if let Some(c) = p.is_const() {
        return Some((0..n).map(|k| konst((c >> k) & 1)).collect());
    }
    let w = (128 - (hi as u128).leading_zeros()).max(n);
    let mut bits: Vec<P> = vec![konst(0); w as usize];
    let mut used = vec![false; w as usize];
    let mut c = p.c;
    for (m, k) in &p.ts {
        let (l, h) = mono_range(*m, r);
        let (mut k, mut t): (i128, P) = (*k, mono(*m, 1));
        if l < 0 {
            return None;
        }
        if h > 1 {
            let a = mono_single(*m)?;
            if k <= 0 || (k & (k - 1)) != 0 {
                return None;
            }
            let sh = k.trailing_zeros();
            let aw = 128 - (h as u128).leading_zeros();
            for j in 0..aw {
                let pos = (sh + j) as usize;
                if pos >= w as usize || used[pos] {
                    return None;
                }
                used[pos] = true;
                bits[pos] = bit_of_atom(a, j);
            }
            continue;
        }
        if k < 0 {
            c += k;
            k = -k;
            t = not(&t);
        }
        if (k & (k - 1)) != 0 {
            return None;
        }
        let pos = k.trailing_zeros() as usize;
        if pos >= w as usize || used[pos] {
            return None;
        }
        used[pos] = true;
        bits[pos] = t;
    }
    if c < 0 {
        return None;
    }
    for k in 0..w as usize {
        if (c >> k) & 1 == 1 {
            if used[k] {
                return None;
            }
            bits[k] = konst(1);
        }
    }
    if w < 127 && (c >> w) != 0 {
        return None;
    }
    bits.truncate(n as usize);
    Some(bits)
}
pub fn from_bits(bits: &[P]) -> P {
    let mut r = konst(0);
    for (k, b) in bits.iter().enumerate() {
        r = add(&r, &scale(b, 1i128 << k));
    }
    refold(&r)
}
/// fold complete Bit(a,*) groups back into the atom
fn refold(p: &P) -> P {
    let mut groups: BTreeMap<Atom, Vec<(u32, i128)>> = BTreeMap::new();
    for (m, k) in &p.ts {
        if let Some(x) = mono_single(*m) {
            if !atom_base(x) {
                if let AKind::Bit(a, j) = atom_kind(x) {
                    groups.entry(a).or_default().push((j, *k));
                }
            }
        }
    }
    let mut r = p.clone();
    for (a, v) in groups {
        let (_, h) = atom_range(a);
        let w = 128 - (h as u128).leading_zeros();
        if v.len() != w as usize {
            continue;
        }
        let base = v.iter().find(|x| x.0 == 0).map(|x| x.1).unwrap_or(0);
        if base != 0 && v.iter().all(|(j, k)| *k == base << j) {
            for (j, k) in &v {
                r = sub(&r, &scale(&bit_of_atom(a, *j), *k));
            }
            r = add(&r, &scale(&atom(a), base));
        }
    }
    r
}
/// largest power of two dividing every value of p (as a multiple), capped
pub fn align_of(p: &P) -> i128 {
    let mut g = 0;
    for (_, k) in &p.ts {
        g = gcd(g, *k);
    }
    g = gcd(g, p.c);
    if g == 0 {
        1 << 64
    } else {
        1 << g.trailing_zeros().min(64)
    }
}

pub fn show(p: &Poly) -> String {
    show_d(p, show_depth())
}
pub fn show_d(p: &Poly, d: u32) -> String {
    let mut s = String::new();
    for (m, k) in &p.ts {
        let v: Vec<String> = mono_atoms(*m).iter().map(|a| show_atom(*a, d)).collect();
        if !s.is_empty() {
            s += " + ";
        }
        if *k != 1 {
            s += &format!("{}*", k);
        }
        s += &v.join("*");
        if s.len() > 2000 {
            s += "...";
            break;
        }
    }
    if p.c != 0 || s.is_empty() {
        if !s.is_empty() {
            s += " + ";
        }
        s += &p.c.to_string();
    }
    s
}
pub fn show_atom(a: Atom, d: u32) -> String {
    if d == 0 && !atom_base(a) {
        return format!("t{}", a);
    }
    let sh = |p: &P| show_d(p, d.saturating_sub(1));
    match atom_kind(a) {
        AKind::Input(s) => s,
        AKind::Phi => format!("phi{}", a),
        AKind::Div(p, k) => format!("floor(({})/{})", sh(&p), k),
        AKind::Min(v) => format!("min({})", v.iter().map(|p| sh(p)).collect::<Vec<_>>().join(", ")),
        AKind::Max(v) => format!("max({})", v.iter().map(|p| sh(p)).collect::<Vec<_>>().join(", ")),
        AKind::Bit(a, k) => format!("{}.{}", show_atom(a, d), k),
        AKind::Op(s, v) => format!("{}({})", s, v.iter().map(|p| sh(p)).collect::<Vec<_>>().join(", ")),
        AKind::Sel(r, p) => format!("buf{}[{}]", r, sh(&p)),
        AKind::Ite(c, x, y) => format!("({} ? {} : {})", sh(&c), sh(&x), sh(&y)),
        AKind::Ge(p) => format!("[{} >= 0]", sh(&p)),
        AKind::Eq0(p) => format!("[{} == 0]", sh(&p)),
        AKind::Bool(p) => format!("[{}]", sh(&p)),
        AKind::Named(p) => if d <= 1 { format!("n{}", a) } else { format!("n{}{{{}}}", a, sh(&p)) },
        AKind::Table(a, t) => format!("T{}({})", t.iter().take(6).map(|x| x.to_string()).collect::<Vec<_>>().join(","), show_atom(a, d)),
        AKind::Select(o, v) => format!("sel({}; {})", sh(&o), v.iter().map(|(k, p)| format!("{}:{}", k, sh(p))).collect::<Vec<_>>().join(", ")),
        AKind::F2I(f, ..) => format!("int({})", show_f(&f)),
        AKind::FCmp(o, x, y) => format!("{} {} {}", show_f(&x), ["<", "<=", "=="][o as usize], show_f(&y)),
        AKind::FBits(f) => format!("bits({})", show_f(&f)),
    }
}
fn show_depth() -> u32 {
    thread_local! { static D: u32 = std::env::var("TXA_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(4) }
    D.with(|d| *d)
}
