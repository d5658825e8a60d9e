//! Entailment on conjunctions of `poly >= 0` facts (convex polyhedra style, Farkas certificates),
//! assumption of boolean values, and bounded case analysis on gates.
use crate::flt::*;
use crate::poly::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Fr(i128, i128);
impl Fr {
    fn new(n: i128, d: i128) -> Option<Fr> {
        if d == 0 {
            return None;
        }
        let g = gcd(n, d).max(1);
        let (n, d) = (n / g, d / g);
        Some(if d < 0 { Fr(-n, -d) } else { Fr(n, d) })
    }
    fn sub(self, o: Fr) -> Option<Fr> {
        let n = self.0.checked_mul(o.1)?.checked_sub(o.0.checked_mul(self.1)?)?;
        Fr::new(n, self.1.checked_mul(o.1)?)
    }
    fn mul(self, o: Fr) -> Option<Fr> {
        Fr::new(self.0.checked_mul(o.0)?, self.1.checked_mul(o.1)?)
    }
    fn div(self, o: Fr) -> Option<Fr> {
        Fr::new(self.0.checked_mul(o.1)?, self.1.checked_mul(o.0)?)
    }
}
/// Farkas: do the constraints (each poly >= 0) have no rational solution (monomials as variables)?
fn infeasible(cons: &[P]) -> bool {
    if cons.len() > 24 && !maybe_infeasible(cons) {
        return false;
    }
    infeasible_opt(cons).unwrap_or(false)
}
/// the same tableau in floating point: a cheap filter (a "no" only loses precision)
fn maybe_infeasible(cons: &[P]) -> bool {
    let mut monos: BTreeMap<MonoId, usize> = BTreeMap::new();
    for p in cons {
        for (m, _) in &p.ts {
            let n = monos.len();
            monos.entry(*m).or_insert(n);
        }
    }
    let rows = monos.len() + 1;
    let n = cons.len();
    let w = n + 1;
    let mut t = vec![0f64; rows * w];
    for (j, p) in cons.iter().enumerate() {
        // scale each constraint
        let mx = p.ts.iter().map(|t| t.1.unsigned_abs() as f64).fold(p.c.unsigned_abs() as f64, f64::max).max(1.0);
        for (m, k) in &p.ts {
            t[monos[m] * w + j] = *k as f64 / mx;
        }
        t[(rows - 1) * w + j] = -(p.c as f64) / mx;
    }
    t[(rows - 1) * w + n] = 1.0;
    let mut basis: Vec<usize> = vec![usize::MAX; rows];
    let mut inb = vec![false; n];
    // objective row: sum of artificial rows
    let mut z = vec![0f64; w];
    for i in 0..rows {
        for c in 0..w {
            z[c] += t[i * w + c];
        }
    }
    let eps = 1e-9;
    for iter in 0..4000 {
        if z[n] < 1e-7 {
            return true;
        }
        let mut enter = None;
        let mut bestv = eps;
        for j in 0..n {
            if !inb[j] && z[j] > bestv {
                enter = Some(j);
                if iter > 500 {
                    break;
                }
                bestv = z[j];
            }
        }
        let Some(j) = enter else { return z[n] < 1e-6 };
        let mut best: Option<(usize, f64)> = None;
        for i in 0..rows {
            let a = t[i * w + j];
            if a > eps {
                let q = t[i * w + n] / a;
                let better = match best {
                    None => true,
                    Some((bi, bq)) => q < bq - 1e-12 || (q <= bq + 1e-12 && (basis[i] == usize::MAX && basis[bi] != usize::MAX)),
                };
                if better {
                    best = Some((i, q));
                }
            }
        }
        let Some((pi, _)) = best else { return true };
        let pv = t[pi * w + j];
        for c in 0..w {
            t[pi * w + c] /= pv;
        }
        let prow: Vec<f64> = t[pi * w..(pi + 1) * w].to_vec();
        for i in 0..rows {
            if i != pi {
                let f = t[i * w + j];
                if f != 0.0 {
                    for c in 0..w {
                        t[i * w + c] -= f * prow[c];
                    }
                }
            }
        }
        if basis[pi] != usize::MAX {
            inb[basis[pi]] = false;
        }
        basis[pi] = j;
        inb[j] = true;
        // recompute the objective from the remaining artificial rows
        for c in 0..w {
            z[c] = 0.0;
        }
        for i in 0..rows {
            if basis[i] == usize::MAX {
                for c in 0..w {
                    z[c] += t[i * w + c];
                }
            }
        }
    }
    true
}
fn infeasible_opt(cons: &[P]) -> Option<bool> {
    // variables: lambda_i >= 0 ; for each mono: sum lambda_i * coef = 0 ; sum lambda_i*c_i = -1
    let mut monos: BTreeMap<MonoId, usize> = BTreeMap::new();
    for p in cons {
        for (m, _) in &p.ts {
            let n = monos.len();
            monos.entry(*m).or_insert(n);
        }
    }
    let rows = monos.len() + 1;
    let n = cons.len();
    // phase-1 simplex: minimise sum of artificials. Tableau rows x (n + 1 rhs); artificial basis.
    let z = Fr(0, 1);
    let mut t = vec![vec![z; n + 1]; rows];
    for (j, p) in cons.iter().enumerate() {
        for (m, k) in &p.ts {
            t[monos[m]][j] = Fr(*k, 1);
        }
        t[rows - 1][j] = Fr(-p.c, 1);
    }
    t[rows - 1][n] = Fr(1, 1);
    // all rhs >= 0 already (0 or 1)
    let mut basis: Vec<Option<usize>> = vec![None; rows]; // None = artificial
    let mut iter = 0;
    loop {
        iter += 1;
        if iter > 2000 {
            return None;
        }
        // reduced cost for column j = sum over artificial rows of t[i][j]; objective = sum rhs of artificial rows
        let mut obj = z;
        for i in 0..rows {
            if basis[i].is_none() {
                obj = obj.sub(Fr(-t[i][n].0, t[i][n].1))?;
            }
        }
        if obj.0 == 0 {
            return Some(true);
        }
        let mut enter = None;
        for j in 0..n {
            if basis.contains(&Some(j)) {
                continue;
            }
            let mut s = z;
            for i in 0..rows {
                if basis[i].is_none() {
                    s = s.sub(Fr(-t[i][j].0, t[i][j].1))?;
                }
            }
            if s.0 > 0 {
                enter = Some(j);
                break;
            }
        }
        let Some(j) = enter else { return Some(false) };
        let mut best: Option<(usize, Fr)> = None;
        for i in 0..rows {
            if t[i][j].0 > 0 {
                let q = t[i][n].div(t[i][j])?;
                let better = match best {
                    None => true,
                    Some((bi, bq)) => {
                        let d = q.sub(bq)?;
                        d.0 < 0 || (d.0 == 0 && basis[i].is_none() && basis[bi].is_some()) || (d.0 == 0 && basis[i].is_none() == basis[bi].is_none() && basis[i] < basis[bi])
                    }
                };
                if better {
                    best = Some((i, q));
                }
            }
        }
        let Some((pi, _)) = best else { return Some(false) };
        // zero-rhs artificial rows with negative entries: allow degenerate pivots is fine under Bland
        let pv = t[pi][j];
        for c in 0..=n {
            t[pi][c] = t[pi][c].div(pv)?;
        }
        for i in 0..rows {
            if i != pi && t[i][j].0 != 0 {
                let f = t[i][j];
                for c in 0..=n {
                    if t[pi][c].0 != 0 {
                        t[i][c] = t[i][c].sub(f.mul(t[pi][c])?)?;
                    }
                }
            }
        }
        basis[pi] = Some(j);
    }
}

thread_local! { pub static PROVER_CALLS: RefCell<u64> = RefCell::new(0); }

thread_local! { static EMEMO: RefCell<HashMap<(u64, bool, P), bool>> = RefCell::new(HashMap::new()); }
thread_local! { static LINEAR: std::cell::Cell<bool> = std::cell::Cell::new(false); }
/// linear reasoning only (cheap)
pub fn entails_lin(facts: &[P], r: &Env, goal: &P) -> bool {
    let old = LINEAR.with(|l| l.replace(true));
    let b = entails(facts, r, goal);
    LINEAR.with(|l| l.set(old));
    b
}
/// Is `goal >= 0` implied by facts (polys >= 0) and ranges?
pub fn entails(facts: &[P], r: &Env, goal: &P) -> bool {
    let memo = r.ver != 0 && facts.as_ptr() == r.facts.as_ptr() && facts.len() == r.facts.len();
    if !memo {
        return entails0(facts, r, goal);
    }
    let k = (r.ver, LINEAR.with(|l| l.get()), goal.clone());
    if let Some(b) = EMEMO.with(|m| m.borrow().get(&k).copied()) {
        return b;
    }
    let b = entails0(facts, r, goal);
    EMEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 200000 {
            m.clear();
        }
        m.insert(k, b);
    });
    b
}
fn entails0(facts: &[P], r: &Env, goal: &P) -> bool {
    let (lo, hi) = range(goal, r);
    if lo >= 0 {
        return true;
    }
    if hi < 0 && facts.is_empty() {
        return false;
    }
    // Min atoms with positive coefficient: prove for each alternative
    for (m, k) in &goal.ts {
        if let Some(a) = mono_single(*m) {
            match atom_kind(a) {
                AKind::Min(v) if *k > 0 => return v.iter().all(|p| entails(facts, r, &subst(goal, a, p))),
                AKind::Max(v) if *k < 0 => return v.iter().all(|p| entails(facts, r, &subst(goal, a, p))),
                _ => {}
            }
        }
    }
    PROVER_CALLS.with(|c| *c.borrow_mut() += 1);
    let neg = addc(&scale(goal, -1), -1); // -goal-1 >= 0
    refute(facts, r, &neg)
}
/// are facts + ranges + extra contradictory?
pub fn refute(facts: &[P], r: &Env, extra: &P) -> bool {
    // relevant atoms: closure
    let mut atoms: Vec<Atom> = extra.atoms();
    let mut used = vec![false; facts.len()];
    let mut cons: Vec<P> = vec![extra.clone()];
    let mut i = 0;
    while i < atoms.len() && atoms.len() < 60 {
        let a = atoms[i];
        i += 1;
        let mut newp: Vec<P> = vec![];
        match atom_kind(a) {
            AKind::Div(p, d) => {
                let at = atom(a);
                newp.push(sub(&p, &scale(&at, d)));
                newp.push(addc(&sub(&scale(&at, d), &p), d - 1));
            }
            AKind::Min(v) => {
                for p in &v {
                    newp.push(sub(p, &atom(a)));
                }
            }
            AKind::Max(v) => {
                for p in &v {
                    newp.push(sub(&atom(a), p));
                }
            }
            AKind::Op(n, v) if n == "Div" && v.len() == 2 && range(&v[0], r).0 >= 0 && range(&v[1], r).0 >= 0 => {
                // 0 <= x - y*(x/y) <= y - 1 (the divisor was shown positive when the quotient was formed)
                let m = sub(&v[0], &mul(&v[1], &atom(a)));
                newp.push(m.clone());
                newp.push(addc(&sub(&v[1], &m), -1));
            }
            _ => {}
        }
        for (k, f) in facts.iter().enumerate() {
            if !used[k] && f.atoms().contains(&a) {
                used[k] = true;
                newp.push(f.clone());
            }
        }
        for p in newp {
            for x in p.atoms() {
                if !atoms.contains(&x) {
                    atoms.push(x);
                }
            }
            if !cons.contains(&p) {
                cons.push(p);
            }
        }
    }
    // integer cuts: eliminate a shared atom between a division and a linear fact, then round
    let mut cuts: Vec<P> = vec![];
    for &a in &atoms {
        if let AKind::Div(p, d) = atom_kind(a) {
            let at = atom(a);
            let defs = [sub(&p, &scale(&at, d)), addc(&sub(&scale(&at, d), &p), d - 1)];
            for f in cons.iter().filter(|f| f.degree() <= 1) {
                for g in &defs {
                    if f == g {
                        continue;
                    }
                    for (m, k) in &g.ts {
                        if let Ok(i) = f.ts.binary_search_by_key(m, |t| t.0) {
                            if f.ts[i].1 == -k {
                                let s = add(f, g);
                                let gg = s.ts.iter().fold(0, |x, t| gcd(x, t.1));
                                if gg > 1 {
                                    cuts.push(Rc::new(Poly { c: floor_div(s.c, gg), ts: s.ts.iter().map(|t| (t.0, t.1 / gg)).collect() }));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    for c in cuts {
        if !cons.contains(&c) {
            cons.push(c);
        }
    }
    // range constraints
    let mut rng: Vec<P> = vec![];
    for &a in &atoms {
        let (l, h) = arange(a, r);
        if l > -IMAX {
            rng.push(addc(&atom(a), -l));
        }
        if h < IMAX {
            rng.push(addc(&scale(&atom(a), -1), h));
        }
    }
    let mut base = cons.clone();
    base.extend(rng.iter().cloned());
    // only nonlinear problems need products
    let nonlin = base.iter().any(|p| p.degree() > 1);
    if infeasible(&base) {
        return true;
    }
    if !nonlin || LINEAR.with(|l| l.get()) {
        return false;
    }
    // too much for the product step: keep to the loop counters of the goal
    if cons.len() > 40 || base.iter().filter(|p| p.degree() > 1).count() > 24 {
        let mut core: std::collections::HashSet<Atom> = Default::default();
        let mut q = extra.atoms();
        while let Some(a) = q.pop() {
            if core.insert(a) {
                q.extend(kind_children(&atom_kind(a)).0);
            }
        }
        fn local(a: Atom, core: &std::collections::HashSet<Atom>, d: u32) -> bool {
            if core.contains(&a) {
                return false;
            }
            let k = atom_kind(a);
            matches!(k, AKind::Phi) || (d > 0 && !matches!(k, AKind::Bit(..)) && kind_children(&k).0.into_iter().any(|c| local(c, core, d - 1)))
        }
        let keep = |p: &P| p.atoms().iter().all(|a| !local(*a, &core, 4));
        cons.retain(keep);
        rng.retain(keep);
        base.retain(keep);
    }
    // facts about a factor, from the sum of two facts that have it in common
    let nl: Vec<P> = cons.iter().filter(|p| p.degree() > 1).cloned().collect();
    if nl.len() <= 30 {
        for (i, f) in nl.iter().enumerate() {
            for g in &nl[i + 1..] {
                if !f.ts.iter().any(|(m, k)| g.ts.iter().any(|(n, l)| m == n && *k == -*l)) {
                    continue;
                }
                let s = add(f, g);
                for (_, q) in factor_facts(&s, r) {
                    if !cons.contains(&q) && !q.ts.is_empty() {
                        for a in q.atoms() {
                            if let AKind::Div(p, d) = atom_kind(a) {
                                let at = atom(a);
                                for z in [sub(&p, &scale(&at, d)), addc(&sub(&scale(&at, d), &p), d - 1)] {
                                    if !cons.contains(&z) {
                                        base.push(z.clone());
                                        cons.push(z);
                                    }
                                }
                            }
                        }
                        base.push(q.clone());
                        cons.push(q);
                    }
                }
            }
        }
    }
    // multiply (linear) facts by factors occurring in nonlinear monomials
    let mut facs: Vec<Atom> = vec![];
    for p in &base {
        for (m, _) in &p.ts {
            let v = mono_atoms(*m);
            if v.len() > 1 {
                for a in v.iter().copied() {
                    if !facs.contains(&a) && arange(a, r).0 >= 0 {
                        facs.push(a);
                    }
                }
            }
        }
    }
    if cons.len() > 60 || facs.len() > 8 {
        return false;
    }
    let mut all = base.clone();
    let lin: Vec<P> = cons.iter().cloned().chain(rng.iter().filter(|p| p.c.abs() < (1 << 20)).cloned()).filter(|p| p.degree() <= 1).collect();
    for f in &facs {
        let (l, _) = arange(*f, r);
        let fac = addc(&atom(*f), -l.max(0)); // (a - lo) >= 0
        for p in &lin {
            let q = mul(p, &fac);
            if !all.contains(&q) {
                all.push(q);
            }
        }
    }
    let z = infeasible(&all);
    if std::env::var("TXA_REF").is_ok() && !z {
        eprintln!("# refute all {} nl {} facs {} maybe {} opt {:?} extra {}", all.len(), nl.len(), facs.len(), maybe_infeasible(&all), infeasible_opt(&all), show(extra));
        for c in &cons {
            eprintln!("#     {}", show(c));
        }
    }
    z
}


/// decide a boolean value under an environment
pub fn decide(c: &P, e: &Env) -> Option<bool> {
    let c = simp(c, e);
    decide0(&c, e)
}
thread_local! {
    /// answers of the decisions in progress, for one environment each
    static DECIDED: RefCell<(u32, std::collections::HashMap<(usize, Atom), Option<bool>>)> = RefCell::new((0, Default::default()));
}
fn decide0(c: &P, e: &Env) -> Option<bool> {
    if let Some(k) = c.is_const() {
        return Some(k != 0);
    }
    if let Some((k, a, c0)) = c.as_affine() {
        if (k, c0) == (1, 0) || (k, c0) == (-1, 1) {
            let r = decide_atom(a, e)?;
            return Some(r == (k == 1));
        }
    }
    if c.ts.len() <= 6 {
        let mut q = c.clone();
        for a in c.atoms() {
            if let Some(b) = decide_atom(a, e) {
                q = subst(&q, a, &konst(b as i128));
            }
        }
        if let Some(k) = q.is_const() {
            return Some(k != 0);
        }
    }
    None
}
fn decide_atom(a: Atom, e: &Env) -> Option<bool> {
    let (l, h) = arange(a, e);
    if l == h {
        return Some(l != 0);
    }
    if atom_base(a) {
        return None;
    }
    let key = (e as *const Env as usize, a);
    if let Some(r) = DECIDED.with(|d| d.borrow().1.get(&key).copied()) {
        return r;
    }
    DECIDED.with(|d| d.borrow_mut().0 += 1);
    let r = decide_derived(a, e);
    DECIDED.with(|d| {
        let mut d = d.borrow_mut();
        d.0 -= 1;
        if d.0 == 0 {
            d.1.clear();
        } else {
            d.1.insert(key, r);
        }
    });
    r
}
fn decide_derived(a: Atom, e: &Env) -> Option<bool> {
    match atom_kind(a) {
        AKind::Ge(p) => {
            let p = simp(&p, e);
            if !relevant(&p, e) {
                return None;
            }
            if entails(&e.facts, e, &p) {
                return Some(true);
            }
            if entails(&e.facts, e, &addc(&neg(&p), -1)) {
                return Some(false);
            }
            None
        }
        AKind::Eq0(p) => {
            let p = simp(&p, e);
            for q in &e.neqs {
                if *q == p || *q == neg(&p) {
                    return Some(false);
                }
            }
            if !relevant(&p, e) {
                return None;
            }
            let lo = entails(&e.facts, e, &p);
            let hi = entails(&e.facts, e, &neg(&p));
            if lo && hi {
                return Some(true);
            }
            if entails(&e.facts, e, &addc(&p, -1)) || entails(&e.facts, e, &addc(&neg(&p), -1)) {
                return Some(false);
            }
            None
        }
        AKind::Bool(p) => decide(&p, e),
        AKind::Ite(c, x, y) => {
            let c = decide(&c, e)?;
            decide(if c { &x } else { &y }, e)
        }
        _ => None,
    }
}
/// can facts say anything about p (beyond ranges)?
fn relevant(p: &P, e: &Env) -> bool {
    if p.degree() > 1 && sqrt_poly(p).is_none() {
        return true;
    }
    let at = p.atoms();
    if at.iter().any(|a| !atom_base(*a) && matches!(atom_kind(*a), AKind::Div(..) | AKind::Min(_) | AKind::Max(_))) {
        return true;
    }
    e.facts.iter().any(|f| f.atoms().iter().any(|x| at.contains(x)))
}
/// p = a*q + c >= 0 with a common non-negative factor a and c < 0: then q >= 1 (likewise for c = 0, a > 0)
fn factor_facts(p: &P, e: &Env) -> Vec<(Atom, P)> {
    let mut out = vec![];
    if p.degree() > 1 && p.c <= 0 {
        let g = p.ts.iter().fold(0, |g, t| gcd(g, t.1));
        let first = mono_atoms(p.ts[0].0);
        for a in first.iter() {
            let lo = arange(*a, e).0;
            if lo < 0 || (p.c == 0 && lo < 1) || !p.ts.iter().all(|(m, _)| mono_atoms(*m).contains(a)) {
                continue;
            }
            let mut q = konst(0);
            for (m, k) in &p.ts {
                let mut v = mono_atoms(*m).to_vec();
                let i = v.iter().position(|x| x == a).unwrap();
                v.remove(i);
                let mut t = konst(k / g);
                for x in v {
                    t = mul(&t, &atom(x));
                }
                q = add(&q, &t);
            }
            let q = if p.c < 0 { addc(&q, -1) } else { q };
            out.push((*a, q));
        }
    }
    out
}
pub fn add_fact(p: &P, e: &mut Env) {
    let p = merge_tables(&simp(p, e));
    let (lo, hi) = range(&p, e);
    if lo >= 0 {
        return;
    }
    if hi < 0 {
        e.dead = true;
        return;
    }
    if let Some((k, a, c)) = p.as_affine() {
        // k*a + c >= 0
        if k > 0 {
            e.refine(a, -floor_div(c, k), IMAX);
        } else {
            e.refine(a, -IMAX, floor_div(c, -k));
        }
        note_refined(a, e);
        return;
    }
    if e.facts.contains(&p) {
        return;
    }
    // a relation between a value and tables over it: which values satisfy it?
    if p.ts.len() == 2 {
        let at: Vec<(Atom, i128)> = p.ts.iter().filter_map(|(m, k)| Some((mono_single(*m)?, *k))).collect();
        let base = |a: Atom| match atom_kind(a) {
            AKind::Table(b, t) => (b, Some(t)),
            _ => (a, None),
        };
        if at.len() == 2 && base(at[0].0).0 == base(at[1].0).0 {
            let x = base(at[0].0).0;
            let (l, h) = arange(x, e);
            let z = atom_range(x).0;
            let ok = |v: i128| p.c + at.iter().map(|(a, k)| k * base(*a).1.map_or(v, |t| t[(v - z) as usize])).sum::<i128>() >= 0;
            if h - l < 512 {
                match ((l..=h).find(|v| ok(*v)), (l..=h).rev().find(|v| ok(*v))) {
                    (Some(nl), Some(nh)) => {
                        e.refine(x, nl, nh);
                        note_refined(x, e);
                    }
                    _ => {
                        e.dead = true;
                        return;
                    }
                }
            }
        }
    }
    // which alternative of a minimum is attained?
    for (m, k) in p.ts.clone() {
        if k >= 0 {
            continue;
        }
        let Some(a) = mono_single(m) else { continue };
        if let AKind::Min(v) = atom_kind(a) {
            if v.len() > 3 {
                continue;
            }
            let left: Vec<&P> = v.iter().filter(|x| !entails_lin(&e.facts, e, &addc(&neg(&subst(&p, a, x)), -1))).collect();
            match left.len() {
                0 => {
                    e.dead = true;
                    return;
                }
                1 if left.len() < v.len() => {
                    let x = left[0].clone();
                    for y in v.iter() {
                        let d = sub(y, &x);
                        if *y != x && range(&d, e).0 < 0 && !e.facts.contains(&d) {
                            e.facts.push(d);
                        }
                    }
                    e.define(a, x.clone());
                    e.touch();
                    return add_fact(&subst(&p, a, &x), e);
                }
                _ => {}
            }
        }
    }
    // a lower bound of a minimum bounds every alternative
    let mut alts: Vec<P> = vec![];
    if p.ts.len() <= 6 {
        for (m, k) in p.ts.iter() {
            let Some(a) = mono_single(*m) else { continue };
            match atom_kind(a) {
                AKind::Min(v) if *k > 0 => alts.extend(v.iter().filter(|x| x.is_const().is_none()).map(|x| subst(&p, a, x))),
                AKind::Max(v) if *k < 0 => alts.extend(v.iter().filter(|x| x.is_const().is_none()).map(|x| subst(&p, a, x))),
                _ => {}
            }
        }
    }
    // one-step bound propagation
    for (m, k) in p.ts.clone() {
        if let Some(a) = mono_single(m) {
            let rest = sub(&p, &mono(m, k));
            let (_, rh) = range(&rest, e);
            if rh < IMAX {
                // k*a >= -rh
                let (l, h) = arange(a, e);
                if k > 0 {
                    let nl = -floor_div(rh, k);
                    if nl > l {
                        e.refine(a, nl, IMAX);
                    }
                } else {
                    let nh = floor_div(rh, -k);
                    if nh < h {
                        e.refine(a, -IMAX, nh);
                    }
                }
            }
        }
    }
    // a positive product of non-negative factors has positive factors
    for (m, k) in p.ts.clone() {
        let v = mono_atoms(m);
        if v.len() > 1 && k > 0 {
            let rest = sub(&p, &mono(m, k));
            if range(&rest, e).1 < 0 && v.iter().all(|a| arange(*a, e).0 >= 0) {
                for a in v.iter() {
                    if arange(*a, e).0 == 0 {
                        e.refine(*a, 1, IMAX);
                        note_refined(*a, e);
                    }
                }
            }
        }
    }
    // a fact over the same terms that says less, or more
    if e.facts.iter().any(|q| q.ts == p.ts && q.c <= p.c) {
        return;
    }
    let n = e.facts.len();
    e.facts.retain(|q| q.ts != p.ts);
    if e.facts.len() != n {
        e.touch();
    }
    let mut derived_facts: Vec<P> = vec![];
    for (a, q) in factor_facts(&p, e) {
        derived_facts.push(mul(&q, &atom(a)));
        derived_facts.push(q);
    }
    e.facts.push(p);
    e.touch();
    for q in derived_facts.into_iter().chain(alts) {
        add_fact(&q, e);
    }
}
/// consequences of a refined range of a derived atom
fn note_refined(a: Atom, e: &mut Env) {
    if atom_base(a) {
        if let AKind::Named(p) = atom_kind(a) {
            let (l, h) = arange(a, e);
            if l > h {
                e.dead = true;
                return;
            }
            if l == h {
                assume_zero(&addc(&p, -l), e);
            } else {
                if l > atom_range(a).0 {
                    add_fact(&addc(&p, -l), e);
                }
                if h < atom_range(a).1 && !e.dead {
                    add_fact(&addc(&neg(&p), h), e);
                }
            }
        }
        return;
    }
    let (l, h) = arange(a, e);
    if l > h {
        e.dead = true;
        return;
    }
    match atom_kind(a) {
        AKind::Min(v) => {
            if l > atom_range(a).0 {
                for p in &v {
                    add_fact(&addc(p, -l), e);
                }
            }
        }
        AKind::Max(v) => {
            if h < atom_range(a).1 {
                for p in &v {
                    add_fact(&addc(&neg(p), h), e);
                }
            }
            // alternatives that can no longer attain the value
            let keep: Vec<P> = v.iter().filter(|p| range(p, e).1 >= l).cloned().collect();
            if keep.len() == 1 && v.len() > 1 {
                e.define(a, keep[0].clone());
                add_fact(&addc(&keep[0], -l), e);
            }
        }
        AKind::Table(b, t) => {
            let base = atom_range(b).0;
            let (bl, bh) = arange(b, e);
            let ok: Vec<i128> = (bl..=bh).filter(|v| (l..=h).contains(&t[(*v - base) as usize])).collect();
            if ok.is_empty() {
                e.dead = true;
            } else {
                let was = arange(b, e);
                e.refine(b, ok[0], *ok.last().unwrap());
                if was != arange(b, e) {
                    note_refined(b, e);
                }
            }
        }
        AKind::Ite(c, x, y) => {
            let (xl, xh) = range(&simp(&x, e), e);
            let (yl, yh) = range(&simp(&y, e), e);
            if xl > h || xh < l {
                assume(&c, false, e);
                if !e.dead {
                    add_fact(&addc(&y, -l), e);
                    add_fact(&addc(&neg(&y), h), e);
                }
            } else if yl > h || yh < l {
                assume(&c, true, e);
                if !e.dead {
                    add_fact(&addc(&x, -l), e);
                    add_fact(&addc(&neg(&x), h), e);
                }
            }
        }
        AKind::Div(p, d) => {
            if l > -IMAX && l > atom_range(a).0 {
                add_fact(&addc(&p, -l * d), e);
            }
            if h < IMAX && h < atom_range(a).1 {
                add_fact(&addc(&neg(&p), h * d + d - 1), e);
            }
        }
        _ => {
            if l == h && (l == 0 || l == 1) {
                assume_atom(a, l == 1, e);
            }
        }
    }
}
/// mixed-radix uniqueness: sum of k_i*t_i = 0 with small lower parts forces each part to 0
fn radix_split(p: &P, e: &Env) -> Option<(P, P)> {
    let mut ks: Vec<i128> = p.ts.iter().map(|x| x.1.abs()).collect();
    ks.sort();
    ks.dedup();
    for h in ks.into_iter().rev() {
        if h <= 1 {
            continue;
        }
        let (mut big, mut small) = (Poly { c: 0, ts: vec![] }, Poly { c: 0, ts: vec![] });
        for (m, k) in &p.ts {
            if k % h == 0 {
                big.ts.push((*m, *k));
            } else {
                small.ts.push((*m, *k));
            }
        }
        let cs = p.c.rem_euclid(h);
        for c in [cs, cs - h] {
            let s = std::rc::Rc::new(Poly { c, ts: small.ts.clone() });
            let (l, hh) = range(&s, e);
            if l > -h && hh < h && !big.ts.is_empty() && !s.ts.is_empty() {
                let b = std::rc::Rc::new(Poly { c: p.c - c, ts: big.ts.clone() });
                return Some((b, s));
            }
        }
    }
    None
}
pub fn assume_zero(p: &P, e: &mut Env) {
    let p = simp(p, e);
    if let Some(c) = p.is_const() {
        if c != 0 {
            e.dead = true;
        }
        return;
    }
    let (lo, hi) = range_sq(&p, e);
    if lo > 0 || hi < 0 {
        e.dead = true;
        return;
    }
    if let Some((k, a, c)) = p.as_affine() {
        if c % k != 0 {
            e.dead = true;
            return;
        }
        let v = -c / k;
        e.refine(a, v, v);
        note_refined(a, e);
        return;
    }
    if let Some((b, s)) = radix_split(&p, e) {
        assume_zero(&b, e);
        if !e.dead {
            assume_zero(&s, e);
        }
        return;
    }
    add_fact(&p, e);
    if !e.dead {
        add_fact(&neg(&p), e);
    }
    if e.dead {
        return;
    }
    // rewrite an atom with unit coefficient that is not nested elsewhere in p
    let t = std::rc::Rc::new(Poly { c: 0, ts: p.ts.clone() });
    e.pc.insert(t.ts.clone(), -p.c);
    e.pc.insert(neg(&t).ts.clone(), p.c);
    for a in p.atoms() {
        e.bloom |= atom_bloom(a);
    }
    let cand = p.ts.iter().rev().filter(|(_, k)| k.abs() == 1).filter_map(|(m, k)| mono_single(*m).map(|a| (a, *k))).find(|(a, _)| {
        p.ts.iter().filter(|(m, _)| mono_atoms(*m).contains(a)).count() == 1 && !p.atoms().iter().any(|b| b != a && depends(*b, *a))
    });
    if let Some((a, k)) = cand {
        // k*a + rest = 0
        let rest = sub(&p, &scale(&atom(a), k));
        let v = scale(&rest, -k);
        if !e.defs.values().any(|d| d.atoms().contains(&a)) {
            e.define(a, v);
        }
    }
    e.touch();
}
/// does atom a (transitively) contain atom b?
pub fn depends(a: Atom, b: Atom) -> bool {
    if a == b {
        return true;
    }
    fn go(a: Atom, b: Atom, seen: &mut std::collections::HashSet<Atom>) -> bool {
        if a == b {
            return true;
        }
        if a < b || !seen.insert(a) {
            return false;
        }
        let (ch, _) = kind_children(&atom_kind(a));
        ch.into_iter().any(|c| go(c, b, seen))
    }
    go(a, b, &mut Default::default())
}
pub fn assume(c: &P, truth: bool, e: &mut Env) {
    assume_one(c, truth, e);
    if !e.dead && !e.pc.is_empty() && NAMING_BIG.with(|n| n.get()) > 0 {
        propagate(c, e);
    }
}
/// earlier conditions over several booleans, of which some are known by now
fn propagate(c: &P, e: &mut Env) {
    let bl = c.atoms().iter().fold(0u128, |b, a| b | atom_bloom(*a));
    let old: Vec<(Vec<(MonoId, i128)>, i128)> = e.pc.iter().map(|(t, v)| (t.clone(), *v)).collect();
    let none: Vec<MonoId> = old.iter().filter(|(t, v)| t.len() == 1 && t[0].1.abs() == 1 && *v == 0).map(|(t, _)| t[0].0).collect();
    for (ts, v) in old {
        let p: P = Rc::new(Poly { c: 0, ts });
        let at = p.atoms();
        if at.len() > 24 || at.iter().all(|a| atom_bloom(*a) & bl == 0) {
            continue;
        }
        let mut q = p.clone();
        for a in at {
            let (l, h) = arange(a, e);
            if l == h {
                q = subst(&q, a, &konst(l));
            }
        }
        if q.ts.len() > 1 && !none.is_empty() {
            // conjunctions that do not hold
            let ts: Vec<(MonoId, i128)> = q.ts.iter().filter(|(m, _)| !none.iter().any(|z| mono_atoms(*z).iter().all(|a| mono_atoms(*m).contains(a)))).cloned().collect();
            if ts.len() < q.ts.len() {
                q = Rc::new(Poly { c: q.c, ts });
            }
        }
        if q == p {
            continue;
        }
        match q.is_const() {
            Some(k) if k != v => e.dead = true,
            Some(_) => {}
            None => {
                let d = addc(&q, -v);
                match bool_range(&d) {
                    Some((0, 1)) => assume_one(&d, false, e),
                    Some((-1, 0)) => assume_one(&addc(&d, 1), true, e),
                    _ => {}
                }
            }
        }
        if e.dead {
            return;
        }
    }
}
fn assume_one(c: &P, truth: bool, e: &mut Env) {
    if e.dead {
        return;
    }
    let c = simp(c, e);
    if let Some(k) = c.is_const() {
        if (k != 0) != truth {
            e.dead = true;
        }
        return;
    }
    if let Some((k, a, c0)) = c.as_affine() {
        if (k, c0) == (1, 0) {
            return assume_atom(a, truth, e);
        }
        if (k, c0) == (-1, 1) {
            return assume_atom(a, !truth, e);
        }
    }
    // products
    let (m, base) = if c.c == 1 { (not(&c), !truth) } else { (c.clone(), truth) };
    if m.c == 0 && m.ts.len() == 1 && m.ts[0].1 == 1 && base {
        for a in mono_atoms(m.ts[0].0).iter() {
            assume_atom(*a, true, e);
            if e.dead {
                return;
            }
        }
        return;
    }
    // x*(1-y) = x - xy
    if m.c == 0 && base {
        // every monomial shares a factor?
        let mut common: Vec<Atom> = mono_atoms(m.ts[0].0).to_vec();
        for (mm, _) in &m.ts[1..] {
            let v = mono_atoms(*mm);
            common.retain(|a| v.contains(a));
        }
        let mut any = false;
        for a in common {
            if atom_range(a) == (0, 1) {
                assume_atom(a, true, e);
                any = true;
                if e.dead {
                    return;
                }
            }
        }
        if any {
            return assume(&c, truth, e);
        }
    }
    // atoms whose value is forced
    let at = c.atoms();
    if at.len() <= 5 && at.iter().all(|a| atom_range(*a) == (0, 1)) {
        let want = truth as i128;
        let mut can: Vec<[bool; 2]> = vec![[false; 2]; at.len()];
        let mut any = false;
        for x in 0..1usize << at.len() {
            let mut s = c.c;
            for (m, k) in &c.ts {
                if mono_atoms(*m).iter().all(|a| x >> at.iter().position(|b| b == a).unwrap() & 1 == 1) {
                    s += k;
                }
            }
            if s == want {
                any = true;
                for i in 0..at.len() {
                    can[i][x >> i & 1] = true;
                }
            }
        }
        if !any {
            e.dead = true;
            return;
        }
        for (i, a) in at.iter().enumerate() {
            if !can[i][0] {
                assume_atom(*a, true, e);
            } else if !can[i][1] {
                assume_atom(*a, false, e);
            }
            if e.dead {
                return;
            }
        }
    }
    // keep the whole polynomial as a known constant
    let c2 = simp(&c, e);
    if let Some(k) = c2.is_const() {
        if (k != 0) != truth {
            e.dead = true;
        }
        return;
    }
    e.pc.insert(c2.ts.clone(), truth as i128 - c2.c);
    for a in c2.atoms() {
        e.bloom |= atom_bloom(a);
    }
    if truth {
        add_fact(&addc(&c2, -1), e);
    } else {
        add_fact(&neg(&c2), e);
    }
    e.touch();
}
pub fn assume_atom(a: Atom, truth: bool, e: &mut Env) {
    let v = truth as i128;
    let (l, h) = arange(a, e);
    if v < l || v > h {
        e.dead = true;
        return;
    }
    e.refine(a, v, v);
    match atom_kind(a) {
        AKind::Ge(p) => {
            if truth {
                add_fact(&p, e)
            } else {
                add_fact(&addc(&neg(&p), -1), e)
            }
        }
        AKind::Eq0(p) => {
            if truth {
                assume_zero(&p, e)
            } else {
                let p = simp(&p, e);
                if entails(&e.facts, e, &p) {
                    add_fact(&addc(&p, -1), e);
                } else if entails(&e.facts, e, &neg(&p)) {
                    add_fact(&addc(&neg(&p), -1), e);
                } else {
                    e.neqs.push(p);
                }
            }
        }
        AKind::Bool(p) => assume(&p, truth, e),
        AKind::Ite(c, x, y) => {
            // boolean-valued gate
            match (decide_quick(&x, e), decide_quick(&y, e)) {
                (Some(b), _) if b != truth => {
                    assume(&c, false, e);
                    assume(&y, truth, e);
                }
                (_, Some(b)) if b != truth => {
                    assume(&c, true, e);
                    assume(&x, truth, e);
                }
                _ => {}
            }
        }
        AKind::Table(..) => note_refined(a, e),
        AKind::FCmp(op, x, y) => fassume(op, &x, &y, truth, e),
        _ => {}
    }
}
fn decide_quick(p: &P, e: &Env) -> Option<bool> {
    simp(p, e).is_const().map(|k| k != 0)
}

/// gate (boolean) atoms occurring in p's term graph, outermost first
pub fn gates(p: &P, cap: usize) -> Vec<P> {
    let mut out: Vec<P> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut q: std::collections::VecDeque<Atom> = p.atoms().into();
    while let Some(a) = q.pop_front() {
        if !seen.insert(a) || out.len() >= cap {
            continue;
        }
        let k = atom_kind(a);
        match &k {
            AKind::Ite(c, ..) => {
                for x in c.atoms() {
                    if atom_range(x) == (0, 1) && !out.contains(&atom(x)) {
                        out.push(atom(x));
                    }
                }
            }
            AKind::Ge(_) | AKind::Eq0(_) | AKind::FCmp(..) => {
                if !out.contains(&atom(a)) {
                    out.push(atom(a));
                }
            }
            AKind::Named(_) if NAMING_BIG.with(|n| n.get()) != 0 => continue,
            _ => {}
        }
        q.extend(kind_children(&k).0);
    }
    out
}
thread_local! { pub static SPLITS: RefCell<u64> = RefCell::new(0); }
/// prove p >= 0 under e, splitting on gates (depth-bounded)
pub fn prove_ge(p: &P, e: &Env, depth: u32) -> bool {
    if e.dead {
        return true;
    }
    let p = simp(p, e);
    if range_sq(&p, e).0 >= 0 {
        return true;
    }
    if entails(&e.facts, e, &p) {
        return true;
    }
    if depth == 0 || p.is_const().is_some() {
        return dead_by_facts(e);
    }
    let whole = match p.as_affine().map(|x| atom_kind(x.1)) {
        Some(AKind::Ite(g, _, _)) if FUEL.with(|f| f.get()) > 0 => Some(g),
        _ => None,
    };
    let next = if whole.is_some() {
        FUEL.with(|f| f.set(f.get() - 1));
        depth
    } else {
        depth - 1
    };
    let gs = match whole {
        Some(g) => vec![g],
        None => pick_gate(&p, e),
    };
    for g in gs {
        SPLITS.with(|s| *s.borrow_mut() += 1);
        let mut ok = true;
        for v in [true, false] {
            let mut e2 = e.clone();
            assume(&g, v, &mut e2);
            if e2.dead || prove_ge(&p, &e2, next) {
                continue;
            }
            ok = false;
            break;
        }
        return ok;
    }
    if dead_by_facts(e) {
        return true;
    }
    // look inside the newest named value
    if let Some((a, q)) = p.atoms().into_iter().filter_map(|a| unfold(a).map(|q| (a, q))).max_by_key(|x| (matches!(atom_kind(x.0), AKind::Named(_)), x.0)) {
        // definitions only mention older values, so a single named value can be followed without using up the depth
        let follow = p.as_affine().is_some_and(|x| x.1 == a) && matches!(atom_kind(a), AKind::Named(_)) && FUEL.with(|f| f.get() > 0 && {
            f.set(f.get() - 1);
            true
        });
        if follow {
            // the pinned values in the definition are often enough, and the answer then holds for every path with them
            let sup = support(a);
            let pins: Vec<(Atom, (i128, i128))> = e.r.iter().filter(|(x, _)| sup.contains(x)).map(|(x, v)| (*x, *v)).collect();
            let key = (p.clone(), pins);
            let known = LEMMA.with(|m| m.borrow().get(&key).copied());
            let ok = match known {
                Some(b) => b,
                None => {
                    let mut e2 = Env::default();
                    for (x, (l, h)) in &key.1 {
                        e2.refine(*x, *l, *h);
                    }
                    let b = prove_ge(&subst(&p, a, &q), &e2, depth.max(2));
                    LEMMA.with(|m| m.borrow_mut().insert(key, b));
                    b
                }
            };
            if ok {
                return true;
            }
        }
        return prove_ge(&subst(&p, a, &q), e, if follow { depth.max(2) } else { depth - 1 });
    }
    false
}
/// every atom a value is made of
fn support(a: Atom) -> Rc<std::collections::HashSet<Atom>> {
    if let Some(s) = SUPPORT.with(|m| m.borrow().get(&a).cloned()) {
        return s;
    }
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![a];
    while let Some(x) = todo.pop() {
        if seen.insert(x) {
            todo.extend(kind_children(&atom_kind(x)).0);
        }
    }
    let s = Rc::new(seen);
    SUPPORT.with(|m| m.borrow_mut().insert(a, s.clone()));
    s
}
type LemmaKey = (P, Vec<(Atom, (i128, i128))>);
thread_local! {
    static SUPPORT: RefCell<HashMap<Atom, Rc<std::collections::HashSet<Atom>>>> = RefCell::new(HashMap::new());
    static LEMMA: RefCell<HashMap<LemmaKey, bool>> = RefCell::new(HashMap::new());
    static FUEL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// allowance of whole-value choices to follow in the next proofs
pub fn refuel() {
    FUEL.with(|f| f.set(60));
}
/// the definition of a named value
fn unfold(a: Atom) -> Option<P> {
    match atom_kind(a) {
        AKind::Named(p) => Some(p),
        AKind::Min(v) | AKind::Max(v) => {
            let is_min = matches!(atom_kind(a), AKind::Min(_));
            let i = v.iter().position(|p| p.atoms().iter().any(|x| matches!(atom_kind(*x), AKind::Named(_))))?;
            let b = v[i].atoms().into_iter().filter(|x| matches!(atom_kind(*x), AKind::Named(_))).max()?;
            let AKind::Named(d) = atom_kind(b) else { return None };
            let mut r = subst(&v[i], b, &d);
            for (j, p) in v.iter().enumerate() {
                if j != i {
                    r = minmax(&r, p, &Env::default(), is_min);
                }
            }
            Some(r)
        }
        _ => None,
    }
}
fn dead_by_facts(e: &Env) -> bool {
    if e.facts.is_empty() {
        return false;
    }
    refute(&e.facts, e, e.facts.last().unwrap())
}
fn pick_gate(p: &P, e: &Env) -> Vec<P> {
    gates(p, 12).into_iter().filter(|g| decide_quick(g, e).is_none()).take(1).collect()
}
/// prove a boolean value under e
pub fn prove(c: &P, e: &Env, depth: u32) -> bool {
    FUEL.with(|f| f.set(if NAMING_BIG.with(|n| n.get()) > 0 { 600 } else { 0 }));
    prove_inner(c, e, depth)
}
fn prove_inner(c: &P, e: &Env, depth: u32) -> bool {
    if e.dead {
        return true;
    }
    let c = simp(c, e);
    if let Some(b) = decide0(&c, e) {
        return b;
    }
    // a negated goal must be contradictory
    let mut e2 = e.clone();
    assume(&c, false, &mut e2);
    if e2.dead {
        return true;
    }
    if let Some((k, a, c0)) = c.as_affine() {
        match atom_kind(a) {
            AKind::Ge(p) if (k, c0) == (1, 0) => return prove_ge(&p, e, depth),
            AKind::Ge(p) if (k, c0) == (-1, 1) => return prove_ge(&addc(&neg(&p), -1), e, depth),
            AKind::Eq0(p) if (k, c0) == (1, 0) => return prove_ge(&p, e, depth) && prove_ge(&neg(&p), e, depth),
            AKind::Table(b, t) if matches!(atom_kind(b), AKind::Named(_)) => {
                // the good values form a range up to one end
                let lo = atom_range(b).0;
                let good: Vec<bool> = t.iter().map(|x| k * x + c0 != 0).collect();
                if let Some(f) = good.iter().position(|g| *g) {
                    if good[f..].iter().all(|g| *g) && prove_ge(&addc(&atom(b), -(lo + f as i128)), e, depth) {
                        return true;
                    }
                }
                if let Some(f) = good.iter().rposition(|g| *g) {
                    if good[..=f].iter().all(|g| *g) && prove_ge(&addc(&neg(&atom(b)), lo + f as i128), e, depth) {
                        return true;
                    }
                }
            }
            AKind::Bool(p) => return prove_inner(&if k == 1 { p } else { not(&p) }, e, depth),
            _ => {}
        }
    }
    prove_ge(&addc(&c, -1), e, depth)
}
/// are two values equal under e (canonical forms, then case analysis, then finite comparison)?
pub fn equal(a: &P, b: &P, e: &Env, depth: u32) -> bool {
    if a == b || e.dead {
        return true;
    }
    let d = simp(&sub(a, b), e);
    if let Some(c) = d.is_const() {
        return c == 0;
    }
    if let Some(r) = finite_zero(&d, e) {
        return r;
    }
    let d2 = posform(&d);
    if d2.is_const() == Some(0) {
        return true;
    }
    if entails(&e.facts, e, &d) && entails(&e.facts, e, &neg(&d)) {
        return true;
    }
    if depth == 0 {
        return false;
    }
    // split on gates, else on selectors
    for g in pick_gate(&d, e) {
        for v in [true, false] {
            let mut e2 = e.clone();
            assume(&g, v, &mut e2);
            if !e2.dead && !equal(&d, &konst(0), &e2, depth - 1) {
                return false;
            }
        }
        return true;
    }
    if let Some(b) = small_base(&d, e) {
        let (l, h) = arange(b, e);
        for v in l..=h {
            let mut e2 = e.clone();
            e2.refine(b, v, v);
            if !e2.dead && !equal(&d, &konst(0), &e2, depth - 1) {
                return false;
            }
        }
        return true;
    }
    false
}
fn small_base(d: &P, e: &Env) -> Option<Atom> {
    let mut seen = std::collections::HashSet::new();
    let mut q: std::collections::VecDeque<Atom> = d.atoms().into();
    while let Some(a) = q.pop_front() {
        if !seen.insert(a) || seen.len() > 4000 {
            continue;
        }
        if atom_base(a) {
            let (l, h) = arange(a, e);
            if h - l <= 3 && h > l {
                return Some(a);
            }
            continue;
        }
        q.extend(kind_children(&atom_kind(a)).0);
    }
    None
}
/// rewrite two-argument min/max through pos(d) = max(d, 0)
pub fn posform(p: &P) -> P {
    let mut q = p.clone();
    for a in p.atoms() {
        match atom_kind(a) {
            AKind::Min(v) if v.len() == 2 => {
                // a - pos(a-b)
                let r = sub(&v[0], &pos(&sub(&v[0], &v[1])));
                q = subst(&q, a, &r);
            }
            AKind::Max(v) if v.len() == 2 => {
                let r = add(&v[1], &pos(&sub(&v[0], &v[1])));
                q = subst(&q, a, &r);
            }
            _ => {}
        }
    }
    q
}
fn pos(d: &P) -> P {
    if d.ts.is_empty() {
        return konst(d.c.max(0));
    }
    if d.ts[0].1 < 0 {
        return add(&pos(&neg(d)), d);
    }
    let (l, h) = range(d, &Env::default());
    derived(AKind::Op("pos".into(), vec![d.clone()]), l.max(0), h.max(0))
}
/// exhaustive comparison with 0 when the support is small
pub fn finite_zero(d: &P, e: &Env) -> Option<bool> {
    let s = poly_supp(d)?;
    let mut n: i128 = 1;
    let mut dom = vec![];
    for a in s.iter() {
        let (l, h) = arange(*a, e);
        if l > h {
            return Some(true);
        }
        n = n.checked_mul(h - l + 1)?;
        if n > 1 << 18 {
            return None;
        }
        dom.push((*a, l, h));
    }
    let mut cur: Vec<i128> = dom.iter().map(|x| x.1).collect();
    loop {
        let env: HashMap<Atom, i128> = dom.iter().zip(&cur).map(|(d, v)| (d.0, *v)).collect();
        let v = Ev::new(&env).p(d)?;
        if v != 0 {
            // facts may exclude this point
            let mut ok = true;
            for f in e.facts.iter() {
                if let Some(x) = Ev::new(&env).p(f) {
                    if x < 0 {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return if e.facts.is_empty() && e.neqs.is_empty() && e.pc.is_empty() && e.defs.is_empty() { Some(false) } else { None };
            }
        }
        let mut i = 0;
        loop {
            if i == cur.len() {
                return Some(true);
            }
            cur[i] += 1;
            if cur[i] <= dom[i].2 {
                break;
            }
            cur[i] = dom[i].1;
            i += 1;
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn t1() {
        let w = input("W", 1, 1 << 30, 0);
        let h = input("H", 1, 1 << 30, 0);
        let x = input("x", 0, 1 << 30, 0);
        let n = input("n", 0, 1 << 30, 0);
        let r = Env::default();
        let f1 = addc(&sub(&h, &scale(&n, 4)), -3);
        let f2 = addc(&sub(&w, &scale(&x, 4)), -4);
        let idx = addc(&add(&scale(&mul(&w, &n), 16), &scale(&add(&addc(&scale(&x, 4), 3), &scale(&w, 2)), 4)), 3);
        let g = addc(&sub(&scale(&mul(&w, &h), 4), &idx), -1);
        assert!(entails(&[f1.clone(), f2.clone()], &r, &g));
        assert!(!entails(&[f2.clone()], &r, &g));
        let f = addc(&sub(&scale(&mul(&w, &h), 4), &scale(&mul(&w, &n), 16)), -1);
        let bh = div_const(&addc(&h, 3), 4, &r);
        let g = addc(&sub(&bh, &n), -1);
        assert!(entails(&[f], &r, &g));
    }
}
