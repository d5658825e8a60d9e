//! Loop generalisation: the loop-carried cells are replaced by closed forms (or ranges) over an
//! arbitrary iteration number, checked to be inductive by re-running the body.
use crate::flt::*;
use crate::interp::*;
use crate::poly::*;
use crate::prove::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum PK {
    Inv,
    Ind(P, P),    // v0 + d*n
    MaxInd(P, P), // max(0, v0 - c*n)
    /// pointer offset moving against the slice length: off0 + len0 - len
    Comp(P, P),
    Any(i128, i128, Taint),
}
#[derive(Clone)]
enum Ph {
    Int(PK),
    F(f64, f64, bool, Taint, u32),
    Ptr(Rc<Pv>, PK, PK, PK), // template (entry), off, meta, nn
    Top(Taint),
}
type Key = (Reg, u64, u64);

fn thresholds() -> Vec<i128> {
    vec![0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 255, 256, 4096, 65535, (1 << 31) - 1, (1 << 32) - 1, (1 << 62), (1i128 << 63) - 1, (1i128 << 64) - 1, IMAX]
}
fn widen_hi(x: i128) -> i128 {
    thresholds().into_iter().find(|t| *t >= x).unwrap_or(IMAX)
}
fn widen_lo(x: i128) -> i128 {
    if x >= 0 {
        return *thresholds().iter().rev().find(|t| **t <= x).unwrap_or(&0);
    }
    -thresholds().into_iter().find(|t| *t >= -x).unwrap_or(IMAX)
}
fn fwiden(x: f64, up: bool) -> f64 {
    let t = [0.0, 1.0, 2.0, 16.0, 31.0, 63.0, 64.0, 255.0, 256.0, 1024.0, 65536.0, 1e9, 1e20, f32::MAX as f64];
    if up {
        if x <= 0.0 {
            return 0.0;
        }
        t.iter().copied().find(|v| *v >= x).unwrap_or(f64::INFINITY)
    } else {
        if x >= 0.0 {
            return 0.0;
        }
        t.iter().copied().find(|v| *v >= -x).map(|v| -v).unwrap_or(f64::NEG_INFINITY)
    }
}
fn mentions(p: &P, ph: &[Atom]) -> bool {
    p.atoms().iter().any(|a| ph.iter().any(|b| *a == *b || depends(*a, *b)))
}

impl Cx {
    fn pk_val(&mut self, k: &PK, cur: &P, n: &P, meta_now: Option<&P>, e: &Env) -> P {
        match k {
            PK::Inv => cur.clone(),
            PK::Ind(v0, d) => add(v0, &mul(d, n)),
            PK::MaxInd(v0, c) => max2(&konst(0), &sub(v0, &mul(c, n)), e),
            PK::Comp(o0, m0) => match meta_now {
                Some(m) => add(o0, &sub(m0, m)),
                None => cur.clone(),
            },
            PK::Any(l, h, t) => fresh(AKind::Phi, *l, *h, *t),
        }
    }
    /// decide the shape of one integer component from entry value, header value and next value
    fn pk_next(&mut self, k: &PK, v0: &P, hv: &P, nv: &P, n: &P, e: &Env, ct: Taint, phis: &[Atom]) -> (PK, bool) {
        let nv = simp(nv, e);
        let hv = simp(hv, e);
        let any = |old: Option<(i128, i128, Taint)>| -> PK {
            let (l, h) = range(&nv, e);
            let (l0, h0) = range(v0, e);
            let (mut lo, mut hi) = (l.min(l0), h.max(h0));
            let mut t = ct | poly_taint(&nv) | poly_taint(v0);
            if let Some((a, b, tt)) = old {
                lo = lo.min(a);
                hi = hi.max(b);
                t |= tt;
            }
            PK::Any(widen_lo(lo), widen_hi(hi), t)
        };
        match k {
            PK::Inv => {
                if nv == hv || equal(&nv, &hv, e, 2) {
                    return (PK::Inv, true);
                }
                let d = simp(&sub(&nv, &hv), e);
                if d.is_const().is_some() || !mentions(&d, phis) && d.degree() <= 2 && !d.atoms().iter().any(|a| matches!(atom_kind(*a), AKind::Min(_) | AKind::Ite(..) | AKind::Phi | AKind::Select(..))) {
                    return (PK::Ind(v0.clone(), d), false);
                }
                if let Some(c) = min_step(&d, &hv) {
                    if !mentions(&c, phis) {
                        return (PK::MaxInd(v0.clone(), c), false);
                    }
                }
                (any(None), false)
            }
            PK::Ind(_, d) => {
                let want = add(&hv, d);
                if equal(&nv, &want, e, 2) {
                    return (k.clone(), true);
                }
                let dd = simp(&sub(&nv, &hv), e);
                if let Some(c) = min_step(&dd, &hv) {
                    if !mentions(&c, phis) {
                        return (PK::MaxInd(v0.clone(), c), false);
                    }
                }
                (any(None), false)
            }
            PK::MaxInd(v0, c) => {
                let want = max2(&konst(0), &sub(v0, &mul(c, &addc(n, 1))), e);
                if equal(&nv, &want, e, 3) {
                    return (k.clone(), true);
                }
                (any(None), false)
            }
            PK::Comp(..) => (k.clone(), true), // checked by the caller
            PK::Any(l, h, t) => {
                let (nl, nh) = range(&nv, e);
                let nt = t | ct | poly_taint(&nv);
                let fits = nl >= *l && nh <= *h || (prove_ge(&addc(&nv, -*l), e, 1) && prove_ge(&addc(&neg(&nv), *h), e, 1));
                if fits && nt == *t {
                    return (k.clone(), true);
                }
                if fits {
                    return (PK::Any(*l, *h, nt), false);
                }
                (any(Some((*l, *h, nt))), false)
            }
        }
    }
    pub fn gen_loop(&mut self, fr: &Fr, h: usize, _li: usize, st0: State, inner: &[usize], _x: usize) -> R<Vec<(usize, State)>> {
        let snap = (self.events.len(), self.obs.len(), self.written_snapshot());
        let mut st0 = st0;
        let top = fr.base + fr.f.locals.len();
        let kill = |s: &mut State| {
            for i in fr.base..top {
                let l = i - fr.base;
                if !fr.f.live_in[h][l] && !fr.f.addr_taken[l] {
                    s.mem[i] = None;
                }
            }
        };
        kill(&mut st0);
        let mut phs: BTreeMap<Key, Ph> = BTreeMap::new();
        let mut ct: Taint = 0;
        let mut invs: Vec<P> = vec![];
        let mark = n_atoms();
        let mut n = fresh(AKind::Phi, 0, 1 << 62, 0);
        let l0 = st0.path.len();
        for round in 0..40 {
            self.events.truncate(snap.0);
            self.obs.truncate(snap.1);
            self.restore_written(snap.2.clone());
            let mut st = st0.clone();
            let env0 = st0.env.clone();
            let mut atoms: Vec<Atom> = n.atoms();
            let mut lens: Vec<P> = vec![];
            for (key, ph) in phs.clone() {
                let cur = self.cell_get(&st0, key);
                let v = match &ph {
                    Ph::Int(k) => {
                        let c = match &cur {
                            Val::Int(p) => p.clone(),
                            _ => konst(0),
                        };
                        let p = self.pk_val(k, &c, &n, None, &env0);
                        if matches!(k, PK::Any(..)) {
                            atoms.extend(p.atoms());
                        }
                        Val::Int(p)
                    }
                    Ph::F(l, hh, nan, t, b) => Val::F(opaque(*b, *l, *hh, *nan, *t)),
                    Ph::Ptr(tpl, ko, km, kn) => {
                        let m = tpl.meta.as_ref().map(|m| self.pk_val(km, m, &n, None, &env0));
                        let o = self.pk_val(ko, &tpl.off, &n, m.as_ref(), &env0);
                        let nn = self.pk_val(kn, &tpl.nn, &n, None, &env0);
                        if let Some(m) = &m {
                            // a slice length is never negative
                            lens.push(m.clone());
                        }
                        for (k, p) in [(ko, &o), (kn, &nn)] {
                            if matches!(k, PK::Any(..)) {
                                atoms.extend(p.atoms());
                            }
                        }
                        if let (PK::Any(..), Some(m)) = (km, &m) {
                            atoms.extend(m.atoms());
                        }
                        Val::Ptr(Rc::new(Pv { reg: tpl.reg, off: o, meta: m, nn }))
                    }
                    Ph::Top(t) => Val::Top(*t),
                };
                let env = st.env.clone();
                let r = self.region_mut(&mut st, key.0);
                r.put(key.1, key.2, v, &env);
            }
            for q in invs.iter().chain(&lens) {
                add_fact(q, st.envm());
            }
            let header = st.clone();
            let arr = self.run(fr, h, st, inner, Some(h))?;
            let mut next = None;
            let mut exits = vec![];
            let mut nct = ct;
            for (t, s) in arr {
                for c in &s.path[l0.min(s.path.len())..] {
                    nct |= poly_taint(c);
                }
                if t == h {
                    next = Some(s);
                } else {
                    exits.push((t, s));
                }
            }
            let Some(mut nx) = next else {
                // never iterates again
                return Ok(self.finish(exits, l0, &st0));
            };
            kill(&mut nx);
            let mut stable = true;
            if nct != ct {
                ct = nct;
                stable = false;
                let n2 = fresh(AKind::Phi, 0, 1 << 62, ct);
                if let Some(a) = n.as_atom() {
                    invs = invs.iter().map(|q| subst_deep(q, a, &n2)).collect();
                }
                n = n2;
            }
            let env = nx.env.clone();
            // compare
            let mut keys: Vec<Key> = vec![];
            for r in 0..nx.mem.len().min(header.mem.len()) {
                let (a, b) = (&header.mem[r], &nx.mem[r]);
                match (a, b) {
                    (Some(a), Some(b)) if Rc::ptr_eq(a, b) => {}
                    (a, b) => {
                        let e1 = vec![];
                        let ca = a.as_ref().map_or(&e1, |x| &x.cells);
                        let cb = b.as_ref().map_or(&e1, |x| &x.cells);
                        for (o, s, _) in cb.iter() {
                            keys.push((r, *o, *s));
                        }
                        let _ = ca;
                    }
                }
            }
            for k in phs.keys() {
                if !keys.contains(k) {
                    keys.push(*k);
                }
            }
            for key in keys {
                let v0 = self.cell_get(&st0, key);
                let hv = self.cell_get(&header, key);
                let nv = self.cell_get(&nx, key);
                let old = phs.get(&key).cloned();
                if old.is_none() && same_val(&hv, &nv) {
                    continue;
                }
                let (ph, ok) = match (&old, &v0, &hv, &nv) {
                    (_, _, _, Val::Undef) => continue,
                    (Some(Ph::Top(t)), ..) => {
                        let t2 = t | val_taint(&nv) | ct;
                        (Ph::Top(t2), t2 == *t)
                    }
                    (None, Val::Undef, _, Val::Int(p)) => {
                        let (l, hh) = range(p, &env);
                        (Ph::Int(PK::Any(widen_lo(l), widen_hi(hh), poly_taint(p) | ct)), false)
                    }
                    (_, v0, Val::Int(hp), Val::Int(np)) if !matches!(old, Some(Ph::F(..)) | Some(Ph::Ptr(..))) => {
                        let k = match &old {
                            Some(Ph::Int(k)) => k.clone(),
                            _ => PK::Inv,
                        };
                        let v0p = match v0 {
                            Val::Int(p) => p.clone(),
                            _ => np.clone(),
                        };
                        let (nk, ok) = self.pk_next(&k, &v0p, hp, np, &n, &env, ct, &atoms);
                        if matches!(nk, PK::Inv) && old.is_none() {
                            continue;
                        }
                        (Ph::Int(nk), ok)
                    }
                    (_, _, _, Val::F(f)) if !matches!(old, Some(Ph::Int(..)) | Some(Ph::Ptr(..))) => {
                        let (l, hh, nan) = frange(f, &env);
                        let (mut lo, mut hi, mut nn, mut t) = (l, hh, nan, f.taint | ct);
                        if let Val::F(g) = &v0 {
                            let (a, b, c) = frange(g, &env);
                            lo = lo.min(a);
                            hi = hi.max(b);
                            nn |= c;
                            t |= g.taint;
                        }
                        match &old {
                            Some(Ph::F(a, b, c, tt, bits)) => {
                                if lo >= *a && hi <= *b && (!nn || *c) && t | tt == *tt {
                                    (old.clone().unwrap(), true)
                                } else {
                                    let lo2 = if lo < *a { fwiden(lo, false) } else { *a };
                                    let hi2 = if hi > *b { fwiden(hi, true) } else { *b };
                                    (Ph::F(lo2, hi2, nn || *c, t | tt, *bits), false)
                                }
                            }
                            _ => (Ph::F(lo, hi, nn, t, f.bits), false),
                        }
                    }
                    (_, Val::Ptr(p0), Val::Ptr(hp), Val::Ptr(np)) if p0.reg == np.reg && hp.reg == np.reg && p0.meta.is_some() == np.meta.is_some() => {
                        let (ko, km, kn) = match &old {
                            Some(Ph::Ptr(_, a, b, c)) => (a.clone(), b.clone(), c.clone()),
                            _ => (PK::Inv, PK::Inv, PK::Inv),
                        };
                        let (nkm, ok2) = match (&p0.meta, &hp.meta, &np.meta) {
                            (Some(m0), Some(hm), Some(nm)) => self.pk_next(&km, m0, hm, nm, &n, &env, ct, &atoms),
                            _ => (PK::Inv, true),
                        };
                        let (nkn, ok3) = self.pk_next(&kn, &p0.nn, &hp.nn, &np.nn, &n, &env, ct, &atoms);
                        // offset moving with the length?
                        let mut comp = None;
                        if let (Some(m0), Some(hm), Some(nm)) = (&p0.meta, &hp.meta, &np.meta) {
                            if hm != nm && equal(&add(&np.off, nm), &add(&hp.off, hm), &env, 2) {
                                comp = Some(PK::Comp(p0.off.clone(), m0.clone()));
                            }
                        }
                        let (nko, ok1) = match (&ko, comp) {
                            (PK::Comp(..), Some(_)) => (ko.clone(), true),
                            (PK::Comp(..), None) => {
                                let (l, hh) = range(&np.off, &env);
                                (PK::Any(widen_lo(l.min(0)), widen_hi(hh), ct | poly_taint(&np.off)), false)
                            }
                            (PK::Inv, Some(c)) => (c, false),
                            (PK::Ind(..), Some(c)) => {
                                let (k2, ok) = self.pk_next(&ko, &p0.off, &hp.off, &np.off, &n, &env, ct, &atoms);
                                if ok {
                                    (k2, true)
                                } else {
                                    (c, false)
                                }
                            }
                            _ => self.pk_next(&ko, &p0.off, &hp.off, &np.off, &n, &env, ct, &atoms),
                        };
                        if old.is_none() && matches!((&nko, &nkm, &nkn), (PK::Inv, PK::Inv, PK::Inv)) {
                            continue;
                        }
                        (Ph::Ptr(p0.clone(), nko, nkm, nkn), ok1 && ok2 && ok3)
                    }
                    _ => (Ph::Top(val_taint(&v0) | val_taint(&nv) | ct), matches!(old, Some(Ph::Top(_)))),
                };
                if !ok {
                    stable = false;
                    if self.trace {
                        eprintln!("gen {} bb{} round {} cell {:?}: {} -> {} ; {}", fr.f.name, h, round, key, show_val(&hv), show_val(&nv), match &ph { Ph::Int(k) => format!("{:?}", k), Ph::Ptr(_, a, b, _) => format!("{:?} {:?}", a, b), Ph::F(a, b, c, ..) => format!("F {} {} {}", a, b, c), Ph::Top(_) => "Top".into() });
                    }
                }
                phs.insert(key, ph);
            }
            if stable {
                // candidate invariants from the conditions every iteration has to satisfy
                let na = n.as_atom();
                let mut added = false;
                if let Some(na) = na {
                    for c in nx.path[l0.min(nx.path.len())..].iter() {
                        for q in self.inv_candidates(c, na, &st0.env) {
                            // only over values fixed before the loop (and the iteration number)
                            let old = poly_supp(&q).is_some_and(|s| s.iter().all(|b| *b == na || (*b as usize) < mark));
                            if old && !invs.contains(&q) {
                                invs.push(q);
                                added = true;
                            }
                        }
                    }
                }
                if !added {
                    if let Some(na) = na {
                        let ex: Vec<Vec<P>> = exits.iter().map(|(_, s)| s.path[l0.min(s.path.len())..].to_vec()).collect();
                        self.loop_recs.insert(na, Rc::new(ex));
                    }
                    return Ok(self.finish(exits, l0, &st0));
                }
            }
        }
        self.fatal(format!("loop in {} does not stabilise", fr.f.name))
    }
    fn finish(&mut self, mut exits: Vec<(usize, State)>, l0: usize, st0: &State) -> Vec<(usize, State)> {
        if exits.len() == 1 {
            let _ = l0;
            exits[0].1.path = st0.path.clone();
        }
        exits
    }
    fn inv_candidates(&mut self, c: &P, na: Atom, e0: &Env) -> Vec<P> {
        let mut out = vec![];
        let Some((k, a, c0)) = c.as_affine() else { return out };
        let kind = atom_kind(a);
        let prev = addc(&atom(na), -1);
        match kind {
            AKind::Ge(p) => {
                let q = if (k, c0) == (1, 0) {
                    p
                } else if (k, c0) == (-1, 1) {
                    addc(&neg(&p), -1)
                } else {
                    return out;
                };
                if !q.atoms().contains(&na) {
                    return out;
                }
                let at_prev = subst(&q, na, &prev);
                let base = subst(&at_prev, na, &konst(0));
                if !mentions(&base, &[na]) && prove_ge(&base, e0, 2) {
                    out.push(at_prev);
                }
            }
            AKind::Eq0(p) if (k, c0) == (-1, 1) => {
                for q in [p.clone(), neg(&p)] {
                    let z = subst(&q, na, &konst(0));
                    let d = sub(&subst(&q, na, &addc(&atom(na), 1)), &q);
                    if let Some(d) = d.is_const() {
                        if d < 0 && !mentions(&z, &[na]) && prove_ge(&z, e0, 2) {
                            let g = gcd(align_of(&q), q.c.abs());
                            if g % (-d) == 0 || d == -1 {
                                out.push(q);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        out
    }
    fn cell_get(&self, st: &State, k: Key) -> Val {
        let Some(r) = st.mem.get(k.0).and_then(|r| r.as_ref()) else { return Val::Undef };
        for c in &r.cells {
            if c.0 == k.1 && c.1 == k.2 {
                return c.2.clone();
            }
        }
        Val::Undef
    }
}
/// d == -min(v, c): the step of a remaining-length counter
fn min_step(d: &P, v: &P) -> Option<P> {
    let (k, a, c0) = d.as_affine()?;
    if k != -1 || c0 != 0 {
        return None;
    }
    if let AKind::Min(l) = atom_kind(a) {
        if l.len() == 2 {
            if &l[0] == v {
                return Some(l[1].clone());
            }
            if &l[1] == v {
                return Some(l[0].clone());
            }
        }
    }
    None
}
