//! Whole-image entry points: where every byte goes, for all dimensions.
use super::*;
use std::collections::HashMap;

pub fn tasks() -> Vec<Task> {
    vec![("img_decode", img_decode), ("img_total", img_total), ("img_encode", img_encode), ("sizes", sizes), ("img_refuse", img_refuse)]
}
pub struct Dim {
    pub w: P,
    pub h: P,
    pub nw: P,
    pub nh: P,
}
pub fn dims(lo: i128) -> Dim {
    let w = input("width", lo, 1 << 30, 0);
    let h = input("height", lo, 1 << 30, 0);
    let e = Env::default();
    let nw = div_const(&addc(&w, 3), 4, &e);
    let nh = div_const(&addc(&h, 3), 4, &e);
    Dim { w, h, nw, nh }
}
/// byte j of a stored value
pub fn ev_byte(v: &Val, size: u64, j: u64) -> Option<P> {
    let mut reg = Region::new();
    reg.put(0, size, v.clone(), &Env::default());
    let w = reg.window(j, 1, &Env::default());
    if w.len() != 1 || w[0].1 != 1 {
        return None;
    }
    ipv(&w[0].2)
}
/// loop atoms (and other fresh values) a formula is made of
pub fn fresh_atoms(ps: &[&P]) -> Vec<Atom> {
    let mut out: Vec<Atom> = vec![];
    for p in ps {
        collect(p, &mut out);
    }
    out
}
fn collect(p: &P, out: &mut Vec<Atom>) {
    for a in p.atoms() {
        match atom_kind(a) {
            AKind::Phi => {
                if !out.contains(&a) {
                    out.push(a)
                }
            }
            k => {
                let (ch, _) = kind_children(&k);
                for c in ch {
                    if !matches!(k, AKind::Bit(..)) {
                        collect(&atom(c), out);
                    }
                }
            }
        }
    }
}
/// every atom inside the formula, outermost first (candidates for block coordinates)
fn inner_atoms(p: &P, out: &mut Vec<Atom>) {
    for a in p.atoms() {
        if !out.contains(&a) {
            out.push(a);
        }
    }
}
/// off as 4*(4X+px) + 4*w*(4Y+py) + c for given block coordinates
fn pixel_of(off: &P, x: &P, y: &P, d: &Dim) -> Option<(i128, i128, i128)> {
    let r = sub(&sub(off, &scale(x, 16)), &scale(&mul(y, &d.w), 16));
    let (k, c0) = match r.is_const() {
        Some(c) => (0, c),
        None => {
            let (k, a, c0) = r.as_affine()?;
            if Some(a) != d.w.as_atom() {
                return None;
            }
            (k, c0)
        }
    };
    if k % 4 != 0 || !(0..16).contains(&k) || !(0..16).contains(&c0) {
        return None;
    }
    Some((c0 / 4, k / 4, c0 % 4))
}
pub struct Spec {
    f: FnId,
    fmt: usize,
    ds: usize,
    memo: HashMap<(String, String), Option<Vec<P>>>,
}
impl Spec {
    /// decoded bytes of the block at block coordinates (x, y)
    fn block(&mut self, cx: &mut Cx, r: &mut Rep, d: &Dim, x: &P, y: &P, env: &Env) -> Option<Vec<P>> {
        let off = scale(&add(x, &mul(y, &d.nw)), BS[self.fmt]);
        self.at(cx, r, &off, env)
    }
    fn at(&mut self, cx: &mut Cx, r: &mut Rep, off: &P, env: &Env) -> Option<Vec<P>> {
        let key = (show(off), String::new());
        if let Some(v) = self.memo.get(&key) {
            return v.clone();
        }
        let mut st = State::new();
        st.env = Rc::new(env.clone());
        let (ne, no) = (cx.events.len(), cx.obs.len());
        let p = ptr(SYM + self.ds, off.clone(), Some(konst(BS[self.fmt])));
        let v = go(cx, r, "block decode", self.f, vec![iv(self.fmt as i128), p], &mut st);
        cx.events.truncate(ne);
        cx.obs.truncate(no);
        let out = v.flatten().and_then(|v| agg_bytes(&v, 64));
        self.memo.insert(key, out.clone());
        out
    }
}
/// values that a small loop counter can still take
fn small(a: Atom, e: &Env, max: i128) -> Option<Vec<i128>> {
    let (lo, hi) = arange(a, e);
    let p = atom(a);
    if hi - lo < max {
        return Some((lo..=hi).collect());
    }
    if lo >= 0 && prove_ge(&addc(&neg(&p), max - 1), e, 1) {
        return Some((lo..max).collect());
    }
    None
}
fn img_decode(r: &mut Rep, a: &str) {
    let fmt: usize = a.parse().unwrap();
    let mut cx = Cx::new();
    let (Some(f), Some(fb)) = (entry(&mut cx, r, "decompress"), entry(&mut cx, r, "decompress_block")) else { return };
    let d = dims(0);
    let lin = input("data.len", 0, 1 << 62, 0);
    let lout = input("output.len", 0, 1 << 62, 0);
    let (ds, dp) = sym(&mut cx, "data", true, 0, false, lin.clone());
    let (os, op) = sym(&mut cx, "output", false, 0, true, lout.clone());
    let mut st = State::new();
    let need_in = scale(&mul(&d.nw, &d.nh), BS[fmt]);
    add_fact(&sub(&lin, &need_in), st.envm());
    add_fact(&sub(&lout, &scale(&mul(&d.w, &d.h), 4)), st.envm());
    let env0 = st.env.clone();
    let v = go(&mut cx, r, "image decode", f, vec![iv(fmt as i128), dp, Val::Int(d.w.clone()), Val::Int(d.h.clone()), op], &mut st);
    r.stats(&cx);
    match v {
        None => return,
        Some(None) => return r.fail("never", "image decode never returns".into()),
        _ => {}
    }
    let events = std::mem::take(&mut cx.events);
    if std::env::var("EV").is_ok() {
        for e in events.iter().take(8) {
            eprintln!("# {} {} {} {} {:?}", e.reg - SYM, show(&e.off), e.size, show_val(&e.val).len(), e.path.iter().map(|p| show(p)).collect::<Vec<_>>());
        }
    }
    let mut spec = Spec { f: fb, fmt, ds, memo: HashMap::new() };
    // (a) no byte is written other than pixels of the image, each with its decoded value
    let mut cov: Vec<Cov> = vec![];
    for (ei, ev) in events.iter().enumerate() {
        if ev.reg != SYM + os {
            r.fail("write|foreign", format!("image decode writes to something other than the output at {}", ev.span));
            continue;
        }
        for j in 0..ev.size {
            let Some(b) = ev_byte(&ev.val, ev.size, j) else {
                r.fail("write|opaque", format!("image decode stores an unknown value at {}", ev.span));
                continue;
            };
            let off = addc(&ev.off, j as i128);
            cases(&mut cx, r, &d, &mut spec, ev, &off, &b, (*ev.env).clone(), vec![], &mut |off, binds| cov.push(Cov { ev: ei, off, binds }));
        }
    }
    r.count("output byte writes", cov.len() as u64);
    // (b) every byte of every pixel is written
    let (ba, bb) = (input("block column", 0, 1 << 30, 0), input("block row", 0, 1 << 30, 0));
    let hints = hints(&d);
    for py in 0..4 {
        for px in 0..4 {
            let mut e = (*env0).clone();
            let (fx, fy) = (addc(&scale(&ba, 4), px), addc(&scale(&bb, 4), py));
            block_facts(&d, &ba, &bb, &mut e);
            add_fact(&addc(&sub(&d.w, &fx), -1), &mut e);
            add_fact(&addc(&sub(&d.h, &fy), -1), &mut e);
            pixel_facts(&d, &fx, &fy, &mut e);
            for c in 0..4 {
                let goal = addc(&add(&scale(&fx, 4), &scale(&mul(&fy, &d.w), 4)), c);
                let cands = vec![ba.clone(), bb.clone(), add(&ba, &mul(&bb, &d.nw)), fx.clone(), fy.clone(), konst(px), konst(py), konst(c), add(&fx, &mul(&fy, &d.w))];
                let ok = covered(&cx, &events, &cov, &goal, &cands, &e, &hints, 4);
                r.check(ok, &format!("{}|coverage", FMT[fmt]), || format!("pixel ({},{}) channel {} of a block inside the image is not shown to be written by the image decoder", px, py, c));
            }
        }
    }
}
fn block_facts(d: &Dim, x: &P, y: &P, e: &mut Env) {
    add_fact(&addc(&sub(&d.nw, x), -1), e);
    add_fact(&addc(&sub(&d.nh, y), -1), e);
}
/// products of the (true) bounds, which linear reasoning alone does not see
fn pixel_facts(d: &Dim, fx: &P, fy: &P, e: &mut Env) {
    // (w - fx - 1) >= 0, (h - fy - 1) >= 0, w >= 1, h >= 1
    let rx = addc(&sub(&d.w, fx), -1);
    let ry = addc(&sub(&d.h, fy), -1);
    add_fact(&addc(&d.w, -1), e);
    add_fact(&addc(&d.h, -1), e);
    for (p, q) in [(&d.w, &ry), (&d.h, &rx), (&rx, &ry), (&d.nw, &ry)] {
        add_fact(&mul(p, q), e);
    }
}
/// facts w*(h - 4m - 1) >= 0 and the like, for an iteration number m
fn hints(d: &Dim) -> Vec<Hint> {
    let m = input("m", 0, 1 << 30, 0);
    let a = m.as_atom().unwrap();
    let mut v = vec![];
    for (f, b) in [(&d.w, addc(&sub(&d.h, &scale(&m, 4)), -1)), (&d.h, addc(&sub(&d.w, &scale(&m, 4)), -1)), (&d.nw, addc(&sub(&d.nh, &m), -1)), (&d.w, addc(&sub(&d.h, &m), -1))] {
        v.push((f.clone(), b, a));
    }
    v
}
struct Cov {
    ev: usize,
    off: P,
    /// small counters replaced by constants in this case
    binds: Vec<(Atom, i128)>,
}
/// one stored byte: find the block and pixel it belongs to and compare with the decoded block
fn cases(cx: &mut Cx, r: &mut Rep, d: &Dim, spec: &mut Spec, ev: &Event, off: &P, val: &P, env: Env, binds: Vec<(Atom, i128)>, done: &mut dyn FnMut(P, Vec<(Atom, i128)>)) {
    if env.dead {
        return;
    }
    let off = simp(off, &env);
    let mut at = vec![];
    inner_atoms(&off, &mut at);
    let mut cands: Vec<P> = at.iter().map(|a| atom(*a)).collect();
    cands.push(konst(0));
    for a in at.iter() {
        if let AKind::Op(n, v) = atom_kind(*a) {
            if n == "Div" {
                cands.push(sub(&v[0], &mul(&v[1], &atom(*a))));
            }
        }
    }
    for a in fresh_atoms(&[&off]) {
        if !cands.contains(&atom(a)) {
            cands.push(atom(a));
        }
    }
    let bound = |p: &P, n: &P| prove_ge(&addc(&sub(n, p), -1), &env, 2);
    for x in &cands {
        for y in &cands {
            let Some((px, py, c)) = pixel_of(&off, x, y, d) else { continue };
            if !prove_ge(x, &env, 1) || !prove_ge(y, &env, 1) {
                continue;
            }
            let okx = bound(&addc(&scale(x, 4), px), &d.w);
            let oky = bound(&addc(&scale(y, 4), py), &d.h);
            if !okx || !oky {
                continue;
            }
            let Some(s) = spec.block(cx, r, d, x, y, &env) else { return };
            if std::env::var("TXA_DBG").is_ok() {
                eprintln!("# got {}\n# want {}", show(&simp(val, &env)).chars().take(1500).collect::<String>(), show(&simp(&s[(4 * (4 * py + px) + c) as usize], &env)).chars().take(1500).collect::<String>());
            }
            let want = &s[(4 * (4 * py + px) + c) as usize];
            r.check(equal(val, want, &env, 8), &format!("{}|value", FMT[spec.fmt]), || {
                format!("image decode stores something other than channel {} of pixel ({},{}) of block (X,Y) at that pixel's place ({}): the value does not equal the decoded block at byte BS*(X + Y*blocks_wide), with X = {}, Y = {}", c, px, py, ev.span, show(x), show(y))
            });
            return done(off, binds);
        }
    }
    // split a small counter
    for a in fresh_atoms(&[&off]) {
        if let Some(vs) = small(a, &env, 4) {
            for v in vs {
                let mut e = env.clone();
                let k = konst(v);
                add_fact(&sub(&atom(a), &k), &mut e);
                add_fact(&sub(&k, &atom(a)), &mut e);
                e.refine(a, v, v);
                let mut b = binds.clone();
                b.push((a, v));
                cases(cx, r, d, spec, ev, &subst_deep(&off, a, &k), &subst_deep(val, a, &k), e, b, done);
            }
            return;
        }
    }
    r.fail(&format!("{}|place", FMT[spec.fmt]), format!("image decode writes outside the image, or to a place that is no pixel of a block inside it: output byte {} at {} (path {})", show(&off), ev.span, ev.path.iter().map(|p| show(p)).collect::<Vec<_>>().join("; ")));
}
/// some write reaches the goal offset, on every way through the conditions
fn covered(cx: &Cx, events: &[Event], cov: &[Cov], goal: &P, cands: &[P], e: &Env, hints: &[Hint], depth: u32) -> bool {
    if e.dead {
        return true;
    }
    let mut open: Option<P> = None;
    for cv in cov {
        let ev = &events[cv.ev];
        let mut refs: Vec<&P> = vec![&cv.off];
        refs.extend(ev.path.iter());
        let ats: Vec<Atom> = fresh_atoms(&refs).into_iter().filter(|a| !cv.binds.iter().any(|b| b.0 == *a)).collect();
        if ats.len() > 4 {
            continue;
        }
        let mut idx = vec![0usize; ats.len()];
        'next: loop {
            let sigma: Vec<(Atom, P)> = ats.iter().zip(&idx).map(|(a, i)| (*a, cands[*i].clone())).chain(cv.binds.iter().map(|b| (b.0, konst(b.1)))).collect();
            let off = inst(&cv.off, &sigma, e);
            if std::env::var("TXA_COV").is_ok() {
                eprintln!("# cov try {} for {} (from {})", show(&off), show(goal), show(&cv.off));
            }
            if &off == goal || sub(&off, goal).is_const() == Some(0) {
                match holds(cx, ev, &sigma, e, hints) {
                    Ok(()) => return true,
                    Err(Some(c)) => {
                        if open.is_none() {
                            open = Some(c);
                        }
                    }
                    Err(None) => {}
                }
            }
            for k in 0..idx.len() {
                idx[k] += 1;
                if idx[k] < cands.len() {
                    continue 'next;
                }
                idx[k] = 0;
            }
            break;
        }
    }
    if depth > 0 {
        if let Some(c) = open {
            for t in [true, false] {
                let mut e2 = e.clone();
                assume(&c, t, &mut e2);
                if !covered(cx, events, cov, goal, cands, &e2, hints, depth - 1) {
                    return false;
                }
            }
            return true;
        }
    }
    false
}
/// (factor, bound in terms of an atom that is replaced by the iteration number, the atom)
pub type Hint = (P, P, Atom);
pub fn inst(p: &P, sigma: &[(Atom, P)], e: &Env) -> P {
    let mut q = p.clone();
    for (a, v) in sigma {
        q = subst_deep(&q, *a, v);
    }
    reduce_div(&simp(&q, e), e)
}
/// quotients that are known under e: (k*y + r) / y = k for 0 <= r < y
pub fn reduce_div(p: &P, e: &Env) -> P {
    let mut q = p.clone();
    for a in p.atoms() {
        q = match atom_kind(a) {
            AKind::Op(n, v) if n == "Div" => match quotient(&v[0], &v[1], e) {
                Some(k) => subst(&q, a, &k),
                None => q,
            },
            AKind::Ge(x) => {
                let y = reduce_div(&x, e);
                if y != x {
                    subst(&q, a, &ge0(&y, e))
                } else {
                    q
                }
            }
            AKind::Eq0(x) => {
                let y = reduce_div(&x, e);
                if y != x {
                    subst(&q, a, &eq0(&y, e))
                } else {
                    q
                }
            }
            AKind::Bool(x) => {
                let y = reduce_div(&x, e);
                if y != x {
                    subst(&q, a, &y)
                } else {
                    q
                }
            }
            _ => q,
        };
    }
    q
}
fn quotient(x: &P, y: &P, e: &Env) -> Option<P> {
    let mut k = konst(0);
    if let Some(b) = y.as_atom() {
        for (m, c) in &x.ts {
            let mut v = mono_atoms(*m).to_vec();
            if let Some(i) = v.iter().position(|z| *z == b) {
                v.remove(i);
                let mut t = konst(*c);
                for z in v {
                    t = mul(&t, &atom(z));
                }
                k = add(&k, &t);
            }
        }
    }
    let r = sub(x, &mul(&k, y));
    if prove_ge(&r, e, 1) && prove_ge(&addc(&sub(y, &r), -1), e, 1) {
        return Some(k);
    }
    None
}
/// the write happens in the iteration given by sigma: its conditions hold there and no earlier
/// iteration of the surrounding loops leaves the loop. Err(Some(c)): undecided condition
pub fn holds(cx: &Cx, ev: &Event, sigma: &[(Atom, P)], e: &Env, hints: &[Hint]) -> Result<(), Option<P>> {

    for c in &ev.path {
        let q = inst(c, sigma, e);
        if q.is_const() == Some(0) {
            return Err(None);
        }
        if !prove(&q, e, 3) {
            if std::env::var("TXA_COV").is_ok() {
                eprintln!("# cov undecided {}", show(&q));
            }
            return Err(Some(q));
        }
    }
    for (i, (a, v)) in sigma.iter().enumerate() {
        if let Some(k) = v.is_const() {
            if k < 0 {
                return Err(None);
            }
        }
        if !prove_ge(v, e, 1) {
            return Err(None);
        }
        let Some(rec) = cx.loop_recs.get(a) else { continue };
        let m = fresh(AKind::Phi, 0, 1 << 62, 0);
        let mut e2 = e.clone();
        add_fact(&addc(&sub(v, &m), -1), &mut e2);
        for h in hints {
            // true products with the smaller iteration number
            let q = subst_deep(&h.1, h.2, &m);
            if prove_ge(&q, &e2, 2) {
                add_fact(&mul(&h.0, &q), &mut e2);
            }
        }
        let mut s2: Vec<(Atom, P)> = sigma.to_vec();
        s2[i].1 = m.clone();
        for ex in rec.iter() {
            let mut e3 = e2.clone();
            let mut out = false;
            for c in ex {
                let q = inst(c, &s2, &e3);
                if e3.dead || prove(&not(&q), &e3, 3) {
                    out = true;
                    break;
                }
                assume(&q, true, &mut e3);
            }
            if !(out || e3.dead) {
                if std::env::var("TXA_COV").is_ok() {
                    eprintln!("# cov exit {:?} not refuted", ex.iter().map(|c| show(&inst(c, &s2, &e2))).collect::<Vec<_>>());
                }
                return Err(None);
            }
        }
    }
    Ok(())
}
/// panic-freedom of the whole-image functions for sufficient buffers
fn img_total(r: &mut Rep, a: &str) {
    let (dir, fmt) = a.split_once('_').unwrap();
    let fmt: usize = fmt.parse().unwrap();
    let enc = dir == "encode";
    let mut cx = Cx::new();
    let Some(f) = entry(&mut cx, r, if enc { "compress" } else { "decompress" }) else { return };
    if enc {
        let Some(fb) = entry(&mut cx, r, "compress_block_masked") else { return };
        let fbn = cx.prog.fns[fb].name.clone();
        cx.opaque.push(Box::new(move |n, _| n == fbn));
    }
    let d = dims(0);
    let lin = input("input.len", 0, 1 << 62, 0);
    let lout = input("output.len", 0, 1 << 62, 0);
    let (_, ip) = sym(&mut cx, "input", !enc, 0, false, lin.clone());
    let (_, op) = sym(&mut cx, "output", false, 0, true, lout.clone());
    let mut st = State::new();
    let (blocks, pixels) = (scale(&mul(&d.nw, &d.nh), BS[fmt]), scale(&mul(&d.w, &d.h), 4));
    add_fact(&sub(&lin, if enc { &pixels } else { &blocks }), st.envm());
    add_fact(&sub(&lout, if enc { &blocks } else { &pixels }), st.envm());
    let mut args = vec![iv(fmt as i128), ip, Val::Int(d.w.clone()), Val::Int(d.h.clone())];
    if enc {
        args.push(fresh_arg(&mut cx, f, 4));
    }
    args.push(op);
    let v = go(&mut cx, r, dir, f, args, &mut st);
    r.stats(&cx);
    r.obligations(&cx, &format!("image {}", dir));
    if matches!(v, Some(None)) {
        r.fail("never", format!("image {} never returns", dir));
    }
}
/// block size, number of blocks and compressed size for every dimension
fn sizes(r: &mut Rep, _: &str) {
    let mut cx = Cx::new();
    let d = dims(0);
    let e = Env::default();
    let (Some(fb), Some(fs), Some(fc)) = (entry(&mut cx, r, "num_blocks"), entry(&mut cx, r, "block_size"), entry(&mut cx, r, "compressed_size")) else { return };
    let get = |cx: &mut Cx, r: &mut Rep, what: &str, f: FnId, args: Vec<Val>| -> Option<P> {
        let mut st = State::new();
        let v = go(cx, r, what, f, args, &mut st)?;
        let p = v.as_ref().and_then(ipv);
        if p.is_none() {
            r.fail(&format!("{}|result", what), format!("{} does not return a number", what));
        }
        p
    };
    if let Some(n) = get(&mut cx, r, "num_blocks", fb, vec![Val::Int(d.w.clone())]) {
        r.check(equal(&n, &d.nw, &e, 8), "num_blocks", || format!("the number of blocks along an edge is not the size divided by four, rounded up: {}", show(&n)));
    }
    for fmt in 0..5 {
        if let Some(n) = get(&mut cx, r, "block_size", fs, vec![iv(fmt as i128)]) {
            r.check(equal(&n, &konst(BS[fmt]), &e, 8), &format!("block_size|{}", FMT[fmt]), || format!("{} block size is {}", FMT[fmt], show(&n)));
        }
        if let Some(n) = get(&mut cx, r, "compressed_size", fc, vec![iv(fmt as i128), Val::Int(d.w.clone()), Val::Int(d.h.clone())]) {
            let want = scale(&mul(&d.nw, &d.nh), BS[fmt]);
            r.check(equal(&n, &want, &e, 8), &format!("compressed_size|{}", FMT[fmt]), || format!("{} compressed size is not ceil(w/4)*ceil(h/4) blocks: {}", FMT[fmt], show(&n)));
        }
    }
    r.obligations(&cx, "size formulas");
    r.stats(&cx);
}
/// an output too small for the compressed image is refused before anything is stored
fn img_refuse(r: &mut Rep, a: &str) {
    let fmt: usize = a.parse().unwrap();
    let mut cx = Cx::new();
    let (Some(f), Some(fb)) = (entry(&mut cx, r, "compress"), entry(&mut cx, r, "compress_block_masked")) else { return };
    let fbn = cx.prog.fns[fb].name.clone();
    cx.opaque.push(Box::new(move |n, _| n == fbn));
    let d = dims(0);
    let lin = input("input.len", 0, 1 << 62, 0);
    let lout = input("output.len", 0, 1 << 62, 0);
    let (_, ip) = sym(&mut cx, "input", false, 0, false, lin.clone());
    let (_, op) = sym(&mut cx, "output", false, 0, true, lout.clone());
    let mut st = State::new();
    add_fact(&addc(&sub(&scale(&mul(&d.nw, &d.nh), BS[fmt]), &lout), -1), st.envm());
    let params = fresh_arg(&mut cx, f, 4);
    let v = go(&mut cx, r, "image encode", f, vec![iv(fmt as i128), ip, Val::Int(d.w.clone()), Val::Int(d.h.clone()), params, op], &mut st);
    r.stats(&cx);
    let Some(v) = v else { return };
    r.check(v.is_none(), &format!("{}|accepted", FMT[fmt]), || "image encode can return normally although the output is too small for the compressed image".into());
    let live: Vec<&Event> = cx.events.iter().filter(|e| !e.env.dead).collect();
    r.check(live.is_empty(), &format!("{}|partial", FMT[fmt]), || format!("image encode starts compressing before it refuses an output that is too small ({})", live[0].span));
}
/// the type of an entry point's parameter, as a fresh symbolic value
pub fn fresh_arg(cx: &mut Cx, f: FnId, k: usize) -> Val {
    let b = cx.prog.body(f).expect("body");
    let t = b.locals[k + 1];
    cx.havoc_pub(t, 0)
}
fn same_path(a: &[P], b: &[P]) -> bool {
    a == b
}
/// exactly n of the four rows (columns) of block `x` lie inside an image of that size
fn extent(size: &P, x: &P, n: i128, e: &mut Env) {
    let rest = sub(size, &scale(x, 4));
    for k in 1..=4 {
        assume(&ge0(&addc(&rest, -k), e), n >= k, e);
    }
    if n < 4 {
        assume_zero(&addc(&rest, -n), e);
    }
}
fn img_encode(r: &mut Rep, a: &str) {
    let fmt: usize = a.parse().unwrap();
    let mut cx = Cx::new();
    let (Some(f), Some(fb)) = (entry(&mut cx, r, "compress"), entry(&mut cx, r, "compress_block_masked")) else { return };
    let fbn = cx.prog.fns[fb].name.clone();
    cx.opaque.push(Box::new(move |n, _| n == fbn));
    let d = dims(0);
    let lin = input("rgba.len", 0, 1 << 62, 0);
    let lout = input("output.len", 0, 1 << 62, 0);
    let (is, ip) = sym(&mut cx, "rgba", false, 0, false, lin.clone());
    let (os, op) = sym(&mut cx, "output", false, 0, true, lout.clone());
    let mut st = State::new();
    let need_out = scale(&mul(&d.nw, &d.nh), BS[fmt]);
    add_fact(&sub(&lin, &scale(&mul(&d.w, &d.h), 4)), st.envm());
    add_fact(&sub(&lout, &need_out), st.envm());
    let env0 = st.env.clone();
    let params = fresh_arg(&mut cx, f, 4);
    let v = go(&mut cx, r, "image encode", f, vec![iv(fmt as i128), ip, Val::Int(d.w.clone()), Val::Int(d.h.clone()), params.clone(), op], &mut st);
    r.stats(&cx);
    match v {
        None => return,
        Some(None) => return r.fail("never", "image encode never returns".into()),
        _ => {}
    }
    let events = std::mem::take(&mut cx.events);
    let fm = FMT[fmt];
    let mut cov: Vec<Cov> = vec![];
    // where the output of each call of the block compressor ends up: the call itself when it is handed
    // the output, else the stores of the bytes it left in a local buffer
    let mut stored: HashMap<usize, Vec<(i128, usize)>> = HashMap::new();
    for (ei, ev) in events.iter().enumerate() {
        if ev.call.is_some() {
            continue;
        }
        for j in 0..ev.size {
            let src = ev_byte(&ev.val, ev.size, j).and_then(|b| simp(&b, &ev.env).as_atom()).and_then(|a| match atom_kind(a) {
                AKind::Op(n, v) if n == "callout" => Some((v[0].is_const()? as usize, v[2].is_const()?)),
                _ => None,
            });
            match src {
                Some((id, k)) if ev.reg == SYM + os => stored.entry(id).or_default().push((k - j as i128, ei)),
                _ => r.fail(&format!("{}|foreign", fm), format!("image encode stores bytes that are not the block compressor's, at {}", ev.span)),
            }
        }
    }
    for (ei, ev) in events.iter().enumerate() {
        let Some(call) = &ev.call else { continue };
        if std::env::var("EV").is_ok() {
            eprintln!("# {:?} {:?}", call.args.iter().map(|a| show_val(a).chars().take(400).collect::<String>()).collect::<Vec<_>>(), ev.path.iter().map(|p| show(p)).collect::<Vec<_>>());
        }
        let env = &*ev.env;
        if env.dead {
            continue;
        }
        let (Some(tag), Some(mask), Val::Ptr(out)) = (ipv(&call.args[0]), ipv(&call.args[2]), &call.args[4]) else {
            r.fail(&format!("{}|args", fm), format!("unexpected arguments to the block compressor at {}", ev.span));
            continue;
        };
        r.check(equal(&tag, &konst(fmt as i128), env, 4), &format!("{}|format", fm), || format!("a block of the image is compressed as another format at {}", ev.span));
        r.check(same_val(&call.args[3], &params), &format!("{}|params", fm), || format!("the compression parameters are not passed through unchanged at {}", ev.span));
        let ok = out.meta.as_ref().is_some_and(|m| prove_ge(&addc(m, -BS[fmt]), env, 2));
        r.check(ok, &format!("{}|room", fm), || format!("the block compressor is not given room for a whole block at {}", ev.span));
        let (env, off, ei) = if out.reg == SYM + os {
            (env, simp(&out.off, env), ei)
        } else {
            // every byte of the block has to be copied, all with the same displacement
            let list = stored.get(&ei).cloned().unwrap_or_default();
            let at = |j: i128| list.iter().find(|x| x.0 <= j && j < x.0 + events[x.1].size as i128).map(|x| (addc(&simp(&events[x.1].off, &events[x.1].env), -x.0), x.1));
            let Some((o, k)) = at(0) else {
                r.fail(&format!("{}|lost", fm), format!("a compressed block is not stored in the output ({})", ev.span));
                continue;
            };
            let all = (0..BS[fmt]).all(|j| at(j).is_some_and(|(p, q)| p == o && same_path(&events[q].path, &events[k].path)));
            let only = list.iter().all(|x| x.0 >= 0 && x.0 + events[x.1].size as i128 <= BS[fmt] && addc(&simp(&events[x.1].off, &events[x.1].env), -x.0) == o);
            r.check(all && only, &format!("{}|lost", fm), || format!("the bytes of a compressed block are not all stored at consecutive places of the output ({})", ev.span));
            (&*events[k].env, o, k)
        };
        let mut at = vec![];
        inner_atoms(&off, &mut at);
        let mut cands: Vec<P> = at.iter().map(|a| atom(*a)).collect();
        cands.push(konst(0));
        let mut all = fresh_atoms(&[&off, &mask]);
        for i in 0..16u64 {
            if let Some(p) = ev_byte(&call.args[1], 64, 4 * i) {
                for a in fresh_atoms(&[&p]) {
                    if !all.contains(&a) {
                        all.push(a);
                    }
                }
            }
        }
        for a in all {
            if !cands.contains(&atom(a)) {
                cands.push(atom(a));
            }
        }
        for c in cands.clone() {
            let q = derived(AKind::Op("Div".into(), vec![c.clone(), d.nw.clone()]), 0, 1 << 62);
            if off.atoms().contains(&c.as_atom().unwrap_or(u32::MAX as Atom)) && c.is_const().is_none() && range(&c, env).0 >= 0 {
                cands.push(sub(&c, &mul(&d.nw, &q)));
                cands.push(q);
            }
        }
        let mut place = None;
        'find: for x in &cands {
            for y in &cands {
                let q = scale(&add(x, &mul(y, &d.nw)), BS[fmt]);
                if sub(&off, &q).is_const() == Some(0) && prove_ge(x, env, 1) && prove_ge(y, env, 1) && prove_ge(&addc(&sub(&d.nw, x), -1), env, 2) && prove_ge(&addc(&sub(&d.nh, y), -1), env, 2) {
                    place = Some((x.clone(), y.clone()));
                    break 'find;
                }
            }
        }
        let Some((x, y)) = place else {
            r.fail(&format!("{}|place", fm), format!("a compressed block is stored at an offset that is not BS*(X + Y*blocks_wide) for a block (X,Y) of the image: {} at {}", show(&off), ev.span));
            continue;
        };
        // the block has 1..4 columns and 1..4 rows inside the image
        for cols in 1..=4i128 {
            let mut ec = env.clone();
            extent(&d.w, &x, cols, &mut ec);
            for rows in 1..=4i128 {
                let mut e = ec.clone();
                extent(&d.h, &y, rows, &mut e);
                if e.dead {
                    continue;
                }
                let mut want = 0;
                for py in 0..rows {
                    for px in 0..cols {
                        want |= 1i128 << (4 * py + px);
                    }
                }
                let ok = equal(&mask, &konst(want), &e, 8);
                r.check(ok, &format!("{}|mask", fm), || format!("for a block of which {} columns and {} rows lie inside the image, the pixel mask is not exactly those pixels ({}): {}", cols, rows, ev.span, show(&simp(&mask, &e))));
                for py in 0..rows {
                    for px in 0..cols {
                        let (fx, fy) = (addc(&scale(&x, 4), px), addc(&scale(&y, 4), py));
                        for c in 0..4 {
                            let src = addc(&add(&scale(&fx, 4), &scale(&mul(&fy, &d.w), 4)), c);
                            let want = cx.sym_byte(is, &src);
                            let got = ev_byte(&call.args[1], 64, (4 * (4 * py + px) + c) as u64);
                            let ok = got.as_ref().is_some_and(|g| equal(g, &want, &e, 8));
                            r.check(ok, &format!("{}|gather", fm), || {
                                format!("channel {} of pixel ({},{}) handed to the block compressor is not the image's pixel (4X+{}, 4Y+{}), for a block with {} columns and {} rows inside the image ({}): {}", c, px, py, px, py, cols, rows, ev.span, got.map_or("unknown".into(), |g| show(&simp(&g, &e))))
                            });
                        }
                    }
                }
            }
        }
        cov.push(Cov { ev: ei, off, binds: vec![] });
    }
    r.count("block compressor call sites", cov.len() as u64);
    let (ba, bb) = (input("block column", 0, 1 << 30, 0), input("block row", 0, 1 << 30, 0));
    let hints = hints(&d);
    let mut e = (*env0).clone();
    block_facts(&d, &ba, &bb, &mut e);
    // a block index below the number of blocks: the image is not empty
    add_fact(&addc(&d.w, -1), &mut e);
    add_fact(&addc(&d.h, -1), &mut e);
    let ry = addc(&sub(&d.nh, &bb), -1);
    add_fact(&mul(&d.nw, &ry), &mut e);
    let idx = add(&ba, &mul(&bb, &d.nw));
    let goal = scale(&idx, BS[fmt]);
    let cands = vec![ba.clone(), bb.clone(), idx, konst(0)];
    let ok = covered(&cx, &events, &cov, &goal, &cands, &e, &hints, 4);
    r.check(ok, &format!("{}|coverage", fm), || "some block of the image is not shown to be compressed".into());
}
