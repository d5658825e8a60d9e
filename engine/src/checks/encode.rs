//! Block compression: what the emitted bytes decode to, and what they may depend on.
use super::*;
use crate::flt::{ftop, opaque};

pub fn tasks() -> Vec<Task> {
    vec![("enc_probe", probe), ("enc_nearest", nearest), ("enc_total", total), ("enc_masked", masked), ("enc_sep", separate), ("enc_alpha", alpha_half), ("enc_punch", punch), ("enc_bc2", explicit), ("enc_flat", flat), ("enc_extreme", extreme), ("enc_shared", shared), ("enc_ends", explicit_ends)]
}
#[derive(Clone, Default)]
pub struct Cfg {
    pub fmt: usize,
    /// constant pixel mask, else one symbolic bit per pixel
    pub mask: Option<u32>,
    pub alg: Option<i128>,
    pub weigh: Option<bool>,
    /// analyse one value of the first loop count only
    pub part: Option<i128>,
    /// do not join large values by name
    pub flat: bool,
    /// no enabled pixel is transparent
    pub solid: bool,
    /// the first visible pixel
    pub first: Option<usize>,
    /// small joined values are never looked into
    pub keep: bool,
    /// channel weights of any value, else in [0, 1e6]
    pub wild: bool,
    /// the same colour for all enabled pixels
    pub uniform: bool,
    /// the parameters of the analysis before
    pub same: bool,
    /// BC2 or BC3
    pub either: bool,
    /// small values are simplified on their branch before they join another branch
    pub paths: bool,
}
/// dependence labels: channels of enabled pixels, any channel of disabled ones, the lower seven bits of alpha,
/// the mask, the previous output
pub const T_CH: [Taint; 4] = [1, 2, 4, 8];
pub const T_OFF: Taint = 16;
pub const T_LOW: Taint = 32;
pub const T_MASK: Taint = 64;
pub const T_PAR: Taint = 128;
pub const T_OLD: Taint = 1 << 127;
pub const T_FMT: Taint = 1 << 126;
/// the symbolic arguments of one block compression
pub struct Args {
    /// 64 input bytes: the value of an enabled pixel, or another one
    pub px: Vec<P>,
    /// 64 values of enabled pixels
    pub on: Vec<P>,
    pub mask: Vec<P>,
    pub old: Vec<P>,
    /// the alpha of each pixel is at least 128
    pub opaque: Vec<P>,
    pub len: P,
}
pub struct Enc {
    pub cx: Cx,
    pub st: State,
    pub alg: P,
    pub weigh: P,
    /// emitted bytes, followed by the bytes after the block
    pub out: Vec<P>,
    pub reg: usize,
    /// what the case analysed is selected by
    pub sel: Taint,
}
pub const EXTRA: usize = 8;
/// parameters
pub fn params(cx: &mut Cx, f: FnId, k: usize, c: &Cfg) -> Option<(Val, P, P)> {
    let t = cx.prog.body(f)?.locals[k + 1];
    let mut l = vec![];
    if !cx.leaves(t, 0, &mut l) {
        return None;
    }
    let mut cells = vec![];
    let old = PARAMS.with(|p| p.borrow_mut().take()).filter(|_| c.same);
    let mut floats: Vec<Val> = vec![];
    let alg = match (c.alg, &old) {
        (Some(a), _) => konst(a),
        (_, Some(o)) => o.0.clone(),
        _ => input("algorithm", 0, 2, T_PAR),
    };
    let weigh = match (c.weigh, &old) {
        (Some(b), _) => konst(b as i128),
        (_, Some(o)) => o.1.clone(),
        _ => input("weigh_colour_by_alpha", 0, 1, T_PAR),
    };
    let (mut na, mut nb, mut nf) = (0, 0, 0);
    for (o, lt) in l {
        let s = cx.size(lt);
        let v = match &cx.prog.t(lt).kind {
            TK::Bool => {
                nb += 1;
                Val::Int(weigh.clone())
            }
            TK::Float(b) => {
                nf += 1;
                let v = match &old {
                    Some(o) if o.2.len() >= nf => o.2[nf - 1].clone(),
                    _ => Val::F(if c.wild { ftop(*b, T_PAR) } else { opaque(*b, 0.0, 1e6, false, T_PAR) }),
                };
                floats.push(v.clone());
                v
            }
            TK::Agg { en: Some(_), .. } => {
                na += 1;
                Val::Int(alg.clone())
            }
            _ => return None,
        };
        cells.push((o, s, v));
    }
    cells.sort_by_key(|c: &Cell| c.0);
    if (na, nb, nf) != (1, 1, 3) {
        return None;
    }
    PARAMS.with(|p| *p.borrow_mut() = Some((alg.clone(), weigh.clone(), floats)));
    Some((Val::Agg(Rc::new(cells)), alg, weigh))
}
thread_local! {
    static PARAMS: std::cell::RefCell<Option<(P, P, Vec<Val>)>> = std::cell::RefCell::new(None);
}
/// the number of cases of the first joined value that decides how often a loop runs
pub const PARTS: i128 = 17;
pub fn args(c: &Cfg) -> Args {
    let n = BS[c.fmt] as usize;
    let mask: Vec<P> = (0..16)
        .map(|i| match c.mask {
            Some(m) => konst((m >> i & 1) as i128),
            None if c.first.map_or(false, |k| k == i || (i < k && (c.fmt != 0 || c.solid))) => konst((c.first == Some(i)) as i128),
            None => input(&format!("enabled{}", i), 0, 1, T_MASK),
        })
        .collect();
    let e0 = Env::default();
    let (mut px, mut on, mut opaque): (Vec<P>, Vec<P>, Vec<P>) = (vec![], vec![], vec![]);
    for i in 0..16 {
        for ch in 0..4usize {
            let nm = format!("pixel{}.{}", i, ["r", "g", "b", "a"][ch]);
            let v = if c.uniform && i > 0 && (ch < 3 || c.fmt > 1 && c.solid) {
                on[ch].clone()
            } else if ch == 3 && c.fmt == 0 && (c.solid || c.first.map_or(false, |k| i <= k)) {
                let seen = c.first.map_or(true, |k| i >= k);
                input(&nm, if seen { 128 } else { 0 }, if seen { 255 } else { 127 }, T_CH[ch])
            } else if ch == 3 && c.fmt == 0 {
                // BC1 sees alpha as above or below the middle
                add(&scale(&input(&format!("{}.high", nm), 0, 1, T_CH[3]), 128), &input(&format!("{}.low", nm), 0, 127, T_LOW))
            } else {
                input(&nm, 0, 255, T_CH[ch])
            };
            let w = input(&format!("disabled.{}", nm), 0, 255, T_OFF);
            px.push(match mask[i].is_const() {
                Some(1) => v.clone(),
                Some(_) => w,
                None => derived(AKind::Ite(mask[i].clone(), v.clone(), w), 0, 255),
            });
            on.push(v);
        }
        opaque.push(ge0(&addc(&on[4 * i + 3], -128), &e0));
    }
    let old: Vec<P> = (0..n + EXTRA).map(|j| input(&format!("old{}", j), 0, 255, T_OLD)).collect();
    Args { px, on, mask, old, opaque, len: input("output length", n as i128, 1 << 40, 0) }
}
pub fn encode(r: &mut Rep, c: &Cfg, a: &Args) -> Option<Enc> {
    NAMING.with(|n| n.set(!c.flat));
    NAMING_BIG.with(|n| n.set(if c.flat { 0 } else { 6 }));
    KEEP_SMALL.with(|n| n.set(c.keep));
    ON_PATH.with(|n| n.set(c.paths));
    TABLES.with(|n| n.set(c.uniform));
    crate::flt::KEYED.with(|n| n.set(c.same));
    let n = BS[c.fmt] as usize;
    let mut pin = None;
    if let Some(v) = c.part {
        let mut quiet = Rep::default();
        let mut cx = Cx::new();
        cx.unroll_steps = 100_000_000;
        cx.discover = true;
        let mut st = State::new();
        run(&mut quiet, c, &mut cx, &mut st, a);
        match cx.loop_tests.first() {
            Some(a) if atom_range(*a).0 >= 0 && atom_range(*a).1 < PARTS => {
                if v > atom_range(*a).1 {
                    return None;
                }
                pin = Some((*a, v));
            }
            _ if v > 0 => return None,
            _ => {}
        }
    }
    let mut cx = Cx::new();
    cx.unroll_steps = 100_000_000;
    let mut st = State::new();
    if let Some((a, v)) = pin {
        Rc::make_mut(&mut st.env).refine(a, v, v);
    }
    let (reg, alg, weigh) = run(r, c, &mut cx, &mut st, a)?;
    r.stats(&cx);
    let mut out = vec![];
    for j in 0..n + EXTRA {
        let w = st.mem[reg].as_ref().map(|m| m.window(j as u64, 1, &st.env)).unwrap_or_default();
        let p = if w.len() == 1 && w[0].1 == 1 { ipv(&w[0].2) } else { None };
        let Some(p) = p else {
            r.fail("undecided|output", format!("{} block encode: output byte {} has no value", FMT[c.fmt], j));
            return None;
        };
        out.push(p);
    }
    Some(Enc { cx, st, alg, weigh, out, reg, sel: pin.map_or(0, |p| atom_taint(p.0)) })
}
fn run(r: &mut Rep, c: &Cfg, cx: &mut Cx, st: &mut State, a: &Args) -> Option<(usize, P, P)> {
    let f = entry(cx, r, "compress_block_masked")?;
    let cells: Vec<Cell> = a.px.iter().enumerate().map(|(i, p)| (i as u64, 1, Val::Int(p.clone()))).collect();
    let Some((pv, alg, weigh)) = params(cx, f, 3, c) else {
        r.fail("anchor|params", "the compression parameters are not an algorithm, three weights and a flag".into());
        return None;
    };
    let reg = st.alloc();
    for (j, b) in a.old.iter().enumerate() {
        cx.region_mut(st, reg).put(j as u64, 1, Val::Int(b.clone()), &Env::default());
    }
    let op = ptr(reg, konst(0), Some(a.len.clone()));
    let what = format!("{} block encode", FMT[c.fmt]);
    let v = go(cx, r, &what, f, vec![if c.either { Val::Int(input("format", 1, 2, T_FMT)) } else { iv(c.fmt as i128) }, Val::Agg(Rc::new(cells)), Val::Int(from_bits(&a.mask)), pv, op], st)?;
    if v.is_none() {
        r.fail("never", format!("{} never returns", what));
        return None;
    }
    Some((reg, alg, weigh))
}
fn probe(r: &mut Rep, s: &str) {
    let v: Vec<&str> = s.split('_').collect();
    let c = Cfg { fmt: v[0].parse().unwrap(), mask: v.get(1).and_then(|m| u32::from_str_radix(m, 16).ok()), alg: v.get(2).and_then(|m| m.parse().ok()), weigh: v.get(4).and_then(|m| m.parse().ok()), part: v.get(3).and_then(|m| m.parse().ok()), wild: v.len() > 5, uniform: v.get(5) == Some(&"u"), ..Default::default() };
    let a = args(&c);
    if let Some(e) = encode(r, &c, &a) {
        for (i, o) in e.out.iter().enumerate() {
            eprintln!("# out {} atoms {} taint {:x}: {}", i, o.atoms().len(), poly_taint(o), show(o).chars().take(200).collect::<String>());
        }
        eprintln!("# sel {:x}", e.sel);
        r.obligations(&e.cx, "encode");
    }
}
/// "<format>" or "<format>_<case>"
fn case(s: &str) -> Cfg {
    let mut v = s.split('_').map(|x| x.parse::<i128>().unwrap());
    let fmt = v.next().unwrap() as usize;
    Cfg { fmt, part: v.next(), wild: true, ..Default::default() }
}
fn total(r: &mut Rep, s: &str) {
    let c = case(s);
    let a = args(&c);
    let Some(e) = encode(r, &c, &a) else { return vacuous(r) };
    let what = format!("{} block encode", FMT[c.fmt]);
    r.obligations(&e.cx, &what);
    let n = BS[c.fmt] as usize;
    for j in 0..n {
        r.check((poly_taint(&e.out[j]) | e.sel) & T_OLD == 0, &format!("{}|unwritten", FMT[c.fmt]), || format!("{}: byte {} of the block keeps, or depends on, what the output held before: {}", what, j, show(&e.out[j])));
    }
    for j in n..n + EXTRA {
        r.check(e.out[j] == a.old[j], &format!("{}|beyond", FMT[c.fmt]), || format!("{}: byte {}, after the block, is changed to {}", what, j, show(&e.out[j])));
    }
}
/// the case does not occur
fn vacuous(r: &mut Rep) {
    if r.fails.is_empty() {
        r.count("cases that do not occur", 1);
        r.proved += 1;
    }
}
fn masked(r: &mut Rep, s: &str) {
    let c = case(s);
    let a = args(&c);
    let Some(e) = encode(r, &c, &a) else { return vacuous(r) };
    if std::env::var("TXA_DBG").is_ok() {
        let mut seen = std::collections::HashSet::new();
        let mut q: Vec<Atom> = e.out[0].atoms();
        let mut low: Vec<Atom> = vec![];
        while let Some(a) = q.pop() {
            if atom_taint(a) & T_OFF == 0 || !seen.insert(a) {
                continue;
            }
            low.push(a);
            q.extend(kind_children(&atom_kind(a)).0);
        }
        low.sort();
        for a in low.iter().take(60) {
            eprintln!("# {}", show_d(&atom(*a), 3).chars().take(300).collect::<String>());
        }
    }
    for j in 0..BS[c.fmt] as usize {
        r.check((poly_taint(&e.out[j]) | e.sel) & T_OFF == 0, &format!("{}|disabled", FMT[c.fmt]), || format!("{} block encode: byte {} depends on the value of a disabled pixel: {}", FMT[c.fmt], j, show(&e.out[j])));
    }
}
fn separate(r: &mut Rep, s: &str) {
    let c = Cfg { weigh: Some(false), ..case(s) };
    let a = args(&c);
    let Some(e) = encode(r, &c, &a) else { return vacuous(r) };
    let [tr, tg, tb, ta] = T_CH;
    let n = BS[c.fmt] as usize;
    for j in 0..n {
        let first = j < 8;
        // (channels that must not matter, parameters too)
        let (bad, half): (Taint, &str) = match c.fmt {
            0 => (T_LOW, "block (from alpha beyond its top bit)"),
            1 | 2 if first => continue,
            1 | 2 => (ta, "colour half (from alpha)"),
            3 => (tg | tb | ta | T_PAR, "block (from other channels or the parameters)"),
            _ if first => (tg | tb | ta | T_PAR, "first half (from other channels or the parameters)"),
            _ => (tr | tb | ta | T_PAR, "second half (from other channels or the parameters)"),
        };
        r.check((poly_taint(&e.out[j]) | e.sel) & bad == 0, &format!("{}|mixed|{}", FMT[c.fmt], if first { "first" } else { "second" }), || format!("{} block encode, alpha not used as weight: byte {} of the {} depends on what it must not: {}", FMT[c.fmt], j, half, show(&e.out[j])));
    }
}
/// the alpha half is the same in every case, and made from alpha alone
fn alpha_half(r: &mut Rep, s: &str) {
    let c = case(s);
    let a = args(&c);
    let Some(b) = encode(r, &Cfg { part: Some(0), ..c.clone() }, &a) else { return vacuous(r) };
    let Some(e) = encode(r, &c, &a) else { return vacuous(r) };
    let [tr, tg, tb, _] = T_CH;
    for j in 0..8 {
        r.check(poly_taint(&e.out[j]) & (tr | tg | tb | T_PAR) == 0, &format!("{}|mixed|alpha", FMT[c.fmt]), || format!("{} block encode: byte {} of the alpha half depends on colour or the parameters: {}", FMT[c.fmt], j, show(&e.out[j])));
        r.check(e.out[j] == b.out[j] || equal(&e.out[j], &b.out[j], &e.st.env, 2), &format!("{}|alpha|varies", FMT[c.fmt]), || format!("{} block encode: byte {} of the alpha half depends on the colours of the block: {} or {}", FMT[c.fmt], j, show(&b.out[j]), show(&e.out[j])));
    }
}
fn differ(x: &P, y: &P, d: u32) -> bool {
    if x == y || d > 300 {
        return false;
    }
    let (a, b) = (x.atoms(), y.atoms());
    let a2: Vec<Atom> = a.iter().copied().filter(|k| !b.contains(k)).collect();
    let b2: Vec<Atom> = b.iter().copied().filter(|k| !a.contains(k)).collect();
    for (p, q) in a2.iter().zip(&b2) {
        let (k, l) = (atom_kind(*p), atom_kind(*q));
        let (c, f) = kind_children(&k);
        let (e, g) = kind_children(&l);
        for (c, e) in c.iter().zip(&e) {
            if c != e && differ(&atom(*c), &atom(*e), d + 1) {
                return true;
            }
        }
        for (f, g) in f.iter().zip(&g) {
            if f.id != g.id && fdiffer(f, g, d + 1) {
                return true;
            }
        }
        eprintln!("# differ {} {:?} {} | {:?} {}", d, atom_range(*p), show_d(&atom(*p), 2), atom_range(*q), show_d(&atom(*q), 2));
        return true;
    }
    eprintln!("# differ {} {} | {}", d, show_d(x, 2), show_d(y, 2));
    true
}
fn fdiffer(x: &crate::flt::F, y: &crate::flt::F, d: u32) -> bool {
    use crate::flt::FK;
    match (&x.kind, &y.kind) {
        (FK::Op(_, v), FK::Op(_, w)) => {
            for (x, y) in v.iter().zip(w) {
                if x.id != y.id && fdiffer(x, y, d + 1) {
                    return true;
                }
            }
        }
        (FK::Opaque, FK::Opaque) => {
            let (a, b) = crate::flt::KEYS.with(|k| (k.borrow().get(&x.id).cloned(), k.borrow().get(&y.id).cloned()));
            if let (Some(a), Some(b)) = (&a, &b) {
                for (f, g) in a.1.iter().zip(&b.1) {
                    if f.id != g.id && fdiffer(f, g, d + 1) {
                        return true;
                    }
                }
            }
            let (p, q) = crate::flt::CONDS.with(|k| (k.borrow().get(&x.id).cloned(), k.borrow().get(&y.id).cloned()));
            if let (Some(p), Some(q)) = (p, q) {
                if differ(&p, &q, d + 1) {
                    return true;
                }
            }
            eprintln!("# opaque {} {:?} | {:?}", d, a.map(|x| x.0), b.map(|x| x.0));
            return true;
        }
        _ => {}
    }
    eprintln!("# float {} {} [{},{}] | {} [{},{}]", d, x.id, x.lo, x.hi, y.id, y.lo, y.hi);
    true
}
/// formats with a half in common make it alike: "<format>_<case>" colour, "<format>" interpolated
fn shared(r: &mut Rep, s: &str) {
    let c = case(s);
    // (other format, halves: channel of this format, first byte, channel and first byte of the other)
    let (of, halves): (usize, &[(usize, usize, usize, usize)]) = match c.fmt {
        1 => (2, &[(0, 8, 0, 8)]),
        2 => (3, &[(3, 0, 0, 0)]),
        _ => (3, &[(0, 0, 0, 0), (1, 8, 0, 0)]),
    };
    let c = if c.fmt == 2 { Cfg { part: Some(0), ..c } } else { c };
    let c = Cfg { same: true, ..c };
    let a = args(&c);
    let e = encode(r, &c, &a);
    for (ch, from, och, ofrom) in halves {
        let oc = Cfg { fmt: of, same: true, part: if of == 3 { None } else { c.part }, ..c.clone() };
        let mut b = args(&oc);
        b.mask = a.mask.clone();
        b.px = a.px.clone();
        b.on = a.on.clone();
        if of == 3 {
            for i in 0..16 {
                b.px[4 * i + och] = a.px[4 * i + ch].clone();
                b.on[4 * i + och] = a.on[4 * i + ch].clone();
            }
        }
        let f = encode(r, &oc, &b);
        let (e, f) = match (&e, &f) {
            (None, None) => {
                vacuous(r);
                continue;
            }
            (Some(e), Some(f)) => (e, f),
            _ => {
                r.fail(&format!("{}|{}|cases", FMT[c.fmt], FMT[of]), format!("{} and {} block encode: the colours of a block are told apart differently", FMT[c.fmt], FMT[of]));
                return;
            }
        };
        for j in 0..8 {
            let (x, y) = (&e.out[from + j], &f.out[ofrom + j]);
            if x != y && std::env::var("TXA_DBG").is_ok() {
                differ(x, y, 0);
            }
            r.check(x == y || equal(x, y, &e.st.env, 2), &format!("{}|{}|{}", FMT[c.fmt], FMT[of], if *from == 0 { "first" } else { "second" }), || {
                format!("byte {} of a {} block is not made from its channels like byte {} of a {} block: {} or {}", from + j, FMT[c.fmt], ofrom + j, FMT[of], show(x), show(y))
            });
        }
    }
}
fn named(p: &P) -> Option<P> {
    let (k, a, c) = p.as_affine()?;
    match atom_kind(a) {
        AKind::Named(d) => Some(addc(&scale(&d, k), c)),
        _ => None,
    }
}
/// the whole value follows this gate
fn top_gate(p: &P) -> Option<P> {
    match atom_kind(p.as_affine()?.1) {
        AKind::Ite(g, _, _) => Some(g),
        _ => None,
    }
}
/// a term of the value follows this gate
fn term_gate(p: &P) -> Option<P> {
    p.ts.iter().find_map(|(m, k)| top_gate(&mono(*m, *k)))
}
fn outer(p: &P, e: &Env) -> P {
    let mut p = simp(p, e);
    while let Some(q) = named(&p) {
        if p.as_affine().is_some_and(|x| atom_range(x.1).1 - atom_range(x.1).0 <= 31) {
            break;
        }
        p = simp(&q, e);
    }
    p
}
/// split on the outermost gates of the emitted bytes until the given ones follow none
fn branches(env: &Env, out: &[P], probe: &[usize], rounds: u32) -> Vec<(Env, Vec<P>)> {
    let mut cases = vec![(env.clone(), out.to_vec())];
    for _ in 0..rounds {
        let mut nx = vec![];
        for (env, out) in cases {
            let out: Vec<P> = out.iter().map(|p| outer(p, &env)).collect();
            let inner = || {
                let bad = |k: usize| k + 3 <= out.len() && index_fields(&out[k..k + 3]).is_none();
                probe.iter().find_map(|j| if *j >= 2 && bad(2 + 3 * ((j - 2) / 3)) { term_gate(&out[*j]) } else { None })
            };
            match probe.iter().find_map(|j| top_gate(&out[*j])).or_else(inner) {
                Some(g) => {
                    for v in [true, false] {
                        let mut q = env.clone();
                        assume(&g, v, &mut q);
                        if !q.dead {
                            nx.push((q, out.clone()));
                        }
                    }
                }
                None => nx.push((env, out)),
            }
        }
        cases = nx;
    }
    cases.iter().map(|(e, o)| (e.clone(), o.iter().map(|p| outer(p, e)).collect())).collect()
}
/// the value, with the choices the facts decide made
fn chosen(p: &P, e: &Env) -> P {
    let mut p = p.clone();
    while let Some((k, a, c)) = p.as_affine() {
        let AKind::Ite(g, x, y) = atom_kind(a) else { break };
        let Some(b) = decide(&g, e) else { break };
        p = simp(&addc(&scale(if b { &x } else { &y }, k), c), e);
    }
    p
}
/// no state satisfies the environment, by cases on the choices behind the values
fn absurd(env: &Env, ps: &[P], depth: u32) -> bool {
    // the facts, as far as their choices are decided
    let mut env = env.clone();
    for f in env.facts.clone() {
        let g = simp(&f, &env);
        if g != f {
            add_fact(&g, &mut env);
        }
        for a in f.atoms() {
            if let AKind::Named(d) = atom_kind(a) {
                let v = chosen(&simp(&d, &env), &env);
                let (l, h) = range(&v, &env);
                env.refine(a, l, h);
                if top_gate(&d).is_some() && top_gate(&v).is_none() {
                    for g in [sub(&v, &atom(a)), sub(&atom(a), &v)] {
                        if !env.facts.contains(&g) {
                            env.facts.push(g);
                            env.touch();
                        }
                    }
                }
            }
        }
    }
    let env = &env;
    if env.dead || prove_ge(&konst(-1), env, 6) {
        return true;
    }
    let ps: Vec<P> = ps.iter().map(|p| outer(p, env)).collect();
    let Some((k, g)) = (depth > 0).then(|| ps.iter().enumerate().find_map(|(k, p)| Some((k, top_gate(p)?)))).flatten() else {
        if std::env::var("TXA_DBG").is_ok() {
            eprintln!("# not absurd: {}\n#   {}", ps.iter().map(|p| show(p)).collect::<Vec<_>>().join(" | "), env.facts.iter().map(|f| show(f)).collect::<Vec<_>>().join("\n#   "));
        }
        return false
    };
    // the others come first next time
    let ps: Vec<P> = ps[k + 1..].iter().chain(&ps[..=k]).cloned().collect();
    [true, false].iter().all(|v| {
        let mut q = env.clone();
        assume(&g, *v, &mut q);
        absurd(&q, &ps, depth - 1)
    })
}
/// value by name or choice, followed while the environment decides the choice
fn follow(p: &P, e: &Env) -> P {
    let mut p = simp(p, e);
    while let Some(q) = named(&p) {
        let q = simp(&q, e);
        if q.as_affine().is_some() && top_gate(&q).is_none() || q.is_const().is_some() {
            p = q;
        } else {
            break;
        }
    }
    pick(&p, e)
}
/// the alternative of a minimum or maximum that the environment selects
fn pick(p: &P, e: &Env) -> P {
    let Some(a) = p.as_atom() else { return p.clone() };
    let (w, s) = match atom_kind(a) {
        AKind::Min(w) => (w, 1),
        AKind::Max(w) => (w, -1),
        _ => return p.clone(),
    };
    for x in w.iter() {
        if w.iter().all(|y| prove_ge(&scale(&sub(y, x), s), e, 2)) {
            return x.clone();
        }
    }
    p.clone()
}
/// the 3-bit fields of 24 bits, as the parts of a sum that are multiples of different powers of eight
fn index_fields(bytes: &[P]) -> Option<Vec<P>> {
    let e0 = Env::default();
    let w = add(&add(&bytes[0], &scale(&bytes[1], 256)), &scale(&bytes[2], 65536));
    let mut v = vec![];
    let mut rest = w.c;
    for j in 0..8u32 {
        let (m, n) = (8i128.pow(j), 8i128.pow(j + 1));
        let mut t = konst(0);
        for (mo, k) in &w.ts {
            if k % m == 0 && (k % n != 0 || j == 7) {
                t = add(&t, &mono(*mo, k / m));
            }
        }
        // the constant part that brings it into range
        let (l, h) = range_sq(&t, &e0);
        let c = rest.rem_euclid(n) / m;
        let c = if l + c > 7 || c + h > 7 { c - 8 } else { c };
        let c = if j == 7 { rest / m } else { c };
        rest -= c * m;
        let t = addc(&t, c);
        let (l, h) = range_sq(&t, &e0);
        if l < 0 || h > 7 {
            return None;
        }
        v.push(t);
    }
    Some(v)
}
fn sq(p: &P) -> P {
    mul(p, p)
}
/// atoms reachable from p
fn reach(p: &P, cap: usize) -> Vec<Atom> {
    let mut seen = std::collections::HashSet::new();
    let mut q = p.atoms();
    let mut out = vec![];
    while let Some(a) = q.pop() {
        if out.len() < cap && seen.insert(a) {
            out.push(a);
            q.extend(kind_children(&atom_kind(a)).0);
        }
    }
    out
}
/// tables over x that are a quadratic on its current range
fn define_tables(at: &[Atom], x: Atom, e: &mut Env) {
    let (l, h) = arange(x, e);
    for a in at {
        let AKind::Table(b, t) = atom_kind(*a) else { continue };
        if b != x || h - l < 3 {
            continue;
        }
        let f = |v: i128| t[(v - atom_range(x).0) as usize];
        // second difference, slope and constant
        let d2 = f(l + 2) - 2 * f(l + 1) + f(l);
        if d2 % 2 != 0 {
            continue;
        }
        let k2 = d2 / 2;
        let k1 = f(l + 1) - f(l) - k2 * (2 * l + 1);
        let k0 = f(l) - k2 * l * l - k1 * l;
        if (l..=h).all(|v| f(v) == k2 * v * v + k1 * v + k0) {
            e.define(*a, addc(&add(&scale(&sq(&atom(x)), k2), &scale(&atom(x), k1)), k0));
            e.touch();
        }
    }
}
/// is dist[v] least?
fn least(d: &[P], v: usize, left: &[usize], e: &Env, at: &[Atom]) -> Result<(), usize> {
    let mut e = e.clone();
    let mut left: Vec<usize> = left.iter().copied().filter(|k| *k != v).collect();
    loop {
        let before = left.len();
        // the minima of the encoder, decided as far as known
        let f: Vec<P> = e.facts.iter().filter(|f| f.atoms().iter().any(|a| matches!(atom_kind(*a), AKind::Min(_)))).map(|f| simp(f, &e)).collect();
        for f in f {
            if !e.facts.contains(&f) && f.is_const().is_none() {
                e.facts.push(f);
                e.touch();
            }
        }
        left.retain(|k| {
            let g = sub(&d[*k], &d[v]);
            refuel();
            if e.dead || prove_ge(&g, &e, 0) {
                add_fact(&g, &mut e);
                return false;
            }
            true
        });
        if left.is_empty() || e.dead {
            return Ok(());
        }
        // minima whose alternatives are all at least dist[v]
        let mut grown = false;
        for a in at {
            if let AKind::Min(w) = atom_kind(*a) {
                let g = simp(&sub(&atom(*a), &d[v]), &e);
                if e.facts.contains(&g) || range(&g, &e).0 >= 0 {
                    continue;
                }
                if w.iter().all(|x| prove_ge(&sub(x, &d[v]), &e, 0)) {
                    e.facts.push(g);
                    e.touch();
                    grown = true;
                }
            }
        }
        if left.len() == before && !grown {
            return if prove_ge(&konst(-1), &e, 6) { Ok(()) } else { Err(left[0]) };
        }
    }
}
fn nearest(r: &mut Rep, s: &str) {
    codes(r, s, nearest_pixel)
}
/// the least and the greatest value are decoded exactly
fn extreme(r: &mut Rep, s: &str) {
    codes(r, s, extreme_pixel)
}
type PixelRule = fn(&mut Rep, &Cfg, &Args, usize, usize, &P, bool, &[P], &Env);
fn codes(r: &mut Rep, s: &str, rule: PixelRule) {
    // format, and which of eight pairs of pixels
    let (f, g) = s.split_once('@').unwrap_or((s, ""));
    let g: Option<usize> = g.parse().ok();
    let mut c = Cfg { keep: true, ..case(f) };
    if c.fmt < 3 {
        c.part = Some(0);
    }
    let a = args(&c);
    let Some(e) = encode(r, &c, &a) else { return vacuous(r) };
    let blocks: Vec<(usize, usize)> = match c.fmt {
        2 => vec![(0, 3)],
        3 => vec![(0, 0)],
        _ => vec![(0, 0), (8, 1)],
    };
    for (o, ch) in blocks {
        for (env, out) in branches(&e.st.env, &e.out[o..o + 8], &[2, 3, 4, 5, 6, 7], 4) {
            if std::env::var("TXA_DBG").is_ok() {
                eprintln!("# case {} {} {}", show_d(&follow(&out[0], &env), 2), show_d(&follow(&out[1], &env), 2), show_d(&out[2], 2));
            }
            let mut ix = vec![];
            for h in 0..2 {
                match index_fields(&out[2 + 3 * h..5 + 3 * h]) {
                    Some(v) => ix.extend(v),
                    None => {
                        r.fail("undecided|fields", format!("{} block encode: the index bytes of the block at {} have no structure of 3-bit fields: {}", FMT[c.fmt], o, show(&out[2])));
                    }
                }
            }
            if ix.len() != 16 {
                continue;
            }
            let (c0, c1) = (follow(&e.out[o], &env), follow(&e.out[o + 1], &env));
            for gt in [true, false] {
                let mut env = env.clone();
                assume(&ge0(&addc(&sub(&c0, &c1), -1), &env), gt, &mut env);
                if absurd(&env, &[c0.clone(), c1.clone()], 5) {
                    continue;
                }
                let n = if gt { 7 } else { 5 };
                let mut codes = vec![c0.clone(), c1.clone()];
                for k in 1..n {
                    codes.push(div_const(&add(&scale(&c0, n - k), &scale(&c1, k)), n, &env));
                }
                if !gt {
                    codes.push(konst(0));
                    codes.push(konst(255));
                }
                for i in (0..16).filter(|i| g.is_none_or(|g| i / 2 == g)) {
                    if !r.fails.is_empty() {
                        return;
                    }
                    rule(r, &c, &a, i, ch, &ix[i], gt, &codes, &env);
                }
            }
        }
    }
}
/// one environment per linear piece of a table the value is chosen from
fn pieces(d: &P, e: &Env) -> Vec<Env> {
    let mut at = d.atoms();
    at.extend(simp(d, e).atoms());
    for a in at.clone() {
        if let AKind::Ite(_, x, y) = atom_kind(a) {
            at.extend(x.atoms());
            at.extend(y.atoms());
        }
    }
    for a in at.clone() {
        if let AKind::Min(w) | AKind::Max(w) = atom_kind(a) {
            at.extend(w.iter().flat_map(|x| x.atoms()));
        }
    }
    for a in at {
        let AKind::Table(b, t) = atom_kind(a) else { continue };
        let (l, h) = arange(b, e);
        let f = |v: i128| t[(v - atom_range(b).0) as usize];
        if h - l < 2 || h - l > 512 {
            continue;
        }
        let mut out = vec![];
        let mut from = l;
        while from <= h && out.len() < 5 {
            let k = if from < h { f(from + 1) - f(from) } else { 0 };
            let to = (from..=h).take_while(|v| f(*v) == f(from) + k * (v - from)).last().unwrap();
            let mut q = e.clone();
            q.refine(b, from, to);
            q.define(a, addc(&scale(&atom(b), k), f(from) - k * from));
            q.touch();
            if !q.dead {
                out.push(q);
            }
            from = to + 1;
        }
        if from > h {
            return out;
        }
    }
    vec![e.clone()]
}
/// x <= p (or x >= p), by the bounds of the values p is computed from
fn bounded(x: &P, p: &P, above: bool, env: &Env) -> bool {
    let diff = |q: &P| if above { sub(q, x) } else { sub(x, q) };
    let at = reach(p, 4000);
    let mut done = std::collections::HashSet::new();
    // what is known of the values a value is computed from
    let with = |d: &P, done: &std::collections::HashSet<Atom>| {
        let mut near = d.atoms();
        for _ in 0..2 {
            near = near.iter().flat_map(|a| kind_children(&atom_kind(*a)).0).chain(near.iter().copied()).collect();
        }
        near.sort();
        near.dedup();
        let mut e = env.clone();
        for a in near {
            let f = diff(&atom(a));
            if done.contains(&a) {
                for f in [simp(&f, &e), f] {
                    if range(&f, &e).0 < 0 && !e.facts.contains(&f) {
                        e.facts.push(f);
                    }
                }
            }
        }
        e.touch();
        refuel();
        e
    };
    let mut grown = true;
    while grown {
        let e = with(p, &done);
        if prove_ge(&diff(p), &e, 3) {
            return true;
        }
        grown = false;
        for a in at.iter().rev() {
            let d = match atom_kind(*a) {
                AKind::Named(d) => d,
                AKind::Min(_) | AKind::Max(_) | AKind::Ite(..) => atom(*a),
                _ => continue,
            };
            if !done.contains(a) && pieces(&d, &with(&d, &done)).iter().all(|e| prove_ge(&diff(&d), e, 2)) {
                done.insert(*a);
                grown = true;
            }
        }
    }
    if std::env::var("TXA_DBG").is_ok() {
        eprintln!("# bounded {} by {} above {}", show(x), show(p), above);
        for a in &at {
            eprintln!("#   {} {}", done.contains(a), show_d(&atom(*a), 2));
            if matches!(atom_kind(*a), AKind::Min(_)) && !done.contains(a) {
                let e = with(&atom(*a), &done);
                eprintln!("#     {} facts {}", show_d(&simp(&diff(&atom(*a)), &e), 3), e.facts.iter().map(|f| show_d(f, 2)).collect::<Vec<_>>().join("; "));
            }
        }
    }
    false
}
fn extreme_pixel(r: &mut Rep, c: &Cfg, a: &Args, i: usize, ch: usize, ix: &P, gt: bool, codes: &[P], env: &Env) {
    let mut env = env.clone();
    assume(&a.mask[i], true, &mut env);
    let x = &a.on[4 * i + ch];
    let at = reach(ix, 4000);
    for val in [0, 255] {
        let mut env = env.clone();
        if let Some(xa) = x.as_atom() {
            env.refine(xa, val, val);
            define_tables(&at, xa, &mut env);
            define_tables(&reach(&add(&codes[0], &scale(&codes[1], 3)), 4000), xa, &mut env);
        }
        // the code that is this value
        let k = match (gt, val) {
            (true, 0) => 1,
            (true, _) => 0,
            (false, 0) => 6,
            _ => 7,
        };
        let there = env.dead || bounded(&konst(val), &codes[k], val != 0, &env);
        r.check(there, &format!("{}|lost", FMT[c.fmt]), || format!("{} block encode: value {} of channel {} of pixel {} may not be among the codes of the block, from {} to {}", FMT[c.fmt], val, ch, i, show(&codes[0]), show(&codes[1])));
        assume(&eq0(&addc(&codes[k], -val), &env), true, &mut env);
        for v in 0..8usize {
            let mut e = env.clone();
            assume(&eq0(&addc(ix, -(v as i128)), &e), true, &mut e);
            if e.dead {
                r.proved += 1;
                continue;
            }
            if !r.fails.is_empty() {
                return;
            }
            let d: Vec<P> = codes.iter().enumerate().map(|(j, c)| if j == k { konst(0) } else { sq(&addc(c, -val)) }).collect();
            let ok = least(&d, v, &[0, 1, 2, 3, 4, 5, 6, 7], &e, &at).is_ok() || least(&d, v, &[k], &e, &at).is_ok();
            r.check(ok, &format!("{}|changed", FMT[c.fmt]), || format!("{} block encode: pixel {} channel {} of value {} may get index {}, which may decode to another value: {}", FMT[c.fmt], i, ch, val, v, show(&codes[v])));
        }
    }
}
fn nearest_pixel(r: &mut Rep, c: &Cfg, a: &Args, i: usize, ch: usize, ix: &P, gt: bool, codes: &[P], env: &Env) {
    let mut env = env.clone();
    assume(&a.mask[i], true, &mut env);
    let x = &a.on[4 * i + ch];
    let at = reach(ix, 4000);
    let ok = {
        let mut e = env.clone();
        if !gt {
            assume(&ge0(&addc(x, -1), &e), true, &mut e);
            assume(&ge0(&addc(&neg(x), 254), &e), true, &mut e);
        }
        if let Some(xa) = x.as_atom() {
            define_tables(&reach(&add(&codes[0], &scale(&codes[1], 3)), 4000), xa, &mut e);
        }
        let (lo, hi) = if gt { (&codes[1], &codes[0]) } else { (&codes[0], &codes[1]) };
        e.dead || bounded(x, lo, false, &e) && bounded(x, hi, true, &e)
    };
    r.check(ok, &format!("{}|outside", FMT[c.fmt]), || format!("{} block encode: channel {} of pixel {} may lie outside the endpoints of the block, {} and {}", FMT[c.fmt], ch, i, show(&codes[0]), show(&codes[1])));
    for v in 0..8usize {
        for half in 0..2 {
            let mut e = env.clone();
            if let Some(xa) = x.as_atom() {
                e.refine(xa, 128 * half, 128 * half + 127);
                define_tables(&at, xa, &mut e);
            }
            assume(&eq0(&addc(ix, -(v as i128)), &e), true, &mut e);
            if e.dead {
                r.proved += 1;
                continue;
            }
            if !r.fails.is_empty() {
                return;
            }
            let d: Vec<P> = codes.iter().map(|k| sq(&sub(x, k))).collect();
            let res = least(&d, v, &[0, 1, 2, 3, 4, 5, 6, 7], &e, &at);
            if std::env::var("TXA_DBG").is_ok() && res.is_err(){
                eprintln!("# pixel {} v {} half {} {:?} facts {}", i, v, half, res, e.facts.iter().map(|f| show_d(f, 2)).collect::<Vec<_>>().join("\n#    "));
                eprintln!("#  d[v] {}", show_d(&d[v], 2));
            }
            r.check(res.is_ok(), &format!("{}|nearest", FMT[c.fmt]), || format!("{} block encode: pixel {} channel {} with index {}: code {} may be nearer", FMT[c.fmt], i, ch, v, res.err().unwrap_or(0)));
        }
    }
}

/// the pixels these bytes decode to
fn decoded(r: &mut Rep, fmt: usize, bytes: &[P], env: &Env) -> Option<Vec<P>> {
    let mut cx = Cx::new();
    let f = entry(&mut cx, r, "decompress_block")?;
    let mut st = State::new();
    st.env = rc_env(env);
    let reg = st.alloc();
    for (j, b) in bytes.iter().enumerate() {
        cx.region_mut(&mut st, reg).put(j as u64, 1, Val::Int(b.clone()), env);
    }
    let p = ptr(reg, konst(0), Some(konst(bytes.len() as i128)));
    let v = go(&mut cx, r, &format!("{} block decode", FMT[fmt]), f, vec![iv(fmt as i128), p], &mut st)?;
    let out = v.and_then(|v| agg_bytes(&v, 64));
    if out.is_none() {
        r.fail("shape", format!("{} block decode: result is not 16 pixels of 4 bytes", FMT[fmt]));
    }
    out
}
/// this sum of few conditions is zero
fn force(d: &P, env: &mut Env) {
    let at = d.atoms();
    if at.len() > 6 || at.iter().any(|a| atom_range(*a) != (0, 1)) {
        return;
    }
    let mut can = vec![[false; 2]; at.len()];
    for x in 0..1usize << at.len() {
        let v = |a: &Atom| x >> at.iter().position(|b| b == a).unwrap() & 1;
        let s: i128 = d.ts.iter().filter(|(m, _)| mono_atoms(*m).iter().all(|a| v(a) == 1)).map(|(_, k)| *k).sum();
        if s + d.c == 0 && at.iter().all(|a| (arange(*a, env).0..=arange(*a, env).1).contains(&(v(a) as i128))) {
            at.iter().enumerate().for_each(|(i, a)| can[i][v(a)] = true);
        }
    }
    for (i, a) in at.iter().enumerate() {
        match can[i] {
            [false, false] => env.dead = true,
            [false, true] => assume(&atom(*a), true, env),
            [true, false] => assume(&atom(*a), false, env),
            _ => {}
        }
    }
}
/// names whose choice is decided stand for what they name, and what is known of a name decides its choice
fn settle(ps: &[P], env: &mut Env, cap: usize) {
    for _ in 0..12 {
        let ver = env.ver;
        let mut at: Vec<Atom> = env.r.keys().copied().filter(|a| matches!(atom_kind(*a), AKind::Named(_))).collect();
        for p in ps {
            at.extend(reach(&simp(p, env), cap));
        }
        for k in env.r.keys().copied().filter(|a| matches!(atom_kind(*a), AKind::Named(_))).collect::<Vec<_>>() {
            at.extend(reach(&atom(k), cap));
        }
        at.sort();
        at.dedup();
        for a in at {
            let AKind::Named(d) = atom_kind(a) else { continue };
            if env.defs.contains_key(&a) {
                continue;
            }
            let v = chosen(&simp(&d, env), env);
            let (l, h) = arange(a, env);
            let (vl, vh) = range(&v, env);
            if vl > h || vh < l {
                env.dead = true;
            }
            if env.dead {
                return;
            }
            match v.as_affine().map(|(k, b, c)| (k, atom_kind(b), c, b)) {
                Some((k, AKind::Ite(g, x, y), c, _)) => {
                    env.refine(a, vl, vh);
                    for (w, b) in [(x, false), (y, true)] {
                        let (wl, wh) = range(&addc(&scale(&w, k), c), env);
                        if wl > h || wh < l {
                            assume(&g, b, env);
                        }
                    }
                }
                o => {
                    if l == h {
                        force(&addc(&v, -l), env);
                    }
                    if let Some((k, _, c, b)) = o {
                        if k == 1 {
                            env.refine(b, l - c, h - c);
                        }
                    } else if (l, h) != (vl, vh) && v.is_const().is_none() {
                        for f in [addc(&v, -l), addc(&neg(&v), h)] {
                            if range(&f, env).0 < 0 {
                                add_fact(&f, env);
                            }
                        }
                    }
                    if top_gate(&d).is_some() {
                        env.define(a, v);
                    }
                }
            }
            if env.dead {
                return;
            }
        }
        if ver == env.ver {
            return;
        }
    }
}
/// an undecided condition as far out as possible
fn outermost(p: &P, env: &Env) -> Option<P> {
    let mut seen = std::collections::HashSet::new();
    let mut q: std::collections::VecDeque<Atom> = p.atoms().into();
    while let Some(a) = q.pop_front() {
        if seen.len() > 400 || !seen.insert(a) {
            continue;
        }
        let open = |g: &P| {
            let g = simp(g, env);
            if g.is_const().is_some() || decide(&g, env).is_some() {
                return None;
            }
            // which of the two a minimum or maximum is comes first
            let mut ext = vec![];
            for a in g.atoms() {
                if let AKind::Ge(q) | AKind::Eq0(q) = atom_kind(a) {
                    ext.extend(q.atoms());
                }
            }
            let mut k = 0;
            while k < ext.len() && k < 100 {
                let a = if let AKind::Bit(b, _) = atom_kind(ext[k]) { b } else { ext[k] };
                k += 1;
                if let AKind::Named(d) = atom_kind(a) {
                    if let Some(AKind::Ite(h, ..)) = d.as_atom().map(atom_kind) {
                        let h = simp(&h, env);
                        if h.is_const().is_none() && decide(&h, env).is_none() {
                            return Some(h);
                        }
                    }
                    ext.extend(simp(&d, env).atoms().into_iter().filter(|b| *b != a));
                }
                if let AKind::Min(w) | AKind::Max(w) = atom_kind(a) {
                    if w.len() == 2 {
                        let h = ge0(&simp(&sub(&w[0], &w[1]), env), env);
                        if h.is_const().is_none() && decide(&h, env).is_none() {
                            return Some(h);
                        }
                    }
                }
            }
            Some(g)
        };
        let k = atom_kind(a);
        match &k {
            AKind::Ite(g, ..) => {
                if let Some(g) = open(g) {
                    return Some(g);
                }
            }
            AKind::Ge(_) | AKind::Eq0(_) | AKind::FCmp(..) => {
                if let Some(g) = open(&atom(a)) {
                    return Some(g);
                }
            }
            AKind::Table(_, _) if atom_range(a) == (0, 1) => {
                if let Some(g) = open(&atom(a)) {
                    return Some(g);
                }
            }
            AKind::Named(d) => {
                q.extend(simp(d, env).atoms());
                continue;
            }
            _ => {}
        }
        q.extend(kind_children(&k).0);
    }
    None
}
/// is the value this constant, by cases on the choices behind it?
/// different and not less is greater
fn apart(e: &mut Env) {
    let ne: Vec<P> = e.r.iter().filter(|(_, v)| **v == (0, 0)).filter_map(|(a, _)| match atom_kind(*a) {
        AKind::Eq0(p) => Some(p),
        _ => None,
    }).collect();
    for p in ne {
        for q in [p.clone(), neg(&p)] {
            if decide(&ge0(&q, e), e) == Some(true) {
                assume(&ge0(&addc(&q, -1), e), true, e);
            }
        }
    }
}
fn always(p: &P, want: i128, env: &Env, depth: u32) -> bool {
    let mut env = env.clone();
    settle(&[p.clone()], &mut env, 3000);
    if env.dead {
        return true;
    }
    refuel();
    let mut p = simp(p, &env);
    for a in p.atoms() {
        if let AKind::Ge(q) = atom_kind(a) {
            let w = recompose(&q);
            if w != q {
                p = simp(&subst(&p, a, &ge0(&w, &env)), &env);
            }
        }
    }
    if let Some(k) = p.is_const() {
        return k == want;
    }
    if equal(&p, &konst(want), &env, 1) {
        return true;
    }
    if depth == 0 {
        if std::env::var("TXA_DBG").is_ok() {
            eprintln!("# not always {}: {}", want, show_d(&p, 3));
        }
        return false;
    }
    let Some(g) = outermost(&p, &env) else {
        if std::env::var("TXA_DBG").is_ok() {
            eprintln!("# stuck at {}: {}", want, show_d(&p, 4));
        }
        return false;
    };
    [true, false].iter().all(|v| {
        let mut q = env.clone();
        assume(&g, *v, &mut q);
        apart(&mut q);
        q.dead || always(&p, want, &q, depth - 1)
    })
}
/// the cases of these values that follow no choice any more
fn leaves(env: &Env, out: &[P], depth: u32, to: &mut Vec<(Env, Vec<P>)>) {
    let mut env = env.clone();
    settle(out, &mut env, 3000);
    if env.dead {
        return;
    }
    let out: Vec<P> = out.iter().map(|p| outer(p, &env)).collect();
    let g = if depth > 0 { out.iter().find_map(top_gate) } else { None };
    let Some(g) = g else {
        to.push((env, out));
        return;
    };
    for v in [true, false] {
        let mut q = env.clone();
        assume(&g, v, &mut q);
        if !q.dead {
            leaves(&q, &out, depth - 1, to);
        }
    }
}
/// BC1: enabled pixels below the alpha threshold decode to alpha 0, others to 255
fn punch(r: &mut Rep, s: &str) {
    let c = Cfg { wild: false, paths: true, ..case(s) };
    let a = args(&c);
    let Some(e) = encode(r, &c, &a) else { return vacuous(r) };
    let mut base = (*e.st.env).clone();
    for i in 0..16usize {
        for t in [true, false] {
            let mut env = base.clone();
            assume(&a.mask[i], true, &mut env);
            assume(&a.opaque[i], t, &mut env);
            let mut cases = vec![];
            let b: Vec<P> = [0, 1, 2, 3, 4 + i / 4].iter().map(|k| e.out[*k].clone()).collect();
            leaves(&env, &b, 6, &mut cases);
            for (env, b) in &mut cases {
                for k in [0, 2] {
                    let w = add(&b[k], &scale(&b[k + 1], 256));
                    let d = sub(&recompose(&w), &w);
                    if d.is_const().is_none() {
                        add_fact(&d, env);
                        add_fact(&neg(&d), env);
                    }
                }
                let mut out = vec![konst(0); 8];
                out[..4].clone_from_slice(&b[..4]);
                out[4 + i / 4] = b[4].clone();
                let Some(px) = decoded(r, c.fmt, &out, env) else { return };
                let al = &px[4 * i + 3];
                let ok = always(al, if t { 255 } else { 0 }, env, 16);
                if !ok && std::env::var("TXA_DBG").is_ok() {
                    let mut env = env.clone();
                    settle(&[al.clone()], &mut env, 3000);
                    eprintln!("# pixel {} opaque {}: {}", i, t, show_d(&simp(al, &env), 3));
                    for (t, v) in env.pc.iter() {
                        eprintln!("# pc {} = {}", show_d(&Rc::new(Poly { c: 0, ts: t.clone() }), 4), v);
                    }
                    for (t, v) in env.r.iter() {
                        eprintln!("# r {} = {:?}", show_d(&atom(*t), 4), v);
                    }
                    for k in 0..5 {
                        eprintln!("# byte{} {}", k, show_d(&b[k], 3).chars().take(400).collect::<String>());
                    }
                }
                r.check(ok, &format!("BC1|{}", if t { "opaque" } else { "transparent" }), || format!("BC1 block encode: pixel {} with alpha {} may decode to another alpha than {}: {}", i, if t { "of at least 128" } else { "below 128" }, if t { 255 } else { 0 }, show(&simp(al, &env))));
            }
            if cases.is_empty() {
                // no such pixel in this case
                r.proved += 1;
                if t {
                    let none = and(&a.mask[i], &a.opaque[i]);
                    assume(&none, false, &mut base);
                    if none.ts.len() == 1 {
                        base.zero(none.ts[0].0);
                    }
                }
            }
        }
    }
}
/// explicit alpha: the field of an enabled pixel is the nearest of the 16 values, a disabled one is 0
/// with the definitions of the values joined so far
fn unfolded(p: &P, e: &Env) -> P {
    let mut p = simp(p, e);
    for _ in 0..40 {
        let Some((a, d)) = p.atoms().into_iter().find_map(|a| match atom_kind(a) {
            AKind::Named(d) => Some((a, d)),
            _ => None,
        }) else { break };
        p = simp(&subst(&p, a, &d), e);
    }
    p
}
fn explicit(r: &mut Rep, s: &str) {
    explicit_at(r, s, &(0..256).collect::<Vec<_>>(), 8)
}
/// only the least and the greatest alpha, exactly
fn explicit_ends(r: &mut Rep, s: &str) {
    explicit_at(r, s, &[0, 255], 0)
}
fn explicit_at(r: &mut Rep, s: &str, values: &[i128], err: i128) {
    let c = case(s);
    let a = args(&c);
    let Some(e) = encode(r, &c, &a) else { return vacuous(r) };
    for i in 0..16usize {
        let mut bytes = vec![konst(0); 16];
        bytes[i / 2] = e.out[i / 2].clone();
        for (t, u) in [(true, true), (true, false), (false, true), (false, false)] {
            let mut env = (*e.st.env).clone();
            assume(&a.mask[i], t, &mut env);
            assume(&a.mask[i ^ 1], u, &mut env);
            let bytes: Vec<P> = bytes.iter().map(|b| unfolded(b, &env)).collect();
            let Some(px) = decoded(r, c.fmt, &bytes, &env) else { return };
            let al = &px[4 * i + 3];
            if !t && values.len() < 256 {
                continue;
            }
            if !t {
                r.check(always(al, 0, &env, 12), "BC2|disabled", || format!("BC2 block encode: alpha of disabled pixel {} may decode to another value than 0: {}", i, show(al)));
                continue;
            }
            let x = a.on[4 * i + 3].atoms()[0];
            let mut bad = None;
            for v in values {
                let v = *v;
                let mut env = env.clone();
                env.refine(x, v, v);
                let d = addc(&simp(al, &env), -v);
                let (lo, hi) = range(&d, &env);
                if (lo < -err || hi > err) && !within(&d, -err, err, &env, 12) {
                    bad = Some((v, lo + v, hi + v));
                    break;
                }
            }
            r.check(bad.is_none(), "BC2|alpha", || {
                let (v, lo, hi) = bad.unwrap();
                format!("BC2 block encode: alpha {} of enabled pixel {} may decode to a value in {}..{}, which is more than {} away", v, i, lo, hi, err)
            });
        }
    }
}
/// is the value in this range, by cases on the choices behind it?
fn within(p: &P, lo: i128, hi: i128, env: &Env, depth: u32) -> bool {
    let mut env = env.clone();
    settle(&[p.clone()], &mut env, 3000);
    if env.dead {
        return true;
    }
    refuel();
    let p = simp(p, &env);
    let (l, h) = range(&p, &env);
    if lo <= l && h <= hi {
        return true;
    }
    if let Some(g) = (depth > 0).then(|| outermost(&p, &env)).flatten() {
        return [true, false].iter().all(|v| {
            let mut q = env.clone();
            assume(&g, *v, &mut q);
            q.dead || within(&p, lo, hi, &q, depth - 1)
        });
    }
    if absurd(&env, &[], 0) {
        return true;
    }
    if std::env::var("TXA_DBG").is_ok() {
        eprintln!("# not in {}..{}: {}", lo, hi, show_d(&p, 4));
    }
    false
}
/// the ways the bytes can come about, each with minima, maxima and comparisons of plain values decided
fn unravel(env: &Env, out: &[P], depth: u32, to: &mut Vec<(Env, Vec<P>)>) {
    let mut env = env.clone();
    settle(out, &mut env, 3000);
    if env.dead {
        return;
    }
    let out: Vec<P> = out.iter().map(|p| outer(p, &env)).collect();
    let plain = |p: &P| {
        let at = p.atoms();
        at.iter().all(|a| atom_base(*a) && !matches!(atom_kind(*a), AKind::Named(_)) || matches!(atom_kind(*a), AKind::Table(..)))
    };
    let mut at: Vec<Atom> = out.iter().flat_map(|p| reach(p, 3000)).collect();
    at.sort();
    at.dedup();
    let mut split = None;
    for a in at {
        let test = match atom_kind(a) {
            _ if env.defs.contains_key(&a) => continue,
            AKind::Ge(q) => (plain(&simp(&q, &env)), ge0(&simp(&q, &env), &env)),
            AKind::Eq0(q) => (plain(&simp(&q, &env)), eq0(&simp(&q, &env), &env)),
            AKind::Min(v) | AKind::Max(v) if v.len() == 2 => {
                let d = simp(&sub(&v[0], &v[1]), &env);
                (plain(&d), ge0(&d, &env))
            }
            _ => continue,
        };
        if !test.0 {
            continue;
        }
        match (atom_kind(a), decide(&test.1, &env)) {
            (AKind::Min(v), Some(t)) => {
                env.define(a, simp(&v[t as usize], &env));
                env.touch();
                return unravel(&env, &out, depth, to);
            }
            (AKind::Max(v), Some(t)) => {
                env.define(a, simp(&v[!t as usize], &env));
                env.touch();
                return unravel(&env, &out, depth, to);
            }
            (_, None) if split.is_none() => split = Some(test.1),
            _ => {}
        }
    }
    match split.or_else(|| out.iter().find_map(top_gate)) {
        Some(g) if depth > 0 => {
            for v in [true, false] {
                let mut q = env.clone();
                assume(&g, v, &mut q);
                if !q.dead {
                    unravel(&q, &out, depth - 1, to);
                }
            }
        }
        _ => {
            for f in env.facts.clone() {
                if env.facts.contains(&neg(&f)) {
                    digits(&f, &mut env);
                }
            }
            if !env.dead {
                to.push((env, out));
            }
        }
    }
}
/// a sum that is zero, of multiples of k and less than k besides: both parts are zero
fn digits(p: &P, env: &mut Env) {
    let mut ks: Vec<i128> = p.ts.iter().map(|t| t.1.abs()).collect();
    ks.sort();
    ks.dedup();
    for k in ks.into_iter().rev() {
        let part = |m: bool| Rc::new(Poly { c: 0, ts: p.ts.iter().filter(|t| (t.1 % k == 0) == m).copied().collect() });
        let (high, rest) = (part(true), part(false));
        let (l, h) = range(&rest, env);
        // the constant, split so that the rest stays below k
        let c = p.c.rem_euclid(k) - k * ((h + p.c.rem_euclid(k)).div_euclid(k));
        if !rest.ts.is_empty() && l + c > -k {
            let rest = addc(&rest, c);
            for q in [&addc(&high, p.c - c), &rest] {
                add_fact(q, env);
                add_fact(&neg(q), env);
            }
            return digits(&rest, env);
        }
    }
}
/// blocks whose visible pixels have one colour: "<format>_<first visible pixel>", with "_s" for BC1 blocks without transparent pixels
fn flat(r: &mut Rep, s: &str) {
    let v: Vec<&str> = s.split('_').collect();
    let (fmt, first, solid) = (v[0].parse().unwrap(), v[1].parse().ok(), v.len() > 2);
    let c = Cfg { uniform: true, solid, first, wild: true, fmt, ..Default::default() };
    let a = args(&c);
    let Some(e) = encode(r, &c, &a) else { return vacuous(r) };
    // channel, greatest error, first byte, interpolated
    let want: &[(usize, i128, usize, bool)] = match (fmt, solid) {
        (0, false) => &[(0, 2, 0, false), (1, 1, 0, false), (2, 2, 0, false)],
        (0, true) => &[(0, 1, 0, false), (1, 1, 0, false), (2, 1, 0, false)],
        (1, _) | (2, false) => &[(0, 1, 8, false), (1, 1, 8, false), (2, 1, 8, false)],
        (2, true) => &[(3, 0, 0, true)],
        (3, _) => &[(0, 0, 0, true)],
        _ => &[(0, 0, 0, true), (1, 0, 8, true)],
    };
    for i in 0..16usize {
        let mut env = (*e.st.env).clone();
        assume(&a.mask[i], true, &mut env);
        if c.fmt == 0 && !solid {
            assume(&a.opaque[i], true, &mut env);
        }
        for half in [0usize, 8] {
            let here: Vec<_> = want.iter().filter(|w| w.2 == half).collect();
            if here.is_empty() {
                continue;
            }
            let used: Vec<usize> = if here[0].3 { [0, 1].into_iter().chain(2 + 3 * (i / 8)..5 + 3 * (i / 8)).map(|k| half + k).collect() } else { [0, 1, 2, 3, 4 + i / 4].iter().map(|k| half + k).collect() };
            let mut b: Vec<P> = used.iter().map(|k| e.out[*k].clone()).collect();
            // the pixel's own index; it decodes from nothing else (as C03 shows)
            let field = here[0].3.then(|| index_fields(&b[2..])).flatten().map(|f| f[i % 8].clone());
            if let Some(f) = &field {
                b.truncate(2);
                b.push(f.clone());
            }
            let mut cases = vec![];
            unravel(&env, &b, 8, &mut cases);
            r.count("ways of writing the block", cases.len() as u64);
            for (env, b) in &cases {
                let mut bytes = vec![konst(0); BS[c.fmt] as usize];
                used.iter().zip(b).for_each(|(k, p)| bytes[*k] = p.clone());
                if field.is_some() {
                    let mut w = scale(&b[2], 8i128.pow(i as u32 % 8));
                    for k in &used[2..] {
                        bytes[*k] = merge_tables(&mod_const(&w, 256, env));
                        w = div_const(&w, 256, env);
                    }
                }
                let Some(px) = decoded(r, c.fmt, &bytes, env) else { return };
                for (ch, err, ..) in &here {
                    let x = a.on[*ch].atoms()[0];
                    let mut bad = None;
                    if !within(&sub(&px[4 * i + ch], &atom(x)), -err, *err, env, 2) {
                        for v in 0..256 {
                            // tables over the value with a range of their own
                            let fits = env.r.iter().all(|(t, (l, h))| !matches!(atom_kind(*t), AKind::Table(b, u) if b == x && (u[v as usize] < *l || u[v as usize] > *h)));
                            let mut env = env.clone();
                            env.refine(x, v, v);
                            if fits && !env.dead && !within(&addc(&px[4 * i + ch], -v), -err, *err, &env, 12) {
                                bad = Some(v);
                                break;
                            }
                        }
                    }
                    if bad.is_some() && std::env::var("TXA_DBG").is_ok() {
                        for x in b {
                            eprintln!("# byte {}", show_d(x, 6));
                        }
                        eprintln!("# px {}", show_d(&px[4 * i + ch], 8));
                        std::process::exit(3);
                    }
                    r.check(bad.is_none(), &format!("{}|flat|{}", FMT[c.fmt], ["r", "g", "b", "a"][*ch]), || {
                        format!("{} block encode: {} {} of a block of one colour may decode, at pixel {}, to a value more than {} away", FMT[c.fmt], ["red", "green", "blue", "alpha"][*ch], bad.unwrap(), i, err)
                    });
                }
            }
        }
    }
}
