//! Calls: intrinsics, library models, opaque boundaries, closures.
use crate::flt::*;
use crate::interp::*;
use crate::ir::*;
use crate::poly::*;
use crate::prove::*;
use rustc_public::mir::BinOp;
use std::rc::Rc;

fn ip(v: &Val) -> P {
    match v {
        Val::Int(p) => p.clone(),
        Val::Agg(c) if c.len() == 1 => ip(&c[0].2),
        v => as_p(v, 8).unwrap_or_else(|| konst(0)),
    }
}
fn unit() -> Val {
    Val::Agg(Rc::new(vec![]))
}
/// what a value is, if it is made of numbers alone
fn val_key(v: &Val) -> Option<String> {
    match v {
        Val::Undef => Some("-".into()),
        Val::Int(p) => Some(format!("{:?}", p)),
        Val::F(f) => Some(format!("f{}", f.id)),
        Val::Agg(c) => Some(c.iter().map(|c| Some(format!("{}:{}", c.0, val_key(&c.2)?))).collect::<Option<Vec<_>>>()?.join(";")),
        _ => None,
    }
}
impl Cx {
    fn scalar(&self, v: Val) -> Val {
        match v {
            Val::Agg(c) if c.len() == 1 && c[0].0 == 0 => c[0].2.clone(),
            v => v,
        }
    }
    pub fn call(&mut self, fr: &Fr, st: &mut State, c: &CallT, args: Vec<Val>, span: &str) -> R<Option<Val>> {
        match &c.callee {
            Callee::Nothing => Ok(Some(unit())),
            Callee::Intrinsic(n, tys, id) => {
                let n = n.clone();
                if n == "integer_min" || n == "integer_max" {
                    let (x, y) = (simp(&ip(&args[0]), &st.env), simp(&ip(&args[1]), &st.env));
                    return Ok(Some(Val::Int(if n == "integer_min" { min2(&x, &y, &st.env) } else { max2(&x, &y, &st.env) })));
                }
                self.intr_fallback = Some(*id);
                let tys = tys.clone();
                self.intrinsic(fr, st, c, &n, &tys, args, span)
            }
            Callee::Fn(f) => self.call_named(fr, st, c, *f, args, span),
            Callee::Virtual(n) => {
                self.unknown.push(format!("virtual call {}", n));
                if self.lenient {
                    let t = args.iter().fold(0, |t, a| t | val_taint(a));
                    return Ok(Some(self.havoc(c.dest.ty, t)));
                }
                self.fatal(format!("virtual call {}", n))
            }
            Callee::Indirect(o) => {
                let v = self.op(fr, st, o)?;
                self.call_val(fr, st, c, v, args, span)
            }
        }
    }
    fn call_val(&mut self, fr: &Fr, st: &mut State, c: &CallT, v: Val, args: Vec<Val>, span: &str) -> R<Option<Val>> {
        match v {
            Val::Fn(f) => self.call_named(fr, st, c, f, args, span),
            Val::Agg(x) if x.len() == 1 => self.call_val(fr, st, c, x[0].2.clone(), args, span),
            Val::Alt(g, x) => {
                // resolve both targets under their gate and merge
                match decide(&g, &st.env) {
                    Some(true) => return self.call_val(fr, st, c, x.0.clone(), args, span),
                    Some(false) => return self.call_val(fr, st, c, x.1.clone(), args, span),
                    None => {}
                }
                let mut s1 = st.clone();
                s1.cond(&g);
                let mut s2 = st.clone();
                s2.cond(&not(&g));
                let r1 = self.call_val(fr, &mut s1, c, x.0.clone(), args.clone(), span)?;
                let r2 = self.call_val(fr, &mut s2, c, x.1.clone(), args, span)?;
                match (r1, r2) {
                    (Some(a), Some(b)) => {
                        let ra = s1.alloc();
                        let rb = s2.alloc();
                        let sz = self.prog.size(c.dest.ty);
                        let env = s1.env.clone();
                        Rc::make_mut(s1.mem[ra].as_mut().unwrap()).put(0, sz, a, &env);
                        Rc::make_mut(s2.mem[rb].as_mut().unwrap()).put(0, sz, b, &env);
                        let s = self.merge_all(fr, RET - 1, vec![s1, s2]);
                        let Some(mut s) = s else { return Ok(None) };
                        let v = self.load(&mut s, &ptr(ra, konst(0), None), c.dest.ty)?;
                        s.mem.truncate(ra);
                        *st = s;
                        Ok(Some(v))
                    }
                    (Some(a), None) => {
                        *st = s1;
                        Ok(Some(a))
                    }
                    (None, Some(b)) => {
                        *st = s2;
                        Ok(Some(b))
                    }
                    _ => Ok(None),
                }
            }
            v => self.fatal(format!("indirect call through {}", show_val(&v))),
        }
    }
    fn call_named(&mut self, fr: &Fr, st: &mut State, c: &CallT, f: FnId, args: Vec<Val>, span: &str) -> R<Option<Val>> {
        let name = self.prog.fns[f].name.clone();
        let krate = self.prog.fns[f].krate.clone();
        *self.calls.entry(name.clone()).or_insert(0) += 1;
        // functions returning ! : the path must be infeasible
        if c.target.is_none() || matches!(self.prog.t(c.dest.ty).kind, TK::Never) {
            let infeasible = st.env.dead || prove(&konst(0), &st.env, self.depth_prove);
            if !infeasible {
                let short = name.rsplit("::").next().unwrap_or(&name).to_string();
                let detail = format!("reachable under path [{}]", st.path.iter().rev().take(6).map(|p| show(p)).collect::<Vec<_>>().join("; "));
                // attribute the panic to the innermost frame of the analysed crate
                let (func, sp) = self.blame(fr, span);
                self.obs.push(Ob { func, span: sp, what: format!("call that never returns: {}", short), ok: false, detail });
            }
            return Ok(None);
        }
        if let Some(v) = self.model(fr, st, c, f, &name, &krate, &args, span)? {
            return Ok(v);
        }
        // opaque boundary
        let is_op = match self.opaque_seen.get(&f) {
            Some(b) => *b,
            None => {
                let b = match self.prog.body(f) {
                    Some(b) => self.opaque.iter().any(|g| g(&name, &b)),
                    None => false,
                };
                self.opaque_seen.insert(f, b);
                b
            }
        };
        if is_op {
            let mut deref = vec![];
            for _ in &args {
                deref.push(None);
            }
            let env = st.env.clone();
            self.events.push(Event { reg: NONE, off: konst(0), size: 0, val: Val::Undef, env, path: st.path.clone(), span: span.to_string(), call: Some(Rc::new(CallEv { name: name.clone(), args: args.clone(), deref })) });
            let t = args.iter().fold(0, |t, a| t | val_taint(a));
            // memory of the caller that the callee may write
            let id = self.events.len() as i128 - 1;
            for (k, a) in args.iter().enumerate() {
                use rustc_public::{mir::Mutability, ty::{RigidTy, TyKind}};
                let muta = matches!(self.prog.t(c.args[k].1).ty.kind(), TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut)) | TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)));
                let Val::Ptr(pv) = a else { continue };
                if pv.reg >= GLOB || !muta {
                    continue;
                }
                let n = match &pv.meta {
                    Some(m) => simp(m, &st.env).is_const(),
                    None => None,
                };
                let (Some(o), Some(n)) = (simp(&pv.off, &st.env).is_const(), n) else {
                    return self.fatal(format!("{} writes to local memory of unknown extent", name));
                };
                let reg = pv.reg;
                let env = st.env.clone();
                for j in 0..n {
                    let v = derived(AKind::Op("callout".into(), vec![konst(id), konst(k as i128), konst(j)]), 0, 255);
                    self.region_mut(st, reg).put((o + j) as u64, 1, Val::Int(v), &env);
                }
            }
            return Ok(Some(self.havoc(c.dest.ty, t)));
        }
        if self.prog.body(f).is_none() {
            self.unknown.push(format!("no body: {}", name));
            if self.lenient {
                let t = args.iter().fold(0, |t, a| t | val_taint(a));
                return Ok(Some(self.havoc(c.dest.ty, t)));
            }
            return self.fatal(format!("no body for {}", name));
        }
        self.call_fn(f, args, st)
    }
    /// innermost stack frame that belongs to the crate under analysis
    pub fn blame(&self, fr: &Fr, span: &str) -> (String, String) {
        if fr.f.krate == "texpresso" || fr.f.krate == "texpresso_cli" {
            return (fr.f.name.clone(), span.to_string());
        }
        for (f, b) in self.stack.iter().rev() {
            let k = &self.prog.fns[*f].krate;
            if k == "texpresso" || k == "texpresso_cli" {
                if let Some(Some(body)) = &self.prog.fns[*f].body {
                    return (body.name.clone(), body.spans[body.blocks[*b].tspan as usize].clone());
                }
            }
        }
        (fr.f.name.clone(), span.to_string())
    }
    fn ff(&self, v: &Val) -> F {
        match v {
            Val::F(f) => f.clone(),
            Val::Agg(c) if c.len() == 1 => self.ff(&c[0].2),
            v => ftop(32, val_taint(v)),
        }
    }
    fn intrinsic(&mut self, fr: &Fr, st: &mut State, c: &CallT, n: &str, tys: &[TyId], args: Vec<Val>, span: &str) -> R<Option<Val>> {
        *self.calls.entry(format!("intrinsic {}", n)).or_insert(0) += 1;
        let env = st.env.clone();
        let dt = c.dest.ty;
        let f1 = |s: &Cx, o: FOp| -> Val {
            let f = s.ff(&args[0]);
            Val::F(fop(o, f.bits, &[f.clone()], &env))
        };
        let f2 = |s: &Cx, o: FOp| -> Val {
            let (x, y) = (s.ff(&args[0]), s.ff(&args[1]));
            Val::F(fop(o, x.bits, &[x.clone(), y.clone()], &env))
        };
        let it = |s: &Cx, t: TyId| -> (u32, bool) {
            match s.prog.t(t).kind {
                TK::Int { bits, signed } => (bits, signed),
                TK::Bool => (8, false),
                TK::Char => (32, false),
                _ => (64, false),
            }
        };
        let base = n.trim_end_matches("f32").trim_end_matches("f64");
        let v = match n {
            "size_of" => iv(self.prog.size(tys[0]) as i128),
            "align_of" | "min_align_of" => iv(self.prog.t(tys[0]).ty.layout().map(|l| l.shape().abi_align as i128).unwrap_or(1)),
            "size_of_val" => match self.prog.t(tys[0]).size {
                Some(s) => iv(s as i128),
                None => self.havoc(dt, 0),
            },
            "needs_drop" | "ub_checks" | "contract_checks" | "overflow_checks" => iv(0),
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "assume" | "cold_path" | "forget" | "black_box_unit" => {
                if n == "assume" {
                    assume(&ip(&args[0]), true, st.envm());
                }
                unit()
            }
            "black_box" | "likely" | "unlikely" | "bool_to_int" => args[0].clone(),
            "transmute" | "transmute_unchecked" => self.cast(rustc_public::mir::CastKind::Transmute, args[0].clone(), c.args[0].1, dt, &env)?,
            "offset" | "arith_offset" | "ptr_offset" => {
                let pt = match &self.prog.t(c.args[0].1).kind {
                    TK::Ptr { pointee, .. } => *pointee,
                    _ => return self.fatal("offset".into()),
                };
                let s = self.prog.size(pt) as i128;
                let mut p = ip(&args[1]);
                if n == "arith_offset" {
                    // signed count
                    let (l, h) = range(&p, &env);
                    if l > i64::MAX as i128 && h > i64::MAX as i128 {
                        p = addc(&p, -(1i128 << 64));
                    }
                }
                self.shift_pub(&args[0], &scale(&p, s), &env)
            }
            "ptr_offset_from_unsigned" | "ptr_offset_from" => {
                let s = self.prog.size(tys[0]) as i128;
                match (&self.scalar(args[0].clone()), &self.scalar(args[1].clone())) {
                    (Val::Ptr(a), Val::Ptr(b)) if a.reg == b.reg => {
                        let d = simp(&sub(&a.off, &b.off), &env);
                        Val::Int(if s > 1 { div_exact(&d, s, &env) } else { d })
                    }
                    (Val::Int(a), Val::Int(b)) => Val::Int(div_const(&sub(a, b), s.max(1), &env)),
                    (a, b) => self.havoc(dt, val_taint(a) | val_taint(b)),
                }
            }
            "ptr_metadata" => match self.meta_pub(&args[0], &env) {
                Some(m) => Val::Int(m),
                None => unit(),
            },
            "aggregate_raw_ptr" => {
                let m = match &args[1] {
                    Val::Int(p) => Some(p.clone()),
                    _ => None,
                };
                self.with_meta(&args[0], m)
            }
            "slice_get_unchecked" => {
                let pt = match &self.prog.t(dt).kind {
                    TK::Ptr { pointee, .. } => *pointee,
                    _ => return self.fatal("slice_get_unchecked".into()),
                };
                let s = self.prog.size(pt) as i128;
                strip_meta(self.shift_pub(&args[0], &scale(&ip(&args[1]), s), &env))
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => self.load(st, &args[0], dt)?,
            "write_via_move" | "volatile_store" => {
                self.store(st, &args[0], tys[0], args[1].clone(), span)?;
                unit()
            }
            "copy_nonoverlapping" | "copy" => {
                let k = ip(&args[2]);
                self.copy_n(fr, st, &args[0], &args[1], &k, tys[0], span)?;
                unit()
            }
            "typed_swap_nonoverlapping" => {
                let t = tys[0];
                let a = self.load(st, &args[0], t)?;
                let b = self.load(st, &args[1], t)?;
                self.store(st, &args[0], t, b, span)?;
                self.store(st, &args[1], t, a, span)?;
                unit()
            }
            "write_bytes" => {
                let k = simp(&ip(&args[2]), &env);
                let s = self.prog.size(tys[0]);
                let total = k.is_const().map(|k| k as u64 * s);
                let Some(total) = total else { return self.fatal("write_bytes of unknown length".into()) };
                let u8t = self.prog.ty(rustc_public::ty::Ty::unsigned_ty(rustc_public::ty::UintTy::U8));
                for i in 0..total {
                    let q = self.shift_pub(&args[0], &konst(i as i128), &env);
                    self.store(st, &q, u8t, args[1].clone(), span)?;
                }
                unit()
            }
            "compare_bytes" | "raw_eq" => {
                let total = if n == "raw_eq" { Some(self.prog.size(tys[0]) as i128) } else { simp(&ip(&args[2]), &env).is_const() };
                let Some(k) = total else {
                    let t = args.iter().fold(0, |t, a| t | val_taint(a));
                    return Ok(Some(self.havoc(dt, t)));
                };
                let u8t = self.prog.ty(rustc_public::ty::Ty::unsigned_ty(rustc_public::ty::UintTy::U8));
                let mut alleq = konst(1);
                let mut t = 0;
                for i in 0..k {
                    let a = self.load(st, &self.shift_pub(&args[0], &konst(i), &env), u8t)?;
                    let b = self.load(st, &self.shift_pub(&args[1], &konst(i), &env), u8t)?;
                    let (a, b) = (simp(&ip(&a), &env), simp(&ip(&b), &env));
                    t |= poly_taint(&a) | poly_taint(&b);
                    alleq = wrapb(and(&alleq, &eq0(&sub(&a, &b), &env)));
                }
                if n == "raw_eq" {
                    Val::Int(alleq)
                } else {
                    // 0 iff equal
                    let x = fresh(AKind::Phi, 0, 1, t);
                    let sgn = sub(&konst(1), &scale(&x, 2));
                    Val::Int(ite(&alleq, &konst(0), &sgn))
                }
            }
            "discriminant_value" => {
                let pt = match &self.prog.t(c.args[0].1).kind {
                    TK::Ptr { pointee, .. } => *pointee,
                    _ => return self.fatal("discriminant_value".into()),
                };
                Val::Int(self.discr_pub(st, &args[0], pt)?)
            }
            "select_unpredictable" => ite_val(&ip(&args[0]), &args[1], &args[2], &env),
            "three_way_compare" => {
                let (b, s) = it(self, tys[0]);
                Val::Int(self.ibin(BinOp::Cmp, &ip(&args[0]), &ip(&args[1]), b, s, &env)?)
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "exact_div" | "unchecked_div" | "unchecked_rem" | "unchecked_shl" | "unchecked_shr" => {
                let (b, s) = it(self, tys[0]);
                let op = match n {
                    "wrapping_add" => BinOp::Add,
                    "wrapping_sub" => BinOp::Sub,
                    "wrapping_mul" => BinOp::Mul,
                    "unchecked_add" => BinOp::AddUnchecked,
                    "unchecked_sub" => BinOp::SubUnchecked,
                    "unchecked_mul" => BinOp::MulUnchecked,
                    "unchecked_rem" => BinOp::Rem,
                    "unchecked_shl" => BinOp::Shl,
                    "unchecked_shr" => BinOp::Shr,
                    _ => BinOp::Div,
                };
                Val::Int(self.ibin(op, &ip(&args[0]), &ip(&args[1]), b, s, &env)?)
            }
            "disjoint_bitor" => {
                let (b, s) = it(self, tys[0]);
                Val::Int(self.ibin(BinOp::BitOr, &ip(&args[0]), &ip(&args[1]), b, s, &env)?)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let (b, s) = it(self, tys[0]);
                let op = match n {
                    "add_with_overflow" => BinOp::Add,
                    "sub_with_overflow" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (x, y) = (simp(&ip(&args[0]), &env), simp(&ip(&args[1]), &env));
                let (_, o) = self.checked(op, &x, &y, b, s, &env)?;
                let w = self.ibin(op, &x, &y, b, s, &env)?;
                let sz = b as u64 / 8;
                Val::Agg(Rc::new(vec![(0, sz, Val::Int(w)), (sz, 1, Val::Int(o))]))
            }
            "saturating_add" | "saturating_sub" => {
                let (b, s) = it(self, tys[0]);
                let (lo, hi) = int_range(b, s);
                let (x, y) = (ip(&args[0]), ip(&args[1]));
                let r = if n == "saturating_add" { add(&x, &y) } else { sub(&x, &y) };
                Val::Int(max2(&min2(&r, &konst(hi), &env), &konst(lo), &env))
            }
            "rotate_left" | "rotate_right" | "bswap" | "bitreverse" | "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => {
                let (b, _) = it(self, tys[0]);
                self.bitfun(n, &ip(&args[0]), args.get(1).map(ip), b, &env)
            }
            "const_eval_select" => return self.const_eval_select(fr, st, c, args, span),
            "is_val_statically_known" => iv(0),
            "caller_location" => Val::Top(0),
            "type_id" | "type_name" => self.havoc(dt, 0),
            "unreachable" | "abort" => return Ok(None),
            "float_to_int_unchecked" => self.cast(rustc_public::mir::CastKind::FloatToInt, args[0].clone(), c.args[0].1, dt, &env)?,
            _ => match base {
                "sqrt" => f1(self, FOp::Sqrt),
                "fabs" => f1(self, FOp::Abs),
                "floor" => f1(self, FOp::Floor),
                "ceil" => f1(self, FOp::Ceil),
                "trunc" => f1(self, FOp::Trunc),
                "round" => f1(self, FOp::Round),
                "rint" | "nearbyint" | "round_ties_even" => f1(self, FOp::RoundEven),
                "minnum" | "minimum" | "minimum_number_nsz_" | "minimum_number_nsz" => f2(self, FOp::Min),
                "maxnum" | "maximum" | "maximum_number_nsz_" | "maximum_number_nsz" => f2(self, FOp::Max),
                "fadd_fast" | "fadd_algebraic" => f2(self, FOp::Add),
                "fma" | "fmuladd" | "pow" | "powi" | "exp" | "log" | "sin" | "cos" | "copysign" | "exp2" | "log2" | "log10" => {
                    let t = args.iter().fold(0, |t, a| t | val_taint(a));
                    let b = self.ff(&args[0]).bits;
                    Val::F(ftop(b, t))
                }
                _ => {
                    if let Some(id) = self.intr_fallback {
                        if self.prog.body(id).is_some() {
                            return self.call_fn(id, args, st);
                        }
                    }
                    self.unknown.push(format!("intrinsic {}", n));
                    if self.lenient {
                        let t = args.iter().fold(0, |t, a| t | val_taint(a));
                        return Ok(Some(self.havoc(dt, t)));
                    }
                    return self.fatal(format!("intrinsic {}", n));
                }
            },
        };
        Ok(Some(v))
    }
    fn bitfun(&mut self, n: &str, x: &P, k: Option<P>, b: u32, e: &Env) -> Val {
        let t = poly_taint(x) | k.as_ref().map_or(0, |k| poly_taint(k));
        let hi = match n {
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => b as i128,
            _ => int_range(b, false).1,
        };
        let xc = simp(x, e).is_const();
        if let Some(c) = xc {
            let u = (c as u128) & (int_range(b, false).1 as u128);
            match n {
                "ctpop" => return iv(u.count_ones() as i128),
                "ctlz" | "ctlz_nonzero" => return iv(u.leading_zeros() as i128 - (128 - b as i128)),
                "cttz" | "cttz_nonzero" => return iv((u.trailing_zeros() as i128).min(b as i128)),
                _ => {}
            }
        }
        if let Some(mut bits) = bit_view(x, b, e, false) {
            while bits.len() < b as usize {
                bits.push(konst(0));
            }
            match n {
                "ctpop" => return Val::Int(bits.iter().fold(konst(0), |a, b| add(&a, b))),
                "bswap" => {
                    let mut r = vec![];
                    for j in (0..b / 8).rev() {
                        r.extend_from_slice(&bits[8 * j as usize..8 * j as usize + 8]);
                    }
                    return Val::Int(from_bits(&r));
                }
                "bitreverse" => {
                    bits.reverse();
                    return Val::Int(from_bits(&bits));
                }
                "rotate_left" | "rotate_right" => {
                    if let Some(k) = k.as_ref().and_then(|k| k.is_const()) {
                        let k = k.rem_euclid(b as i128) as usize;
                        if n == "rotate_left" {
                            bits.rotate_right(k);
                        } else {
                            bits.rotate_left(k);
                        }
                        return Val::Int(from_bits(&bits));
                    }
                }
                "cttz" | "cttz_nonzero" => {
                    let mut r = konst(b as i128);
                    for j in (0..b as usize).rev() {
                        r = ite_e(&bits[j], &konst(j as i128), &r, e);
                    }
                    return Val::Int(r);
                }
                "ctlz" | "ctlz_nonzero" => {
                    let mut r = konst(b as i128);
                    for j in 0..b as usize {
                        r = ite_e(&bits[j], &konst(b as i128 - 1 - j as i128), &r, e);
                    }
                    return Val::Int(r);
                }
                _ => {}
            }
        }
        Val::Int(fresh(AKind::Phi, 0, hi, t))
    }
    fn const_eval_select(&mut self, fr: &Fr, st: &mut State, c: &CallT, args: Vec<Val>, span: &str) -> R<Option<Val>> {
        // (tuple, const_fn, runtime_fn): take the runtime function
        let ft = self.prog.t(c.args[2].1).ty;
        use rustc_public::ty::{RigidTy, TyKind};
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = ft.kind() {
            if let Ok(i) = rustc_public::mir::mono::Instance::resolve(d, &a) {
                let f = self.prog.fn_id(i);
                let body = self.prog.body(f);
                if let Some(b) = body {
                    let mut av = vec![];
                    self.spread_pub(&b, args[0].clone(), &mut av, &st.env.clone())?;
                    let c2 = CallT { callee: Callee::Fn(f), args: vec![], dest: c.dest.clone(), target: c.target };
                    return self.call_named(fr, st, &c2, f, av, span);
                }
            }
        }
        self.fatal("const_eval_select".into())
    }
    /// library models
    fn model(&mut self, fr: &Fr, st: &mut State, c: &CallT, f: FnId, name: &str, krate: &str, args: &[Val], span: &str) -> R<Option<Option<Val>>> {
        let env = st.env.clone();
        let last = last_seg(name);
        let last = last.as_str();
        if krate == "libm" {
            let base = last.trim_end_matches('f');
            let v = match base {
                "round" => Some(FOp::Round),
                "trunc" => Some(FOp::Trunc),
                "sqrt" => Some(FOp::Sqrt),
                "floo" | "floor" => Some(FOp::Floor),
                "ceil" => Some(FOp::Ceil),
                "fabs" => Some(FOp::Abs),
                "rint" | "roundeven" => Some(FOp::RoundEven),
                "fmin" => Some(FOp::Min),
                "fmax" => Some(FOp::Max),
                _ => None,
            };
            if let Some(o) = v {
                let a: Vec<F> = args.iter().map(|a| self.ff(a)).collect();
                return Ok(Some(Some(Val::F(fop(o, a[0].bits, &a, &env)))));
            }
            if matches!(self.prog.t(c.dest.ty).kind, TK::Float(_)) {
                let t = args.iter().fold(0, |t, a| t | val_taint(a));
                return Ok(Some(Some(self.havoc(c.dest.ty, t))));
            }
        }
        if krate == "std" || krate == "core" || krate == "alloc" {
            // f32 methods with non-trivial bodies
            if (name.contains("f32") || name.contains("f64")) && matches!(self.prog.t(c.dest.ty).kind, TK::Float(_)) && args.iter().all(|a| matches!(a, Val::F(_))) && !args.is_empty() {
                let o = match last {
                    "min" => Some(FOp::Min),
                    "max" => Some(FOp::Max),
                    "abs" => Some(FOp::Abs),
                    "sqrt" => Some(FOp::Sqrt),
                    "floor" => Some(FOp::Floor),
                    "ceil" => Some(FOp::Ceil),
                    "trunc" => Some(FOp::Trunc),
                    "round" => Some(FOp::Round),
                    "round_ties_even" => Some(FOp::RoundEven),
                    _ => None,
                };
                if let Some(o) = o {
                    let a: Vec<F> = args.iter().map(|a| self.ff(a)).collect();
                    return Ok(Some(Some(Val::F(fop(o, a[0].bits, &a, &env)))));
                }
            }
            if last.starts_with("sort") && name.contains("slice") && name.contains("impl") {
                return self.model_sort(fr, st, c, args, span).map(Some);
            }
        }
        if (krate == "rayon" || krate == "rayon_core") && last == "for_each" {
            return self.model_par_for_each(fr, st, c, f, args, span).map(Some);
        }
        let _ = fr;
        Ok(None)
    }
    /// sorting: every element becomes the join of all elements (contents only, order forgotten)
    fn model_sort(&mut self, fr: &Fr, st: &mut State, c: &CallT, args: &[Val], span: &str) -> R<Option<Val>> {
        let Val::Ptr(p) = &args[0] else { return self.fatal("sort of unknown slice".into()) };
        let et = match &self.prog.t(c.args[0].1).kind {
            TK::Ptr { pointee, .. } => match &self.prog.t(*pointee).kind {
                TK::Slice { elem } => *elem,
                _ => return self.fatal("sort".into()),
            },
            _ => return self.fatal("sort".into()),
        };
        let env = st.env.clone();
        let es = self.prog.size(et) as i128;
        let n = simp(p.meta.as_ref().unwrap_or(&konst(0)), &env);
        let (_, nh) = range(&n, &env);
        let mut cap = nh;
        if p.reg < GLOB {
            if let (Some(o), Some(r)) = (simp(&p.off, &env).is_const(), &st.mem[p.reg]) {
                let end = r.cells.last().map_or(0, |c| (c.0 + c.1) as i128);
                cap = cap.min((end - o) / es.max(1));
            }
        }
        if cap > 4096 {
            return self.fatal("sort of unbounded slice".into());
        }
        let mut elems = vec![];
        for i in 0..cap {
            let q = self.shift_pub(&args[0], &konst(i * es), &env);
            elems.push(strip(self.load(st, &q, et)?));
        }
        if elems.is_empty() {
            return Ok(Some(unit()));
        }
        let tn = poly_taint(&n);
        let joined = self.join_vals(&elems, tn, &env);
        // the same elements sorted by the same function of two elements
        let key = if crate::flt::KEYED.with(|k| k.get()) {
            let which = if let Callee::Fn(f) = &c.callee { self.prog.fns[*f].inst.mangled_name() } else { String::new() };
            match (elems.iter().map(val_key).collect::<Option<Vec<_>>>(), args.get(1).map_or(Some(String::new()), val_key)) {
                (Some(e), Some(a)) if !which.is_empty() && a.len() < 3 => Some(format!("sorted|{}|{:?}|{}", which, n, e.join(","))),
                _ => None,
            }
        } else {
            None
        };
        for i in 0..cap {
            let q = self.shift_pub(&args[0], &konst(i * es), &env);
            let g = ge0(&addc(&n, -i - 1), &env);
            let v = match &key {
                Some(k) => self.refresh_as(&joined, &env, &format!("{}|{}", i, k)),
                None => self.refresh(&joined, &env),
            };
            let v = ite_val(&g, &v, &elems[i as usize], &env);
            self.store(st, &q, et, v, span)?;
        }
        // the comparator must be callable on any two elements
        if let (Some(Callee::Fn(_)), Some(_)) = (Some(&c.callee), args.get(1)) {
            self.call_comparator(fr, st, c, args, et, span)?;
        }
        Ok(Some(unit()))
    }
    fn call_comparator(&mut self, fr: &Fr, st: &mut State, c: &CallT, args: &[Val], et: TyId, span: &str) -> R<()> {
        use rustc_public::ty::{ClosureKind, GenericArgKind, RigidTy, TyKind};
        let Callee::Fn(f) = &c.callee else { return Ok(()) };
        let inst = self.prog.fns[*f].inst;
        let last = self.prog.fns[*f].name.rsplit("::").next().unwrap_or("").to_string();
        let cl = inst.args().0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).find(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Closure(..))));
        let Some(clt) = cl else { return Ok(()) };
        let TyKind::RigidTy(RigidTy::Closure(d, a)) = clt.kind() else { return Ok(()) };
        let Ok(ci) = rustc_public::mir::mono::Instance::resolve_closure(d, &a, ClosureKind::FnMut) else { return Ok(()) };
        let cf = self.prog.fn_id(ci);
        let base = st.mem.len();
        let rc = st.alloc();
        let ra = st.alloc();
        let rb = st.alloc();
        let env = st.env.clone();
        let csz = { let t = self.prog.ty(clt); self.prog.size(t) };
        Rc::make_mut(st.mem[rc].as_mut().unwrap()).put(0, csz, args[1].clone(), &env);
        let x = self.load(st, &strip_meta(args[0].clone()), et)?;
        let y = self.refresh(&x, &env);
        let es = self.prog.size(et);
        Rc::make_mut(st.mem[ra].as_mut().unwrap()).put(0, es, x, &env);
        Rc::make_mut(st.mem[rb].as_mut().unwrap()).put(0, es, y, &env);
        let tup = if last.contains("key") {
            vec![(0, 8, ptr(ra, konst(0), None))]
        } else {
            vec![(0, 8, ptr(ra, konst(0), None)), (8, 8, ptr(rb, konst(0), None))]
        };
        let mut s2 = st.clone();
        self.call_fn(cf, vec![ptr(rc, konst(0), None), Val::Agg(Rc::new(tup))], &mut s2)?;
        let _ = (fr, span);
        st.mem.truncate(base);
        Ok(())
    }
    /// the same copy of a joined value for the same key
    fn refresh_as(&mut self, v: &Val, e: &Env, key: &str) -> Val {
        match v {
            Val::Int(p) => match p.is_const() {
                Some(_) => v.clone(),
                None => {
                    let (l, h) = range(p, e);
                    Val::Int(if l == h { konst(l) } else { hc_base(format!("{}..{}|{}", l, h, key), AKind::Phi, l, h, poly_taint(p)) })
                }
            },
            Val::F(f) => match as_const(f) {
                Some(_) => v.clone(),
                None => {
                    let (l, h, n) = frange(f, e);
                    Val::F(opaque_of(|| key.to_string(), f.bits, l, h, n, f.taint))
                }
            },
            Val::Agg(c) => Val::Agg(Rc::new(c.iter().map(|c| (c.0, c.1, self.refresh_as(&c.2, e, &format!("{}+{}", c.0, key)))).collect())),
            v => v.clone(),
        }
    }
    /// fresh copies of a joined value
    pub fn refresh(&mut self, v: &Val, e: &Env) -> Val {
        match v {
            Val::Int(p) => match p.is_const() {
                Some(_) => v.clone(),
                None => {
                    let (l, h) = range(p, e);
                    Val::Int(fresh(AKind::Phi, l, h, poly_taint(p)))
                }
            },
            Val::F(f) => match as_const(f) {
                Some(_) => v.clone(),
                None => {
                    let (l, h, n) = frange(f, e);
                    Val::F(opaque(f.bits, l, h, n, f.taint))
                }
            },
            Val::Agg(c) => Val::Agg(Rc::new(c.iter().map(|c| (c.0, c.1, self.refresh(&c.2, e))).collect())),
            v => v.clone(),
        }
    }
    pub fn join_vals(&mut self, v: &[Val], taint: Taint, e: &Env) -> Val {
        if v.iter().all(|x| matches!(x, Val::Int(_))) {
            let (mut lo, mut hi, mut t) = (i128::MAX, i128::MIN, taint);
            for x in v {
                if let Val::Int(p) = x {
                    let (l, h) = range(p, e);
                    lo = lo.min(l);
                    hi = hi.max(h);
                    t |= poly_taint(p);
                }
            }
            return Val::Int(fresh(AKind::Phi, lo, hi, t));
        }
        if v.iter().all(|x| matches!(x, Val::F(_))) {
            let (mut lo, mut hi, mut n, mut t, mut bits) = (f64::INFINITY, f64::NEG_INFINITY, false, taint, 32);
            for x in v {
                if let Val::F(f) = x {
                    let (l, h, nn) = frange(f, e);
                    lo = lo.min(l);
                    hi = hi.max(h);
                    n |= nn;
                    t |= f.taint;
                    bits = f.bits;
                }
            }
            return Val::F(opaque(bits, lo, hi, n, t));
        }
        if let Val::Agg(a0) = &v[0] {
            let shape: Vec<(u64, u64)> = a0.iter().map(|c| (c.0, c.1)).collect();
            if v.iter().all(|x| matches!(x, Val::Agg(a) if a.len() == shape.len() && a.iter().zip(&shape).all(|(c, s)| (c.0, c.1) == *s))) {
                let mut cs = vec![];
                for (i, (o, s)) in shape.iter().enumerate() {
                    let col: Vec<Val> = v.iter().map(|x| if let Val::Agg(a) = x { a[i].2.clone() } else { unreachable!() }).collect();
                    cs.push((*o, *s, self.join_vals(&col, taint, e)));
                }
                return Val::Agg(Rc::new(cs));
            }
        }
        Val::Top(v.iter().fold(taint, |t, x| t | val_taint(x)))
    }
    /// parallel iteration: the closure runs once per item, for an arbitrary item index
    fn model_par_for_each(&mut self, fr: &Fr, st: &mut State, c: &CallT, f: FnId, args: &[Val], span: &str) -> R<Option<Val>> {
        use rustc_public::ty::{ClosureKind, RigidTy, TyKind};
        let it_ty = c.args[0].1;
        let n = fresh(AKind::Phi, 0, 1 << 62, 0);
        let mut s2 = st.clone();
        let item = self.par_item(&mut s2, &args[0], it_ty, &n)?;
        let clt = self.prog.t(c.args[1].1).ty;
        let TyKind::RigidTy(RigidTy::Closure(d, a)) = clt.kind() else { return self.fatal("parallel for_each without closure".into()) };
        let Ok(ci) = rustc_public::mir::mono::Instance::resolve_closure(d, &a, ClosureKind::Fn) else { return self.fatal("closure".into()) };
        let cf = self.prog.fn_id(ci);
        let rc = s2.alloc();
        let env = s2.env.clone();
        let csz = self.prog.size(c.args[1].1);
        Rc::make_mut(s2.mem[rc].as_mut().unwrap()).put(0, csz, args[1].clone(), &env);
        let isz = 64;
        let _ = isz;
        let tup = match item {
            Val::Agg(c) => Val::Agg(c),
            v => Val::Agg(Rc::new(vec![(0, if matches!(&v, Val::Ptr(p) if p.meta.is_some()) { 16 } else { 8 }, v)])),
        };
        if !s2.env.dead {
            // does the closure take self by reference or by value?
            let body = self.prog.body(cf);
            let by_ref = body.as_ref().map_or(true, |b| matches!(self.prog.t(b.locals[1]).kind, TK::Ptr { .. }));
            let selfv = if by_ref { ptr(rc, konst(0), None) } else { args[1].clone() };
            let before: Vec<_> = s2.mem[..st.mem.len()].to_vec();
            self.call_fn(cf, vec![selfv, tup], &mut s2)?;
            for (k, b) in before.iter().enumerate() {
                let same = match (b, &s2.mem[k]) {
                    (Some(a), Some(b)) => Rc::ptr_eq(a, b) || a.cells.len() == b.cells.len() && a.cells.iter().zip(b.cells.iter()).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && same_val(&x.2, &y.2)),
                    (None, None) => true,
                    _ => false,
                };
                if !same && !s2.env.dead {
                    return self.fatal("parallel closure changes shared local memory".into());
                }
            }
        }
        let _ = (fr, f, span);
        Ok(Some(unit()))
    }
    fn par_item(&mut self, st: &mut State, v: &Val, t: TyId, n: &P) -> R<Val> {
        let name = self.prog.t(t).name.clone();
        let head = name.split('<').next().unwrap_or("").rsplit("::").next().unwrap_or("").to_string();
        let TK::Agg { variants, names: _, .. } = self.prog.t(t).kind.clone() else { return self.fatal(format!("parallel iterator {}", name)) };
        let fields = variants[0].clone();
        let rs = st.alloc();
        let sz = self.prog.size(t);
        let env = st.env.clone();
        Rc::make_mut(st.mem[rs].as_mut().unwrap()).put(0, sz, v.clone(), &env);
        let mut fv = vec![];
        for (o, ft) in &fields {
            let x = self.load(st, &ptr(rs, konst(*o as i128), None), *ft)?;
            fv.push((x, *ft));
        }
        match head.as_str() {
            "Enumerate" => {
                let inner = self.par_item(st, &fv[0].0, fv[0].1, n)?;
                let mut cs: Vec<Cell> = vec![(0, 8, Val::Int(n.clone()))];
                match inner {
                    Val::Ptr(p) => cs.push((8, if p.meta.is_some() { 16 } else { 8 }, Val::Ptr(p))),
                    _ => return self.fatal("enumerate of non-pointer items".into()),
                }
                // item tuple is passed as a single argument
                Ok(Val::Agg(Rc::new(cs)))
            }
            "ChunksMut" | "Chunks" | "ChunksExact" | "ChunksExactMut" => {
                let mut slice = None;
                let mut size = None;
                for (x, ft) in &fv {
                    match (&self.prog.t(*ft).kind, x) {
                        (TK::Ptr { fat: Fat::Slice, pointee }, Val::Ptr(p)) => {
                            if slice.is_none() {
                                slice = Some((p.clone(), *pointee));
                            }
                        }
                        (TK::Int { .. }, Val::Int(p)) => size = Some(p.clone()),
                        _ => {}
                    }
                }
                let (Some((p, pt)), Some(cs)) = (slice, size) else { return self.fatal("parallel chunks".into()) };
                let es = match &self.prog.t(pt).kind {
                    TK::Slice { elem } => self.prog.size(*elem) as i128,
                    _ => 1,
                };
                let len = p.meta.clone().unwrap_or(konst(0));
                let start = mul(&cs, n);
                // exists iff start < len  (exact: start + cs <= len)
                let exact = head.contains("Exact");
                let g = if exact { ge0(&sub(&len, &add(&start, &cs)), &st.env) } else { ge0(&addc(&sub(&len, &start), -1), &st.env) };
                st.cond(&g);
                let env = st.env.clone();
                let m = if exact { cs.clone() } else { min2(&cs, &sub(&len, &start), &env) };
                Ok(ptr(p.reg, add(&p.off, &scale(&start, es)), Some(m)))
            }
            _ => self.fatal(format!("parallel iterator {}", name)),
        }
    }
}
/// the last path segment of a (possibly generic) function name
pub fn last_seg(n: &str) -> String {
    let mut o = String::new();
    let mut d = 0;
    let mut prev = ' ';
    for c in n.chars() {
        match c {
            '<' => d += 1,
            '>' if prev != '-' => d -= 1,
            c if d == 0 => o.push(c),
            _ => {}
        }
        prev = c;
    }
    o.trim_end_matches(':').rsplit("::").next().unwrap_or("").to_string()
}
fn strip(v: Val) -> Val {
    v
}
fn div_exact(d: &P, s: i128, e: &Env) -> P {
    if d.c % s == 0 && d.ts.iter().all(|t| t.1 % s == 0) {
        return Rc::new(Poly { c: d.c / s, ts: d.ts.iter().map(|t| (t.0, t.1 / s)).collect() });
    }
    div_const(d, s, e)
}
impl Cx {
    pub fn shift_pub(&self, v: &Val, d: &P, e: &Env) -> Val {
        match v {
            Val::Ptr(p) => Val::Ptr(Rc::new(Pv { reg: p.reg, off: simp(&add(&p.off, d), e), meta: p.meta.clone(), nn: p.nn.clone() })),
            Val::Alt(c, x) => Val::Alt(c.clone(), Rc::new((self.shift_pub(&x.0, d, e), self.shift_pub(&x.1, d, e)))),
            Val::Int(p) => ptr(NONE, add(p, d), None),
            Val::Agg(c) if c.len() == 1 => self.shift_pub(&c[0].2, d, e),
            v => v.clone(),
        }
    }
    pub fn meta_pub(&self, v: &Val, e: &Env) -> Option<P> {
        match v {
            Val::Ptr(p) => p.meta.clone(),
            Val::Alt(c, x) => match (self.meta_pub(&x.0, e), self.meta_pub(&x.1, e)) {
                (Some(a), Some(b)) => Some(ite_e(c, &a, &b, e)),
                (a, b) => a.or(b),
            },
            Val::Agg(c) if c.len() == 1 => self.meta_pub(&c[0].2, e),
            _ => None,
        }
    }
    fn with_meta(&self, v: &Val, m: Option<P>) -> Val {
        match v {
            Val::Ptr(p) => Val::Ptr(Rc::new(Pv { meta: m, ..(**p).clone() })),
            Val::Alt(c, x) => Val::Alt(c.clone(), Rc::new((self.with_meta(&x.0, m.clone()), self.with_meta(&x.1, m)))),
            Val::Int(p) => ptr(NONE, p.clone(), m),
            Val::Agg(c) if c.len() == 1 => self.with_meta(&c[0].2, m),
            v => v.clone(),
        }
    }
}
