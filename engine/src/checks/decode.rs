//! Block decoding against the published block layouts.
use super::*;

pub fn tasks() -> Vec<Task> {
    vec![("decode_colour", colour), ("decode_bc2_alpha", bc2_alpha), ("decode_gradient", gradient), ("decode_layout", layout), ("decode_total", total)]
}
pub struct Dec {
    pub cx: Cx,
    pub s: usize,
    pub out: Vec<P>,
}
/// interpret decompress_block on a fully symbolic block
pub fn decode(r: &mut Rep, fmt: usize) -> Option<Dec> {
    let mut cx = Cx::new();
    let f = entry(&mut cx, r, "decompress_block")?;
    let len = input("len", BS[fmt], 1 << 40, 0);
    let (s, p) = sym(&mut cx, "block", true, 0, false, len);
    let mut st = State::new();
    let v = go(&mut cx, r, &format!("{} block decode", FMT[fmt]), f, vec![iv(fmt as i128), p], &mut st)?;
    let Some(v) = v else {
        r.fail("never", format!("{} block decode never returns", FMT[fmt]));
        return None;
    };
    let Some(out) = agg_bytes(&v, 64) else {
        r.fail("shape", format!("{} block decode: result is not 16 pixels of 4 bytes", FMT[fmt]));
        return None;
    };
    r.stats(&cx);
    Some(Dec { cx, s, out })
}
fn pin(e: &mut Env, b: &P, v: i128) {
    assume(b, v == 1, e);
}
/// the 5-6-5 endpoint at byte k, expanded to 8 bits per channel, and as a 16-bit number
fn endpoint(cx: &mut Cx, s: usize, k: i128) -> ([P; 3], P) {
    let mut b = byte_bits(cx, s, k);
    b.extend(byte_bits(cx, s, k + 1));
    let ex = |lo: usize, n: usize| -> P {
        // replicate the top bits into the low ones
        let f = &b[lo..lo + n];
        let mut o: Vec<P> = vec![];
        for j in 0..8 - n {
            o.push(f[n - (8 - n) + j].clone());
        }
        o.extend_from_slice(f);
        from_bits(&o)
    };
    ([ex(11, 5), ex(5, 6), ex(0, 5)], from_bits(&b))
}
fn colour(r: &mut Rep, _: &str) {
    for fmt in 0..3 {
        let Some(mut d) = decode(r, fmt) else { continue };
        let o = if fmt == 0 { 0 } else { 8 };
        let (ca, a) = endpoint(&mut d.cx, d.s, o);
        let (cb, b) = endpoint(&mut d.cx, d.s, o + 2);
        let e0 = Env::default();
        let gt = ge0(&addc(&sub(&a, &b), -1), &e0);
        for i in 0..16usize {
            let ix = byte_bits(&mut d.cx, d.s, o + 4 + (i / 4) as i128);
            let (b0, b1) = (&ix[2 * (i % 4)], &ix[2 * (i % 4) + 1]);
            for code in 0..4 {
                for g in if fmt == 0 { vec![true, false] } else { vec![true] } {
                    let mut e = Env::default();
                    pin(&mut e, b0, code & 1);
                    pin(&mut e, b1, code >> 1);
                    if fmt == 0 {
                        assume(&gt, g, &mut e);
                    }
                    for ch in 0..3 {
                        let want = match (code, g) {
                            (0, _) => ca[ch].clone(),
                            (1, _) => cb[ch].clone(),
                            (2, true) => div_const(&add(&scale(&ca[ch], 2), &cb[ch]), 3, &e0),
                            (3, true) => div_const(&add(&ca[ch], &scale(&cb[ch], 2)), 3, &e0),
                            (2, false) => div_const(&add(&ca[ch], &cb[ch]), 2, &e0),
                            _ => konst(0),
                        };
                        r.check(equal(&d.out[4 * i + ch], &want, &e, 8), &format!("{}|code{}|{}", FMT[fmt], code, if g { "four" } else { "three" }), || {
                            format!("{} pixel {} channel {} with palette index {} ({}-colour mode): decoded value is not the palette colour of the format; got {}", FMT[fmt], i, ch, code, if g { "four" } else { "three" }, show(&simp(&d.out[4 * i + ch], &e)))
                        });
                    }
                    if fmt == 0 {
                        let want = if code == 3 && !g { 0 } else { 255 };
                        r.check(equal(&d.out[4 * i + 3], &konst(want), &e, 8), &format!("BC1|alpha|code{}|{}", code, if g { "four" } else { "three" }), || format!("BC1 pixel {} index {}: alpha is not {}", i, code, want));
                    }
                }
            }
        }
    }
}
fn bc2_alpha(r: &mut Rep, _: &str) {
    let Some(mut d) = decode(r, 1) else { return };
    for i in 0..16usize {
        let b = byte_bits(&mut d.cx, d.s, (i / 2) as i128);
        let n = from_bits(&b[4 * (i % 2)..4 * (i % 2) + 4]);
        r.check(equal(&d.out[4 * i + 3], &scale(&n, 17), &Env::default(), 8), &format!("BC2|alpha|{}", i), || format!("BC2 pixel {}: alpha is not its 4-bit value scaled by 17: {}", i, show(&d.out[4 * i + 3])));
    }
}
/// the interpolated 8-byte block at `o` drives `ch`
fn grad_block(r: &mut Rep, d: &mut Dec, fmt: usize, o: i128, ch: usize) {
    let e0 = Env::default();
    let a = d.cx.sym_byte(d.s, &konst(o));
    let b = d.cx.sym_byte(d.s, &konst(o + 1));
    let gt = ge0(&addc(&sub(&a, &b), -1), &e0);
    let mut ib = vec![];
    for k in 2..8 {
        ib.extend(byte_bits(&mut d.cx, d.s, o + k));
    }
    for i in 0..16usize {
        for code in 0..8i128 {
            for g in [true, false] {
                let mut e = Env::default();
                for k in 0..3 {
                    pin(&mut e, &ib[3 * i + k], (code >> k) & 1);
                }
                assume(&gt, g, &mut e);
                let want = match (code, g) {
                    (0, _) => a.clone(),
                    (1, _) => b.clone(),
                    (k, true) => div_const(&add(&scale(&a, 8 - k), &scale(&b, k - 1)), 7, &e0),
                    (6, false) => konst(0),
                    (7, false) => konst(255),
                    (k, false) => div_const(&add(&scale(&a, 6 - k), &scale(&b, k - 1)), 5, &e0),
                };
                r.check(equal(&d.out[4 * i + ch], &want, &e, 8), &format!("{}|ch{}|code{}|{}", FMT[fmt], ch, code, g), || {
                    format!("{} pixel {} channel {} index {} ({} endpoints): decoded value is not the ramp value of the format; got {}", FMT[fmt], i, ch, code, if g { "descending" } else { "ascending" }, show(&simp(&d.out[4 * i + ch], &e)))
                });
            }
        }
    }
}
fn gradient(r: &mut Rep, _: &str) {
    for fmt in 2..5 {
        let Some(mut d) = decode(r, fmt) else { continue };
        match fmt {
            2 => grad_block(r, &mut d, fmt, 0, 3),
            3 => grad_block(r, &mut d, fmt, 0, 0),
            _ => {
                grad_block(r, &mut d, fmt, 0, 0);
                grad_block(r, &mut d, fmt, 8, 1);
            }
        }
    }
}
fn layout(r: &mut Rep, _: &str) {
    let e0 = Env::default();
    for fmt in 0..5 {
        let Some(d) = decode(r, fmt) else { continue };
        for i in 0..16usize {
            let px = &d.out[4 * i..4 * i + 4];
            if fmt == 3 {
                r.check(equal(&px[1], &px[0], &e0, 8) && equal(&px[2], &px[0], &e0, 8), "BC4|splat", || format!("BC4 pixel {}: green/blue are not the red value", i));
            }
            if fmt == 4 {
                r.check(equal(&px[2], &konst(0), &e0, 8), "BC5|blue", || format!("BC5 pixel {}: blue is not 0", i));
            }
            if fmt >= 3 {
                r.check(equal(&px[3], &konst(255), &e0, 8), &format!("{}|alpha", FMT[fmt]), || format!("{} pixel {}: alpha is not 255", FMT[fmt], i));
            }
            // independence of the two halves
            if fmt == 1 || fmt == 2 {
                for ch in 0..4 {
                    let lo = if ch < 3 { 8 } else { 0 };
                    let ok = deps(&px[ch]).iter().all(|o| *o >= lo && *o < lo + 8);
                    r.check(ok, &format!("{}|halves|{}", FMT[fmt], ch), || format!("{} pixel {} channel {} reads bytes of the other half of the block", FMT[fmt], i, ch));
                }
            }
        }
    }
}
/// byte offsets of the block a value depends on
fn deps(p: &P) -> Vec<i128> {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut q = p.atoms();
    while let Some(a) = q.pop() {
        if !seen.insert(a) {
            continue;
        }
        let k = atom_kind(a);
        match &k {
            AKind::Op(n, v) if n.starts_with("block.") && v.len() == 1 => {
                out.push(v[0].is_const().unwrap_or(-1));
                continue;
            }
            AKind::Sel(_, o) => {
                out.push(o.is_const().unwrap_or(-1));
                continue;
            }
            _ => {}
        }
        let (x, f) = kind_children(&k);
        q.extend(x);
        if !f.is_empty() {
            out.push(-1);
        }
    }
    out
}
fn total(r: &mut Rep, _: &str) {
    for fmt in 0..5 {
        if let Some(d) = decode(r, fmt) {
            r.obligations(&d.cx, &format!("{} block decode", FMT[fmt]));
        }
    }
}
