//! Rules: what has to hold of the value graph, and the reports.
use crate::interp::*;
use crate::ir::*;
use crate::poly::*;
use crate::prove::*;
use rustc_public::CrateDef;
use std::rc::Rc;

mod cli;
mod decode;
mod encode;
mod image;
mod pure;

#[derive(Default)]
pub struct Rep {
    pub task: String,
    /// (stable key, explanation)
    pub fails: Vec<(String, String)>,
    pub proved: u64,
    pub counts: Vec<(String, u64)>,
    pub notes: Vec<String>,
}
impl Rep {
    pub fn fail(&mut self, key: &str, text: String) {
        if self.fails.len() < 200 {
            let mut t = text;
            if t.len() > 1500 {
                let mut k = 1500;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
            }
            self.fails.push((key.to_string(), t));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, text: impl FnOnce() -> String) {
        if ok {
            self.proved += 1;
        } else {
            self.fail(key, text());
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counts.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 += n,
            None => self.counts.push((k.to_string(), n)),
        }
    }
    /// statistics of an analysis run
    pub fn stats(&mut self, cx: &Cx) {
        self.count("functions analysed", cx.fn_seen.len() as u64);
        self.count("basic blocks visited", cx.blocks.len() as u64);
        self.count("call sites resolved", cx.calls.values().sum());
        self.count("control-flow joins", cx.merges);
        self.count("statements interpreted", cx.steps);
        let mut f: Vec<&String> = cx.fn_seen.keys().filter(|n| n.contains("texpresso") || !n.contains("::")).collect();
        f.truncate(40);
        let n = format!("functions: {}", f.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(", "));
        if !self.notes.contains(&n) {
            self.notes.push(n);
        }
    }
    /// every recorded obligation (bounds, overflow, unreachable panics) must hold
    pub fn obligations(&mut self, cx: &Cx, what: &str) {
        for o in &cx.obs {
            if o.ok {
                self.proved += 1;
            } else {
                self.fail(&format!("panic|{}|{}", short(&o.func), o.what), format!("{}: {} in {} at {}: {}", what, o.what, o.func, o.span, o.detail));
            }
        }
        self.count("panic obligations", cx.obs.len() as u64);
    }
}
pub fn short(n: &str) -> String {
    n.to_string()
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl Rep {
    fn json(&self, wall: f64) -> String {
        format!(
            "{{\"task\":{},\"proved\":{},\"wall\":{:.3},\"fails\":[{}],\"counts\":{{{}}},\"notes\":[{}]}}",
            esc(&self.task),
            self.proved,
            wall,
            self.fails.iter().map(|f| format!("[{},{}]", esc(&f.0), esc(&f.1))).collect::<Vec<_>>().join(","),
            self.counts.iter().map(|f| format!("{}:{}", esc(&f.0), f.1)).collect::<Vec<_>>().join(","),
            self.notes.iter().map(|f| esc(f)).collect::<Vec<_>>().join(",")
        )
    }
}

/// a local item by predicate on its path
pub fn find_all(cx: &mut Cx, pred: &dyn Fn(&str) -> bool) -> Vec<(String, FnId)> {
    let mut out = vec![];
    for it in rustc_public::all_local_items() {
        if pred(&it.name()) {
            if let Ok(i) = rustc_public::mir::mono::Instance::try_from(it) {
                out.push((it.name(), cx.prog.fn_id(i)));
            }
        }
    }
    out
}
/// the public entry point with this path suffix
pub fn entry(cx: &mut Cx, r: &mut Rep, suffix: &str) -> Option<FnId> {
    let s = suffix.to_string();
    let v = find_all(cx, &|n| {
        let n = strip_generics(n);
        (n.ends_with(&format!("::{}", s)) || n == s) && !n.contains("{closure")
    });
    let v: Vec<_> = v.into_iter().filter(|x| !x.0.contains("::tests::")).collect();
    if v.len() == 1 {
        return Some(v[0].1);
    }
    // prefer the inherent method of the format type
    let w: Vec<_> = v.iter().filter(|x| strip_generics(&x.0).ends_with(&format!("Format::{}", s))).collect();
    if w.len() == 1 {
        return Some(w[0].1);
    }
    r.fail(&format!("anchor|{}", suffix), format!("public entry point `{}` not found ({} candidates)", suffix, v.len()));
    None
}
fn strip_generics(n: &str) -> String {
    let mut o = String::new();
    let mut d = 0;
    for c in n.chars() {
        match c {
            '<' => d += 1,
            '>' => d -= 1,
            c if d == 0 => o.push(c),
            _ => {}
        }
    }
    o
}
pub fn ipv(v: &Val) -> Option<P> {
    match v {
        Val::Int(p) => Some(p.clone()),
        Val::Agg(c) if c.len() == 1 => ipv(&c[0].2),
        _ => None,
    }
}
pub const FMT: [&str; 5] = ["BC1", "BC2", "BC3", "BC4", "BC5"];
pub const BS: [i128; 5] = [8, 16, 16, 8, 16];

type Task = (&'static str, fn(&mut Rep, &str));
fn tasks() -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    v.extend(decode::tasks());
    v.extend(image::tasks());
    v.extend(encode::tasks());
    v.extend(pure::tasks());
    v.extend(cli::tasks());
    v
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn kill(p: i32, s: i32) -> i32;
}

fn run_task(name: &str, out: &str) -> bool {
    let t0 = std::time::Instant::now();
    let (base, arg) = name.split_once(':').unwrap_or((name, ""));
    let mut r = Rep { task: name.to_string(), ..Default::default() };
    match tasks().into_iter().find(|t| t.0 == base) {
        Some(t) => t.1(&mut r, arg),
        None => r.fail("task", format!("unknown task {}", name)),
    }
    let f = format!("{}/{}.json", out, name.replace([':', '/'], "_"));
    std::fs::write(f.clone() + ".new", r.json(t0.elapsed().as_secs_f64())).unwrap();
    std::fs::rename(f.clone() + ".new", &f).unwrap();
    r.fails.is_empty()
}

pub fn main() {
    let list = std::env::var("TXA_TASKS").unwrap_or_default();
    let out = std::env::var("TXA_OUT").unwrap_or_else(|_| "/tmp".into());
    let jobs: usize = std::env::var("TXA_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit: u32 = std::env::var("TXA_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
    let names: Vec<&str> = list.split(',').filter(|s| !s.is_empty()).collect();
    if jobs == 0 {
        for n in names {
            run_task(n, &out);
        }
        return;
    }
    // all tasks together have a deadline; on request, nothing more is analysed after the first violation
    let budget: u64 = std::env::var("TXA_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(100_000);
    let stop = std::env::var("TXA_STOP").is_ok();
    let t0 = std::time::Instant::now();
    let mut live: Vec<i32> = vec![];
    let mut names = names.into_iter();
    let mut over = false;
    loop {
        while !over && live.len() < jobs {
            let Some(n) = names.next() else { break };
            let left = budget.saturating_sub(t0.elapsed().as_secs()).max(1).min(limit as u64) as u32;
            unsafe {
                let p = fork();
                if p == 0 {
                    alarm(left);
                    let ok = run_task(n, &out);
                    _exit(if ok { 0 } else { 1 });
                }
                live.push(p);
            }
        }
        if live.is_empty() {
            break;
        }
        let mut status = 0i32;
        let p = unsafe { waitpid(-1, &mut status, 0) };
        live.retain(|x| *x != p);
        if status != 0 && stop && !over {
            over = true;
            for p in &live {
                unsafe { kill(*p, 9) };
            }
        }
    }
}

/// run an entry point; analysis failures become findings (fail closed)
pub fn go(cx: &mut Cx, r: &mut Rep, what: &str, f: FnId, args: Vec<Val>, st: &mut State) -> Option<Option<Val>> {
    match cx.call_fn(f, args, st) {
        Ok(v) => Some(v),
        Err(Stop::Fatal(m)) => {
            r.fail(&format!("undecided|{}", what), format!("{}: analysis could not follow the code: {}", what, m));
            None
        }
    }
}
pub fn sym(cx: &mut Cx, name: &str, bits: bool, taint: Taint, writable: bool, len: P) -> (usize, Val) {
    let b = cx.new_sym(name, bits, taint, writable);
    (b - SYM, ptr(b, konst(0), Some(len)))
}
/// bits of byte k of a symbolic buffer
pub fn byte_bits(cx: &mut Cx, s: usize, k: i128) -> Vec<P> {
    let p = cx.sym_byte(s, &konst(k));
    bit_view(&p, 8, &Env::default(), false).expect("bits")
}
/// flatten an aggregate to its byte values
pub fn agg_bytes(v: &Val, n: u64) -> Option<Vec<P>> {
    let Val::Agg(c) = v else { return None };
    let mut reg = Region::new();
    reg.cells = c.to_vec();
    let mut out = vec![];
    for i in 0..n {
        let w = reg.window(i, 1, &Env::default());
        if w.len() != 1 || w[0].1 != 1 {
            return None;
        }
        out.push(ipv(&w[0].2)?);
    }
    Some(out)
}
pub fn rc_env(e: &Env) -> Rc<Env> {
    Rc::new(e.clone())
}
#[allow(unused)]
fn unused(p: &P, e: &Env) -> bool {
    prove(p, e, 1)
}
