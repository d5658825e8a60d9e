//! The command-line tool: what every run of `main` hands to the codec, the file formats and the
//! operating system. Each rule quantifies over all paths of `main` (every option set, file content
//! and failure of a library or system call).
use super::Rep;
use crate::term::*;
use rustc_public::mir::mono::Instance;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn tasks() -> Vec<super::Task> {
    vec![("cli_dump", dump), ("cli_options", options), ("cli_dds", dds), ("cli_decompress", decompress), ("cli_images", images), ("cli_errors", errors), ("cli_paths", outputs)]
}
pub struct Cli {
    tx: Tx,
    paths: Vec<Path>,
    parse: R,
    /// (command, role) to the variant and field that hold the option
    place: BTreeMap<(String, String), (usize, usize)>,
    /// command to variant
    cmds: BTreeMap<String, usize>,
    /// command to its arguments
    args: BTreeMap<String, Vec<Arg>>,
    /// per value type, the spellings and the values they select
    values: Vec<Vec<(String, i128)>>,
}
#[derive(Clone, Debug, Default)]
struct Arg {
    id: String,
    role: String,
    set: Vec<(String, R)>,
}
/// the options the argument parser is built with, and where each of them ends up
fn interface(r: &mut Rep, c: &mut Cli) -> bool {
    let (mut aug, mut from) = (None, None);
    for it in rustc_public::all_local_items() {
        let n = norm(&it.name());
        if n.ends_with(" as Subcommand::augment_subcommands") {
            aug = Instance::try_from(it).ok();
        } else if n.ends_with(" as FromArgMatches::from_arg_matches_mut") {
            from = Instance::try_from(it).ok();
        }
    }
    let (Some(aug), Some(from)) = (aug, from) else {
        r.fail("anchor|interface", "no derived argument parser found".into());
        return false;
    };
    let st = |o: &[R]| St { objs: o.to_vec(), cons: vec![], evs: vec![] };
    let built = c.tx.run(aug, vec![Rc::new(T::Sym("app".into()))], st(&[]));
    let read = c.tx.run(from, vec![Rc::new(T::Ref(0, vec![]))], st(&[Rc::new(T::Sym("matches".into()))]));
    if let Some(e) = &c.tx.err {
        r.fail("undecided|interface", format!("the argument parser could not be followed: {}", e));
        return false;
    }
    if built.len() != 1 {
        r.fail("undecided|interface", "the argument parser is built in more than one way".into());
        return false;
    }
    fn chain(t: &R, ty: &str) -> Vec<(String, Vec<R>)> {
        let mut out = vec![];
        let mut t = t.clone();
        while let T::Call(_, n, a) = &*t.clone() {
            let Some(m) = n.strip_prefix(&format!("{}::", ty)) else { break };
            out.push((m.to_string(), a.clone()));
            let Some(x) = a.first() else { break };
            t = x.clone();
        }
        out.reverse();
        out
    }
    for (m, a) in chain(&built[0].1, "Command") {
        match m.as_str() {
            "subcommand" => {
                let cmd = chain(&a[1], "Command");
                let name = cmd.iter().find(|x| x.0 == "new").and_then(|x| strings(&x.1[0]).first().cloned()).unwrap_or_default();
                let mut args = vec![];
                for (m, a) in &cmd {
                    match m.as_str() {
                        "arg" => {
                            let ch = chain(&a[1], "Arg");
                            let mut x = Arg::default();
                            for (m, a) in ch {
                                if m == "new" {
                                    x.id = strings(&a[0]).first().cloned().unwrap_or_default();
                                } else if let Some(v) = a.get(1) {
                                    x.set.push((m, v.clone()));
                                }
                            }
                            let long = x.set.iter().find(|s| s.0 == "long").and_then(|s| strings(&s.1).first().cloned());
                            let short = x.set.iter().any(|s| s.0 == "short");
                            x.role = long.unwrap_or(if short { "?".into() } else { "INFILE".into() });
                            args.push(x);
                        }
                        "new" | "group" | "about" | "long_about" | "version" | "after_help" | "before_help" => {}
                        m => r.fail(&format!("interface|{}", m), format!("the {} command is set up with {}", name, m)),
                    }
                }
                c.args.insert(name, args);
            }
            "new" | "about" | "long_about" | "version" | "author" => {}
            m => r.fail(&format!("interface|{}", m), format!("the argument parser is set up with {}", m)),
        }
    }
    for (s, v) in &read {
        let T::Agg(n, 0, x) = &**v else { continue };
        let T::Agg(_, var, f) = &*x[0] else { continue };
        if &**n != "Result" {
            continue;
        }
        // the sub-command this is read for
        let name = s.cons.iter().find_map(|(t, eq, v)| match &**t {
            T::Call(0, n, a) if n.ends_with("eq") && a.len() == 2 && (*v == 1) == *eq => a.iter().find_map(|x| match &**x {
                T::Str(s) => Some(s.to_string()),
                _ => None,
            }),
            _ => None,
        });
        let Some(name) = name else { continue };
        c.cmds.insert(name.clone(), *var);
        for (i, t) in f.iter().enumerate() {
            fn id(t: &R) -> Option<String> {
                match &**t {
                    T::Call(_, n, a) if n.starts_with("ArgMatches::remove_") || n.starts_with("ArgMatches::get_") => match &**a.get(1)? {
                        T::Str(s) => Some(s.to_string()),
                        _ => None,
                    },
                    T::Call(_, _, a) => a.first().and_then(id),
                    T::Fld(x, ..) | T::Out(x, _) => id(x),
                    _ => None,
                }
            }
            if let Some(id) = id(t) {
                for a in c.args.get(&name).into_iter().flatten().filter(|a| a.id == id) {
                    c.place.insert((name.clone(), a.role.clone()), (*var, i));
                }
            }
        }
    }
    true
}
fn load(r: &mut Rep) -> Option<Cli> {
    let mut tx = Tx::new();
    let Some(main) = rustc_public::entry_fn() else {
        r.fail("anchor|main", "no main function".into());
        return None;
    };
    let Ok(inst) = Instance::try_from(main) else {
        r.fail("anchor|main", "main cannot be resolved".into());
        return None;
    };
    let st = St { objs: vec![], cons: vec![], evs: vec![] };
    let rets = tx.run(inst, vec![], st);
    let mut v: Vec<Path> = std::mem::take(&mut tx.ended);
    v.extend(rets.into_iter().map(|(st, x)| Path { st, end: End::Return(x) }));
    if let Some(e) = &tx.err {
        r.fail("undecided|main", format!("analysis could not follow the code: {}", e));
        return None;
    }
    let parse = v.iter().flat_map(|p| p.st.evs.iter()).find(|e| e.name.ends_with("Parser::parse")).map(|e| e.term.clone());
    let Some(parse) = parse else {
        r.fail("anchor|parse", "the argument parser is not called".into());
        return None;
    };
    r.count("paths of main", v.len() as u64);
    r.count("functions entered", tx.seen.len() as u64);
    r.count("calls followed", tx.calls);
    r.notes.push(format!("calls kept as symbols: {}", tx.opaque.keys().cloned().collect::<Vec<_>>().join(", ")));
    let mut c = Cli { tx, paths: v, parse, place: BTreeMap::new(), cmds: BTreeMap::new(), args: BTreeMap::new(), values: vec![] };
    if !interface(r, &mut c) {
        return None;
    }
    Some(c)
}
/// did the run end successfully
fn success(p: &Path) -> bool {
    fn num(t: &R) -> Option<i128> {
        match &**t {
            T::Int(c) => Some(*c),
            T::Agg(_, _, f) if f.len() == 1 => num(&f[0]),
            _ => None,
        }
    }
    match &p.end {
        End::Panic(_) => false,
        End::Exit(c) => num(c) == Some(0) || num(c).is_none(),
        End::Return(x) => match &**x {
            T::Agg(n, v, _) if &**n == "Result" => *v == 0,
            T::Agg(n, _, _) if &**n == "ExitCode" => num(x) == Some(0) || num(x).is_none(),
            _ => true,
        },
    }
}
fn known(p: &Path, t: &R) -> Option<i128> {
    if let T::Int(c) = &**t {
        return Some(*c);
    }
    Tx::known(&p.st, t).0
}
fn tag(t: &R) -> R {
    Rc::new(T::Discr(t.clone()))
}
fn fld(t: &R, v: usize, i: usize) -> R {
    match &**t {
        T::Agg(_, w, f) if (v == NOV || v == *w) && i < f.len() => f[i].clone(),
        _ => Rc::new(T::Fld(t.clone(), v, i)),
    }
}
/// drop conversions that keep the value
fn wide(t: &R) -> R {
    match &**t {
        T::Cast(a, sa, b, sb, x) if (a < b && (!sa || *sb)) || (a == b && sa == sb) => wide(x),
        _ => t.clone(),
    }
}
fn has(t: &R, x: &R) -> bool {
    if t == x {
        return true;
    }
    match &**t {
        T::Agg(_, _, f) | T::Call(_, _, f) => f.iter().any(|y| has(y, x)),
        T::Fld(y, ..) | T::Out(y, _) | T::Discr(y) | T::Un(_, y) | T::Cast(_, _, _, _, y) | T::Len(y) | T::Loop(_, _, y) => has(y, x),
        T::Bin(_, a, b) | T::Idx(a, b) => has(a, x) || has(b, x),
        _ => false,
    }
}
fn has_call(t: &R, n: &str) -> bool {
    match &**t {
        T::Call(_, m, f) => m.ends_with(n) || f.iter().any(|y| has_call(y, n)),
        T::Agg(_, _, f) => f.iter().any(|y| has_call(y, n)),
        T::Fld(y, ..) | T::Out(y, _) | T::Discr(y) | T::Un(_, y) | T::Cast(_, _, _, _, y) | T::Len(y) | T::Loop(_, _, y) => has_call(y, n),
        T::Bin(_, a, b) | T::Idx(a, b) => has_call(a, n) || has_call(b, n),
        _ => false,
    }
}
impl Cli {
    fn variant(&self, ty: &str, discr: i128) -> Option<String> {
        self.tx.variants.get(ty)?.iter().find(|v| v.1 == discr).map(|v| v.0.clone())
    }
    fn vindex(&self, ty: &str, name: &str) -> Option<usize> {
        self.tx.variants.get(ty)?.iter().position(|v| v.0 == name)
    }
    /// index of a field
    fn field(&self, ty: &str, v: usize, name: &str) -> Option<usize> {
        self.tx.fields.get(&(ty.to_string(), v))?.iter().position(|f| f == name)
    }
    fn command(&self, p: &Path) -> Option<String> {
        let v = known(p, &tag(&self.parse))?;
        self.cmds.iter().find(|x| *x.1 as i128 == v).map(|x| x.0.clone())
    }
    fn opt(&self, cmd: &str, role: &str) -> Option<R> {
        let (v, i) = self.place.get(&(cmd.to_string(), role.to_string()))?;
        Some(fld(&self.parse, *v, *i))
    }
    fn runs(&self, cmd: &str) -> Vec<&Path> {
        self.paths.iter().filter(|p| success(p) && self.command(p).as_deref() == Some(cmd)).collect()
    }
    /// variant name of a value of this enum, from its construction or the path's conditions
    fn name_of(&self, p: &Path, ty: &str, t: &R) -> Option<String> {
        match &**t {
            T::Agg(_, v, _) => self.tx.variants.get(ty)?.get(*v).map(|x| x.0.clone()),
            _ => self.variant(ty, known(p, &tag(t))?),
        }
    }
    fn get(&self, t: &R, ty: &str, name: &str) -> Option<R> {
        Some(fld(t, NOV, self.field(ty, NOV, name)?))
    }
}
fn calls<'a>(p: &'a Path, n: &str) -> Vec<&'a Rc<Ev>> {
    p.st.evs.iter().filter(|e| &*e.name == n || e.name.ends_with(&format!("::{}", n))).collect()
}
fn where_(p: &Path) -> String {
    let e = p.st.evs.last();
    format!("on the path ending after {}", e.map_or("nothing".into(), |e| format!("{} ({})", e.name, e.span)))
}
fn dump(r: &mut Rep, _: &str) {
    let Some(mut c) = load(r) else { return };
    for it in rustc_public::all_local_items() {
        let n = norm(&it.name());
        if n.ends_with("::from_arg_matches_mut") {
            let Ok(i) = Instance::try_from(it) else { continue };
            let st = St { objs: vec![Rc::new(T::Sym("m".into()))], cons: vec![], evs: vec![] };
            let out = c.tx.run(i, vec![Rc::new(T::Ref(0, vec![]))], st);
            eprintln!("# FROM {} {} {:?}", n, out.len(), c.tx.err);
            for (_, x) in out {
                if matches!(&*x, T::Agg(_, 0, _)) {
                eprintln!("# FF {:?}", x);
                }
            }
        }
        if n.ends_with("::augment_subcommands") || n.ends_with("::augment_args") {
            let Ok(i) = Instance::try_from(it) else { continue };
            let st = St { objs: vec![], cons: vec![], evs: vec![] };
            let out = c.tx.run(i, vec![Rc::new(T::Sym("app".into()))], st);
            eprintln!("# AUG {} {} {:?}", n, out.len(), c.tx.err);
            for (_, x) in out {
                eprintln!("# {:?}", x);
            }
        }
    }
    let (tx, v) = (&c.tx, &c.paths);
    eprintln!("# paths {} steps {}", v.len(), tx.steps);
    for (n, k) in &tx.opaque {
        eprintln!("# opaque {} {}", n, k);
    }
    for (n, k) in &tx.variants {
        eprintln!("# type {} {:?}", n, k.iter().take(9).collect::<Vec<_>>());
    }
    let mut shown = 0;
    for p in v {
        if success(p) {
            shown += 1;
            if shown > 3 && shown % 200 != 0 {
                continue;
            }
            eprintln!("# ---- path");
            for c in &p.st.cons {
                eprintln!("#  {} {} {}", show(&c.0), if c.1 { "==" } else { "!=" }, c.2);
            }
            for e in &p.st.evs {
                eprintln!("#  * {} {} @{} {}", show(&e.term), e.fallible, e.func, e.span);
            }
        }
    }
    r.proved += 1;
}
/// the one call of the encoder of a successful run
fn one<'a>(c: &Cli, r: &mut Rep, p: &'a Path, n: &str, what: &str) -> Option<&'a Rc<Ev>> {
    let v = calls(p, n);
    if looped(c, p).iter().any(|e| is(&e.name, n)) {
        r.fail(&format!("{}|loop", what), format!("{} is called in a loop {}", n, where_(p)));
        return None;
    }
    if v.len() != 1 {
        r.fail(&format!("{}|count", what), format!("{} is called {} times {}", n, v.len(), where_(p)));
        return None;
    }
    Some(v[0])
}
/// events of the loops (and of function values run any number of times) on a path
fn looped(c: &Cli, p: &Path) -> Vec<Rc<Ev>> {
    fn go(c: &Cli, evs: &[Rc<Ev>], out: &mut Vec<Rc<Ev>>, d: u32) {
        for e in evs.iter().filter(|e| &*e.name == "loop") {
            let T::Sym(s) = &*e.term else { continue };
            let id: usize = s.trim_start_matches("loop").parse().unwrap_or(0);
            let Some(l) = c.tx.loops.get(id.wrapping_sub(1)) else { continue };
            for (_, evs, _) in &l.iters {
                out.extend(evs.iter().cloned());
                if d < 8 {
                    go(c, evs, out, d + 1);
                }
            }
        }
    }
    let mut out = vec![];
    go(c, &p.st.evs, &mut out, 0);
    out
}
fn is(name: &str, n: &str) -> bool {
    name == n || name.ends_with(&format!("::{}", n))
}
const FORMATS: [&str; 5] = ["bc1", "bc2", "bc3", "bc4", "bc5"];
const PROFILES: [&str; 3] = ["speed", "balanced", "quality"];
const WEIGHTS: [f32; 3] = [0.2126, 0.7152, 0.0722];

fn options(r: &mut Rep, _: &str) {
    let Some(mut c) = load(r) else { return };
    let c = &mut c;
    cli_values(c);
    for all in [&FORMATS[..], &PROFILES[..]] {
        let ok = c.values.iter().any(|v| v.iter().map(|x| x.0.as_str()).collect::<BTreeSet<_>>() == all.iter().copied().collect());
        r.check(ok, &format!("values|{}", all[0]), || format!("no option takes exactly the values {:?}, they are {:?}", all, c.values));
    }
    let c = &*c;
    cli_interface(r, c);
    let need = |r: &mut Rep, n: &str| -> Option<R> {
        let v = c.opt("compress", n);
        if v.is_none() {
            r.fail(&format!("anchor|{}", n), format!("the compress command has no option --{}", n));
        }
        v
    };
    let (Some(of), Some(op), Some(oa), Some(ow)) = (need(r, "format"), need(r, "profile"), need(r, "weigh-colour-by-alpha"), need(r, "weights")) else { return };
    let mut seen: BTreeSet<(String, String, i128)> = BTreeSet::new();
    for p in c.runs("compress") {
        let Some(e) = one(&c, r, p, "Format::compress", "encoder") else { continue };
        let a = &e.args;
        let f = c.spelt(p, &FORMATS, &of);
        let g = c.name_of(p, "Format", &a[0]);
        r.check(f.is_some() && f == g.as_ref().map(|s| s.to_lowercase()), "format", || format!("the selected format {:?} is compressed as {:?} ({}) at {}", f, g, show(&a[0]), e.span));
        let w = c.get(&a[4], "Params", "weights");
        let al = c.get(&a[4], "Params", "algorithm");
        let fl = c.get(&a[4], "Params", "weigh_colour_by_alpha");
        let (Some(w), Some(al), Some(fl)) = (w, al, fl) else {
            r.fail("anchor|params", format!("encoder parameters are {} at {}", show(&a[4]), e.span));
            continue;
        };
        let pr = c.spelt(p, &PROFILES, &op);
        let want = match pr.as_deref() {
            Some("speed") => "RangeFit",
            Some("balanced") => "ClusterFit",
            Some("quality") => "IterativeClusterFit",
            _ => "?",
        };
        let got = c.name_of(p, "Algorithm", &al);
        r.check(got.as_deref() == Some(want), "profile", || format!("profile {:?} selects {:?}, not {} ({}) at {}", pr, got, want, show(&al), e.span));
        // a flag is passed on as it is, or as the constant the path has established
        let flag_ok = fl == oa || matches!((&*fl, known(p, &oa)), (T::Int(x), Some(y)) if *x == y);
        r.check(flag_ok, "alpha-flag", || format!("the alpha weighing flag handed to the encoder is {} at {}", show(&fl), e.span));
        let mut n = known(p, &len(&ow));
        // a conversion to an array succeeds for exactly that many
        let conv = |t: &R| -> bool { matches!(&**t, T::Call(0, n, a) if (n.ends_with("TryFrom for [f32; 3]::try_from") || n.ends_with("::try_from") || n.ends_with("TryInto::try_into")) && a[0] == ow) };
        let from_conv = match &*w {
            T::Fld(x, 0, 0) => conv(x) && known(p, &tag(x)) == Some(0),
            _ => false,
        };
        if from_conv && n.is_none() {
            n = Some(3);
        }
        let ok = match n {
            Some(3) if from_conv => true,
            Some(3) if matches!(&*w, T::Out(x, 0) if matches!(&**x, T::Call(0, n, a) if (n.ends_with("::copy_from_slice") || n.ends_with("::clone_from_slice")) && a[1] == ow && matches!(&*a[0], T::Agg(_, _, v) if v.len() == 3))) => true,
            Some(0) => match &*w {
                T::Agg(_, _, v) if v.len() == 3 => v.iter().zip(WEIGHTS).all(|(x, y)| matches!(&**x, T::Flt(b) if f64::from_bits(*b) as f32 == y)),
                _ => false,
            },
            Some(3) => match &*w {
                T::Agg(_, _, v) if v.len() == 3 => v.iter().enumerate().all(|(i, x)| *x == idx(&ow, &int(i as i128)) || *x == fld(&call("get", vec![]), 0, 0)),
                _ => false,
            },
            _ => false,
        };
        r.check(ok, "weights", || format!("with {} weights given the encoder gets {} at {}", n.map_or("an unchecked number of".into(), |n| n.to_string()), show(&w), e.span));
        // the output has exactly the size the format needs for these dimensions
        let (wd, ht) = (&a[2], &a[3]);
        let sz = match &*a[5] {
            T::Call(0, n, v) if &**n == "vec::from_elem" => Some(v[1].clone()),
            _ => None,
        };
        let want = call("Format::compressed_size", vec![a[0].clone(), wd.clone(), ht.clone()]);
        r.check(sz.as_ref() == Some(&want), "output-size", || format!("the encoder's output buffer is {} at {}", show(&a[5]), e.span));
        if let (Some(f), Some(pr), Some(n)) = (f, pr, n) {
            seen.insert((f, pr, n));
        }
    }
    // every selectable combination does reach the encoder
    for f in FORMATS {
        for pr in PROFILES {
            for n in [0, 3] {
                r.check(seen.contains(&(f.into(), pr.into(), n)), &format!("reach|{}|{}|{}", f, pr, n), || format!("no successful run compresses with format {}, profile {} and {} weights", f, pr, n));
            }
        }
    }
    r.stats_cli(c);
}
/// commands, option names, defaults and how often an option may be given
fn cli_interface(r: &mut Rep, c: &Cli) {
    // (role, short, kind of action, default)
    let spec: [(&str, &[(&str, Option<char>, usize, Option<&str>)]); 2] = [
        ("compress", &[("output", Some('o'), 0, None), ("INFILE", None, 0, None), ("format", Some('f'), 0, None), ("profile", Some('p'), 0, Some("balanced")), ("weigh-colour-by-alpha", None, 2, None), ("weights", Some('w'), 1, None)]),
        ("decompress", &[("output", Some('o'), 0, None), ("INFILE", None, 0, None)]),
    ];
    let names: BTreeSet<&str> = c.args.keys().map(|s| s.as_str()).collect();
    r.check(names == BTreeSet::from(["compress", "decompress"]), "commands", || format!("the commands are {:?}", names));
    for (cmd, opts) in spec {
        let have = c.args.get(cmd).cloned().unwrap_or_default();
        for (role, short, action, default) in opts {
            let v: Vec<&Arg> = have.iter().filter(|a| a.role == *role).collect();
            let key = format!("{}|{}", cmd, role);
            if v.len() != 1 {
                r.fail(&key, format!("{} has {} options {}", cmd, v.len(), role));
                continue;
            }
            let get = |n: &str| v[0].set.iter().rev().find(|s| s.0 == n).map(|s| s.1.clone());
            let sh = get("short").and_then(|t| match &*t {
                T::Int(c) => char::from_u32(*c as u32),
                _ => None,
            });
            r.check(sh == *short, &format!("{}|short", key), || format!("{} --{} is abbreviated {:?}, not {:?}", cmd, role, sh, short));
            let ac = get("action").and_then(|t| match &*t {
                T::Agg(_, v, _) => Some(*v),
                _ => None,
            });
            r.check(ac == Some(*action), &format!("{}|action", key), || format!("{} --{} is collected by action {:?}, not {}", cmd, role, ac, action));
            let df = get("default_value").map(|t| strings(&t).concat());
            r.check(df.as_deref() == *default, &format!("{}|default", key), || format!("{} --{} defaults to {:?}, not {:?}", cmd, role, df, default));
            for (n, t) in &v[0].set {
                let ok = match n.as_str() {
                    "short" | "long" | "action" | "default_value" | "value_name" | "value_parser" | "help" | "long_help" | "help_heading" | "next_line_help" | "hide_possible_values" | "display_order" => true,
                    // required exactly where the option must be given
                    "required" => !(matches!(&**t, T::Int(0)) && matches!(*role, "INFILE" | "format")) && !(matches!(&**t, T::Int(1)) && !matches!(*role, "INFILE" | "format")),
                    "num_args" | "value_names" => false,
                    _ => false,
                };
                r.check(ok, &format!("{}|{}", key, n), || format!("{} --{} is set up with {} {}", cmd, role, n, show(t)));
            }
            r.check(c.place.contains_key(&(cmd.to_string(), role.to_string())), &format!("{}|used", key), || format!("{} --{} is not stored anywhere", cmd, role));
        }
        for a in have.iter().filter(|a| !opts.iter().any(|o| o.0 == a.role)) {
            let req = a.set.iter().any(|s| s.0 == "required" && !matches!(&*s.1, T::Int(0)));
            r.check(!req, &format!("{}|extra|{}", cmd, a.role), || format!("{} requires another option --{}", cmd, a.role));
        }
    }
}
/// the names under which the option values are selected
fn cli_values(c: &mut Cli) {
    for it in rustc_public::all_local_items() {
        let n = norm(&it.name());
        if !n.ends_with("::to_possible_value") {
            continue;
        }
        let Ok(i) = Instance::try_from(it) else { continue };
        let Some(b) = i.body() else { continue };
        use rustc_public::ty::*;
        let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = b.locals()[1].ty.kind() else { continue };
        let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { continue };
        c.tx.note(d);
        let ty = d.name().rsplit("::").next().unwrap_or("").to_string();
        let vars = c.tx.variants.get(&ty).cloned().unwrap_or_default();
        let mut v: Vec<(String, i128)> = vec![];
        for (k, (_, dis)) in vars.iter().enumerate() {
            let arg = Rc::new(T::Agg(ty.as_str().into(), k, vec![]));
            let st = St { objs: vec![], cons: vec![], evs: vec![] };
            let out = c.tx.run(i, vec![arg], st);
            if out.len() == 1 {
                if let Some(s) = strings(&out[0].1).first() {
                    v.push((s.clone(), *dis));
                }
            }
        }
        c.values.push(v);
    }
}
impl Cli {
    /// spelling of an option value the path has settled
    fn spelt(&self, p: &Path, all: &[&str], t: &R) -> Option<String> {
        let d = known(p, &tag(t))?;
        let v = self.values.iter().find(|v| v.iter().map(|x| x.0.as_str()).collect::<BTreeSet<_>>() == all.iter().copied().collect())?;
        v.iter().find(|x| x.1 == d).map(|x| x.0.clone())
    }
}
fn strings(t: &R) -> Vec<String> {
    match &**t {
        T::Str(s) => vec![s.to_string()],
        T::Agg(_, _, f) | T::Call(_, _, f) => f.iter().flat_map(strings).collect(),
        T::Fld(y, ..) | T::Out(y, _) => strings(y),
        _ => vec![],
    }
}
impl Rep {
    fn stats_cli(&mut self, c: &Cli) {
        self.count("successful paths", c.paths.iter().filter(|p| success(p)).count() as u64);
        let mut f: Vec<&String> = c.tx.seen.keys().collect();
        f.truncate(40);
        self.notes.push(format!("functions: {}", f.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(", ")));
    }
}
fn none(t: &R) -> bool {
    matches!(&**t, T::Agg(n, 0, _) if &**n == "Option")
}
fn dxgi_codec(n: &str) -> Option<&'static str> {
    if n.contains("SNorm") {
        return None;
    }
    ["BC1_", "BC2_", "BC3_", "BC4_", "BC5_"].iter().zip(["Bc1", "Bc2", "Bc3", "Bc4", "Bc5"]).find(|x| n.starts_with(x.0)).map(|x| x.1)
}
const DXGI: [(&str, &str); 5] = [("Bc1", "BC1_UNorm_sRGB"), ("Bc2", "BC2_UNorm_sRGB"), ("Bc3", "BC3_UNorm_sRGB"), ("Bc4", "BC4_UNorm"), ("Bc5", "BC5_UNorm")];

fn dds(r: &mut Rep, _: &str) {
    let Some(c) = load(r) else { return };
    let mut written: BTreeSet<String> = BTreeSet::new();
    for p in c.runs("compress") {
        let (Some(e), Some(w), Some(n)) = (one(&c, r, p, "Format::compress", "encoder"), one(&c, r, p, "Dds::write", "dds-write"), one(&c, r, p, "Dds::new_dxgi", "dds-new")) else { continue };
        let h = &n.args[0];
        let g = |f: &str| c.get(h, "NewDxgiParams", f).unwrap_or_else(|| Rc::new(T::Undef));
        let f = c.name_of(p, "Format", &e.args[0]);
        let d = c.name_of(p, "DxgiFormat", &g("format"));
        let want = DXGI.iter().find(|x| Some(x.0) == f.as_deref()).map(|x| x.1);
        r.check(d.is_some() && d.as_deref() == want, "format", || format!("{:?} data is labelled {:?} ({}) at {}", f, d, show(&g("format")), n.span));
        for (k, a) in [("width", 2), ("height", 3)] {
            let (x, y) = (wide(&g(k)), wide(&e.args[a]));
            let ok = x == y || x == wide(&cast(64, false, 32, false, &e.args[a]));
            r.check(ok, k, || format!("the header's {} is {} but the encoder compressed {} at {}", k, show(&x), show(&y), n.span));
        }
        let rd = c.name_of(p, "D3D10ResourceDimension", &g("resource_dimension"));
        r.check(rd.as_deref() == Some("Texture2D"), "dimension", || format!("the header's resource dimension is {:?} at {}", rd, n.span));
        for k in ["depth", "mipmap_levels", "array_layers"] {
            r.check(none(&g(k)), k, || format!("the header's {} is {} at {}", k, show(&g(k)), n.span));
        }
        r.check(known(p, &g("is_cubemap")) == Some(0), "cubemap", || format!("the header's cube map flag is {} at {}", show(&g("is_cubemap")), n.span));
        // what is written: that header, and exactly the encoder's output
        let made = fld(&n.term, 0, 0);
        let data = c.get(&w.args[0], "Dds", "data");
        let out: R = Rc::new(T::Out(e.term.clone(), 5));
        r.check(data.as_ref() == Some(&out), "data", || format!("the data written is {}, not the encoder's output, at {}", data.as_ref().map_or("?".into(), |d| show(d)), w.span));
        for k in ["header", "header10"] {
            let x = c.get(&w.args[0], "Dds", k);
            let y = c.field("Dds", NOV, k).map(|i| fld(&made, NOV, i));
            r.check(x.is_some() && x == y, k, || format!("the {} written is {}, not the one made for this image, at {}", k, x.as_ref().map_or("?".into(), |d| show(d)), w.span));
        }
        if let Some(d) = d {
            written.insert(d);
        }
    }
    r.check(written.len() == 5, "reach", || format!("DXGI formats written: {:?}", written));
    // reading: the codec is the one the header names
    let mut accepted: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for p in c.runs("decompress") {
        let (Some(e), Some(rd)) = (one(&c, r, p, "Format::decompress", "decoder"), one(&c, r, p, "Dds::read", "dds-read")) else { continue };
        let file = fld(&rd.term, 0, 0);
        let f = c.name_of(p, "Format", &e.args[0]);
        let Some(h10) = c.get(&file, "Dds", "header10") else {
            r.fail("anchor|header10", "the DX10 header is never looked at".into());
            return;
        };
        match known(p, &tag(&h10)) {
            Some(1) => {
                let x = fld(&h10, 1, 0);
                let dx = c.get(&x, "Header10", "dxgi_format");
                let d = dx.and_then(|d| c.name_of(p, "DxgiFormat", &d));
                let want = d.as_deref().and_then(dxgi_codec);
                r.check(d.is_some() && want.is_some() && f.as_deref() == want, "read-dxgi", || format!("a file of DXGI format {:?} is decoded as {:?} at {}", d, f, e.span));
                accepted.entry(d.unwrap_or_default()).or_default().insert(f.unwrap_or_default());
            }
            Some(0) => {
                // without it, the legacy pixel format decides
                let d = p.st.cons.iter().filter_map(|(t, eq, v)| match &**t {
                    T::Discr(x) if *eq && has_call(x, "D3DFormat::try_from_pixel_format") && !matches!(&**x, T::Call(..)) => c.variant("D3DFormat", *v),
                    _ => None,
                }).next();
                let hdr = c.get(&file, "Dds", "header");
                let from_header = p.st.cons.iter().any(|(t, _, _)| has_call(t, "D3DFormat::try_from_pixel_format") && hdr.as_ref().map_or(false, |h| has(t, h)));
                let want = match d.as_deref() {
                    Some("DXT1") => Some("Bc1"),
                    Some("DXT2") | Some("DXT3") => Some("Bc2"),
                    Some("DXT4") | Some("DXT5") => Some("Bc3"),
                    _ => None,
                };
                r.check(from_header && d.is_some() && want.is_some() && f.as_deref() == want, "read-d3d", || format!("a file of D3D format {:?} is decoded as {:?} at {}", d, f, e.span));
                accepted.entry(d.unwrap_or_default()).or_default().insert(f.unwrap_or_default());
            }
            _ => r.fail("read-header", format!("a file is decoded without looking whether it has a DX10 header, at {}", e.span)),
        }
    }
    for d in written.iter().cloned().chain(["DXT1", "DXT3", "DXT5"].map(String::from)) {
        r.check(accepted.contains_key(&d), &format!("accepts|{}", d), || format!("files of format {} are not decompressed", d));
    }
    r.stats_cli(&c);
}
fn product(t: &R, out: &mut Vec<R>) {
    match &**t {
        T::Bin(o, a, b) if &**o == "Mul" => {
            product(a, out);
            product(b, out);
        }
        _ => out.push(wide(t)),
    }
}
fn decompress(r: &mut Rep, _: &str) {
    let Some(c) = load(r) else { return };
    let mut n = 0;
    for p in c.runs("decompress") {
        let (Some(e), Some(rd)) = (one(&c, r, p, "Format::decompress", "decoder"), one(&c, r, p, "Dds::read", "dds-read")) else { continue };
        let (Some(en), Some(wr), Some(wd)) = (one(&c, r, p, "Encoder::new", "png-new"), one(&c, r, p, "Encoder::write_header", "png-header"), one(&c, r, p, "Writer::write_image_data", "png-data")) else { continue };
        n += 1;
        let file = fld(&rd.term, 0, 0);
        let (Some(h), Some(data), Some(h10)) = (c.get(&file, "Dds", "header"), c.get(&file, "Dds", "data"), c.get(&file, "Dds", "header10")) else {
            r.fail("anchor|dds", "the file's header or data is never looked at".into());
            return;
        };
        let (Some(w), Some(ht)) = (c.get(&h, "Header", "width"), c.get(&h, "Header", "height")) else {
            r.fail("anchor|header", "the header's width or height is never looked at".into());
            return;
        };
        r.check(e.args[1] == data, "data", || format!("the data decoded is {} at {}", show(&e.args[1]), e.span));
        r.check(wide(&e.args[2]) == w && wide(&e.args[3]) == ht, "decode-size", || format!("the size decoded is {} x {} at {}", show(&e.args[2]), show(&e.args[3]), e.span));
        let mut f = vec![];
        if let T::Call(0, nm, v) = &*e.args[4] {
            if &**nm == "vec::from_elem" {
                product(&v[1], &mut f);
            }
        }
        let mut want = vec![w.clone(), ht.clone(), int(4)];
        f.sort_by_key(|x| format!("{:?}", x));
        want.sort_by_key(|x| format!("{:?}", x));
        r.check(f == want, "pixel-buffer", || format!("the pixel buffer is {} at {}", show(&e.args[4]), e.span));
        if known(p, &tag(&h10)) != Some(0) {
            let x = fld(&h10, 1, 0);
            let d = c.get(&x, "Header10", "resource_dimension").and_then(|d| c.name_of(p, "D3D10ResourceDimension", &d));
            r.check(d.as_deref() == Some("Texture2D"), "dimension", || format!("a file whose DX10 header says {:?} is accepted {}", d, where_(p)));
        }
        // the PNG
        r.check(wide(&en.args[1]) == w && wide(&en.args[2]) == ht, "png-size", || format!("the PNG is {} x {} at {}", show(&en.args[1]), show(&en.args[2]), en.span));
        let out: R = Rc::new(T::Out(e.term.clone(), 4));
        r.check(wd.args[1] == out, "png-data", || format!("the pixels written are {} at {}", show(&wd.args[1]), wd.span));
        let (mut colour, mut depth) = (None, None);
        for x in &p.st.evs {
            if let Some(m) = x.name.strip_prefix("Encoder::") {
                match m {
                    "set_color" => colour = c.name_of(p, "ColorType", &x.args[1]),
                    "set_depth" => depth = c.name_of(p, "BitDepth", &x.args[1]),
                    "new" | "write_header" | "set_compression" | "set_filter" | "set_adaptive_filter" | "add_text_chunk" | "add_ztxt_chunk" | "add_itxt_chunk" | "set_pixel_dims" | "set_source_gamma" | "set_source_srgb" | "set_source_chromaticities" | "validate_sequence" => {}
                    _ => r.fail(&format!("png-setting|{}", m), format!("the PNG encoder is configured with {} at {}", m, x.span)),
                }
            }
        }
        r.check(colour.as_deref() == Some("Rgba"), "png-colour", || format!("the PNG's colour type is {:?} {}", colour, where_(p)));
        r.check(depth.as_deref() == Some("Eight") || depth.is_none(), "png-depth", || format!("the PNG's bit depth is {:?} {}", depth, where_(p)));
        r.check(has(&wr.term, &en.term) && has(&wd.args[0], &wr.term), "png-flow", || format!("the pixels are not written to the PNG of this image {}", where_(p)));
    }
    r.check(n > 0, "reach", || "no run decompresses".into());
    r.stats_cli(&c);
}

/// elements an iterator runs over: the sequence and how many make one step
fn elems(t: &R) -> Option<(R, i128)> {
    match &**t {
        T::Call(0, n, a) => {
            let m = n.rsplit("::").next().unwrap_or("");
            match m {
                "iter" | "copied" | "cloned" | "by_ref" | "into_iter" => elems(&a[0]).or(Some((a[0].clone(), 1))),
                "chunks" | "chunks_exact" => match &*a[1] {
                    T::Int(k) => Some((a[0].clone(), *k)),
                    _ => None,
                },
                _ => Some((t.clone(), 1)),
            }
        }
        _ => Some((t.clone(), 1)),
    }
}
/// pixels made step by step from a byte sequence: source, bytes per step, the four bytes in terms
/// of `px`, and the number of bytes made where the code states it itself
#[derive(Clone)]
struct Expand {
    src: R,
    k: i128,
    pat: Vec<R>,
    /// number stated, and what it counts: 1 pixels, 4 bytes
    count: Option<(R, i128)>,
}
fn pxsym() -> R {
    Rc::new(T::Sym("px".into()))
}
/// the bytes of a short sequence; `item` stands for a whole step of `k` bytes
fn list(v: &R, item: &R, k: i128) -> Option<Vec<R>> {
    if v == item && k > 1 {
        return Some((0..k).map(|i| idx(item, &int(i))).collect());
    }
    match &**v {
        T::Agg(n, _, f) if &**n == "array" => Some(f.clone()),
        T::Agg(n, 1, f) if &**n == "Option" => Some(f.clone()),
        T::Call(0, n, a) => match n.rsplit("::").next().unwrap_or("") {
            "iter" | "copied" | "cloned" | "into_iter" | "to_vec" => list(&a[0], item, k),
            "once" => Some(vec![a[0].clone()]),
            "chain" => {
                let mut x = list(&a[0], item, k)?;
                x.extend(list(&a[1], item, k)?);
                Some(x)
            }
            _ => None,
        },
        _ => None,
    }
}
/// a step per element of `it`, making `pat` from the element `px`
fn stepped(it: &R, pat: Vec<R>) -> Option<Expand> {
    let px = pxsym();
    // counting through indices
    let (range, step) = match &**it {
        T::Call(0, n, a) if n.ends_with("::step_by") => match &*a[1] {
            T::Int(k) => (a[0].clone(), *k),
            _ => return None,
        },
        _ => (it.clone(), 1),
    };
    if let T::Agg(n, _, f) = &*range {
        if &**n != "Range" || !matches!(&*f[0], T::Int(0)) {
            return None;
        }
        // base[c * px + j]
        let lin = |t: &R| -> Option<(i128, i128)> {
            fn go(t: &R, px: &R) -> Option<(i128, i128)> {
                if t == px {
                    return Some((1, 0));
                }
                match &**t {
                    T::Int(c) => Some((0, *c)),
                    T::Bin(o, a, b) => {
                        let (x, y) = (go(a, px)?, go(b, px)?);
                        match &**o {
                            "Add" => Some((x.0 + y.0, x.1 + y.1)),
                            "Mul" if x.0 == 0 => Some((x.1 * y.0, x.1 * y.1)),
                            "Mul" if y.0 == 0 => Some((x.0 * y.1, x.1 * y.1)),
                            "Shl" if y.0 == 0 && (0..8).contains(&y.1) => Some((x.0 << y.1, x.1 << y.1)),
                            _ => None,
                        }
                    }
                    _ => None,
                }
            }
            go(t, &px)
        };
        let mut src: Option<(R, i128)> = None;
        let mut out = vec![];
        for p in &pat {
            match &**p {
                T::Idx(b, i) if has(i, &px) && !has(b, &px) => {
                    let (c, j) = lin(i)?;
                    let k = c * step;
                    if src.clone().map_or(false, |s| s != (b.clone(), k)) || j < 0 || j >= k {
                        return None;
                    }
                    src = Some((b.clone(), k));
                    out.push(if k == 1 { px.clone() } else { idx(&px, &int(j)) });
                }
                T::Int(_) => out.push(p.clone()),
                _ => return None,
            }
        }
        let (src, k) = src?;
        let n = &f[1];
        let count = if step == 1 {
            Some((n.clone(), 1))
        } else if *n == len(&src) {
            None
        } else {
            return None;
        };
        return Some(Expand { src, k, pat: out, count });
    }
    let (src, k) = elems(it)?;
    Some(Expand { src, k, pat, count: None })
}
fn expansion(tx: &mut Tx, st: &St, t: &R) -> Option<Expand> {
    let px = pxsym();
    if let T::Call(0, n, a) = &**t {
        let m = n.rsplit("::").next().unwrap_or("").to_string();
        match m.as_str() {
            "collect" | "from_iter" | "concat" => return expansion(tx, st, a.last()?).or_else(|| expansion(tx, st, &a[0])),
            "flatten" => return expansion(tx, st, &a[0]),
            "flat_map" | "map" => {
                let u = rustc_public::ty::Ty::unsigned_ty(rustc_public::ty::UintTy::U8);
                let r = tx.apply(&"check".into(), &a[1], vec![px], vec![u], u, st.clone(), String::new());
                if r.len() != 1 || r[0].0.evs.len() != st.evs.len() {
                    return None;
                }
                let v = tx.snap(&r[0].0, &r[0].1, 0);
                let v = match &*v {
                    T::Call(0, n, a) if n.ends_with("::into_iter") || n.ends_with("::iter") => a[0].clone(),
                    _ => v,
                };
                let k = elems(&a[0]).map_or(1, |e| e.1);
                return stepped(&a[0], list(&v, &pxsym(), k)?);
            }
            _ => {}
        }
    }
    // a loop that appends one pixel per step
    if let T::Loop(id, slot, init) = &**t {
        if !empty_vec(init) {
            return None;
        }
        let rec = &tx.loops[*id as usize - 1];
        if rec.iters.len() != 1 || !rec.iters[0].1.is_empty() {
            return None;
        }
        let (it, item) = item_of(rec, *id)?;
        let k = elems(&it).map_or(1, |e| e.1);
        let add = appended(&rec.iters[0].2[*slot as usize], t, &item, k)?;
        return stepped(&it, add.iter().map(|x| subst(x, &item, &px)).collect());
    }
    // the same as a function value run on every step
    if let T::Out(c, 1) = &**t {
        if let T::Call(0, n, a) = &**c {
            if n.ends_with("::for_each") {
                let T::Agg(cn, v, f) = &*a[1] else { return None };
                let mut f = f.clone();
                let e = (0..f.len()).filter(|i| empty_vec(&f[*i])).collect::<Vec<_>>();
                if e.len() != 1 {
                    return None;
                }
                let mut st = st.clone();
                let acc: R = Rc::new(T::Sym("acc".into()));
                st.objs.push(acc.clone());
                let o = st.objs.len() - 1;
                f[e[0]] = Rc::new(T::Ref(o, vec![]));
                let u = rustc_public::ty::Ty::unsigned_ty(rustc_public::ty::UintTy::U8);
                let ne = st.evs.len();
                let r = tx.apply(&"check".into(), &Rc::new(T::Agg(cn.clone(), *v, f)), vec![px.clone()], vec![u], u, st, String::new());
                if r.len() != 1 || r[0].0.evs.len() != ne {
                    return None;
                }
                let k = elems(&a[0]).map_or(1, |e| e.1);
                let add = appended(&r[0].0.objs[o].clone(), &acc, &px, k)?;
                return stepped(&a[0], add);
            }
        }
    }
    // pixel by pixel into a buffer made beforehand
    if let T::Out(c, 0) = &**t {
        let T::Call(0, n, a) = &**c else { return None };
        if !matches!(n.rsplit("::").next().unwrap_or(""), "chunks_mut" | "chunks_exact_mut") || !matches!(&*a[1], T::Int(4)) {
            return None;
        }
        let T::Call(0, fe, fa) = &*a[0] else { return None };
        if &**fe != "vec::from_elem" {
            return None;
        }
        let mut pat = vec![fa[0].clone(); 4];
        let recs: Vec<&LoopRec> = tx.loops.iter().filter(|l| l.slots.iter().any(|s| has(&s.1, c))).collect();
        // the same loop may have been met on several paths
        let rec = *recs.first()?;
        if rec.iters.len() != 1 {
            return None;
        }
        let (it, item) = item_of(rec, rec.id)?;
        let T::Call(0, z, za) = &*it else { return None };
        if !z.ends_with("::zip") {
            return None;
        }
        let mine = if za[0] == *c { 0 } else if za[1] == *c { 1 } else { return None };
        let (d, s) = (fld(&item, NOV, mine), fld(&item, NOV, 1 - mine));
        let (src, k) = elems(&za[1 - mine])?;
        for e in &rec.iters[0].1 {
            match &*e.name {
                "store" => {
                    let T::Idx(b, i) = &*e.args[0] else { return None };
                    let T::Int(i) = &**i else { return None };
                    if *b != d || !(0..4).contains(i) {
                        return None;
                    }
                    pat[*i as usize] = subst(&e.args[1], &s, &px);
                }
                "mutate" => {
                    let T::Call(0, m, ma) = &*e.term else { return None };
                    match m.rsplit("::").next().unwrap_or("") {
                        "index_mut" if ma[0] == d => {}
                        "copy_from_slice" | "clone_from_slice" => {
                            let (lo, hi) = match &*ma[0] {
                                x if *x == *d => (0, 4),
                                T::Call(0, im, ia) if im.ends_with("::index_mut") && ia[0] == d => match &*ia[1] {
                                    T::Agg(n, _, f) => match (&**n, f.iter().map(|x| if let T::Int(c) = &**x { *c } else { -1 }).collect::<Vec<_>>().as_slice()) {
                                        ("RangeTo", [h]) => (0, *h),
                                        ("Range", [l, h]) => (*l, *h),
                                        ("RangeFrom", [l]) => (*l, 4),
                                        _ => return None,
                                    },
                                    _ => return None,
                                },
                                _ => return None,
                            };
                            if lo < 0 || hi > 4 || lo > hi {
                                return None;
                            }
                            let from = subst(&ma[1], &s, &px);
                            for i in lo..hi {
                                pat[i as usize] = match list(&from, &px, k) {
                                    Some(v) => v.get((i - lo) as usize)?.clone(),
                                    None if from == px && hi - lo == k => idx(&px, &int(i - lo)),
                                    None => return None,
                                };
                            }
                        }
                        "fill" if ma[0] == d => pat = vec![subst(&ma[1], &s, &px); 4],
                        _ => return None,
                    }
                }
                _ => return None,
            }
        }
        return Some(Expand { src, k, pat, count: Some((fa[1].clone(), 4)) });
    }
    None
}
/// what was appended to a list
fn appended(v: &R, to: &R, item: &R, k: i128) -> Option<Vec<R>> {
    let mut add: Vec<R> = vec![];
    let mut v = v.clone();
    while v != *to {
        let T::Out(c, 0) = &*v.clone() else { return None };
        let T::Call(0, n, a) = &**c else { return None };
        let mut x = match n.rsplit("::").next().unwrap_or("") {
            "push" => vec![a[1].clone()],
            "extend_from_slice" | "extend" => list(&a[1], item, k)?,
            _ => return None,
        };
        x.extend(add);
        add = x;
        v = a[0].clone();
    }
    Some(add)
}
/// what a loop runs over, and the element of one iteration
fn item_of(rec: &LoopRec, id: u32) -> Option<(R, R)> {
    let nx = rec.iters[0].0.iter().find_map(|(t, eq, v)| match &**t {
        T::Discr(n) if *eq && *v == 1 => match &**n {
            T::Call(0, nm, a) if nm.ends_with("::next") => Some((n.clone(), a[0].clone())),
            _ => None,
        },
        _ => None,
    })?;
    let T::Loop(i2, s2, it) = &*nx.1 else { return None };
    if *i2 != id {
        return None;
    }
    // advanced once per iteration
    let adv = rec.iters[0].2[*s2 as usize].clone();
    if adv != Rc::new(T::Out(nx.0.clone(), 0)) {
        return None;
    }
    Some((it.clone(), fld(&nx.0, 1, 0)))
}
fn empty_vec(t: &R) -> bool {
    matches!(&**t, T::Call(0, n, _) if &**n == "Vec::new" || &**n == "Vec::with_capacity") || matches!(&**t, T::Agg(n, _, f) if &**n == "array" && f.is_empty())
}
fn subst(t: &R, a: &R, b: &R) -> R {
    if t == a {
        return b.clone();
    }
    match &**t {
        T::Idx(x, i) => Rc::new(T::Idx(subst(x, a, b), subst(i, a, b))),
        T::Fld(x, v, i) => Rc::new(T::Fld(subst(x, a, b), *v, *i)),
        T::Bin(o, x, y) => Rc::new(T::Bin(o.clone(), subst(x, a, b), subst(y, a, b))),
        T::Call(i, n, v) => Rc::new(T::Call(*i, n.clone(), v.iter().map(|x| subst(x, a, b)).collect())),
        T::Agg(n, k, v) => Rc::new(T::Agg(n.clone(), *k, v.iter().map(|x| subst(x, a, b)).collect())),
        T::Cast(p, q, u, v, x) => Rc::new(T::Cast(*p, *q, *u, *v, subst(x, a, b))),
        T::Out(x, k) => Rc::new(T::Out(subst(x, a, b), *k)),
        T::Len(x) => Rc::new(T::Len(subst(x, a, b))),
        _ => t.clone(),
    }
}
/// the extension of the input file, up to case
fn is_ext(t: &R, infile: &R, lowered: bool) -> bool {
    match &**t {
        T::Call(0, n, a) => {
            let m = n.rsplit("::").next().unwrap_or("");
            match m {
                "to_lowercase" | "to_ascii_lowercase" => is_ext(&a[0], infile, true),
                "to_string_lossy" | "to_str" | "into_string" | "to_owned" | "display" => is_ext(&a[0], infile, lowered),
                "extension" => lowered && a[0] == *infile,
                _ => false,
            }
        }
        T::Fld(x, _, 0) => is_ext(x, infile, lowered),
        T::Out(c, 0) => match &**c {
            T::Call(0, n, a) if n.ends_with("make_ascii_lowercase") => is_ext(&a[0], infile, true),
            _ => false,
        },
        _ => false,
    }
}
fn bits(t: &R) -> Option<i128> {
    match &**t {
        T::Int(c) => Some(*c),
        T::Agg(_, _, f) if f.len() == 1 => bits(&f[0]),
        T::Call(_, n, a) if n.ends_with("::bitor") || n.ends_with("::union") => Some(bits(&a[0])? | bits(&a[1])?),
        T::Call(_, n, _) if n.ends_with("Transformations::normalize_to_color8") => Some(0x11),
        T::Bin(o, a, b) if &**o == "BitOr" => Some(bits(a)? | bits(b)?),
        _ => None,
    }
}
fn images(r: &mut Rep, _: &str) {
    let Some(mut c) = load(r) else { return };
    let Some(infile) = c.opt("compress", "INFILE") else {
        r.fail("anchor|infile", "the compress command takes no input file".into());
        return;
    };
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let paths = std::mem::take(&mut c.paths);
    let mut memo: BTreeMap<String, Option<Expand>> = BTreeMap::new();
    let sel: Vec<&Path> = paths.iter().filter(|p| success(p) && c.command(p).as_deref() == Some("compress")).collect();
    for p in sel {
        let Some(e) = one(&c, r, p, "Format::compress", "encoder") else { continue };
        // which file types the name says
        let mut ext: BTreeSet<String> = BTreeSet::new();
        for (t, eq, v) in &p.st.cons {
            if let T::Call(0, n, a) = &**t {
                if a.len() != 2 {
                    continue;
                }
                let ci = n.ends_with("eq_ignore_ascii_case");
                let yes = (*v == 1) == *eq;
                if (yes && (n.ends_with("::eq") || ci)) || (!yes && n.ends_with("::ne")) {
                    for (x, y) in [(&a[0], &a[1]), (&a[1], &a[0])] {
                        if let T::Str(s) = &**x {
                            if is_ext(y, &infile, ci) {
                                ext.insert(s.to_string());
                            }
                        }
                    }
                }
            }
        }
        let png = calls(p, "Reader::next_frame");
        let jpg = calls(p, "Decoder::decode");
        let kind = if png.len() == 1 && jpg.is_empty() {
            "png"
        } else if jpg.len() == 1 && png.is_empty() {
            "jpeg"
        } else {
            r.fail("reader", format!("{} PNG and {} JPEG images are decoded {}", png.len(), jpg.len(), where_(p)));
            continue;
        };
        let ok = ext.len() == 1 && if kind == "png" { ext.contains("png") } else { ext.contains("jpg") || ext.contains("jpeg") };
        r.check(ok, &format!("extension|{}", kind), || format!("a file with extension {:?} is read as {} {}", ext, kind, where_(p)));
        for x in &ext {
            *seen.entry(format!("ext {}", x)).or_insert(0) += 1;
        }
        let (data, w, h) = (&e.args[1], wide(&e.args[2]), wide(&e.args[3]));
        let key = format!("{:?}", data);
        let ex = match memo.get(&key) {
            Some(x) => x.clone(),
            None => {
                let x = expansion(&mut c.tx, &p.st, data);
                memo.insert(key, x.clone());
                x
            }
        };
        let px: R = Rc::new(T::Sym("px".into()));
        let at = |k: i128| idx(&px, &int(k));
        let full = int(255);
        let (src, k, pat, count) = match ex {
            Some(e) => (e.src, e.k, e.pat, e.count),
            None => (data.clone(), 4, (0..4).map(at).collect(), None),
        };
        let (colour, source, ww, hh) = if kind == "png" {
            let f = png[0];
            let info = fld(&f.term, 0, 0);
            let (Some(ct), Some(iw), Some(ih)) = (c.get(&info, "OutputInfo", "color_type"), c.get(&info, "OutputInfo", "width"), c.get(&info, "OutputInfo", "height")) else {
                r.fail("anchor|png", "colour type, width or height of the decoded PNG is never looked at".into());
                return;
            };
            // what the decoder was asked to do, and the buffer it filled
            let tr = calls(p, "Decoder::set_transformations");
            let tb = tr.last().and_then(|t| bits(&t.args[1]));
            r.check(tb == Some(0x11) && tr.last().map_or(false, |t| has(&f.args[0], &t.term)), "png-transform", || format!("the PNG decoder is set to transformations {:?} {}", tb, where_(p)));
            let size = match &*f.args[1] {
                T::Call(0, n, v) if &**n == "vec::from_elem" => Some(v[1].clone()),
                _ => None,
            };
            let ok = matches!(size.as_deref(), Some(T::Call(0, n, a)) if n.ends_with("Reader::output_buffer_size") && a[0] == f.args[0]);
            r.check(ok, "png-buffer", || format!("the PNG is decoded into {} at {}", show(&f.args[1]), f.span));
            r.check(has(&f.args[0], &infile), "png-input", || format!("the PNG decoded is not the input file {}", where_(p)));
            let out: R = Rc::new(T::Out(f.term.clone(), 1));
            let mut col = c.name_of(p, "ColorType", &ct);
            if col.is_none() {
                // the reader's own answer
                col = p.st.cons.iter().find_map(|(t, eq, v)| match &**t {
                    T::Discr(x) if *eq && has_call(x, "Reader::output_color_type") => c.variant("ColorType", *v),
                    _ => None,
                });
            }
            (col, out, iw, ih)
        } else {
            let d = jpg[0];
            let data = fld(&d.term, 0, 0);
            let info = p.st.cons.iter().find_map(|(t, eq, v)| match &**t {
                T::Discr(x) if *eq && *v == 1 && matches!(&**x, T::Call(_, n, _) if n.ends_with("Decoder::info")) => Some(x.clone()),
                _ => None,
            });
            let Some(info) = info else {
                r.fail("jpeg-info", format!("a JPEG is compressed without looking at its header {}", where_(p)));
                continue;
            };
            r.check(has(&info, &infile) && has(&d.args[0], &infile), "jpeg-input", || format!("the JPEG decoded is not the input file {}", where_(p)));
            let info = fld(&info, 1, 0);
            let (Some(ct), Some(iw), Some(ih)) = (c.get(&info, "ImageInfo", "pixel_format"), c.get(&info, "ImageInfo", "width"), c.get(&info, "ImageInfo", "height")) else {
                r.fail("anchor|jpeg", "pixel format, width or height of the decoded JPEG is never looked at".into());
                return;
            };
            (c.name_of(p, "PixelFormat", &ct), data, iw, ih)
        };
        r.check(src == source, &format!("{}-source", kind), || format!("the {} pixels compressed come from {} {}", kind, show(&src), where_(p)));
        if let Some((n, m)) = count {
            let mut f = vec![];
            product(&n, &mut f);
            let each = bin("Mul", &bin("Div", &len(&src), &int(k)), &int(m));
            let sorted = |mut v: Vec<R>| {
                v.retain(|x| **x != T::Int(1));
                v.sort_by_key(|x| format!("{:?}", x));
                v
            };
            let ok = n == each || sorted(f) == sorted(vec![ww.clone(), hh.clone(), int(m)]);
            r.check(ok, &format!("{}-count", kind), || format!("{} pixels are made {} {}", kind, show(&n), where_(p)));
        }
        r.check(w == ww && h == hh, &format!("{}-size", kind), || format!("the {} image is compressed as {} x {} {}", kind, show(&w), show(&h), where_(p)));
        let want: Option<(i128, Vec<R>)> = match (kind, colour.as_deref()) {
            ("png", Some("Grayscale")) | ("jpeg", Some("L8")) => Some((1, vec![px.clone(), px.clone(), px.clone(), full])),
            ("png", Some("GrayscaleAlpha")) => Some((2, vec![at(0), at(0), at(0), at(1)])),
            ("png", Some("Rgb")) | ("jpeg", Some("RGB24")) => Some((3, vec![at(0), at(1), at(2), full])),
            ("png", Some("Rgba")) => Some((4, (0..4).map(at).collect())),
            // never produced by the decoder under these transformations
            ("png", Some("Indexed")) => continue,
            _ => None,
        };
        let cn = colour.clone().unwrap_or_default();
        r.check(want.as_ref() == Some(&(k, pat.clone())), &format!("{}-pixels|{}", kind, cn), || format!("{} pixels of type {:?} are expanded, {} bytes at a time, to [{}] {}", kind, colour, k, pat.iter().map(|x| show(x)).collect::<Vec<_>>().join(", "), where_(p)));
        *seen.entry(format!("{} {}", kind, cn)).or_insert(0) += 1;
    }
    for s in ["ext png", "ext jpg", "ext jpeg", "png Grayscale", "png GrayscaleAlpha", "png Rgb", "png Rgba", "jpeg L8", "jpeg RGB24"] {
        r.check(seen.contains_key(s), &format!("reach|{}", s), || format!("no successful run compresses such an image: {}", s));
    }
    c.paths = paths;
    r.stats_cli(&c);
}
fn is_input(n: &str) -> bool {
    ["File::open", "fs::read", "Dds::read", "Reader::", "Decoder::", "Format::decompress", "ImageReader::"].iter().any(|x| n.starts_with(x))
}
fn errors(r: &mut Rep, _: &str) {
    let Some(c) = load(r) else { return };
    let mut n = 0;
    for p in &c.paths {
        // the output is only created when everything needed has been read and converted
        if let Some(k) = p.st.evs.iter().position(|e| creates(e)) {
            for e in &p.st.evs[k + 1..] {
                r.check(!is_input(&e.name), &format!("order|{}", e.name), || format!("{} at {} happens after the output file was created at {}", e.name, e.span, p.st.evs[k].span));
            }
        }
        if !success(p) {
            // refused before the output was touched, or writing it failed
            if let Some(k) = p.st.evs.iter().position(|e| creates(e)) {
                let failed = p.st.evs[k..].iter().any(|e| e.fallible && known(p, &tag(&e.term)) == Some(1)) || looped(&c, p).iter().any(|e| e.fallible);
                let how = match &p.end {
                    End::Panic(w) => w.clone(),
                    _ => "exit".into(),
                };
                r.check(failed, "late", || format!("a run is refused ({}) after the output file was created at {}", how, p.st.evs[k].span));
            }
            continue;
        }
        n += 1;
        for e in &p.st.evs {
            if e.fallible {
                let k = known(p, &tag(&e.term));
                r.check(k == Some(0), &format!("unchecked|{}", e.name), || format!("a run succeeds although {} at {} {}", e.name, e.span, if k.is_none() { "may have failed (its result is not examined)" } else { "failed" }));
            }
            if &*e.name == "loop" {
                let T::Sym(s) = &*e.term else { continue };
                let id: usize = s.trim_start_matches("loop").parse().unwrap_or(0);
                for (cons, evs, _) in c.tx.loops.get(id.wrapping_sub(1)).map_or(vec![], |l| l.iters.clone()) {
                    for e in evs.iter().filter(|e| e.fallible) {
                        let ok = cons.iter().any(|x| x.1 && x.2 == 0 && x.0 == tag(&e.term));
                        r.check(ok, &format!("unchecked|{}", e.name), || format!("the result of {} at {} is not examined", e.name, e.span));
                    }
                }
            }
        }
        // buffered output is brought to the file, and the outcome looked at
        for e in &p.st.evs {
            let need = matches!(&*e.name, "BufWriter::new" | "BufWriter::with_capacity" | "LineWriter::new" | "Encoder::write_header");
            if !need {
                continue;
            }
            let png = &*e.name == "Encoder::write_header";
            let last = p.st.evs.iter().rposition(|x| derives(p, &x.term, &e.term) && !matches!(&*x.name, "loop"));
            let done = p.st.evs.iter().enumerate().any(|(k, x)| {
                let fin = x.name.ends_with("Writer::finish") || (!png && (x.name.ends_with("::flush") || x.name.ends_with("BufWriter::into_inner")));
                fin && x.fallible && derives(p, &x.args[0], &e.term) && last.map_or(false, |l| k >= l)
            });
            r.check(done, &format!("unfinished|{}", e.name), || format!("the output started by {} at {} is never finished and flushed with its outcome examined", e.name, e.span));
        }
    }
    r.check(n > 0, "reach", || "no run succeeds".into());
    r.stats_cli(&c);
}
/// the term is made from this call's result, directly or through objects that hold it
fn derives(_p: &Path, t: &R, from: &R) -> bool {
    has(t, from)
}
/// a file being opened: its name, and for an output whether an existing file is emptied
enum Open {
    Input(R),
    Output(R, bool),
}
fn opens(e: &Ev) -> Option<Open> {
    match &*e.name {
        "File::open" | "fs::read" | "fs::read_to_string" => Some(Open::Input(e.args[0].clone())),
        "File::create" | "File::create_new" | "fs::write" => Some(Open::Output(e.args[0].clone(), true)),
        "OpenOptions::open" => {
            let mut set: BTreeMap<String, bool> = BTreeMap::new();
            fn go(t: &R, set: &mut BTreeMap<String, bool>) {
                match &**t {
                    T::Call(_, n, a) => {
                        if let Some(x) = a.first() {
                            go(x, set);
                        }
                        if let (Some(m), Some(v)) = (n.strip_prefix("OpenOptions::"), a.get(1)) {
                            set.insert(m.to_string(), !matches!(&**v, T::Int(0)));
                        }
                    }
                    T::Out(x, _) => go(x, set),
                    _ => {}
                }
            }
            go(&e.args[0], &mut set);
            let on = |n: &str| set.get(n) == Some(&true);
            if on("write") || on("append") || on("create") || on("create_new") || on("truncate") {
                Some(Open::Output(e.args[1].clone(), (on("truncate") || on("create_new")) && !on("append")))
            } else {
                Some(Open::Input(e.args[1].clone()))
            }
        }
        _ => None,
    }
}
fn creates(e: &Ev) -> bool {
    matches!(opens(e), Some(Open::Output(..)))
}
/// path arithmetic in one form
fn canon(t: &R) -> R {
    match &**t {
        T::Call(0, n, a) => {
            let v: Vec<R> = a.iter().map(canon).collect();
            match &**n {
                "PathBuf::new" | "OsString::new" | "String::new" => Rc::new(T::Str("".into())),
                "Path::with_file_name" if is_empty(&v[0]) => v[1].clone(),
                "Path::join" if is_empty(&v[0]) => v[1].clone(),
                "Path::with_extension" => call("ext", vec![v[0].clone(), v[1].clone()]),
                _ => call(n, v),
            }
        }
        T::Out(c, 0) => match &**c {
            T::Call(0, n, a) => {
                let v: Vec<R> = a.iter().map(canon).collect();
                match &**n {
                    "PathBuf::set_extension" => call("ext", vec![v[0].clone(), v[1].clone()]),
                    "PathBuf::push" | "PathBuf::set_file_name" if is_empty(&v[0]) => v[1].clone(),
                    _ => t.clone(),
                }
            }
            _ => t.clone(),
        },
        T::Fld(x, v, i) => fld(&canon(x), *v, *i),
        _ => t.clone(),
    }
}
fn is_empty(t: &R) -> bool {
    matches!(&**t, T::Str(s) if s.is_empty())
}
fn outputs(r: &mut Rep, _: &str) {
    let Some(c) = load(r) else { return };
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for (cmd, ext) in [("compress", "dds"), ("decompress", "png")] {
        let (Some(inf), Some(outf)) = (c.opt(cmd, "INFILE"), c.opt(cmd, "output")) else {
            r.fail(&format!("anchor|{}", cmd), format!("{} has no input file or no option --output", cmd));
            return;
        };
        for p in c.paths.iter().filter(|p| c.command(p).as_deref() == Some(cmd)) {
            // files touched on any path, successful or not
            let mut made = vec![];
            for e in &p.st.evs {
                match opens(e) {
                    Some(Open::Input(n)) => {
                        r.check(canon(&n) == canon(&inf), &format!("{}|input", cmd), || format!("{} opens {} at {}", cmd, show(&n), e.span));
                        continue;
                    }
                    Some(Open::Output(n, empties)) => {
                        r.check(empties, &format!("{}|emptied", cmd), || format!("{} leaves the old content of an existing output file in place at {}", cmd, e.span));
                        made.push((e.clone(), n));
                        continue;
                    }
                    None => {}
                }
                if e.name.starts_with("OpenOptions::") {
                } else if (e.name.starts_with("fs::") || e.name.starts_with("env::") || e.name.starts_with("Command::") || e.name.starts_with("DirBuilder") || e.name.starts_with("thread::") || (e.name.starts_with("File::") && !e.name.starts_with("File::sync") && !e.name.starts_with("File as Write"))) && !e.name.contains("metadata") {
                    r.fail(&format!("{}|other|{}", cmd, e.name), format!("{} also does {} at {}", cmd, e.name, e.span));
                }
            }
            if success(p) {
                r.check(made.len() == 1, &format!("{}|created", cmd), || format!("a successful {} creates {} files {}", cmd, made.len(), where_(p)));
            } else {
                r.check(made.len() <= 1, &format!("{}|created", cmd), || format!("{} creates {} files {}", cmd, made.len(), where_(p)));
            }
            for e in looped(&c, p) {
                r.check(opens(&e).is_none() && !e.name.starts_with("fs::"), &format!("{}|loop", cmd), || format!("{} does {} repeatedly at {}", cmd, e.name, e.span));
            }
            for (e, name) in made {
                let name = canon(&name);
                let fname = call("Path::file_name", vec![inf.clone()]);
                let want = match known(p, &tag(&outf)) {
                    Some(1) => Some(fld(&outf, 1, 0)),
                    Some(0) => {
                        let base = match known(p, &tag(&fname)) {
                            Some(1) => Some(fld(&fname, 1, 0)),
                            Some(0) => Some(Rc::new(T::Str("output".into()))),
                            _ => None,
                        };
                        base.map(|b| call("ext", vec![b, Rc::new(T::Str(ext.into()))]))
                    }
                    _ => None,
                };
                let alt = known(p, &tag(&outf)) == Some(0) && known(p, &tag(&fname)) == Some(0) && name == Rc::new(T::Str(format!("output.{}", ext).into()));
                r.check(want.as_ref() == Some(&name) || alt, &format!("{}|name", cmd), || format!("{} writes to {} instead of {} at {}", cmd, show(&name), want.as_ref().map_or("the name asked for".into(), |w| show(w)), e.span));
                // what is written goes to this file
                if success(p) {
                    seen.insert(format!("{} {:?}", cmd, known(p, &tag(&outf))));
                    let f = fld(&e.term, 0, 0);
                    let w = p.st.evs.iter().filter(|x| matches!(&*x.name, "Dds::write" | "Writer::write_image_data")).collect::<Vec<_>>();
                    r.check(w.len() == 1 && w.iter().all(|x| has(&x.term, &f)), &format!("{}|target", cmd), || format!("the result is not written to the file created at {}", e.span));
                }
            }
        }
    }
    for s in ["compress Some(0)", "compress Some(1)", "decompress Some(0)", "decompress Some(1)"] {
        r.check(seen.contains(s), &format!("reach|{}", s), || format!("no such successful run: {} (output name absent or given)", s));
    }
    r.stats_cli(&c);
}
