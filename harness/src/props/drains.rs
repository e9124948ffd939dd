//! C20 expressions, C21 output templates, C22 patch-back.

use super::*;
use crate::engine::{boxed, Camp};
use crate::exec::{In, Var};
use crate::expr::{self, Env, EvErr, Ex};
use crate::gen::*;
use crate::util::{mix, Bytes};
use proptest::option::weighted;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

fn clean_error(o: &Out) -> bool {
    !o.ok() && !o.panicked() && !o.hung && !o.stderr.is_empty()
}

fn run_args(ex: &mut Exec, var: Var, args: Vec<String>) -> Out {
    let mut r = Req::new(var, args);
    r.stdin = In::Null;
    r.mem = 1 << 30;
    ex.run(&r)
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Val {
    e: Ex,
    sp: u64,
    width: usize,
    slices: usize,
    var: Var,
}

fn no_vars(_: &str) -> i64 {
    0
}
fn no_arr(_: &str, _: i64) -> i64 {
    0
}

fn eval_nl(e: &Ex, n: i64, l: i64) -> Result<i64, EvErr> {
    expr::eval(e, &Env { var: &|v| if v == "n" { n } else { l }, arr: &no_arr })
}

/// the value of an expression over n and l shows in the name of the file
fn value(c: &Val, ex: &mut Exec) -> Verdict {
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let data: Vec<u8> = expand(c.width * c.slices, c.sp, 3);
    let stream = data.clone();
    let mut failed = false;
    let mut seen = std::collections::HashSet::new();
    for (l, n) in (0..stream.len()).step_by(c.width).enumerate() {
        let e = (n + c.width).min(stream.len());
        match eval_nl(&c.e, n as i64, l as i64) {
            Ok(v) => {
                seen.insert(v);
                want.entry(format!("v_{v}")).or_default().extend_from_slice(&stream[n..e])
            }
            Err(EvErr::DivZero) => {
                failed = true;
                break;
            }
            Err(_) => return Verdict::Discard("arithmetic outside the domain"),
        }
    }
    let mut sp = c.sp;
    let text = expr::render(&c.e, &mut sp);
    let args = vec![
        "-f".into(),
        "b".into(),
        format!("--width={}", c.width),
        format!("-ov_{{({text}):d}}"),
        "in".into(),
    ];
    ex.reset();
    ex.put("in", &data);
    let o = run_args(ex, c.var, args.clone());
    if failed {
        if !clean_error(&o) {
            return Verdict::Fail(format!("nd {}: an expression without a value is accepted: {}", args.join(" "), o.describe()));
        }
        return Verdict::Pass { nontrivial: true, labels: vec!["no value"] };
    }
    if !o.ok() || !o.stdout.is_empty() {
        return Verdict::Fail(format!("nd '{}': {}", args.join("' '"), o.describe()));
    }
    let mut got: BTreeMap<String, Vec<u8>> = ex.ls().into_iter().filter(|f| f != "in").map(|f| (f.clone(), ex.get(&f).unwrap_or_default())).collect();
    if got != want {
        let extra: Vec<_> = got.keys().filter(|k| !want.contains_key(*k)).cloned().collect();
        let miss: Vec<_> = want.keys().filter(|k| !got.contains_key(*k)).cloned().collect();
        got.retain(|k, v| want.get(k) != Some(v));
        return Verdict::Fail(format!("nd '{}': files {extra:?} instead of {miss:?}; with wrong contents: {:?}", args.join("' '"), got.keys().collect::<Vec<_>>()));
    }
    let vars = expr::any_node(&c.e, &|x| matches!(x, Ex::Var(_)));
    Verdict::Pass { nontrivial: expr::ops(&c.e) > 0, labels: vec![if vars { "with variables" } else { "constant" }, if seen.len() > 1 { "several values" } else { "one value" }] }
}

fn leaf(vars: bool) -> B<Ex> {
    if vars {
        prop_oneof![3 => expr::num_strat(), 2 => prop::sample::select(vec!["n", "l"]).prop_map(|v| Ex::Var(v.to_string()))].boxed()
    } else {
        expr::num_strat()
    }
}

fn value_strat() -> B<Val> {
    (expr::strat(leaf(true), vec![]), any::<u64>(), 1usize..50, 1usize..6, var_any()).prop_map(|(e, sp, width, slices, var)| Val { e, sp, width, slices, var }).boxed()
}

/// an option given an expression is the option given its value
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Opt {
    e: Ex,
    f: Ex,
    sp: u64,
    which: u8,
    seed: u64,
    var: Var,
}

fn konst(e: &Ex) -> Result<i64, EvErr> {
    expr::eval(e, &Env { var: &no_vars, arr: &no_arr })
}

fn option(c: &Opt, ex: &mut Exec) -> Verdict {
    let (a, b) = (konst(&c.e), konst(&c.f));
    let none = |r: &Result<i64, EvErr>| matches!(r, Err(EvErr::Overflow | EvErr::BadShift | EvErr::NegIndex));
    if none(&a) || none(&b) {
        return Verdict::Discard("arithmetic outside the domain");
    }
    let mut sp = c.sp;
    let (ta, tb) = (expr::render(&c.e, &mut sp), expr::render(&c.f, &mut sp));
    let pair = [3, 8, 9, 10, 11, 12].contains(&(c.which % 13));
    let none = a.is_err() || (pair && b.is_err());
    let (va, vb) = (a.unwrap_or(0), b.unwrap_or(0));
    if va.abs() > 5000 || (pair && vb.abs() > 5000) {
        return Verdict::Discard("too large for an option");
    }
    let mk = |x: &str, y: &str| -> String {
        match c.which % 13 {
            0 => format!("--width={x}"),
            1 => format!("--cat={x}"),
            2 => format!("--zip={x}"),
            3 => format!("--pad={x},{y}"),
            4 => format!("--merge={x}"),
            5 => format!("--filler={x}"),
            6 => format!("--width=7,s+{x}.."),
            7 => format!("--walk={x}"),
            8 => format!("--cut={x}..{y}"),
            9 => format!("--slice={x}..{y}"),
            10 => format!("--width=4\n--lines={x}..{y}"),
            11 => format!("--width=9\n--extend={x}..{y}"),
            _ => format!("--width=5,{x}..{y}"),
        }
    };
    let par = |t: &str| if c.which % 13 == 6 { format!("({t})") } else { t.to_string() };
    let arg = |s: String| -> Vec<String> {
        s.split("\n--").enumerate().map(|(i, a)| if i == 0 { a.to_string() } else { format!("--{a}") }).collect()
    };
    let data = expand(150, c.seed, 3);
    let mut res = Vec::new();
    let texts = [mk(&par(&ta), &tb), mk(&par(&va.to_string()), &vb.to_string())];
    for t in &texts {
        ex.reset();
        ex.put("in", &data);
        ex.put("in2", &data[..70]);
        let mut args = arg(t.clone());
        args.push("in".into());
        args.push("in2".into());
        res.push(run_args(ex, c.var, args));
    }
    let (x, y) = (&res[0], &res[1]);
    if x.panicked() || y.panicked() || x.hung || y.hung {
        return Verdict::Fail(format!("nd '{}' / '{}': {} / {}", texts[0], texts[1], x.describe(), y.describe()));
    }
    if none {
        if !clean_error(x) {
            return Verdict::Fail(format!("nd '{}': an expression without a value is accepted: {}", texts[0], x.describe()));
        }
        return Verdict::Pass { nontrivial: true, labels: vec!["no value"] };
    }
    if x.ok() != y.ok() || (x.ok() && x.stdout != y.stdout) || (!x.ok() && (!clean_error(x) || !clean_error(y))) {
        return Verdict::Fail(format!("nd '{}' and '{}' differ: {} / {}; {}", texts[0], texts[1], x.describe(), y.describe(), diff(&y.stdout, &x.stdout)));
    }
    Verdict::Pass { nontrivial: x.ok() && expr::ops(&c.e) > 0, labels: vec![if x.ok() { "accepted" } else { "rejected" }] }
}

fn small_leaf() -> B<Ex> {
    prop_oneof![8 => (0i64..20, 0u8..16).prop_map(|(v, s)| Ex::Num(v, s)), 3 => (0i64..300, 0u8..16).prop_map(|(v, s)| Ex::Num(v, s)), 1 => expr::num_strat()].boxed()
}

fn option_strat() -> B<Opt> {
    let e = || {
        prop_oneof![
            1 => expr::strat(small_leaf(), vec![]),
            // mostly within what an option takes
            2 => (expr::strat(small_leaf(), vec![]), 0usize..3, 1i64..200).prop_map(|(e, k, m)| match k {
                0 => Ex::Bin("%".into(), Box::new(e), Box::new(Ex::Num(m, 0))),
                1 => Ex::Bin("&".into(), Box::new(e), Box::new(Ex::Num(m, 1))),
                _ => Ex::Bin("+".into(), Box::new(Ex::Bin("&".into(), Box::new(e), Box::new(Ex::Num(127, 0)))), Box::new(Ex::Num(m / 10, 0))),
            }),
        ]
    };
    (e(), e(), any::<u64>(), 0u8..13, any::<u64>(), var_any()).prop_map(|(e, f, sp, which, seed, var)| Opt { e, f, sp, which, seed, var }).boxed()
}

/// texts that are no expressions
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Bad {
    e: Ex,
    sp: u64,
    how: u8,
    at: u32,
    which: u8,
    var: Var,
}

fn bad_text(c: &Bad) -> String {
    let mut sp = c.sp;
    let t = expr::render(&c.e, &mut sp);
    let at = c.at as u64;
    let pick = |v: &[&str]| v[(at % v.len() as u64) as usize].to_string();
    match c.how % 9 {
        0 => format!("({t}"),
        1 => format!("{t})"),
        2 => format!("{t}{}", pick(&["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<=", ">="])),
        3 => format!("{}{t}", pick(&["*", "/", "%", "&", "|", "^", "<<", ">>"])),
        4 => format!("({t})+()"),
        5 => format!("({t})+{}", pick(&["q", "zz", "n1", "$", "#", "@", "\\", "`", "'", "\"", "?", ";", "{", "}", "s_", "nn"])),
        6 => format!("{}+({t})", pick(&["0b2", "0b", "0o8", "0x", "0xg", "08", "09", "9223372036854775808", "0xffffffffffffffff", "99999999999999999999", "0d", "1kk", "30e", "0b12", "10e", "16Ei", "0x8000000000000000"])),
        7 => format!("({t}) ({t})"),
        _ => format!("({t}]"),
    }
}

fn malformed(c: &Bad, ex: &mut Exec) -> Verdict {
    let t = bad_text(c);
    let a = match c.which % 6 {
        0 => format!("--merge={t}"),
        1 => format!("--slice={t}..s+4"),
        2 => format!("--walk={t}"),
        3 => format!("--pad={t},1"),
        4 => format!("--width={t}"),
        _ => format!("--cut=s..{t}"),
    };
    ex.reset();
    ex.put("in", b"0123456789abcdefghi");
    let o = run_args(ex, c.var, vec![a.clone(), "in".into()]);
    if !clean_error(&o) || !o.stdout.is_empty() {
        return Verdict::Fail(format!("nd '{a}' is accepted or ends in the wrong way: {}", o.describe()));
    }
    Verdict::Pass { nontrivial: true, labels: vec![] }
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Spec {
    fill: Option<char>,
    align: u8,
    plus: u8,
    alt: bool,
    zero: bool,
    width: usize,
    base: u8,
}

impl Spec {
    fn text(&self) -> String {
        let mut s = String::new();
        if self.align % 4 != 0 {
            s.extend(self.fill);
            s.push(['<', '^', '>'][self.align as usize % 4 - 1]);
        }
        s.push_str(["", "+", "-"][self.plus as usize % 3]);
        if self.alt {
            s.push('#');
        }
        if self.width > 0 {
            if self.zero {
                s.push('0');
            }
            s.push_str(&self.width.to_string());
        }
        s.push_str(["", "d", "x", "X", "o", "b"][self.base as usize % 6]);
        s
    }

    /// by Rust's own formatting
    fn render(&self, v: i64) -> String {
        let w = if self.zero { self.width } else { 0 };
        macro_rules! f {
            ($t:literal) => {
                match (self.plus % 3 == 1, self.alt) {
                    (false, false) => format!(concat!("{:0w$", $t, "}"), v, w = w),
                    (false, true) => format!(concat!("{:#0w$", $t, "}"), v, w = w),
                    (true, false) => format!(concat!("{:+0w$", $t, "}"), v, w = w),
                    (true, true) => format!(concat!("{:+#0w$", $t, "}"), v, w = w),
                }
            };
        }
        let core = match self.base % 6 {
            0 | 1 => f!(""),
            2 => f!("x"),
            3 => f!("X"),
            4 => f!("o"),
            _ => f!("b"),
        };
        let pad = self.width.saturating_sub(core.chars().count());
        let l = match self.align % 4 {
            1 => 0,
            2 => pad / 2,
            _ => pad,
        };
        let fill = if self.align % 4 != 0 { self.fill.unwrap_or(' ') } else { ' ' };
        let rep = |n| std::iter::repeat(fill).take(n).collect::<String>();
        format!("{}{core}{}", rep(l), rep(pad - l))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Part {
    Lit(String),
    Var(String, Option<Spec>),
    Expr(Ex, u64, Option<Spec>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub(super) struct Tpl {
    pipe: Pipe,
    parts: Vec<Part>,
    /// files that exist before: the name of the i-th slice's file, or another one
    old: Vec<(u32, Bytes)>,
    dir: bool,
}

fn tpl_text(parts: &[Part]) -> String {
    parts
        .iter()
        .map(|p| {
            let s = |s: &Option<Spec>| s.as_ref().map_or(String::new(), |s| format!(":{}", s.text()));
            match p {
                Part::Lit(t) => t.clone(),
                Part::Var(v, f) => format!("{{{v}{}}}", s(f)),
                Part::Expr(e, sp, f) => {
                    let mut sp = *sp;
                    format!("{{({}){}}}", expr::render(e, &mut sp), s(f))
                }
            }
        })
        .collect()
}

fn tpl_name(parts: &[Part], n: i64, l: i64) -> Result<String, EvErr> {
    let mut o = String::new();
    for p in parts {
        let (v, f) = match p {
            Part::Lit(t) => {
                o.push_str(t);
                continue;
            }
            Part::Var(v, f) => (if v == "n" { n } else { l }, f),
            Part::Expr(e, _, f) => (eval_nl(e, n, l)?, f),
        };
        match f {
            None => o.push_str(&v.to_string()),
            Some(f) => o.push_str(&f.render(v)),
        }
    }
    Ok(o)
}

fn template(c: &Tpl, ex: &mut Exec) -> Verdict {
    template_upto(c, 300, ex)
}

/// thousands of slices into up to thousands of files, coming back to the same files
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Many {
    slices: usize,
    width: usize,
    seed: u64,
    modulus: i64,
    how: u8,
    var: Var,
}

fn many(c: &Many, ex: &mut Exec) -> Verdict {
    let mut p = Pipe::new(expand(c.slices * c.width, c.seed, 2), c.var);
    p.outf = if c.how & 1 == 0 { OutF::B } else { OutF::Default };
    p.slicer = Some(Slicer::Width(c.width, None));
    if c.how & 2 != 0 {
        // overlapping slices
        let e = |a, k| Some(End { a, k, style: 2 });
        p.extend = Some(vec![Range { s: e(Anchor::S, 0), e: e(Anchor::E, 1 + (c.seed % 400) as i64) }]);
    }
    let v = Box::new(Ex::Var(if c.how & 4 == 0 { "l" } else { "n" }.into()));
    let m = if c.how & 4 == 0 { c.modulus } else { c.modulus * c.width as i64 };
    let op = if c.how & 8 == 0 { "%" } else { "/" };
    let parts = vec![Part::Expr(Ex::Bin(op.into(), v, Box::new(Ex::Num(m.max(1), 0))), 0, None)];
    let old = vec![(1, Bytes(vec![b'x'; 3000])), (0, Bytes(b"keep".to_vec()))];
    template_upto(&Tpl { pipe: p, parts, old, dir: c.how & 16 != 0 }, 15_000, ex)
}

fn template_upto(c: &Tpl, limit: usize, ex: &mut Exec) -> Verdict {
    match model(&c.pipe) {
        Ok(m) if !m.aborted => template_at(c, &c.pipe, m, 0, limit, ex),
        Ok(_) => Verdict::Discard("the walk aborts"),
        Err(d) => Verdict::Discard(d),
    }
}

fn template_scaled(c: &(Tpl, super::scale::Grow), ex: &mut Exec) -> Verdict {
    let p = c.1.apply(&c.0.pipe);
    match super::scale::bounded(&p, 12 << 20) {
        Ok(m) => template_at(&c.0, &p, m, 0, 300, ex),
        Err(d) => Verdict::Discard(d),
    }
}

/// at offsets that padding makes reachable
fn template_far(c: &(Tpl, usize), ex: &mut Exec) -> Verdict {
    match far::prepare(&far::Distant { pipe: c.0.pipe.clone(), shift: c.1 }) {
        Ok((p, m, d)) => template_at(&c.0, &p, m, d, 300, ex),
        Err(d) => Verdict::Discard(d),
    }
}

/// `p` is what is run, `m` what its result is, `shift` bytes away from there
fn template_at(c: &Tpl, p: &Pipe, m: Model, shift: usize, limit: usize, ex: &mut Exec) -> Verdict {
    template_how(c, p, m, shift, limit, How { short: None, full_at: None }, ex)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub(super) struct How {
    /// short and interrupted transfers
    short: Option<u32>,
    /// files cannot grow beyond a part (in 255ths) of the largest one
    full_at: Option<u8>,
}

fn template_how(c: &Tpl, p: &Pipe, m: Model, shift: usize, limit: usize, how: How, ex: &mut Exec) -> Verdict {
    if m.slices.len() > limit {
        return Verdict::Discard("too many files");
    }
    let parts: Vec<Part> = std::iter::once(Part::Lit(if c.dir { "sub/o".into() } else { "o".into() })).chain(c.parts.iter().cloned()).collect();
    let templated = parts.iter().any(|x| !matches!(x, Part::Lit(_)));
    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut names = Vec::new();
    for (l, &(s, e)) in m.slices.iter().enumerate() {
        let name = match tpl_name(&parts, (s + shift) as i64, l as i64) {
            Ok(n) => n,
            Err(_) => return Verdict::Discard("arithmetic outside the domain"),
        };
        if name.rsplit('/').next().unwrap().len() > 200 {
            return Verdict::Discard("the file name is too long");
        }
        let mut b = Vec::new();
        fmt_at(&m.stream, s, e, shift, p.outf, m.cols, &mut b);
        want.entry(name.clone()).or_default().extend_from_slice(&b);
        names.push(name);
    }
    if !templated {
        want.entry(tpl_text(&parts)).or_default();
    }
    let cmd = command(p);
    ex.reset();
    for (n, b) in &cmd.files {
        ex.put(n, b);
    }
    let _ = std::fs::create_dir(ex.cwd().join("sub"));
    let mut reused = false;
    let written: std::collections::HashSet<String> = want.keys().cloned().collect();
    for (i, b) in &c.old {
        let name = if *i % 3 == 0 || names.is_empty() { format!("o-old{}", i % 7) } else { names[*i as usize % names.len()].clone() };
        if written.contains(&name) {
            reused = true;
        } else {
            want.insert(name.clone(), b.0.clone());
        }
        ex.put(&name, &b.0);
    }
    let text = tpl_text(&parts);
    let mut args = vec![format!("--output={text}")];
    args.extend(cmd.args);
    let mut r = Req::new(p.var, args);
    r.stdin = cmd.stdin;
    r.shim = how.short.map(|s| format!("short={s};eintr=3"));
    let largest = want.iter().filter(|x| written.contains(x.0)).map(|x| x.1.len()).max().unwrap_or(0);
    r.full_at = how.full_at.map(|x| (largest as u64 * (x as u64 + 1)).div_ceil(255));
    let o = ex.run(&r);
    if r.full_at.is_some_and(|x| x < largest as u64) {
        let what = format!("nd '--output={text}' {}: files of up to {} bytes fit, {largest} are needed: {}", show(p), r.full_at.unwrap(), o.describe());
        if o.ok() || o.panicked() || o.hung || o.stderr.is_empty() {
            return Verdict::Fail(what);
        }
        // every file is the beginning of what it should be, or still the old one
        for (k, v) in &want {
            let g = ex.get(k).unwrap_or_default();
            let old = c.old.iter().any(|x| x.1 .0 == g);
            if !v.starts_with(&g) && !old {
                return Verdict::Fail(format!("{what}; wrong contents of {k:?}: {}", diff(v, &g)));
            }
        }
        return Verdict::Pass { nontrivial: true, labels: vec!["does not fit"] };
    }
    if !o.ok() || !o.stdout.is_empty() {
        return Verdict::Fail(format!("nd '--output={text}' {}: {}, {} bytes on standard output", show(p), o.describe(), o.stdout.len()));
    }
    let mut got: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let sub: Vec<String> = std::fs::read_dir(ex.cwd().join("sub")).map(|d| d.flatten().map(|f| format!("sub/{}", f.file_name().to_string_lossy())).collect()).unwrap_or_default();
    for f in ex.ls().into_iter().filter(|f| f != "sub" && !cmd.files.iter().any(|x| x.0 == *f)).chain(sub) {
        got.insert(f.clone(), ex.get(&f).unwrap_or_default());
    }
    if got != want {
        for (k, v) in &want {
            match got.get(k) {
                None => return Verdict::Fail(format!("nd '--output={text}' {}: no file {k:?}; there are {:?}", show(p), got.keys().collect::<Vec<_>>())),
                Some(g) if g != v => return Verdict::Fail(format!("nd '--output={text}' {}: wrong contents of {k:?}: {}", show(p), diff(v, g))),
                _ => {}
            }
        }
        return Verdict::Fail(format!("nd '--output={text}' {}: unexpected files {:?}", show(p), got.keys().filter(|k| !want.contains_key(*k)).collect::<Vec<_>>()));
    }
    let distinct: std::collections::HashSet<_> = names.iter().collect();
    let mut labels = vec![];
    if distinct.len() > 1 {
        labels.push("several files");
    }
    if distinct.len() < names.len() {
        labels.push("several slices in a file");
    }
    if reused {
        labels.push("an existing file replaced");
    }
    if !templated {
        labels.push("plain name");
    }
    Verdict::Pass { nontrivial: names.len() > 1, labels }
}

/// short transfers, or devices getting full, below --output
pub(super) fn full_strat() -> B<(Tpl, How)> {
    (
        tpl_strat(),
        prop_oneof![
            1 => any::<u32>().prop_map(|s| How { short: Some(s), full_at: None }),
            3 => any::<u8>().prop_map(|x| How { short: None, full_at: Some(x) }),
            1 => (any::<u32>(), any::<u8>()).prop_map(|(s, x)| How { short: Some(s), full_at: Some(x) }),
        ],
        any::<u8>(),
    )
        .prop_map(|(mut t, h, plain)| {
            match plain % 4 {
                // one name, one file
                0 | 1 => t.parts = vec![Part::Lit("plain".into())],
                2 => t.parts = vec![Part::Expr(Ex::Bin("%".into(), Box::new(Ex::Var("l".into())), Box::new(Ex::Num(1 + plain as i64 / 64, 0))), 0, None)],
                _ => {}
            }
            (t, h)
        })
        .boxed()
}

pub(super) fn full_files(c: &(Tpl, How), ex: &mut Exec) -> Verdict {
    match model(&c.0.pipe) {
        Ok(m) if !m.aborted => template_how(&c.0, &c.0.pipe, m, 0, 300, c.1, ex),
        Ok(_) => Verdict::Discard("the walk aborts"),
        Err(d) => Verdict::Discard(d),
    }
}

fn spec() -> B<Spec> {
    (
        prop_oneof![Just(None), prop::sample::select(vec!['*', '0', '_', '=', 'x', '-', '+', 'é', '1', '#', '<']).prop_map(Some)],
        prop_oneof![3 => Just(0u8), 2 => 1u8..4],
        0u8..3,
        any::<bool>(),
        any::<bool>(),
        prop_oneof![2 => Just(0usize), 4 => 1usize..9, 1 => 9usize..30],
        0u8..6,
    )
        .prop_map(|(fill, align, plus, alt, zero, width, base)| Spec { fill, align, plus, alt, zero, width, base })
        .boxed()
}

fn part() -> B<Part> {
    prop_oneof![
        3 => prop::sample::select(vec!["_", "-", ".", "a", "0", "file.", "%", "x=", "~", " ", "é"]).prop_map(|s| Part::Lit(s.to_string())),
        4 => (prop::sample::select(vec!["n", "l"]), weighted(0.6, spec())).prop_map(|(v, s)| Part::Var(v.to_string(), s)),
        4 => (prop_oneof![
            2 => expr::strat(leaf(true), vec![]),
            3 => (prop::sample::select(vec!["n", "l"]), 0usize..5, 1i64..40).prop_map(|(v, o, k)| Ex::Bin(["&", "%", "/", "-", ">>"][o].into(), Box::new(Ex::Var(v.into())), Box::new(Ex::Num(k, 0)))),
        ], any::<u64>(), weighted(0.6, spec())).prop_map(|(e, s, f)| Part::Expr(e, s, f)),
    ]
    .boxed()
}

fn tpl_strat() -> B<Tpl> {
    (
        full(500),
        any::<u8>(),
        prop_oneof![8 => prop::collection::vec(part(), 1..4), 1 => Just(vec![Part::Lit("plain".into())])],
        prop::collection::vec((any::<u32>(), prop::collection::vec(any::<u8>(), 0..100).prop_map(Bytes)), 0..3),
        prop_oneof![4 => Just(false), 1 => Just(true)],
    )
        .prop_map(|(p, thin, parts, old, dir)| {
            // most of the time, just a slicer
            let p = if thin % 4 != 0 { Pipe { regex: None, extend: None, invert: None, merge: None, lines: None, cut: None, patch: None, ..p } } else { p };
            Tpl { pipe: p, parts, old, dir }
        })
        .boxed()
}

/// -o - and -o '' are the standard output
fn stdout_names(c: &(Pipe, bool), ex: &mut Exec) -> Verdict {
    let (p, dash) = c;
    let m = match model(p) {
        Ok(m) if !m.aborted => m,
        Ok(_) => return Verdict::Discard("the walk aborts"),
        Err(d) => return Verdict::Discard(d),
    };
    let want = format(&m.stream, &m.slices, p.outf, m.cols);
    let cmd = command(p);
    ex.reset();
    for (n, b) in &cmd.files {
        ex.put(n, b);
    }
    let before = ex.ls();
    let mut args = vec![if *dash { "--output=-".to_string() } else { "--output=".to_string() }];
    args.extend(cmd.args);
    let mut r = Req::new(p.var, args);
    r.stdin = cmd.stdin;
    let o = ex.run(&r);
    if !o.ok() || o.stdout != want || ex.ls() != before {
        return Verdict::Fail(format!("nd -o '{}' {}: {}, files {:?}; {}", if *dash { "-" } else { "" }, show(p), o.describe(), ex.ls(), diff(&want, &o.stdout)));
    }
    Verdict::Pass { nontrivial: !want.is_empty(), labels: vec![] }
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Child {
    /// hands some of the records back
    Cat,
    Head(usize),
    Tail(usize),
    EveryOther(bool),
    /// replaces the first byte of every array
    First(u8),
    /// empties all arrays
    Delete,
    /// stores what it gets, and prints these records, in one of several orders
    Tee { recs: Vec<Rec>, how: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Back {
    pipe: Pipe,
    child: Child,
    inplace: bool,
    short: Option<u32>,
}

fn back_scaled(c: &(Back, super::scale::Grow), ex: &mut Exec) -> Verdict {
    let mut pipe = c.1.apply(&c.0.pipe);
    if !c.0.inplace && pipe.inputs.len() > 1 {
        if let Some(mut r) = pipe.patch.take() {
            let l = edited(&pipe).len();
            fold_recs(&mut r, l);
            pipe.patch = Some(r);
        }
    }
    if let Err(d) = super::scale::bounded(&pipe, 6 << 20) {
        return Verdict::Discard(d);
    }
    let mut child = c.0.child.clone();
    if let Child::Tee { recs, .. } = &mut child {
        for (i, r) in recs.iter_mut().enumerate() {
            r.gap *= 1 + c.1.k / (1 + i % 3);
            r.len *= 1 + c.1.k / (1 + i % 4);
            if let Some(d) = &mut r.data {
                let n = (d.len() * c.1.k).min(100_000);
                *d = Bytes((0..if d.is_empty() { 0 } else { n }).map(|j| d.0[j % d.len()]).collect());
            }
        }
        fold_recs(recs, edited(&pipe).len());
    }
    back(&Back { pipe, child, ..c.0.clone() }, ex)
}

fn back(c: &Back, ex: &mut Exec) -> Verdict {
    let p = &c.pipe;
    let m = match model(p) {
        Ok(m) if !m.aborted => m,
        Ok(_) => return Verdict::Discard("the walk aborts"),
        Err(d) => return Verdict::Discard(d),
    };
    let hexout = matches!(p.outf, OutF::Default | OutF::X);
    if !hexout && !matches!(c.child, Child::Tee { .. }) {
        return Verdict::Discard("the records are not in hexadecimal");
    }
    let fed = format(&m.stream, &m.slices, p.outf, m.cols);
    let pick = |v: Vec<usize>| -> Vec<usize> { v };
    let all: Vec<usize> = (0..m.slices.len()).collect();
    let mut want_got = None;
    let mut recs_text = Vec::new();
    let mut data: Vec<Option<Vec<u8>>> = vec![None; m.slices.len()];
    let (script, kept): (String, Option<Vec<usize>>) = match &c.child {
        Child::Cat => ("cat".into(), Some(pick(all))),
        Child::Head(k) => (format!("head -n {k}"), Some(all.into_iter().take(*k).collect())),
        Child::Tail(k) => (format!("tail -n {k}"), Some(all.iter().copied().skip(all.len().saturating_sub(*k)).collect())),
        Child::EveryOther(odd) => (format!("sed -n '{}~2p'", if *odd { 2 } else { 1 }), Some(all.into_iter().filter(|i| i % 2 == usize::from(*odd)).collect())),
        Child::First(b) => {
            for (d, &(s, e)) in data.iter_mut().zip(&m.slices) {
                let mut v = m.stream[s..e].to_vec();
                v[0] = *b;
                *d = Some(v);
            }
            (format!("sed 's/| [0-9a-f][0-9a-f] /| {b:02x} /'"), Some(all))
        }
        Child::Delete => {
            data.iter_mut().for_each(|d| *d = Some(vec![]));
            ("sed 's/|.*/| /'".into(), Some(all))
        }
        Child::Tee { recs, how } => {
            recs_text = render_recs(recs, true);
            let s = match how % 9 {
                0 => "cat > got; cat recs",
                1 => "cat recs; cat > got",
                2 => "cat recs & cat > got; wait",
                3 => "cat > got; sleep 0.02; cat recs; sleep 0.02",
                4 => "cat recs",
                5 => "exec <&-; cat recs",
                6 => "head -c 100 > /dev/null; cat recs",
                7 => "cat > got; cat recs; exit 3",
                _ => "tee got > /dev/null; cat recs",
            };
            if ![4, 5, 6].contains(&(how % 9)) {
                want_got = Some(fed.clone());
            }
            (s.into(), None)
        }
    };
    let abs: Vec<AbsRec> = match (&c.child, &kept) {
        (Child::Tee { recs, .. }, _) => absolute(recs),
        (_, Some(k)) => {
            if k.windows(2).any(|w| m.slices[w[0]].1 > m.slices[w[1]].0) {
                return Verdict::Discard("overlapping slices");
            }
            k.iter()
                .map(|&i| {
                    let (s, e) = m.slices[i];
                    AbsRec { off: s, len: e - s, data: data[i].as_deref().unwrap_or(&m.stream[s..e]) }
                })
                .collect()
        }
        _ => unreachable!(),
    };
    let want = apply_patch(&m.stream, &abs);
    let cmd = command(p);
    let inplace = c.inplace && p.inputs.len() == 1 && p.feed == Feed::Files && p.mode == Mode::Default;
    ex.reset();
    for (n, b) in &cmd.files {
        ex.put(n, b);
    }
    ex.put("recs", &recs_text);
    let mut args = vec![format!("--patch-back={script}")];
    if inplace {
        args.push("-i".into());
    }
    args.extend(cmd.args);
    let mut r = Req::new(p.var, args);
    r.stdin = cmd.stdin;
    r.shim = c.short.map(|s| format!("short={s}"));
    let o = ex.run(&r);
    let what = format!("nd {}--patch-back '{script}' {} (records {:?})", if inplace { "-i " } else { "" }, show(p), String::from_utf8_lossy(&recs_text));
    if !o.ok() {
        return Verdict::Fail(format!("{what}: {}", o.describe()));
    }
    let got = if inplace { ex.get("in0").unwrap_or_default() } else { o.stdout.clone() };
    if got != want {
        return Verdict::Fail(format!("{what}: wrong result: {}", diff(&want, &got)));
    }
    if inplace && !o.stdout.is_empty() {
        return Verdict::Fail(format!("{what}: something on standard output"));
    }
    if let Some(w) = want_got {
        let g = ex.get("got").unwrap_or_default();
        if g != w {
            return Verdict::Fail(format!("{what}: the command got something else: {}", diff(&w, &g)));
        }
    }
    Verdict::Pass {
        nontrivial: !m.stream.is_empty() && (!abs.is_empty() || !fed.is_empty()),
        labels: vec![
            match &c.child {
                Child::Cat => "identity",
                Child::Tee { how, .. } if [4, 5, 6].contains(&(how % 9)) => "input left unread",
                Child::Tee { .. } => "arbitrary records",
                Child::First(_) | Child::Delete => "edited",
                _ => "selected",
            },
            if inplace { "in place" } else { "to standard output" },
        ],
    }
}

fn child() -> B<Child> {
    prop_oneof![
        2 => Just(Child::Cat),
        1 => (0usize..30).prop_map(Child::Head),
        1 => (0usize..30).prop_map(Child::Tail),
        1 => any::<bool>().prop_map(Child::EveryOther),
        2 => any::<u8>().prop_map(Child::First),
        1 => Just(Child::Delete),
        6 => (patch_recs(), 0u8..9).prop_map(|(recs, how)| Child::Tee { recs, how }),
    ]
    .boxed()
}

fn back_strat() -> B<Back> {
    (full(900), child(), weighted(0.3, any::<()>()), weighted(0.2, any::<u32>()), any::<u8>())
        .prop_map(|(p, mut child, inplace, short, thin)| {
            let p = if thin % 3 != 0 { Pipe { regex: None, extend: None, ..p } } else { p };
            if let Child::Tee { recs, .. } = &mut child {
                fold_recs(recs, edited(&p).len());
            }
            let inplace = inplace.is_some();
            let mut p = if inplace { Pipe { feed: Feed::Files, mode: Mode::Default, inputs: p.inputs[..1].to_vec(), ..p } } else { p };
            if let Some(mut r) = p.patch.take() {
                fold_recs(&mut r, edited(&p).len());
                p.patch = Some(r);
            }
            let mut c = Back { pipe: p, child, inplace, short };
            if let Child::Tee { recs, .. } = &mut c.child {
                fold_recs(recs, edited(&c.pipe).len());
            }
            c
        })
        .boxed()
}

/// much more than what a pipe holds, in every direction
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Bulk {
    len: usize,
    width: usize,
    seed: u64,
    child: u8,
    avx2: bool,
    small: bool,
}

fn bulk(c: &Bulk, ex: &mut Exec) -> Verdict {
    let x = expand(c.len, c.seed, 2);
    let var = match (c.small, c.avx2) {
        (true, _) => Var::NaiveSmall,
        (_, true) => Var::Avx2Real,
        _ => Var::NaiveReal,
    };
    let p = Pipe { slicer: Some(Slicer::Width(c.width, None)), ..Pipe::new(x.clone(), var) };
    let n = c.len / 3;
    let recs: Vec<Rec> = (0..n / 2).map(|i| Rec { gap: 2, len: 4, data: Some(Bytes(vec![i as u8; i % 6])), style: i as u32 }).collect();
    let edit = || apply_patch(&x, &absolute(&recs));
    let (script, want): (&str, Vec<u8>) = match c.child % 7 {
        0 => ("cat", x.clone()),
        1 => ("true", x.clone()),
        2 => ("cat recs; cat > /dev/null", edit()),
        3 => ("cat recs", edit()),
        4 => ("cat > /dev/null; cat recs", edit()),
        5 => ("sleep 0.1; tac | tac", x.clone()),
        _ => ("head -n 3", x.clone()),
    };
    let cmd = command(&p);
    ex.reset();
    for (n, b) in &cmd.files {
        ex.put(n, b);
    }
    ex.put("recs", &render_recs(&recs, false));
    let mut args = vec![format!("--patch-back={script}")];
    args.extend(cmd.args);
    let o = run_args(ex, var, args);
    if !o.ok() || o.stdout != want {
        return Verdict::Fail(format!("nd --patch-back '{script}' --width {} on {} bytes: {}; {}", c.width, c.len, o.describe(), diff(&want, &o.stdout)));
    }
    Verdict::Pass { nontrivial: true, labels: vec![] }
}

/// what the command prints is no valid patch
fn bad_patch(c: &(Pipe, Vec<Rec>, u32, u8), ex: &mut Exec) -> Verdict {
    let (p, recs, seed, how) = c;
    if !matches!(model(p), Ok(m) if !m.aborted) {
        return Verdict::Discard("the walk aborts");
    }
    let mut st = *seed as u64;
    let mut t = render_recs(recs, false);
    match how % 3 {
        0 => t.extend_from_slice(b"not a record\n"),
        1 => {
            if !t.is_empty() && !t.ends_with(b"\n") {
                t.push(b'\n');
            }
            t.extend_from_slice(b"zz 4 | 61 62 63 64\n")
        }
        _ => {
            let abs = absolute(recs);
            let Some(l) = abs.last() else { return Verdict::Discard("no records") };
            if l.off + l.len == 0 {
                return Verdict::Discard("nothing to overlap with");
            }
            let off = (l.off + l.len - 1) - mix(&mut st) as usize % (l.off + l.len).min(10);
            t.extend_from_slice(format!("{off:x} 3 | 61\n").as_bytes());
        }
    }
    let cmd = command(p);
    ex.reset();
    for (n, b) in &cmd.files {
        ex.put(n, b);
    }
    ex.put("recs", &t);
    let mut args = vec!["--patch-back=cat recs".to_string()];
    args.extend(cmd.args);
    let mut r = Req::new(p.var, args);
    r.stdin = cmd.stdin;
    let o = ex.run(&r);
    if !clean_error(&o) {
        return Verdict::Fail(format!("nd --patch-back 'cat recs' {} with {:?}: {}", show(p), String::from_utf8_lossy(&t), o.describe()));
    }
    Verdict::Pass { nontrivial: true, labels: vec![] }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            level: "exploration",
            assumptions: &["64-bit two's complement arithmetic; cases in which an intermediate value leaves it are not judged"],
            camps: vec![
                boxed(Camp { name: "value", quick: 60000, thorough: 3_000_000, rule: "the value of a random expression over n and l, read off the file names of --output; non-trivial: at least one operator", strat: value_strat, test: value }),
                boxed(Camp { name: "long", quick: 10000, thorough: 400_000, rule: "the same for chains and nests of up to 300 operators; non-trivial: at least one operator", strat: || (expr::long_strat(leaf(true)), any::<u64>(), 1usize..50, 1usize..6, var_any()).prop_map(|(e, sp, width, slices, var)| Val { e, sp, width, slices, var }).boxed(), test: value }),
                boxed(Camp { name: "option", quick: 40000, thorough: 2_000_000, rule: "an option of any kind given an expression and given the value the reference evaluator has for it; non-trivial: accepted and at least one operator", strat: option_strat, test: option }),
                boxed(Camp { name: "malformed", quick: 20000, thorough: 500_000, rule: "an expression made malformed in one of nine ways is rejected; non-trivial: every case", strat: || (expr::strat(small_leaf(), vec![]), any::<u64>(), 0u8..9, any::<u32>(), 0u8..6, var_any()).prop_map(|(e, sp, how, at, which, var)| Bad { e, sp, how, at, which, var }).boxed(), test: malformed }),
            ],
        },
        Prop {
            id: "C21",
            level: "exploration",
            assumptions: &[],
            camps: vec![
                boxed(Camp { name: "template", quick: 40000, thorough: 1_500_000, rule: "a pipeline with an output template, compared file by file with the reference model, numbers rendered by Rust's own formatting; non-trivial: more than one slice", strat: tpl_strat, test: template }),
                boxed(Camp { name: "many", quick: 1200, thorough: 24_000, rule: "300 to 14000 slices into one to thousands of files, each file receiving slices close together or far apart; non-trivial: more than one slice", strat: || (prop_oneof![5 => 300usize..6000, 1 => 5000usize..14_000], 1usize..9, any::<u64>(), prop_oneof![1 => 1i64..10, 3 => 10i64..3000, 1 => 4000i64..9000], 0u8..32, var_any()).prop_map(|(slices, width, seed, modulus, how, var)| Many { slices, width, seed, modulus, how, var }).boxed(), test: many }),
                boxed(Camp { name: "distant", quick: 5000, thorough: 150_000, rule: "the same at offsets of 4 KiB to 4 TiB; non-trivial: more than one slice", strat: || (far::strat_quick(), tpl_strat()).prop_map(|(d, t)| (Tpl { pipe: d.pipe, ..t }, d.shift)).boxed(), test: template_far }),
                boxed(Camp { name: "scaled", quick: 4000, thorough: 100_000, rule: "the same with all lengths, offsets and distances multiplied by 2 to 20000; non-trivial: more than one slice", strat: || (tpl_strat(), super::scale::grow(20_000)).boxed(), test: template_scaled }),
                boxed(Camp { name: "stdout", quick: 5000, thorough: 100_000, rule: "-o - and -o '' write to standard output; non-trivial: there is output", strat: || (full(500), any::<bool>()).boxed(), test: stdout_names }),
            ],
        },
        Prop {
            id: "C22",
            level: "exploration",
            assumptions: &["bash, cat, head, tail, sed, tac and tee work as documented"],
            camps: vec![
                boxed(Camp { name: "commands", quick: 12000, thorough: 600_000, rule: "a pipeline with --patch-back and a command of one of several families, against the reference model; non-trivial: the stream is not empty and there are slices or records", strat: back_strat, test: back }),
                boxed(Camp { name: "scaled", quick: 5000, thorough: 100_000, rule: "the same with all lengths, offsets and distances multiplied by 2 to 5000; non-trivial: the stream is not empty and there are slices or records", strat: || (back_strat(), super::scale::grow(5000)).boxed(), test: back_scaled }),
                boxed(Camp { name: "bulk", quick: 100, thorough: 3000, rule: "inputs of up to 900 KB, so that every pipe fills up; non-trivial: every case", strat: || (prop_oneof![2 => 100_000usize..900_000, 1 => 60_000usize..70_000], prop_oneof![1usize..40, 1000usize..100_000], any::<u64>(), 0u8..7, any::<bool>(), any::<bool>()).prop_map(|(len, width, seed, child, avx2, small)| Bulk { len: if small { len / 4 } else { len }, width: width.max(8), seed, child, avx2, small }).boxed(), test: bulk }),
                boxed(Camp { name: "bad-patch", quick: 3000, thorough: 60_000, rule: "a command that prints overlapping records or other text ends in an error; non-trivial: every case", strat: || (base(600), patch_recs(), any::<u32>(), 0u8..3).prop_map(|(p, mut r, s, h)| { fold_recs(&mut r, construct(&p).len()); (p, r, s, h) }).boxed(), test: bad_patch }),
            ],
        },
    ]
}
