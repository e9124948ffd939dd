//! C23 (in-place editing is atomic) and C25 (I/O errors are reported).

use super::*;
use crate::engine::{boxed, Camp};
use crate::exec::{In, Var};
use crate::gen::*;
use crate::util::Bytes;
use proptest::option::weighted;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::fs::PermissionsExt;

const ERRNOS: [i32; 4] = [libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EACCES];

// ---------------------------------------------------------------- C23

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    None,
    Fail(u8),
    Crash,
    Half,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Hist {
    pipe: Pipe,
    modes: Vec<u32>,
    kind: Kind,
    sub: bool,
    /// names given twice
    twice: bool,
    /// a file that cannot be read comes along: 1 missing, 2 a directory
    bad: u8,
    at: u64,
    short: Option<u32>,
    back: bool,
    /// where the output goes, spelled out: 1 `-o ''`, 2 `-o -`, 3 `--output=-`
    #[serde(default)]
    dest: u8,
}

struct File {
    name: String,
    old: Vec<u8>,
    new: Option<Vec<u8>>,
    mode: u32,
}

fn hist_scaled(c: &(Hist, super::scale::Grow), ex: &mut Exec) -> Verdict {
    let pipe = c.1.apply(&c.0.pipe);
    for i in &pipe.inputs {
        if let Err(d) = super::scale::bounded(&Pipe { inputs: vec![i.clone()], ..pipe.clone() }, 6 << 20) {
            return Verdict::Discard(d);
        }
    }
    hist(&Hist { pipe, ..c.0.clone() }, ex)
}

fn hist(c: &Hist, ex: &mut Exec) -> Verdict {
    let p = &c.pipe;
    let mut files = Vec::new();
    let cmd = command(p);
    let path = |n: &str| if c.sub { format!("sub/{n}") } else { n.to_string() };
    let outf = if p.outf == OutF::Default && !c.back { OutF::B } else { p.outf };
    for (i, x) in p.inputs.iter().enumerate() {
        let one = Pipe { inputs: vec![x.clone()], ..p.clone() };
        let m = match model(&one) {
            Ok(m) => m,
            Err(d) => return Verdict::Discard(d),
        };
        if m.aborted && p.lines.is_some() {
            return Verdict::Discard("the lines may end before the walk aborts");
        }
        let n = format!("in{i}");
        let old = match cmd.files.iter().find(|f| f.0 == n) {
            Some(f) => f.1.clone(),
            None => return Verdict::Discard("not a file"),
        };
        if c.back && (m.slices.windows(2).any(|w| w[0].1 > w[1].0) || !matches!(p.outf, OutF::Default | OutF::X)) {
            return Verdict::Discard("overlapping slices");
        }
        let new = if m.aborted {
            None
        } else if c.back {
            Some(m.stream.clone())
        } else {
            Some(format(&m.stream, &m.slices, outf, m.cols))
        };
        files.push(File { name: path(&n), old, new, mode: c.modes[i % c.modes.len()] & 0o777 });
    }
    let mut args: Vec<String> = vec!["-i".into()];
    let mut names = 0;
    for a in &cmd.args {
        if p.inputs.len() > names && *a == format!("in{names}") {
            args.push(path(a));
            names += 1;
        } else {
            args.push(a.clone());
        }
    }
    if names != p.inputs.len() {
        return Verdict::Discard("the names are in another place");
    }
    if c.twice {
        args.push(files[0].name.clone());
    }
    if c.back {
        args.push("--patch-back=cat".into());
    }
    match (c.dest % 4, c.back) {
        (1, false) => args.extend(["-o".into(), String::new()]),
        (2, false) => args.extend(["-o".into(), "-".into()]),
        (3, false) => args.push("--output=-".into()),
        _ => {}
    }
    match c.bad % 3 {
        1 => args.push("missing".into()),
        2 => args.push("dir".into()),
        _ => {}
    }
    let may_fail = c.bad % 3 != 0 || files.iter().any(|f| f.new.is_none());
    let side: Vec<&(String, Vec<u8>)> = cmd.files.iter().filter(|f| !(0..p.inputs.len()).any(|i| f.0 == format!("in{i}"))).collect();
    let out = ex.dir.join("ops").display().to_string();

    let go = |ex: &mut Exec, fault: &str| -> Result<(Out, usize, Vec<bool>), String> {
        ex.reset();
        let _ = std::fs::create_dir(ex.cwd().join("dir"));
        let _ = std::fs::create_dir(ex.cwd().join("sub"));
        for f in &files {
            ex.put(&f.name, &f.old);
            let _ = std::fs::set_permissions(ex.cwd().join(&f.name), std::fs::Permissions::from_mode(f.mode));
        }
        for (n, b) in side.iter().map(|x| (&x.0, &x.1)) {
            ex.put(n, b);
        }
        let _ = std::fs::remove_file(&out);
        let mut r = Req::new(p.var, args.clone());
        r.stdin = In::Null;
        let short = c.short.map(|s| format!(";short={s}")).unwrap_or_default();
        let ren = if c.back { "" } else { ";renames" };
        r.shim = Some(format!("out={out}{ren}{short}{fault}"));
        let o = ex.run(&r);
        let what = format!("nd {} {}", args.iter().map(|a| format!("'{a}'")).collect::<Vec<_>>().join(" "), if fault.is_empty() { String::new() } else { format!("with {}", &fault[1..]) });
        if o.panicked() || o.hung {
            return Err(format!("{what}: {}", o.describe()));
        }
        if !o.stdout.is_empty() {
            return Err(format!("{what}: {} bytes on standard output", o.stdout.len()));
        }
        let crashed = o.code == Some(77);
        let mut state = Vec::new();
        for f in &files {
            let now = match ex.get(&f.name) {
                Some(x) => x,
                None => return Err(format!("{what}: {} has gone ({})", f.name, o.describe())),
            };
            let is_new = f.new.as_ref() == Some(&now);
            if !is_new && now != f.old {
                let w = f.new.as_deref().unwrap_or(&f.old);
                return Err(format!("{what}: {} holds neither its old nor its new contents ({}): {}", f.name, o.describe(), diff(w, &now)));
            }
            if let Ok(m) = std::fs::metadata(ex.cwd().join(&f.name)) {
                if m.permissions().mode() & 0o777 != f.mode {
                    return Err(format!("{what}: the permissions of {} were {:o} and are {:o}", f.name, f.mode, m.permissions().mode() & 0o777));
                }
            }
            state.push(is_new);
        }
        let mut there = ex.ls();
        if let Ok(d) = std::fs::read_dir(ex.cwd().join("sub")) {
            there.extend(d.flatten().map(|f| format!("sub/{}", f.file_name().to_string_lossy())));
        }
        if let Ok(d) = std::fs::read_dir(ex.cwd().join("dir")) {
            there.extend(d.flatten().map(|f| format!("dir/{}", f.file_name().to_string_lossy())));
        }
        if let Ok(d) = std::fs::read_dir(ex.dir.join("tmp")) {
            there.extend(d.flatten().map(|f| format!("the temporary directory/{}", f.file_name().to_string_lossy())));
        }
        let extra: Vec<&String> = there.iter().filter(|n| *n != "dir" && *n != "sub" && !files.iter().any(|f| f.name == **n) && !side.iter().any(|f| f.0 == **n)).collect();
        if !extra.is_empty() && !crashed {
            return Err(format!("{what}: leaves {extra:?} behind ({})", o.describe()));
        }
        if o.ok() {
            if let Some(i) = state.iter().position(|x| !x) {
                return Err(format!("{what}: success, but {} holds its old contents", files[i].name));
            }
        } else if !crashed && o.stderr.is_empty() {
            return Err(format!("{what}: no message: {}", o.describe()));
        }
        for f in std::fs::read_dir(ex.dir.join("tmp")).into_iter().flatten().flatten() {
            let _ = std::fs::remove_file(f.path());
        }
        let ops = std::fs::read_to_string(&out).ok().and_then(|s| s.split(' ').next().and_then(|x| x.parse().ok())).unwrap_or(0);
        Ok((o, ops, state))
    };

    let (o, ops, _) = match go(ex, "") {
        Ok(x) => x,
        Err(e) => return Verdict::Fail(e),
    };
    if may_fail == o.ok() {
        return Verdict::Fail(format!("nd {}: {} with {}", args.join(" "), o.describe(), if may_fail { "an error to report" } else { "nothing wrong" }));
    }
    let changed = files.iter().filter(|f| f.new.as_ref().is_some_and(|n| *n != f.old)).count();
    let mut labels = vec![if p.inputs.len() > 1 { "several files" } else { "one file" }];
    if may_fail {
        labels.push("a run that fails by itself");
    }
    if c.kind == Kind::None {
        labels.push("no fault");
        return Verdict::Pass { nontrivial: changed > 0, labels };
    }
    // every operation when there are few, otherwise a part of them and the last ones
    let mut at: Vec<usize> = (0..ops).collect();
    if ops > 40 {
        let step = ops.div_ceil(28);
        at = (c.at as usize % step..ops).step_by(step).chain(ops - 12..ops).collect();
        labels.push("operations sampled");
    }
    let mut hit = 0;
    for n in at {
        let fault = match c.kind {
            Kind::Fail(e) => format!(";fail={n},{}", ERRNOS[e as usize % ERRNOS.len()]),
            Kind::Half => format!(";half={n}"),
            _ => format!(";crash={n}"),
        };
        match go(ex, &fault) {
            Err(e) => return Verdict::Fail(e),
            Ok((o, _, state)) => {
                hit += usize::from(!o.ok());
                if state.iter().any(|x| *x) && state.iter().any(|x| !*x) && !labels.contains(&"stopped between files") {
                    labels.push("stopped between files");
                }
            }
        }
    }
    labels.push(match c.kind {
        Kind::Fail(_) => "failures",
        Kind::Half => "torn writes",
        _ => "crashes",
    });
    Verdict::Pass { nontrivial: changed > 0 && hit > 0, labels }
}

fn hist_strat(max: usize, kind: B<Kind>, back: f64) -> B<Hist> {
    let files = prop_oneof![5 => Just(None), 4 => prop::collection::vec(data(max), 2..4).prop_map(Some)];
    let extra = (
        prop::collection::vec(prop::sample::select(vec![0o644u32, 0o600, 0o755, 0o444, 0o400, 0o664, 0o777, 0o200]), 1..4),
        prop::bool::weighted(0.2),
        prop::bool::weighted(0.1),
        prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
        any::<u64>(),
        weighted(0.15, any::<u32>()),
        prop::bool::weighted(back),
        prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)],
    );
    (full(max), files, outf(), kind, extra)
        .prop_map(|(p, files, outf, kind, (modes, sub, twice, bad, at, short, back, dest))| {
            let mut p = Pipe { feed: Feed::Files, mode: Mode::Default, order: 0, outf: if back { OutF::Default } else { outf }, ..p };
            if let (Some(f), InF::Default | InF::B) = (files, p.inf) {
                p.inputs = f.into_iter().map(Input::Raw).collect();
            }
            if back {
                p.regex = None;
                p.extend = None;
                p.invert = None;
            }
            if let Some(mut r) = p.patch.take() {
                let l = p.inputs.iter().map(|x| edited(&Pipe { inputs: vec![x.clone()], ..p.clone() }).len()).min().unwrap_or(0);
                fold_recs(&mut r, l);
                p.patch = Some(r);
            }
            Hist { pipe: p, modes, kind, sub, twice, bad, at, short, back, dest }
        })
        .boxed()
}

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Ops {
    pipe: Pipe,
    errno: u8,
    at: u64,
    short: Option<u32>,
    /// 0: standard output, 1: files by a template, 2: patch-back, 3: patch-back with a command that ignores its input
    to: u8,
}

fn ops(c: &Ops, ex: &mut Exec) -> Verdict {
    let p = &c.pipe;
    match model(p) {
        Ok(m) if !m.aborted => {
            if c.to == 2 && m.slices.windows(2).any(|w| w[0].1 > w[1].0) {
                return Verdict::Discard("overlapping slices");
            }
        }
        Ok(_) => return Verdict::Discard("the walk aborts"),
        Err(d) => return Verdict::Discard(d),
    }
    let cmd = command(p);
    let mut args = cmd.args.clone();
    match c.to {
        1 => args.insert(0, "--output=o-{(n%3)}".into()),
        2 => args.insert(0, "--patch-back=cat".into()),
        3 => args.insert(0, "--patch-back=echo '000000000000 0000 | 41 42 43'".into()),
        _ => {}
    }
    let out = ex.dir.join("ops").display().to_string();
    let go = |ex: &mut Exec, fault: String| -> (Out, usize, bool) {
        ex.reset();
        for (n, b) in &cmd.files {
            ex.put(n, b);
        }
        let _ = std::fs::remove_file(&out);
        let mut r = Req::new(p.var, args.clone());
        r.stdin = cmd.stdin.clone();
        let short = c.short.map(|s| format!(";short={s}")).unwrap_or_default();
        r.shim = Some(format!("out={out}{short}{fault}"));
        let o = ex.run(&r);
        let s = std::fs::read_to_string(&out).unwrap_or_default();
        let mut t = s.split_whitespace();
        let n = t.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        (o, n, t.next() == Some("1"))
    };
    let (want, n, _) = go(ex, String::new());
    let what = format!("nd {}", args.iter().map(|a| format!("'{a}'")).collect::<Vec<_>>().join(" "));
    if !want.ok() {
        return Verdict::Fail(format!("{what}: {}", want.describe()));
    }
    let mut at: Vec<usize> = (0..n).collect();
    let mut labels = vec![["standard output", "files", "patch-back", "patch-back"][c.to as usize % 4]];
    if n > 40 {
        let step = n.div_ceil(28);
        at = (c.at as usize % step..n).step_by(step).chain(n - 12..n).collect();
        labels.push("operations sampled");
    }
    let e = ERRNOS[c.errno as usize % ERRNOS.len()];
    let mut hits = 0;
    for i in at {
        let (o, _, fired) = go(ex, format!(";fail={i},{e}"));
        let what = format!("{what}: operation {i} of {n} fails with errno {e}");
        if o.panicked() || o.hung {
            return Verdict::Fail(format!("{what}: {}", o.describe()));
        }
        // a command that sees the end of its input early may print anything
        if c.to < 2 && !want.stdout.starts_with(&o.stdout) && !o.ok() {
            return Verdict::Fail(format!("{what}: what is written is no prefix of the right output: {}", diff(&want.stdout, &o.stdout)));
        }
        if o.ok() && (c.to >= 2 || !fired) {
            // with a command, the order of the operations varies and some are not needed for the result
            if o.stdout != want.stdout {
                return Verdict::Fail(format!("{what}: success with a wrong output: {}", diff(&want.stdout, &o.stdout)));
            }
        } else if o.ok() {
            return Verdict::Fail(format!("{what}: passes for success"));
        } else if o.stderr.is_empty() {
            return Verdict::Fail(format!("{what}: no message: {}", o.describe()));
        }
        hits += usize::from(fired && !o.ok());
    }
    Verdict::Pass { nontrivial: hits > 2, labels }
}

fn ops_strat(to: B<u8>, max: usize) -> B<Ops> {
    (full(max), any::<u8>(), any::<u64>(), weighted(0.2, any::<u32>()), to)
        .prop_map(|(p, errno, at, short, to)| {
            let p = if to == 2 { Pipe { regex: None, extend: None, invert: None, outf: OutF::Default, ..p } } else { p };
            Ops { pipe: p, errno, at, short, to }
        })
        .boxed()
}

/// standard output is a device without space left
fn full_device(p: &Pipe, ex: &mut Exec) -> Verdict {
    let m = match model(p) {
        Ok(m) if !m.aborted => m,
        Ok(_) => return Verdict::Discard("the walk aborts"),
        Err(d) => return Verdict::Discard(d),
    };
    let some = !format(&m.stream, &m.slices, p.outf, m.cols).is_empty();
    let c = command(p);
    ex.reset();
    for (n, b) in &c.files {
        ex.put(n, b);
    }
    let mut r = Req::new(p.var, c.args);
    r.stdin = c.stdin;
    r.stdout_path = Some("/dev/full".into());
    let o = ex.run(&r);
    if o.panicked() || o.hung || o.ok() == some || (!o.ok() && o.stderr.is_empty()) {
        return Verdict::Fail(format!("nd {} > /dev/full, {} to write: {}", show(p), if some { "something" } else { "nothing" }, o.describe()));
    }
    Verdict::Pass { nontrivial: some, labels: vec![] }
}

/// the reader of standard output closes the pipe after some bytes
fn closed(c: &(Pipe, usize, u16), ex: &mut Exec) -> Verdict {
    let (p, grow, k) = c;
    let mut p = p.clone();
    if *grow > 0 {
        let var = if matches!(p.var, Var::NaiveSmall | Var::NaiveReal) { Var::NaiveSmall } else { Var::Avx2Small };
        p = Pipe { inputs: vec![Input::Raw(Bytes(expand(*grow, *k as u64, 2)))], inf: InF::Default, mode: Mode::Default, patch: None, var, ..p };
    }
    let m = match model(&p) {
        Ok(m) if !m.aborted => m,
        Ok(_) => return Verdict::Discard("the walk aborts"),
        Err(d) => return Verdict::Discard(d),
    };
    let want = format(&m.stream, &m.slices, p.outf, m.cols);
    let c = command(&p);
    ex.reset();
    for (n, b) in &c.files {
        ex.put(n, b);
    }
    let mut r = Req::new(p.var, c.args);
    r.stdin = c.stdin;
    let k = *k as usize % (want.len() + 1);
    r.take = Some(k);
    let o = ex.run(&r);
    if !o.ok() || o.stderr.windows(5).any(|w| w == b"error") {
        return Verdict::Fail(format!("nd {} | head -c {k}: {}", show(&p), o.describe()));
    }
    if o.stdout != want[..k] {
        return Verdict::Fail(format!("nd {} | head -c {k}: {}", show(&p), diff(&want[..k], &o.stdout)));
    }
    Verdict::Pass { nontrivial: want.len() > k + 70_000, labels: if want.len() > k + 70_000 { vec!["more than the pipe holds"] } else { vec![] } }
}

/// a file that cannot be opened or read, in every place for a file
fn missing(c: &(Pipe, u8, u8, u8), ex: &mut Exec) -> Verdict {
    let (p, place, kind, pos) = c;
    let m = match model(p) {
        Ok(m) if !m.aborted => m,
        Ok(_) => return Verdict::Discard("the walk aborts"),
        Err(d) => return Verdict::Discard(d),
    };
    let want = format(&m.stream, &m.slices, p.outf, m.cols);
    let bad = ["missing", "dir", "none/such", "in0/file", "loop"][*kind as usize % 5];
    let cmd = command(p);
    let mut args = cmd.args.clone();
    let mut labels = vec![];
    match place % 5 {
        0 => {
            // one more input
            let names: Vec<usize> = (0..args.len()).filter(|&i| args[i].starts_with("in")).collect();
            if names.is_empty() {
                return Verdict::Discard("no file is named");
            }
            args.insert(names[*pos as usize % names.len()] + (pos / 128) as usize, bad.into());
            labels.push("input");
        }
        1 => {
            args.retain(|a| !a.starts_with("--patch="));
            args.insert(0, format!("--patch={bad}"));
            labels.push("patch");
        }
        2 => {
            if p.slicer.is_some() {
                return Verdict::Discard("another slicer");
            }
            args.insert(0, format!("--guide={bad}"));
            labels.push("guide");
        }
        3 => {
            if want.is_empty() || bad == "missing" {
                return Verdict::Discard("nothing to write");
            }
            args.insert(0, format!("--output={bad}"));
            labels.push("output");
        }
        _ => {
            if bad == "missing" || m.slices.is_empty() {
                return Verdict::Discard("nothing to write");
            }
            args.insert(0, format!("--output={bad}/{{n}}/x"));
            labels.push("template");
        }
    }
    ex.reset();
    let _ = std::fs::create_dir(ex.cwd().join("dir"));
    let _ = std::os::unix::fs::symlink("loop", ex.cwd().join("loop"));
    for (n, b) in &cmd.files {
        ex.put(n, b);
    }
    let in0 = cmd.files.iter().any(|f| f.0 == "in0");
    if !in0 {
        ex.put("in0", b"x");
    }
    let mut r = Req::new(p.var, args.clone());
    r.stdin = cmd.stdin.clone();
    let o = ex.run(&r);
    let what = format!("nd {}", args.iter().map(|a| format!("'{a}'")).collect::<Vec<_>>().join(" "));
    if o.panicked() || o.hung {
        return Verdict::Fail(format!("{what}: {}", o.describe()));
    }
    // what is not needed for the result need not be read
    let unneeded = bad == "dir" && matches!(place % 5, 0..=2) && o.ok() && {
        let early = p.lines.is_some() || p.cut.is_some() || matches!(p.slicer, Some(Slicer::Slice(_)));
        early
    };
    if unneeded {
        return Verdict::Pass { nontrivial: false, labels: vec!["not needed"] };
    }
    if o.ok() || o.stderr.is_empty() {
        return Verdict::Fail(format!("{what}: {bad} passes for success: {}", o.describe()));
    }
    Verdict::Pass { nontrivial: true, labels }
}

pub fn props() -> Vec<crate::engine::Prop> {
    use crate::engine::Prop;
    vec![
        Prop {
            id: "C23",
            level: "fault_enumeration",
            assumptions: &["rename(2) is atomic", "a crash is the end of the process; the loss of unwritten pages at a power failure is not modelled"],
            camps: vec![
                boxed(Camp { name: "edit", quick: 20000, thorough: 600_000, rule: "one to four files edited in place by a generated command line without a fault, contents against the reference model; non-trivial: a file changes", strat: || hist_strat(700, Just(Kind::None).boxed(), 0.1), test: hist }),
                boxed(Camp { name: "scaled", quick: 5000, thorough: 100_000, rule: "the same with all lengths, offsets and distances multiplied by 2 to 5000; non-trivial: a file changes", strat: || (hist_strat(500, Just(Kind::None).boxed(), 0.1), super::scale::grow(5000)).boxed(), test: hist_scaled }),
                boxed(Camp { name: "scaled-faults", quick: 60, thorough: 2000, rule: "the same with a failure, or the end of the process, at every operation (above 40: a sample and the last 12); non-trivial: a file would change and a failure was reported or the process stopped", strat: || (hist_strat(300, prop_oneof![2 => any::<u8>().prop_map(Kind::Fail), 1 => Just(Kind::Crash), 1 => Just(Kind::Half)].boxed(), 0.1), super::scale::grow(3000)).boxed(), test: hist_scaled }),
                boxed(Camp { name: "failures", quick: 1200, thorough: 60_000, rule: "every file operation of the run made to fail (above 40 operations: a sample and the last 12); non-trivial: a file would change and a failure was reported", strat: || hist_strat(250, any::<u8>().prop_map(Kind::Fail).boxed(), 0.1), test: hist }),
                boxed(Camp { name: "crashes", quick: 1200, thorough: 60_000, rule: "the process ends before, or in the middle of, every file operation; non-trivial: a file would change and the process was stopped", strat: || hist_strat(250, prop_oneof![Just(Kind::Crash), Just(Kind::Half)].boxed(), 0.0), test: hist }),
            ],
        },
        Prop {
            id: "C25",
            level: "fault_enumeration",
            assumptions: &["the operations that count: open, read, write, chmod and stat of named files; closing and removing a file are not made to fail"],
            camps: vec![
                boxed(Camp { name: "operations", quick: 1500, thorough: 80_000, rule: "every operation of a generated run made to fail (above 40: a sample and the last 12); non-trivial: more than two failures were reported", strat: || ops_strat(prop_oneof![4 => Just(0u8), 1 => Just(1u8)].boxed(), 400), test: ops }),
                boxed(Camp { name: "patch-back", quick: 200, thorough: 12_000, rule: "the same with a command for --patch-back; non-trivial: more than two failures were reported", strat: || ops_strat(prop_oneof![Just(2u8), Just(3u8)].boxed(), 300), test: ops }),
                boxed(Camp { name: "full-device", quick: 5000, thorough: 200_000, rule: "standard output is /dev/full; non-trivial: there is something to write", strat: || full(500), test: full_device }),
                boxed(Camp { name: "full-files", quick: 12000, thorough: 400_000, rule: "files named by --output that cannot grow beyond a size (a write is a short one, the next one fails), or short and interrupted transfers; non-trivial: not everything fits, or more than one slice", strat: super::drains::full_strat, test: super::drains::full_files }),
                boxed(Camp { name: "closed-pipe", quick: 6000, thorough: 200_000, rule: "the reader closes the pipe after some bytes; non-trivial: nd still had more to write than a pipe holds", strat: || (full_near(500), prop_oneof![1 => Just(0usize), 2 => 20_000usize..300_000], any::<u16>()).boxed(), test: closed }),
                boxed(Camp { name: "missing", quick: 12000, thorough: 300_000, rule: "an input, patch, guide or output that cannot be opened or read; non-trivial: it is needed", strat: || (full(400), any::<u8>(), any::<u8>(), any::<u8>()).boxed(), test: missing }),
            ],
        },
    ]
}
