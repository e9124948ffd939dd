//! C24 (malformed input), C26 (standard input and exclusive options), C27 (memory), C28 (endless input)
//! and C29 (the pager).

use super::*;
use crate::engine::{boxed, Camp};
use crate::exec::{In, Var, TYPED};
use crate::gen::*;
use crate::util::{mix, Bytes};
use proptest::option::weighted;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

// ---------------------------------------------------------------- C24

const OPTIONS: [&str; 24] = [
    "--in-format", "--out-format", "--cat", "--zip", "--cut", "--pad", "--patch", "--width", "--find", "--walk", "--slice", "--guide", "--regex", "--invert",
    "--extend", "--merge", "--lines", "--output", "--patch-back", "--filler", "--pager", "--inplace", "--bogus", "--help",
];
const SHORTS: &[u8; 24] = b"FfcznapwdkrgevxmloP??iQh";

/// one value, as a list of token choices, so that it shrinks well
fn soup(option: &str, toks: &[u16]) -> Vec<u8> {
    const EXPR: &[&str] = &[
        "s", "e", "..", ",", "+", "-", "*", "(", ")", "[", "]", "0", "1", "2", "3", "7", "16", "100", "0x10", "0b11", "0o7", "k", "i", "<<", ">>", "&", "|", "^", "%", "/", "b", "h", "l", "n",
        " ", "~", "!", "<", ">", "=", "_", ".", ":", "{", "}", "9223372036854775807", "9223372036854775808", "x", "d", "é", "\t", "\n", "\\", "'", "#", "$", "@", "99999999999999999999999",
    ];
    const RANGE: &[&str] = &["s", "e", "..", ",", "+", "-", "1", "2", "4", "10", "3*2", "(s", "e)", "s..e", "..", "s+1..e-1", "0..4", "e-3..e", "5..2", "-3..4", ",,", "...", "s..e..s", "e+9223372036854775807", "-9223372036854775807..s", "{", "b[0]"];
    const HEX: &[&str] = &["00", "a", "ff", "41 42", "61", "xx", " ", "|", "g", "0x", "\n", "é", "?", "XX 61", "6 1", "612"];
    const FMT: &[&str] = &["b", "x", "d", "n", "xxx", "ddx", "nnx", "nnb", "xxb", "xxd", "a", "bb", "", "X", "bxd", "nxn", "nnn", "é"];
    const TPL: &[&str] = &["a", "{", "}", "{n}", "{l}", "{n:x}", "{n:03d}", "{l:>4}", "{{", "}}", "{n%3}", "{n:", "{:}", "{n:q}", "{n:#b}", "{n/0}", "{m}", "{n:5.2}", "{n,l}", " ", "é", "{n:é^9}", "{n:+}", "{n:08X}", "{n::}", "{né}", "{(n)3}"];
    const RE: &[&str] = &["a", "b", ".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "{2}", "{1,3}", "\\", "\\d", "\\x61", "^", "$", "|", "(?i)", "(?P<a>", "é", "[^a]", "\\b", "(?-u)", "[a-", "\\xff", "\\1", "(?=a)"];
    const FILES: &[&str] = &["in0", "in1", "-", "missing", "dir", "", "in0/x", "/dev/null", "/dev/stdin"];
    const CMDS: &[&str] = &["cat", "true", "exit 3", "no-such-command", "echo x", "echo '0 1 | 41'", "head -c 5", "(", "cat | cat", "", "  ", "kill -9 $$"];
    const PAGERS: &[&str] = &["cat", "true", "head -c 7", "no-such-pager", "", "  ", "cat missing", "false"];
    let pick = |t: &[&str], one: bool| -> Vec<u8> {
        let mut v = Vec::new();
        for &x in toks.iter().take(if one { 1 } else { toks.len() }) {
            v.extend_from_slice(t[x as usize % t.len()].as_bytes());
        }
        v
    };
    match option {
        "--cat" | "--zip" | "--merge" | "--filler" | "--walk" | "--pad" | "--width" => pick(EXPR, false),
        "--cut" | "--slice" | "--invert" | "--extend" | "--lines" => pick(if toks.len() % 3 == 0 { EXPR } else { RANGE }, false),
        "--find" => pick(HEX, false),
        "--in-format" | "--out-format" => pick(FMT, toks.len() % 4 != 0),
        "--output" => pick(TPL, false),
        "--regex" => pick(RE, false),
        "--patch" | "--guide" => pick(FILES, true),
        "--patch-back" => pick(CMDS, true),
        "--pager" => pick(PAGERS, true),
        _ => vec![],
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Junk {
    opts: Vec<(u8, Vec<u16>, u8)>,
    files: Vec<u8>,
    /// bytes that replace one byte of some value
    spoil: Option<(u8, u16, u8)>,
    data: Bytes,
    text: Bytes,
    stdin: bool,
    var: Var,
}

fn verdict(what: String, o: &Out, nontrivial: bool, labels: Vec<&'static str>) -> Verdict {
    let e = String::from_utf8_lossy(&o.stderr);
    if o.signal == Some(libc::SIGXFSZ) {
        return Verdict::Discard("the output is above 256 MiB");
    }
    if e.contains("memory allocation of ") || e.contains("capacity overflow") {
        return Verdict::Discard("a size beyond the memory is requested");
    }
    // 2^63 bytes of padding take a while
    if o.hung && what.contains(r#""--pad"#) | what.contains(r#""-a"#) {
        return Verdict::Discard("a padding that takes long");
    }
    if o.panicked() || o.hung {
        return Verdict::Fail(format!("{what}: {}", o.describe()));
    }
    match o.code {
        Some(0) => Verdict::Pass { nontrivial, labels: [labels, vec!["accepted"]].concat() },
        Some(_) if !o.stderr.is_empty() => Verdict::Pass { nontrivial, labels: [labels, vec!["rejected"]].concat() },
        _ => Verdict::Fail(format!("{what}: no message: {}", o.describe())),
    }
}

fn junk(c: &Junk, ex: &mut Exec) -> Verdict {
    let mut args: Vec<OsString> = Vec::new();
    for (k, (o, toks, form)) in c.opts.iter().enumerate() {
        let i = *o as usize % OPTIONS.len();
        let name = OPTIONS[i];
        let mut v = soup(name, toks);
        if let Some((which, at, b)) = c.spoil {
            if which as usize % c.opts.len() == k && !v.is_empty() && !matches!(name, "--output" | "--patch-back" | "--pager") {
                let at = at as usize % v.len();
                v[at] = b.max(1);
            }
        }
        let flag = matches!(name, "--inplace" | "--bogus" | "--help");
        match (form % 3, SHORTS[i]) {
            _ if flag => args.push(name.into()),
            (1, s) if s != b'?' => {
                let mut a = vec![b'-', s];
                a.extend(v);
                args.push(OsString::from_vec(a));
            }
            (2, _) => {
                args.push(name.into());
                args.push(OsString::from_vec(v));
            }
            _ => {
                let mut a = name.as_bytes().to_vec();
                a.push(b'=');
                a.extend(v);
                args.push(OsString::from_vec(a));
            }
        }
    }
    for f in &c.files {
        args.push(["in0", "in1", "text", "missing", "dir", "-", ""][*f as usize % 7].into());
    }
    ex.reset();
    let _ = std::fs::create_dir(ex.cwd().join("dir"));
    ex.put("in0", &c.data);
    ex.put("in1", &c.text);
    ex.put("text", &c.text);
    let mut r = Req::new(c.var, vec![]);
    r.args = args;
    if c.stdin {
        r.stdin = In::Pipe(c.text.0.clone());
    }
    let o = ex.run(&r);
    let labels = if c.opts.len() > 1 { vec!["several options"] } else { vec![] };
    verdict(format!("nd {:?}", r.args), &o, c.opts.iter().any(|x| !x.1.is_empty()), labels)
}

fn junk_text() -> B<Bytes> {
    const T: &[&str] = &[
        "0", "00", "1", "a", "ff", "7f", "000000000000", "0010", "12345", "deadbeef", "123456789abcdef", "1234567890abcdef", "ffffffffffffffff", "11112222333344445", " ", "  ", " | ", "|", "| ", "\n", "\n\n", "\r\n", "\t", "xx ", "XX ", "g",
        "41 42 43 ", "00 01 02 03 04 05 06 07 08 09 0a 0b 0c 0d 0e 0f ", "abc", "0 4 | ", "8 2 | 41 42\n", "20 0\n", "e 1 | 00 | .\n", "\0", "é", "#", "-", "99999999999999999999", "9223372036854775807 1 | 41\n",
    ];
    let tok = prop_oneof![8 => (0..T.len()).prop_map(|i| T[i].as_bytes().to_vec()), 1 => any::<u8>().prop_map(|b| vec![b]), 1 => (any::<u8>(), 1usize..400).prop_map(|(b, n)| vec![b; n])];
    let soup = prop::collection::vec(tok, 0..40).prop_map(|v| Bytes(v.concat()));
    let hurt = (prop_oneof![text_recs(), patch_recs()], prop::collection::vec((any::<u32>(), any::<u8>(), 0u8..4), 0..4)).prop_map(|(r, edits)| {
        let mut t = render_recs(&r, true);
        for (at, b, how) in edits {
            if t.is_empty() {
                break;
            }
            let at = at as usize % t.len();
            match how {
                0 => t[at] = b,
                1 => t.insert(at, b),
                2 => {
                    t.remove(at);
                }
                _ => t.truncate(at),
            }
        }
        Bytes(t)
    });
    prop_oneof![soup, hurt].boxed()
}

fn junk_strat() -> B<Junk> {
    (
        prop::collection::vec((0u8..24, prop::collection::vec(any::<u16>(), 0..9), any::<u8>()), 1..5),
        prop_oneof![6 => Just(vec![0u8]), 2 => prop::collection::vec(0u8..7, 0..4)],
        weighted(0.08, (any::<u8>(), any::<u16>(), any::<u8>())),
        data(300),
        junk_text(),
        any::<bool>(),
        var_any(),
    )
        .prop_map(|(opts, files, spoil, data, text, stdin, var)| Junk { opts, files, spoil, data, text, stdin, var })
        .boxed()
}

/// damaged records wherever records are read
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Text {
    text: Bytes,
    place: u8,
    fmt: [u8; 3],
    data: Bytes,
    pipe: bool,
    var: Var,
}

fn text(c: &Text, ex: &mut Exec) -> Verdict {
    ex.reset();
    ex.put("in", &c.data);
    ex.put("text", &c.text);
    let f: String = if c.fmt[0] % 4 == 0 { ["b", "x", "d", "xxx", "nnx", "ddx"][c.fmt[1] as usize % 6].into() } else { c.fmt.iter().map(|b| b"bxdn"[*b as usize % 4] as char).collect() };
    let t = if c.pipe { "-" } else { "text" };
    let mut args: Vec<String> = match c.place % 5 {
        0 => vec![format!("--in-format={f}"), t.into()],
        1 => vec![format!("--patch={t}"), "in".into()],
        2 => vec![format!("--guide={t}"), "in".into()],
        3 => vec!["--patch-back=cat > /dev/null; cat text".into(), "in".into()],
        _ => vec![format!("--in-format={f}"), format!("--zip={}", c.fmt[2] % 9 + 1), t.into(), "in".into()],
    };
    if c.fmt[2] % 5 == 0 {
        args.insert(0, format!("--out-format={}", ["b", "x", "d", "nnx", "xxx"][c.fmt[0] as usize % 5]));
    }
    let mut r = Req::new(c.var, args);
    if c.pipe && c.place % 5 != 3 {
        r.stdin = In::Pipe(c.text.0.clone());
    }
    let o = ex.run(&r);
    let what = format!("nd {:?} on the text {:?}", r.args, String::from_utf8_lossy(&c.text));
    verdict(what, &o, !c.text.is_empty(), vec![["input", "patch", "guide", "patch-back", "zipped input"][c.place as usize % 5]])
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Line {
    /// (option, what it is given)
    opts: Vec<(u8, u8)>,
    inputs: Vec<u8>,
    data: Bytes,
    seed: u32,
    var: Var,
}

const CHOICES: [(&str, &[&str], u8); 18] = [
    // name, values, group of exclusive options (0: none)
    ("--inplace", &[], 1),
    ("--cat", &["1", "4"], 1),
    ("--zip", &["1", "3"], 1),
    ("--cut", &["2..30", "..e-1"], 0),
    ("--pad", &["3,2", "0,1"], 0),
    ("--patch", &["rec", "-", "/dev/stdin"], 0),
    ("--width", &["7", "16,s..e-1"], 2),
    ("--find", &["61", "61 62"], 2),
    ("--walk", &["4", "(b[0]&3)+2"], 2),
    ("--slice", &["3..9", "0..4,e-4..e"], 2),
    ("--guide", &["rec", "-", "/dev/stdin"], 2),
    ("--invert", &["s..e"], 0),
    ("--extend", &["s-1..e"], 0),
    ("--merge", &["2"], 0),
    ("--lines", &["0..2"], 0),
    ("--output", &["out", "out{n}", "-"], 3),
    ("--patch-back", &["true", "touch ran"], 3),
    ("--filler", &["7"], 0),
];

fn line(c: &Line, ex: &mut Exec) -> Verdict {
    let mut args = Vec::new();
    let mut group = [0usize; 4];
    let mut seen = std::collections::HashSet::new();
    let (mut twice, mut stdin_opts, mut inplace, mut written) = (false, 0, false, true);
    let mut s = c.seed as u64;
    for (o, v) in &c.opts {
        let (name, vals, g) = CHOICES[*o as usize % CHOICES.len()];
        if seen.insert(name) {
            group[g as usize] += 1;
        } else {
            twice = true;
        }
        if vals.is_empty() {
            inplace = true;
            args.push(if mix(&mut s) % 2 == 0 { "-i".to_string() } else { name.into() });
            continue;
        }
        let v = vals[*v as usize % vals.len()];
        stdin_opts += usize::from(v == "-" && name != "--output" || v == "/dev/stdin");
        written &= !(name == "--output" && v != "-") && name != "--patch-back";
        let mut t = spell(format!("{name}={v}"), mix(&mut s));
        args.append(&mut t);
    }
    let names: Vec<&str> = c.inputs.iter().map(|i| ["in0", "in1", "-", "/dev/stdin", "in0", "in1"][*i as usize % 6]).collect();
    let std_inputs = names.iter().filter(|n| n.starts_with(['-', '/'])).count();
    let used = stdin_opts + if names.is_empty() && !inplace { 1 } else { std_inputs };
    let distinct: std::collections::HashSet<_> = names.iter().collect();
    let bad = twice || group[1..].iter().any(|g| *g > 1) || used > 1 || (inplace && std_inputs > 0) || (inplace && distinct.len() > 1 && stdin_opts > 0);
    for n in &names {
        if c.seed % 3 == 0 {
            args.insert(0, n.to_string());
        } else {
            args.push(n.to_string());
        }
    }
    let rec = b"4 2 | 41 42 43\n9 1 | 44\n".to_vec();
    // standard input serves as a file or as records
    let fed = if stdin_opts > 0 { rec.clone() } else { c.data.0.clone() };
    let mut go = |args: &[String], stdin: In, more: Option<&str>| -> (Out, Vec<(String, Option<Vec<u8>>)>) {
        ex.reset();
        ex.put("in0", &c.data);
        ex.put("in1", b"the second abab one\n");
        ex.put("rec", &rec);
        if let Some(m) = more {
            ex.put(m, &fed);
        }
        let mut r = Req::new(c.var, args.to_vec());
        r.stdin = stdin;
        let o = ex.run(&r);
        let files = ex.ls().into_iter().filter(|f| f != "sin").map(|f| (f.clone(), ex.get(&f))).collect();
        (o, files)
    };
    let (o, files) = go(&args, In::Pipe(fed.clone()), None);
    let what = format!("nd {}", args.iter().map(|a| format!("'{a}'")).collect::<Vec<_>>().join(" "));
    if o.panicked() || o.hung {
        return Verdict::Fail(format!("{what}: {}", o.describe()));
    }
    if bad {
        if o.ok() || o.stderr.is_empty() {
            return Verdict::Fail(format!("{what}: a conflict is accepted: {}", o.describe()));
        }
        let same = [("in0".to_string(), Some(c.data.0.clone())), ("in1".into(), Some(b"the second abab one\n".to_vec())), ("rec".into(), Some(rec.clone()))];
        if files != same || !o.stdout.is_empty() {
            return Verdict::Fail(format!("{what}: rejected, but there is output or a file has changed: {:?}", files.iter().map(|f| &f.0).collect::<Vec<_>>()));
        }
        let l = if used > 1 { "standard input twice" } else if inplace && std_inputs > 0 { "standard input edited in place" } else { "exclusive options" };
        return Verdict::Pass { nontrivial: true, labels: vec![l] };
    }
    if used == 0 {
        return if o.ok() { Verdict::Pass { nontrivial: false, labels: vec!["standard input not used"] } } else { Verdict::Fail(format!("{what}: rejected without a conflict: {}", o.describe())) };
    }
    if !o.ok() {
        return Verdict::Fail(format!("{what}: rejected without a conflict: {}", o.describe()));
    }
    // the same as with a file in the place of the standard input
    let mut b: Vec<String> = args.iter().map(|a| if a == "-" || a == "/dev/stdin" { "sin".to_string() } else { a.clone() }).collect();
    for a in b.iter_mut() {
        for p in ["--patch=", "--guide=", "--patc=", "--pat=", "--guid=", "--gui=", "-p", "-g"] {
            for d in ["-", "/dev/stdin"] {
                if *a == format!("{p}{d}") {
                    *a = format!("{p}sin");
                }
            }
        }
    }
    if names.is_empty() && !inplace {
        b.push("sin".into());
    } else if written && b == args {
        return Verdict::Discard("the standard input is named in another way");
    }
    // `--output -` is not an input
    for i in 0..args.len().saturating_sub(1) {
        if ["-o", "--output"].contains(&args[i].as_str()) {
            b[i + 1] = args[i + 1].clone();
        }
    }
    let (p, q) = go(&b, In::Null, Some("sin"));
    if !p.ok() || p.stdout != o.stdout || files != q {
        return Verdict::Fail(format!("{what}: another result than from a file ({}; {}): {}", o.describe(), p.describe(), diff(&p.stdout, &o.stdout)));
    }
    Verdict::Pass { nontrivial: true, labels: vec![if names.is_empty() { "no file named" } else { "standard input named" }] }
}

fn line_strat() -> B<Line> {
    (
        prop::collection::vec((0u8..18, 0u8..6), 0..5),
        prop_oneof![1 => Just(vec![]), 6 => prop::collection::vec(0u8..6, 0..4)],
        prop_oneof![Just(Bytes(b"abcabcababbbaaaccccbbbabab".to_vec())), (26usize..400, any::<u64>()).prop_map(|(l, s)| Bytes(expand(l, s, 0)))],
        any::<u32>(),
        var_any(),
    )
        .prop_map(|(opts, inputs, data, seed, var)| Line { opts, inputs, data, seed, var })
        .boxed()
}

// ---------------------------------------------------------------- C27

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Mem {
    pipe: Pipe,
    seed: u64,
    kind: u8,
    two: bool,
}

/// the longest slice at any stage, or None if the pipe has no meaning here
fn longest(p: &Pipe) -> Option<usize> {
    let mut best = 0;
    for cut in 0..6 {
        let mut q = Pipe { lines: None, ..p.clone() };
        if cut == 5 {
            q.regex = None;
            q.invert = None;
            q.extend = None;
            q.merge = None;
        }
        if cut == 4 {
            // the gaps themselves
            if q.invert.is_none() {
                continue;
            }
            q.invert = Some(vec![Range { s: None, e: None }]);
            q.extend = None;
            q.merge = None;
        }
        if cut < 3 {
            q.merge = None;
        }
        if cut < 2 {
            q.extend = None;
        }
        if cut < 1 {
            q.invert = None;
        }
        let m = model(&q).ok().filter(|m| !m.aborted)?;
        best = best.max(m.slices.iter().map(|s| s.1 - s.0).max().unwrap_or(0));
        // the last slices are not known before the end
        if p.lines.iter().flatten().any(|r| [&r.s, &r.e].iter().any(|e| e.as_ref().is_some_and(|e| e.a == Anchor::E))) {
            let mut at = 0;
            for s in m.slices.iter().copied().chain([(m.stream.len(), m.stream.len())]) {
                best = best.max(s.0.saturating_sub(at));
                at = at.max(s.1);
            }
        }
    }
    Some(best)
}

/// a walk whose lookahead is not bounded by a small constant
fn looks_far(p: &Pipe) -> bool {
    use crate::expr::{any_node, Ex};
    let far = |e: &Ex| {
        any_node(e, &|x| match x {
            Ex::Arr(_, i) => any_node(i, &|y| match y {
                Ex::Num(v, _) => *v > 300,
                Ex::Bin(o, ..) => o == "*" || o == "<<",
                Ex::Arr(v, _) => v != "b",
                _ => false,
            }),
            _ => false,
        })
    };
    matches!(&p.slicer, Some(Slicer::Walk(e, _)) if e.iter().any(far))
}

/// anchored at both ends of the stream
fn mixed(r: &Range) -> bool {
    r.s.as_ref().is_none_or(|e| e.a != Anchor::E) == r.e.as_ref().is_none_or(|e| e.a == Anchor::E)
}

fn mem(c: &Mem, ex: &mut Exec) -> Verdict {
    let sl = match &c.pipe.slicer {
        Some(Slicer::Slice(v)) => Some(v),
        _ => None,
    };
    if [c.pipe.cut.as_ref(), sl, c.pipe.lines.as_ref()].iter().flatten().any(|v| v.iter().any(mixed)) {
        return Verdict::Discard("a range from the head to the tail");
    }
    if looks_far(&c.pipe) {
        return Verdict::Discard("the walk looks far ahead");
    }
    let small = matches!(c.pipe.var, Var::NaiveSmall | Var::Avx2Small);
    let mk = |len: usize| -> Vec<Input> {
        let n = if c.two { 2 } else { 1 };
        (0..n).map(|i| Input::Raw(Bytes(expand(len / n, c.seed + i as u64, c.kind)))).collect()
    };
    // slices of bounded size, judged on two prefixes
    let a = longest(&Pipe { inputs: mk(20_000), ..c.pipe.clone() });
    let b = longest(&Pipe { inputs: mk(60_000), ..c.pipe.clone() });
    match (a, b) {
        (Some(a), Some(b)) if a <= 3000 && b <= 3000 => {}
        (None, _) | (_, None) => return Verdict::Discard("no result to compare"),
        _ => return Verdict::Discard("the slices grow with the input"),
    }
    let (l, k) = if small { (1 << 20, 8) } else { (16 << 20, 8) };
    let mut rss = Vec::new();
    for len in [l, l * k] {
        let p = Pipe { inputs: mk(len), feed: Feed::Files, ..c.pipe.clone() };
        let cmd = command(&p);
        ex.reset();
        for (n, b) in &cmd.files {
            ex.put(n, b);
        }
        let mut r = Req::new(p.var, cmd.args);
        r.stdin = cmd.stdin;
        r.stdout_path = Some("/dev/null".into());
        let out = ex.dir.join("ops");
        let _ = std::fs::remove_file(&out);
        r.shim = Some(format!("out={}", out.display()));
        let o = ex.run(&r);
        if !o.ok() {
            if o.hung {
                return Verdict::Discard("too slow to tell");
            }
            if o.panicked() {
                return Verdict::Fail(format!("nd {} on {len} bytes: {}", show(&p), o.describe()));
            }
            return Verdict::Discard("aborts further on");
        }
        let t = std::fs::read_to_string(&out).unwrap_or_default();
        match t.split_whitespace().nth(2).and_then(|x| x.parse::<i64>().ok()) {
            Some(x) if x > 0 => rss.push(x),
            _ => return Verdict::Discard("no figure for the memory"),
        }
    }
    let limit = if small { 1500 } else { 48 << 10 };
    if rss[1] > rss[0] + limit {
        return Verdict::Fail(format!("nd {}: {} KiB of memory for {l} bytes, {} KiB for {} bytes", show(&Pipe { inputs: vec![], ..c.pipe.clone() }), rss[0], rss[1], l * k));
    }
    let p = &c.pipe;
    let mut labels = vec![if small { "small blocks" } else { "real blocks" }];
    for (b, s) in [(p.cut.is_some(), "cut"), (p.patch.is_some(), "patch"), (p.invert.is_some(), "invert"), (p.extend.is_some(), "extend"), (p.merge.is_some(), "merge"), (p.lines.is_some(), "lines"), (p.regex.is_some(), "regex"), (matches!(p.mode, Mode::Zip(_)), "zip")] {
        if b {
            labels.push(s);
        }
    }
    Verdict::Pass { nontrivial: labels.len() > 1 || p.slicer.is_some(), labels }
}

fn mem_strat() -> B<Mem> {
    (full_near(200), any::<u64>(), 0u8..6, prop::bool::weighted(0.2), prop::bool::weighted(0.1))
        .prop_map(|(mut p, seed, kind, two, real)| {
            p.inf = InF::B;
            p.feed = Feed::Files;
            p.var = match (real, p.var) {
                (false, Var::NaiveReal) => Var::NaiveSmall,
                (false, Var::Avx2Real) => Var::Avx2Small,
                (true, Var::NaiveSmall) => Var::NaiveReal,
                (true, Var::Avx2Small) => Var::Avx2Real,
                (_, v) => v,
            };
            if let Some(mut r) = p.patch.take() {
                fold_recs(&mut r, 200);
                p.patch = Some(r);
            }
            let tame = |v: &mut Vec<Range>| {
                if v.iter().any(mixed) {
                    *v = start_anchored(v);
                }
            };
            p.cut.iter_mut().for_each(tame);
            p.lines.iter_mut().for_each(tame);
            if let Some(Slicer::Slice(v)) = &mut p.slicer {
                tame(v);
            }
            Mem { pipe: p, seed, kind, two }
        })
        .boxed()
}

// ---------------------------------------------------------------- C28

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Endless {
    pipe: Pipe,
    pat: Bytes,
    how: u8,
    kind: u8,
    before: Vec<Bytes>,
    swap: bool,
}

fn start_anchored(v: &[Range]) -> Vec<Range> {
    let f = |e: &End| End { a: if e.a == Anchor::E { Anchor::S } else { e.a }, k: if e.k.unsigned_abs() > NEAR_K { 700 } else { e.k.abs() }, style: e.style };
    v.iter()
        .map(|r| {
            let s = r.s.as_ref().map(f);
            let e = r.e.as_ref().map(f).unwrap_or(End { a: Anchor::S, k: s.as_ref().map_or(0, |s| s.k) + 9, style: 1 });
            Range { s, e: Some(e) }
        })
        .collect()
}

fn endless(c: &Endless, ex: &mut Exec) -> Verdict {
    endless_in(c, 20_000, ex)
}

fn endless_scaled(c: &(Endless, super::scale::Grow), ex: &mut Exec) -> Verdict {
    let (c, g) = c;
    if matches!(&c.pipe.slicer, Some(Slicer::Walk(e, _)) if e.iter().any(|e| crate::expr::any_node(e, &|x| matches!(x, crate::expr::Ex::Arr(..))))) {
        // it may abort on what is read ahead, beyond the head
        return Verdict::Discard("the walk reads the stream");
    }
    let pipe = Pipe { patch: None, ..c.pipe.clone() };
    endless_in(&Endless { pipe: g.apply(&pipe), ..c.clone() }, 10_000 * g.k, ex)
}

/// the results are taken from a head of `len` bytes
fn endless_in(c: &Endless, len: usize, ex: &mut Exec) -> Verdict {
    let head = |n: usize| -> Vec<u8> { c.pat.iter().copied().cycle().take(n).collect() };
    let zero = c.how % 3 == 2;
    let mk = |n: usize| -> Pipe {
        let last = Input::Raw(Bytes(if zero { vec![0; n] } else { head(n) }));
        let mut inputs: Vec<Input> = c.before.iter().cloned().map(Input::Raw).collect();
        if c.swap && matches!(c.pipe.mode, Mode::Zip(_)) {
            inputs.insert(0, last);
        } else {
            inputs.push(last);
        }
        Pipe { inputs, feed: Feed::Files, ..c.pipe.clone() }
    };
    if c.pat.is_empty() {
        return Verdict::Discard("nothing to repeat");
    }
    if looks_far(&c.pipe) {
        return Verdict::Discard("the walk looks far ahead");
    }
    let (p, p2) = (mk(len), mk(2 * len));
    let m = match (model(&p), model(&p2)) {
        (Ok(a), Ok(b)) => {
            if a.aborted || b.aborted {
                return Verdict::Discard("the walk aborts");
            }
            if a.slices.iter().map(|x| (x.1 - x.0).max(a.cols) + 40).sum::<usize>() > 8_000_000 {
                return Verdict::Discard("too much output");
            }
            let (x, y) = (format(&a.stream, &a.slices, p.outf, a.cols), format(&b.stream, &b.slices, p.outf, b.cols));
            if x != y {
                return Verdict::Discard("the result is not in the head");
            }
            x
        }
        (Err(d), _) | (_, Err(d)) => return Verdict::Discard(d),
    };
    if c.kind == 2 {
        // there have to be enough slices after the last one asked for
        let max = p.lines.iter().flatten().map(|r| r.e.as_ref().map_or(0, |e| e.k)).max().unwrap_or(0);
        match model(&Pipe { lines: None, ..p.clone() }) {
            Ok(m) if m.slices.len() as i64 > max + 60 => {}
            _ => return Verdict::Discard("not enough slices"),
        }
    }
    if c.kind == 4 {
        // the lines asked for are all in the head
        let max = p.lines.iter().flatten().flat_map(|r| [&r.s, &r.e]).flatten().map(|e| e.k).max().unwrap_or(0);
        let all = |p: &Pipe| model(&Pipe { lines: None, ..p.clone() }).map(|m| m.slices);
        match (all(&p), all(&p2)) {
            (Ok(a), Ok(b)) if a.iter().zip(&b).take_while(|x| x.0 == x.1).count() as i64 >= max => {}
            _ => return Verdict::Discard("not enough slices in the head"),
        }
    }
    let cmd = command(&p);
    let name = format!("in{}", if c.swap && matches!(c.pipe.mode, Mode::Zip(_)) { 0 } else { p.inputs.len() - 1 });
    let with = if zero { "/dev/zero" } else { "-" };
    let args: Vec<String> = cmd.args.iter().map(|a| if *a == name { with.to_string() } else { a.clone() }).collect();
    ex.reset();
    for (n, b) in cmd.files.iter().filter(|f| f.0 != name) {
        ex.put(n, b);
    }
    let mut r = Req::new(p.var, args.clone());
    r.stdin = if zero { In::Null } else { In::Endless(c.pat.0.clone()) };
    let o = ex.run(&r);
    let what = format!("nd {} on an endless input", args.iter().map(|a| format!("'{a}'")).collect::<Vec<_>>().join(" "));
    if !o.ok() {
        return Verdict::Fail(format!("{what}: {}", o.describe()));
    }
    if o.stdout != m {
        return Verdict::Fail(format!("{what}: {}", diff(&m, &o.stdout)));
    }
    Verdict::Pass { nontrivial: !m.is_empty(), labels: vec![["cut", "slice", "lines", "zip with a finite input", "lines of the head"][c.kind as usize % 5]] }
}

/// the slices are all in the head of the stream
fn head_strat() -> B<Endless> {
    let sl = prop_oneof![
        6 => find_pat().prop_map(Some).prop_map(|x| x.map(Slicer::Find)),
        1 => rngs(300, 5).prop_map(|r| Some(Slicer::Slice(start_anchored(&r.into_iter().map(Range::near).collect::<Vec<_>>())))),
        1 => guide().prop_map(|g| Some(Slicer::Guide(g))),
    ];
    (full_near(300), data(600), sl, rngs(8, 3), (any::<u8>(), any::<u16>(), 1usize..4, 0u8..3), weighted(0.5, 0usize..60))
        .prop_map(|(mut p, head, slicer, lines, (fill, at, len, how), merge)| {
            p.inf = InF::Default;
            p.mode = Mode::Default;
            p.order = 0;
            p.cut = None;
            p.invert = None;
            p.pad = p.pad.map(|(a, _)| (a % 8, 0));
            p.patch = None;
            p.merge = merge;
            p.lines = Some(start_anchored(&lines).into_iter().map(|r| Range { s: r.s.map(|e| End { k: e.k % 4, ..e }), e: r.e.map(|e| End { k: 1 + e.k % 6, ..e }) }).collect());
            p.slicer = match slicer {
                Some(Slicer::Find(_)) if head.len() > 4 => {
                    let at = at as usize % (head.len() - 4);
                    Some(Slicer::Find(Bytes(head[at..at + len].to_vec())))
                }
                x => x,
            };
            Endless { pipe: p, pat: Bytes(vec![fill]), how, kind: 4, before: vec![head], swap: false }
        })
        .boxed()
}

fn endless_strat() -> B<Endless> {
    let pat = (1usize..200, any::<u64>(), 0u8..6).prop_map(|(l, s, k)| Bytes(expand(l, s, k)));
    let before = prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(data(300), 1..3)];
    (full_near(300), pat, 0u8..3, 0u8..4, before, rngs(300, 4), any::<bool>())
        .prop_map(|(mut p, pat, how, kind, mut before, r, swap)| {
            let r: Vec<Range> = r.into_iter().map(Range::near).collect();
            p.inf = if p.inf == InF::Default { InF::Default } else { InF::B };
            p.order = 0;
            let sa = start_anchored(&r);
            match kind % 4 {
                0 => {
                    p.cut = Some(sa);
                }
                1 => {
                    p.cut = None;
                    p.slicer = Some(Slicer::Slice(sa));
                    p.invert = None;
                    p.extend = None;
                    if let Some(l) = &mut p.lines {
                        *l = start_anchored(l);
                    }
                }
                2 => {
                    p.cut = None;
                    p.lines = Some(sa.into_iter().map(|r| Range { s: r.s.map(|e| End { k: e.k % 90, ..e }), e: r.e.map(|e| End { k: e.k % 120, ..e }) }).collect());
                    if matches!(p.slicer, Some(Slicer::Slice(_) | Slicer::Guide(_))) {
                        p.slicer = None;
                    }
                }
                _ => {
                    if before.is_empty() {
                        before.push(Bytes(pat[..pat.len().min(70)].to_vec()));
                    }
                    p.mode = Mode::Zip(1 + r.len() * 3);
                }
            }
            if kind % 4 != 3 && matches!(p.mode, Mode::Zip(_)) {
                before.clear();
            }
            if let Some(mut r) = p.patch.take() {
                let l = if kind % 4 == 0 || kind % 4 == 3 {
                    let mut inputs: Vec<Input> = before.iter().cloned().map(Input::Raw).collect();
                    inputs.push(Input::Raw(Bytes(pat.iter().copied().cycle().take(5000).collect())));
                    edited(&Pipe { inputs, ..p.clone() }).len()
                } else {
                    4000
                };
                fold_recs(&mut r, l);
                p.patch = Some(r);
            }
            Endless { pipe: p, pat, how, kind, before, swap }
        })
        .boxed()
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Pager {
    pipe: Pipe,
    how: u8,
    k: u16,
    /// by the environment
    env: bool,
    other: bool,
    grow: usize,
    short: Option<u32>,
}

fn pager(c: &Pager, ex: &mut Exec) -> Verdict {
    let mut p = c.pipe.clone();
    if c.grow > 0 {
        p = Pipe { inputs: vec![Input::Raw(Bytes(expand(c.grow, c.k as u64, 1)))], inf: InF::Default, mode: Mode::Default, patch: None, ..p };
    }
    let m = match model(&p) {
        Ok(m) if !m.aborted => m,
        Ok(_) => return Verdict::Discard("the walk aborts"),
        Err(d) => return Verdict::Discard(d),
    };
    let want = format(&m.stream, &m.slices, p.outf, m.cols);
    let k = c.k as usize % (want.len() + 2);
    // (command, what standard output gets, what the file gets)
    let (script, out, file): (String, Option<Vec<u8>>, Option<Vec<u8>>) = match c.how % 8 {
        0 => ("exec cat".into(), Some(want.clone()), None),
        1 => ("cat > got".into(), Some(vec![]), Some(want.clone())),
        2 => ("sleep 0.03; cat > got; sleep 0.03; echo done".into(), Some(b"done\n".to_vec()), Some(want.clone())),
        3 => (format!("head -c {k} > got"), Some(vec![]), Some(want[..k.min(want.len())].to_vec())),
        4 => ("exec true".into(), Some(vec![]), None),
        5 => ("cat > got; exit 3".into(), Some(vec![]), Some(want.clone())),
        6 => ("exec < /dev/null; sleep 0.02; echo done".into(), Some(b"done\n".to_vec()), None),
        _ => ("tee got".into(), Some(want.clone()), Some(want.clone())),
    };
    let cmd = command(&p);
    ex.reset();
    for (n, b) in &cmd.files {
        ex.put(n, b);
    }
    ex.put("script", script.as_bytes());
    ex.put("other", b"cat > wrong");
    let mut args = cmd.args.clone();
    let mut env = vec![];
    let sp = [" ", "  ", "\t", " \n "][c.k as usize % 4];
    let run = format!("bash{sp}script");
    if c.env {
        env.push(("PAGER".to_string(), run));
    } else {
        args.insert(0, format!("--pager={run}"));
        if c.other {
            env.push(("PAGER".to_string(), "bash other".to_string()));
        }
    }
    let mut r = Req::new(p.var, args.clone());
    r.env = env;
    r.stdin = cmd.stdin;
    r.shim = c.short.map(|s| format!("short={s}"));
    let o = ex.run(&r);
    let what = format!("nd {} ({:?} in the environment) with the pager script {script:?}", args.iter().map(|a| format!("'{a}'")).collect::<Vec<_>>().join(" "), r.env);
    let rude = o.stderr.windows(5).any(|w| w == b"error");
    if !o.ok() || rude {
        return Verdict::Fail(format!("{what}: {}", o.describe()));
    }
    if let Some(w) = out {
        if o.stdout != w {
            return Verdict::Fail(format!("{what}: standard output: {}", diff(&w, &o.stdout)));
        }
    }
    if let Some(w) = file {
        let g = ex.get("got").unwrap_or_default();
        if g != w {
            return Verdict::Fail(format!("{what}: what the pager got: {}", diff(&w, &g)));
        }
    }
    if ex.get("wrong").is_some() {
        return Verdict::Fail(format!("{what}: the wrong pager was run"));
    }
    let mut labels = vec![["passes on", "keeps", "slow", "quits early", "reads nothing", "exit status", "closes its input", "copies"][c.how as usize % 8]];
    if want.len() > 70_000 {
        labels.push("more than the pipe holds");
    }
    Verdict::Pass { nontrivial: !want.is_empty(), labels }
}

fn no_pager(c: &(Pipe, u8), ex: &mut Exec) -> Verdict {
    let (p, how) = c;
    let m = match model(p) {
        Ok(m) if !m.aborted => m,
        Ok(_) => return Verdict::Discard("the walk aborts"),
        Err(d) => return Verdict::Discard(d),
    };
    let inplace = how % 3 == 0 && p.inputs.len() == 1 && p.feed == Feed::Files && p.mode == Mode::Default;
    let cmd = command(p);
    ex.reset();
    for (n, b) in &cmd.files {
        ex.put(n, b);
    }
    ex.put("plain", b"x");
    let mut args = cmd.args.clone();
    let bad = ["no-such-pager", "./plain", "", "  "][*how as usize / 3 % 4];
    args.insert(0, format!("--pager={bad}"));
    if inplace {
        args.insert(0, "-i".into());
    }
    let mut r = Req::new(p.var, args.clone());
    r.stdin = cmd.stdin;
    let o = ex.run(&r);
    let what = format!("nd {}", args.iter().map(|a| format!("'{a}'")).collect::<Vec<_>>().join(" "));
    if inplace {
        // not used
        let outf = if p.outf == OutF::Default { OutF::B } else { p.outf };
        let want = format(&m.stream, &m.slices, outf, m.cols);
        let got = ex.get("in0").unwrap_or_default();
        if !o.ok() || got != want {
            return Verdict::Fail(format!("{what}: {}; {}", o.describe(), diff(&want, &got)));
        }
        return Verdict::Pass { nontrivial: true, labels: vec!["in place"] };
    }
    if o.ok() || o.panicked() || o.hung || o.stderr.is_empty() || !o.stdout.is_empty() {
        return Verdict::Fail(format!("{what}: {}, {} bytes on standard output", o.describe(), o.stdout.len()));
    }
    Verdict::Pass { nontrivial: true, labels: vec!["cannot be run"] }
}

/// a value or a record outside the documented grammar or bounds
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Reject {
    kind: u8,
    which: u8,
    ranges: Vec<Range>,
    recs: Vec<Rec>,
    num: i64,
    style: u32,
    at: u16,
    ch: u8,
    var: Var,
}

/// one way of making the text of a range invalid
fn bad_range(c: &Reject) -> String {
    let at = c.at as usize;
    let mut v: Vec<String> = c.ranges.iter().map(|r| r.render()).collect();
    let i = at % v.len();
    let (a, b) = v[i].split_once("..").map(|(a, b)| (a.to_string(), b.to_string())).unwrap();
    let pick = |t: &[&str]| t[(c.style as usize / 7) % t.len()].to_string();
    let anchored = || pick(&["s*2", "2*s", "s+e", "e+s", "s+s", "-s", "3-s", "-(e)", "s<<1", "e/2", "e%3", "s&7", "e|1", "s^3", "~s", "s*s", "e-s", "s-e", "(s+1)*2", "s+2*e"]);
    let unknown = || pick(&["q", "n", "S", "E", "l", "b", "x", "start", "se", "es", "s1", "_"]);
    let junk = || pick(&["$", "?", ";", ":", "{", "}", "\"", "'", "#", "\\", "_", "[", "]", "="]);
    v[i] = match c.ch % 10 {
        0 => format!("{a}{}{b}", pick(&[".", ":", "...", "....", "-", "..="])),
        1 => format!("{a}..{b}..{}", pick(&["", "e", "3"])),
        2 => format!("{}..{b}", anchored()),
        3 => format!("{a}..{}", anchored()),
        4 => format!("{}..{b}", unknown()),
        5 => format!("{a}..{}", unknown()),
        6 => format!("({a}..{b})"),
        7 => format!("{a}..{b}{}", junk()),
        8 => format!("{}{a}..{b}", junk()),
        _ => format!("{a}..{} {}", if b.is_empty() { "e" } else { &b }, pick(&["3", "s", "e", "0x1"])),
    };
    v.join(",")
}

/// replaces a digit of the text of the records, or breaks a separator; none if there is none
fn bad_recs(c: &Reject, dec: bool) -> Option<Vec<u8>> {
    let text = render_recs_as(&c.recs, true, dec);
    let ends: Vec<usize> = text.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0).collect();
    let starts: Vec<usize> = std::iter::once(0).chain(ends.iter().map(|e| e + 1)).filter(|s| *s < text.len()).collect();
    if starts.is_empty() {
        return None;
    }
    let s = starts[c.at as usize % starts.len()];
    let line: &[u8] = text[s..].split(|b| *b == b'\n').next().unwrap();
    let bad = |hex: bool, k: u32| -> u8 {
        let t: &[u8] = if hex { b"gGzZxX.,:;/@`_-+!~\x80\xff\x00" } else { b"aAfFgGxX.,:;/_-+!~\x80\xff\x00" };
        t[k as usize % t.len()]
    };
    let k = c.style / 11;
    let sp1 = line.iter().position(|b| *b == b' ')?;
    let bar = line.iter().position(|b| *b == b'|');
    let len_end = bar.map_or(line.len(), |b| b - 1);
    let mut line = line.to_vec();
    let n = line.len();
    match c.ch % 8 {
        0 => line[k as usize % sp1] = bad(!dec, k / 16),
        1 => line[sp1 + 1 + k as usize % (len_end - sp1 - 1)] = bad(!dec, k / 16),
        2 | 3 | 4 => {
            let bar = bar?;
            let stop = line[bar + 1..].iter().position(|b| *b == b'|').map_or(n, |x| bar + 1 + x);
            let nibs: Vec<usize> = (bar + 2..stop).filter(|&i| line[i].is_ascii_hexdigit()).collect();
            if nibs.is_empty() {
                return None;
            }
            if c.ch % 8 == 4 && k % 3 != 0 {
                // the array ends in the middle of a byte
                line.drain(nibs[nibs.len() - 1]..stop);
            } else {
                line[nibs[k as usize % nibs.len()]] = bad(true, k / 4096);
            }
        }
        5 => {
            line.insert(sp1, b' ');
        }
        6 => {
            let bar = bar?;
            line[bar] = b"+:-/!"[k as usize % 5];
        }
        _ => {
            // no length
            line.drain(sp1..len_end);
        }
    }
    let mut o = text[..s].to_vec();
    let rest = s + n;
    o.extend_from_slice(&line);
    o.extend_from_slice(&text[rest..]);
    Some(o)
}

fn rejected(c: &Reject, ex: &mut Exec) -> Verdict {
    let pick = |t: &[&str]| t[(c.at as usize) % t.len()].to_string();
    let num = |k: i64| {
        let e = End { a: Anchor::None, k, style: c.style }.render();
        if c.which >= 128 && k > 0 { format!("{e}+0") } else { e }
    };
    let mut prefix_of: Option<Vec<u8>> = None;
    let mut label = "a value";
    let data: Vec<u8> = expand(6000, c.at as u64, 2);
    ex.reset();
    ex.put("in", &data);
    let mut args: Vec<String> = match c.kind % 12 {
        0 => {
            let v = if c.num >= 0 { 256 + c.num } else { c.num };
            vec![format!("--filler={}", num(v)), "--pad=1,1".into(), "in".into()]
        }
        1 => vec![format!("--{}={}", pick(&["cat", "zip", "width"]), num(-c.num.abs())), "in".into()],
        2 => {
            let v = -c.num.abs().max(1);
            vec![if c.at % 4 == 0 { format!("--merge={}", num(v)) } else { format!("--pad={}", match c.at % 4 { 1 => format!("{},2", num(v)), 2 => format!("2,{}", num(v)), _ => format!("1,{},3", num(-v)) }) }, "in".into()]
        }
        3 | 4 | 5 => {
            label = "a range";
            let r = bad_range(c);
            let o = pick(&["cut", "slice", "invert", "extend", "lines", "width"]);
            vec![if o == "width" { format!("--width={},{r}", 1 + c.style % 40) } else { format!("--{o}={r}") }, "in".into()]
        }
        6 => {
            label = "another argument";
            match c.which % 6 {
                0 => vec![format!("--{}-format={}", ["in", "out"][c.at as usize % 2], ["z", "X", "B", "D", "N", "xb", "bb", "xx", "nx", "zxx", "xzx", "xxz", "xxxx", "", "hex", "x-", "bxq"][c.style as usize % 17]), "in".into()],
                1 => vec![format!("--find={}", ["6g", "zz", "61,62", "0x61", "6 1", "61 6G", "61-62", "616", "612 3", "\\x61", "61 zz 62", "6", "61 6", "X", "61 62 g", " 6"][c.style as usize % 16]), "in".into()],
                2 => vec![format!("--regex={}", ["(", "a)", "[", "[a", "a{2", "*", "(?P<n", "\\", "(?z)", "a|(", "[b-a]", "(?P<n>a", "\\q", "a{3,2}"][c.style as usize % 14]), "in".into()],
                3 => vec![format!("--output=o{}", ["{}", "{q}", "{n:z}", "{n:5z}", "{{n}}", "{n:x:x}", "{n+}x{m}", "{n*}", "{(n}", "{n)}", "{n l}", "{n n}", "{:x}", "{n+1}", "{né}", "{(n)x}"][c.style as usize % 16]), "in".into()],
                4 => vec![["--bogus", "-Q", "--wid=3=", "--inplace=1", "--filter=1", "-y3", "--version=2", "--cuts=1..2"][c.style as usize % 8].to_string(), "in".into()],
                _ => vec![format!("--walk={}", ["q", "s", "e", "b[", "b]", "b[0", "b[]", "b(0)", "n", "c[0]", "b[0]]", "b[0][1]", "[0]", "bb[0]"][c.style as usize % 14]), "in".into()],
            }
        }
        k => {
            label = "a record";
            let dec = k == 11;
            let place = if dec { 0 } else { c.which % 3 };
            let total: usize = c.recs.iter().map(|r| r.gap + r.len).sum();
            if total >= data.len() {
                return Verdict::Discard("records beyond the end of the stream");
            }
            let Some(t) = bad_recs(c, dec) else { return Verdict::Discard("nothing to damage") };
            ex.put("rec", &t);
            match place {
                0 => {
                    prefix_of = Some(place_all(c));
                    vec![format!("--in-format={}", if dec { "d" } else { "x" }), "--out-format=b".into(), "rec".into()]
                }
                1 => {
                    prefix_of = Some(apply_patch(&data, &absolute(&c.recs)));
                    vec!["--patch=rec".into(), "--out-format=b".into(), "in".into()]
                }
                _ => vec!["--guide=rec".into(), "--out-format=b".into(), "in".into()],
            }
        }
    };
    if c.which % 2 == 1 && c.kind % 12 != 4 {
        args.rotate_left(1);
    }
    let what = format!("nd {}", args.iter().map(|a| format!("'{a}'")).collect::<Vec<_>>().join(" "));
    let mut r = Req::new(c.var, args);
    r.stdin = In::Null;
    r.mem = 1 << 30;
    let o = ex.run(&r);
    if o.ok() || o.panicked() || o.hung || o.stderr.is_empty() || o.signal.is_some() {
        return Verdict::Fail(format!("{what} is not an error: {}", o.describe()));
    }
    match prefix_of {
        Some(w) if !w.starts_with(&o.stdout) => return Verdict::Fail(format!("{what}: the output before the error: {}", diff(&w, &o.stdout))),
        None if c.kind % 12 < 7 && !o.stdout.is_empty() => return Verdict::Fail(format!("{what}: output: {}", o.describe())),
        _ => {}
    }
    if label != "a record" && ex.ls().iter().any(|f| f != "in" && f != "rec") {
        return Verdict::Fail(format!("{what}: leaves files: {:?}", ex.ls()));
    }
    Verdict::Pass { nontrivial: true, labels: vec![label] }
}

fn place_all(c: &Reject) -> Vec<u8> {
    place(&absolute(&c.recs), 0)
}

fn reject_strat() -> B<Reject> {
    let num = prop_oneof![3 => -5i64..6, 2 => -300i64..300, 1 => any::<i32>().prop_map(|x| x as i64), 1 => prop::sample::select(&[i64::MIN + 256, i64::MAX - 256, 1 << 32, -(1 << 32), 0x100, 0x1_0000][..])];
    let rr = || prop::collection::vec(rngs(60, 2).prop_map(|mut v| v.pop()), 1..4).prop_map(|v| v.into_iter().flatten().collect::<Vec<Range>>()).prop_filter("a range", |v| !v.is_empty());
    (any::<[u8; 3]>(), rr(), text_recs(), num, 0u32..1_000_000, any::<u16>(), var_any())
        .prop_map(|([kind, which, ch], ranges, recs, num, style, at, var)| Reject { kind, which, ranges, recs, num, style, at, ch, var })
        .boxed()
}

/// without --pager, less is run if standard output is a terminal, and only then
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Term {
    pipe: Pipe,
    tty: u8,
    /// who names a pager: nobody, the environment, the option
    by: u8,
    inplace: bool,
    grow: usize,
    k: u16,
}

fn term_strat() -> B<Term> {
    (full_near(500), 0u8..8, 0u8..4, weighted(0.2, any::<()>()), prop_oneof![5 => Just(0usize), 1 => 10_000usize..60_000], any::<u16>()).prop_map(|(pipe, tty, by, i, grow, k)| Term { pipe, tty, by, inplace: i.is_some(), grow, k }).boxed()
}

fn term(c: &Term, ex: &mut Exec) -> Verdict {
    let mut p = c.pipe.clone();
    if c.grow > 0 {
        p = Pipe { inputs: vec![Input::Raw(Bytes(expand(c.grow, c.k as u64, 1)))], inf: InF::Default, mode: Mode::Default, patch: None, ..p };
    }
    let m = match model(&p) {
        Ok(m) if !m.aborted => m,
        Ok(_) => return Verdict::Discard("the walk aborts"),
        Err(d) => return Verdict::Discard(d),
    };
    let inplace = c.inplace && p.inputs.len() == 1 && p.feed == Feed::Files && p.mode == Mode::Default;
    let outf = if inplace && p.outf == OutF::Default { OutF::B } else { p.outf };
    let want = format(&m.stream, &m.slices, outf, m.cols);
    let cmd = command(&p);
    ex.reset();
    for (n, b) in &cmd.files {
        ex.put(n, b);
    }
    // they are files of the suite: one that is written here could still be open in a process another thread starts
    let bin = std::env::var("NDV_ROOT").unwrap_or_else(|_| "/verif".into()) + "/pagers";
    let mut args = cmd.args.clone();
    let mut env = vec![("PATH".to_string(), format!("{bin}:/usr/local/bin:/usr/bin:/bin"))];
    let by = c.by % 4;
    match by {
        1 => env.push(("PAGER".to_string(), "mine -x +3".to_string())),
        2 => args.insert(0, "--pager=mine -x +3".into()),
        _ => {}
    }
    if inplace {
        args.insert(0, "-i".into());
    }
    let mut tty = c.tty % 8;
    match &cmd.stdin {
        In::Null => {}
        In::Pipe(b) if b.len() <= TYPED => {}
        _ => tty &= 6,
    }
    if tty & 6 == 6 && matches!(p.slicer, Some(Slicer::Walk(..))) {
        // there may be warnings
        tty &= 3;
    }
    let alone = tty == 7 && p.feed == Feed::PipeBare && p.inputs.len() == 1;
    let mut r = Req::new(p.var, args.clone());
    r.env = env;
    r.stdin = cmd.stdin.clone();
    r.tty = tty;
    let o = ex.run(&r);
    let what = format!("nd {} with terminals {tty:03b}, the pager named by {}", args.iter().map(|a| format!("'{a}'")).collect::<Vec<_>>().join(" "), ["nobody", "the environment", "the option", "nobody"][by as usize]);
    if alone {
        let shown = String::from_utf8_lossy(&o.stdout);
        if o.code != Some(1) || o.hung || !shown.contains("error") || ex.get("less.got").is_some() || ex.get("mine.got").is_some() {
            return Verdict::Fail(format!("{what}: not an error without files, although all is the terminal: {}, {shown:?}", o.describe()));
        }
        return Verdict::Pass { nontrivial: true, labels: vec!["nothing but the terminal"] };
    }
    if !o.ok() {
        return Verdict::Fail(format!("{what}: {}", o.describe()));
    }
    let pager = match by {
        _ if inplace => None,
        1 | 2 => Some("mine"),
        _ if tty & 2 != 0 => Some("less"),
        _ => None,
    };
    for n in ["less", "mine"] {
        let got = ex.get(&format!("{n}.got"));
        match (pager == Some(n), got) {
            (false, Some(_)) => return Verdict::Fail(format!("{what}: {n} is run")),
            (true, None) => return Verdict::Fail(format!("{what}: {n} is not run")),
            (true, Some(g)) => {
                if g != want {
                    return Verdict::Fail(format!("{what}: what {n} got: {}", diff(&want, &g)));
                }
                let a = ex.get(&format!("{n}.args")).unwrap_or_default();
                let mut a: Vec<&str> = std::str::from_utf8(&a).unwrap_or("?").split_whitespace().collect();
                if n == "less" {
                    a.sort();
                }
                if a != if n == "less" { &["-F", "-S", "-X"][..] } else { &["-x", "+3"][..] } {
                    return Verdict::Fail(format!("{what}: the arguments of {n}: {a:?}"));
                }
            }
            _ => {}
        }
    }
    let shown = match pager {
        Some(n) => format!("{n} is done\n").into_bytes(),
        None if inplace => vec![],
        None => want.clone(),
    };
    if o.stdout != shown {
        return Verdict::Fail(format!("{what}: standard output: {}", diff(&shown, &o.stdout)));
    }
    if inplace {
        let g = ex.get("in0").unwrap_or_default();
        if g != want {
            return Verdict::Fail(format!("{what}: the file: {}", diff(&want, &g)));
        }
    }
    let mut labels = vec![pager.unwrap_or("no pager")];
    if tty & 1 != 0 && matches!(cmd.stdin, In::Pipe(_)) {
        labels.push("typed");
    }
    Verdict::Pass { nontrivial: pager.is_some() || inplace || tty & 1 != 0, labels }
}

pub fn props() -> Vec<crate::engine::Prop> {
    use crate::engine::Prop;
    vec![
        Prop {
            id: "C24",
            level: "exploration",
            assumptions: &["sizes that do not fit in 4 GiB of memory or 256 MiB of output are outside the domain"],
            camps: vec![
                boxed(Camp { name: "options", quick: 120_000, thorough: 4_000_000, rule: "one to four options with values made of tokens of their grammars, some with arbitrary bytes; non-trivial: a value is not empty", strat: junk_strat, test: junk }),
                boxed(Camp { name: "records", quick: 100_000, thorough: 4_000_000, rule: "damaged or arbitrary records as input, patch, guide and the answer of a patch-back command, in every format; non-trivial: the text is not empty", strat: || (junk_text(), 0u8..5, any::<[u8; 3]>(), data(200), any::<bool>(), var_any()).prop_map(|(text, place, fmt, data, pipe, var)| Text { text, place, fmt, data, pipe, var }).boxed(), test: text }),
                boxed(Camp { name: "rejected", quick: 60_000, thorough: 2_000_000, rule: "a value outside the documented grammar or bounds, or records with a digit or a separator damaged, is an error with a message, and what was written before is a prefix of the correct output; non-trivial: every case", strat: reject_strat, test: rejected }),
            ],
        },
        Prop {
            id: "C26",
            level: "exploration",
            assumptions: &[],
            camps: vec![boxed(Camp { name: "lines", quick: 60_000, thorough: 1_500_000, rule: "command lines of zero to four options and zero to three inputs; whether they conflict is known from the list of exclusive groups; non-trivial: they conflict, or read the standard input (the result is then compared with the same from a file)", strat: line_strat, test: line }),
                boxed(Camp { name: "terminal", quick: 6000, thorough: 120_000, rule: "a command line that reads the standard input, which may be a terminal, as may be standard output and error; non-trivial: a terminal is read from, or nothing is given but the terminal", strat: || term_strat().prop_map(|mut t| { t.pipe.feed = if t.k % 3 == 0 { Feed::Pipe } else { Feed::PipeBare }; t.tty |= (t.k % 5 != 0) as u8; Term { inplace: false, grow: 0, ..t } }).boxed(), test: term }),
            ],
        },
        Prop {
            id: "C27",
            level: "exploration",
            assumptions: &["the peak resident set size stands for the memory in use"],
            camps: vec![boxed(Camp { name: "growth", quick: 250, thorough: 12_000, rule: "a command line without ranges from the head to the tail on two lengths of the same input (1 and 8 MiB with small blocks, 16 and 128 MiB with the real ones); non-trivial: there is a stage besides the default ones", strat: mem_strat, test: mem })],
        },
        Prop {
            id: "C28",
            level: "exploration",
            assumptions: &["no answer within 25 s of CPU time means never"],
            camps: vec![boxed(Camp { name: "endless", quick: 20_000, thorough: 600_000, rule: "a bounded request on an endless pipe or device, against the reference model on the head; non-trivial: there is output", strat: endless_strat, test: endless }), boxed(Camp { name: "scaled", quick: 2500, thorough: 60_000, rule: "the same with all lengths, offsets and distances multiplied by 2 to 600 (bounds of up to 200 KiB with small blocks and real ones); non-trivial: there is output", strat: || (endless_strat(), super::scale::grow(600)).boxed(), test: endless_scaled }), boxed(Camp { name: "head", quick: 15_000, thorough: 400_000, rule: "slices that are all in the head of an endless pipe or device, merged, extended and matched, with as many lines asked for as there are; against the reference model on the head; non-trivial: there is output", strat: head_strat, test: endless })],
        },
        Prop {
            id: "C29",
            level: "exploration",
            assumptions: &["bash, cat, head, tee and sleep work as documented"],
            camps: vec![
                boxed(Camp { name: "pagers", quick: 8000, thorough: 300_000, rule: "a command line with one of eight pager scripts, against the reference model; non-trivial: there is output", strat: || (full_near(700), 0u8..8, any::<u16>(), any::<bool>(), any::<bool>(), prop_oneof![5 => Just(0usize), 1 => 30_000usize..200_000], weighted(0.2, any::<u32>())).prop_map(|(pipe, how, k, env, other, grow, short)| Pager { pipe, how, k, env, other, grow, short }).boxed(), test: pager }),
                boxed(Camp { name: "terminal", quick: 10_000, thorough: 200_000, rule: "any of the standard streams is a terminal or not, a pager is named or not, in place or not; non-trivial: a pager is run, or one could have been, or the input is typed", strat: term_strat, test: term }),
                boxed(Camp { name: "unusable", quick: 3000, thorough: 60_000, rule: "a pager that cannot be run is an error, and not looked at when editing in place; non-trivial: every case", strat: || (full_near(300), any::<u8>()).boxed(), test: no_pager }),
            ],
        },
    ]
}
