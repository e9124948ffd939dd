//! C01 dumps (far offsets), C02 text input round trips, C03 dumps as patches.

use super::*;
use super::scale::Grow;
use crate::engine::{boxed, Camp};
use crate::exec::{In, Var};
use crate::gen::*;
use crate::util::{mix, Bytes};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const M: usize = 900;

/// slices around an offset that only padding makes reachable
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Far {
    k: u32,
    d: i64,
    data: Bytes,
    /// relative to the end of the padding
    slices: Vec<(i64, usize)>,
    how: u8,
    ext: Option<(u8, u8)>,
    patch: Option<(i64, Bytes)>,
    outf: OutF,
    avx2: bool,
}

fn far_run(c: &Far, ex: &mut Exec) -> Verdict {
    let pad = (1i64 << c.k) + c.d;
    let mut data = c.data.0.clone();
    // the head of what can be seen
    let mut x = vec![0u8; 600];
    x.append(&mut data);
    let base = pad - 600;
    let mut args = vec![format!("--pad={pad},0")];
    if let Some((at, arr)) = &c.patch {
        if c.k > 32 {
            return Verdict::Discard("patching is too slow that far away");
        }
        let at = (*at).clamp(-500, c.data.0.len() as i64);
        let r = AbsRec { off: (at + 600) as usize, len: 2, data: &arr.0 };
        x = apply_patch(&x, &[r]);
        let arr = arr.0.iter().map(|b| format!("{b:02x} ")).collect::<String>();
        ex.reset();
        ex.put("p", format!("{:x} 2 | {arr}\n", pad + at).as_bytes());
        args.push("--patch=p".into());
    } else {
        ex.reset();
    }
    let end = base + x.len() as i64;
    let mut v: Vec<(i64, i64)> = c.slices.iter().map(|&(s, l)| (pad + s.max(-500), pad + s.max(-500) + l as i64)).collect();
    v.sort();
    v.dedup();
    let mut cl: Vec<_> = v.iter().map(|y| (y.0.min(end), y.1.min(end))).filter(|y| y.0 < y.1).collect();
    cl.dedup();
    if cl.len() < v.iter().filter(|y| y.0 < end).count() {
        return Verdict::Discard("identical slices requested twice");
    }
    match c.how % 3 {
        0 => args.push(format!("--slice={}", v.iter().map(|(s, e)| format!("{s}..{e}")).collect::<Vec<_>>().join(","))),
        1 => args.push(format!("--slice={}", v.iter().map(|(s, e)| format!("e-{}..e-{}", end - s, end - e).replace("--", "+")).collect::<Vec<_>>().join(","))),
        _ => {
            ex.put("g", v.iter().map(|(s, e)| format!("{s:x} {:x}\n", e - s)).collect::<String>().as_bytes());
            args.push("--guide=g".into());
        }
    }
    if let Some((a, b)) = c.ext {
        args.push(format!("--extend=s-{a}..e+{b}"));
        for y in v.iter_mut() {
            // the slicer clips first
            *y = (y.0.min(end), y.1.min(end));
        }
        v.retain(|y| y.0 < y.1);
        for y in v.iter_mut() {
            *y = (y.0 - a as i64, y.1 + b as i64);
        }
    }
    args.push(format!("--out-format={}", match c.outf { OutF::B => "b", OutF::D => "d", _ => "x" }));
    let mut want = Vec::new();
    let cols = if c.outf == OutF::B { 0 } else { 16 };
    let mut n = 0;
    for (s, e) in v {
        let (s, e) = (s.min(end), e.min(end));
        if s >= e {
            continue;
        }
        n += 1;
        let b = &x[(s - base) as usize..(e - base) as usize];
        match c.outf {
            OutF::B => want.extend_from_slice(b),
            OutF::D => {
                let mut o = Vec::new();
                fmt_one(b, 0, b.len(), OutF::D, cols, &mut o);
                let rest = &o[2..];
                want.extend_from_slice(format!("{s} ").as_bytes());
                want.extend_from_slice(rest);
            }
            _ => fmt_x(s as usize, b, cols, &mut want),
        }
    }
    ex.put("in", &c.data.0);
    args.push("in".into());
    let mut r = Req::new(if c.avx2 { Var::Avx2Real } else { Var::NaiveReal }, args.clone());
    r.stdin = In::Null;
    let o = ex.run(&r);
    if !o.ok() || o.stdout != want {
        return Verdict::Fail(format!("nd {}: {}; {}", args.join(" "), o.describe(), diff(&want, &o.stdout)));
    }
    Verdict::Pass { nontrivial: n > 0, labels: vec![if c.k >= 32 { "beyond 4 GiB" } else { "below 4 GiB" }] }
}

fn far_strat() -> B<Far> {
    (
        (prop_oneof![2 => 12u32..32, 3 => 31u32..34, 3 => 33u32..42], -40i64..41, data(300)),
        prop::collection::vec((prop_oneof![-30i64..31, -400i64..301], prop_oneof![3 => 1usize..40, 1 => 1usize..500]), 1..5),
        (0u8..3, proptest::option::weighted(0.3, (0u8..20, 0u8..20)), proptest::option::weighted(0.1, (-20i64..100, prop::collection::vec(any::<u8>(), 0..8).prop_map(Bytes)))),
        (outf(), any::<bool>()),
    )
        .prop_map(|((k, d, data), slices, (how, ext, patch), (outf, avx2))| Far { k: if patch.is_some() { k.min(29) } else { k }, d, data, slices, how, ext, patch, outf: if outf == OutF::Default { OutF::X } else { outf }, avx2 })
        .boxed()
}

/// a second run on the first one's output
fn second(ex: &mut Exec, var: Var, args: &[&str], files: &[(&str, &[u8])], stdin: Option<&[u8]>) -> Out {
    ex.reset();
    for (n, b) in files {
        ex.put(n, b);
    }
    let mut r = Req::new(var, args.iter().map(|x| x.to_string()).collect());
    if let Some(b) = stdin {
        r.stdin = In::Pipe(b.to_vec());
    }
    ex.run(&r)
}

/// what nd dumps is read back to the same bytes
fn roundtrip(p: &Pipe, ex: &mut Exec) -> Verdict {
    let m = match model(p) {
        Ok(m) if !m.aborted => m,
        Ok(_) => return Verdict::Discard("the walk aborts"),
        Err(d) => return Verdict::Discard(d),
    };
    let dump = run(p, ex);
    if !dump.ok() {
        return Verdict::Fail(format!("nd {}: {}", show(p), dump.describe()));
    }
    let all: Vec<u8> = m.slices.iter().flat_map(|&(s, e)| m.stream[s..e].to_vec()).collect();
    if p.outf != OutF::D {
        let o = second(ex, p.var, &["-F", "nnx", "-f", "b"], &[], Some(&dump.stdout));
        if !o.ok() || o.stdout != all {
            return Verdict::Fail(format!("nd {} | nd -F nnx -f b: {}; {}", show(p), o.describe(), diff(&all, &o.stdout)));
        }
    }
    let disjoint = m.slices.windows(2).all(|w| w[0].1 <= w[1].0);
    if disjoint {
        let fill = p.filler.unwrap_or(0);
        let mut want = Vec::new();
        for &(s, e) in &m.slices {
            want.resize(s, fill);
            want.extend_from_slice(&m.stream[s..e]);
        }
        let f = format!("--filler={fill}");
        let o = second(ex, p.var, &["-F", if p.outf == OutF::D { "d" } else { "x" }, "-f", "b", &f, "dump"], &[("dump", &dump.stdout)], None);
        if !o.ok() || o.stdout != want {
            return Verdict::Fail(format!("nd {} | nd -F x -f b {f}: {}; {}", show(p), o.describe(), diff(&want, &o.stdout)));
        }
    }
    Verdict::Pass { nontrivial: !all.is_empty(), labels: vec![if disjoint { "disjoint" } else { "overlapping" }] }
}

/// reading records = patching fillers with them
fn as_patch(c: &(Vec<Rec>, u8, Var), ex: &mut Exec) -> Verdict {
    let (recs, fill, var) = c;
    let mut recs = recs.clone();
    for r in recs.iter_mut() {
        // arrays as long as the records say
        let l = r.len;
        if let Some(d) = &mut r.data {
            d.0.resize(l, r.style as u8);
        } else {
            r.data = Some(Bytes(vec![*fill; l]));
        }
    }
    let total: usize = recs.iter().map(|r| r.gap + r.len).sum();
    let text = render_recs(&recs, true);
    let f = format!("--filler={fill}");
    let a = second(ex, *var, &["-F", "x", "-f", "b", &f, "t"], &[("t", &text)], None);
    let pad = format!("--pad=0,{total}");
    let b = second(ex, *var, &["-p", "t", "-f", "b", &f, &pad, "e"], &[("t", &text), ("e", b"")], None);
    if !a.ok() || !b.ok() || a.stdout != b.stdout || a.stdout.len() != total {
        return Verdict::Fail(format!("nd -F x {f} and nd --patch {pad} {f} differ on {:?}: {} / {}; {}", String::from_utf8_lossy(&text), a.describe(), b.describe(), diff(&b.stdout, &a.stdout)));
    }
    Verdict::Pass { nontrivial: total > 0 && recs.len() > 1, labels: vec![] }
}

/// an edited dump as a patch
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Edit {
    pipe: Pipe,
    /// which record, what to do, with what
    edits: Vec<(u32, u8, Bytes)>,
    shuffle: bool,
}

fn edit_run(c: &Edit, ex: &mut Exec) -> Verdict {
    match model(&c.pipe) {
        Ok(m) if !m.aborted => edit_core(c, &c.pipe, m, 0, ex),
        Ok(_) => Verdict::Discard("the walk aborts"),
        Err(d) => Verdict::Discard(d),
    }
}

fn edit_scaled(c: &(Edit, Grow), ex: &mut Exec) -> Verdict {
    let p = c.1.apply(&c.0.pipe);
    match super::scale::bounded(&p, 12 << 20) {
        Ok(m) => edit_core(&c.0, &p, m, 0, ex),
        Err(d) => Verdict::Discard(d),
    }
}

fn edit_distant(c: &(Edit, usize), ex: &mut Exec) -> Verdict {
    match super::far::prepare(&super::far::Distant { pipe: c.0.pipe.clone(), shift: c.1 }) {
        Ok((p, m, d)) => edit_core(&c.0, &p, m, d, ex),
        Err(d) => Verdict::Discard(d),
    }
}

/// `p` gives the slices of `m`, `shift` bytes later
fn edit_core(c: &Edit, p: &Pipe, m: Model, shift: usize, ex: &mut Exec) -> Verdict {
    let disjoint = m.slices.windows(2).all(|w| w[0].1 <= w[1].0);
    let dump = run(p, ex);
    if !dump.ok() {
        return Verdict::Fail(format!("nd {}: {}", show(p), dump.describe()));
    }
    let mut lines: Vec<Vec<u8>> = dump.stdout.split_inclusive(|&b| b == b'\n').map(|l| l.to_vec()).collect();
    if lines.len() != m.slices.len() {
        return Verdict::Fail(format!("nd {}: {} lines for {} slices", show(p), lines.len(), m.slices.len()));
    }
    // the stream the dump was taken from, as a file
    let mut repl: Vec<Option<Vec<u8>>> = vec![None; lines.len()];
    let mut gone = vec![false; lines.len()];
    let mut edited = false;
    if !lines.is_empty() {
        for (at, k, b) in &c.edits {
            let i = *at as usize % lines.len();
            let (s, e) = m.slices[i];
            let mut arr = m.stream[s..e].to_vec();
            match k % 5 {
                0 => {
                    let j = b.0.first().copied().unwrap_or(0) as usize % arr.len();
                    arr[j] = arr[j].wrapping_add(1 + b.0.len() as u8);
                }
                1 => arr = b.0.clone(),
                2 => arr.clear(),
                3 => {
                    gone[i] = true;
                    edited = true;
                    continue;
                }
                _ => arr.extend_from_slice(&b.0),
            }
            edited = true;
            // the header is kept, the array and the mosaic are rewritten as by an editor
            let head = lines[i].iter().position(|&x| x == b'|').unwrap() + 2;
            let mut l = lines[i][..head].to_vec();
            for x in &arr {
                l.extend_from_slice(format!("{x:02x} ").as_bytes());
            }
            if b.0.len() % 2 == 0 && !arr.is_empty() {
                l.extend_from_slice(b"| ");
            } else if arr.is_empty() {
                l.truncate(head);
            }
            l.push(b'\n');
            lines[i] = l;
            repl[i] = Some(arr);
        }
    }
    let text: Vec<u8> = lines.iter().zip(&gone).filter(|x| !x.1).flat_map(|x| x.0.clone()).collect();
    let kept: Vec<usize> = (0..lines.len()).filter(|&i| !gone[i]).collect();
    let over = kept.windows(2).any(|w| m.slices[w[0]].1 > m.slices[w[1]].0);
    let (pad, from) = (format!("--pad={shift}"), format!("--slice={shift}.."));
    let far: &[&str] = &["-p", "dump", "-f", "b", &pad, &from, "stream"];
    let args: &[&str] = if shift == 0 { &["-p", "dump", "-f", "b", "stream"] } else { far };
    let o = second(ex, p.var, args, &[("dump", &text), ("stream", &m.stream)], None);
    if over {
        if o.ok() || o.panicked() || o.hung || o.stderr.is_empty() {
            return Verdict::Fail(format!("overlapping records of nd {} given to --patch are no error: {}", show(p), o.describe()));
        }
        return Verdict::Pass { nontrivial: true, labels: vec!["overlapping"] };
    }
    let recs: Vec<AbsRec> = kept
        .iter()
        .map(|&i| {
            let (s, e) = m.slices[i];
            AbsRec { off: s, len: e - s, data: repl[i].as_deref().unwrap_or(&m.stream[s..e]) }
        })
        .collect();
    let want = apply_patch(&m.stream, &recs);
    if !o.ok() || o.stdout != want {
        return Verdict::Fail(format!("the dump of nd {} given to --patch as {:?}: {}; {}", show(p), String::from_utf8_lossy(&text), o.describe(), diff(&want, &o.stdout)));
    }
    if !edited && want != m.stream {
        return Verdict::Fail("the model is wrong: an unedited dump is not the identity".into());
    }
    Verdict::Pass { nontrivial: !kept.is_empty(), labels: vec![if edited { "edited" } else { "unedited" }, if disjoint { "disjoint" } else { "thinned out" }] }
}

fn edit_strat() -> B<Edit> {
    (
        full(M),
        any::<bool>(),
        prop_oneof![2 => Just(vec![]), 5 => prop::collection::vec((any::<u32>(), 0u8..5, prop::collection::vec(any::<u8>(), 0..30).prop_map(Bytes)), 1..5)],
        prop_oneof![2 => Just(OutF::Default), 1 => Just(OutF::X)],
    )
        .prop_map(|(p, plain, edits, outf)| {
            let p = if plain { Pipe { regex: None, extend: None, invert: None, ..p } } else { p };
            Edit { pipe: Pipe { outf, ..p }, edits, shuffle: false }
        })
        .boxed()
}

fn any_dump() -> B<Pipe> {
    (base(M), proptest::option::weighted(0.9, prop_oneof![
        3 => prop_oneof![1usize..80, 1usize..600].prop_map(|n| Slicer::Width(n, None)),
        2 => slicer(),
    ]), prop_oneof![3 => Just(None), 1 => any::<u8>().prop_map(Some)], proptest::option::weighted(0.2, map_rngs()))
        .prop_map(|(b, slicer, filler, extend)| Pipe { slicer, filler, extend, outf: if b.outf == OutF::B { OutF::X } else { b.outf }, ..b })
        .boxed()
}

/// the option -F for a damaged record set: sorted but overlapping or unsorted records
fn disorder(c: &(Vec<Rec>, u32, u8, Var), ex: &mut Exec) -> Verdict {
    let (recs, seed, how, var) = c;
    let mut st = *seed as u64;
    let abs = absolute(recs);
    if abs.len() < 2 {
        return Verdict::Discard("fewer than two records");
    }
    // move one record back to before the end of its predecessor
    let i = 1 + (mix(&mut st) as usize) % (abs.len() - 1);
    let prev = abs[i - 1].off + abs[i - 1].len;
    if prev == 0 {
        return Verdict::Discard("nothing to overlap with");
    }
    let off = prev - 1 - (mix(&mut st) as usize) % prev.min(20);
    let mut t = Vec::new();
    for (j, a) in abs.iter().enumerate() {
        let arr = a.data.iter().map(|b| format!("{b:02x} ")).collect::<String>();
        let o = if j == i { off } else { a.off };
        t.extend_from_slice(format!("{o:012x} {:04x} | {arr}\n", a.len).as_bytes());
    }
    let data = expand(prev + 50, 3, 3);
    let a: &[&str] = match how % 2 {
        0 => &["-p", "t", "-f", "b", "data"],
        _ => &["-F", "x", "-f", "b", "t"],
    };
    let o = second(ex, *var, a, &[("t", &t), ("data", &data)], None);
    if o.ok() || o.panicked() || o.hung || o.stderr.is_empty() {
        return Verdict::Fail(format!("nd {} on records of which the {}. begins before the end of its predecessor ({:?}): {}", a.join(" "), i + 1, String::from_utf8_lossy(&t), o.describe()));
    }
    Verdict::Pass { nontrivial: true, labels: vec![] }
}

pub fn dump_camps() -> Vec<Box<dyn crate::engine::Campaign>> {
    vec![
        boxed(Camp { name: "any", quick: 40000, thorough: 2_000_000, rule: "the dump of slices of any width and kind against the reference model; non-trivial: at least one slice", strat: || (any_dump(), outf()).prop_map(|(p, outf)| Pipe { outf, ..p }).boxed(), test: differential }),
        boxed(Camp { name: "far", quick: 12000, thorough: 300_000, rule: "slices around an offset of 2^12 to 2^41, reached by padding; non-trivial: at least one slice", strat: far_strat, test: far_run }),
    ]
}

pub fn text_camps() -> Vec<Box<dyn crate::engine::Campaign>> {
    vec![
        boxed(Camp { name: "roundtrip", quick: 25000, thorough: 1_000_000, rule: "nd's dump read back by nd -F nnx, x or d; non-trivial: the dump is not empty", strat: any_dump, test: roundtrip }),
        boxed(Camp { name: "as-patch", quick: 20000, thorough: 800_000, rule: "records read with -F x against the same records given to --patch on a stream of fillers; non-trivial: more than one record", strat: || (patch_recs(), any::<u8>(), var_any()).boxed(), test: as_patch }),
    ]
}

pub fn disorder_camp(name: &'static str) -> Box<dyn crate::engine::Campaign> {
    boxed(Camp { name, quick: 20000, thorough: 500_000, rule: "records of which one begins before the end of its predecessor are rejected; non-trivial: every case", strat: || (patch_recs(), any::<u32>(), 0u8..2, var_any()).boxed(), test: disorder })
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C03",
        level: "exploration",
        assumptions: &[],
        camps: vec![boxed(Camp { name: "replay", quick: 40000, thorough: 2_000_000, rule: "the hexadecimal dump of any pipeline, unedited or with bytes and arrays changed and records deleted, given back as a patch for the stream it was taken from; non-trivial: at least one record", strat: edit_strat, test: edit_run }),
            boxed(Camp { name: "scaled", quick: 3000, thorough: 90_000, rule: "the same with all lengths, offsets and distances multiplied by 2 to 20000; non-trivial: at least one record", strat: || (edit_strat(), super::scale::grow(20_000)).boxed(), test: edit_scaled }),
            boxed(Camp { name: "distant", quick: 1000, thorough: 20_000, rule: "the same at offsets of 4 KiB to 4 GiB, the stream given again behind as much padding; non-trivial: at least one record", strat: || (edit_strat(), super::far::strat_near()).prop_map(|(e, d)| (Edit { pipe: Pipe { outf: e.pipe.outf, ..d.pipe }, ..e }, d.shift)).boxed(), test: edit_distant })],
    }]
}
