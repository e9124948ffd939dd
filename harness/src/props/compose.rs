//! C17 composition, C18 independence of blocks and transfer sizes, C19 CPU variants.

use super::*;
use crate::engine::{boxed, Camp};
use crate::exec::In;
use crate::gen::*;
use crate::util::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

const M: usize = 900;

/// stages 1 and 2 in one process, stages 3 to 5 in another
fn split(p: &Pipe, ex: &mut Exec) -> Verdict {
    let whole = run(p, ex);
    let head = Pipe { slicer: None, regex: None, invert: None, extend: None, merge: None, lines: None, outf: OutF::B, ..p.clone() };
    let h = run(&head, ex);
    if h.panicked() || whole.panicked() || h.hung || whole.hung {
        return Verdict::Fail(format!("nd {}: {} / {}", show(p), whole.describe(), h.describe()));
    }
    if !h.ok() {
        return Verdict::Fail(format!("nd {}: {}", show(&head), h.describe()));
    }
    let tail = Pipe {
        inputs: vec![Input::Raw(Bytes(h.stdout.clone()))],
        inf: InF::Default,
        mode: Mode::Default,
        cut: None,
        pad: None,
        patch: None,
        feed: Feed::PipeBare,
        ..p.clone()
    };
    let t = run(&tail, ex);
    if t.code != whole.code || (whole.ok() && t.stdout != whole.stdout) {
        return Verdict::Fail(format!(
            "nd {} and its two halves through a pipe disagree: {} / {}; {}",
            show(p),
            whole.describe(),
            t.describe(),
            diff(&whole.stdout, &t.stdout)
        ));
    }
    Verdict::Pass { nontrivial: whole.ok() && !whole.stdout.is_empty() && !h.stdout.is_empty(), labels: vec![if whole.ok() { "ok" } else { "error" }] }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Alt {
    pipe: Pipe,
    feed: Feed,
    var: Var,
    /// seed of short transfers
    short: Option<u32>,
    eintr: u8,
}

use crate::exec::Var;

fn run_shim(p: &Pipe, shim: Option<String>, ex: &mut Exec) -> Out {
    let c = command(p);
    ex.reset();
    for (n, b) in &c.files {
        ex.put(n, b);
    }
    let mut r = Req::new(p.var, c.args);
    r.stdin = c.stdin;
    r.shim = shim;
    ex.run(&r)
}

fn same(what: &str, p: &Pipe, a: &Out, b: &Out) -> Option<Verdict> {
    for o in [a, b] {
        if o.panicked() || o.hung {
            return Some(Verdict::Fail(format!("nd {}: {}", show(p), o.describe())));
        }
    }
    if a.code != b.code || (a.ok() && a.stdout != b.stdout) {
        return Some(Verdict::Fail(format!(
            "nd {}: the result depends on {what}: {} / {}; {}",
            show(p),
            a.describe(),
            b.describe(),
            diff(&a.stdout, &b.stdout)
        )));
    }
    None
}

fn alt(c: &Alt, ex: &mut Exec) -> Verdict {
    // how far a walk goes before --lines has got enough slices is up to the block size
    if c.pipe.lines.is_some() && matches!(c.pipe.slicer, Some(Slicer::Walk(..))) && !matches!(model(&c.pipe), Ok(m) if !m.aborted) {
        return Verdict::Discard("the walk aborts");
    }
    let a = Pipe { var: Var::NaiveReal, feed: Feed::Files, ..c.pipe.clone() };
    let b = Pipe { var: c.var, feed: c.feed, ..c.pipe.clone() };
    let oa = run(&a, ex);
    let mut set = Vec::new();
    if let Some(s) = c.short {
        set.push(format!("short={s}"));
    }
    if c.eintr > 0 {
        set.push(format!("eintr={}", c.eintr as usize + 1));
    }
    let ob = run_shim(&b, (!set.is_empty()).then(|| set.join(";")), ex);
    if let Some(f) = same(&format!("{:?}/{:?}/{:?}", c.feed, c.var, set), &b, &oa, &ob) {
        return f;
    }
    let mut labels = vec![if oa.ok() { "ok" } else { "error" }];
    if c.short.is_some() {
        labels.push("short transfers");
    }
    if c.eintr > 0 {
        labels.push("interrupted reads");
    }
    Verdict::Pass { nontrivial: oa.ok() && !oa.stdout.is_empty(), labels }
}

fn alt_strat() -> B<Alt> {
    let bytes = prop_oneof![6 => full(M), 1 => full(12_000)];
    (bytes, feed(), var_small(), proptest::option::weighted(0.7, any::<u32>()), prop_oneof![3 => Just(0u8), 1 => 1u8..5])
        .prop_map(|(pipe, feed, var, short, eintr)| Alt { pipe, feed, var, short, eintr })
        .boxed()
}

/// several MiB through the blocks of the real size
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Big {
    pipe: Pipe,
    blocks: usize,
    delta: i64,
    seed: u64,
    kind: u8,
    /// a marker that the slicer may look for, placed near a block boundary
    mark: Option<(usize, i64)>,
    avx2: bool,
    short: Option<u32>,
}

fn big_pipe(c: &Big) -> Pipe {
    let block = 2usize << 20;
    let len = ((c.blocks * block) as i64 + c.delta).max(0) as usize;
    // sparse in what short patterns match: the model and nd have to handle every slice
    let mut x = match c.kind % 3 {
        0 => vec![0u8; len],
        1 => expand(len, c.seed, 2),
        _ => (0..len).map(|i| (i >> 8) as u8).collect(),
    };
    if let Some((b, d)) = c.mark {
        let at = (b * block) as i64 + d;
        for (i, m) in b"nd-marker".iter().enumerate() {
            if let Some(y) = x.get_mut((at + i as i64).max(0) as usize) {
                *y = *m;
            }
        }
    }
    Pipe { inputs: vec![Input::Raw(Bytes(x))], var: if c.avx2 { Var::Avx2Real } else { Var::NaiveReal }, ..c.pipe.clone() }
}

fn big_run(c: &Big, ex: &mut Exec) -> Verdict {
    let p = big_pipe(c);
    let m = match model(&p) {
        Ok(m) => m,
        Err(d) => return Verdict::Discard(d),
    };
    if m.slices.len() > 400_000 {
        return Verdict::Discard("too many slices");
    }
    let expected = format(&m.stream, &m.slices, p.outf, m.cols);
    if expected.len() > 200 << 20 {
        return Verdict::Discard("too much output");
    }
    let o = run_shim(&p, c.short.map(|s| format!("short={s}")), ex);
    if let Some(f) = expect_ok(&p, &o, &expected) {
        return f;
    }
    Verdict::Pass { nontrivial: !m.slices.is_empty() && m.stream.len() > 2 << 20, labels: vec![] }
}

fn near() -> B<i64> {
    prop_oneof![4 => -20i64..21, 2 => -300i64..301, 1 => -100000i64..100001].boxed()
}

fn big_range() -> B<Range> {
    let blk = 2i64 << 20;
    (0i64..4, near(), prop_oneof![3 => 0i64..40, 1 => 0i64..5000, 1 => 0i64..3_000_000], 0u8..6)
        .prop_map(move |(b, d, l, form)| {
            let e = |a, k| Some(End { a, k, style: 2 });
            match form {
                0 => Range { s: e(Anchor::E, -(b * blk + d)), e: e(Anchor::E, -(b * blk + d) + l) },
                1 => Range { s: e(Anchor::S, b * blk + d), e: e(Anchor::E, -d) },
                _ => Range { s: e(Anchor::S, b * blk + d), e: e(Anchor::S, b * blk + d + l) },
            }
        })
        .boxed()
}

fn big_strat() -> B<Big> {
    let sl = prop_oneof![
        2 => Just(Some(Slicer::Find(Bytes(b"nd-marker".to_vec())))),
        1 => Just(Some(Slicer::Find(Bytes(b"nd".to_vec())))),
        3 => prop::collection::vec(big_range(), 1..5).prop_map(|r| Some(Slicer::Slice(r))),
        2 => prop_oneof![1000usize..40000, Just(1usize << 21), (1usize << 21) - 3..(1 << 21) + 4].prop_map(|n| Some(Slicer::Width(n, None))),
        1 => (20000usize..70000, -30i64..30, 1i64..200).prop_map(|(n, d, l)| {
            let e = |k| Some(End { a: Anchor::S, k, style: 2 });
            Some(Slicer::Width(n, Some(Range { s: e(d), e: e(d + l) })))
        }),
        1 => Just(Some(Slicer::Walk(vec![crate::expr::Ex::Num(70001, 0), crate::expr::Ex::Num(17, 0)], 0))),
        2 => prop::collection::vec((prop_oneof![0i64..3000, 1_000_000i64..2_200_000], prop_oneof![1usize..50, 1usize..100_000], 0u32..16), 1..6).prop_map(|g| Some(Slicer::Guide(g))),
    ];
    let patch = prop::collection::vec(
        (prop_oneof![0usize..2000, 2_000_000usize..2_200_000], prop_oneof![0usize..20, 0usize..200_000], prop::collection::vec(any::<u8>(), 0..20), any::<u32>())
            .prop_map(|(gap, len, d, style)| Rec { gap, len, data: Some(Bytes(d)), style }),
        0..4,
    );
    (
        sl,
        (1usize..4, near(), any::<u64>(), 0u8..3, proptest::option::weighted(0.8, (1usize..3, -12i64..6)), any::<bool>(), proptest::option::weighted(0.3, any::<u32>())),
        (proptest::option::weighted(0.25, prop::collection::vec(big_range(), 1..3)), proptest::option::weighted(0.25, patch), proptest::option::weighted(0.25, map_rngs()), proptest::option::weighted(0.3, map_rngs()), proptest::option::weighted(0.3, 0usize..400)),
        (feed(), outf(), prop_oneof![6 => Just(Mode::Default), 1 => (1usize..40).prop_map(Mode::Cat), 1 => (1usize..40).prop_map(Mode::Zip)]),
    )
        .prop_map(|(slicer, (blocks, delta, seed, kind, mark, avx2, short), (cut, patch, invert, extend, merge), (feed, outf, mode))| {
            let mut pipe = Pipe { slicer, cut, invert, extend, merge, feed, outf, mode, ..Pipe::new(vec![], Var::NaiveReal) };
            let len = ((blocks as i64) << 21) + delta;
            if pipe.cut.is_none() {
                if let Some(mut r) = patch {
                    fold_recs(&mut r, len as usize);
                    pipe.patch = Some(r);
                }
            }
            Big { pipe, blocks, delta, seed, kind, mark, avx2, short }
        })
        .boxed()
}

fn cpu(p: &Pipe, ex: &mut Exec) -> Verdict {
    let (a, b) = match p.var {
        Var::NaiveSmall | Var::Avx2Small => (Var::NaiveSmall, Var::Avx2Small),
        _ => (Var::NaiveReal, Var::Avx2Real),
    };
    let oa = run(&Pipe { var: a, ..p.clone() }, ex);
    let ob = run(&Pipe { var: b, ..p.clone() }, ex);
    if let Some(f) = same("the CPU target", p, &oa, &ob) {
        return f;
    }
    Verdict::Pass { nontrivial: oa.ok() && !oa.stdout.is_empty(), labels: vec![if oa.ok() { "ok" } else { "error" }] }
}

fn cpu_scaled(c: &super::scale::Scaled, ex: &mut Exec) -> Verdict {
    let p = super::scale::enlarge(c);
    match model(&p) {
        Ok(m) if m.slices.len() <= 200_000 && m.slices.iter().map(|s| s.1 - s.0).sum::<usize>() + m.slices.len() * m.cols <= 24 << 20 => cpu(&p, ex),
        Ok(_) => Verdict::Discard("too much output"),
        Err(d) => Verdict::Discard(d),
    }
}

/// text that is close to records, for the parsers
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Text {
    pub text: Bytes,
    pub how: u8,
    pub var: Var,
}

pub fn text_strat() -> B<Bytes> {
    let junk = prop_oneof![
        6 => prop::sample::select(vec![" ", "  ", "|", "| ", " | ", "\n", "0", "a", "F", "g", "00 ", "1f ", "0000", "\t", "\r\n", "x", "-", ".", "\u{7f}", "é", "@", "`", "G", "/", ":", "{", "~"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => any::<u8>().prop_map(|b| vec![b]),
    ];
    let edit = (any::<u32>(), 0u8..4, junk.clone());
    prop_oneof![
        4 => (patch_recs(), prop::collection::vec(edit, 0..4)).prop_map(|(r, ed)| {
            let mut t = render_recs(&r, true);
            for (at, k, j) in ed {
                let at = at as usize % (t.len() + 1);
                match k {
                    0 => { t.splice(at..at, j); }
                    1 => { let e = (at + j.len()).min(t.len()); t.splice(at..e, j); }
                    2 => { let e = (at + 1).min(t.len()); t.drain(at..e); }
                    _ => t.truncate(at),
                }
            }
            t
        }),
        1 => prop::collection::vec(junk, 0..40).prop_map(|v| v.concat()),
        1 => prop::collection::vec(any::<u8>(), 0..200),
    ]
    .prop_map(Bytes)
    .boxed()
}

/// a record so far away that filling the gap takes long
pub fn far(t: &Text) -> bool {
    t.text.0.split(|&b| b == b'\n').any(|l| {
        let d: Vec<u8> = l.iter().copied().take_while(|b| b.is_ascii_hexdigit()).collect();
        let v = d.iter().skip_while(|&&b| b == b'0').count();
        v > 5
    })
}

pub fn run_text(t: &Text, var: Var, ex: &mut Exec) -> Out {
    ex.reset();
    ex.put("t", &t.text.0);
    ex.put("data", &expand(600, 7, 3));
    let a: &[&str] = match t.how % 5 {
        0 => &["-F", "x", "-f", "b", "t"],
        1 => &["-F", "nnx", "-f", "b", "t"],
        2 => &["-p", "t", "-f", "b", "data"],
        3 => &["-g", "t", "data"],
        _ => &["-F", "x", "t"],
    };
    let mut r = Req::new(var, a.iter().map(|x| x.to_string()).collect());
    r.stdin = In::Null;
    ex.run(&r)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            level: "exploration",
            assumptions: &[],
            camps: vec![
                boxed(Camp { name: "pipeline", quick: 60000, thorough: 3_000_000, rule: "a command line with any combination of options of all stages, against the reference model; non-trivial: the model expects at least one slice of a non-empty stream", strat: || full(M), test: differential }),
                super::scale::camp(4000, || super::scale::scaled(full(M))),
                super::many::camp(3000, || super::many::many(full(M))),
                boxed(Camp { name: "split", quick: 15000, thorough: 600_000, rule: "the same command as one process and as two processes joined between stages 2 and 3; non-trivial: the output is not empty", strat: || full(M), test: split }),
            ],
        },
        Prop {
            id: "C18",
            level: "exploration",
            assumptions: &[],
            camps: vec![
                boxed(Camp { name: "transfer", quick: 30000, thorough: 1_500_000, rule: "a command run with 2 MiB blocks on files, and again with 145-byte blocks, from files, pipes or redirections, with short and interrupted transfers; non-trivial: the output is not empty", strat: alt_strat, test: alt }),
                boxed(Camp { name: "big", quick: 240, thorough: 6000, rule: "inputs of one to four real blocks (2 MiB each) against the reference model, with slices, cuts, patches and marks around the block boundaries; non-trivial: more than one block and at least one slice", strat: big_strat, test: big_run }),
            ],
        },
        Prop {
            id: "C19",
            level: "exploration",
            assumptions: &["the CPU has AVX2 and BMI2, otherwise only one of the x86-64 code paths exists here"],
            camps: vec![
                boxed(Camp { name: "cpu", quick: 40000, thorough: 1_500_000, rule: "the same command in the builds for x86-64 and x86-64-v3; non-trivial: the output is not empty", strat: || full(M), test: cpu }),
                boxed(Camp { name: "cpu-scaled", quick: 3000, thorough: 90_000, rule: "the same for enlarged cases (streams of up to 12 MiB); non-trivial: the output is not empty", strat: || super::scale::scaled(full(M)), test: cpu_scaled }),
                boxed(Camp { name: "cpu-distant", quick: 4000, thorough: 100_000, rule: "the same at offsets of 4 KiB to 4 TiB; non-trivial: the output is not empty", strat: super::far::strat_quick, test: super::far::cpu }),
                boxed(Camp {
                    name: "cpu-text",
                    quick: 20000,
                    thorough: 1_000_000,
                    rule: "well-formed and damaged records in both builds; non-trivial: accepted with some output",
                    strat: || (text_strat(), 0u8..5, any::<bool>()).prop_map(|(text, how, s)| Text { text, how, var: if s { Var::NaiveSmall } else { Var::NaiveReal } }).boxed(),
                    test: |t: &Text, ex| {
                        if far(t) && matches!(t.how % 5, 0 | 4) {
                            return Verdict::Discard("a record far away");
                        }
                        let b = if t.var == Var::NaiveSmall { Var::Avx2Small } else { Var::Avx2Real };
                        let oa = run_text(t, t.var, ex);
                        let ob = run_text(t, b, ex);
                        for o in [&oa, &ob] {
                            if o.panicked() || o.hung {
                                return Verdict::Fail(format!("{:?}: {}", t, o.describe()));
                            }
                        }
                        if oa.code != ob.code || (oa.ok() && oa.stdout != ob.stdout) {
                            return Verdict::Fail(format!("the result depends on the CPU target: {:?} on {:?}: {} / {}; {}", t.how, String::from_utf8_lossy(&t.text.0), oa.describe(), ob.describe(), diff(&oa.stdout, &ob.stdout)));
                        }
                        Verdict::Pass { nontrivial: oa.ok() && !oa.stdout.is_empty(), labels: vec![if oa.ok() { "accepted" } else { "rejected" }] }
                    },
                }),
            ],
        },
    ]
}
