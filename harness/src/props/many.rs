//! The cases of the other campaigns with more of everything: inputs, ranges, records, guide entries, expressions and
//! repetitions of the data.

use super::*;
use crate::engine::{boxed, Camp};
use crate::exec::Var;
use crate::util::{mix, Bytes};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Many {
    pub pipe: Pipe,
    /// repetitions of the contents and records
    pub times: usize,
    /// repetitions of the ranges, inputs and expressions
    pub lists: usize,
    pub stride: i64,
    pub seed: u64,
    pub real: bool,
}

const CAP: usize = 3 << 20;
/// text is ten times as large, or larger
const TEXT_CAP: usize = 600_000;

fn rep<T: Clone>(v: &[T], n: usize) -> Vec<T> {
    let n = n.max(1) * v.len();
    v.iter().cloned().cycle().take(n).collect()
}

pub fn multiply(c: &Many) -> Pipe {
    let mut p = c.pipe.clone();
    let mut seed = c.seed;
    // a few of the repetitions are changed in one byte
    let mut again = |b: &Bytes, t: usize| -> Bytes {
        let mut v = b.0.repeat(t);
        for _ in 0..if v.is_empty() { 0 } else { mix(&mut seed) % 5 } {
            let at = mix(&mut seed) as usize % v.len();
            v[at] = v[at].wrapping_add(1);
        }
        Bytes(v)
    };
    let size = |r: &[Rec]| r.iter().map(|r| r.gap + r.len + r.data.as_ref().map_or(0, |d| d.len()) + 30).sum::<usize>().max(1);
    let several = p.inputs.len() > 1;
    let nin = if several { (c.lists % 300).max(1) } else { 1 };
    let lens: usize = p.inputs.iter().map(|i| if let Input::Raw(b) = i { b.len() } else { 0 }).sum();
    let t_raw = c.times.min(CAP / (lens * nin).max(1)).max(1);
    let mut inputs: Vec<Input> = p
        .inputs
        .iter()
        .map(|i| match i {
            Input::Raw(b) => Input::Raw(again(b, t_raw)),
            Input::Recs(r) => Input::Recs(rep(r, c.times.min(TEXT_CAP / nin / size(r)))),
        })
        .collect();
    if several {
        inputs = inputs.into_iter().cycle().take(nin.max(p.inputs.len())).collect();
    }
    p.inputs = inputs;
    let mut shifts = |v: &mut Vec<Range>, n: usize, stride: i64| {
        if v.is_empty() {
            return;
        }
        let one = v.clone();
        for i in 1..n as i64 {
            for r in &one {
                let mut r = r.clone();
                let d = i * stride + (mix(&mut seed) % 9) as i64 - 4;
                for e in [&mut r.s, &mut r.e].into_iter().flatten() {
                    e.k = e.k.saturating_add(if e.a == Anchor::E { -d } else { d });
                }
                v.push(r);
            }
        }
    };
    let n = c.lists.max(1);
    for v in [&mut p.cut, &mut p.lines].into_iter().flatten() {
        shifts(v, n, c.stride);
    }
    match &mut p.slicer {
        Some(Slicer::Slice(v)) => shifts(v, n, c.stride),
        Some(Slicer::Guide(g)) => {
            let s: usize = g.iter().map(|x| x.0.unsigned_abs() as usize + x.1).sum::<usize>() + 30 * g.len();
            *g = g.repeat(c.times.min(2 * CAP / s.max(1)).max(1));
        }
        Some(Slicer::Walk(e, _)) => *e = rep(e, n.min(40)),
        _ => {}
    }
    for v in [&mut p.invert, &mut p.extend].into_iter().flatten() {
        shifts(v, n.min(30), c.stride % 3);
    }
    // every slice becomes as many as there are ranges, and may have to wait for the end
    if p.invert.as_ref().map_or(1, |v| v.len()) * p.extend.as_ref().map_or(1, |v| v.len()) > 20 {
        let before = model(&Pipe { patch: None, invert: None, extend: None, merge: None, lines: None, ..p.clone() }).map_or(0, |m| m.slices.len());
        loop {
            let (i, x) = (p.invert.as_ref().map_or(1, |v| v.len()), p.extend.as_ref().map_or(1, |v| v.len()));
            if before.max(1) * i * x <= 2_000_000 || i * x == 1 {
                break;
            }
            let v = if i > x { &mut p.invert } else { &mut p.extend };
            v.as_mut().unwrap().truncate(i.max(x) / 2);
        }
    }
    if let Some(r) = p.patch.take() {
        let mut r = rep(&r, c.times.min(TEXT_CAP / size(&r)));
        let len = edited(&p).len();
        crate::gen::fold_recs(&mut r, len);
        p.patch = Some(r);
    }
    if c.real {
        p.var = if matches!(p.var, Var::NaiveSmall | Var::NaiveReal) { Var::NaiveReal } else { Var::Avx2Real };
    }
    p
}

fn test(c: &Many, ex: &mut Exec) -> Verdict {
    let p = multiply(c);
    let m = match model(&p) {
        Ok(m) => m,
        Err(d) => return Verdict::Discard(d),
    };
    if m.aborted {
        return Verdict::Discard("the walk aborts");
    }
    if m.slices.len() > 300_000 || m.slices.iter().map(|s| s.1 - s.0).sum::<usize>() + m.slices.len() * (m.cols + 4) > 5 * CAP {
        return Verdict::Discard("too much output");
    }
    let expected = format(&m.stream, &m.slices, p.outf, m.cols);
    let o = run(&p, ex);
    if let Some(f) = expect_ok(&p, &o, &expected) {
        return f;
    }
    let mut labels = vec![];
    if m.slices.len() > 1000 {
        labels.push("above 1000 slices");
    }
    if m.slices.len() > 65536 {
        labels.push("above 65536 slices");
    }
    if p.inputs.len() > 8 {
        labels.push("above 8 inputs");
    }
    if p.inputs.len() > 256 {
        labels.push("above 256 inputs");
    }
    let ranges = [&p.cut, &p.invert, &p.extend, &p.lines].into_iter().flatten().map(|v| v.len()).max().unwrap_or(0).max(if let Some(Slicer::Slice(v)) = &p.slicer { v.len() } else { 0 });
    if ranges > 32 {
        labels.push("above 32 ranges");
    }
    let recs = p.patch.as_ref().map_or(0, |r| r.len()).max(p.inputs.iter().map(|i| if let Input::Recs(r) = i { r.len() } else { 0 }).max().unwrap_or(0)).max(if let Some(Slicer::Guide(g)) = &p.slicer { g.len() } else { 0 });
    if recs > 1000 {
        labels.push("above 1000 records");
    }
    if recs > 20_000 {
        labels.push("above 20000 records");
    }
    Verdict::Pass { nontrivial: !m.slices.is_empty() && m.stream.len() > 2000, labels }
}

pub fn many(pipe: BoxedStrategy<Pipe>) -> BoxedStrategy<Many> {
    let times = prop_oneof![2 => 2usize..30, 3 => 30usize..1000, 3 => 1000usize..10_000, 1 => 10_000usize..100_000];
    let lists = prop_oneof![3 => Just(1usize), 3 => 2usize..12, 3 => 12usize..80, 1 => 80usize..400];
    let stride = prop_oneof![2 => 0i64..4, 3 => 4i64..100, 2 => 100i64..3000];
    let outf = prop_oneof![3 => Just(OutF::B), 2 => Just(OutF::X), 1 => Just(OutF::D), 2 => Just(OutF::Default)];
    (pipe, times, lists, stride, any::<u64>(), any::<bool>(), outf)
        .prop_map(|(pipe, times, lists, stride, seed, real, outf)| Many { pipe: Pipe { outf, ..pipe }, times, lists, stride, seed, real })
        .boxed()
}

pub fn camp(quick: u64, strat: fn() -> BoxedStrategy<Many>) -> Box<dyn crate::engine::Campaign> {
    boxed(Camp {
        name: "many",
        quick,
        thorough: quick * 30,
        rule: "a generated command line with its data and records repeated up to 100000 times and its inputs, ranges and expressions up to 400 times, against the reference model; non-trivial: the model expects at least one slice of a stream longer than 2000 bytes",
        strat,
        test,
    })
}
