//! The cases of the other campaigns, enlarged: every length, offset, distance and word is multiplied, so that slices,
//! gaps, records, words and overlaps become longer than blocks, than 64 KiB, than whatever else is a limit on the way.

use super::*;
use crate::engine::{boxed, Camp};
use crate::exec::Var;
use crate::expr::Ex;
use crate::util::{mix, Bytes};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Scaled {
    pub pipe: Pipe,
    pub k: usize,
    /// 0: exact multiples, otherwise a few bytes off
    pub jitter: u64,
    pub fill: u8,
    pub real: bool,
}

const CAP: usize = 12 << 20;

struct K {
    k: usize,
    seed: u64,
    exact: bool,
    /// how long an array may become
    array: usize,
}

impl K {
    fn i(&mut self, v: i64) -> i64 {
        let d = if self.exact || v == 0 { 0 } else { (mix(&mut self.seed) % 7) as i64 - 3 };
        v * self.k as i64 + d
    }
    fn u(&mut self, v: usize) -> usize {
        self.i(v as i64).max((v > 0) as i64) as usize
    }
    fn ranges(&mut self, v: &mut [Range]) {
        for r in v {
            for e in [&mut r.s, &mut r.e].into_iter().flatten() {
                if e.k.unsigned_abs() <= NEAR_K {
                    e.k = self.i(e.k);
                }
            }
        }
    }
    fn recs(&mut self, v: &mut [Rec], in_step: bool) {
        for r in v {
            r.gap = self.u(r.gap);
            let d = r.data.as_ref().map_or(0, |d| d.len()) as i64;
            let off = d - r.len as i64;
            r.len = self.u(r.len);
            if let Some(x) = &mut r.data {
                // the arrays of text inputs keep the difference from the length
                let n = if in_step { (r.len as i64 + off).max(0) as usize } else { x.len() * (1 + mix(&mut self.seed) as usize % self.k) };
                let b = if x.is_empty() { vec![7] } else { x.0.clone() };
                *x = Bytes((0..n.min(self.array)).map(|i| b[i % b.len()].wrapping_add((i / b.len()) as u8)).collect());
                if in_step {
                    r.len = r.len.min((x.len() as i64 - off).max(0) as usize);
                }
            }
        }
    }
    fn content(&mut self, b: &[u8], len: usize, fill: u8) -> Vec<u8> {
        if b.is_empty() {
            return Vec::new();
        }
        match fill % 3 {
            0 => (0..len).map(|i| b[i % b.len()]).collect(),
            1 => (0..len).map(|i| b[(i / self.k).min(b.len() - 1)]).collect(),
            _ => {
                let mut x: Vec<u8> = Vec::with_capacity(len + 8);
                while x.len() < len {
                    x.extend_from_slice(&(mix(&mut self.seed) | 0x8080_8080_8080_8080).to_le_bytes());
                }
                x.truncate(len);
                for at in (0..=len / (1 << 17)).map(|i| (i << 17) as u64) {
                    let at = match mix(&mut self.seed) % 3 {
                        0 => at + mix(&mut self.seed) % (1 << 17),
                        _ => (at + 8).saturating_sub(mix(&mut self.seed) % (16 + b.len() as u64)),
                    } as usize;
                    for (i, c) in b.iter().take(2000).enumerate() {
                        if let Some(y) = x.get_mut(at + i) {
                            *y = *c;
                        }
                    }
                }
                x
            }
        }
    }
}

pub fn enlarge(c: &Scaled) -> Pipe {
    let mut p = c.pipe.clone();
    // not beyond the cap
    let total: usize = p
        .inputs
        .iter()
        .map(|i| match i {
            Input::Raw(b) => b.len(),
            Input::Recs(r) => r.iter().map(|r| r.gap + r.len.max(r.data.as_ref().map_or(0, |d| d.len()))).sum(),
        })
        .sum::<usize>()
        + p.pad.map_or(0, |x| x.0 + x.1)
        + p.patch.as_ref().map_or(0, |r| r.iter().map(|r| r.data.as_ref().map_or(0, |d| d.len())).sum());
    let mut k = K { k: c.k.min(CAP / total.max(1)).max(1), seed: c.jitter, exact: c.jitter % 2 == 0, array: if c.fill / 3 % 10 == 0 { 3_000_000 } else { 300_000 } };
    let inputs: Vec<Input> = p
        .inputs
        .iter()
        .map(|i| match i {
            Input::Raw(b) => {
                let len = k.u(b.len());
                Input::Raw(Bytes(k.content(b, len, c.fill)))
            }
            Input::Recs(r) => {
                let mut r = r.clone();
                k.recs(&mut r, true);
                Input::Recs(r)
            }
        })
        .collect();
    p.inputs = inputs;
    p.mode = match p.mode {
        Mode::Default => Mode::Default,
        Mode::Cat(n) => Mode::Cat(k.u(n)),
        Mode::Zip(n) => Mode::Zip(k.u(n)),
    };
    if let Some(r) = &mut p.cut {
        k.ranges(r);
    }
    p.pad = p.pad.map(|(a, b)| (k.u(a), k.u(b)));
    p.slicer = p.slicer.map(|s| match s {
        Slicer::Width(n, r) => {
            let n = k.u(n);
            let r = r.map(|mut r| {
                k.ranges(std::slice::from_mut(&mut r));
                let (a, b) = r.at(0, n as i64);
                if b <= a {
                    if let Some(e) = &mut r.e {
                        e.k += a - b + 1;
                    }
                }
                r
            });
            Slicer::Width(n, r)
        }
        Slicer::Slice(mut r) => {
            k.ranges(&mut r);
            Slicer::Slice(r)
        }
        Slicer::Guide(g) => Slicer::Guide(g.into_iter().map(|(s, l, st)| (k.i(s), k.u(l), st)).collect()),
        Slicer::Walk(e, s) => Slicer::Walk(e.into_iter().map(|e| Ex::Bin("*".into(), Box::new(e), Box::new(Ex::Num(k.k as i64, 0)))).collect(), s),
        x => x,
    });
    for r in [&mut p.invert, &mut p.extend].into_iter().flatten() {
        k.ranges(r);
    }
    p.merge = p.merge.map(|n| k.u(n));
    let patch = p.patch.take();
    if let Some(mut r) = patch {
        k.recs(&mut r, false);
        let len = edited(&p).len();
        crate::gen::fold_recs(&mut r, len);
        p.patch = Some(r);
    }
    if c.real {
        p.var = if matches!(p.var, Var::NaiveSmall | Var::NaiveReal) { Var::NaiveReal } else { Var::Avx2Real };
    }
    p
}

/// the model, unless there is too much of everything
pub fn bounded(p: &Pipe, cap: usize) -> Result<Model, &'static str> {
    let m = model(p)?;
    if m.aborted {
        return Err("the walk aborts");
    }
    if m.slices.len() > 200_000 {
        return Err("too many slices");
    }
    if m.slices.iter().map(|s| s.1 - s.0).sum::<usize>() + m.slices.len() * m.cols > cap {
        return Err("too much output");
    }
    Ok(m)
}

/// by how much, and how, the case of another campaign is enlarged
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Grow {
    pub k: usize,
    pub jitter: u64,
    pub fill: u8,
    pub real: bool,
}

impl Grow {
    pub fn apply(&self, p: &Pipe) -> Pipe {
        let one = p.inputs.len() < 2 || p.mode != Mode::Default;
        let mut q = enlarge(&Scaled { pipe: p.clone(), k: self.k, jitter: self.jitter, fill: self.fill, real: self.real });
        if let (false, Some(mut r)) = (one, q.patch.take()) {
            let l = q.inputs.iter().map(|x| edited(&Pipe { inputs: vec![x.clone()], ..q.clone() }).len()).min().unwrap_or(0);
            crate::gen::fold_recs(&mut r, l);
            q.patch = Some(r);
        }
        q
    }
}

pub fn grow(max: usize) -> BoxedStrategy<Grow> {
    let k = prop_oneof![
        2 => 2usize..30.min(max),
        3 => (30usize..1000).prop_map(move |k| k.min(max)),
        3 => (1000usize..20_000).prop_map(move |k| k.min(max)),
        2 => (8u32..15).prop_map(move |b| (1usize << b).min(max)),
    ];
    (k, any::<u64>(), any::<u8>(), any::<bool>()).prop_map(|(k, jitter, fill, real)| Grow { k, jitter, fill, real }).boxed()
}

fn test(c: &Scaled, ex: &mut Exec) -> Verdict {
    let p = enlarge(c);
    let m = match bounded(&p, 2 * CAP) {
        Ok(m) => m,
        Err(d) => return Verdict::Discard(d),
    };
    let expected = format(&m.stream, &m.slices, p.outf, m.cols);
    let o = run(&p, ex);
    if let Some(f) = expect_ok(&p, &o, &expected) {
        return f;
    }
    let longest = m.slices.iter().map(|s| s.1 - s.0).max().unwrap_or(0);
    let mut labels = vec![];
    if longest > 0xffff {
        labels.push("a slice above 64 KiB");
    }
    if m.stream.len() > p.var.block() {
        labels.push("more than one block");
    }
    if m.stream.len() > 2 << 20 {
        labels.push("more than 2 MiB");
    }
    Verdict::Pass { nontrivial: !m.slices.is_empty() && m.stream.len() > 2000, labels }
}

pub fn scaled(pipe: BoxedStrategy<Pipe>) -> BoxedStrategy<Scaled> {
    let k = prop_oneof![
        2 => 2usize..30,
        3 => 30usize..1000,
        3 => 1000usize..20_000,
        1 => 20_000usize..200_000,
        2 => (8u32..18).prop_map(|b| 1usize << b),
        1 => (1u32..9, 1usize..5).prop_map(|(b, m)| (145 << b) / m),
    ];
    let outf = prop_oneof![3 => Just(OutF::B), 2 => Just(OutF::X), 1 => Just(OutF::D), 2 => Just(OutF::Default)];
    (pipe, k, any::<u64>(), any::<u8>(), any::<bool>(), outf)
        .prop_map(|(pipe, k, jitter, fill, real, outf)| Scaled { pipe: Pipe { outf, ..pipe }, k, jitter, fill, real })
        .boxed()
}

pub fn camp(quick: u64, strat: fn() -> BoxedStrategy<Scaled>) -> Box<dyn crate::engine::Campaign> {
    boxed(Camp {
        name: "scaled",
        quick,
        thorough: quick * 30,
        rule: "a generated command line with all lengths, offsets, distances and words multiplied by 2 to 200000 (streams of up to 12 MiB), against the reference model; non-trivial: the model expects at least one slice of a stream longer than 2000 bytes",
        strat,
        test,
    })
}
