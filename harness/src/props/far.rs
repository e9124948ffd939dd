//! The cases of the other campaigns, moved to an offset that padding, or a gap between text records, makes reachable:
//! the result is the same, moved.

use super::*;
use crate::engine::{boxed, Camp};
use crate::exec::Var;
use crate::expr::Ex;
use crate::gen::*;
use crate::util::Bytes;
use proptest::option::weighted;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Distant {
    pub pipe: Pipe,
    pub shift: usize,
}

/// where the head of the data is in the model
const NEAR: usize = 2000;
/// slices before this one depend on the head of the stream
const HEAD: usize = 1000;

/// ranges that reach for 2^32 bytes or more would need the whole padding in memory
fn near(v: Vec<Range>) -> Vec<Range> {
    v.into_iter().map(Range::near).collect()
}

fn move_end(e: &mut Option<End>, by: usize) {
    match e {
        Some(e) if e.a != Anchor::E => e.k = e.k.saturating_add(by as i64),
        _ => {}
    }
}

fn move_ranges(r: &mut [Range], by: usize) {
    for r in r {
        if r.s.is_none() {
            r.s = Some(End { a: Anchor::S, k: 0, style: 1 });
        }
        move_end(&mut r.s, by);
        move_end(&mut r.e, by);
    }
}

/// what the moves must be multiples of
fn unit(p: &Pipe) -> usize {
    match (&p.mode, &p.slicer) {
        (Mode::Zip(n), _) => *n,
        (_, None) => 16,
        (_, Some(Slicer::Width(n, _))) => *n,
        (_, Some(Slicer::Walk(e, _))) => match e.as_slice() {
            [Ex::Num(n, _)] => (*n).max(1) as usize,
            _ => 1,
        },
        _ => 1,
    }
}

/// the pipe whose data begin `by` bytes later, and how much later the results come
fn moved(p: &Pipe, by: usize) -> Option<(Pipe, usize)> {
    let mut p = p.clone();
    for v in [&mut p.cut, &mut p.invert, &mut p.extend, &mut p.lines] {
        *v = v.take().map(near);
    }
    if let Some(Slicer::Slice(r)) = &mut p.slicer {
        *r = near(std::mem::take(r));
    }
    let mut by = by;
    let text = p.inputs.iter().any(|i| matches!(i, Input::Recs(_)));
    if text {
        let zip = matches!(p.mode, Mode::Zip(_));
        let n = p.inputs.len();
        for i in p.inputs.iter_mut().take(if zip { n } else { 1 }) {
            let Input::Recs(r) = i else { return None };
            r.first_mut()?.gap += by;
        }
        if zip {
            by *= n;
        }
        if let Some(r) = &mut p.cut {
            move_ranges(r, by);
            by = 0;
        }
    } else {
        if p.cut.is_some() {
            return None;
        }
        let (a, b) = p.pad.unwrap_or((0, 0));
        p.pad = Some((a + by, b));
    }
    if by == 0 {
        return Some((p, by));
    }
    if let Some(r) = &mut p.patch {
        r.first_mut()?.gap += by;
    }
    let by_index = match &mut p.slicer {
        Some(Slicer::Slice(r)) => {
            move_ranges(r, by);
            None
        }
        Some(Slicer::Guide(g)) => {
            g.first_mut()?.0 += by as i64;
            None
        }
        Some(Slicer::Find(b)) => {
            let f = p.filler.unwrap_or(0);
            if b.0.iter().all(|x| *x == f) {
                return None;
            }
            None
        }
        None => Some(16),
        Some(Slicer::Width(n, _)) => Some(*n),
        Some(Slicer::Walk(e, _)) => match e.as_slice() {
            [Ex::Num(n, _)] => Some(*n as usize),
            _ => return None,
        },
    };
    if let Some(n) = by_index {
        if p.extend.is_some() || p.merge.is_some() || p.regex.is_some() || p.invert.is_some() || by % n != 0 {
            return None;
        }
        move_ranges(p.lines.as_mut()?, by / n);
    }
    Some((p, by))
}

/// the pipe to run, the model of what it gives, and how far that is to be moved
pub fn prepare(c: &Distant) -> Result<(Pipe, Model, usize), &'static str> {
    let u = unit(&c.pipe);
    let up = |x: usize| (x + u - 1) / u * u;
    let real = |v| if matches!(v, Var::NaiveSmall | Var::NaiveReal) { Var::NaiveReal } else { Var::Avx2Real };
    let near = up(NEAR).max(8 * u);
    let far = near + up(c.shift);
    let (near, d0) = moved(&c.pipe, near).ok_or("not to be moved")?;
    let (mut far, d1) = moved(&c.pipe, far).ok_or("not to be moved")?;
    far.var = real(far.var);
    let m = model(&near)?;
    if m.aborted {
        return Err("the walk aborts");
    }
    if d0 > 0 && m.slices.iter().any(|s| s.0 < HEAD) {
        return Err("reaches the head of the stream");
    }
    if near.invert.is_some() && d0 > 0 {
        return Err("the first gap is too large");
    }
    Ok((far, m, d1 - d0))
}

/// the same in the builds for both CPUs
pub fn cpu(c: &Distant, ex: &mut Exec) -> Verdict {
    let p = match prepare(c) {
        Ok(x) => x.0,
        Err(e) => return Verdict::Discard(e),
    };
    let a = run(&Pipe { var: Var::NaiveReal, ..p.clone() }, ex);
    let b = run(&Pipe { var: Var::Avx2Real, ..p.clone() }, ex);
    if a.code != b.code || a.stdout != b.stdout {
        return Verdict::Fail(format!("nd {}: x86-64: {}, x86-64-v3: {}; {}", show(&p), a.describe(), b.describe(), diff(&a.stdout, &b.stdout)));
    }
    Verdict::Pass { nontrivial: !a.stdout.is_empty(), labels: vec![] }
}

fn test(c: &Distant, ex: &mut Exec) -> Verdict {
    let (p, m, d) = match prepare(c) {
        Ok(x) => x,
        Err(e) => return Verdict::Discard(e),
    };
    let mut want = Vec::new();
    for &(s, e) in &m.slices {
        fmt_at(&m.stream, s, e, d, p.outf, m.cols, &mut want);
    }
    let o = run(&p, ex);
    if let Some(f) = expect_ok(&p, &o, &want) {
        return f;
    }
    let labels = vec![if c.shift >= 1 << 32 { "beyond 4 GiB" } else { "below 4 GiB" }];
    Verdict::Pass { nontrivial: !m.slices.is_empty(), labels }
}

/// padding is skipped at 10 TB/s when no stage looks at it
fn quick_shift() -> BoxedStrategy<usize> {
    (prop_oneof![2 => 12u32..31, 4 => 31u32..34, 2 => 34u32..42], -300i64..301).prop_map(|(k, d)| ((1i64 << k) + d) as usize).boxed()
}
fn slow_shift() -> BoxedStrategy<usize> {
    (prop_oneof![3 => Just(31u32), 4 => Just(32u32), 1 => Just(33u32)], -300i64..301).prop_map(|(k, d)| ((1i64 << k) + d) as usize).boxed()
}

type P = BoxedStrategy<Pipe>;

/// ranges counted from the data (or from the end of the stream)
fn slices() -> BoxedStrategy<Slicer> {
    prop_oneof![2 => rngs(400, 6).prop_map(Slicer::Slice), 1 => guide().prop_map(Slicer::Guide)].boxed()
}
fn sliced() -> P {
    (base(900), slices(), weighted(0.3, any::<u8>()), weighted(0.3, pads())).prop_map(|(b, s, filler, pad)| Pipe { slicer: Some(s), filler, pad, ..b }).boxed()
}
pub fn any_far() -> P {
    let st = (
        weighted(0.3, regex()),
        weighted(0.4, map_rngs()),
        weighted(0.4, prop_oneof![3 => 0usize..6, 2 => 0usize..60, 1 => 0usize..400]),
        weighted(0.4, rngs(30, 4)),
    );
    (sliced(), st).prop_map(|(b, (regex, extend, merge, lines))| Pipe { regex, extend, merge, lines, ..b }).boxed()
}
fn texts() -> P {
    let inf = prop_oneof![3 => Just(InF::X), 1 => Just(InF::D)];
    (sliced(), prop::collection::vec(text_recs(), 1..3), inf).prop_map(|(b, r, inf)| Pipe { inputs: r.into_iter().map(Input::Recs).collect(), inf, ..b }).boxed()
}
fn few_lines() -> BoxedStrategy<Vec<Range>> {
    let l = || prop_oneof![4 => Just(0i64), 3 => -3i64..4];
    prop_oneof![
        3 => Just(vec![Range { s: Some(End { a: Anchor::None, k: 0, style: 2 }), e: None }]),
        1 => (l(), 1i64..6).prop_map(|(a, n)| vec![Range { s: Some(End { a: Anchor::S, k: a, style: 2 }), e: Some(End { a: Anchor::S, k: a + n, style: 2 }) }]),
        1 => (1i64..5).prop_map(|n| vec![Range { s: Some(End { a: Anchor::E, k: -n, style: 2 }), e: None }]),
    ]
    .boxed()
}
fn long() -> BoxedStrategy<(usize, Bytes)> {
    (4096usize..70_000, 0usize..5, any::<u64>(), 0usize..4096, 0u8..4).prop_map(|(n, m, seed, d, kind)| (n, Bytes(expand((n * m).min(100_000) + d, seed, kind)))).boxed()
}

fn with(s: P, shift: BoxedStrategy<usize>) -> BoxedStrategy<Distant> {
    (s, shift).prop_map(|(pipe, shift)| Distant { pipe, shift }).boxed()
}

/// padding that is copied
pub fn strat_near() -> BoxedStrategy<Distant> {
    with(any_far(), (prop_oneof![2 => 12u32..31, 3 => Just(31u32), 1 => Just(32u32)], -300i64..301).prop_map(|(k, d)| ((1i64 << k) + d) as usize).boxed())
}

pub fn strat_quick() -> BoxedStrategy<Distant> {
    with(any_far(), quick_shift())
}

macro_rules! strats {
    ( $( $id: expr, $quick: expr, $shift: ident, $s: expr; )* ) => {
        pub fn camps(id: &str) -> Vec<Box<dyn crate::engine::Campaign>> {
            match id {
                $( $id => {
                    fn strat() -> BoxedStrategy<Distant> { with($s, $shift()) }
                    vec![boxed(Camp {
                        name: "distant",
                        quick: $quick,
                        thorough: $quick * 20,
                        rule: "a generated command line moved 4 KiB to 4 TiB away by padding or a gap, against the reference model of it 2000 bytes away; non-trivial: at least one slice",
                        strat,
                        test,
                    })]
                } )*
                _ => vec![],
            }
        }
    };
}

strats! {
    "C02", 300, slow_shift, texts();
    "C04", 200, slow_shift, (sliced(), patch_recs()).prop_map(|(b, mut r)| { fold_recs(&mut r, construct(&b).len() + b.pad.map_or(0, |p| p.0 + p.1)); Pipe { patch: Some(r), ..b } }).boxed();
    "C05", 3000, quick_shift, (sliced(), prop::collection::vec(data(300), 1..4), weighted(0.6, 1usize..40)).prop_map(|(b, i, n)| Pipe { inputs: i.into_iter().map(Input::Raw).collect(), mode: n.map_or(Mode::Default, Mode::Cat), ..b }).boxed();
    "C06", 24, slow_shift, (texts(), 1usize..20).prop_map(|(b, n)| Pipe { mode: Mode::Zip(n), ..b }).boxed();
    "C07", 300, slow_shift, (texts(), rngs(300, 5)).prop_map(|(b, r)| Pipe { cut: Some(r), slicer: None, ..b }).boxed();
    "C08", 1000, slow_shift, (base(900), long(), weighted(0.6, map_rngs()), few_lines()).prop_map(|(b, (n, d), m, l)| Pipe { inputs: vec![Input::Raw(d)], slicer: Some(Slicer::Width(n, m.map(|mut m| { let mut r = m.remove(0).near(); let (x, y) = r.at(0, n as i64); if y <= x { r = Range { s: None, e: None }; } r }))), lines: Some(l), ..b }).boxed();
    "C09", 240, slow_shift, (base(900), find_pat()).prop_map(|(b, r)| Pipe { slicer: Some(Slicer::Find(r)), ..b }).boxed();
    "C10", 120, slow_shift, (base(900), long(), few_lines(), any::<u64>()).prop_map(|(b, (n, d), l, sp)| Pipe { inputs: vec![Input::Raw(d)], slicer: Some(Slicer::Walk(vec![Ex::Num(n as i64, 0)], sp)), lines: Some(l), ..b }).boxed();
    "C11", 5000, quick_shift, sliced();
    "C12", 5000, quick_shift, (sliced(), regex()).prop_map(|(b, r)| Pipe { regex: Some(r), ..b }).boxed();
    "C14", 5000, quick_shift, (sliced(), map_rngs()).prop_map(|(b, r)| Pipe { extend: Some(r), ..b }).boxed();
    "C15", 5000, quick_shift, (sliced(), prop_oneof![3 => 0usize..6, 2 => 0usize..60, 1 => 0usize..400]).prop_map(|(b, r)| Pipe { merge: Some(r), ..b }).boxed();
    "C16", 5000, quick_shift, (sliced(), rngs(20, 4)).prop_map(|(b, r)| Pipe { lines: Some(r), ..b }).boxed();
    "C17", 8000, quick_shift, any_far();
}
