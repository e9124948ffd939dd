//! Strategies for pipelines and their parts.

use crate::exec::Var;
use crate::expr::{self, Ex};
use crate::model::*;
use crate::util::{mix, Bytes};
use proptest::option::weighted;
use proptest::prelude::*;

pub type B<T> = BoxedStrategy<T>;

pub fn expand(len: usize, seed: u64, kind: u8) -> Vec<u8> {
    let mut s = seed;
    match kind % 6 {
        0 => (0..len).map(|_| b'a' + (mix(&mut s) % 2) as u8).collect(),
        1 => (0..len).map(|_| b"abc\n \x00\xff"[(mix(&mut s) % 7) as usize]).collect(),
        2 => (0..len).map(|_| mix(&mut s) as u8).collect(),
        3 => (0..len).map(|i| i as u8).collect(),
        4 => {
            let p: Vec<u8> = (0..(seed % 7 + 1)).map(|_| b'a' + (mix(&mut s) % 4) as u8).collect();
            (0..len).map(|i| p[i % p.len()]).collect()
        }
        _ => {
            // runs
            let mut v = Vec::new();
            while v.len() < len {
                let b = b"ab\x00c"[(mix(&mut s) % 4) as usize];
                for _ in 0..mix(&mut s) % 40 {
                    v.push(b);
                }
            }
            v.truncate(len);
            v
        }
    }
}

/// lengths that favour the neighbourhood of the (small) block size and its multiples
pub fn len(max: usize) -> B<usize> {
    prop_oneof![
        3 => 0usize..41,
        3 => 41usize..400,
        2 => 400usize..=max.max(401),
        2 => (1usize..6, -3i64..4).prop_map(|(k, d)| (k as i64 * 145 + d) as usize),
        1 => (1usize..8, -2i64..3).prop_map(|(k, d)| (k as i64 * 16 + d) as usize),
    ]
    .prop_map(move |l| l.min(max))
    .boxed()
}

pub fn data(max: usize) -> B<Bytes> {
    prop_oneof![
        2 => prop::collection::vec(prop::sample::select(&b"ab"[..]), 0..48).prop_map(Bytes),
        2 => prop::collection::vec(any::<u8>(), 0..64).prop_map(Bytes),
        8 => (len(max), any::<u64>(), 0u8..6).prop_map(|(l, s, k)| Bytes(expand(l, s, k))),
    ]
    .boxed()
}

pub fn var_small() -> B<Var> {
    prop_oneof![Just(Var::NaiveSmall), Just(Var::Avx2Small)].boxed()
}

pub fn var_any() -> B<Var> {
    prop_oneof![4 => Just(Var::NaiveSmall), 4 => Just(Var::Avx2Small), 1 => Just(Var::NaiveReal), 1 => Just(Var::Avx2Real)].boxed()
}

/// the numbers of bytes put before and after the stream
pub fn pads() -> B<(usize, usize)> {
    let n = || prop_oneof![2 => Just(0usize), 2 => 1usize..4, 2 => 1usize..40, 3 => 0usize..300];
    (n(), n()).boxed()
}

pub fn k_strat(wide: i64) -> B<i64> {
    prop_oneof![9 => Just(0i64), 18 => -9i64..10, 9 => -40i64..41, 6 => -wide..=wide, 1 => far_k()].boxed()
}

/// offsets at the limits of the 64-bit integers, and around 2^31, 2^32, 2^53, 2^62
pub fn far_k() -> B<i64> {
    (prop::sample::select(&[i64::MAX, i64::MIN, 1 << 62, -(1 << 62), 1 << 53, -(1 << 53), 1 << 32, -(1 << 32), 1 << 31, -(1 << 31)][..]), -3i64..4)
        .prop_map(|(b, d)| b.saturating_add(d))
        .boxed()
}

pub fn end(wide: i64) -> B<End> {
    (prop_oneof![2 => Just(Anchor::None), 3 => Just(Anchor::S), 4 => Just(Anchor::E)], k_strat(wide), 0u32..5000)
        .prop_map(|(a, k, style)| End { a, k, style })
        .boxed()
}

/// any S..E range
pub fn rng(wide: i64) -> B<Range> {
    prop_oneof![
        2 => (weighted(0.8, end(wide)), weighted(0.8, end(wide))).prop_map(|(s, e)| Range { s, e }),
        // absolute, ordered
        3 => (0i64..=wide, prop_oneof![3 => 0i64..30, 1 => 0i64..=wide], 0u32..5000, any::<bool>()).prop_map(|(s, l, st, n)| Range {
            s: Some(End { a: if n { Anchor::None } else { Anchor::S }, k: s, style: st }),
            e: Some(End { a: if n { Anchor::S } else { Anchor::None }, k: s + l, style: st / 3 }),
        }),
        // tail
        1 => (0i64..=wide, 0i64..=wide, 0u32..5000).prop_map(|(a, b, st)| Range {
            s: Some(End { a: Anchor::E, k: -a.max(b), style: st }),
            e: Some(End { a: Anchor::E, k: -a.min(b), style: st / 3 }),
        }),
    ]
    .boxed()
}

pub fn rngs(wide: i64, max: usize) -> B<Vec<Range>> {
    prop_oneof![3 => prop::collection::vec(rng(wide), 1..2), 2 => prop::collection::vec(rng(wide), 1..=max)].boxed()
}

/// ranges for mapping slices: small offsets, few
pub fn map_rngs() -> B<Vec<Range>> {
    let e = |anch: BoxedStrategy<Anchor>| {
        (anch, prop_oneof![10 => Just(0i64), 30 => -6i64..7, 5 => -40i64..41, 5 => -300i64..301, 1 => far_k()], 0u32..5000)
            .prop_map(|(a, k, style)| End { a, k, style })
    };
    let s = e(prop_oneof![4 => Just(Anchor::S), 1 => Just(Anchor::None), 2 => Just(Anchor::E)].boxed());
    let t = e(prop_oneof![2 => Just(Anchor::S), 1 => Just(Anchor::None), 5 => Just(Anchor::E)].boxed());
    let one = (weighted(0.85, s), weighted(0.85, t)).prop_map(|(s, e)| Range { s, e }).boxed();
    prop_oneof![3 => prop::collection::vec(one.clone(), 1..2), 1 => prop::collection::vec(one, 1..4)].boxed()
}

pub fn recs(max: usize, gap: B<usize>, len: B<usize>, del: bool) -> B<Vec<Rec>> {
    let d = prop_oneof![
        8 => prop::collection::vec(any::<u8>(), 0..20),
        1 => prop::collection::vec(any::<u8>(), 20..200),
        1 => Just(Vec::new()),
    ];
    prop::collection::vec(
        (gap, len, weighted(if del { 0.85 } else { 1.0 }, d.prop_map(Bytes)), 0u32..100000)
            .prop_map(|(gap, len, data, style)| Rec { gap, len, data, style }),
        0..max,
    )
    .boxed()
}

pub fn gap() -> B<usize> {
    prop_oneof![3 => Just(0usize), 4 => 0usize..8, 3 => 0usize..60, 1 => 0usize..400].boxed()
}

/// records for --patch: offsets fold into the stream later (see `fold_recs`)
pub fn patch_recs() -> B<Vec<Rec>> {
    recs(14, gap(), prop_oneof![2 => Just(0usize), 5 => 0usize..8, 3 => 0usize..50, 1 => 0usize..300].boxed(), true)
}

/// text-format input records: the array may differ in size from the length
pub fn text_recs() -> B<Vec<Rec>> {
    prop::collection::vec(
        (
            gap(),
            prop_oneof![1 => Just(0usize), 4 => 0usize..20, 1 => 0usize..200],
            prop_oneof![8 => Just(0i64), 1 => -3i64..4],
            any::<u64>(),
            0u32..100000,
        )
            .prop_map(|(gap, len, d, seed, style)| Rec {
                gap,
                len,
                data: Some(Bytes(expand((len as i64 + d).max(0) as usize, seed, 2))),
                style,
            }),
        0..20,
    )
    .boxed()
}

/// keeps every record start within [0, len]
pub fn fold_recs(v: &mut Vec<Rec>, len: usize) {
    let mut pos = 0;
    let mut n = 0;
    for r in v.iter() {
        let off = pos + r.gap;
        if off > len {
            break;
        }
        pos = off + r.len;
        n += 1;
    }
    v.truncate(n);
}

pub fn find_pat() -> B<Bytes> {
    prop_oneof![
        5 => prop::collection::vec(prop::sample::select(&b"ab"[..]), 1..6),
        3 => prop::collection::vec(prop::sample::select(&b"abc\n \x00\xff"[..]), 1..4),
        1 => prop::collection::vec(any::<u8>(), 1..3),
        1 => (1u8..50, any::<u8>(), 1usize..40).prop_map(|(_, s, l)| (0..l).map(|i| s.wrapping_add(i as u8)).collect::<Vec<u8>>()),
    ]
    .prop_map(Bytes)
    .boxed()
}

pub fn regex() -> B<String> {
    let atom = prop::sample::select(vec!["a", "b", "c", "[ab]", "[^a]", ".", "\\x00", "ab", "ba", "(a|bc)", "(?-u:\\w)", "(?-u:\\xff)", "[a-c]"]);
    let q = prop::sample::select(vec!["", "", "", "+", "{2}", "{1,3}", "+?"]);
    let piece = (atom, q).prop_map(|(a, q)| {
        if q.is_empty() || a.len() == 1 || a.starts_with('[') || a.starts_with('\\') || a.starts_with('(') {
            format!("{a}{q}")
        } else {
            format!("(?:{a}){q}")
        }
    });
    let opt = prop_oneof![6 => Just(""), 1 => Just("a*"), 1 => Just("b?")];
    (prop_oneof![8 => Just(""), 1 => Just("^")], prop::collection::vec(piece, 1..4), opt, prop_oneof![8 => Just(""), 1 => Just("$")])
        .prop_map(|(h, p, o, t)| format!("{h}{}{o}{t}", p.concat()))
        .boxed()
}

pub fn guide() -> B<Vec<(i64, usize, u32)>> {
    prop::collection::vec(
        (
            prop_oneof![4 => 0i64..10, 3 => 0i64..80, 1 => 0i64..400, 2 => -20i64..0],
            prop_oneof![5 => 1usize..12, 2 => 1usize..90, 1 => 1usize..500],
            0u32..16,
        ),
        0..12,
    )
    .boxed()
}

pub fn width_slicer() -> B<Slicer> {
    let n = prop_oneof![5 => 1usize..20, 2 => 1usize..70, 1 => 100usize..400, 1 => Just(145usize)];
    (n, weighted(0.6, map_rngs()), -4i64..12)
        .prop_map(|(n, r, grow)| {
            let r = r.map(|mut r| {
                let mut r = r.remove(0).near();
                // the mapped span must be positive
                let (a, b) = r.at(0, n as i64);
                if b - a <= 0 {
                    let need = a - b + 1 + grow.max(0);
                    match &mut r.e {
                        Some(e) => e.k = e.k.saturating_add(need),
                        None => r.e = Some(End { a: Anchor::E, k: need, style: 2 }),
                    }
                }
                r
            });
            Slicer::Width(n, r)
        })
        .boxed()
}

/// walk expressions whose value is usually positive
pub fn walk_expr() -> B<Ex> {
    let n = |v: i64| Box::new(Ex::Num(v, 0));
    let bin = |o: &str, a: Ex, b: Ex| Ex::Bin(o.to_string(), Box::new(a), Box::new(b));
    prop_oneof![
        3 => (1i64..40).prop_map(|v| Ex::Num(v, 0)),
        4 => (prop::sample::select(vec!["b", "h", "i", "l"]), 0i64..4, 1i64..64, 1i64..9).prop_map(move |(a, i, m, k)| {
            // (x[i] & m) + k
            bin("+", bin("&", Ex::Arr(a.into(), n(i)), Ex::Num(m, 0)), Ex::Num(k, 0))
        }),
        2 => (prop::sample::select(vec!["b", "h", "i", "l"]), 0i64..3, 1i64..9).prop_map(move |(a, i, k)| bin("+", Ex::Arr(a.into(), n(i)), Ex::Num(k, 0))),
        1 => (0i64..3, 1i64..4).prop_map(move |(i, k)| bin("+", bin("&", Ex::Arr("b".into(), Box::new(bin("&", Ex::Arr("b".into(), n(i)), Ex::Num(3, 0)))), Ex::Num(15, 0)), Ex::Num(k, 0))),
        1 => (0i64..3, 0i64..3, 1i64..6).prop_map(move |(i, j, k)| {
            bin("+", bin("&", bin("+", Ex::Arr("b".into(), n(i)), Ex::Arr("b".into(), n(j))), Ex::Num(31, 0)), Ex::Num(k, 0))
        }),
        1 => expr::strat(
            prop_oneof![
                3 => expr::num_strat(),
                2 => (prop::sample::select(vec!["b", "h"]), 0i64..4).prop_map(move |(a, i)| Ex::Arr(a.into(), n(i))),
            ].boxed(),
            vec!["b", "h", "i", "l"],
        ).prop_map(move |e| bin("+", bin("&", e, Ex::Num(63, 0)), Ex::Num(1, 0))),
    ]
    .boxed()
}

pub fn walk_slicer() -> B<Slicer> {
    (prop::collection::vec(walk_expr(), 1..4), any::<u64>()).prop_map(|(e, s)| Slicer::Walk(e, s)).boxed()
}

pub fn slicer() -> B<Slicer> {
    prop_oneof![
        4 => width_slicer(),
        3 => find_pat().prop_map(Slicer::Find),
        3 => rngs(400, 6).prop_map(Slicer::Slice),
        2 => guide().prop_map(Slicer::Guide),
        2 => walk_slicer(),
    ]
    .boxed()
}

pub fn feed() -> B<Feed> {
    prop_oneof![5 => Just(Feed::Files), 2 => Just(Feed::Pipe), 1 => Just(Feed::PipeBare), 1 => Just(Feed::Redirect)].boxed()
}

pub fn outf() -> B<OutF> {
    prop_oneof![4 => Just(OutF::Default), 2 => Just(OutF::X), 2 => Just(OutF::B), 1 => Just(OutF::D)].boxed()
}

pub fn inf_text() -> B<InF> {
    prop_oneof![3 => Just(InF::X), 3 => Just(InF::Nnx), 1 => Just(InF::D)].boxed()
}

pub fn raw_inputs(max: usize) -> B<Vec<Input>> {
    prop_oneof![
        6 => data(max).prop_map(|d| vec![Input::Raw(d)]),
        1 => prop::collection::vec(data(max / 2), 1..4).prop_map(|v| v.into_iter().map(Input::Raw).collect::<Vec<_>>()),
    ]
    .boxed()
}

/// base pipe: one raw input, default everything; properties set the options they are about
pub fn base(max: usize) -> B<Pipe> {
    (data(max), feed(), outf(), prop_oneof![3 => Just(0u32), 1 => any::<u32>()], var_any())
        .prop_map(|(d, feed, outf, order, var)| Pipe { feed, outf, order, ..Pipe::new(d.0, var) })
        .boxed()
}

/// a multi-block input big enough to cross the real block size, for the real binaries
pub fn big(p: Pipe, extra: usize, seed: u64, kind: u8) -> Pipe {
    let var = if p.var == Var::NaiveSmall || p.var == Var::NaiveReal { Var::NaiveReal } else { Var::Avx2Real };
    Pipe { inputs: vec![Input::Raw(Bytes(expand((2 << 20) + extra, seed, kind)))], var, ..p }
}

/// a whole pipeline: every stage may be there
/// `full` with offsets that fit in a small stream
pub fn full_near(max: usize) -> B<Pipe> {
    full(max)
        .prop_map(|p| {
            let mut p = p.near();
            if let Some(mut r) = p.patch.take() {
                fold_recs(&mut r, edited(&p).len());
                p.patch = Some(r);
            }
            p
        })
        .boxed()
}

pub fn full(max: usize) -> B<Pipe> {
    let text = (prop::collection::vec(text_recs(), 1..3), inf_text())
        .prop_map(|(r, x)| (r.into_iter().map(Input::Recs).collect::<Vec<_>>(), x));
    let raw = (prop_oneof![3 => data(max).prop_map(|d| vec![Input::Raw(d)]), 2 => prop::collection::vec(data(max / 2), 1..4).prop_map(|v| v.into_iter().map(Input::Raw).collect())], any::<bool>())
        .prop_map(|(i, b)| (i, if b { InF::Default } else { InF::B }));
    let src = (prop_oneof![5 => raw.boxed(), 1 => text.boxed()], prop_oneof![5 => Just(Mode::Default), 2 => (1usize..40).prop_map(Mode::Cat), 2 => (1usize..40).prop_map(Mode::Zip)], weighted(0.3, any::<u8>()));
    let bytes = (weighted(0.3, rngs(400, 4)), weighted(0.3, pads()), weighted(0.3, patch_recs()));
    let sl = (
        weighted(0.85, slicer()),
        weighted(0.2, regex()),
        weighted(0.3, map_rngs()),
        weighted(0.3, map_rngs()),
        weighted(0.3, prop_oneof![3 => 0usize..6, 2 => 0usize..60, 1 => 0usize..400]),
        weighted(0.3, rngs(30, 4)),
    );
    (base(40), src, bytes, sl)
        .prop_map(|(b, ((inputs, inf), mode, filler), (cut, pad, patch), (slicer, regex, invert, extend, merge, lines))| {
            let mut p = Pipe { inputs, inf, mode, filler, cut, pad, slicer, regex, invert, extend, merge, lines, ..b };
            if let Some(mut r) = patch {
                let l = edited(&p).len();
                fold_recs(&mut r, l);
                p.patch = Some(r);
            }
            p
        })
        .boxed()
}
