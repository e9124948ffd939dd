use super::*;
use crate::engine::{boxed, Camp, Campaign};
use crate::gen::*;
use proptest::option::weighted;
use proptest::prelude::*;

const R: &str = "one generated nd command line run against the reference model; non-trivial: the model expects at least one slice of a non-empty stream";

fn camp(name: &'static str, quick: u64, strat: fn() -> BoxedStrategy<Pipe>) -> Box<dyn Campaign> {
    boxed(Camp { name, quick, thorough: quick * 25, rule: R, strat, test: differential })
}

const M: usize = 900;

/// the small campaign and its enlargement
macro_rules! both {
    ( $name: expr, $n: expr, $strat: ident ) => {
        vec![camp($name, $n, $strat), super::scale::camp(5000, || super::scale::scaled($strat())), super::many::camp(3000, || super::many::many($strat()))]
    };
    // the stage is before the slicers; the enlarged streams are also cut into long slices
    ( $name: expr, $n: expr, $strat: ident, early ) => {
        both!($name, $n, $strat, early, 5000)
    };
    ( $name: expr, $n: expr, $strat: ident, early, $scaled: expr ) => {
        vec![
            camp($name, $n, $strat),
            super::scale::camp($scaled, || {
                super::scale::scaled(($strat(), weighted(0.6, width_slicer())).prop_map(|(p, slicer)| Pipe { slicer, ..p }).boxed())
            }),
            super::many::camp(3000, || super::many::many($strat())),
        ]
    };
}

type S = BoxedStrategy<Pipe>;

fn dump() -> S {
    base(M)
}
fn cat_pad() -> S {
    (base(M), prop::collection::vec(data(400), 1..4), weighted(0.7, 1usize..40), weighted(0.6, pads()), weighted(0.6, any::<u8>()))
        .prop_map(|(b, i, n, pad, filler)| Pipe { inputs: i.into_iter().map(Input::Raw).collect(), mode: n.map_or(Mode::Default, Mode::Cat), pad, filler, ..b })
        .boxed()
}
fn zips() -> S {
    (base(M), prop::collection::vec(data(400), 1..4), 1usize..40, weighted(0.6, any::<u8>()))
        .prop_map(|(b, i, n, filler)| Pipe { inputs: i.into_iter().map(Input::Raw).collect(), mode: Mode::Zip(n), filler, ..b })
        .boxed()
}
fn patches() -> S {
    (prop_oneof![3 => base(M), 1 => text_in()], patch_recs())
        .prop_map(|(b, mut r)| {
            fold_recs(&mut r, construct(&b).len());
            Pipe { patch: Some(r), ..b }
        })
        .boxed()
}
fn text_in() -> S {
    (base(M), prop::collection::vec(text_recs(), 1..3), inf_text(), weighted(0.4, any::<u8>()))
        .prop_map(|(b, r, inf, filler)| Pipe { inputs: r.into_iter().map(Input::Recs).collect(), inf, filler, ..b })
        .boxed()
}
fn cuts() -> S {
    (base(M), rngs(400, 6)).prop_map(|(b, r)| Pipe { cut: Some(r), ..b }).boxed()
}
fn widths() -> S {
    (base(M), width_slicer()).prop_map(|(b, r)| Pipe { slicer: Some(r), ..b }).boxed()
}
fn finds() -> S {
    (base(M), find_pat()).prop_map(|(b, r)| Pipe { slicer: Some(Slicer::Find(r)), ..b }).boxed()
}
fn walks() -> S {
    (base(M), walk_slicer()).prop_map(|(b, r)| Pipe { slicer: Some(r), ..b }).boxed()
}
fn slices() -> S {
    (base(M), rngs(400, 6)).prop_map(|(b, r)| Pipe { slicer: Some(Slicer::Slice(r)), ..b }).boxed()
}
fn guides() -> S {
    (base(M), guide()).prop_map(|(b, r)| Pipe { slicer: Some(Slicer::Guide(r)), ..b }).boxed()
}
fn slices_guides() -> S {
    prop_oneof![slices(), guides()].boxed()
}
fn regexes() -> S {
    (base(M), weighted(0.7, slicer()), regex()).prop_map(|(b, s, r)| Pipe { slicer: s, regex: Some(r), ..b }).boxed()
}
fn inverts() -> S {
    (base(M), weighted(0.9, slicer()), map_rngs()).prop_map(|(b, s, r)| Pipe { slicer: s, invert: Some(r), ..b }).boxed()
}
fn extends() -> S {
    (base(M), weighted(0.9, slicer()), map_rngs()).prop_map(|(b, s, r)| Pipe { slicer: s, extend: Some(r), ..b }).boxed()
}
fn merges() -> S {
    (base(M), weighted(0.9, slicer()), prop_oneof![3 => 0usize..6, 2 => 0usize..60, 1 => 0usize..400])
        .prop_map(|(b, s, r)| Pipe { slicer: s, merge: Some(r), ..b })
        .boxed()
}
fn lines() -> S {
    (base(M), weighted(0.9, slicer()), rngs(40, 5)).prop_map(|(b, s, r)| Pipe { slicer: s, lines: Some(r), ..b }).boxed()
}

/// the stage in the company of any other stages
fn company(focus: S, put: fn(&mut Pipe, Pipe)) -> S {
    (full(M), focus)
        .prop_map(move |(mut p, q)| {
            put(&mut p, q);
            if let Some(mut r) = p.patch.take() {
                fold_recs(&mut r, edited(&p).len());
                p.patch = Some(r);
            }
            p
        })
        .boxed()
}

macro_rules! company {
    ( $n: expr, $focus: ident, $put: expr ) => {
        vec![camp("company", $n, || company($focus(), $put))]
    };
}

pub fn props() -> Vec<Prop> {
    let p = |id, camps| Prop { id, level: "exploration", assumptions: &[], camps };
    let with = |mut a: Vec<Box<dyn Campaign>>, b: Vec<Box<dyn Campaign>>| {
        a.extend(b);
        a
    };
    vec![
        p("C01", with(both!("dump", 60_000, dump, early), super::texts::dump_camps())),
        p("C05", with(both!("cat-pad", 80_000, cat_pad, early), company!(15_000, cat_pad, |p, q| (p.mode, p.pad, p.filler) = (q.mode, q.pad, q.filler)))),
        p("C06", with(both!("zip", 80_000, zips, early), company!(15_000, zips, |p, q| p.mode = q.mode))),
        p("C04", with(with(both!("patch", 80_000, patches, early), vec![super::texts::disorder_camp("disorder")]), company!(15_000, patches, |p, q| p.patch = q.patch))),
        p("C02", with(with(both!("text-in", 80_000, text_in, early, 2000), super::texts::text_camps()), company!(15_000, text_in, |p, q| (p.inputs, p.inf, p.filler) = (q.inputs, q.inf, q.filler)))),
        p("C07", with(both!("cut", 80_000, cuts, early), company!(15_000, cuts, |p, q| p.cut = q.cut))),
        p("C08", with(both!("width", 80_000, widths), company!(15_000, widths, |p, q| p.slicer = q.slicer))),
        p("C09", with(both!("find", 80_000, finds), company!(15_000, finds, |p, q| p.slicer = q.slicer))),
        p("C10", with(both!("walk", 80_000, walks), company!(15_000, walks, |p, q| p.slicer = q.slicer))),
        p("C11", vec![
            camp("slice", 80_000, slices),
            camp("guide", 80_000, guides),
            camp("company", 20_000, || company(slices_guides(), |p, q| p.slicer = q.slicer)),
            super::scale::camp(6000, || super::scale::scaled(slices_guides())),
            super::many::camp(4000, || super::many::many(slices_guides())),
        ]),
        p("C12", with(both!("regex", 80_000, regexes), company!(15_000, regexes, |p, q| p.regex = q.regex))),
        p("C13", with(both!("invert", 80_000, inverts), company!(15_000, inverts, |p, q| p.invert = q.invert))),
        p("C14", with(both!("extend", 80_000, extends), company!(15_000, extends, |p, q| p.extend = q.extend))),
        p("C15", with(both!("merge", 80_000, merges), company!(15_000, merges, |p, q| p.merge = q.merge))),
        p("C16", with(both!("lines", 80_000, lines), company!(15_000, lines, |p, q| p.lines = q.lines))),
    ]
}
