//! Whole-buffer reference model of the documented pipeline. It works on complete vectors:
//! no blocks, no streaming, no incremental state.

use crate::exec::Var;
use crate::expr;
use crate::util::{mix, Bytes};
use serde::{Deserialize, Serialize};

pub type Sl = (usize, usize); // [start, end)

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Anchor {
    None,
    S,
    E,
}

/// one end of an S..E range: anchor + k
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct End {
    pub a: Anchor,
    pub k: i64,
    pub style: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Range {
    pub s: Option<End>,
    pub e: Option<End>,
}

/// offsets beyond this are rendered plainly (and are treated as "far beyond any stream")
pub const FAR_K: i64 = 1 << 40;
pub const NEAR_K: u64 = 1 << 30;

impl End {
    pub fn render(&self) -> String {
        let mut r = self.style as u64;
        let n = |v: i64, r: &mut u64| -> String {
            let v = v.abs();
            if v > FAR_K {
                return expr::num(v, (mix(r) % 16) as u8);
            }
            match mix(r) % 12 {
                0 if v >= 2 => format!("{}+{}", v / 2, v - v / 2),
                1 if v >= 2 && v % 2 == 0 => format!("2*{}", v / 2),
                2 => format!("({})", expr::num(v, 0)),
                3 => expr::num(v, 1),
                4 => format!("({}-{})", v + 3, 3),
                x if x < 8 => expr::num(v, (mix(r) % 16) as u8),
                _ => v.to_string(),
            }
        };
        let sp = |r: &mut u64| if mix(r) % 4 == 0 { " " } else { "" };
        if self.k == i64::MIN {
            let a = ["", "s", "e"][self.a as usize];
            return format!("{a}-9223372036854775807{}-1", sp(&mut r));
        }
        let anch = match self.a {
            Anchor::None => {
                let x = n(self.k, &mut r);
                if self.k < 0 {
                    return if x.contains('+') { format!("-({x})") } else { format!("-{x}") };
                }
                return x;
            }
            Anchor::S => "s",
            Anchor::E => "e",
        };
        if self.style % 11 == 5 && self.k.unsigned_abs() < NEAR_K {
            return linear(anch, self.k, &mut r);
        }
        if self.k == 0 && self.style % 3 != 0 {
            return anch.to_string();
        }
        let x = n(self.k, &mut r);
        if self.k < 0 {
            let x = if x.contains('+') { format!("({x})") } else { x };
            format!("{anch}{}-{}{x}", sp(&mut r), sp(&mut r))
        } else if self.style % 7 == 3 {
            format!("{x}{}+{}{anch}", sp(&mut r), sp(&mut r))
        } else {
            format!("{anch}{}+{}{x}", sp(&mut r), sp(&mut r))
        }
    }
    pub fn at(&self, s: i64, e: i64) -> i64 {
        self.k.saturating_add(match self.a {
            Anchor::E => e,
            _ => s,
        })
    }
}

/// `anchor + k` as a sum of several terms in any order and nesting, `3-((1-s)-k)`
fn linear(anch: &str, k: i64, r: &mut u64) -> String {
    fn tree(t: &[(bool, String)], r: &mut u64) -> String {
        if let [(neg, x)] = t {
            return match (neg, mix(r) % 4) {
                (false, 0) => format!("({x})"),
                (false, 1) => format!("+{x}"),
                (false, _) => x.clone(),
                (true, 0) => format!("-({x})"),
                (true, 1) => format!("(0-{x})"),
                (true, _) => format!("-{x}"),
            };
        }
        let i = 1 + mix(r) as usize % (t.len() - 1);
        let neg = mix(r) % 3 == 0;
        let left = tree(&t[..i], r);
        let right: Vec<_> = t[i..].iter().map(|(n, x)| (*n != neg, x.clone())).collect();
        let right = format!("({})", tree(&right, r));
        let right = match right[1..right.len() - 1].bytes().all(|c| c.is_ascii_alphanumeric()) {
            true if mix(r) % 4 != 0 => right[1..right.len() - 1].to_string(),
            _ => right,
        };
        let x = format!("{left}{}{right}", if neg { '-' } else { '+' });
        if mix(r) % 2 == 0 { x } else { format!("({x})") }
    }
    let mut terms = vec![(false, anch.to_string())];
    let mut rest = k;
    for _ in 0..mix(r) % 3 {
        let c = (mix(r) % 41) as i64 - 20;
        rest -= c;
        terms.push((c < 0, c.abs().to_string()));
    }
    terms.push((rest < 0, rest.abs().to_string()));
    let at = mix(r) as usize % terms.len();
    terms.swap(0, at);
    tree(&terms, r)
}

impl Range {
    pub fn render(&self) -> String {
        format!(
            "{}..{}",
            self.s.as_ref().map(|x| x.render()).unwrap_or_default(),
            self.e.as_ref().map(|x| x.render()).unwrap_or_default()
        )
    }
    pub fn at(&self, s: i64, e: i64) -> (i64, i64) {
        (self.s.as_ref().map_or(s, |x| x.at(s, e)), self.e.as_ref().map_or(e, |x| x.at(s, e)))
    }
    /// the same range with offsets that fit in a small stream
    pub fn near(mut self) -> Self {
        for e in [&mut self.s, &mut self.e].into_iter().flatten() {
            if e.k.unsigned_abs() > NEAR_K {
                e.k %= 97;
            }
        }
        self
    }
    /// the range clipped to a stream of `len` elements
    pub fn clip(&self, s: i64, e: i64, len: i64) -> Option<Sl> {
        let (a, b) = self.at(s, e);
        let (a, b) = (a.clamp(0, len), b.clamp(0, len));
        (a < b).then_some((a as usize, b as usize))
    }
}

pub fn render_ranges(v: &[Range]) -> String {
    v.iter().map(|r| r.render()).collect::<Vec<_>>().join(",")
}

/// a patch / text record: the gap from the end of the previous one, so that records never overlap
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Rec {
    pub gap: usize,
    pub len: usize,
    pub data: Option<Bytes>,
    pub style: u32,
}

pub struct AbsRec<'a> {
    pub off: usize,
    pub len: usize,
    pub data: &'a [u8],
}

pub fn absolute(recs: &[Rec]) -> Vec<AbsRec<'_>> {
    let mut pos = 0;
    recs.iter()
        .map(|r| {
            let off = pos + r.gap;
            pos = off + r.len;
            AbsRec { off, len: r.len, data: r.data.as_ref().map_or(&[], |d| &d.0) }
        })
        .collect()
}

/// writes records in the accepted forms; `variety` off: the canonical form
pub fn render_recs(recs: &[Rec], variety: bool) -> Vec<u8> {
    render_recs_as(recs, variety, false)
}

pub fn render_recs_as(recs: &[Rec], variety: bool, dec: bool) -> Vec<u8> {
    let mut o = Vec::new();
    let n = recs.len();
    for (i, (r, a)) in recs.iter().zip(absolute(recs)).enumerate() {
        let mut st = if variety { r.style as u64 } else { 7 };
        let hexn = |v: usize, st: &mut u64| -> String {
            if dec {
                return match mix(st) % 8 {
                    0 if variety => format!("{v:08}"),
                    1 if variety => format!("{v:012}"),
                    2 if variety => format!("{v:015}"),
                    3 if variety => format!("{v:019}"),
                    _ => v.to_string(),
                };
            }
            if !variety {
                return format!("{v:x}");
            }
            match mix(st) % 6 {
                0 => format!("{v:012x}"),
                1 => format!("{v:04x}"),
                2 => format!("{v:X}"),
                3 => format!("{v:08X}"),
                4 => format!("{v:015x}"),
                _ => format!("{v:x}"),
            }
        };
        let (a1, a2) = (hexn(a.off, &mut st), hexn(a.len, &mut st));
        o.extend_from_slice(format!("{a1} {a2}").as_bytes());
        if r.data.is_some() {
            o.extend_from_slice(b" | ");
            let up = variety && mix(&mut st) % 3 == 0;
            let m = a.data.len();
            let tail_space = !variety || mix(&mut st) % 2 == 0;
            let mosaic = variety && mix(&mut st) % 2 == 0;
            for (j, b) in a.data.iter().enumerate() {
                o.extend_from_slice(if up { format!("{b:02X}") } else { format!("{b:02x}") }.as_bytes());
                if j + 1 < m || tail_space || mosaic {
                    o.push(b' ');
                }
            }
            if mosaic {
                for _ in 0..(mix(&mut st) % 4) * 3 * (mix(&mut st) % 2) {
                    o.push(b' ');
                }
                o.extend_from_slice(b"| ");
                for b in a.data {
                    o.push(if (0x20..0x7f).contains(b) { *b } else { b'.' });
                }
                for _ in 0..(mix(&mut st) % 3) {
                    o.push(b' ');
                }
            }
        }
        let last = i + 1 == n;
        if !(last && variety && r.style % 5 == 0) {
            o.push(b'\n');
        }
    }
    o
}

/// replaces [off, off+len) with the data; intervals beyond the end are clipped to the end
pub fn apply_patch(stream: &[u8], recs: &[AbsRec]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut pos = 0;
    for r in recs {
        let off = r.off.min(stream.len());
        if off > pos {
            o.extend_from_slice(&stream[pos..off]);
            pos = off;
        }
        o.extend_from_slice(r.data);
        pos = pos.max((r.off + r.len).min(stream.len()));
    }
    o.extend_from_slice(&stream[pos..]);
    o
}

/// `-F x`: put every array at its offset, fill the gaps
pub fn place(recs: &[AbsRec], filler: u8) -> Vec<u8> {
    let mut o = Vec::new();
    let mut pos = 0;
    for r in recs {
        o.extend(std::iter::repeat(filler).take(r.off - pos));
        o.extend_from_slice(r.data);
        pos = r.off + r.len;
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Mode {
    Default,
    Cat(usize),
    Zip(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Slicer {
    Width(usize, Option<Range>),
    Find(Bytes),
    Slice(Vec<Range>),
    /// gaps and lengths; a negative gap overlaps the previous one; style: the record text form
    Guide(Vec<(i64, usize, u32)>),
    Walk(Vec<expr::Ex>, u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum OutF {
    Default,
    X,
    B,
    D,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum InF {
    Default,
    B,
    X,
    Nnx,
    D,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Feed {
    Files,
    /// the first input comes through a pipe on stdin, named "-"
    Pipe,
    /// the only input comes through a pipe and no file name is given
    PipeBare,
    /// the first input is stdin redirected from a file, named "-"
    Redirect,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Input {
    Raw(Bytes),
    Recs(Vec<Rec>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Pipe {
    pub inputs: Vec<Input>,
    pub inf: InF,
    pub mode: Mode,
    pub filler: Option<u8>,
    pub cut: Option<Vec<Range>>,
    pub pad: Option<(usize, usize)>,
    pub patch: Option<Vec<Rec>>,
    pub slicer: Option<Slicer>,
    pub regex: Option<String>,
    pub invert: Option<Vec<Range>>,
    pub extend: Option<Vec<Range>>,
    pub merge: Option<usize>,
    pub lines: Option<Vec<Range>>,
    pub outf: OutF,
    pub order: u32,
    pub feed: Feed,
    pub var: Var,
}

impl Pipe {
    /// the same command line with offsets that fit in a small stream
    pub fn near(mut self) -> Pipe {
        let f = |v: &mut Vec<Range>| *v = std::mem::take(v).into_iter().map(Range::near).collect();
        for v in [&mut self.cut, &mut self.invert, &mut self.extend, &mut self.lines] {
            v.iter_mut().for_each(f);
        }
        match &mut self.slicer {
            Some(Slicer::Slice(v)) => f(v),
            Some(Slicer::Width(_, Some(r))) => *r = r.clone().near(),
            _ => {}
        }
        self
    }
    pub fn new(input: Vec<u8>, var: Var) -> Pipe {
        Pipe {
            inputs: vec![Input::Raw(Bytes(input))],
            inf: InF::Default,
            mode: Mode::Default,
            filler: None,
            cut: None,
            pad: None,
            patch: None,
            slicer: None,
            regex: None,
            invert: None,
            extend: None,
            merge: None,
            lines: None,
            outf: OutF::Default,
            order: 0,
            feed: Feed::Files,
            var,
        }
    }
}

pub fn roundup(n: usize, a: usize) -> usize {
    n.div_ceil(a) * a
}

pub fn cat(inputs: &[Vec<u8>], n: usize, filler: u8) -> Vec<u8> {
    let mut o = Vec::new();
    for x in inputs {
        o.extend_from_slice(x);
        o.extend(std::iter::repeat(filler).take(roundup(x.len(), n) - x.len()));
    }
    o
}

pub fn zip(inputs: &[Vec<u8>], n: usize, filler: u8) -> Vec<u8> {
    let padded: Vec<Vec<u8>> = inputs
        .iter()
        .map(|x| {
            let mut v = x.clone();
            v.resize(roundup(x.len(), n), filler);
            v
        })
        .collect();
    let words = padded.iter().map(|x| x.len() / n).min().unwrap_or(0);
    let mut o = Vec::new();
    for w in 0..words {
        for x in &padded {
            o.extend_from_slice(&x[w * n..(w + 1) * n]);
        }
    }
    o
}

/// union of the ranges, in order
pub fn union(ranges: &[Range], len: usize) -> Vec<Sl> {
    let mut v: Vec<Sl> = ranges.iter().filter_map(|r| r.clip(0, len as i64, len as i64)).collect();
    v.sort();
    let mut o: Vec<Sl> = Vec::new();
    for (s, e) in v {
        match o.last_mut() {
            Some(l) if s <= l.1 => l.1 = l.1.max(e),
            _ => o.push((s, e)),
        }
    }
    o
}

pub fn cut(x: &[u8], ranges: &[Range]) -> Vec<u8> {
    union(ranges, x.len()).into_iter().flat_map(|(s, e)| x[s..e].to_vec()).collect()
}

pub fn map_clip(v: &[Sl], ranges: &[Range], len: usize) -> Vec<Sl> {
    let mut o: Vec<Sl> = Vec::new();
    for &(s, e) in v {
        for r in ranges {
            o.extend(r.clip(s as i64, e as i64, len as i64));
        }
    }
    o.sort();
    o
}

pub fn gaps(v: &[Sl], len: usize) -> Vec<Sl> {
    let mut v = v.to_vec();
    v.sort();
    let mut o = Vec::new();
    let mut pos = 0;
    for (s, e) in v {
        if s > pos {
            o.push((pos, s));
        }
        pos = pos.max(e);
    }
    if pos < len {
        o.push((pos, len));
    }
    o
}

pub fn merge(v: &[Sl], n: usize) -> Vec<Sl> {
    let mut v = v.to_vec();
    v.sort();
    let mut o: Vec<Sl> = Vec::new();
    for (s, e) in v {
        match o.last_mut() {
            Some(l) if s <= l.1.saturating_add(n) => l.1 = l.1.max(e),
            _ => o.push((s, e)),
        }
    }
    o
}

pub fn width(len: usize, n: usize, r: Option<&Range>) -> Vec<Sl> {
    let mut o = Vec::new();
    let mut b = 0;
    while b < len {
        match r {
            None => o.push((b, (b + n).min(len))),
            Some(r) => o.extend(r.clip(b as i64, (b + n) as i64, len as i64)),
        }
        b += n;
    }
    o
}

/// all positions, overlapping ones only where `overlap`
pub fn find(x: &[u8], pat: &[u8]) -> Vec<Sl> {
    let mut o = Vec::new();
    if pat.is_empty() {
        return o;
    }
    let mut i = 0;
    while i + pat.len() <= x.len() {
        if &x[i..i + pat.len()] == pat {
            o.push((i, i + pat.len()));
            i += pat.len();
        } else {
            i += 1;
        }
    }
    o
}

pub fn self_overlapping(pat: &[u8]) -> bool {
    (1..pat.len()).any(|k| pat[k..] == pat[..pat.len() - k])
}

pub enum WalkEnd {
    Done,
    /// the expression gave <= 0, a negative index, or could not be evaluated
    Abort,
    OutOfDomain(&'static str),
}

pub fn walk(x: &[u8], exprs: &[expr::Ex]) -> (Vec<Sl>, WalkEnd) {
    let mut o = Vec::new();
    let mut pos = 0usize;
    while pos < x.len() {
        let arr = |v: &str, i: i64| -> i64 {
            let sz = match v {
                "b" => 1usize,
                "h" => 2,
                "i" => 4,
                _ => 8,
            };
            let Some(off) = (i as usize).checked_mul(sz).and_then(|o| o.checked_add(pos)) else { return 0 };
            if off.checked_add(sz).is_none_or(|e| e > x.len()) {
                return 0;
            }
            let mut b = [0u8; 8];
            b[..sz].copy_from_slice(&x[off..off + sz]);
            let v = i64::from_le_bytes(b);
            let sh = 64 - 8 * sz as u32;
            (v << sh) >> sh
        };
        let env = expr::Env { var: &|_| 0, arr: &arr };
        let mut spans = Vec::new();
        for e in exprs {
            match expr::eval(e, &env) {
                Ok(v) if v > 0 => {
                    if v > 1 << 28 {
                        return (o, WalkEnd::OutOfDomain("walk: span above 256 MiB"));
                    }
                    spans.push(v as usize)
                }
                Ok(_) | Err(expr::EvErr::NegIndex) | Err(expr::EvErr::DivZero) => return (o, WalkEnd::Abort),
                Err(_) => return (o, WalkEnd::OutOfDomain("walk: arithmetic outside the domain")),
            }
        }
        for s in spans {
            if pos >= x.len() {
                break;
            }
            let e = (pos + s).min(x.len());
            o.push((pos, e));
            pos = e;
        }
    }
    (o, WalkEnd::Done)
}

pub fn guide_abs(g: &[(i64, usize, u32)]) -> Vec<(usize, usize)> {
    let mut last = (0usize, 0usize);
    let mut o: Vec<(usize, usize)> = Vec::new();
    for (gap, len, _) in g {
        // sorted by offset: never before the previous start
        let start = ((last.0 + last.1) as i64 + gap).max(last.0 as i64) as usize;
        last = (start, *len);
        o.push(last);
    }
    o.sort();
    o
}

pub fn fmt_x(off: usize, b: &[u8], cols: usize, o: &mut Vec<u8>) {
    let mut digits = 4;
    while b.len() as u128 >= 1u128 << (4 * digits) {
        digits += 2;
    }
    o.extend_from_slice(format!("{off:012x} {:0digits$x} | ", b.len()).as_bytes());
    fmt_tail(b, cols, o);
}

fn fmt_tail(b: &[u8], cols: usize, o: &mut Vec<u8>) {
    const H: &[u8; 16] = b"0123456789abcdef";
    for x in b {
        o.extend_from_slice(&[H[(x >> 4) as usize], H[(x & 15) as usize], b' ']);
    }
    for _ in b.len()..cols {
        o.extend_from_slice(b"   ");
    }
    o.extend_from_slice(b"| ");
    o.extend(b.iter().map(|x| if (0x20..0x7f).contains(x) { *x } else { b'.' }));
    for _ in b.len()..cols {
        o.push(b' ');
    }
    o.push(b'\n');
}

pub fn format(x: &[u8], slices: &[Sl], f: OutF, cols: usize) -> Vec<u8> {
    let mut o = Vec::new();
    for &(s, e) in slices {
        fmt_one(x, s, e, f, cols, &mut o);
    }
    o
}

pub fn fmt_one(x: &[u8], s: usize, e: usize, f: OutF, cols: usize, o: &mut Vec<u8>) {
    fmt_at(x, s, e, 0, f, cols, o)
}

/// the slice as if the stream began `d` bytes earlier
pub fn fmt_at(x: &[u8], s: usize, e: usize, d: usize, f: OutF, cols: usize, o: &mut Vec<u8>) {
    match f {
        OutF::B => o.extend_from_slice(&x[s..e]),
        OutF::Default => fmt_x(s + d, &x[s..e], cols, o),
        OutF::X => fmt_x(s + d, &x[s..e], 16, o),
        OutF::D => {
            o.extend_from_slice(format!("{} {} | ", s + d, e - s).as_bytes());
            fmt_tail(&x[s..e], 16, o)
        }
    }
}

pub struct Model {
    pub stream: Vec<u8>,
    pub slices: Vec<Sl>,
    pub cols: usize,
    /// the walk stopped with an error after these slices
    pub aborted: bool,
    pub labels: Vec<&'static str>,
}

pub fn construct(p: &Pipe) -> Vec<u8> {
    let filler = p.filler.unwrap_or(0);
    let inputs: Vec<Vec<u8>> = p
        .inputs
        .iter()
        .map(|i| match (i, p.inf) {
            (Input::Raw(b), _) => b.0.clone(),
            (Input::Recs(r), InF::X | InF::D) => place(&absolute(r), filler),
            (Input::Recs(r), _) => r.iter().flat_map(|r| r.data.as_ref().map_or(vec![], |d| d.0.clone())).collect(),
        })
        .collect();
    match p.mode {
        Mode::Default => cat(&inputs, 1, filler),
        Mode::Cat(n) => cat(&inputs, n, filler),
        Mode::Zip(n) => zip(&inputs, n, filler),
    }
}

/// the stream after --cut, --pad and --patch
pub fn edited(p: &Pipe) -> Vec<u8> {
    let mut x = construct(p);
    if let Some(c) = &p.cut {
        x = cut(&x, c);
    }
    if let Some((n, m)) = p.pad {
        let f = p.filler.unwrap_or(0);
        let mut v = vec![f; n];
        v.extend_from_slice(&x);
        v.extend(std::iter::repeat(f).take(m));
        x = v;
    }
    if let Some(r) = &p.patch {
        x = apply_patch(&x, &absolute(r));
    }
    x
}

pub fn dup(v: &[Sl]) -> bool {
    let mut v = v.to_vec();
    v.sort();
    v.windows(2).any(|w| w[0] == w[1])
}

pub fn model(p: &Pipe) -> Result<Model, &'static str> {
    let x = edited(p);
    let len = x.len();
    let mut labels = Vec::new();
    let mut aborted = false;
    let (mut v, cols) = match &p.slicer {
        None => (width(len, 16, None), 16),
        Some(Slicer::Width(n, r)) => {
            let span = match r {
                None => *n as i64,
                Some(r) => {
                    let (a, b) = r.at(0, *n as i64);
                    b - a
                }
            };
            (width(len, *n, r.as_ref()), span.max(0) as usize)
        }
        Some(Slicer::Find(pat)) => (find(&x, &pat.0), 0),
        Some(Slicer::Slice(r)) => {
            let mut v: Vec<Sl> = r.iter().filter_map(|r| r.clip(0, len as i64, len as i64)).collect();
            v.sort();
            if dup(&v) {
                return Err("identical slices requested twice");
            }
            (v, 0)
        }
        Some(Slicer::Guide(g)) => {
            let mut v = Vec::new();
            for (s, l) in guide_abs(g) {
                let (s, e) = (s.min(len), (s + l).min(len));
                if s < e {
                    v.push((s, e));
                }
            }
            (v, 0)
        }
        Some(Slicer::Walk(e, _)) => {
            let (v, end) = walk(&x, e);
            match end {
                WalkEnd::Done => {}
                WalkEnd::Abort => aborted = true,
                WalkEnd::OutOfDomain(m) => return Err(m),
            }
            (v, 0)
        }
    };
    if let Some(re) = &p.regex {
        let re = regex::bytes::Regex::new(re).expect("generated patterns are valid");
        let mut o = Vec::new();
        for &(s, e) in &v {
            for m in re.find_iter(&x[s..e]) {
                if m.range().is_empty() {
                    return Err("the pattern matches the empty string");
                }
                o.push((s + m.start(), s + m.end()));
            }
        }
        o.sort();
        v = o;
        if !v.is_empty() {
            labels.push("regex hits");
        }
    }
    if let Some(r) = &p.invert {
        v = map_clip(&gaps(&v, len), r, len);
    }
    if let Some(r) = &p.extend {
        v = map_clip(&v, r, len);
    }
    if let Some(n) = p.merge {
        v = merge(&v, n);
    }
    if let Some(r) = &p.lines {
        let mut o = Vec::new();
        for (a, b) in union(r, v.len()) {
            o.extend_from_slice(&v[a..b]);
        }
        v = o;
    }
    Ok(Model { stream: x, slices: v, cols, aborted, labels })
}

/// command line and files for a pipe; the last value is what goes to stdin
pub struct Cmd {
    pub args: Vec<String>,
    pub files: Vec<(String, Vec<u8>)>,
    pub stdin: crate::exec::In,
}

pub fn guide_text(g: &[(i64, usize, u32)]) -> Vec<u8> {
    let mut o = Vec::new();
    for ((s, l), (_, _, st)) in guide_abs(g).into_iter().zip(g) {
        let t = match st % 4 {
            0 => format!("{s:x} {l:x}\n"),
            1 => format!("{s:012x} {l:04x}\n"),
            2 => format!("{s:012x} {l:04x} | 61 62 \n"),
            _ => format!("{s:08X} {l:04x} | 61 62 63 64 | abcd\n"),
        };
        o.extend_from_slice(t.as_bytes());
    }
    o
}

/// `--option=value` in another equivalent spelling
pub fn spell(x: String, st: u64) -> Vec<String> {
    const SHORT: [(&str, &str); 17] = [
        ("in-format", "F"),
        ("out-format", "f"),
        ("cat", "c"),
        ("zip", "z"),
        ("cut", "n"),
        ("pad", "a"),
        ("patch", "p"),
        ("width", "w"),
        ("find", "d"),
        ("walk", "k"),
        ("slice", "r"),
        ("guide", "g"),
        ("regex", "e"),
        ("extend", "x"),
        ("invert", "v"),
        ("merge", "m"),
        ("lines", "l"),
    ];
    let Some((o, v)) = x.strip_prefix("--").and_then(|y| y.split_once('=')) else { return vec![x] };
    let short = SHORT.iter().find(|s| s.0 == o).map(|s| s.1);
    let plain = !v.is_empty() && !v.starts_with('-') && !v.starts_with('=');
    match (st % 5, short) {
        (1, _) if plain => vec![format!("--{o}"), v.to_string()],
        (2, Some(s)) if plain => vec![format!("-{s}"), v.to_string()],
        (3, Some(s)) if plain => vec![format!("-{s}{v}")],
        // unambiguous abbreviations
        (4, Some(_)) if o.len() >= 5 => vec![format!("--{}={v}", &o[..o.len() - 1 + usize::from(o == "patch")])],
        _ => vec![x],
    }
}

pub fn opts(p: &Pipe) -> (Vec<String>, Vec<(String, Vec<u8>)>) {
    let mut a: Vec<String> = Vec::new();
    let mut files = Vec::new();
    let mut how = p.order as u64 ^ 0x517e;
    let mut how2 = p.order as u64 ^ 0xf0f0;
    // sizes are expressions
    let mut size = |n: usize| if p.order < 2 { n.to_string() } else { expr::num(n as i64, mix(&mut how) as u8) };
    // formats have short and complete forms
    let mut form = |v: &[&str]| v[if p.order < 2 { 0 } else { mix(&mut how2) as usize % v.len() }].to_string();
    let (b, x, d) = (["b", "nnb", "n,n,b"], ["x", "xxx", "x,x,x", "x,x"], ["d", "ddx", "d,d,x", "d,d"]);
    match p.inf {
        InF::Default => {}
        InF::B => a.push(format!("--in-format={}", form(&b))),
        InF::X => a.push(format!("--in-format={}", form(&x))),
        InF::Nnx => a.push(format!("--in-format={}", form(&["nnx", "n,n,x", "n,n"]))),
        InF::D => a.push(format!("--in-format={}", form(&d))),
    }
    match p.outf {
        OutF::Default => {}
        OutF::X => a.push(format!("--out-format={}", form(&x))),
        OutF::B => a.push(format!("--out-format={}", form(&b))),
        OutF::D => a.push(format!("--out-format={}", form(&d))),
    }
    match p.mode {
        Mode::Default => {}
        Mode::Cat(n) => a.push(format!("--cat={}", size(n))),
        Mode::Zip(n) => a.push(format!("--zip={}", size(n))),
    }
    if let Some(f) = p.filler {
        a.push(format!("--filler={}", expr::num(f as i64, (p.order >> 8) as u8)));
    }
    if let Some(r) = &p.cut {
        a.push(format!("--cut={}", render_ranges(r)));
    }
    if let Some((n, m)) = p.pad {
        a.push(format!("--pad={},{}", size(n), size(m)));
    }
    if let Some(r) = &p.patch {
        files.push(("patch.txt".to_string(), render_recs(r, true)));
        a.push("--patch=patch.txt".into());
    }
    match &p.slicer {
        None => {}
        Some(Slicer::Width(n, None)) => a.push(format!("--width={}", size(*n))),
        Some(Slicer::Width(n, Some(r))) => a.push(format!("--width={},{}", size(*n), r.render())),
        Some(Slicer::Find(b)) => {
            let s = b.0.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ");
            a.push(format!("--find={s}"));
        }
        Some(Slicer::Slice(r)) => a.push(format!("--slice={}", render_ranges(r))),
        Some(Slicer::Guide(g)) => {
            files.push(("guide.txt".to_string(), guide_text(g)));
            a.push("--guide=guide.txt".into());
        }
        Some(Slicer::Walk(e, sp)) => {
            let mut sp = *sp;
            a.push(format!("--walk={}", e.iter().map(|e| expr::render(e, &mut sp)).collect::<Vec<_>>().join(",")));
        }
    }
    if let Some(r) = &p.regex {
        a.push(format!("--regex={r}"));
    }
    if let Some(r) = &p.invert {
        a.push(format!("--invert={}", render_ranges(r)));
    }
    if let Some(r) = &p.extend {
        a.push(format!("--extend={}", render_ranges(r)));
    }
    if let Some(n) = p.merge {
        a.push(format!("--merge={}", size(n)));
    }
    if let Some(r) = &p.lines {
        a.push(format!("--lines={}", render_ranges(r)));
    }
    // the order in which options are written must not matter, nor do the GNU-style spellings
    let mut st = p.order as u64;
    if p.order != 0 {
        for i in (1..a.len()).rev() {
            a.swap(i, (mix(&mut st) % (i as u64 + 1)) as usize);
        }
        a = a.into_iter().flat_map(|x| spell(x, mix(&mut st))).collect();
    }
    (a, files)
}

pub fn input_bytes(i: &Input, inf: InF) -> Vec<u8> {
    match i {
        Input::Raw(b) => b.0.clone(),
        Input::Recs(r) => render_recs_as(r, true, inf == InF::D),
    }
}

pub fn command(p: &Pipe) -> Cmd {
    let (mut args, mut files) = opts(p);
    let mut stdin = crate::exec::In::Null;
    let feed = if p.inputs.len() > 1 && p.feed == Feed::PipeBare { Feed::Pipe } else { p.feed };
    let mut names = Vec::new();
    for (i, x) in p.inputs.iter().enumerate() {
        let b = input_bytes(x, p.inf);
        match (i, feed) {
            (0, Feed::Pipe) => {
                stdin = crate::exec::In::Pipe(b);
                names.push("-".to_string());
            }
            (0, Feed::PipeBare) => stdin = crate::exec::In::Pipe(b),
            (0, Feed::Redirect) => {
                files.push(("in0".into(), b));
                stdin = crate::exec::In::File("in0".into());
                names.push("-".to_string());
            }
            _ => {
                let n = format!("in{i}");
                files.push((n.clone(), b));
                names.push(n);
            }
        }
    }
    // file names before, between or after the options
    if p.order % 3 == 1 {
        names.extend(args);
        args = names;
    } else {
        args.extend(names);
    }
    Cmd { args, files, stdin }
}
