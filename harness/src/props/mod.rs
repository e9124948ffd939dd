mod cli;
mod compose;
mod drains;
mod far;
mod faults;
mod many;
mod scale;
mod slices;
mod texts;

use crate::engine::Prop;
use crate::engine::Verdict;
use crate::exec::{Exec, Out, Req};
use crate::model::*;
use crate::util::diff;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(slices::props());
    v.extend(compose::props());
    v.extend(texts::props());
    v.extend(drains::props());
    v.extend(faults::props());
    v.extend(cli::props());
    for p in v.iter_mut() {
        p.camps.extend(far::camps(p.id));
    }
    v
}

/// runs the pipe as it is written
pub fn run(p: &Pipe, ex: &mut Exec) -> Out {
    let c = command(p);
    ex.reset();
    for (n, b) in &c.files {
        ex.put(n, b);
    }
    let mut r = Req::new(p.var, c.args);
    r.stdin = c.stdin;
    ex.run(&r)
}

pub fn show(p: &Pipe) -> String {
    command(p).args.iter().map(|a| format!("'{a}'")).collect::<Vec<_>>().join(" ")
}

/// crash-free and error-free with exactly this output
pub fn expect_ok(p: &Pipe, o: &Out, expected: &[u8]) -> Option<Verdict> {
    if !o.ok() {
        return Some(Verdict::Fail(format!("nd {} ended with an error: {}", show(p), o.describe())));
    }
    if o.stdout != expected {
        return Some(Verdict::Fail(format!("nd {}: wrong output: {}", show(p), diff(expected, &o.stdout))));
    }
    None
}

/// the standard differential test of one pipeline against the model
pub fn differential(p: &Pipe, ex: &mut Exec) -> Verdict {
    let m = match model(p) {
        Ok(m) => m,
        Err(d) => return Verdict::Discard(d),
    };
    if m.aborted {
        return Verdict::Discard("the walk aborts");
    }
    let expected = format(&m.stream, &m.slices, p.outf, m.cols);
    let o = run(p, ex);
    if let Some(f) = expect_ok(p, &o, &expected) {
        return f;
    }
    let mut labels = m.labels;
    labels.push(match m.slices.len() {
        0 => "no slices",
        1 => "one slice",
        _ => "many slices",
    });
    if m.stream.len() >= p.var.block() {
        labels.push("more than one block");
    }
    Verdict::Pass { nontrivial: !m.slices.is_empty() && !m.stream.is_empty(), labels }
}
