//! Campaign engine: seeded generation, parallel shards, shrinking, replay files, evidence.

use crate::exec::Exec;
use crate::util::{fnv, mix};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Verdict {
    Pass { nontrivial: bool, labels: Vec<&'static str> },
    Discard(&'static str),
    Fail(String),
}

pub fn pass(nontrivial: bool, labels: Vec<&'static str>) -> Verdict {
    Verdict::Pass { nontrivial, labels }
}

pub struct Ctx {
    pub root: PathBuf,
    pub bins: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub deadline: Instant,
}

#[derive(Default)]
pub struct CampOut {
    pub name: String,
    pub generated: u64,
    pub passed: u64,
    pub discards: BTreeMap<&'static str, u64>,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<serde_json::Value>,
    pub execs: u64,
    pub known_hits: u64,
    pub failure: Option<(serde_json::Value, String)>,
    pub infra: Option<String>,
    pub rule: String,
    pub cut_short: bool,
}

pub trait Campaign: Sync {
    fn name(&self) -> &'static str;
    fn run(&self, cx: &Ctx, regress: &[serde_json::Value], known: &[Known]) -> CampOut;
    fn replay(&self, cx: &Ctx, case: &serde_json::Value) -> Result<Verdict, String>;
}

/// a committed known finding: the exact case that fails on the tree as it is
#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub campaign: String,
    pub case: serde_json::Value,
    pub what: String,
}

pub struct Camp<C: 'static> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub strat: fn() -> BoxedStrategy<C>,
    pub test: fn(&C, &mut Exec) -> Verdict,
}

fn shards() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 8)
}

const SHARDS: u64 = 8; // fixed: the cases do not depend on the number of cores

fn runner(seed: u64, name: &str, shard: u64) -> TestRunner {
    let mut s = seed ^ fnv(name.as_bytes()).rotate_left(17) ^ shard.wrapping_mul(0xa0761d6478bd642f);
    let mut b = [0u8; 32];
    for c in b.chunks_mut(8) {
        c.copy_from_slice(&mix(&mut s).to_le_bytes());
    }
    TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &b),
    )
}

impl<C: Debug + Serialize + DeserializeOwned + Clone + Send + Sync + 'static> Camp<C> {
    fn judge(&self, c: &C, ex: &mut Exec) -> Verdict {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.test)(c, ex)));
        match r {
            Ok(v) => v,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                ex.infra = Some(format!("the harness itself panicked: {m} on {c:?}"));
                Verdict::Discard("harness panic")
            }
        }
    }
}

impl<C: Debug + Serialize + DeserializeOwned + Clone + Send + Sync + 'static> Campaign for Camp<C> {
    fn name(&self) -> &'static str {
        self.name
    }

    fn replay(&self, cx: &Ctx, case: &serde_json::Value) -> Result<Verdict, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        let mut ex = Exec::new(&cx.bins, 99);
        let v = self.judge(&c, &mut ex);
        match ex.infra {
            Some(i) => Err(i),
            None => Ok(v),
        }
    }

    fn run(&self, cx: &Ctx, regress: &[serde_json::Value], known: &[Known]) -> CampOut {
        let total = ((if cx.thorough { self.thorough } else { self.quick }) as f64 * cx.scale).ceil().max(1.0) as u64;
        let mut out = CampOut { name: self.name.to_string(), rule: self.rule.to_string(), ..Default::default() };

        // committed regression cases first
        {
            let mut ex = Exec::new(&cx.bins, 98);
            for r in regress {
                let c: C = match serde_json::from_value(r.clone()) {
                    Ok(c) => c,
                    Err(e) => {
                        out.infra = Some(format!("unreadable regression case: {e}"));
                        return out;
                    }
                };
                out.generated += 1;
                match self.judge(&c, &mut ex) {
                    Verdict::Fail(m) => {
                        out.failure = Some((r.clone(), m));
                        out.execs = ex.execs;
                        return out;
                    }
                    Verdict::Pass { .. } => {
                        out.passed += 1;
                        *out.labels.entry("regression case").or_default() += 1;
                    }
                    Verdict::Discard(d) => *out.discards.entry(d).or_default() += 1,
                }
            }
            out.execs += ex.execs;
            if let Some(i) = ex.infra {
                out.infra = Some(i);
                return out;
            }
        }

        let known_cases: HashSet<String> = known.iter().map(|k| k.case.to_string()).collect();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let merged: Mutex<CampOut> = Mutex::new(CampOut::default());
        let fails: Mutex<Vec<(u64, serde_json::Value, String)>> = Mutex::new(Vec::new());

        std::thread::scope(|s| {
            for w in 0..shards() {
                let (next, stop, merged, fails, known_cases) = (&next, &stop, &merged, &fails, &known_cases);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || loop {
                        let shard = next.fetch_add(1, Ordering::SeqCst);
                        if shard >= SHARDS {
                            return;
                        }
                        let mut ex = Exec::new(&cx.bins, w);
                        let strat = (self.strat)();
                        let mut r = runner(cx.seed, self.name, shard);
                        let mine = total / SHARDS + u64::from(shard < total % SHARDS);
                        let mut o = CampOut::default();
                        for n in 0..mine {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > cx.deadline {
                                o.cut_short = true;
                                break;
                            }
                            let mut tree = match strat.new_tree(&mut r) {
                                Ok(t) => t,
                                Err(e) => {
                                    o.infra = Some(format!("generator: {e}"));
                                    break;
                                }
                            };
                            let case = tree.current();
                            o.generated += 1;
                            let v = self.judge(&case, &mut ex);
                            if ex.infra.is_some() {
                                break;
                            }
                            match v {
                                Verdict::Pass { nontrivial, labels } => {
                                    o.passed += 1;
                                    if nontrivial {
                                        let js = serde_json::to_value(&case).unwrap();
                                        let st = js.to_string();
                                        if o.nontrivial.insert(fnv(st.as_bytes())) && o.samples.len() < 2 && st.len() < 1500 && n > 10 {
                                            o.samples.push(js);
                                        }
                                    }
                                    for l in labels {
                                        *o.labels.entry(l).or_default() += 1;
                                    }
                                }
                                Verdict::Discard(d) => *o.discards.entry(d).or_default() += 1,
                                Verdict::Fail(msg) => {
                                    let js = serde_json::to_value(&case).unwrap();
                                    if known_cases.contains(&js.to_string()) {
                                        o.known_hits += 1;
                                        continue;
                                    }
                                    // shrink
                                    let mut best = (js, msg);
                                    let start = Instant::now();
                                    let mut iters = 0;
                                    let mut more = tree.simplify();
                                    while more && iters < 900 && start.elapsed() < Duration::from_secs(60) {
                                        iters += 1;
                                        let c = tree.current();
                                        let v = self.judge(&c, &mut ex);
                                        if ex.infra.is_some() {
                                            break;
                                        }
                                        if let Verdict::Fail(m) = v {
                                            let js = serde_json::to_value(&c).unwrap();
                                            if known_cases.contains(&js.to_string()) {
                                                more = tree.complicate();
                                                continue;
                                            }
                                            best = (js, m);
                                            more = tree.simplify();
                                        } else {
                                            more = tree.complicate();
                                        }
                                    }
                                    ex.infra = None;
                                    // confirm
                                    let c: C = serde_json::from_value(best.0.clone()).unwrap();
                                    let again = self.judge(&c, &mut ex);
                                    if let Verdict::Fail(m) = again {
                                        best.1 = m;
                                    } else {
                                        best.1 = format!("{} (did not fail again on the confirming run)", best.1);
                                    }
                                    fails.lock().unwrap().push((shard, best.0, best.1));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                        }
                        if let Some(i) = ex.infra.take() {
                            o.infra = Some(i);
                            stop.store(true, Ordering::Relaxed);
                        }
                        o.execs = ex.execs;
                        let mut m = merged.lock().unwrap();
                        m.generated += o.generated;
                        m.passed += o.passed;
                        m.execs += o.execs;
                        m.known_hits += o.known_hits;
                        m.cut_short |= o.cut_short;
                        for (k, v) in o.discards {
                            *m.discards.entry(k).or_default() += v;
                        }
                        for (k, v) in o.labels {
                            *m.labels.entry(k).or_default() += v;
                        }
                        m.nontrivial.extend(o.nontrivial);
                        m.samples.extend(o.samples);
                        if o.infra.is_some() {
                            m.infra = o.infra;
                        }
                    })
                    .unwrap();
            }
        });
        let m = merged.into_inner().unwrap();
        out.generated += m.generated;
        out.passed += m.passed;
        out.execs += m.execs;
        out.known_hits += m.known_hits;
        out.cut_short |= m.cut_short;
        for (k, v) in m.discards {
            *out.discards.entry(k).or_default() += v;
        }
        for (k, v) in m.labels {
            *out.labels.entry(k).or_default() += v;
        }
        out.nontrivial.extend(m.nontrivial);
        out.samples.extend(m.samples.into_iter().take(4));
        out.infra = m.infra;
        let mut f = fails.into_inner().unwrap();
        f.sort_by_key(|x| x.1.to_string().len());
        if let Some((_, c, msg)) = f.into_iter().next() {
            out.failure = Some((c, msg));
        }
        out
    }
}

fn regress_cases(root: &Path, id: &str, camp: &str) -> Vec<serde_json::Value> {
    let d = root.join("regress").join(id);
    let mut files: Vec<_> = std::fs::read_dir(d).map(|r| r.filter_map(|x| x.ok()).map(|x| x.path()).collect()).unwrap_or_default();
    files.sort();
    let mut v = Vec::new();
    for f in files {
        if let Some(js) = std::fs::read_to_string(&f).ok().and_then(|s| serde_json::from_str::<serde_json::Value>(&s).ok()) {
            if js["campaign"] == camp {
                v.push(js["case"].clone());
            }
        }
    }
    v
}

/// known.txt: lines `known: property=<id> campaign=<name> case=<json> # <what>`
pub fn load_known(root: &Path) -> Result<Vec<Known>, String> {
    let s = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in s.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let parse = || -> Option<Known> {
            let r = r.strip_prefix("property=")?;
            let (p, r) = r.split_once(" campaign=")?;
            let (c, r) = r.split_once(" case=")?;
            let (j, what) = r.split_once(" # ")?;
            Some(Known { property: p.into(), campaign: c.into(), case: serde_json::from_str(j).ok()?, what: what.into() })
        };
        v.push(parse().ok_or_else(|| format!("unreadable line in known-findings.txt: {l}"))?);
    }
    Ok(v)
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub camps: Vec<Box<dyn Campaign>>,
}

/// returns the exit code
pub fn check(prop: &Prop, cx: &Ctx, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let known = match load_known(&cx.root) {
        Ok(k) => k,
        Err(e) => {
            eprintln!("error: {e}");
            return 3;
        }
    };
    let mut outs = Vec::new();
    let mut code = 0;
    let mut violations = 0;
    for c in &prop.camps {
        if only.is_some_and(|o| o != c.name()) {
            continue;
        }
        let kn: Vec<Known> = known.iter().filter(|k| k.property == prop.id && k.campaign == c.name()).cloned().collect();
        for k in &kn {
            match c.replay(cx, &k.case) {
                Ok(Verdict::Fail(_)) => println!("KNOWN-FINDING: property={} {}", prop.id, k.what),
                Ok(_) => println!("note: known finding no longer fails: property={} {}", prop.id, k.what),
                Err(e) => {
                    eprintln!("error: known finding could not be run: {e}");
                    code = 3;
                }
            }
        }
        let tc = Instant::now();
        let o = c.run(cx, &regress_cases(&cx.root, prop.id, c.name()), &kn);
        println!(
            "{} {}: {} cases, {} runs, {} distinct non-trivial, discards {:?}, {:.1}s",
            prop.id,
            o.name,
            o.generated,
            o.execs,
            o.nontrivial.len(),
            o.discards,
            tc.elapsed().as_secs_f64()
        );
        if std::env::var("NDV_LABELS").is_ok() {
            println!("   labels {:?}", o.labels);
        }
        if let Some((case, msg)) = &o.failure {
            violations += 1;
            code = 1;
            let d = cx.root.join("replays");
            let _ = std::fs::create_dir_all(&d);
            let f = d.join(format!("{}-{}-{:016x}.json", prop.id, o.name, fnv(case.to_string().as_bytes())));
            let js = serde_json::json!({"property": prop.id, "campaign": o.name, "case": case, "message": msg});
            let _ = std::fs::write(&f, serde_json::to_string_pretty(&js).unwrap());
            println!("  case: {case}");
            println!("  {msg}");
            println!("VIOLATION property={} replay={}", prop.id, f.display());
        } else if let Some(i) = &o.infra {
            eprintln!("error: {i}");
            if code == 0 {
                code = 3;
            }
        }
        let failed = o.failure.is_some();
        outs.push(o);
        if failed {
            break;
        }
    }
    let mut distinct = 0;
    let mut samples = Vec::new();
    let mut camps = Vec::new();
    let mut rule = String::new();
    for o in &outs {
        distinct += o.nontrivial.len();
        samples.extend(o.samples.iter().take(3).map(|s| serde_json::json!({"campaign": o.name, "case": s})));
        rule += &format!("[{}] {} ", o.name, o.rule);
        camps.push(serde_json::json!({
            "name": o.name, "generated": o.generated, "passed": o.passed, "program_runs": o.execs,
            "distinct_nontrivial": o.nontrivial.len(), "discarded": o.discards, "labels": o.labels, "known_hits": o.known_hits,
            "cut_short_by_time": o.cut_short,
        }));
    }
    samples.truncate(10);
    if samples.is_empty() {
        samples = outs.iter().filter_map(|o| o.failure.as_ref().map(|f| f.0.clone())).collect();
    }
    let ev = serde_json::json!({
        "property": prop.id,
        "tier": if cx.thorough { "thorough" } else { "quick" },
        "seed": cx.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": outs.iter().map(|o| o.generated).sum::<u64>(),
            "distinct_nontrivial": distinct,
            "rule": rule.trim(),
            "samples": samples,
            "program_runs": outs.iter().map(|o| o.execs).sum::<u64>(),
            "campaigns": camps,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(cx.root.join("evidence"));
    if let Err(e) = std::fs::write(
        cx.root.join("evidence").join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    ) {
        eprintln!("error: cannot write the evidence file: {e}");
        if code == 0 {
            code = 3;
        }
    }
    code
}

pub fn boxed<T: Campaign + 'static>(c: T) -> Box<dyn Campaign> {
    Box::new(c)
}
