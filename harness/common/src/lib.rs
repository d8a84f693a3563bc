//! Shared driver of every check: seeded proptest runners spread over threads, panic capture,
//! shrinking, replay files, known findings, and the evidence file.
//!
//! A check is a list of sub-checks (`Run::sub`), each a generator plus an oracle over one
//! serialisable case.  The oracle is a pure function of the case, so a failing (shrunk) case is
//! written out as JSON and can be re-judged later with `--replay <file>` without any generator.

pub use proptest;
pub use proptest::prelude;
pub use serde;
pub use serde_json;

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod gen;
mod guard;
pub mod procs;

use guard::ReplayFile;

/// What the oracle says about a case on which the property held.
#[derive(Default, Debug, Clone)]
pub struct Outcome {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Outcome {
    pub fn trivial() -> Self {
        Outcome::default()
    }
    pub fn ok() -> Self {
        Outcome { nontrivial: true, labels: Vec::new() }
    }
    pub fn when(nontrivial: bool) -> Self {
        Outcome { nontrivial, labels: Vec::new() }
    }
    pub fn label(mut self, l: &'static str) -> Self {
        self.labels.push(l);
        self
    }
    pub fn label_if(self, c: bool, l: &'static str) -> Self {
        if c {
            self.label(l)
        } else {
            self
        }
    }
}

/// A violation of the property on one case.
#[derive(Debug, Clone)]
pub struct Failure {
    /// Stable signature, compared exactly with the known findings.
    pub sig: String,
    pub what: String,
}

impl Failure {
    pub fn new(sig: impl Into<String>, what: impl Into<String>) -> Self {
        Failure { sig: sig.into(), what: what.into() }
    }
}

pub type Verdict = Result<Outcome, Failure>;

#[macro_export]
macro_rules! fail {
    ($sig:expr, $($arg:tt)*) => {
        return Err($crate::Failure::new($sig, format!($($arg)*)))
    };
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Failure::new($sig, format!($($arg)*)));
        }
    };
}

/// Run `f`; a panic inside becomes a failure with the given signature prefix.
pub fn no_panic<T>(sig: &str, f: impl FnOnce() -> T) -> Result<T, Failure> {
    SILENT.with(|s| s.set(s.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    SILENT.with(|s| s.set(s.get() - 1));
    r.map_err(|p| Failure::new(format!("{sig}-panic"), format!("{sig}: panicked: {}", panic_text(&p))))
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    }
}

thread_local! {
    static SILENT: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Panics seen on threads the harness did not start a case on (threads of the code under test),
/// as (thread name, message).
pub static FOREIGN_PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn take_foreign_panics() -> Vec<(String, String)> {
    std::mem::take(&mut *FOREIGN_PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let name = std::thread::current().name().unwrap_or("?").to_string();
        if SILENT.with(|s| s.get()) > 0 {
            return;
        }
        if name.starts_with("chk-") || name == "main" {
            eprintln!("harness thread {name} panicked: {info}");
        }
        FOREIGN_PANICS
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .push((name, info.to_string()));
    }));
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Serialize, Default)]
struct SubStat {
    name: String,
    evaluations: u64,
    distinct_nontrivial: u64,
    labels: BTreeMap<&'static str, u64>,
    #[serde(skip)]
    samples: Vec<serde_json::Value>,
}

pub struct Violation {
    sub: String,
    failure: Failure,
    case: serde_json::Value,
}

pub struct Run {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    verif: PathBuf,
    start: Instant,
    /// Soft limit: after it, no further cases are generated (what was run is what is reported).
    budget: Duration,
    replay: Option<ReplayFile>,
    replay_hit: bool,
    only: Option<String>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, String>>,
    subs: Vec<SubStat>,
    violation: Option<Violation>,
    rules: Vec<String>,
    assumptions: Vec<String>,
    level: &'static str,
    extra: BTreeMap<String, serde_json::Value>,
}

pub struct SubCfg {
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub shrink: u32,
}

/// `cases(quick)`: thorough is 20 times as many unless set.
pub fn cases(quick: u64) -> SubCfg {
    SubCfg { quick, thorough: quick * 20, threads: 8, shrink: 1500 }
}

impl SubCfg {
    pub fn thorough(mut self, n: u64) -> Self {
        self.thorough = n;
        self
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub fn shrink(mut self, n: u32) -> Self {
        self.shrink = n;
        self
    }
}

impl Run {
    /// Reads `<prog> ID [--replay FILE] [--only SUB]`, VERIF_SEED and VERIF_TIER.
    pub fn from_env() -> Run {
        install_hook();
        let mut args = std::env::args().skip(1);
        let id = args.next().expect("usage: chk ID [--replay FILE]");
        let mut replay = None;
        let mut only = None;
        while let Some(a) = args.next() {
            match a.as_str() {
                "--replay" => {
                    let f = args.next().expect("--replay FILE");
                    let t = std::fs::read_to_string(&f).expect("read replay file");
                    replay = Some(serde_json::from_str::<ReplayFile>(&t).expect("parse replay file"));
                }
                "--only" => only = args.next(),
                _ => panic!("unknown argument {a}"),
            }
        }
        let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let mut tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let known = std::fs::read_to_string(verif.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| l.strip_prefix("finding: property="))
            .filter_map(|l| {
                let (p, rest) = l.split_once(' ')?;
                let rest = rest.strip_prefix("sig=")?;
                let (sig, what) = rest.split_once(' ')?;
                (p == id).then(|| (sig.to_string(), what.to_string()))
            })
            .collect();
        let plain = replay.is_none() && only.is_none();
        let whole = replay.as_ref().is_some_and(|r| r.sub == guard::WHOLE);
        if whole {
            let r = replay.take().unwrap();
            seed = r.case["seed"].as_u64().expect("seed");
            tier = if r.case["quick"] == false { Tier::Thorough } else { Tier::Quick };
        }
        let quick = tier == Tier::Quick;
        guard::divide(&id, &verif, seed, quick, plain, whole);
        guard::watch(id.clone(), verif.clone(), seed, quick, plain);
        let budget = match std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()) {
            Some(s) => Duration::from_secs(s),
            None => Duration::from_secs(if tier == Tier::Quick { 60 } else { 600 }),
        };
        Run {
            id,
            tier,
            seed,
            verif,
            start: Instant::now(),
            budget,
            replay,
            replay_hit: false,
            only,
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            subs: Vec::new(),
            violation: None,
            rules: Vec::new(),
            assumptions: Vec::new(),
            level: "exploration",
            extra: BTreeMap::new(),
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_string());
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn level(&mut self, l: &'static str) {
        self.level = l;
    }
    pub fn extra(&mut self, k: &str, v: impl Serialize) {
        self.extra.insert(k.to_string(), serde_json::to_value(v).unwrap());
    }
    pub fn set_budget(&mut self, quick: u64, thorough: u64) {
        if std::env::var("VERIF_BUDGET_S").is_err() {
            self.budget = Duration::from_secs(if self.quick() { quick } else { thorough });
        }
    }

    fn is_known(&self, f: &Failure) -> Option<&(String, String)> {
        self.known.iter().find(|(s, _)| *s == f.sig)
    }

    fn judge<C: Serialize>(&self, sub: &str, case: &C, oracle: &(dyn Fn(&C) -> Verdict + Sync)) -> Verdict {
        let _under = guard::under(sub, serde_json::to_string(case).expect("case serialises"));
        let v = match no_panic("harness-or-code", || oracle(case)) {
            Ok(v) => v,
            Err(f) => Err(Failure::new("unexpected-panic", f.what)),
        };
        match v {
            Err(f) => {
                if let Some((sig, what)) = self.is_known(&f) {
                    self.known_hit.lock().unwrap().insert(sig.clone(), what.clone());
                    return Ok(Outcome::ok().label("known-finding"));
                }
                Err(f)
            }
            ok => ok,
        }
    }

    /// One sub-check over explicit, enumerated cases.
    pub fn each<C>(&mut self, name: &str, list: Vec<C>, oracle: impl Fn(&C) -> Verdict + Sync)
    where
        C: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + 'static,
    {
        self.each_threads(name, 8, list, oracle)
    }

    pub fn each_threads<C>(
        &mut self,
        name: &str,
        threads: usize,
        list: Vec<C>,
        oracle: impl Fn(&C) -> Verdict + Sync,
    ) where
        C: Serialize + DeserializeOwned + Clone + Debug + Send + Sync + 'static,
    {
        if self.pre(name, &oracle) {
            return;
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let acc = Mutex::new((SubStat { name: name.into(), ..SubStat::default() }, HashSet::new()));
        let bad: Mutex<Option<(u64, Failure, serde_json::Value)>> = Mutex::new(None);
        let this = &*self;
        std::thread::scope(|sc| {
            for t in 0..threads.min(list.len()).max(1) {
                let (next, stop, acc, bad, list, oracle) = (&next, &stop, &acc, &bad, &list, &oracle);
                std::thread::Builder::new()
                    .name(format!("chk-{t}"))
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i as usize >= list.len() || stop.load(Ordering::SeqCst) || this.start.elapsed() > this.budget {
                            break;
                        }
                        let case = &list[i as usize];
                        let v = this.judge(name, case, oracle);
                        record(acc, case, &v);
                        if let Err(f) = v {
                            stop.store(true, Ordering::SeqCst);
                            let mut b = bad.lock().unwrap();
                            if b.as_ref().map_or(true, |(j, ..)| *j > i) {
                                *b = Some((i, f, serde_json::to_value(case).unwrap()));
                            }
                        }
                    })
                    .unwrap();
            }
        });
        self.subs.push(acc.into_inner().unwrap().0);
        if let Some((_, f, case)) = bad.into_inner().unwrap() {
            self.violation = Some(Violation { sub: name.into(), failure: f, case });
        }
    }

    fn pre<C>(&mut self, name: &str, oracle: &(dyn Fn(&C) -> Verdict + Sync)) -> bool
    where
        C: Serialize + DeserializeOwned,
    {
        if let Some(r) = &self.replay {
            if r.sub == name {
                let case: C = serde_json::from_value(r.case.clone()).expect("replay case");
                let v = self.judge(name, &case, oracle);
                let case = r.case.clone();
                self.replay_hit = true;
                self.subs.push(SubStat { name: name.into(), evaluations: 1, samples: vec![case.clone()], ..SubStat::default() });
                if let Err(f) = v {
                    self.violation = Some(Violation { sub: name.into(), failure: f, case });
                }
            }
            return true;
        }
        if self.violation.is_some() {
            return true;
        }
        if let Some(o) = &self.only {
            if o != name {
                return true;
            }
        }
        false
    }

    /// One sub-check over generated cases.
    pub fn sub<C, S>(
        &mut self,
        name: &str,
        cfg: SubCfg,
        strategy: impl Fn() -> S + Sync,
        oracle: impl Fn(&C) -> Verdict + Sync,
    ) where
        C: Serialize + DeserializeOwned + Clone + Debug + Send + 'static,
        S: Strategy<Value = C>,
    {
        if self.pre(name, &oracle) {
            return;
        }
        let n = if self.quick() { cfg.quick } else { cfg.thorough };
        let threads = cfg.threads.max(1).min(n as usize);
        let stop = AtomicBool::new(false);
        let acc = Mutex::new((SubStat { name: name.into(), ..SubStat::default() }, HashSet::new()));
        let bad: Mutex<Option<(usize, Failure, serde_json::Value)>> = Mutex::new(None);
        let this = &*self;
        std::thread::scope(|sc| {
            for shard in 0..threads {
                let (stop, acc, bad, strategy, oracle) = (&stop, &acc, &bad, &strategy, &oracle);
                let share = n / threads as u64 + u64::from((shard as u64) < n % threads as u64);
                let shrink = cfg.shrink;
                std::thread::Builder::new()
                    .name(format!("chk-{shard}"))
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(this.seed, &this.id, name, shard));
                        let config = Config {
                            cases: share as u32,
                            failure_persistence: None,
                            max_shrink_iters: shrink,
                            max_shrink_time: 30_000,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(config, rng);
                        let failed = std::cell::Cell::new(false);
                        let last: std::cell::RefCell<Option<Failure>> = Default::default();
                        let r = runner.run(&strategy(), |case| {
                            if !failed.get() && (stop.load(Ordering::Relaxed) || this.start.elapsed() > this.budget) {
                                return Ok(());
                            }
                            let v = this.judge(name, &case, oracle);
                            if !failed.get() {
                                record(acc, &case, &v);
                            }
                            match v {
                                Ok(_) => Ok(()),
                                Err(f) => {
                                    failed.set(true);
                                    stop.store(true, Ordering::SeqCst);
                                    let text = f.what.clone();
                                    *last.borrow_mut() = Some(f);
                                    Err(TestCaseError::fail(text))
                                }
                            }
                        });
                        match r {
                            Ok(()) => (),
                            Err(TestError::Fail(_, case)) => {
                                // the failure of the minimal case itself, judged once more
                                let f = match this.judge(name, &case, oracle) {
                                    Err(f) => f,
                                    Ok(_) => last.borrow().clone().unwrap(),
                                };
                                let mut b = bad.lock().unwrap();
                                if b.as_ref().map_or(true, |(s, ..)| *s > shard) {
                                    *b = Some((shard, f, serde_json::to_value(&case).unwrap()));
                                }
                            }
                            Err(TestError::Abort(why)) => panic!("generator gave up: {why}"),
                        }
                    })
                    .unwrap();
            }
        });
        self.subs.push(acc.into_inner().unwrap().0);
        if let Some((_, f, case)) = bad.into_inner().unwrap() {
            self.violation = Some(Violation { sub: name.into(), failure: f, case });
        }
    }

    /// Report a violation found outside of a sub-check (by a campaign the check ran itself).
    pub fn report(&mut self, sub: &str, failure: Failure, case: serde_json::Value) {
        if let Some((sig, what)) = self.is_known(&failure).cloned() {
            self.known_hit.lock().unwrap().insert(sig, what);
        } else if self.violation.is_none() {
            self.violation = Some(Violation { sub: sub.into(), failure, case });
        }
    }

    /// Writes the evidence file, prints the verdict, exits.
    pub fn finish(self) -> ! {
        if self.replay.is_some() && !self.replay_hit {
            eprintln!("the replay file names no sub-check of {}", self.id);
            std::process::exit(2);
        }
        let evaluations: u64 = self.subs.iter().map(|s| s.evaluations).sum();
        let distinct: u64 = self.subs.iter().map(|s| s.distinct_nontrivial).sum();
        let samples: Vec<_> = self
            .subs
            .iter()
            .flat_map(|s| s.samples.iter().map(move |c| serde_json::json!({"sub": s.name, "case": c})))
            .collect();
        let mut coverage = serde_json::json!({
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": self.rules.join(" | "),
            "samples": samples,
            "subs": self.subs,
        });
        for (k, v) in &self.extra {
            coverage[k] = v.clone();
        }
        let evidence = serde_json::json!({
            "property": self.id,
            "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": u32::from(self.violation.is_some()),
        });
        if self.replay.is_none() && self.only.is_none() {
            let dir = self.verif.join("evidence");
            std::fs::create_dir_all(&dir).expect("evidence dir");
            std::fs::write(
                dir.join(format!("{}.json", self.id)),
                serde_json::to_string_pretty(&evidence).unwrap() + "\n",
            )
            .expect("write evidence");
        }
        for s in &self.subs {
            println!(
                "{} {}: {} cases, {} distinct non-trivial {:?}",
                self.id, s.name, s.evaluations, s.distinct_nontrivial, s.labels
            );
        }
        for (sig, what) in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({})", self.id, what, sig);
        }
        println!("{} took {:.1} s", self.id, self.start.elapsed().as_secs_f64());
        match self.violation {
            None => {
                if evaluations == 0 {
                    eprintln!("no case was evaluated");
                    std::process::exit(2);
                }
                std::process::exit(0)
            }
            Some(v) => {
                let r = ReplayFile { property: self.id.clone(), sub: v.sub, sig: v.failure.sig, what: v.failure.what, case: v.case };
                r.announce(&self.verif, self.seed);
                std::process::exit(1)
            }
        }
    }
}

fn record<C: Serialize>(acc: &Mutex<(SubStat, HashSet<u64>)>, case: &C, v: &Verdict) {
    let text = serde_json::to_string(case).expect("case serialises");
    let mut h = std::collections::hash_map::DefaultHasher::new();
    text.hash(&mut h);
    let h = h.finish();
    let mut g = acc.lock().unwrap();
    let (stat, seen) = &mut *g;
    stat.evaluations += 1;
    match v {
        Ok(o) => {
            for l in &o.labels {
                *stat.labels.entry(l).or_insert(0) += 1;
            }
            if o.nontrivial && seen.insert(h) {
                stat.distinct_nontrivial += 1;
                if stat.samples.len() < 2 {
                    stat.samples.push(shorten(serde_json::from_str(&text).unwrap()));
                }
            }
        }
        Err(_) => stat.samples.push(shorten(serde_json::from_str(&text).unwrap())),
    }
}

/// Long strings and arrays in samples are cut (with a note), so evidence stays readable.
fn shorten(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value::*;
    match v {
        String(s) if s.len() > 160 => {
            let head: std::string::String = s.chars().take(120).collect();
            String(format!("{head}... ({} characters)", s.len()))
        }
        Array(a) => {
            let n = a.len();
            let mut out: Vec<_> = a.into_iter().take(24).map(shorten).collect();
            if n > 24 {
                out.push(String(format!("... ({n} items)")));
            }
            Array(out)
        }
        Object(o) => Object(o.into_iter().map(|(k, v)| (k, shorten(v))).collect()),
        x => x,
    }
}

fn seed_bytes(seed: u64, id: &str, sub: &str, shard: usize) -> [u8; 32] {
    // SplitMix64 over a hash of the coordinates
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def0;
    for b in id.bytes().chain([0xff]).chain(sub.bytes()).chain([0xff]).chain((shard as u64).to_le_bytes()) {
        x = (x ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23);
    }
    let mut out = [0; 32];
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    out
}

/// A byte string that reads as hex in case files.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Hex(pub Vec<u8>);

impl Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&hex::encode(&self.0))
    }
}
impl Serialize for Hex {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hex {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        hex::decode(s).map(Hex).map_err(serde::de::Error::custom)
    }
}
impl std::ops::Deref for Hex {
    type Target = Vec<u8>;
    fn deref(&self) -> &Vec<u8> {
        &self.0
    }
}
impl std::ops::DerefMut for Hex {
    fn deref_mut(&mut self) -> &mut Vec<u8> {
        &mut self.0
    }
}
impl From<Vec<u8>> for Hex {
    fn from(v: Vec<u8>) -> Self {
        Hex(v)
    }
}
impl From<&[u8]> for Hex {
    fn from(v: &[u8]) -> Self {
        Hex(v.to_vec())
    }
}

/// First differing position of two byte strings, for messages.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let p = a.iter().zip(b).position(|(x, y)| x != y);
    match p {
        Some(p) => format!(
            "lengths {}/{}, first difference at byte {p}: {} / {}",
            a.len(),
            b.len(),
            hex::encode(&a[p..(p + 8).min(a.len())]),
            hex::encode(&b[p..(p + 8).min(b.len())])
        ),
        None => format!("lengths {}/{}", a.len(), b.len()),
    }
}
