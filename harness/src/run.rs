//! The runner: generated cases against an oracle, with counts, shrinking and replay files.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use d7cov as cov;
use crate::guided::{self, Known, Pool, Rng};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A verdict on one case: fine, or what went wrong.
pub type V = Result<(), String>;

#[repr(C)]
struct Itimerval {
    interval: (i64, i64),
    value: (i64, i64),
}
extern "C" {
    fn setitimer(which: i32, new: *const Itimerval, old: *mut Itimerval) -> i32;
}
/// A case takes well under a second; one that computes for this long (in processor time, waiting does
/// not count) never ends. The process is then ended by a signal.
const CASE_SECONDS: i64 = 40;
/// In how many of the shards a guided search runs.
const SEARCHES: u32 = 2;
fn arm(seconds: i64) {
    let t = Itimerval { interval: (0, 0), value: (seconds, 0) };
    // 1 is ITIMER_VIRTUAL, whose signal ends the process
    unsafe { setitimer(1, &t, std::ptr::null_mut()) };
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
    }));
}
/// Run a closure; a panic becomes an error that says where it happened.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panic: {}", PANIC.with(|p| p.borrow().clone())))
}

/// What a check notes about the case it looks at.
#[derive(Default)]
pub struct Obs {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub known: Vec<String>,
}
impl Obs {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    /// A listed finding showed up, in exactly the listed form.
    pub fn known(&mut self, s: impl Into<String>) {
        self.known.push(s.into());
    }
}

pub enum Mode {
    Explore,
    Replay { sub: String, case: Value },
}

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: (u32, u32),
    pub scale: f64,
    pub mode: Mode,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub per_sub: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
    pub failure: Option<Value>,
    pub exhaustive: Vec<String>,
    /// Per sub-check of the coverage-guided search: cases, cases kept, edges taken, edges there are.
    pub guided: BTreeMap<String, [u64; 4]>,
    last: Option<File>,
    pub ran_replay: bool,
}

fn hash_of(sub: &str, js: &[u8]) -> u64 {
    let mut h = DefaultHasher::new();
    sub.hash(&mut h);
    js.hash(&mut h);
    h.finish()
}

impl Run {
    pub fn new(prop: &str, mode: Mode) -> Self {
        Run {
            prop: prop.into(),
            thorough: false,
            seed: 1,
            shard: (0, 1),
            scale: 1.0,
            mode,
            evaluations: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            per_sub: BTreeMap::new(),
            samples: vec![],
            known: BTreeMap::new(),
            failure: None,
            exhaustive: vec![],
            guided: BTreeMap::new(),
            last: None,
            ran_replay: false,
        }
    }
    pub fn last_case_file(&mut self, path: &str) {
        self.last = File::create(path).ok();
    }
    fn rng(&self, sub: &str) -> TestRng {
        let mut seed = [0u8; 32];
        for (i, c) in seed.chunks_mut(8).enumerate() {
            let mut h = DefaultHasher::new();
            (self.seed, &self.prop, sub, self.shard.0, crate::model::D.name(), i).hash(&mut h);
            c.copy_from_slice(&h.finish().to_le_bytes());
        }
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed)
    }
    fn note_last(&mut self, sub: &str, js: &[u8]) {
        if let Some(f) = &self.last {
            let mut b = format!("{}\n{}\n", sub, js.len()).into_bytes();
            b.extend_from_slice(js);
            let _ = f.write_all_at(&b, 0);
        }
    }
    fn eval<T: Serialize>(&mut self, sub: &str, case: &T, f: &dyn Fn(&T, &mut Obs) -> V, count: bool) -> V {
        let js = serde_json::to_vec(case).unwrap();
        self.note_last(sub, &js);
        let mut obs = Obs::default();
        arm(CASE_SECONDS);
        let r = match guard(|| f(case, &mut obs)) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        arm(0);
        if count {
            self.evaluations += 1;
            *self.per_sub.entry(sub.into()).or_default() += 1;
            for l in obs.labels {
                *self.labels.entry(l).or_default() += 1;
            }
            if obs.nontrivial {
                let new = self.distinct.insert(hash_of(sub, &js));
                let k = self.samples.iter().filter(|s| s["sub"] == sub).count();
                // the second sample comes from further into the run, when cases have grown
                if new && js.len() < 700 && (k == 0 || (k == 1 && self.per_sub[sub] > 50)) {
                    let v: Value = serde_json::from_slice(&js).unwrap();
                    self.samples.push(json!({"sub": sub, "case": v}));
                }
            }
            for k in obs.known {
                *self.known.entry(k).or_default() += 1;
            }
        }
        r
    }
    fn fail(&mut self, sub: &str, case: Value, reason: String) {
        if self.failure.is_none() {
            self.failure = Some(json!({
                "property": self.prop, "dialect": crate::model::D.name(), "sub": sub,
                "reason": reason, "case": case
            }));
        }
    }
    fn replaying<T: DeserializeOwned + Serialize>(&mut self, sub: &str, f: &dyn Fn(&T, &mut Obs) -> V) -> bool {
        if let Mode::Replay { sub: s, case } = &self.mode {
            if s == sub {
                let v = case.clone();
                let t: T = serde_json::from_value(v.clone()).expect("replay case");
                self.ran_replay = true;
                if let Err(e) = self.eval(sub, &t, f, true) {
                    self.fail(sub, v, e);
                }
            }
            return true;
        }
        false
    }
    /// Check generated cases; `quick` is the number of the quick tier over all shards.
    pub fn prop<T>(&mut self, sub: &str, quick: u32, strat: BoxedStrategy<T>, f: impl Fn(&T, &mut Obs) -> V)
    where
        T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    {
        if self.replaying(sub, &f) || self.failure.is_some() {
            return;
        }
        let total = (quick as f64 * self.scale) as u32;
        let cases = total.div_ceil(self.shard.1).max(1);
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 60_000,
            max_shrink_time: 60_000,
            source_file: None,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, self.rng(sub));
        let me = RefCell::new((self, false));
        let res = runner.run(&strat, |case| {
            let (run, failed) = &mut *me.borrow_mut();
            let r = run.eval(sub, &case, &f, !*failed);
            r.map_err(|e| {
                *failed = true;
                TestCaseError::fail(e)
            })
        });
        let (run, _) = me.into_inner();
        match res {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                run.fail(sub, serde_json::to_value(&case).unwrap(), reason.message().to_string())
            }
            Err(TestError::Abort(r)) => panic!("generator gave up: {r}"),
        }
    }
    /// Check generated cases, then search on from them by what the library does with them. Changed cases have to be
    /// what the strategy could have made; `sound` says so.
    pub fn guided<T>(
        &mut self,
        sub: &str,
        quick: u32,
        search: u32,
        strat: BoxedStrategy<T>,
        sound: impl Fn(&T) -> bool,
        f: impl Fn(&T, &mut Obs) -> V,
    ) where
        T: Debug + Clone + Serialize + DeserializeOwned + 'static,
    {
        self.prop(sub, quick, strat.clone(), |c, o| f(c, o));
        if !matches!(self.mode, Mode::Explore) || self.failure.is_some() {
            return;
        }
        let name = format!("{sub}, guided");
        // fewer long searches reach further than many short ones
        let (mine, all) = self.shard;
        let turn = hash_of(&name, crate::model::D.name().as_bytes()) as u32 % all;
        let searches = |s: u32| (s + turn) % all < SEARCHES;
        if !searches(mine) {
            return;
        }
        let runs = (0..all).filter(|s| searches(*s)).count() as u32;
        let cases = ((search as f64 * self.scale) as u32).div_ceil(runs).max(1) as u64;
        let mut runner = TestRunner::new_with_rng(Config::default(), self.rng(&name));
        let mut rng = Rng::new(hash_of(&name, &format!("{} {:?} {}", self.seed, self.shard, crate::model::D.name()).into_bytes()));
        let mut fresh = || serde_json::to_value(strat.new_tree(&mut runner).unwrap().current()).unwrap();
        let mut corpus: Vec<(Value, Pool)> = vec![];
        let mut known = Known::default();
        let mut record = vec![];
        let (mut done, mut tries) = (0, 0);
        while done < cases && tries < cases * 6 {
            tries += 1;
            let v = if corpus.len() < 2 || tries <= (cases / 8).min(150) || rng.one_in(24) {
                fresh()
            } else {
                let n = corpus.len();
                // often one of the last ones
                let pick = |rng: &mut Rng| {
                    let last = [n, n, n.div_ceil(4), n.min(8)][rng.below(4)];
                    n - 1 - rng.below(last)
                };
                let at = pick(&mut rng);
                let (from, pool) = &corpus[at];
                let mut aimed = if rng.one_in(2) { guided::aim(from, pool, &mut known, &mut rng) } else { None };
                if aimed.is_some() && rng.one_in(3) {
                    aimed = aimed.and_then(|v| guided::aim(&v, pool, &mut known, &mut rng).or(Some(v)));
                }
                aimed.unwrap_or_else(|| {
                    let mut v = from.clone();
                    for _ in 0..1 + rng.below(3) {
                        let other = pick(&mut rng);
                        guided::change(&mut v, &corpus[other].0, pool, &mut rng);
                    }
                    v
                })
            };
            let Ok(Ok(case)) = guard(|| serde_json::from_value::<T>(v.clone())) else { continue };
            if !guard(|| sound(&case)).unwrap_or(false) {
                continue;
            }
            done += 1;
            cov::clear(true);
            if let Err(e) = self.eval(sub, &case, &f, true) {
                let (v, e) = self.simplest(sub, v, e, &sound, &f);
                self.fail(sub, v, e);
                break;
            }
            let pairs = cov::pairs();
            if cov::novel(&mut record) | known.note(&pairs) {
                let pool = Pool::new(pairs);
                corpus.push((v, pool));
            }
        }
        cov::clear(false);
        let taken = record.iter().filter(|x| **x != 0).count() as u64;
        self.guided.insert(sub.into(), [done, corpus.len() as u64, taken, cov::edges() as u64]);
    }
    fn simplest<T: DeserializeOwned + Serialize>(
        &mut self,
        sub: &str,
        mut v: Value,
        mut reason: String,
        sound: &dyn Fn(&T) -> bool,
        f: &dyn Fn(&T, &mut Obs) -> V,
    ) -> (Value, String) {
        let start = std::time::Instant::now();
        'again: loop {
            for c in guided::simpler(&v) {
                if start.elapsed().as_secs() > 30 {
                    break 'again;
                }
                let Ok(Ok(case)) = guard(|| serde_json::from_value::<T>(c.clone())) else { continue };
                if !guard(|| sound(&case)).unwrap_or(false) {
                    continue;
                }
                if let Err(e) = self.eval(sub, &case, f, false) {
                    (v, reason) = (c, e);
                    continue 'again;
                }
            }
            break;
        }
        (v, reason)
    }
    /// Check every item of a finite space.
    pub fn each<T>(&mut self, sub: &str, items: impl Iterator<Item = T>, f: impl Fn(&T, &mut Obs) -> V)
    where
        T: Debug + Serialize + DeserializeOwned,
    {
        if self.replaying(sub, &f) || self.failure.is_some() {
            return;
        }
        for (i, t) in items.enumerate() {
            if i as u32 % self.shard.1 != self.shard.0 {
                continue;
            }
            if let Err(e) = self.eval(sub, &t, &f, true) {
                self.fail(sub, serde_json::to_value(&t).unwrap(), e);
                return;
            }
        }
        self.exhaustive.push(sub.into());
    }
    /// Only draw values, for checks that evaluate them elsewhere.
    pub fn draw<T: Debug>(&self, sub: &str, n: u32, strat: BoxedStrategy<T>) -> Vec<T> {
        let mut runner = TestRunner::new_with_rng(Config::default(), self.rng(sub));
        (0..n).map(|_| strat.new_tree(&mut runner).unwrap().current()).collect()
    }
    pub fn report(&self) -> Value {
        json!({
            "property": self.prop, "dialect": crate::model::D.name(), "evaluations": self.evaluations,
            "distinct": self.distinct.len(), "labels": self.labels, "subs": self.per_sub,
            "samples": self.samples, "known": self.known, "failure": self.failure,
            "exhaustive": self.exhaustive, "guided": self.guided,
        })
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// Bytes that serialise as a hex string, so replay files stay readable.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Hex(pub Vec<u8>);
impl Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", hex(&self.0))
    }
}
impl Serialize for Hex {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> serde::Deserialize<'de> for Hex {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Hex(unhex(&String::deserialize(d)?)))
    }
}
pub fn hexed(s: BoxedStrategy<Vec<u8>>) -> BoxedStrategy<Hex> {
    s.prop_map(Hex).boxed()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
/// Shorten text for failure messages.
pub fn short(s: impl ToString) -> String {
    let s = s.to_string();
    if s.chars().count() > 900 {
        s.chars().take(900).collect::<String>() + "..."
    } else {
        s
    }
}
