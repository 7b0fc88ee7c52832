//! Generated-input search: typed parts (strategy + check), sharded runs, shrinking, replay files, evidence.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// A refuted property on one case. `sig` names the way it failed (matched against the known findings).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail {
        sig: sig.to_string(),
        msg,
    })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($f:tt)*) => {
        if !($c) {
            return $crate::framework::fail($sig, format!($($f)*));
        }
    };
}

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
}
impl Obs {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_insert(0) += n;
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}
static ANY_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let full = format!("{} ({})", msg, loc);
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(full.clone()));
        if let Ok(mut g) = ANY_PANIC.lock() {
            *g = Some(full);
        }
    }));
}

/// Run code that may panic; the panic message is returned as the Err.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .or_else(|| ANY_PANIC.lock().ok().and_then(|g| g.clone()))
            .unwrap_or_else(|| "panic".into())),
    }
}

pub struct Part<C> {
    pub name: &'static str,
    /// how cases are made, and what makes one non-trivial
    pub rule: &'static str,
    pub strat: fn(Tier) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> Res,
    pub quick: u32,
    pub thorough: u32,
    pub serial: bool,
}

pub struct ShardOut {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, (u64, Value, String)>,
    pub failure: Option<(Value, Fail, u64)>,
    pub rejected: u64,
}

pub struct RunCtx<'a> {
    pub prop: &'a str,
    pub tier: Tier,
    pub seed: u64,
    pub deadline: Instant,
    pub stop: &'a AtomicBool,
    pub known: &'a [String],
    pub scratch: PathBuf,
    /// start of the running case per shard (ms since start, 0 = idle)
    pub beats: &'a [AtomicU64],
    pub t0: Instant,
}

pub trait PartDyn: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u32;
    fn serial(&self) -> bool;
    fn run_shard(&self, ctx: &RunCtx, shard: usize, n: u32) -> ShardOut;
    fn replay(&self, v: &Value) -> Result<Res, String>;
}

fn exec<C>(check: fn(&C, &mut Obs) -> Res, c: &C, obs: &mut Obs) -> Res {
    match guarded(|| check(c, obs)) {
        Ok(r) => r,
        Err(p) => fail("panic", format!("panicked: {}", p)),
    }
}

fn hash_str(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn rng_for(prop: &str, part: &str, seed: u64, shard: usize) -> TestRng {
    let mut bytes = [0u8; 32];
    for k in 0..4u64 {
        let h = hash_str(&format!("{}|{}|{}|{}|{}", prop, part, seed, shard, k));
        bytes[(k as usize) * 8..(k as usize) * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

impl<C: Serialize + DeserializeOwned + Debug + Clone + 'static> PartDyn for Part<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn cases(&self, tier: Tier) -> u32 {
        tier.pick(self.quick, self.thorough)
    }
    fn serial(&self) -> bool {
        self.serial
    }
    fn run_shard(&self, ctx: &RunCtx, shard: usize, n: u32) -> ShardOut {
        let mut out = ShardOut {
            evaluations: 0,
            nontrivial: HashSet::new(),
            labels: BTreeMap::new(),
            samples: Vec::new(),
            known: BTreeMap::new(),
            failure: None,
            rejected: 0,
        };
        let strat = (self.strat)(ctx.tier);
        let cfg = Config {
            failure_persistence: None,
            ..Config::default()
        };
        let mut runner =
            TestRunner::new_with_rng(cfg, rng_for(ctx.prop, self.name, ctx.seed, shard));
        let journal_path = ctx.scratch.join(format!("journal_{}.json", shard));
        let mut journal = std::fs::File::create(&journal_path).ok();
        let mut note = |v: &str| {
            if let Some(f) = journal.as_mut() {
                use std::io::Seek;
                let _ = f.set_len(0);
                let _ = f.seek(std::io::SeekFrom::Start(0));
                let _ = f.write_all(v.as_bytes());
            }
        };
        for _ in 0..n {
            if ctx.stop.load(Ordering::Relaxed) || Instant::now() > ctx.deadline {
                break;
            }
            let mut tree = match strat.new_tree(&mut runner) {
                Ok(t) => t,
                Err(_) => {
                    out.rejected += 1;
                    continue;
                }
            };
            let case = tree.current();
            let jv = serde_json::to_value(&case).unwrap();
            let js = jv.to_string();
            note(&json!({"property": ctx.prop, "part": self.name, "case": jv}).to_string());
            let mut obs = Obs::default();
            ctx.beats[shard].store(ctx.t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
            let r = exec(self.check, &case, &mut obs);
            ctx.beats[shard].store(0, Ordering::Relaxed);
            out.evaluations += 1;
            for (k, v) in obs.labels {
                *out.labels.entry(k).or_insert(0) += v;
            }
            if obs.nontrivial {
                let fresh = out.nontrivial.insert(hash_str(&js));
                if fresh && out.samples.len() < 2 && js.len() < 4000 {
                    out.samples.push(json!({"part": self.name, "case": jv}));
                }
            }
            if let Err(f) = r {
                if ctx.known.contains(&f.sig) {
                    let e = out.known.entry(f.sig.clone()).or_insert((0, jv, f.msg));
                    e.0 += 1;
                    continue;
                }
                ctx.stop.store(true, Ordering::Relaxed);
                // bounded shrink
                let (mut best, mut best_fail) = (case, f);
                let t = Instant::now();
                let mut steps = 0u64;
                if tree.simplify() {
                    loop {
                        if steps > 3000 || t.elapsed() > Duration::from_secs(45) {
                            break;
                        }
                        steps += 1;
                        let c = tree.current();
                        let mut o = Obs::default();
                        ctx.beats[shard]
                            .store(ctx.t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        note(&json!({"property": ctx.prop, "part": self.name, "case": serde_json::to_value(&c).unwrap()}).to_string());
                        let r = exec(self.check, &c, &mut o);
                        ctx.beats[shard].store(0, Ordering::Relaxed);
                        match r {
                            Err(f) if !ctx.known.contains(&f.sig) => {
                                best = c;
                                best_fail = f;
                                if !tree.simplify() {
                                    break;
                                }
                            }
                            _ => {
                                if !tree.complicate() {
                                    break;
                                }
                            }
                        }
                    }
                }
                out.failure = Some((serde_json::to_value(&best).unwrap(), best_fail, steps));
                break;
            }
        }
        note("");
        out
    }
    fn replay(&self, v: &Value) -> Result<Res, String> {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        let mut obs = Obs::default();
        Ok(exec(self.check, &c, &mut obs))
    }
}

pub struct Prop {
    pub parts: Vec<Box<dyn PartDyn>>,
    pub assumptions: Vec<&'static str>,
}

// ---------------------------------------------------------------------------------------------
// scratch space
// ---------------------------------------------------------------------------------------------
static SCRATCH: Mutex<Option<PathBuf>> = Mutex::new(None);
static SCRATCH_N: AtomicU64 = AtomicU64::new(0);

pub fn set_scratch(p: PathBuf) {
    *SCRATCH.lock().unwrap() = Some(p);
}
pub fn scratch_root() -> PathBuf {
    SCRATCH.lock().unwrap().clone().expect("scratch not set")
}
/// A fresh path inside this run's scratch directory.
pub fn scratch_path(ext: &str) -> PathBuf {
    let n = SCRATCH_N.fetch_add(1, Ordering::Relaxed);
    scratch_root().join(format!("f{}.{}", n, ext))
}
/// A scratch file removed when dropped.
pub struct TmpFile(pub PathBuf);
impl TmpFile {
    pub fn new(ext: &str) -> Self {
        TmpFile(scratch_path(ext))
    }
    pub fn s(&self) -> String {
        self.0.to_str().unwrap().to_string()
    }
}
impl Drop for TmpFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
