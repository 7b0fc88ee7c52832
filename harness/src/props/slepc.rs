//! C13: the bridge to the external eigensolver, against a stand-in that records what it was given and injects faults.
//!
//! This program, started under the name `mpiexec`, is the stand-in. It finds the behaviour for its call in the
//! solver directory by the target value it was given, and copies the two matrix files away before it answers.
use super::linalg::{bits, compare_file, file_matrix, Ent};
use crate::ensure;
use crate::framework::*;
use fem_2d::prelude::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::{Barrier, Condvar, Mutex, OnceLock};

// ---------------------------------------------------------------------------------------------
// the stand-in
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Behaviour {
    target: f64,
    /// exit code; 1000: killed by a signal
    exit: i32,
    evec: Option<Vec<u8>>,
    eval: Option<Vec<u8>>,
    delay_ms: u64,
    /// also leave other files with the prefix of the call, take the inputs away
    litter: bool,
    take_inputs: bool,
}
#[derive(Debug, Serialize, Deserialize)]
struct Record {
    args: Vec<String>,
    te: Option<f64>,
    prefix: Option<String>,
}

/// names of what it creates: beh_<id>.json -> rec_<id>_<pid>.json, in_<id>_{a,b}.dat
pub fn fake_mpiexec(args: &[String]) -> i32 {
    let after = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let te: Option<f64> = after("-te").and_then(|s| s.parse().ok());
    let prefix = after("-fp");
    let cwd = match std::env::current_dir() {
        Ok(d) => d,
        Err(_) => return 98,
    };
    // the behaviour with the closest target
    let mut best: Option<(f64, String, Behaviour)> = None;
    if let (Some(t), Ok(rd)) = (te, std::fs::read_dir(cwd.join("beh"))) {
        for f in rd.flatten() {
            let name = f.file_name().to_string_lossy().to_string();
            let id = match name.strip_prefix("beh_").and_then(|n| n.strip_suffix(".json")) {
                Some(i) => i.to_string(),
                None => continue,
            };
            if let Some(b) = std::fs::read_to_string(f.path()).ok().and_then(|s| serde_json::from_str::<Behaviour>(&s).ok()) {
                let d = (b.target - t).abs();
                if best.as_ref().map_or(true, |(e, _, _)| d < *e) {
                    best = Some((d, id, b));
                }
            }
        }
    }
    let (id, b) = match best {
        Some((d, id, b)) if d <= 1e-4 * b.target.abs().max(1.0) => (id, b),
        _ => return 97,
    };
    let rec = Record { args: args.to_vec(), te, prefix: prefix.clone() };
    let _ = std::fs::write(cwd.join("beh").join(format!("rec_{}_{}.json", id, std::process::id())), serde_json::to_string(&rec).unwrap());
    let prefix = match prefix {
        Some(p) => p,
        None => return 2,
    };
    let file = |s: &str| cwd.join("tmp").join(format!("{}_{}", prefix, s));
    for s in ["a.dat", "b.dat"] {
        let _ = std::fs::copy(file(s), cwd.join("beh").join(format!("in_{}_{}", id, s)));
        if b.take_inputs {
            let _ = std::fs::remove_file(file(s));
        }
    }
    if b.delay_ms > 0 {
        std::thread::sleep(std::time::Duration::from_millis(b.delay_ms));
    }
    if let Some(x) = &b.evec {
        let _ = std::fs::write(file("evec.dat"), x);
    }
    if let Some(x) = &b.eval {
        let _ = std::fs::write(file("eval.dat"), x);
    }
    if b.litter {
        let _ = std::fs::write(file("evec.dat.info"), b"");
        let _ = std::fs::write(file("log"), b"converged");
    }
    if b.exit == 1000 {
        let _ = std::process::Command::new("/bin/sh").args(["-c", "kill -9 $PPID"]).status();
        std::thread::sleep(std::time::Duration::from_secs(5));
    }
    b.exit
}

// ---------------------------------------------------------------------------------------------
// the solver directory, shared by all cases of a run
// ---------------------------------------------------------------------------------------------
struct Place {
    dir: PathBuf,
    path: PathBuf,
}
static PLACE: OnceLock<Place> = OnceLock::new();
static TARGETS: Mutex<Vec<f64>> = Mutex::new(Vec::new());
static FREED: Condvar = Condvar::new();

fn place() -> &'static Place {
    PLACE.get_or_init(|| {
        let root = scratch_root();
        let dir = root.join("solver");
        std::fs::create_dir_all(dir.join("tmp")).unwrap();
        std::fs::create_dir_all(dir.join("beh")).unwrap();
        let path = root.join("path");
        std::fs::create_dir_all(&path).unwrap();
        std::os::unix::fs::symlink(std::env::current_exe().unwrap(), path.join("mpiexec")).unwrap();
        std::fs::create_dir_all(root.join("nopath")).unwrap();
        std::env::set_var("PATH", &path);
        std::env::set_var("GEP_SOLVE_DIR", &dir);
        Place { dir, path }
    })
}
/// No two running calls have targets that are hard to tell apart.
struct Claim(f64);
fn claim(t: f64) -> Claim {
    let mut g = TARGETS.lock().unwrap();
    while g.iter().any(|x| (x - t).abs() <= 1e-3 * x.abs().max(t.abs()).max(1.0)) {
        g = FREED.wait(g).unwrap();
    }
    g.push(t);
    Claim(t)
}
impl Drop for Claim {
    fn drop(&mut self) {
        let mut g = TARGETS.lock().unwrap();
        if let Some(i) = g.iter().position(|x| x.to_bits() == self.0.to_bits()) {
            g.swap_remove(i);
        }
        FREED.notify_all();
    }
}

// ---------------------------------------------------------------------------------------------
// cases
// ---------------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Call {
    dim: usize,
    a: Vec<(u32, u32, u64)>,
    b: Vec<(u32, u32, u64)>,
    target: f64,
    /// what the solver program does: 0-2 solves; others fail (see `outcome`)
    what: u8,
    code: u8,
    evec: Vec<u64>,
    /// further entries of the vector
    #[serde(default)]
    more: u32,
    eval: u64,
    cut: u8,
    litter: bool,
    take_inputs: bool,
    delay: u8,
}
#[derive(PartialEq, Debug)]
enum Expect {
    Solution,
    /// any error
    Error,
    Is(&'static str),
}
fn variant(e: &SlepcGEPError) -> &'static str {
    use SlepcGEPError::*;
    match e {
        SolverNotFound => "SolverNotFound",
        FailedToExecute => "FailedToExecute",
        FailedToInitializeSlepc => "FailedToInitializeSlepc",
        BadArguments => "BadArguments",
        FailedToInitializeMatrices => "FailedToInitializeMatrices",
        FailedToInitializeEPS => "FailedToInitializeEPS",
        FailedToConverge => "FailedToConverge",
        FailedToReturnSolution => "FailedToReturnSolution",
        UnknownError => "UnknownError",
    }
}
fn vec_file(v: &[u64]) -> Vec<u8> {
    let mut o = Vec::new();
    o.extend_from_slice(&1211214i32.to_be_bytes());
    o.extend_from_slice(&(v.len() as i32).to_be_bytes());
    for x in v {
        o.extend_from_slice(&x.to_be_bytes());
    }
    o
}
impl Call {
    fn vector(&self) -> Vec<u64> {
        let mut v = self.evec.clone();
        v.extend((0..self.more as u64).map(|k| ((k as f64) * 0.37 - 5.0).to_bits()));
        v
    }
    fn outcome(&self) -> (Behaviour, Expect, &'static str) {
        let mut b = Behaviour {
            target: self.target,
            exit: 0,
            evec: Some(vec_file(&self.vector())),
            eval: Some(self.eval.to_be_bytes().to_vec()),
            delay_ms: self.delay as u64,
            litter: self.litter,
            take_inputs: self.take_inputs,
        };
        let len = b.evec.as_ref().unwrap().len();
        let (e, l) = match self.what {
            3 | 4 => {
                // a documented code, with or without result files
                let c = 1 + (self.code % 8) as i32;
                b.exit = c;
                if self.cut % 2 == 0 {
                    b.evec = None;
                    b.eval = None;
                }
                (
                    Expect::Is(match c {
                        1 => "FailedToInitializeSlepc",
                        2 => "BadArguments",
                        3 => "FailedToInitializeMatrices",
                        4..=6 => "FailedToInitializeEPS",
                        7 => "FailedToConverge",
                        _ => "FailedToReturnSolution",
                    }),
                    "documented-code",
                )
            }
            5 => {
                b.exit = if self.code < 9 { 9 } else { self.code as i32 };
                (Expect::Is("UnknownError"), "other-code")
            }
            6 => {
                b.evec = None;
                (Expect::Error, "no-vector")
            }
            7 => {
                b.eval = None;
                (Expect::Error, "no-value")
            }
            8 => {
                b.evec.as_mut().unwrap().truncate(self.cut as usize * len / 256);
                (Expect::Error, "short-vector")
            }
            9 => {
                b.eval.as_mut().unwrap().truncate(self.cut as usize % 8);
                (Expect::Error, "short-value")
            }
            10 => {
                // another kind of file: wrong magic number
                let m: i32 = [1211216, 0, -1, 1211213, 1211215, 1211214i32.swap_bytes()][self.cut as usize % 6];
                b.evec.as_mut().unwrap()[..4].copy_from_slice(&m.to_be_bytes());
                (Expect::Error, "wrong-kind")
            }
            11 => {
                // a length that the file does not have
                let n = self.vector().len() as i32;
                let m: i32 = [-1, i32::MIN, n + 1, n + 1 + self.cut as i32, i32::MAX, 1 << 24][self.cut as usize % 6];
                b.evec.as_mut().unwrap()[4..8].copy_from_slice(&m.to_be_bytes());
                (Expect::Error, "wrong-length")
            }
            12 => {
                b.evec = None;
                b.eval = None;
                (Expect::Error, "no-files")
            }
            _ => (Expect::Solution, "solves"),
        };
        (b, e, l)
    }
}
fn call_strat(what: BoxedStrategy<u8>, big: bool) -> BoxedStrategy<Call> {
    let dim = if big { prop_oneof![6 => 1usize..9, 2 => 9usize..40, 1 => 40usize..300].boxed() } else { (1usize..7).boxed() };
    let ent = |n: usize| proptest::collection::vec((any::<u32>(), any::<u32>(), bits()), 0..n);
    let target = prop_oneof![
        6 => -50.0..50.0f64,
        2 => -1e5..1e5f64,
        2 => 0.0..1.0f64,
        1 => (0i32..200).prop_map(|k| k as f64 / 4.0),
        1 => (1.0..1e7f64).prop_map(|x| x.round()),
    ];
    (
        (dim, ent(30), ent(20), target),
        (what, any::<u8>(), (proptest::collection::vec(bits(), 0..40), prop_oneof![30 => Just(0u32), 4 => 0u32..3000, 1 => 3000u32..100000]), bits(), any::<u8>()),
        (any::<bool>(), prop_oneof![4 => Just(false), 1 => Just(true)], prop_oneof![4 => Just(0u8), 1 => 1u8..6]),
    )
        .prop_map(|((dim, a, b, target), (what, code, (evec, more), eval, cut), (litter, take_inputs, delay))| Call {
            dim, a, b, target, what, code, evec, more, eval, cut, litter, take_inputs, delay,
        })
        .boxed()
}

fn same_solution(c: &Call, s: &EigenPair) -> Res {
    ensure!(s.value.to_bits() == c.eval, "value", "eigenvalue {} ({:x}) returned, the solver wrote {:x}", s.value, s.value.to_bits(), c.eval);
    let v = c.vector();
    ensure!(s.vector.len() == v.len(), "vector", "eigenvector of {} entries returned, the solver wrote {}", s.vector.len(), v.len());
    for (k, (a, b)) in s.vector.iter().zip(v.iter()).enumerate() {
        ensure!(a.to_bits() == *b, "vector", "entry {} of the eigenvector is {:?}, the solver wrote {:?}", k, a, f64::from_bits(*b));
    }
    Ok(())
}
fn judge(r: Result<Result<EigenPair, Box<dyn std::error::Error>>, String>, e: &Expect, c: &Call) -> Res {
    match (r, e) {
        (Err(p), _) => fail("panic", format!("the call panicked: {}", p)),
        (Ok(Ok(s)), Expect::Solution) => same_solution(c, &s),
        (Ok(Ok(s)), _) => fail("solution", format!("a solution of {} values although the solver failed ({:?} expected)", s.vector.len(), e)),
        (Ok(Err(x)), Expect::Solution) => fail("error", format!("the solver returned a solution, the call failed: {}", x)),
        (Ok(Err(_)), Expect::Error) => Ok(()),
        (Ok(Err(x)), Expect::Is(v)) => match x.downcast_ref::<SlepcGEPError>() {
            Some(k) => {
                ensure!(variant(k) == *v, "meaning", "{} reported, {} expected", variant(k), v);
                ensure!(!k.to_string().is_empty(), "message", "{} has no message", v);
                Ok(())
            }
            None => fail("meaning", format!("{:?} reported, {} expected", x.to_string(), v)),
        },
    }
}
fn with_prefix(dir: &Path, p: &str) -> Vec<String> {
    std::fs::read_dir(dir)
        .map(|d| d.flatten().map(|f| f.file_name().to_string_lossy().to_string()).filter(|n| n.contains(p)).collect())
        .unwrap_or_default()
}

/// one call; returns the prefix it used
fn one(c: &Call, obs: &mut Obs, start: Option<&Barrier>) -> Result<String, Fail> {
    let pl = place();
    let _claim = start.is_none().then(|| claim(c.target));
    let (b, expect, label) = c.outcome();
    obs.label(label);
    let id = scratch_path("").file_stem().unwrap().to_string_lossy().to_string();
    let beh = pl.dir.join("beh");
    let bf = beh.join(format!("beh_{}.json", id));
    // written under another name first: other stand-ins read the directory
    let tmp = beh.join(format!("new_{}", id));
    std::fs::write(&tmp, serde_json::to_string(&b).unwrap()).unwrap();
    std::fs::rename(&tmp, &bf).unwrap();
    // files of others
    let keep: Vec<PathBuf> = [format!("keep_{}_a.dat", id), format!("p_{}_evec.dat", id), format!("{}_eval.dat", id)].iter().map(|n| pl.dir.join("tmp").join(n)).collect();
    for k in keep.iter() {
        std::fs::write(k, id.as_bytes()).unwrap();
    }
    let (a, ea) = file_matrix(c.dim, &c.a);
    let (bm, eb) = file_matrix(c.dim, &c.b);
    if let Some(s) = start {
        s.wait();
    }
    let gep = GEP { a, b: bm };
    let r = guarded(|| slepc_solve_gep(gep, c.target));
    let res = (|| {
        // what the stand-in saw
        let mut recs: Vec<Record> = Vec::new();
        for f in std::fs::read_dir(&beh).unwrap().flatten() {
            if f.file_name().to_string_lossy().starts_with(&format!("rec_{}_", id)) {
                recs.push(serde_json::from_str(&std::fs::read_to_string(f.path()).unwrap()).unwrap());
            }
        }
        ensure!(recs.len() == 1, "started", "the solver was started {} times with this target; the call returned {:?}", recs.len(), r.as_ref().map(|r| r.as_ref().map(|s| s.value).map_err(|e| e.to_string())));
        let rec = &recs[0];
        let pos = |k: &str| rec.args.iter().position(|a| a == k);
        let (sg, te, fp) = match (pos("./solve_gep"), pos("-te"), pos("-fp")) {
            (Some(s), Some(t), Some(f)) => (s, t, f),
            _ => return fail("arguments", format!("the command line is mpiexec {:?}", rec.args)),
        };
        ensure!(sg < te && sg < fp, "arguments", "the command line is mpiexec {:?}", rec.args);
        ensure!(pos("-np").map_or(false, |i| i < sg && rec.args[i + 1] == "1"), "arguments", "the command line is mpiexec {:?}", rec.args);
        let t = rec.te.unwrap_or(f64::NAN);
        ensure!((t - c.target).abs() <= 1e-9 * c.target.abs().max(1.0), "target", "the solver was given target {}, {} was asked for", t, c.target);
        let prefix = rec.prefix.clone().unwrap();
        let cmp = |s: &str, e: &Ent| compare_file(&beh.join(format!("in_{}_{}", id, s)), c.dim, e);
        cmp("a.dat", &ea)?;
        cmp("b.dat", &eb)?;
        judge(r, &expect, c)?;
        let left = with_prefix(&pl.dir.join("tmp"), &prefix);
        ensure!(left.is_empty(), "left-over", "files left behind: {:?}", left);
        for k in keep.iter() {
            ensure!(std::fs::read(k).map_or(false, |b| b == id.as_bytes()), "other-file", "the file {:?} of somebody else was changed or removed", k.file_name().unwrap());
        }
        Ok(prefix)
    })();
    let _ = std::fs::remove_file(&bf);
    for k in keep.iter() {
        let _ = std::fs::remove_file(k);
    }
    for n in with_prefix(&beh, &format!("_{}_", id)) {
        let _ = std::fs::remove_file(beh.join(n));
    }
    res
}
fn c13_single(c: &Call, obs: &mut Obs) -> Res {
    obs.nontrivial_if(c.what != 12);
    one(c, obs, None).map(|_| ())
}

/// several calls at once
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Together {
    calls: Vec<Call>,
}
fn c13_together(c: &Together, obs: &mut Obs) -> Res {
    place();
    let mut calls = c.calls.clone();
    for (i, k) in calls.iter_mut().enumerate() {
        // well-separated targets
        k.target = 1000.0 * (i + 1) as f64 + (k.target.fract() * 100.0);
    }
    let barrier = Barrier::new(calls.len());
    let rs: Vec<(Result<String, Fail>, Obs)> = std::thread::scope(|s| {
        let hs: Vec<_> = calls
            .iter()
            .map(|k| {
                let b = &barrier;
                s.spawn(move || {
                    let mut o = Obs::default();
                    let r = one(k, &mut o, Some(b));
                    (r, o)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut seen = BTreeMap::new();
    for (i, (r, o)) in rs.into_iter().enumerate() {
        for (k, v) in o.labels {
            obs.add(&k, v);
        }
        let p = match r {
            Ok(p) => p,
            Err(f) => return fail(&f.sig, format!("call {} of {} at once: {}", i, calls.len(), f.msg)),
        };
        if let Some(j) = seen.insert(p.clone(), i) {
            return fail("prefix", format!("calls {} and {} used the same files {}", j, i, p));
        }
    }
    obs.nontrivial_if(calls.len() > 1);
    Ok(())
}

/// faults of the surroundings, one at a time in a directory of its own
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Around {
    call: Call,
    /// 0: setting missing, 1: program missing, 2: program not executable, 3: no directory, 4: no tmp in it, 5: tmp is a file, 6: killed, 7: nothing wrong,
    /// 8: a setting that is not text, 9: a file of somebody else whose name is not text, 10: the matrix files cannot be written completely
    fault: u8,
    /// how much of the larger matrix file can be written, of 255
    room: u8,
    /// which files of others there are
    #[serde(default = "all_others")]
    others: u8,
    /// how the setting names the directory: 0 plain, 1 with a slash at the end, 2 relative to the working directory, 3 a name with spaces and other signs, 4 through a link
    #[serde(default)]
    form: u8,
}
fn all_others() -> u8 {
    7
}
extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn getrlimit(what: i32, lim: *mut [u64; 2]) -> i32;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}
const SIGXFSZ: i32 = 25;
const RLIMIT_FSIZE: i32 = 1;
/// No file of this process can grow beyond `bytes` while `f` runs; writes beyond fail.
pub fn with_file_limit<T>(bytes: u64, f: impl FnOnce() -> T) -> T {
    let mut old = [0u64; 2];
    unsafe {
        signal(SIGXFSZ, 1);
        assert_eq!(getrlimit(RLIMIT_FSIZE, &mut old), 0);
        assert_eq!(setrlimit(RLIMIT_FSIZE, &[bytes, old[1]]), 0);
    }
    let r = f();
    unsafe {
        assert_eq!(setrlimit(RLIMIT_FSIZE, &old), 0);
    }
    r
}
fn not_text() -> std::ffi::OsString {
    std::os::unix::ffi::OsStringExt::from_vec(vec![b'r', 0xe9, b's', 0xff])
}
fn listing(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut stack = vec![d.to_path_buf()];
    while let Some(p) = stack.pop() {
        if let Ok(rd) = std::fs::read_dir(&p) {
            for f in rd.flatten() {
                let q = f.path();
                let name = q.strip_prefix(d).unwrap().to_string_lossy().to_string();
                if name.starts_with("beh/") {
                    continue;
                }
                if q.is_dir() {
                    m.insert(name, vec![]);
                    stack.push(q);
                } else {
                    m.insert(name, std::fs::read(&q).unwrap_or_default());
                }
            }
        }
    }
    m
}
fn c13_around(c: &Around, obs: &mut Obs) -> Res {
    let pl = place();
    let mut dir = scratch_path("dir");
    if c.form == 3 {
        dir = dir.with_extension("a b;$x'é");
    }
    std::fs::create_dir_all(dir.join("beh")).unwrap();
    std::fs::write(dir.join("solve_gep"), b"program").unwrap();
    let nopath = scratch_path("path");
    std::fs::create_dir_all(&nopath).unwrap();
    if c.fault == 5 {
        std::fs::write(dir.join("tmp"), b"not a directory").unwrap();
    } else if c.fault != 4 {
        let tmp = dir.join("tmp");
        std::fs::create_dir_all(&tmp).unwrap();
        let put = |bit: u8, names: &[&str]| {
            if c.others & bit != 0 {
                for n in names {
                    std::fs::write(tmp.join(n), b"keep").unwrap();
                }
            }
        };
        if c.others & 1 != 0 {
            std::fs::create_dir_all(tmp.join("sub")).unwrap();
        }
        put(2, &["other_a.dat"]);
        put(4, &["p_0000000x_evec.dat"]);
        put(8, &["p_", "p", "a.dat", "_a.dat", "evec.dat", "p_evec.dat", ".keep", "solve.log"]);
        put(16, &["p_1", "p_12", "p_123_a.dat", "p_1234_b.dat", "p_12345_evec.dat", "p_123456_eval.dat"]);
        if c.others & 32 != 0 {
            // where nothing else is ever written
            for n in ["a.dat", "p_1_a.dat", "notes"] {
                std::fs::write(dir.join(n), b"keep").unwrap();
            }
        }
        if c.others == 0 {
            obs.label("empty-tmp");
        }
    }
    let (mut b, mut expect, label) = c.call.outcome();
    let link = scratch_path("link");
    let mut solver = match c.form {
        1 => PathBuf::from(format!("{}/", dir.display())),
        2 => {
            let up = std::env::current_dir().unwrap().components().count() - 1;
            PathBuf::from("../".repeat(up)).join(dir.strip_prefix("/").unwrap())
        }
        4 => {
            std::os::unix::fs::symlink(&dir, &link).unwrap();
            link.clone()
        }
        _ => dir.clone(),
    };
    match c.fault {
        0 => expect = Expect::Is("SolverNotFound"),
        1 => expect = Expect::Is("FailedToExecute"),
        2 => {
            std::fs::write(nopath.join("mpiexec"), b"text").unwrap();
            expect = Expect::Is("FailedToExecute");
        }
        3 => {
            solver = dir.join("missing");
            expect = Expect::Error;
        }
        4 | 5 => expect = Expect::Error,
        6 => {
            b.exit = 1000;
            expect = Expect::Is("UnknownError");
        }
        _ => {}
    }
    let other_name = dir.join("tmp").join(not_text());
    if c.fault == 9 {
        std::fs::write(&other_name, b"keep").unwrap();
    }
    if c.fault == 8 {
        solver = dir.join(not_text());
        expect = Expect::Error;
    }
    if c.fault == 10 {
        expect = Expect::Error;
    }
    obs.label(["no-setting", "no-program", "not-executable", "no-directory", "no-tmp", "tmp-is-a-file", "killed", label, "setting-not-text", "other-name-not-text", "no-room"][c.fault as usize]);
    obs.nontrivial_if(c.fault != 7);
    std::fs::write(dir.join("beh").join("beh_x.json"), serde_json::to_string(&b).unwrap()).unwrap();
    let (a, ea) = file_matrix(c.call.dim, &c.call.a);
    let (bm, eb) = file_matrix(c.call.dim, &c.call.b);
    let before = listing(&dir);
    if c.fault == 0 {
        std::env::remove_var("GEP_SOLVE_DIR");
    } else {
        std::env::set_var("GEP_SOLVE_DIR", &solver);
    }
    if c.fault == 1 || c.fault == 2 {
        std::env::set_var("PATH", &nopath);
    }
    let size = |e: &Ent| 16 + 4 * c.call.dim as u64 + 12 * e.len() as u64;
    let gep = GEP { a, b: bm };
    let r = if c.fault == 10 {
        let whole = size(&ea).max(size(&eb));
        // the whole of the first file in half of the cases where the second is larger
        let least = if c.room % 2 == 1 && size(&eb) > size(&ea) { size(&ea) } else { 0 };
        let room = least + (whole - 1 - least) * c.room as u64 / 255;
        obs.add("no-room-for-the-second-only", (size(&ea) <= room) as u64);
        with_file_limit(room, || guarded(|| slepc_solve_gep(gep, c.call.target)))
    } else {
        guarded(|| slepc_solve_gep(gep, c.call.target))
    };
    std::env::set_var("GEP_SOLVE_DIR", &pl.dir);
    std::env::set_var("PATH", &pl.path);
    let res = (|| {
        judge(r, &expect, &c.call)?;
        let after = listing(&dir);
        for (k, v) in after.iter() {
            match before.get(k) {
                None => return fail("left-over", format!("file left behind: {}", k)),
                Some(w) => ensure!(v == w, "other-file", "the file {} was changed", k),
            }
        }
        for k in before.keys() {
            ensure!(after.contains_key(k), "other-file", "the file {} was removed", k);
        }
        if matches!(c.fault, 6 | 7 | 9) {
            compare_file(&dir.join("beh/in_x_a.dat"), c.call.dim, &ea)?;
            compare_file(&dir.join("beh/in_x_b.dat"), c.call.dim, &eb)?;
        }
        let n = std::fs::read_dir(dir.join("beh")).unwrap().flatten().filter(|f| f.file_name().to_string_lossy().starts_with("rec_")).count();
        ensure!(n == if matches!(c.fault, 6 | 7 | 9) { 1 } else { 0 }, "started", "the solver was started {} times", n);
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::remove_file(&link);
    let _ = std::fs::remove_dir_all(&nopath);
    res
}

pub fn c13() -> Prop {
    Prop {
        parts: vec![
            Box::new(Part {
                name: "single",
                rule: "random pair of sparse symmetric matrices (any bit patterns) and target; the stand-in solves, or fails in a generated way: each documented and other exit codes, missing, truncated or malformed result files, additional files, inputs taken away; eight such calls run at a time in one directory that also holds files of others; non-trivial: the stand-in leaves at least one result file or an exit code",
                strat: |_| call_strat(prop_oneof![4 => Just(0u8), 9 => 3u8..13].boxed(), true),
                check: c13_single, quick: 1600, thorough: 60000, serial: false,
            }),
            Box::new(Part {
                name: "together",
                rule: "2 to 8 calls started at the same moment in one directory, each with its own matrices, target, outcome and duration; every call must get its own answer; non-trivial: at least two calls",
                strat: |_| proptest::collection::vec(call_strat(prop_oneof![6 => Just(0u8), 3 => 3u8..13].boxed(), false), 2..9).prop_map(|calls| Together { calls }).boxed(),
                check: c13_together, quick: 120, thorough: 4000, serial: true,
            }),
            Box::new(Part {
                name: "crowd",
                rule: "as 'together', with 30 to 80 calls",
                strat: |_| proptest::collection::vec(call_strat(prop_oneof![6 => Just(0u8), 3 => 3u8..13].boxed(), false), 30..80).prop_map(|calls| Together { calls }).boxed(),
                check: c13_together, quick: 4, thorough: 200, serial: true,
            }),
            Box::new(Part {
                name: "around",
                rule: "faults of the surroundings: setting missing, program missing or not executable, no solver directory, no tmp directory or a file in its place, solver killed, a setting that is not valid text, a file of somebody else with such a name, no room to write all of the matrix files (a file size limit at a generated byte), any selection of files of others with similar names or none, the directory named plainly, relatively, with a slash at the end, through a link or with unusual signs; the whole directory is compared with what it was; non-trivial: one of these faults",
                strat: |_| (call_strat(prop_oneof![4 => Just(0u8), 3 => 3u8..13].boxed(), false), 0u8..11, any::<u8>(), prop_oneof![2 => Just(0u8), 1 => Just(7u8), 3 => 0u8..64], prop_oneof![2 => Just(0u8), 4 => 0u8..5]).prop_map(|(call, fault, room, others, form)| Around { call, fault, room, others, form }).boxed(),
                check: c13_around, quick: 600, thorough: 8000, serial: true,
            }),
        ],
        assumptions: vec![
            "the real solver program is not installed; a stand-in plays it, with the file formats and exit codes documented in the code",
            "the target is passed as decimal text; it is compared to 1e-9",
            "a result vector whose length differs from the matrices' dimension, and bytes after the end of a result, are not judged",
        ],
    }
}
