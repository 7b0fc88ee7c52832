mod framework;
mod gen;
mod model;
mod props;
mod refmath;

use framework::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

const SHARDS: usize = 8;
/// a single case normally takes milliseconds; one running this long is suspected to hang. It is then run again on its
/// own: a hang is reported if that does not end either, or at the third suspicion
const HANG_S: u64 = 120;

struct KnownFinding {
    prop: String,
    sig: String,
    text: String,
}

fn root() -> PathBuf {
    std::env::var_os("FEM2D_VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn load_known(prop: &str) -> Vec<KnownFinding> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for line in text.lines() {
        let line = line.trim();
        // known: property=<id> sig=<signature> <text>
        if let Some(rest) = line.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().and_then(|s| s.strip_prefix("property="));
            let s = it.next().and_then(|s| s.strip_prefix("sig="));
            if let (Some(p), Some(s)) = (p, s) {
                if p == prop {
                    v.push(KnownFinding {
                        prop: p.to_string(),
                        sig: s.to_string(),
                        text: it.next().unwrap_or("").to_string(),
                    });
                }
            }
        }
    }
    v
}

fn write_replay(prop: &str, part: &str, case: &Value, f: &Fail) -> PathBuf {
    let dir = root().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}.json", prop, part));
    let v = json!({"property": prop, "part": part, "case": case, "sig": f.sig, "message": f.msg});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

fn regressions(prop: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(root().join("regressions").join(prop))
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    v.retain(|p| p.extension().map_or(false, |e| e == "json"));
    v.sort();
    v
}

/// The search itself (child process): result is written as JSON to `out`.
fn worker(prop_id: &str, tier: Tier, seed: u64, scratch: &Path, out_file: &Path) -> i32 {
    install_panic_hook();
    set_scratch(scratch.to_path_buf());
    let prop = match props::get(prop_id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", prop_id);
            return 2;
        }
    };
    let known: Vec<String> = load_known(prop_id).into_iter().map(|k| k.sig).collect();
    let t0 = Instant::now();
    let limit: u64 = std::env::var("FEM2D_VERIF_LIMIT_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(tier.pick(300, 3000));
    let scale: f64 = std::env::var("FEM2D_VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let only = std::env::var("FEM2D_VERIF_PART").ok();
    let deadline = t0 + Duration::from_secs(limit);

    let beats: &'static Vec<AtomicU64> =
        Box::leak(Box::new((0..SHARDS + 1).map(|_| AtomicU64::new(0)).collect()));
    // hang monitor
    {
        let scratch = scratch.to_path_buf();
        std::thread::spawn(move || {
            // per shard: start of the case last seen, ticks it has been running, suspicions
            let mut seen = vec![(0u64, 0u64, 0u32); beats.len()];
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for (i, b) in beats.iter().enumerate() {
                    let s = b.load(Ordering::Relaxed);
                    if s == 0 || s != seen[i].0 {
                        seen[i] = (s, 0, 0);
                        continue;
                    }
                    // counted, not measured: the clock may jump
                    seen[i].1 += 1;
                    if seen[i].1 < 2 * HANG_S {
                        continue;
                    }
                    seen[i].1 = 0;
                    seen[i].2 += 1;
                    let again = scratch.join(format!("again_{}.json", i));
                    let _ = std::fs::copy(scratch.join(format!("journal_{}.json", i)), &again);
                    let alone = Command::new(std::env::current_exe().unwrap())
                        .arg("replay")
                        .arg(&again)
                        .stdout(std::process::Stdio::null())
                        .stderr(std::process::Stdio::null())
                        .spawn();
                    let mut ended = false;
                    if let Ok(mut child) = alone {
                        for _ in 0..2 * HANG_S {
                            std::thread::sleep(Duration::from_millis(500));
                            if matches!(child.try_wait(), Ok(Some(_))) {
                                ended = true;
                                break;
                            }
                        }
                        let _ = child.kill();
                        let _ = child.wait();
                    }
                    if b.load(Ordering::Relaxed) == s && (!ended || seen[i].2 >= 3) {
                        let _ = std::fs::write(scratch.join("hang"), i.to_string());
                        std::process::exit(77);
                    }
                }
            }
        });
    }

    let mut evaluations = 0u64;
    let mut distinct = 0u64;
    let mut rejected = 0u64;
    let mut parts_json = Vec::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut failure: Option<(String, Value, Fail, u64)> = None;
    let mut known_seen: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut regress = 0u64;

    // committed regression cases first
    for p in regressions(prop_id) {
        let v: Value = match std::fs::read_to_string(&p)
            .ok()
            .and_then(|t| serde_json::from_str(&t).ok())
        {
            Some(v) => v,
            None => continue,
        };
        let part_name = v["part"].as_str().unwrap_or("").to_string();
        if let Some(part) = prop.parts.iter().find(|q| q.name() == part_name) {
            let _ = std::fs::write(
                scratch.join(format!("journal_{}.json", SHARDS)),
                v.to_string(),
            );
            beats[SHARDS].store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
            let r = part.replay(&v["case"]);
            beats[SHARDS].store(0, Ordering::Relaxed);
            match r {
                Ok(Ok(())) => regress += 1,
                Ok(Err(f)) => {
                    regress += 1;
                    if known.contains(&f.sig) {
                        let e = known_seen.entry(f.sig.clone()).or_insert((0, f.msg.clone()));
                        e.0 += 1;
                    } else if failure.is_none() {
                        failure = Some((part_name, v["case"].clone(), f, 0));
                    }
                }
                Err(e) => {
                    eprintln!("regression file {:?} does not parse: {}", p, e);
                    return 2;
                }
            }
        }
    }
    let _ = std::fs::write(scratch.join(format!("journal_{}.json", SHARDS)), "");
    evaluations += regress;

    for part in prop.parts.iter() {
        if failure.is_some() {
            break;
        }
        if let Some(o) = &only {
            if o != part.name() {
                continue;
            }
        }
        let pt0 = Instant::now();
        // one case of a giant part takes seconds: those counts stand as they are
        let factor = if part.name() == "giant" { 1 } else { props::factor(prop_id, tier) };
        let total = (part.cases(tier) as f64 * factor as f64 * scale).ceil() as u32;
        let shards = if part.serial() { 1 } else { SHARDS };
        let stop = AtomicBool::new(false);
        let ctx = RunCtx {
            prop: prop_id,
            tier,
            seed,
            deadline,
            stop: &stop,
            known: &known,
            scratch: scratch.to_path_buf(),
            beats,
            t0,
        };
        let mut outs: Vec<ShardOut> = Vec::new();
        std::thread::scope(|s| {
            let mut hs = Vec::new();
            for shard in 0..shards {
                let n = total / shards as u32
                    + if (shard as u32) < total % shards as u32 {
                        1
                    } else {
                        0
                    };
                let ctx = &ctx;
                let part = &**part;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(32 << 20)
                        .spawn_scoped(s, move || part.run_shard(ctx, shard, n))
                        .unwrap(),
                );
            }
            for h in hs {
                outs.push(h.join().expect("shard thread"));
            }
        });
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut nt: HashSet<u64> = HashSet::new();
        let mut ev = 0;
        let mut part_samples = Vec::new();
        for o in outs {
            ev += o.evaluations;
            rejected += o.rejected;
            nt.extend(o.nontrivial);
            for (k, v) in o.labels {
                *labels.entry(k).or_insert(0) += v;
            }
            part_samples.extend(o.samples);
            for (sig, (n, _, msg)) in o.known {
                let e = known_seen.entry(sig).or_insert((0, msg));
                e.0 += n;
            }
            if let Some((v, f, steps)) = o.failure {
                if failure.is_none() {
                    failure = Some((part.name().to_string(), v, f, steps));
                }
            }
        }
        part_samples.sort_by_key(|s| std::cmp::Reverse(s.to_string().len()));
        part_samples.truncate(2);
        samples.extend(part_samples);
        evaluations += ev;
        distinct += nt.len() as u64;
        parts_json.push(json!({
            "part": part.name(), "rule": part.rule(), "evaluations": ev,
            "planned": total, "distinct_nontrivial": nt.len(), "labels": labels,
            "wall_s": pt0.elapsed().as_secs_f64(),
        }));
    }

    let (viol, replay) = match &failure {
        Some((part, case, f, steps)) => {
            let p = write_replay(prop_id, part, case, f);
            (
                1,
                json!({"part": part, "sig": f.sig, "msg": f.msg, "path": p.to_str().unwrap(), "shrink_steps": steps}),
            )
        }
        None => (0, Value::Null),
    };
    let rule = "each case is drawn by the named part's generator (seeded from VERIF_SEED, property, part, shard); distinct_nontrivial counts distinct case texts that meet the part's own non-triviality rule, listed per part".to_string();
    let res = json!({
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": rule,
            "samples": samples, "parts": parts_json, "regression_cases": regress,
            "generator_rejections": rejected,
        },
        "assumptions": prop.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viol, "replay": replay,
        "known": known_seen.iter().map(|(k, (n, m))| json!({"sig": k, "count": n, "msg": m})).collect::<Vec<_>>(),
    });
    std::fs::write(out_file, serde_json::to_string(&res).unwrap()).unwrap();
    0
}

fn make_scratch() -> PathBuf {
    let base = std::env::temp_dir();
    let p = base.join(format!(
        "fem2d_verif_{}_{}",
        std::process::id(),
        std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .unwrap()
            .as_nanos()
    ));
    std::fs::create_dir_all(&p).unwrap();
    p
}

fn check(prop_id: &str, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let scratch = make_scratch();
    let code = check_in(prop_id, tier, seed, &scratch, t0);
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn check_in(prop_id: &str, tier: Tier, seed: u64, scratch: &Path, t0: Instant) -> i32 {
    let out = scratch.join("result.json");
    let exe = std::env::current_exe().unwrap();
    let errf = std::fs::File::create(scratch.join("stderr.txt")).unwrap();
    let outf = std::fs::File::create(scratch.join("stdout.txt")).unwrap();
    let status = Command::new(&exe)
        .args(["worker", prop_id, tier.name(), &seed.to_string()])
        .arg(scratch)
        .arg(&out)
        .stderr(errf)
        .stdout(outf)
        .status();
    let ok = matches!(&status, Ok(s) if s.success());
    let ev_path = root().join("evidence").join(format!("{}.json", prop_id));
    let _ = std::fs::create_dir_all(ev_path.parent().unwrap());
    let known = load_known(prop_id);

    if ok {
        let res: Value =
            serde_json::from_str(&std::fs::read_to_string(&out).unwrap_or_default()).unwrap_or(Value::Null);
        if res.is_null() {
            eprintln!("ERROR: no result from the search");
            return 2;
        }
        let ev = json!({
            "property": prop_id, "tier": tier.name(), "seed": seed, "level": "exploration",
            "coverage": res["coverage"], "assumptions": res["assumptions"],
            "wall_s": t0.elapsed().as_secs_f64(), "violations": res["violations"],
            "known_findings": res["known"],
        });
        std::fs::write(&ev_path, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        let seen: Vec<String> = res["known"]
            .as_array()
            .map(|a| a.iter().map(|x| x["sig"].as_str().unwrap_or("").to_string()).collect())
            .unwrap_or_default();
        for k in &known {
            if seen.contains(&k.sig) {
                println!("KNOWN-FINDING: property={} {}", k.prop, k.text);
            }
        }
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {:.1} s",
            prop_id,
            tier.name(),
            res["coverage"]["evaluations"],
            res["coverage"]["distinct_nontrivial"],
            t0.elapsed().as_secs_f64()
        );
        if res["violations"].as_u64() != Some(0) {
            let r = &res["replay"];
            println!("{} [{}] {}", r["part"].as_str().unwrap_or(""), r["sig"].as_str().unwrap_or(""), r["msg"].as_str().unwrap_or(""));
            println!("VIOLATION property={} replay={}", prop_id, r["path"].as_str().unwrap_or(""));
            return 1;
        }
        return 0;
    }

    // the search process died or hung: find the case it was running
    let stderr = std::fs::read_to_string(scratch.join("stderr.txt")).unwrap_or_default();
    let hang = std::fs::read_to_string(scratch.join("hang")).ok();
    for shard in 0..=SHARDS {
        if let Some(h) = &hang {
            if h.trim() != shard.to_string() {
                continue;
            }
        }
        let jp = scratch.join(format!("journal_{}.json", shard));
        let text = match std::fs::read_to_string(&jp) {
            Ok(t) if !t.trim().is_empty() => t,
            _ => continue,
        };
        let v: Value = match serde_json::from_str(&text) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let bad = if hang.is_some() {
            true
        } else {
            match Command::new(&exe).arg("replay").arg(&jp).output() {
                Ok(o) => o.status.code().is_none(), // ended by a signal again
                Err(_) => false,
            }
        };
        if bad {
            let f = Fail {
                sig: if hang.is_some() { "hang" } else { "crash" }.to_string(),
                msg: format!("the code under test {} on this case", if hang.is_some() { "did not return" } else { "ended the process" }),
            };
            let p = write_replay(prop_id, v["part"].as_str().unwrap_or(""), &v["case"], &f);
            let ev = json!({
                "property": prop_id, "tier": tier.name(), "seed": seed, "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended at a case that crashed or hung", "samples": [v]},
                "wall_s": t0.elapsed().as_secs_f64(), "violations": 1,
            });
            let _ = std::fs::write(&ev_path, serde_json::to_string_pretty(&ev).unwrap());
            println!("{}", f.msg);
            println!("VIOLATION property={} replay={}", prop_id, p.display());
            return 1;
        }
    }
    eprintln!("ERROR: the search process ended abnormally: {:?}\n{}", status, stderr);
    2
}

fn replay(path: &str) -> i32 {
    install_panic_hook();
    let scratch = make_scratch();
    set_scratch(scratch.clone());
    let code = (|| {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
        let id = v["property"].as_str().unwrap();
        let prop = props::get(id).expect("property");
        let part = prop
            .parts
            .iter()
            .find(|p| p.name() == v["part"].as_str().unwrap_or(""))
            .expect("part");
        match part.replay(&v["case"]) {
            Ok(Ok(())) => {
                println!("holds");
                0
            }
            Ok(Err(f)) => {
                println!("[{}] {}", f.sig, f.msg);
                if load_known(id).iter().any(|k| k.sig == f.sig) {
                    println!("KNOWN-FINDING: property={} {}", id, f.sig);
                    0
                } else {
                    println!("VIOLATION property={} replay={}", id, path);
                    1
                }
            }
            Err(e) => {
                eprintln!("cannot read case: {}", e);
                2
            }
        }
    })();
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if Path::new(&a[0]).file_name().map_or(false, |n| n == "mpiexec") {
        std::process::exit(props::slepc::fake_mpiexec(&a[1..]));
    }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = match a.get(3).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1);
            check(&a[2], tier, seed)
        }
        Some("worker") => {
            let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
            worker(&a[2], tier, a[4].parse().unwrap(), Path::new(&a[5]), Path::new(&a[6]))
        }
        Some("replay") => replay(&a[2]),
        Some("list") => {
            for id in props::ids() {
                println!("{}", id);
            }
            0
        }
        _ => {
            eprintln!("usage: check PROP [quick|thorough] [SEED] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
