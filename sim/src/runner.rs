//! Seeded search over runs, in worker processes; minimisation; replay files;
//! determinism re-check; evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};

use crate::ctx::{catch, Caught, Counters, Ctx, Violation};
use crate::scen;
use crate::tape::{fnv, mix, Tape};

pub const HANG_S: u64 = 75;

fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(seed, fnv(prop.as_bytes())), index)
}

pub struct RunResult {
    pub v: Option<Violation>,
    pub ctx: Ctx,
}

pub fn run_tape(prop: &str, tape: Tape, thorough: bool, keep: bool) -> RunResult {
    crate::toy::set_q(crate::toy::Q61);
    crate::clock::start();
    let mut ctx = Ctx::new(tape, thorough, keep);
    let r = catch(|| scen::run(prop, &mut ctx));
    let v = match r {
        Caught::Ok(Ok(())) => None,
        Caught::Ok(Err(v)) => Some(v),
        Caught::Injected(m) => Some(Violation { class: "harness".into(), msg: format!("stray injected panic: {m}") }),
        // a panic that no wrapper expected: the harness's own code or library
        // code called outside a wrapper
        Caught::Panic(m) => {
            let class = if m.contains(".rs") && scen::is_harness_file(&m) { "harness" } else { "panic" };
            Some(Violation { class: class.into(), msg: m })
        }
    };
    crate::toy::clear_force();
    for _ in 0..crate::clock::reads() {
        ctx.probe("clock-read-in-virtual-time");
    }
    if let Some(v) = &v {
        let m = v.msg.clone();
        let c = v.class.clone();
        ctx.ev("VIOLATION", || format!("{c}: {m}"));
    }
    RunResult { v, ctx }
}

pub fn run_index(prop: &str, seed: u64, index: u64, thorough: bool, keep: bool) -> RunResult {
    run_tape(prop, Tape::fresh(run_seed(seed, prop, index)), thorough, keep)
}

// ------------------------------------------------------------- watchdog ----

static RUN_STARTED: AtomicU64 = AtomicU64::new(0);
static RUN_INDEX: AtomicU64 = AtomicU64::new(0);

fn watchdog(out: PathBuf, t0: Instant) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let s = RUN_STARTED.load(Ordering::Relaxed);
        if s != 0 && t0.elapsed().as_secs() > s + HANG_S {
            let rep = WorkerReport {
                violation: Some(Found {
                    index: RUN_INDEX.load(Ordering::Relaxed),
                    class: "hang".into(),
                    msg: format!("a run did not end within {HANG_S} s of real time"),
                    tape: vec![],
                    trace: vec![],
                }),
                ..Default::default()
            };
            let _ = std::fs::write(&out, serde_json::to_vec(&rep).unwrap());
            std::process::exit(3);
        }
    });
}

// --------------------------------------------------------------- worker ----

#[derive(Serialize, Deserialize, Clone, Default)]
pub struct Found {
    pub index: u64,
    pub class: String,
    pub msg: String,
    pub tape: Vec<u64>,
    pub trace: Vec<String>,
}

#[derive(Serialize, Deserialize, Default)]
pub struct WorkerReport {
    pub runs: u64,
    pub trivial: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub calls: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    pub labels: BTreeMap<String, u64>,
    pub sim_us: u64,
    pub events: u64,
    pub digests: Vec<(u64, u64)>,
    pub uniq_digest: Vec<u64>,
    pub uniq_shape: Vec<u64>,
    pub samples: Vec<Vec<String>>,
    pub violation: Option<Found>,
    pub timed_out: bool,
    pub ring: Vec<u64>,
}

pub struct WorkerArgs {
    pub prop: String,
    pub seed: u64,
    pub worker: u64,
    pub workers: u64,
    pub runs: u64,
    pub deadline_s: u64,
    pub thorough: bool,
    pub stride: u64,
    pub out: PathBuf,
}

pub fn worker(a: &WorkerArgs) -> i32 {
    let t0 = Instant::now();
    watchdog(a.out.clone(), t0);
    let mut rep = WorkerReport::default();
    let mut tot = Counters::default();
    let mut dig = BTreeSet::new();
    let mut shp = BTreeSet::new();
    // where this process is, in case it does not survive the run
    let at = std::fs::File::create(a.out.with_extension("at")).expect("progress file");
    let mut i = a.worker;
    while i < a.runs {
        if t0.elapsed().as_secs() >= a.deadline_s {
            rep.timed_out = true;
            break;
        }
        if i % a.stride == 0 {
            let _ = std::os::unix::fs::FileExt::write_all_at(&at, &i.to_le_bytes(), 0);
            RUN_INDEX.store(i, Ordering::Relaxed);
            RUN_STARTED.store(t0.elapsed().as_secs().max(1), Ordering::Relaxed);
            let keep = a.worker == 0 && rep.samples.len() < 3;
            let r = run_index(&a.prop, a.seed, i, a.thorough, keep);
            rep.runs += 1;
            tot.merge(&r.ctx.c);
            *rep.labels.entry(r.ctx.label.clone()).or_default() += 1;
            let nontrivial = r.ctx.c.checks.values().sum::<u64>() > 0
                && (r.ctx.c.faults.values().sum::<u64>() + r.ctx.c.probes.values().sum::<u64>()) > 0;
            if nontrivial {
                dig.insert(r.ctx.digest);
                shp.insert(r.ctx.shape);
            } else {
                rep.trivial += 1;
            }
            if i % 16 == 0 {
                rep.digests.push((i, r.ctx.digest));
            }
            if keep {
                let mut s = vec![format!("run {i} seed {} {}", a.seed, r.ctx.label)];
                s.extend(r.ctx.trace.iter().take(30).map(|l| l.chars().take(160).collect::<String>()));
                rep.samples.push(s);
            }
            if let Some(v) = r.v {
                rep.violation = Some(Found { index: i, class: v.class, msg: v.msg, tape: r.ctx.tape.rec, trace: r.ctx.trace });
                rep.ring = (a.worker..=i).step_by(a.workers as usize).filter(|x| x % a.stride == 0).collect();
                break;
            }
        }
        i += a.workers;
    }
    RUN_STARTED.store(0, Ordering::Relaxed);
    rep.faults = tot.faults;
    rep.probes = tot.probes;
    rep.calls = tot.calls;
    rep.checks = tot.checks;
    rep.sim_us = tot.sim_us;
    rep.events = tot.events;
    rep.uniq_digest = dig.into_iter().collect();
    rep.uniq_shape = shp.into_iter().collect();
    std::fs::write(&a.out, serde_json::to_vec(&rep).unwrap()).unwrap();
    0
}

fn spawn_workers(prop: &str, seed: u64, workers: u64, runs: u64, deadline: u64, thorough: bool, stride: u64, dir: &Path, tag: &str) -> Vec<WorkerReport> {
    let exe = std::env::current_exe().unwrap();
    let mut kids = Vec::new();
    for w in 0..workers {
        let out = dir.join(format!("{tag}-{w}.json"));
        let _ = std::fs::remove_file(&out);
        let k = Command::new(&exe)
            .args(["worker", prop, &seed.to_string(), &w.to_string(), &workers.to_string(), &runs.to_string(), &deadline.to_string(),
                if thorough { "1" } else { "0" }, &stride.to_string()])
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::inherit())
            .stderr(Stdio::inherit())
            .spawn()
            .expect("spawn worker");
        kids.push((k, out));
    }
    let mut reps = Vec::new();
    for (w, (mut k, out)) in (0u64..).zip(kids) {
        let st = k.wait().expect("wait");
        match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<WorkerReport>(&b).ok()) {
            Some(r) => reps.push(r),
            None => {
                // the worker died (abort, stack overflow, memory)
                let at = std::fs::read(out.with_extension("at")).ok().and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
                let mut r = WorkerReport::default();
                r.violation = Some(Found { index: at.unwrap_or(u64::MAX), class: "process-died".into(), msg: format!("the process running run {at:?} ended with {st}"), ..Default::default() });
                if let Some(i) = at {
                    r.ring = (w..=i).step_by(workers as usize).filter(|x| x % stride == 0).collect();
                }
                reps.push(r);
            }
        }
    }
    reps
}

// --------------------------------------------------------------- replay ----

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub thorough: bool,
    /// "tape": replay `tape`; "sequence": run `indices` in order, the last one
    /// fails; "determinism": run `indices` in this order and reversed, digests
    /// must agree but do not
    pub mode: String,
    pub class: String,
    pub message: String,
    #[serde(default)]
    pub tape: Vec<u64>,
    #[serde(default)]
    pub indices: Vec<u64>,
    #[serde(default)]
    pub trace: Vec<String>,
    /// constants of the code under test when this was found
    #[serde(default)]
    pub dict: Option<crate::dict::Dict>,
}

/// Returns the violation the replay reproduces, if any.
pub fn replay(r: &Replay, verbose: bool) -> Option<(String, String, Vec<String>)> {
    match r.mode.as_str() {
        "tape" => {
            let x = run_tape(&r.property, Tape::replay(r.tape.clone()), r.thorough, true);
            if verbose {
                for l in &x.ctx.trace {
                    println!("{l}");
                }
            }
            x.v.map(|v| (v.class, v.msg, x.ctx.trace))
        }
        "sequence" => {
            for i in &r.indices {
                let x = run_index(&r.property, r.seed, *i, r.thorough, true);
                if let Some(v) = x.v {
                    if verbose {
                        for l in &x.ctx.trace {
                            println!("{l}");
                        }
                    }
                    return Some((v.class, v.msg, x.ctx.trace));
                }
            }
            None
        }
        "determinism" => {
            let f = |v: &[u64]| -> BTreeMap<u64, u64> { v.iter().map(|i| (*i, run_index(&r.property, r.seed, *i, r.thorough, false).ctx.digest)).collect() };
            let a = f(&r.indices);
            let rev: Vec<u64> = r.indices.iter().rev().copied().collect();
            let b = f(&rev);
            let d: Vec<u64> = a.iter().filter(|(k, v)| b[*k] != **v).map(|(k, _)| *k).collect();
            (!d.is_empty()).then(|| ("nondeterminism".to_string(), format!("runs {d:?} gave different results in another order"), vec![]))
        }
        m => {
            eprintln!("unknown replay mode {m}");
            std::process::exit(2)
        }
    }
}

fn shrink(prop: &str, tape: Vec<u64>, class: &str, thorough: bool) -> Vec<u64> {
    let t0 = Instant::now();
    let fails = |t: &[u64]| -> Option<Vec<u64>> {
        let x = run_tape(prop, Tape::replay(t.to_vec()), thorough, false);
        match x.v {
            Some(v) if v.class == class => {
                // canonical form: what was really drawn
                let mut rec = x.ctx.tape.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some(rec)
            }
            _ => None,
        }
    };
    let Some(mut best) = fails(&tape) else { return tape };
    let budget = Duration::from_secs(60);
    let better = |a: &[u64], b: &[u64]| (a.len(), a.iter().filter(|x| **x != 0).count(), a.iter().map(|x| 64 - x.leading_zeros()).sum::<u32>())
        < (b.len(), b.iter().filter(|x| **x != 0).count(), b.iter().map(|x| 64 - x.leading_zeros()).sum::<u32>());
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                match fails(&c) {
                    Some(r) if better(&r, &best) => {
                        best = r;
                        progress = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                if c[i..e].iter().any(|x| *x != 0) {
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(r) = fails(&c) {
                        if better(&r, &best) {
                            best = r;
                            progress = true;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // smaller values
        for i in 0..best.len() {
            for f in [|x: u64| x / 2, |x: u64| x.saturating_sub(1), |x: u64| x & 0xff] {
                if i >= best.len() || t0.elapsed() >= budget {
                    break;
                }
                let mut c = best.clone();
                let n = f(c[i]);
                if n < c[i] {
                    c[i] = n;
                    if let Some(r) = fails(&c) {
                        if better(&r, &best) {
                            best = r;
                            progress = true;
                        }
                    }
                }
            }
        }
    }
    best
}

pub fn shrink_file(path: &Path) -> i32 {
    let mut r: Replay = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    r.tape = shrink(&r.property, r.tape, &r.class, r.thorough);
    if let Some((c, m, t)) = replay(&r, false) {
        r.class = c;
        r.message = m;
        r.trace = t;
    }
    std::fs::write(path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
    0
}

/// Replays a file in a fresh process; true if it fails with the same class.
fn fresh_replay(path: &Path, class: &str) -> bool {
    let exe = std::env::current_exe().unwrap();
    let o = Command::new(exe).arg("replay").arg(path).stdin(Stdio::null()).output().expect("replay");
    let s = String::from_utf8_lossy(&o.stdout);
    if class == "process-died" {
        return o.status.code().is_none() || o.status.code().unwrap() > 100;
    }
    o.status.code() == Some(1) && s.lines().any(|l| l.starts_with("REPRODUCED ") && l[11..].starts_with(class))
}

// ---------------------------------------------------------------- check ----

pub struct CheckArgs {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub verif: PathBuf,
}

#[derive(Deserialize, Default)]
struct KnownLine {
    property: String,
    class: String,
    /// substring of the message that identifies the failing input/call site
    message_contains: String,
}

/// Machine-readable entries: lines `known: {json}` of KNOWN_FINDINGS.txt
fn known(verif: &Path) -> Vec<(KnownLine, String)> {
    let t = std::fs::read_to_string(verif.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|j| serde_json::from_str::<KnownLine>(j).ok().map(|k| (k, j.to_string())))
        .collect()
}

pub fn check(a: &CheckArgs) -> i32 {
    let t0 = Instant::now();
    let p = scen::plan(&a.prop);
    let scratch = a.verif.join("target").join("sim-scratch").join(format!("{}-{}", a.prop, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let rdir = a.verif.join("replays");
    std::fs::create_dir_all(&rdir).unwrap();

    if let Err(e) = crate::selftest::run() {
        println!("HARNESS-ERROR reference model self-test failed: {e}");
        return 2;
    }

    let workers = 8u64;
    let runs = if a.thorough { p.runs * p.thorough_factor } else { p.runs };
    let deadline = if a.thorough { 660 } else { 330 };
    println!("check {} seed={} runs={} workers={}", a.prop, a.seed, runs, workers);
    let tw = Instant::now();
    let reps = spawn_workers(&a.prop, a.seed, workers, runs, deadline, a.thorough, 1, &scratch, "w");
    let search_s = tw.elapsed().as_secs_f64();

    let mut tot = WorkerReport::default();
    let mut dig = BTreeSet::new();
    let mut shp = BTreeSet::new();
    let mut digests = BTreeMap::new();
    let mut found: Vec<(Found, Vec<u64>)> = Vec::new();
    for r in &reps {
        tot.runs += r.runs;
        tot.trivial += r.trivial;
        tot.sim_us += r.sim_us;
        tot.events += r.events;
        tot.timed_out |= r.timed_out;
        for (x, y) in [(&mut tot.faults, &r.faults), (&mut tot.probes, &r.probes), (&mut tot.calls, &r.calls), (&mut tot.checks, &r.checks), (&mut tot.labels, &r.labels)] {
            for (k, v) in y {
                *x.entry(k.clone()).or_default() += v;
            }
        }
        dig.extend(r.uniq_digest.iter().copied());
        shp.extend(r.uniq_shape.iter().copied());
        digests.extend(r.digests.iter().copied());
        tot.samples.extend(r.samples.iter().cloned());
        if let Some(f) = &r.violation {
            found.push((f.clone(), r.ring.clone()));
        }
    }
    found.sort_by_key(|(f, _)| (f.class == "harness", f.index));

    // determinism: a sample again, other worker count, other order of work
    let mut det_checked = 0u64;
    let mut det_bad: Vec<u64> = Vec::new();
    if found.is_empty() {
        let stride = if a.thorough { 256 } else { 32 };
        let reps2 = spawn_workers(&a.prop, a.seed, 5, runs.min(tot.runs), 120, a.thorough, stride, &scratch, "d");
        for r in &reps2 {
            for (i, d) in &r.digests {
                if let Some(x) = digests.get(i) {
                    det_checked += 1;
                    if x != d {
                        det_bad.push(*i);
                    }
                }
            }
        }
    }

    let mut exit = 0;
    let mut nviol = 0;
    let mut vline = None;

    // the first that reproduces is reported; a few are tried
    for (f, ring) in found.iter().take(3) {
        if vline.is_some() {
            break;
        }
        let base = |mode: &str| Replay {
            property: a.prop.clone(),
            seed: a.seed,
            index: f.index,
            thorough: a.thorough,
            mode: mode.into(),
            class: f.class.clone(),
            message: f.msg.clone(),
            tape: vec![],
            indices: vec![],
            trace: f.trace.clone(),
            dict: Some(crate::dict::dict().clone()),
        };
        if f.class == "harness" {
            println!("HARNESS-ERROR run {}: {}", f.index, f.msg);
            exit = 2;
        } else if f.class == "process-died" || f.class == "hang" {
            let path = rdir.join(format!("{}-{}-{}.json", a.prop, a.seed, f.index));
            let mut ok = false;
            for ix in [vec![f.index], ring.clone()] {
                let mut r = base("sequence");
                r.indices = ix;
                std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
                if f.index != u64::MAX && fresh_replay(&path, &f.class) {
                    ok = true;
                    break;
                }
                if f.class == "hang" {
                    break;
                }
            }
            if ok {
                vline = Some((path, f.class.clone(), f.msg.clone()));
            } else {
                println!("HARNESS-ERROR {} (not reproducible)", f.msg);
                exit = 2;
            }
        } else {
            let path = rdir.join(format!("{}-{}-{}.json", a.prop, a.seed, f.index));
            let mut r = base("tape");
            r.tape = f.tape.clone();
            std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
            let mut ok = false;
            if fresh_replay(&path, &f.class) {
                let bak = rdir.join(format!("{}-{}-{}.full.json", a.prop, a.seed, f.index));
                std::fs::copy(&path, &bak).unwrap();
                let exe = std::env::current_exe().unwrap();
                let done = match Command::new(exe).arg("shrink").arg(&path).stdin(Stdio::null()).spawn() {
                    Ok(mut k) => {
                        let ts = Instant::now();
                        loop {
                            match k.try_wait() {
                                Ok(Some(st)) => break st.success(),
                                Ok(None) if ts.elapsed().as_secs() < 110 => std::thread::sleep(Duration::from_millis(50)),
                                _ => {
                                    // a candidate that never ends
                                    let _ = k.kill();
                                    let _ = k.wait();
                                    break false;
                                }
                            }
                        }
                    }
                    Err(_) => false,
                };
                if done && fresh_replay(&path, &f.class) {
                    ok = true;
                    let _ = std::fs::remove_file(&bak);
                } else {
                    std::fs::rename(&bak, &path).unwrap();
                    ok = true;
                }
            }
            if !ok {
                // depends on what the same process did before
                let mut r = base("sequence");
                r.indices = ring.clone();
                std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
                if fresh_replay(&path, &f.class) {
                    // shorten the history
                    let mut ix = r.indices.clone();
                    let mut size = ix.len() / 2;
                    let tshr = Instant::now();
                    while size >= 1 && tshr.elapsed().as_secs() < 60 {
                        let mut i = 0;
                        while i + size < ix.len() && tshr.elapsed().as_secs() < 60 {
                            let mut c = ix.clone();
                            c.drain(i..i + size);
                            let mut r2 = r.clone();
                            r2.indices = c.clone();
                            std::fs::write(&path, serde_json::to_vec_pretty(&r2).unwrap()).unwrap();
                            if fresh_replay(&path, &f.class) {
                                ix = c;
                            } else {
                                i += size;
                            }
                        }
                        size /= 2;
                    }
                    r.indices = ix;
                    std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
                    ok = true;
                }
            }
            if !ok {
                println!("note: violation seen in the search did not reproduce in isolation: {}: {}", f.class, f.msg);
                // keep the sequence file: the library itself is not deterministic
                if scen::nondeterminism_is_violation(&a.prop) {
                    vline = Some((path, "nondeterminism".into(), f.msg.clone()));
                } else {
                    println!("HARNESS-ERROR violation not reproducible");
                    exit = 2;
                }
            } else {
                let r: Replay = serde_json::from_slice(&std::fs::read(&path).unwrap()).unwrap();
                vline = Some((path, r.class, r.message));
            }
        }
    }
    if found.is_empty() && !det_bad.is_empty() {
        if scen::nondeterminism_is_violation(&a.prop) {
            let path = rdir.join(format!("{}-{}-nondet.json", a.prop, a.seed));
            let r = Replay {
                property: a.prop.clone(),
                seed: a.seed,
                index: det_bad[0],
                thorough: a.thorough,
                mode: "determinism".into(),
                class: "nondeterminism".into(),
                message: format!("runs {:?} differ between processes", &det_bad[..det_bad.len().min(8)]),
                tape: vec![],
                indices: digests.keys().copied().take(200).collect(),
                dict: Some(crate::dict::dict().clone()),
                trace: vec![],
            };
            std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
            vline = Some((path, r.class, r.message));
        } else {
            println!("HARNESS-ERROR runs are not deterministic: {det_bad:?}");
            exit = 2;
        }
    }

    if let Some((path, class, msg)) = vline {
        nviol = 1;
        let k = known(&a.verif);
        if let Some((_, j)) = k.iter().find(|(k, _)| k.property == a.prop && k.class == class && msg.contains(&k.message_contains)) {
            println!("KNOWN-FINDING: property={} {}", a.prop, j);
        } else {
            println!("class: {class}");
            println!("what:  {msg}");
            println!("VIOLATION property={} replay={}", a.prop, path.display());
            exit = 1;
        }
    }

    // unreached probes are reported, not hidden
    let missing: Vec<&str> = p.probes.iter().filter(|x| !tot.probes.contains_key(**x) && !tot.faults.contains_key(**x)).copied().collect();
    let wall = t0.elapsed().as_secs_f64();
    let calls: u64 = tot.calls.values().sum();
    let checks: u64 = tot.checks.values().sum();
    let ev = serde_json::json!({
        "property": a.prop,
        "tier": if a.thorough { "thorough" } else { "quick" },
        "seed": a.seed,
        "level": "exploration",
        "violations": nviol,
        "wall_s": wall,
        "assumptions": p.assumptions,
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": dig.len(),
            "rule": p.rule,
            "samples": tot.samples,
            "planned_runs": runs,
            "stopped_by_time": tot.timed_out,
            "trivial_runs": tot.trivial,
            "simulated_runs_per_hour": (tot.runs as f64 / search_s * 3600.0) as u64,
            "seeds": "one seed per run: seeds per hour equal simulated runs per hour",
            "simulated_seconds": tot.sim_us as f64 / 1e6,
            "simulated_events": tot.events,
            "faults_fired": tot.faults,
            "probes_reached": tot.probes,
            "probes_never_reached": missing,
            "library_calls": calls,
            "library_calls_by_kind": tot.calls,
            "oracle_checks": checks,
            "oracle_checks_by_kind": tot.checks,
            "runs_by_configuration": tot.labels,
            "distinct_interleavings": shp.len(),
            "distinct_interleavings_measure": "distinct hashes of the ordered sequence of event kinds (deliveries, crashes, faults, switches, calls) of a run",
            "determinism_rechecked_runs": det_checked,
            "determinism_mismatches": det_bad.len(),
            "real_components": p.real,
            "stub_components": p.stub,
        }
    });
    let edir = a.verif.join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    let mut f = std::fs::File::create(edir.join(format!("{}.json", a.prop))).unwrap();
    f.write_all(&serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&scratch);
    println!(
        "{}: {} runs ({} distinct), {} oracle checks, {} faults, {:.1} s{}",
        a.prop,
        tot.runs,
        dig.len(),
        checks,
        tot.faults.values().sum::<u64>(),
        wall,
        if missing.is_empty() { String::new() } else { format!(", probes not reached: {missing:?}") }
    );
    exit
}
