//! Search over seeds in worker processes, minimisation of failures, replay, evidence.

use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::exec::{execute, generate, Kind, Plan, Step};
use crate::rng::mix;
use crate::sim::{Sim, Stats};

pub const CHECKS: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22",
];
/// Other builds of the simulator with the code under test: the set of features (see Cargo.toml) and the profile.
const BUILDS: [(&str, &str); 3] = [("common", "shipped"), ("least", "small"), ("other", "checked")];
const BUILD_MATTERS: &str = "build-matters:";
/// Runs done by one process one after another.
const BATCH: u64 = 8;
const WORKERS: usize = 8;
/// Wall-clock limit for a single simulated run: it takes a fraction of a second, a few seconds for the largest.
const RUN_LIMIT: Duration = Duration::from_secs(180);
const STACK: usize = 64 << 20;

/// A failed run.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Failure {
    pub class: String,
    pub props: Vec<String>,
    pub text: String,
}

/// What is needed to see a violation again.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub check: String,
    pub class: String,
    pub text: String,
    pub seed: u64,
    pub index: u64,
    /// Plans executed one after another in one process, of which the last one fails.
    pub plans: Vec<Plan>,
    #[serde(default)]
    pub trace: Vec<String>,
}

#[derive(Serialize, Deserialize)]
enum Line {
    Start(u64),
    Run { index: u64, digest: u64, failures: Vec<Failure>, known: BTreeMap<String, String> },
    Stats { stats: Box<Stats>, states: Vec<u64>, interleavings: Vec<u64>, samples: Vec<String> },
}

/// Checks the largest streams add nothing to.
const SMALL: [&str; 7] = ["C10", "C11", "C12", "C14", "C15", "C21", "C22"];

pub fn plan_for(check: &str, seed: u64, index: u64, deep: bool) -> Plan {
    let tag = check.bytes().fold(0u64, |h, b| mix(h ^ b as u64));
    let mut plan = generate(check, mix(mix(seed) ^ mix(tag ^ index.wrapping_mul(0x9E37_79B9))), deep);
    // The largest streams take seconds, so there is one of each
    if !SMALL.contains(&check) {
        let kind = match index {
            4 => Some(5),
            12 => Some(6),
            _ => None,
        };
        if let Some(kind) = kind {
            plan.steps = vec![Step { t: 1000, r: mix(seed), k: Kind::Large { kind } }];
            plan.finish = false;
        }
    }
    plan
}

fn run_plan(check: &str, plan: &Plan, trace: bool) -> Sim {
    let mut sim = Sim::new(check, trace);
    // Not all builds have the textual form
    crate::kit::set_texts(check != "C20");
    // The stack must not depend on where the run takes place
    std::thread::scope(|s| {
        let sim = &mut sim;
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                crate::env::enter(plan.seed);
                execute(plan, sim, true)
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|e| {
                let text = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()))
                    .unwrap_or_default();
                eprintln!("HARNESS PANIC: {text}");
                std::process::exit(3);
            });
    });
    sim
}

fn failures(sim: &Sim) -> Vec<Failure> {
    sim.findings
        .iter()
        .map(|f| Failure {
            class: f.class.clone(),
            props: f.props.iter().map(|p| (*p).to_owned()).collect::<BTreeSet<_>>().into_iter().collect(),
            text: f.text.clone(),
        })
        .collect()
}

fn emit(line: &Line) {
    let mut out = std::io::stdout().lock();
    let _ = writeln!(out, "{}", serde_json::to_string(line).expect("json"));
    let _ = out.flush();
}

fn merge(into: &mut Stats, s: Stats) {
    into.evals += s.evals;
    into.records += s.records;
    into.nontrivial += s.nontrivial;
    into.clean += s.clean;
    into.refused += s.refused;
    into.stream_failed += s.stream_failed;
    into.crashed += s.crashed;
    into.payments += s.payments;
    into.delivered += s.delivered;
    into.sim_ms += s.sim_ms;
    into.dep_panics += s.dep_panics;
    for (a, b) in [
        (&mut into.faults, s.faults),
        (&mut into.scenarios, s.scenarios),
        (&mut into.ends, s.ends),
        (&mut into.checks, s.checks),
    ] {
        for (k, v) in b {
            *a.entry(k).or_default() += v;
        }
    }
    into.states.extend(s.states);
    into.interleavings.extend(s.interleavings);
    for x in s.samples {
        if into.samples.len() < 8 {
            into.samples.push(x);
        }
    }
}

/// Executes some runs in this process.
pub fn worker(check: &str, seed: u64, first: u64, count: u64, deep: bool) -> i32 {
    let mut stats = Stats::default();
    for index in first..first + count {
        emit(&Line::Start(index));
        let plan = plan_for(check, seed, index, deep);
        let sim = run_plan(check, &plan, false);
        let own = sim.own();
        emit(&Line::Run {
            index,
            digest: sim.digest,
            failures: failures(&sim),
            known: sim.known.iter().map(|(k, v)| ((*k).to_owned(), v.clone())).collect(),
        });
        merge(&mut stats, sim.stats);
        if own {
            break;
        }
    }
    let states = std::mem::take(&mut stats.states).into_iter().collect();
    let interleavings = std::mem::take(&mut stats.interleavings).into_iter().collect();
    let samples = std::mem::take(&mut stats.samples);
    emit(&Line::Stats { stats: Box::new(stats), states, interleavings, samples });
    0
}

/// Executes the plans given on the standard input; the result is on the standard output.
pub fn plans() -> i32 {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("stdin");
    let r: Replay = serde_json::from_str(&text).expect("replay");
    for (no, plan) in r.plans.iter().enumerate() {
        let last = no + 1 == r.plans.len();
        if last {
            emit(&Line::Start(no as u64));
        }
        let sim = run_plan(&r.check, plan, false);
        if last {
            emit(&Line::Run { index: no as u64, digest: sim.digest, failures: failures(&sim), known: BTreeMap::new() });
        }
    }
    0
}

pub fn case() -> i32 {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("stdin");
    let case = serde_json::from_str(&text).expect("case");
    let res = crate::sim::run_case(&case);
    println!("{}", serde_json::to_string(&res).expect("json"));
    0
}

pub fn known() -> i32 {
    println!("F1: {:?}", crate::known::f1(1));
    println!("F2: {:?}", crate::known::f2(1));
    println!("F3: {:?}", crate::known::f3(1));
    0
}

pub fn show(check: &str, seed: u64, index: u64, deep: bool) -> i32 {
    let plan = plan_for(check, seed, index, deep);
    let sim = run_plan(check, &plan, true);
    for l in sim.trace.iter().flatten() {
        println!("{l}");
    }
    println!("digest {:016x}, {} evaluations, {} findings", sim.digest, sim.stats.evals, sim.findings.len());
    0
}

// ---------------------------------------------------------------------------------------------- subprocesses

fn me() -> Command { program(&std::env::current_exe().expect("own path")) }

fn program(path: &Path) -> Command {
    let mut c = Command::new(path);
    c.env("RUST_BACKTRACE", "0");
    c
}

/// The executable of another build.
fn other_build(features: &str, profile: &str) -> PathBuf {
    let own = std::env::current_exe().expect("own path");
    let target = own.ancestors().nth(2).expect("target directory");
    target.join(features).join(profile).join("rgbsim")
}

fn build_of(class: &str) -> Option<PathBuf> {
    let features = class.strip_prefix(BUILD_MATTERS)?;
    BUILDS.iter().find(|(f, _)| *f == features).map(|(f, p)| other_build(f, p))
}

enum Got {
    Line(Line),
    Eof,
}

fn reader(child: &mut Child) -> Receiver<Got> {
    let out = child.stdout.take().expect("stdout");
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if let Ok(l) = serde_json::from_str::<Line>(&l) {
                let _ = tx.send(Got::Line(l));
            }
        }
        let _ = tx.send(Got::Eof);
    });
    rx
}

#[derive(Clone, Debug)]
enum Ended {
    Fine,
    Hang,
    Died(String),
    Harness,
    Lost,
}

/// Follows the lines of a process until it ends or is ended.
fn follow(mut child: Child, limit: Duration, mut f: impl FnMut(Line)) -> Ended {
    let rx = reader(&mut child);
    loop {
        match rx.recv_timeout(limit) {
            Ok(Got::Line(l)) => f(l),
            Ok(Got::Eof) => break,
            Err(RecvTimeoutError::Timeout) => {
                let _ = child.kill();
                let _ = child.wait();
                return Ended::Hang;
            }
            Err(RecvTimeoutError::Disconnected) => break,
        }
    }
    match child.wait() {
        Ok(s) if s.success() => Ended::Fine,
        Ok(s) if s.code() == Some(3) => Ended::Harness,
        // No address space for a reservation: says nothing on the code
        Ok(s) if s.code() == Some(4) => Ended::Lost,
        Ok(s) => Ended::Died(s.to_string()),
        Err(e) => Ended::Died(e.to_string()),
    }
}

fn gone(e: &Ended) -> Option<Failure> {
    let (class, text) = match e {
        Ended::Hang => ("hang", format!("an evaluation doesn't end within {} s", RUN_LIMIT.as_secs())),
        Ended::Died(s) => ("abort", format!("an evaluation takes down the process ({s})")),
        _ => return None,
    };
    Some(Failure { class: class.to_owned(), props: vec!["C18".to_owned()], text })
}

/// Executes the plans in a new process; tells the failures of the last one and the digest.
fn attempt(r: &Replay, limit: Duration) -> (Vec<Failure>, u64) { attempt_in(me(), r, limit) }

fn attempt_in(mut program: Command, r: &Replay, limit: Duration) -> (Vec<Failure>, u64) {
    let mut child = program
        .arg("plans")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("new process");
    let mut stdin = child.stdin.take().expect("stdin");
    let text = serde_json::to_string(r).expect("json");
    let feeder = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let mut res = (vec![], 0);
    let mut last = false;
    let ended = follow(child, limit, |l| match l {
        Line::Start(_) => last = true,
        Line::Run { digest, failures, .. } => res = (failures, digest),
        Line::Stats { .. } => {}
    });
    let _ = feeder.join();
    if let (Some(f), true) = (gone(&ended), last) {
        res.0.push(f);
    }
    res
}

/// Executes the plans in this build and in another one.
fn builds_differ(r: &Replay) -> Option<String> {
    let build = build_of(&r.class)?;
    let (a, b) = (attempt(r, RUN_LIMIT), attempt_in(program(&build), r, RUN_LIMIT));
    (a.1 != b.1).then(|| differing_builds(&r.class, a.1, b.1, &b.0))
}

fn differing_builds(class: &str, here: u64, there: u64, failures: &[Failure]) -> String {
    let mut text = format!(
        "the same run ends with digest {here:016x} in the build with all features, and with {there:016x} in the build \"{}\"",
        class.trim_start_matches(BUILD_MATTERS)
    );
    if let Some(f) = failures.first() {
        text += &format!(", where: {}: {}", f.class, f.text);
    }
    text
}

fn reproduces(r: &Replay) -> Option<String> {
    if r.class.starts_with(BUILD_MATTERS) {
        return builds_differ(r);
    }
    let limit = if r.class == "hang" { Duration::from_secs(20) } else { RUN_LIMIT };
    attempt(r, limit)
        .0
        .into_iter()
        .find(|f| f.class == r.class && f.props.contains(&r.check))
        .map(|f| f.text)
}

/// Makes the failing run as small as possible, while it still fails the same way.
fn minimise(mut r: Replay, deadline: Instant) -> (Replay, usize) {
    let mut tries = 0;
    let ok = |r: &Replay, tries: &mut usize| {
        *tries += 1;
        Instant::now() < deadline && reproduces(r).is_some()
    };
    // Preceding runs of the process
    if r.plans.len() > 1 {
        let mut alone = r.clone();
        alone.plans.drain(..r.plans.len() - 1);
        if ok(&alone, &mut tries) {
            r = alone;
        } else {
            let mut i = 0;
            while i + 1 < r.plans.len() {
                let mut less = r.clone();
                less.plans.remove(i);
                if ok(&less, &mut tries) {
                    r = less;
                } else {
                    i += 1;
                }
            }
        }
    }
    for p in 0..r.plans.len() {
        let mut less = r.clone();
        less.plans[p].finish = false;
        if r.plans[p].finish && ok(&less, &mut tries) {
            r = less;
        }
        // Steps: halves first, then smaller parts
        let mut size = r.plans[p].steps.len().div_ceil(2).max(1);
        while !r.plans[p].steps.is_empty() {
            let mut i = 0;
            let mut changed = false;
            while i < r.plans[p].steps.len() {
                let mut less = r.clone();
                let end = (i + size).min(less.plans[p].steps.len());
                less.plans[p].steps.drain(i..end);
                if ok(&less, &mut tries) {
                    r = less;
                    changed = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                if !changed {
                    break;
                }
            } else {
                size = size.div_ceil(2);
            }
            if Instant::now() >= deadline {
                break;
            }
        }
        // Simpler circumstances
        let simpler: [fn(&mut Plan); 10] = [
            |p| p.cfg.loss = 0,
            |p| p.cfg.dup = 0,
            |p| p.cfg.broken = 0,
            |p| p.cfg.withhold = 0,
            |p| p.cfg.lat = (5, 50),
            |p| p.cfg.sync_every = 0,
            |p| p.cfg.zero_conf = false,
            |p| p.cfg.contracts.truncate(1),
            |p| p.cfg.wallets = 2,
            |p| {
                for c in &mut p.cfg.contracts {
                    c.globals = 0;
                    c.wout = false;
                    c.cells = c.cells.min(2);
                }
            },
        ];
        for f in simpler {
            let mut less = r.clone();
            f(&mut less.plans[p]);
            if less.plans[p] != r.plans[p] && ok(&less, &mut tries) {
                r = less;
            }
        }
    }
    (r, tries)
}

pub fn replay(file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("can't read {file}");
        return 2;
    };
    let r: Replay = match serde_json::from_str(&text) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    println!("replaying {} of {} (seed {}, run {})", r.class, r.check, r.seed, r.index);
    let found = if r.class == "run-not-repeatable" {
        // After its predecessors, alone, and alone again, each time in a new process
        let mut alone = r.clone();
        alone.plans.drain(..r.plans.len() - 1);
        (0..4).find_map(|_| {
            let d = [attempt(&r, RUN_LIMIT).1, attempt(&alone, RUN_LIMIT).1, attempt(&alone, RUN_LIMIT).1];
            println!("digests {d:x?}");
            (d[0] != d[1] || d[1] != d[2]).then(|| r.text.clone())
        })
    } else if r.class == "hang" || r.class == "abort" || r.class.starts_with(BUILD_MATTERS) {
        reproduces(&r)
    } else {
        let mut found = None;
        for (no, plan) in r.plans.iter().enumerate() {
            let last = no + 1 == r.plans.len();
            let sim = run_plan(&r.check, plan, last);
            if last {
                for l in sim.trace.iter().flatten() {
                    println!("{l}");
                }
                println!("digest {:016x}", sim.digest);
                found = failures(&sim)
                    .into_iter()
                    .find(|f| f.class == r.class && f.props.contains(&r.check))
                    .map(|f| f.text);
            }
        }
        found
    };
    match found {
        Some(text) => {
            println!("{}: {text}", r.class);
            println!("VIOLATION property={} replay={file}", r.check);
            1
        }
        None => {
            println!("the violation does not occur");
            0
        }
    }
}

// ---------------------------------------------------------------------------------------------- search

struct Search {
    next: AtomicUsize,
    stop: AtomicBool,
    total: Mutex<Total>,
}

#[derive(Default)]
struct Total {
    stats: Stats,
    runs: u64,
    digests: BTreeMap<u64, u64>,
    known: BTreeMap<String, String>,
    own: BTreeMap<u64, Failure>,
    others: BTreeMap<String, (u64, String)>,
    harness: Vec<String>,
    lost_runs: u64,
    elsewhere: BTreeMap<String, u64>,
}

fn batch(check: &str, seed: u64, first: u64, deep: bool, search: &Search) {
    let (seed_arg, first_arg, batch_arg) = (seed.to_string(), first.to_string(), BATCH.to_string());
    let args = ["worker", check, &seed_arg, &first_arg, &batch_arg, if deep { "1" } else { "0" }];
    let child = me()
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .expect("new process");
    let mut current = first;
    let ended = follow(child, RUN_LIMIT, |l| {
        let mut t = search.total.lock().unwrap();
        match l {
            Line::Start(i) => current = i,
            Line::Run { index, digest, failures, known } => {
                t.runs += 1;
                t.digests.insert(index, digest);
                t.known.extend(known);
                for f in failures {
                    if f.props.iter().any(|p| p == check) {
                        t.own.entry(index).or_insert(f);
                        search.stop.store(true, Ordering::SeqCst);
                    } else {
                        let key = format!("{:?} {}", f.props, f.class);
                        t.others.entry(key).or_insert((index, f.text));
                    }
                }
            }
            Line::Stats { stats, states, interleavings, samples } => {
                let mut s = *stats;
                s.states = states.into_iter().collect();
                s.interleavings = interleavings.into_iter().collect();
                s.samples = samples;
                merge(&mut t.stats, s);
            }
        }
    });
    let mut t = search.total.lock().unwrap();
    match &ended {
        Ended::Harness => t.harness.push(format!("run {current}")),
        Ended::Lost => t.lost_runs += 1,
        e => {
            if let Some(f) = gone(e) {
                if check == "C18" {
                    t.own.entry(current).or_insert(f);
                    search.stop.store(true, Ordering::SeqCst);
                } else {
                    t.lost_runs += 1;
                    t.others.insert(format!("{:?} {}", f.props, f.class), (current, f.text));
                }
            }
        }
    }
    drop(t);
    if check != "C20" || !matches!(ended, Ended::Fine) {
        return;
    }
    // The same runs in other builds
    for (features, profile) in BUILDS {
        let child = program(&other_build(features, profile))
            .args(args)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit())
            .spawn()
            .expect("new process");
        let mut current = first;
        let class = format!("{BUILD_MATTERS}{features}");
        let failed = |index: u64, text: String| {
            let f = Failure { class: class.clone(), props: vec!["C20".to_owned()], text };
            search.total.lock().unwrap().own.entry(index).or_insert(f);
            search.stop.store(true, Ordering::SeqCst);
        };
        let ended = follow(child, RUN_LIMIT, |l| match l {
            Line::Start(i) => current = i,
            Line::Run { index, digest, failures, .. } => {
                let mut t = search.total.lock().unwrap();
                let here = t.digests.get(&index).copied();
                if here.is_some() {
                    *t.elsewhere.entry(format!("{features}, {profile}")).or_default() += 1;
                }
                drop(t);
                if let Some(here) = here.filter(|d| *d != digest) {
                    failed(index, differing_builds(&class, here, digest, &failures));
                }
            }
            Line::Stats { .. } => {}
        });
        match ended {
            Ended::Fine => {}
            Ended::Harness => search.total.lock().unwrap().harness.push(format!("run {current} in {features}")),
            Ended::Lost => search.total.lock().unwrap().lost_runs += 1,
            e => failed(current, format!("what is fine in the build with all features isn't in the build \"{features}\": {e:?}")),
        }
    }
}

/// Findings listed in the committed file: (id, property, text).
fn known_list() -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("KNOWN-FINDING: property=")?;
            let (prop, rest) = l.split_once(' ')?;
            let (id, text) = rest.split_once(": ")?;
            Some((id.to_owned(), prop.to_owned(), text.to_owned()))
        })
        .collect()
}

pub fn check(check: &str, tier: &str) -> i32 {
    let Some(check) = CHECKS.iter().find(|c| **c == check).copied().or((check == "ALL").then_some("ALL")) else {
        eprintln!("no check {check}");
        return 2;
    };
    if check == "C20" {
        for (features, profile) in BUILDS {
            let path = other_build(features, profile);
            if !path.exists() {
                eprintln!("{} is missing", path.display());
                return 2;
            }
        }
    }
    let deep = tier == "thorough";
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let start = Instant::now();
    let env = |n: &str, d: u64| std::env::var(n).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    // Quick checks are given by the number of runs, so that they are the same everywhere; time is only a safety net
    let quick = match check {
        "C10" => 128,
        "C11" => 320,
        "C12" | "C13" | "C15" | "C19" | "C21" => 448,
        "C20" => 192,
        "C22" => 256,
        _ => 640,
    };
    let runs = env("SIM_RUNS", if deep { u64::MAX / 2 } else { quick });
    let budget = Duration::from_secs(env("SIM_SECONDS", if deep { 600 } else { 240 }));
    let search = Arc::new(Search {
        next: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        total: Mutex::new(Total::default()),
    });
    std::thread::scope(|s| {
        for _ in 0..WORKERS {
            let search = search.clone();
            s.spawn(move || loop {
                if search.stop.load(Ordering::SeqCst) || start.elapsed() > budget {
                    break;
                }
                let first = search.next.fetch_add(BATCH as usize, Ordering::SeqCst) as u64;
                if first >= runs {
                    break;
                }
                batch(check, seed, first, deep, &search);
            });
        }
    });
    let search_s = start.elapsed().as_secs_f64();
    let mut total = std::mem::take(&mut *search.total.lock().unwrap());

    // Are runs repeatable? Some of them again, each alone in a new process
    let mut repeated = 0u64;
    let mut differing = vec![];
    // A few runs lost to the simulator itself are not worth more than a note
    let few = total.harness.len() as u64 <= 2.max(total.runs / 100);
    if total.own.is_empty() && few && total.runs > 0 {
        let picks = total.digests.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>();
        let n = if deep { 256 } else { 24 };
        let mut jobs = (0..n).map(|i| picks[(mix(seed ^ mix(i)) % picks.len() as u64) as usize]).collect::<Vec<_>>();
        // Large ones are not worth it
        jobs.retain(|(i, _)| !(!SMALL.contains(&check) && matches!(*i, 4 | 12)));
        jobs.sort();
        jobs.dedup();
        let jobs = Mutex::new(jobs);
        let res = Mutex::new((0u64, vec![]));
        std::thread::scope(|s| {
            for _ in 0..WORKERS {
                s.spawn(|| loop {
                    let Some((index, digest)) = jobs.lock().unwrap().pop() else { break };
                    let plan = plan_for(check, seed, index, deep);
                    let r = Replay {
                        check: check.to_owned(),
                        class: "determinism".to_owned(),
                        text: String::new(),
                        seed,
                        index,
                        plans: vec![plan],
                        trace: vec![],
                    };
                    let got = attempt(&r, RUN_LIMIT);
                    let mut res = res.lock().unwrap();
                    res.0 += 1;
                    if got.1 != digest {
                        res.1.push(index);
                    }
                });
            }
        });
        (repeated, differing) = res.into_inner().unwrap();
        differing.sort();
    }

    // Known findings
    let listed = known_list();
    let mut known_seen = vec![];
    for (id, prop, text) in &listed {
        if prop != check {
            continue;
        }
        let now = match id.as_str() {
            "F1" => crate::known::f1(seed),
            "F2" => crate::known::f2(seed),
            "F3" => crate::known::f3(seed),
            _ => None,
        };
        match now {
            Some(t) => {
                println!("KNOWN-FINDING: property={prop} {id}: {t}");
                known_seen.push(format!("{id}: {t}"));
            }
            None => println!("note: {id} ({text}) does not occur any more"),
        }
    }
    for (id, prop, f) in [
        ("F1", "C06", crate::known::f1 as fn(u64) -> Option<String>),
        ("F2", "C14", crate::known::f2),
        ("F3", "C14", crate::known::f3),
    ] {
        if prop == check && !listed.iter().any(|(i, ..)| i == id) {
            if let Some(text) = f(seed) {
                total.own.insert(0, Failure { class: format!("unlisted-{id}"), props: vec![prop.to_owned()], text });
            }
        }
    }

    let mut code = 0;
    let mut violations = 0;
    if !total.harness.is_empty() {
        eprintln!("error of the harness in {:?}", total.harness);
        total.lost_runs += total.harness.len() as u64;
        if !few || total.runs == 0 {
            code = 2;
        }
    }
    if let Some((index, f)) = total.own.iter().next() {
        violations = total.own.len();
        code = 1;
        let (index, f) = (*index, f.clone());
        println!("run {index} of seed {seed}: {}: {}", f.class, f.text);
        let first = index - index % BATCH;
        let whole = Replay {
            check: check.to_owned(),
            class: f.class.clone(),
            text: f.text.clone(),
            seed,
            index,
            plans: (first..=index).map(|i| plan_for(check, seed, i, deep)).collect(),
            trace: vec![],
        };
        let file = write_replay(check, &whole);
        let t = Instant::now();
        let limit = Duration::from_secs(if deep { 120 } else { 60 });
        let (mut small, tries) = minimise(whole.clone(), t + limit);
        let steps = |r: &Replay| r.plans.iter().map(|p| p.steps.len()).sum::<usize>();
        match reproduces(&small) {
            Some(text) => {
                small.text = text;
                println!(
                    "minimised from {} steps of {} runs to {} steps of {} in {tries} attempts: {}",
                    steps(&whole),
                    whole.plans.len(),
                    steps(&small),
                    small.plans.len(),
                    small.text
                );
            }
            None => println!("note: the failure depends on something not under the control of the simulator"),
        }
        if small.plans.len() == 1 && small.class != "hang" && small.class != "abort" && check != "C20" {
            small.trace = run_plan(check, &small.plans[0], true).trace.unwrap_or_default();
        }
        let _ = std::fs::write(&file, serde_json::to_string_pretty(&small).expect("json"));
        println!("VIOLATION property={check} replay={file}");
    } else if !differing.is_empty() && matches!(check, "C15" | "C19") {
        code = 1;
        violations = differing.len();
        let index = differing[0];
        println!("runs {differing:?} of seed {seed} go differently when repeated alone in a new process");
        let first = index - index % BATCH;
        let r = Replay {
            check: check.to_owned(),
            class: "run-not-repeatable".to_owned(),
            text: "the run goes differently when repeated alone in a new process".to_owned(),
            seed,
            index,
            plans: (first..=index).map(|i| plan_for(check, seed, i, deep)).collect(),
            trace: vec![],
        };
        let file = write_replay(check, &r);
        println!("VIOLATION property={check} replay={file}");
    }
    for (key, (index, text)) in &total.others {
        println!("note: run {index} shows a violation of other properties: {key}: {text}");
    }

    let wall = start.elapsed().as_secs_f64();
    let s = &total.stats;
    let evidence = json!({
        "property": check,
        "tier": if deep { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
        "coverage": {
            "evaluations": s.evals,
            "distinct_nontrivial": s.states.len(),
            "rule": "An evaluation is one call of the real ContractVerify::evaluate on a stream of records in a simulated \
                     run, compared with the reference in verdict, blamed defect, and every notification. Streams are \
                     honest consignments made by simulated wallets, the same broken by faults of the transport or crashes, \
                     and the same tampered with by byzantine peers. Non-trivial: the stream has accepted operations \
                     besides the genesis, or is refused, or its reading fails. Distinct: by hash of the state of the \
                     contract before, of the operations accepted, of verdict and of the data recorded.",
            "samples": s.samples,
            "simulated_runs": total.runs,
            "seeds_per_hour": (total.runs as f64 / search_s * 3600.0).round(),
            "simulated_hours": (s.sim_ms as f64 / 36_000.0).round() / 100.0,
            "records_streamed": s.records,
            "streams_by_expected_end": s.ends,
            "payments_made": s.payments,
            "deliveries_accepted": s.delivered,
            "evaluations_crashed": s.crashed,
            "faults_injected": s.faults,
            "scenarios": s.scenarios,
            "oracles_applied": s.checks,
            "distinct_interleavings": s.interleavings.len(),
            "interleaving_measure": "sequence of switches between evaluations (nested or on threads), by hash",
            "runs_repeated_in_another_process": repeated,
            "runs_repeated_with_different_digest": differing.len(),
            "runs_compared_with_other_builds": total.elsewhere,
            "runs_lost": total.lost_runs,
            "violations_of_other_properties_seen": total.others.keys().collect::<Vec<_>>(),
            "known_findings": known_seen,
            "real_components": ["rgb-core (all of /repo/src)", "ultrasonic, aluvm, zk-aluvm (operation verification)",
                "bp-core, single_use_seals, commit_verify (seals and commitments)", "strict_encoding, serde (records)"],
            "simulated_components": ["contract storage (journal on a simulated disk)", "wallets", "network", "blockchain and \
                mempool", "stream readers", "threads' scheduler"],
        },
        "assumptions": [
            "Primitives of the dependencies (seal closing, operation verification of ultrasonic, commitments) are right: \
             the reference calls them separately with inputs it determines itself.",
            "Seeded sampling: nothing is said about runs which were not simulated.",
        ],
    });
    if check != "ALL" {
        let _ = std::fs::create_dir_all("evidence");
        let file = format!("evidence/{check}.json");
        if let Err(e) = std::fs::write(&file, serde_json::to_string_pretty(&evidence).expect("json") + "\n") {
            eprintln!("{file}: {e}");
            return 2;
        }
    } else {
        println!("{}", serde_json::to_string_pretty(&evidence).unwrap());
    }
    println!(
        "{check} {tier}: {} runs, {} evaluations ({} distinct and non-trivial), {:.1} simulated hours, {:.1} s, seed {seed}",
        total.runs,
        s.evals,
        s.states.len(),
        s.sim_ms as f64 / 3.6e6,
        wall
    );
    code
}

fn write_replay(check: &str, r: &Replay) -> String {
    let _ = std::fs::create_dir_all("replays");
    let file = format!("replays/{check}-{}-{}.json", r.seed, r.index);
    let _ = std::fs::write(&file, serde_json::to_string(r).expect("json"));
    file
}

/// Determinism of the simulator itself: digests of runs in batches, alone, and in other order.
pub fn selftest(runs: u64) -> i32 {
    let jobs = Mutex::new((0..runs).flat_map(|i| CHECKS.iter().map(move |c| (*c, i))).collect::<Vec<_>>());
    let bad = Mutex::new(vec![]);
    let n = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..WORKERS {
            s.spawn(|| loop {
                let Some((c, i)) = jobs.lock().unwrap().pop() else { break };
                let plan = plan_for(c, 77, i, false);
                let r = Replay {
                    check: c.to_owned(),
                    class: "determinism".to_owned(),
                    text: String::new(),
                    seed: 77,
                    index: i,
                    plans: vec![plan],
                    trace: vec![],
                };
                let a = attempt(&r, RUN_LIMIT);
                let mut r2 = r.clone();
                r2.plans.insert(0, plan_for(c, 78, i, false));
                let b = attempt(&r2, RUN_LIMIT);
                n.fetch_add(1, Ordering::SeqCst);
                if a.1 != b.1 || !a.0.is_empty() {
                    bad.lock().unwrap().push((c, i, a.1, b.1, a.0));
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    println!("{} runs executed twice, {} differ or fail", n.load(Ordering::SeqCst), bad.len());
    for b in bad.iter().take(10) {
        println!("{b:?}");
    }
    i32::from(!bad.is_empty())
}

#[allow(unused)]
fn unused(_: Value) {}
