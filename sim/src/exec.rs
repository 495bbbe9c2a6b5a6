//! Plans of simulated runs: their generation and execution.

use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::sync::{Arc, Condvar, Mutex};

use serde::{Deserialize, Serialize};
use ultrasonic::Opid;

use crate::byz::{base, records, rand_def, Base, Editor, Wits, GROUPS};
use crate::compare::{finding, Context};
use crate::contract::Contract;
use crate::kit::{decode, encode, h64, OpSeals, Rec};
use crate::model::{judge, Judgement};
use crate::rng::{mix, Rng};
use crate::session::{run, ErrTy, Outcome, Prepared, ReadFault, Transport, Verdict};
use crate::sim::{describe, items_of, rand_err_ty, CSpec, How, Sim};
use crate::store::{Disk, Store};
use crate::world::{theft, Cfg, Event, Pay, World};

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    pub cfg: Cfg,
    pub steps: Vec<Step>,
    /// Final exchange of everything, with the checks of liveness and convergence.
    pub finish: bool,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Step {
    /// Simulated time.
    pub t: u64,
    /// Seed of all choices made by the step.
    pub r: u64,
    pub k: Kind,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Kind {
    // What happens in the world
    Pay(Pay),
    Post { wallet: usize, witness: bool },
    Rbf,
    Resend,
    Crash { wallet: usize, at: usize, after: bool, keep: usize, down: u64 },
    PowerOff { wallet: usize, keep: usize, down: u64 },
    Split { ms: u64 },
    // What is tried out on copies of contracts
    Honest,
    Attack { edits: usize, focus: usize, chain: bool },
    ReadFaults,
    CrashPoints { all: bool },
    Redeliver,
    Orders,
    Fidelity,
    Nest,
    Threads { n: usize },
    Large { kind: usize },
    Cross,
    Legal,
    Wild { size: usize },
    Alien { size: usize },
    Memory { shape: usize, n: usize },
}

/// Weights of the probes for a check.
fn weights(check: &str) -> Vec<(usize, Kind)> {
    let attack = |focus: usize| Kind::Attack { edits: 1, focus, chain: false };
    let mut v = vec![
        (6, Kind::Honest),
        (10, attack(9)),
        (3, Kind::ReadFaults),
        (1, Kind::CrashPoints { all: false }),
        (3, Kind::Redeliver),
        (2, Kind::Orders),
        (1, Kind::Fidelity),
        (1, Kind::Nest),
        (1, Kind::Cross),
        (1, Kind::Legal),
        (3, Kind::Wild { size: 0 }),
        (3, Kind::Alien { size: 0 }),
    ];
    let extra: Vec<(usize, Kind)> = match check {
        "C01" => vec![(40, attack(2)), (10, attack(3)), (6, Kind::Cross), (3, Kind::Large { kind: 0 })],
        "C02" => vec![(6, Kind::Alien { size: 0 }), (3, Kind::Large { kind: 0 }), (10, Kind::Wild { size: 0 }), (60, attack(0)), (10, attack(3))],
        "C03" => vec![(6, Kind::Alien { size: 0 }), (15, Kind::Wild { size: 0 }), (40, attack(3)), (15, attack(2)), (10, attack(1)), (3, Kind::Large { kind: 0 })],
        "C04" => vec![(60, attack(1)), (4, Kind::Large { kind: 0 })],
        "C05" => vec![(6, Kind::Alien { size: 0 }), (40, Kind::Wild { size: 0 }), (25, attack(0)), (25, attack(1)), (15, attack(3)), (10, Kind::Legal)],
        "C06" => vec![(50, attack(4)), (20, attack(3)), (6, Kind::Cross), (3, Kind::Large { kind: 0 })],
        "C07" => vec![(6, Kind::Alien { size: 0 }), (8, Kind::Wild { size: 0 }), (15, attack(0)), (15, attack(1)), (15, attack(2)), (10, attack(3)), (10, Kind::ReadFaults)],
        "C08" => vec![(60, Kind::ReadFaults)],
        "C09" => vec![(6, Kind::Alien { size: 0 }), (10, Kind::Wild { size: 0 }), (40, Kind::Redeliver), (15, attack(3)), (10, Kind::Legal)],
        "C10" => vec![(40, Kind::CrashPoints { all: true })],
        "C11" => vec![(30, Kind::Orders)],
        "C12" => vec![(50, Kind::Fidelity)],
        "C13" => vec![(6, Kind::Alien { size: 0 }), (15, Kind::Wild { size: 0 }), (40, Kind::Honest), (15, Kind::Legal), (3, Kind::Large { kind: 0 })],
        "C14" => vec![(70, Kind::Attack { edits: 1, focus: 9, chain: true })],
        "C15" => vec![(30, Kind::Nest), (20, Kind::Threads { n: 3 }), (20, Kind::Cross)],
        "C16" => vec![(6, Kind::Alien { size: 0 }), (10, Kind::Wild { size: 0 }), (15, attack(0)), (15, attack(1)), (15, attack(2)), (15, attack(3)), (10, attack(4))],
        "C19" => vec![(10, attack(0)), (10, attack(1)), (10, attack(2)), (10, attack(3)), (5, attack(4)), (10, Kind::Honest), (10, Kind::Wild { size: 0 }), (5, Kind::Redeliver), (5, Kind::ReadFaults)],
        "C21" => vec![(50, Kind::Fidelity), (10, Kind::Honest), (5, attack(1)), (5, Kind::Alien { size: 0 }), (5, Kind::Wild { size: 0 })],
        "C20" => vec![(10, attack(0)), (10, attack(1)), (10, attack(2)), (10, attack(3)), (10, attack(4)), (5, Kind::ReadFaults), (10, Kind::Wild { size: 0 }), (5, Kind::Alien { size: 0 }), (5, Kind::Fidelity)],
        "C17" => vec![(6, Kind::Alien { size: 0 }), (10, Kind::Wild { size: 0 }), (20, Kind::Honest), (15, Kind::Redeliver), (15, Kind::Legal), (10, attack(3))],
        "C18" => vec![(6, Kind::Alien { size: 0 }), (8, Kind::Wild { size: 0 }), (15, attack(0)), (15, attack(1)), (15, attack(2)), (15, attack(3)), (10, attack(4)), (10, Kind::ReadFaults), (4, Kind::Large { kind: 0 })],
        _ => vec![],
    };
    v.extend(extra);
    v
}

pub fn generate(check: &str, seed: u64, deep: bool) -> Plan {
    let mut rng = Rng::from_parts(&[seed, 0x9147]);
    let n_ct = rng.range(1, 3);
    let codex = rng.u64();
    let contracts = (0..n_ct)
        .map(|_| CSpec {
            // Often several contracts have the same code
            codex: if rng.chance(600) { codex } else { rng.u64() },
            salt: rng.u64(),
            cells: match rng.below(12) {
                0 => 1,
                1 => rng.range(10, 40),
                _ => rng.range(2, 8),
            },
            globals: rng.below(4),
            wout: rng.chance(150),
        })
        .collect::<Vec<_>>();
    let calm = rng.chance(250);
    let slow = rng.chance(300);
    let cfg = Cfg {
        wallets: rng.range(2, 5),
        contracts,
        zero_conf: rng.chance(250) && check != "C14",
        sync_every: *rng.pick(&[0, 0, 1, 2, 5]),
        lat: if slow { (100, 900_000) } else { (5, 3000) },
        loss: if calm { 0 } else { rng.below(400) },
        dup: if calm { 0 } else { rng.below(300) },
        broken: if calm { 0 } else { rng.below(250) },
        withhold: *rng.pick(&[0, 200, 500, 900]),
        block_ms: 600_000,
    };
    let mut steps = vec![];
    let mut t = 1000u64;
    let rounds = if deep { rng.range(8, 40) } else { rng.range(4, 16) };
    let probes = weights(check);
    let ws = probes.iter().map(|(w, _)| *w).collect::<Vec<_>>();
    let probes_per_round = if deep { 8 } else { 6 };
    let thread_ok = check == "C15" || check == "ALL";
    for _ in 0..rounds {
        // The world goes on
        for _ in 0..rng.range(1, 4) {
            t += rng.below(400_000) as u64;
            let wallet = rng.below(cfg.wallets);
            let k = match rng.below(100) {
                0..=54 => Kind::Pay(Pay {
                    wallet,
                    ops: *rng.pick(&[1, 1, 1, 2, 3, 4]),
                    n_in: *rng.pick(&[1, 1, 2, 2, 3, 5, 9]),
                    n_out: *rng.pick(&[1, 1, 2, 2, 3, 4, 7]),
                    wout: *rng.pick(&[0, 300, 600, 1000]),
                    tapret: rng.chance(400),
                }),
                55..=62 => Kind::Post { wallet, witness: rng.chance(500) },
                63..=74 => Kind::Rbf,
                75..=80 => Kind::Resend,
                81..=88 if !calm => Kind::Crash {
                    wallet,
                    at: rng.below(12),
                    after: rng.chance(500),
                    keep: *rng.pick(&[0, 0, 300, 500, 900, 990, 1000]),
                    down: rng.below(2_000_000) as u64,
                },
                89..=91 if !calm => Kind::PowerOff { wallet, keep: rng.below(1001), down: rng.below(2_000_000) as u64 },
                92..=96 if !calm => Kind::Split { ms: rng.below(3_000_000) as u64 },
                _ => Kind::Resend,
            };
            steps.push(Step { t, r: rng.u64(), k });
        }
        // and at times something is tried
        for _ in 0..rng.below(probes_per_round + 1) {
            let mut k = probes[rng.weighted(&ws)].1.clone();
            match &mut k {
                Kind::Attack { edits, chain, .. } => {
                    *edits = *rng.pick(&[1, 1, 1, 1, 2, 2, 3]);
                    if rng.chance(150) {
                        *chain = true;
                    }
                }
                Kind::CrashPoints { all } => *all = *all && rng.chance(200),
                Kind::Threads { n } => *n = rng.range(2, 4),
                Kind::Wild { size } | Kind::Alien { size } => *size = *rng.pick(&[3, 5, 8, 8, 12, 20, 30]),
                Kind::Large { kind } => *kind = rng.below(5),
                _ => {}
            }
            steps.push(Step { t, r: rng.u64(), k });
        }
    }
    if rng.chance(if thread_ok { 300 } else { 60 }) {
        steps.push(Step { t, r: rng.u64(), k: Kind::Threads { n: rng.range(2, 4) } });
    }
    if rng.chance(match check {
        "C02" | "C03" | "C04" | "C13" | "C18" => 100,
        _ => 25,
    }) {
        steps.push(Step { t, r: rng.u64(), k: Kind::Large { kind: rng.below(5) } });
    }
    if check == "C22" {
        for _ in 0..if deep { 4 } else { 1 } {
            let n = *rng.pick(if deep { &[300, 1000, 1000, 4000] } else { &[200, 1000, 1000, 1500] });
            steps.push(Step { t, r: rng.u64(), k: Kind::Memory { shape: rng.below(9), n } });
        }
    }
    Plan { seed, cfg, steps, finish: rng.chance(if matches!(check, "C11" | "C13" | "C10") { 900 } else { 400 }) }
}

/// Executes a plan: a pure function of it and of the code.
pub fn execute(plan: &Plan, sim: &mut Sim, stop_on_own: bool) {
    let mut world = World::new(&plan.cfg, plan.seed);
    let mut last = 0;
    for step in &plan.steps {
        last = last.max(step.t);
        world.advance(sim, last);
        let mut rng = Rng::from_parts(&[plan.seed, step.r]);
        sim.mix(step.r);
        do_step(&mut world, sim, &step.k, &mut rng);
        if stop_on_own && sim.own() {
            return;
        }
    }
    if plan.finish {
        // Let what is on its way arrive
        world.advance(sim, last + 1_800_000);
        world.finish(sim);
    }
    for w in &world.wallets {
        for s in &w.stores {
            sim.mix(s.digest());
        }
    }
    sim.stats.sim_ms += world.now;
}

fn do_step(w: &mut World, sim: &mut Sim, k: &Kind, rng: &mut Rng) {
    match k {
        Kind::Pay(p) => w.pay(sim, p, rng),
        Kind::Post { wallet, witness } => w.post(sim, *wallet, *witness, rng),
        Kind::Rbf => w.rbf(sim, rng),
        Kind::Resend => {
            // Somebody sends what it has to somebody
            let (from, to, ct) = (rng.below(w.cfg.wallets), rng.below(w.cfg.wallets), rng.below(w.cts.len()));
            if from != to && w.wallets[from].up {
                let mut known = crate::byz::all_known(w, ct, &w.wallets[from].stores[ct]);
                rng.shuffle(&mut known);
                known.truncate(rng.range(1, 6));
                let r = rng.u64();
                w.send(sim, from, to, ct, known, false, r);
            }
        }
        Kind::Crash { wallet, at, after, keep, down } => {
            let n = *wallet % w.cfg.wallets;
            w.wallets[n].crash = Some((*at, *after, *keep, *down));
        }
        Kind::PowerOff { wallet, keep, down } => {
            let n = *wallet % w.cfg.wallets;
            if w.wallets[n].up {
                sim.stats.fault("power_off");
                sim.log(|| format!("wallet {n} loses power"));
                w.wallets[n].up = false;
                for d in &mut w.wallets[n].disks {
                    d.crash(*keep);
                }
                let at = w.now + *down;
                w.at(at, Event::Restart { wallet: n });
            }
        }
        Kind::Split { ms } => {
            let cut = (0..w.cfg.wallets).map(|_| rng.chance(500)).collect();
            let (a, b) = (w.now, w.now + *ms);
            w.at(a, Event::Partition { cut });
            w.at(b, Event::Heal);
        }
        Kind::Honest => honest(w, sim, rng),
        Kind::Attack { edits, focus, chain } => attack(w, sim, rng, *edits, *focus, *chain),
        Kind::ReadFaults => read_faults(w, sim, rng),
        Kind::CrashPoints { all } => crash_points(w, sim, rng, *all),
        Kind::Redeliver => redeliver(w, sim, rng),
        Kind::Orders => orders(w, sim, rng),
        Kind::Fidelity => fidelity(w, sim, rng),
        Kind::Nest => nest(w, sim, rng),
        Kind::Threads { n } => threads(w, sim, rng, *n),
        Kind::Large { kind } => crate::large::large(sim, rng, *kind),
        Kind::Cross => cross(w, sim, rng),
        Kind::Legal => legal(w, sim, rng),
        Kind::Wild { size } => crate::wild::wild(sim, rng, *size),
        Kind::Alien { size } => crate::alien::alien(sim, rng, *size),
        Kind::Memory { shape, n } => crate::memory::memory(sim, rng, *shape, *n),
    }
}

// ---------------------------------------------------------------------------------------------- helpers

fn pick_ct(w: &World, rng: &mut Rng) -> usize {
    // The contract with most operations is the most interesting one
    let a = rng.below(w.cts.len());
    let b = rng.below(w.cts.len());
    if w.cts[a].ops.len() >= w.cts[b].ops.len() { a } else { b }
}

/// What the contract may already know.
pub fn some_store(w: &World, ct: usize, rng: &mut Rng) -> (Store, &'static str) {
    let c = &w.cts[ct].c;
    match rng.below(10) {
        0..=3 => (Store::new(c), "new contract"),
        4..=6 => {
            let b = base(w, ct, rng, 300, Wits::Best);
            let j = judge(c, &Store::new(c), &items_of(&b.recs), false);
            (j.after, "partially known contract")
        }
        7 => {
            let all = w.cts[ct]
                .order
                .iter()
                .filter(|o| w.cts[ct].ops[*o].op.destructible_in.is_empty() || !w.cts[ct].ops[*o].wits.is_empty())
                .copied()
                .collect::<Vec<_>>();
            let recs = records(w, ct, &all, rng, 0, Wits::Best);
            let j = judge(c, &Store::new(c), &items_of(&recs), false);
            (j.after, "entirely known contract")
        }
        _ => (w.wallets[rng.below(w.cfg.wallets)].stores[ct].clone(), "wallet"),
    }
}

fn honest(w: &World, sim: &mut Sim, rng: &mut Rng) {
    let ct = pick_ct(w, rng);
    let t = &w.cts[ct];
    let (mut store, _) = some_store(w, ct, rng);
    for _ in 0..rng.range(1, 3) {
        let withhold = *rng.pick(&[0, 300, 700, 1000]);
        let b = base(w, ct, rng, withhold, Wits::Best);
        let how = How::random(rng);
        sim.eval(&t.spec, &t.c, &mut store, None, &b.recs, &how, "honest");
    }
}

/// Streams with stale witnesses, additional witnesses and repeated records which are all the same legal.
fn legal(w: &World, sim: &mut Sim, rng: &mut Rng) {
    let ct = pick_ct(w, rng);
    let t = &w.cts[ct];
    let (mut store, _) = some_store(w, ct, rng);
    for _ in 0..rng.range(1, 3) {
        let mut recs = base(w, ct, rng, 300, Wits::Any).recs;
        let mut ed = Editor::new(w, ct, None);
        for _ in 0..rng.below(4) {
            let i = rng.below(recs.len());
            match rng.below(4) {
                0 if recs[i].wit.is_some() => ed.anchor(&mut recs, i, rng),
                1 if i > 0 && recs[i].op.destructible_in.is_empty() => ed.anchor(&mut recs, i, rng),
                2 => {
                    // The genesis and others again, with their definitions
                    let mut r = recs[i].clone();
                    r.op.contract_id = t.c.id;
                    if r.op.destructible_in.is_empty() {
                        let at = rng.range(i + 1, recs.len());
                        recs.insert(at, r);
                    }
                }
                _ => {
                    let at = recs.len();
                    let mut tmp = recs.clone();
                    if ed.random(&mut tmp, rng, &[0, 0, 1, 0, 0]).as_deref() == Some("one_more_operation") && tmp.len() == at + 1 {
                        recs = tmp;
                    }
                }
            }
        }
        let how = How::random(rng);
        sim.eval(&t.spec, &t.c, &mut store, None, &recs, &how, "legal");
    }
}

fn attack(w: &World, sim: &mut Sim, rng: &mut Rng, edits: usize, focus: usize, chain: bool) {
    let ct = pick_ct(w, rng);
    let t = &w.cts[ct];
    let chain = chain && !w.cfg.zero_conf;
    let byz = chain.then(|| rng.below(w.cfg.wallets));
    let (mut store, what) = if chain && rng.chance(500) {
        (w.wallets[rng.below(w.cfg.wallets)].stores[ct].clone(), "wallet")
    } else {
        some_store(w, ct, rng)
    };
    if chain && !store.wits.values().flatten().all(|x| w.confirmed.contains_key(&single_use_seals::PublishedWitness::pub_id(&x.published))) {
        store = Store::new(&t.c);
    }
    let withhold = *rng.pick(&[0, 0, 300, 900]);
    let b = base(w, ct, rng, withhold, if chain { Wits::Best } else { Wits::Any });
    let mut recs = b.recs.clone();
    let mut ed = Editor::new(w, ct, byz);
    let mut weights = [1usize; 5];
    if focus < 5 {
        weights = [0; 5];
        weights[focus] = 1;
    }
    let mut names = vec![];
    for n in 0..edits {
        if n > 0 {
            weights = [1; 5];
        }
        // In byzantine hands, own cells serve for taking those of others
        if n == 0 && rng.chance(if chain { 350 } else { 60 }) {
            if let Some(name) = ed.embezzle(&mut recs, rng) {
                names.push(name.to_owned());
                continue;
            }
        }
        for _ in 0..8 {
            if let Some(name) = ed.random(&mut recs, rng, &weights) {
                names.push(name);
                break;
            }
        }
    }
    for n in &names {
        sim.stats.fault(&format!("byzantine_{n}"));
    }
    if sim.trace.is_some() {
        let text = format!("byzantine stream ({}) for a {what}: {}", names.join(", "), describe(&recs));
        sim.log(|| text);
    }
    let before = store.clone();
    let how = How::random(rng);
    sim.eval(&t.spec, &t.c, &mut store, None, &recs, &how, "attack");
    let trusted = !w.cfg.zero_conf
        && crate::sim::txids(&recs)
            .iter()
            .all(|id| w.confirmed.contains_key(id) || ed.mined.contains(id));
    if trusted {
        sim.stats.check("theft_supply_doublespend");
        if let Some(text) = theft(t, &before, &store, &|_, a| ed.may_consume(a)) {
            sim.report(finding(&["C14"], "theft", format!("after an attack ({}): {text}", names.join(", "))));
        }
    }
    // An attack must not hinder what comes later
    if rng.chance(400) {
        let how = How::random(rng);
        sim.eval(&t.spec, &t.c, &mut store, None, &b.recs, &how, "after_attack");
    }
    let _ = GROUPS;
}

/// What a probe is about: a contract, what is known of it, and a valid stream.
struct Scene {
    spec: CSpec,
    c: Contract,
    store: Store,
    recs: Vec<Rec>,
}

/// Mostly from the simulated world, at times a synthetic history.
fn scene(w: &World, rng: &mut Rng) -> Scene {
    if rng.chance(350) {
        let size = *rng.pick(&[2, 4, 6, 10, 16]);
        let (spec, c, recs) = crate::wild::history(rng, size);
        let mut store = Store::new(&c);
        if rng.chance(500) {
            let n = rng.below(recs.len() + 1);
            store = judge(&c, &store, &items_of(&recs[..n]), false).after;
        }
        return Scene { spec, c, store, recs };
    }
    let ct = pick_ct(w, rng);
    let t = &w.cts[ct];
    let (store, _) = some_store(w, ct, rng);
    let b = base(w, ct, rng, 300, Wits::Best);
    Scene { spec: t.spec.clone(), c: t.c.clone(), store, recs: b.recs }
}

fn read_faults(w: &World, sim: &mut Sim, rng: &mut Rng) {
    let Scene { spec, c, mut store, recs } = scene(w, rng);
    for _ in 0..rng.range(1, 3) {
        let mut how = How { err_ty: rand_err_ty(rng), ..How::plain() };
        how.faults = crate::world::rand_faults(rng, &mut how.transport);
        if let ReadFault::Error { at, .. } = &mut how.faults[0] {
            // The first and last positions are special
            *at = match rng.below(4) {
                0 => 0,
                1 => recs.len(),
                2 => recs.len().saturating_sub(1),
                _ => rng.below(recs.len() + 1),
            };
            if rng.chance(400) {
                how.transport = How::random(rng).transport;
            }
        }
        sim.eval(&spec, &c, &mut store, None, &recs, &how, "read_fault");
    }
    let cx = Context { after_stream_fault: true, ..Context::default() };
    let how = How::random(rng).cx(cx);
    let done = sim.eval(&spec, &c, &mut store, None, &recs, &how, "after_read_fault");
    sim.stats.check("recovery_after_stream_failure");
    if done.j.ok() && !done.accepted() {
        sim.report(finding(&["C08"], "no-recovery", "the intact stream is refused after a stream failure"));
    }
}

fn crash_points(w: &World, sim: &mut Sim, rng: &mut Rng, all: bool) {
    let Scene { spec, c, store: start, recs } = scene(w, rng);
    // Without a crash
    let mut whole = start.clone();
    let mut disk = disk_of(&start, rng);
    let base_disk = disk.clone();
    let how = How::random(rng);
    let done = sim.eval(&spec, &c, &mut whole, Some(&mut disk), &recs, &how, "uncrashed");
    if !done.accepted() {
        return;
    }
    let k = crate::compare::real_effects(&done.out.ev).len();
    if k == 0 {
        return;
    }
    let points = if all && k <= 40 {
        (0..k).flat_map(|n| [(n, false), (n, true)]).collect::<Vec<_>>()
    } else {
        (0..4).map(|_| (rng.below(k), rng.chance(500))).collect()
    };
    for point in points {
        let mut store = start.clone();
        let mut disk = base_disk.clone();
        let mut crash = Some(point);
        let mut survived = false;
        for round in 0..4 {
            let cx = Context { after_crash: round > 0, ..Context::default() };
            let mut how = How::random(rng).cx(cx);
            how.crash = crash;
            let done = sim.eval(&spec, &c, &mut store, Some(&mut disk), &recs, &how, "crash_point");
            match done.out.verdict {
                Verdict::Crash => {
                    sim.stats.fault("crash_in_evaluation");
                    if disk.crash(*rng.pick(&[0, 500, 950, 1000])) > 0 {
                        sim.stats.fault("lost_or_torn_write");
                    }
                    let (s, torn) = disk.recover(&c);
                    if torn {
                        sim.stats.fault("torn_record_dropped");
                    }
                    store = s;
                    // The restarted evaluation may crash too
                    crash = (rng.chance(250) && round < 2).then(|| (rng.below(k), rng.chance(500)));
                }
                Verdict::Ok => {
                    survived = true;
                    break;
                }
                _ => break,
            }
        }
        sim.stats.check("recovery_after_crash");
        if !survived {
            sim.report(finding(
                &["C10"],
                "no-recovery",
                format!("after a crash at notification {point:?} the evaluation doesn't succeed again"),
            ));
            return;
        }
        if let Some(d) = store.full_diff(&whole) {
            sim.report(finding(
                &["C10"],
                "recovery-differs",
                format!("after a crash at notification {point:?} and evaluating again: {d}"),
            ));
            return;
        }
        if !store.twice.is_empty() {
            sim.report(finding(&["C10", "C09"], "applied-twice", "an operation is applied twice after a crash"));
        }
    }
}

fn disk_of(s: &Store, rng: &mut Rng) -> Disk {
    let mut d = Disk::new(*rng.pick(&[0, 0, 1, 3]));
    d.data = crate::sim::journal(s);
    d.sync();
    d
}

fn redeliver(w: &World, sim: &mut Sim, rng: &mut Rng) {
    let ct = pick_ct(w, rng);
    let t = &w.cts[ct];
    let (mut store, _) = some_store(w, ct, rng);
    let a = base(w, ct, rng, 300, Wits::Best);
    let done = sim.eval(&t.spec, &t.c, &mut store, None, &a.recs, &How::random(rng), "first_delivery");
    if !done.accepted() {
        return;
    }
    let cx = Context { redelivery: true, ..Context::default() };
    for round in 0..rng.range(1, 3) {
        let before = store.clone();
        // The same, a part of it, or in another order with other definitions
        let recs = match rng.below(4) {
            0 => a.recs.clone(),
            1 => {
                let order = t.topo(&a.set, rng);
                records(w, ct, &order, rng, 500, Wits::Any)
            }
            2 => {
                let mut v = a.set.iter().copied().collect::<Vec<_>>();
                rng.shuffle(&mut v);
                v.truncate(rng.below(v.len() + 1));
                let order = t.topo(&t.closure(v), rng);
                records(w, ct, &order, rng, 500, Wits::Best)
            }
            _ => {
                let mut recs = a.recs.clone();
                let mut ed = Editor::new(w, ct, None);
                let i = rng.below(recs.len());
                if recs[i].wit.is_some() {
                    ed.anchor(&mut recs, i, rng);
                }
                recs
            }
        };
        let done = sim.eval(&t.spec, &t.c, &mut store, None, &recs, &How::random(rng).cx(cx), "redelivery");
        sim.stats.check("redelivery_changes_nothing");
        if done.j.ok() {
            if !done.accepted() {
                sim.report(finding(&["C09"], "redelivery-refused", format!("known operations are refused (round {round})")));
            } else if let Some(d) = before.state_diff(&store) {
                sim.report(finding(&["C09"], "redelivery-changes", format!("known operations change the state: {d}")));
            }
        }
        if !store.twice.is_empty() {
            sim.report(finding(&["C09", "C17"], "applied-twice", "a known operation is added again"));
            return;
        }
        let _ = judge_foreign;
    }
    // and tampered ones
    if rng.chance(500) {
        let mut recs = a.recs.clone();
        let mut ed = Editor::new(w, ct, None);
        if let Some(name) = ed.random(&mut recs, rng, &[4, 2, 0, 2, 0]) {
            sim.stats.fault(&format!("byzantine_{name}"));
            sim.eval(&t.spec, &t.c, &mut store, None, &recs, &How::random(rng).cx(cx), "tampered_redelivery");
        }
    }
}

fn judge_foreign(c: &Contract, s: &Store, recs: &[Rec]) -> Judgement { judge(c, s, &items_of(recs), true) }

/// The same operations by different ways to different wallets.
fn orders(w: &World, sim: &mut Sim, rng: &mut Rng) {
    let ct = pick_ct(w, rng);
    let t = &w.cts[ct];
    let target = base(w, ct, rng, 0, Wits::Best).set;
    let cx = Context { reordered: true, ..Context::default() };
    let mut stores: Vec<Store> = vec![];
    for way in 0..rng.range(2, 3) {
        let mut store = Store::new(&t.c);
        let mut done: BTreeSet<Opid> = BTreeSet::new();
        let mut rounds = 0;
        let mut failed = false;
        while done.len() < target.len() || rounds == 0 {
            rounds += 1;
            let left = target.difference(&done).copied().collect::<Vec<_>>();
            let mut part = left.clone();
            rng.shuffle(&mut part);
            if rounds < 4 {
                part.truncate(rng.below(part.len() + 1));
            }
            let set = t.closure(part);
            let order = t.topo(&set, rng);
            // All definitions come at the end at least
            let recs = records(w, ct, &order, rng, 400, Wits::Any);
            let mut how = How::random(rng).cx(cx);
            // Lost, delayed and broken ones are sent again
            if rng.chance(150) {
                how.faults = crate::world::rand_faults(rng, &mut how.transport);
            }
            let res = sim.eval(&t.spec, &t.c, &mut store, None, &recs, &how, "another_way");
            if res.accepted() {
                done.extend(set);
            } else if how.faults.is_empty() && rounds > 6 {
                failed = true;
                break;
            }
            if rounds > 12 {
                failed = true;
                break;
            }
        }
        // All the definitions
        let order = t.topo(&target, rng);
        let recs = records(w, ct, &order, rng, 0, Wits::Best);
        let res = sim.eval(&t.spec, &t.c, &mut store, None, &recs, &How::random(rng).cx(cx), "all_definitions");
        if failed || !res.accepted() {
            continue;
        }
        let _ = way;
        stores.push(store);
    }
    sim.stats.check("convergence_of_orders");
    for pair in stores.windows(2) {
        let diff = pair[0]
            .state_diff(&pair[1])
            .or_else(|| (pair[0].seals != pair[1].seals).then(|| "recorded seals differ".to_owned()))
            .or_else(|| {
                let last = |s: &Store| {
                    s.wits
                        .iter()
                        .map(|(o, l)| (*o, l.last().map(|w| (w.published.clone(), w.client.clone()))))
                        .collect::<Vec<_>>()
                };
                (last(&pair[0]) != last(&pair[1])).then(|| "last recorded witnesses differ".to_owned())
            });
        if let Some(d) = diff {
            sim.report(finding(
                &["C11"],
                "diverged-orders",
                format!("the same operations delivered in different ways give different contracts: {d}"),
            ));
            return;
        }
    }
}

fn fidelity(w: &World, sim: &mut Sim, rng: &mut Rng) {
    let Scene { spec, c, store, mut recs } = if rng.chance(300) {
        scene(w, rng)
    } else {
        let ct = pick_ct(w, rng);
        let t = &w.cts[ct];
        let mut recs = base(w, ct, rng, 200, Wits::Any).recs;
        let mut ed = Editor::new(w, ct, None);
        // Whatever records, valid or not
        for _ in 0..rng.below(4) {
            ed.random(&mut recs, rng, &[1, 2, 2, 1, 1]);
        }
        let (store, _) = some_store(w, ct, rng);
        Scene { spec: t.spec.clone(), c: t.c.clone(), store, recs }
    };
    if recs.is_empty() {
        return;
    }
    let i = rng.below(recs.len());
    if rng.chance(300) {
        for _ in 0..rng.range(1, 20) {
            recs[i].defs.insert(rng.u64() as u16, rand_def(rng));
        }
    }
    sim.stats.check("record_roundtrip");
    for (no, rec) in recs.iter().enumerate() {
        let bytes = encode(&rec.to_lib());
        match decode::<OpSeals>(&bytes) {
            Ok(b) => {
                let back = Rec::from_lib(&b);
                if !back.same(rec) || encode(&b) != bytes {
                    sim.report(finding(&["C12"], "binary-roundtrip", format!("record {no} changes in the binary form")));
                }
            }
            Err(e) => sim.report(finding(&["C12"], "binary-roundtrip", format!("record {no} can't be read back: {e}"))),
        }
        for _ in 0..6 {
            let cut = match rng.below(4) {
                0 => bytes.len() - 1,
                1 => 0,
                _ => rng.below(bytes.len()),
            };
            sim.stats.fault("truncated_record");
            if decode::<OpSeals>(&bytes[..cut]).is_ok() {
                sim.report(finding(
                    &["C12"],
                    "truncated-decodes",
                    format!("{cut} of {} bytes of record {no} decode into a record", bytes.len()),
                ));
                break;
            }
        }
        #[allow(clippy::redundant_clone)]
        let copy = Rec::from_lib(&rec.to_lib().clone());
        if !copy.same(rec) {
            sim.report(finding(&["C12"], "clone", format!("a copy of record {no} differs")));
        }
    }
    // Wallets which have not been updated
    sim.stats.check("exchange_with_earlier_release");
    if let Err(e) = crate::release::check_announced() {
        sim.report(finding(&["C21"], "announced", e));
    }
    for (no, rec) in recs.iter().enumerate() {
        let mut res = crate::release::exchange(no, rec);
        if crate::kit::texts() && !crate::kit::wide_tokens(&rec.op) {
            res.extend(crate::release::exchange_text(no, rec));
        }
        for t in res {
            sim.report(finding(&["C21"], "exchange", t));
        }
    }
    // All ways of transfer give the same result
    let mut keys = vec![];
    for transport in [
        Transport::Plain,
        Transport::Cloned,
        Transport::Json,
        Transport::Strict { chunk: 1 },
        Transport::Strict { chunk: *rng.pick(&[2, 5, 13, 100]) },
    ] {
        let mut s = store.clone();
        let mut how = How { transport, err_ty: ErrTy::Io, ..How::plain() };
        if let Transport::Strict { .. } = transport {
            if rng.chance(500) {
                how.faults.push(ReadFault::Interrupts { seed: rng.u64() });
            }
        }
        let done = sim.eval(&spec, &c, &mut s, None, &recs, &how, "transport");
        keys.push((transport, crate::sim::outcome_key(&done.out)));
    }
    if let Some(x) = keys.iter().find(|x| x.1 .0 != keys[0].1 .0) {
        sim.report(finding(
            &["C12"],
            "transport-matters",
            format!("the same records give '{}' plainly and '{}' over {:?}", keys[0].1 .1, x.1 .1, x.0),
        ));
    }
    // Corrupted data
    for _ in 0..rng.range(1, 4) {
        let mut s = store.clone();
        let mut how = How {
            transport: Transport::Strict { chunk: *rng.pick(&[1, 7, 64, u16::MAX]) },
            err_ty: rand_err_ty(rng),
            ..How::plain()
        };
        for _ in 0..rng.range(1, 3) {
            how.faults.push(ReadFault::Flip { pos: rng.u64() });
        }
        if rng.chance(200) {
            how.faults.push(ReadFault::Truncate { permille: rng.below(1000) as u16 });
        }
        sim.eval(&spec, &c, &mut s, None, &recs, &how, "corrupted");
    }
}

// ---------------------------------------------------------------------------------------------- interleavings

struct Task {
    /// None for synthetic histories.
    ct: Option<usize>,
    spec: CSpec,
    c: Contract,
    recs: Vec<Rec>,
    how: How,
    store: Store,
}

fn task(w: &World, rng: &mut Rng) -> Task {
    if rng.chance(200) {
        let Scene { spec, c, store, mut recs } = scene(w, rng);
        if rng.chance(400) {
            // Not as valid
            let i = rng.below(recs.len());
            match rng.below(4) {
                0 => recs[i].wit = None,
                1 => recs.truncate(i),
                2 => {
                    let k = rng.below(recs.len());
                    recs.swap(i, k);
                }
                _ => recs[i].wit = recs[rng.below(recs.len())].wit.clone(),
            }
        }
        let mut how = How::random(rng);
        how.cx.interleaved = true;
        return Task { ct: None, spec, c, recs, how, store };
    }
    let ct = rng.below(w.cts.len());
    let (store, _) = some_store(w, ct, rng);
    let Base { mut recs, .. } = base(w, ct, rng, 300, Wits::Best);
    if rng.chance(450) {
        let mut ed = Editor::new(w, ct, None);
        for _ in 0..rng.range(1, 2) {
            ed.random(&mut recs, rng, &[3, 2, 2, 3, 1]);
        }
    }
    let mut how = How::random(rng);
    if rng.chance(150) {
        how.faults = crate::world::rand_faults(rng, &mut how.transport);
    }
    how.cx.interleaved = true;
    let t = &w.cts[ct];
    Task { ct: Some(ct), spec: t.spec.clone(), c: t.c.clone(), recs, how, store }
}

/// A second task on the same stream: another wallet, possibly with something tampered.
fn twin(w: &World, t: &Task, rng: &mut Rng) -> Task {
    let mut recs = t.recs.clone();
    let mut how = How::random(rng);
    how.cx.interleaved = true;
    let store = match t.ct {
        Some(ct) => {
            if rng.chance(600) {
                Editor::new(w, ct, None).random(&mut recs, rng, &[4, 2, 1, 2, 1]);
            }
            some_store(w, ct, rng).0
        }
        None => {
            if !recs.is_empty() && rng.chance(400) {
                let i = rng.below(recs.len());
                recs[i].wit = None;
            }
            Store::new(&t.c)
        }
    };
    Task { ct: t.ct, spec: t.spec.clone(), c: t.c.clone(), recs, how, store }
}

/// Evaluations which are started inside of others.
fn nest(w: &World, sim: &mut Sim, rng: &mut Rng) {
    let mut tasks = vec![task(w, rng)];
    for _ in 0..rng.range(1, 4) {
        let t = if rng.chance(500) { twin(w, &tasks[0], rng) } else { task(w, rng) };
        tasks.push(t);
    }
    let prepared = tasks
        .iter()
        .map(|t| {
            let p = sim.prepare(&t.recs, &t.how);
            let j = judge(&t.c, &t.store, &p.items, false);
            (p, j)
        })
        .collect::<Vec<_>>();
    struct Run<'a> {
        tasks: &'a [Task],
        prepared: &'a [(Prepared, Judgement)],
        rng: RefCell<Rng>,
        next: Cell<usize>,
        results: RefCell<Vec<(usize, Outcome)>>,
        trace: RefCell<Vec<u8>>,
        depth: Cell<usize>,
    }
    impl Run<'_> {
        fn go(&self, n: usize) {
            let t = &self.tasks[n];
            let mut store = t.store.clone();
            let hook = |point: usize| {
                if self.next.get() < self.tasks.len() && self.depth.get() < 4 && self.rng.borrow_mut().chance(120) {
                    let inner = self.next.get();
                    self.next.set(inner + 1);
                    self.trace.borrow_mut().extend([n as u8, inner as u8]);
                    self.trace.borrow_mut().extend((point as u32).to_le_bytes());
                    self.depth.set(self.depth.get() + 1);
                    self.go(inner);
                    self.depth.set(self.depth.get() - 1);
                }
            };
            let out = run(&t.c, &mut store, None, &self.prepared[n].0, None, Some(&hook));
            self.results.borrow_mut().push((n, out));
        }
    }
    let r = Run {
        tasks: &tasks,
        prepared: &prepared,
        rng: RefCell::new(rng.clone()),
        next: Cell::new(1),
        results: RefCell::new(vec![]),
        trace: RefCell::new(vec![]),
        depth: Cell::new(0),
    };
    r.go(0);
    while r.next.get() < tasks.len() {
        let n = r.next.get();
        r.next.set(n + 1);
        r.go(n);
    }
    let trace = r.trace.into_inner();
    let results = r.results.into_inner();
    sim.stats.interleavings.insert(mix(h64(&trace) ^ results.len() as u64));
    for (n, out) in results {
        let t = &tasks[n];
        let (p, j) = &prepared[n];
        sim.settle(&t.spec, &t.c, &t.store, &t.recs, &t.how, p, j.clone(), out, "nested");
    }
}

/// Evaluations on several threads, of which exactly one runs at a time: the one chosen by the scheduler.
struct Baton {
    state: Mutex<BatonState>,
    cond: Condvar,
}
struct BatonState {
    turn: usize,
    alive: Vec<bool>,
    rng: Rng,
    switch: usize,
    trace: Vec<u8>,
}

impl Baton {
    fn pass(state: &mut BatonState, me: usize, force: bool) {
        let alive = (0..state.alive.len()).filter(|i| state.alive[*i]).collect::<Vec<_>>();
        if alive.is_empty() {
            return;
        }
        if force || state.rng.chance(state.switch) {
            state.turn = *state.rng.pick(&alive);
            if state.turn != me {
                state.trace.push(state.turn as u8);
            } else {
                state.trace.push(0xFF);
            }
        } else {
            state.trace.push(0xFE);
        }
    }
    fn wait(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        while s.turn != me {
            s = self.cond.wait(s).unwrap();
        }
    }
    fn point(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        Self::pass(&mut s, me, false);
        if s.turn != me {
            self.cond.notify_all();
            while s.turn != me {
                s = self.cond.wait(s).unwrap();
            }
        }
    }
    fn leave(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.alive[me] = false;
        Self::pass(&mut s, me, true);
        self.cond.notify_all();
    }
}

fn threads(w: &World, sim: &mut Sim, rng: &mut Rng, n: usize) {
    let mut tasks = vec![task(w, rng)];
    while tasks.len() < n.max(2) {
        let t = if rng.chance(600) { twin(w, &tasks[0], rng) } else { task(w, rng) };
        tasks.push(t);
    }
    let prepared = tasks
        .iter()
        .map(|t| {
            let p = sim.prepare(&t.recs, &t.how);
            let j = judge(&t.c, &t.store, &p.items, false);
            (p, j)
        })
        .collect::<Vec<_>>();
    let baton = Arc::new(Baton {
        state: Mutex::new(BatonState {
            turn: 0,
            alive: vec![true; tasks.len()],
            rng: rng.clone(),
            switch: *rng.pick(&[50, 200, 500, 1000]),
            trace: vec![],
        }),
        cond: Condvar::new(),
    });
    let seed = rng.u64();
    let mut outs: Vec<Outcome> = vec![];
    std::thread::scope(|scope| {
        let handles = tasks
            .iter()
            .enumerate()
            .map(|(me, t)| {
                let baton = baton.clone();
                let p = &prepared[me].0;
                let c = &t.c;
                scope.spawn(move || {
                    crate::env::enter(seed ^ me as u64);
                    baton.wait(me);
                    let mut store = t.store.clone();
                    let hook = |_: usize| baton.point(me);
                    let out = run(c, &mut store, None, p, None, Some(&hook));
                    baton.leave(me);
                    out
                })
            })
            .collect::<Vec<_>>();
        for h in handles {
            outs.push(h.join().expect("thread of the harness"));
        }
    });
    let trace = baton.state.lock().unwrap().trace.clone();
    sim.stats.fault("thread_switches_scheduled");
    sim.stats.interleavings.insert(h64(&trace));
    sim.mix(h64(&trace));
    for (n, out) in outs.into_iter().enumerate() {
        let t = &tasks[n];
        let (p, j) = &prepared[n];
        sim.settle(&t.spec, &t.c, &t.store, &t.recs, &t.how, p, j.clone(), out, "threads");
    }
}

/// Evaluations of different contracts one after another, good and bad ones.
fn cross(w: &World, sim: &mut Sim, rng: &mut Rng) {
    let first = task(w, rng);
    let mut list = vec![];
    for _ in 0..rng.range(2, 5) {
        list.push(if rng.chance(500) { twin(w, &first, rng) } else { task(w, rng) });
    }
    list.insert(rng.below(list.len()), first);
    for t in list {
        let mut store = t.store.clone();
        sim.eval(&t.spec, &t.c, &mut store, None, &t.recs, &t.how, "cross");
        // The stream of one contract given to another one
        if w.cts.len() > 1 && rng.chance(300) {
            let other = (t.ct.unwrap_or_default() + 1) % w.cts.len();
            let o = &w.cts[other];
            let (mut store, _) = some_store(w, other, rng);
            sim.stats.fault("byzantine_stream_of_other_contract");
            sim.eval(&o.spec, &o.c, &mut store, None, &t.recs, &t.how, "cross");
        }
    }
}
