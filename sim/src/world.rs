//! The simulated world: wallets with their storage, a blockchain with a mempool, a network, and the ledger of what has
//! really happened.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use bp::seals::{Anchor, WOutpoint};
use bp::{Outpoint, Tx, Txid};
use serde::{Deserialize, Serialize};
use single_use_seals::PublishedWitness;
use strict_encoding::StrictDumb;
use ultrasonic::{CellAddr, Input, Operation, Opid, StateData, StateValue};

use crate::compare::{finding, Context};
use crate::contract::{
    amount, cell_amount, Contract, CALLS, CALL_GATED, CALL_POST, CALL_SIGNED, LOCK_KEY, SIGNED,
};
use crate::kit::{build_tx, is_wout, rand_ext, fresh_outpoint, seal_of, short, token, Bundle, Def, Rec, TxSpec, Wit};
use crate::rng::Rng;
use crate::session::{ReadFault, Transport, Verdict};
use crate::sim::{rand_err_ty, CSpec, How, IntoVout, Sim};
use crate::store::{Disk, JRec, Store};

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub wallets: usize,
    pub contracts: Vec<CSpec>,
    /// Wallets accept witnesses which are not confirmed yet.
    pub zero_conf: bool,
    /// Records between syncs of the disk (0: only at the end of an evaluation).
    pub sync_every: usize,
    pub lat: (u64, u64),
    /// Per mille of messages.
    pub loss: usize,
    pub dup: usize,
    /// Per mille of transfers broken in the middle.
    pub broken: usize,
    /// Per mille of definitions withheld by senders.
    pub withhold: usize,
    pub block_ms: u64,
}

/// An operation made by its owner.
#[derive(Clone, Debug)]
pub struct TOp {
    pub opid: Opid,
    pub op: Operation,
    pub defs: BTreeMap<u16, Def>,
    pub owners: Vec<usize>,
    pub parents: BTreeSet<Opid>,
    pub batch: Option<usize>,
    pub author: usize,
    /// All witnesses ever broadcast for the operation, in the order of creation.
    pub wits: Vec<Wit>,
}

#[derive(Clone, Debug)]
pub struct CTruth {
    pub spec: CSpec,
    pub c: Contract,
    pub ops: BTreeMap<Opid, TOp>,
    pub order: Vec<Opid>,
    pub gowners: Vec<usize>,
}

impl CTruth {
    pub fn owner(&self, addr: &CellAddr) -> Option<usize> {
        if addr.opid == self.c.genesis_opid {
            self.gowners.get(addr.pos as usize).copied()
        } else {
            self.ops.get(&addr.opid)?.owners.get(addr.pos as usize).copied()
        }
    }
    pub fn def(&self, addr: &CellAddr) -> Option<Def> {
        if addr.opid == self.c.genesis_opid {
            self.c.genesis_defs.get(&addr.pos).copied()
        } else {
            self.ops.get(&addr.opid)?.defs.get(&addr.pos).copied()
        }
    }
    pub fn defs(&self, opid: &Opid) -> BTreeMap<u16, Def> {
        if *opid == self.c.genesis_opid {
            self.c.genesis_defs.clone()
        } else {
            self.ops.get(opid).map(|o| o.defs.clone()).unwrap_or_default()
        }
    }
    /// Operations in which the given ones depend, themselves included.
    pub fn closure(&self, targets: impl IntoIterator<Item = Opid>) -> BTreeSet<Opid> {
        let mut todo = targets.into_iter().collect::<Vec<_>>();
        let mut set = BTreeSet::new();
        while let Some(o) = todo.pop() {
            if let Some(t) = self.ops.get(&o) {
                if set.insert(o) {
                    todo.extend(t.parents.iter().copied());
                }
            }
        }
        set
    }
    /// A random order in which each operation follows all it depends on.
    pub fn topo(&self, set: &BTreeSet<Opid>, rng: &mut Rng) -> Vec<Opid> {
        let mut left = self.order.iter().filter(|o| set.contains(*o)).copied().collect::<Vec<_>>();
        if rng.chance(250) {
            return left;
        }
        let late = rng.chance(300);
        let mut res = vec![];
        let mut have = BTreeSet::new();
        while !left.is_empty() {
            let ready = left
                .iter()
                .enumerate()
                .filter(|(_, o)| {
                    self.ops[*o]
                        .parents
                        .iter()
                        .all(|p| have.contains(p) || !set.contains(p))
                })
                .map(|(i, _)| i)
                .collect::<Vec<_>>();
            let i = if late { *ready.last().unwrap() } else { *rng.pick(&ready) };
            let o = left.remove(i);
            have.insert(o);
            res.push(o);
        }
        res
    }
}

#[derive(Clone, Debug)]
pub struct Batch {
    pub sender: usize,
    pub ops: Vec<(usize, Opid)>,
    /// Inputs with messages by protocol.
    pub inputs: Vec<(Outpoint, BTreeMap<[u8; 32], [u8; 32]>)>,
    pub outs: usize,
    pub commit_pos: usize,
    pub txs: Vec<(Tx, BTreeMap<[u8; 32], Anchor>)>,
    pub confirmed: Option<Txid>,
    pub recipients: BTreeSet<(usize, usize)>,
}

#[derive(Clone, Debug)]
pub struct Wallet {
    pub stores: Vec<Store>,
    pub disks: Vec<Disk>,
    pub up: bool,
    /// Crash at this notification of the next evaluation.
    pub crash: Option<(usize, bool, usize, u64)>,
    /// A crash cut an evaluation, the next one heals it.
    pub wounded: Vec<bool>,
    pub broken: Vec<bool>,
}

#[derive(Clone, Debug)]
pub struct Msg {
    pub from: usize,
    pub to: usize,
    pub ct: usize,
    pub targets: Vec<Opid>,
    pub attempts: usize,
    pub acked: bool,
    /// Everything is sent and nothing withheld.
    pub full: bool,
    pub r: u64,
}

#[derive(Clone, Debug)]
pub enum Event {
    Block,
    Deliver { msg: usize, recs: Vec<Rec>, r: u64 },
    Ack { msg: usize },
    Retry { msg: usize },
    Restart { wallet: usize },
    Partition { cut: Vec<bool> },
    Heal,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Pay {
    pub wallet: usize,
    /// Number of (contract, operation) pairs put into one transaction.
    pub ops: usize,
    pub n_in: usize,
    pub n_out: usize,
    pub wout: usize,
    pub tapret: bool,
}

pub struct World {
    pub cfg: Cfg,
    pub cts: Vec<CTruth>,
    pub wallets: Vec<Wallet>,
    pub batches: Vec<Batch>,
    pub confirmed: BTreeMap<Txid, u64>,
    pub spent: BTreeMap<Outpoint, Txid>,
    pub queue: BTreeMap<(u64, u64), Event>,
    pub msgs: Vec<Msg>,
    pub cut: Option<Vec<bool>>,
    pub now: u64,
    seq: u64,
    pub healing: bool,
    /// First recorder of a consumption of a cell, over all wallets.
    pub consumers: BTreeMap<(usize, CellAddr), Opid>,
    seed: u64,
}

pub const MAX_ATTEMPTS: usize = 40;

impl World {
    pub fn new(cfg: &Cfg, seed: u64) -> World {
        let mut rng = Rng::from_parts(&[seed, 0x3017]);
        let cts = cfg
            .contracts
            .iter()
            .map(|spec| {
                let c = spec.issue();
                let gowners = (0..c.genesis_defs.len()).map(|_| rng.below(cfg.wallets)).collect();
                CTruth { spec: spec.clone(), c, ops: BTreeMap::new(), order: vec![], gowners }
            })
            .collect::<Vec<_>>();
        let wallets = (0..cfg.wallets)
            .map(|_| Wallet {
                stores: cts.iter().map(|t| Store::new(&t.c)).collect(),
                disks: cts.iter().map(|_| Disk::new(cfg.sync_every)).collect(),
                up: true,
                crash: None,
                wounded: vec![false; cts.len()],
                broken: vec![false; cts.len()],
            })
            .collect();
        let mut w = World {
            cfg: cfg.clone(),
            cts,
            wallets,
            batches: vec![],
            confirmed: BTreeMap::new(),
            spent: BTreeMap::new(),
            queue: BTreeMap::new(),
            msgs: vec![],
            cut: None,
            now: 0,
            seq: 0,
            healing: false,
            consumers: BTreeMap::new(),
            seed,
        };
        w.at(cfg.block_ms, Event::Block);
        w
    }

    pub fn at(&mut self, t: u64, e: Event) {
        self.seq += 1;
        self.queue.insert((t.max(self.now), self.seq), e);
    }

    /// Processes everything up to the time.
    pub fn advance(&mut self, sim: &mut Sim, t: u64) {
        while let Some((key, _)) = self.queue.first_key_value() {
            let key = *key;
            if key.0 > t {
                break;
            }
            let e = self.queue.remove(&key).unwrap();
            self.now = key.0;
            sim.now = self.now;
            self.event(sim, e);
        }
        self.now = self.now.max(t);
        sim.now = self.now;
    }

    fn event(&mut self, sim: &mut Sim, e: Event) {
        match e {
            Event::Block => self.block(sim),
            Event::Deliver { msg, recs, r } => self.deliver(sim, msg, recs, r),
            Event::Ack { msg } => self.msgs[msg].acked = true,
            Event::Retry { msg } => self.transmit(sim, msg),
            Event::Restart { wallet } => self.restart(sim, wallet),
            Event::Partition { cut } => {
                sim.stats.fault("partition");
                sim.log(|| format!("network splits {cut:?}"));
                self.cut = Some(cut);
            }
            Event::Heal => self.cut = None,
        }
    }

    // ------------------------------------------------------------------------------------------ blockchain

    pub fn is_confirmed(&self, recs: &[Rec]) -> bool {
        recs.iter()
            .filter_map(|r| r.wit.as_ref())
            .all(|w| self.confirmed.contains_key(&w.published.pub_id()))
    }

    fn block(&mut self, sim: &mut Sim) {
        let mut rng = Rng::from_parts(&[self.seed, 0xB10C, self.now]);
        let mut done = vec![];
        for (no, b) in self.batches.iter_mut().enumerate() {
            if b.confirmed.is_some() || !(self.healing || rng.chance(750)) {
                continue;
            }
            let i = if rng.chance(600) { b.txs.len() - 1 } else { rng.below(b.txs.len()) };
            let tx = &b.txs[i].0;
            if tx.inputs.iter().any(|i| self.spent.contains_key(&i.prev_output)) {
                continue;
            }
            let txid = tx.txid();
            for input in &tx.inputs {
                self.spent.insert(input.prev_output, txid);
            }
            self.confirmed.insert(txid, self.now);
            b.confirmed = Some(txid);
            if i + 1 != b.txs.len() {
                sim.stats.fault("replaced_witness_confirmed");
            }
            done.push(no);
        }
        for no in done {
            let b = &self.batches[no];
            sim.log(|| format!("witness of batch {no} is mined: {}", b.confirmed.unwrap()));
            self.publish(sim, no);
        }
        if !self.healing || self.batches.iter().any(|b| b.confirmed.is_none()) {
            let next = self.now + self.cfg.block_ms / 2 + rng.below(self.cfg.block_ms as usize) as u64;
            self.at(next, Event::Block);
        }
    }

    /// The witness of the operation a wallet must use.
    pub fn best_wit(&self, ct: usize, opid: &Opid) -> Option<Wit> {
        let t = self.cts[ct].ops.get(opid)?;
        let batch = &self.batches[t.batch?];
        match batch.confirmed {
            Some(txid) => t.wits.iter().find(|w| w.published.pub_id() == txid).cloned(),
            None => t.wits.last().cloned(),
        }
    }

    /// The author records own operations and sends them out.
    fn publish(&mut self, sim: &mut Sim, no: usize) {
        let b = self.batches[no].clone();
        let mut rng = Rng::from_parts(&[self.seed, 0x5E1F, no as u64, self.now]);
        let cts: BTreeSet<usize> = b.ops.iter().map(|(c, _)| *c).collect();
        for ct in cts {
            let targets = b.ops.iter().filter(|(c, _)| *c == ct).map(|(_, o)| *o).collect::<Vec<_>>();
            self.record_own(sim, b.sender, ct, &targets, &mut rng);
            for (c, to) in &b.recipients {
                if *c == ct && *to != b.sender {
                    sim.stats.payments += 1;
                    let r = rng.u64();
                    self.send(sim, b.sender, *to, ct, targets.clone(), false, r);
                }
            }
        }
    }

    /// A wallet evaluates its own new operations: it has everything in the store but the new ones.
    fn record_own(&mut self, sim: &mut Sim, wallet: usize, ct: usize, targets: &[Opid], rng: &mut Rng) {
        if !self.wallets[wallet].up {
            self.restart(sim, wallet);
        }
        let Some(recs) = self.consignment(wallet, ct, targets, rng, 0, true) else { return };
        if !self.cfg.zero_conf && !self.is_confirmed(&recs) {
            return;
        }
        self.evaluate(sim, wallet, ct, &recs, How::random(rng), "own");
    }

    // ------------------------------------------------------------------------------------------ wallets

    /// Definitions the wallet is able to disclose.
    fn known_defs(&self, wallet: usize, ct: usize, opid: &Opid) -> BTreeMap<u16, Def> {
        let t = &self.cts[ct];
        let mut defs = self.wallets[wallet].stores[ct].seals.get(opid).cloned().unwrap_or_default();
        for (pos, def) in t.defs(opid) {
            let addr = CellAddr::new(*opid, pos);
            // Own ones, those of own operations unless blinded, and those of the genesis which are public
            let authored = t.ops.get(opid).is_some_and(|o| o.author == wallet && (is_wout(&def) || pos % 2 == 0));
            if t.owner(&addr) == Some(wallet) || authored || *opid == t.c.genesis_opid {
                defs.insert(pos, def);
            }
        }
        defs
    }

    /// A consignment of the operations built from what the wallet has; `own` adds its new operations.
    pub fn consignment(
        &self,
        wallet: usize,
        ct: usize,
        targets: &[Opid],
        rng: &mut Rng,
        withhold: usize,
        own: bool,
    ) -> Option<Vec<Rec>> {
        let t = &self.cts[ct];
        let store = &self.wallets[wallet].stores[ct];
        let set = t.closure(targets.iter().copied());
        let order = t.topo(&set, rng);
        let mut needed = BTreeSet::new();
        for o in &order {
            for i in &t.ops[o].op.destructible_in {
                needed.insert(i.addr);
            }
        }
        let pick = |opid: &Opid, rng: &mut Rng| {
            let mut defs = self.known_defs(wallet, ct, opid);
            defs.retain(|pos, _| needed.contains(&CellAddr::new(*opid, *pos)) || !rng.chance(withhold));
            defs
        };
        let mut recs =
            vec![Rec { op: t.c.genesis_stream_op(), defs: pick(&t.c.genesis_opid, rng), wit: None }];
        for o in &order {
            let mine = own && targets.contains(o);
            let op = if mine { t.ops[o].op.clone() } else { (**store.ops.get(o)?).clone() };
            let wit = match (mine, self.best_wit(ct, o)) {
                (true, w) => w,
                (false, _) if self.cfg.zero_conf && !self.healing && rng.chance(500) => store.last_wit(o).map(|w| (**w).clone()),
                (false, w) => w,
            };
            recs.push(Rec { op, defs: pick(o, rng), wit });
        }
        Some(recs)
    }

    /// A wallet evaluates a consignment with its own storage.
    pub fn evaluate(&mut self, sim: &mut Sim, wallet: usize, ct: usize, recs: &[Rec], mut how: How, what: &str) -> bool {
        let crash = self.wallets[wallet].crash.take();
        how.crash = crash.map(|(n, after, ..)| (n, after));
        how.cx.after_crash |= self.wallets[wallet].wounded[ct];
        how.cx.after_stream_fault |= self.wallets[wallet].broken[ct];
        how.cx.heal |= self.healing;
        let t = &self.cts[ct];
        let w = &mut self.wallets[wallet];
        let mut store = w.stores[ct].clone();
        let mut disk = w.disks[ct].clone();
        let before = store.clone();
        let done = sim.eval(&t.spec, &t.c, &mut store, Some(&mut disk), recs, &how, what);
        w.stores[ct] = store;
        w.disks[ct] = disk;
        if self.trusts(recs) {
            self.judge_theft(sim, ct, &before, wallet, recs);
        }
        let w = &mut self.wallets[wallet];
        match &done.out.verdict {
            Verdict::Crash => {
                let (_, _, keep, down) = crash.unwrap();
                sim.stats.fault("crash_in_evaluation");
                let lost = w.disks[ct].crash(keep);
                if lost > 0 {
                    sim.stats.fault("lost_or_torn_write");
                }
                for (i, d) in w.disks.iter_mut().enumerate() {
                    if i != ct {
                        d.crash(keep);
                    }
                }
                w.up = false;
                w.wounded[ct] = true;
                sim.log(|| format!("wallet {wallet} crashes in an evaluation, {lost} bytes are lost"));
                self.at(self.now + down, Event::Restart { wallet });
                false
            }
            v => {
                w.disks[ct].sync();
                w.broken[ct] = !how.faults.is_empty();
                if *v == Verdict::Ok {
                    w.wounded[ct] = false;
                }
                *v == Verdict::Ok
            }
        }
    }

    fn restart(&mut self, sim: &mut Sim, wallet: usize) {
        let w = &mut self.wallets[wallet];
        if w.up {
            return;
        }
        for (i, t) in self.cts.iter().enumerate() {
            let (store, torn) = w.disks[i].recover(&t.c);
            if torn {
                sim.stats.fault("torn_record_dropped");
            }
            w.stores[i] = store;
        }
        w.up = true;
        sim.log(|| format!("wallet {wallet} restarts"));
    }

    /// Are all witnesses such that a strict wallet trusts them?
    pub fn trusts(&self, recs: &[Rec]) -> bool { !self.cfg.zero_conf && self.is_confirmed(recs) }

    /// Property C14 on what a wallet has recorded.
    fn judge_theft(&mut self, sim: &mut Sim, ct: usize, before: &Store, wallet: usize, _recs: &[Rec]) {
        sim.stats.check("theft_supply_doublespend");
        let t = &self.cts[ct];
        let store = &self.wallets[wallet].stores[ct];
        if let Some(text) = theft(t, before, store, &|_, _| false) {
            sim.report(finding(&["C14"], "theft", format!("wallet {wallet}: {text}")));
        }
        let new = store.spent.iter().filter(|(a, _)| !before.spent.contains_key(*a));
        for (addr, opid) in new {
            let prev = self.consumers.entry((ct, *addr)).or_insert(*opid);
            if prev != opid {
                sim.report(finding(
                    &["C14"],
                    "double-spend",
                    format!("cell {addr} is consumed by {} in one wallet and by {} in another", short(prev), short(opid)),
                ));
            }
        }
    }

    // ------------------------------------------------------------------------------------------ network

    pub fn send(&mut self, sim: &mut Sim, from: usize, to: usize, ct: usize, targets: Vec<Opid>, full: bool, r: u64) {
        self.msgs.push(Msg { from, to, ct, targets, attempts: 0, acked: false, full, r });
        self.transmit(sim, self.msgs.len() - 1);
    }

    fn transmit(&mut self, sim: &mut Sim, msg: usize) {
        let m = &mut self.msgs[msg];
        if m.acked {
            return;
        }
        if m.attempts >= MAX_ATTEMPTS {
            return;
        }
        m.attempts += 1;
        let m = m.clone();
        let mut rng = Rng::from_parts(&[self.seed, m.r, m.attempts as u64]);
        if !self.wallets[m.from].up {
            self.at(self.now + 60_000, Event::Retry { msg });
            return;
        }
        let withhold = if m.full { 0 } else { self.cfg.withhold };
        let missing = m
            .targets
            .iter()
            .any(|o| !self.wallets[m.from].stores[m.ct].ops.contains_key(o));
        if missing {
            // Lost in a crash: the author makes it again
            let own = m
                .targets
                .iter()
                .all(|o| self.cts[m.ct].ops[o].author == m.from);
            if own {
                self.record_own(sim, m.from, m.ct, &m.targets, &mut rng);
            }
        }
        let recs = self.consignment(m.from, m.ct, &m.targets, &mut rng, withhold, false);
        if let Some(recs) = recs {
            let copies = if self.healing {
                1
            } else if rng.chance(self.cfg.loss) {
                sim.stats.fault("message_loss");
                0
            } else if rng.chance(self.cfg.dup) {
                sim.stats.fault("message_duplication");
                2
            } else {
                1
            };
            for _ in 0..copies {
                let (a, b) = self.cfg.lat;
                let lat = a + rng.below((b - a + 1) as usize) as u64;
                let r = rng.u64();
                self.at(self.now + lat, Event::Deliver { msg, recs: recs.clone(), r });
            }
        }
        let wait = 2 * self.cfg.lat.1 + 1000 + rng.below(30_000) as u64;
        self.at(self.now + wait, Event::Retry { msg });
    }

    fn reachable(&self, a: usize, b: usize) -> bool { self.cut.as_ref().map(|c| c[a] == c[b]).unwrap_or(true) }

    fn deliver(&mut self, sim: &mut Sim, msg: usize, mut recs: Vec<Rec>, r: u64) {
        let m = self.msgs[msg].clone();
        let mut rng = Rng::from_parts(&[self.seed, r]);
        if !self.reachable(m.from, m.to) {
            sim.stats.fault("message_cut_by_partition");
            return;
        }
        if !self.wallets[m.to].up {
            sim.stats.fault("message_to_crashed_wallet");
            return;
        }
        if !self.cfg.zero_conf && !self.is_confirmed(&recs) {
            return;
        }
        self.complete(m.to, m.ct, &mut recs);
        let mut how = How::random(&mut rng);
        if !self.healing && rng.chance(self.cfg.broken) {
            how.faults = rand_faults(&mut rng, &mut how.transport);
        }
        let again = m.targets.iter().all(|o| self.wallets[m.to].stores[m.ct].knows(*o));
        how.cx = Context { redelivery: again, ..Context::default() };
        let broken = !how.faults.is_empty();
        let ok = self.evaluate(sim, m.to, m.ct, &recs, how, if again { "redelivery" } else { "delivery" });
        if ok && !broken {
            sim.stats.delivered += 1;
            if self.healing || !rng.chance(self.cfg.loss) {
                let (a, b) = self.cfg.lat;
                let lat = a + rng.below((b - a + 1) as usize) as u64;
                self.at(self.now + lat, Event::Ack { msg });
            } else {
                sim.stats.fault("ack_loss");
            }
        }
    }

    /// The recipient adds the definitions only it has.
    pub fn complete(&self, wallet: usize, ct: usize, recs: &mut [Rec]) {
        let t = &self.cts[ct];
        for (no, rec) in recs.iter_mut().enumerate() {
            let mut op = rec.op.clone();
            if no == 0 {
                op.contract_id = t.c.id;
            }
            let opid = crate::kit::opid_of(&op);
            for (pos, def) in t.defs(&opid) {
                let addr = CellAddr::new(opid, pos);
                let cell = rec.op.destructible_out.get(pos as usize);
                if t.owner(&addr) == Some(wallet) && cell.map(|c| c.auth) == Some(token(&def)) {
                    rec.defs.entry(pos).or_insert(def);
                }
            }
        }
    }

    // ------------------------------------------------------------------------------------------ payments

    /// Cells the wallet may spend, with their outpoints.
    pub fn spendable(&self, wallet: usize, ct: usize) -> Vec<(CellAddr, Outpoint)> {
        let t = &self.cts[ct];
        let store = &self.wallets[wallet].stores[ct];
        let pending: BTreeSet<Outpoint> = self
            .batches
            .iter()
            .filter(|b| b.confirmed.is_none())
            .flat_map(|b| b.inputs.iter().map(|(o, _)| *o))
            .collect();
        let genesis_seen = store.seals.contains_key(&t.c.genesis_opid) || store.ops.is_empty();
        let mut res = vec![];
        for addr in store.owned.keys() {
            if t.owner(addr) != Some(wallet) || !genesis_seen {
                continue;
            }
            let Some(def) = t.def(addr) else { continue };
            let wit = if addr.opid == t.c.genesis_opid {
                None
            } else {
                let Some(op) = t.ops.get(&addr.opid) else { continue };
                match op.batch {
                    // Never had a witness
                    None => None,
                    Some(b) => {
                        let Some(txid) = self.batches[b].confirmed else { continue };
                        Some(txid)
                    }
                }
            };
            let Some(seal) = seal_of(&def, wit) else { continue };
            if self.spent.contains_key(&seal.primary) || pending.contains(&seal.primary) {
                continue;
            }
            res.push((*addr, seal.primary));
        }
        res
    }

    /// Makes a payment: one transaction with one or several operations.
    pub fn pay(&mut self, sim: &mut Sim, p: &Pay, rng: &mut Rng) {
        let wallet = p.wallet % self.cfg.wallets;
        if !self.wallets[wallet].up {
            return;
        }
        let mut batch = Batch {
            sender: wallet,
            ops: vec![],
            inputs: vec![],
            outs: rng.range(1, 5),
            commit_pos: 0,
            txs: vec![],
            confirmed: None,
            recipients: BTreeSet::new(),
        };
        batch.commit_pos = rng.below(batch.outs + 1);
        if rng.chance(20) {
            batch.outs = rng.range(254, 258);
        }
        let mut used = BTreeSet::<Outpoint>::new();
        let mut vouts = (0..=batch.outs)
            .filter(|i| *i != batch.commit_pos)
            .collect::<Vec<_>>();
        rng.shuffle(&mut vouts);
        for _ in 0..p.ops {
            let ct = rng.below(self.cts.len());
            let mut cells = self.spendable(wallet, ct);
            cells.retain(|(_, o)| !used.contains(o));
            if cells.is_empty() {
                continue;
            }
            rng.shuffle(&mut cells);
            let mut inputs = vec![];
            let mut outpoints = BTreeSet::new();
            for (a, o) in &cells {
                if outpoints.len() < p.n_in.max(1) && outpoints.insert(*o) {
                    inputs.push(*a);
                } else if outpoints.contains(o) {
                    inputs.push(*a);
                }
            }
            rng.shuffle(&mut inputs);
            let top = self.make_op(wallet, ct, &inputs, p, &mut vouts, rng);
            let protocol = self.protocol(ct);
            let msg = amplify::ByteArray::to_byte_array(&top.opid);
            for o in &outpoints {
                batch.inputs.push((*o, BTreeMap::from([(protocol, msg)])));
            }
            for (i, owner) in top.owners.iter().enumerate() {
                let _ = i;
                batch.recipients.insert((ct, *owner));
            }
            if top.owners.is_empty() {
                batch.recipients.insert((ct, rng.below(self.cfg.wallets)));
            }
            used.extend(outpoints);
            batch.ops.push((ct, top.opid));
            let t = &mut self.cts[ct];
            t.order.push(top.opid);
            t.ops.insert(top.opid, TOp { batch: Some(self.batches.len()), ..top });
        }
        if batch.ops.is_empty() {
            return;
        }
        for _ in 0..rng.below(3) {
            batch.inputs.push((fresh_outpoint(rng), BTreeMap::new()));
        }
        let mut seen = BTreeSet::new();
        batch.inputs.retain(|(o, _)| seen.insert(*o));
        rng.shuffle(&mut batch.inputs);
        self.batches.push(batch);
        let no = self.batches.len() - 1;
        self.broadcast(sim, no, p.tapret, rng);
    }

    pub fn protocol(&self, ct: usize) -> [u8; 32] { amplify::ByteArray::to_byte_array(&self.cts[ct].c.id) }

    /// Adds a witness transaction for the batch.
    pub fn broadcast(&mut self, sim: &mut Sim, no: usize, tapret: bool, rng: &mut Rng) {
        let zero_conf = self.cfg.zero_conf;
        let b = &mut self.batches[no];
        if b.txs.len() > 1 && rng.chance(500) {
            rng.shuffle(&mut b.inputs);
        }
        let mut bundles = BTreeMap::<[u8; 32], Bundle>::new();
        for (i, (_, msgs)) in b.inputs.iter().enumerate() {
            for (p, m) in msgs {
                bundles.entry(*p).or_default().insert(i as u32, *m);
            }
        }
        // Somebody else's protocol in the same commitment
        if rng.chance(250) {
            bundles.insert(rng.bytes(), Bundle::from([(0, rng.bytes())]));
        }
        let spec = TxSpec {
            inputs: b.inputs.iter().map(|(o, _)| *o).collect(),
            bundles,
            outs: b.outs,
            tapret,
            commit_pos: b.commit_pos,
            entropy: rng.u64(),
        };
        let (tx, anchors) = build_tx(&spec);
        b.txs.push((tx.clone(), anchors.clone()));
        let b = b.clone();
        for (ct, opid) in &b.ops {
            let protocol = self.protocol(*ct);
            let wit = Wit::new(tx.clone(), anchors[&protocol].clone());
            self.cts[*ct].ops.get_mut(opid).unwrap().wits.push(wit);
        }
        sim.log(|| {
            format!(
                "wallet {} broadcasts {} for batch {no}: {:?}",
                b.sender,
                tx.txid(),
                b.ops.iter().map(|(c, o)| format!("{c}:{}", short(o))).collect::<Vec<_>>()
            )
        });
        if zero_conf {
            self.publish(sim, no);
        }
    }

    /// Replaces the witness of a not yet confirmed batch.
    pub fn rbf(&mut self, sim: &mut Sim, rng: &mut Rng) {
        let open = self
            .batches
            .iter()
            .enumerate()
            .filter(|(_, b)| b.confirmed.is_none() && b.txs.len() < 4)
            .map(|(i, _)| i)
            .collect::<Vec<_>>();
        if open.is_empty() {
            return;
        }
        let no = *rng.pick(&open);
        sim.stats.fault("witness_replaced");
        let tapret = rng.chance(500);
        self.broadcast(sim, no, tapret, rng);
    }

    fn make_op(
        &mut self,
        wallet: usize,
        ct: usize,
        inputs: &[CellAddr],
        p: &Pay,
        vouts: &mut Vec<usize>,
        rng: &mut Rng,
    ) -> TOp {
        let t = &self.cts[ct];
        let store = &self.wallets[wallet].stores[ct];
        let call = *rng.pick(&CALLS);
        let mut op = t.c.new_op(call, rng.u64());
        let mut sum = 0u128;
        let mut list = vec![];
        let mut parents = BTreeSet::new();
        for a in inputs {
            let cell = &store.owned[a];
            sum += cell_amount(cell).unwrap_or_default();
            let witness = if cell.lock.is_some() { amount(LOCK_KEY) } else { rand_value(rng) };
            list.push(Input { addr: *a, witness });
            parents.insert(a.opid);
        }
        op.destructible_in = amplify::confinement::Confined::from_checked(list);
        op.witness = if call == CALL_SIGNED { amount(SIGNED) } else { rand_value(rng) };
        let mut globals = vec![];
        if call == CALL_GATED {
            globals.push(CellAddr::new(t.c.genesis_opid, 0));
        }
        let all = store.global.keys().copied().collect::<Vec<_>>();
        for _ in 0..rng.below(3) {
            if !all.is_empty() && rng.chance(300) {
                let a = *rng.pick(&all);
                globals.push(a);
                parents.insert(a.opid);
            }
        }
        op.immutable_in = amplify::confinement::Confined::from_checked(globals);
        parents.remove(&t.c.genesis_opid);

        let n = match rng.below(30) {
            0 => 0,
            1 => p.n_out + rng.below(6),
            _ => p.n_out,
        };
        let n = if sum > 0 { n.max(1) } else { n };
        let mut defs = BTreeMap::new();
        let mut owners = vec![];
        let mut cells = vec![];
        let mut left = sum;
        let mut prev: Option<(usize, Def)> = None;
        for i in 0..n {
            let mut owner = rng.below(self.cfg.wallets);
            let v = if i + 1 == n { left } else { left.min(rng.u64() as u128 % (left + 1)) };
            // A value is to fit 64 bits
            let v = v.min(u64::MAX as u128);
            left -= v;
            let shared = prev.filter(|_| rng.chance(60));
            let primary = if let Some((o, d)) = shared {
                // Another cell in the same output
                owner = o;
                d.primary
            } else if rng.chance(p.wout) && !vouts.is_empty() {
                WOutpoint::Wout(vouts.pop().unwrap().into_vout())
            } else {
                WOutpoint::Extern(fresh_outpoint(rng))
            };
            let def = Def { primary, secondary: rand_ext(rng) };
            prev = Some((owner, def));
            cells.push(t.c.cell(&def, v as u64, rng.chance(150)));
            defs.insert(i as u16, def);
            owners.push(owner);
        }
        op.destructible_out = amplify::confinement::Confined::from_checked(cells);
        op.immutable_out = amplify::confinement::Confined::from_checked(rand_globals(rng));
        TOp {
            opid: crate::kit::opid_of(&op),
            op,
            defs,
            owners,
            parents,
            batch: None,
            author: wallet,
            wits: vec![],
        }
    }

    /// An operation which only adds global state, with or without a witness.
    pub fn post(&mut self, sim: &mut Sim, wallet: usize, with_witness: bool, rng: &mut Rng) {
        let wallet = wallet % self.cfg.wallets;
        if !self.wallets[wallet].up {
            return;
        }
        let ct = rng.below(self.cts.len());
        let t = &self.cts[ct];
        // Some of these also open owned cells of no amount
        let mut defs = BTreeMap::new();
        let mut owners = vec![];
        let mut cells = vec![];
        if rng.chance(450) {
            for i in 0..rng.range(1, 3) {
                // Relative seals only where the witness is sure to remain
                let primary = if with_witness && i == 0 && rng.chance(400) {
                    WOutpoint::Wout(1usize.into_vout())
                } else {
                    WOutpoint::Extern(fresh_outpoint(rng))
                };
                let def = Def { primary, secondary: rand_ext(rng) };
                cells.push(t.c.cell(&def, 0, rng.chance(150)));
                defs.insert(i as u16, def);
                owners.push(rng.below(self.cfg.wallets));
            }
        }
        let call = match rng.below(3) {
            _ if cells.is_empty() => CALL_POST,
            0 => CALL_SIGNED,
            _ => crate::contract::CALL_TRANSFER,
        };
        let mut op = t.c.new_op(call, rng.u64());
        if call == CALL_SIGNED {
            op.witness = amount(SIGNED);
        }
        op.destructible_out = amplify::confinement::Confined::from_checked(cells);
        let mut list = rand_globals(rng);
        list.push(StateData { value: amount(rng.u64() >> 8), raw: None });
        op.immutable_out = amplify::confinement::Confined::from_checked(list);
        let store = &self.wallets[wallet].stores[ct];
        let all = store.global.keys().copied().collect::<Vec<_>>();
        let mut parents = BTreeSet::new();
        let mut globals = vec![];
        for _ in 0..rng.below(3) {
            if !all.is_empty() {
                let a = *rng.pick(&all);
                globals.push(a);
                parents.insert(a.opid);
            }
        }
        parents.remove(&t.c.genesis_opid);
        op.immutable_in = amplify::confinement::Confined::from_checked(globals);
        let opid = crate::kit::opid_of(&op);
        let to = rng.below(self.cfg.wallets);
        let mut top =
            TOp { opid, op, defs, owners, parents, batch: None, author: wallet, wits: vec![] };
        let no = self.batches.len();
        if with_witness {
            top.batch = Some(no);
        }
        let t = &mut self.cts[ct];
        t.order.push(opid);
        t.ops.insert(opid, top);
        if with_witness {
            let protocol = self.protocol(ct);
            let msg = amplify::ByteArray::to_byte_array(&opid);
            let mut o = fresh_outpoint(rng);
            while self.spent.contains_key(&o) {
                o = fresh_outpoint(rng);
            }
            self.batches.push(Batch {
                sender: wallet,
                ops: vec![(ct, opid)],
                inputs: vec![(o, BTreeMap::from([(protocol, msg)]))],
                outs: 1,
                commit_pos: rng.below(2),
                txs: vec![],
                confirmed: None,
                recipients: BTreeSet::from([(ct, to)]),
            });
            let tapret = rng.chance(500);
            self.broadcast(sim, no, tapret, rng);
        } else {
            self.record_own(sim, wallet, ct, &[opid], rng);
            let r = rng.u64();
            if to != wallet {
                self.send(sim, wallet, to, ct, vec![opid], false, r);
            }
        }
    }

    // ------------------------------------------------------------------------------------------ the end

    /// Faults stop: everything must arrive, and all wallets must converge.
    pub fn finish(&mut self, sim: &mut Sim) {
        self.healing = true;
        self.cut = None;
        for w in 0..self.cfg.wallets {
            self.wallets[w].crash = None;
            self.restart(sim, w);
        }
        if !self.queue.values().any(|e| matches!(e, Event::Block)) {
            self.at(self.now, Event::Block);
        }
        // Authors whose records were lost in a crash make them again
        for no in 0..self.batches.len() {
            let mut rng = Rng::from_parts(&[self.seed, 0x10057, no as u64]);
            let b = self.batches[no].clone();
            for (ct, opid) in &b.ops {
                if b.confirmed.is_some() && !self.wallets[b.sender].stores[*ct].ops.contains_key(opid) {
                    self.record_own(sim, b.sender, *ct, &[*opid], &mut rng);
                }
            }
        }
        // Retries left by faults start anew
        for (no, m) in self.msgs.iter_mut().enumerate() {
            m.attempts = m.attempts.min(MAX_ATTEMPTS - 8);
            let _ = no;
        }
        let open = (0..self.msgs.len()).filter(|m| !self.msgs[*m].acked).collect::<Vec<_>>();
        for m in open {
            if !self.queue.values().any(|e| matches!(e, Event::Retry { msg } if *msg == m)) {
                self.at(self.now + 1, Event::Retry { msg: m });
            }
        }
        self.drain(sim, 4000);
        let unconfirmed = self.batches.iter().any(|b| b.confirmed.is_none());
        sim.stats.check("liveness_of_payments");
        for m in &self.msgs {
            let store = &self.wallets[m.to].stores[m.ct];
            let lost = m.targets.iter().find(|o| !store.knows(**o));
            if let Some(o) = lost {
                if !unconfirmed {
                    sim.report(finding(
                        &["C13"],
                        "liveness",
                        format!(
                            "operation {} doesn't reach wallet {} within {} transmissions though faults have stopped",
                            short(o),
                            m.to,
                            m.attempts
                        ),
                    ));
                    break;
                }
            }
        }
        // Everybody gives everybody everything, two rounds
        for round in 0..2u64 {
            for from in 0..self.cfg.wallets {
                for to in 0..self.cfg.wallets {
                    if from == to {
                        continue;
                    }
                    for ct in 0..self.cts.len() {
                        let known = self.cts[ct]
                            .order
                            .iter()
                            .filter(|o| self.wallets[from].stores[ct].ops.contains_key(*o))
                            .copied()
                            .collect::<Vec<_>>();
                        let r = crate::rng::mix(round * 1000 + (from * 10 + to) as u64 + ((ct as u64) << 32));
                        self.send(sim, from, to, ct, known, true, r);
                    }
                }
            }
            self.drain(sim, 4000);
        }
        self.converged(sim);
    }

    fn drain(&mut self, sim: &mut Sim, mut budget: usize) {
        while let Some((key, _)) = self.queue.first_key_value() {
            let key = *key;
            let idle = self.queue.values().all(|e| match e {
                Event::Retry { msg } => self.msgs[*msg].acked || self.msgs[*msg].attempts >= MAX_ATTEMPTS,
                Event::Block => self.batches.iter().all(|b| b.confirmed.is_some()),
                _ => false,
            });
            if idle || budget == 0 {
                break;
            }
            budget -= 1;
            let e = self.queue.remove(&key).unwrap();
            self.now = self.now.max(key.0);
            sim.now = self.now;
            self.event(sim, e);
        }
    }

    fn converged(&mut self, sim: &mut Sim) {
        sim.stats.check("convergence_of_wallets");
        for (ct, t) in self.cts.iter().enumerate() {
            // What an ideal wallet would have
            for w in 0..self.cfg.wallets {
                for v in 0..w {
                    let (a, b) = (&self.wallets[w].stores[ct], &self.wallets[v].stores[ct]);
                    let same = a.ops.keys().eq(b.ops.keys());
                    if !same {
                        sim.report(finding(
                            &["C13", "C11"],
                            "diverged-ops",
                            format!("wallets {w} and {v} hold different operations after exchanging everything"),
                        ));
                        return;
                    }
                    if let Some(d) = a.state_diff(b) {
                        sim.report(finding(&["C11"], "diverged-state", format!("wallets {w} and {v}: {d}")));
                        return;
                    }
                    // What is left of operations lost in a crash doesn't count
                    let seals = |s: &Store| s.seals.iter().filter(|(o, _)| s.knows(**o)).map(|(o, d)| (*o, d.clone())).collect::<Vec<_>>();
                    if seals(a) != seals(b) {
                        sim.report(finding(
                            &["C11"],
                            "diverged-seals",
                            format!("wallets {w} and {v} hold different seals after exchanging everything"),
                        ));
                        return;
                    }
                    for (o, l) in a.wits.iter().filter(|(o, _)| a.knows(**o)) {
                        let (x, y) = (l.last(), b.wits.get(o).and_then(|l| l.last()));
                        let same = match (x, y) {
                            (Some(x), Some(y)) => x.published == y.published && x.client == y.client,
                            _ => false,
                        };
                        if !same && !self.cfg.zero_conf {
                            sim.report(finding(
                                &["C11", "C17"],
                                "diverged-witness",
                                format!("wallets {w} and {v} hold different witnesses of {}", short(o)),
                            ));
                            return;
                        }
                    }
                }
                // Replaying the journal gives the same
                let store = &self.wallets[w].stores[ct];
                let mut disk = self.wallets[w].disks[ct].clone();
                let (back, _) = disk.recover(&t.c);
                if let Some(d) = back.state_diff(store) {
                    sim.report(finding(&["C10", "C17"], "journal", format!("wallet {w} recovered from disk: {d}")));
                }
                let supply = store.supply();
                if supply != Some(t.c.supply as u128) && !burned(t, store) {
                    sim.report(finding(
                        &["C14"],
                        "supply",
                        format!("wallet {w}: supply is {supply:?} while {} was issued", t.c.supply),
                    ));
                }
            }
        }
    }
}

/// Honest operations never burn here, so nothing to except.
fn burned(_t: &CTruth, _s: &Store) -> bool { false }

/// What is illegitimate in the step from one state to another, when all witnesses are confirmed. `allowed` tells
/// whether an operation which isn't in the ledger may consume the cell.
pub fn theft(t: &CTruth, before: &Store, after: &Store, allowed: &dyn Fn(&Opid, &CellAddr) -> bool) -> Option<String> {
    for opid in after.ops.keys().filter(|o| !before.ops.contains_key(*o)) {
        let op = &after.ops[opid];
        if t.ops.contains_key(opid) {
            continue;
        }
        for i in &op.destructible_in {
            if !allowed(opid, &i.addr) {
                return Some(format!(
                    "operation {} consuming cell {} is recorded, which the owner of the cell never made",
                    short(opid),
                    i.addr
                ));
            }
        }
    }
    let supply = after.supply();
    match supply {
        Some(s) if s <= t.c.supply as u128 => None,
        s => Some(format!("supply is {s:?} while {} was issued", t.c.supply)),
    }
}

pub fn rand_value(rng: &mut Rng) -> StateValue {
    match rng.below(6) {
        0 => amount(rng.u64()),
        1 => StateValue::Double { first: 1u64.into(), second: rng.u64().into() },
        2 => StateValue::Quadruple { first: 1u64.into(), second: 2u64.into(), third: 3u64.into(), fourth: rng.u64().into() },
        _ => StateValue::None,
    }
}

pub fn rand_globals(rng: &mut Rng) -> Vec<StateData> {
    (0..rng.below(3))
        .map(|_| {
            let raw = rng.chance(400).then(|| {
                let n = rng.below(40);
                let b = (0..n).map(|_| rng.u64() as u8).collect::<Vec<_>>();
                amplify::confinement::Confined::from_checked(b).into()
            });
            StateData { value: rand_value(rng), raw }
        })
        .collect()
}

pub fn rand_faults(rng: &mut Rng, transport: &mut Transport) -> Vec<ReadFault> {
    if rng.chance(500) {
        vec![ReadFault::Error { at: rng.below(64), kind: rng.below(14) }]
    } else {
        *transport = Transport::Strict { chunk: *rng.pick(&[1, 3, 16, 100, u16::MAX]) };
        let mut v = vec![if rng.chance(500) {
            ReadFault::Truncate { permille: rng.below(1000) as u16 }
        } else {
            ReadFault::Cut { permille: rng.below(1000) as u16, kind: rng.below(14) }
        }];
        if rng.chance(300) {
            v.push(ReadFault::Interrupts { seed: rng.u64() });
        }
        v
    }
}

pub fn dumb_input(addr: CellAddr) -> Input {
    let mut i = Input::strict_dumb();
    i.addr = addr;
    i.witness = StateValue::None;
    i
}

#[allow(unused)]
fn unused(rng: &mut Rng, j: JRec, a: Arc<Wit>) { let _ = rand_err_ty(rng); }
