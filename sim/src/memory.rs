//! What an evaluation keeps and takes of the memory of the host, in bytes counted by the allocator.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::error::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};

use amplify::confinement::{Confined, SmallOrdMap};
use amplify::ByteArray;
use bp::seals::TxoSeal;
use rgbcore::{ContractApi, ContractVerify, OperationSeals, ReadOperation};
use ultrasonic::{CellAddr, Codex, ContractId, Input, LibRepo, Memory, Opid, StateCell, StateValue, VerifiedOperation};

use crate::byz::rand_def;
use crate::compare::finding;
use crate::contract::{amount, cell_amount, Contract, CALL_POST, CALL_TRANSFER, LOCK_KEY};
use crate::kit::{build_tx, is_wout, opid_of, rand_outpoint, seal_of, Bundle, Def, Rec, TxSpec, Wit};
use crate::rng::Rng;
use crate::session::SimErr;
use crate::sim::{CSpec, IntoVout, Sim};

// ---------------------------------------------------------------------------------------------- the meter

#[derive(Clone, Copy)]
struct Meter {
    on: bool,
    live: i64,
    peak: i64,
    total: u64,
}

const ZERO: Meter = Meter { on: false, live: 0, peak: 0, total: 0 };

thread_local! {
    static METER: Cell<Meter> = const { Cell::new(ZERO) };
}

/// Called by the allocator.
pub fn took(size: usize) {
    let _ = METER.try_with(|m| {
        let mut x = m.get();
        if x.on {
            x.live += size as i64;
            x.total += size as u64;
            x.peak = x.peak.max(x.live);
            m.set(x);
        }
    });
}

/// Called by the allocator.
pub fn gave(size: usize) {
    let _ = METER.try_with(|m| {
        let mut x = m.get();
        if x.on {
            x.live -= size as i64;
            m.set(x);
        }
    });
}

fn switch(on: bool) -> bool {
    METER.with(|m| {
        let mut x = m.get();
        let was = std::mem::replace(&mut x.on, on);
        m.set(x);
        was
    })
}

/// What the simulator itself does is not counted.
fn apart<T>(f: impl FnOnce() -> T) -> T {
    let was = switch(false);
    let res = f();
    switch(was);
    res
}

fn now() -> Meter { METER.with(|m| m.get()) }

// ---------------------------------------------------------------------------------------------- bounds

/// Memory not depending on anything.
const BASE: i64 = 16 << 10;
/// For each definition which is there to be used.
const PER_SEAL: i64 = 1 << 10;
/// For each byte of a record, while it is dealt with and afterwards (of buffers to be used again).
const PER_BYTE: i64 = 16;
const PER_BYTE_KEPT: i64 = 4;
/// Memory asked for (and given back) in the course of a record, most of it for hashing.
const WORK: i64 = 320 << 10;
const WORK_PER_BYTE: i64 = 240;

struct Watch {
    /// Sizes of records: the last, the largest, and of all.
    last: i64,
    largest: i64,
    bytes: i64,
    records: i64,
    /// Definitions delivered which can be used and were not.
    open: BTreeSet<CellAddr>,
    peak_open: i64,
    defs: i64,
    kept: i64,
    taken: i64,
    total: i64,
    /// The last record neither uses nor defines anything.
    idle: bool,
    worst: [i64; 4],
    failed: Option<(&'static str, String)>,
}

impl Watch {
    fn new() -> Watch {
        Watch {
            last: 0,
            largest: 0,
            bytes: 0,
            records: 0,
            open: BTreeSet::new(),
            peak_open: 0,
            defs: 0,
            kept: 0,
            taken: 0,
            total: 0,
            idle: false,
            worst: [0; 4],
            failed: None,
        }
    }

    /// A record has been dealt with, or (after the last one) the verdict is there.
    fn look(&mut self, over: bool) {
        let m = now();
        let work = m.total as i64 - self.total;
        self.kept = m.live;
        self.taken = m.peak;
        self.total = m.total as i64;
        let room = BASE + PER_SEAL * self.peak_open;
        // The error has things of the record
        let keep = room + self.largest * if over { PER_BYTE } else { PER_BYTE_KEPT };
        let room = room + PER_BYTE * self.largest;
        let all = (self.records + 1) * WORK + PER_SEAL * self.defs + WORK_PER_BYTE * self.bytes;
        // Definitions have nothing to do with this record
        let one = WORK + WORK_PER_BYTE * self.last;
        let of = |x: i64, max: i64| x.max(0) * 1000 / max.max(1);
        let work = if self.idle { work } else { 0 };
        let now = [of(self.kept, keep), of(self.taken, room), of(self.total, all), of(work, one)];
        for (w, x) in self.worst.iter_mut().zip(now) {
            *w = (*w).max(x);
        }
        if self.failed.is_some() {
            return;
        }
        let (n, open, largest) = (self.records, self.peak_open, self.largest);
        if self.kept > keep {
            self.failed = Some((
                "kept",
                format!(
                    "after {n} records, of at most {largest} bytes and with at most {open} unused definitions at a time, the evaluation keeps {} bytes",
                    self.kept
                ),
            ));
        } else if self.taken > room {
            self.failed = Some((
                "taken",
                format!(
                    "record {n}, of {} bytes, with at most {open} unused definitions at a time, takes {} bytes of memory",
                    self.last, self.taken
                ),
            ));
        } else if self.total > all {
            self.failed = Some((
                "work",
                format!(
                    "{n} records of {} bytes in total, with {} definitions, made the evaluation ask for {} bytes of memory",
                    self.bytes, self.defs, self.total
                ),
            ));
        } else if work > one {
            self.failed = Some((
                "idle",
                format!(
                    "record {n}, of {} bytes, using and defining nothing, made the evaluation ask for {work} bytes of memory",
                    self.last
                ),
            ));
        }
    }
}

// ---------------------------------------------------------------------------------------------- stream and contract

struct Feed<'a> {
    recs: &'a [Rec],
    next: usize,
    fail: bool,
    watch: &'a RefCell<Watch>,
}

impl ReadOperation for Feed<'_> {
    type Seal = TxoSeal;

    fn read_operation(&mut self) -> Result<Option<OperationSeals<TxoSeal>>, impl Error + 'static> {
        apart(|| self.watch.borrow_mut().look(false));
        let Some(rec) = self.recs.get(self.next) else {
            return if self.fail { Err(SimErr(1, std::io::ErrorKind::TimedOut)) } else { Ok(None) };
        };
        self.next += 1;
        let before = now().live;
        let block = rec.to_lib();
        let size = now().live - before + size_of::<OperationSeals<TxoSeal>>() as i64;
        apart(|| {
            let mut w = self.watch.borrow_mut();
            w.last = size;
            w.largest = w.largest.max(size);
            w.bytes += size;
            w.records += 1;
            w.defs += rec.defs.len() as i64;
            w.idle = rec.defs.is_empty() && rec.op.destructible_in.is_empty();
            let opid = opid_of(&rec.op);
            for i in &rec.op.destructible_in {
                w.open.remove(&i.addr);
            }
            for (p, d) in &rec.defs {
                if rec.wit.is_some() || !is_wout(d) {
                    w.open.insert(CellAddr::new(opid, *p));
                }
            }
            w.peak_open = w.peak_open.max(w.open.len() as i64);
        });
        METER.with(|m| {
            let mut x = m.get();
            x.peak = x.live;
            m.set(x);
        });
        Ok(Some(block))
    }
}

/// A contract with nothing but what verification needs.
struct Lean<'a> {
    c: &'a Contract,
    owned: BTreeMap<CellAddr, StateCell>,
    known: BTreeSet<Opid>,
    notified: u64,
}

impl Memory for Lean<'_> {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> { self.owned.get(&addr).copied() }
    fn immutable(&self, _: CellAddr) -> Option<StateValue> { None }
}

impl ContractApi<TxoSeal> for Lean<'_> {
    fn contract_id(&self) -> ContractId { self.c.id }
    fn codex(&self) -> &Codex { &self.c.codex }
    fn repo(&self) -> &impl LibRepo { &self.c.repo }
    fn memory(&self) -> &impl Memory { self }
    fn is_known(&self, opid: Opid) -> bool { self.known.contains(&opid) }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        apart(|| {
            let opid = op.opid();
            let op = op.as_operation();
            for i in &op.destructible_in {
                self.owned.remove(&i.addr);
            }
            for (n, cell) in op.destructible_out.iter().enumerate() {
                self.owned.insert(CellAddr::new(opid, n as u16), *cell);
            }
            self.known.insert(opid);
            self.notified += 1;
        })
    }
    fn apply_seals(&mut self, _: Opid, seals: SmallOrdMap<u16, Def>) { self.notified += (!seals.is_empty()) as u64 }
    fn apply_witness(&mut self, _: Opid, witness: Wit) { self.notified += (witness.published.inputs.len() > 0) as u64 }
}

impl<'a> Lean<'a> {
    fn new(c: &'a Contract) -> Self {
        let owned = c
            .genesis_op
            .destructible_out
            .iter()
            .enumerate()
            .map(|(n, cell)| (CellAddr::new(c.genesis_opid, n as u16), *cell))
            .collect();
        Lean { c, owned, known: BTreeSet::from([c.genesis_opid]), notified: 0 }
    }
}

// ---------------------------------------------------------------------------------------------- generation

struct Gen<'a> {
    c: &'a Contract,
    rng: &'a mut Rng,
    recs: Vec<Rec>,
    /// To be spent: with the definition delivered.
    live: Vec<(CellAddr, Def, Option<bp::Txid>, u128, bool)>,
}

impl Gen<'_> {
    fn witness(&mut self, inputs: Vec<bp::Outpoint>, msg: [u8; 32]) -> Wit {
        let protocol = self.c.id.to_byte_array();
        let spec = TxSpec {
            bundles: BTreeMap::from([(protocol, (0..inputs.len() as u32).map(|i| (i, msg)).collect::<Bundle>())]),
            inputs,
            outs: 6,
            tapret: self.rng.chance(200),
            commit_pos: self.rng.below(6),
            entropy: self.rng.u64(),
        };
        let (tx, anchors) = build_tx(&spec);
        Wit::new(tx, anchors[&protocol].clone())
    }

    fn post(&mut self) {
        let mut op = self.c.new_op(CALL_POST, self.rng.u64());
        op.immutable_out = Confined::from_checked(crate::world::rand_globals(self.rng));
        let wit = self.rng.chance(30).then(|| {
            let o = rand_outpoint(self.rng);
            self.witness(vec![o], opid_of(&op).to_byte_array())
        });
        self.recs.push(Rec { op, defs: BTreeMap::new(), wit });
    }

    /// Consumes and creates cells; a part of the definitions (in permille) is delivered.
    fn transfer(&mut self, ins: usize, outs: usize, delivered: usize) {
        let mut op = self.c.new_op(CALL_TRANSFER, self.rng.u64());
        let mut inputs = vec![];
        while inputs.len() < ins && !self.live.is_empty() {
            let n = self.rng.below(self.live.len());
            inputs.push(self.live.swap_remove(n));
        }
        op.destructible_in = Confined::from_iter_checked(inputs.iter().map(|x| Input {
            addr: x.0,
            witness: if x.4 { amount(LOCK_KEY) } else { StateValue::None },
        }));
        let sum: u128 = inputs.iter().map(|x| x.3).sum();
        let mut defs = BTreeMap::new();
        let mut out = vec![];
        for i in 0..outs {
            let mut def = rand_def(self.rng);
            if is_wout(&def) && self.rng.chance(500) {
                def.primary = bp::seals::WOutpoint::Extern(rand_outpoint(self.rng));
            }
            out.push(self.c.cell(&def, if i + 1 == outs { sum as u64 } else { 0 }, false));
            if i + 1 == outs || self.rng.chance(delivered) {
                defs.insert(i as u16, def);
            }
        }
        op.destructible_out = Confined::from_checked(out);
        let mut outpoints = vec![];
        for x in &inputs {
            let o = seal_of(&x.1, x.2).expect("seal").primary;
            if !outpoints.contains(&o) {
                outpoints.push(o);
            }
        }
        if inputs.is_empty() {
            outpoints.push(rand_outpoint(self.rng));
        }
        let opid = opid_of(&op);
        let wit = self.witness(outpoints, opid.to_byte_array());
        let txid = wit.published.txid();
        for (i, d) in &defs {
            let v = if *i as usize + 1 == outs { sum } else { 0 };
            self.live.push((CellAddr::new(opid, *i), *d, Some(txid), v, false));
        }
        self.recs.push(Rec { op, defs, wit: Some(wit) });
    }

    /// Definitions relative to a witness which isn't there.
    fn unusable(&mut self, outs: usize) {
        let mut op = self.c.new_op(CALL_TRANSFER, self.rng.u64());
        let defs = (0..outs)
            .map(|i| {
                let mut d = rand_def(self.rng);
                d.primary = bp::seals::WOutpoint::Wout((self.rng.below(5) as u32).into_vout());
                (i as u16, d)
            })
            .collect::<BTreeMap<_, _>>();
        op.destructible_out = Confined::from_iter_checked(defs.values().map(|d| self.c.cell(d, 0, false)));
        self.recs.push(Rec { op, defs, wit: None });
    }

    /// The last record once more, its witness possibly being another one.
    fn again(&mut self) {
        let Some(mut r) = self.recs.last().cloned() else { return };
        if !r.op.destructible_in.is_empty() || self.recs.len() < 2 {
            return self.post();
        }
        if r.wit.is_some() && self.rng.chance(600) {
            let o = rand_outpoint(self.rng);
            r.wit = Some(self.witness(vec![o], opid_of(&r.op).to_byte_array()));
            let (opid, txid) = (opid_of(&r.op), r.wit.as_ref().map(|w| w.published.txid()));
            for x in self.live.iter_mut().filter(|x| x.0.opid == opid) {
                x.2 = txid;
            }
        }
        self.recs.push(r);
    }
}

const SHAPES: [&str; 8] =
    ["posts", "chain", "redelivery", "growth", "mixture", "withheld", "large_and_small", "unusable"];

fn stream(c: &Contract, rng: &mut Rng, shape: usize, n: usize) -> Vec<Rec> {
    let genesis = Rec { op: c.genesis_stream_op(), defs: c.genesis_defs.clone(), wit: None };
    let live = c
        .genesis_op
        .destructible_out
        .iter()
        .enumerate()
        .map(|(i, cell)| {
            (
                CellAddr::new(c.genesis_opid, i as u16),
                c.genesis_defs[&(i as u16)],
                None,
                cell_amount(cell).unwrap_or_default(),
                cell.lock.is_some(),
            )
        })
        .collect();
    let mut g = Gen { c, rng, recs: vec![genesis], live };
    while g.recs.len() < n {
        match shape {
            0 => g.post(),
            1 => {
                let (a, b) = (g.rng.range(1, 3), g.rng.range(1, 3));
                // Definitions not to be used are not to pile up
                if g.live.len() > 12 {
                    g.transfer(8, 1, 1000)
                } else {
                    g.transfer(a, b, 1000)
                }
            }
            2 => {
                if g.rng.chance(5) {
                    let n = g.rng.range(1, 30);
                    g.transfer(0, n, 1000)
                } else {
                    g.again()
                }
            }
            3 if g.rng.chance(150) => g.post(),
            3 => {
                let n = g.rng.range(2, 8);
                g.transfer(0, n, 1000)
            }
            5 => {
                let n = g.rng.range(2, 20);
                g.transfer(1, n, 0)
            }
            6 if g.rng.chance(8) => {
                let (a, n) = (g.rng.range(1, 200), g.rng.range(100, 400));
                let p = *g.rng.pick(&[0, 1000]);
                g.transfer(a, n, p)
            }
            6 => g.post(),
            7 => {
                let n = g.rng.range(1, 4);
                g.unusable(n)
            }
            _ => match g.rng.below(10) {
                0..=3 => g.post(),
                4..=6 => {
                    let (a, b) = (g.rng.range(0, 4), g.rng.range(1, 4));
                    let p = *g.rng.pick(&[0, 500, 1000]);
                    g.transfer(a, b, p)
                }
                7..=8 => g.again(),
                _ => {
                    let a = g.live.len().min(20);
                    g.transfer(a, 1, 1000)
                }
            },
        }
    }
    g.recs
}

// ---------------------------------------------------------------------------------------------- the probe

/// Evaluates while the allocator counts. Gives what remains when everything is over.
fn measure(c: &Contract, recs: &[Rec], fail: bool, known: bool, watch: &RefCell<Watch>) -> (Result<bool, ()>, u64) {
    let mut lean = Lean::new(c);
    if known {
        lean.known.extend(recs.iter().filter(|r| r.op.contract_id == c.id).map(|r| opid_of(&r.op)));
    }
    METER.with(|m| m.set(ZERO));
    let feed = Feed { recs, next: 0, fail, watch };
    switch(true);
    let res = catch_unwind(AssertUnwindSafe(|| {
        let res = lean.evaluate(feed);
        // As the last record may have been refused
        apart(|| watch.borrow_mut().look(true));
        let ok = res.is_ok();
        if let Err(e) = res {
            drop(e);
        }
        ok
    }));
    switch(false);
    (res.map_err(|_| ()), lean.notified)
}

pub fn memory(sim: &mut Sim, rng: &mut Rng, shape: usize, n: usize) {
    let spec = CSpec { codex: rng.u64(), salt: rng.u64(), cells: rng.range(2, 6), globals: 0, wout: false };
    let c = spec.issue();
    if shape >= SHAPES.len() {
        return many(sim, rng, 2 * n);
    }
    let n = n * [4000, 1000, 1200, 1500, 1500, 500, 1200, 2000][shape] / 1000;
    let mut recs = stream(&c, rng, shape, n);
    let end = rng.below(4);
    let name = match end {
        0 => "good",
        1 => "read_error",
        2 => {
            // An operation of another contract
            let mut op = c.new_op(CALL_POST, rng.u64());
            op.contract_id = ContractId::from_byte_array(rng.bytes::<32>());
            recs.push(Rec { op, defs: BTreeMap::new(), wit: None });
            "refused_operation"
        }
        _ => {
            // Definitions which aren't those of the cells
            let mut op = c.new_op(CALL_TRANSFER, rng.u64());
            let defs = (0..rng.range(1, 500)).map(|i| (i as u16, rand_def(rng))).collect::<BTreeMap<_, _>>();
            op.destructible_out = Confined::from_iter_checked(defs.values().map(|d| c.cell(d, 0, false)));
            let mut defs = defs;
            defs.insert(0, rand_def(rng));
            recs.push(Rec { op, defs, wit: None });
            "refused_definitions"
        }
    };
    let watch = RefCell::new(Watch::new());
    // Everything may have been evaluated before
    let known = rng.chance(300);
    let (res, notified) = measure(&c, &recs, end == 1, known, &watch);
    let left = now().live;
    let w = watch.into_inner();
    let shape = SHAPES[shape];
    sim.stats.scenario(&format!("memory_{shape}_{name}"));
    if known {
        sim.stats.scenario("memory_known_operations");
    }
    sim.stats.check("memory");
    sim.stats.fault("very_long_stream");
    sim.stats.evals += 1;
    sim.stats.nontrivial += 1;
    sim.stats.records += w.records as u64;
    sim.log(|| {
        format!(
            "{shape} ({name}): {} records, kept {}, taken {}, total {}, worst {:?} permille of the bounds, left {left}",
            w.records, w.kept, w.taken, w.total, w.worst
        )
    });
    if let Some((class, text)) = w.failed {
        sim.report(finding(&["C22"], format!("memory:{class}"), format!("{shape}: {text}")));
    }
    settle(sim, &format!("{shape}_{name}"), res, end == 0, left);
    sim.mix(notified ^ (w.records as u64) << 32);
}

fn settle(sim: &mut Sim, what: &str, res: Result<bool, ()>, good: bool, left: i64) {
    match res {
        Ok(ok) if ok == good => {}
        // Why it is so is decided elsewhere
        Ok(_) => sim.stats.scenario("memory_unexpected_verdict"),
        // As nothing is freed in an orderly way
        Err(()) => return sim.report(finding(&["C18"], "panic", format!("evaluation of the stream {what} panics"))),
    }
    if left > BASE {
        sim.report(finding(&["C22"], "memory:left", format!("{what}: {left} bytes of memory remain taken when everything is over")));
    }
}

/// Many evaluations, of many contracts.
fn many(sim: &mut Sim, rng: &mut Rng, n: usize) {
    let mut left = 0;
    let mut count = 0u64;
    while (count as usize) < n / 12 {
        let spec = CSpec { codex: rng.u64(), salt: rng.u64(), cells: rng.range(1, 4), globals: 0, wout: false };
        let c = spec.issue();
        for _ in 0..4 {
            let k = rng.range(2, 8);
            let recs = stream(&c, rng, 4, k);
            let fail = rng.chance(300);
            let watch = RefCell::new(Watch::new());
            let (res, _) = measure(&c, &recs, fail, rng.chance(300), &watch);
            left += now().live;
            count += 1;
            let w = watch.into_inner();
            sim.stats.records += w.records as u64;
            if let Some((class, text)) = w.failed {
                return sim.report(finding(&["C22"], format!("memory:{class}"), format!("one of many evaluations: {text}")));
            }
            if res.is_err() {
                return;
            }
        }
    }
    sim.stats.scenario("memory_many_evaluations");
    sim.stats.check("memory");
    sim.stats.evals += count;
    sim.stats.nontrivial += count;
    sim.log(|| format!("{count} evaluations leave {left} bytes"));
    settle(sim, "many_evaluations", Ok(true), true, left);
}
