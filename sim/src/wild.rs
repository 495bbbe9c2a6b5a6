//! Synthetic histories free from what an honest wallet or a real blockchain would do: any outputs of witnesses, cells
//! sharing a seal, closings through the fallback, operations delivered many times with different witnesses.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::ByteArray;
use bp::seals::{TxoSeal, TxoSealExt, WOutpoint};
use bp::{Outpoint, Txid};
use ultrasonic::{CellAddr, Input, Operation, StateValue};

use crate::byz::rand_def;
use crate::contract::{amount, Contract, CALLS, CALL_GATED, CALL_POST, CALL_SIGNED, GATE, LOCK_KEY, SIGNED};
use crate::kit::{build_tx, is_wout, opid_of, rand_ext, rand_outpoint, rand_vout, seal_of, Bundle, Def, Rec, TxSpec, Wit};
use crate::rng::Rng;
use crate::sim::{CSpec, How, IntoVout, Sim};
use crate::store::Store;

/// An operation of the history.
struct Past {
    /// With the contract id set for the genesis as well.
    op: Operation,
    defs: BTreeMap<u16, Def>,
    /// Everything it was delivered with.
    wits: Vec<Wit>,
}

struct Owned {
    addr: CellAddr,
    amt: u64,
    locked: bool,
}

struct Gen<'a> {
    c: &'a Contract,
    past: Vec<Past>,
    owned: Vec<Owned>,
    /// Seals known within the stream.
    seals: BTreeMap<CellAddr, TxoSeal>,
    recs: Vec<Rec>,
    /// Number of the operation for each of the records.
    nos: Vec<usize>,
    limit: usize,
    withhold: usize,
    shared: Vec<Def>,
}

pub fn close(c: &Contract, seals: &[TxoSeal], msg: [u8; 32], extra: usize, rng: &mut Rng) -> Wit {
    let mut inputs: Vec<Outpoint> = vec![];
    for s in seals {
        let o = match s.secondary {
            TxoSealExt::Fallback(f) if rng.chance(15) => f,
            _ => s.primary,
        };
        if !inputs.contains(&o) {
            inputs.push(o);
        }
    }
    let closing = inputs.len();
    for _ in 0..extra {
        inputs.push(rand_outpoint(rng));
    }
    if inputs.is_empty() {
        inputs.push(rand_outpoint(rng));
    }
    let mut order: Vec<usize> = (0..inputs.len()).collect();
    rng.shuffle(&mut order);
    let mut bundle = Bundle::new();
    for (at, i) in order.iter().enumerate() {
        let m = if *i < closing.max(1) { msg } else { rng.bytes() };
        if *i < closing.max(1) || rng.chance(500) {
            bundle.insert(at as u32, m);
        }
    }
    let protocol = c.id.to_byte_array();
    let outs = rng.below(4);
    let (tx, anchors) = build_tx(&TxSpec {
        inputs: order.iter().map(|i| inputs[*i]).collect(),
        bundles: BTreeMap::from([(protocol, bundle)]),
        outs,
        tapret: rng.chance(300),
        commit_pos: rng.below(outs + 1),
        entropy: rng.u64(),
    });
    Wit::new(tx, anchors[&protocol].clone())
}

impl Gen<'_> {
    fn def(&mut self, rng: &mut Rng) -> Def {
        if !self.shared.is_empty() && rng.chance(120) {
            // The very same definition, or the same outpoint
            let d = *rng.pick(&self.shared);
            return if rng.chance(500) { d } else { Def { primary: d.primary, secondary: rand_ext(rng) } };
        }
        let d = match rng.below(5) {
            0 | 1 => Def { primary: WOutpoint::Wout(rand_vout(rng).into_vout()), secondary: rand_ext(rng) },
            2 => {
                // The fallback is the outpoint of some other seal
                let mut d = rand_def(rng);
                if let Some(s) = self.seals.values().nth(rng.below(self.seals.len().max(1))) {
                    d.secondary = TxoSealExt::Fallback(s.primary);
                }
                d
            }
            _ => rand_def(rng),
        };
        if self.shared.len() < 6 {
            self.shared.push(d);
        }
        d
    }

    fn addr(&self, no: usize, pos: u16) -> CellAddr { CellAddr::new(opid_of(&self.past[no].op), pos) }

    /// Appends a record with the operation, delivering whatever it needs before. The given definitions are reported.
    fn deliver(&mut self, no: usize, need: &BTreeSet<u16>, rng: &mut Rng, depth: usize) -> bool {
        if self.recs.len() >= self.limit || depth > 40 {
            return false;
        }
        let ins = self.past[no].op.destructible_in.iter().map(|i| i.addr).collect::<Vec<_>>();
        for _ in 0..3 {
            let mut missing = BTreeMap::<usize, BTreeSet<u16>>::new();
            for a in &ins {
                if !self.seals.contains_key(a) {
                    let Some(src) = self.past.iter().position(|p| opid_of(&p.op) == a.opid) else { return false };
                    missing.entry(src).or_default().insert(a.pos);
                }
            }
            if missing.is_empty() {
                break;
            }
            let mut list = missing.into_iter().collect::<Vec<_>>();
            rng.shuffle(&mut list);
            for (src, pos) in list {
                if !self.deliver(src, &pos, rng, depth + 1) {
                    return false;
                }
            }
        }
        let mut closed = vec![];
        for a in &ins {
            let Some(s) = self.seals.remove(a) else { return false };
            closed.push(s);
        }
        let p = &self.past[no];
        let opid = opid_of(&p.op);
        let defs = p
            .defs
            .iter()
            .filter(|(k, _)| need.contains(k) || !rng.chance(self.withhold))
            .map(|(k, d)| (*k, *d))
            .collect::<BTreeMap<_, _>>();
        let relative = defs.iter().any(|(k, d)| need.contains(k) && is_wout(d));
        // The genesis may have a witness as any other operation consuming nothing
        let wit = if !ins.is_empty() || relative || (no > 0 && rng.chance(400)) || rng.chance(60) {
            // An older one where it fits
            let old = p
                .wits
                .iter()
                .filter(|w| {
                    let spent = w.published.inputs.iter().map(|i| i.prev_output).collect::<Vec<_>>();
                    closed.iter().all(|s| spent.contains(&s.primary))
                })
                .cloned()
                .collect::<Vec<_>>();
            if !old.is_empty() && rng.chance(400) {
                Some(old[rng.below(old.len())].clone())
            } else {
                let extra = if rng.chance(300) { rng.below(3) } else { 0 };
                Some(close(self.c, &closed, opid.to_byte_array(), extra, rng))
            }
        } else {
            None
        };
        let txid: Option<Txid> = wit.as_ref().map(|w| w.published.txid());
        for (pos, d) in &defs {
            if let Some(s) = seal_of(d, txid) {
                self.seals.insert(CellAddr::new(opid, *pos), s);
            }
        }
        if let Some(w) = &wit {
            self.past[no].wits.push(w.clone());
        }
        let mut op = self.past[no].op.clone();
        if self.recs.is_empty() {
            op = self.c.genesis_stream_op();
        }
        self.recs.push(Rec { op, defs, wit });
        self.nos.push(no);
        true
    }

    /// A new operation.
    fn create(&mut self, rng: &mut Rng) -> bool {
        let mut n = *rng.pick(&[0, 1, 1, 1, 2, 2, 3, 5]);
        n = n.min(self.owned.len());
        let mut ins = vec![];
        for _ in 0..n {
            // Rather the latest ones
            let i = if rng.chance(600) { self.owned.len() - 1 } else { rng.below(self.owned.len()) };
            ins.push(self.owned.remove(i));
        }
        let call = if n == 0 {
            if rng.chance(350) { CALL_POST } else { CALLS[rng.below(2) * 3] }
        } else {
            *rng.pick(&CALLS)
        };
        let mut op = self.c.new_op(call, rng.u64());
        op.destructible_in = Confined::from_iter_checked(ins.iter().map(|x| Input {
            addr: x.addr,
            witness: if x.locked {
                amount(LOCK_KEY)
            } else if rng.chance(300) {
                crate::world::rand_value(rng)
            } else {
                StateValue::None
            },
        }));
        if call == CALL_SIGNED {
            op.witness = amount(SIGNED);
        }
        if call == CALL_GATED {
            let pos = self.c.genesis_op.immutable_out.iter().position(|d| d.value == amount(GATE)).expect("gate");
            op.immutable_in = Confined::from_iter_checked([CellAddr::new(self.c.genesis_opid, pos as u16)]);
        }
        let mut sum: u128 = ins.iter().map(|x| x.amt as u128).sum();
        let outs = if call == CALL_POST { 0 } else { *rng.pick(&[0, 1, 1, 2, 2, 3, 6]) };
        let outs = if n > 0 && sum > 0 || n == 0 && call != CALL_POST && rng.chance(700) { outs.max(1) } else { outs };
        let mut defs = BTreeMap::new();
        let mut cells = vec![];
        let mut new = vec![];
        for i in 0..outs {
            let v = if i + 1 == outs { sum } else { (rng.u64() as u128) % (sum + 1) };
            sum -= v;
            if v > u64::MAX as u128 {
                return false;
            }
            let d = self.def(rng);
            let locked = rng.chance(150);
            cells.push(self.c.cell(&d, v as u64, locked));
            defs.insert(i as u16, d);
            new.push((i as u16, v as u64, locked));
        }
        op.destructible_out = Confined::from_checked(cells);
        op.immutable_out = Confined::from_checked(crate::world::rand_globals(rng));
        if self.past.iter().any(|p| p.op.nonce == op.nonce) {
            return false;
        }
        let no = self.past.len();
        let opid = opid_of(&op);
        self.past.push(Past { op, defs, wits: vec![] });
        let need = if rng.chance(400) { new.iter().map(|x| x.0).collect() } else { BTreeSet::new() };
        if !self.deliver(no, &need, rng, 0) {
            return false;
        }
        for (pos, amt, locked) in new {
            self.owned.push(Owned { addr: CellAddr::new(opid, pos), amt, locked });
        }
        true
    }
}

/// Seals which may be closed after the records, as they are to be understood, by cells.
pub fn open_seals(c: &Contract, recs: &[Rec]) -> BTreeMap<CellAddr, TxoSeal> {
    let mut open = BTreeMap::new();
    for (k, r) in recs.iter().enumerate() {
        let opid = if k == 0 { c.genesis_opid } else { opid_of(&r.op) };
        for x in &r.op.destructible_in {
            open.remove(&x.addr);
        }
        let txid = r.wit.as_ref().map(|w| w.published.txid());
        for (pos, d) in &r.defs {
            if let Some(s) = seal_of(d, txid) {
                open.insert(CellAddr::new(opid, *pos), s);
            }
        }
    }
    open
}

/// A cell is consumed without its definition, while the seal of another one is closed.
pub fn usurp(c: &Contract, recs: &mut [Rec], i: usize, rng: &mut Rng) -> bool {
    let list = recs[i].op.destructible_in.to_vec();
    if i == 0 || list.is_empty() {
        return false;
    }
    let a = if rng.chance(300) { list[list.len() - 1].addr } else { rng.pick(&list).addr };
    let open = open_seals(c, &recs[..i]);
    let others = open
        .iter()
        .filter(|(b, _)| list.iter().all(|x| x.addr != **b))
        .map(|(b, s)| (*b, *s))
        .collect::<Vec<_>>();
    if others.is_empty() {
        return false;
    }
    // One which a mistaken address may stand for
    let p = a.pos;
    let like = [p & 0xFF, p & 0xFFF, p & 0x7FFF, p ^ 0x100, p.swap_bytes(), p.wrapping_add(1), p.wrapping_sub(1), p.wrapping_sub(256), 0];
    let near = others
        .iter()
        .filter(|(b, _)| (b.opid == a.opid && like.contains(&b.pos)) || b.pos == p)
        .copied()
        .collect::<Vec<_>>();
    let any = near.is_empty() || rng.chance(200);
    let (b, seal) = *rng.pick(if any { &others } else { &near });
    for k in 0..i {
        let opid = if k == 0 { c.genesis_opid } else { opid_of(&recs[k].op) };
        if opid == a.opid {
            recs[k].defs.remove(&a.pos);
        }
        // Other ones needn't be there at all
        if rng.chance(300) {
            recs[k].defs.retain(|pos, _| {
                let x = CellAddr::new(opid, *pos);
                x == b || recs_need(&list, x)
            });
        }
    }
    let mut seals = list.iter().filter(|x| x.addr != a).filter_map(|x| open.get(&x.addr).copied()).collect::<Vec<_>>();
    seals.push(seal);
    recs[i].wit = Some(close(c, &seals, opid_of(&recs[i].op).to_byte_array(), 0, rng));
    true
}

fn recs_need(list: &[Input], x: CellAddr) -> bool { list.iter().any(|i| i.addr == x) }

/// Changes something in a stream; the reference says what must come of it.
fn spoil(g: &Gen, recs: &mut Vec<Rec>, rng: &mut Rng) -> &'static str {
    let i = rng.below(recs.len());
    match rng.below(18) {
        0 if recs.len() > 2 => {
            let i = rng.range(1, recs.len() - 2);
            recs.swap(i, i + 1);
            "neighbours_swapped"
        }
        1 if i > 0 => {
            recs.remove(i);
            "record_removed"
        }
        2 => {
            let r = recs[i].clone();
            let at = rng.range(i + 1, recs.len());
            recs.insert(at, r);
            "record_repeated"
        }
        3 => {
            recs[i].wit = None;
            "witness_removed"
        }
        4 => {
            let k = rng.below(recs.len());
            recs[i].wit = recs[k].wit.clone();
            "witness_of_other_record"
        }
        5 | 6 => {
            // Another witness the operation had: its relative seals become outdated
            let no = *g.nos.get(i).unwrap_or(&0);
            if g.past[no].wits.is_empty() {
                return "nothing";
            }
            recs[i].wit = Some(rng.pick(&g.past[no].wits).clone());
            "other_witness_of_operation"
        }
        7 => {
            let keys = recs[i].defs.keys().copied().collect::<Vec<_>>();
            if !keys.is_empty() {
                recs[i].defs.remove(rng.pick(&keys));
            }
            "definition_removed"
        }
        8 => {
            let no = *g.nos.get(i).unwrap_or(&0);
            recs[i].defs = g.past[no].defs.clone();
            "definitions_all"
        }
        9 => {
            let keys = recs[i].defs.keys().copied().collect::<Vec<_>>();
            if keys.len() > 1 {
                let (a, b) = (*rng.pick(&keys), *rng.pick(&keys));
                let (x, y) = (recs[i].defs[&a], recs[i].defs[&b]);
                recs[i].defs.insert(a, y);
                recs[i].defs.insert(b, x);
            }
            "definitions_swapped"
        }
        10 => {
            if let Some(w) = &mut recs[i].wit {
                let mut list = w.published.inputs.to_vec();
                let k = rng.below(list.len());
                let o = list[k].prev_output;
                let v = o.vout.into_u32();
                let v = *rng.pick(&[v & 0xFFFF, v & 0xFF, v ^ 0x10000, v ^ 0x100, v.wrapping_add(1), v.swap_bytes()]);
                list[k].prev_output = Outpoint::new(o.txid, v);
                w.published.inputs = Confined::from_checked(list);
            }
            "other_output_spent"
        }
        11 => {
            // A closing of the seals as they would be with another witness of the defining operation
            let r = &recs[i];
            let opid = opid_of(&r.op);
            let mut seals = vec![];
            for a in r.op.destructible_in.iter().map(|x| x.addr) {
                let Some(p) = g.past.iter().find(|p| opid_of(&p.op) == a.opid) else { return "nothing" };
                let txid = (!p.wits.is_empty()).then(|| rng.pick(&p.wits).published.txid());
                let Some(s) = p.defs.get(&a.pos).and_then(|d| seal_of(d, txid)) else { return "nothing" };
                seals.push(s);
            }
            recs[i].wit = Some(close(g.c, &seals, opid.to_byte_array(), 0, rng));
            "closed_outdated_seals"
        }
        12 => {
            // The same for all the consumed cells but one
            let r = &recs[i];
            let opid = opid_of(&r.op);
            let n = r.op.destructible_in.len();
            if n < 2 {
                return "nothing";
            }
            let skip = rng.below(n);
            let mut seals = vec![];
            for (k, a) in r.op.destructible_in.iter().map(|x| x.addr).enumerate() {
                let Some(p) = g.past.iter().find(|p| opid_of(&p.op) == a.opid) else { return "nothing" };
                let txid = p.wits.last().map(|w| w.published.txid());
                let Some(s) = p.defs.get(&a.pos).and_then(|d| seal_of(d, txid)) else { return "nothing" };
                if k != skip {
                    seals.push(s);
                }
            }
            recs[i].wit = Some(close(g.c, &seals, opid.to_byte_array(), 0, rng));
            "one_seal_not_closed"
        }
        13 | 14 if i > 0 => {
            if !recs[i].near_token(rng) {
                return "nothing";
            }
            if recs[i].wit.is_some() {
                let r = &recs[i];
                let opid = opid_of(&r.op);
                let mut seals = vec![];
                for a in r.op.destructible_in.iter().map(|x| x.addr) {
                    let Some(p) = g.past.iter().find(|p| opid_of(&p.op) == a.opid) else { return "token_nearly_right" };
                    let txid = recs[..i]
                        .iter()
                        .rev()
                        .find(|r| opid_of(&r.op) == a.opid)
                        .and_then(|r| r.wit.as_ref())
                        .or(p.wits.last())
                        .map(|w| w.published.txid());
                    seals.extend(p.defs.get(&a.pos).and_then(|d| seal_of(d, txid)));
                }
                recs[i].wit = Some(close(g.c, &seals, opid.to_byte_array(), 0, rng));
            }
            if rng.chance(600) {
                recs.truncate(i + 1);
            }
            "token_nearly_right"
        }
        15 | 16 => {
            if !usurp(g.c, recs, i, rng) {
                return "nothing";
            }
            if rng.chance(500) {
                recs.truncate(i + 1);
            }
            "closed_seal_of_another_cell"
        }
        _ => {
            // An operation consuming cells which were consumed
            let k = rng.below(recs.len());
            let mut op = recs[k].op.clone();
            op.contract_id = g.c.id;
            op.nonce = ultrasonic::fe256::from(rng.u64());
            let wit = recs[k].wit.clone();
            let at = rng.range(1, recs.len());
            recs.insert(at, Rec { op, defs: recs[k].defs.clone(), wit });
            "conflicting_operation"
        }
    }
}

fn make<'a>(c: &'a Contract, rng: &mut Rng, size: usize) -> Gen<'a> {
    let mut g = Gen {
        c,
        past: vec![Past { op: c.genesis_op.clone(), defs: c.genesis_defs.clone(), wits: vec![] }],
        owned: vec![],
        seals: BTreeMap::new(),
        recs: vec![],
        nos: vec![],
        limit: size,
        withhold: *rng.pick(&[0, 300, 700, 1000]),
        shared: vec![],
    };
    g.deliver(0, &BTreeSet::new(), rng, 0);
    for (i, cell) in c.genesis_op.destructible_out.iter().enumerate() {
        let amt = crate::contract::cell_amount(cell).unwrap_or_default() as u64;
        g.owned.push(Owned { addr: g.addr(0, i as u16), amt, locked: cell.lock.is_some() });
    }
    while g.recs.len() < size {
        let done = if g.past.len() > 1 && rng.chance(250) {
            let no = rng.below(g.past.len());
            let all = g.past[no].defs.keys().copied().filter(|_| rng.chance(500)).collect();
            g.deliver(no, &all, rng, 0)
        } else {
            g.create(rng)
        };
        if !done && rng.chance(200) {
            break;
        }
    }
    g
}

fn spec(rng: &mut Rng) -> CSpec {
    CSpec { codex: rng.u64(), salt: rng.u64(), cells: rng.range(1, 6), globals: rng.below(3), wout: rng.chance(400) }
}

/// A synthetic history as one stream; most of them are valid as a whole.
pub fn history(rng: &mut Rng, size: usize) -> (CSpec, Contract, Vec<Rec>) {
    let spec = spec(rng);
    let c = spec.issue();
    let recs = make(&c, rng, size).recs;
    (spec, c, recs)
}

pub fn wild(sim: &mut Sim, rng: &mut Rng, size: usize) {
    let spec = spec(rng);
    let c = spec.issue();
    let g = make(&c, rng, size);
    let recs = g.recs.clone();
    let mut store = Store::new(&c);
    let how = How::random(rng);
    let done = sim.eval(&spec, &c, &mut store, None, &recs, &how, "wild");
    if done.accepted() {
        sim.stats.check("wild_accepted_whole");
        if recs.len() >= 8 {
            sim.stats.check("wild_accepted_whole_long");
        }
    }
    for _ in 0..rng.range(1, 3) {
        let mut bad = recs.clone();
        if rng.chance(300) {
            bad.truncate(rng.range(1, bad.len()));
        }
        for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
            let name = spoil(&g, &mut bad, rng);
            sim.stats.fault(&format!("wild_{name}"));
        }
        let mut st = match rng.below(4) {
            0 | 1 => Store::new(&c),
            2 => store.clone(),
            _ => {
                let mut st = Store::new(&c);
                let n = rng.range(1, recs.len());
                sim.eval(&spec, &c, &mut st, None, &recs[..n], &How::plain(), "wild_part");
                st
            }
        };
        let how = How::random(rng);
        sim.eval(&spec, &c, &mut st, None, &bad, &how, "wild_bad");
        if rng.chance(300) {
            sim.eval(&spec, &c, &mut st, None, &recs, &How::plain(), "wild_after");
        }
    }
}
