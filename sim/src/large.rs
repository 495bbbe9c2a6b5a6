//! Unusual sizes: many outputs, inputs, operations.

use std::collections::BTreeMap;

use amplify::confinement::Confined;
use amplify::ByteArray;
use bp::seals::WOutpoint;
use ultrasonic::{CellAddr, Input, StateValue};

use crate::byz::rand_def;
use crate::contract::{amount, cell_amount, Contract, CALL_POST, CALL_TRANSFER, LOCK_KEY};
use crate::model::codex_form;
use crate::kit::{build_tx, rand_ext, rand_outpoint, seal_of, Bundle, Def, Rec, TxSpec, Wit};
use crate::rng::Rng;
use crate::sim::{CSpec, How, IntoVout, Sim};
use crate::store::Store;

fn wit(c: &Contract, outpoints: Vec<bp::Outpoint>, msg: [u8; 32], outs: usize, rng: &mut Rng) -> Wit {
    let protocol = c.id.to_byte_array();
    let spec = TxSpec {
        bundles: BTreeMap::from([(protocol, (0..outpoints.len() as u32).map(|i| (i, msg)).collect::<Bundle>())]),
        inputs: outpoints,
        outs,
        tapret: rng.chance(500),
        commit_pos: rng.below(outs + 1),
        entropy: rng.u64(),
    };
    let (tx, anchors) = build_tx(&spec);
    Wit::new(tx, anchors[&protocol].clone())
}

/// A witness which closes what the operation consumes, the given inputs excepted.
fn anchor(c: &Contract, recs: &mut [Rec], i: usize, except: &[CellAddr], rng: &mut Rng) {
    let mut seals = BTreeMap::new();
    for (k, r) in recs[..i].iter().enumerate() {
        let opid = if k == 0 { c.genesis_opid } else { crate::kit::opid_of(&r.op) };
        let txid = r.wit.as_ref().map(|w| w.published.txid());
        for (pos, d) in &r.defs {
            if let Some(s) = seal_of(d, txid) {
                seals.insert(CellAddr::new(opid, *pos), s.primary);
            }
        }
    }
    let mut outpoints = vec![];
    for x in &recs[i].op.destructible_in {
        if let (Some(o), false) = (seals.get(&x.addr), except.contains(&x.addr)) {
            if !outpoints.contains(o) {
                outpoints.push(*o);
            }
        }
    }
    if outpoints.is_empty() {
        outpoints.push(rand_outpoint(rng));
    }
    let msg = crate::kit::opid_of(&recs[i].op).to_byte_array();
    recs[i].wit = Some(wit(c, outpoints, msg, 8, rng));
}

/// A stream of more records than 16 bits count, followed by something to consume.
fn endless(sim: &mut Sim, rng: &mut Rng) {
    let spec = CSpec { codex: rng.u64(), salt: rng.u64(), cells: 2, globals: 0, wout: false };
    let c = spec.issue();
    let mut recs = vec![Rec { op: c.genesis_stream_op(), defs: c.genesis_defs.clone(), wit: None }];
    let mut post = c.new_op(CALL_POST, rng.u64());
    post.immutable_out = Confined::from_checked(crate::world::rand_globals(rng));
    let post = Rec { op: post, defs: BTreeMap::new(), wit: None };
    for _ in 0..65_537 + rng.below(20) {
        recs.push(post.clone());
    }
    let mut op = c.new_op(CALL_TRANSFER, rng.u64());
    let cell = &c.genesis_op.destructible_out[1];
    op.destructible_in = Confined::from_checked(vec![Input {
        addr: CellAddr::new(c.genesis_opid, 1),
        witness: if cell.lock.is_some() { amount(LOCK_KEY) } else { StateValue::None },
    }]);
    let def = rand_def(rng);
    op.destructible_out = Confined::from_checked(vec![c.cell(&def, cell_amount(cell).unwrap_or_default() as u64, false)]);
    recs.push(Rec { op, defs: BTreeMap::from([(0, def)]), wit: None });
    let last = recs.len() - 1;
    anchor(&c, &mut recs, last, &[], rng);
    let mut store = Store::new(&c);
    sim.eval(&spec, &c, &mut store, None, &recs, &How::plain(), "endless");
    // A second start, where a counter of records may have come round
    let mut bad = recs;
    let at = if rng.chance(700) { 65536 } else { rng.range(65530, bad.len() - 1) };
    bad.truncate(at);
    let genesis = bad[0].clone();
    bad.push(if rng.chance(500) {
        genesis
    } else {
        let mut r = post;
        r.op.contract_id = codex_form(&c);
        r
    });
    sim.stats.fault("byzantine_codex_instead_of_contract_late");
    let mut store = Store::new(&c);
    sim.eval(&spec, &c, &mut store, None, &bad, &How::plain(), "endless_attack");
}

pub fn large(sim: &mut Sim, rng: &mut Rng, kind: usize) {
    if kind == 6 {
        return endless(sim, rng);
    }
    let (cells, outs, ops, posts) = match kind {
        0 => (rng.range(200, 400), rng.range(1, 20), 3, 0),
        1 => (rng.range(2, 5), rng.range(240, 300), 2, 0),
        2 => (3, 2, rng.range(100, 300), 0),
        3 => (2, 3, 2, rng.range(250, 300)),
        4 => (rng.range(1, 4), rng.range(500, 1200), 2, 3),
        _ => (65535 - rng.below(2), 3, 2, 0),
    };
    let spec = CSpec { codex: rng.u64(), salt: rng.u64(), cells, globals: rng.below(3), wout: false };
    let c = spec.issue();
    let mut recs = vec![Rec { op: c.genesis_stream_op(), defs: c.genesis_defs.clone(), wit: None }];
    // Own view on what is there to spend
    let mut live: Vec<(CellAddr, Def, Option<bp::Txid>, u128, bool)> = c
        .genesis_op
        .destructible_out
        .iter()
        .enumerate()
        .map(|(i, cell)| {
            (
                CellAddr::new(c.genesis_opid, i as u16),
                c.genesis_defs[&(i as u16)],
                None,
                cell_amount(cell).unwrap_or_default(),
                cell.lock.is_some(),
            )
        })
        .collect();
    for n in 0..ops {
        if live.is_empty() {
            break;
        }
        let take = match kind {
            // More than fits a byte, often
            0 if n == 0 && live.len() > 257 && rng.chance(700) => rng.range(257, live.len()),
            5 if n == 0 => rng.range(1100, 2000),
            0 | 5 => rng.range(1, live.len().min(if n == 0 { 300 } else { 30 })),
            1 | 4 if n > 0 => rng.range(1, live.len()),
            _ => 1,
        };
        // High positions
        let mut inputs = vec![];
        for k in 0..take {
            let i = match (k, rng.below(3)) {
                (0, _) => live.len() - 1,
                (_, 0) => live.len() - 1,
                _ => rng.below(live.len()),
            };
            inputs.push(live.swap_remove(i));
            if live.is_empty() {
                break;
            }
        }
        let mut op = c.new_op(CALL_TRANSFER, rng.u64());
        op.destructible_in = Confined::from_iter_checked(inputs.iter().map(|x| Input {
            addr: x.0,
            witness: if x.4 { amount(LOCK_KEY) } else { StateValue::None },
        }));
        let sum: u128 = inputs.iter().map(|x| x.3).sum();
        let mut defs = BTreeMap::new();
        let mut out = vec![];
        for i in 0..outs {
            let primary = if rng.chance(500) {
                WOutpoint::Wout((i as u32 % 7).into_vout())
            } else {
                WOutpoint::Extern(rand_outpoint(rng))
            };
            let def = Def { primary, secondary: rand_ext(rng) };
            let v = if i + 1 == outs { sum as u64 } else { 0 };
            out.push(c.cell(&def, v, false));
            defs.insert(i as u16, def);
        }
        op.destructible_out = Confined::from_checked(out);
        let opid = crate::kit::opid_of(&op);
        let mut outpoints = vec![];
        for x in &inputs {
            let o = seal_of(&x.1, x.2).expect("seal").primary;
            if !outpoints.contains(&o) {
                outpoints.push(o);
            }
        }
        let w = wit(&c, outpoints, opid.to_byte_array(), 8, rng);
        let txid = w.published.txid();
        for (i, d) in &defs {
            let v = if *i as usize + 1 == outs { sum } else { 0 };
            live.push((CellAddr::new(opid, *i), *d, Some(txid), v, false));
        }
        recs.push(Rec { op, defs, wit: Some(w) });
    }
    for _ in 0..posts {
        let mut op = c.new_op(CALL_POST, rng.u64());
        op.immutable_out = Confined::from_checked(crate::world::rand_globals(rng));
        let at = rng.range(1, recs.len());
        recs.insert(at, Rec { op, defs: BTreeMap::new(), wit: None });
    }
    let mut store = Store::new(&c);
    sim.eval(&spec, &c, &mut store, None, &recs, &How::plain(), "large");
    // With a defect in an unusual place
    for _ in 0..if kind == 5 { 2 } else { 4 } {
        let mut bad = recs.clone();
        let i = match (kind, rng.below(3)) {
            (2 | 3, 0) => rng.range(253, 258).min(bad.len() - 1),
            (2 | 3, 1) => rng.below(bad.len()),
            _ => rng.below(bad.len().min(5)),
        };
        let name = match if matches!(kind, 0 | 5) && rng.chance(150) { 13 } else { rng.below(13) } {
            13 => {
                // A single cell of the genesis, in the name of a like one
                let n = c.genesis_op.destructible_out.len();
                let pos = rng.range(n.min(257) - 1, n - 1) as u16;
                let cell = &c.genesis_op.destructible_out[pos as usize];
                let mut op = c.new_op(CALL_TRANSFER, rng.u64());
                op.destructible_in = Confined::from_checked(vec![Input {
                    addr: CellAddr::new(c.genesis_opid, pos),
                    witness: if cell.lock.is_some() { amount(LOCK_KEY) } else { StateValue::None },
                }]);
                let def = rand_def(rng);
                op.destructible_out =
                    Confined::from_checked(vec![c.cell(&def, cell_amount(cell).unwrap_or_default() as u64, false)]);
                bad.truncate(1);
                bad.push(Rec { op, defs: BTreeMap::from([(0, def)]), wit: None });
                if !crate::wild::usurp(&c, &mut bad, 1, rng) {
                    continue;
                }
                "seal_of_another_cell_closed"
            }
            0 => {
                // Two positions which differ by a multiple of 256
                let keys = bad[i].defs.keys().copied().filter(|k| bad[i].defs.contains_key(&(k.wrapping_add(256)))).collect::<Vec<_>>();
                if keys.is_empty() {
                    continue;
                }
                let k = *rng.pick(&keys);
                let (a, b) = (bad[i].defs[&k], bad[i].defs[&(k + 256)]);
                bad[i].defs.insert(k, b);
                bad[i].defs.insert(k + 256, a);
                "definitions_swapped_by_256"
            }
            1 => {
                let keys = bad[i].defs.keys().copied().collect::<Vec<_>>();
                if keys.is_empty() {
                    continue;
                }
                let k = if rng.chance(500) { keys[keys.len() - 1] } else { *rng.pick(&keys) };
                bad[i].defs.insert(k, rand_def(rng));
                "one_of_many_definitions_wrong"
            }
            2 => {
                let n = bad[i].op.destructible_out.len();
                // No more definitions fit a record
                if n > u16::MAX as usize || bad[i].defs.len() >= u16::MAX as usize {
                    continue;
                }
                let d = bad[i].defs.values().next().copied().unwrap_or_else(|| rand_def(rng));
                bad[i].defs.insert(n as u16, d);
                "definition_out_of_range"
            }
            3 => {
                let Some(w) = bad[i].wit.as_mut() else { continue };
                let mut list = w.published.inputs.to_vec();
                let k = list.len() - 1;
                list[k].prev_output = rand_outpoint(rng);
                w.published.inputs = Confined::from_checked(list);
                "last_of_many_seals_not_spent"
            }
            4 => {
                let mut list = bad[i].op.destructible_in.to_vec();
                if list.is_empty() {
                    continue;
                }
                let x = if rng.chance(500) { list[0] } else { list[list.len() - 1] };
                list.push(x);
                bad[i].op.destructible_in = Confined::from_checked(list);
                anchor(&c, &mut bad, i, &[], rng);
                bad.truncate(i + 1);
                "input_listed_twice"
            }
            5 | 6 => {
                // Of many inputs one has no definition
                let i = 1.min(bad.len() - 1);
                let list = bad[i].op.destructible_in.to_vec();
                if i == 0 || list.is_empty() {
                    continue;
                }
                let a = if rng.chance(700) { list[list.len() - 1].addr } else { rng.pick(&list).addr };
                for k in 0..i {
                    if k > 0 || a.opid == c.genesis_opid {
                        bad[k].defs.remove(&a.pos);
                    }
                }
                bad.truncate(i + 1);
                "definition_of_one_of_many_inputs_missing"
            }
            7 => {
                let i = 1.min(bad.len() - 1);
                let list = bad[i].op.destructible_in.to_vec();
                if i == 0 || list.is_empty() {
                    continue;
                }
                let a = if rng.chance(700) { list[list.len() - 1].addr } else { rng.pick(&list).addr };
                anchor(&c, &mut bad, i, &[a], rng);
                bad.truncate(i + 1);
                "one_of_many_seals_not_closed"
            }
            8 | 9 => {
                let i = if kind == 3 && bad.len() > 256 { 256 } else { i };
                if rng.chance(400) {
                    let g = bad[0].clone();
                    bad.insert(i.max(1), g);
                } else if i > 0 {
                    bad[i].op.contract_id = codex_form(&c);
                    if !bad[i].op.destructible_in.is_empty() {
                        anchor(&c, &mut bad, i, &[], rng);
                    }
                }
                "codex_instead_of_contract"
            }
            10 => {
                bad[i].wit = None;
                "witness_dropped"
            }
            11 => {
                let mut cells = bad[i].op.destructible_out.to_vec();
                if i == 0 || cells.is_empty() {
                    continue;
                }
                let k = rng.below(cells.len());
                let v = cell_amount(&cells[k]).unwrap_or_default() as u64;
                cells[k].data = amount(v.wrapping_add(1));
                bad[i].op.destructible_out = Confined::from_checked(cells);
                anchor(&c, &mut bad, i, &[], rng);
                "amount_altered"
            }
            _ => {
                let keep = bad[i].defs.keys().copied().filter(|_| rng.chance(500)).collect::<Vec<_>>();
                bad[i].defs.retain(|k, _| keep.contains(k));
                "definitions_withheld"
            }
        };
        sim.stats.fault(&format!("byzantine_{name}"));
        let mut store = if rng.chance(500) && name != "seal_of_another_cell_closed" { store.clone() } else { Store::new(&c) };
        sim.eval(&spec, &c, &mut store, None, &bad, &How::plain(), "large_attack");
    }
}
