//! Byzantine peers: tampering with consignments.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::{ByteArray, Bytes};
use bp::seals::mmb::Message;
use bp::seals::mpc::ProtocolId;
use bp::seals::{Noise, TxoSeal, TxoSealExt, WOutpoint};
use bp::{Outpoint, Sats, ScriptPubkey, SeqNo, Tx, TxIn, TxOut, Txid};
use single_use_seals::PublishedWitness;
use ultrasonic::{fe256, AuthToken, CellAddr, ContractId, Input, Opid, StateData, StateValue};

use crate::contract::{amount, cell_amount, CALLS, CALL_GATED, CALL_HIGH, CALL_POST, CALL_SIGNED, LOCK_KEY, SIGNED};
use crate::kit::{build_tx, fresh_outpoint, is_wout, rand_ext, rand_outpoint, seal_of, Bundle, Def, Rec, TxSpec, Wit};
use crate::rng::Rng;
use crate::sim::IntoVout;
use crate::store::Store;
use crate::world::{rand_globals, rand_value, World};

/// A stream of true operations of a contract.
pub struct Base {
    pub recs: Vec<Rec>,
    pub set: BTreeSet<Opid>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Wits {
    /// Those which are to be used.
    Best,
    /// Now and then a witness which was replaced.
    Any,
}

/// A valid consignment with some of the operations of the ledger.
pub fn base(w: &World, ct: usize, rng: &mut Rng, withhold: usize, wits: Wits) -> Base {
    let t = &w.cts[ct];
    let usable = t
        .order
        .iter()
        .filter(|o| t.ops[*o].op.destructible_in.is_empty() || !t.ops[*o].wits.is_empty())
        .copied()
        .collect::<Vec<_>>();
    let n = match rng.below(4) {
        0 => usable.len(),
        1 => 1,
        _ => rng.below(usable.len() + 1),
    };
    let mut targets = usable.clone();
    rng.shuffle(&mut targets);
    targets.truncate(n);
    let set = t.closure(targets);
    let order = t.topo(&set, rng);
    Base { recs: records(w, ct, &order, rng, withhold, wits), set }
}

/// Records of the given operations after the genesis; definitions used later are always there.
pub fn records(w: &World, ct: usize, order: &[Opid], rng: &mut Rng, withhold: usize, wits: Wits) -> Vec<Rec> {
    let t = &w.cts[ct];
    let needed = order
        .iter()
        .flat_map(|o| t.ops[o].op.destructible_in.iter().map(|i| i.addr))
        .collect::<BTreeSet<_>>();
    let defs = |opid: Opid, rng: &mut Rng| {
        let mut d = t.defs(&opid);
        d.retain(|pos, _| needed.contains(&CellAddr::new(opid, *pos)) || !rng.chance(withhold));
        d
    };
    let mut recs = vec![Rec { op: t.c.genesis_stream_op(), defs: defs(t.c.genesis_opid, rng), wit: None }];
    for o in order {
        let op = &t.ops[o];
        let wit = if wits == Wits::Any && op.wits.len() > 1 && rng.chance(200) {
            Some(rng.pick(&op.wits).clone())
        } else {
            w.best_wit(ct, o)
        };
        recs.push(Rec { op: op.op.clone(), defs: defs(*o, rng), wit });
    }
    recs
}

pub fn opid_at(w: &World, ct: usize, recs: &[Rec], i: usize) -> Opid {
    let mut op = recs[i].op.clone();
    if i == 0 {
        op.contract_id = w.cts[ct].c.id;
    }
    crate::kit::opid_of(&op)
}

/// Where a definition of a consumed cell stands in the stream, and the seal it gives.
pub fn seal_in(w: &World, ct: usize, recs: &[Rec], upto: usize, addr: &CellAddr) -> Option<TxoSeal> {
    for i in (0..upto.min(recs.len())).rev() {
        if opid_at(w, ct, recs, i) != addr.opid {
            continue;
        }
        let txid = recs[i].wit.as_ref().map(|w| w.published.pub_id());
        if let Some(seal) = recs[i].defs.get(&addr.pos).and_then(|d| seal_of(d, txid)) {
            return Some(seal);
        }
    }
    let t = &w.cts[ct];
    let txid = w.best_wit(ct, &addr.opid).map(|w| w.published.pub_id());
    t.def(addr).and_then(|d| seal_of(&d, txid))
}

pub struct Editor<'a> {
    pub w: &'a World,
    pub ct: usize,
    /// Only transactions which this wallet is able to get into the blockchain.
    pub chain: Option<usize>,
    /// Transactions got into the blockchain in addition.
    pub mined: BTreeSet<Txid>,
    pub own_spent: BTreeSet<Outpoint>,
}

/// Groups of edits.
pub const GROUPS: [&str; 5] = ["witness", "definition", "operation", "stream", "genesis"];
const COUNTS: [usize; 5] = [20, 18, 21, 15, 13];

impl<'a> Editor<'a> {
    pub fn new(w: &'a World, ct: usize, chain: Option<usize>) -> Self {
        Editor { w, ct, chain, mined: BTreeSet::new(), own_spent: BTreeSet::new() }
    }

    fn controls(&self, wallet: usize, o: &Outpoint) -> bool {
        // Outpoints of own cells which are not spent
        !self.w.spent.contains_key(o)
            && !self.own_spent.contains(o)
            && self
                .w
                .spendable(wallet, self.ct)
                .iter()
                .any(|(_, x)| x == o)
    }

    /// Makes a new witness for the record so that nothing is wrong with the closing of seals, as far as possible.
    pub fn anchor(&mut self, recs: &mut [Rec], i: usize, rng: &mut Rng) {
        let opid = opid_at(self.w, self.ct, recs, i);
        let mut outpoints = vec![];
        for input in &recs[i].op.destructible_in {
            if let Some(seal) = seal_in(self.w, self.ct, recs, i, &input.addr) {
                if !outpoints.contains(&seal.primary) {
                    outpoints.push(seal.primary);
                }
            }
        }
        let wit = self.make_wit(outpoints, opid, rng);
        recs[i].wit = Some(wit);
    }

    pub fn make_wit(&mut self, mut outpoints: Vec<Outpoint>, opid: Opid, rng: &mut Rng) -> Wit {
        if let Some(wallet) = self.chain {
            outpoints.retain(|o| self.controls(wallet, o));
            self.own_spent.extend(outpoints.iter().copied());
        }
        if outpoints.is_empty() || rng.chance(200) {
            // Of what is his own
            outpoints.push(if self.chain.is_some() { fresh_outpoint(rng) } else { rand_outpoint(rng) });
        }
        rng.shuffle(&mut outpoints);
        let protocol = self.w.protocol(self.ct);
        let msg = opid.to_byte_array();
        let mut bundles = BTreeMap::new();
        bundles.insert(protocol, (0..outpoints.len() as u32).map(|i| (i, msg)).collect::<Bundle>());
        if rng.chance(150) {
            bundles.insert(rng.bytes(), Bundle::from([(0, rng.bytes())]));
        }
        let outs = rng.range(1, 5);
        let spec = TxSpec {
            inputs: outpoints,
            bundles,
            outs,
            tapret: rng.chance(500),
            commit_pos: rng.below(outs + 1),
            entropy: rng.u64(),
        };
        let (tx, anchors) = build_tx(&spec);
        if self.chain.is_some() {
            self.mined.insert(tx.txid());
        }
        Wit::new(tx, anchors[&protocol].clone())
    }

    pub fn random(&mut self, recs: &mut Vec<Rec>, rng: &mut Rng, weights: &[usize; 5]) -> Option<String> {
        let g = rng.weighted(weights);
        let n = rng.below(COUNTS[g]);
        if recs.is_empty() {
            return None;
        }
        let done = match g {
            0 => self.witness(recs, n, rng),
            1 => self.definition(recs, n, rng),
            2 => self.operation(recs, n, rng),
            3 => self.stream(recs, n, rng),
            _ => self.genesis(recs, n, rng),
        };
        done.map(|s| s.to_owned())
    }

    fn with_wit(&self, recs: &[Rec], rng: &mut Rng) -> Option<usize> {
        let v = (0..recs.len()).filter(|i| recs[*i].wit.is_some()).collect::<Vec<_>>();
        (!v.is_empty()).then(|| *rng.pick(&v))
    }
    fn some_op(&self, recs: &[Rec], rng: &mut Rng) -> Option<usize> { (recs.len() > 1).then(|| rng.range(1, recs.len() - 1)) }
    fn consuming(&self, recs: &[Rec], rng: &mut Rng, n: usize) -> Option<usize> {
        let v = (1..recs.len())
            .filter(|i| recs[*i].op.destructible_in.len() >= n)
            .collect::<Vec<_>>();
        (!v.is_empty()).then(|| *rng.pick(&v))
    }

    // -------------------------------------------------------------------------------------- witness

    fn witness(&mut self, recs: &mut [Rec], n: usize, rng: &mut Rng) -> Option<&'static str> {
        let i = self.with_wit(recs, rng)?;
        let seals = recs[i]
            .op
            .destructible_in
            .iter()
            .filter_map(|x| seal_in(self.w, self.ct, recs, i, &x.addr))
            .collect::<Vec<_>>();
        let wit = recs[i].wit.as_mut().unwrap();
        Some(match n {
            0 => {
                recs[i].wit = None;
                "witness_dropped"
            }
            1 => {
                let k = self.with_wit(recs, rng)?;
                if k == i {
                    return None;
                }
                let other = recs[k].wit.clone();
                recs[i].wit = other;
                "witness_of_other_operation"
            }
            2 => {
                let k = self.with_wit(recs, rng)?;
                if k == i {
                    return None;
                }
                let a = recs[i].wit.take();
                let b = recs[k].wit.take();
                recs[i].wit = b;
                recs[k].wit = a;
                "witnesses_swapped"
            }
            3 => {
                // One of the seals isn't spent
                let seal = *rng.pick_opt(&seals)?;
                let pos = wit.published.inputs.iter().position(|x| x.prev_output == seal.primary)?;
                let mut list = wit.published.inputs.to_vec();
                list[pos].prev_output = rand_outpoint(rng);
                wit.published.inputs = Confined::from_checked(list);
                "seal_not_spent"
            }
            4 | 5 => {
                let seal = *rng.pick_opt(&seals)?;
                let pos = wit.published.inputs.iter().position(|x| x.prev_output == seal.primary)? as u32;
                let mut map = wit.client.mmb_proof.map.iter().map(|(k, v)| (*k, *v)).collect::<BTreeMap<_, _>>();
                if n == 4 {
                    map.insert(pos, Message::from(rng.bytes::<32>()));
                } else {
                    map.remove(&pos);
                }
                wit.client.mmb_proof.map = Confined::from_iter_checked(map);
                "bundle_altered"
            }
            6 => {
                // Properly committed, but one of the seals is closed over another message
                let seal = *rng.pick_opt(&seals)?;
                let opid = opid_at(self.w, self.ct, recs, i);
                let o = seals.iter().map(|s| s.primary).collect::<BTreeSet<_>>();
                let protocol = self.w.protocol(self.ct);
                let mut bundle = Bundle::new();
                let drop = rng.chance(500);
                for (k, x) in o.iter().enumerate() {
                    if *x == seal.primary && drop {
                        continue;
                    }
                    let msg = if *x == seal.primary { rng.bytes() } else { opid.to_byte_array() };
                    bundle.insert(k as u32, msg);
                }
                // The operation is committed to at another input
                if rng.chance(700) {
                    bundle.insert(o.len() as u32, opid.to_byte_array());
                }
                if bundle.is_empty() {
                    bundle.insert(9, rng.bytes());
                }
                let mut inputs = o.into_iter().collect::<Vec<_>>();
                inputs.push(rand_outpoint(rng));
                let spec = TxSpec {
                    inputs,
                    bundles: BTreeMap::from([(protocol, bundle)]),
                    outs: 3,
                    tapret: rng.chance(500),
                    commit_pos: 0,
                    entropy: rng.u64(),
                };
                let (tx, anchors) = build_tx(&spec);
                recs[i].wit = Some(Wit::new(tx, anchors[&protocol].clone()));
                "seal_closed_over_other_message"
            }
            7 => {
                wit.client.mpc_protocol = ProtocolId::from_byte_array(rng.bytes::<32>());
                "protocol_altered"
            }
            8 => {
                if wit.client.dbc_proof.take().is_none() {
                    // The proof of another
                    let donor = self.w.cts[self.ct]
                        .ops
                        .values()
                        .flat_map(|o| o.wits.iter())
                        .find_map(|w| w.client.dbc_proof.clone())?;
                    recs[i].wit.as_mut().unwrap().client.dbc_proof = Some(donor);
                }
                "commitment_proof_type_altered"
            }
            9 => {
                let mut outs = wit.published.outputs.to_vec();
                outs.insert(0, TxOut { value: Sats::ZERO, script_pubkey: ScriptPubkey::op_return(&rng.bytes::<32>()) });
                wit.published.outputs = Confined::from_checked(outs);
                "other_commitment_output_first"
            }
            10 => {
                let mut outs = wit.published.outputs.to_vec();
                let k = outs
                    .iter()
                    .position(|o| o.script_pubkey.is_op_return() || o.script_pubkey.is_p2tr())?;
                match rng.below(3) {
                    0 => outs[k].script_pubkey = ScriptPubkey::op_return(&rng.bytes::<32>()),
                    1 => {
                        outs.remove(k);
                    }
                    _ => {
                        let mut b = outs[k].script_pubkey.to_vec();
                        let at = b.len() - 1 - rng.below(30);
                        b[at] ^= 1 << rng.below(8);
                        outs[k].script_pubkey = ScriptPubkey::from_checked(b);
                    }
                }
                wit.published.outputs = Confined::from_checked(outs);
                "commitment_output_altered"
            }
            11 => {
                // Closes all the seals, but over another operation
                let mut o = seals.iter().map(|s| s.primary).collect::<Vec<_>>();
                o.dedup();
                let new = self.make_wit(o, Opid::from_byte_array(rng.bytes::<32>()), rng);
                recs[i].wit = Some(new);
                "commits_to_other_operation"
            }
            12 => {
                self.anchor(recs, i, rng);
                "another_valid_witness"
            }
            13 => {
                // Transaction of one witness with the anchor of another one of the same operation
                let opid = opid_at(self.w, self.ct, recs, i);
                let t = self.w.cts[self.ct].ops.get(&opid)?;
                if t.wits.len() < 2 {
                    return None;
                }
                let (a, b) = (rng.pick(&t.wits), rng.pick(&t.wits));
                let new = Wit::new(a.published.clone(), b.client.clone());
                recs[i].wit = Some(new);
                "anchor_of_replaced_witness"
            }
            14 => {
                // A witness where none is needed
                let v = (0..recs.len()).filter(|k| recs[*k].op.destructible_in.is_empty()).collect::<Vec<_>>();
                let k = *rng.pick_opt(&v)?;
                if rng.chance(600) {
                    self.anchor(recs, k, rng);
                    "witness_for_no_inputs"
                } else {
                    let other = recs[i].wit.clone();
                    recs[k].wit = other;
                    "foreign_witness_for_no_inputs"
                }
            }
            15 => {
                // The same spending at two inputs
                let mut list = wit.published.inputs.to_vec();
                let x = list[rng.below(list.len())].clone();
                list.insert(0, x);
                wit.published.inputs = Confined::from_checked(list);
                "input_repeated"
            }
            16 => {
                let seal = *rng.pick_opt(&seals)?;
                let pos = wit.published.inputs.iter().position(|x| x.prev_output == seal.primary)?;
                let mut list = wit.published.inputs.to_vec();
                list[pos].prev_output = match (rng.below(3), seal.secondary) {
                    (0, TxoSealExt::Fallback(f)) => f,
                    (1, _) => Outpoint::new(seal.primary.txid, (seal.primary.vout.into_u32() ^ 1).into_vout()),
                    _ => {
                        let mut id = seal.primary.txid.to_byte_array();
                        id[rng.below(32)] ^= 1 << rng.below(8);
                        Outpoint::new(Txid::from_byte_array(id), seal.primary.vout)
                    }
                };
                wit.published.inputs = Confined::from_checked(list);
                "other_output_spent"
            }
            17 => {
                // Nothing which is committed to changes, but the id does
                match rng.below(3) {
                    0 => wit.published.lock_time = bp::LockTime::from_consensus_u32(rng.u64() as u32),
                    1 => {
                        let mut list = wit.published.inputs.to_vec();
                        let k = rng.below(list.len());
                        list[k].sequence = SeqNo::from_consensus_u32(rng.u64() as u32);
                        wit.published.inputs = Confined::from_checked(list);
                    }
                    _ => {
                        let mut outs = wit.published.outputs.to_vec();
                        outs.push(TxOut { value: Sats::from(rng.below(1000) as u64), script_pubkey: ScriptPubkey::p2wpkh(rng.bytes::<20>()) });
                        wit.published.outputs = Confined::from_checked(outs);
                    }
                }
                "witness_id_altered"
            }
            18 => {
                let mut list = wit.published.inputs.to_vec();
                list.push(TxIn {
                    prev_output: rand_outpoint(rng),
                    sig_script: Default::default(),
                    sequence: SeqNo::ZERO,
                    witness: Default::default(),
                });
                if rng.chance(500) {
                    list.rotate_right(1);
                }
                wit.published.inputs = Confined::from_checked(list);
                "input_added"
            }
            _ => {
                // Empty parts
                match rng.below(3) {
                    0 => wit.published.outputs = Confined::from_checked(vec![TxOut { value: Sats::ZERO, script_pubkey: ScriptPubkey::p2wpkh(rng.bytes::<20>()) }]),
                    1 => wit.client.mmb_proof.map = Default::default(),
                    _ => {
                        let donor = self.w.cts[self.ct].ops.values().flat_map(|o| o.wits.iter()).collect::<Vec<_>>();
                        wit.client.mpc_proof = rng.pick_opt(&donor)?.client.mpc_proof.clone();
                    }
                }
                "witness_part_replaced"
            }
        })
    }

    // -------------------------------------------------------------------------------------- definitions

    fn definition(&mut self, recs: &mut Vec<Rec>, n: usize, rng: &mut Rng) -> Option<&'static str> {
        let v = (0..recs.len())
            .filter(|i| !recs[*i].op.destructible_out.is_empty())
            .collect::<Vec<_>>();
        let i = *rng.pick_opt(&v)?;
        let opid = opid_at(self.w, self.ct, recs, i);
        let truth = self.w.cts[self.ct].defs(&opid);
        let len = recs[i].op.destructible_out.len();
        let defs = &mut recs[i].defs;
        let keys = defs.keys().copied().collect::<Vec<_>>();
        let some = rng.pick_opt(&keys).copied();
        Some(match n {
            0 => {
                let d = defs.get_mut(&some?)?;
                d.secondary = match d.secondary {
                    TxoSealExt::Noise(x) => {
                        let mut b: [u8; 40] = crate::kit::encode(&x).try_into().expect("noise");
                        b[rng.below(40)] ^= 1 << rng.below(8);
                        TxoSealExt::Noise(Noise::from(Bytes::from(b)))
                    }
                    TxoSealExt::Fallback(o) => TxoSealExt::Fallback(flip_outpoint(o, rng)),
                };
                "definition_secondary_altered"
            }
            1 => {
                let d = defs.get_mut(&some?)?;
                d.primary = match d.primary {
                    WOutpoint::Wout(v) => WOutpoint::Wout((v.into_u32() ^ (1 << rng.below(32))).into_vout()),
                    WOutpoint::Extern(o) => WOutpoint::Extern(flip_outpoint(o, rng)),
                };
                "definition_primary_altered"
            }
            2 => {
                if keys.len() < 2 {
                    return None;
                }
                let (a, b) = (*rng.pick(&keys), *rng.pick(&keys));
                if a == b {
                    return None;
                }
                let (x, y) = (defs[&a], defs[&b]);
                defs.insert(a, y);
                defs.insert(b, x);
                "definitions_swapped"
            }
            3 => {
                let d = defs.remove(&some?)?;
                let to = rng.below(len + 1) as u16;
                if Some(to) == some {
                    return None;
                }
                defs.insert(to, d);
                "definition_moved"
            }
            4 => {
                let pos = match rng.below(5) {
                    0 => len as u16,
                    1 => len as u16 + 1,
                    2 => u16::MAX,
                    3 => some.unwrap_or_default().wrapping_add(256),
                    _ => 256u16.wrapping_mul(rng.below(255) as u16).wrapping_add(some.unwrap_or_default()),
                };
                if (pos as usize) < len {
                    return None;
                }
                let d = some.and_then(|p| defs.get(&p).copied()).unwrap_or_else(|| rand_def(rng));
                if rng.chance(400) {
                    if let Some(p) = some {
                        defs.remove(&p);
                    }
                }
                defs.insert(pos, d);
                "definition_out_of_range"
            }
            5 => {
                // Somebody else's cell is taken over
                let pos = rng.below(len) as u16;
                defs.insert(pos, rand_def(rng));
                "own_definition_for_a_cell"
            }
            6 => {
                let d = defs.get_mut(&some?)?;
                d.primary = match d.primary {
                    WOutpoint::Wout(_) => WOutpoint::Extern(rand_outpoint(rng)),
                    WOutpoint::Extern(o) => WOutpoint::Wout(o.vout),
                };
                "definition_kind_altered"
            }
            7 => {
                // A resolved form of a relative seal
                let pos = keys.iter().find(|p| is_wout(&defs[*p])).copied()?;
                let txid = recs[i].wit.as_ref()?.published.pub_id();
                let d = recs[i].defs.get_mut(&pos)?;
                if let WOutpoint::Wout(v) = d.primary {
                    d.primary = WOutpoint::Extern(Outpoint::new(txid, v));
                }
                "definition_resolved"
            }
            8 => {
                let k = *rng.pick(&v);
                let other = *rng.pick_opt(&recs[k].defs.values().copied().collect::<Vec<_>>())?;
                let pos = rng.below(len) as u16;
                if recs[i].defs.get(&pos) == Some(&other) {
                    return None;
                }
                recs[i].defs.insert(pos, other);
                "definition_of_other_operation"
            }
            9 => {
                defs.clear();
                "definitions_withheld"
            }
            10 => {
                defs.remove(&some?);
                "definition_withheld"
            }
            11 => {
                defs.extend(truth);
                "definitions_all"
            }
            12 => {
                let d = *defs.get(&some?)?;
                let pos = rng.below(len) as u16;
                if Some(pos) == some {
                    return None;
                }
                defs.insert(pos, d);
                "definition_doubled"
            }
            13 => {
                let d = defs.get_mut(&some?)?;
                d.secondary = match d.secondary {
                    TxoSealExt::Noise(_) => TxoSealExt::Fallback(match d.primary {
                        WOutpoint::Extern(o) => o,
                        WOutpoint::Wout(_) => rand_outpoint(rng),
                    }),
                    TxoSealExt::Fallback(_) => TxoSealExt::Noise(Noise::from(Bytes::from(rng.bytes::<40>()))),
                };
                "definition_secondary_kind_altered"
            }
            14..=16 => {
                // The cell has a token which is nearly the one of the definition
                let j = *rng.pick_opt(&v.into_iter().filter(|j| *j > 0).collect::<Vec<_>>())?;
                if !recs[j].near_token(rng) {
                    return None;
                }
                if recs[j].wit.is_some() {
                    self.anchor(recs, j, rng);
                }
                if rng.chance(700) {
                    recs.truncate(j + 1);
                }
                "token_nearly_right"
            }
            _ => {
                // All but one are correct, the wrong one is anywhere
                *defs = truth;
                let keys = defs.keys().copied().collect::<Vec<_>>();
                let p = *rng.pick_opt(&keys)?;
                defs.insert(p, rand_def(rng));
                "one_definition_wrong_among_all"
            }
        })
    }

    // -------------------------------------------------------------------------------------- operations

    fn operation(&mut self, recs: &mut Vec<Rec>, n: usize, rng: &mut Rng) -> Option<&'static str> {
        let t = &self.w.cts[self.ct];
        let i = match n {
            4 | 5 | 8 | 9 | 17 => self.consuming(recs, rng, 1)?,
            18 => self.consuming(recs, rng, 2)?,
            11..=13 => 0,
            _ => self.some_op(recs, rng)?,
        };
        let chop = rng.chance(600);
        let op = &mut recs[i].op;
        let mut added = None;
        let name = match n {
            0 => {
                op.contract_id = match rng.below(4) {
                    0 => ContractId::from_byte_array(t.c.codex_id.to_byte_array()),
                    1 => self.w.cts[rng.below(self.w.cts.len())].c.id,
                    2 => {
                        let mut b = op.contract_id.to_byte_array();
                        b[rng.below(32)] ^= 1 << rng.below(8);
                        ContractId::from_byte_array(b)
                    }
                    _ => ContractId::from_byte_array(rng.bytes::<32>()),
                };
                if op.contract_id == t.c.id {
                    return None;
                }
                "contract_id_altered"
            }
            1 => {
                let calls = [4, 5, 7, 255, 256, 257, 0xFFFD, 0xFFFF, op.call_id ^ 0x100, op.call_id ^ 0x8000];
                op.call_id = *rng.pick(&calls);
                "unknown_method"
            }
            2 => {
                let mut cells = op.destructible_out.to_vec();
                let k = *rng.pick_opt(&(0..cells.len()).collect::<Vec<_>>())?;
                let v = cell_amount(&cells[k])? as u64;
                cells[k].data = amount(match rng.below(3) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    _ => rng.u64(),
                });
                op.destructible_out = Confined::from_checked(cells);
                "amount_altered"
            }
            3 => {
                op.call_id = CALL_SIGNED;
                op.witness = amount(SIGNED + 1 + rng.below(5) as u64);
                "signature_missing"
            }
            4 => {
                let mut list = op.destructible_in.to_vec();
                for x in list.iter_mut() {
                    if x.witness == amount(LOCK_KEY) {
                        x.witness = if rng.chance(500) { StateValue::None } else { amount(LOCK_KEY + 1) };
                    }
                }
                op.destructible_in = Confined::from_checked(list);
                "lock_not_satisfied"
            }
            5 => {
                let mut list = op.destructible_in.to_vec();
                let k = rng.below(list.len());
                let opid = if rng.chance(500) { list[k].addr.opid } else { Opid::from_byte_array(rng.bytes::<32>()) };
                list[k].addr = CellAddr::new(opid, rng.below(9) as u16 + 3);
                op.destructible_in = Confined::from_checked(list);
                "missing_owned_input"
            }
            6 => {
                let mut list = op.immutable_in.to_vec();
                list.push(CellAddr::new(
                    if rng.chance(500) { t.c.genesis_opid } else { Opid::from_byte_array(rng.bytes::<32>()) },
                    100 + rng.below(500) as u16,
                ));
                op.immutable_in = Confined::from_checked(list);
                "missing_global_input"
            }
            7 => {
                op.call_id = CALL_GATED;
                let mut list = op.immutable_in.to_vec();
                list.retain(|a| *a != CellAddr::new(t.c.genesis_opid, 0));
                if t.c.genesis.immutable_out.len() > 1 && rng.chance(500) {
                    list.insert(0, CellAddr::new(t.c.genesis_opid, 1));
                }
                op.immutable_in = Confined::from_checked(list);
                "gate_not_read"
            }
            8 => {
                // The same cell twice, giving twice the amount
                let mut list = op.destructible_in.to_vec();
                let x = *rng.pick(&list);
                let at = if rng.chance(300) { 0 } else { list.len() };
                list.insert(at, x);
                op.destructible_in = Confined::from_checked(list);
                let addr = x.addr;
                let v = self.cell_value(recs, i, &addr).unwrap_or_default();
                let op = &mut recs[i].op;
                let mut cells = op.destructible_out.to_vec();
                if let Some(c) = cells.first_mut() {
                    let old = cell_amount(c).unwrap_or_default() as u64;
                    c.data = amount(old.wrapping_add(v));
                    op.destructible_out = Confined::from_checked(cells);
                }
                "input_listed_twice"
            }
            9 | 10 => {
                // Another operation consuming the same: a double spend
                let mut copy = recs[i].clone();
                copy.op.nonce = fe256::from(rng.u64());
                let at = if rng.chance(500) { i + 1 } else { rng.range(i, recs.len()) };
                if n == 10 {
                    // with the definitions delivered again
                    let ops = copy.op.destructible_in.iter().map(|x| x.addr.opid).collect::<BTreeSet<_>>();
                    let again = (0..i)
                        .filter(|k| ops.contains(&opid_at(self.w, self.ct, recs, *k)))
                        .map(|k| recs[k].clone())
                        .map(|mut r| {
                            r.op.contract_id = t.c.id;
                            r
                        })
                        .collect::<Vec<_>>();
                    let m = again.len();
                    for (k, r) in again.into_iter().enumerate() {
                        recs.insert(at + k, r);
                    }
                    recs.insert(at + m, copy);
                    added = Some(at + m);
                } else {
                    recs.insert(at, copy);
                    added = Some(at);
                }
                "conflicting_operation"
            }
            11..=13 => {
                // A new valid operation of some unspent cells
                let rec = self.extend(recs, rng, n == 13)?;
                recs.push(rec);
                let last = recs.len() - 1;
                added = Some(last);
                if n == 13 { "unbalanced_operation" } else { "one_more_operation" }
            }
            14 => {
                // Out of nothing
                op.destructible_in = Default::default();
                "no_inputs"
            }
            15 => {
                op.nonce = fe256::from(rng.u64());
                "nonce_altered"
            }
            16 => {
                let mut cells = op.destructible_out.to_vec();
                let k = *rng.pick_opt(&(0..cells.len()).collect::<Vec<_>>())?;
                match rng.below(3) {
                    0 => cells[k].auth = AuthToken::from_byte_array(rng.bytes::<30>()),
                    1 => cells[k].lock = None,
                    _ => {
                        let c = cells[k];
                        cells.push(c);
                    }
                }
                op.destructible_out = Confined::from_checked(cells);
                "output_altered"
            }
            17 => {
                let mut list = op.destructible_in.to_vec();
                let k = rng.below(list.len());
                list.remove(k);
                op.destructible_in = Confined::from_checked(list);
                "input_removed"
            }
            18 => {
                let mut list = op.destructible_in.to_vec();
                list.reverse();
                op.destructible_in = Confined::from_checked(list);
                "inputs_reordered"
            }
            19 => {
                let mut list = op.immutable_out.to_vec();
                list.push(StateData { value: rand_value(rng), raw: None });
                op.immutable_out = Confined::from_checked(list);
                "global_added"
            }
            _ => {
                // A posting which takes or gives owned state
                op.call_id = CALL_POST;
                "method_altered"
            }
        };
        let at = added.unwrap_or(i);
        // Mostly only the operation is wrong, and its witness is fine
        if recs[at].op.destructible_in.is_empty() && rng.chance(700) {
            recs[at].wit = None;
        } else if rng.chance(900) {
            self.anchor(recs, at, rng);
        }
        if chop {
            recs.truncate(at + 1);
        }
        Some(name)
    }

    /// Takes cells of others, with nothing but own seals closed. Ends the stream with the theft.
    pub fn embezzle(&mut self, recs: &mut Vec<Rec>, rng: &mut Rng) -> Option<&'static str> {
        let t = &self.w.cts[self.ct];
        let own = match self.chain {
            Some(wallet) => self.w.spendable(wallet, self.ct).into_iter().map(|(a, _)| a).collect::<BTreeSet<_>>(),
            None => BTreeSet::new(),
        };
        let used = recs
            .iter()
            .flat_map(|r| r.op.destructible_in.iter().map(|x| x.addr))
            .collect::<BTreeSet<_>>();
        let (mut mine, mut theirs) = (vec![], vec![]);
        for i in 0..recs.len() {
            let opid = opid_at(self.w, self.ct, recs, i);
            for (pos, cell) in recs[i].op.destructible_out.iter().enumerate() {
                let addr = CellAddr::new(opid, pos as u16);
                if used.contains(&addr) {
                    continue;
                }
                let known = recs[i].defs.contains_key(&(pos as u16));
                if own.contains(&addr) && known {
                    mine.push((addr, *cell));
                } else if known || rng.chance(300) {
                    theirs.push((addr, *cell));
                }
            }
        }
        rng.shuffle(&mut mine);
        rng.shuffle(&mut theirs);
        mine.truncate(rng.below(3));
        theirs.truncate(rng.range(1, 2));
        if theirs.is_empty() {
            return None;
        }
        let mut name = "cells_of_others_consumed";
        if rng.chance(300) {
            // Own definitions for these cells are delivered first
            for (addr, _) in &theirs {
                let Some(k) = (0..recs.len()).find(|k| opid_at(self.w, self.ct, recs, *k) == addr.opid) else { continue };
                let own_def = Def { primary: WOutpoint::Extern(rand_outpoint(rng)), secondary: rand_ext(rng) };
                if rng.chance(500) {
                    recs[k].defs.insert(addr.pos, own_def);
                } else {
                    let mut r = recs[k].clone();
                    r.op.contract_id = t.c.id;
                    r.defs = BTreeMap::from([(addr.pos, own_def)]);
                    recs.push(r);
                }
            }
            name = "cells_of_others_redefined";
        } else if rng.chance(200) {
            // Their operations are delivered again with another witness
            for (addr, _) in &theirs {
                let Some(k) = (0..recs.len()).find(|k| opid_at(self.w, self.ct, recs, *k) == addr.opid) else { continue };
                let mut r = recs[k].clone();
                r.op.contract_id = t.c.id;
                let wit = self.make_wit(vec![], addr.opid, rng);
                if rng.chance(300) {
                    recs[k].wit = Some(wit);
                } else {
                    r.wit = Some(wit);
                    recs.push(r);
                }
            }
            name = "operations_of_others_rewitnessed";
        }
        // Own cells are closed properly, so they are best placed first
        let mut cells = mine.clone();
        cells.extend(theirs);
        if rng.chance(250) {
            rng.shuffle(&mut cells);
        }
        let call = *rng.pick(&CALLS);
        let mut op = t.c.new_op(call, rng.u64());
        if call == CALL_SIGNED {
            op.witness = amount(SIGNED);
        }
        if call == CALL_GATED {
            op.immutable_in = Confined::from_checked(vec![CellAddr::new(t.c.genesis_opid, 0)]);
        }
        op.destructible_in = Confined::from_iter_checked(cells.iter().map(|(addr, cell)| Input {
            addr: *addr,
            witness: match rng.below(3) {
                0 if cell.lock.is_none() => StateValue::None,
                1 if cell.lock.is_none() => rand_value(rng),
                _ => amount(LOCK_KEY),
            },
        }));
        let sum = cells.iter().filter_map(|(_, c)| cell_amount(c)).fold(0, u128::wrapping_add);
        let def = rand_def(rng);
        op.destructible_out = Confined::from_checked(vec![t.c.cell(&def, sum as u64, false)]);
        let opid = crate::kit::opid_of(&op);
        let outpoints = mine
            .iter()
            .filter_map(|(a, _)| seal_in(self.w, self.ct, recs, recs.len(), a))
            .map(|s| s.primary)
            .collect::<Vec<_>>();
        let wit = self.make_wit(outpoints, opid, rng);
        let wit = (!rng.chance(80)).then_some(wit);
        recs.push(Rec { op, defs: BTreeMap::from([(0, def)]), wit });
        Some(name)
    }

    fn cell_value(&self, recs: &[Rec], upto: usize, addr: &CellAddr) -> Option<u64> {
        for i in 0..upto {
            if opid_at(self.w, self.ct, recs, i) == addr.opid {
                return cell_amount(recs[i].op.destructible_out.get(addr.pos as usize)?).map(|v| v as u64);
            }
        }
        None
    }

    /// A new operation on cells which no operation of the stream consumes.
    fn extend(&self, recs: &[Rec], rng: &mut Rng, unbalanced: bool) -> Option<Rec> {
        let t = &self.w.cts[self.ct];
        let mut cells = vec![];
        for i in 0..recs.len() {
            let opid = opid_at(self.w, self.ct, recs, i);
            for pos in recs[i].defs.keys() {
                let addr = CellAddr::new(opid, *pos);
                if seal_in(self.w, self.ct, recs, recs.len(), &addr).is_some() {
                    if let Some(cell) = recs[i].op.destructible_out.get(*pos as usize) {
                        cells.push((addr, *cell));
                    }
                }
            }
        }
        let used = recs
            .iter()
            .flat_map(|r| r.op.destructible_in.iter().map(|x| x.addr))
            .collect::<BTreeSet<_>>();
        cells.retain(|(a, _)| !used.contains(a));
        cells.dedup_by_key(|c| c.0);
        if let Some(wallet) = self.chain {
            let own = self.w.spendable(wallet, self.ct);
            cells.retain(|(a, _)| own.iter().any(|(x, _)| x == a));
        }
        rng.shuffle(&mut cells);
        cells.truncate(rng.range(1, 3));
        if cells.is_empty() {
            return None;
        }
        let call = *rng.pick(&CALLS);
        let mut op = t.c.new_op(call, rng.u64());
        if call == CALL_SIGNED {
            op.witness = amount(SIGNED);
        }
        if call == CALL_GATED {
            op.immutable_in = Confined::from_checked(vec![CellAddr::new(t.c.genesis_opid, 0)]);
        }
        let _ = CALL_HIGH;
        let sum = cells.iter().filter_map(|(_, c)| cell_amount(c)).fold(0, |s, v| (v as u64).wrapping_add(s));
        op.destructible_in = Confined::from_iter_checked(cells.iter().map(|(addr, cell)| Input {
            addr: *addr,
            witness: match rng.below(4) {
                _ if cell.lock.is_some() => amount(LOCK_KEY),
                0 => rand_value(rng),
                1 => amount(LOCK_KEY),
                _ => StateValue::None,
            },
        }));
        let n = rng.range(1, 3);
        let mut defs = BTreeMap::new();
        let mut out = vec![];
        for k in 0..n {
            let def = rand_def(rng);
            let mut v = if k == 0 { sum } else { 0 };
            if unbalanced && k == 0 {
                v = v.wrapping_add(1 + rng.below(1000) as u64);
            }
            out.push(t.c.cell(&def, v, false));
            defs.insert(k as u16, def);
        }
        op.destructible_out = Confined::from_checked(out);
        op.immutable_out = Confined::from_checked(rand_globals(rng));
        Some(Rec { op, defs, wit: None })
    }

    // -------------------------------------------------------------------------------------- stream

    fn stream(&mut self, recs: &mut Vec<Rec>, n: usize, rng: &mut Rng) -> Option<&'static str> {
        let t = &self.w.cts[self.ct];
        let i = rng.below(recs.len());
        Some(match n {
            0 | 1 => {
                if i == 0 {
                    return None;
                }
                recs.remove(i);
                "record_dropped"
            }
            2 => {
                let mut r = recs[i].clone();
                r.op.contract_id = t.c.id;
                recs.insert(i + 1, r);
                "record_doubled"
            }
            3 => {
                let mut r = recs[i].clone();
                r.op.contract_id = t.c.id;
                let at = rng.range(i + 1, recs.len());
                recs.insert(at, r);
                "record_repeated_later"
            }
            4 => {
                if i < 2 {
                    return None;
                }
                recs.swap(i, i - 1);
                "records_swapped"
            }
            5 => {
                rng.shuffle(&mut recs[1..]);
                "records_shuffled"
            }
            6 => {
                recs.truncate(i);
                "stream_ends_early"
            }
            7 => {
                let mut g = recs[0].clone();
                if rng.chance(500) {
                    g.op.contract_id = t.c.id;
                }
                let at = rng.range(1, recs.len());
                recs.insert(at, g);
                "genesis_in_the_middle"
            }
            8 => {
                // The codex form of the contract id in the middle
                if i == 0 {
                    return None;
                }
                recs[i].op.contract_id = ContractId::from_byte_array(t.c.codex_id.to_byte_array());
                "codex_form_in_the_middle"
            }
            9 => {
                let ct = rng.below(self.w.cts.len());
                if ct == self.ct {
                    return None;
                }
                let other = base(self.w, ct, rng, 0, Wits::Best).recs;
                let k = rng.below(other.len());
                let at = rng.range(1, recs.len());
                recs.insert(at, other[k].clone());
                "record_of_other_contract"
            }
            10 => {
                // Everything again, genesis including
                let copy = recs
                    .iter()
                    .cloned()
                    .map(|mut r| {
                        r.op.contract_id = t.c.id;
                        r
                    })
                    .collect::<Vec<_>>();
                recs.extend(copy);
                "stream_twice_in_one"
            }
            11 => {
                // The definitions alone are delivered again, without the witness
                let mut r = recs[i].clone();
                r.op.contract_id = t.c.id;
                if r.op.destructible_in.is_empty() {
                    r.wit = None;
                }
                let at = rng.range(i + 1, recs.len());
                recs.insert(at, r);
                "definitions_again"
            }
            12 => {
                recs[1..].reverse();
                "records_reversed"
            }
            13 => {
                // Moved before what it depends on
                if i < 2 {
                    return None;
                }
                let r = recs.remove(i);
                let at = rng.range(1, i);
                recs.insert(at, r);
                "record_moved_forward"
            }
            _ => {
                // A repeated record with other definitions or another witness
                let mut r = recs[i].clone();
                r.op.contract_id = t.c.id;
                let at = rng.range(i + 1, recs.len());
                let all = t.defs(&crate::kit::opid_of(&r.op));
                if rng.chance(500) {
                    r.defs = all;
                } else {
                    r.defs.clear();
                }
                recs.insert(at, r);
                if recs[at].wit.is_some() && rng.chance(600) {
                    self.anchor(recs, at, rng);
                }
                "record_repeated_differently"
            }
        })
    }

    // -------------------------------------------------------------------------------------- genesis

    fn genesis(&mut self, recs: &mut Vec<Rec>, n: usize, rng: &mut Rng) -> Option<&'static str> {
        let t = &self.w.cts[self.ct];
        let codex = t.c.codex_id.to_byte_array();
        Some(match n {
            0 => {
                recs[0].op.contract_id = t.c.id;
                "genesis_with_contract_id"
            }
            1 => {
                let mut b = codex;
                b[rng.below(32)] ^= 1 << rng.below(8);
                recs[0].op.contract_id = ContractId::from_byte_array(b);
                "codex_id_altered"
            }
            2 => {
                let other = &self.w.cts[rng.below(self.w.cts.len())].c;
                if other.genesis_opid == t.c.genesis_opid {
                    return None;
                }
                recs[0] = Rec { op: other.genesis_stream_op(), defs: other.genesis_defs.clone(), wit: None };
                "genesis_of_other_contract"
            }
            3 => {
                let other = &self.w.cts[rng.below(self.w.cts.len())].c;
                if other.genesis_opid == t.c.genesis_opid {
                    return None;
                }
                let mut op = other.genesis_stream_op();
                op.contract_id = ContractId::from_byte_array(codex);
                recs[0] = Rec { op, defs: other.genesis_defs.clone(), wit: None };
                "genesis_of_other_contract_under_this_codex"
            }
            4 => {
                recs[0].op.nonce = fe256::from(rng.u64());
                "genesis_nonce_altered"
            }
            5 => {
                let mut cells = recs[0].op.destructible_out.to_vec();
                let k = *rng.pick_opt(&(0..cells.len()).collect::<Vec<_>>())?;
                cells[k].data = amount(rng.u64());
                recs[0].op.destructible_out = Confined::from_checked(cells);
                "genesis_amount_altered"
            }
            6 => {
                recs.remove(0);
                "genesis_missing"
            }
            7 => {
                recs.remove(0);
                if recs.is_empty() {
                    return None;
                }
                recs[0].op.contract_id = ContractId::from_byte_array(codex);
                "operation_for_genesis"
            }
            8 => {
                recs[0].op.call_id = *rng.pick(&[0, 1, 3, 8, 0xFFFE]);
                "genesis_method_altered"
            }
            9 => {
                self.anchor(recs, 0, rng);
                "genesis_with_witness"
            }
            10 => {
                recs.clear();
                "empty_stream"
            }
            11 => {
                // A genesis which gives everything to somebody else
                let def = rand_def(rng);
                let mut cells = recs[0].op.destructible_out.to_vec();
                if let Some(c) = cells.first_mut() {
                    *c = t.c.cell(&def, 1_000_000, false);
                } else {
                    cells.push(t.c.cell(&def, 1_000_000, false));
                }
                recs[0].op.destructible_out = Confined::from_checked(cells);
                recs[0].defs.insert(0, def);
                "forged_genesis"
            }
            _ => {
                // A valid operation without inputs, standing for genesis
                let mut op = t.c.new_op(CALL_POST, rng.u64());
                op.immutable_out = Confined::from_checked(vec![StateData { value: amount(5), raw: None }]);
                op.contract_id = ContractId::from_byte_array(codex);
                let rec = Rec { op, defs: BTreeMap::new(), wit: None };
                if rng.chance(500) {
                    recs[0] = rec;
                } else {
                    recs.insert(0, rec);
                }
                "posting_for_genesis"
            }
        })
    }

    /// May the operation consume the cell without being in the ledger?
    pub fn may_consume(&self, addr: &CellAddr) -> bool {
        let Some(wallet) = self.chain else { return false };
        self.w.spendable(wallet, self.ct).iter().any(|(a, _)| a == addr)
    }
}

pub fn rand_def(rng: &mut Rng) -> Def {
    let primary = if rng.chance(400) {
        WOutpoint::Wout(crate::kit::rand_vout(rng).into_vout())
    } else {
        WOutpoint::Extern(rand_outpoint(rng))
    };
    Def { primary, secondary: rand_ext(rng) }
}

fn flip_outpoint(o: Outpoint, rng: &mut Rng) -> Outpoint {
    if rng.chance(500) {
        Outpoint::new(o.txid, (o.vout.into_u32() ^ (1 << rng.below(32))).into_vout())
    } else {
        let mut id = o.txid.to_byte_array();
        id[rng.below(32)] ^= 1 << rng.below(8);
        Outpoint::new(Txid::from_byte_array(id), o.vout)
    }
}

impl Rng {
    pub fn pick_opt<'a, T>(&mut self, v: &'a [T]) -> Option<&'a T> {
        if v.is_empty() {
            None
        } else {
            Some(self.pick(v))
        }
    }
}

/// The whole stream of what is in a store, where needed by probes.
pub fn all_known(w: &World, ct: usize, store: &Store) -> Vec<Opid> {
    w.cts[ct]
        .order
        .iter()
        .filter(|o| store.ops.contains_key(*o))
        .copied()
        .collect()
}

#[allow(unused)]
fn keep(_: Tx) {}
