//! The reference: what an evaluation must do with a stream, said independently of the code under test.

use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use amplify::ByteArray;
use bp::seals::TxoSeal;
use bp::Txid;
use single_use_seals::{ClientSideWitness, PublishedWitness, SealError, SingleUseSeal};
use ultrasonic::{CallError, CellAddr, ContractId, Opid};

use crate::contract::Contract;
use crate::kit::{is_wout, seal_of, token, Rec};
use crate::session::{ErrSpec, ErrV, Item};
use crate::store::{JRec, Store};

/// A defect of an operation.
#[derive(Clone, Debug)]
pub enum Fault {
    /// The first operation doesn't commit to the codex.
    Codex,
    /// The first operation is not the genesis of the contract.
    Foreign,
    Def(ErrV),
    Seal { addr: CellAddr, dup: bool, wout: bool },
    Vm(CallError),
    NoWitness,
    NotClosed { errs: Vec<ErrV>, wout: bool },
}

impl Fault {
    pub fn name(&self) -> &'static str {
        match self {
            Fault::Codex => "no_codex",
            Fault::Foreign => "foreign_genesis",
            Fault::Def(_) => "definition",
            Fault::Seal { dup: true, .. } => "duplicate_input",
            Fault::Seal { wout: true, .. } => "unresolved_wout",
            Fault::Seal { .. } => "seal_unknown",
            Fault::Vm(e) => match e {
                CallError::WrongContract { .. } => "wrong_contract",
                CallError::NotFound(_) => "no_method",
                CallError::NoReadOnceInput(_) => "no_owned_input",
                CallError::NoImmutableInput(_) => "no_global_input",
                CallError::Lock(_) => "lock",
                CallError::Script(_) | CallError::ScriptUnspecified => "script",
            },
            Fault::NoWitness => "no_witness",
            Fault::NotClosed { .. } => "not_closed",
        }
    }
    /// Errors which name this defect truly.
    pub fn names(&self, opid: Opid, err: &ErrV) -> bool {
        match (self, err) {
            (Fault::Codex, ErrV::NoCodex) => true,
            (Fault::Foreign, ErrV::NoCodex) => true,
            (Fault::Def(e), err) => e == err,
            (Fault::Seal { addr, .. }, ErrV::SealUnknown(a)) => a == addr,
            (Fault::Vm(e), ErrV::Vm(x)) => e == x,
            (Fault::NoWitness, ErrV::NoWitness(o)) => *o == opid,
            (Fault::NotClosed { errs, .. }, err) => errs.contains(err),
            _ => false,
        }
    }
}

/// An operation which must be accepted.
#[derive(Clone, Debug)]
pub struct Acc {
    /// Index among the items of the stream.
    pub item: usize,
    pub opid: Opid,
    pub known: bool,
    /// Notifications it causes.
    pub effects: Vec<JRec>,
    /// Consumes a cell with a seal relative to a witness.
    pub wout_in: bool,
    pub partial: bool,
}

#[derive(Clone, Debug)]
pub enum End {
    Ok,
    Refuse { item: usize, opid: Opid, known: bool, faults: Vec<Fault> },
    Stream { item: usize, spec: ErrSpec },
}

impl End {
    pub fn name(&self) -> String {
        match self {
            End::Ok => "Ok".to_owned(),
            End::Refuse { faults, .. } => format!("Refuse({})", faults.iter().map(Fault::name).collect::<Vec<_>>().join("+")),
            End::Stream { .. } => "Stream".to_owned(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Judgement {
    pub acc: Vec<Acc>,
    pub end: End,
    /// The contract after the evaluation.
    pub after: Store,
    /// A dependency panicked: nothing can be said on the stream.
    pub dep_panic: bool,
}

impl Judgement {
    pub fn ok(&self) -> bool { matches!(self.end, End::Ok) }
    /// Notifications of the accepted operations.
    pub fn effects(&self) -> impl Iterator<Item = &JRec> { self.acc.iter().flat_map(|a| a.effects.iter()) }
}

fn guard<T>(dep_panic: &mut bool, or: T, f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(_) => {
            *dep_panic = true;
            or
        }
    }
}

pub fn not_closed(opid: Opid, txid: Txid, err: SealError<TxoSeal>) -> ErrV {
    ErrV::NotClosed(txid, opid, format!("{err:?}"))
}

/// Judges the items read by an evaluation. `foreign_ok` accepts (as the code does, see the known findings) any first
/// operation committing to the codex.
pub fn judge(c: &Contract, before: &Store, items: &[Item], foreign_ok: bool) -> Judgement {
    let mut j = Judgement { acc: vec![], end: End::Ok, after: before.clone(), dep_panic: false };
    let mut seals = BTreeMap::<CellAddr, (TxoSeal, bool)>::new();
    // Cells with definitions relative to a witness which was not given
    let mut hanging = BTreeSet::<CellAddr>::new();
    let mut first = true;
    for (no, item) in items.iter().enumerate() {
        let rec = match item {
            Item::Err(spec) => {
                j.end = End::Stream { item: no, spec: *spec };
                return j;
            }
            Item::Rec(rec) => rec,
        };
        let mut rec: Rec = rec.clone();
        let mut faults = vec![];
        if first {
            if rec.op.contract_id.to_byte_array() != c.codex_id.to_byte_array() {
                let opid = crate::kit::opid_of(&rec.op);
                j.end = End::Refuse { item: no, opid, known: false, faults: vec![Fault::Codex] };
                return j;
            }
            rec.op.contract_id = c.id;
        }
        let opid = crate::kit::opid_of(&rec.op);
        let known = j.after.knows(opid);
        if first && opid != c.genesis_opid && !foreign_ok {
            faults.push(Fault::Foreign);
        }

        // Definitions: each must be the one its own cell commits to
        let wrong = rec.defs.iter().any(|(pos, def)| match rec.op.destructible_out.get(*pos as usize) {
            Some(cell) => cell.auth != token(def),
            None => true,
        });
        if wrong {
            faults.push(Fault::Def(ErrV::DefMismatch {
                opid,
                reported: rec.defs.values().map(token).collect(),
                defined: rec.op.destructible_out.iter().map(|c| c.auth).collect(),
                sources: rec.defs.iter().map(|(k, d)| (*k, d.to_string())).collect(),
            }));
        }

        // Closed seals
        let mut closed = vec![];
        let mut seen = BTreeSet::new();
        let mut wout_in = false;
        for input in &rec.op.destructible_in {
            match seals.remove(&input.addr) {
                Some((seal, wout)) => {
                    wout_in |= wout;
                    closed.push((seal, wout));
                }
                None => faults.push(Fault::Seal {
                    addr: input.addr,
                    dup: seen.contains(&input.addr),
                    wout: hanging.contains(&input.addr),
                }),
            }
            seen.insert(input.addr);
        }

        if !known {
            let res = guard(&mut j.dep_panic, Ok(()), || {
                c.codex
                    .verify(c.id, rec.op.clone(), &j.after, &c.repo)
                    .map(|_| ())
            });
            if let Err(e) = res {
                faults.push(Fault::Vm(e));
            }
        }

        match &rec.wit {
            None if !rec.op.destructible_in.is_empty() => faults.push(Fault::NoWitness),
            None => {}
            Some(w) => {
                let mut errs = vec![];
                let mut bad_wout = false;
                let txid = w.published.pub_id();
                let msg = || opid.to_byte_array().into();
                for (seal, wout) in &closed {
                    if !guard(&mut j.dep_panic, true, || seal.is_included(msg(), w)) {
                        errs.push(not_closed(opid, txid, SealError::NotIncluded(*seal, txid)));
                        bad_wout |= wout;
                    }
                }
                let proof = guard(&mut j.dep_panic, None, || Some(w.client.convolve_commit(msg())));
                match proof {
                    None => {}
                    Some(Err(e)) => errs.push(not_closed(opid, txid, SealError::Client(e))),
                    Some(Ok(proof)) => {
                        if let Err(e) = guard(&mut j.dep_panic, Ok(()), || w.published.verify_commitment(proof)) {
                            errs.push(not_closed(opid, txid, SealError::Published(e)));
                        }
                    }
                }
                if !errs.is_empty() {
                    faults.push(Fault::NotClosed { errs, wout: bad_wout });
                }
            }
        }

        if !faults.is_empty() || j.dep_panic {
            j.end = End::Refuse { item: no, opid, known, faults };
            return j;
        }

        // Accepted
        let mut effects = vec![];
        let txid = rec.wit.as_ref().map(|w| w.published.pub_id());
        for (pos, def) in &rec.defs {
            let addr = CellAddr::new(opid, *pos);
            match seal_of(def, txid) {
                Some(seal) => {
                    hanging.remove(&addr);
                    seals.insert(addr, (seal, is_wout(def)));
                }
                None => {
                    hanging.insert(addr);
                }
            }
        }
        if let Some(w) = &rec.wit {
            effects.push(JRec::W(opid, Arc::new(w.clone())));
        }
        if !first && !known {
            effects.push(JRec::O(opid, Arc::new(rec.op.clone())));
        }
        let partial = rec.defs.len() < rec.op.destructible_out.len();
        if !rec.defs.is_empty() {
            effects.push(JRec::S(opid, rec.defs.clone()));
        }
        for e in &effects {
            j.after.apply(e);
        }
        j.acc.push(Acc { item: no, opid, known, effects, wout_in, partial });
        first = false;
    }
    j
}

/// Identity of the contract used by an operation which stands in a stream.
pub fn codex_form(c: &Contract) -> ContractId { ContractId::from_byte_array(c.codex_id.to_byte_array()) }
