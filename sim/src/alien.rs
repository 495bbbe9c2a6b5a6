//! The same code with another single-use seal protocol: a made-up ledger, whose pages close lots. Nothing of Bitcoin
//! takes part, hence what the code does with seals is judged by what it may know of any protocol: several seals closed
//! by one page, pages with the same identifier, closings which depend on the message.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::error::Error;
use std::fmt::{self, Display, Formatter};
use std::io::Cursor;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use amplify::confinement::{Confined, SmallOrdMap, SmallVec};
use amplify::ByteArray;
use rgbcore::{ContractApi, ContractVerify, OperationSeals, ReadOperation, RgbSeal, RgbSealDef, VerificationError};
use serde::{Deserialize, Serialize};
use single_use_seals::{ClientSideWitness, PublishedWitness, SealError, SealWitness, SingleUseSeal};
use strict_encoding::{StreamReader, StrictDecode, StrictDumb, StrictEncode, StrictType};
use ultrasonic::{
    fe256, AuthToken, CallError, CellAddr, Codex, ContractId, Input, LibRepo, Memory, Operation, Opid, StateValue,
    VerifiedOperation,
};

use crate::compare::finding;
use crate::contract::{amount, cell_amount, Contract, Repo, CALL_HIGH, CALL_POST, CALL_TRANSFER, LOCK_KEY};
use crate::kit::{encode, h64, near_token, op_bytes, opid_of, short, MAX};
#[cfg(feature = "json")]
use crate::kit::{texts, wide_tokens};
use crate::rng::{mix, Rng};
use crate::session::untold;
use crate::sim::Sim;
use crate::store::{JRec, Store};

const LIB_NAME_SIM: &str = "SimSeals";

// ---------------------------------------------------------------------------------------------- the protocol

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB_NAME_SIM)]
pub struct Lot {
    home: u64,
    slot: u16,
    /// Lots with an odd number here are closed for a single message only.
    extra: u32,
}
impl Display for Lot {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "{:x}.{}/{}", self.home, self.slot, self.extra) }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB_NAME_SIM)]
pub struct LotDef {
    /// Zero stands for the page delivered together with the definition.
    home: u64,
    slot: u16,
    extra: u32,
}
impl Display for LotDef {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "def {:x}.{}/{}", self.home, self.slot, self.extra) }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB_NAME_SIM)]
pub struct Closing {
    lot: Lot,
    tag: u8,
}

#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB_NAME_SIM)]
pub struct Page {
    id: u64,
    closes: SmallVec<Closing>,
    commits: SmallVec<u64>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode, Serialize, Deserialize)]
#[strict_type(lib = LIB_NAME_SIM)]
pub struct Slip {
    salt: u64,
    void: u8,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SlipErr(u8);
impl Display for SlipErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "the slip is void ({})", self.0) }
}
impl Error for SlipErr {}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PageErr(u64);
impl Display for PageErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "page {:x} has no such commitment", self.0) }
}
impl Error for PageErr {}

fn proof(msg: [u8; 32], salt: u64) -> u64 { h64(&msg) ^ mix(salt) }

fn closes(lot: &Lot, msg: &[u8; 32], page: &Page) -> bool {
    page.closes
        .iter()
        .any(|c| c.lot == *lot && (lot.extra % 2 == 0 || c.tag == msg[31]))
}

impl SingleUseSeal for Lot {
    type Message = [u8; 32];
    type PubWitness = Page;
    type CliWitness = Slip;
    fn is_included(&self, msg: [u8; 32], w: &SealWitness<Self>) -> bool { closes(self, &msg, &w.published) }
}
impl PublishedWitness<Lot> for Page {
    type PubId = u64;
    type Error = PageErr;
    fn pub_id(&self) -> u64 { self.id }
    fn verify_commitment(&self, proof: u64) -> Result<(), PageErr> {
        if self.commits.contains(&proof) { Ok(()) } else { Err(PageErr(self.id)) }
    }
}
impl ClientSideWitness for Slip {
    type Seal = Lot;
    type Proof = u64;
    type Error = SlipErr;
    fn convolve_commit(&self, msg: [u8; 32]) -> Result<u64, SlipErr> {
        if self.void == 0 { Ok(proof(msg, self.salt)) } else { Err(SlipErr(self.void)) }
    }
    fn merge(&mut self, _: Self) -> Result<(), impl Error> { Ok::<_, SlipErr>(()) }
}
impl RgbSeal for Lot {
    type Definition = LotDef;
    type Published = Page;
    type Client = Slip;
    type WitnessId = u64;
}

fn auth(d: &LotDef) -> AuthToken {
    let mut b = [0u8; 30];
    b[..8].copy_from_slice(&d.home.to_le_bytes());
    b[8..10].copy_from_slice(&d.slot.to_le_bytes());
    b[10..14].copy_from_slice(&d.extra.to_le_bytes());
    let sum = h64(&b[..14]);
    b[14..22].copy_from_slice(&sum.to_le_bytes());
    AuthToken::from_byte_array(b)
}
fn lot_of(d: &LotDef, page: Option<u64>) -> Option<Lot> {
    let home = if d.home == 0 { page? } else { d.home };
    Some(Lot { home, slot: d.slot, extra: d.extra })
}
impl RgbSealDef for LotDef {
    type Src = Lot;
    fn auth_token(&self) -> AuthToken { auth(self) }
    fn resolve(&self, id: u64) -> Lot { lot_of(self, Some(id)).expect("id is given") }
    fn to_src(&self) -> Option<Lot> { lot_of(self, None) }
}

// ---------------------------------------------------------------------------------------------- records, wallet

#[derive(Clone, Debug)]
struct Rec {
    op: Operation,
    defs: BTreeMap<u16, LotDef>,
    wit: Option<(Page, Slip)>,
}
type Lib = OperationSeals<Lot>;

impl Rec {
    fn to_lib(&self) -> Lib {
        OperationSeals {
            operation: self.op.clone(),
            defined_seals: SmallOrdMap::from_iter_checked(self.defs.iter().map(|(k, v)| (*k, *v))),
            witness: self.wit.clone().map(|(p, s)| SealWitness::new(p, s)),
        }
    }
    fn of_lib(b: &Lib) -> Rec {
        Rec {
            op: b.operation.clone(),
            defs: b.defined_seals.iter().map(|(k, v)| (*k, *v)).collect(),
            wit: b.witness.as_ref().map(|w| (w.published.clone(), w.client.clone())),
        }
    }
    fn same(&self, o: &Rec) -> bool {
        crate::kit::same_op(&self.op, &o.op) && self.defs == o.defs && self.wit == o.wit
    }
}

#[derive(Clone, Debug)]
enum Item {
    Rec(Rec),
    Err(u64),
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Eff {
    W(Opid, Page, Slip),
    O(Opid, Vec<u8>),
    S(Opid, BTreeMap<u16, LotDef>),
}
impl Eff {
    fn opid(&self) -> Opid {
        match self {
            Eff::W(o, ..) | Eff::O(o, _) | Eff::S(o, _) => *o,
        }
    }
    fn kind(&self) -> char {
        match self {
            Eff::W(..) => 'W',
            Eff::O(..) => 'O',
            Eff::S(..) => 'S',
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Read {
    At(usize),
    After,
}

#[derive(Clone, PartialEq, Debug)]
enum ErrV {
    Stream(bool),
    NoCodex,
    NoWitness(Opid),
    NotClosed(u64, Opid, String),
    SealUnknown(CellAddr),
    Def { opid: Opid, reported: BTreeSet<AuthToken>, defined: BTreeSet<AuthToken>, sources: BTreeMap<u16, String> },
    Vm(CallError),
}

#[derive(Clone, PartialEq, Debug)]
enum Verdict {
    Ok,
    Err(ErrV),
    Panic(String),
    Crash,
    Runaway,
}

struct CrashSignal;
struct RunawaySignal;

#[derive(Debug)]
struct ReadErr(u64);
impl Display for ReadErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "simulated read error #{}", self.0) }
}
impl Error for ReadErr {}

struct Ctl {
    eff: RefCell<Vec<Eff>>,
    reads: RefCell<Vec<Read>>,
    points: Cell<usize>,
    budget: usize,
    crash: Option<(usize, bool)>,
}
impl Ctl {
    fn point(&self) {
        self.points.set(self.points.get() + 1);
        if self.points.get() > self.budget {
            resume_unwind(Box::new(RunawaySignal));
        }
    }
}

struct Reader<'a> {
    items: &'a [Item],
    ctl: &'a Ctl,
    next: usize,
    over: bool,
}
impl ReadOperation for Reader<'_> {
    type Seal = Lot;
    fn read_operation(&mut self) -> Result<Option<Lib>, impl Error + 'static> {
        self.ctl.point();
        self.ctl.reads.borrow_mut().push(if self.over { Read::After } else { Read::At(self.next) });
        let item = self.items.get(self.next);
        self.next += 1;
        match item {
            None => {
                self.over = true;
                Ok(None)
            }
            Some(Item::Err(id)) => {
                self.over = true;
                Err(ReadErr(*id))
            }
            Some(Item::Rec(r)) => Ok(Some(r.to_lib())),
        }
    }
}

struct Node<'a> {
    c: &'a Contract,
    store: &'a mut Store,
    ctl: &'a Ctl,
}
impl Node<'_> {
    fn notified(&mut self, eff: Eff, op: Option<Operation>) {
        self.ctl.point();
        let n = self.ctl.eff.borrow().len();
        if self.ctl.crash == Some((n, false)) {
            resume_unwind(Box::new(CrashSignal));
        }
        if let Some(op) = op {
            self.store.apply(&JRec::O(eff.opid(), std::sync::Arc::new(op)));
        }
        self.ctl.eff.borrow_mut().push(eff);
        if self.ctl.crash == Some((n, true)) {
            resume_unwind(Box::new(CrashSignal));
        }
    }
}
impl ContractApi<Lot> for Node<'_> {
    fn contract_id(&self) -> ContractId {
        self.ctl.point();
        self.c.id
    }
    fn codex(&self) -> &Codex {
        self.ctl.point();
        &self.c.codex
    }
    fn repo(&self) -> &impl LibRepo {
        let repo: &Repo = &self.c.repo;
        repo
    }
    fn memory(&self) -> &impl Memory { &*self.store }
    fn is_known(&self, opid: Opid) -> bool {
        self.ctl.point();
        self.store.knows(opid)
    }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        let opid = op.opid();
        let op = op.into_operation();
        self.notified(Eff::O(opid, op_bytes(&op)), Some(op));
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, LotDef>) {
        self.notified(Eff::S(opid, seals.iter().map(|(k, v)| (*k, *v)).collect()), None);
    }
    fn apply_witness(&mut self, opid: Opid, w: SealWitness<Lot>) {
        self.notified(Eff::W(opid, w.published, w.client), None);
    }
}

fn verdict(e: VerificationError<Lot>, items: &[Item]) -> ErrV {
    match e {
        VerificationError::Stream(e) => ErrV::Stream(
            items
                .iter()
                .any(|i| matches!((i, e.downcast_ref::<ReadErr>()), (Item::Err(a), Some(b)) if *a == b.0)),
        ),
        VerificationError::NoCodexCommitment => ErrV::NoCodex,
        VerificationError::NoWitness(o) => ErrV::NoWitness(o),
        VerificationError::SealsNotClosed(id, o, e) => ErrV::NotClosed(id, o, format!("{e:?}")),
        VerificationError::SealUnknown(a) => ErrV::SealUnknown(a),
        VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources } => {
            ErrV::Def { opid, reported, defined, sources }
        }
        VerificationError::Vm(e) => ErrV::Vm(e),
    }
}

struct Out {
    verdict: Verdict,
    untold: Vec<String>,
    eff: Vec<Eff>,
    reads: Vec<Read>,
}

fn run(c: &Contract, store: &mut Store, items: &[Item], crash: Option<(usize, bool)>) -> Out {
    let ctl = Ctl {
        eff: RefCell::new(vec![]),
        reads: RefCell::new(vec![]),
        points: Cell::new(0),
        budget: items.len() * 64 + 256,
        crash,
    };
    let mut node = Node { c, store, ctl: &ctl };
    let reader = Reader { items, ctl: &ctl, next: 0, over: false };
    let mut texts = vec![];
    let verdict = match catch_unwind(AssertUnwindSafe(|| node.evaluate(reader))) {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(e)) => {
            texts = untold(&e);
            Verdict::Err(verdict(e, items))
        }
        Err(p) if p.is::<CrashSignal>() => Verdict::Crash,
        Err(p) if p.is::<RunawaySignal>() => Verdict::Runaway,
        Err(p) => Verdict::Panic(
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned()))
                .unwrap_or_default(),
        ),
    };
    Out { verdict, untold: texts, eff: ctl.eff.into_inner(), reads: ctl.reads.into_inner() }
}

// ---------------------------------------------------------------------------------------------- reference

/// A defect: the property forbidding to accept it, and the reports naming it.
#[derive(Clone, Debug)]
struct Fault {
    props: Vec<&'static str>,
    names: Vec<ErrV>,
}

enum End {
    Ok,
    Stream,
    Refuse(Vec<Fault>),
}

struct Acc {
    item: usize,
    opid: Opid,
    known: bool,
    relative: bool,
    eff: Vec<Eff>,
}

struct Judged {
    acc: Vec<Acc>,
    end: End,
    /// Number of the item which decides.
    at: usize,
    last: Option<(Opid, bool)>,
}

fn judge(c: &Contract, before: &Store, items: &[Item]) -> Judged {
    let mut store = before.clone();
    let mut acc = vec![];
    let mut open = BTreeMap::<CellAddr, (Lot, bool)>::new();
    for (at, item) in items.iter().enumerate() {
        let Item::Rec(rec) = item else { return Judged { acc, end: End::Stream, at, last: None } };
        let mut rec = rec.clone();
        let first = at == 0;
        if first {
            if rec.op.contract_id.to_byte_array() != c.codex_id.to_byte_array() {
                let f = Fault { props: vec!["C06"], names: vec![ErrV::NoCodex] };
                return Judged { acc, end: End::Refuse(vec![f]), at, last: None };
            }
            rec.op.contract_id = c.id;
        }
        let opid = opid_of(&rec.op);
        let known = store.knows(opid);
        let mut faults = vec![];
        let cells = &rec.op.destructible_out;
        if rec
            .defs
            .iter()
            .any(|(pos, d)| cells.get(*pos as usize).map(|c| c.auth) != Some(auth(d)))
        {
            faults.push(Fault {
                props: vec!["C04"],
                names: vec![ErrV::Def {
                    opid,
                    reported: rec.defs.values().map(auth).collect(),
                    defined: cells.iter().map(|c| c.auth).collect(),
                    sources: rec.defs.iter().map(|(k, d)| (*k, d.to_string())).collect(),
                }],
            });
        }
        let mut closed = vec![];
        let mut relative = false;
        for input in &rec.op.destructible_in {
            match open.remove(&input.addr) {
                Some((lot, rel)) => {
                    relative |= rel;
                    closed.push((lot, rel));
                }
                None => faults.push(Fault { props: vec!["C03"], names: vec![ErrV::SealUnknown(input.addr)] }),
            }
        }
        if !known {
            if let Err(e) = c.codex.verify(c.id, rec.op.clone(), &store, &c.repo) {
                faults.push(Fault { props: vec!["C01"], names: vec![ErrV::Vm(e)] });
            }
        }
        let msg = opid.to_byte_array();
        let page = rec.wit.as_ref().map(|(p, _)| p.id);
        match &rec.wit {
            None if !rec.op.destructible_in.is_empty() => {
                faults.push(Fault { props: vec!["C02"], names: vec![ErrV::NoWitness(opid)] });
            }
            None => {}
            Some((page, slip)) => {
                let mut names = vec![];
                let mut props = vec!["C02"];
                let mut say = |e: SealError<Lot>| names.push(ErrV::NotClosed(page.id, opid, format!("{e:?}")));
                for (lot, rel) in &closed {
                    if !closes(lot, &msg, page) {
                        say(SealError::NotIncluded(*lot, page.id));
                        if *rel {
                            props.push("C05");
                        }
                    }
                }
                if slip.void != 0 {
                    say(SealError::Client(SlipErr(slip.void)));
                } else if !page.commits.contains(&proof(msg, slip.salt)) {
                    say(SealError::Published(PageErr(page.id)));
                }
                if !names.is_empty() {
                    faults.push(Fault { props, names });
                }
            }
        }
        if !faults.is_empty() {
            return Judged { acc, end: End::Refuse(faults), at, last: Some((opid, known)) };
        }
        for (pos, d) in &rec.defs {
            if let Some(lot) = lot_of(d, page) {
                open.insert(CellAddr::new(opid, *pos), (lot, d.home == 0));
            }
        }
        let mut eff = vec![];
        if let Some((p, s)) = &rec.wit {
            eff.push(Eff::W(opid, p.clone(), s.clone()));
        }
        if !first && !known {
            eff.push(Eff::O(opid, op_bytes(&rec.op)));
            store.apply(&JRec::O(opid, std::sync::Arc::new(rec.op.clone())));
        }
        if !rec.defs.is_empty() {
            eff.push(Eff::S(opid, rec.defs.clone()));
        }
        acc.push(Acc { item: at, opid, known, relative, eff });
    }
    Judged { acc, end: End::Ok, at: items.len(), last: None }
}

fn compare(sim: &mut Sim, j: &Judged, out: &Out, items: &[Item], context: &[&'static str]) {
    let at = out
        .reads
        .iter()
        .filter_map(|r| if let Read::At(n) = r { Some(*n) } else { None })
        .max()
        .unwrap_or_default();
    let here = |e: &str| format!("alien:{e}");
    let report = |sim: &mut Sim, props: Vec<&'static str>, class: String, text: String| {
        let mut props = props;
        props.extend(context);
        sim.report(finding(&props, class, format!("with another seal protocol: {text}")));
    };
    for t in &out.untold {
        sim.report(finding(&["C16"], "alien:text", t.clone()));
    }
    let err_props = |e: &ErrV| -> Vec<&'static str> {
        let mut v = match e {
            ErrV::Stream(_) => vec!["C08"],
            ErrV::NoCodex => vec!["C06"],
            ErrV::NoWitness(_) => vec!["C02"],
            ErrV::NotClosed(..) => vec!["C02"],
            ErrV::SealUnknown(_) => vec!["C03", "C05"],
            ErrV::Def { .. } => vec!["C04"],
            ErrV::Vm(_) => vec!["C01"],
        };
        v.extend(["C13", "C16"]);
        if let Some(a) = j.acc.iter().find(|a| a.item == at) {
            if a.known {
                v.push("C09");
            }
            if a.relative {
                v.push("C05");
            }
            if at == 0 {
                v.push("C06");
            }
        }
        v
    };
    let mut reached = true;
    match (&out.verdict, &j.end) {
        (Verdict::Crash, _) => reached = false,
        (Verdict::Panic(m), _) => {
            report(sim, vec!["C18"], here("panic"), format!("evaluation panics: {m}"));
            return;
        }
        (Verdict::Runaway, _) => {
            report(sim, vec!["C18"], here("runaway"), "evaluation doesn't end".to_owned());
            return;
        }
        (Verdict::Ok, End::Ok) => {
            if at != items.len() {
                report(sim, vec!["C18", "C08", "C17"], here("premature"), format!("only {at} of {} read", items.len()));
                return;
            }
        }
        (Verdict::Ok, End::Stream) => {
            report(sim, vec!["C08"], here("stream-error-lost"), "a read error is not reported".to_owned());
            return;
        }
        (Verdict::Ok, End::Refuse(faults)) => {
            let mut props = faults.iter().flat_map(|f| f.props.clone()).collect::<Vec<_>>();
            if at < j.at {
                props = vec!["C18", "C08"];
            }
            if j.last.is_some_and(|l| l.1) {
                props.push("C09");
            }
            let text = format!("record {} is accepted, although {faults:?}", j.at);
            report(sim, props, here("accepted"), text);
            return;
        }
        (Verdict::Err(ErrV::Stream(same)), End::Stream) => {
            if !same {
                report(sim, vec!["C08", "C16"], here("stream-error-changed"), "another read error is reported".to_owned());
                return;
            }
        }
        (Verdict::Err(e), End::Ok | End::Stream) => {
            report(sim, err_props(e), here("refused"), format!("record {at} is refused: {e:?}"));
            return;
        }
        (Verdict::Err(e), End::Refuse(faults)) => {
            if at < j.at {
                report(sim, err_props(e), here("refused-early"), format!("record {at} is refused: {e:?}"));
                return;
            }
            if at > j.at {
                let mut props = faults.iter().flat_map(|f| f.props.clone()).collect::<Vec<_>>();
                props.extend(["C16", "C18"]);
                report(sim, props, here("passed"), format!("record {} is passed, although {faults:?}; {e:?}", j.at));
                return;
            }
            if !faults.iter().any(|f| f.names.contains(e)) {
                let mut props = vec!["C16"];
                if matches!(e, ErrV::NotClosed(..)) && faults.iter().any(|f| f.props.contains(&"C05")) {
                    props.push("C05");
                }
                report(sim, props, here("wrong-error"), format!("expected {faults:?}, reported {e:?}"));
                return;
            }
        }
    }
    if out.reads.contains(&Read::After) {
        report(sim, vec!["C08", "C18"], here("over-read"), "reading goes on after the end or an error".to_owned());
        return;
    }
    // Notifications
    let mut rest = out.eff.iter();
    for a in &j.acc {
        let mut want = a.eff.clone();
        while !want.is_empty() {
            let Some(e) = rest.next() else {
                if reached {
                    let mut props = vec!["C17", "C07", "C13"];
                    if a.known {
                        props.push("C09");
                    }
                    let text = format!("{} of operation {} is not recorded", want[0].kind(), short(&a.opid));
                    report(sim, props, here("lost"), text);
                }
                return;
            };
            let Some(pos) = want.iter().position(|w| w == e) else {
                let mut props = vec!["C17"];
                match e.kind() {
                    'O' => props.extend(["C01", "C09", "C06"]),
                    'S' => props.push("C04"),
                    _ => props.push("C02"),
                }
                let text = format!("{} of operation {} is recorded during {}", e.kind(), short(&e.opid()), short(&a.opid));
                report(sim, props, here("order"), text);
                return;
            };
            if e.kind() == 'O' && want.iter().any(|w| w.kind() == 'W') {
                report(sim, vec!["C17"], here("order"), format!("operation {} precedes its witness", short(&a.opid)));
                return;
            }
            want.remove(pos);
        }
    }
    if let Some(e) = rest.next() {
        let text = format!("{} of operation {} is recorded beyond what was accepted", e.kind(), short(&e.opid()));
        report(sim, vec!["C07", "C17"], here("extra"), text);
    }
}

// ---------------------------------------------------------------------------------------------- histories

struct Gen {
    c: Contract,
    /// Definitions of all cells, whether reported or not.
    all: BTreeMap<CellAddr, LotDef>,
    recs: Vec<Rec>,
    homes: u64,
}

fn rand_def(rng: &mut Rng) -> LotDef {
    let bits = rng.range(2, 40);
    LotDef {
        home: if rng.chance(450) { 0 } else { 1 + rng.below(1 << bits) as u64 },
        slot: *rng.pick(&[0, 0, 1, 2, 3, 255, 256, u16::MAX]),
        extra: rng.below(6) as u32,
    }
}

fn page_for(opid: Opid, lots: &[Lot], id: u64, rng: &mut Rng) -> (Page, Slip) {
    let msg = opid.to_byte_array();
    let mut closes = lots
        .iter()
        .map(|lot| Closing { lot: *lot, tag: if lot.extra % 2 == 0 { rng.below(256) as u8 } else { msg[31] } })
        .collect::<Vec<_>>();
    for _ in 0..rng.below(3) {
        let d = rand_def(rng);
        closes.push(Closing { lot: lot_of(&d, Some(id)).expect("id"), tag: rng.below(256) as u8 });
    }
    rng.shuffle(&mut closes);
    let salt = rng.u64();
    let mut commits = vec![proof(msg, salt)];
    for _ in 0..rng.below(2) {
        commits.push(rng.u64());
    }
    rng.shuffle(&mut commits);
    (Page { id, closes: Confined::from_checked(closes), commits: Confined::from_checked(commits) }, Slip { salt, void: 0 })
}

/// Lots which the records before `upto` open, by the cell.
fn open_before(recs: &[Rec], upto: usize, c: &Contract) -> BTreeMap<CellAddr, Lot> {
    let mut open = BTreeMap::new();
    for (i, r) in recs[..upto].iter().enumerate() {
        let opid = if i == 0 { c.genesis_opid } else { opid_of(&r.op) };
        for (pos, d) in &r.defs {
            if let Some(lot) = lot_of(d, r.wit.as_ref().map(|w| w.0.id)) {
                open.insert(CellAddr::new(opid, *pos), lot);
            }
        }
    }
    open
}

/// A new honest page for a record.
fn reclose(recs: &mut [Rec], i: usize, c: &Contract, id: u64, rng: &mut Rng) {
    let open = open_before(recs, i, c);
    let opid = if i == 0 { c.genesis_opid } else { opid_of(&recs[i].op) };
    let lots = recs[i]
        .op
        .destructible_in
        .iter()
        .filter_map(|x| open.get(&x.addr).copied())
        .collect::<Vec<_>>();
    recs[i].wit = Some(page_for(opid, &lots, id, rng));
}

fn history(rng: &mut Rng, size: usize) -> Gen {
    let n = rng.range(1, 8);
    let defs = (0..n).map(|_| rand_def(rng)).collect::<Vec<_>>();
    let cells = defs
        .iter()
        .map(|d| (auth(d), rng.below(10_000) as u64, rng.chance(150)))
        .collect::<Vec<_>>();
    let c = Contract::issue_cells(rng.u64(), rng.u64(), &cells, rng.below(3));
    let mut g = Gen { c, all: BTreeMap::new(), recs: vec![], homes: 1 };
    let c = g.c.clone();
    for (i, d) in defs.iter().enumerate() {
        g.all.insert(CellAddr::new(c.genesis_opid, i as u16), *d);
    }
    let withhold = *rng.pick(&[0, 0, 100, 500]);
    let keep = |rng: &mut Rng, defs: BTreeMap<u16, LotDef>| -> BTreeMap<u16, LotDef> {
        defs.into_iter().filter(|_| !rng.chance(withhold)).collect()
    };
    g.recs.push(Rec {
        op: c.genesis_stream_op(),
        defs: keep(rng, defs.iter().enumerate().map(|(i, d)| (i as u16, *d)).collect()),
        wit: None,
    });
    if rng.chance(150) {
        // The genesis may have a page as well
        reclose(&mut g.recs, 0, &c, 0x1000, rng);
    }
    let mut store = Store::new(&c);
    let mut ids = vec![];
    for no in 0..size {
        let open = open_before(&g.recs, g.recs.len(), &c);
        let free = open
            .keys()
            .filter(|a| store.owned.contains_key(*a))
            .copied()
            .collect::<Vec<_>>();
        let mut free = free;
        rng.shuffle(&mut free);
        let take = if free.is_empty() || rng.chance(150) { 0 } else { rng.range(1, free.len().min(5)) };
        let call = if take == 0 { CALL_POST } else { *rng.pick(&[CALL_TRANSFER, CALL_HIGH]) };
        let mut op = c.new_op(call, rng.u64() >> 1 | no as u64);
        let mut sum = 0u128;
        for a in &free[..take] {
            let cell = &store.owned[a];
            sum += cell_amount(cell).unwrap_or_default();
            let witness = if cell.lock.is_some() {
                StateValue::Single { first: fe256::from(LOCK_KEY) }
            } else {
                StateValue::None
            };
            op.destructible_in.push(Input { addr: *a, witness }).expect("few inputs");
        }
        let outs = if take == 0 { 0 } else { rng.below(5) };
        let outs = if take > 0 && sum > 0 && outs == 0 { 1 } else { outs };
        let mut left = sum;
        let mut defs = BTreeMap::new();
        for i in 0..outs {
            let v = if i + 1 == outs { left } else { rng.below(left.min(1 << 40) as usize + 1) as u128 };
            left -= v;
            // The same definition may stand for several cells
            let d = match rng.below(6) {
                0 if !g.all.is_empty() => *g.all.values().nth(rng.below(g.all.len())).expect("in range"),
                _ => rand_def(rng),
            };
            let lock = rng.chance(150);
            op.destructible_out
                .push(c.cell_auth(auth(&d), v as u64, lock))
                .expect("few outputs");
            defs.insert(i as u16, d);
        }
        let opid = opid_of(&op);
        for (pos, d) in &defs {
            g.all.insert(CellAddr::new(opid, *pos), *d);
        }
        let defs = keep(rng, defs);
        g.recs.push(Rec { op, defs, wit: None });
        let i = g.recs.len() - 1;
        if take > 0 || rng.chance(400) {
            g.homes += 1;
            // Different pages may have the same number
            let id = if !ids.is_empty() && rng.chance(150) { *rng.pick(&ids) } else { 0x1000 + g.homes * 7 };
            ids.push(id);
            reclose(&mut g.recs, i, &c, id, rng);
        }
        let op = g.recs[i].op.clone();
        store.apply(&JRec::O(opid, std::sync::Arc::new(op)));
    }
    g
}

const EDITS: [&str; 23] = [
    "record_dropped",
    "record_repeated",
    "records_swapped",
    "witness_dropped",
    "closing_removed",
    "closing_for_other_message",
    "commitment_removed",
    "slip_void",
    "definition_replaced",
    "definition_moved",
    "definition_withheld",
    "operation_altered",
    "input_repeated",
    "input_added",
    "contract_changed",
    "witnesses_exchanged",
    "delivered_again_with_other_page",
    "codex_instead_of_contract",
    "genesis_names_contract",
    "slip_changed",
    "definition_of_no_cell",
    "token_nearly_right",
    "page_renumbered",
];

/// A change to a stream. The reference decides afterwards whether it does any harm.
fn edit(g: &Gen, recs: &mut Vec<Rec>, rng: &mut Rng) -> Option<&'static str> {
    let c = &g.c;
    if recs.len() < 2 {
        return None;
    }
    let e = rng.below(EDITS.len());
    let i = rng.range(1, recs.len() - 1);
    let k = rng.below(recs.len());
    match e {
        0 => {
            recs.remove(k);
        }
        1 => {
            let r = recs[i].clone();
            recs.insert(rng.range(i + 1, recs.len()), r);
        }
        2 => {
            let k = rng.range(1, recs.len() - 1);
            recs.swap(i, k);
        }
        3 => recs[i].wit = None,
        4 => {
            let (p, _) = recs[i].wit.as_mut()?;
            let mut v = p.closes.to_vec();
            if v.is_empty() {
                return None;
            }
            v.remove(rng.below(v.len()));
            p.closes = Confined::from_checked(v);
        }
        5 => {
            let (p, _) = recs[i].wit.as_mut()?;
            let mut v = p.closes.to_vec();
            let n = v.len();
            v.get_mut(rng.below(n.max(1)))?.tag ^= 1 << rng.below(8);
            p.closes = Confined::from_checked(v);
        }
        6 => {
            let msg = opid_of(&recs[i].op).to_byte_array();
            let (p, s) = recs[i].wit.as_mut()?;
            let good = proof(msg, s.salt);
            let v = p.commits.iter().copied().filter(|x| *x != good).collect::<Vec<_>>();
            p.commits = Confined::from_checked(v);
        }
        7 => recs[i].wit.as_mut()?.1.void = rng.range(1, 255) as u8,
        8 => {
            let pos = *rng.pick(&recs[k].defs.keys().copied().collect::<Vec<_>>().into_iter().chain([0]).collect::<Vec<_>>());
            let d = if rng.chance(500) { rand_def(rng) } else { *g.all.values().nth(rng.below(g.all.len()))? };
            recs[k].defs.insert(pos, d);
        }
        9 => {
            let keys = recs[k].defs.keys().copied().collect::<Vec<_>>();
            if keys.is_empty() {
                return None;
            }
            let from = *rng.pick(&keys);
            let d = recs[k].defs[&from];
            if rng.chance(500) {
                recs[k].defs.remove(&from);
            }
            recs[k].defs.insert(rng.below(6) as u16, d);
        }
        10 => {
            let keys = recs[k].defs.keys().copied().collect::<Vec<_>>();
            if keys.is_empty() {
                return None;
            }
            recs[k].defs.remove(rng.pick(&keys));
        }
        11 => {
            let op = &mut recs[i].op;
            match op.destructible_out.len() {
                n if n > 0 && rng.chance(600) => {
                    let mut v = op.destructible_out.to_vec();
                    v[rng.below(n)].data = amount(rng.below(10_000) as u64);
                    op.destructible_out = Confined::from_checked(v);
                }
                _ => op.nonce = fe256::from(rng.u64() >> 1),
            }
            if recs[i].wit.is_some() && rng.chance(700) {
                reclose(recs, i, c, 0x9000 + rng.below(100) as u64, rng);
            }
        }
        12 | 13 => {
            let addr = if e == 12 {
                let ins = recs[i].op.destructible_in.iter().map(|x| x.addr).collect::<Vec<_>>();
                if ins.is_empty() {
                    return None;
                }
                *rng.pick(&ins)
            } else {
                let all = g.all.keys().copied().collect::<Vec<_>>();
                *rng.pick(&all)
            };
            let mut v = recs[i].op.destructible_in.to_vec();
            v.insert(rng.below(v.len() + 1), Input { addr, witness: StateValue::None });
            recs[i].op.destructible_in = Confined::from_checked(v);
            if rng.chance(800) {
                reclose(recs, i, c, 0x9000 + rng.below(100) as u64, rng);
            }
        }
        14 => {
            recs[i].op.contract_id = ContractId::from_byte_array(rng.bytes::<32>());
            if recs[i].wit.is_some() {
                reclose(recs, i, c, 0x9000 + rng.below(100) as u64, rng);
            }
        }
        15 => {
            let k = rng.range(1, recs.len() - 1);
            let w = recs[i].wit.take();
            recs[i].wit = std::mem::replace(&mut recs[k].wit, w);
        }
        16 => {
            // A later delivery decides where relative definitions are, if the closing of its seals is possible: an
            // operation without inputs
            let again = recs[i].clone();
            if !again.op.destructible_in.is_empty() {
                return None;
            }
            let at = rng.range(i + 1, recs.len());
            recs.insert(at, again);
            reclose(recs, at, c, 0xA000 + rng.below(100) as u64, rng);
            if rng.chance(600) {
                for n in at + 1..recs.len() {
                    if recs[n].wit.is_some() {
                        let id = recs[n].wit.as_ref().map(|w| w.0.id).unwrap_or_default();
                        reclose(recs, n, c, id, rng);
                    }
                }
            }
        }
        17 => {
            recs[i].op.contract_id = ContractId::from_byte_array(c.codex_id.to_byte_array());
            if recs[i].wit.is_some() {
                reclose(recs, i, c, 0x9000 + rng.below(100) as u64, rng);
            }
        }
        18 => recs[0].op.contract_id = c.id,
        19 => recs[i].wit.as_mut()?.1.salt ^= 1 << rng.below(64),
        20 => {
            let pos = recs[k].op.destructible_out.len() as u16 + rng.below(3) as u16 * 255;
            recs[k].defs.insert(pos, rand_def(rng));
        }
        21 => {
            let pos = *rng.pick_opt(&recs[i].defs.keys().copied().collect::<Vec<_>>())?;
            let mut v = recs[i].op.destructible_out.to_vec();
            let cell = v.get_mut(pos as usize)?;
            cell.auth = near_token(cell.auth, rng);
            recs[i].op.destructible_out = Confined::from_checked(v);
            if recs[i].wit.is_some() {
                reclose(recs, i, c, 0x9000 + rng.below(100) as u64, rng);
            }
            if rng.chance(500) {
                recs.truncate(i + 1);
            }
        }
        _ => recs[i].wit.as_mut()?.0.id = 0xB000 + rng.below(1000) as u64,
    }
    Some(EDITS[e])
}

/// The stream starts with the genesis itself, or is refused for another reason.
fn starts_well(c: &Contract, recs: &[Rec]) -> bool {
    recs.first().is_none_or(|r| {
        let mut op = r.op.clone();
        if op.contract_id.to_byte_array() != c.codex_id.to_byte_array() {
            return true;
        }
        op.contract_id = c.id;
        opid_of(&op) == c.genesis_opid
    })
}

fn fidelity(sim: &mut Sim, recs: &[Rec]) {
    for (no, r) in recs.iter().enumerate() {
        let lib = r.to_lib();
        let bytes = encode(&lib);
        let mut cur = Cursor::new(&bytes);
        let back = Lib::strict_read(StreamReader::new::<MAX>(&mut cur));
        let ok = back.as_ref().is_ok_and(|b| r.same(&Rec::of_lib(b))) && cur.position() as usize == bytes.len();
        if !ok {
            sim.report(finding(&["C12"], "alien:binary", format!("record {no} of another seal protocol changes in the binary form")));
        }
        let theirs = crate::release::write(&r.op, &r.defs, lib.witness.as_ref());
        let read = Lib::strict_read(StreamReader::new::<MAX>(&mut Cursor::new(&theirs)));
        if bytes != theirs && !read.is_ok_and(|b| r.same(&Rec::of_lib(&b))) {
            sim.report(finding(&["C21"], "alien:exchange", format!("record {no} of another seal protocol can't be exchanged with a wallet of the earlier release")));
        }
        #[cfg(feature = "json")]
        let json = serde_json::to_string(&lib).and_then(|s| serde_json::from_str::<Lib>(&s));
        #[cfg(feature = "json")]
        if texts() && !wide_tokens(&r.op) && !json.as_ref().is_ok_and(|b| r.same(&Rec::of_lib(b))) {
            sim.report(finding(&["C12"], "alien:text", format!("record {no} of another seal protocol changes in the textual form")));
        }
        if !r.same(&Rec::of_lib(&lib.clone())) {
            sim.report(finding(&["C12"], "alien:clone", format!("record {no} of another seal protocol changes when copied")));
        }
    }
}

fn eval(sim: &mut Sim, c: &Contract, store: &mut Store, items: &[Item], crash: Option<(usize, bool)>, cx: &[&'static str]) -> bool {
    let j = judge(c, store, items);
    let out = run(c, store, items, crash);
    let before = sim.findings.len();
    let end = match &j.end {
        End::Ok => "Ok".to_owned(),
        End::Stream => "Stream".to_owned(),
        End::Refuse(f) => {
            let f = f.iter().flat_map(|f| f.names.first()).map(|e| match e {
                ErrV::Stream(_) => "stream",
                ErrV::NoCodex => "no_codex",
                ErrV::NoWitness(_) => "no_witness",
                ErrV::NotClosed(..) => "not_closed",
                ErrV::SealUnknown(_) => "seal_unknown",
                ErrV::Def { .. } => "definition",
                ErrV::Vm(_) => "vm",
            });
            format!("Refuse({})", f.collect::<Vec<_>>().join("+"))
        }
    };
    *sim.stats.ends.entry(end).or_default() += 1;
    compare(sim, &j, &out, items, cx);
    sim.stats.evals += 1;
    sim.stats.records += items.len() as u64;
    match &out.verdict {
        Verdict::Ok => sim.stats.clean += 1,
        Verdict::Err(ErrV::Stream(_)) => sim.stats.stream_failed += 1,
        Verdict::Crash => sim.stats.crashed += 1,
        _ => sim.stats.refused += 1,
    }
    let key = h64(format!("{:?} {}", out.verdict, out.eff.len()).as_bytes());
    let state = h64(format!("{items:?}").as_bytes()) ^ mix(store.digest());
    if items.len() > 1 && sim.stats.states.insert(mix(state ^ key)) {
        sim.stats.nontrivial += 1;
    }
    sim.log(|| {
        let v = match &out.verdict {
            Verdict::Err(e) => format!("{e:?}"),
            v => format!("{v:?}"),
        };
        let v = v.chars().take(60).collect::<String>();
        format!("another seal protocol: {} records, {} notifications, {v}", items.len(), out.eff.len())
    });
    sim.mix(key);
    sim.findings.len() == before
}

pub fn alien(sim: &mut Sim, rng: &mut Rng, size: usize) {
    sim.stats.scenario("another_seal_protocol");
    let g = history(rng, size);
    let c = &g.c;
    fidelity(sim, &g.recs);
    let items = |recs: &[Rec]| recs.iter().cloned().map(Item::Rec).collect::<Vec<_>>();
    let honest = items(&g.recs);

    // Honest delivery, then again
    let mut store = Store::new(c);
    if !matches!(judge(c, &store, &honest).end, End::Ok) {
        panic!("a generated history of another seal protocol is not honest");
    }
    if !eval(sim, c, &mut store, &honest, None, &["C13"]) {
        return;
    }
    if !eval(sim, c, &mut store.clone(), &honest, None, &["C09"]) {
        return;
    }
    let full = store;

    // A crash, and another try
    let n = judge(c, &Store::new(c), &honest).acc.iter().map(|a| a.eff.len()).sum::<usize>();
    if n > 0 {
        let mut store = Store::new(c);
        let crash = (rng.below(n), rng.chance(500));
        sim.stats.fault("crash");
        if !eval(sim, c, &mut store, &honest, Some(crash), &["C10"]) || !eval(sim, c, &mut store, &honest, None, &["C10"]) {
            return;
        }
        if let Some(d) = full.state_diff(&store) {
            let text = format!("with another seal protocol, after a crash at notification {}: {d}", crash.0);
            sim.report(finding(&["C10"], "alien:crash-state", text));
            return;
        }
    }

    // A failing stream, and another try
    {
        let mut store = Store::new(c);
        let mut cut = honest.clone();
        let at = rng.below(cut.len() + 1);
        cut.insert(at, Item::Err(rng.u64()));
        sim.stats.fault("read_error");
        if !eval(sim, c, &mut store, &cut, None, &["C08"]) || !eval(sim, c, &mut store, &honest, None, &["C08"]) {
            return;
        }
        if let Some(d) = full.state_diff(&store) {
            sim.report(finding(&["C08"], "alien:retry-state", format!("after a failed read at {at}: {d}")));
            return;
        }
    }

    // Byzantine edits
    for _ in 0..rng.range(3, 8) {
        let mut recs = g.recs.clone();
        let mut names = vec![];
        for _ in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
            if let Some(name) = edit(&g, &mut recs, rng) {
                names.push(name);
            }
        }
        if names.is_empty() || !starts_well(c, &recs) {
            continue;
        }
        for name in &names {
            sim.stats.fault(name);
        }
        let mut store = match rng.below(3) {
            0 => full.clone(),
            1 => {
                let mut s = Store::new(c);
                for a in judge(c, &s.clone(), &honest[..rng.range(1, honest.len())]).acc {
                    if let Item::Rec(r) = &honest[a.item] {
                        if a.item > 0 {
                            s.apply(&JRec::O(a.opid, std::sync::Arc::new(r.op.clone())));
                        }
                    }
                }
                s
            }
            _ => Store::new(c),
        };
        let text = names.join(", ");
        sim.log(|| format!("another seal protocol: {} records with {text}", recs.len()));
        if !eval(sim, c, &mut store, &items(&recs), None, &[]) {
            return;
        }
        if !store.twice.is_empty() {
            sim.report(finding(&["C09", "C17"], "alien:twice", "an operation is applied twice".to_owned()));
            return;
        }
    }
}
