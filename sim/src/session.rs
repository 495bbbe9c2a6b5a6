//! One evaluation of one stream by the real code, observed through the traits it talks to.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::error::Error;
use std::fmt::{self, Display, Formatter};
use std::io::{self, ErrorKind, Read};
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

use amplify::confinement::SmallOrdMap;
use bp::seals::TxoSeal;
use bp::Txid;
use rgbcore::{ContractApi, ContractVerify, OperationSeals, ReadOperation, RgbSeal, VerificationError};
use serde::{Deserialize, Serialize};
use strict_encoding::{DecodeError, StreamReader, StrictDecode};
use ultrasonic::{AuthToken, CallError, CellAddr, Codex, ContractId, LibRepo, Memory, Operation, Opid, VerifiedOperation};

use crate::contract::{Contract, Repo};
use crate::kit::{decode, encode, of_text, texts, to_text, wide_tokens, Def, OpSeals, Rec, Wit, MAX};
use crate::rng::{mix, Rng};
use crate::store::{Disk, JRec, Store};

// ---------------------------------------------------------------------------------------------- streams

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Transport {
    /// Records are handed over as they were built.
    Plain,
    /// Records are handed over as copies.
    Cloned,
    /// Binary serialisation, read in pieces of at most the given size.
    Strict { chunk: u16 },
    /// Textual serialisation.
    Json,
}

/// Kinds of read errors.
pub const ERR_KINDS: [ErrorKind; 14] = [
    ErrorKind::UnexpectedEof,
    ErrorKind::Interrupted,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::Unsupported,
    ErrorKind::Other,
];

/// Which error type the reader uses.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum ErrTy {
    Custom,
    Io,
    BareIo,
    Decode,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum ReadFault {
    /// The reader fails instead of returning record `at`; the record would follow on a retry.
    Error { at: usize, kind: usize },
    /// Only the given part of the serialised stream is there.
    Truncate { permille: u16 },
    /// I/O error in the middle of the serialised stream.
    Cut { permille: u16, kind: usize },
    /// A flipped bit of the serialised stream.
    Flip { pos: u64 },
    /// A short read and interrupted system calls inside of records (not an error).
    Interrupts { seed: u64 },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ErrSpec {
    pub id: u64,
    pub kind: usize,
}

impl ErrSpec {
    fn kind(&self) -> ErrorKind { ERR_KINDS[self.kind % ERR_KINDS.len()] }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct SimErr(pub u64, pub ErrorKind);
impl Display for SimErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { write!(f, "simulated read error #{} ({:?})", self.0, self.1) }
}
impl Error for SimErr {}

pub trait ReadErr: Error + 'static {
    fn make(spec: ErrSpec) -> Self;
    fn is(&self, spec: ErrSpec) -> bool;
}
impl ReadErr for SimErr {
    fn make(spec: ErrSpec) -> Self { SimErr(spec.id, spec.kind()) }
    fn is(&self, spec: ErrSpec) -> bool { *self == Self::make(spec) }
}
impl ReadErr for io::Error {
    fn make(spec: ErrSpec) -> Self { io::Error::new(spec.kind(), SimErr(spec.id, spec.kind())) }
    fn is(&self, spec: ErrSpec) -> bool {
        self.kind() == spec.kind()
            && (self.get_ref().is_none()
                || self
                    .get_ref()
                    .and_then(|e| e.downcast_ref::<SimErr>())
                    .is_some_and(|e| e.0 == spec.id))
    }
}
impl ReadErr for DecodeError {
    fn make(spec: ErrSpec) -> Self {
        if spec.kind % 2 == 0 {
            DecodeError::Io(io::Error::from(spec.kind()).into())
        } else {
            DecodeError::DataIntegrityError(format!("#{}", spec.id))
        }
    }
    fn is(&self, spec: ErrSpec) -> bool { *self == Self::make(spec) }
}

#[derive(Clone, Debug)]
pub enum Item {
    Rec(Rec),
    Err(ErrSpec),
}

/// A stream the way a reader is going to deliver it.
#[derive(Clone, Debug)]
pub struct Prepared {
    pub items: Vec<Item>,
    pub transport: Transport,
    pub err_ty: ErrTy,
    pub id: u64,
    bytes: Vec<u8>,
    texts: Vec<String>,
    cut: Option<(usize, usize)>,
    interrupts: Option<u64>,
    /// Failures of the serialisation found on the way (property C12).
    pub infidelity: Vec<String>,
    /// Failures of the exchange with wallets of the earlier release (property C21).
    pub foreign: Vec<String>,
    /// Fault kinds which really take effect in this stream.
    pub fired: Vec<&'static str>,
    /// A damaged but decodable stream: the records are those decoded.
    pub damaged: bool,
}

/// Source of bytes: short reads, interruptions, an error at a position.
struct Chunked<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    cut: Option<(usize, usize)>,
    rng: Option<Rng>,
    pause: bool,
}

impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(rng) = &mut self.rng {
            // Never twice in a row, since a reader may give up
            if !self.pause && rng.chance(150) {
                self.pause = true;
                return Err(ErrorKind::Interrupted.into());
            }
            self.pause = false;
        }
        let mut n = buf.len().min(self.chunk.max(1)).min(self.data.len() - self.pos);
        if let Some((at, kind)) = self.cut {
            if self.pos >= at {
                return Err(ERR_KINDS[kind % ERR_KINDS.len()].into());
            }
            n = n.min(at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Chunked<'_> {
    fn next(&mut self) -> Result<Option<OpSeals>, String> {
        let mut marker = [0u8; 1];
        self.read_exact(&mut marker).map_err(|e| e.to_string())?;
        match marker[0] {
            0 => Ok(None),
            1 => OpSeals::strict_read(StreamReader::new::<MAX>(self))
                .map(Some)
                .map_err(|e| e.to_string()),
            x => Err(format!("marker {x}")),
        }
    }
}

pub fn prepare(recs: &[Rec], transport: Transport, err_ty: ErrTy, faults: &[ReadFault], id: u64) -> Prepared {
    let transport = match transport {
        Transport::Json if !texts() || recs.iter().any(|r| wide_tokens(&r.op)) => Transport::Plain,
        t => t,
    };
    let mut p = Prepared {
        items: vec![],
        transport,
        err_ty,
        id,
        bytes: vec![],
        texts: vec![],
        cut: None,
        interrupts: None,
        infidelity: vec![],
        foreign: vec![],
        fired: vec![],
        damaged: false,
    };
    let mut bytes_fault = false;
    // A part of the wallets has not been updated
    let old = mix(id) % 4 == 0;
    if old && !matches!(transport, Transport::Plain | Transport::Cloned) {
        p.fired.push("sender_of_earlier_release");
    }
    match transport {
        Transport::Plain => p.items = recs.iter().cloned().map(Item::Rec).collect(),
        Transport::Cloned => {
            #[allow(clippy::redundant_clone)]
            let it = recs.iter().map(|r| Item::Rec(Rec::from_lib(&r.to_lib().clone())));
            p.items = it.collect();
        }
        Transport::Json => {
            for (no, r) in recs.iter().enumerate() {
                let theirs = old.then(|| catch_unwind(|| crate::release::write_text(r).ok()).ok().flatten()).flatten();
                let res = catch_unwind(AssertUnwindSafe(|| {
                    if let Some(s) = theirs {
                        match of_text(&s) {
                            Ok(b) => return Ok((s, Rec::from_lib(&b))),
                            Err(e) => p.foreign.push(format!("text of record {no} by a wallet of the earlier release can't be read: {e}")),
                        }
                    }
                    to_text(&r.to_lib()).and_then(|s| of_text(&s).map(|b| (s, Rec::from_lib(&b))))
                }));
                match res {
                    Ok(Ok((s, rec))) => {
                        p.texts.push(s);
                        p.items.push(Item::Rec(rec));
                    }
                    Ok(Err(e)) => {
                        p.infidelity.push(format!("record {no} does not survive the textual form: {e}"));
                        p.items.push(Item::Err(ErrSpec { id, kind: 8 }));
                        break;
                    }
                    Err(_) => {
                        p.infidelity.push(format!("textual form of record {no} panics"));
                        p.items.push(Item::Err(ErrSpec { id, kind: 8 }));
                        break;
                    }
                }
            }
        }
        Transport::Strict { .. } => {
            let mut ends = vec![];
            for r in recs {
                p.bytes.push(1);
                let mut bytes = old.then(|| crate::release::write_rec(r));
                if let Some(b) = &bytes {
                    let back = catch_unwind(|| decode::<OpSeals>(b).map_err(|e| e.to_string()));
                    if let Ok(Err(e)) = back {
                        let no = ends.len();
                        p.foreign.push(format!("record {no} of a wallet of the earlier release can't be read: {e}"));
                        bytes = None;
                    }
                }
                p.bytes.extend(bytes.unwrap_or_else(|| encode(&r.to_lib())));
                ends.push(p.bytes.len());
            }
            p.bytes.push(0);
            let len = p.bytes.len();
            let mut limit = len;
            for f in faults {
                match *f {
                    ReadFault::Truncate { permille } => {
                        limit = limit.min(len * permille as usize / 1000);
                        p.bytes.truncate(limit);
                        p.fired.push("truncated_stream");
                        bytes_fault = true;
                    }
                    ReadFault::Cut { permille, kind } => {
                        let at = len * permille as usize / 1000;
                        // Interruptions are to be retried and not reported
                        let kind = if kind % ERR_KINDS.len() == 1 { 2 } else { kind };
                        p.cut = Some((at, kind));
                        limit = limit.min(at);
                        p.fired.push("io_error_inside_record");
                        bytes_fault = true;
                    }
                    ReadFault::Flip { pos } if !p.bytes.is_empty() => {
                        let bit = pos as usize % (p.bytes.len() * 8);
                        p.bytes[bit / 8] ^= 1 << (bit % 8);
                        p.fired.push("bit_flip");
                        p.damaged = true;
                        bytes_fault = true;
                    }
                    _ => {}
                }
            }
            let bytes = std::mem::take(&mut p.bytes);
            let mut src = Chunked { data: &bytes, pos: 0, chunk: usize::MAX, cut: p.cut, rng: None, pause: false };
            loop {
                match catch_unwind(AssertUnwindSafe(|| src.next())) {
                    Ok(Ok(Some(b))) => p.items.push(Item::Rec(Rec::from_lib(&b))),
                    Ok(Ok(None)) => break,
                    Ok(Err(e)) => {
                        if !bytes_fault {
                            p.infidelity
                                .push(format!("record {} does not survive the binary form: {e}", p.items.len()));
                        }
                        p.items.push(Item::Err(ErrSpec { id, kind: 8 }));
                        break;
                    }
                    Err(_) => {
                        p.infidelity.push(format!("decoding of record {} panics", p.items.len()));
                        p.items.push(Item::Err(ErrSpec { id, kind: 8 }));
                        break;
                    }
                }
            }
            p.bytes = bytes;
            if !p.damaged && bytes_fault {
                // Exactly the records which are entirely there must be decoded
                let whole = ends.iter().filter(|e| **e <= limit).count();
                let got = p.items.iter().filter(|i| matches!(i, Item::Rec(_))).count();
                if got != whole {
                    p.infidelity
                        .push(format!("{got} records were decoded from data having {whole} complete records"));
                }
            }
            for f in faults {
                if let ReadFault::Interrupts { seed } = f {
                    p.interrupts = Some(*seed);
                    p.fired.push("interrupted_short_reads");
                }
            }
        }
    }
    if !p.damaged {
        for (no, (item, rec)) in p.items.iter().zip(recs).enumerate() {
            if let Item::Rec(r) = item {
                if !r.same(rec) && old && matches!(transport, Transport::Json | Transport::Strict { .. }) {
                    p.foreign.push(format!("record {no} of a wallet of the earlier release is read as another one ({transport:?})"));
                } else if !r.same(rec) {
                    p.infidelity.push(format!("record {no} has changed on its way ({transport:?})"));
                }
            }
        }
        let got = p.items.iter().filter(|i| matches!(i, Item::Rec(_))).count();
        if !bytes_fault && got != recs.len() && p.infidelity.is_empty() {
            p.infidelity.push(format!("{got} records of {} were decoded", recs.len()));
        }
    }
    for f in faults {
        if let ReadFault::Error { at, kind } = *f {
            if p.items.iter().any(|i| matches!(i, Item::Err(_))) {
                continue;
            }
            let at = at % (p.items.len() + 1);
            p.items.insert(at, Item::Err(ErrSpec { id, kind }));
            p.fired.push("read_error");
        }
    }
    p
}

// ---------------------------------------------------------------------------------------------- observation

#[derive(Clone, Debug)]
pub enum Ev {
    /// Item `n` of the stream was read; the number of all items means the end.
    Read(usize),
    ReadAfterEnd,
    ReadAfterErr,
    Known(Opid, bool),
    W(Opid, Arc<Wit>),
    O(Opid, Arc<Operation>),
    S(Opid, BTreeMap<u16, Def>),
}

#[derive(Clone, PartialEq, Debug)]
pub enum ErrV {
    /// The stream error is (or is not) the one the reader has returned.
    Stream(Option<u64>, String),
    NoCodex,
    NoWitness(Opid),
    NotClosed(Txid, Opid, String),
    SealUnknown(CellAddr),
    DefMismatch { opid: Opid, reported: BTreeSet<AuthToken>, defined: BTreeSet<AuthToken>, sources: BTreeMap<u16, String> },
    Vm(CallError),
}

impl ErrV {
    pub fn name(&self) -> &'static str {
        match self {
            ErrV::Stream(..) => "Stream",
            ErrV::NoCodex => "NoCodexCommitment",
            ErrV::NoWitness(_) => "NoWitness",
            ErrV::NotClosed(..) => "SealsNotClosed",
            ErrV::SealUnknown(_) => "SealUnknown",
            ErrV::DefMismatch { .. } => "SealsDefinitionMismatch",
            ErrV::Vm(_) => "Vm",
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Verdict {
    Ok,
    Err(ErrV),
    Panic(String),
    Crash,
    Runaway,
}

impl Verdict {
    pub fn name(&self) -> String {
        match self {
            Verdict::Ok => "Ok".to_owned(),
            Verdict::Err(e) => e.name().to_owned(),
            Verdict::Panic(m) => format!("panic: {m}"),
            Verdict::Crash => "Crash".to_owned(),
            Verdict::Runaway => "Runaway".to_owned(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub verdict: Verdict,
    pub ev: Vec<Ev>,
    /// Problems seen by the reader (records decoded differently in pieces).
    pub infidelity: Vec<String>,
    /// What the textual form of the error doesn't tell.
    pub untold: Vec<String>,
    /// Hash of the text of the error.
    pub text: u64,
}

/// Whether the text of an error has everything the error is about. Wording is free.
pub fn untold<S: RgbSeal>(e: &VerificationError<S>) -> Vec<String> {
    let mut parts = vec![];
    match e {
        VerificationError::Stream(e) => parts.push(e.to_string()),
        VerificationError::NoCodexCommitment => {}
        VerificationError::NoWitness(o) => parts.push(o.to_string()),
        VerificationError::SealsNotClosed(id, o, e) => parts.extend([id.to_string(), o.to_string(), e.to_string()]),
        VerificationError::SealUnknown(a) => parts.push(a.to_string()),
        VerificationError::SealsDefinitionMismatch { opid, reported, sources, .. } => {
            if reported.len() > 500 {
                return vec![];
            }
            parts.push(opid.to_string());
            parts.extend(sources.values().cloned());
        }
        VerificationError::Vm(e) => parts.push(e.to_string()),
    }
    let text = catch_unwind(AssertUnwindSafe(|| (e.to_string(), format!("{e:?}"))));
    let Ok((text, debug)) = text else { return vec!["the text of the error can't be had: it panics".to_owned()] };
    if text.is_empty() || debug.is_empty() {
        return vec!["the error has an empty text".to_owned()];
    }
    parts
        .into_iter()
        .filter(|p| !text.contains(p.as_str()))
        .map(|p| format!("'{p}' is missing in the text of the error: {text}"))
        .collect()
}

/// Of the text of an error, unless it is too long to be made for nothing.
pub fn text_hash<S: RgbSeal>(e: &VerificationError<S>) -> u64 {
    if let VerificationError::SealsDefinitionMismatch { reported, defined, .. } = e {
        if reported.len() + defined.len() > 500 {
            return 1;
        }
    }
    catch_unwind(AssertUnwindSafe(|| crate::kit::h64(format!("{e} {e:?}").as_bytes()))).unwrap_or(2)
}

struct CrashSignal;
struct RunawaySignal;

/// Control over a running evaluation.
pub struct Ctl<'h> {
    ev: RefCell<Vec<Ev>>,
    infidelity: RefCell<Vec<String>>,
    untold: RefCell<Vec<String>>,
    text: Cell<u64>,
    callbacks: Cell<usize>,
    points: Cell<usize>,
    budget: usize,
    /// Crash at this notification, before or after it is written.
    crash: Option<(usize, bool)>,
    /// Called at each interaction of the evaluation with the outside.
    hook: Option<&'h dyn Fn(usize)>,
}

impl<'h> Ctl<'h> {
    fn point(&self) {
        let n = self.points.get();
        self.points.set(n + 1);
        if n > self.budget {
            resume_unwind(Box::new(RunawaySignal));
        }
        if let Some(hook) = self.hook {
            hook(n);
        }
    }
    fn push(&self, ev: Ev) { self.ev.borrow_mut().push(ev); }
}

struct Reader<'a, E> {
    p: &'a Prepared,
    ctl: &'a Ctl<'a>,
    src: Chunked<'a>,
    next: usize,
    recs: usize,
    ended: usize,
    failed: bool,
    _ty: PhantomData<E>,
}

impl<E: ReadErr> ReadOperation for Reader<'_, E> {
    type Seal = TxoSeal;

    fn read_operation(&mut self) -> Result<Option<OperationSeals<TxoSeal>>, impl Error + 'static> {
        self.ctl.point();
        if self.ended > 0 {
            self.ctl.push(Ev::ReadAfterEnd);
            self.ended += 1;
            if self.ended > 4 {
                resume_unwind(Box::new(RunawaySignal));
            }
            return Ok(None);
        }
        if self.failed {
            self.ctl.push(Ev::ReadAfterErr);
        } else {
            self.ctl.push(Ev::Read(self.next));
        }
        let item = self.p.items.get(self.next);
        self.next += 1;
        match item {
            None => {
                self.ended = 1;
                Ok(None)
            }
            Some(Item::Err(spec)) => {
                self.failed = true;
                Err(E::make(*spec))
            }
            Some(Item::Rec(rec)) => {
                let no = self.recs;
                self.recs += 1;
                let block = match self.p.transport {
                    Transport::Plain => rec.to_lib(),
                    Transport::Cloned => rec.to_lib().clone(),
                    Transport::Json => match of_text(&self.p.texts[no]) {
                        Ok(b) => b,
                        Err(e) => {
                            self.ctl.infidelity.borrow_mut().push(format!("second textual decoding fails: {e}"));
                            rec.to_lib()
                        }
                    },
                    Transport::Strict { .. } => match self.src.next() {
                        Ok(Some(b)) => b,
                        Ok(None) => {
                            self.ctl.infidelity.borrow_mut().push("end of the stream read in pieces".to_owned());
                            rec.to_lib()
                        }
                        Err(e) => {
                            self.ctl.infidelity.borrow_mut().push(format!("reading in pieces fails: {e}"));
                            rec.to_lib()
                        }
                    },
                };
                if !Rec::from_lib(&block).same(rec) {
                    self.ctl
                        .infidelity
                        .borrow_mut()
                        .push(format!("record {no} differs when read again ({:?})", self.p.transport));
                }
                Ok(Some(block))
            }
        }
    }
}

struct Node<'a> {
    c: &'a Contract,
    store: &'a mut Store,
    disk: Option<&'a mut Disk>,
    ctl: &'a Ctl<'a>,
}

impl Node<'_> {
    fn notified(&mut self, rec: JRec) {
        self.ctl.point();
        let n = self.ctl.callbacks.get();
        self.ctl.callbacks.set(n + 1);
        if self.ctl.crash == Some((n, false)) {
            resume_unwind(Box::new(CrashSignal));
        }
        self.ctl.push(match &rec {
            JRec::W(o, w) => Ev::W(*o, w.clone()),
            JRec::O(o, op) => Ev::O(*o, op.clone()),
            JRec::S(o, d) => Ev::S(*o, d.clone()),
        });
        if let Some(disk) = self.disk.as_mut() {
            disk.write(&rec);
        }
        self.store.apply(&rec);
        if self.ctl.crash == Some((n, true)) {
            resume_unwind(Box::new(CrashSignal));
        }
    }
}

impl ContractApi<TxoSeal> for Node<'_> {
    fn contract_id(&self) -> ContractId {
        self.ctl.point();
        self.c.id
    }
    fn codex(&self) -> &Codex {
        self.ctl.point();
        &self.c.codex
    }
    fn repo(&self) -> &impl LibRepo {
        self.ctl.point();
        let repo: &Repo = &self.c.repo;
        repo
    }
    fn memory(&self) -> &impl Memory {
        self.ctl.point();
        &*self.store
    }
    fn is_known(&self, opid: Opid) -> bool {
        self.ctl.point();
        let known = self.store.knows(opid);
        self.ctl.push(Ev::Known(opid, known));
        known
    }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        let opid = op.opid();
        self.notified(JRec::O(opid, Arc::new(op.into_operation())));
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, Def>) {
        self.notified(JRec::S(opid, seals.iter().map(|(k, v)| (*k, *v)).collect()));
    }
    fn apply_witness(&mut self, opid: Opid, witness: Wit) { self.notified(JRec::W(opid, Arc::new(witness))); }
}

fn find_err<E: ReadErr>(e: &(dyn Error + 'static), spec: ErrSpec) -> bool {
    let mut cur = Some(e);
    while let Some(e) = cur {
        if e.downcast_ref::<E>().is_some_and(|e| e.is(spec)) {
            return true;
        }
        cur = e.source();
    }
    false
}

fn to_verdict<E: ReadErr>(res: Result<(), VerificationError<TxoSeal>>, p: &Prepared) -> Verdict {
    let Err(e) = res else { return Verdict::Ok };
    Verdict::Err(match e {
        VerificationError::Stream(e) => {
            let spec = p.items.iter().find_map(|i| match i {
                Item::Err(s) => Some(*s),
                Item::Rec(_) => None,
            });
            let id = spec.filter(|s| find_err::<E>(e.as_ref(), *s)).map(|s| s.id);
            ErrV::Stream(id, e.to_string())
        }
        VerificationError::NoCodexCommitment => ErrV::NoCodex,
        VerificationError::NoWitness(o) => ErrV::NoWitness(o),
        VerificationError::SealsNotClosed(id, o, e) => ErrV::NotClosed(id, o, format!("{e:?}")),
        VerificationError::SealUnknown(a) => ErrV::SealUnknown(a),
        VerificationError::SealsDefinitionMismatch { opid, reported, defined, sources } => {
            ErrV::DefMismatch { opid, reported, defined, sources }
        }
        VerificationError::Vm(e) => ErrV::Vm(e),
    })
}

fn go<E: ReadErr>(c: &Contract, store: &mut Store, disk: Option<&mut Disk>, p: &Prepared, ctl: &Ctl<'_>) -> Verdict {
    let chunk = match p.transport {
        Transport::Strict { chunk } => chunk as usize,
        _ => 1,
    };
    let reader = Reader::<E> {
        p,
        ctl,
        src: Chunked { data: &p.bytes, pos: 0, chunk, cut: p.cut, rng: p.interrupts.map(Rng::new), pause: false },
        next: 0,
        recs: 0,
        ended: 0,
        failed: false,
        _ty: PhantomData,
    };
    let mut node = Node { c, store, disk, ctl };
    match catch_unwind(AssertUnwindSafe(|| node.evaluate(reader))) {
        Ok(res) => {
            if let Err(e) = &res {
                ctl.untold.borrow_mut().extend(untold(e));
                ctl.text.set(text_hash(e));
            }
            to_verdict::<E>(res, p)
        }
        Err(payload) => {
            if payload.is::<CrashSignal>() {
                Verdict::Crash
            } else if payload.is::<RunawaySignal>() {
                Verdict::Runaway
            } else if let Some(s) = payload.downcast_ref::<&str>() {
                Verdict::Panic((*s).to_owned())
            } else if let Some(s) = payload.downcast_ref::<String>() {
                Verdict::Panic(s.clone())
            } else {
                Verdict::Panic("unknown payload".to_owned())
            }
        }
    }
}

/// Evaluates the stream with the real code.
pub fn run(
    c: &Contract,
    store: &mut Store,
    disk: Option<&mut Disk>,
    p: &Prepared,
    crash: Option<(usize, bool)>,
    hook: Option<&dyn Fn(usize)>,
) -> Outcome {
    let ctl = Ctl {
        ev: RefCell::new(vec![]),
        infidelity: RefCell::new(vec![]),
        untold: RefCell::new(vec![]),
        text: Cell::new(0),
        callbacks: Cell::new(0),
        points: Cell::new(0),
        budget: p.items.len() * 64 + 256,
        crash,
        hook,
    };
    let verdict = match p.err_ty {
        ErrTy::Custom => go::<SimErr>(c, store, disk, p, &ctl),
        ErrTy::Io => go::<io::Error>(c, store, disk, p, &ctl),
        ErrTy::BareIo => go::<BareErr>(c, store, disk, p, &ctl),
        ErrTy::Decode => go::<DecodeError>(c, store, disk, p, &ctl),
    };
    Outcome {
        verdict,
        ev: ctl.ev.into_inner(),
        infidelity: ctl.infidelity.into_inner(),
        untold: ctl.untold.into_inner(),
        text: ctl.text.get(),
    }
}

/// An I/O error having nothing but its kind.
#[derive(Debug)]
pub struct BareErr(ErrorKind, io::Error);
impl Display for BareErr {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result { Display::fmt(&self.1, f) }
}
impl Error for BareErr {
    fn source(&self) -> Option<&(dyn Error + 'static)> { Some(&self.1) }
}
impl ReadErr for BareErr {
    fn make(spec: ErrSpec) -> Self { BareErr(spec.kind(), io::Error::from(spec.kind())) }
    fn is(&self, spec: ErrSpec) -> bool { self.0 == spec.kind() }
}
