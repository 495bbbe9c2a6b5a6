//! Common part of all simulated scenarios: evaluation of a stream by the real code next to the reference, statistics,
//! findings.

use std::collections::{BTreeMap, BTreeSet};

use serde::{Deserialize, Serialize};
use single_use_seals::PublishedWitness;
use ultrasonic::Opid;

use crate::compare::{compare, real_effects, Context, Finding};
use crate::contract::Contract;
use crate::kit::{def_bytes, encode, h64, op_bytes, rand_ext, fresh_outpoint, short, Def, Rec};
use crate::model::{judge, End, Fault, Judgement};
use crate::rng::{mix, Rng};
use crate::session::{prepare, run, ErrTy, Ev, Item, Outcome, Prepared, ReadFault, Transport, Verdict};
use crate::store::{Disk, JRec, Store};

/// Description of a contract from which it can be issued again.
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct CSpec {
    pub codex: u64,
    pub salt: u64,
    /// Owned cells of the genesis.
    pub cells: usize,
    pub globals: usize,
    /// Some seals of the genesis are relative to a witness (and can't be used).
    pub wout: bool,
}

impl CSpec {
    pub fn issue(&self) -> Contract {
        let mut rng = Rng::from_parts(&[self.codex, self.salt, 0xC0]);
        let owned = (0..self.cells)
            .map(|i| {
                let value = match rng.below(6) {
                    0 => 0,
                    1 => u32::MAX as u64 + rng.below(1000) as u64,
                    _ => rng.below(100_000) as u64,
                };
                let locked = rng.chance(200);
                let primary = if self.wout && i % 3 == 2 {
                    bp::seals::WOutpoint::Wout(rng.below(4).into_vout())
                } else {
                    bp::seals::WOutpoint::Extern(fresh_outpoint(&mut rng))
                };
                (Def { primary, secondary: rand_ext(&mut rng) }, value, locked)
            })
            .collect::<Vec<_>>();
        Contract::issue(self.codex, self.salt, &owned, self.globals)
    }
}

pub trait IntoVout {
    fn into_vout(self) -> bp::Vout;
}
impl IntoVout for usize {
    fn into_vout(self) -> bp::Vout { bp::Vout::from_u32(self as u32) }
}
impl IntoVout for u32 {
    fn into_vout(self) -> bp::Vout { bp::Vout::from_u32(self) }
}

#[derive(Clone, Default, Debug, Serialize, Deserialize)]
pub struct Stats {
    pub evals: u64,
    pub records: u64,
    pub nontrivial: u64,
    pub clean: u64,
    pub refused: u64,
    pub stream_failed: u64,
    pub crashed: u64,
    pub payments: u64,
    pub delivered: u64,
    pub sim_ms: u64,
    pub dep_panics: u64,
    pub faults: BTreeMap<String, u64>,
    pub scenarios: BTreeMap<String, u64>,
    pub ends: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, u64>,
    /// Hashes of distinct judged situations (contract state, stream, verdict).
    #[serde(skip)]
    pub states: BTreeSet<u64>,
    #[serde(skip)]
    pub interleavings: BTreeSet<u64>,
    #[serde(skip)]
    pub samples: Vec<String>,
}

impl Stats {
    pub fn fault(&mut self, kind: &str) { *self.faults.entry(kind.to_owned()).or_default() += 1; }
    pub fn check(&mut self, kind: &str) { *self.checks.entry(kind.to_owned()).or_default() += 1; }
    pub fn scenario(&mut self, kind: &str) { *self.scenarios.entry(kind.to_owned()).or_default() += 1; }
}

/// A single evaluation from which it can be repeated in another process.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub contract: CSpec,
    pub journal: String,
    pub recs: Vec<String>,
    pub transport: Transport,
    pub err_ty: ErrTy,
    pub faults: Vec<ReadFault>,
    pub id: u64,
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}

/// Everything which an evaluation does, in one number and a short text.
pub fn outcome_key(out: &Outcome) -> (u64, String) {
    let mut b = format!("{:?}", out.verdict).into_bytes();
    let mut names = String::new();
    for e in real_effects(&out.ev) {
        match e {
            JRec::W(o, w) => {
                b.push(1);
                b.extend(amplify::ByteArray::to_byte_array(&o));
                b.extend(encode(&w.published));
                b.extend(encode(&w.client));
                names.push('W');
            }
            JRec::O(o, op) => {
                b.push(2);
                b.extend(amplify::ByteArray::to_byte_array(&o));
                b.extend(op_bytes(&op));
                names.push('O');
            }
            JRec::S(o, d) => {
                b.push(3);
                b.extend(amplify::ByteArray::to_byte_array(&o));
                for (k, d) in d {
                    b.extend(k.to_le_bytes());
                    b.extend(def_bytes(&d).iter());
                }
                names.push('S');
            }
        }
    }
    (h64(&b), format!("{} after {names}", out.verdict.name()))
}

/// Parameters of an evaluation.
#[derive(Clone, Debug)]
pub struct How {
    pub transport: Transport,
    pub err_ty: ErrTy,
    pub faults: Vec<ReadFault>,
    pub cx: Context,
    pub crash: Option<(usize, bool)>,
}

impl How {
    pub fn plain() -> How {
        How {
            transport: Transport::Plain,
            err_ty: ErrTy::Custom,
            faults: vec![],
            cx: Context::default(),
            crash: None,
        }
    }
    pub fn random(rng: &mut Rng) -> How {
        let transport = match rng.below(20) {
            0..=8 => Transport::Plain,
            9..=12 => Transport::Cloned,
            13..=17 => Transport::Strict { chunk: *rng.pick(&[1, 2, 3, 7, 16, 31, 64, 1000, u16::MAX]) },
            _ => Transport::Json,
        };
        How { transport, err_ty: rand_err_ty(rng), ..How::plain() }
    }
    pub fn cx(mut self, cx: Context) -> How {
        self.cx = cx;
        self
    }
}

pub fn rand_err_ty(rng: &mut Rng) -> ErrTy { *rng.pick(&[ErrTy::Custom, ErrTy::Io, ErrTy::BareIo, ErrTy::Decode]) }

pub struct Sim {
    pub check: String,
    pub stats: Stats,
    pub findings: Vec<Finding>,
    pub known: BTreeMap<&'static str, String>,
    /// Running digest of the whole execution.
    pub digest: u64,
    pub trace: Option<Vec<String>>,
    next_id: u64,
    /// Digest over verdicts of the real code only.
    pub now: u64,
}

pub struct Done {
    pub out: Outcome,
    pub j: Judgement,
    pub findings: Vec<Finding>,
}

impl Done {
    pub fn clean(&self) -> bool { self.findings.is_empty() }
    pub fn accepted(&self) -> bool { self.out.verdict == Verdict::Ok }
}

impl Sim {
    pub fn new(check: &str, trace: bool) -> Sim {
        Sim {
            check: check.to_owned(),
            stats: Stats::default(),
            findings: vec![],
            known: BTreeMap::new(),
            digest: 0,
            trace: trace.then(Vec::new),
            next_id: 0,
            now: 0,
        }
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            let line = format!("[{:>9} ms] {}", self.now, f());
            t.push(line);
        }
    }

    pub fn mix(&mut self, x: u64) { self.digest = mix(self.digest ^ mix(x)); }

    pub fn report(&mut self, f: Finding) {
        let line = format!("!! {} {:?}: {}", f.class, f.props, f.text);
        self.log(|| line);
        if self.findings.len() < 200 {
            self.findings.push(f);
        }
    }

    pub fn own(&self) -> bool { self.findings.iter().any(|f| f.props.iter().any(|p| *p == self.check)) }

    pub fn prepare(&mut self, recs: &[Rec], how: &How) -> Prepared {
        self.next_id += 1;
        let p = prepare(recs, how.transport, how.err_ty, &how.faults, self.next_id);
        for f in &p.fired {
            self.stats.fault(f);
        }
        p
    }

    /// Evaluates a stream by the real code on the given store, and by the reference on a copy of it.
    pub fn eval(
        &mut self,
        spec: &CSpec,
        c: &Contract,
        store: &mut Store,
        disk: Option<&mut Disk>,
        recs: &[Rec],
        how: &How,
        what: &str,
    ) -> Done {
        let p = self.prepare(recs, how);
        let before = store.clone();
        let j = judge(c, &before, &p.items, false);
        let out = run(c, store, disk, &p, how.crash, None);
        let often = if self.check == "C19" { 600 } else { 30 };
        if how.crash.is_none() && mix(self.next_id ^ 0xC19) % 1000 < often && p.items.len() < 5000 {
            self.again(c, &before, &p, &out, what);
        }
        self.settle(spec, c, &before, recs, how, &p, j, out, what)
    }

    /// The same evaluation once more, where and when everything else is different.
    fn again(&mut self, c: &Contract, before: &Store, p: &Prepared, out: &Outcome, what: &str) {
        self.stats.check("same_elsewhere");
        self.stats.fault("clock_jump");
        self.stats.fault("other_host_randomness");
        let seed = mix(self.digest ^ self.next_id);
        let mut store = before.clone();
        let other = |store: &mut Store| {
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || {
                        crate::env::enter(seed);
                        run(c, store, None, p, None, None)
                    })
                    .expect("thread")
                    .join()
                    .expect("evaluations don't panic")
            })
        };
        let there = if seed % 2 == 0 {
            self.stats.fault("other_thread");
            other(&mut store)
        } else {
            crate::env::enter(seed);
            run(c, &mut store, None, p, None, None)
        };
        let (a, b) = (outcome_key(out), outcome_key(&there));
        let reads = |o: &Outcome| {
            o.ev.iter()
                .filter(|e| matches!(e, Ev::Read(_) | Ev::ReadAfterEnd | Ev::ReadAfterErr))
                .count()
        };
        let tell = if a.0 != b.0 {
            format!("'{}' ({:?}) and then '{}' ({:?})", a.1, out.verdict, b.1, there.verdict)
        } else if out.text != there.text {
            format!("{:?} with different texts", out.verdict)
        } else if reads(out) != reads(&there) {
            format!("{} reads and then {}", reads(out), reads(&there))
        } else {
            return;
        };
        self.report(crate::compare::finding(
            &["C19"],
            "not-repeatable",
            format!("{what}: the same evaluation, on an equal contract, at another time and on another host, gives {tell}"),
        ));
    }

    /// Compares and accounts for a finished evaluation.
    #[allow(clippy::too_many_arguments)]
    pub fn settle(
        &mut self,
        spec: &CSpec,
        c: &Contract,
        before: &Store,
        recs: &[Rec],
        how: &How,
        p: &Prepared,
        mut j: Judgement,
        out: Outcome,
        what: &str,
    ) -> Done {
        let mut findings = compare(&j, p, &out, how.cx);
        findings.extend(crate::kit::check_defs(recs));
        if let End::Refuse { item: 0, faults, .. } = &j.end {
            if matches!(faults.as_slice(), [Fault::Foreign]) && !findings.is_empty() {
                let lenient = judge(c, before, &p.items, true);
                let f = compare(&lenient, p, &out, how.cx);
                if f.is_empty() {
                    self.known.insert(
                        "F1",
                        "C06 a stream starting with an operation which commits to the codex but is not the genesis of \
                         the contract is evaluated"
                            .to_owned(),
                    );
                    self.stats.check("known_finding_F1");
                    findings = vec![];
                    j = lenient;
                } else {
                    findings.extend(f);
                }
            }
        }
        // A divergence may come from something left by other evaluations: then alone it goes differently
        if !findings.is_empty() && self.check == "C15" && !findings.iter().any(|f| f.class == "infidelity" || f.class == "foreign") {
            let case = Case {
                contract: spec.clone(),
                journal: hex(&journal(before)),
                recs: recs.iter().map(|r| hex(&rec_bytes(r))).collect(),
                transport: how.transport,
                err_ty: how.err_ty,
                faults: how.faults.clone(),
                id: p.id,
            };
            let alone = solo(&case);
            let here = outcome_key(&out);
            match alone {
                Some(alone) if alone.0 != here.0 && how.crash.is_none() => {
                    for f in &mut findings {
                        f.props.retain(|p| *p != "C15");
                    }
                    findings.insert(
                        0,
                        crate::compare::finding(
                            &["C15"],
                            format!("interference:{}", findings[0].class),
                            format!(
                                "the evaluation ends with '{}', while alone in a new process with '{}' ({})",
                                here.1, alone.1, findings[0].text
                            ),
                        ),
                    );
                }
                _ => {
                    for f in &mut findings {
                        f.props.retain(|p| *p != "C15");
                    }
                }
            }
        } else {
            for f in &mut findings {
                f.props.retain(|p| *p != "C15");
            }
        }
        self.account(&j, &out, p, before, what);
        for f in findings.iter().cloned() {
            self.report(f);
        }
        Done { out, j, findings }
    }

    fn account(&mut self, j: &Judgement, out: &Outcome, p: &Prepared, before: &Store, what: &str) {
        self.stats.evals += 1;
        self.stats.records += p.items.len() as u64;
        self.stats.scenario(what);
        *self.stats.ends.entry(j.end.name()).or_default() += 1;
        if j.dep_panic {
            self.stats.dep_panics += 1;
        }
        match &j.end {
            End::Ok => self.stats.clean += 1,
            End::Refuse { .. } => self.stats.refused += 1,
            End::Stream { .. } => self.stats.stream_failed += 1,
        }
        if out.verdict == Verdict::Crash {
            self.stats.crashed += 1;
        }
        // A situation is non-trivial where something was consumed or refused beyond the genesis
        let nontrivial = j.acc.len() > 1 || !matches!(j.end, End::Ok);
        let key = outcome_key(out);
        let mut h = vec![];
        h.extend(before.digest().to_le_bytes());
        h.extend(key.0.to_le_bytes());
        for a in &j.acc {
            h.extend(amplify::ByteArray::to_byte_array(&a.opid));
        }
        let h = h64(&h);
        self.mix(h ^ out.text);
        if nontrivial && self.stats.states.insert(h) {
            self.stats.nontrivial += 1;
        }
        let line = || {
            format!(
                "{what}: {} records over {:?} on a contract with {} operations: expected {}, got {}",
                p.items.len(),
                p.transport,
                before.ops.len(),
                j.end.name(),
                key.1
            )
        };
        if nontrivial && self.stats.samples.len() < 5 {
            self.stats.samples.push(line());
        }
        if self.trace.is_some() {
            let l = line();
            self.log(|| l);
        }
    }
}

/// A journal from which the given store is recovered.
pub fn journal(s: &Store) -> Vec<u8> {
    let mut d = Disk::new(0);
    for o in &s.order {
        d.write(&JRec::O(*o, s.ops[o].clone()));
    }
    for (o, l) in &s.wits {
        for w in l {
            d.write(&JRec::W(*o, w.clone()));
        }
    }
    for (o, defs) in &s.seals {
        d.write(&JRec::S(*o, defs.clone()));
    }
    d.data
}

pub fn rec_bytes(r: &Rec) -> Vec<u8> {
    // Written out by parts, so that the encoding of the record itself isn't used
    let mut out = vec![];
    let mut part = |b: Vec<u8>| {
        out.extend((b.len() as u32).to_le_bytes());
        out.extend(b);
    };
    part(op_bytes(&r.op));
    let mut defs = vec![];
    for (k, d) in &r.defs {
        let b = def_bytes(d);
        defs.extend(k.to_le_bytes());
        defs.extend((b.len() as u32).to_le_bytes());
        defs.extend(b.iter());
    }
    part(defs);
    match &r.wit {
        None => part(vec![]),
        Some(w) => {
            part(encode(&w.published));
            part(encode(&w.client));
        }
    }
    out
}

pub fn rec_parse(data: &[u8]) -> Option<Rec> {
    fn part<'a>(data: &mut &'a [u8]) -> Option<&'a [u8]> {
        let n = u32::from_le_bytes(data.get(..4)?.try_into().ok()?) as usize;
        let p = data.get(4..4 + n)?;
        *data = &data[4 + n..];
        Some(p)
    }
    let mut d = data;
    let op = crate::kit::decode(part(&mut d)?).ok()?;
    let mut defs = BTreeMap::new();
    let mut list = part(&mut d)?;
    while !list.is_empty() {
        let k = u16::from_le_bytes(list.get(..2)?.try_into().ok()?);
        list = &list[2..];
        defs.insert(k, crate::kit::decode::<Def>(part(&mut list)?).ok()?);
    }
    let first = part(&mut d)?;
    let wit = if first.is_empty() {
        None
    } else {
        Some(crate::kit::Wit::new(crate::kit::decode(first).ok()?, crate::kit::decode(part(&mut d)?).ok()?))
    };
    Some(Rec { op, defs, wit })
}

/// Evaluates the case in this process.
pub fn run_case(case: &Case) -> Option<(u64, String)> {
    let c = case.contract.issue();
    let mut disk = Disk::new(0);
    disk.data = unhex(&case.journal);
    let (mut store, torn) = disk.recover(&c);
    if torn {
        return None;
    }
    let recs = case
        .recs
        .iter()
        .map(|r| rec_parse(&unhex(r)))
        .collect::<Option<Vec<_>>>()?;
    let p = prepare(&recs, case.transport, case.err_ty, &case.faults, case.id);
    let out = run(&c, &mut store, None, &p, None, None);
    Some(outcome_key(&out))
}

/// Evaluates the case in a process of its own.
pub fn solo(case: &Case) -> Option<(u64, String)> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut child = Command::new(std::env::current_exe().ok()?)
        .arg("case")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    child
        .stdin
        .take()?
        .write_all(&serde_json::to_vec(case).ok()?)
        .ok()?;
    let out = child.wait_with_output().ok()?;
    serde_json::from_slice(&out.stdout).ok()?
}

pub fn txids(recs: &[Rec]) -> Vec<bp::Txid> { recs.iter().filter_map(|r| r.wit.as_ref().map(|w| w.published.pub_id())).collect() }

pub fn describe(recs: &[Rec]) -> String {
    recs.iter()
        .map(|r| {
            let o: Opid = crate::kit::opid_of(&r.op);
            format!(
                "{}[in {} out {} defs {}{}]",
                short(&o),
                r.op.destructible_in.len(),
                r.op.destructible_out.len(),
                r.defs.len(),
                if r.wit.is_some() { " wit" } else { "" }
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn items_of(recs: &[Rec]) -> Vec<Item> { recs.iter().cloned().map(Item::Rec).collect() }
