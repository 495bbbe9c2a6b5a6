//! Comparison of an evaluation by the real code with the reference, and naming of the broken properties.

use std::collections::{BTreeMap, BTreeSet};

use ultrasonic::Opid;

use crate::kit::{def_bytes, encode, op_bytes, short};
use crate::model::{End, Fault, Judgement};
use crate::session::{ErrV, Ev, Item, Outcome, Prepared, Verdict};
use crate::store::JRec;

#[derive(Clone, Debug)]
pub struct Finding {
    pub props: Vec<&'static str>,
    /// Kind of the divergence: what minimisation keeps.
    pub class: String,
    pub text: String,
}

pub fn finding(props: &[&'static str], class: impl Into<String>, text: impl Into<String>) -> Finding {
    let mut props = props.to_vec();
    props.sort();
    props.dedup();
    Finding { props, class: class.into(), text: text.into() }
}

/// Where in a simulation an evaluation takes place: what it additionally says something about.
#[derive(Clone, Copy, Default, Debug)]
pub struct Context {
    /// Evaluation after a crash of this one's predecessor.
    pub after_crash: bool,
    /// Evaluation of the intact stream after a failed read.
    pub after_stream_fault: bool,
    /// Everything was evaluated before.
    pub redelivery: bool,
    /// Another order of operations.
    pub reordered: bool,
    /// Final exchange, when faults have stopped.
    pub heal: bool,
    /// Interleaved with others.
    pub interleaved: bool,
}

fn kind(r: &JRec) -> char {
    match r {
        JRec::W(..) => 'W',
        JRec::O(..) => 'O',
        JRec::S(..) => 'S',
    }
}
fn opid_of(r: &JRec) -> Opid {
    match r {
        JRec::W(o, _) | JRec::O(o, _) | JRec::S(o, _) => *o,
    }
}
fn content(r: &JRec) -> Vec<u8> {
    match r {
        JRec::W(_, w) => {
            let mut b = encode(&w.published);
            b.extend(encode(&w.client));
            b
        }
        JRec::O(_, op) => op_bytes(op),
        JRec::S(_, d) => {
            let mut b = vec![];
            for (k, d) in d {
                b.extend(k.to_le_bytes());
                b.extend(def_bytes(d).iter());
            }
            b
        }
    }
}

pub fn real_effects(ev: &[Ev]) -> Vec<JRec> {
    ev.iter()
        .filter_map(|e| match e {
            Ev::W(o, w) => Some(JRec::W(*o, w.clone())),
            Ev::O(o, op) => Some(JRec::O(*o, op.clone())),
            Ev::S(o, d) => Some(JRec::S(*o, d.clone())),
            _ => None,
        })
        .collect()
}

/// Properties which forbid accepting an operation having the fault.
fn forbids(f: &Fault) -> Vec<&'static str> {
    match f {
        Fault::Codex | Fault::Foreign => vec!["C06"],
        Fault::Def(_) => vec!["C04"],
        Fault::Seal { wout: true, .. } => vec!["C03", "C05"],
        Fault::Seal { .. } => vec!["C03"],
        Fault::Vm(_) => vec!["C01"],
        Fault::NoWitness => vec!["C02"],
        Fault::NotClosed { wout: true, .. } => vec!["C02", "C05"],
        Fault::NotClosed { .. } => vec!["C02"],
    }
}

/// Compares a completed evaluation. `with_crash` admits a cut anywhere.
pub fn compare(j: &Judgement, p: &Prepared, out: &Outcome, cx: Context) -> Vec<Finding> {
    let mut res = vec![];
    if j.dep_panic {
        return res;
    }
    for t in p.infidelity.iter().chain(&out.infidelity) {
        res.push(finding(&["C12"], "infidelity", t.clone()));
    }
    for t in &p.foreign {
        res.push(finding(&["C21"], "foreign", t.clone()));
    }
    for t in &out.untold {
        res.push(finding(&["C16"], "text", t.clone()));
    }
    let exp = j.effects().collect::<Vec<_>>();
    let real = real_effects(&out.ev);
    let mut context = vec![];
    if cx.after_crash {
        context.push("C10");
    }
    if cx.after_stream_fault {
        context.push("C08");
    }
    if cx.redelivery {
        context.push("C09");
    }
    if cx.reordered || cx.heal {
        context.push("C11");
    }
    if cx.interleaved {
        context.push("C15");
    }
    let with = |v: &[&'static str]| {
        let mut v = v.to_vec();
        v.extend(&context);
        v
    };

    // What the verdict is about
    let last_read = out
        .ev
        .iter()
        .filter_map(|e| match e {
            Ev::Read(n) => Some(*n),
            _ => None,
        })
        .max();
    let crashed = out.verdict == Verdict::Crash;
    match (&out.verdict, &j.end) {
        (Verdict::Crash, _) => {}
        (Verdict::Panic(m), _) => {
            res.push(finding(&with(&["C18"]), "panic", format!("evaluation panics: {m} (expected {})", j.end.name())));
        }
        (Verdict::Runaway, _) => {
            res.push(finding(&with(&["C18"]), "runaway", "evaluation doesn't end (more interactions than any stream needs)"));
        }
        (Verdict::Ok, End::Ok) => {
            if last_read != Some(p.items.len()) {
                res.push(finding(
                    &["C18", "C08", "C17"],
                    "premature",
                    format!("success reported after reading {last_read:?} of {} records", p.items.len()),
                ));
            }
        }
        (Verdict::Ok, End::Refuse { item, opid, faults, known, .. }) => {
            let mut props: Vec<&'static str> = faults.iter().flat_map(forbids).collect();
            if last_read.unwrap_or_default() < *item && !p.items.is_empty() {
                props = vec!["C18", "C08"];
            }
            if *known {
                props.push("C09");
            }
            props.extend(&context);
            res.push(finding(
                &props,
                format!("accepted:{}", faults.first().map(Fault::name).unwrap_or_default()),
                format!(
                    "record {item} (operation {}) must be refused ({}), but the consignment is accepted",
                    short(opid),
                    j.end.name()
                ),
            ));
        }
        (Verdict::Ok, End::Stream { item, spec }) => res.push(finding(
            &with(&["C08"]),
            "stream-error-lost",
            format!("reading of record {item} fails with {:?}, but the evaluation reports success", spec),
        )),
        (Verdict::Err(ErrV::Stream(id, text)), End::Stream { spec, .. }) => {
            if *id != Some(spec.id) {
                res.push(finding(
                    &["C08", "C16"],
                    "stream-error-changed",
                    format!("the reader failed with {spec:?}, but the evaluation reports '{text}'"),
                ));
            }
        }
        (Verdict::Err(e), End::Stream { item, spec }) => {
            let mut props = with(&["C08", "C16"]);
            if last_read.unwrap_or_default() < *item {
                props.extend(reject_props(e, j, p, last_read.unwrap_or_default()));
            }
            res.push(finding(
                &props,
                format!("stream-error-as-{}", e.name()),
                format!("reading of record {item} fails with {spec:?}, but the evaluation reports {e:?}"),
            ));
        }
        (Verdict::Err(e), End::Ok) => {
            let at = last_read.unwrap_or_default();
            let mut props = with(&["C13", "C16"]);
            props.extend(reject_props(e, j, p, at));
            res.push(finding(
                &props,
                format!("refused:{}", e.name()),
                format!("a valid consignment is refused at record {at}: {e:?}"),
            ));
        }
        (Verdict::Err(e), End::Refuse { item, opid, faults, .. }) => {
            let at = last_read.unwrap_or(0);
            if faults.iter().any(|f| f.names(*opid, e)) && at == *item {
                // As it must be
            } else if matches!(faults.as_slice(), [Fault::Foreign, ..]) && at == 0 {
                // Any refusal of another genesis is fine
            } else if at < *item {
                let mut props = with(&["C13", "C16"]);
                props.extend(reject_props(e, j, p, at));
                res.push(finding(
                    &props,
                    format!("refused-early:{}", e.name()),
                    format!("valid record {at} is refused ({e:?}) before the bad record {item} ({})", j.end.name()),
                ));
            } else if at > *item {
                let mut props: Vec<&'static str> = faults.iter().flat_map(forbids).collect();
                props.extend(["C16", "C18"]);
                res.push(finding(
                    &props,
                    format!("accepted:{}", faults.first().map(Fault::name).unwrap_or_default()),
                    format!(
                        "bad record {item} ({}) is passed, the evaluation ends at record {at} with {e:?}",
                        j.end.name()
                    ),
                ));
            } else {
                // A wrong report. Where the error is of a kind not present at all, then the real defect was missed
                let mut props = vec!["C16"];
                if let ErrV::Stream(..) = e {
                    props.push("C08");
                }
                // The seals found not closed are other ones
                if let (ErrV::NotClosed(..), Some(Fault::NotClosed { wout: true, .. })) = (e, faults.last()) {
                    props.push("C05");
                }
                res.push(finding(
                    &props,
                    format!("wrong-error:{}:{}", faults.first().map(Fault::name).unwrap_or_default(), e.name()),
                    format!("record {item} (operation {}): expected {faults:?}, reported {e:?}", short(opid)),
                ));
            }
        }
    }

    // Reads
    let mut over = None;
    for e in &out.ev {
        match e {
            Ev::ReadAfterErr => over = Some((vec!["C08", "C18"], "reading goes on after a read error".to_owned())),
            Ev::ReadAfterEnd => over = Some((vec!["C18"], "reading goes on after the end of the stream".to_owned())),
            Ev::Read(n) => {
                if let End::Refuse { item, .. } = &j.end {
                    if *n > *item && matches!(out.verdict, Verdict::Err(_)) {
                        over = Some((vec!["C18"], format!("record {n} is read after record {item} was to be refused")));
                    }
                }
            }
            _ => {}
        }
    }
    if let Some((props, text)) = over {
        res.push(finding(&props, "over-read", text));
    }

    res.extend(effects(j, p, out, &exp, &real, crashed, &context));
    res
}

/// What a refusal of a good record at `at` says besides of honest consignments not being accepted.
fn reject_props(e: &ErrV, j: &Judgement, p: &Prepared, at: usize) -> Vec<&'static str> {
    let acc = j.acc.iter().find(|a| a.item == at);
    let mut props = vec![];
    match e {
        ErrV::SealUnknown(addr) => {
            props.push("C03");
            let wout = p.items[..at.min(p.items.len())].iter().any(|i| match i {
                Item::Rec(r) => {
                    let mut op = r.op.clone();
                    // The contract id is substituted in the first record only
                    op.contract_id = r.op.contract_id;
                    r.defs.get(&addr.pos).is_some_and(crate::kit::is_wout)
                }
                Item::Err(_) => false,
            });
            if wout {
                props.push("C05");
            }
        }
        ErrV::DefMismatch { .. } => props.push("C04"),
        ErrV::NoCodex => props.push("C06"),
        ErrV::NotClosed(..) => {
            props.push("C02");
            if acc.is_some_and(|a| a.wout_in) {
                props.push("C05");
            }
        }
        ErrV::NoWitness(_) => props.push("C02"),
        ErrV::Vm(_) => props.push("C01"),
        ErrV::Stream(..) => props.push("C08"),
    }
    if acc.is_some_and(|a| a.known) {
        props.push("C09");
    }
    if acc.is_some_and(|a| a.item == 0) {
        props.push("C06");
    }
    props
}

fn effects(
    j: &Judgement,
    p: &Prepared,
    out: &Outcome,
    exp: &[&JRec],
    real: &[JRec],
    crashed: bool,
    context: &[&'static str],
) -> Vec<Finding> {
    let mut res = vec![];
    let with = |v: &[&'static str]| {
        let mut v = v.to_vec();
        v.extend(context);
        v
    };
    // The usual case first
    if exp.len() == real.len()
        && exp
            .iter()
            .zip(real)
            .all(|(a, b)| kind(a) == kind(b) && opid_of(a) == opid_of(b) && content(a) == content(b))
    {
        return res;
    }
    let known_ops = j.acc.iter().filter(|a| a.known).map(|a| a.opid).collect::<BTreeSet<_>>();
    let known = |opid: &Opid| known_ops.contains(opid);
    let last_read = out.ev.iter().filter_map(|e| if let Ev::Read(n) = e { Some(*n) } else { None }).max();
    let reached = j.acc.iter().filter(|a| last_read > Some(a.item)).map(|a| a.opid).collect::<BTreeSet<_>>();
    // Whether each one of the sorted list is in the other
    let within = |a: &[Vec<u8>], b: &[Vec<u8>]| a.iter().all(|x| b.binary_search(x).is_ok());
    let genesis = j.after.genesis;
    let refused = match &j.end {
        End::Refuse { opid, faults, item, .. } => Some((*opid, faults.clone(), *item)),
        _ => None,
    };
    type Key = (Opid, char);
    let group = |v: &mut dyn Iterator<Item = JRec>| {
        let mut m = BTreeMap::<Key, Vec<Vec<u8>>>::new();
        for r in v {
            m.entry((opid_of(&r), kind(&r))).or_default().push(content(&r));
        }
        for v in m.values_mut() {
            v.sort();
        }
        m
    };
    let e = group(&mut exp.iter().map(|r| (*r).clone()));
    let r = group(&mut real.iter().cloned());
    // How many accepted operations may be cut off because of a wrong verdict or a crash
    let cut = crashed || matches!(out.verdict, Verdict::Panic(_) | Verdict::Runaway);
    let verdict_wrong = match (&out.verdict, &j.end) {
        (Verdict::Ok, End::Ok) => false,
        (Verdict::Err(_), End::Ok) => true,
        (Verdict::Err(e), End::Refuse { item, opid, faults, .. }) => {
            !faults.iter().any(|f| f.names(*opid, e) || matches!(f, Fault::Foreign)) && {
                last_read != Some(*item)
            }
        }
        (Verdict::Ok, _) => false,
        (Verdict::Err(ErrV::Stream(..)), End::Stream { .. }) => false,
        (Verdict::Err(_), End::Stream { .. }) => true,
        _ => false,
    };
    for (key, got) in &r {
        let (opid, k) = key;
        let want = e.get(key).cloned().unwrap_or_default();
        if *got == want {
            continue;
        }
        if got.len() <= want.len() && within(got, &want) {
            continue; // Missing ones are treated below
        }
        if got.len() == want.len() {
            let props: &[&str] = match k {
                'O' => &["C01", "C17"],
                'S' => &["C17", "C04"],
                _ => &["C17", "C02"],
            };
            res.push(finding(
                &with(props),
                format!("content:{k}"),
                format!("recorded {} of operation {} is not what was delivered", name(*k), short(opid)),
            ));
            continue;
        }
        // Something more than expected
        let mut props = vec!["C17"];
        if let Some((rid, faults, item)) = &refused {
            if rid == opid {
                props.push("C07");
                if matches!(out.verdict, Verdict::Err(_)) {
                    for f in faults {
                        match (k, f) {
                            ('O', Fault::Vm(_)) => props.push("C01"),
                            ('O', _) => props.extend(forbids(f)),
                            ('W', Fault::NotClosed { .. }) => props.push("C02"),
                            ('S', Fault::Def(_)) => props.push("C04"),
                            (_, Fault::Foreign | Fault::Codex) => props.push("C06"),
                            _ => {}
                        }
                    }
                } else {
                    // The false acceptance was reported already, this is its consequence
                    props = faults.iter().flat_map(forbids).collect();
                }
            } else if !e.keys().any(|(o, _)| o == opid) {
                // Operations following the refused one
                let passed = !matches!(out.verdict, Verdict::Err(_)) || verdict_passed(out, *item);
                props = if passed { faults.iter().flat_map(forbids).collect() } else { vec!["C07", "C17"] };
            }
        }
        if let End::Stream { .. } = &j.end {
            if !e.keys().any(|(o, _)| o == opid) {
                props = vec!["C08", "C07"];
            }
        }
        if *k == 'O' {
            if *opid == genesis {
                props.push("C06");
            } else if known(opid) {
                props.push("C09");
            }
        }
        res.push(finding(
            &with(&props),
            format!("extra:{k}"),
            format!("{} of operation {} is recorded {} times instead of {}", name(*k), short(opid), got.len(), want.len()),
        ));
    }
    if !crashed {
        for (key, want) in &e {
            let (opid, k) = key;
            let got = r.get(key).cloned().unwrap_or_default();
            if got.len() >= want.len() || !within(&got, want) {
                continue;
            }
            if cut || verdict_wrong {
                // Not reached: reported by the verdict
                if !reached.contains(opid) {
                    continue;
                }
            }
            let mut props = vec!["C17"];
            match k {
                'O' => props.push("C13"),
                _ if known(opid) && *opid != genesis => props.push("C09"),
                _ => {}
            }
            if !matches!(out.verdict, Verdict::Ok) {
                props.push("C07");
            }
            if *k == 'S' || *k == 'O' {
                props.push("C11");
            }
            res.push(finding(
                &with(&props),
                format!("lost:{k}"),
                format!(
                    "{} of accepted operation {} is recorded {} times instead of {}",
                    name(*k),
                    short(opid),
                    got.len(),
                    want.len()
                ),
            ));
        }
    }
    if res.is_empty() {
        // Order. Within an operation only the witness is bound to stand before the operation
        let mut rest = real.iter();
        let mut order_bad = None;
        'acc: for a in &j.acc {
            let mut want = a.effects.iter().map(|r| (kind(r), content(r))).collect::<Vec<_>>();
            while !want.is_empty() {
                let Some(r) = rest.next() else {
                    if crashed || cut || verdict_wrong {
                        break 'acc;
                    }
                    order_bad = Some(format!("notifications for operation {} are missing", short(&a.opid)));
                    break 'acc;
                };
                let key = (kind(r), content(r));
                let pos = want.iter().position(|w| *w == key);
                let Some(pos) = pos.filter(|_| opid_of(r) == a.opid) else {
                    order_bad = Some(format!(
                        "{} of operation {} is recorded while {} is being processed",
                        name(kind(r)),
                        short(&opid_of(r)),
                        short(&a.opid)
                    ));
                    break 'acc;
                };
                if key.0 == 'O' && want.iter().any(|w| w.0 == 'W') {
                    order_bad = Some(format!("operation {} is recorded before its witness", short(&a.opid)));
                    break 'acc;
                }
                want.remove(pos);
            }
        }
        if let Some(text) = order_bad {
            res.push(finding(&with(&["C17"]), "order", text));
        }
    }
    let _ = p;
    res
}

fn verdict_passed(out: &Outcome, item: usize) -> bool {
    out.ev
        .iter()
        .any(|e| matches!(e, Ev::Read(n) if *n > item))
}

fn name(k: char) -> &'static str {
    match k {
        'W' => "the witness",
        'O' => "the operation itself",
        _ => "the seals",
    }
}
