//! Basic types and construction of seals, commitments and witness transactions.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use amplify::confinement::{Confined, SmallOrdMap};
use amplify::num::u5;
use amplify::{ByteArray, Bytes};
use bp::dbc::tapret::{TapretCommitment, TapretPathProof, TapretProof};
use bp::seals::mmb::{BundleProof, Message};
use bp::seals::mpc::{self, MessageMap, MessageSource, ProtocolId};
use bp::seals::{Anchor, Noise, TxoSeal, TxoSealExt, WOutpoint, WTxoSeal};
use bp::secp256k1::{SecretKey, SECP256K1};
use bp::{InternalPk, Outpoint, Sats, ScriptPubkey, SeqNo, TapLeafHash, TapScript, Tx, TxIn, TxOut, Txid};
use commit_verify::{CommitId, CommitVerify, ReservedBytes};
use rgbcore::{OperationSeals, RgbSealDef};
use single_use_seals::SealWitness;
use strict_encoding::{DecodeError, StreamReader, StrictDecode, StrictEncode, StrictWriter};
use ultrasonic::{fe256, AuthToken, Operation, Opid};

use crate::compare::{finding, Finding};
use crate::rng::Rng;

pub type Def = WTxoSeal;
pub type Wit = SealWitness<TxoSeal>;
pub type OpSeals = OperationSeals<TxoSeal>;

/// A consignment record kept apart from the library type, so that copying it uses no code under test.
#[derive(Clone, Debug)]
pub struct Rec {
    pub op: Operation,
    pub defs: BTreeMap<u16, Def>,
    pub wit: Option<Wit>,
}

impl Rec {
    pub fn to_lib(&self) -> OpSeals {
        OperationSeals {
            operation: self.op.clone(),
            defined_seals: SmallOrdMap::from_iter_checked(self.defs.iter().map(|(k, v)| (*k, *v))),
            witness: self.wit.clone(),
        }
    }

    pub fn from_lib(b: &OpSeals) -> Rec {
        Rec {
            op: b.operation.clone(),
            defs: b.defined_seals.iter().map(|(k, v)| (*k, *v)).collect(),
            wit: b.witness.clone(),
        }
    }

    /// Makes the token of a cell, for which a definition is reported, nearly the one of the definition.
    pub fn near_token(&mut self, rng: &mut Rng) -> bool {
        let mut cells = self.op.destructible_out.to_vec();
        let list = self
            .defs
            .keys()
            .map(|p| *p as usize)
            .filter(|p| *p < cells.len())
            .collect::<Vec<_>>();
        let Some(pos) = rng.pick_opt(&list).copied() else { return false };
        cells[pos].auth = near_token(cells[pos].auth, rng);
        self.op.destructible_out = Confined::from_checked(cells);
        true
    }

    /// Field by field comparison which trusts no equality relying on commitments.
    pub fn same(&self, other: &Rec) -> bool {
        same_op(&self.op, &other.op) && self.defs == other.defs && same_wit(&self.wit, &other.wit)
    }
}

pub fn same_op(a: &Operation, b: &Operation) -> bool {
    a.version == b.version
        && a.contract_id == b.contract_id
        && a.call_id == b.call_id
        && a.nonce == b.nonce
        && a.witness == b.witness
        && a.destructible_in == b.destructible_in
        && a.immutable_in == b.immutable_in
        && a.destructible_out == b.destructible_out
        && a.immutable_out == b.immutable_out
}

pub fn same_wit(a: &Option<Wit>, b: &Option<Wit>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.published == b.published && a.client == b.client,
        _ => false,
    }
}

pub const MAX: usize = 0xFFF_FFFF;

pub fn encode(v: &impl StrictEncode) -> Vec<u8> {
    v.strict_encode(StrictWriter::in_memory::<MAX>())
        .expect("in-memory encoding")
        .unbox()
        .unconfine()
}

/// Decodes a value which must take all the data.
pub fn decode<T: StrictDecode>(data: &[u8]) -> Result<T, DecodeError> {
    let mut cursor = Cursor::new(data);
    let v = T::strict_read(StreamReader::new::<MAX>(&mut cursor))?;
    if cursor.position() as usize != data.len() {
        return Err(DecodeError::DataIntegrityError("data not entirely consumed".to_owned()));
    }
    Ok(v)
}

/// Identifiers and encodings of operations are slow to compute and needed again and again.
struct Cached {
    op: Operation,
    opid: Opid,
    bytes: Vec<u8>,
}

thread_local! {
    static OPS: RefCell<HashMap<u64, Vec<Rc<Cached>>>> = RefCell::new(HashMap::new());
    static DEFS: RefCell<HashMap<Def, (AuthToken, Rc<[u8]>)>> = RefCell::new(HashMap::new());
}

fn cached(op: &Operation) -> Rc<Cached> {
    let mut h = crate::rng::mix(op.call_id as u64 ^ ((op.destructible_in.len() as u64) << 16));
    let mut add = |b: &[u8]| {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            h = crate::rng::mix(h ^ u64::from_le_bytes(x));
        }
    };
    add(&op.contract_id.to_byte_array());
    add(&op.nonce.to_u256().to_le_bytes());
    for i in &op.destructible_in {
        add(&i.addr.opid.to_byte_array()[..8]);
        add(&i.addr.pos.to_le_bytes());
    }
    for c in &op.destructible_out {
        add(&c.auth.to_fe256().to_u256().to_le_bytes()[..8]);
    }
    OPS.with_borrow_mut(|map| {
        if let Some(c) = map.get(&h).and_then(|l| l.iter().find(|c| same_op(&c.op, op))) {
            return c.clone();
        }
        if map.len() > 2000 {
            map.clear();
        }
        let c = Rc::new(Cached { op: op.clone(), opid: op.opid(), bytes: encode(op) });
        map.entry(h).or_default().push(c.clone());
        c
    })
}

fn cached_def(def: &Def) -> (AuthToken, Rc<[u8]>) {
    DEFS.with_borrow_mut(|map| {
        if map.len() > 150_000 {
            map.clear();
        }
        map.entry(*def)
            .or_insert_with(|| {
                let id = def.commit_id().to_byte_array();
                let mut b = [0u8; 30];
                b.copy_from_slice(&id[..30]);
                (AuthToken::from_byte_array(b), encode(def).into())
            })
            .clone()
    })
}

pub fn op_bytes(op: &Operation) -> Vec<u8> { cached(op).bytes.clone() }

pub fn opid_of(op: &Operation) -> Opid { cached(op).opid }

pub fn def_bytes(def: &Def) -> Rc<[u8]> { cached_def(def).1 }

/// What the authorization token of a definition must be (computed independently of the library).
pub fn token(def: &Def) -> AuthToken { cached_def(def).0 }

/// Whether there are tokens which do not fit 30 bytes (no definition has one). The textual form the `ultrasonic` crate
/// gives to tokens is unable to represent these.
pub fn wide_tokens(op: &Operation) -> bool {
    op.destructible_out
        .iter()
        .any(|c| c.auth.to_fe256().to_u256().to_le_bytes()[30..] != [0, 0])
}

/// A token differing in a single bit, which may be one no definition ever gives.
pub fn near_token(auth: AuthToken, rng: &mut Rng) -> AuthToken {
    let mut bytes = auth.to_fe256().to_u256().to_le_bytes();
    let bit = if rng.chance(200) { 240 + rng.below(14) } else { rng.below(240) };
    bytes[bit / 8] ^= 1 << (bit % 8);
    AuthToken::from(fe256::from(bytes))
}

fn check_def(def: &Def, txid: Option<Txid>, res: &mut Vec<Finding>) {
    if def.auth_token() != token(def) {
        res.push(finding(&["C04"], "token", format!("authorization token of {def} doesn't commit to it")));
    }
    if def.to_src() != seal_of(def, None) {
        res.push(finding(&["C05"], "to_src", format!("{def} becomes the seal {:?}", def.to_src())));
    }
    let Some(id) = txid else { return };
    let seal = def.resolve(id);
    if Some(seal) != seal_of(def, Some(id)) {
        res.push(finding(&["C05"], "resolve", format!("{def} with witness {id} becomes the seal {seal}")));
    }
}

/// What the library says on definitions delivered, compared with what they are.
pub fn check_defs(recs: &[Rec]) -> Vec<Finding> {
    thread_local! {
        static SEEN: RefCell<HashSet<(Def, Option<Txid>)>> = RefCell::new(HashSet::new());
    }
    let mut res = vec![];
    SEEN.with_borrow_mut(|seen| {
        if seen.len() > 50_000 {
            seen.clear();
        }
        for rec in recs.iter().filter(|r| r.defs.len() < 100) {
            let txid = rec.wit.as_ref().map(|w| w.published.txid());
            for def in rec.defs.values().filter(|d| seen.insert((**d, txid))) {
                // A panic shows up in the evaluation
                let _ = catch_unwind(AssertUnwindSafe(|| check_def(def, txid, &mut res)));
            }
        }
    });
    res
}

/// Whether records are to be sent in the textual form, too. Not all builds have it.
static TEXTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);

pub fn set_texts(on: bool) { TEXTS.store(on, std::sync::atomic::Ordering::SeqCst) }
pub fn texts() -> bool { cfg!(feature = "json") && TEXTS.load(std::sync::atomic::Ordering::SeqCst) }

#[cfg(feature = "json")]
pub fn to_text(r: &OpSeals) -> Result<String, String> { serde_json::to_string(r).map_err(|e| e.to_string()) }
#[cfg(feature = "json")]
pub fn of_text(s: &str) -> Result<OpSeals, String> { serde_json::from_str(s).map_err(|e| e.to_string()) }
#[cfg(not(feature = "json"))]
pub fn to_text(_: &OpSeals) -> Result<String, String> { Err("no textual form in this build".to_owned()) }
#[cfg(not(feature = "json"))]
pub fn of_text(_: &str) -> Result<OpSeals, String> { Err("no textual form in this build".to_owned()) }

/// The seal a definition stands for, given the witness of the defining operation.
pub fn seal_of(def: &Def, wit: Option<Txid>) -> Option<TxoSeal> {
    let primary = match def.primary {
        WOutpoint::Extern(o) => o,
        WOutpoint::Wout(v) => Outpoint::new(wit?, v),
    };
    Some(TxoSeal { primary, secondary: def.secondary })
}

pub fn is_wout(def: &Def) -> bool { matches!(def.primary, WOutpoint::Wout(_)) }

pub fn rand_vout(rng: &mut Rng) -> u32 {
    match rng.below(10) {
        0..=4 => rng.below(5) as u32,
        5 => 255,
        6 => 256 + rng.below(2) as u32,
        7 => 65535 + rng.below(3) as u32,
        8 => u32::MAX - rng.below(2) as u32,
        _ => rng.u64() as u32,
    }
}

pub fn rand_outpoint(rng: &mut Rng) -> Outpoint {
    let txid = match rng.below(14) {
        0 => [0u8; 32],
        1 => {
            let mut b = [0u8; 32];
            b[31] = rng.below(3) as u8;
            b
        }
        2 => [0xFF; 32],
        _ => rng.bytes(),
    };
    Outpoint::new(Txid::from_byte_array(txid), rand_vout(rng))
}

/// An outpoint which nothing else has.
pub fn fresh_outpoint(rng: &mut Rng) -> Outpoint { Outpoint::new(Txid::from_byte_array(rng.bytes::<32>()), rand_vout(rng)) }

pub fn rand_ext(rng: &mut Rng) -> TxoSealExt {
    if rng.chance(600) {
        TxoSealExt::Noise(Noise::from(Bytes::from(rng.bytes::<40>())))
    } else {
        TxoSealExt::Fallback(rand_outpoint(rng))
    }
}

/// What is to be committed in a transaction under one protocol: messages by input index.
pub type Bundle = BTreeMap<u32, [u8; 32]>;

#[derive(Clone, Debug)]
pub struct TxSpec {
    pub inputs: Vec<Outpoint>,
    pub bundles: BTreeMap<[u8; 32], Bundle>,
    /// Number of payment outputs.
    pub outs: usize,
    pub tapret: bool,
    /// Position of the commitment output among the others.
    pub commit_pos: usize,
    pub entropy: u64,
}

/// Builds a transaction and the anchors for each of the protocols.
pub fn build_tx(spec: &TxSpec) -> (Tx, BTreeMap<[u8; 32], Anchor>) {
    let proofs: BTreeMap<[u8; 32], BundleProof> = spec
        .bundles
        .iter()
        .map(|(p, b)| {
            let map = SmallOrdMap::from_iter_checked(b.iter().map(|(i, m)| (*i, Message::from(*m))));
            (*p, BundleProof { map })
        })
        .collect();
    let messages = proofs
        .iter()
        .map(|(p, b)| (ProtocolId::from_byte_array(*p), MessageSource::Mmb(b.clone())))
        .collect::<BTreeMap<_, _>>();
    let source = mpc::Source {
        min_depth: u5::with(3),
        entropy: spec.entropy,
        messages: MessageMap::from(Confined::from_checked(messages)),
    };
    let tree = source.into_merkle_tree().expect("mpc tree");
    let commitment = tree.commit_id();
    let mpc_proofs: BTreeMap<[u8; 32], mpc::MerkleProof> = tree
        .into_proofs()
        .map(|(p, proof)| (p.to_byte_array(), proof))
        .collect();

    let mut sk = [0x11u8; 32];
    sk[..8].copy_from_slice(&(spec.entropy | 1).to_be_bytes());
    sk[0] = 1;
    let secret = SecretKey::from_byte_array(&sk).expect("key");
    let internal_pk = InternalPk::from(secret.x_only_public_key(SECP256K1).0);
    let tap = TapretCommitment::with(commitment, 0);
    let script = TapScript::commit(&tap);
    let commit_spk = if spec.tapret {
        ScriptPubkey::p2tr(internal_pk, Some(TapLeafHash::with_leaf_script(&script.into()).into()))
    } else {
        ScriptPubkey::op_return(commitment.as_slice())
    };
    let dbc_proof = spec
        .tapret
        .then(|| TapretProof { path_proof: TapretPathProof::root(0), internal_pk });

    let mut outputs = (0..spec.outs)
        .map(|i| {
            let mut h = [0u8; 20];
            h[..8].copy_from_slice(&spec.entropy.to_le_bytes());
            h[8..16].copy_from_slice(&(i as u64).to_le_bytes());
            TxOut { value: Sats::from(1000u64 + i as u64), script_pubkey: ScriptPubkey::p2wpkh(h) }
        })
        .collect::<Vec<_>>();
    let pos = spec.commit_pos.min(outputs.len());
    outputs.insert(pos, TxOut { value: Sats::ZERO, script_pubkey: commit_spk });
    let tx = Tx {
        version: Default::default(),
        inputs: Confined::from_iter_checked(spec.inputs.iter().map(|o| TxIn {
            prev_output: *o,
            sig_script: Default::default(),
            sequence: SeqNo::ZERO,
            witness: Default::default(),
        })),
        outputs: Confined::from_checked(outputs),
        lock_time: Default::default(),
    };
    let anchors = proofs
        .into_iter()
        .map(|(p, mmb_proof)| {
            let a = Anchor {
                mmb_proof,
                mpc_protocol: ProtocolId::from_byte_array(p),
                mpc_proof: mpc_proofs[&p].clone(),
                dbc_proof: dbc_proof.clone(),
                fallback_proof: ReservedBytes::default(),
            };
            (p, a)
        })
        .collect();
    (tx, anchors)
}

pub fn h64(data: &[u8]) -> u64 {
    // FNV-1a, then mixed: only used for counting and identifying, never for the properties.
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    crate::rng::mix(h)
}

pub fn short(opid: &Opid) -> String { opid.to_byte_array()[..4].iter().map(|b| format!("{b:02x}")).collect() }
