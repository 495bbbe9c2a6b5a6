//! A contract, a wallet and consignments for demonstrations.
#![allow(dead_code, unused_imports)]

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::Infallible;
use std::error::Error;

pub use amplify::confinement::{Confined, SmallOrdMap, SmallVec, TinyOrdMap, TinyString};
use amplify::num::u5;
pub use amplify::{ByteArray, Bytes};
pub use bp::seals::mmb::{BundleProof, Message};
pub use bp::seals::mpc::{self, MessageMap, MessageSource, ProtocolId};
pub use bp::seals::{Anchor, Noise, TxoSeal, TxoSealExt, WOutpoint, WTxoSeal};
pub use bp::{Outpoint, Sats, ScriptPubkey, SeqNo, Tx, TxIn, TxOut, Txid, Vout};
use commit_verify::{CommitId, ReservedBytes};
pub use rgbcore::{ContractApi, ContractVerify, OperationSeals, ReadOperation, VerificationError};
pub use single_use_seals::{PublishedWitness, SealWitness};
pub use strict_encoding::{StreamReader, StrictDecode, StrictDumb, StrictEncode, StrictWriter};
use ultrasonic::aluvm::alu::{CoreConfig, Lib, LibId, LibSite};
use ultrasonic::aluvm::FIELD_ORDER_SECP;
pub use ultrasonic::{
    fe256, uasm, AuthToken, CellAddr, Codex, ContractId, Genesis, Identity, Input, LibRepo, Memory, Operation, Opid,
    StateCell, StateData, StateValue, VerifiedOperation,
};

pub type Def = WTxoSeal;
pub type Wit = SealWitness<TxoSeal>;
pub type Block = OperationSeals<TxoSeal>;
pub type Failure = VerificationError<TxoSeal>;

/// A definition with an explicit outpoint.
pub fn ext(n: u8) -> Def {
    WTxoSeal { primary: WOutpoint::Extern(Outpoint::new(Txid::from_byte_array([n; 32]), n as u32)), secondary: noise(n) }
}

/// A definition relative to the witness.
pub fn wout(vout: u32, n: u8) -> Def {
    WTxoSeal { primary: WOutpoint::Wout(Vout::from_u32(vout)), secondary: noise(n) }
}

pub fn noise(n: u8) -> TxoSealExt { TxoSealExt::Noise(Noise::from(Bytes::from([n; 40]))) }

/// The token computed without the code of the library.
pub fn token(def: &Def) -> AuthToken {
    let id = def.commit_id().to_byte_array();
    let mut b = [0u8; 30];
    b.copy_from_slice(&id[..30]);
    AuthToken::from_byte_array(b)
}

/// The seal for a definition, given the witness of the defining operation.
pub fn seal(def: &Def, wit: Option<Txid>) -> TxoSeal {
    let primary = match def.primary {
        WOutpoint::Extern(o) => o,
        WOutpoint::Wout(v) => Outpoint::new(wit.expect("witness"), v),
    };
    TxoSeal { primary, secondary: def.secondary }
}

#[derive(Clone)]
pub struct Contract {
    pub id: ContractId,
    pub codex: Codex,
    pub libs: BTreeMap<LibId, Lib>,
    pub genesis: Operation,
    pub defs: BTreeMap<u16, Def>,
}

impl Contract {
    /// Call 0 accepts everything, call 1 refuses everything.
    pub fn new(salt: u8, defs: &[Def]) -> Contract {
        let ok = Lib::assemble(&uasm! { stop; } as &Vec<ultrasonic::Instr<LibId>>).unwrap();
        let fail = Lib::assemble(&uasm! { put E1, 77; not CO; chk CO; put E1, 78; test E5; not CO; not CO; chk CO; } as &Vec<ultrasonic::Instr<LibId>>).unwrap();
        let codex = Codex {
            name: TinyString::from_checked(format!("Demo{salt}")),
            developer: Identity::default(),
            version: Default::default(),
            features: Default::default(),
            timestamp: salt as i64,
            field_order: FIELD_ORDER_SECP,
            input_config: CoreConfig::default(),
            verification_config: CoreConfig { halt: true, complexity_lim: None },
            verifiers: TinyOrdMap::from_iter_checked([
                (0, LibSite::new(ok.lib_id(), 0)),
                (1, LibSite::new(fail.lib_id(), 0)),
            ]),
        };
        let mut genesis = Genesis::strict_dumb();
        genesis.codex_id = codex.codex_id();
        genesis.nonce = fe256::from(salt as u64);
        genesis.destructible_out =
            SmallVec::from_iter_checked(defs.iter().enumerate().map(|(i, d)| cell(d, i as u64)));
        genesis.immutable_out = SmallVec::from_iter_checked([StateData::new(0u64, 1000u64)]);
        let id = ContractId::from_byte_array([salt; 32]);
        Contract {
            id,
            libs: [ok, fail].into_iter().map(|l| (l.lib_id(), l)).collect(),
            genesis: genesis.to_operation(id),
            codex,
            defs: defs.iter().enumerate().map(|(i, d)| (i as u16, *d)).collect(),
        }
    }

    pub fn genesis_opid(&self) -> Opid { self.genesis.opid() }

    /// Genesis the way it stands in consignments.
    pub fn genesis_block(&self) -> Block {
        let mut op = self.genesis.clone();
        op.contract_id = ContractId::from_byte_array(self.codex.codex_id().to_byte_array());
        block(op, &self.defs, None)
    }

    pub fn op(&self, ins: &[CellAddr], outs: &[Def], nonce: u64) -> Operation {
        Operation {
            version: Default::default(),
            contract_id: self.id,
            call_id: 0,
            nonce: fe256::from(nonce),
            witness: StateValue::None,
            destructible_in: SmallVec::from_iter_checked(
                ins.iter().map(|a| Input { addr: *a, witness: StateValue::None }),
            ),
            immutable_in: Default::default(),
            destructible_out: SmallVec::from_iter_checked(outs.iter().enumerate().map(|(i, d)| cell(d, i as u64))),
            immutable_out: Default::default(),
        }
    }

    /// An operation together with a correct witness and all of its definitions.
    pub fn transfer(&self, ins: &[(CellAddr, TxoSeal)], outs: &[Def], nonce: u64) -> Block {
        let op = self.op(&ins.iter().map(|i| i.0).collect::<Vec<_>>(), outs, nonce);
        let wit = close(&op, &ins.iter().map(|i| i.1).collect::<Vec<_>>(), nonce);
        block(op, &outs.iter().enumerate().map(|(i, d)| (i as u16, *d)).collect(), Some(wit))
    }
}

pub fn cell(def: &Def, v: u64) -> StateCell {
    StateCell { data: StateValue::Single { first: fe256::from(v) }, auth: token(def), lock: None }
}

pub fn block(operation: Operation, defs: &BTreeMap<u16, Def>, witness: Option<Wit>) -> Block {
    Block { operation, defined_seals: SmallOrdMap::from_iter_checked(defs.iter().map(|(k, v)| (*k, *v))), witness }
}

/// A field by field copy.
pub fn copy(b: &Block) -> Block {
    block(b.operation.clone(), &b.defined_seals.iter().map(|(k, v)| (*k, *v)).collect(), b.witness.clone())
}

pub fn txid(b: &Block) -> Option<Txid> { b.witness.as_ref().map(|w| w.published.txid()) }

/// Transaction closing all the seals over the operation.
pub fn close(op: &Operation, seals: &[TxoSeal], salt: u64) -> Wit {
    let msg = op.opid().to_byte_array();
    let mut inputs = vec![];
    for s in seals {
        if !inputs.contains(&s.primary) {
            inputs.push(s.primary);
        }
    }
    if inputs.is_empty() {
        inputs.push(Outpoint::new(Txid::from_byte_array([0xEE; 32]), salt as u32));
    }
    close_with(&inputs, &inputs.iter().enumerate().map(|(i, _)| (i as u32, msg)).collect(), salt)
}

/// Transaction with an OP_RETURN commitment to the given messages per input.
pub fn close_with(inputs: &[Outpoint], msgs: &BTreeMap<u32, [u8; 32]>, salt: u64) -> Wit {
    let proof = BundleProof {
        map: SmallOrdMap::from_iter_checked(msgs.iter().map(|(i, m)| (*i, Message::from(*m)))),
    };
    let protocol = ProtocolId::from_byte_array([0x50; 32]);
    let source = mpc::Source {
        min_depth: u5::with(3),
        entropy: salt,
        messages: MessageMap::from(Confined::from_checked(BTreeMap::from([(
            protocol,
            MessageSource::Mmb(proof.clone()),
        )]))),
    };
    let tree = source.into_merkle_tree().expect("mpc tree");
    let commitment = tree.commit_id();
    let mpc_proof = tree.into_proofs().next().unwrap().1;
    let tx = Tx {
        version: Default::default(),
        inputs: Confined::from_iter_checked(inputs.iter().map(|o| TxIn {
            prev_output: *o,
            sig_script: Default::default(),
            sequence: SeqNo::ZERO,
            witness: Default::default(),
        })),
        outputs: Confined::from_checked(vec![
            TxOut { value: Sats::ZERO, script_pubkey: ScriptPubkey::op_return(commitment.as_slice()) },
            TxOut { value: Sats::from(1000u64 + salt), script_pubkey: ScriptPubkey::p2wpkh([salt as u8; 20]) },
        ]),
        lock_time: Default::default(),
    };
    let anchor = Anchor {
        mmb_proof: proof,
        mpc_protocol: protocol,
        mpc_proof,
        dbc_proof: None,
        fallback_proof: ReservedBytes::default(),
    };
    Wit::new(tx, anchor)
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Event {
    Op(Opid),
    Seals(Opid, BTreeMap<u16, Def>),
    Witness(Opid, Txid),
}

/// A wallet: removes consumed cells, so operations cannot be applied twice.
#[derive(Clone)]
pub struct Wallet {
    pub c: Contract,
    pub owned: BTreeMap<CellAddr, StateCell>,
    pub known: BTreeSet<Opid>,
    pub seals: BTreeMap<CellAddr, Def>,
    pub witnesses: BTreeMap<Opid, Vec<Wit>>,
    pub log: Vec<Event>,
}

impl Wallet {
    pub fn new(c: &Contract) -> Wallet {
        let opid = c.genesis.opid();
        Wallet {
            c: c.clone(),
            owned: c
                .genesis
                .destructible_out
                .iter()
                .enumerate()
                .map(|(i, cell)| (CellAddr::new(opid, i as u16), *cell))
                .collect(),
            known: BTreeSet::from([opid]),
            seals: Default::default(),
            witnesses: Default::default(),
            log: vec![],
        }
    }

    pub fn run(&mut self, blocks: &[Block]) -> Result<(), Failure> {
        self.evaluate(Stream(blocks.iter().map(copy).collect::<Vec<_>>().into_iter()))
    }
}

impl Memory for Wallet {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> { self.owned.get(&addr).copied() }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> { None }
}
impl LibRepo for Wallet {
    fn get_lib(&self, lib_id: LibId) -> Option<&Lib> { self.c.libs.get(&lib_id) }
}
impl ContractApi<TxoSeal> for Wallet {
    fn contract_id(&self) -> ContractId { self.c.id }
    fn codex(&self) -> &Codex { &self.c.codex }
    fn repo(&self) -> &impl LibRepo { self }
    fn memory(&self) -> &impl Memory { self }
    fn is_known(&self, opid: Opid) -> bool { self.known.contains(&opid) }
    fn apply_operation(&mut self, op: VerifiedOperation) {
        let opid = op.opid();
        let op = op.into_operation();
        for i in &op.destructible_in {
            self.owned.remove(&i.addr);
        }
        for (no, c) in op.destructible_out.iter().enumerate() {
            self.owned.insert(CellAddr::new(opid, no as u16), *c);
        }
        self.known.insert(opid);
        self.log.push(Event::Op(opid));
    }
    fn apply_seals(&mut self, opid: Opid, seals: SmallOrdMap<u16, Def>) {
        let map = seals.iter().map(|(k, v)| (*k, *v)).collect::<BTreeMap<_, _>>();
        for (k, v) in &map {
            self.seals.insert(CellAddr::new(opid, *k), *v);
        }
        self.log.push(Event::Seals(opid, map));
    }
    fn apply_witness(&mut self, opid: Opid, witness: Wit) {
        self.log.push(Event::Witness(opid, witness.published.txid()));
        self.witnesses.entry(opid).or_default().push(witness);
    }
}

pub struct Stream(pub std::vec::IntoIter<Block>);
impl ReadOperation for Stream {
    type Seal = TxoSeal;
    fn read_operation(&mut self) -> Result<Option<Block>, impl Error + 'static> { Ok::<_, Infallible>(self.0.next()) }
}

/// Ends the program with a failure.
pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("BROKEN: {what}");
        std::process::exit(1);
    }
    println!("ok: {what}");
}

pub fn addr(opid: Opid, pos: u16) -> CellAddr { CellAddr::new(opid, pos) }
