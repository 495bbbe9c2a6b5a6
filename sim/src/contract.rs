//! Contracts: real codices with real AluVM scripts, and their geneses.

use std::collections::BTreeMap;

use amplify::confinement::{Confined, SmallVec, TinyOrdMap, TinyString};
use amplify::ByteArray;
use commit_verify::ReservedBytes;
use strict_encoding::StrictDumb;
use ultrasonic::aluvm::alu::{CoreConfig, Lib, LibId, LibSite};
use ultrasonic::aluvm::FIELD_ORDER_SECP;
use ultrasonic::{
    fe256, AuthToken, uasm, CellLock, Codex, CodexId, Consensus, ContractId, ContractMeta, ContractName, Genesis, Identity, Instr,
    Issue, LibRepo, Operation, Opid, StateCell, StateData, StateValue,
};

use crate::kit::{token, Def};

pub const CALL_TRANSFER: u16 = 0;
pub const CALL_POST: u16 = 1;
pub const CALL_SIGNED: u16 = 2;
pub const CALL_GATED: u16 = 3;
pub const CALL_HIGH: u16 = 0xFFFE;
pub const CALLS: [u16; 4] = [CALL_TRANSFER, CALL_SIGNED, CALL_GATED, CALL_HIGH];
/// Global value the gated call must read.
pub const GATE: u64 = 4242;
/// Operation witness the signed call needs.
pub const SIGNED: u64 = 777;
/// Input witness locked cells need.
pub const LOCK_KEY: u64 = 48;

type Code = Vec<Instr<LibId>>;

fn here(code: &Code) -> u16 { Lib::assemble(code).expect("code").code.len() as u16 }

/// `sum(inputs) == sum(outputs)` with each value being present and of 64 bits.
fn push_conservation(code: &mut Code) {
    code.extend(uasm! { put E3, 0; put E4, 0; put E1, 101; });
    for output in [false, true] {
        let load: Code = if output { uasm! { ldo destructible; } } else { uasm! { ldi destructible; } };
        let body: Code = if output {
            uasm! { test EA; chk CO; fits EA, 64.bits; chk CO; add E4, EA; }
        } else {
            uasm! { test EA; chk CO; fits EA, 64.bits; chk CO; add E3, EA; }
        };
        let start = here(code);
        code.extend(load);
        // Jumps have a fixed size, so the target of the forward jump is computed on a draft
        let mut draft = code.clone();
        let pos = 0u16;
        draft.extend(uasm! { jif CO, pos; });
        draft.extend(body.clone());
        let pos = start;
        draft.extend(uasm! { jmp pos; });
        let pos = here(&draft);
        code.extend(uasm! { jif CO, pos; });
        code.extend(body);
        let pos = start;
        code.extend(uasm! { jmp pos; });
    }
    code.extend(uasm! { put E1, 102; eq E3, E4; chk CO; });
}

fn assemble(code: &Code) -> Lib { Lib::assemble(code).expect("assemble") }

#[derive(Clone, Debug)]
pub struct Repo(BTreeMap<LibId, Lib>);
impl LibRepo for Repo {
    fn get_lib(&self, lib_id: LibId) -> Option<&Lib> { self.0.get(&lib_id) }
}

#[derive(Clone, Debug)]
pub struct Contract {
    pub id: ContractId,
    pub codex: Codex,
    pub codex_id: CodexId,
    pub repo: Repo,
    pub lock: LibSite,
    pub genesis: Genesis,
    /// Genesis in the form of an operation having the contract id.
    pub genesis_op: Operation,
    pub genesis_opid: Opid,
    /// All seals defined by the genesis.
    pub genesis_defs: BTreeMap<u16, Def>,
    pub supply: u64,
}

pub fn codex(salt: u64) -> (Codex, Repo, LibSite) {
    let mut transfer = Code::new();
    push_conservation(&mut transfer);
    let post: Code = uasm! {
        put     E1, 201;
        cknxi   destructible;
        not     CO;
        chk     CO;
        put     E1, 202;
        cknxo   destructible;
        not     CO;
        chk     CO;
    };
    let mut signed: Code = uasm! { put E1, 301; ldw; put E2, 777; eq EA, E2; chk CO; };
    push_conservation(&mut signed);
    let mut gated: Code = uasm! { put E1, 401; ldi immutable; chk CO; put E2, 4242; eq EA, E2; chk CO; };
    push_conservation(&mut gated);
    let lock: Code = uasm! { put E8, 1; put E1, 48; ldi witness; chk CO; put E8, 2; eq EA, E1; chk CO; };

    let libs = [&transfer, &post, &signed, &gated, &lock].map(assemble);
    let sites = libs.iter().map(|l| LibSite::new(l.lib_id(), 0)).collect::<Vec<_>>();
    let repo = Repo(libs.into_iter().map(|l| (l.lib_id(), l)).collect());
    let config = CoreConfig { halt: true, complexity_lim: None };
    let codex = Codex {
        version: ReservedBytes::default(),
        name: TinyString::from_checked(format!("Sim{}", salt % 1000)),
        developer: Identity::default(),
        timestamp: if salt % 4 == 0 { salt as i64 } else { 1_732_529_307 },
        features: ReservedBytes::default(),
        field_order: FIELD_ORDER_SECP,
        verification_config: config,
        input_config: config,
        verifiers: TinyOrdMap::from_iter_checked([
            (CALL_TRANSFER, sites[0]),
            (CALL_POST, sites[1]),
            (CALL_SIGNED, sites[2]),
            (CALL_GATED, sites[3]),
            (CALL_HIGH, sites[0]),
        ]),
    };
    (codex, repo, sites[4])
}

pub fn amount(v: u64) -> StateValue { StateValue::Single { first: fe256::from(v) } }

pub fn cell_amount(cell: &StateCell) -> Option<u128> {
    let StateValue::Single { first } = cell.data else { return None };
    let v = first.to_u256();
    let b = v.to_le_bytes();
    if b[16..].iter().any(|x| *x != 0) {
        return None;
    }
    let mut lo = [0u8; 16];
    lo.copy_from_slice(&b[..16]);
    Some(u128::from_le_bytes(lo))
}

impl Contract {
    pub fn cell(&self, def: &Def, value: u64, locked: bool) -> StateCell { self.cell_auth(token(def), value, locked) }

    pub fn cell_auth(&self, auth: AuthToken, value: u64, locked: bool) -> StateCell {
        StateCell {
            data: amount(value),
            auth,
            lock: locked.then(|| CellLock { aux: StateValue::None, script: Some(self.lock) }),
        }
    }

    pub fn issue(codex_salt: u64, salt: u64, owned: &[(Def, u64, bool)], globals: usize) -> Contract {
        let cells = owned.iter().map(|(d, v, l)| (token(d), *v, *l)).collect::<Vec<_>>();
        let mut c = Self::issue_cells(codex_salt, salt, &cells, globals);
        c.genesis_defs = owned.iter().enumerate().map(|(i, (d, _, _))| (i as u16, *d)).collect();
        c
    }

    pub fn issue_cells(codex_salt: u64, salt: u64, owned: &[(AuthToken, u64, bool)], globals: usize) -> Contract {
        let (codex, repo, lock) = codex(codex_salt);
        let codex_id = codex.codex_id();
        let cells = owned.iter().map(|(auth, value, locked)| StateCell {
            data: amount(*value),
            auth: *auth,
            lock: locked.then(|| CellLock { aux: StateValue::None, script: Some(lock) }),
        });
        let mut immutable = vec![StateData { value: amount(GATE), raw: None }];
        for i in 0..globals {
            immutable.push(StateData { value: amount(salt.wrapping_add(i as u64) >> 8), raw: None });
        }
        let genesis = Genesis {
            version: ReservedBytes::default(),
            codex_id,
            call_id: 7,
            nonce: fe256::from(salt),
            blank0: ReservedBytes::default(),
            blank1: ReservedBytes::default(),
            blank2: ReservedBytes::default(),
            destructible_out: SmallVec::from_iter_checked(cells),
            immutable_out: Confined::from_checked(immutable),
        };
        let issue = Issue {
            version: ReservedBytes::default(),
            meta: ContractMeta {
                testnet: true,
                consensus: Consensus::Bitcoin,
                timestamp: salt as i64,
                features: ReservedBytes::default(),
                name: ContractName::Unnamed,
                issuer: Identity::default(),
            },
            codex: codex.clone(),
            genesis: genesis.clone(),
        };
        let id = issue.contract_id();
        let genesis_op = genesis.to_operation(id);
        let genesis_opid = genesis_op.opid();
        Contract {
            id,
            codex,
            codex_id,
            repo,
            lock,
            genesis,
            genesis_op,
            genesis_opid,
            genesis_defs: BTreeMap::new(),
            supply: owned.iter().map(|(_, v, _)| *v).sum(),
        }
    }

    /// Genesis the way it stands in a consignment: committing to the codex and not to the contract.
    pub fn genesis_stream_op(&self) -> Operation {
        let mut op = self.genesis_op.clone();
        op.contract_id = ContractId::from_byte_array(self.codex_id.to_byte_array());
        op
    }

    pub fn new_op(&self, call_id: u16, nonce: u64) -> Operation {
        let mut op = Operation::strict_dumb();
        op.contract_id = self.id;
        op.call_id = call_id;
        op.nonce = fe256::from(nonce);
        op.destructible_in.clear();
        op.immutable_in.clear();
        op.destructible_out.clear();
        op.immutable_out.clear();
        op.witness = StateValue::None;
        op
    }
}
