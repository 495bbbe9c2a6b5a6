//! Dedicated scenarios of the known findings, run each time to see whether they are still there.

use std::collections::BTreeMap;

use amplify::confinement::Confined;
use amplify::ByteArray;
use ultrasonic::{CellAddr, Input, Operation, StateValue};

use crate::compare::Context;
use crate::contract::{Contract, CALL_TRANSFER, LOCK_KEY, amount};
use crate::kit::{build_tx, rand_ext, rand_outpoint, seal_of, short, Bundle, Def, Rec, TxSpec, Wit};
use crate::rng::Rng;
use crate::session::{prepare, run, ErrTy, Transport, Verdict};
use crate::sim::CSpec;
use crate::store::Store;

fn transfer(c: &Contract, rng: &mut Rng) -> (Operation, BTreeMap<u16, Def>) {
    let def = Def { primary: bp::seals::WOutpoint::Extern(rand_outpoint(rng)), secondary: rand_ext(rng) };
    let cell = &c.genesis_op.destructible_out[0];
    let value = crate::contract::cell_amount(cell).unwrap() as u64;
    let mut op = c.new_op(CALL_TRANSFER, rng.u64());
    op.destructible_in = Confined::from_checked(vec![Input {
        addr: CellAddr::new(c.genesis_opid, 0),
        witness: if cell.lock.is_some() { amount(LOCK_KEY) } else { StateValue::None },
    }]);
    op.destructible_out = Confined::from_checked(vec![c.cell(&def, value, false)]);
    (op, BTreeMap::from([(0, def)]))
}

fn accepts(c: &Contract, recs: &[Rec]) -> (bool, Store) {
    let mut store = Store::new(c);
    let p = prepare(recs, Transport::Plain, ErrTy::Custom, &[], 1);
    let out = run(c, &mut store, None, &p, None, None);
    (out.verdict == Verdict::Ok, store)
}

/// F2: the commitment isn't bound to the contract, so one transaction closes a seal over two operations.
pub fn f2(seed: u64) -> Option<String> {
    let _ = Context::default();
    let mut rng = Rng::from_parts(&[seed, 0xF2]);
    let spec = CSpec { codex: rng.u64(), salt: rng.u64(), cells: 2, globals: 0, wout: false };
    let c = spec.issue();
    let (op1, defs1) = transfer(&c, &mut rng);
    let (op2, defs2) = transfer(&c, &mut rng);
    let seal = seal_of(&c.genesis_defs[&0], None)?;
    let own = c.id.to_byte_array();
    let other: [u8; 32] = rng.bytes();
    let (tx, anchors) = build_tx(&TxSpec {
        inputs: vec![seal.primary],
        bundles: BTreeMap::from([
            (own, Bundle::from([(0, op1.opid().to_byte_array())])),
            (other, Bundle::from([(0, op2.opid().to_byte_array())])),
        ]),
        outs: 2,
        tapret: true,
        commit_pos: 0,
        entropy: rng.u64(),
    });
    let genesis = Rec { op: c.genesis_stream_op(), defs: c.genesis_defs.clone(), wit: None };
    let one = [
        genesis.clone(),
        Rec { op: op1.clone(), defs: defs1, wit: Some(Wit::new(tx.clone(), anchors[&own].clone())) },
    ];
    let two = [genesis, Rec { op: op2.clone(), defs: defs2, wit: Some(Wit::new(tx.clone(), anchors[&other].clone())) }];
    let (ok1, s1) = accepts(&c, &one);
    let (ok2, s2) = accepts(&c, &two);
    let cell = CellAddr::new(c.genesis_opid, 0);
    (ok1 && ok2 && s1.spent.get(&cell).is_some() && s2.spent.get(&cell).is_some() && op1.opid() != op2.opid()).then(|| {
        format!(
            "one transaction with two commitment protocols closes the seal of one cell over two operations: {} and {}",
            short(&op1.opid()),
            short(&op2.opid())
        )
    })
}

/// F3: anybody can give another witness to an operation consuming nothing, and gets its witness-relative seals.
pub fn f3(seed: u64) -> Option<String> {
    let mut rng = Rng::from_parts(&[seed, 0xF3]);
    let spec = CSpec { codex: rng.u64(), salt: rng.u64(), cells: 2, globals: 0, wout: false };
    let c = spec.issue();
    let protocol = c.id.to_byte_array();
    let witness = |opid: ultrasonic::Opid, spends: bp::Outpoint, rng: &mut Rng| {
        let (tx, anchors) = build_tx(&TxSpec {
            inputs: vec![spends],
            bundles: BTreeMap::from([(protocol, Bundle::from([(0, opid.to_byte_array())]))]),
            outs: 2,
            tapret: true,
            commit_pos: 0,
            entropy: rng.u64(),
        });
        Wit::new(tx, anchors[&protocol].clone())
    };
    let vout = bp::Vout::from_u32(1);
    let def = Def { primary: bp::seals::WOutpoint::Wout(vout), secondary: rand_ext(&mut rng) };
    let mut op = c.new_op(CALL_TRANSFER, rng.u64());
    op.destructible_out = Confined::from_checked(vec![c.cell(&def, 0, false)]);
    let opid = op.opid();
    let genesis = Rec { op: c.genesis_stream_op(), defs: c.genesis_defs.clone(), wit: None };
    // The author's witness, delivered first, puts the seal on an output of the author's transaction
    let honest = witness(opid, rand_outpoint(&mut rng), &mut rng);
    let open = |wit: &Wit| Rec { op: op.clone(), defs: BTreeMap::from([(0, def)]), wit: Some(wit.clone()) };
    // The thief has nothing but a transaction of his own
    let theirs = witness(opid, rand_outpoint(&mut rng), &mut rng);
    let own = bp::Outpoint::new(theirs.published.txid(), vout);
    let def2 = Def { primary: bp::seals::WOutpoint::Extern(rand_outpoint(&mut rng)), secondary: rand_ext(&mut rng) };
    let mut theft = c.new_op(CALL_TRANSFER, rng.u64());
    theft.destructible_in =
        Confined::from_checked(vec![Input { addr: CellAddr::new(opid, 0), witness: StateValue::None }]);
    theft.destructible_out = Confined::from_checked(vec![c.cell(&def2, 0, false)]);
    let closing = witness(theft.opid(), own, &mut rng);
    let last = Rec { op: theft.clone(), defs: BTreeMap::from([(0, def2)]), wit: Some(closing) };
    let (ok1, _) = accepts(&c, &[genesis.clone(), open(&honest)]);
    let (ok2, s) = accepts(&c, &[genesis, open(&honest), open(&theirs), last]);
    (ok1 && ok2 && s.spent.contains_key(&CellAddr::new(opid, 0))).then(|| {
        format!(
            "a witness made by a stranger for operation {}, which consumes nothing, moves its witness-relative seal to the \
             stranger's transaction, who then consumes the cell",
            short(&opid)
        )
    })
}

/// F1: an operation committing to the codex which isn't the genesis of the contract starts a consignment.
pub fn f1(seed: u64) -> Option<String> {
    let mut rng = Rng::from_parts(&[seed, 0xF1]);
    let spec = CSpec { codex: rng.u64(), salt: rng.u64(), cells: 2, globals: 0, wout: false };
    let c = spec.issue();
    let mut op = c.new_op(crate::contract::CALL_POST, rng.u64());
    op.contract_id = ultrasonic::ContractId::from_byte_array(c.codex_id.to_byte_array());
    let (ok, _) = accepts(&c, &[Rec { op, defs: BTreeMap::new(), wit: None }]);
    ok.then(|| {
        "a consignment starting with an operation which commits to the codex but is not the genesis of the contract is \
         evaluated"
            .to_owned()
    })
}
