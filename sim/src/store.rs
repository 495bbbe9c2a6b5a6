//! Wallet storage: the contract state in memory and a journal on a simulated disk.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use amplify::confinement::SmallOrdMap;
use amplify::ByteArray;
use bp::Txid;
use single_use_seals::PublishedWitness;
use ultrasonic::{CellAddr, Memory, Operation, Opid, StateCell, StateValue};

use crate::contract::{cell_amount, Contract};
use crate::kit::{decode, encode, h64, op_bytes, short, Def, Wit};

/// One durable record, written for each notification a contract receives.
#[derive(Clone, Debug)]
pub enum JRec {
    W(Opid, Arc<Wit>),
    O(Opid, Arc<Operation>),
    S(Opid, BTreeMap<u16, Def>),
}

impl JRec {
    fn to_bytes(&self) -> Vec<u8> {
        let (tag, opid, body) = match self {
            JRec::W(opid, w) => (1u8, opid, encode(&**w)),
            JRec::O(opid, op) => (2, opid, op_bytes(op)),
            JRec::S(opid, defs) => (3, opid, encode(&SmallOrdMap::<u16, Def>::from_iter_checked(defs.iter().map(|(k, v)| (*k, *v))))),
        };
        let mut payload = vec![tag];
        payload.extend(opid.to_byte_array());
        payload.extend(body);
        let mut out = (payload.len() as u32).to_le_bytes().to_vec();
        out.extend(h64(&payload).to_le_bytes());
        out.extend(payload);
        out
    }

    fn parse(data: &[u8]) -> Option<(JRec, usize)> {
        let len = u32::from_le_bytes(data.get(..4)?.try_into().ok()?) as usize;
        let sum = u64::from_le_bytes(data.get(4..12)?.try_into().ok()?);
        let payload = data.get(12..12 + len)?;
        if h64(payload) != sum || len < 33 {
            return None;
        }
        let opid = Opid::from_byte_array(<[u8; 32]>::try_from(&payload[1..33]).ok()?);
        let body = &payload[33..];
        let rec = match payload[0] {
            1 => JRec::W(opid, Arc::new(decode::<Wit>(body).ok()?)),
            2 => JRec::O(opid, Arc::new(decode::<Operation>(body).ok()?)),
            3 => JRec::S(opid, decode::<SmallOrdMap<u16, Def>>(body).ok()?.iter().map(|(k, v)| (*k, *v)).collect()),
            _ => return None,
        };
        Some((rec, 12 + len))
    }
}

#[derive(Clone, Debug, Default)]
pub struct Disk {
    pub data: Vec<u8>,
    /// Everything before this offset survives any crash.
    pub synced: usize,
    /// Sync after this number of records (0: only at the end of an evaluation).
    pub every: usize,
    unsynced: usize,
}

impl Disk {
    pub fn new(every: usize) -> Self { Disk { every, ..Default::default() } }

    pub fn write(&mut self, rec: &JRec) {
        self.data.extend(rec.to_bytes());
        self.unsynced += 1;
        if self.every != 0 && self.unsynced >= self.every {
            self.sync();
        }
    }

    pub fn sync(&mut self) {
        self.synced = self.data.len();
        self.unsynced = 0;
    }

    /// Power loss: of the data not synced only a prefix (possibly torn inside of a record) survives. Returns the
    /// number of lost bytes.
    pub fn crash(&mut self, keep_permille: usize) -> usize {
        let tail = self.data.len() - self.synced;
        let keep = self.synced + tail * keep_permille.min(1000) / 1000;
        let lost = self.data.len() - keep;
        self.data.truncate(keep);
        self.unsynced = 0;
        lost
    }

    /// Restart: replays all the valid records and cuts the torn tail.
    pub fn recover(&mut self, c: &Contract) -> (Store, bool) {
        let mut store = Store::new(c);
        let mut pos = 0;
        while let Some((rec, len)) = JRec::parse(&self.data[pos..]) {
            store.apply(&rec);
            pos += len;
        }
        let torn = pos != self.data.len();
        self.data.truncate(pos);
        self.synced = pos;
        (store, torn)
    }
}

#[derive(Clone, Debug)]
pub struct Store {
    pub genesis: Opid,
    pub ops: BTreeMap<Opid, Arc<Operation>>,
    pub order: Vec<Opid>,
    pub owned: BTreeMap<CellAddr, StateCell>,
    pub global: BTreeMap<CellAddr, StateValue>,
    pub seals: BTreeMap<Opid, BTreeMap<u16, Def>>,
    /// Distinct witnesses in the order of the last delivery.
    pub wits: BTreeMap<Opid, Vec<Arc<Wit>>>,
    pub spent: BTreeMap<CellAddr, Opid>,
    /// Operations applied more than once.
    pub twice: BTreeSet<Opid>,
}

impl Store {
    pub fn new(c: &Contract) -> Self {
        let mut s = Store {
            genesis: c.genesis_opid,
            ops: BTreeMap::new(),
            order: vec![],
            owned: BTreeMap::new(),
            global: BTreeMap::new(),
            seals: BTreeMap::new(),
            wits: BTreeMap::new(),
            spent: BTreeMap::new(),
            twice: BTreeSet::new(),
        };
        s.outputs(c.genesis_opid, &c.genesis_op);
        s
    }

    fn outputs(&mut self, opid: Opid, op: &Operation) {
        for (i, cell) in op.destructible_out.iter().enumerate() {
            self.owned.insert(CellAddr::new(opid, i as u16), *cell);
        }
        for (i, data) in op.immutable_out.iter().enumerate() {
            self.global.insert(CellAddr::new(opid, i as u16), data.value);
        }
    }

    pub fn knows(&self, opid: Opid) -> bool { opid == self.genesis || self.ops.contains_key(&opid) }

    pub fn apply(&mut self, rec: &JRec) {
        match rec {
            JRec::W(opid, w) => {
                let list = self.wits.entry(*opid).or_default();
                list.retain(|x| x.published != w.published || x.client != w.client);
                list.push(w.clone());
            }
            JRec::O(opid, op) => {
                if self.knows(*opid) {
                    self.twice.insert(*opid);
                    return;
                }
                for input in &op.destructible_in {
                    self.owned.remove(&input.addr);
                    self.spent.insert(input.addr, *opid);
                }
                self.outputs(*opid, op);
                self.ops.insert(*opid, op.clone());
                self.order.push(*opid);
            }
            JRec::S(opid, defs) => {
                self.seals
                    .entry(*opid)
                    .or_default()
                    .extend(defs.iter().map(|(k, v)| (*k, *v)));
            }
        }
    }

    pub fn last_wit(&self, opid: &Opid) -> Option<&Arc<Wit>> { self.wits.get(opid).and_then(|l| l.last()) }

    pub fn last_txid(&self, opid: &Opid) -> Option<Txid> { self.last_wit(opid).map(|w| w.published.pub_id()) }

    pub fn supply(&self) -> Option<u128> {
        self.owned
            .values()
            .try_fold(0u128, |sum, cell| cell_amount(cell).map(|v| sum.saturating_add(v)))
    }

    /// Describes the first difference in the contract state (operations, owned and global memory).
    pub fn state_diff(&self, other: &Store) -> Option<String> {
        for (a, b, who) in [(self, other, "second"), (other, self, "first")] {
            if let Some(op) = a.ops.keys().find(|o| !b.ops.contains_key(*o)) {
                return Some(format!("operation {} missing in the {who}", short(op)));
            }
        }
        for (opid, op) in &self.ops {
            if op_bytes(op) != op_bytes(&other.ops[opid]) {
                return Some(format!("content of operation {} differs", short(opid)));
            }
        }
        if self.owned != other.owned {
            return Some(format!("owned memory differs: {} vs {} cells", self.owned.len(), other.owned.len()));
        }
        if self.global != other.global {
            return Some("global memory differs".to_owned());
        }
        None
    }

    pub fn full_diff(&self, other: &Store) -> Option<String> {
        if let Some(d) = self.state_diff(other) {
            return Some(d);
        }
        if self.seals != other.seals {
            return Some("recorded seals differ".to_owned());
        }
        let ids = |s: &Store| -> BTreeMap<Opid, BTreeSet<Vec<u8>>> {
            s.wits
                .iter()
                .map(|(o, l)| (*o, l.iter().map(|w| encode(&**w)).collect()))
                .collect()
        };
        if ids(self) != ids(other) {
            return Some("recorded witnesses differ".to_owned());
        }
        None
    }

    pub fn digest(&self) -> u64 {
        let mut b = vec![];
        for o in self.ops.keys() {
            b.extend(o.to_byte_array());
        }
        for (a, _) in &self.owned {
            b.extend(<[u8; 34]>::from(*a));
        }
        for (o, d) in &self.seals {
            b.extend(o.to_byte_array());
            for k in d.keys() {
                b.extend(k.to_le_bytes());
            }
        }
        for (o, l) in &self.wits {
            b.extend(o.to_byte_array());
            b.push(l.len() as u8);
        }
        h64(&b)
    }
}

impl Memory for Store {
    fn destructible(&self, addr: CellAddr) -> Option<StateCell> { self.owned.get(&addr).copied() }
    fn immutable(&self, addr: CellAddr) -> Option<StateValue> { self.global.get(&addr).copied() }
}
