//! The form of records in the release this simulator was written for, put together without the code under test: what a
//! wallet which has not been updated writes and reads.

use std::collections::BTreeMap;
use std::io::Cursor;

use strict_encoding::{StreamReader, StrictDecode, StrictEncode, StrictStruct, StrictType};
use ultrasonic::Operation;

use crate::kit::{encode, OpSeals, Rec, MAX};

/// Parts of a record.
pub type Parts<D, W> = (Operation, BTreeMap<u16, D>, Option<W>);

pub fn write<D: StrictEncode, W: StrictEncode>(op: &Operation, defs: &BTreeMap<u16, D>, wit: Option<&W>) -> Vec<u8> {
    let mut b = encode(op);
    b.extend((defs.len() as u16).to_le_bytes());
    for (pos, def) in defs {
        b.extend(pos.to_le_bytes());
        b.extend(encode(def));
    }
    match wit {
        None => b.push(0),
        Some(w) => {
            b.push(1);
            b.extend(encode(w));
        }
    }
    b
}

pub fn read<D: StrictDecode, W: StrictDecode>(data: &[u8]) -> Result<Parts<D, W>, String> {
    let mut cursor = Cursor::new(data);
    fn part<T: StrictDecode>(c: &mut Cursor<&[u8]>) -> Result<T, String> {
        T::strict_read(StreamReader::new::<MAX>(c)).map_err(|e| e.to_string())
    }
    let op = part::<Operation>(&mut cursor)?;
    let mut defs = BTreeMap::new();
    for _ in 0..part::<u16>(&mut cursor)? {
        let pos = part::<u16>(&mut cursor)?;
        if defs.last_key_value().is_some_and(|(last, _)| *last >= pos) {
            return Err("definitions out of order".to_owned());
        }
        defs.insert(pos, part::<D>(&mut cursor)?);
    }
    let wit = match part::<u8>(&mut cursor)? {
        0 => None,
        1 => Some(part::<W>(&mut cursor)?),
        x => return Err(format!("tag {x} of a witness")),
    };
    if cursor.position() as usize != data.len() {
        return Err("data left after the record".to_owned());
    }
    Ok((op, defs, wit))
}

pub fn write_rec(r: &Rec) -> Vec<u8> { write(&r.op, &r.defs, r.wit.as_ref()) }
pub fn read_rec(data: &[u8]) -> Result<Rec, String> {
    read(data).map(|(op, defs, wit)| Rec { op, defs, wit })
}

#[cfg(feature = "json")]
pub fn write_text(r: &Rec) -> Result<String, String> {
    use serde_json::{to_value, Map, Value};
    let defs = amplify::confinement::SmallOrdMap::from_iter_checked(r.defs.iter().map(|(k, v)| (*k, *v)));
    let mut m = Map::new();
    let e = |e: serde_json::Error| e.to_string();
    m.insert("operation".to_owned(), to_value(&r.op).map_err(e)?);
    m.insert("definedSeals".to_owned(), to_value(&defs).map_err(e)?);
    m.insert("witness".to_owned(), to_value(&r.wit).map_err(e)?);
    Ok(Value::Object(m).to_string())
}

#[cfg(feature = "json")]
pub fn read_text(s: &str) -> Result<Rec, String> {
    use serde_json::{from_value, Value};
    let e = |e: serde_json::Error| e.to_string();
    let Value::Object(mut m) = serde_json::from_str::<Value>(s).map_err(e)? else { return Err("no object".to_owned()) };
    let mut take = |n: &str| m.remove(n).ok_or(format!("no field {n}"));
    let defs: amplify::confinement::SmallOrdMap<u16, crate::kit::Def> = from_value(take("definedSeals")?).map_err(e)?;
    Ok(Rec {
        op: from_value(take("operation")?).map_err(e)?,
        defs: defs.iter().map(|(k, v)| (*k, *v)).collect(),
        wit: from_value(take("witness").unwrap_or(Value::Null)).map_err(e)?,
    })
}

#[cfg(not(feature = "json"))]
pub fn write_text(_: &Rec) -> Result<String, String> { Err("no textual form in this build".to_owned()) }
#[cfg(not(feature = "json"))]
pub fn read_text(_: &str) -> Result<Rec, String> { Err("no textual form in this build".to_owned()) }

/// Name of the library, of the type and of the fields, by which wallets tell the type of records to each other.
pub fn announced() -> (String, Option<String>, Vec<String>) {
    (
        <OpSeals as StrictType>::STRICT_LIB_NAME.to_owned(),
        OpSeals::strict_name().map(|n| n.to_string()),
        OpSeals::ALL_FIELDS.iter().map(|f| (*f).to_owned()).collect(),
    )
}

pub fn check_announced() -> Result<(), String> {
    let got = announced();
    let want = (
        "RGB".to_owned(),
        Some("OperationSealsTxoSeal".to_owned()),
        ["operation", "definedSeals", "witness"].map(str::to_owned).to_vec(),
    );
    if got != want || rgbcore::LIB_NAME_RGB != "RGB" {
        return Err(format!("the type of records is announced as {got:?} in {} instead of {want:?}", rgbcore::LIB_NAME_RGB));
    }
    Ok(())
}

/// Exchanges a record with a wallet of the earlier release, in both directions.
pub fn exchange(no: usize, r: &Rec) -> Vec<String> {
    let mut res = vec![];
    let ours = encode(&r.to_lib());
    match read_rec(&ours) {
        Ok(b) if b.same(r) => {}
        Ok(_) => res.push(format!("record {no} is another one to a wallet of the earlier release")),
        Err(e) => res.push(format!("record {no} can't be read by a wallet of the earlier release: {e}")),
    }
    match crate::kit::decode::<OpSeals>(&write_rec(r)) {
        Ok(b) if Rec::from_lib(&b).same(r) => {}
        Ok(_) => res.push(format!("record {no} of a wallet of the earlier release is read as another one")),
        Err(e) => res.push(format!("record {no} of a wallet of the earlier release can't be read: {e}")),
    }
    res
}

/// The same with the textual form.
pub fn exchange_text(no: usize, r: &Rec) -> Vec<String> {
    let mut res = vec![];
    match crate::kit::to_text(&r.to_lib()).and_then(|s| read_text(&s)) {
        Ok(b) if b.same(r) => {}
        Ok(_) => res.push(format!("text of record {no} is another one to a wallet of the earlier release")),
        Err(e) => res.push(format!("text of record {no} can't be read by a wallet of the earlier release: {e}")),
    }
    match write_text(r).and_then(|s| crate::kit::of_text(&s)) {
        Ok(b) if Rec::from_lib(&b).same(r) => {}
        Ok(_) => res.push(format!("text of record {no} of a wallet of the earlier release is read as another one")),
        Err(e) => res.push(format!("text of record {no} of a wallet of the earlier release can't be read: {e}")),
    }
    res
}
