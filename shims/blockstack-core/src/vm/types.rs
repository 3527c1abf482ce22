use std::{collections::BTreeMap, fmt, io};

use lazy_static::lazy_static;
use serde::{Deserialize, Serialize};

use super::{ClarityName, ContractName};
use crate::{
    codec::{take, Error, StacksMessageCodec},
    types::chainstate::StacksAddress,
};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct StandardPrincipalData(pub u8, pub [u8; 20]);
impl StandardPrincipalData {
    pub fn to_address(&self) -> String {
        c32(self.0, &self.1)
    }
}
impl fmt::Display for StandardPrincipalData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.to_address())
    }
}
impl fmt::Debug for StandardPrincipalData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "StandardPrincipalData({})", self.to_address())
    }
}
impl From<StacksAddress> for StandardPrincipalData {
    fn from(a: StacksAddress) -> Self {
        StandardPrincipalData(a.version, a.bytes.0)
    }
}
impl From<StandardPrincipalData> for PrincipalData {
    fn from(p: StandardPrincipalData) -> Self {
        PrincipalData::Standard(p)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct QualifiedContractIdentifier {
    pub issuer: StandardPrincipalData,
    pub name: ContractName,
}
impl QualifiedContractIdentifier {
    pub fn new(issuer: StandardPrincipalData, name: ContractName) -> Self {
        QualifiedContractIdentifier { issuer, name }
    }
}
impl fmt::Display for QualifiedContractIdentifier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}.{}", self.issuer, self.name)
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum PrincipalData {
    Standard(StandardPrincipalData),
    Contract(QualifiedContractIdentifier),
}
impl fmt::Display for PrincipalData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            PrincipalData::Standard(s) => write!(f, "{s}"),
            PrincipalData::Contract(c) => write!(f, "{c}"),
        }
    }
}
impl From<StacksAddress> for PrincipalData {
    fn from(a: StacksAddress) -> Self {
        PrincipalData::Standard(a.into())
    }
}
impl From<QualifiedContractIdentifier> for PrincipalData {
    fn from(a: QualifiedContractIdentifier) -> Self {
        PrincipalData::Contract(a)
    }
}
impl StacksMessageCodec for PrincipalData {
    fn consensus_serialize<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        Value::Principal(self.clone()).consensus_serialize(w)
    }
    fn consensus_deserialize<R: io::Read>(r: &mut R) -> Result<Self, Error> {
        match Value::consensus_deserialize(r)? {
            Value::Principal(p) => Ok(p),
            v => Err(Error::DeserializeError(format!("not a principal: {v}"))),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct BufferLength(pub u32);
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SequenceSubtype {
    BufferType(BufferLength),
    ListType(ListTypeData),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TypeSignature {
    NoType,
    IntType,
    UIntType,
    BoolType,
    PrincipalType,
    SequenceType(SequenceSubtype),
}
impl TypeSignature {
    pub fn admits(&self, v: &Value) -> bool {
        match (self, v) {
            (TypeSignature::IntType, Value::Int(_)) => true,
            (TypeSignature::UIntType, Value::UInt(_)) => true,
            (TypeSignature::BoolType, Value::Bool(_)) => true,
            (TypeSignature::PrincipalType, Value::Principal(_)) => true,
            (TypeSignature::SequenceType(SequenceSubtype::BufferType(n)), Value::Sequence(SequenceData::Buffer(b))) => {
                b.data.len() <= n.0 as usize
            }
            (TypeSignature::SequenceType(SequenceSubtype::ListType(t)), Value::Sequence(SequenceData::List(l))) => {
                l.data.len() <= t.max_len as usize && l.data.iter().all(|v| t.entry_type.admits(v))
            }
            _ => false,
        }
    }
}
lazy_static! {
    pub static ref BUFF_32: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(32)));
    pub static ref BUFF_33: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(33)));
    pub static ref BUFF_20: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(20)));
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ListTypeData {
    pub max_len: u32,
    pub entry_type: Box<TypeSignature>,
}
impl ListTypeData {
    pub fn new_list(entry_type: TypeSignature, max_len: u32) -> Result<Self, Error> {
        Ok(ListTypeData { max_len, entry_type: Box::new(entry_type) })
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ListData {
    pub data: Vec<Value>,
    pub type_signature: ListTypeData,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct BuffData {
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ASCIIData {
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum CharType {
    ASCII(ASCIIData),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum SequenceData {
    Buffer(BuffData),
    List(ListData),
    String(CharType),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct OptionalData {
    pub data: Option<Box<Value>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct ResponseData {
    pub committed: bool,
    pub data: Box<Value>,
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TupleData {
    pub data_map: BTreeMap<ClarityName, Value>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Value {
    Int(i128),
    UInt(u128),
    Bool(bool),
    Sequence(SequenceData),
    Principal(PrincipalData),
    Tuple(TupleData),
    Optional(OptionalData),
    Response(ResponseData),
}
impl Value {
    pub fn buff_from(data: Vec<u8>) -> Result<Value, Error> {
        if data.len() > 1024 * 1024 {
            return Err(Error::ArrayTooLong);
        }
        Ok(Value::Sequence(SequenceData::Buffer(BuffData { data })))
    }
    pub fn buff_from_byte(b: u8) -> Value {
        Value::Sequence(SequenceData::Buffer(BuffData { data: vec![b] }))
    }
    pub fn list_from(data: Vec<Value>) -> Result<Value, Error> {
        let max = data.iter().map(|v| match v { Value::Sequence(SequenceData::Buffer(b)) => b.data.len(), _ => 0 }).max().unwrap_or(0);
        Ok(Value::Sequence(SequenceData::List(ListData {
            type_signature: ListTypeData {
                max_len: data.len() as u32,
                entry_type: Box::new(TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(max as u32)))),
            },
            data,
        })))
    }
    pub fn cons_list_unsanitized(data: Vec<Value>) -> Result<Value, Error> {
        Self::list_from(data)
    }
    pub fn list_with_type(_e: &(), data: Vec<Value>, t: ListTypeData) -> Result<Value, Error> {
        Ok(Value::Sequence(SequenceData::List(ListData { data, type_signature: t })))
    }
    pub fn some(v: Value) -> Result<Value, Error> {
        Ok(Value::Optional(OptionalData { data: Some(Box::new(v)) }))
    }
    pub fn none() -> Value {
        Value::Optional(OptionalData { data: None })
    }
    pub fn okay(v: Value) -> Result<Value, Error> {
        Ok(Value::Response(ResponseData { committed: true, data: Box::new(v) }))
    }
    pub fn error(v: Value) -> Result<Value, Error> {
        Ok(Value::Response(ResponseData { committed: false, data: Box::new(v) }))
    }
}
impl From<PrincipalData> for Value {
    fn from(p: PrincipalData) -> Self {
        Value::Principal(p)
    }
}
impl From<StandardPrincipalData> for Value {
    fn from(p: StandardPrincipalData) -> Self {
        Value::Principal(p.into())
    }
}
impl From<StacksAddress> for Value {
    fn from(p: StacksAddress) -> Self {
        Value::Principal(p.into())
    }
}
impl fmt::Display for Value {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Value::Int(i) => write!(f, "{i}"),
            Value::UInt(i) => write!(f, "u{i}"),
            Value::Bool(b) => write!(f, "{b}"),
            Value::Sequence(SequenceData::Buffer(b)) => write!(f, "0x{}", hex::encode(&b.data)),
            Value::Sequence(SequenceData::List(l)) => {
                write!(f, "(")?;
                for (i, v) in l.data.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?;
                    }
                    write!(f, "{v}")?;
                }
                write!(f, ")")
            }
            Value::Sequence(SequenceData::String(CharType::ASCII(s))) => {
                write!(f, "{:?}", String::from_utf8_lossy(&s.data))
            }
            Value::Principal(p) => write!(f, "{p}"),
            Value::Tuple(t) => {
                write!(f, "(tuple")?;
                for (k, v) in &t.data_map {
                    write!(f, " ({k} {v})")?;
                }
                write!(f, ")")
            }
            Value::Optional(o) => match &o.data {
                Some(v) => write!(f, "(some {v})"),
                None => write!(f, "none"),
            },
            Value::Response(r) => write!(f, "({} {})", if r.committed { "ok" } else { "err" }, r.data),
        }
    }
}
impl StacksMessageCodec for Value {
    fn consensus_serialize<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        let we = Error::WriteError;
        match self {
            Value::Int(i) => {
                w.write_all(&[0]).map_err(we)?;
                i.consensus_serialize(w)
            }
            Value::UInt(i) => {
                w.write_all(&[1]).map_err(we)?;
                i.consensus_serialize(w)
            }
            Value::Sequence(SequenceData::Buffer(b)) => {
                w.write_all(&[2]).map_err(we)?;
                (b.data.len() as u32).consensus_serialize(w)?;
                w.write_all(&b.data).map_err(we)
            }
            Value::Bool(b) => w.write_all(&[if *b { 3 } else { 4 }]).map_err(we),
            Value::Principal(PrincipalData::Standard(s)) => {
                w.write_all(&[5, s.0]).map_err(we)?;
                w.write_all(&s.1).map_err(we)
            }
            Value::Principal(PrincipalData::Contract(c)) => {
                w.write_all(&[6, c.issuer.0]).map_err(we)?;
                w.write_all(&c.issuer.1).map_err(we)?;
                c.name.consensus_serialize(w)
            }
            Value::Response(r) => {
                w.write_all(&[if r.committed { 7 } else { 8 }]).map_err(we)?;
                r.data.consensus_serialize(w)
            }
            Value::Optional(o) => match &o.data {
                None => w.write_all(&[9]).map_err(we),
                Some(v) => {
                    w.write_all(&[10]).map_err(we)?;
                    v.consensus_serialize(w)
                }
            },
            Value::Sequence(SequenceData::List(l)) => {
                w.write_all(&[11]).map_err(we)?;
                (l.data.len() as u32).consensus_serialize(w)?;
                for v in &l.data {
                    v.consensus_serialize(w)?;
                }
                Ok(())
            }
            Value::Tuple(t) => {
                w.write_all(&[12]).map_err(we)?;
                (t.data_map.len() as u32).consensus_serialize(w)?;
                for (k, v) in &t.data_map {
                    k.consensus_serialize(w)?;
                    v.consensus_serialize(w)?;
                }
                Ok(())
            }
            Value::Sequence(SequenceData::String(CharType::ASCII(s))) => {
                w.write_all(&[13]).map_err(we)?;
                (s.data.len() as u32).consensus_serialize(w)?;
                w.write_all(&s.data).map_err(we)
            }
        }
    }
    fn consensus_deserialize<R: io::Read>(r: &mut R) -> Result<Self, Error> {
        let len = |r: &mut R| -> Result<usize, Error> {
            let n = u32::consensus_deserialize(r)?;
            if n > 1 << 20 {
                return Err(Error::ArrayTooLong);
            }
            Ok(n as usize)
        };
        Ok(match u8::consensus_deserialize(r)? {
            0 => Value::Int(i128::consensus_deserialize(r)?),
            1 => Value::UInt(u128::consensus_deserialize(r)?),
            2 => {
                let n = len(r)?;
                Value::buff_from(take(r, n)?)?
            }
            3 => Value::Bool(true),
            4 => Value::Bool(false),
            t @ (5 | 6) => {
                let v = u8::consensus_deserialize(r)?;
                if v >= 32 {
                    return Err(Error::DeserializeError("address version".into()));
                }
                let s = StandardPrincipalData(v, take(r, 20)?.try_into().unwrap());
                if t == 5 {
                    Value::Principal(PrincipalData::Standard(s))
                } else {
                    let name = ContractName::consensus_deserialize(r)?;
                    Value::Principal(PrincipalData::Contract(QualifiedContractIdentifier::new(s, name)))
                }
            }
            t @ (7 | 8) => Value::Response(ResponseData {
                committed: t == 7,
                data: Box::new(Value::consensus_deserialize(r)?),
            }),
            9 => Value::none(),
            10 => Value::some(Value::consensus_deserialize(r)?)?,
            11 => {
                let n = len(r)?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(Value::consensus_deserialize(r)?);
                }
                Value::list_from(v)?
            }
            12 => {
                let n = len(r)?;
                let mut data_map = BTreeMap::new();
                for _ in 0..n {
                    let k = ClarityName::consensus_deserialize(r)?;
                    data_map.insert(k, Value::consensus_deserialize(r)?);
                }
                Value::Tuple(TupleData { data_map })
            }
            13 => {
                let n = len(r)?;
                Value::Sequence(SequenceData::String(CharType::ASCII(ASCIIData { data: take(r, n)? })))
            }
            x => return Err(Error::DeserializeError(format!("value type {x}"))),
        })
    }
}

const C32: &[u8] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";

/// c32check address text.
fn c32(version: u8, hash: &[u8; 20]) -> String {
    use sha2::{Digest, Sha256};
    let mut pre = vec![version];
    pre.extend(hash);
    let sum = Sha256::digest(Sha256::digest(&pre));
    let mut data = hash.to_vec();
    data.extend(&sum[..4]);
    let mut digits = vec![];
    let (mut carry, mut bits) = (0u32, 0);
    for b in data.iter().rev() {
        carry |= (*b as u32) << bits;
        bits += 8;
        while bits >= 5 {
            digits.push(C32[(carry & 31) as usize]);
            carry >>= 5;
            bits -= 5;
        }
    }
    if bits > 0 {
        digits.push(C32[(carry & 31) as usize]);
    }
    while digits.last() == Some(&b'0') {
        digits.pop();
    }
    for b in &data {
        if *b != 0 {
            break;
        }
        digits.push(b'0');
    }
    digits.reverse();
    format!("S{}{}", C32[version as usize & 31] as char, String::from_utf8(digits).unwrap())
}
