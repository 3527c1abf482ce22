use std::{fmt, io};

use serde::{Deserialize, Deserializer, Serialize, Serializer};

use crate::codec::{Error, StacksMessageCodec};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Txid(pub [u8; 32]);

impl Txid {
    pub fn from_hex(s: &str) -> Result<Txid, hex::FromHexError> {
        let mut b = [0; 32];
        hex::decode_to_slice(s, &mut b)?;
        Ok(Txid(b))
    }
    pub fn from_bytes(b: &[u8]) -> Option<Txid> {
        Some(Txid(b.try_into().ok()?))
    }
    pub fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn to_bytes(self) -> [u8; 32] {
        self.0
    }
    pub fn to_hex(&self) -> String {
        hex::encode(self.0)
    }
}
impl fmt::Display for Txid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.to_hex())
    }
}
impl fmt::Debug for Txid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.to_hex())
    }
}
impl AsRef<[u8]> for Txid {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<[u8; 32]> for Txid {
    fn from(b: [u8; 32]) -> Self {
        Txid(b)
    }
}
impl Serialize for Txid {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_hex())
    }
}
impl<'de> Deserialize<'de> for Txid {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Txid::from_hex(&s).map_err(serde::de::Error::custom)
    }
}
impl StacksMessageCodec for Txid {
    fn consensus_serialize<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        w.write_all(&self.0).map_err(Error::WriteError)
    }
    fn consensus_deserialize<R: io::Read>(r: &mut R) -> Result<Self, Error> {
        let mut b = [0; 32];
        r.read_exact(&mut b).map_err(Error::ReadError)?;
        Ok(Txid(b))
    }
}
