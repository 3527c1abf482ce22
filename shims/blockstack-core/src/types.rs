pub mod chainstate {
    use std::{fmt, io};

    use bitcoin::secp256k1;
    use serde::{Deserialize, Serialize};

    pub use crate::util::hash::Hash160;
    use crate::codec::{Error, StacksMessageCodec};

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
    pub struct StacksAddress {
        pub version: u8,
        pub bytes: Hash160,
    }
    impl StacksAddress {
        pub fn new(version: u8, bytes: Hash160) -> Self {
            StacksAddress { version, bytes }
        }
    }
    impl StacksMessageCodec for StacksAddress {
        fn consensus_serialize<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
            self.version.consensus_serialize(w)?;
            w.write_all(&self.bytes.0).map_err(Error::WriteError)
        }
        fn consensus_deserialize<R: io::Read>(r: &mut R) -> Result<Self, Error> {
            let version = u8::consensus_deserialize(r)?;
            let b = crate::codec::take(r, 20)?;
            Ok(StacksAddress { version, bytes: Hash160(b.try_into().unwrap()) })
        }
    }

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct StacksPublicKey {
        pub(crate) key: secp256k1::PublicKey,
        pub(crate) compressed: bool,
    }
    impl StacksPublicKey {
        pub fn from_slice(b: &[u8]) -> Result<Self, &'static str> {
            let key = secp256k1::PublicKey::from_slice(b).map_err(|_| "Invalid public key: failed to load")?;
            Ok(StacksPublicKey { key, compressed: b.len() == 33 })
        }
        pub fn from_hex(s: &str) -> Result<Self, &'static str> {
            Self::from_slice(&hex::decode(s).map_err(|_| "Failed to decode hex public key")?)
        }
        pub fn from_private(k: &StacksPrivateKey) -> Self {
            let key = k.key.public_key(&secp256k1::Secp256k1::new());
            StacksPublicKey { key, compressed: k.compressed }
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            if self.compressed {
                self.key.serialize().to_vec()
            } else {
                self.key.serialize_uncompressed().to_vec()
            }
        }
        pub fn to_hex(&self) -> String {
            hex::encode(self.to_bytes())
        }
        pub fn compressed(&self) -> bool {
            self.compressed
        }
        pub fn set_compressed(&mut self, c: bool) {
            self.compressed = c
        }
    }

    #[derive(Clone, PartialEq, Eq)]
    pub struct StacksPrivateKey {
        pub(crate) key: secp256k1::SecretKey,
        pub(crate) compressed: bool,
    }
    impl fmt::Debug for StacksPrivateKey {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("StacksPrivateKey(...)")
        }
    }
    impl StacksPrivateKey {
        pub fn from_slice(b: &[u8]) -> Result<Self, &'static str> {
            if b.len() < 32 || b.len() > 33 {
                return Err("Invalid private key: shorter than 32 bytes or longer than 33");
            }
            let compressed = if b.len() == 33 {
                if b[32] != 1 {
                    return Err("Invalid private key: invalid compressed byte marker");
                }
                true
            } else {
                false
            };
            let key = secp256k1::SecretKey::from_slice(&b[..32]).map_err(|_| "Invalid private key: failed to load")?;
            Ok(StacksPrivateKey { key, compressed })
        }
        pub fn from_hex(s: &str) -> Result<Self, &'static str> {
            Self::from_slice(&hex::decode(s).map_err(|_| "Failed to decode hex private key")?)
        }
        pub fn set_compress_public(&mut self, c: bool) {
            self.compressed = c
        }
        pub fn compress_public(&self) -> bool {
            self.compressed
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            let mut v = self.key.secret_bytes().to_vec();
            if self.compressed {
                v.push(1)
            }
            v
        }
    }
}
