pub mod hash {
    use ripemd::{Digest, Ripemd160};
    use serde::{Deserialize, Serialize};
    use sha2::{Sha256, Sha512_256};

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize, Default)]
    pub struct Hash160(pub [u8; 20]);
    impl Hash160 {
        pub fn from_data(data: &[u8]) -> Self {
            Hash160(Ripemd160::digest(Sha256::digest(data)).into())
        }
        pub fn from_bytes(b: &[u8]) -> Option<Self> {
            Some(Hash160(b.try_into().ok()?))
        }
        pub fn as_bytes(&self) -> &[u8; 20] {
            &self.0
        }
        pub fn to_bytes(self) -> [u8; 20] {
            self.0
        }
        pub fn to_hex(&self) -> String {
            hex::encode(self.0)
        }
    }
    impl std::fmt::Debug for Hash160 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.to_hex())
        }
    }
    impl std::fmt::Display for Hash160 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.to_hex())
        }
    }

    pub fn sha512_256(data: &[u8]) -> [u8; 32] {
        Sha512_256::digest(data).into()
    }
    pub fn to_hex(b: &[u8]) -> String {
        hex::encode(b)
    }
    pub fn hex_bytes(s: &str) -> Result<Vec<u8>, hex::FromHexError> {
        hex::decode(s)
    }
}
