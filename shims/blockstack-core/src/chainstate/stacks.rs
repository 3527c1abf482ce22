use std::io;

use bitcoin::secp256k1::{self, ecdsa::RecoverableSignature, Message, Secp256k1};
use serde::{Deserialize, Serialize};

pub use crate::types::chainstate::{StacksAddress, StacksPrivateKey, StacksPublicKey};
use crate::{
    burnchains::Txid,
    codec::{take, Error, StacksMessageCodec},
    util::hash::{sha512_256, Hash160},
    vm::{types::PrincipalData, types::Value, ClarityName, ContractName},
};

pub const C32_ADDRESS_VERSION_MAINNET_SINGLESIG: u8 = 22;
pub const C32_ADDRESS_VERSION_MAINNET_MULTISIG: u8 = 20;
pub const C32_ADDRESS_VERSION_TESTNET_SINGLESIG: u8 = 26;
pub const C32_ADDRESS_VERSION_TESTNET_MULTISIG: u8 = 21;

macro_rules! tag {
    ($(#[$m:meta])* $n:ident { $($v:ident = $x:expr),* $(,)? }) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
        #[repr(u8)]
        pub enum $n { $($v = $x),* }
        impl $n {
            pub fn from_u8(b: u8) -> Option<Self> {
                match b { $($x => Some($n::$v),)* _ => None }
            }
        }
        impl StacksMessageCodec for $n {
            fn consensus_serialize<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
                (*self as u8).consensus_serialize(w)
            }
            fn consensus_deserialize<R: io::Read>(r: &mut R) -> Result<Self, Error> {
                let b = u8::consensus_deserialize(r)?;
                Self::from_u8(b).ok_or_else(|| Error::DeserializeError(format!(concat!("bad ", stringify!($n), " {}"), b)))
            }
        }
    };
}
tag!(TransactionVersion { Mainnet = 0x00, Testnet = 0x80 });
tag!(TransactionAnchorMode { OnChainOnly = 1, OffChainOnly = 2, Any = 3 });
tag!(TransactionPostConditionMode { Allow = 1, Deny = 2 });
tag!(SinglesigHashMode { P2PKH = 0x00, P2WPKH = 0x02 });
tag!(TransactionPublicKeyEncoding { Compressed = 0x00, Uncompressed = 0x01 });

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct MessageSignature(pub [u8; 65]);
impl MessageSignature {
    pub fn empty() -> Self {
        MessageSignature([0; 65])
    }
}
impl std::fmt::Debug for MessageSignature {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&hex::encode(self.0))
    }
}
impl Serialize for MessageSignature {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(self.0))
    }
}
impl<'de> Deserialize<'de> for MessageSignature {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let v = hex::decode(s).map_err(serde::de::Error::custom)?;
        Ok(MessageSignature(v.try_into().map_err(|_| serde::de::Error::custom("length"))?))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct SinglesigSpendingCondition {
    pub hash_mode: SinglesigHashMode,
    pub signer: Hash160,
    pub nonce: u64,
    pub tx_fee: u64,
    pub key_encoding: TransactionPublicKeyEncoding,
    pub signature: MessageSignature,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TransactionSpendingCondition {
    Singlesig(SinglesigSpendingCondition),
}
impl TransactionSpendingCondition {
    pub fn new_singlesig_p2pkh(key: StacksPublicKey) -> Option<Self> {
        let encoding = if key.compressed {
            TransactionPublicKeyEncoding::Compressed
        } else {
            TransactionPublicKeyEncoding::Uncompressed
        };
        Some(TransactionSpendingCondition::Singlesig(SinglesigSpendingCondition {
            hash_mode: SinglesigHashMode::P2PKH,
            signer: Hash160::from_data(&key.to_bytes()),
            nonce: 0,
            tx_fee: 0,
            key_encoding: encoding,
            signature: MessageSignature::empty(),
        }))
    }
    fn inner(&self) -> &SinglesigSpendingCondition {
        let TransactionSpendingCondition::Singlesig(s) = self;
        s
    }
    fn inner_mut(&mut self) -> &mut SinglesigSpendingCondition {
        let TransactionSpendingCondition::Singlesig(s) = self;
        s
    }
    pub fn nonce(&self) -> u64 {
        self.inner().nonce
    }
    pub fn set_nonce(&mut self, n: u64) {
        self.inner_mut().nonce = n
    }
    pub fn tx_fee(&self) -> u64 {
        self.inner().tx_fee
    }
    pub fn set_tx_fee(&mut self, n: u64) {
        self.inner_mut().tx_fee = n
    }
    pub fn signer(&self) -> Hash160 {
        self.inner().signer
    }
    pub fn clear(&mut self) {
        let i = self.inner_mut();
        i.nonce = 0;
        i.tx_fee = 0;
        i.signature = MessageSignature::empty();
    }
}
impl StacksMessageCodec for TransactionSpendingCondition {
    fn consensus_serialize<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        let s = self.inner();
        s.hash_mode.consensus_serialize(w)?;
        w.write_all(&s.signer.0).map_err(Error::WriteError)?;
        s.nonce.consensus_serialize(w)?;
        s.tx_fee.consensus_serialize(w)?;
        s.key_encoding.consensus_serialize(w)?;
        w.write_all(&s.signature.0).map_err(Error::WriteError)
    }
    fn consensus_deserialize<R: io::Read>(r: &mut R) -> Result<Self, Error> {
        let hash_mode = SinglesigHashMode::consensus_deserialize(r)?;
        let signer = Hash160(take(r, 20)?.try_into().unwrap());
        let nonce = u64::consensus_deserialize(r)?;
        let tx_fee = u64::consensus_deserialize(r)?;
        let key_encoding = TransactionPublicKeyEncoding::consensus_deserialize(r)?;
        let signature = MessageSignature(take(r, 65)?.try_into().unwrap());
        if hash_mode == SinglesigHashMode::P2WPKH && key_encoding == TransactionPublicKeyEncoding::Uncompressed {
            return Err(Error::DeserializeError("p2wpkh with uncompressed key".into()));
        }
        Ok(TransactionSpendingCondition::Singlesig(SinglesigSpendingCondition {
            hash_mode,
            signer,
            nonce,
            tx_fee,
            key_encoding,
            signature,
        }))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TransactionAuth {
    Standard(TransactionSpendingCondition),
}
impl TransactionAuth {
    pub fn origin(&self) -> &TransactionSpendingCondition {
        let TransactionAuth::Standard(s) = self;
        s
    }
    pub fn origin_mut(&mut self) -> &mut TransactionSpendingCondition {
        let TransactionAuth::Standard(s) = self;
        s
    }
    pub fn is_standard(&self) -> bool {
        true
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TransactionContractCall {
    pub address: StacksAddress,
    pub contract_name: ContractName,
    pub function_name: ClarityName,
    pub function_args: Vec<Value>,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TokenTransferMemo(pub Vec<u8>);
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct CoinbasePayload(pub [u8; 32]);
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TransactionSmartContract {
    pub name: ContractName,
    pub code_body: String,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TransactionPayload {
    TokenTransfer(PrincipalData, u64, TokenTransferMemo),
    ContractCall(TransactionContractCall),
    SmartContract(TransactionSmartContract),
    Coinbase(CoinbasePayload),
}
impl StacksMessageCodec for TransactionPayload {
    fn consensus_serialize<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        match self {
            TransactionPayload::TokenTransfer(p, n, m) => {
                0u8.consensus_serialize(w)?;
                p.consensus_serialize(w)?;
                n.consensus_serialize(w)?;
                w.write_all(&m.0).map_err(Error::WriteError)
            }
            TransactionPayload::SmartContract(c) => {
                1u8.consensus_serialize(w)?;
                c.name.consensus_serialize(w)?;
                (c.code_body.len() as u32).consensus_serialize(w)?;
                w.write_all(c.code_body.as_bytes()).map_err(Error::WriteError)
            }
            TransactionPayload::ContractCall(c) => {
                2u8.consensus_serialize(w)?;
                c.address.consensus_serialize(w)?;
                c.contract_name.consensus_serialize(w)?;
                c.function_name.consensus_serialize(w)?;
                (c.function_args.len() as u32).consensus_serialize(w)?;
                for a in &c.function_args {
                    a.consensus_serialize(w)?;
                }
                Ok(())
            }
            TransactionPayload::Coinbase(c) => {
                4u8.consensus_serialize(w)?;
                w.write_all(&c.0).map_err(Error::WriteError)
            }
        }
    }
    fn consensus_deserialize<R: io::Read>(r: &mut R) -> Result<Self, Error> {
        Ok(match u8::consensus_deserialize(r)? {
            0 => TransactionPayload::TokenTransfer(
                PrincipalData::consensus_deserialize(r)?,
                u64::consensus_deserialize(r)?,
                TokenTransferMemo(take(r, 34)?),
            ),
            1 => {
                let name = ContractName::consensus_deserialize(r)?;
                let n = u32::consensus_deserialize(r)? as usize;
                if n > 1 << 21 {
                    return Err(Error::ArrayTooLong);
                }
                let code_body =
                    String::from_utf8(take(r, n)?).map_err(|_| Error::DeserializeError("utf8".into()))?;
                TransactionPayload::SmartContract(TransactionSmartContract { name, code_body })
            }
            2 => {
                let address = StacksAddress::consensus_deserialize(r)?;
                let contract_name = ContractName::consensus_deserialize(r)?;
                let function_name = ClarityName::consensus_deserialize(r)?;
                let n = u32::consensus_deserialize(r)?;
                if n > 1 << 16 {
                    return Err(Error::ArrayTooLong);
                }
                let mut function_args = vec![];
                for _ in 0..n {
                    function_args.push(Value::consensus_deserialize(r)?);
                }
                TransactionPayload::ContractCall(TransactionContractCall {
                    address,
                    contract_name,
                    function_name,
                    function_args,
                })
            }
            4 => TransactionPayload::Coinbase(CoinbasePayload(take(r, 32)?.try_into().unwrap())),
            x => return Err(Error::DeserializeError(format!("unknown payload {x}"))),
        })
    }
}

/// Only what can be absent: this bridge sets no post conditions.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TransactionPostCondition {}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct StacksTransaction {
    pub version: TransactionVersion,
    pub chain_id: u32,
    pub auth: TransactionAuth,
    pub anchor_mode: TransactionAnchorMode,
    pub post_condition_mode: TransactionPostConditionMode,
    pub post_conditions: Vec<TransactionPostCondition>,
    pub payload: TransactionPayload,
}
impl StacksTransaction {
    pub fn new(version: TransactionVersion, auth: TransactionAuth, payload: TransactionPayload) -> Self {
        let anchor_mode = match payload {
            TransactionPayload::Coinbase(_) => TransactionAnchorMode::OnChainOnly,
            _ => TransactionAnchorMode::Any,
        };
        StacksTransaction {
            version,
            chain_id: 0,
            auth,
            anchor_mode,
            post_condition_mode: TransactionPostConditionMode::Deny,
            post_conditions: vec![],
            payload,
        }
    }
    pub fn set_origin_nonce(&mut self, n: u64) {
        self.auth.origin_mut().set_nonce(n)
    }
    pub fn get_origin_nonce(&self) -> u64 {
        self.auth.origin().nonce()
    }
    pub fn set_tx_fee(&mut self, n: u64) {
        self.auth.origin_mut().set_tx_fee(n)
    }
    pub fn get_tx_fee(&self) -> u64 {
        self.auth.origin().tx_fee()
    }
    pub fn tx_len(&self) -> u64 {
        self.serialize_to_vec().len() as u64
    }
    pub fn txid(&self) -> Txid {
        Txid(sha512_256(&self.serialize_to_vec()))
    }
    pub fn set_anchor_mode(&mut self, m: TransactionAnchorMode) {
        self.anchor_mode = m
    }
    pub fn set_post_condition_mode(&mut self, m: TransactionPostConditionMode) {
        self.post_condition_mode = m
    }
    pub fn is_mainnet(&self) -> bool {
        self.version == TransactionVersion::Mainnet
    }
    pub fn origin_address(&self) -> StacksAddress {
        let version = match self.version {
            TransactionVersion::Mainnet => C32_ADDRESS_VERSION_MAINNET_SINGLESIG,
            TransactionVersion::Testnet => C32_ADDRESS_VERSION_TESTNET_SINGLESIG,
        };
        StacksAddress { version, bytes: self.auth.origin().signer() }
    }
    fn initial_sighash(&self) -> [u8; 32] {
        let mut t = self.clone();
        t.auth.origin_mut().clear();
        t.txid().0
    }
    fn presign(&self) -> [u8; 32] {
        let c = self.auth.origin();
        let mut b = self.initial_sighash().to_vec();
        b.push(4);
        b.extend(c.tx_fee().to_be_bytes());
        b.extend(c.nonce().to_be_bytes());
        sha512_256(&b)
    }
    /// Checks that the origin's signature is by the key it names.
    pub fn verify(&self) -> Result<(), String> {
        let c = self.auth.origin().inner();
        let id = secp256k1::ecdsa::RecoveryId::from_i32(c.signature.0[0] as i32).map_err(|e| e.to_string())?;
        let sig = RecoverableSignature::from_compact(&c.signature.0[1..], id).map_err(|e| e.to_string())?;
        let std_sig = sig.to_standard();
        let mut norm = std_sig;
        norm.normalize_s();
        if norm != std_sig {
            return Err("high s".into());
        }
        let msg = Message::from_slice(&self.presign()).unwrap();
        let key = Secp256k1::verification_only().recover_ecdsa(&msg, &sig).map_err(|e| e.to_string())?;
        let bytes = match c.key_encoding {
            TransactionPublicKeyEncoding::Compressed => key.serialize().to_vec(),
            TransactionPublicKeyEncoding::Uncompressed => key.serialize_uncompressed().to_vec(),
        };
        let got = match c.hash_mode {
            SinglesigHashMode::P2PKH => Hash160::from_data(&bytes),
            SinglesigHashMode::P2WPKH => {
                let mut s = vec![0, 20];
                s.extend(Hash160::from_data(&bytes).0);
                Hash160::from_data(&s)
            }
        };
        if got != c.signer {
            return Err(format!("signer hash {got} does not equal {}", c.signer));
        }
        Ok(())
    }
}
impl StacksMessageCodec for StacksTransaction {
    fn consensus_serialize<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        self.version.consensus_serialize(w)?;
        self.chain_id.consensus_serialize(w)?;
        4u8.consensus_serialize(w)?;
        self.auth.origin().consensus_serialize(w)?;
        self.anchor_mode.consensus_serialize(w)?;
        self.post_condition_mode.consensus_serialize(w)?;
        (self.post_conditions.len() as u32).consensus_serialize(w)?;
        self.payload.consensus_serialize(w)
    }
    fn consensus_deserialize<R: io::Read>(r: &mut R) -> Result<Self, Error> {
        let b = u8::consensus_deserialize(r)?;
        let version = if b & 0x80 == 0 { TransactionVersion::Mainnet } else { TransactionVersion::Testnet };
        let chain_id = u32::consensus_deserialize(r)?;
        let kind = u8::consensus_deserialize(r)?;
        if kind != 4 {
            return Err(Error::DeserializeError(format!("auth type {kind}")));
        }
        let auth = TransactionAuth::Standard(TransactionSpendingCondition::consensus_deserialize(r)?);
        let anchor_mode = TransactionAnchorMode::consensus_deserialize(r)?;
        let post_condition_mode = TransactionPostConditionMode::consensus_deserialize(r)?;
        if u32::consensus_deserialize(r)? != 0 {
            return Err(Error::DeserializeError("post conditions are not supported by this stand-in".into()));
        }
        let payload = TransactionPayload::consensus_deserialize(r)?;
        Ok(StacksTransaction {
            version,
            chain_id,
            auth,
            anchor_mode,
            post_condition_mode,
            post_conditions: vec![],
            payload,
        })
    }
}

pub struct StacksTransactionSigner {
    tx: StacksTransaction,
    done: bool,
}
impl StacksTransactionSigner {
    pub fn new(tx: &StacksTransaction) -> Self {
        StacksTransactionSigner { tx: tx.clone(), done: false }
    }
    pub fn sign_origin(&mut self, key: &StacksPrivateKey) -> Result<(), Error> {
        if self.done {
            return Err(Error::SigningError("origin already signed".into()));
        }
        let msg = Message::from_slice(&self.tx.presign()).unwrap();
        let sig = Secp256k1::signing_only().sign_ecdsa_recoverable(&msg, &key.key);
        let (id, rs) = sig.serialize_compact();
        let mut b = [0; 65];
        b[0] = id.to_i32() as u8;
        b[1..].copy_from_slice(&rs);
        self.tx.auth.origin_mut().inner_mut().signature = MessageSignature(b);
        self.done = true;
        Ok(())
    }
    pub fn get_tx(self) -> Option<StacksTransaction> {
        self.done.then_some(self.tx)
    }
    pub fn get_tx_incomplete(self) -> StacksTransaction {
        self.tx
    }
}
