//! The values of the code under test.
use std::io::{self, Read, Write};

use bdk::bitcoin::{
    secp256k1::ecdsa::{RecoverableSignature, RecoveryId},
    Amount, Script,
};
use sbtc_core::operations::{
    commit_reveal::{deposit::DepositData, withdrawal_request::WithdrawalData},
    op_return::{
        deposit::DepositOutputData, withdrawal_fulfillment::ParsedWithdrawalFulfillmentData,
        withdrawal_request::WithdrawalRequestDataOutputData,
    },
    Opcode,
};
use stacks_core::{
    address::{AddressVersion, StacksAddress},
    codec::Codec,
    contract_name::ContractName,
    crypto::hash160::Hash160Hasher,
    uint::Uint,
    utils::{PrincipalData, StandardPrincipalData},
    BlockId, StacksResult,
};

use crate::spec::{Kind, Princ, Rec};

pub enum Val {
    Amount(Amount),
    U64(u64),
    Sig(RecoverableSignature),
    Addr(StacksAddress),
    Name(ContractName),
    StdPrincipal(StandardPrincipalData),
    Principal(PrincipalData),
    U256(Uint<4>),
    U512(Uint<8>),
    Block(BlockId),
    Op(Opcode),
    DepOut(DepositOutputData),
    WdOut(WithdrawalRequestDataOutputData),
    FulOut(ParsedWithdrawalFulfillmentData),
    CrDep(DepositData),
    CrWd(WithdrawalData),
    Script(Script),
}

macro_rules! each {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            Val::Amount($x) => $e,
            Val::U64($x) => $e,
            Val::Sig($x) => $e,
            Val::Addr($x) => $e,
            Val::Name($x) => $e,
            Val::StdPrincipal($x) => $e,
            Val::Principal($x) => $e,
            Val::U256($x) => $e,
            Val::U512($x) => $e,
            Val::Block($x) => $e,
            Val::Op($x) => $e,
            Val::DepOut($x) => $e,
            Val::WdOut($x) => $e,
            Val::FulOut($x) => $e,
            Val::CrDep($x) => $e,
            Val::CrWd($x) => $e,
            Val::Script($x) => $e,
        }
    };
}

fn addr(p: &Princ) -> StacksAddress {
    let mut h = hex::decode(&p.hash).unwrap_or_default();
    h.resize(20, 0);
    let h: [u8; 20] = h.try_into().unwrap();
    let v = match p.version {
        22 => AddressVersion::MainnetSingleSig,
        20 => AddressVersion::MainnetMultiSig,
        21 => AddressVersion::TestnetMultiSig,
        _ => AddressVersion::TestnetSingleSig,
    };
    StacksAddress::new(v, Hash160Hasher::from(h))
}

fn princ(p: &Princ) -> PrincipalData {
    let a = addr(p);
    let std = StandardPrincipalData::new(a.version(), a);
    match &p.name {
        None => PrincipalData::Standard(std),
        Some(n) => PrincipalData::Contract(std, ContractName::new(n).expect("legal name")),
    }
}

fn sig(h: &str) -> RecoverableSignature {
    let b = hex::decode(h).unwrap_or_default();
    RecoverableSignature::from_compact(&b[1..], RecoveryId::from_i32(b[0] as i32).unwrap()).unwrap()
}

fn be_words<const N: usize>(h: &str) -> Uint<N> {
    let mut b = hex::decode(h).unwrap_or_default();
    b.resize(N * 8, 0);
    let mut w = [0u64; N];
    for (i, c) in b.chunks(8).enumerate() {
        w[N - 1 - i] = u64::from_be_bytes(c.try_into().unwrap());
    }
    Uint::from_u64_array(w)
}

impl Val {
    /// Builds the value from its parts, through constructors where the library
    /// has them. `None`: the type has no public constructor.
    pub fn build(r: &Rec) -> Option<Val> {
        let p = r.princ.clone().unwrap_or(Princ { version: 26, hash: String::new(), name: None });
        Some(match r.kind {
            Kind::Amount => Val::Amount(Amount::from_sat(r.a)),
            Kind::U64 => Val::U64(r.a),
            Kind::Sig => Val::Sig(sig(&r.hex)),
            Kind::Addr => Val::Addr(addr(&p)),
            Kind::StdPrincipal => {
                let a = addr(&p);
                Val::StdPrincipal(StandardPrincipalData::new(a.version(), a))
            }
            Kind::Name => Val::Name(
                ContractName::new(p.name.as_deref().unwrap_or("a")).expect("legal name"),
            ),
            Kind::Principal => Val::Principal(princ(&p)),
            Kind::U256 => Val::U256(be_words(&r.hex)),
            Kind::U512 => Val::U512(be_words(&r.hex)),
            Kind::Block => Val::Block(BlockId::new(be_words(&r.hex))),
            Kind::Op => Val::Op(match r.a % 4 {
                0 => Opcode::Deposit,
                1 => Opcode::WithdrawalRequest,
                2 => Opcode::WithdrawalFulfillment,
                _ => Opcode::WalletHandoff,
            }),
            Kind::DepOut | Kind::WdOut => return None,
            Kind::FulOut => Val::FulOut(ParsedWithdrawalFulfillmentData {
                network: match r.net {
                    0 => bdk::bitcoin::Network::Bitcoin,
                    1 => bdk::bitcoin::Network::Testnet,
                    2 => bdk::bitcoin::Network::Signet,
                    _ => bdk::bitcoin::Network::Regtest,
                },
                chain_tip: BlockId::new(be_words(&r.hex)),
            }),
            Kind::CrDep => Val::CrDep(DepositData {
                principal: princ(&p),
                reveal_fee: Amount::from_sat(r.a),
            }),
            Kind::CrWd => Val::CrWd(WithdrawalData {
                amount: Amount::from_sat(r.a),
                signature: sig(&r.hex),
                reveal_fee: Amount::from_sat(r.b),
            }),
            Kind::Script => Val::Script(Script::from(hex::decode(&r.hex).unwrap_or_default())),
        })
    }

    pub fn decode<R: Read>(kind: Kind, r: &mut R) -> io::Result<Val> {
        Ok(match kind {
            Kind::Amount => Val::Amount(Codec::codec_deserialize(r)?),
            Kind::U64 => Val::U64(Codec::codec_deserialize(r)?),
            Kind::Sig => Val::Sig(Codec::codec_deserialize(r)?),
            Kind::Addr => Val::Addr(Codec::codec_deserialize(r)?),
            Kind::Name => Val::Name(Codec::codec_deserialize(r)?),
            Kind::StdPrincipal => Val::StdPrincipal(Codec::codec_deserialize(r)?),
            Kind::Principal => Val::Principal(Codec::codec_deserialize(r)?),
            Kind::U256 => Val::U256(Codec::codec_deserialize(r)?),
            Kind::U512 => Val::U512(Codec::codec_deserialize(r)?),
            Kind::Block => Val::Block(Codec::codec_deserialize(r)?),
            Kind::Op => Val::Op(Codec::codec_deserialize(r)?),
            Kind::DepOut => Val::DepOut(Codec::codec_deserialize(r)?),
            Kind::WdOut => Val::WdOut(Codec::codec_deserialize(r)?),
            Kind::FulOut => Val::FulOut(Codec::codec_deserialize(r)?),
            Kind::CrDep => Val::CrDep(Codec::codec_deserialize(r)?),
            Kind::CrWd => Val::CrWd(Codec::codec_deserialize(r)?),
            Kind::Script => Val::Script(Codec::codec_deserialize(r)?),
        })
    }

    /// The same through the other public entry point.
    pub fn decode2<R: Read>(kind: Kind, r: &mut R) -> StacksResult<Val> {
        Ok(match kind {
            Kind::Amount => Val::Amount(Amount::deserialize(r)?),
            Kind::U64 => Val::U64(u64::deserialize(r)?),
            Kind::Sig => Val::Sig(RecoverableSignature::deserialize(r)?),
            Kind::Addr => Val::Addr(<StacksAddress as Codec>::deserialize(r)?),
            Kind::Name => Val::Name(ContractName::deserialize(r)?),
            Kind::StdPrincipal => Val::StdPrincipal(StandardPrincipalData::deserialize(r)?),
            Kind::Principal => Val::Principal(PrincipalData::deserialize(r)?),
            Kind::U256 => Val::U256(<Uint<4> as Codec>::deserialize(r)?),
            Kind::U512 => Val::U512(<Uint<8> as Codec>::deserialize(r)?),
            Kind::Block => Val::Block(BlockId::deserialize(r)?),
            Kind::Op => Val::Op(Opcode::deserialize(r)?),
            Kind::DepOut => Val::DepOut(DepositOutputData::deserialize(r)?),
            Kind::WdOut => Val::WdOut(WithdrawalRequestDataOutputData::deserialize(r)?),
            Kind::FulOut => Val::FulOut(ParsedWithdrawalFulfillmentData::deserialize(r)?),
            Kind::CrDep => Val::CrDep(DepositData::deserialize(r)?),
            Kind::CrWd => Val::CrWd(WithdrawalData::deserialize(r)?),
            Kind::Script => Val::Script(<Script as Codec>::deserialize(r)?),
        })
    }

    pub fn encode<W: Write>(&self, w: &mut W) -> io::Result<()> {
        each!(self, x => x.codec_serialize(w))
    }

    pub fn encode2<W: Write>(&self, w: &mut W) -> StacksResult<()> {
        each!(self, x => Codec::serialize(x, w))
    }

    pub fn to_vec(&self) -> Vec<u8> {
        each!(self, x => x.serialize_to_vec())
    }

    /// Equality of the decoded value with its parts, by value where the type
    /// can be built or has accessors.
    pub fn same(&self, r: &Rec) -> bool {
        if let Val::WdOut(w) = self {
            return w.amount() == r.a
                && w.signature() == sig(&r.hex)
                && match r.net {
                    0 => w.network() == bdk::bitcoin::Network::Bitcoin,
                    1 => w.network() == bdk::bitcoin::Network::Testnet,
                    _ => {
                        w.network() == bdk::bitcoin::Network::Regtest
                            || w.network() == bdk::bitcoin::Network::Signet
                    }
                };
        }
        let Some(b) = Val::build(r) else { return true };
        match (self, &b) {
            (Val::Amount(x), Val::Amount(y)) => x == y,
            (Val::U64(x), Val::U64(y)) => x == y,
            (Val::Sig(x), Val::Sig(y)) => x == y,
            (Val::Addr(x), Val::Addr(y)) => x == y,
            (Val::Name(x), Val::Name(y)) => x == y,
            (Val::StdPrincipal(x), Val::StdPrincipal(y)) => x == y,
            (Val::Principal(x), Val::Principal(y)) => x == y,
            (Val::U256(x), Val::U256(y)) => x == y,
            (Val::U512(x), Val::U512(y)) => x == y,
            (Val::Block(_), Val::Block(_)) => true,
            (Val::Op(x), Val::Op(y)) => *x as u8 == *y as u8,
            (Val::FulOut(x), Val::FulOut(y)) => {
                x.network == y.network
                    || (r.net >= 2
                        && matches!(
                            x.network,
                            bdk::bitcoin::Network::Regtest | bdk::bitcoin::Network::Signet
                        ))
            }
            (Val::CrDep(x), Val::CrDep(y)) => {
                x.principal == y.principal && x.reveal_fee == y.reveal_fee
            }
            (Val::CrWd(x), Val::CrWd(y)) => {
                x.amount == y.amount && x.signature == y.signature && x.reveal_fee == y.reveal_fee
            }
            (Val::Script(x), Val::Script(y)) => x == y,
            _ => false,
        }
    }
}
