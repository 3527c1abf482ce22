//! Independent signing for the parties of the simulated world.
use bitcoin::{
    hashes::Hash,
    schnorr::TapTweak,
    secp256k1::{KeyPair, Message, SecretKey},
    util::{
        sighash::{Prevouts, SchnorrSighashType, SighashCache},
        taproot::{LeafVersion, TapLeafHash},
    },
    EcdsaSighashType, OutPoint, PackedLockTime, PublicKey, Script, Sequence, Transaction, TxIn,
    TxOut, Witness,
};

use crate::ops::SECP;

pub fn secret(seed: &[u8]) -> SecretKey {
    let mut h = bitcoin::hashes::sha256::Hash::hash(seed).into_inner();
    loop {
        if let Ok(k) = SecretKey::from_slice(&h) {
            return k;
        }
        h = bitcoin::hashes::sha256::Hash::hash(&h).into_inner();
    }
}

pub fn p2wpkh_script(sk: &SecretKey) -> Script {
    let pk = SECP.with(|s| PublicKey::new(sk.public_key(s)));
    Script::new_v0_p2wpkh(&pk.wpubkey_hash().unwrap())
}

/// BIP86 single-key output.
pub fn p2tr_script(sk: &SecretKey) -> Script {
    SECP.with(|s| {
        let (x, _) = sk.x_only_public_key(s);
        Script::new_v1_p2tr(s, x, None)
    })
}

pub fn unsigned(inputs: &[OutPoint], outputs: Vec<TxOut>) -> Transaction {
    Transaction {
        version: 2,
        lock_time: PackedLockTime::ZERO,
        input: inputs
            .iter()
            .map(|o| TxIn {
                previous_output: *o,
                script_sig: Script::new(),
                sequence: Sequence::ENABLE_RBF_NO_LOCKTIME,
                witness: Witness::new(),
            })
            .collect(),
        output: outputs,
    }
}

pub fn sign_p2wpkh(tx: &mut Transaction, i: usize, value: u64, sk: &SecretKey) {
    SECP.with(|s| {
        let pk = PublicKey::new(sk.public_key(s));
        let code = Script::new_p2pkh(&pk.pubkey_hash());
        let h = SighashCache::new(&*tx)
            .segwit_signature_hash(i, &code, value, EcdsaSighashType::All)
            .unwrap();
        let sig = s.sign_ecdsa(&Message::from_slice(&h.into_inner()).unwrap(), sk);
        let mut der = sig.serialize_der().to_vec();
        der.push(1);
        let mut w = Witness::new();
        w.push(der);
        w.push(pk.to_bytes());
        tx.input[i].witness = w;
    })
}

pub fn sign_p2tr(tx: &mut Transaction, i: usize, prevouts: &[TxOut], sk: &SecretKey) {
    SECP.with(|s| {
        let h = SighashCache::new(&*tx)
            .taproot_key_spend_signature_hash(i, &Prevouts::All(prevouts), SchnorrSighashType::Default)
            .unwrap();
        let pair = KeyPair::from_secret_key(s, sk).tap_tweak(s, None).to_inner();
        let sig = s.sign_schnorr_no_aux_rand(&Message::from_slice(&h.into_inner()).unwrap(), &pair);
        let mut w = Witness::new();
        w.push(&sig.as_ref()[..]);
        tx.input[i].witness = w;
    })
}

/// A signature over a tapscript spend of input `i`.
pub fn tapscript_sig(tx: &Transaction, i: usize, prevouts: &[TxOut], script: &Script, sk: &SecretKey) -> Vec<u8> {
    SECP.with(|s| {
        let leaf = TapLeafHash::from_script(script, LeafVersion::TapScript);
        let h = SighashCache::new(tx)
            .taproot_script_spend_signature_hash(i, &Prevouts::All(prevouts), leaf, SchnorrSighashType::Default)
            .unwrap();
        let pair = KeyPair::from_secret_key(s, sk);
        s.sign_schnorr_no_aux_rand(&Message::from_slice(&h.into_inner()).unwrap(), &pair).as_ref().to_vec()
    })
}
