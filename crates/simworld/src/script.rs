//! Independent validation of transaction inputs.
use bitcoin::{
    hashes::Hash,
    secp256k1::{self, ecdsa, schnorr, Message, Secp256k1, VerifyOnly, XOnlyPublicKey},
    util::{
        sighash::{Prevouts, SchnorrSighashType, SighashCache},
        taproot::{ControlBlock, LeafVersion, TapLeafHash},
    },
    EcdsaSighashType, PublicKey, Script, Transaction, TxOut,
};

thread_local! {
    static SECP: Secp256k1<VerifyOnly> = Secp256k1::verification_only();
}

fn check_ecdsa(sig: &[u8], key: &[u8], hash: impl Fn(EcdsaSighashType) -> Option<[u8; 32]>) -> Result<(), String> {
    let (ty, der) = sig.split_last().ok_or("empty signature")?;
    let ty = EcdsaSighashType::from_standard(*ty as u32).map_err(|e| e.to_string())?;
    let sig = ecdsa::Signature::from_der(der).map_err(|e| e.to_string())?;
    let mut norm = sig;
    norm.normalize_s();
    if norm != sig {
        return Err("high S".into());
    }
    let key = secp256k1::PublicKey::from_slice(key).map_err(|e| e.to_string())?;
    let h = hash(ty).ok_or("sighash")?;
    SECP.with(|s| {
        s.verify_ecdsa(&Message::from_slice(&h).unwrap(), &sig, &key)
            .map_err(|_| "bad ECDSA signature".to_string())
    })
}

fn check_schnorr(sig: &[u8], key: &XOnlyPublicKey, hash: impl Fn(SchnorrSighashType) -> Option<[u8; 32]>) -> Result<(), String> {
    let ty = match sig.len() {
        64 => SchnorrSighashType::Default,
        65 if sig[64] != 0 => SchnorrSighashType::from_u8(sig[64]).map_err(|e| e.to_string())?,
        _ => return Err("schnorr signature length".into()),
    };
    let s = schnorr::Signature::from_slice(&sig[..64]).map_err(|e| e.to_string())?;
    let h = hash(ty).ok_or("sighash")?;
    SECP.with(|secp| {
        secp.verify_schnorr(&s, &Message::from_slice(&h).unwrap(), key)
            .map_err(|_| "bad schnorr signature".to_string())
    })
}

/// Runs a tapscript made of pushes, DROP and CHECKSIG.
fn run_tapscript(
    script: &Script,
    mut stack: Vec<Vec<u8>>,
    sig_ok: impl Fn(&[u8], &[u8]) -> Result<(), String>,
) -> Result<(), String> {
    use bitcoin::blockdata::{opcodes::all, script::Instruction};
    for ins in script.instructions() {
        match ins.map_err(|e| e.to_string())? {
            Instruction::PushBytes(b) => {
                if b.len() > 520 {
                    return Err("push size".into());
                }
                stack.push(b.to_vec())
            }
            Instruction::Op(all::OP_DROP) => {
                stack.pop().ok_or("stack underflow")?;
            }
            Instruction::Op(all::OP_CHECKSIG) => {
                let key = stack.pop().ok_or("stack underflow")?;
                let sig = stack.pop().ok_or("stack underflow")?;
                if sig.is_empty() {
                    stack.push(vec![]);
                } else {
                    sig_ok(&sig, &key)?;
                    stack.push(vec![1]);
                }
            }
            other => return Err(format!("unsupported instruction {other:?}")),
        }
    }
    if stack.len() != 1 || stack[0].iter().all(|b| *b == 0) {
        return Err("script result is false or stack not clean".into());
    }
    Ok(())
}

/// Whether input `i` may spend `prevouts[i]`.
pub fn verify_input(tx: &Transaction, i: usize, prevouts: &[TxOut]) -> Result<(), String> {
    let prev = &prevouts[i];
    let spk = &prev.script_pubkey;
    let input = &tx.input[i];
    let w: Vec<&[u8]> = input.witness.iter().collect();
    if spk.is_v0_p2wpkh() {
        if !input.script_sig.is_empty() || w.len() != 2 {
            return Err("p2wpkh witness shape".into());
        }
        let key = PublicKey::from_slice(w[1]).map_err(|e| e.to_string())?;
        if !key.compressed || Script::new_v0_p2wpkh(&key.wpubkey_hash().unwrap()) != *spk {
            return Err("p2wpkh key does not match".into());
        }
        let code = Script::new_p2pkh(&key.pubkey_hash());
        return check_ecdsa(w[0], w[1], |ty| {
            let mut c = SighashCache::new(tx);
            c.segwit_signature_hash(i, &code, prev.value, ty).ok().map(|h| h.into_inner())
        });
    }
    if spk.is_p2pkh() {
        let parts: Vec<Vec<u8>> = input
            .script_sig
            .instructions()
            .filter_map(|x| match x {
                Ok(bitcoin::blockdata::script::Instruction::PushBytes(b)) => Some(b.to_vec()),
                _ => None,
            })
            .collect();
        if parts.len() != 2 {
            return Err("p2pkh scriptSig shape".into());
        }
        let key = PublicKey::from_slice(&parts[1]).map_err(|e| e.to_string())?;
        if Script::new_p2pkh(&key.pubkey_hash()) != *spk {
            return Err("p2pkh key does not match".into());
        }
        return check_ecdsa(&parts[0], &parts[1], |ty| {
            let c = SighashCache::new(tx);
            c.legacy_signature_hash(i, spk, ty.to_u32()).ok().map(|h| h.into_inner())
        });
    }
    if spk.is_v1_p2tr() {
        if !input.script_sig.is_empty() {
            return Err("scriptSig not empty".into());
        }
        let out_key =
            XOnlyPublicKey::from_slice(&spk.as_bytes()[2..34]).map_err(|e| e.to_string())?;
        let all = Prevouts::All(prevouts);
        match w.len() {
            0 => return Err("empty witness".into()),
            1 => {
                return check_schnorr(w[0], &out_key, |ty| {
                    let mut c = SighashCache::new(tx);
                    c.taproot_key_spend_signature_hash(i, &all, ty)
                        .ok()
                        .map(|h| h.into_inner())
                })
            }
            n => {
                let control = ControlBlock::from_slice(w[n - 1]).map_err(|e| e.to_string())?;
                let script = Script::from(w[n - 2].to_vec());
                let ok = SECP.with(|s| control.verify_taproot_commitment(s, out_key, &script));
                if !ok || control.leaf_version != LeafVersion::TapScript {
                    return Err("taproot commitment does not match".into());
                }
                let leaf = TapLeafHash::from_script(&script, LeafVersion::TapScript);
                let stack = w[..n - 2].iter().map(|b| b.to_vec()).collect();
                return run_tapscript(&script, stack, |sig, key| {
                    let key = XOnlyPublicKey::from_slice(key).map_err(|e| e.to_string())?;
                    check_schnorr(sig, &key, |ty| {
                        let mut c = SighashCache::new(tx);
                        c.taproot_script_spend_signature_hash(i, &all, leaf, ty)
                            .ok()
                            .map(|h| h.into_inner())
                    })
                });
            }
        }
    }
    Err("not spendable here".into())
}
