//! Independent writer and reader of the sBTC operation formats, from the
//! documentation of the formats only.
use bitcoin::{
    hashes::{hash160, sha256, Hash},
    secp256k1::{
        ecdsa::{RecoverableSignature, RecoveryId},
        All, Message, PublicKey, Secp256k1, SecretKey,
    },
    Address, Network, Script, Transaction,
};

thread_local! {
    pub static SECP: Secp256k1<All> = Secp256k1::new();
}

/// A Stacks account: address version, key or script hash, contract name.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct Account {
    pub version: u8,
    pub hash: [u8; 20],
    pub contract: Option<String>,
}

const C32: &[u8] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";

pub fn c32address(version: u8, hash: &[u8; 20]) -> String {
    let mut pre = vec![version];
    pre.extend_from_slice(hash);
    let d = sha256::Hash::hash(&sha256::Hash::hash(&pre)[..]);
    let mut data = hash.to_vec();
    data.extend_from_slice(&d[..4]);
    // big-endian base 32 without leading zeros, one '0' per leading zero byte
    let mut out = vec![];
    let mut carry: u32 = 0;
    let mut bits = 0;
    for b in data.iter().rev() {
        carry |= (*b as u32) << bits;
        bits += 8;
        while bits >= 5 {
            out.push(C32[(carry & 31) as usize]);
            carry >>= 5;
            bits -= 5;
        }
    }
    if bits > 0 {
        out.push(C32[(carry & 31) as usize]);
    }
    while out.last() == Some(&b'0') {
        out.pop();
    }
    for b in &data {
        if *b == 0 {
            out.push(b'0');
        } else {
            break;
        }
    }
    out.push(C32[version as usize]);
    out.push(b'S');
    out.reverse();
    String::from_utf8(out).unwrap()
}

impl Account {
    pub fn text(&self) -> String {
        let a = c32address(self.version, &self.hash);
        match &self.contract {
            Some(c) => format!("{a}.{c}"),
            None => a,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![if self.contract.is_some() { 6 } else { 5 }, self.version];
        v.extend_from_slice(&self.hash);
        if let Some(c) = &self.contract {
            v.push(c.len() as u8);
            v.extend_from_slice(c.as_bytes());
        }
        v
    }
}

pub fn magic(network: Network) -> [u8; 2] {
    match network {
        Network::Bitcoin => *b"X2",
        Network::Testnet => *b"T2",
        _ => *b"id",
    }
}

/// OP_RETURN with one minimal push.
pub fn data_script(data: &[u8]) -> Script {
    let mut v = vec![0x6a];
    if data.len() <= 75 {
        v.push(data.len() as u8);
    } else {
        v.push(0x4c);
        v.push(data.len() as u8);
    }
    v.extend_from_slice(data);
    Script::from(v)
}

pub fn deposit_data(network: Network, to: &Account) -> Vec<u8> {
    let mut v = magic(network).to_vec();
    v.push(b'<');
    v.extend(to.bytes());
    v
}

pub fn signing_text(amount: u64, payee: &Address) -> String {
    let mut d = amount.to_be_bytes().to_vec();
    d.extend_from_slice(payee.script_pubkey().as_bytes());
    format!(
        "Withdraw request for {amount} satoshis to the bitcoin address {payee} ({})",
        hex::encode(d)
    )
}

pub fn signing_hash(amount: u64, payee: &Address) -> [u8; 32] {
    let t = signing_text(amount, payee);
    let p = b"Stacks Signed Message:\n";
    let mut m = vec![p.len() as u8];
    m.extend_from_slice(p);
    m.push(t.len() as u8);
    m.extend_from_slice(t.as_bytes());
    sha256::Hash::hash(&m).into_inner()
}

pub fn sign_request(key: &SecretKey, amount: u64, payee: &Address) -> [u8; 65] {
    let h = signing_hash(amount, payee);
    let s = SECP.with(|s| s.sign_ecdsa_recoverable(&Message::from_slice(&h).unwrap(), key));
    let (id, c) = s.serialize_compact();
    let mut out = [0; 65];
    out[0] = id.to_i32() as u8;
    out[1..].copy_from_slice(&c);
    out
}

pub fn request_data(network: Network, amount: u64, sig: &[u8; 65]) -> Vec<u8> {
    let mut v = magic(network).to_vec();
    v.push(b'>');
    v.extend_from_slice(&amount.to_be_bytes());
    v.extend_from_slice(sig);
    v
}

pub fn fulfillment_data(network: Network, block: &[u8; 32]) -> Vec<u8> {
    let mut v = magic(network).to_vec();
    v.push(b'!');
    v.extend_from_slice(block);
    v
}

pub fn account_of_key(network: Network, key: &PublicKey) -> Account {
    Account {
        version: if network == Network::Bitcoin { 22 } else { 26 },
        hash: hash160::Hash::hash(&key.serialize()).into_inner(),
        contract: None,
    }
}

/// First push after OP_RETURN.
pub fn op_return_push(script: &Script) -> Option<Vec<u8>> {
    let b = script.as_bytes();
    if b.first() != Some(&0x6a) {
        return None;
    }
    let (len, off): (usize, usize) = match *b.get(1)? {
        n @ 0..=75 => (n as usize, 2),
        0x4c => (*b.get(2)? as usize, 3),
        0x4d => (u16::from_le_bytes([*b.get(2)?, *b.get(3)?]) as usize, 4),
        0x4e => (
            u32::from_le_bytes([*b.get(2)?, *b.get(3)?, *b.get(4)?, *b.get(5)?]) as usize,
            6,
        ),
        _ => return None,
    };
    Some(b.get(off..off.checked_add(len)?)?.to_vec())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Deposit { to: Account, amount: u64, wallet: Script },
    Request { from: Account, amount: u64, payee: Script, fee: u64, wallet: Script },
    Fulfillment { block: [u8; 32], payee: Script, amount: u64 },
}

fn read_account(d: &[u8]) -> Option<(Account, usize)> {
    let kind = *d.first()?;
    let version = *d.get(1)?;
    if ![22, 20, 26, 21].contains(&version) {
        return None;
    }
    let hash: [u8; 20] = d.get(2..22)?.try_into().ok()?;
    match kind {
        5 => Some((Account { version, hash, contract: None }, 22)),
        6 => {
            let n = *d.get(22)? as usize;
            let name = d.get(23..23 + n)?;
            let name = std::str::from_utf8(name).ok()?;
            let first = name.chars().next()?;
            let ok = (first.is_ascii_alphabetic()
                && name.len() <= 40
                && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_'))
                || name == "__transient";
            if !ok {
                return None;
            }
            Some((Account { version, hash, contract: Some(name.into()) }, 23 + n))
        }
        _ => None,
    }
}

/// Whether a magic tag is accepted by a bridge on any network.
fn known_magic(d: &[u8]) -> bool {
    [b"X2", b"T2", b"id"].iter().any(|m| d.starts_with(*m))
}

/// Reads the operation in a transaction, whatever network its tag names.
pub fn read_op(network: Network, tx: &Transaction) -> Option<Op> {
    let data = op_return_push(&tx.output.first()?.script_pubkey)?;
    if data.len() < 3 || !known_magic(&data) {
        return None;
    }
    let body = &data[3..];
    match data[2] {
        b'<' => {
            let (to, _) = read_account(body)?;
            let o = tx.output.get(1)?;
            Address::from_script(&o.script_pubkey, network).ok()?;
            Some(Op::Deposit { to, amount: o.value, wallet: o.script_pubkey.clone() })
        }
        b'>' => {
            let amount = u64::from_be_bytes(body.get(..8)?.try_into().ok()?);
            let id = RecoveryId::from_i32(*body.get(8)? as i32).ok()?;
            let sig = RecoverableSignature::from_compact(body.get(9..73)?, id).ok()?;
            let p = tx.output.get(1)?;
            let payee = Address::from_script(&p.script_pubkey, network).ok()?;
            let h = signing_hash(amount, &payee);
            let key = SECP
                .with(|s| s.recover_ecdsa(&Message::from_slice(&h).unwrap(), &sig))
                .ok()?;
            let f = tx.output.get(2)?;
            Address::from_script(&f.script_pubkey, network).ok()?;
            Some(Op::Request {
                from: account_of_key(network, &key),
                amount,
                payee: p.script_pubkey.clone(),
                fee: f.value,
                wallet: f.script_pubkey.clone(),
            })
        }
        b'!' => {
            let block: [u8; 32] = body.get(..32)?.try_into().ok()?;
            let o = tx.output.get(1)?;
            Some(Op::Fulfillment { block, payee: o.script_pubkey.clone(), amount: o.value })
        }
        _ => None,
    }
}
