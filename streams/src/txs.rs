//! Corrupt data inside Bitcoin transactions, through the operation parsers.
use bdk::bitcoin::{
    hashes::{sha256, Hash},
    secp256k1::{
        ecdsa::{RecoverableSignature, RecoveryId},
        Message, Secp256k1,
    },
    Address, Network, PackedLockTime, Script, Transaction, TxOut,
};
use sbtc_core::operations::op_return::{
    deposit::Deposit, withdrawal_request::try_parse_withdrawal_request,
};
use serde::{Deserialize, Serialize};
use simcore::{panics, Outcome, Rng};
use stacks_core::codec::Codec;

use crate::spec::{self, Kind};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxPlan {
    /// How the data gets into the first output.
    pub wrap: u8,
    pub extra: String,
    /// The following outputs: (script kind, seed byte, value)
    pub outs: Vec<(u8, u8, u64)>,
    pub net: u8,
}

fn network(n: u8) -> Network {
    [Network::Bitcoin, Network::Testnet, Network::Signet, Network::Regtest][(n % 4) as usize]
}

fn script(kind: u8, b: u8) -> Script {
    let mut v = match kind % 8 {
        0 => vec![0x00, 0x14],
        1 => vec![0x51, 0x20],
        2 => vec![0x76, 0xa9, 0x14],
        3 => vec![0xa9, 0x14],
        4 => vec![0x00, 0x20],
        5 => vec![0x6a, 0x02],
        6 => vec![],
        _ => vec![0x52, 0x28],
    };
    let n = match kind % 8 {
        0 | 2 | 3 => 20,
        1 | 4 => 32,
        5 => 2,
        6 => (b % 5) as usize,
        _ => 40,
    };
    v.extend(std::iter::repeat(b).take(n));
    match kind % 8 {
        2 => v.extend([0x88, 0xac]),
        3 => v.push(0x87),
        _ => {}
    }
    Script::from(v)
}

impl TxPlan {
    pub fn gen(r: &mut Rng) -> Self {
        let n = match r.below(5) {
            0 => r.idx(2),
            _ => 2 + r.idx(3),
        };
        let x = r.idx(6);
        TxPlan {
            wrap: if r.chance(2, 3) { 0 } else { r.below(8) as u8 },
            extra: hex::encode(r.bytes(x)),
            outs: (0..n)
                .map(|_| {
                    (
                        if r.chance(3, 4) { r.below(5) as u8 } else { r.below(8) as u8 },
                        r.next() as u8,
                        r.next() >> r.below(60),
                    )
                })
                .collect(),
            net: r.below(4) as u8,
        }
    }

    pub fn shrink(&self) -> Vec<TxPlan> {
        let mut v = vec![];
        for i in 0..self.outs.len() {
            let mut t = self.clone();
            t.outs.remove(i);
            v.push(t);
        }
        if !self.extra.is_empty() {
            let mut t = self.clone();
            t.extra.clear();
            v.push(t);
        }
        v
    }

    fn first(&self, data: &[u8]) -> Vec<u8> {
        let mut s = vec![0x6a];
        let n = data.len();
        match self.wrap {
            // Minimal push.
            0 if n < 76 => s.push(n as u8),
            0 | 1 if n < 256 => s.extend([0x4c, n as u8]),
            2 if n < 76 => s.push(n as u8),
            3 => {
                // Not an OP_RETURN.
                s[0] = 0x51;
                s.push(n.min(75) as u8);
            }
            4 => {
                // Push longer than the script.
                s.extend([0x4c, 0xff]);
            }
            5 => s.push(0x51),
            6 => return s,
            _ => s.extend([0x4d, n as u8, (n >> 8) as u8]),
        }
        s.extend(data);
        s.extend(hex::decode(&self.extra).unwrap_or_default());
        s
    }

    /// The data an observer of the script takes from it.
    fn observed(s: &[u8]) -> Option<Vec<u8>> {
        if s.first() != Some(&0x6a) || s.len() < 2 {
            return None;
        }
        let (at, n): (usize, usize) = match s[1] {
            x @ 0..=75 => (2, x as usize),
            0x4c => (3, *s.get(2)? as usize),
            0x4d => (4, u16::from_le_bytes([*s.get(2)?, *s.get(3)?]) as usize),
            0x4e => (
                6,
                u32::from_le_bytes([*s.get(2)?, *s.get(3)?, *s.get(4)?, *s.get(5)?]) as usize,
            ),
            _ => return None,
        };
        s.get(at..at.checked_add(n)?).map(|x| x.to_vec())
    }

    pub fn run(&self, data: &[u8], o: &mut Outcome) -> String {
        let first = self.first(data);
        let mut output = vec![TxOut { value: 0, script_pubkey: Script::from(first.clone()) }];
        for (k, b, v) in &self.outs {
            output.push(TxOut { value: *v, script_pubkey: script(*k, *b) });
        }
        let tx = Transaction { version: 2, lock_time: PackedLockTime::ZERO, input: vec![], output };
        let net = network(self.net);
        let seen = Self::observed(&first);
        let addr = |i: usize| {
            tx.output.get(i).and_then(|t| Address::from_script(&t.script_pubkey, net).ok())
        };
        o.probe("parsed-inside-transaction");

        // Deposit.
        let want = seen.as_ref().and_then(|d| {
            let n = spec::decode(Kind::DepOut, d)?;
            Some((d[3..n].to_vec(), tx.output.get(1)?.value, addr(1)?))
        });
        let t = tx.clone();
        let got = panics::guard(|| {
            Deposit::parse(net, t)
                .ok()
                .map(|d| (d.recipient.serialize_to_vec(), d.amount, d.sbtc_wallet_address))
        });
        let mut line = format!("deposit parse -> {got:?}");
        match got {
            Err(e) => o.violate("S03", "panic-deposit-parse", format!("{}: {e}", hex::encode(&first))),
            Ok(g) if g != want => o.violate(
                "S03",
                "deposit-parse",
                format!("outputs {:?}: parsed {g:?}, should be {want:?}", tx.output),
            ),
            Ok(g) => {
                if g.is_some() {
                    o.probe("deposit-accepted-in-transaction");
                }
            }
        }

        // Withdrawal request.
        let want = seen.as_ref().and_then(|d| {
            spec::decode(Kind::WdOut, d)?;
            let payee = addr(1)?;
            let wallet = addr(2)?;
            let amount = u64::from_be_bytes(d[3..11].try_into().unwrap());
            let mut signing = amount.to_be_bytes().to_vec();
            signing.extend(payee.script_pubkey().as_bytes());
            let text = format!(
                "Withdraw request for {amount} satoshis to the bitcoin address {payee} ({})",
                hex::encode(signing)
            );
            let mut m = vec![23u8];
            m.extend(b"Stacks Signed Message:\n");
            m.push(text.len() as u8);
            m.extend(text.as_bytes());
            let digest = sha256::Hash::hash(&m);
            let sig = RecoverableSignature::from_compact(
                &d[12..76],
                RecoveryId::from_i32(d[11] as i32).ok()?,
            )
            .ok()?;
            let key = Secp256k1::new()
                .recover_ecdsa(&Message::from_slice(&digest[..]).unwrap(), &sig)
                .ok()?;
            let h = bdk::bitcoin::hashes::hash160::Hash::hash(&key.serialize());
            let ver = if net == Network::Bitcoin { 22u8 } else { 26 };
            let mut drawee = vec![ver];
            drawee.extend(&h[..]);
            Some((drawee, amount, payee, wallet, tx.output.get(2)?.value))
        });
        let t = tx.clone();
        let got = panics::guard(|| {
            try_parse_withdrawal_request(net, t).ok().map(|w| {
                let mut drawee = vec![w.drawee_stacks_address.version() as u8];
                drawee.extend(w.drawee_stacks_address.hash().as_ref());
                (drawee, w.amount, w.payee_bitcoin_address, w.sbtc_wallet, w.fulfillment_amount)
            })
        });
        line.push_str(&format!("; withdrawal parse -> {got:?}"));
        match got {
            Err(e) => {
                o.violate("S03", "panic-withdrawal-parse", format!("{}: {e}", hex::encode(&first)))
            }
            Ok(g) if g != want => o.violate(
                "S03",
                "withdrawal-parse",
                format!("outputs {:?}: parsed {g:?}, should be {want:?}", tx.output),
            ),
            Ok(g) => {
                if g.is_some() {
                    o.probe("withdrawal-accepted-in-transaction");
                }
            }
        }
        line
    }
}
