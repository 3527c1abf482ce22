//! What the client-side scenarios generate, and helpers they share.
use bdk::bitcoin::{
    hashes::Hash,
    util::address::{Payload, WitnessVersion},
    Address, Network, PubkeyHash, Script, ScriptHash,
};
use serde::{Deserialize, Serialize};
use simboot::{Coin, FaultPlan, WorldPlan};
use simcore::Rng;
use simworld::{
    ops::Account,
    wallet::{p2tr_script, p2wpkh_script, secret},
};

pub const NETS: [&str; 4] = ["bitcoin", "testnet", "signet", "regtest"];
pub const SERVER: &str = "127.0.0.1:50001";

/// An address to pay.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Addr {
    /// 0 p2pkh, 1 p2sh, 2 p2wpkh, 3 p2wsh, 4 p2tr, 5 later witness version,
    /// 6 the wallet's own address, 7 the same as the other address.
    pub kind: u8,
    pub body: String,
    pub net: String,
}

impl Addr {
    pub fn gen(r: &mut Rng, net: &str) -> Addr {
        let kind = *r.pick(&[0u8, 1, 2, 2, 2, 3, 4, 4, 4, 5]);
        let mut body = r.bytes(32);
        if r.chance(1, 10) {
            body[..4].fill(0);
        }
        Addr { kind, body: hex::encode(body), net: net.into() }
    }
    pub fn address(&self, own: &Script, other: Option<&Address>) -> Address {
        let net: Network = self.net.parse().unwrap();
        let b = hex::decode(&self.body).unwrap();
        let payload = match self.kind {
            0 => Payload::PubkeyHash(PubkeyHash::from_slice(&b[..20]).unwrap()),
            1 => Payload::ScriptHash(ScriptHash::from_slice(&b[..20]).unwrap()),
            2 => witness(0, &b[..20]),
            3 => witness(0, &b),
            4 => witness(1, &b),
            5 => witness(2 + b[0] % 15, &b[..2 + b[1] as usize % 31]),
            6 => return Address::from_script(own, net).unwrap(),
            _ => match other {
                Some(a) => return a.clone(),
                None => witness(0, &b[..20]),
            },
        };
        Address { payload, network: net }
    }
}

fn witness(v: u8, program: &[u8]) -> Payload {
    Payload::WitnessProgram {
        version: WitnessVersion::try_from(v).unwrap(),
        program: program.to_vec(),
    }
}

/// The same text has to be valid on the network the transaction is for.
pub fn belongs(a: &Address, net: Network) -> bool {
    let legacy = matches!(a.payload, Payload::PubkeyHash(_) | Payload::ScriptHash(_));
    let class = |n: Network| match n {
        Network::Bitcoin => 0,
        Network::Regtest if !legacy => 2,
        _ => 1,
    };
    class(a.network) == class(net)
}

pub fn gen_name(r: &mut Rng) -> String {
    if r.chance(1, 30) {
        return "__transient".into();
    }
    let n = match r.below(6) {
        0 => 1,
        1 => 40,
        2 => 39,
        _ => r.range(2, 40),
    } as usize;
    let first = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    let rest = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_";
    (0..n)
        .map(|i| *r.pick(if i == 0 { &first[..] } else { &rest[..] }) as char)
        .collect()
}

pub fn gen_account(r: &mut Rng) -> Account {
    let mut hash: [u8; 20] = r.bytes(20).try_into().unwrap();
    match r.below(8) {
        0 => hash[..r.idx(20)].fill(0),
        1 => hash = [0; 20],
        2 => hash = [0xff; 20],
        _ => {}
    }
    Account {
        version: *r.pick(&[22u8, 20, 26, 21]),
        hash,
        contract: if r.chance(1, 2) { Some(gen_name(r)) } else { None },
    }
}

pub fn key_of(seed: u64, who: &str) -> bdk::bitcoin::secp256k1::SecretKey {
    secret(format!("{seed}/{who}").as_bytes())
}

pub fn own_script(seed: u64, tr: bool) -> Script {
    let k = key_of(seed, "wallet");
    if tr {
        p2tr_script(&k)
    } else {
        p2wpkh_script(&k)
    }
}

fn gen_value(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.range(294, 1000),
        1 => r.range(1000, 10_000),
        2 => r.range(10_000, 3_000_000_000),
        3 => r.range(1_000_000_000, 100_000_000_000_000),
        _ => r.range(10_000, 10_000_000),
    }
}

pub fn gen_coins(r: &mut Rng, history: bool) -> Vec<Coin> {
    let n = match r.below(10) {
        0 => 0,
        1..=4 => 1,
        5..=7 => r.range(2, 5),
        8 => r.range(6, 12),
        _ => r.range(1, 3),
    };
    let mut coins: Vec<Coin> = (0..n)
        .map(|_| Coin { owner: 0, value: gen_value(r), at: 0, mined: Some(0), spent: None })
        .collect();
    if r.chance(1, 4) {
        // Equal coins.
        let v = gen_value(r);
        for c in coins.iter_mut() {
            c.value = v;
        }
    }
    for _ in 0..r.below(4) {
        coins.push(Coin { owner: 1 + r.below(3) as u8, value: gen_value(r), at: 0, mined: Some(0), spent: None });
    }
    if r.chance(1, 4) {
        coins.push(Coin { owner: 0, value: gen_value(r), at: 0, mined: Some(0), spent: Some(0) });
    }
    if history && r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            let at = r.range(1, 600);
            coins.push(Coin {
                owner: 0,
                value: gen_value(r),
                at,
                mined: if r.chance(1, 2) { Some(r.range(1, 400)) } else { None },
                spent: if r.chance(1, 3) { Some(r.range(1, 400)) } else { None },
            });
        }
        for c in coins.iter_mut() {
            if c.owner == 0 && c.at == 0 && c.spent.is_none() && r.chance(1, 4) {
                c.spent = Some(r.range(1, 600));
            }
        }
    }
    r.shuffle(&mut coins);
    coins
}

pub fn gen_faults(r: &mut Rng, garble: bool) -> FaultPlan {
    let mut f = FaultPlan {
        seed: r.next(),
        rates: Default::default(),
        explicit: None,
        outages: vec![],
    };
    match r.below(4) {
        0 => {}
        1 => {
            f.rates.insert("net.short_read".into(), 20_000);
            f.rates.insert("net.short_write".into(), 20_000);
        }
        _ => {
            let level = *r.pick(&[1_000u32, 5_000, 20_000]);
            for (c, w) in [
                ("net.electrum.connect", 4),
                ("net.electrum.request", 1),
                ("net.electrum.reply", 1),
                ("net.short_read", 4),
                ("net.short_write", 4),
                ("electrum.error", 1),
                ("electrum.garble", 1),
            ] {
                if (garble || c != "electrum.garble") && r.chance(1, 2) {
                    f.rates.insert(c.into(), level * w);
                }
            }
        }
    }
    if r.chance(1, 6) {
        let from = r.below(800);
        let k = *r.pick(&["down", "hang"]);
        f.outages.push((from, from + r.range(1, 20_000), k.into()));
    }
    f
}

pub fn gen_world(r: &mut Rng, net: &str, script: &Script, history: bool, garble: bool) -> WorldPlan {
    WorldPlan {
        network: net.into(),
        addrs: vec![SERVER.into(), "blockstream.info:993".into()],
        script: hex::encode(script.as_bytes()),
        coins: gen_coins(r, history),
        lag: if history && r.chance(1, 3) { r.range(1, 400) } else { 0 },
        fee: *r.pick(&[0.00001, 0.00001, 0.0005, -1.0]),
        base: *r.pick(&[17u64, 100, 2_000, 800_000]),
        faults: gen_faults(r, garble),
        keep_log: true,
    }
}

/// Simpler worlds.
pub fn shrink_world(w: &WorldPlan) -> Vec<WorldPlan> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut WorldPlan)| {
        let mut q = w.clone();
        f(&mut q);
        out.push(q);
    };
    if !w.faults.outages.is_empty() {
        push(&|q| q.faults.outages.clear());
    }
    if !w.faults.rates.is_empty() && w.faults.explicit.is_none() {
        push(&|q| q.faults.rates.clear());
    }
    if let Some(e) = &w.faults.explicit {
        if !e.is_empty() {
            push(&|q| q.faults.explicit = Some(vec![]));
            if e.len() > 1 {
                push(&|q| q.faults.explicit.as_mut().unwrap().truncate(e.len() / 2));
                push(&|q| {
                    q.faults.explicit.as_mut().unwrap().drain(..e.len() / 2);
                });
            }
            for i in 0..e.len() {
                push(&|q| {
                    q.faults.explicit.as_mut().unwrap().remove(i);
                });
            }
        }
    }
    for i in 0..w.coins.len() {
        push(&|q| {
            q.coins.remove(i);
        });
    }
    if w.lag > 0 {
        push(&|q| q.lag = 0);
    }
    for i in 0..w.coins.len() {
        if w.coins[i].at > 0 || w.coins[i].spent.is_some() {
            push(&|q| {
                q.coins[i].at = 0;
                q.coins[i].spent = None;
            });
        }
    }
    out
}
