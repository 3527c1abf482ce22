//! What a run of the bridge consists of.
use std::collections::BTreeMap;

use bdk::bitcoin::{
    blockdata::script::Builder,
    hashes::Hash,
    secp256k1::{PublicKey, Secp256k1, SecretKey},
    Address, Network, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Witness,
};
use serde::{Deserialize, Serialize};
use simcore::{driver::Tier, rng::mix, Rng};
use simworld::{
    ops::{self, Account},
    wallet::{p2tr_script, p2wpkh_script, secret},
};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TxPlan {
    /// `form`: 0 as the client builds it, 1 with PUSHDATA1, 2 with more outputs,
    /// 3 tagged for another network, 4 with bytes after the recipient.
    Deposit { to: Account, amount: u64, form: u8 },
    Request { user: u8, amount: u64, payee: u8, dust: u64, fee: u64, form: u8 },
    Noise { kind: u8, seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SPlan {
    /// Milliseconds after the Bitcoin block.
    pub after: u64,
    pub noise: Vec<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlockPlan {
    /// Milliseconds since the previous block.
    pub gap: u64,
    pub txs: Vec<TxPlan>,
    /// Unrelated transactions before and after.
    pub fill: u32,
    /// How much of the mempool is mined: 0 nothing, 1 everything, 2 half.
    pub mine: u8,
    pub stacks: Option<SPlan>,
    /// What the wallet is given, if anything.
    #[serde(default)]
    pub coin: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CrashPlan {
    pub point: String,
    pub nth: u64,
    pub power: bool,
    /// ms
    pub down: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OutagePlan {
    pub service: String,
    pub from: u64,
    pub to: u64,
    pub kind: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    pub sched: u64,
    pub net: String,
    pub strict: bool,
    pub who: u64,
    pub contract: String,
    pub api_key: bool,
    pub base: u64,
    pub sbase: u64,
    /// Blocks after the contract's deployment that exist when the bridge starts.
    pub history: Vec<BlockPlan>,
    pub blocks: Vec<BlockPlan>,
    pub tail: u64,
    pub tail_gap: u64,
    pub coins: Vec<u64>,
    pub balances: Vec<u64>,
    pub btc_lag: u64,
    pub electrum_lag: u64,
    pub stacks_lag: u64,
    pub fee: u64,
    pub inclusion: u64,
    pub latency: u64,
    pub rates: BTreeMap<String, u32>,
    pub explicit: Option<Vec<(String, u64, u64)>>,
    pub outages: Vec<OutagePlan>,
    /// How long a service is down at most that loses a reply, in ms.
    #[serde(default)]
    pub spell: u64,
    pub crashes: Vec<CrashPlan>,
    /// Bytes the disk holds until the faults stop.
    pub disk_cap: Option<u64>,
    /// ms after which no fault fires.
    pub quiet: u64,
}

impl Plan {
    pub fn network(&self) -> Network {
        self.net.parse().unwrap()
    }
    pub fn user_key(&self, u: u8) -> SecretKey {
        secret(format!("{}/user/{u}", self.who).as_bytes())
    }
    pub fn user_account(&self, u: u8) -> Account {
        let k = PublicKey::from_secret_key(&Secp256k1::new(), &self.user_key(u));
        ops::account_of_key(self.network(), &k)
    }
    pub fn payee(&self, n: u8) -> Script {
        let k = secret(format!("{}/payee/{}", self.who, n / 8).as_bytes());
        let h = mix(self.who, n as u64);
        let mut body = [0u8; 32];
        for (i, b) in body.iter_mut().enumerate() {
            *b = (mix(h, i as u64) >> 7) as u8;
        }
        match n % 6 {
            0 | 1 => p2wpkh_script(&k),
            2 => p2tr_script(&k),
            3 => Script::new_p2pkh(&bdk::bitcoin::PubkeyHash::from_slice(&body[..20]).unwrap()),
            4 => Script::new_p2sh(&bdk::bitcoin::ScriptHash::from_slice(&body[..20]).unwrap()),
            _ => Builder::new().push_int(0).push_slice(&body).into_script(),
        }
    }
}

/// The transaction whose coin the transaction of this seed spends: an old
/// payment to somebody.
fn parent(seed: u64) -> Transaction {
    let other = p2tr_script(&secret(&[&b"coin"[..], &seed.to_le_bytes()].concat()));
    Transaction {
        version: 2,
        lock_time: PackedLockTime::ZERO,
        input: vec![TxIn {
            previous_output: OutPoint::null(),
            script_sig: Script::from([&[8u8][..], &seed.to_le_bytes()].concat()),
            sequence: Sequence::MAX,
            witness: Witness::new(),
        }],
        output: vec![out(2_100_000_000_000_000, other)],
    }
}

/// That transaction, for one that `tx` made.
pub fn parent_of(tx: &Transaction) -> Option<Transaction> {
    let w = tx.input.first()?.witness.to_vec();
    let b: [u8; 8] = w.first()?.get(..8)?.try_into().ok()?;
    let p = parent(u64::from_le_bytes(b));
    (p.txid() == tx.input[0].previous_output.txid).then_some(p)
}

fn some_input(seed: u64) -> TxIn {
    let mut w = seed.to_le_bytes().to_vec();
    w.extend_from_slice(&[(seed >> 9) as u8; 56]);
    TxIn {
        previous_output: OutPoint::new(parent(seed).txid(), 0),
        script_sig: Script::new(),
        sequence: Sequence::MAX,
        witness: Witness::from_vec(vec![w]),
    }
}

fn tx(seed: u64, output: Vec<TxOut>) -> Transaction {
    Transaction { version: 2, lock_time: PackedLockTime::ZERO, input: vec![some_input(seed)], output }
}

fn out(value: u64, script_pubkey: Script) -> TxOut {
    TxOut { value, script_pubkey }
}

pub fn filler(seed: u64) -> Transaction {
    let mut s = vec![0, 20];
    for i in 0..20u64 {
        s.push(mix(seed, i) as u8);
    }
    tx(seed ^ 0xf111, vec![out(1000 + seed % 100_000, Script::from(s))])
}

fn pushdata1(data: &[u8]) -> Script {
    let mut v = vec![0x6a, 0x4c, data.len() as u8];
    v.extend_from_slice(data);
    Script::from(v)
}

impl Plan {
    /// The Bitcoin transaction a plan entry stands for.
    pub fn build(&self, t: &TxPlan, id: u64, wallet: &Script) -> Transaction {
        let net = self.network();
        let seed = mix(self.seed, id);
        let other_net = if net == Network::Bitcoin { Network::Testnet } else { Network::Bitcoin };
        let change = out(5_000 + seed % 50_000, p2wpkh_script(&secret(&seed.to_le_bytes())));
        match t {
            TxPlan::Deposit { to, amount, form } => {
                let mut data = ops::deposit_data(if *form == 3 { other_net } else { net }, to);
                if *form == 4 {
                    data.extend_from_slice(b"xyz");
                }
                let s = if *form == 1 { pushdata1(&data) } else { ops::data_script(&data) };
                let mut outs = vec![out(0, s), out(*amount, wallet.clone())];
                if *form == 2 {
                    outs.push(change.clone());
                    outs.push(out(*amount, wallet.clone()));
                }
                outs.push(change);
                tx(seed, outs)
            }
            TxPlan::Request { user, amount, payee, dust, fee, form } => {
                let script = self.payee(*payee);
                let addr = Address::from_script(&script, net).unwrap();
                let sig = ops::sign_request(&self.user_key(*user), *amount, &addr);
                let mut data = ops::request_data(if *form == 3 { other_net } else { net }, *amount, &sig);
                if *form == 4 {
                    data.extend_from_slice(b"x");
                }
                let s = if *form == 1 { pushdata1(&data) } else { ops::data_script(&data) };
                let mut outs = vec![out(0, s), out(*dust, script), out(*fee, wallet.clone())];
                if *form == 2 {
                    outs.push(change.clone());
                }
                outs.push(change);
                tx(seed, outs)
            }
            TxPlan::Noise { kind, seed: s } => self.noise(*kind, mix(*s, id), wallet),
        }
    }

    /// Things other people put into blocks.
    fn noise(&self, kind: u8, seed: u64, wallet: &Script) -> Transaction {
        let net = self.network();
        let mut r = Rng::new(seed);
        let other = p2tr_script(&secret(&seed.to_le_bytes()));
        let to = gen_account(&mut r, net);
        let dep = ops::deposit_data(net, &to);
        let payee = self.payee(r.below(40) as u8);
        let addr = Address::from_script(&payee, net).unwrap();
        let user = r.below(4) as u8;
        let amount = 1 + r.below(1_000_000);
        let sig = ops::sign_request(&self.user_key(user), amount, &addr);
        let req = ops::request_data(net, amount, &sig);
        let pay = |s: &Script| out(1 + seed % 500_000, s.clone());
        let random = |r: &mut Rng, max: u64| {
            let n = r.below(max + 1) as usize;
            Script::from(r.bytes(n))
        };
        let outs = match kind % 30 {
            // another bridge's operations
            0 => vec![out(0, ops::data_script(&dep)), pay(&other), pay(wallet)],
            1 => vec![out(0, ops::data_script(&req)), pay(&payee), pay(&other), pay(wallet)],
            // data cut short
            2 => {
                let n = r.idx(dep.len());
                vec![out(0, ops::data_script(&dep[..n])), pay(wallet)]
            }
            3 => {
                let n = r.idx(req.len());
                vec![out(0, ops::data_script(&req[..n])), pay(&payee), pay(wallet)]
            }
            // unknown operation or tag
            4 => {
                let mut d = dep.clone();
                d[2] = r.next() as u8;
                vec![out(0, ops::data_script(&d)), pay(wallet), pay(wallet)]
            }
            5 => {
                let mut d = dep.clone();
                d[r.idx(2)] ^= 1 << r.below(8);
                vec![out(0, ops::data_script(&d)), pay(wallet)]
            }
            // outputs missing
            6 => vec![out(0, ops::data_script(&dep))],
            7 => {
                let mut v = vec![out(0, ops::data_script(&req))];
                if r.chance(1, 2) {
                    v.push(pay(&payee));
                }
                v
            }
            // not the first output
            8 => vec![pay(wallet), out(0, ops::data_script(&dep)), pay(wallet)],
            9 => vec![pay(&payee), out(0, ops::data_script(&req)), pay(&payee), pay(wallet)],
            // outputs that are no addresses
            10 => vec![out(0, ops::data_script(&dep)), out(7, random(&mut r, 40)), pay(wallet)],
            11 => vec![
                out(0, ops::data_script(&req)),
                if r.chance(1, 2) { out(9, random(&mut r, 40)) } else { pay(&payee) },
                out(7, random(&mut r, 40)),
                pay(wallet),
            ],
            // broken principals
            12 => {
                let mut d = dep.clone();
                d[3] = *r.pick(&[0u8, 5, 6, 7, 255]);
                vec![out(0, ops::data_script(&d)), pay(wallet)]
            }
            13 => {
                let mut d = dep.clone();
                d[4] = r.next() as u8;
                vec![out(0, ops::data_script(&d)), pay(wallet)]
            }
            14 => {
                let mut d = ops::deposit_data(
                    net,
                    &Account { version: 26, hash: [3; 20], contract: Some("abcdef".into()) },
                );
                let n = d.len();
                let i = n - 6 + r.idx(6);
                d[i] = *r.pick(&[0u8, 0xff, 0xc3, b'!', b'.', b' ', b'\n', b'"']);
                if r.chance(1, 3) {
                    d[n - 7] = r.next() as u8;
                }
                vec![out(0, ops::data_script(&d)), pay(wallet)]
            }
            // broken signatures
            15 => {
                let mut d = req.clone();
                d[11] = *r.pick(&[4u8, 27, 31, 255, 0x80]);
                vec![out(0, ops::data_script(&d)), pay(&payee), pay(wallet)]
            }
            16 => {
                let mut d = req.clone();
                for b in &mut d[12..76] {
                    *b = if r.chance(1, 2) { 0 } else { 0xff };
                }
                vec![out(0, ops::data_script(&d)), pay(&payee), pay(wallet)]
            }
            // scripts of every shape
            17 => (0..1 + r.below(5)).map(|i| out(i, random(&mut r, 90))).collect(),
            18 => {
                let mut s = vec![0x6a];
                s.extend(match r.below(7) {
                    0 => vec![],
                    1 => vec![0x4c],
                    2 => vec![0x4c, 200, 1],
                    3 => vec![0x4d, 1],
                    4 => vec![0x4e, 255, 255, 255, 127, 1],
                    5 => vec![75],
                    _ => vec![0x6a, 0x6a],
                });
                vec![out(0, Script::from(s)), pay(wallet), pay(wallet)]
            }
            // not data but something else first
            19 => {
                let mut s = vec![*r.pick(&[0x6a_u8, 0x50, 0x51, 0x00, 0xff]), *r.pick(&[0x00_u8, 0x4f, 0x51, 0x60, 0x61])];
                s.extend_from_slice(ops::data_script(&dep).as_bytes());
                vec![out(0, Script::from(s)), pay(wallet), pay(wallet)]
            }
            // somebody's fulfilment-like output paying the wallet
            20 => vec![out(0, ops::data_script(&ops::fulfillment_data(net, &[5; 32]))), pay(wallet), pay(wallet)],
            21 => vec![pay(wallet)],
            // nothing deposited
            22 => vec![out(0, ops::data_script(&dep)), out(0, wallet.clone())],
            // what resembles the wallet: nobody holds these coins for the bridge
            24 => vec![out(0, ops::data_script(&dep)), pay(&lookalike(&mut r, wallet)), pay(wallet)],
            25 => vec![out(0, ops::data_script(&req)), pay(&payee), pay(&lookalike(&mut r, wallet)), pay(wallet)],
            // data in several or unusual pushes
            26 | 27 => {
                let asked;
                let (d, mut rest) = if kind % 30 == 26 {
                    (&dep, vec![pay(wallet)])
                } else {
                    // nobody has that much
                    let amount = (1 << 56) + amount;
                    let sig = ops::sign_request(&self.user_key(user), amount, &addr);
                    asked = ops::request_data(net, amount, &sig);
                    (&asked, vec![pay(&payee), pay(wallet)])
                };
                let mut v = vec![0x6a];
                let mut push = |how: u64, d: &[u8]| {
                    match how {
                        0 if d.len() < 76 => v.push(d.len() as u8),
                        1 => v.extend_from_slice(&[0x4d, d.len() as u8, 0]),
                        2 => v.extend_from_slice(&[0x4e, d.len() as u8, 0, 0, 0]),
                        _ => v.extend_from_slice(&[0x4c, d.len() as u8]),
                    }
                    v.extend_from_slice(d);
                };
                match r.below(4) {
                    // cut in two
                    0 => {
                        let n = r.idx(d.len());
                        push(0, &d[..n]);
                        push(0, &d[n..]);
                    }
                    // something before it
                    1 => {
                        push(0, &[]);
                        push(0, d);
                    }
                    // something behind it
                    2 => {
                        push(3, d);
                        push(0, &[1, 2, 3]);
                    }
                    _ => push(1 + r.below(2), d),
                }
                rest.insert(0, out(0, Script::from(v)));
                rest
            }
            // names that are too long for a contract
            28 => {
                let n = *r.pick(&[41usize, 42, 48, 54, 100, 127, 128, 129, 200]);
                let to = Account { version: to.version, hash: to.hash, contract: Some("a".repeat(n)) };
                vec![out(0, ops::data_script(&ops::deposit_data(net, &to))), pay(wallet)]
            }
            // what somebody signed, around other words
            29 => {
                let asked: Vec<_> = self
                    .blocks
                    .iter()
                    .flat_map(|b| &b.txs)
                    .filter_map(|t| match t {
                        TxPlan::Request { user, amount, payee, fee, .. } => Some((*user, *amount, *payee, *fee)),
                        _ => None,
                    })
                    .collect();
                let (user, amount, to, fee) =
                    if asked.is_empty() { (user, amount, 0, 3_000) } else { *r.pick(&asked) };
                let script = self.payee(to);
                let sig = ops::sign_request(&self.user_key(user), amount, &Address::from_script(&script, net).unwrap());
                let (amount, script) = match r.below(4) {
                    0 => (amount / 2, script),
                    1 => (amount + 1 + r.below(500), script),
                    2 if payee != script => (amount, payee),
                    _ => (amount ^ (1 + r.below(100_000)), payee),
                };
                let value = script.dust_value().to_sat();
                vec![
                    out(0, ops::data_script(&ops::request_data(net, amount, &sig))),
                    out(value, script),
                    out(fee, wallet.clone()),
                ]
            }
            // amount signed and written differ: some other account is asked
            _ => {
                let mut d = req.clone();
                d[3 + r.idx(8)] ^= 1;
                vec![out(0, ops::data_script(&d)), pay(&payee), pay(wallet)]
            }
        };
        tx(seed, outs)
    }
}

/// A script that has something of the wallet's in it, but is not the wallet's.
fn lookalike(r: &mut Rng, wallet: &Script) -> Script {
    let program = &wallet.as_bytes()[2..];
    let with = |a: &[u8], b: &[u8], c: &[u8]| Script::from([a, b, c].concat());
    match r.below(8) {
        0 => with(&[0x00, 32], program, &[]),
        1 => with(&[0x52, 32], program, &[]),
        2 => with(&[0x60, 32], program, &[]),
        3 => with(&[0x51, 32], program, &[0x51]),
        4 => with(&[0x51, 31], &program[..31], &[]),
        5 => with(&[0x00, 20], &program[..20], &[]),
        6 => with(&[0xa9, 20], &program[..20], &[0x87]),
        _ => {
            let mut p = program.to_vec();
            let i = *r.pick(&[0, 1, 15, 30, 31]);
            p[i] ^= 1 << r.below(8);
            with(&[0x51, 32], &p, &[])
        }
    }
}

pub fn gen_account(r: &mut Rng, net: Network) -> Account {
    let own: [u8; 2] = if net == Network::Bitcoin { [22, 20] } else { [26, 21] };
    let version = if r.chance(1, 10) { *r.pick(&[22u8, 20, 26, 21]) } else { own[(r.below(6) == 0) as usize] };
    let mut hash: [u8; 20] = r.bytes(20).try_into().unwrap();
    if r.chance(1, 12) {
        hash[..1 + r.idx(19)].fill(0);
    }
    let contract = if r.chance(1, 4) {
        let n = *r.pick(&[1usize, 2, 5, 12, 39, 40]);
        if r.chance(1, 12) {
            Some("__transient".into())
        } else {
            Some(
                (0..n)
                    .map(|i| *r.pick(if i == 0 { &b"abcXYZ"[..] } else { &b"abzAZ09-_"[..] }) as char)
                    .collect(),
            )
        }
    } else {
        None
    };
    Account { version, hash, contract }
}

/// How much of what a property's runs contain.
struct Mix {
    crashes: u64,
    power: u64,
    outages: u64,
    net: u64,
    forget: u64,
    disk: u64,
    noise: u64,
    ops: u64,
    big: u64,
    blocks: (u64, u64),
}

fn profile(prop: &str) -> Mix {
    let m = Mix { crashes: 50, power: 40, outages: 40, net: 40, forget: 20, disk: 25, noise: 20, ops: 60, big: 2, blocks: (3, 8) };
    match prop {
        "B01" => Mix { ops: 80, ..m },
        "B02" => Mix { ops: 80, ..m },
        "B03" => Mix { crashes: 80, ops: 80, forget: 40, ..m },
        "B06" => Mix { crashes: 95, power: 55, disk: 70, outages: 10, net: 10, ..m },
        "B07" => Mix { crashes: 60, noise: 40, ops: 30, blocks: (4, 14), ..m },
        "B08" => Mix { crashes: 30, power: 0, outages: 0, net: 0, forget: 0, disk: 0, noise: 100, big: 4, ..m },
        "B09" => Mix { crashes: 0, outages: 80, net: 70, disk: 0, noise: 5, ..m },
        "B10" => Mix { crashes: 90, power: 90, disk: 40, ..m },
        "B11" => Mix { crashes: 80, forget: 50, ops: 25, blocks: (2, 5), ..m },
        "B12" => Mix { crashes: 15, outages: 10, net: 10, disk: 5, noise: 50, big: 30, blocks: (2, 5), ..m },
        "B13" => Mix { crashes: 40, net: 60, ops: 95, forget: 40, ..m },
        _ => m,
    }
}

const SEC: u64 = 1000;

pub fn gen(prop: &str, seed: u64, index: u64, tier: Tier) -> Plan {
    let mut r = Rng::new(mix(mix(seed, simcore::rng::fnv(prop.as_bytes())), index));
    let m = profile(prop);
    let deep = tier == Tier::Thorough;
    let net = *r.pick(&["regtest", "testnet", "testnet", "signet", "bitcoin"]);
    let network: Network = net.parse().unwrap();
    let users = r.range(1, 4);
    // far more operations than usual, many of them at the same time
    let long = r.chance(1, if deep { 5 } else { 24 });
    // somebody who withdraws more than 32 bits of satoshis
    let rich = r.chance(1, 8);
    let mut balances: Vec<u64> = (0..users).map(|_| r.range(200_000, 30_000_000) * if long { 3 } else { 1 }).collect();
    if rich {
        balances[0] = r.range(4_300_000_000, 900_000_000_000);
    }
    // what is still unspent of each balance, so that every request is affordable
    let mut left = balances.clone();
    let extra = r.below(5);
    let mut p = Plan {
        seed: r.next() >> 1,
        sched: if r.chance(1, 4) { 0 } else { r.next() >> 1 },
        net: net.into(),
        strict: r.chance(1, 2),
        who: r.below(3),
        contract: r.pick(&["asset", "asset", "sbtc-token", "a", "Asset_v2-testing-with-a-long-name-0123"]).to_string(),
        api_key: r.chance(1, 4),
        base: *r.pick(&[17u64, 100, 127, 128, 255, 300, 32767, 65535, 800_000]) + extra,
        sbase: r.range(1, 120_000),
        history: vec![],
        blocks: vec![],
        tail: 14,
        tail_gap: r.range(60, 150) * SEC,
        coins: vec![],
        balances,
        btc_lag: if r.chance(1, 4) { r.below(20 * SEC) } else { 0 },
        electrum_lag: if r.chance(1, 4) { r.below(20 * SEC) } else { r.below(SEC) },
        stacks_lag: if r.chance(1, 4) { r.below(15 * SEC) } else { 0 },
        fee: r.range(1, 5),
        inclusion: if r.chance(1, 3) { r.range(1, 600) * SEC } else { 0 },
        latency: *r.pick(&[20, 100, 100, 300]),
        rates: BTreeMap::new(),
        explicit: None,
        outages: vec![],
        spell: 0,
        crashes: vec![],
        disk_cap: None,
        quiet: 0,
    };
    let pct = |r: &mut Rng, n: u64| r.chance(n, 100);
    let mut now = 0;
    let nh = if r.chance(1, 2) { r.range(1, 4) } else { 0 };
    let nb = if long { r.range(5, 16) } else { r.range(m.blocks.0, m.blocks.1 + if deep { 6 } else { 0 }) };
    let style = r.below(4);
    let mut need = 0u64;
    let mut huge = false;
    let mut times = vec![];
    let mut before: Vec<TxPlan> = vec![];
    for i in 0..nh + nb {
        let hist = i < nh;
        let mut txs: Vec<TxPlan> = vec![];
        let mut lone = false;
        let most = match r.chance(1, 6) {
            true if long => 40,
            false if long => 10,
            true => 8,
            false => 3,
        };
        let n_ops = if pct(&mut r, m.ops) { r.range(1, most) } else { 0 };
        for _ in 0..n_ops {
            if r.chance(1, 2) {
                let amount = match r.below(8) {
                    0 => r.range(330, 1000),
                    // the token's supply is bounded
                    2 if !huge && r.chance(1, 6) => {
                        huge = true;
                        r.range(20_000_000_000, 2_000_000_000_000_000)
                    }
                    1 => r.range(1_000_000_000, 20_000_000_000),
                    2 | 3 => 100_000,
                    _ => r.range(1_000, 50_000_000),
                };
                let to = if r.chance(1, 4) {
                    p.user_account(r.below(users) as u8)
                } else {
                    gen_account(&mut r, network)
                };
                let form = if pct(&mut r, 4 + m.noise / 2) { r.range(1, 4) as u8 } else { 0 };
                txs.push(TxPlan::Deposit { to, amount, form });
            } else {
                let user = r.below(users) as u8;
                // the same once more
                let here = txs.len();
                let same = txs.iter().rev().chain(before.iter().rev()).enumerate().find_map(|(i, t)| match t {
                    TxPlan::Request { user, amount, payee, form: 0, .. } if left[*user as usize] >= *amount && *amount >= 700 => Some((*user, *amount, *payee, i >= here)),
                    _ => None,
                });
                if let Some((user, amount, payee, earlier)) = same.filter(|_| r.chance(1, 3)) {
                    lone |= earlier;
                    left[user as usize] -= amount;
                    need += amount + 3_000;
                    txs.push(TxPlan::Request { user, amount, payee, dust: r.range(546, 2_000), fee: r.range(1_000, 20_000), form: 0 });
                    continue;
                }
                if pct(&mut r, m.noise / 2) {
                    // nobody has that much, or it is too little to be paid out
                    let room = &mut left[user as usize];
                    let amount = if *room < 1_000 || r.chance(1, 2) { (1 << 56) + r.below(1 << 56) } else { r.range(1, 293) };
                    if amount < 1_000 {
                        *room -= amount;
                    }
                    let dust = r.range(546, 2_000);
                    txs.push(TxPlan::Request { user, amount, payee: r.below(30) as u8, dust, fee: 2_000, form: 0 });
                    continue;
                }
                let room = left[user as usize];
                if room < 2_000 {
                    continue;
                }
                let amount = match r.below(5) {
                    0 => 1_000,
                    1 if room < 20_000_000 && !long => room,
                    1 | 2 if room > 1 << 33 => r.range(1 << 32, room),
                    _ => r.range(700, room.min(if long { 400_000 } else { 5_000_000 })),
                };
                left[user as usize] -= amount;
                need += amount + 3_000;
                let form = if pct(&mut r, 4 + m.noise / 2) { r.range(1, 4) as u8 } else { 0 };
                txs.push(TxPlan::Request {
                    user,
                    amount,
                    payee: r.below(30) as u8,
                    dust: r.range(546, 2_000),
                    fee: r.range(1_000, 20_000),
                    form,
                });
            }
        }
        if pct(&mut r, m.noise) {
            for _ in 0..r.range(1, 6) {
                txs.push(TxPlan::Noise { kind: r.below(30) as u8, seed: r.next() >> 1 });
            }
            r.shuffle(&mut txs);
        }
        let gap = match style {
            0 => r.range(40, 120) * SEC,
            1 => r.range(120, 600) * SEC,
            2 if r.chance(1, 2) => r.range(500, 3_000),
            _ => r.range(20, 300) * SEC,
        };
        now += if hist { 0 } else { gap };
        times.push(now);
        let fill = if pct(&mut r, m.big) && r.chance(1, 3) {
            if deep && r.chance(1, 5) { r.range(3000, 16_000) as u32 } else if deep { r.range(300, 3000) as u32 } else { r.range(200, 1200) as u32 }
        } else if pct(&mut r, m.big * 3) {
            r.range(7, 70) as u32
        } else {
            r.below(6) as u32
        };
        // Both may then be paid under the same Stacks block.
        let stacks = if lone && r.chance(2, 3) || r.chance(1, 8) && style != 0 {
            None
        } else {
            let noise = if pct(&mut r, m.noise) { (0..r.below(4)).map(|_| r.next() >> 1).collect() } else { vec![] };
            Some(SPlan { after: r.below(gap * 9 / 10).max(1), noise })
        };
        before = txs.clone();
        let b = BlockPlan { coin: 0, gap, txs, fill, mine: *r.pick(&[1, 1, 1, 2, 0]), stacks };
        if hist {
            p.history.push(b)
        } else {
            p.blocks.push(b)
        }
    }
    // enough coins for every payout
    // one payout per coin and block
    let requests = p.history.iter().chain(&p.blocks).flat_map(|b| &b.txs).filter(|t| matches!(t, TxPlan::Request { .. })).count() as u64;
    p.tail += requests.saturating_sub(8);
    let k = r.range(1, 6);
    let late = r.chance(1, 4);
    for i in 0..k {
        let coin = need / k + r.range(20_000, 5_000_000);
        if late && i > 0 {
            let n = p.blocks.len();
            p.blocks[r.idx(n)].coin += coin;
        } else {
            p.coins.push(coin);
        }
    }
    if r.chance(1, 3) {
        p.coins.push(r.range(330, 2_000));
    }
    p.quiet = now + 20 * SEC;

    // faults
    let on = |r: &mut Rng, n: u64| r.chance(n, 100);
    if on(&mut r, m.net) {
        if r.chance(2, 3) {
            p.spell = r.range(5, 200) * SEC;
        }
        let scale = *r.pick(&[300u32, 1_500, 5_000, 15_000]);
        for c in [
            "net.bitcoind.request",
            "net.bitcoind.reply",
            "net.bitcoind.connect",
            "bitcoind.busy",
            "bitcoind.slow",
            "net.electrum.request",
            "net.electrum.reply",
            "net.electrum.connect",
            "net.stacks.request",
            "net.stacks.reply",
            "stacks.busy",
            "stacks.gateway",
        ] {
            if r.chance(1, 3) {
                p.rates.insert(c.into(), scale);
            }
        }
        for c in ["net.short_read", "net.short_write"] {
            if r.chance(1, 4) {
                p.rates.insert(c.into(), 10_000);
            }
        }
    }
    if r.chance(1, 3) {
        p.rates.insert("stacks.late".into(), 50_000);
    }
    if r.chance(1, 4) {
        p.rates.insert("stacks.unlisted".into(), *r.pick(&[30_000u32, 300_000]));
    }
    if on(&mut r, m.forget) {
        p.rates.insert("stacks.drop".into(), *r.pick(&[5_000u32, 20_000, 60_000]));
    }
    // A strict bridge stops at a payout that the nodes forget.
    if on(&mut r, m.forget) && !p.strict {
        p.rates.insert("bitcoind.evict".into(), *r.pick(&[10_000u32, 30_000, 70_000]));
    }
    if on(&mut r, m.disk) {
        for c in ["disk.write", "disk.sync", "disk.open", "disk.read", "disk.truncate"] {
            if r.chance(1, 2) {
                p.rates.insert(c.into(), *r.pick(&[1_000u32, 4_000, 12_000]));
            }
        }
        if r.chance(1, 3) {
            p.rates.insert("disk.slow".into(), *r.pick(&[1_000u32, 10_000, 30_000]));
        }
        if r.chance(1, 4) {
            p.disk_cap = Some(r.range(50, 20_000));
        }
    }
    if on(&mut r, m.outages) {
        for s in ["bitcoind", "stacks", "electrum"] {
            if !r.chance(1, 2) {
                continue;
            }
            let mut at = r.below(now * 2 / 3 + 1);
            if r.chance(1, 3) {
                // while a new block is being handled
                at = *r.pick(&times) + r.below(9 * SEC);
            }
            for _ in 0..r.range(1, 2) {
                let kind = match s {
                    "bitcoind" => *r.pick(&["down", "hang", "warmup", "503"]),
                    "stacks" => *r.pick(&["down", "hang", "503", "502", "504", "429", "522"]),
                    _ => *r.pick(&["down", "hang"]),
                };
                let len = match r.below(3) {
                    0 => r.range(1, 10) * SEC,
                    1 => r.range(10, 60) * SEC,
                    _ => r.range(60, 300) * SEC,
                };
                let to = (at + len).min(p.quiet);
                if to > at {
                    p.outages.push(OutagePlan { service: s.into(), from: at, to, kind: kind.into() });
                }
                at = to + r.range(30, 200) * SEC;
            }
        }
    }
    if on(&mut r, m.crashes) {
        for _ in 0..r.range(1, if deep { 5 } else { 3 }) {
            let power = on(&mut r, m.power);
            let down = match r.below(3) {
                0 => r.range(1, 2_000),
                1 => r.range(2, 60) * SEC,
                _ => r.range(60, 400) * SEC,
            };
            let accepts = matches!(prop, "B03" | "B06" | "B10" | "B13");
            let (point, nth) = match r.below(if accepts { 14 } else { 11 }) {
                10 | 11 => ("bitcoind.accepted", r.range(1, 5)),
                12 | 13 => ("stacks.accepted", r.range(1, 16)),
                0..=3 => ("time", r.below(now * 1000 + 1)),
                4 => ("net.http", r.range(1, 120)),
                5 => ("poll", r.range(1, 900)),
                6 => ("disk.write", r.range(1, 40)),
                _ => {
                    let max = if r.chance(1, 3) { 200 } else { 3_000 };
                    ("*", r.range(1, max))
                }
            };
            p.crashes.push(CrashPlan { point: point.into(), nth, power, down });
        }
    }
    if r.chance(1, 3) {
        p.rates.insert("stacks.stale".into(), *r.pick(&[10_000u32, 50_000, 90_000]));
    }
    p
}
