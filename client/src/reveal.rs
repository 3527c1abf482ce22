//! T05: parties racing for funds sent to a commit-reveal commitment.
use std::{cell::RefCell, rc::Rc};

use bdk::bitcoin::{
    consensus::serialize,
    hashes::{sha256, Hash, HashEngine},
    secp256k1::{ecdsa::{RecoverableSignature, RecoveryId}, Scalar, SecretKey, XOnlyPublicKey},
    Address, Amount, Network, OutPoint, Script, Transaction, TxOut, Witness,
};
use sbtc_core::operations::commit_reveal::{
    deposit::{deposit_commit_address, deposit_reveal_unsigned_tx, DepositData},
    utils::RevealInputs,
    withdrawal_request::{
        withdrawal_request_commit_address, withdrawal_request_reveal_unsigned_tx, WithdrawalData,
    },
};
use serde::{Deserialize, Serialize};
use simcore::{
    driver::{Outcome, Scenario, Tier},
    fnv, mix, panics, Rng,
};
use simrt::{Config, FaultAt, Sim, SEC};
use simworld::{
    btc::Btc,
    ops::{Account, SECP},
    wallet::{sign_p2tr, tapscript_sig, unsigned},
};
use stacks_core::utils::PrincipalData;

use crate::plan::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Payload {
    Deposit { to: Account, reveal_fee: u64 },
    Withdrawal { amount: u64, sig: String, reveal_fee: u64, fulfillment_fee: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    /// The reveal transaction, signed by the revealer.
    Reveal,
    /// The reveal transaction, signed by somebody else.
    RevealBadKey,
    /// The reveal transaction without a signature / with an empty one.
    RevealUnsigned,
    RevealEmptySig,
    /// Signed properly, then an output is changed.
    RevealAltered,
    /// The revealer reveals another payload.
    RevealOtherPayload,
    /// The reveal of a commitment with another reclaimer.
    RevealOtherReclaim,
    /// Through the reclaim leaf.
    Reclaim,
    ReclaimBadKey,
    /// The revealer's key on the reclaim leaf and the other way round.
    ReclaimByRevealer,
    RevealByReclaimer,
    /// Key path, with the keys anybody has.
    KeyPathRevealer,
    KeyPathReclaimer,
    KeyPathAttacker,
    /// A leaf that is not part of the commitment.
    ForeignLeaf,
}

const ACTS: [Act; 15] = [
    Act::Reveal,
    Act::RevealBadKey,
    Act::RevealUnsigned,
    Act::RevealEmptySig,
    Act::RevealAltered,
    Act::RevealOtherPayload,
    Act::RevealOtherReclaim,
    Act::Reclaim,
    Act::ReclaimBadKey,
    Act::ReclaimByRevealer,
    Act::RevealByReclaimer,
    Act::KeyPathRevealer,
    Act::KeyPathReclaimer,
    Act::KeyPathAttacker,
    Act::ForeignLeaf,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub at: u64,
    pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    pub payload: Payload,
    pub other: Payload,
    pub surplus: u64,
    pub lean: Option<u64>,
    pub magic: String,
    pub wallet: Addr,
    pub recipient: Addr,
    pub steps: Vec<Step>,
    /// Which commitment output of the funding transaction.
    pub vout: u32,
    pub fund_at: u64,
    pub mine_every: u64,
    pub rates: std::collections::BTreeMap<String, u32>,
    pub explicit: Option<Vec<(String, u64, u64)>>,
    /// Revealer and reclaimer are the same party.
    pub same_party: bool,
}

pub struct Reveal;

fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    let t = sha256::Hash::hash(tag.as_bytes());
    let mut e = sha256::Hash::engine();
    e.input(&t[..]);
    e.input(&t[..]);
    for p in parts {
        e.input(p);
    }
    sha256::Hash::from_engine(e).into_inner()
}

fn compact(n: usize) -> Vec<u8> {
    match n {
        0..=252 => vec![n as u8],
        _ => [&[0xfd][..], &(n as u16).to_le_bytes()].concat(),
    }
}

fn leaf_hash(script: &Script) -> [u8; 32] {
    tagged("TapLeaf", &[&[0xc0], &compact(script.len()), script.as_bytes()])
}

fn push(data: &[u8]) -> Vec<u8> {
    let mut v = match data.len() {
        n @ 0..=75 => vec![n as u8],
        n @ 76..=255 => vec![0x4c, n as u8],
        n => vec![0x4d, n as u8, (n >> 8) as u8],
    };
    v.extend_from_slice(data);
    v
}

const NUMS: &str = "50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0";

/// The commitment as documented: an unspendable internal key and two leaves.
struct Tree {
    reveal: Script,
    reclaim: Script,
    internal: XOnlyPublicKey,
    output: XOnlyPublicKey,
    odd: bool,
}

impl Tree {
    fn new(data: &[u8], revealer: &XOnlyPublicKey, reclaimer: &XOnlyPublicKey) -> Tree {
        let reveal = Script::from(
            [push(data), vec![0x75], push(&revealer.serialize()), vec![0xac]].concat(),
        );
        let reclaim = Script::from([push(&reclaimer.serialize()), vec![0xac]].concat());
        let (a, b) = (leaf_hash(&reveal), leaf_hash(&reclaim));
        let root = if a < b { tagged("TapBranch", &[&a, &b]) } else { tagged("TapBranch", &[&b, &a]) };
        let internal = XOnlyPublicKey::from_slice(&hex::decode(NUMS).unwrap()).unwrap();
        let t = tagged("TapTweak", &[&internal.serialize(), &root]);
        let (output, parity) =
            SECP.with(|s| internal.add_tweak(s, &Scalar::from_be_bytes(t).unwrap()).unwrap());
        Tree { reveal, reclaim, internal, output, odd: parity == bdk::bitcoin::secp256k1::Parity::Odd }
    }
    fn script(&self) -> Script {
        Script::from([vec![0x51, 0x20], self.output.serialize().to_vec()].concat())
    }
    fn control(&self, of_reveal: bool) -> Vec<u8> {
        let sibling = leaf_hash(if of_reveal { &self.reclaim } else { &self.reveal });
        [vec![0xc0 | self.odd as u8], self.internal.serialize().to_vec(), sibling.to_vec()].concat()
    }
}

impl Payload {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Payload::Deposit { to, reveal_fee } => {
                [vec![b'<'], to.bytes(), reveal_fee.to_be_bytes().to_vec()].concat()
            }
            Payload::Withdrawal { amount, sig, reveal_fee, .. } => [
                vec![b'>'],
                amount.to_be_bytes().to_vec(),
                hex::decode(sig).unwrap(),
                reveal_fee.to_be_bytes().to_vec(),
            ]
            .concat(),
        }
    }
    fn reveal_fee(&self) -> u64 {
        match self {
            Payload::Deposit { reveal_fee, .. } | Payload::Withdrawal { reveal_fee, .. } => *reveal_fee,
        }
    }
    fn deposit(&self) -> DepositData {
        let Payload::Deposit { to, reveal_fee } = self else { unreachable!() };
        DepositData {
            principal: PrincipalData::try_from(to.text()).expect("recipient text"),
            reveal_fee: Amount::from_sat(*reveal_fee),
        }
    }
    fn withdrawal(&self) -> WithdrawalData {
        let Payload::Withdrawal { amount, sig, reveal_fee, .. } = self else { unreachable!() };
        let b = hex::decode(sig).unwrap();
        WithdrawalData {
            amount: Amount::from_sat(*amount),
            signature: RecoverableSignature::from_compact(
                &b[1..],
                RecoveryId::from_i32(b[0] as i32).unwrap(),
            )
            .unwrap(),
            reveal_fee: Amount::from_sat(*reveal_fee),
        }
    }
    /// The code under test.
    fn address(&self, rv: &XOnlyPublicKey, rc: &XOnlyPublicKey) -> Result<Address, String> {
        match self {
            Payload::Deposit { .. } => deposit_commit_address(self.deposit(), rv, rc),
            Payload::Withdrawal { .. } => withdrawal_request_commit_address(self.withdrawal(), rv, rc),
        }
        .map_err(|e| e.to_string())
    }
    fn reveal(&self, i: RevealInputs, total: u64, wallet: Address, recipient: Address) -> Result<Transaction, String> {
        match self {
            Payload::Deposit { .. } => {
                deposit_reveal_unsigned_tx(self.deposit(), i, Amount::from_sat(total), wallet)
            }
            Payload::Withdrawal { fulfillment_fee, .. } => withdrawal_request_reveal_unsigned_tx(
                self.withdrawal(),
                i,
                Amount::from_sat(*fulfillment_fee),
                Amount::from_sat(total),
                wallet,
                recipient,
            ),
        }
        .map_err(|e| e.to_string())
    }
}

fn gen_payload(r: &mut Rng, deposit: bool) -> Payload {
    let reveal_fee = match r.below(4) {
        0 => r.range(360, 400),
        1 => r.range(400, 5_000),
        2 => match r.below(4) {
            0 => r.range(1 << 32, 1 << 40),
            1 => r.range((1 << 31) - 2, (1 << 32) + 500),
            _ => r.range(5_000, 1_000_000),
        },
        _ => r.range(360, 600),
    };
    if deposit {
        Payload::Deposit { to: gen_account(r), reveal_fee }
    } else {
        let mut b = r.bytes(65);
        b[0] %= 4;
        // r and s below the order.
        b[1] = b[1].min(0xfe);
        b[33] = b[33].min(0x7e);
        Payload::Withdrawal {
            amount: if r.chance(1, 5) { *r.pick(&[0, 1, u64::MAX, 1 << 32]) } else { r.next() >> r.below(64) },
            sig: hex::encode(b),
            reveal_fee,
            fulfillment_fee: if r.chance(1, 8) { r.range(1 << 31, 1 << 35) } else { r.range(600, 100_000) },
        }
    }
}

struct Env {
    p: Plan,
    btc: RefCell<Btc>,
    tree: Tree,
    rv: SecretKey,
    rc: SecretKey,
    other: SecretKey,
    coin: RefCell<Option<(OutPoint, TxOut)>>,
    wallet: Address,
    recipient: Address,
    out: RefCell<Outcome>,
    accepted: RefCell<Vec<Act>>,
}

impl Env {
    fn xonly(&self, k: &SecretKey) -> XOnlyPublicKey {
        SECP.with(|s| k.x_only_public_key(s).0)
    }

    fn legit(&self, a: Act) -> bool {
        match a {
            Act::Reveal | Act::Reclaim => true,
            Act::ReclaimByRevealer | Act::RevealByReclaimer => self.p.same_party,
            Act::RevealOtherPayload => self.p.other.bytes() == self.p.payload.bytes(),
            _ => false,
        }
    }

    fn build_reveal(&self, payload: &Payload, rv: &XOnlyPublicKey, rc: &XOnlyPublicKey) -> Option<Transaction> {
        let coin = self.coin.borrow().clone()?;
        // Nobody asks to leave more fees than there is.
        let asked = payload.reveal_fee()
            + match payload {
                Payload::Withdrawal { fulfillment_fee, .. } => *fulfillment_fee,
                _ => 0,
            };
        if asked > coin.1.value {
            return None;
        }
        let magic: [u8; 2] = hex::decode(&self.p.magic).unwrap().try_into().unwrap();
        let r = panics::guard(|| {
            payload.reveal(
                RevealInputs {
                    commit_output: coin.0,
                    stacks_magic_bytes: &magic,
                    revealer_key: rv,
                    reclaim_key: rc,
                },
                coin.1.value,
                self.wallet.clone(),
                self.recipient.clone(),
            )
        });
        match r {
            Ok(Ok(t)) => Some(t),
            x => {
                self.out.borrow_mut().violate("T05", "reveal-not-built", format!("{x:?}"));
                None
            }
        }
    }

    fn attempt(&self, a: Act) -> Option<Transaction> {
        let (rv, rc) = (self.xonly(&self.rv), self.xonly(&self.rc));
        let coin = self.coin.borrow().clone()?;
        let prev = vec![coin.1.clone()];
        let sign_reveal = |mut t: Transaction, k: &SecretKey| {
            let w = t.input[0].witness.to_vec();
            let script = Script::from(w.first().cloned().unwrap_or_default());
            let sig = tapscript_sig(&t, 0, &prev, &script, k);
            t.input[0].witness = Witness::from_vec([vec![sig], w].concat());
            t
        };
        let take_back = |leaf: &Script, control: Vec<u8>, k: &SecretKey| {
            let mut t = unsigned(
                &[coin.0],
                vec![TxOut { value: coin.1.value.saturating_sub(200), script_pubkey: self.recipient.script_pubkey() }],
            );
            let sig = tapscript_sig(&t, 0, &prev, leaf, k);
            t.input[0].witness = Witness::from_vec(vec![sig, leaf.to_bytes(), control]);
            t
        };
        let key_path = |k: &SecretKey| {
            let mut t = unsigned(
                &[coin.0],
                vec![TxOut { value: coin.1.value.saturating_sub(200), script_pubkey: self.recipient.script_pubkey() }],
            );
            sign_p2tr(&mut t, 0, &prev, k);
            t
        };
        Some(match a {
            Act::Reveal => {
                let t = self.build_reveal(&self.p.payload, &rv, &rc)?;
                self.check_reveal(&t, &coin);
                sign_reveal(t, &self.rv)
            }
            Act::RevealBadKey => sign_reveal(self.build_reveal(&self.p.payload, &rv, &rc)?, &self.other),
            Act::RevealByReclaimer => sign_reveal(self.build_reveal(&self.p.payload, &rv, &rc)?, &self.rc),
            Act::RevealUnsigned => self.build_reveal(&self.p.payload, &rv, &rc)?,
            Act::RevealEmptySig => {
                let mut t = self.build_reveal(&self.p.payload, &rv, &rc)?;
                t.input[0].witness = Witness::from_vec([vec![vec![]], t.input[0].witness.to_vec()].concat());
                t
            }
            Act::RevealAltered => {
                let mut t = sign_reveal(self.build_reveal(&self.p.payload, &rv, &rc)?, &self.rv);
                let last = t.output.len() - 1;
                t.output[last].script_pubkey = Script::from([vec![0, 20], vec![0x42; 20]].concat());
                t
            }
            Act::RevealOtherPayload => sign_reveal(self.build_reveal(&self.p.other, &rv, &rc)?, &self.rv),
            Act::RevealOtherReclaim => {
                let o = self.xonly(&self.other);
                sign_reveal(self.build_reveal(&self.p.payload, &rv, &o)?, &self.rv)
            }
            Act::Reclaim => take_back(&self.tree.reclaim, self.tree.control(false), &self.rc),
            Act::ReclaimBadKey => take_back(&self.tree.reclaim, self.tree.control(false), &self.other),
            Act::ReclaimByRevealer => take_back(&self.tree.reclaim, self.tree.control(false), &self.rv),
            Act::KeyPathRevealer => key_path(&self.rv),
            Act::KeyPathReclaimer => key_path(&self.rc),
            Act::KeyPathAttacker => key_path(&self.other),
            Act::ForeignLeaf => {
                let o = self.xonly(&self.other);
                let leaf = Script::from([push(&o.serialize()), vec![0xac]].concat());
                take_back(&leaf, self.tree.control(false), &self.other)
            }
        })
    }

    /// The unsigned reveal transaction says and pays what it should.
    fn check_reveal(&self, t: &Transaction, coin: &(OutPoint, TxOut)) {
        let mut o = self.out.borrow_mut();
        let magic = hex::decode(&self.p.magic).unwrap();
        let mut want = vec![TxOut {
            value: 0,
            script_pubkey: Script::from([vec![0x6a, 3], magic, vec![b'w']].concat()),
        }];
        let left = coin.1.value - self.p.payload.reveal_fee();
        match &self.p.payload {
            Payload::Deposit { .. } => {
                want.push(TxOut { value: left, script_pubkey: self.wallet.script_pubkey() })
            }
            Payload::Withdrawal { fulfillment_fee, .. } => {
                want.push(TxOut { value: left - fulfillment_fee, script_pubkey: self.recipient.script_pubkey() });
                want.push(TxOut { value: *fulfillment_fee, script_pubkey: self.wallet.script_pubkey() });
            }
        }
        if t.output != want {
            o.violate("T05", "reveal-outputs", format!("{:?} instead of {want:?}", t.output));
        }
        if t.input.len() != 1 || t.input[0].previous_output != coin.0 {
            o.violate("T05", "reveal-input", format!("{:?}", t.input));
        }
        let w = t.input[0].witness.to_vec();
        if w.first().map(|s| s.as_slice()) != Some(self.tree.reveal.as_bytes()) {
            o.violate(
                "T05",
                "reveal-payload",
                format!("discloses {:?} instead of {}", w.first().map(hex::encode), hex::encode(self.tree.reveal.as_bytes())),
            );
        }
    }
}

impl Scenario for Reveal {
    type Plan = Plan;
    fn gen(&self, seed: u64, _i: u64, _t: Tier) -> Plan {
        let mut r = Rng::new(seed);
        let dep = r.chance(1, 2);
        let payload = gen_payload(&mut r, dep);
        let other = if r.chance(1, 2) {
            // Almost the same payload.
            let mut o = payload.clone();
            match &mut o {
                Payload::Deposit { to, reveal_fee } => {
                    if r.chance(1, 2) {
                        *reveal_fee += 1;
                    } else if r.chance(1, 2) {
                        to.hash[r.idx(20)] ^= 1;
                    } else {
                        to.contract = Some("x".into());
                    }
                }
                Payload::Withdrawal { amount, reveal_fee, .. } => {
                    if r.chance(1, 2) {
                        *reveal_fee += 1;
                    } else {
                        *amount ^= 1;
                    }
                }
            }
            o
        } else {
            gen_payload(&mut r, dep)
        };
        let mut steps: Vec<Step> = (0..r.range(2, 12))
            .map(|_| Step { at: r.range(0, 4000), act: *r.pick(&ACTS) })
            .collect();
        // The rightful parties act at some point; often only one of them.
        if r.chance(2, 3) {
            steps.push(Step { at: r.range(0, 4000), act: Act::Reveal });
        }
        if r.chance(1, 3) {
            steps.push(Step { at: r.range(0, 4000), act: Act::Reclaim });
        }
        let net = "testnet";
        let mut rates = std::collections::BTreeMap::new();
        if r.chance(2, 3) {
            rates.insert("relay.lost".into(), 20_000);
            rates.insert("relay.twice".into(), 10_000);
            rates.insert("relay.late".into(), 20_000);
        }
        Plan {
            seed: r.next(),
            surplus: match r.below(4) {
                0 => 0,
                1 => r.below(100_000),
                _ => r.below(100_000_000),
            },
            lean: r.chance(1, 6).then(|| r.below(1200)),
            payload,
            other,
            magic: hex::encode(r.pick(&[*b"X2", *b"T2", *b"id", *b"\x00\xff"])),
            wallet: Addr::gen(&mut r, net),
            recipient: Addr::gen(&mut r, net),
            steps,
            vout: r.below(3) as u32,
            fund_at: r.below(1000),
            mine_every: r.range(50, 1500),
            rates,
            explicit: None,
            same_party: r.chance(1, 12),
        }
    }

    fn run(&self, p: &Plan) -> Outcome {
        run(p).0
    }

    fn concretise(&self, p: &Plan) -> Plan {
        let mut q = p.clone();
        if q.explicit.is_none() {
            let p2 = p.clone();
            let fired = std::thread::spawn(move || run(&p2).1).join().unwrap_or_default();
            q.explicit = Some(fired);
        }
        q
    }

    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        for i in 0..p.steps.len() {
            let mut q = p.clone();
            q.steps.remove(i);
            out.push(q);
        }
        if let Some(e) = &p.explicit {
            for i in 0..e.len() {
                let mut q = p.clone();
                q.explicit.as_mut().unwrap().remove(i);
                out.push(q);
            }
        } else if !p.rates.is_empty() {
            let mut q = p.clone();
            q.rates.clear();
            out.push(q);
        }
        if p.surplus > 0 {
            let mut q = p.clone();
            q.surplus = 0;
            out.push(q);
        }
        out
    }

    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 40_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn rule(&self) -> String {
        "each run funds a commitment on a simulated chain and lets revealer, reclaimer and attackers race for it with transactions that are lost, delayed or duplicated on the way; a node with its own script verification decides; the commitment is also compared with an independent taproot construction; non-trivial: the coin was funded and at least one attempt was decided".into()
    }
    fn state_measure(&self) -> String {
        "distinct sequences of (attempt, verdict)".into()
    }
    fn real_components(&self) -> Vec<String> {
        vec!["sbtc-core commit_reveal (addresses, reveal transactions)".into(), "stacks-core principals and codec".into()]
    }
    fn stub_components(&self) -> Vec<String> {
        vec!["Bitcoin node, relay network, signers of all parties (simworld)".into()]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the internal key has no known discrete logarithm (BIP-341)".into(),
            "the committed amount covers the fees the reveal is asked to leave (smaller amounts panic in Amount subtraction)".into(),
        ]
    }
}

fn run(p: &Plan) -> (Outcome, Vec<(String, u64, u64)>) {
    let rv = key_of(p.seed, "revealer");
    let rc = if p.same_party { rv } else { key_of(p.seed, "reclaimer") };
    let (xrv, xrc) = SECP.with(|s| (rv.x_only_public_key(s).0, rc.x_only_public_key(s).0));
    let tree = Tree::new(&p.payload.bytes(), &xrv, &xrc);
    let sim = Sim::new(Config {
        seed: p.seed,
        sched: 0,
        rates: p.rates.clone(),
        explicit: p.explicit.as_ref().map(|l| {
            l.iter().map(|(c, i, a)| FaultAt { class: c.clone(), idx: *i, arg: *a }).collect()
        }),
        outages: vec![],
        spell: 0,
        crashes: vec![],
        quiet: u64::MAX,
        max_time: 1000 * SEC,
        max_steps: 100_000,
        keep_log: true,
        latency: 100,
    });
    sim.install();
    let e = Rc::new(Env {
        p: p.clone(),
        btc: RefCell::new(Btc::new(Network::Testnet, 500)),
        wallet: p.wallet.address(&Script::new(), None),
        recipient: p.recipient.address(&Script::new(), None),
        tree,
        rv,
        rc,
        other: key_of(p.seed, "attacker"),
        coin: RefCell::new(None),
        out: RefCell::new(Outcome::default()),
        accepted: RefCell::new(vec![]),
    });
    e.btc.borrow_mut().mine(&[], vec![], vec![], 0);
    // Where the funds go, according to the code under test.
    match panics::guard(|| p.payload.address(&xrv, &xrc)) {
        Ok(Ok(a)) => {
            if a.script_pubkey() != e.tree.script() {
                e.out.borrow_mut().violate(
                    "T05",
                    "commitment",
                    format!("address {a} is not the commitment {}", hex::encode(e.tree.script().as_bytes())),
                );
            }
            let dust = |a: &Address| a.script_pubkey().dust_value().to_sat();
            let extra = match &p.payload {
                Payload::Deposit { .. } => dust(&e.wallet),
                Payload::Withdrawal { fulfillment_fee, .. } => dust(&e.recipient) + fulfillment_fee,
            };
            // A lean commitment covers the fees it has to and hardly more.
            let total = match (&p.payload, p.lean) {
                (Payload::Withdrawal { fulfillment_fee, .. }, Some(n)) => p.payload.reveal_fee() + fulfillment_fee + n,
                (_, Some(n)) => p.payload.reveal_fee() + n,
                _ => p.payload.reveal_fee() + extra + p.surplus + 400,
            };
            let (e2, spk, vout) = (e.clone(), a.script_pubkey(), p.vout);
            sim.at(p.fund_at * 1000, move |sim| {
                let mut b = e2.btc.borrow_mut();
                let mut t = b.faucet_tx(&spk, total);
                let filler = TxOut { value: 1000, script_pubkey: Script::from([vec![0, 20], vec![9; 20]].concat()) };
                for _ in 0..vout {
                    t.output.insert(0, filler.clone());
                }
                b.inject(&t, sim.now());
                sim.ev(format_args!("funded {}:{vout} with {total}", t.txid()));
                *e2.coin.borrow_mut() = Some((OutPoint::new(t.txid(), vout), t.output[vout as usize].clone()));
            });
        }
        x => e.out.borrow_mut().violate("T05", "no-commitment", format!("{x:?}")),
    }
    for i in 1..=8u64 {
        let e2 = e.clone();
        sim.at(i * p.mine_every * 1000, move |sim| {
            let ids = e2.btc.borrow().mempool.clone();
            e2.btc.borrow_mut().mine(&ids, vec![], vec![], sim.now());
        });
    }
    for (n, s) in p.steps.iter().enumerate() {
        let (e2, act) = (e.clone(), s.act);
        sim.at((p.fund_at + s.at) * 1000 + n as u64, move |sim| {
            let Some(tx) = e2.attempt(act) else { return };
            send(sim, &e2, act, tx, 0);
        });
    }
    sim.run();
    let mut o = std::mem::take(&mut *e.out.borrow_mut());
    let acc = e.accepted.borrow().clone();
    if acc.len() > 1 {
        o.violate("T05", "spent-twice", format!("{acc:?}"));
    }
    o.nontrivial = o.probes.contains_key("decided");
    let states: String = o.log.join(";");
    o.states.push(fnv(states.as_bytes()));
    o.trace_hash = mix(sim.trace_hash(), sim.steps.get());
    o.sim_ms = sim.now() / 1000;
    o.steps = sim.steps.get();
    for (k, v) in sim.fault_counts.borrow().iter() {
        *o.faults.entry(k.clone()).or_default() += v;
    }
    let mut log = sim.log.borrow().clone();
    log.append(&mut o.log);
    o.log = log;
    let fired = sim.fired.borrow().iter().map(|f| (f.class.clone(), f.idx, f.arg)).collect();
    sim.teardown();
    (o, fired)
}

/// One transaction on its way to the node; its author resends what got lost.
fn send(sim: &Rc<Sim>, e: &Rc<Env>, act: Act, tx: Transaction, tries: u32) {
    let mut delay = sim.latency("relay.lat", 1_000, 300_000);
    if let Some(a) = sim.fault("relay.late") {
        delay += a * 3;
    }
    if tries < 5 && sim.fault("relay.lost").is_some() {
        let e = e.clone();
        sim.at(400_000, move |sim| send(sim, &e, act, tx, tries + 1));
        return;
    }
    if tries < 5 && sim.fault("relay.twice").is_some() {
        let (e2, tx2) = (e.clone(), tx.clone());
        sim.at(delay + 50_000, move |sim| arrive(sim, &e2, act, tx2));
    }
    let e = e.clone();
    sim.at(delay, move |sim| arrive(sim, &e, act, tx));
}

fn arrive(sim: &Rc<Sim>, e: &Rc<Env>, act: Act, tx: Transaction) {
    let seen = e.btc.borrow().txs.contains_key(&tx.txid());
    if seen {
        return;
    }
    let free = {
        let b = e.btc.borrow();
        let c = e.coin.borrow();
        c.as_ref().map_or(false, |c| !b.spent.contains_key(&c.0))
    };
    let r = e.btc.borrow_mut().submit(&tx, sim.now());
    sim.ev(format_args!("{act:?} {} -> {r:?}", tx.txid()));
    let mut o = e.out.borrow_mut();
    o.probe("decided");
    o.log.push(format!("{act:?} {}", r.is_ok()));
    match (&r, e.legit(act)) {
        (Ok(()), false) => o.violate(
            "T05",
            format!("stolen-{act:?}"),
            format!("{act:?} spends the commitment: {}", hex::encode(serialize(&tx))),
        ),
        (Ok(()), true) => {
            o.probe(&format!("{act:?}"));
            e.accepted.borrow_mut().push(act);
        }
        // No node relays outputs this small, which is up to the parameters.
        (Err(x), true) if e.p.lean.is_some() && (x == "dust" || x.starts_with("min relay")) => o.probe("too-lean"),
        (Err(x), true) if free => o.violate(
            "T05",
            format!("refused-{act:?}"),
            format!("{act:?} is refused: {x}: {}", hex::encode(serialize(&tx))),
        ),
        _ => {}
    }
}
