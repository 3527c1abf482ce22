//! Builds the world a wallet client talks to, and installs it before `main` in
//! an unmodified client executable when `SIM_CLI_PLAN` is set.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    rc::Rc,
    sync::atomic::{AtomicPtr, Ordering},
};

use bitcoin::{hashes::Hash, Network, OutPoint, Script, Transaction, TxOut};
use serde::{Deserialize, Serialize};
use simrt::{Config, FaultAt, Outage, Sim, SEC};
use simworld::{btc::Btc, electrum::Electrum};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Coin {
    /// 0: the wallet under test; anything else: somebody else.
    pub owner: u8,
    pub value: u64,
    /// When it appears on the network (ms); 0 means long ago and confirmed.
    pub at: u64,
    /// When it is mined (ms after `at`); None: stays unconfirmed.
    pub mined: Option<u64>,
    /// When it is spent elsewhere again (ms after `at`).
    pub spent: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultPlan {
    pub seed: u64,
    pub rates: BTreeMap<String, u32>,
    pub explicit: Option<Vec<(String, u64, u64)>>,
    /// (from ms, to ms, kind)
    pub outages: Vec<(u64, u64, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WorldPlan {
    pub network: String,
    pub addrs: Vec<String>,
    pub script: String,
    pub coins: Vec<Coin>,
    /// Electrum indexing delay (ms).
    pub lag: u64,
    /// BTC per 1000 vbytes; negative: unknown.
    pub fee: f64,
    pub base: u64,
    pub faults: FaultPlan,
    pub keep_log: bool,
}

impl WorldPlan {
    pub fn network(&self) -> Network {
        self.network.parse().unwrap()
    }
    pub fn script(&self) -> Script {
        Script::from(hex::decode(&self.script).unwrap())
    }
}

pub struct World {
    pub sim: Rc<Sim>,
    pub btc: Rc<RefCell<Btc>>,
    pub electrum: Rc<Electrum>,
}

fn other_script(n: u8) -> Script {
    let mut v = vec![0x00, 0x14];
    v.extend_from_slice(&[n; 20]);
    Script::from(v)
}

fn spend(tx: &Transaction, n: u64) -> Transaction {
    let mut t = tx.clone();
    t.input[0].previous_output = OutPoint::new(tx.txid(), 0);
    t.output = vec![TxOut {
        value: tx.output[0].value.saturating_sub(200 + n),
        script_pubkey: other_script(0x77),
    }];
    t
}

pub fn build(p: &WorldPlan) -> World {
    let sim = Sim::new(Config {
        seed: p.faults.seed,
        sched: 0,
        rates: p.faults.rates.clone(),
        explicit: p.faults.explicit.as_ref().map(|l| {
            l.iter()
                .map(|(c, i, a)| FaultAt { class: c.clone(), idx: *i, arg: *a })
                .collect()
        }),
        outages: p
            .faults
            .outages
            .iter()
            .map(|(f, t, k)| Outage {
                service: "electrum".into(),
                from: f * 1000,
                to: t * 1000,
                kind: k.clone(),
            })
            .collect(),
        crashes: vec![],
        spell: 0,
        quiet: u64::MAX,
        max_time: 100_000 * SEC,
        max_steps: 2_000_000,
        keep_log: p.keep_log,
        latency: 100,
    });
    let btc = Rc::new(RefCell::new(Btc::new(p.network(), p.base)));
    let script = p.script();
    let (mut early, mut later) = (vec![], vec![]);
    {
        let mut b = btc.borrow_mut();
        for _ in 0..3 {
            b.mine(&[], vec![], vec![], 0);
        }
        for (i, c) in p.coins.iter().enumerate() {
            let s = if c.owner == 0 { script.clone() } else { other_script(c.owner) };
            let tx = b.faucet_tx(&s, c.value);
            if c.at == 0 {
                early.push(tx.clone());
                if c.spent == Some(0) {
                    early.push(spend(&tx, i as u64));
                    continue;
                }
                if let Some(d) = c.spent {
                    later.push((d, spend(&tx, i as u64), Some(5_000)));
                }
            } else {
                later.push((c.at, tx.clone(), c.mined));
                if let Some(d) = c.spent {
                    later.push((c.at + d, spend(&tx, i as u64), c.mined.map(|m| m + 1)));
                }
            }
        }
        let half = early.len() / 2;
        let rest = early.split_off(half);
        b.mine(&[], early, vec![], 0);
        b.mine(&[], rest, vec![], 0);
        b.mine(&[], vec![], vec![], 0);
    }
    for (at, tx, mined) in later {
        let b2 = btc.clone();
        let t2 = tx.clone();
        // A client started later sees what is already there.
        sim.at(at.saturating_sub(1) * 1000, move |sim| {
            b2.borrow_mut().inject(&t2, sim.now());
        });
        if let Some(m) = mined {
            let b2 = btc.clone();
            sim.at((at + m) * 1000, move |sim| {
                let mut b = b2.borrow_mut();
                if b.mempool.contains(&tx.txid()) {
                    let now = sim.now();
                    b.mine(&[tx.txid()], vec![], vec![], now);
                }
            });
        }
    }
    let electrum = Rc::new(Electrum::new(btc.clone(), p.lag * 1000, p.fee));
    for a in &p.addrs {
        sim.net.register("electrum", a, electrum.clone());
    }
    World { sim, btc, electrum }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub trace_hash: u64,
    pub sim_us: u64,
    pub steps: u64,
    pub fired: Vec<(String, u64, u64)>,
    pub faults: BTreeMap<String, u64>,
    /// Broadcast attempts: raw transaction id, accepted.
    pub submitted: Vec<(String, bool)>,
    pub requests: u64,
    pub log: Vec<String>,
    /// Transactions served to the client, raw.
    pub reported: Vec<String>,
    /// Raw transactions of the chain and the time each was first seen (us).
    pub seen: Vec<(String, u64, bool)>,
}

impl World {
    pub fn report(&self) -> Report {
        let b = self.btc.borrow();
        Report {
            trace_hash: self.sim.trace_hash(),
            sim_us: self.sim.now(),
            steps: self.sim.steps.get(),
            fired: self
                .sim
                .fired
                .borrow()
                .iter()
                .map(|f| (f.class.clone(), f.idx, f.arg))
                .collect(),
            faults: self.sim.fault_counts.borrow().clone(),
            submitted: b.submitted.iter().map(|s| (s.1.to_string(), s.2.is_ok())).collect(),
            requests: *self.electrum.requests.borrow(),
            log: self.sim.log.borrow().clone(),
            reported: self
                .electrum
                .reported
                .borrow()
                .keys()
                .map(|k| hex::encode(simworld::btc::raw(&b.txs[k].tx)))
                .collect(),
            seen: b
                .txs
                .values()
                .map(|t| (hex::encode(simworld::btc::raw(&t.tx)), t.seen, t.mined.is_some()))
                .collect(),
        }
    }
}

static WORLD: AtomicPtr<World> = AtomicPtr::new(std::ptr::null_mut());

extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
}

extern "C" fn at_exit() {
    let w = WORLD.load(Ordering::SeqCst);
    if w.is_null() {
        return;
    }
    let w = unsafe { &*w };
    if let Ok(path) = std::env::var("SIM_CLI_OUT") {
        let _ = std::fs::write(path, serde_json::to_vec(&w.report()).unwrap());
    }
}

extern "C" fn boot() {
    let Ok(plan) = std::env::var("SIM_CLI_PLAN") else { return };
    let plan: WorldPlan = serde_json::from_str(&plan).expect("SIM_CLI_PLAN");
    let w = Box::new(build(&plan));
    w.sim.install();
    WORLD.store(Box::into_raw(w), Ordering::SeqCst);
    unsafe {
        atexit(at_exit);
    }
}

#[used]
#[link_section = ".init_array"]
static BOOT: extern "C" fn() = boot;

/// Keeps this object file linked; does nothing.
#[inline(never)]
pub fn linked() -> bool {
    WORLD.load(Ordering::Relaxed).is_null()
}

pub fn zero_hash() -> [u8; 32] {
    bitcoin::Txid::from_inner([0; 32]).into_inner()
}
