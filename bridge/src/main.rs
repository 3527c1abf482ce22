//! Bridge properties B01..B13: the whole bridge in a simulated world.
mod judge;
mod plan;
mod world;

use std::{collections::BTreeMap, time::Duration};

use plan::{Plan, TxPlan};
use simcore::{
    driver::{drive, main_with, Outcome, Scenario, Tier, Violation},
    rng::mix,
};
use simrt::Stop;

struct Bridge(&'static str);

fn play(prop: &str, p: &Plan, loud: bool) -> (Outcome, Vec<(String, u64, u64)>) {
    let w = world::build(p, loud);
    w.sim.run();
    let mut o = Outcome::default();
    let sim = &w.sim;
    let stop = sim.stop.get();
    if stop != Stop::Done {
        w.note(format!("the run ended with {stop:?}"));
    }
    o.violations = judge::judge(prop, &w);
    if prop.is_empty() {
        for p in ALL {
            o.violations.extend(judge::judge(p, &w));
        }
    }
    if stop == Stop::Deadlock {
        o.violations.push(Violation::new("HARNESS", "deadlock", "nothing left to do"));
    }
    // One violation per class says enough.
    let mut seen = std::collections::BTreeSet::new();
    o.violations.retain(|v| seen.insert((v.property.clone(), v.class.clone())));
    o.trace_hash = sim.trace_hash();
    o.sim_ms = sim.now() / 1000;
    o.steps = sim.steps.get();
    o.faults = sim.fault_counts.borrow().clone();
    for f in &p.outages {
        if f.to > f.from {
            *o.faults.entry(format!("outage.{}.{}", f.service, f.kind)).or_default() += 1;
        }
    }
    if p.disk_cap.is_some() {
        o.fault("disk.full");
    }
    o.probes = judge::probes(&w);
    for (k, n) in sim.probes.borrow().iter() {
        *o.probes.entry(k.clone()).or_default() += n;
    }
    if stop != Stop::Done {
        o.probe(&format!("ended-{stop:?}"));
    }
    let log = w.sim.disk.read_all(world::LOG).unwrap_or_default();
    let mut states = std::mem::take(&mut w.rec.borrow_mut().states);
    states.extend(w.windows(&log, 9));
    o.states = states.into_iter().collect();
    o.nontrivial = o.probes.contains_key("mints") || o.probes.contains_key("burns") || !w.rec.borrow().acts.is_empty();
    o.log = if loud { sim.log.borrow().clone() } else { vec![] };
    o.log.extend(w.rec.borrow().notes.iter().cloned());
    let fired = sim.fired.borrow().iter().map(|f| (f.class.clone(), f.idx, f.arg)).collect();
    let cfg = w.config.clone();
    sim.teardown();
    if let Some(d) = cfg.parent() {
        let _ = std::fs::remove_dir_all(d);
    }
    (o, fired)
}

impl Scenario for Bridge {
    type Plan = Plan;

    fn gen(&self, seed: u64, index: u64, tier: Tier) -> Plan {
        plan::gen(self.0, seed, index, tier)
    }

    fn run(&self, p: &Plan) -> Outcome {
        play(self.0, p, std::env::var_os("SIM_LOUD").is_some()).0
    }

    fn concretise(&self, p: &Plan) -> Plan {
        let mut q = p.clone();
        if q.explicit.is_none() {
            q.explicit = Some(play(self.0, p, false).1);
            q.rates = Default::default();
        }
        q
    }

    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        let mut with = |f: &mut dyn FnMut(&mut Plan)| {
            let mut q = p.clone();
            f(&mut q);
            out.push(q);
        };
        // everything of a kind
        if !p.crashes.is_empty() {
            with(&mut |q| q.crashes.clear());
        }
        if !p.outages.is_empty() {
            with(&mut |q| q.outages.clear());
        }
        if p.spell > 0 {
            with(&mut |q| q.spell = 0);
        }
        if p.disk_cap.is_some() {
            with(&mut |q| q.disk_cap = None);
        }
        if let Some(e) = p.explicit.as_ref().filter(|e| !e.is_empty()) {
            with(&mut |q| q.explicit = Some(vec![]));
            let n = e.len();
            if n > 1 {
                with(&mut |q| q.explicit.as_mut().unwrap().truncate(n / 2));
                with(&mut |q| {
                    q.explicit.as_mut().unwrap().drain(..n / 2);
                });
            }
            let classes: std::collections::BTreeSet<String> = e.iter().map(|x| x.0.clone()).collect();
            if classes.len() > 1 {
                for c in classes {
                    with(&mut |q| q.explicit.as_mut().unwrap().retain(|x| x.0 != c));
                }
            }
        }
        for hist in [false, true] {
            fn pick(q: &mut Plan, hist: bool) -> &mut Vec<plan::BlockPlan> {
                if hist {
                    &mut q.history
                } else {
                    &mut q.blocks
                }
            }
            let src = if hist { &p.history } else { &p.blocks };
            for i in 0..src.len() {
                if hist || src.len() > 1 {
                    with(&mut |q| {
                        let l = pick(q, hist);
                        let b = l.remove(i);
                        // keep the other blocks where they were
                        if let Some(n) = l.get_mut(i) {
                            n.gap += b.gap;
                        }
                    });
                }
            }
            for (i, b) in src.iter().enumerate() {
                if b.txs.len() > 1 {
                    with(&mut |q| pick(q, hist)[i].txs.clear());
                }
                for j in 0..b.txs.len() {
                    with(&mut |q| {
                        pick(q, hist)[i].txs.remove(j);
                    });
                    let simpler = match &b.txs[j] {
                        TxPlan::Request { payee, .. } if *payee > 0 => Some(0),
                        _ => None,
                    };
                    if simpler.is_some() {
                        with(&mut |q| {
                            if let TxPlan::Request { payee, .. } = &mut pick(q, hist)[i].txs[j] {
                                *payee = 0;
                            }
                        });
                    }
                }
                if b.fill > 0 {
                    with(&mut |q| pick(q, hist)[i].fill /= 2);
                }
                if let Some(s) = &b.stacks {
                    if !s.noise.is_empty() {
                        with(&mut |q| pick(q, hist)[i].stacks.as_mut().unwrap().noise.clear());
                    }
                }
            }
        }
        for i in 0..p.crashes.len() {
            if p.crashes.len() > 1 {
                with(&mut |q| {
                    q.crashes.remove(i);
                });
            }
            if p.crashes[i].power {
                with(&mut |q| q.crashes[i].power = false);
            }
            if p.crashes[i].down > 1000 {
                with(&mut |q| q.crashes[i].down = 1000);
            }
        }
        for i in 0..p.outages.len() {
            if p.outages.len() > 1 {
                with(&mut |q| {
                    q.outages.remove(i);
                });
            }
        }
        if let Some(e) = p.explicit.as_ref().filter(|e| e.len() <= 12) {
            for i in 0..e.len() {
                with(&mut |q| {
                    q.explicit.as_mut().unwrap().remove(i);
                });
            }
        }
        if p.coins.len() > 1 {
            with(&mut |q| q.coins = vec![q.coins.iter().sum()]);
        }
        for f in [
            |q: &mut Plan| std::mem::replace(&mut q.btc_lag, 0),
            |q: &mut Plan| std::mem::replace(&mut q.electrum_lag, 0),
            |q: &mut Plan| std::mem::replace(&mut q.stacks_lag, 0),
            |q: &mut Plan| std::mem::replace(&mut q.inclusion, 0),
            |q: &mut Plan| std::mem::replace(&mut q.sched, 0),
            |q: &mut Plan| std::mem::replace(&mut q.api_key, false) as u64,
        ] {
            let mut q = p.clone();
            if f(&mut q) != 0 {
                out.push(q);
            }
        }
        out
    }

    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 100_000,
            Tier::Thorough => 10_000_000,
        }
    }

    fn wall(&self, t: Tier) -> Duration {
        Duration::from_secs(match t {
            Tier::Quick => 80,
            Tier::Thorough => 3000,
        })
    }

    fn stack(&self) -> usize {
        16 << 20
    }

    fn rule(&self) -> String {
        rules()[self.0].into()
    }

    fn real_components(&self) -> Vec<String> {
        vec![
            "romeo: configuration, event loop, storage, state machine, tasks, Stacks and Bitcoin clients, proofs".into(),
            "sbtc-core, stacks-core; bdk wallet with its Electrum client, bitcoincore-rpc with its HTTP client".into(),
            "asset.clar and clarity-bitcoin-mini-deploy.clar, run in an interpreter".into(),
        ]
    }

    fn stub_components(&self) -> Vec<String> {
        vec![
            "tokio, reqwest, backoff, getrandom and std sockets and files: same interfaces on the simulator".into(),
            "blockstack-core, rs_merkle, derivative: re-implemented (not available offline)".into(),
            "bitcoind, Electrum server, Stacks node and API, both chains, Clarity virtual machine".into(),
        ]
    }

    fn assumptions(&self) -> Vec<String> {
        vec![
            "no reorganisation of either chain".into(),
            "nodes may be late or fail but do not lie; a Stacks block sees the burn chain up to its parent's burn block".into(),
            "a closure given to spawn_blocking runs without interleaving with other tasks of the bridge".into(),
            "after a failed or missing sync any part of what was written since may be lost; what was synced is kept".into(),
        ]
    }

    fn state_measure(&self) -> String {
        "distinct windows of six consecutive record kinds (with transaction statuses) in the event log at crashes and at the end".into()
    }
}

fn rules() -> BTreeMap<&'static str, &'static str> {
    [
        ("B01", "every mint in the ledger is compared with an independent reading of the Bitcoin transaction it names; non-trivial: the bridge sent something"),
        ("B02", "every burn in the ledger is compared with an independent reading of the request it names, the account recovered from its signature; non-trivial: the bridge sent something"),
        ("B03", "every transaction the Bitcoin node accepted from the bridge is compared with the burns in the ledger at that time; non-trivial: the bridge sent something"),
        ("B04", "after faults stop every sound deposit must be in the ledger within the tail of blocks; non-trivial: the bridge sent something"),
        ("B05", "after faults stop every sound withdrawal must be burned and paid within the tail of blocks; non-trivial: the bridge sent something"),
        ("B06", "crashes, power losses and disk errors at seeded points; no start may fail, each process must ask for the block after the last one in the log it found, nothing recorded as sent is sent in another form, and everything is finished in the end; non-trivial: the bridge sent something"),
        ("B07", "the recorded blocks are compared with the chains in order and content; non-trivial: the bridge sent something"),
        ("B08", "blocks with arbitrary and almost-correct content; the bridge may not end, stop following or miss a sound operation; non-trivial: the bridge sent something"),
        ("B09", "outages and connection faults of each service; the bridge may not end, stop following or miss a sound operation; non-trivial: the bridge sent something"),
        ("B10", "whenever a node accepts something from the bridge, the log on stable storage must contain its cause; non-trivial: the bridge sent something"),
        ("B11", "whenever a node accepts a mint, burn or payout the contract must hold the wallet's key; non-trivial: the bridge sent something"),
        ("B12", "the proof in every mint and burn is recomputed from the block, and the contract may not refuse it; non-trivial: the bridge sent something"),
        ("B13", "every transaction that reached the Stacks node is decoded and verified, and no nonce is used twice; non-trivial: the bridge sent something"),
    ]
    .into_iter()
    .collect()
}

const ALL: [&str; 13] = ["B01", "B02", "B03", "B04", "B05", "B06", "B07", "B08", "B09", "B10", "B11", "B12", "B13"];

/// Judges runs of one property's profile by every property; for development.
fn survey(profile: &str, from: u64, n: u64) {
    use std::sync::{atomic::{AtomicU64, Ordering}, Mutex};
    simcore::panics::install();
    let next = AtomicU64::new(from);
    let found: Mutex<BTreeMap<(String, String), (u64, Vec<u64>, String)>> = Default::default();
    let total: Mutex<BTreeMap<String, u64>> = Default::default();
    let env = simcore::driver::Env::from_env();
    let t0 = std::time::Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= from + n {
                        break;
                    }
                    let plan = plan::gen(profile, simcore::driver::run_seed(&env, profile, i), i, env.tier);
                    let o = std::thread::Builder::new()
                        .stack_size(32 << 20)
                        .spawn_scoped(sc, move || simcore::panics::guard(|| play("", &plan, false).0))
                        .unwrap()
                        .join()
                        .unwrap();
                    let o = match o {
                        Ok(o) => o,
                        Err(e) => {
                            let mut o = Outcome::default();
                            o.violate("HARNESS", "panic", e);
                            o
                        }
                    };
                    let mut f = found.lock().unwrap();
                    for v in o.violations {
                        let e = f.entry((v.property, v.class)).or_insert((0, vec![], v.detail));
                        e.0 += 1;
                        if e.1.len() < 6 {
                            e.1.push(i);
                        }
                    }
                    let mut t = total.lock().unwrap();
                    for (k, n) in o.probes {
                        *t.entry(k).or_default() += n;
                    }
                })
                .unwrap();
        }
    });
    for ((p, c), (n, at, d)) in found.into_inner().unwrap() {
        println!("{p} {c} x{n} at {at:?}: {}", d.chars().take(std::env::var("DLEN").ok().and_then(|s| s.parse().ok()).unwrap_or(230)).collect::<String>());
    }
    println!("{:?} in {:?}", total.into_inner().unwrap(), t0.elapsed());
}

fn main() {
    // Errors are shown, not traced.
    std::env::set_var("RUST_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "survey") == Some(true) {
        let num = |i: usize, d| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
        survey(&a[2], num(4, 0), num(3, 100));
        let _ = std::fs::remove_dir_all(world::scratch());
        return;
    }
    let dir = world::scratch();
    struct Clean(std::path::PathBuf);
    impl Drop for Clean {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    main_with(|p, cmd| {
        let _c = Clean(dir);
        let id = ALL.iter().find(|x| **x == p)?;
        let _ = mix(0, 0);
        Some(drive(Bridge(id), p, cmd))
    })
}
