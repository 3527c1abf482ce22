//! T04: the command-line client, run as a process of its own against a
//! simulated Electrum server.
use std::{
    io::Read,
    os::unix::process::{CommandExt, ExitStatusExt},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

use bdk::bitcoin::{
    consensus::{deserialize, serialize},
    secp256k1::SecretKey,
    Address, Network, OutPoint, PrivateKey, Transaction, TxOut,
};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use simboot::{Report, WorldPlan};
use simcore::{
    driver::{Outcome, Scenario, Tier},
    fnv, mix, Rng,
};
use simworld::{
    ops::{data_script, deposit_data, request_data, sign_request, Account},
    wallet::{p2wpkh_script, sign_p2wpkh, unsigned},
};

use crate::{oracle, plan::*};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cmd {
    Deposit,
    Withdraw,
    Broadcast,
}

/// Something wrong with the arguments.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Bad {
    None,
    Wif,
    WifNetwork(String),
    DraweeWif,
    Recipient,
    /// A recipient's text that is malformed in some way.
    Malformed(u8),
    Payee,
    Sbtc,
    /// Broadcast: the transaction text.
    NotHex,
    Truncated(u16),
    Trailing,
    BadSignature,
    UnknownInput,
    LowFee,
    Server,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub cmd: Cmd,
    pub world: WorldPlan,
    pub seed: u64,
    pub to: Account,
    pub amount: u64,
    pub fee: u64,
    pub payee: Addr,
    pub sbtc: Addr,
    pub bad: Bad,
    pub ssl: bool,
    /// Standard output takes only so many bytes.
    pub out_limit: Option<u64>,
}

pub struct Cli;

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("sbtc-sim")
}

impl Plan {
    fn net(&self) -> Network {
        self.world.network()
    }
    fn key(&self) -> SecretKey {
        key_of(self.seed, "wallet")
    }
    fn drawee(&self) -> SecretKey {
        key_of(self.seed, "drawee")
    }
    fn payee_addr(&self) -> Address {
        self.payee.address(&own_script(self.seed, false), None)
    }
    fn sbtc_addr(&self) -> Address {
        self.sbtc.address(&own_script(self.seed, false), Some(&self.payee_addr()))
    }

    /// The transaction the broadcast command is given.
    fn given(&self) -> Option<(Transaction, Vec<u8>)> {
        let w = simboot::build(&self.world);
        let b = w.btc.borrow();
        let own = own_script(self.seed, false);
        let coins: Vec<(OutPoint, TxOut)> = b.unspent(&own);
        let (op, coin) = coins.first()?.clone();
        let mut t = unsigned(
            &[op],
            vec![
                TxOut { value: 0, script_pubkey: data_script(&deposit_data(self.net(), &self.to)) },
                TxOut {
                    value: coin.value.checked_sub(if self.bad == Bad::LowFee { 20 } else { 400 })?,
                    script_pubkey: self.sbtc_addr().script_pubkey(),
                },
            ],
        );
        if self.bad == Bad::UnknownInput {
            t.input[0].previous_output.vout += 7;
        }
        let value = if self.bad == Bad::BadSignature { coin.value + 1 } else { coin.value };
        sign_p2wpkh(&mut t, 0, value, &self.key());
        let mut raw = serialize(&t);
        match &self.bad {
            Bad::Truncated(n) => raw.truncate(raw.len() - 1 - *n as usize % (raw.len() - 1)),
            Bad::Trailing => raw.push(0),
            _ => {}
        }
        Some((t, raw))
    }

    fn args(&self) -> Option<Vec<String>> {
        let url = format!(
            "{}://{}",
            if self.ssl { "ssl" } else { "tcp" },
            if self.bad == Bad::Server { "127.0.0.1:50009" } else { SERVER }
        );
        let wif_net = match &self.bad {
            Bad::WifNetwork(n) => n.parse().unwrap(),
            _ => self.net(),
        };
        let breakit = |s: String, on: bool| {
            if !on {
                return s;
            }
            // A contract's name has no checksum.
            let n = s.find('.').unwrap_or(s.len());
            let mut b = s.into_bytes();
            let i = 3 + (self.seed as usize >> 8) % (n - 3);
            b[i] = if b[i] == b'4' { b'5' } else { b'4' };
            String::from_utf8(b).unwrap()
        };
        let wif = breakit(PrivateKey::new(self.key(), wif_net).to_wif(), self.bad == Bad::Wif);
        let sbtc = breakit(self.sbtc_addr().to_string(), self.bad == Bad::Sbtc);
        let net = self.world.network.clone();
        Some(match self.cmd {
            Cmd::Deposit => vec![
                "deposit".into(),
                "--node-url".into(),
                url,
                "--wif".into(),
                wif,
                "--network".into(),
                net,
                "--recipient".into(),
                match self.bad {
                    Bad::Malformed(n) => malformed(&self.to.text(), n),
                    _ => breakit(self.to.text(), self.bad == Bad::Recipient),
                },
                "--amount".into(),
                self.amount.to_string(),
                "--sbtc-wallet".into(),
                sbtc,
            ],
            Cmd::Withdraw => vec![
                "withdraw".into(),
                "-u".into(),
                url,
                "-n".into(),
                net,
                "-w".into(),
                wif,
                "-d".into(),
                breakit(PrivateKey::new(self.drawee(), wif_net).to_wif(), self.bad == Bad::DraweeWif),
                "-b".into(),
                breakit(self.payee_addr().to_string(), self.bad == Bad::Payee),
                "-a".into(),
                self.amount.to_string(),
                "-f".into(),
                self.fee.to_string(),
                "-s".into(),
                sbtc,
            ],
            Cmd::Broadcast => {
                let (_, raw) = self.given()?;
                let mut h = hex::encode(raw);
                if self.bad == Bad::NotHex {
                    h.push('z');
                }
                vec!["broadcast".into(), url, h]
            }
        })
    }

    /// Arguments that cannot be honoured, whatever the network does.
    fn hopeless(&self) -> bool {
        match self.bad {
            Bad::None | Bad::WifNetwork(_) => false,
            // Only damaged if it is part of the command.
            Bad::DraweeWif | Bad::Payee => self.cmd == Cmd::Withdraw,
            Bad::Recipient | Bad::Malformed(_) => self.cmd == Cmd::Deposit,
            Bad::Wif | Bad::Sbtc => self.cmd != Cmd::Broadcast,
            Bad::Server => true,
            _ => self.cmd == Cmd::Broadcast,
        }
    }

    fn wanted(&self) -> Vec<TxOut> {
        let data = |d: Vec<u8>| TxOut { value: 0, script_pubkey: data_script(&d) };
        let pay = |a: &Address, v| TxOut { value: v, script_pubkey: a.script_pubkey() };
        match self.cmd {
            Cmd::Withdraw => {
                // A legacy address has one text on all test networks.
                let payee = self.payee_addr().to_string().parse().unwrap();
                vec![
                    data(request_data(
                        self.net(),
                        self.amount,
                        &sign_request(&self.drawee(), self.amount, &payee),
                    )),
                    pay(&payee, payee.script_pubkey().dust_value().to_sat()),
                    pay(&self.sbtc_addr(), self.fee),
                ]
            }
            _ => vec![
                data(deposit_data(self.net(), &self.to)),
                pay(&self.sbtc_addr(), self.amount),
            ],
        }
    }
}

fn malformed(text: &str, n: u8) -> String {
    let address = text.split('.').next().unwrap();
    match n {
        0 => format!("{address}."),
        1 => format!(".{text}"),
        2 if text.contains('.') => format!("{text}.more"),
        2 => format!("{address}.name.more"),
        3 => format!("{address}.9name"),
        4 => format!("{address}.{}", "a".repeat(41)),
        5 => format!("{address}.na me"),
        6 => address[..address.len() - 1].into(),
        7 => format!("{address}0"),
        8 => String::new(),
        9 => address[1..].into(),
        10 => format!("{address}.na\u{ef}ve"),
        _ => format!("{address}.name\n"),
    }
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    stdout: Vec<u8>,
    stderr: String,
    report: Option<Report>,
    timed_out: bool,
}

extern "C" {
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}

fn execute(p: &Plan, args: &[String]) -> Ran {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let base = std::env::temp_dir().join(format!(
        "sbtc-cli-sim-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::SeqCst)
    ));
    let rep = base.with_extension("report");
    let outf = base.with_extension("out");
    let out = std::fs::File::create(&outf).unwrap();
    let mut c = Command::new(exe());
    c.args(args)
        .env_clear()
        .env("SIM_CLI_PLAN", serde_json::to_string(&p.world).unwrap())
        .env("SIM_CLI_OUT", &rep)
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(Stdio::piped());
    if let Some(l) = p.out_limit {
        // A full disk: nothing beyond this offset can be written. The report
        // goes elsewhere and is not needed then.
        c.env_remove("SIM_CLI_OUT");
        unsafe {
            c.pre_exec(move || {
                signal(25, 1); // SIGXFSZ ignored
                setrlimit(1, &[l, l]); // RLIMIT_FSIZE
                Ok(())
            });
        }
    }
    let mut child = c.spawn().expect("client executable");
    let mut err = child.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    let mut timed_out = false;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed() > Duration::from_secs(40) {
            timed_out = true;
            let _ = child.kill();
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let stderr = reader.join().unwrap_or_default();
    let stdout = std::fs::read(&outf).unwrap_or_default();
    let report = std::fs::read(&rep).ok().and_then(|b| serde_json::from_slice(&b).ok());
    let _ = std::fs::remove_file(&rep);
    let _ = std::fs::remove_file(&outf);
    Ran { code: status.code(), signal: status.signal(), stdout, stderr, report, timed_out }
}

impl Scenario for Cli {
    type Plan = Plan;
    fn gen(&self, seed: u64, _i: u64, _t: Tier) -> Plan {
        let mut r = Rng::new(seed);
        let cmd = *r.pick(&[Cmd::Deposit, Cmd::Deposit, Cmd::Withdraw, Cmd::Withdraw, Cmd::Broadcast]);
        let net = *r.pick(&NETS);
        let s = r.next();
        let own = own_script(s, false);
        let mut world = gen_world(&mut r, net, &own, true, true);
        if cmd == Cmd::Broadcast && !world.coins.iter().any(|c| c.owner == 0 && c.at == 0 && c.spent.is_none()) {
            world.coins.push(simboot::Coin { owner: 0, value: r.range(5_000, 1_000_000), at: 0, mined: Some(0), spent: None });
        }
        if cmd == Cmd::Broadcast && r.chance(1, 3) {
            world.faults.rates.insert("electrum.refuse".into(), 60_000);
        }
        let mut payee = Addr::gen(&mut r, net);
        let mut sbtc = Addr::gen(&mut r, net);
        // Texts of later witness versions are not accepted by the address parser
        // of every length.
        if payee.kind == 5 {
            payee.kind = 4;
        }
        if sbtc.kind == 5 {
            sbtc.kind = 2;
        }
        if r.chance(1, 8) {
            payee.kind = 6;
        }
        if r.chance(1, 8) {
            sbtc.kind = 7;
        }
        if r.chance(1, 15) {
            payee.net = r.pick(&NETS).to_string();
        }
        let bad = if r.chance(3, 4) {
            Bad::None
        } else if cmd == Cmd::Broadcast {
            match r.below(6) {
                0 => Bad::NotHex,
                1 => Bad::Truncated(r.below(200) as u16),
                2 => Bad::Trailing,
                3 => Bad::BadSignature,
                4 => Bad::UnknownInput,
                _ => Bad::LowFee,
            }
        } else {
            match r.below(7) {
                0 => Bad::Wif,
                1 => Bad::WifNetwork(r.pick(&NETS).to_string()),
                2 => Bad::DraweeWif,
                3 if r.chance(1, 2) => Bad::Recipient,
                3 => Bad::Malformed(r.below(12) as u8),
                4 => Bad::Payee,
                5 => Bad::Sbtc,
                _ => Bad::Server,
            }
        };
        Plan {
            cmd,
            world,
            seed: s,
            to: gen_account(&mut r),
            amount: match r.below(8) {
                0 => r.range(0, 1000),
                1 => u64::MAX - r.below(3),
                _ => r.range(600, 1_000_000),
            },
            fee: r.range(300, 20_000),
            payee,
            sbtc,
            bad,
            ssl: r.chance(1, 2),
            out_limit: match r.below(24) {
                0 => Some(0),
                1 => Some(r.range(0, 80)),
                2 | 3 => Some(r.range(0, 900)),
                _ => None,
            },
        }
    }

    fn run(&self, p: &Plan) -> Outcome {
        let mut o = Outcome::default();
        let Some(args) = p.args() else {
            return o;
        };
        let ran = execute(p, &args);
        let text = String::from_utf8_lossy(&ran.stdout).into_owned();
        o.log.push(format!("sbtc {}", args.join(" ")));
        if let Some(r) = &ran.report {
            o.log.extend(r.log.iter().cloned());
            o.sim_ms = r.sim_us / 1000;
            o.steps = r.steps;
            for (k, v) in &r.faults {
                *o.faults.entry(k.clone()).or_default() += v;
            }
        }
        if p.out_limit.is_some() {
            o.fault("stdout-full");
        }
        o.log.push(format!("exit {:?} signal {:?} stdout {text:?} stderr {:?}", ran.code, ran.signal, ran.stderr.lines().next()));
        o.trace_hash = mix(
            mix(ran.report.as_ref().map_or(0, |r| r.trace_hash), fnv(&ran.stdout)),
            ran.code.unwrap_or(-1) as u64,
        );
        if ran.timed_out {
            o.violate("T04", "hang", format!("{args:?} did not end"));
            return o;
        }
        o.nontrivial = ran.report.as_ref().map_or(false, |r| r.requests > 0);
        let ok = ran.code == Some(0);
        o.probe(match (p.cmd, ok) {
            (Cmd::Deposit, true) => "deposit-printed",
            (Cmd::Deposit, false) => "deposit-error",
            (Cmd::Withdraw, true) => "withdraw-printed",
            (Cmd::Withdraw, false) => "withdraw-error",
            (Cmd::Broadcast, true) => "broadcast-accepted",
            (Cmd::Broadcast, false) => "broadcast-error",
        });
        let clean = ran.report.as_ref().map_or(false, |r| r.fired.is_empty())
            && p.world.faults.outages.is_empty()
            && p.out_limit.is_none()
            && p.bad == Bad::None;
        let parsed: Option<Value> = serde_json::from_slice(&ran.stdout).ok();
        if ok && p.hopeless() {
            o.violate("T04", "success-on-bad-arguments", format!("{args:?} printed {text}"));
            return o;
        }
        let world = simboot::build(&p.world);
        match p.cmd {
            Cmd::Broadcast => {
                let (given, _) = p.given().unwrap();
                let id = given.txid().to_string();
                let subs = ran.report.as_ref().map(|r| r.submitted.clone());
                if let Some(s) = &subs {
                    if let Some(x) = s.iter().find(|x| x.0 != id) {
                        o.violate("T04", "broadcast-other", format!("submitted {x:?} instead of {id}"));
                    }
                    if ok && !s.iter().any(|x| x.1) {
                        o.violate("T04", "broadcast-not-accepted", format!("success without acceptance: {s:?}"));
                    }
                    if !ok && clean && p.world.lag == 0 && s.iter().all(|x| x.1) && !s.is_empty() {
                        o.violate("T04", "broadcast-error-although-accepted", format!("{}", ran.stderr));
                    }
                    if s.len() > 1 {
                        o.probe("broadcast-repeated");
                    }
                }
                if ok && parsed != Some(Value::String(id.clone())) {
                    o.violate("T04", "broadcast-output", format!("printed {text:?} instead of the id {id}"));
                }
                o.states.push(fnv(format!("b {:?} {ok} {subs:?}", p.bad).as_bytes()));
            }
            Cmd::Deposit | Cmd::Withdraw => {
                if let Some(r) = &ran.report {
                    if !r.submitted.is_empty() {
                        o.violate("T04", "submitted", format!("{:?}", r.submitted));
                    }
                }
                let tx = parsed.as_ref().and_then(|v| {
                    let t: Transaction = deserialize(&hex::decode(v["hex"].as_str()?).ok()?).ok()?;
                    (v["id"].as_str()? == t.txid().to_string()).then_some(t)
                });
                match (&tx, ok) {
                    (Some(tx), true) => {
                        // Everything this world will ever contain exists, and its
                        // last height is reached.
                        world.sim.install();
                        world.sim.run();
                        world.sim.teardown();
                        let mut btc = world.btc.borrow_mut();
                        if let Some(r) = &ran.report {
                            for (raw, _, _) in &r.seen {
                                if let Ok(t) = deserialize::<Transaction>(&hex::decode(raw).unwrap_or_default()) {
                                    btc.inject(&t, 0);
                                }
                            }
                            let reported: Vec<Transaction> = r
                                .reported
                                .iter()
                                .filter_map(|h| deserialize(&hex::decode(h).ok()?).ok())
                                .collect();
                            for i in &tx.input {
                                if !reported.iter().any(|t| t.txid() == i.previous_output.txid) {
                                    o.violate("T04", "unreported-coin", format!("{i:?}"));
                                }
                            }
                        }
                        let own = p2wpkh_script(&p.key());
                        if let Err((class, d)) = oracle::check_tx(&btc, tx, &own, &p.wanted(), false) {
                            o.violate("T04", format!("wrong-tx-{class}"), format!("{args:?}: {d}: {text}"));
                        }
                    }
                    (_, true) => o.violate("T04", "incomplete-output", format!("exit 0 with {text:?}")),
                    (Some(_), false) => o.violate("T04", "transaction-with-error", format!("exit {:?} with {text:?}; {}", ran.code, ran.stderr)),
                    (None, false) => {
                        let b = world.btc.borrow();
                        let own = own_script(p.seed, false);
                        let usable: u128 = b.unspent(&own).iter().map(|c| c.1.value.saturating_sub(80) as u128).sum();
                        let outs = p.wanted();
                        let need: u128 = outs.iter().map(|t| t.value as u128).sum();
                        let legal = outs.iter().skip(1).all(|t| {
                            t.value >= t.script_pubkey.dust_value().to_sat() && t.value <= 21_000_000 * 100_000_000
                        }) && (p.cmd == Cmd::Deposit || belongs(&p.payee_addr(), p.net()) && belongs(&p.sbtc_addr(), p.net()));
                        // Coins that come and go while the client looks can
                        // make the difference.
                        let still = p.world.coins.iter().all(|c| c.at == 0 && c.spent.unwrap_or(0) == 0);
                        if clean && legal && still && usable >= need + 400 {
                            o.violate("T04", "refused-although-possible", format!("{args:?}: {}", ran.stderr));
                        }
                    }
                }
                o.states.push(fnv(
                    format!(
                        "{:?} {:?} {ok} {:?} {:?}",
                        p.cmd,
                        p.bad,
                        tx.as_ref().map(|t| (t.input.len(), t.output.len())),
                        o.faults.keys().collect::<Vec<_>>()
                    )
                    .as_bytes(),
                ));
            }
        }
        o
    }

    fn concretise(&self, p: &Plan) -> Plan {
        let mut q = p.clone();
        if q.world.faults.explicit.is_none() {
            let mut probe = p.clone();
            probe.out_limit = None;
            if let Some(args) = p.args() {
                if let Some(r) = execute(&probe, &args).report {
                    q.world.faults.explicit = Some(r.fired);
                }
            }
        }
        q
    }

    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        for w in shrink_world(&p.world) {
            let mut q = p.clone();
            q.world = w;
            out.push(q);
        }
        if p.out_limit.is_some() {
            let mut q = p.clone();
            q.out_limit = None;
            out.push(q);
        }
        if p.bad != Bad::None {
            let mut q = p.clone();
            q.bad = Bad::None;
            out.push(q);
        }
        if p.to.contract.is_some() {
            let mut q = p.clone();
            q.to.contract = None;
            out.push(q);
        }
        out
    }

    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 25_000,
            Tier::Thorough => 400_000,
        }
    }
    fn rule(&self) -> String {
        "each run starts the unmodified client executable with its sockets, clock and random source on a simulated world in the same process, under seeded connection loss, lost requests and replies, short reads and writes, server errors, garbled replies, outages, indexing lag, history that changes during the run and a standard output that fills up; its output and exit status are checked against the arguments, the chain and what the server recorded; non-trivial: the server was asked at least once".into()
    }
    fn state_measure(&self) -> String {
        "distinct (command, argument damage, outcome, shape of the transaction, fault kinds) tuples".into()
    }
    fn real_components(&self) -> Vec<String> {
        vec![
            "sbtc-cli executable (argument parsing, commands, output)".into(),
            "sbtc-core, stacks-core, bdk, electrum-client protocol code".into(),
        ]
    }
    fn stub_components(&self) -> Vec<String> {
        vec!["sockets, TLS, clock, random source (simrt)".into(), "Electrum server and chain (simworld)".into()]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the Electrum server may be late, fail or garble replies but does not lie consistently".into()]
    }
}
