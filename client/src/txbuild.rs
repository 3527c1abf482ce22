//! T01, T02, T03: transactions built from a wallet synchronised over a
//! simulated, faulty Electrum connection.
use bdk::{
    bitcoin::{
        consensus::{deserialize, serialize},
        secp256k1::{PublicKey, SecretKey},
        Address, Network, OutPoint, PrivateKey, Script, Transaction, TxOut,
    },
    blockchain::{ConfigurableBlockchain, ElectrumBlockchain, ElectrumBlockchainConfig},
    database::MemoryDatabase,
    template::{P2Wpkh, P2TR},
    SyncOptions, Wallet,
};
use sbtc_core::operations::op_return::{
    deposit::{build_deposit_transaction, deposit, Deposit},
    withdrawal_fulfillment::{build_withdrawal_fulfillment_tx, ParsedWithdrawalFulfillmentData},
    withdrawal_request::{build_withdrawal_tx, try_parse_withdrawal_request},
};
use serde::{Deserialize, Serialize};
use simboot::{World, WorldPlan};
use simcore::{
    driver::{Outcome, Scenario, Tier},
    fnv, mix, panics, Rng,
};
use simworld::ops::{
    account_of_key, data_script, deposit_data, fulfillment_data, op_return_push, read_op,
    request_data, sign_request, Account, Op, SECP,
};
use stacks_core::{codec::Codec, utils::PrincipalData, BlockId};

use crate::{oracle, plan::*};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum What {
    Deposit,
    /// `deposit()`, which synchronises its own wallet.
    DepositFn,
    Request,
    Fulfillment,
}

/// How an amount is chosen; some depend on what the wallet holds.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amount {
    Exact(u64),
    /// Everything the wallet holds minus this.
    AllBut(u64),
    /// Such that change and payment come out equal (plus this).
    Half(i64),
    /// Relative to the payee's dust limit.
    Dust(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    Amount { bit: u8 },
    Payee(Addr),
    SigByte { at: u8, xor: u8 },
    Truncate { by: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub what: What,
    pub world: WorldPlan,
    pub seed: u64,
    pub tr: bool,
    pub to: Account,
    pub amount: Amount,
    pub fee: Amount,
    pub payee: Addr,
    pub sbtc: Addr,
    pub block: String,
    pub tampers: Vec<Tamper>,
    /// Build twice from the same wallet.
    pub twice: bool,
}

pub struct TxBuild(pub &'static str);

fn gen_amount(r: &mut Rng) -> Amount {
    match r.below(12) {
        0 | 1 => Amount::Dust(r.range(0, 4) as i64 - 2),
        2 => Amount::AllBut(r.range(0, 1500)),
        3 => Amount::AllBut(r.range(100, 250)),
        4 | 5 => Amount::Half(*r.pick(&[0i64, 0, 0, 1, -1])),
        6 => Amount::Exact(*r.pick(&[0u64, 1, u64::MAX, u64::MAX - 1, 1 << 63, 21_000_000 * 100_000_000])),
        _ => Amount::Exact(r.range(300, 2_000_000)),
    }
}

type Db = MemoryDatabase;

fn sync(p: &Plan, sk: SecretKey, net: Network) -> Result<Wallet<Db>, String> {
    let blockchain = ElectrumBlockchain::from_config(&ElectrumBlockchainConfig {
        url: format!("tcp://{SERVER}"),
        socks5: None,
        retry: 3,
        timeout: Some(10),
        stop_gap: 10,
        validate_domain: false,
    })
    .map_err(|e| format!("connect: {e}"))?;
    let key = PrivateKey::new(sk, net);
    let wallet = if p.tr {
        Wallet::new(P2TR(key), Some(P2TR(key)), net, Db::default())
    } else {
        Wallet::new(P2Wpkh(key), Some(P2Wpkh(key)), net, Db::default())
    }
    .map_err(|e| format!("wallet: {e}"))?;
    wallet
        .sync(&blockchain, SyncOptions::default())
        .map_err(|e| format!("sync: {e}"))?;
    Ok(wallet)
}

struct Ctx<'a> {
    p: &'a Plan,
    prop: &'static str,
    net: Network,
    sk: SecretKey,
    own: Script,
    payee: Address,
    sbtc: Address,
    drawee: SecretKey,
    block: [u8; 32],
}

impl<'a> Ctx<'a> {
    /// The outputs asked for, in order.
    fn wanted(&self, amount: u64, fee: u64) -> Vec<TxOut> {
        let data = |d: Vec<u8>| TxOut { value: 0, script_pubkey: data_script(&d) };
        let pay = |a: &Address, v| TxOut { value: v, script_pubkey: a.script_pubkey() };
        match self.p.what {
            What::Deposit | What::DepositFn => vec![
                data(deposit_data(self.net, &self.p.to)),
                pay(&self.sbtc, amount),
            ],
            What::Request => vec![
                data(request_data(self.net, amount, &sign_request(&self.drawee, amount, &self.payee))),
                pay(&self.payee, self.payee.script_pubkey().dust_value().to_sat()),
                pay(&self.sbtc, fee),
            ],
            What::Fulfillment => vec![
                data(fulfillment_data(self.net, &self.block)),
                pay(&self.payee, amount),
            ],
        }
    }

    fn build(&self, wallet: Option<Wallet<Db>>, keep: &mut Option<Wallet<Db>>, amount: u64, fee: u64) -> Result<Transaction, String> {
        let p = self.p;
        match p.what {
            What::DepositFn => {
                let to = PrincipalData::try_from(p.to.text()).map_err(|e| format!("recipient: {e}"))?;
                deposit(PrivateKey::new(self.sk, self.net), to, amount, &self.sbtc).map_err(|e| e.to_string())
            }
            What::Deposit => {
                let to = PrincipalData::try_from(p.to.text()).map_err(|e| format!("recipient: {e}"))?;
                build_deposit_transaction(wallet.unwrap(), to, self.sbtc.clone(), amount, self.net)
                    .map_err(|e| e.to_string())
            }
            What::Request => {
                let w = wallet.unwrap();
                let r = build_withdrawal_tx(&w, self.net, self.drawee, self.payee.clone(), self.sbtc.clone(), amount, fee)
                    .map_err(|e| e.to_string());
                *keep = Some(w);
                r
            }
            What::Fulfillment => {
                let w = wallet.unwrap();
                let id = BlockId::deserialize(&mut &self.block[..]).map_err(|e| e.to_string())?;
                let r = build_withdrawal_fulfillment_tx(&w, id, self.net, &self.payee, amount)
                    .map_err(|e| e.to_string());
                *keep = Some(w);
                r
            }
        }
    }

    /// Whether the arguments ask for something every node would take.
    fn askable(&self, amount: u64, fee: u64) -> bool {
        let max = 21_000_000 * 100_000_000;
        self.wanted(amount, fee)
            .iter()
            .skip(1)
            .all(|o| o.value >= o.script_pubkey.dust_value().to_sat() && o.value <= max)
    }

    fn judge(&self, o: &mut Outcome, w: &World, tx: &Transaction, amount: u64, fee: u64) {
        let prop = self.prop;
        let btc = w.btc.borrow();
        let want = self.wanted(amount, fee);
        match oracle::check_tx(&btc, tx, &self.own, &want, false) {
            Ok(f) => o.log.push(format!("valid, fee {f}, {} inputs, {} outputs", tx.input.len(), tx.output.len())),
            Err((class, d)) => {
                o.violate(prop, format!("{:?}-{class}", self.p.what), format!("{d}; tx {}", hex::encode(serialize(tx))));
                return;
            }
        }
        // Through the wire and back.
        let bytes = serialize(tx);
        let tx: Transaction = match deserialize(&bytes) {
            Ok(t) => t,
            Err(e) => return o.violate(prop, "encoding", format!("{e}")),
        };
        let ind = read_op(self.net, &tx);
        let shown = |x: &dyn std::fmt::Debug| format!("{x:?}");
        match self.p.what {
            What::Deposit | What::DepositFn => {
                let want = Op::Deposit { to: self.p.to.clone(), amount, wallet: self.sbtc.script_pubkey() };
                if ind != Some(want.clone()) {
                    o.violate(prop, "deposit-reads-differently", format!("{ind:?} instead of {want:?}"));
                }
                match panics::guard(|| Deposit::parse(self.net, tx.clone())) {
                    Ok(Ok(d))
                        if d.amount == amount
                            && d.recipient.serialize_to_vec() == self.p.to.bytes()
                            && d.network == self.net
                            && d.sbtc_wallet_address.script_pubkey() == self.sbtc.script_pubkey() => {}
                    x => o.violate(prop, "deposit-parser", format!("parsed {} from a deposit of {amount} for {}", shown(&x), self.p.to.text())),
                }
            }
            What::Request => {
                let pk = SECP.with(|s| PublicKey::from_secret_key(s, &self.drawee));
                let from = account_of_key(self.net, &pk);
                let want = Op::Request {
                    from: from.clone(),
                    amount,
                    payee: self.payee.script_pubkey(),
                    fee,
                    wallet: self.sbtc.script_pubkey(),
                };
                if ind != Some(want.clone()) {
                    o.violate(prop, "request-reads-differently", format!("{ind:?} instead of {want:?}"));
                }
                match panics::guard(|| try_parse_withdrawal_request(self.net, tx.clone())) {
                    Ok(Ok(d))
                        if d.amount == amount
                            && d.fulfillment_amount == fee
                            && PrincipalData::from(d.drawee_stacks_address.clone()).serialize_to_vec() == from.bytes()
                            && d.payee_bitcoin_address.script_pubkey() == self.payee.script_pubkey()
                            && d.sbtc_wallet.script_pubkey() == self.sbtc.script_pubkey() => {}
                    Ok(Ok(d)) => o.violate(
                        prop,
                        "request-parser",
                        format!(
                            "amount {} fee {} drawee {} payee {} wallet {} instead of {want:?}",
                            d.amount, d.fulfillment_amount, d.drawee_stacks_address, d.payee_bitcoin_address, d.sbtc_wallet
                        ),
                    ),
                    x => o.violate(prop, "request-parser", format!("{:?}", x.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
                }
                self.tamper(o, &tx, &from, amount);
            }
            What::Fulfillment => {
                let want = Op::Fulfillment { block: self.block, payee: self.payee.script_pubkey(), amount };
                if ind != Some(want.clone()) {
                    o.violate(prop, "fulfilment-reads-differently", format!("{ind:?} instead of {want:?}"));
                }
                let data = op_return_push(&tx.output[0].script_pubkey).unwrap_or_default();
                match ParsedWithdrawalFulfillmentData::deserialize(&mut &data[..]) {
                    Ok(d) if d.chain_tip.serialize_to_vec() == self.block => {}
                    x => o.violate(prop, "fulfilment-parser", format!("{:?}", x.map(|d| hex::encode(d.chain_tip.serialize_to_vec())).map_err(|e| e.to_string()))),
                }
            }
        }
    }

    /// Altered requests may not authorise anything from the drawee.
    fn tamper(&self, o: &mut Outcome, tx: &Transaction, from: &Account, amount: u64) {
        for t in &self.p.tampers {
            let mut bad = tx.clone();
            let mut data = op_return_push(&bad.output[0].script_pubkey).unwrap_or_default();
            if data.len() != 76 {
                return;
            }
            match t {
                Tamper::Amount { bit } => data[3 + (*bit / 8) as usize % 8] ^= 1 << (bit % 8),
                Tamper::SigByte { at, xor } => data[11 + *at as usize % 65] ^= (*xor).max(1),
                Tamper::Truncate { by } => data.truncate(76 - (1 + *by as usize % 72)),
                Tamper::Payee(a) => {
                    let s = a.address(&self.own, None).script_pubkey();
                    if s == bad.output[1].script_pubkey {
                        continue;
                    }
                    bad.output[1].script_pubkey = s;
                }
            }
            bad.output[0].script_pubkey = data_script(&data);
            o.fault(match t {
                Tamper::Amount { .. } => "tampered-amount",
                Tamper::SigByte { .. } => "tampered-signature",
                Tamper::Truncate { .. } => "truncated-data",
                Tamper::Payee(_) => "tampered-payee",
            });
            match panics::guard(|| try_parse_withdrawal_request(self.net, bad.clone())) {
                Ok(Ok(d)) => {
                    if PrincipalData::from(d.drawee_stacks_address.clone()).serialize_to_vec() == from.bytes() {
                        o.violate(
                            self.prop,
                            "tampered-request-authorised",
                            format!("{t:?} on a request of {amount} still debits {}", d.drawee_stacks_address),
                        );
                    }
                }
                Ok(Err(_)) => {}
                Err(e) => o.violate(self.prop, "parser-panic", format!("{t:?}: {e}")),
            }
        }
    }
}

impl Scenario for TxBuild {
    type Plan = Plan;

    fn gen(&self, seed: u64, _i: u64, _t: Tier) -> Plan {
        let mut r = Rng::new(seed);
        let what = match self.0 {
            "T01" if r.chance(1, 3) => What::DepositFn,
            "T01" => What::Deposit,
            "T02" => What::Request,
            _ => What::Fulfillment,
        };
        let net = *r.pick(&NETS);
        let tr = what == What::Fulfillment && r.chance(3, 4);
        let seed2 = r.next();
        let own = own_script(seed2, tr);
        let mut payee = Addr::gen(&mut r, net);
        let mut sbtc = Addr::gen(&mut r, net);
        match r.below(10) {
            0 | 1 => payee.kind = 6,
            2 => sbtc.kind = 6,
            3 => sbtc.kind = 7,
            4 => {
                payee.kind = 6;
                sbtc.kind = 6;
            }
            _ => {}
        }
        if r.chance(1, 12) {
            payee.net = r.pick(&NETS).to_string();
        }
        if r.chance(1, 20) {
            sbtc.net = r.pick(&NETS).to_string();
        }
        let tampers = (0..r.below(6))
            .map(|_| match r.below(6) {
                0 | 1 => Tamper::Amount { bit: r.below(64) as u8 },
                2 | 3 => Tamper::SigByte { at: if r.chance(1, 4) { 0 } else { r.below(65) as u8 }, xor: 1 << r.below(8) },
                4 => Tamper::Payee(match r.below(3) {
                    0 => Addr::gen(&mut r, net),
                    // The same hash in another kind of address.
                    1 => Addr { kind: (payee.kind + 1 + r.below(5) as u8) % 6, ..payee.clone() },
                    _ => {
                        let mut body = hex::decode(&payee.body).unwrap();
                        body[r.below(20) as usize] ^= 1 << r.below(8);
                        Addr { body: hex::encode(body), ..payee.clone() }
                    }
                }),
                _ => Tamper::Truncate { by: r.below(72) as u8 },
            })
            .collect();
        let history = r.chance(1, 3);
        Plan {
            what,
            world: gen_world(&mut r, net, &own, history, what != What::DepositFn),
            seed: seed2,
            tr,
            to: gen_account(&mut r),
            amount: gen_amount(&mut r),
            fee: if r.chance(1, 2) { Amount::Exact(r.range(500, 50_000)) } else { gen_amount(&mut r) },
            payee,
            sbtc,
            block: hex::encode(r.bytes(32)),
            tampers,
            twice: r.chance(1, 3),
        }
    }

    fn run(&self, p: &Plan) -> Outcome {
        let w = simboot::build(&p.world);
        w.sim.install();
        let mut o = run_in(self.0, p, &w);
        let rep = w.report();
        o.trace_hash = mix(mix(o.trace_hash, rep.trace_hash), rep.steps);
        o.sim_ms = rep.sim_us / 1000;
        o.steps = rep.steps;
        for (k, n) in rep.faults {
            *o.faults.entry(k).or_default() += n;
        }
        let mut log = rep.log;
        log.append(&mut o.log);
        o.log = log;
        w.sim.teardown();
        o
    }

    fn concretise(&self, p: &Plan) -> Plan {
        let mut q = p.clone();
        if q.world.faults.explicit.is_none() {
            let p2 = p.clone();
            let prop = self.0;
            let fired = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let w = simboot::build(&p2.world);
                    w.sim.install();
                    let _ = panics::guard(|| run_in(prop, &p2, &w));
                    let f = w.report().fired;
                    w.sim.teardown();
                    f
                })
                .unwrap()
                .join()
                .unwrap_or_default();
            q.world.faults.explicit = Some(fired);
        }
        q
    }

    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        for w in shrink_world(&p.world) {
            let mut q = p.clone();
            q.world = w;
            out.push(q);
        }
        if p.twice {
            let mut q = p.clone();
            q.twice = false;
            out.push(q);
        }
        for i in 0..p.tampers.len() {
            let mut q = p.clone();
            q.tampers.remove(i);
            out.push(q);
        }
        if p.to.contract.as_ref().map_or(false, |c| c.len() > 1) {
            let mut q = p.clone();
            q.to.contract = Some("a".into());
            out.push(q);
            let mut q = p.clone();
            q.to.contract = None;
            out.push(q);
        }
        out
    }

    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 25_000,
            Tier::Thorough => 1_500_000,
        }
    }
    fn rule(&self) -> String {
        "each run funds a real wallet on a simulated chain, synchronises it through a simulated Electrum server under seeded connection loss, refused connections, lost requests and replies, short reads and writes, server errors, garbled replies, outages, indexing lag and history that changes meanwhile, builds the transaction with random arguments, and checks the result against the chain (coin ownership, signatures, node acceptance, fee) and against independent readers; non-trivial: a transaction was built".into()
    }
    fn state_measure(&self) -> String {
        "distinct (operation, wallet kind, network, payee and wallet address kinds, amount class, inputs, outputs, outcome) tuples".into()
    }
    fn real_components(&self) -> Vec<String> {
        vec![
            "sbtc-core op_return builders and parsers".into(),
            "stacks-core principals and codec".into(),
            "bdk wallet (coin selection, signing) and electrum-client protocol code".into(),
        ]
    }
    fn stub_components(&self) -> Vec<String> {
        vec![
            "sockets, TLS, clock and random source under electrum-client and bdk (simrt)".into(),
            "Electrum server, Bitcoin node rules and chain (simworld)".into(),
        ]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the Electrum server may be late, fail or garble replies but does not lie consistently".into(), "secp256k1 and rust-bitcoin primitives are trusted".into()]
    }
}

fn resolve(a: &Amount, total: u64, fee: Option<u64>, dust: u64) -> u64 {
    match a {
        Amount::Exact(v) => *v,
        Amount::AllBut(v) => total.saturating_sub(*v),
        Amount::Dust(d) => (dust as i64 + d).max(0) as u64,
        Amount::Half(d) => {
            let rest = total.saturating_sub(fee.unwrap_or(150));
            (rest as i64 / 2 + d).max(0) as u64
        }
    }
}

fn run_in(prop: &'static str, p: &Plan, w: &World) -> Outcome {
    let mut o = Outcome::default();
    let net = p.world.network();
    let sk = key_of(p.seed, "wallet");
    let own = own_script(p.seed, p.tr);
    let payee = p.payee.address(&own, None);
    let sbtc = p.sbtc.address(&own, Some(&payee));
    let c = Ctx {
        p,
        prop,
        net,
        sk,
        own: own.clone(),
        payee,
        sbtc,
        drawee: key_of(p.seed, "drawee"),
        block: hex::decode(&p.block).unwrap().try_into().unwrap(),
    };
    let mut wallet = None;
    let mut holdings: Vec<(OutPoint, u64)> = vec![];
    if p.what != What::DepositFn {
        match panics::guard(|| sync(p, sk, net)) {
            Ok(Ok(x)) => {
                for u in x.list_unspent().unwrap_or_default() {
                    holdings.push((u.outpoint, u.txout.value));
                }
                wallet = Some(x);
            }
            Ok(Err(e)) => {
                o.log.push(format!("no wallet: {e}"));
                o.probe("sync-failed");
                return o;
            }
            Err(e) => {
                o.log.push(format!("wallet library gave up: {e}"));
                o.probe("sync-panicked");
                return o;
            }
        }
    } else {
        let b = w.btc.borrow();
        holdings = b.unspent(&own).into_iter().map(|(op, t)| (op, t.value)).collect();
    }
    let total: u64 = holdings.iter().map(|h| h.1).sum();
    let pay_dust = match p.what {
        What::Deposit | What::DepositFn => c.sbtc.script_pubkey().dust_value().to_sat(),
        _ => c.payee.script_pubkey().dust_value().to_sat(),
    };
    let fee_dust = c.sbtc.script_pubkey().dust_value().to_sat();
    let per_input = if p.tr { 58 } else { 69 };
    let tx_fee = Some(per_input * holdings.len() as u64 + 11 + 80 + 31 + 31 + 40);
    let mut amount = resolve(&p.amount, total, tx_fee, pay_dust);
    let mut fee = resolve(&p.fee, total, tx_fee, fee_dust);
    let before = w.sim.fired.borrow().len();
    let mut keep = None;
    let attempt = |o: &mut Outcome, wallet: Option<Wallet<Db>>, keep: &mut Option<Wallet<Db>>, amount: u64, fee: u64, second: bool| {
        let r = panics::guard(|| c.build(wallet, keep, amount, fee));
        // What it holds by then is not known.
        let clean = match p.what {
            What::DepositFn => !second && p.world.coins.iter().all(|c| c.spent.is_none()) && w.sim.fired.borrow().len() == before && p.world.faults.outages.is_empty(),
            What::Deposit => !second,
            _ => true,
        };
        let outs: u128 = c.wanted(amount, fee).iter().map(|t| t.value as u128).sum();
        let usable: u128 = holdings.iter().map(|h| h.1.saturating_sub(80) as u128).sum();
        let enough = usable >= outs + 400;
        // Request addresses are part of what is signed.
        let legal = c.askable(amount, fee)
            && (p.what != What::Request || belongs(&c.payee, net) && belongs(&c.sbtc, net));
        o.log.push(format!(
            "{:?} amount {amount} fee {fee} holdings {total} -> {}",
            p.what,
            match &r {
                Ok(Ok(t)) => format!("tx {}", t.txid()),
                Ok(Err(e)) => format!("error {e}"),
                Err(e) => format!("panic {e}"),
            }
        ));
        let mut res = None;
        match r {
            Ok(Ok(tx)) => {
                o.nontrivial = true;
                o.probe("built");
                for (name, hit) in [
                    ("change-equals-payment", tx.output.len() > 2 && tx.output[1].value == tx.output[tx.output.len() - 1].value),
                    ("pays-itself", tx.output[1..c.wanted(amount, fee).len()].iter().any(|t| t.script_pubkey == own)),
                    ("no-change", tx.output.len() == c.wanted(amount, fee).len()),
                    ("many-inputs", tx.input.len() > 2),
                    ("equal-outputs", (0..tx.output.len()).any(|i| tx.output[i + 1..].contains(&tx.output[i]))),
                ] {
                    if hit {
                        o.probe(name);
                    }
                }
                c.judge(o, w, &tx, amount, fee);
                res = Some(tx);
            }
            Ok(Err(e)) => {
                o.probe("refused");
                if legal && enough && clean {
                    o.violate(
                        prop,
                        "refused-although-possible",
                        format!("amount {amount}, fee {fee}, wallet holds {holdings:?}: {e}"),
                    );
                }
            }
            Err(e) => o.violate(prop, format!("{:?}-panic", p.what), format!("amount {amount} fee {fee}: {e}")),
        }
        let state = format!(
            "{:?} {} {:?} {} {} {} {:?} {:?}",
            p.what,
            p.tr,
            net,
            c.p.payee.kind,
            c.p.sbtc.kind,
            amount.leading_zeros() / 4,
            res.as_ref().map(|t| (t.input.len(), t.output.len())),
            (legal, enough)
        );
        o.states.push(fnv(state.as_bytes()));
        res
    };
    let first = attempt(&mut o, wallet.take(), &mut keep, amount, fee, false);
    let again = match (&first, p.what) {
        (Some(_), What::Deposit) if p.twice => panics::guard(|| sync(p, sk, net)).ok().and_then(|r| r.ok()).map(Some),
        (Some(_), What::DepositFn) => Some(None),
        _ => keep.take().map(Some),
    };
    if let (Some(tx), Some(wl)) = (&first, again) {
        if p.twice {
            // Once more from the same wallet, now knowing the exact fee.
            let b = w.btc.borrow();
            let paid: u64 = b.prevouts(tx).map(|v| v.iter().map(|t| t.value).sum()).unwrap_or(0);
            let out: u64 = tx.output.iter().map(|t| t.value).sum();
            drop(b);
            let spent = paid.saturating_sub(out);
            if p.what == What::Request {
                fee = paid.saturating_sub(spent + pay_dust) / 2;
            } else {
                amount = paid.saturating_sub(spent) / 2;
            }
            attempt(&mut o, wl, &mut keep, amount, fee, true);
        }
    }
    let mut h = 0u64;
    for l in &o.log {
        h = mix(h, fnv(l.as_bytes()));
    }
    o.trace_hash = h;
    o
}
