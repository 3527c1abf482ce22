//! C01, C02: the deployed contracts under seeded histories of calls, with
//! transactions delayed, reordered, lost and repeated, and forks of both chains.
mod chain;
mod deploy;

use std::collections::{BTreeMap, BTreeSet};

use clarity::{CallResult, Ty, Vm, V};
use serde::{Deserialize, Serialize};
use simcore::{
    driver::{drive, main_with},
    fnv, mix, panics, Outcome, Rng, Scenario, Tier,
};

use chain::{dsha, Block, Burn, Claim, Id, ProofPlan, Tweak};

const CAP: u128 = 21_000_000 * 100_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Amt {
    N(u64),
    /// The balance of the debited account when it was written, and this much.
    Bal(i64),
    /// What is left to the cap, and this much.
    Room(i64),
    /// 2^n, and this much.
    Pow(u32, i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    Mint { amount: Amt, to: usize, proof: ProofPlan },
    Burn { amount: Amt, of: usize, proof: ProofPlan },
    Transfer { amount: Amt, of: usize, to: usize, memo: Option<u64> },
    SetOwner { to: usize },
    SetKey { salt: u64, len: u64 },
    /// Any public function, by number, with arguments made from the salt.
    Any { lib: bool, n: u64, salt: u64 },
    /// A header that was never mined, given to whatever function takes one.
    Plant { salt: u64, back: i64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// A Bitcoin block; some of its transactions are those of lost blocks.
    Bitcoin { txs: u64, salt: u64, carry: u64 },
    /// A Stacks block with some of the waiting transactions in some order.
    Stacks { order: u64, most: u64 },
    /// A transaction of `from` (the owner or holder, if it is nobody), calling through a
    /// contract if `via` says so.
    Send { from: usize, via: Option<usize>, call: Call },
    /// Somebody sends what was sent before.
    Again { n: u64, from: Option<usize> },
    Lose { n: u64 },
    StacksFork { depth: u64 },
    BitcoinFork { depth: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    deployment: usize,
    base: u64,
    steps: Vec<Step>,
}

#[derive(Clone, Debug)]
struct Tx {
    from: String,
    caller: String,
    lib: bool,
    func: String,
    args: Vec<V>,
    claim: Option<Claim>,
}

/// What the ledger should be.
#[derive(Clone, Debug, PartialEq)]
struct Model {
    owner: String,
    key: Option<Vec<u8>>,
    bal: BTreeMap<String, u128>,
    supply: u128,
    used: BTreeMap<Vec<u8>, i128>,
}

struct SBlock {
    burn: u64,
    /// Before this block.
    vm: Vm,
    model: Model,
    txs: Vec<Tx>,
}

struct World<'a> {
    prop: &'a str,
    who: Vec<String>,
    vm: Vm,
    model: Model,
    asset: String,
    lib: String,
    burn: Burn,
    lost: Vec<Id>,
    blocks: Vec<SBlock>,
    pool: Vec<Tx>,
    sent: Vec<Tx>,
    out: Outcome,
    hash: u64,
    states: BTreeSet<u64>,
}

fn who(owner: &str) -> Vec<String> {
    let mut w = vec![owner.to_string()];
    for u in ["ST1SJ3DTE5DN7X54YDH5D64R3BCB6A2AG2ZQ8YPD5", "ST2CY5V39NHDPWSXMW9QDT3HC3GD6Q6XX4CFRK9AG", "ST2JHG361ZXG51QTKY2NQCVBPPRRE2KZB1HR05NNC"] {
        w.push(u.into());
    }
    // contracts, which call with a sender of their own or of somebody
    w.push(format!("{}.vault", w[1]));
    w.push(format!("{}.swap", w[2]));
    w
}
const PEOPLE: usize = 4;

impl World<'_> {
    fn note(&mut self, s: String) {
        self.hash = mix(self.hash, fnv(s.as_bytes()));
        self.out.log.push(s);
    }
    fn bad(&mut self, prop: &str, class: impl Into<String>, d: String) {
        if prop == self.prop {
            self.out.violate(prop, class, d);
        }
    }

    fn amount(&self, a: &Amt, of: &str) -> u128 {
        let plus = |n: u128, d: i64| (n as i128).saturating_add(d as i128).max(0) as u128;
        match a {
            Amt::N(n) => *n as u128,
            Amt::Bal(d) => plus(self.model.bal.get(of).copied().unwrap_or(0), *d),
            Amt::Room(d) => plus(CAP.saturating_sub(self.model.supply), *d),
            Amt::Pow(n, d) if *n >= 127 => (1u128 << 127).wrapping_add(*d as i128 as u128),
            Amt::Pow(n, d) => plus(1u128 << n, *d),
        }
    }

    /// The transaction a call becomes when it is signed.
    fn build(&self, from: usize, via: Option<usize>, call: &Call) -> Option<Tx> {
        let account = |n: usize| {
            let holders: Vec<&String> = self.model.bal.keys().collect();
            match holders.len() {
                k @ 1.. if n >= self.who.len() => holders[n % k].clone(),
                _ => self.who[n % self.who.len()].clone(),
            }
        };
        let by = match call {
            _ if from < PEOPLE => self.who[from].clone(),
            Call::Transfer { of, .. } => account(*of),
            _ => self.model.owner.clone(),
        };
        let (from, caller) = match self.who[..PEOPLE].contains(&by) {
            true => (by, None),
            false => (self.who[1].clone(), Some(by)),
        };
        let caller = match (caller, via) {
            (Some(c), _) => c,
            (None, Some(v)) => self.who[PEOPLE + v % (self.who.len() - PEOPLE)].clone(),
            (None, None) => from.clone(),
        };
        let name = &account;
        let mut tx = Tx { from, caller, lib: false, func: String::new(), args: vec![], claim: None };
        let op = |func: &str, amount: u128, account: String, proof: &ProofPlan, tx: &mut Tx| {
            let seen = self.blocks.last().map_or(self.burn.base, |b| b.burn);
            let c = self.burn.claim(proof, seen);
            tx.func = func.into();
            tx.args = vec![
                V::UInt(amount),
                V::Principal(account),
                V::Buff(c.id.clone()),
                V::UInt(c.height),
                V::List(c.path.iter().map(|p| V::Buff(p.clone())).collect()),
                V::UInt(c.index),
                V::Buff(c.header.clone()),
            ];
            tx.claim = Some(c);
        };
        match call {
            Call::Mint { amount, to, proof } => op("mint", self.amount(amount, ""), name(*to), proof, &mut tx),
            Call::Burn { amount, of, proof } => op("burn", self.amount(amount, &name(*of)), name(*of), proof, &mut tx),
            Call::Transfer { amount, of, to, memo } => {
                tx.func = "transfer".into();
                let memo = match memo {
                    None => V::none(),
                    Some(m) => V::some(V::Buff(Rng::new(*m).bytes(*m as usize % 35))),
                };
                tx.args = vec![V::UInt(self.amount(amount, &name(*of))), V::Principal(name(*of)), V::Principal(name(*to)), memo];
            }
            Call::SetOwner { to } => {
                tx.func = "set-contract-owner".into();
                tx.args = vec![V::Principal(name(*to))];
            }
            Call::SetKey { salt, len } => {
                tx.func = "set-bitcoin-wallet-public-key".into();
                tx.args = vec![V::Buff(Rng::new(*salt).bytes(*len as usize))];
            }
            Call::Any { lib, n, salt } => {
                let id = if *lib { &self.lib } else { &self.asset };
                let mut fs = self.vm.publics(id);
                let (f, tys) = fs.swap_remove(*n as usize % fs.len().max(1).min(fs.len()));
                let mut r = Rng::new(*salt);
                (tx.lib, tx.func) = (*lib, f);
                tx.args = tys.iter().map(|t| self.value(&mut r, t)).collect();
                let a = &tx.args;
                if let ("mint" | "burn", [_, _, V::Buff(id), V::UInt(h), V::List(p), V::UInt(i), V::Buff(hd)]) = (tx.func.as_str(), &a[..]) {
                    let path = p.iter().filter_map(|p| if let V::Buff(b) = p { Some(b.clone()) } else { None }).collect();
                    tx.claim = Some(Claim { id: id.clone(), height: *h, path, index: *i, header: hd.clone() });
                }
            }
            Call::Plant { salt, back } => {
                let fs = self.vm.publics(&self.lib);
                let (f, tys) = fs.into_iter().find(|(_, t)| t.contains(&Ty::Buff(32)) && t.contains(&Ty::UInt))?;
                (tx.lib, tx.func) = (true, f);
                let h = (self.burn.tip() as i64 + back).max(0) as u128;
                let tip = self.burn.blocks.last().unwrap();
                let forged = Block::new(&tip.hash(), vec![dsha(&salt.to_le_bytes()), tip.ids[0]], *salt);
                tx.args = tys
                    .iter()
                    .map(|t| match t {
                        Ty::Buff(32) => V::Buff(chain::rev(&forged.hash())),
                        Ty::UInt => V::UInt(h),
                        t => self.value(&mut Rng::new(*salt), t),
                    })
                    .collect();
            }
        }
        Some(tx)
    }

    fn value(&self, r: &mut Rng, t: &Ty) -> V {
        match t {
            Ty::Int => V::Int(r.next() as i64 as i128),
            Ty::UInt => V::UInt(match r.below(4) {
                0 => r.below(3) as u128,
                1 => self.burn.tip() as u128,
                2 => r.below(1 << 40) as u128,
                _ => r.next() as u128,
            }),
            Ty::Bool => V::Bool(r.chance(1, 2)),
            Ty::Principal => V::Principal(r.pick(&self.who).clone()),
            Ty::Buff(n) => {
                let b = &self.burn.blocks[r.idx(self.burn.blocks.len())];
                V::Buff(match (n, r.chance(1, 2)) {
                    (32, true) => chain::rev(r.pick(&b.ids)),
                    (80, true) => b.header.clone(),
                    _ => {
                        let n = if r.chance(3, 4) { *n } else { r.range(0, *n) };
                        r.bytes(n as usize)
                    }
                })
            }
            Ty::Ascii(n) => V::Str("x".repeat(r.range(0, *n) as usize)),
            Ty::Utf8(n) => V::Utf8("x".repeat(r.range(0, *n) as usize)),
            Ty::List(n, t) => {
                let n = r.range(0, (*n).min(5));
                V::List((0..n).map(|_| self.value(r, t)).collect())
            }
            Ty::Tuple(m) => V::Tuple(m.iter().map(|(k, t)| (k.clone(), self.value(r, t))).collect()),
            Ty::Opt(t) if r.chance(1, 2) => V::some(self.value(r, t)),
            Ty::Opt(_) => V::none(),
            Ty::Resp(t, _) => V::ok(self.value(r, t)),
        }
    }

    // ----- the ledger as the contract tells it

    fn ask(&mut self, f: &str, args: &[V]) -> Option<V> {
        let id = self.asset.clone();
        let v = self.vm.read(&id, f, args)?;
        Some(match v {
            V::Resp(true, v) => *v,
            v => v,
        })
    }

    fn told(&mut self) -> Result<Model, String> {
        let asked = |f: &str, v: Option<V>| format!("{f} gives {v:?}");
        let owner = match self.ask("get-contract-owner", &[]) {
            Some(V::Principal(p)) => p,
            v => return Err(asked("get-contract-owner", v)),
        };
        let key = match self.ask("get-bitcoin-wallet-public-key", &[]) {
            Some(V::Opt(None)) => None,
            Some(V::Opt(Some(b))) => match *b {
                V::Buff(b) => Some(b),
                v => return Err(asked("get-bitcoin-wallet-public-key", Some(v))),
            },
            v => return Err(asked("get-bitcoin-wallet-public-key", v)),
        };
        let mut bal = BTreeMap::new();
        for w in self.who.clone() {
            match self.ask("get-balance", &[V::Principal(w.clone())]) {
                Some(V::UInt(0)) => {}
                Some(V::UInt(n)) => {
                    bal.insert(w, n);
                }
                v => return Err(asked("get-balance", v)),
            }
        }
        let supply = match self.ask("get-total-supply", &[]) {
            Some(V::UInt(n)) => n,
            v => return Err(asked("get-total-supply", v)),
        };
        Ok(Model { owner, key, bal, supply, used: self.model.used.clone() })
    }

    fn amount_of(&mut self, id: &[u8]) -> Option<i128> {
        match self.ask("get-amount-by-btc-txid", &[V::Buff(id.to_vec())]) {
            Some(V::Opt(Some(v))) => match *v {
                V::Int(n) => Some(n),
                V::UInt(n) => i128::try_from(n).ok(),
                _ => None,
            },
            _ => None,
        }
    }

    // ----- one call

    fn apply(&mut self, tx: &Tx, seen: u64) {
        let id = if tx.lib { self.lib.clone() } else { self.asset.clone() };
        let r = self.vm.call_as(&tx.from, &tx.caller, &id, &tx.func, &tx.args);
        let text = r.text();
        let what = format!("{} of {} through {} {}", tx.func, tx.from, tx.caller, tx.args.iter().take(3).map(|a| a.to_string()).collect::<Vec<_>>().join(" "));
        self.note(format!("  {what} -> {text}"));
        let before = self.model.clone();
        let mut want = before.clone();
        let ok = r.ok();
        let owner = tx.caller == before.owner;
        let func = if tx.lib { "" } else { tx.func.as_str() };
        let amt = |i: usize| if let Some(V::UInt(n)) = tx.args.get(i) { *n } else { 0 };
        let acc = |i: usize| if let Some(V::Principal(p)) = tx.args.get(i) { p.clone() } else { String::new() };
        let have = |m: &Model, w: &str| m.bal.get(w).copied().unwrap_or(0);
        let n = amt(0);
        let mut allowed = true;
        let mut due = false;
        match func {
            "mint" | "burn" => {
                let mint = func == "mint";
                let c = tx.claim.as_ref().unwrap();
                let a = acc(1);
                let holds = c.holds(&self.burn, seen);
                let used = before.used.contains_key(&c.id);
                allowed = owner;
                let covered = if mint { before.supply + n.min(CAP * 2) <= CAP } else { have(&before, &a) >= n };
                let sound = holds.is_ok() && !used;
                due = owner && n > 0 && covered && sound && !c.path.is_empty() && c.path.len() <= 14;
                if ok {
                    self.out.probe(func);
                    let signed = if mint { n as i128 } else { -(n as i128) };
                    if let Err(e) = holds {
                        self.bad("C02", format!("unproven-{func}-{e}"), what.clone());
                    }
                    if used {
                        self.bad("C02", format!("{func}-of-used-transaction"), what.clone());
                    }
                    want.used.insert(c.id.clone(), signed);
                    if mint {
                        *want.bal.entry(a).or_default() += n;
                        want.supply += n;
                    } else if covered {
                        *want.bal.entry(a).or_default() -= n;
                        want.supply -= n;
                    } else {
                        self.bad("C01", "burned-more-than-held", what.clone());
                    }
                    match self.amount_of(&c.id) {
                        Some(x) if x == signed => {}
                        x => self.bad("C02", "amount-not-recorded", format!("{what}: {x:?}")),
                    }
                } else {
                    match self.amount_of(&c.id) {
                        x if x == before.used.get(&c.id).copied() => {}
                        x => self.bad("C02", "failed-call-used-transaction", format!("{what}: {x:?}")),
                    }
                    if let Err(e) = holds {
                        self.out.probe(&format!("refused-{e}"));
                    } else if used {
                        self.out.probe("refused-replay");
                    }
                    // An owner's call that only the proof can have failed.
                    if due {
                        let p = match text.as_str() {
                            "(err u403)" | "(err u1)" | "(err u2)" | "(err u3)" => "C01",
                            _ => "C02",
                        };
                        self.bad(p, format!("{func}-refused-{}", slug(&text)), format!("{what} at height {} position {} of {}", c.height, c.index, self.burn.at(c.height).map_or(0, |b| b.ids.len())));
                        due = false;
                    }
                }
            }
            "transfer" => {
                let (a, b) = (acc(1), acc(2));
                allowed = tx.from == a || tx.caller == a;
                let covered = have(&before, &a) >= n;
                due = allowed && n > 0 && covered && a != b;
                if ok {
                    self.out.probe(func);
                    if covered {
                        *want.bal.entry(a).or_default() -= n;
                        *want.bal.entry(b).or_default() += n;
                    } else {
                        self.bad("C01", "sent-more-than-held", what.clone());
                    }
                }
            }
            "set-contract-owner" => {
                (allowed, due) = (owner, owner);
                if ok {
                    self.out.probe(func);
                    want.owner = acc(0);
                }
            }
            "set-bitcoin-wallet-public-key" => {
                (allowed, due) = (owner, owner);
                if ok {
                    self.out.probe(func);
                    want.key = if let Some(V::Buff(b)) = tx.args.first() { Some(b.clone()) } else { None };
                }
            }
            _ => self.out.probe("other-call"),
        }
        want.bal.retain(|_, n| *n > 0);
        if ok && !allowed {
            self.bad("C01", format!("{func}-by-anybody"), what.clone());
        }
        if !ok && due {
            self.bad("C01", format!("{func}-refused-{}", slug(&text)), what.clone());
        }
        if !ok && matches!(r, CallResult::Value(_)) {
            self.out.probe("refused");
        }
        match self.told() {
            Ok(mut t) => {
                t.used = want.used.clone();
                if t != want {
                    let class = if ok { format!("wrong-effect-of-{}", tx.func) } else { format!("failed-{}-had-effect", tx.func) };
                    self.bad("C01", class, format!("{what}: {t:?} instead of {want:?}"));
                }
                let sum: u128 = t.bal.values().sum();
                if t.supply != sum || self.vm.held(&self.asset) != sum || sum > CAP {
                    self.bad("C01", "supply-differs", format!("{what}: supply {} balances {sum} of {}", t.supply, self.vm.held(&self.asset)));
                }
            }
            Err(e) => self.bad("C01", "read-only-function", e),
        }
        // Go on from what is, so that one failure is reported once.
        if let Ok(t) = self.told() {
            let used = want.used;
            self.model = Model { used, ..t };
        }
        self.states.insert(fnv(format!("{:?}", self.model).as_bytes()));
        self.out.steps += 1;
        self.out.nontrivial |= ok;
    }

    // ----- the chains

    fn bitcoin(&mut self, txs: u64, salt: u64, carry: u64) {
        let mut r = Rng::new(salt);
        let mut ids: Vec<Id> = (0..txs.max(1)).map(|_| r.bytes(32).try_into().unwrap()).collect();
        for _ in 0..carry.min(self.lost.len() as u64) {
            let i = r.idx(self.lost.len());
            let id = self.lost.swap_remove(i);
            ids.insert(r.idx(ids.len()) + 1, id);
        }
        let prev = self.burn.blocks.last().map_or([0; 32], |b| b.hash());
        self.burn.blocks.push(Block::new(&prev, ids, salt));
        self.note(format!("bitcoin block {} with {} transactions", self.burn.tip(), self.burn.blocks.last().unwrap().ids.len()));
        self.out.sim_ms += 600_000;
    }

    fn stacks(&mut self, order: u64, most: u64) {
        // A block sees the burn chain up to its parent's burn block.
        let seen = self.blocks.last().map_or(self.burn.base, |b| b.burn);
        let burn = self.burn.tip();
        self.vm.burn_headers = (self.burn.base..=seen).map(|h| (h as u128, chain::rev(&self.burn.at(h as u128).unwrap().hash()))).collect();
        self.vm.burn_height = burn as u128;
        self.vm.stacks_height += 1;
        let mut pool = std::mem::take(&mut self.pool);
        let came: Vec<usize> = (0..pool.len()).collect();
        let mut by = came.clone();
        Rng::new(order).shuffle(&mut by);
        if by != came && order != 0 {
            self.out.fault("transactions-reordered");
        }
        if order == 0 {
            by = came;
        }
        let most = most as usize;
        if by.len() > most {
            self.out.fault("transactions-delayed");
        }
        let (now, later): (Vec<usize>, Vec<usize>) = (by[..by.len().min(most)].to_vec(), by[by.len().min(most)..].to_vec());
        self.note(format!("stacks block {} (burn {burn}, sees {seen}), {} transactions", self.vm.stacks_height, now.len()));
        let (vm, model) = (self.vm.clone(), self.model.clone());
        let txs: Vec<Tx> = now.iter().map(|i| pool[*i].clone()).collect();
        for t in &txs {
            self.apply(t, seen);
        }
        let mut later = later;
        later.sort();
        self.pool = later.iter().map(|i| pool[*i].clone()).collect();
        pool.clear();
        self.blocks.push(SBlock { burn, vm, model, txs });
        self.out.sim_ms += 30_000;
    }

    fn undo(&mut self, n: usize) {
        for _ in 0..n {
            let Some(b) = self.blocks.pop() else { return };
            self.vm = b.vm;
            self.vm.stacks_height -= 1;
            self.model = b.model;
            let mut txs = b.txs;
            txs.append(&mut self.pool);
            self.pool = txs;
        }
    }

    fn step(&mut self, s: &Step) {
        match s {
            Step::Bitcoin { txs, salt, carry } => self.bitcoin(*txs, *salt, *carry),
            Step::Stacks { order, most } => self.stacks(*order, *most),
            Step::Send { from, via, call } => {
                if let Some(t) = self.build(*from, *via, call) {
                    if via.is_some() {
                        self.out.probe("through-a-contract");
                    }
                    self.sent.push(t.clone());
                    self.pool.push(t);
                }
            }
            Step::Again { n, from } => {
                if self.sent.is_empty() {
                    return;
                }
                let mut t = self.sent[*n as usize % self.sent.len()].clone();
                if let Some(f) = from {
                    t.from = self.who[f % PEOPLE].clone();
                    t.caller = t.from.clone();
                }
                self.out.fault("transaction-repeated");
                self.pool.push(t);
            }
            Step::Lose { n } => {
                if !self.pool.is_empty() {
                    let n = *n as usize % self.pool.len();
                    self.pool.remove(n);
                    self.out.fault("transaction-lost");
                }
            }
            Step::StacksFork { depth } => {
                let n = (*depth as usize).min(self.blocks.len());
                if n > 0 {
                    self.undo(n);
                    self.out.fault("stacks-fork");
                    self.note(format!("stacks fork drops {n} blocks"));
                }
            }
            Step::BitcoinFork { depth } => {
                let n = (*depth as usize).min(self.burn.blocks.len() - 1);
                if n == 0 {
                    return;
                }
                let keep = self.burn.blocks.len() - n;
                for b in self.burn.blocks.drain(keep..) {
                    self.lost.extend(&b.ids[1..]);
                }
                let tip = self.burn.tip();
                let gone = self.blocks.iter().filter(|b| b.burn > tip).count();
                self.undo(gone);
                self.out.fault("bitcoin-fork");
                self.note(format!("bitcoin fork drops {n} blocks and {gone} stacks blocks"));
            }
        }
    }
}

fn slug(s: &str) -> String {
    let s: String = s.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(40).collect();
    s.trim_matches('-').into()
}

fn run(prop: &str, p: &Plan) -> Outcome {
    let mut out = Outcome::default();
    let plans = match deploy::plans() {
        Ok(d) => d,
        Err(e) => {
            out.violate("HARNESS", "deployment-plan", e);
            return out;
        }
    };
    let d = &plans[p.deployment % plans.len()];
    let mut vm = Vm::default();
    vm.burn_height = p.base as u128;
    for (name, src) in &d.contracts {
        if let Err(e) = vm.deploy(&format!("{}.{name}", d.owner), src) {
            out.violate("HARNESS", "deployment", format!("{name}: {e}"));
            return out;
        }
    }
    let mut w = World {
        prop,
        who: who(&d.owner),
        model: Model { owner: d.owner.clone(), key: None, bal: Default::default(), supply: 0, used: Default::default() },
        vm,
        asset: format!("{}.asset", d.owner),
        lib: format!("{}.clarity-bitcoin-mini", d.owner),
        burn: Burn { base: p.base, blocks: vec![] },
        lost: vec![],
        blocks: vec![],
        pool: vec![],
        sent: vec![],
        out,
        hash: 7,
        states: Default::default(),
    };
    w.note(format!("deployment {}", d.name));
    w.bitcoin(3, 1, 0);
    match w.told() {
        Ok(t) if t == w.model => {}
        Ok(t) => w.bad("C01", "deployed-state", format!("{t:?}")),
        Err(e) => w.bad("C01", "read-only-function", e),
    }
    let named = [("get-name", V::Str("sBTC".into())), ("get-symbol", V::Str("sBTC".into())), ("get-decimals", V::UInt(8))];
    for (f, v) in named {
        let got = w.ask(f, &[]);
        if got.as_ref() != Some(&v) {
            w.bad("C01", "token-description", format!("{f} gives {got:?}"));
        }
    }
    for s in &p.steps {
        w.step(s);
    }
    let mut out = w.out;
    out.states = w.states.into_iter().collect();
    out.trace_hash = w.hash;
    out
}

struct C(&'static str);

impl C {
    fn proof(&self, r: &mut Rng, right: u64) -> ProofPlan {
        ProofPlan {
            known: r.chance(4, 5),
            back: if r.chance(3, 4) { r.below(3) } else { r.below(12) },
            tx: if r.chance(1, 3) { r.next() } else { r.below(6) },
            tweak: if r.chance(right, 100) { Tweak::None } else { Tweak::any(r) },
        }
    }

    fn call(&self, r: &mut Rng, right: u64) -> Call {
        let amt = |r: &mut Rng| match r.below(12) {
            0 => Amt::N(0),
            1 => Amt::N(1),
            2 => Amt::N(u64::MAX),
            3 => Amt::Room(*r.pick(&[-1, 0, 1])),
            4 => Amt::Pow(*r.pick(&[63, 64, 126, 127]), *r.pick(&[-1, 0, 1])),
            5 | 6 => Amt::Bal(*r.pick(&[-1, 0, 0, 1])),
            7..=9 => Amt::N(r.range(1, 50)),
            _ => Amt::N(r.range(1, 50_000)),
        };
        let moving = if self.0 == "C01" { 34 } else { 8 };
        match r.below(100) {
            n if n < moving => Call::Transfer { amount: amt(r), of: r.idx(36), to: r.idx(6), memo: if r.chance(1, 2) { Some(r.next()) } else { None } },
            n if n < moving + 2 => Call::SetOwner { to: r.idx(6) },
            n if n < moving + 6 => Call::SetKey { salt: r.next(), len: *r.pick(&[0, 32, 33, 33]) },
            n if n < moving + 9 => Call::Any { lib: r.chance(1, 3), n: r.next(), salt: r.next() },
            n if n < moving + 12 => Call::Plant { salt: r.next(), back: r.range(0, 3) as i64 - 2 },
            n if n % 3 == 0 => Call::Burn { amount: amt(r), of: r.idx(36), proof: self.proof(r, right) },
            _ => Call::Mint { amount: amt(r), to: r.idx(6), proof: self.proof(r, right) },
        }
    }
}

impl Scenario for C {
    type Plan = Plan;

    fn gen(&self, seed: u64, index: u64, _tier: Tier) -> Plan {
        let mut r = Rng::new(mix(seed, 0xC0));
        let r = &mut r;
        let right = *r.pick(&[30, 60, 90, 100]);
        let owner = *r.pick(&[60, 85, 95]);
        let faults = *r.pick(&[0, 10, 25]);
        let n = r.range(8, 70);
        let mut steps = vec![];
        for _ in 0..n {
            let k = r.below(100);
            steps.push(if r.chance(faults, 100) {
                match r.below(6) {
                    0 => Step::StacksFork { depth: r.range(1, 4) },
                    1 => Step::BitcoinFork { depth: r.range(1, 4) },
                    2 => Step::Lose { n: r.next() },
                    _ => Step::Again { n: r.next(), from: if r.chance(1, 3) { Some(r.idx(4)) } else { None } },
                }
            } else if k < 15 {
                let txs = match r.below(24) {
                    0 => 1,
                    1 => r.range(20, 70),
                    2 => 1 << r.range(1, 7),
                    3 => (1 << r.range(1, 7)) + 1,
                    4 => (1 << r.range(2, 7)) - 1,
                    5 if r.chance(1, 40) => *r.pick(&[8191, 8192, 8193, 16383, 16384]),
                    _ => r.range(2, 9),
                };
                Step::Bitcoin { txs, salt: r.next(), carry: r.below(4) }
            } else if k < 40 {
                Step::Stacks { order: if r.chance(1, 2) { 0 } else { r.next() }, most: if r.chance(3, 4) { 100 } else { r.range(1, 4) } }
            } else {
                let via = if r.chance(1, 6) { Some(r.idx(2)) } else { None };
                let call = self.call(r, right);
                let from = match &call {
                    // its holder, mostly
                    Call::Transfer { .. } if r.chance(3, 4) => PEOPLE,
                    _ if r.chance(owner, 100) => PEOPLE,
                    _ => r.idx(PEOPLE),
                };
                Step::Send { from, via, call }
            });
        }
        // The first transactions need a block that is known.
        let mut first = vec![Step::Stacks { order: 0, most: 100 }];
        if r.chance(2, 3) {
            for tx in 0..r.range(1, 3) {
                let call = Call::Mint { amount: Amt::N(r.range(1, 90_000)), to: r.idx(6), proof: ProofPlan { known: true, back: 0, tx, tweak: Tweak::None } };
                first.push(Step::Send { from: PEOPLE, via: None, call });
            }
            first.push(Step::Stacks { order: 0, most: 100 });
        }
        steps.splice(0..0, first);
        steps.push(Step::Stacks { order: 0, most: 100 });
        steps.push(Step::Stacks { order: 0, most: 100 });
        Plan { deployment: index as usize % 2, base: if r.chance(1, 4) { r.below(5) } else { r.range(100, 800_000) }, steps }
    }

    fn run(&self, p: &Plan) -> Outcome {
        match panics::guard(|| run(self.0, p)) {
            Ok(o) => o,
            Err(e) => {
                let mut o = Outcome::default();
                o.violate("HARNESS", "harness-panic", e);
                o
            }
        }
    }

    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut out = vec![];
        let n = p.steps.len();
        let mut k = n / 2;
        while k >= 1 {
            let mut i = 0;
            while i + k <= n {
                let mut q = p.clone();
                q.steps.drain(i..i + k);
                out.push(q);
                i += k;
            }
            k /= 2;
        }
        for i in 0..n {
            let mut q = p.clone();
            match &mut q.steps[i] {
                Step::Bitcoin { txs, carry, .. } if *txs > 2 || *carry > 0 => (*txs, *carry) = ((*txs / 2).max(2).min(*txs), 0),
                Step::Stacks { order, most } if *order != 0 || *most != 100 => (*order, *most) = (0, 100),
                Step::Send { via: via @ Some(_), .. } => *via = None,
                Step::StacksFork { depth } | Step::BitcoinFork { depth } if *depth > 1 => *depth = 1,
                _ => continue,
            }
            out.push(q);
        }
        out
    }

    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 40_000,
            Tier::Thorough => 20_000_000,
        }
    }

    fn rule(&self) -> String {
        match self.0 {
            "C01" => "after every call the owner, key, balances and supply the contract reports are compared with a reference ledger that follows the property; non-trivial: at least one call succeeded",
            _ => "the claim of every mint and burn that succeeded is recomputed from the simulated Bitcoin chain the block could see, and every right claim must succeed once; non-trivial: at least one call succeeded",
        }
        .into()
    }

    fn real_components(&self) -> Vec<String> {
        vec!["asset.clar and the clarity-bitcoin-mini variant named by the testnet and devnet deployment plans, run from source".into(), "both deployment plans".into()]
    }

    fn stub_components(&self) -> Vec<String> {
        vec!["Clarity virtual machine: an interpreter of the language written for these checks".into(), "Bitcoin chain: headers and transaction ids; Stacks chain: order of calls and forks".into()]
    }

    fn assumptions(&self) -> Vec<String> {
        vec![
            "the interpreter gives the language's forms the meaning of the Clarity 2 reference (unit-tested on basic forms only); costs and type checks at deployment are not modelled".into(),
            "a Stacks block sees the burn chain up to its parent's burn block".into(),
            "ids of inner nodes of the merkle tree and one-transaction blocks are out of scope".into(),
        ]
    }

    fn state_measure(&self) -> String {
        "distinct ledgers (owner, key, balances, used transactions) after a call".into()
    }
}

fn main() {
    main_with(|p, cmd| {
        Some(match p {
            "C01" => drive(C("C01"), p, cmd),
            "C02" => drive(C("C02"), p, cmd),
            _ => return None,
        })
    })
}
