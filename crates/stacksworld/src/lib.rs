//! A Stacks chain that runs the repository's contracts in an interpreter, and
//! the part of a Stacks node's and API's HTTP interface a bridge uses.
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

use bitcoin::hashes::{sha256, Hash};
use blockstack_lib::{
    burnchains::Txid,
    chainstate::stacks::{
        CoinbasePayload, StacksPrivateKey, TransactionAnchorMode, TransactionPostConditionMode, StacksPublicKey, StacksTransaction, StacksTransactionSigner,
        TransactionAuth, TransactionContractCall, TransactionPayload, TransactionSpendingCondition,
        TransactionVersion,
    },
    codec::StacksMessageCodec,
    vm::types::{CharType, PrincipalData, SequenceData, Value},
    vm::{ClarityName, ContractName},
};
use clarity::{CallResult, Vm, V};
use serde_json::json;
use simrt::{
    net::{HttpReq, HttpResp, HttpServer},
    Sim, Time, SEC,
};
use simworld::btc::{raw, Btc};

pub const CONTRACTS: &str = "/repo/romeo/asset-contract/contracts";
pub const MAINNET_CHAIN: u32 = 1;
pub const TESTNET_CHAIN: u32 = 0x8000_0000;

pub fn to_v(v: &Value) -> V {
    match v {
        Value::Int(n) => V::Int(*n),
        Value::UInt(n) => V::UInt(*n),
        Value::Bool(b) => V::Bool(*b),
        Value::Sequence(SequenceData::Buffer(b)) => V::Buff(b.data.clone()),
        Value::Sequence(SequenceData::List(l)) => V::List(l.data.iter().map(to_v).collect()),
        Value::Sequence(SequenceData::String(CharType::ASCII(a))) => {
            V::Str(String::from_utf8_lossy(&a.data).into_owned())
        }
        Value::Principal(p) => V::Principal(p.to_string()),
        Value::Tuple(t) => V::Tuple(t.data_map.iter().map(|(k, v)| (k.to_string(), to_v(v))).collect()),
        Value::Optional(o) => V::Opt(o.data.as_ref().map(|v| Box::new(to_v(v)))),
        Value::Response(r) => V::Resp(r.committed, Box::new(to_v(&r.data))),
    }
}

/// After so many blocks a node gives up on what cannot be mined. Real nodes
/// wait for 256.
const STALE_BLOCKS: u64 = 6;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Status {
    Pending,
    /// Replaced by another transaction with the same nonce, or given up on.
    Dropped,
    Success(String),
    Abort(String),
    PostCondition,
}

#[derive(Clone, Debug)]
pub struct STx {
    pub raw: Vec<u8>,
    pub tx: StacksTransaction,
    pub sender: String,
    pub status: Status,
    pub arrived: Time,
    /// Not mined before this time.
    pub ready: Time,
    /// The node gives up on it at this time.
    pub expires: Option<Time>,
    /// When nodes dropped it, and when they took it again.
    pub drops: Vec<Time>,
    pub revived: Vec<Time>,
    /// The tip when it arrived.
    pub since: u64,
    pub block: Option<u64>,
}

impl STx {
    /// Whether no node had it any more at that time.
    pub fn gone(&self, at: Time) -> bool {
        let n = self.drops.iter().filter(|d| **d <= at).count();
        n > self.revived.iter().filter(|r| **r <= at).count()
    }
}

#[derive(Clone, Debug)]
pub struct SBlock {
    pub height: u64,
    pub hash: [u8; 32],
    pub burn: u64,
    pub txs: Vec<[u8; 32]>,
    pub at: Time,
}

/// One call of the asset contract that changed the token or its settings.
#[derive(Clone, Debug)]
pub struct Applied {
    pub at: Time,
    pub txid: [u8; 32],
    pub func: String,
    pub args: Vec<V>,
    pub sender: String,
    pub result: String,
    pub ok: bool,
    pub height: u64,
}

pub struct Chain {
    pub mainnet: bool,
    pub asset: String,
    pub owner: String,
    pub vm: Vm,
    pub base: u64,
    pub blocks: Vec<SBlock>,
    pub txs: BTreeMap<[u8; 32], STx>,
    pub pool: Vec<[u8; 32]>,
    pub nonces: BTreeMap<String, u64>,
    pub calls: Vec<Applied>,
    pub deployed: u64,
    pub preset: BTreeMap<String, u128>,
    btc: Rc<RefCell<Btc>>,
    coinbases: u64,
}

pub fn addr_text(a: &blockstack_lib::chainstate::stacks::StacksAddress) -> String {
    simworld::ops::c32address(a.version, &a.bytes.0)
}

fn contract(file: &str) -> String {
    std::fs::read_to_string(format!("{CONTRACTS}/{file}")).unwrap_or_else(|e| panic!("{file}: {e}"))
}

impl Chain {
    /// `owner` deploys the contracts in the first block, whose height is `base`.
    pub fn new(
        btc: Rc<RefCell<Btc>>,
        mainnet: bool,
        owner: &str,
        asset: &str,
        base: u64,
        balances: &BTreeMap<String, u128>,
    ) -> Chain {
        let mut vm = Vm::default();
        let burn = btc.borrow().tip();
        vm.stacks_height = base as u128;
        vm.burn_height = burn as u128;
        vm.deploy(&format!("{owner}.clarity-bitcoin-mini"), &contract("clarity-bitcoin-mini-deploy.clar"))
            .expect("clarity-bitcoin-mini");
        vm.deploy(&format!("{owner}.{asset}"), &contract("asset.clar")).expect("asset");
        let id = format!("{owner}.{asset}");
        for (a, n) in balances {
            vm.preset_balance(&id, "sbtc", a, *n);
        }
        let mut c = Chain {
            mainnet,
            asset: asset.into(),
            owner: owner.into(),
            vm,
            base,
            blocks: vec![],
            txs: Default::default(),
            pool: vec![],
            nonces: Default::default(),
            calls: vec![],
            deployed: base,
            preset: balances.clone(),
            btc,
            coinbases: 0,
        };
        c.nonces.insert(owner.into(), 2);
        c.push(burn, vec![], 0);
        c
    }

    pub fn id(&self) -> String {
        format!("{}.{}", self.owner, self.asset)
    }
    pub fn tip(&self) -> u64 {
        self.base + self.blocks.len() as u64 - 1
    }
    pub fn block(&self, h: u64) -> Option<&SBlock> {
        self.blocks.get(h.checked_sub(self.base)? as usize)
    }
    pub fn balances(&self) -> BTreeMap<String, u128> {
        self.vm.balances(&self.id(), "sbtc")
    }
    pub fn supply(&self) -> u128 {
        self.vm.supply(&self.id(), "sbtc")
    }
    pub fn wallet_key(&self) -> Option<Vec<u8>> {
        match self.vm.var(&self.id(), "bitcoin-wallet-public-key") {
            Some(V::Opt(Some(b))) => match &**b {
                V::Buff(b) => Some(b.clone()),
                _ => None,
            },
            _ => None,
        }
    }

    fn push(&mut self, burn: u64, txs: Vec<[u8; 32]>, at: Time) {
        let height = self.base + self.blocks.len() as u64;
        let mut pre = b"stacks block".to_vec();
        pre.extend(height.to_le_bytes());
        pre.extend(burn.to_le_bytes());
        for t in &txs {
            pre.extend(t);
        }
        let hash = sha256::Hash::hash(&pre).into_inner();
        self.blocks.push(SBlock { height, hash, burn, txs, at });
    }

    /// The nonce after the last one of an account, counting what waits in the
    /// mempool, and those before it that nothing uses.
    pub fn next_nonce(&self, who: &str) -> (u64, Vec<u64>) {
        let n = self.nonces.get(who).copied().unwrap_or(0);
        let pending: BTreeSet<u64> = self
            .pool
            .iter()
            .map(|t| &self.txs[t])
            .filter(|t| t.sender == who)
            .map(|t| t.tx.get_origin_nonce())
            .collect();
        let next = pending.iter().next_back().map_or(n, |l| n.max(l + 1));
        (next, (n..next).rev().filter(|m| !pending.contains(m)).collect())
    }

    /// What a node does with a transaction it is sent.
    pub fn submit(&mut self, bytes: &[u8], now: Time, ready: Time) -> Result<(StacksTransaction, bool), (u16, String)> {
        let refuse = |reason: &str| {
            Err((
                400,
                json!({"error": "transaction rejected", "reason": reason, "reason_data": {}}).to_string(),
            ))
        };
        let mut cur = bytes;
        let Ok(tx) = StacksTransaction::consensus_deserialize(&mut cur) else {
            return refuse("Deserialization");
        };
        if !cur.is_empty() {
            return refuse("Deserialization");
        }
        let id = tx.txid().0;
        let before = self.txs.get(&id).map(|t| t.status.clone());
        match before {
            Some(Status::Pending) => return Ok((tx, false)),
            // like one never seen
            Some(Status::Dropped) | None => {}
            Some(_) => return refuse("BadNonce"),
        }
        let (chain, version) = match self.mainnet {
            true => (MAINNET_CHAIN, TransactionVersion::Mainnet),
            false => (TESTNET_CHAIN, TransactionVersion::Testnet),
        };
        if tx.version != version || tx.chain_id != chain {
            return refuse("BadTransactionVersion");
        }
        if tx.verify().is_err() {
            return refuse("SignatureValidation");
        }
        if tx.get_tx_fee() < tx.tx_len() {
            return refuse("FeeTooLow");
        }
        let sender = addr_text(&tx.origin_address());
        let nonce = tx.get_origin_nonce();
        let have = self.nonces.get(&sender).copied().unwrap_or(0);
        if nonce < have {
            return refuse("BadNonce");
        }
        if nonce > have + 25 {
            return refuse("TooMuchChaining");
        }
        if let TransactionPayload::ContractCall(c) = &tx.payload {
            let id = format!("{}.{}", addr_text(&c.address), c.contract_name);
            if !self.vm.has(&id) && c.contract_name.as_str() == self.asset {
                return refuse("NoSuchContract");
            }
        }
        let rival = self
            .pool
            .iter()
            .position(|t| self.txs[t].sender == sender && self.txs[t].tx.get_origin_nonce() == nonce);
        if let Some(i) = rival {
            let old = self.pool[i];
            if self.txs[&old].tx.get_tx_fee() >= tx.get_tx_fee() {
                return refuse("ConflictingNonceInMempool");
            }
            let o = self.txs.get_mut(&old).unwrap();
            o.status = Status::Dropped;
            o.drops.push(now);
            self.pool.remove(i);
        }
        let (drops, mut revived) = self.txs.get(&id).map(|t| (t.drops.clone(), t.revived.clone())).unwrap_or_default();
        if !drops.is_empty() {
            revived.push(now);
        }
        let tip = self.tip();
        self.pool.push(id);
        self.txs.insert(
            id,
            STx {
                raw: bytes.to_vec(),
                tx: tx.clone(),
                sender,
                status: Status::Pending,
                arrived: now,
                ready,
                expires: None,
                drops,
                revived,
                since: tip,
                block: None,
            },
        );
        Ok((tx, before.is_none()))
    }

    /// Forgets what the node gave up on, and what has waited too long for a
    /// nonce that nothing uses.
    pub fn expire(&mut self, now: Time) -> Vec<[u8; 32]> {
        let tip = self.tip();
        let mut over = vec![];
        for id in &self.pool {
            let t = &self.txs[id];
            let first = self.nonces.get(&t.sender).copied().unwrap_or(0);
            let n = t.tx.get_origin_nonce();
            let stuck = tip >= t.since + STALE_BLOCKS
                && (first..n).any(|m| !self.pool.iter().any(|o| self.txs[o].sender == t.sender && self.txs[o].tx.get_origin_nonce() == m));
            if stuck || t.expires.is_some_and(|e| e <= now) {
                over.push(*id);
            }
        }
        self.pool.retain(|t| !over.contains(t));
        for id in &over {
            let t = self.txs.get_mut(id).unwrap();
            t.status = Status::Dropped;
            t.drops.push(t.expires.map_or(now, |e| e.min(now)));
            t.expires = Some(now);
        }
        over
    }

    /// Mines a Stacks block anchored in the Bitcoin block at `burn`; `extra`
    /// are transactions of others.
    pub fn produce(&mut self, burn: u64, extra: Vec<StacksTransaction>, now: Time) -> u64 {
        self.expire(now);
        let height = self.base + self.blocks.len() as u64;
        // A block sees the burn chain up to its parent's burn block.
        let seen = self.blocks.last().map_or(0, |b| b.burn);
        {
            let b = self.btc.borrow();
            let from = self.vm.burn_headers.keys().next_back().map_or(b.base as u128, |h| h + 1);
            for h in from..=seen as u128 {
                let mut id = b.block(h as u64).unwrap().hash.to_vec();
                id.reverse();
                self.vm.burn_headers.insert(h, id);
            }
        }
        self.vm.stacks_height = height as u128;
        self.vm.burn_height = burn as u128;
        let mut list = vec![];
        self.coinbases += 1;
        let mut cb = [0; 32];
        cb[..8].copy_from_slice(&self.coinbases.to_le_bytes());
        let cb = make_tx(
            self.mainnet,
            &[0x11; 32],
            self.coinbases,
            0,
            TransactionPayload::Coinbase(CoinbasePayload(cb)),
        );
        let first = self.note(&cb, now);
        self.txs.get_mut(&first).unwrap().status = Status::Success("(ok true)".into());
        list.push(first);
        for t in extra {
            let id = self.note(&t, now);
            self.run(&id, height, now);
            list.push(id);
        }
        loop {
            let next = self.pool.iter().position(|t| {
                let t = &self.txs[t];
                t.ready <= now && t.expires.is_none() && t.tx.anchor_mode != TransactionAnchorMode::OffChainOnly && t.tx.get_origin_nonce() == self.nonces.get(&t.sender).copied().unwrap_or(0)
            });
            let Some(i) = next else { break };
            let id = self.pool.remove(i);
            let who = self.txs[&id].sender.clone();
            *self.nonces.entry(who).or_default() += 1;
            self.run(&id, height, now);
            list.push(id);
        }
        for id in &list {
            self.txs.get_mut(id).unwrap().block = Some(height);
        }
        self.push(burn, list, now);
        height
    }

    fn note(&mut self, tx: &StacksTransaction, now: Time) -> [u8; 32] {
        let id = tx.txid().0;
        self.txs.insert(
            id,
            STx {
                raw: tx.serialize_to_vec(),
                tx: tx.clone(),
                sender: addr_text(&tx.origin_address()),
                status: Status::Pending,
                arrived: now,
                ready: now,
                expires: None,
                drops: vec![],
                revived: vec![],
                since: 0,
                block: None,
            },
        );
        id
    }

    fn run(&mut self, id: &[u8; 32], height: u64, now: Time) {
        let t = self.txs[id].clone();
        let status = match &t.tx.payload {
            TransactionPayload::ContractCall(c) => {
                let cid = format!("{}.{}", addr_text(&c.address), c.contract_name);
                let args: Vec<V> = c.function_args.iter().map(to_v).collect();
                // Burning somebody's token moves an asset that no condition names.
                let denied = t.tx.post_condition_mode == TransactionPostConditionMode::Deny && c.function_name.as_str() == "burn";
                let r = match denied && cid == self.id() {
                    true => CallResult::Abort("post condition".into()),
                    false => self.vm.call(&t.sender, &cid, c.function_name.as_str(), &args),
                };
                if cid == self.id() {
                    self.calls.push(Applied {
                        at: now,
                        txid: *id,
                        func: c.function_name.to_string(),
                        args,
                        sender: t.sender.clone(),
                        result: r.text(),
                        ok: r.ok(),
                        height,
                    });
                }
                match &r {
                    _ if r.ok() => Status::Success(r.text()),
                    CallResult::Value(_) => Status::Abort(r.text()),
                    CallResult::Abort(_) if denied => Status::PostCondition,
                    CallResult::Abort(_) => Status::Abort("(err none)".into()),
                }
            }
            _ => Status::Success("(ok true)".into()),
        };
        self.txs.get_mut(id).unwrap().status = status;
    }
}

/// Builds and signs a transaction of somebody.
pub fn make_tx(mainnet: bool, key: &[u8; 32], nonce: u64, fee: u64, payload: TransactionPayload) -> StacksTransaction {
    let sk = StacksPrivateKey::from_slice(key).unwrap();
    let pk = StacksPublicKey::from_private(&sk);
    let auth = TransactionAuth::Standard(TransactionSpendingCondition::new_singlesig_p2pkh(pk).unwrap());
    let version = if mainnet { TransactionVersion::Mainnet } else { TransactionVersion::Testnet };
    let mut tx = StacksTransaction::new(version, auth, payload);
    tx.chain_id = if mainnet { MAINNET_CHAIN } else { TESTNET_CHAIN };
    tx.set_origin_nonce(nonce);
    tx.set_tx_fee(fee);
    let mut s = StacksTransactionSigner::new(&tx);
    s.sign_origin(&sk).unwrap();
    s.get_tx().unwrap()
}

pub fn call_payload(contract: &str, func: &str, args: Vec<Value>) -> Option<TransactionPayload> {
    let (a, n) = contract.split_once('.')?;
    Some(TransactionPayload::ContractCall(TransactionContractCall {
        address: parse_address(a)?,
        contract_name: ContractName::try_from(n.to_string()).ok()?,
        function_name: ClarityName::from(func),
        function_args: args,
    }))
}

fn parse_address(a: &str) -> Option<blockstack_lib::chainstate::stacks::StacksAddress> {
    // c32 with the leading 'S' and the version digit
    const C32: &str = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
    let mut it = a.chars().skip(1);
    let version = C32.find(it.next()?)? as u8;
    let mut out = vec![0u8; 24];
    for c in it {
        let d = C32.find(c)? as u32;
        let mut carry = d;
        for b in out.iter_mut().rev() {
            let v = (*b as u32) * 32 + carry;
            *b = v as u8;
            carry = v >> 8;
        }
    }
    let h: [u8; 20] = out[..20].try_into().ok()?;
    Some(blockstack_lib::chainstate::stacks::StacksAddress {
        version,
        bytes: blockstack_lib::util::hash::Hash160(h),
    })
}

pub fn principal(bytes: &[u8]) -> PrincipalData {
    PrincipalData::consensus_deserialize(&mut &bytes[..]).unwrap()
}

/// A transaction that reached the node.
#[derive(Clone, Debug)]
pub struct Post {
    pub at: Time,
    pub epoch: u64,
    pub raw: Vec<u8>,
    /// Accepted: whether it was new to the node.
    pub result: Result<bool, String>,
}

#[derive(Clone, Debug)]
pub struct BlockReq {
    pub at: Time,
    pub epoch: u64,
    pub height: u64,
    pub found: bool,
}

type PostHook = Rc<dyn Fn(&Rc<Sim>, &StacksTransaction, &Post)>;

pub struct Node {
    pub chain: Rc<RefCell<Chain>>,
    pub posts: RefCell<Vec<Post>>,
    pub block_reqs: RefCell<Vec<BlockReq>>,
    /// Nonce answers given: time, process, nonce.
    pub nonces: RefCell<Vec<(Time, u64, u64)>>,
    pub on_post: RefCell<Option<PostHook>>,
    /// How far the API is behind the chain.
    pub lag: Time,
    pub fee: Cell<u64>,
    /// The key without which the API refuses to work.
    pub key: RefCell<Option<String>>,
    /// How long transactions wait at most before they may be mined.
    pub inclusion: Time,
    /// Until when the API does not list a waiting transaction.
    pub unlisted: RefCell<BTreeMap<[u8; 32], Time>>,
    /// What a cache in front of the API holds: by URL, since when.
    cache: RefCell<BTreeMap<String, (Time, HttpResp)>>,
}

/// How long the cache in front of the API keeps an answer.
const CACHED: Time = 90 * SEC;

impl Node {
    pub fn new(chain: Rc<RefCell<Chain>>, lag: Time, fee: u64, inclusion: Time) -> Node {
        Node {
            chain,
            posts: Default::default(),
            block_reqs: Default::default(),
            nonces: Default::default(),
            on_post: Default::default(),
            lag,
            fee: Cell::new(fee),
            key: Default::default(),
            inclusion,
            unlisted: Default::default(),
            cache: Default::default(),
        }
    }

    fn tip(&self, sim: &Sim) -> u64 {
        let c = self.chain.borrow();
        let t = sim.now().saturating_sub(self.lag);
        let n = c.blocks.iter().take_while(|b| b.at == 0 || b.at <= t).count().max(1);
        c.base + n as u64 - 1
    }

    fn answer(&self, sim: &Rc<Sim>, req: &HttpReq) -> HttpResp {
        let after = req.url.find("://").map_or(0, |i| i + 3);
        let path = req.url[after..].find('/').map_or("/", |i| &req.url[after + i..]);
        let path = path.split('?').next().unwrap();
        let parts: Vec<&str> = path.trim_matches('/').split('/').collect();
        let js = |v: serde_json::Value| HttpResp {
            status: 200,
            headers: vec![("content-type".into(), "application/json".into())],
            body: v.to_string().into_bytes(),
        };
        let missing = |m: &str| HttpResp {
            status: 404,
            headers: vec![("content-type".into(), "application/json".into())],
            body: json!({ "error": m }).to_string().into_bytes(),
        };
        for id in self.chain.borrow_mut().expire(sim.now()) {
            sim.ev(format_args!("stacks drops {}", hex::encode(id)));
        }
        let tip = self.tip(sim);
        let block_json = |b: &SBlock| {
            json!({
                "canonical": true, "height": b.height, "hash": format!("0x{}", hex::encode(b.hash)),
                "burn_block_height": b.burn, "burn_block_time": 1_690_000_000u64 + b.burn * 600,
                "txs": b.txs.iter().map(|t| format!("0x{}", hex::encode(t))).collect::<Vec<_>>(),
                "microblocks_accepted": [], "microblocks_streamed": [],
            })
        };
        match (req.method.as_str(), &parts[..]) {
            ("POST", ["v2", "transactions"]) => {
                let ready = sim.now()
                    + match sim.fault("stacks.late") {
                        Some(a) => (a as u128 * self.inclusion as u128 / 1_000_000) as u64,
                        None => 0,
                    };
                let ready = ready.min(sim.cfg.quiet);
                let r = self.chain.borrow_mut().submit(&req.body, sim.now(), ready);
                if let Ok((tx, _)) = &r {
                    sim.world_point("stacks.accepted");
                    // The API does not list everything that waits.
                    if let Some(a) = sim.fault("stacks.unlisted") {
                        let until = (sim.now() + 1 + a * 200 * SEC / 1_000_000).min(sim.cfg.quiet);
                        self.unlisted.borrow_mut().insert(tx.txid().0, until);
                    }
                    if let Some(a) = sim.fault("stacks.drop") {
                        let at = sim.now() + 1 + a * 400 * SEC / 1_000_000;
                        if at <= sim.cfg.quiet {
                            self.chain.borrow_mut().txs.get_mut(&tx.txid().0).unwrap().expires = Some(at);
                        }
                    }
                }
                let post = Post {
                    at: sim.now(),
                    epoch: req.epoch as u64,
                    raw: req.body.clone(),
                    result: r.as_ref().map(|x| x.1).map_err(|e| e.1.clone()),
                };
                sim.ev(format_args!(
                    "stacks post {} -> {:?}",
                    r.as_ref().map(|x| x.0.txid().to_string()).unwrap_or_default(),
                    post.result
                ));
                let mut cur = &req.body[..];
                if let Ok(tx) = StacksTransaction::consensus_deserialize(&mut cur) {
                    let hook = self.on_post.borrow().clone();
                    if let Some(h) = hook {
                        h(sim, &tx, &post);
                    }
                }
                self.posts.borrow_mut().push(post);
                match r {
                    Ok((tx, _)) => js(json!(tx.txid().to_string())),
                    Err((status, body)) => HttpResp {
                        status,
                        headers: vec![("content-type".into(), "application/json".into())],
                        body: body.into_bytes(),
                    },
                }
            }
            ("GET", ["v2", "fees", "transfer"]) => js(json!(self.fee.get())),
            ("GET", ["extended", "v1", "address", who, "nonces"]) => {
                let c = self.chain.borrow();
                let (next, missing) = c.next_nonce(who);
                let have = c.nonces.get(*who).copied().unwrap_or(0);
                if *who == c.owner {
                    for n in missing.iter().chain([&next]) {
                        self.nonces.borrow_mut().push((sim.now(), req.epoch as u64, *n));
                    }
                }
                js(json!({
                    "last_executed_tx_nonce": have.checked_sub(1),
                    "last_mempool_tx_nonce": if next > have { Some(next - 1) } else { None },
                    "possible_next_nonce": next,
                    "detected_missing_nonces": missing, "detected_mempool_nonces": [],
                }))
            }
            ("GET", ["extended", "v1", "contract", id]) => {
                let c = self.chain.borrow();
                if *id == c.id() {
                    js(json!({"tx_id": format!("0x{}", "ab".repeat(32)), "canonical": true,
                        "contract_id": id, "block_height": c.deployed, "source_code": "", "abi": "{}"}))
                } else {
                    missing("cannot find contract by ID")
                }
            }
            ("GET", ["extended", "v1", "block", "by_height", h]) => {
                let h: u64 = h.parse().unwrap_or(u64::MAX);
                let c = self.chain.borrow();
                let b = c.block(h).filter(|b| b.height <= tip);
                self.block_reqs.borrow_mut().push(BlockReq {
                    at: sim.now(),
                    epoch: req.epoch as u64,
                    height: h,
                    found: b.is_some(),
                });
                match b {
                    Some(b) => js(block_json(b)),
                    None => missing("cannot find block by height"),
                }
            }
            ("GET", ["extended", "v1", "block", "by_burn_block_height", h]) => {
                let h: u64 = h.parse().unwrap_or(u64::MAX);
                let c = self.chain.borrow();
                let b = c.blocks.iter().rev().find(|b| b.burn == h && b.height <= tip);
                match b {
                    Some(b) => js(block_json(b)),
                    None => missing("cannot find block by burn_block_height"),
                }
            }
            ("GET", ["extended", "v1", "tx", id, "raw"]) => match self.tx(sim, id, tip) {
                Some((t, _)) => js(json!({"raw_tx": format!("0x{}", hex::encode(&t.raw))})),
                None => missing("could not find transaction by ID"),
            },
            ("GET", ["extended", "v1", "tx", id]) => match self.tx(sim, id, tip) {
                Some((t, mined)) => {
                    let (s, repr) = match &t.status {
                        _ if !mined => ("pending", None),
                        Status::Success(r) => ("success", Some(r.clone())),
                        Status::Abort(r) => ("abort_by_response", Some(r.clone())),
                        Status::Pending => ("pending", None),
                        Status::PostCondition => ("abort_by_post_condition", Some("(ok true)".to_string())),
                        Status::Dropped if t.expires.is_some() => ("dropped_stale_garbage_collect", None),
                        Status::Dropped => ("dropped_replace_by_fee", None),
                    };
                    let mut j = json!({
                        "tx_id": format!("0x{}", t.tx.txid()), "tx_status": s,
                        "nonce": t.tx.get_origin_nonce(), "fee_rate": t.tx.get_tx_fee().to_string(),
                        "sender_address": t.sender, "tx_type": "contract_call",
                    });
                    if let Some(r) = repr {
                        j["tx_result"] = json!({"hex": "0x", "repr": r});
                        j["block_height"] = json!(t.block);
                        j["canonical"] = json!(true);
                    }
                    js(j)
                }
                None => missing("could not find transaction by ID"),
            },
            ("GET", ["v2", "info"]) => js(json!({
                "burn_block_height": self.chain.borrow().block(tip).unwrap().burn, "stacks_tip_height": tip,
            })),
            _ => missing("not found"),
        }
    }

    fn tx(&self, sim: &Sim, id: &str, tip: u64) -> Option<(STx, bool)> {
        let id = Txid::from_hex(id.trim_start_matches("0x")).ok()?;
        let c = self.chain.borrow();
        let t = c.txs.get(&id.0)?.clone();
        let mined = t.block.is_some_and(|b| b <= tip) || t.status == Status::Dropped;
        if t.block.is_some() && !mined && t.tx.payload_is_foreign(&c.owner, &t.sender) {
            return None;
        }
        if !mined && self.unlisted.borrow().get(&id.0).is_some_and(|u| sim.now() < *u) {
            return None;
        }
        Some((t, mined))
    }
}

trait Foreign {
    fn payload_is_foreign(&self, owner: &str, sender: &str) -> bool;
}
impl Foreign for StacksTransaction {
    fn payload_is_foreign(&self, owner: &str, sender: &str) -> bool {
        owner != sender
    }
}

fn failure(status: u16) -> HttpResp {
    HttpResp {
        status,
        headers: vec![("content-type".into(), "text/html".into())],
        body: format!("<html><body><h1>{status}</h1></body></html>").into_bytes(),
    }
}

impl HttpServer for Node {
    fn handle(&self, sim: &Rc<Sim>, req: &HttpReq) -> HttpResp {
        if let Some(k) = sim.outage("stacks") {
            if let Ok(s) = k.parse::<u16>() {
                return failure(s);
            }
        }
        if let Some(a) = sim.fault("stacks.busy") {
            return failure([429, 502, 503, 504, 522, 500][(a % 6) as usize]);
        }
        let header = |name: &str| {
            req.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
        };
        let key = self.key.borrow();
        if key.is_some() && header("x-hiro-api-key") != key.as_deref() {
            sim.probe("stacks-api-key-missing");
            return failure(401);
        }
        if req.method == "POST" && header("content-type") != Some("application/octet-stream") {
            sim.probe("stacks-content-type");
            return failure(400);
        }
        // A cache answers what it was asked before.
        let cached = (req.method == "GET" && sim.now() < sim.cfg.quiet)
            .then(|| self.cache.borrow().get(&req.url).filter(|(at, _)| sim.now() < at + CACHED).cloned())
            .flatten();
        if let Some((_, r)) = cached {
            if sim.fault("stacks.stale").is_some() {
                if let Some((_, h)) = req.url.split_once("/block/by_height/") {
                    let h = h.split('?').next().unwrap().parse().unwrap_or(u64::MAX);
                    self.block_reqs.borrow_mut().push(BlockReq {
                        at: sim.now(),
                        epoch: req.epoch as u64,
                        height: h,
                        found: true,
                    });
                }
                return r;
            }
        }
        let r = self.answer(sim, req);
        if req.method == "GET" && r.status == 200 {
            let mut cache = self.cache.borrow_mut();
            let old = cache.get(&req.url).is_none_or(|(at, _)| sim.now() >= at + CACHED);
            if old {
                cache.insert(req.url.clone(), (sim.now(), r.clone()));
            }
        }
        // The gateway gives up although the node has done its work.
        if let Some(a) = sim.fault("stacks.gateway") {
            return failure([502, 504][(a % 2) as usize]);
        }
        r
    }
}

/// Header bytes of the block at `height`.
pub fn header(btc: &Btc, height: u64) -> Option<Vec<u8>> {
    btc.block(height).map(|b| raw(&b.block.header))
}

pub const DEFAULT_INCLUSION: Time = 1500 * SEC;
