//! An Electrum server indexing the simulated chain, possibly behind it.
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

use bitcoin::{
    consensus::deserialize,
    hashes::{hex::FromHex, sha256, Hash},
    Script, Transaction, Txid,
};
use serde_json::{json, Value};
use simrt::{net::Server, Sim, Time};

use crate::btc::{raw, Btc};

pub struct Electrum {
    pub btc: Rc<RefCell<Btc>>,
    bufs: RefCell<BTreeMap<u64, Vec<u8>>>,
    /// Indexing delay: what happened less than this ago is not shown.
    pub lag: Time,
    /// BTC per 1000 vbytes; negative means unknown.
    pub fee: f64,
    /// (time, txid hex, accepted) of broadcasts.
    pub broadcasts: RefCell<Vec<(Time, Txid, bool)>>,
    /// Raw transactions reported to clients.
    pub reported: RefCell<BTreeMap<Txid, Time>>,
    pub requests: RefCell<u64>,
}

pub fn scripthash(s: &Script) -> String {
    let mut h = sha256::Hash::hash(s.as_bytes()).into_inner();
    h.reverse();
    hex::encode(h)
}

impl Electrum {
    pub fn new(btc: Rc<RefCell<Btc>>, lag: Time, fee: f64) -> Electrum {
        Electrum {
            btc,
            bufs: Default::default(),
            lag,
            fee,
            broadcasts: Default::default(),
            reported: Default::default(),
            requests: Default::default(),
        }
    }

    fn horizon(&self, sim: &Sim) -> Time {
        sim.now().saturating_sub(self.lag)
    }

    fn tip(&self, sim: &Sim) -> u64 {
        let b = self.btc.borrow();
        let h = self.horizon(sim);
        let n = b.blocks.iter().take_while(|r| r.at <= h || r.at == 0).count().max(1);
        b.base + n as u64 - 1
    }

    fn history(&self, sim: &Sim, sh: &str) -> Vec<(Txid, i64, u64)> {
        let tip = self.tip(sim);
        let h = self.horizon(sim);
        let b = self.btc.borrow();
        let mut conf = vec![];
        let mut unconf = vec![];
        for (s, ids) in &b.history {
            if scripthash(s) != sh {
                continue;
            }
            for id in ids {
                let t = &b.txs[id];
                match t.mined {
                    Some((height, pos)) if height <= tip => conf.push((height, pos, *id)),
                    _ if t.seen <= h => {
                        let chained = t.tx.input.iter().any(|i| {
                            b.txs
                                .get(&i.previous_output.txid)
                                .map_or(false, |p| p.mined.map_or(true, |m| m.0 > tip))
                        });
                        unconf.push((*id, if chained { -1 } else { 0 }, t.fee))
                    }
                    _ => {}
                }
            }
        }
        conf.sort();
        conf.into_iter()
            .map(|(h, _, id)| (id, h as i64, 0))
            .chain(unconf)
            .collect()
    }

    fn call(&self, sim: &Rc<Sim>, method: &str, p: &[Value]) -> Result<Value, Value> {
        let bad = |m: &str| json!({"code": 1, "message": m});
        match method {
            "server.version" => Ok(json!(["sim", "1.4"])),
            "server.ping" => Ok(Value::Null),
            "server.banner" => Ok(json!("")),
            "server.features" => Ok(json!({
                "server_version": "sim", "genesis_hash": "00".repeat(32),
                "protocol_min": "1.4", "protocol_max": "1.4",
                "hash_function": "sha256", "pruning": null })),
            "blockchain.headers.subscribe" => {
                let t = self.tip(sim);
                let b = self.btc.borrow();
                Ok(json!({"height": t, "hex": hex::encode(raw(&b.block(t).unwrap().block.header))}))
            }
            "blockchain.block.header" => {
                let h = p.first().and_then(|v| v.as_u64()).ok_or_else(|| bad("height"))?;
                let b = self.btc.borrow();
                if h > self.tip(sim) {
                    return Err(bad("height out of range"));
                }
                match b.block(h) {
                    Some(r) => Ok(json!(hex::encode(raw(&r.block.header)))),
                    None => Err(bad("height out of range")),
                }
            }
            "blockchain.block.headers" => {
                let h = p.first().and_then(|v| v.as_u64()).ok_or_else(|| bad("height"))?;
                let n = p.get(1).and_then(|v| v.as_u64()).ok_or_else(|| bad("count"))?;
                let tip = self.tip(sim);
                let b = self.btc.borrow();
                let mut out = vec![];
                let mut count = 0;
                for x in h..h.saturating_add(n.min(2016)) {
                    if x > tip {
                        break;
                    }
                    let Some(r) = b.block(x) else { break };
                    out.extend(raw(&r.block.header));
                    count += 1;
                }
                Ok(json!({"count": count, "hex": hex::encode(out), "max": 2016}))
            }
            "blockchain.scripthash.get_history" | "blockchain.scripthash.get_mempool" => {
                let sh = p.first().and_then(|v| v.as_str()).ok_or_else(|| bad("hash"))?;
                let only_mempool = method.ends_with("mempool");
                let items: Vec<Value> = self
                    .history(sim, sh)
                    .into_iter()
                    .filter(|(_, h, _)| !only_mempool || *h <= 0)
                    .map(|(id, h, fee)| {
                        if h > 0 {
                            json!({"tx_hash": id.to_string(), "height": h})
                        } else {
                            json!({"tx_hash": id.to_string(), "height": h, "fee": fee})
                        }
                    })
                    .collect();
                Ok(json!(items))
            }
            "blockchain.scripthash.listunspent" | "blockchain.scripthash.get_balance" => {
                let sh = p.first().and_then(|v| v.as_str()).ok_or_else(|| bad("hash"))?;
                let hist = self.history(sim, sh);
                let ids: Vec<Txid> = hist.iter().map(|h| h.0).collect();
                let b = self.btc.borrow();
                let (mut c, mut u, mut out) = (0u64, 0u64, vec![]);
                for (id, h, _) in &hist {
                    for (n, o) in b.txs[id].tx.output.iter().enumerate() {
                        let op = bitcoin::OutPoint::new(*id, n as u32);
                        let spent = b.spent.get(&op).map_or(false, |s| ids.contains(s));
                        if scripthash(&o.script_pubkey) == sh && !spent {
                            if *h > 0 { c += o.value } else { u += o.value }
                            out.push(json!({"tx_hash": id.to_string(), "tx_pos": n, "height": (*h).max(0), "value": o.value}));
                        }
                    }
                }
                if method.ends_with("balance") {
                    return Ok(json!({"confirmed": c, "unconfirmed": u}));
                }
                Ok(json!(out))
            }
            "blockchain.scripthash.subscribe" => Ok(Value::Null),
            "blockchain.transaction.get" => {
                let id = p.first().and_then(|v| v.as_str()).ok_or_else(|| bad("txid"))?;
                let id = Txid::from_hex(id).map_err(|_| bad("txid"))?;
                let b = self.btc.borrow();
                match b.txs.get(&id) {
                    Some(t) => {
                        self.reported.borrow_mut().entry(id).or_insert(sim.now());
                        Ok(json!(hex::encode(raw(&t.tx))))
                    }
                    None => Err(bad("No such mempool or blockchain transaction.")),
                }
            }
            "blockchain.estimatefee" => Ok(json!(self.fee)),
            "blockchain.relayfee" => Ok(json!(0.00001)),
            "blockchain.transaction.broadcast" => {
                let h = p.first().and_then(|v| v.as_str()).ok_or_else(|| bad("hex"))?;
                let bytes = hex::decode(h).map_err(|_| bad("hex"))?;
                let tx: Transaction =
                    deserialize(&bytes).map_err(|_| bad("TX decode failed"))?;
                let id = tx.txid();
                // Policies of the node behind the server differ.
                let r = match sim.fault("electrum.refuse") {
                    Some(a) => Err(REFUSALS[a as usize % REFUSALS.len()].to_string()),
                    None => self.btc.borrow_mut().submit(&tx, sim.now()),
                };
                sim.ev(format_args!("electrum broadcast {id} -> {r:?}"));
                self.broadcasts.borrow_mut().push((sim.now(), id, r.is_ok()));
                r.map(|_| json!(id.to_string())).map_err(|e| {
                    bad(&format!("the transaction was rejected by network rules.\n\n{e}\n[{h}]"))
                })
            }
            _ => Err(json!({"code": -32601, "message": format!("unknown method {method}")})),
        }
    }
}

/// What nodes say when they do not take a transaction.
const REFUSALS: [&str; 12] = [
    "txn-already-known",
    "txn-already-in-mempool",
    "Transaction outputs already in utxo set",
    "transaction already in block chain",
    "bad-txns-inputs-missingorspent: input already spent",
    "txn-mempool-conflict",
    "insufficient fee, rejecting replacement; new feerate 0.00001 <= old feerate 0.00002",
    "Missing inputs",
    "too-long-mempool-chain, too many descendants",
    "mempool full",
    "min relay fee not met, 100 < 141",
    "success: no",
];

impl Server for Electrum {
    fn open(&self, _sim: &Rc<Sim>, conn: u64) {
        self.bufs.borrow_mut().insert(conn, vec![]);
    }
    fn close(&self, _sim: &Rc<Sim>, conn: u64) {
        self.bufs.borrow_mut().remove(&conn);
    }
    fn data(&self, sim: &Rc<Sim>, conn: u64, bytes: &[u8]) {
        let mut lines = vec![];
        {
            let mut bufs = self.bufs.borrow_mut();
            let b = bufs.entry(conn).or_default();
            b.extend_from_slice(bytes);
            while let Some(p) = b.iter().position(|c| *c == b'\n') {
                lines.push(b.drain(..=p).collect::<Vec<u8>>());
            }
        }
        for line in lines {
            let Ok(req) = serde_json::from_slice::<Value>(&line) else { continue };
            *self.requests.borrow_mut() += 1;
            let method = req["method"].as_str().unwrap_or("").to_string();
            let params = req["params"].as_array().cloned().unwrap_or_default();
            let id = req["id"].clone();
            sim.ev(format_args!("electrum {method} {}", req["params"]));
            let mut result = self.call(sim, &method, &params);
            // A server that is overloaded or restarting answers with errors.
            if let Some(a) = sim.fault("electrum.error") {
                result = Err(match a % 3 {
                    0 => json!({"code": -101, "message": "excessive resource usage"}),
                    1 => json!({"code": 1, "message": "server busy - request timed out"}),
                    _ => json!("internal error"),
                });
            }
            let mut out = match result {
                Ok(v) => json!({"jsonrpc": "2.0", "id": id, "result": v}),
                Err(e) => json!({"jsonrpc": "2.0", "id": id, "error": e}),
            };
            let mut text = None;
            // Garbled answers: not JSON, cut short inside, wrong types.
            if let Some(a) = sim.fault("electrum.garble") {
                let s = out.to_string();
                match a % 6 {
                    0 => text = Some("HTTP/1.1 502 Bad Gateway".to_string()),
                    1 => text = Some(s[..(a / 6) as usize % s.len()].to_string()),
                    2 => {
                        out["result"] = Value::Null;
                    }
                    3 => {
                        if let Some(r) = out["result"].as_str().map(|s| s.to_string()) {
                            let n = (a / 6) as usize % r.len().max(1);
                            out["result"] = json!(r[..n].to_string());
                        } else {
                            out["result"] = json!("unexpected");
                        }
                    }
                    4 => {
                        out["result"] = json!([{"tx_hash": 5}]);
                    }
                    _ => {
                        out = json!({"id": id});
                    }
                }
            }
            let mut t = text.unwrap_or_else(|| out.to_string());
            t.push('\n');
            sim.net.reply(sim, conn, t.into_bytes());
        }
    }
}
