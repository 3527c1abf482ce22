//! bitcoind's JSON-RPC interface over HTTP/1.1.
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

use bitcoin::{
    consensus::deserialize,
    hashes::hex::{FromHex, ToHex},
    Address, BlockHash, Transaction, Txid,
};
use serde_json::{json, Value};
use simrt::{net::Server, Sim, Time, SEC};

use crate::btc::{raw, vsize, Btc};

pub struct Bitcoind {
    pub btc: Rc<RefCell<Btc>>,
    bufs: RefCell<BTreeMap<u64, (u32, Vec<u8>)>>,
    /// The process whose request is being served.
    pub epoch: std::cell::Cell<u32>,
    /// Called for every accepted or refused broadcast.
    pub on_submit: RefCell<Option<Rc<dyn Fn(&Rc<Sim>, &Transaction, &Result<(), String>)>>>,
    /// How far this node is behind the network.
    pub lag: Time,
    /// Heights asked for: time, process, height.
    pub heights: RefCell<Vec<(Time, u32, u64)>>,
    /// What requests have to be authorized with.
    pub auth: RefCell<Option<String>>,
}

fn err(code: i64, m: &str) -> Value {
    json!({"code": code, "message": m})
}

fn btc(v: u64) -> Value {
    // bitcoind prints amounts with eight decimals
    serde_json::from_str(&format!("{}.{:08}", v / 100_000_000, v % 100_000_000)).unwrap()
}

impl Bitcoind {
    pub fn new(btc: Rc<RefCell<Btc>>, lag: Time) -> Bitcoind {
        Bitcoind { btc, bufs: Default::default(), epoch: Default::default(), on_submit: RefCell::new(None), lag, heights: Default::default(), auth: Default::default() }
    }

    fn tip(&self, sim: &Sim) -> u64 {
        let b = self.btc.borrow();
        let h = sim.now().saturating_sub(self.lag);
        let n = b.blocks.iter().take_while(|r| r.at <= h || r.at == 0).count().max(1);
        b.base + n as u64 - 1
    }

    fn tx_json(&self, sim: &Sim, id: &Txid) -> Option<Value> {
        let tip = self.tip(sim);
        let b = self.btc.borrow();
        let r = b.txs.get(id)?;
        let vin: Vec<Value> = r
            .tx
            .input
            .iter()
            .map(|i| {
                if i.previous_output.is_null() {
                    json!({"coinbase": i.script_sig.as_bytes().to_hex(), "sequence": i.sequence.0})
                } else {
                    json!({"txid": i.previous_output.txid.to_string(), "vout": i.previous_output.vout,
                        "scriptSig": {"asm": "", "hex": i.script_sig.as_bytes().to_hex()},
                        "txinwitness": i.witness.iter().map(hex::encode).collect::<Vec<_>>(),
                        "sequence": i.sequence.0})
                }
            })
            .collect();
        let vout: Vec<Value> = r
            .tx
            .output
            .iter()
            .enumerate()
            .map(|(n, o)| {
                let ty = if o.script_pubkey.is_op_return() {
                    "nulldata"
                } else if o.script_pubkey.is_v0_p2wpkh() {
                    "witness_v0_keyhash"
                } else if o.script_pubkey.is_v1_p2tr() {
                    "witness_v1_taproot"
                } else if o.script_pubkey.is_p2pkh() {
                    "pubkeyhash"
                } else if o.script_pubkey.is_p2sh() {
                    "scripthash"
                } else if o.script_pubkey.is_v0_p2wsh() {
                    "witness_v0_scripthash"
                } else {
                    "nonstandard"
                };
                let mut spk = json!({"asm": "", "hex": o.script_pubkey.as_bytes().to_hex(), "type": ty});
                if let Ok(a) = Address::from_script(&o.script_pubkey, b.network) {
                    spk["address"] = json!(a.to_string());
                }
                json!({"value": btc(o.value), "n": n, "scriptPubKey": spk})
            })
            .collect();
        let mut j = json!({
            "txid": id.to_string(), "hash": r.tx.wtxid().to_string(),
            "version": r.tx.version, "size": r.tx.size(), "vsize": vsize(&r.tx),
            "weight": r.tx.weight(), "locktime": r.tx.lock_time.to_u32(),
            "vin": vin, "vout": vout, "hex": hex::encode(raw(&r.tx)),
        });
        if let Some((h, _)) = r.mined.filter(|m| m.0 <= tip) {
            let blk = b.block(h).unwrap();
            j["blockhash"] = json!(blk.hash.to_string());
            j["confirmations"] = json!(tip - h + 1);
            j["time"] = json!(blk.block.header.time);
            j["blocktime"] = json!(blk.block.header.time);
            j["in_active_chain"] = json!(true);
        }
        Some(j)
    }

    fn call(&self, sim: &Rc<Sim>, method: &str, p: &[Value]) -> Result<Value, Value> {
        let tip = self.tip(sim);
        let s = |i: usize| p.get(i).and_then(|v| v.as_str()).ok_or(err(-1, "params"));
        let find = |hash: &str| -> Result<u64, Value> {
            let hash = BlockHash::from_hex(hash).map_err(|_| err(-8, "blockhash"))?;
            let b = self.btc.borrow();
            b.blocks
                .iter()
                .position(|r| r.hash == hash)
                .map(|i| b.base + i as u64)
                .filter(|h| *h <= tip)
                .ok_or(err(-5, "Block not found"))
        };
        match method {
            "getblockcount" => Ok(json!(tip)),
            "getbestblockhash" => Ok(json!(self.btc.borrow().block(tip).unwrap().hash.to_string())),
            "getblockhash" => {
                let h = p.first().and_then(|v| v.as_i64()).ok_or(err(-1, "params"))?;
                self.heights.borrow_mut().push((sim.now(), self.epoch.get(), h.max(0) as u64));
                if h < 0 || h as u64 > tip {
                    return Err(err(-8, "Block height out of range"));
                }
                match self.btc.borrow().block(h as u64) {
                    Some(b) => Ok(json!(b.hash.to_string())),
                    None => Err(err(-8, "Block height out of range")),
                }
            }
            "getblock" | "getblockheader" => {
                let h = find(s(0)?)?;
                let b = self.btc.borrow();
                let blk = b.block(h).unwrap();
                let v = match p.get(1) {
                    Some(Value::Bool(v)) => *v as u64,
                    Some(v) => v.as_u64().unwrap_or(1),
                    None => 1,
                };
                let header = method == "getblockheader";
                if v == 0 {
                    return Ok(json!(hex::encode(if header {
                        raw(&blk.block.header)
                    } else {
                        raw(&blk.block)
                    })));
                }
                let hd = &blk.block.header;
                let mut j = json!({
                    "hash": blk.hash.to_string(), "confirmations": tip - h + 1,
                    "height": h, "version": hd.version,
                    "versionHex": format!("{:08x}", hd.version),
                    "merkleroot": hd.merkle_root.to_string(), "time": hd.time,
                    "mediantime": hd.time, "nonce": hd.nonce, "bits": format!("{:08x}", hd.bits),
                    "difficulty": 1.0, "chainwork": "00", "nTx": blk.block.txdata.len(),
                    "previousblockhash": hd.prev_blockhash.to_string(),
                });
                if h < tip {
                    j["nextblockhash"] = json!(b.block(h + 1).unwrap().hash.to_string());
                }
                if !header {
                    j["size"] = json!(blk.block.size());
                    j["strippedsize"] = json!(blk.block.strippedsize());
                    j["weight"] = json!(blk.block.weight());
                    j["tx"] = json!(blk.block.txdata.iter().map(|t| t.txid().to_string()).collect::<Vec<_>>());
                }
                Ok(j)
            }
            "getrawtransaction" => {
                let id = Txid::from_hex(s(0)?).map_err(|_| err(-8, "txid"))?;
                let verbose = match p.get(1) {
                    Some(Value::Bool(v)) => *v,
                    Some(v) => v.as_u64().unwrap_or(0) > 0,
                    None => false,
                };
                let missing = err(
                    -5,
                    "No such mempool or blockchain transaction. Use gettransaction for wallet transactions.",
                );
                if verbose {
                    return self.tx_json(sim, &id).ok_or(missing);
                }
                match self.btc.borrow().txs.get(&id) {
                    Some(t) => Ok(json!(hex::encode(raw(&t.tx)))),
                    None => Err(missing),
                }
            }
            "getmempoolentry" => {
                let id = Txid::from_hex(s(0)?).map_err(|_| err(-8, "txid"))?;
                let b = self.btc.borrow();
                match b.txs.get(&id) {
                    Some(t) if t.mined.map_or(true, |m| m.0 > tip) => {
                        let vs = vsize(&t.tx);
                        Ok(json!({
                            "vsize": vs, "weight": t.tx.weight(), "time": 1_690_000_000u64, "height": tip,
                            "descendantcount": 1, "descendantsize": vs,
                            "ancestorcount": 1, "ancestorsize": vs,
                            "wtxid": t.tx.wtxid().to_string(),
                            "fees": {"base": btc(t.fee), "modified": btc(t.fee), "ancestor": btc(t.fee), "descendant": btc(t.fee)},
                            "depends": [], "spentby": [],
                            "bip125-replaceable": false, "unbroadcast": false,
                        }))
                    }
                    _ => Err(err(-5, "Transaction not in mempool")),
                }
            }
            "getrawmempool" => Ok(json!(self
                .btc
                .borrow()
                .mempool
                .iter()
                .map(|t| t.to_string())
                .collect::<Vec<_>>())),
            "sendrawtransaction" => {
                let bytes = hex::decode(s(0)?).map_err(|_| err(-22, "TX decode failed."))?;
                let tx: Transaction = deserialize(&bytes).map_err(|_| {
                    err(-22, "TX decode failed. Make sure the tx has at least one input.")
                })?;
                let r = self.btc.borrow_mut().submit(&tx, sim.now());
                if r.is_ok() {
                    sim.world_point("bitcoind.accepted");
                    if let Some(a) = sim.fault("bitcoind.evict") {
                        let (btc, id) = (self.btc.clone(), tx.txid());
                        sim.at(1 + a * 600 * SEC / 1_000_000, move |sim| {
                            if sim.now() <= sim.cfg.quiet {
                                let n = btc.borrow_mut().evict(&id).len();
                                sim.ev(format_args!("bitcoin mempool forgets {n}, first {id}"));
                            }
                        });
                    }
                }
                sim.ev(format_args!("bitcoind submit {} -> {r:?}", tx.txid()));
                let f = self.on_submit.borrow().clone();
                if let Some(f) = f {
                    f(sim, &tx, &r);
                }
                match r {
                    Ok(()) => Ok(json!(tx.txid().to_string())),
                    Err(e) if e.contains("too-long") => {
                        sim.probe("mempool-chain-full");
                        Err(err(-26, &e))
                    }
                    Err(e) if e.contains("already in block chain") => Err(err(-27, &e)),
                    Err(e) if e.contains("missingorspent") => Err(err(-25, &e)),
                    Err(e) => Err(err(-26, &e)),
                }
            }
            "testmempoolaccept" => {
                let bytes = hex::decode(p[0][0].as_str().unwrap_or("")).unwrap_or_default();
                let Ok(tx) = deserialize::<Transaction>(&bytes) else {
                    return Err(err(-22, "TX decode failed."));
                };
                let r = self.btc.borrow().check(&tx);
                Ok(json!([{"txid": tx.txid().to_string(), "allowed": r.is_ok()}]))
            }
            "gettxout" => {
                let id = Txid::from_hex(s(0)?).map_err(|_| err(-8, "txid"))?;
                let n = p.get(1).and_then(|v| v.as_u64()).unwrap_or(0) as u32;
                let b = self.btc.borrow();
                let op = bitcoin::OutPoint::new(id, n);
                match b.output(&op) {
                    Some(o) if !b.spent.contains_key(&op) => {
                        let conf = b.confirmed(&id).map_or(0, |h| tip + 1 - h.min(tip));
                        Ok(json!({"bestblock": b.block(tip).unwrap().hash.to_string(),
                            "confirmations": conf, "value": btc(o.value), "coinbase": false,
                            "scriptPubKey": {"asm": "", "hex": o.script_pubkey.as_bytes().to_hex()}}))
                    }
                    _ => Ok(Value::Null),
                }
            }
            "getblockchaininfo" => {
                let b = self.btc.borrow();
                let blk = b.block(tip).unwrap();
                Ok(json!({
                    "chain": match b.network { bitcoin::Network::Bitcoin => "main", bitcoin::Network::Testnet => "test", bitcoin::Network::Signet => "signet", _ => "regtest" },
                    "blocks": tip, "headers": tip, "bestblockhash": blk.hash.to_string(),
                    "difficulty": 1.0, "time": blk.block.header.time, "mediantime": blk.block.header.time,
                    "verificationprogress": 1.0, "initialblockdownload": false, "chainwork": "00",
                    "size_on_disk": 1, "pruned": false, "softforks": {}, "warnings": "",
                }))
            }
            "getnetworkinfo" => Ok(json!({
                "version": 250000, "subversion": "/Satoshi:25.0.0/", "protocolversion": 70016,
                "localservices": "0000000000000409", "localrelay": true, "timeoffset": 0,
                "connections": 8, "networkactive": true, "networks": [],
                "relayfee": 0.00001, "incrementalfee": 0.00001, "localaddresses": [], "warnings": "",
            })),
            "estimatesmartfee" => Ok(json!({"feerate": 0.0001, "blocks": 6})),
            _ => Err(err(-32601, "Method not found")),
        }
    }

    fn warmup(body: &[u8]) -> Vec<u8> {
        let id = serde_json::from_slice::<Value>(body).map(|v| v["id"].clone()).unwrap_or_default();
        let j = json!({"result": null, "error": err(-28, "Loading block index…"), "id": id});
        Self::http("500 Internal Server Error", &format!("{j}\n"))
    }

    fn http(status: &str, body: &str) -> Vec<u8> {
        format!(
            "HTTP/1.1 {status}\r\nContent-Type: application/json\r\nDate: Thu, 1 Jan 1970 00:00:00 GMT\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{body}",
            body.len()
        )
        .into_bytes()
    }
}

impl Server for Bitcoind {
    fn open(&self, sim: &Rc<Sim>, conn: u64) {
        self.bufs.borrow_mut().insert(conn, (sim.epoch.get(), vec![]));
    }
    fn close(&self, _sim: &Rc<Sim>, conn: u64) {
        self.bufs.borrow_mut().remove(&conn);
    }
    fn data(&self, sim: &Rc<Sim>, conn: u64, bytes: &[u8]) {
        let (body, known) = {
            let mut bufs = self.bufs.borrow_mut();
            let (epoch, b) = bufs.entry(conn).or_default();
            self.epoch.set(*epoch);
            b.extend_from_slice(bytes);
            let Some(end) = b.windows(4).position(|w| w == b"\r\n\r\n") else { return };
            let head = String::from_utf8_lossy(&b[..end]).to_string();
            let len: usize = head
                .lines()
                .find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").map(|v| v.trim().parse().unwrap_or(0)))
                .unwrap_or(0);
            if b.len() < end + 4 + len {
                return;
            }
            let body = b[end + 4..end + 4 + len].to_vec();
            b.clear();
            let known = self.auth.borrow().as_ref().is_none_or(|a| {
                head.lines().any(|l| l.split_once(':').is_some_and(|(k, v)| k.eq_ignore_ascii_case("authorization") && v.trim() == a))
            });
            (body, known)
        };
        let reply = match sim.outage("bitcoind").as_deref() {
            Some("warmup") => Self::warmup(&body),
            Some("503") => Self::http("503 Service Unavailable", "Work queue depth exceeded\n"),
            _ => match sim.fault("bitcoind.busy") {
            // one of several nodes behind the address has just started
            Some(a) if a % 3 == 0 => Self::warmup(&body),
            Some(_) => Self::http("503 Service Unavailable", "Work queue depth exceeded\n"),
            None if !known => {
                sim.probe("bitcoind-unauthorized");
                Self::http("401 Unauthorized", "")
            }
            None => match serde_json::from_slice::<Value>(&body) {
                Ok(req) => {
                    let method = req["method"].as_str().unwrap_or("").to_string();
                    let params = req["params"].as_array().cloned().unwrap_or_default();
                    sim.ev(format_args!("bitcoind {method} {}", req["params"]));
                    match self.call(sim, &method, &params) {
                        Ok(v) => {
                            let j = json!({"result": v, "error": null, "id": req["id"]});
                            Self::http("200 OK", &format!("{j}\n"))
                        }
                        Err(e) => {
                            let j = json!({"result": null, "error": e, "id": req["id"]});
                            Self::http("500 Internal Server Error", &format!("{j}\n"))
                        }
                    }
                }
                Err(_) => Self::http("400 Bad Request", "\n"),
            },
            },
        };
        let d = match sim.fault("bitcoind.slow") {
            Some(a) => (a % 20) * SEC,
            None => 0,
        };
        let me_close = conn;
        if d > 0 {
            let r = reply;
            sim.at(d, move |sim| sim.net.reply(sim, me_close, r));
        } else {
            sim.net.reply(sim, conn, reply);
        }
    }
}
