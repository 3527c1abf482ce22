//! The Bitcoin network as one honest chain with a mempool.
use std::collections::{BTreeMap, BTreeSet};

use bitcoin::{
    blockdata::script::Builder, consensus::Encodable, hashes::Hash, Block, BlockHash, BlockHeader,
    Network, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxMerkleNode, TxOut,
    Txid, Witness,
};
use simrt::Time;

use crate::script::verify_input;

pub struct BlockRec {
    pub block: Block,
    pub hash: BlockHash,
    pub at: Time,
}

#[derive(Clone)]
pub struct TxRec {
    pub tx: Transaction,
    pub fee: u64,
    /// When the network first saw it, and where it was mined.
    pub seen: Time,
    pub mined: Option<(u64, usize)>,
}

pub struct Btc {
    pub network: Network,
    pub base: u64,
    pub blocks: Vec<BlockRec>,
    pub utxo: BTreeMap<OutPoint, TxOut>,
    pub txs: BTreeMap<Txid, TxRec>,
    /// Accepted, not yet mined, in order of arrival.
    pub mempool: Vec<Txid>,
    pub spent: BTreeMap<OutPoint, Txid>,
    /// Every script that received or spent, in order.
    pub history: BTreeMap<Script, Vec<Txid>>,
    /// Submissions: time, txid, accepted.
    pub submitted: Vec<(Time, Txid, Result<(), String>)>,
    pub block_time: u32,
    coin_nonce: u64,
    /// Evicted from every mempool.
    pub gone: BTreeMap<Txid, TxRec>,
}

fn small_script_int(v: u64) -> Script {
    Builder::new().push_int(v as i64).into_script()
}

/// Transactions that depend on each other, the last one included, that a
/// mempool holds.
const MAX_CHAIN: usize = 25;

pub fn vsize(tx: &Transaction) -> u64 {
    (tx.weight() as u64).div_ceil(4)
}

impl Btc {
    pub fn new(network: Network, base: u64) -> Btc {
        Btc {
            network,
            base,
            blocks: vec![],
            utxo: Default::default(),
            txs: Default::default(),
            mempool: vec![],
            spent: Default::default(),
            history: Default::default(),
            submitted: vec![],
            block_time: 1_690_000_000,
            coin_nonce: 0,
            gone: Default::default(),
        }
    }

    pub fn tip(&self) -> u64 {
        self.base + self.blocks.len() as u64 - 1
    }
    pub fn has_tip(&self) -> bool {
        !self.blocks.is_empty()
    }
    pub fn block(&self, height: u64) -> Option<&BlockRec> {
        self.blocks.get(height.checked_sub(self.base)? as usize)
    }
    pub fn confirmed(&self, txid: &Txid) -> Option<u64> {
        self.txs.get(txid).and_then(|t| t.mined).map(|m| m.0)
    }

    fn touch(&mut self, script: &Script, txid: Txid) {
        let v = self.history.entry(script.clone()).or_default();
        if !v.contains(&txid) {
            v.push(txid);
        }
    }

    fn add(&mut self, tx: Transaction, fee: u64, seen: Time) {
        let txid = tx.txid();
        for i in &tx.input {
            if let Some(o) = self.output(&i.previous_output) {
                let s = o.script_pubkey.clone();
                self.touch(&s, txid);
            }
            self.spent.insert(i.previous_output, txid);
        }
        for o in &tx.output {
            self.touch(&o.script_pubkey.clone(), txid);
        }
        self.gone.remove(&txid);
        self.txs.insert(txid, TxRec { tx, fee, seen, mined: None });
    }

    pub fn output(&self, o: &OutPoint) -> Option<&TxOut> {
        self.txs.get(&o.txid)?.tx.output.get(o.vout as usize)
    }

    pub fn prevouts(&self, tx: &Transaction) -> Result<Vec<TxOut>, String> {
        tx.input
            .iter()
            .map(|i| {
                self.output(&i.previous_output)
                    .cloned()
                    .ok_or_else(|| "bad-txns-inputs-missingorspent".to_string())
            })
            .collect()
    }

    /// Consensus and relay rules as a default node applies them.
    pub fn check(&self, tx: &Transaction) -> Result<u64, String> {
        if tx.input.is_empty() {
            return Err("bad-txns-vin-empty".into());
        }
        if tx.output.is_empty() {
            return Err("bad-txns-vout-empty".into());
        }
        if tx.version < 1 || tx.version > 2 {
            return Err("version".into());
        }
        let mut seen = BTreeSet::new();
        for i in &tx.input {
            if !seen.insert(i.previous_output) {
                return Err("bad-txns-inputs-duplicate".into());
            }
            if i.previous_output.is_null() {
                return Err("coinbase".into());
            }
        }
        let prev = self.prevouts(tx)?;
        for i in &tx.input {
            if let Some(by) = self.spent.get(&i.previous_output) {
                return Err(if self.txs[by].mined.is_some() {
                    "bad-txns-inputs-missingorspent".into()
                } else {
                    "txn-mempool-conflict".into()
                });
            }
        }
        if tx.lock_time.to_u32() != 0 && tx.input.iter().any(|i| i.sequence != Sequence::MAX) {
            let lt = tx.lock_time.to_u32() as u64;
            let next = self.base + self.blocks.len() as u64;
            if lt < 500_000_000 && lt >= next {
                return Err("non-final".into());
            }
        }
        let max = 21_000_000 * 100_000_000u64;
        let mut out: u64 = 0;
        let mut data = 0;
        for o in &tx.output {
            if o.value > max {
                return Err("bad-txns-vout-toolarge".into());
            }
            out = out.checked_add(o.value).ok_or("bad-txns-txouttotal-toolarge")?;
            if o.script_pubkey.is_op_return() {
                data += 1;
                if o.script_pubkey.len() > 83 {
                    return Err("scriptpubkey".into());
                }
            } else if o.value < o.script_pubkey.dust_value().to_sat() {
                return Err("dust".into());
            }
        }
        if data > 1 {
            return Err("multi-op-return".into());
        }
        let inp: u64 = prev.iter().map(|o| o.value).sum();
        if inp < out {
            return Err("bad-txns-in-belowout".into());
        }
        for i in 0..tx.input.len() {
            verify_input(tx, i, &prev)
                .map_err(|e| format!("mandatory-script-verify-flag-failed ({e})"))?;
        }
        let fee = inp - out;
        if fee < vsize(tx) {
            return Err("min relay fee not met".into());
        }
        if self.waiting_ancestors(tx) >= MAX_CHAIN {
            return Err("too-long-mempool-chain, too many unconfirmed ancestors [limit: 25]".into());
        }
        Ok(fee)
    }

    /// How many transactions of the mempool this one depends on.
    fn waiting_ancestors(&self, tx: &Transaction) -> usize {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<Txid> = tx.input.iter().map(|i| i.previous_output.txid).collect();
        while let Some(id) = todo.pop() {
            let Some(t) = self.txs.get(&id).filter(|t| t.mined.is_none()) else { continue };
            if seen.insert(id) {
                todo.extend(t.tx.input.iter().map(|i| i.previous_output.txid));
            }
        }
        seen.len()
    }

    /// A node's answer to a broadcast.
    pub fn submit(&mut self, tx: &Transaction, now: Time) -> Result<(), String> {
        let txid = tx.txid();
        let r = match self.txs.get(&txid).map(|t| t.mined) {
            Some(Some(_)) => Err("Transaction already in block chain".to_string()),
            Some(None) => Ok(()),
            None => match self.check(tx) {
                Ok(fee) => {
                    self.add(tx.clone(), fee, now);
                    self.mempool.push(txid);
                    Ok(())
                }
                Err(e) => Err(e),
            },
        };
        self.submitted.push((now, txid, r.clone()));
        r
    }

    /// A transaction that was accepted at some time.
    pub fn ever(&self, id: &Txid) -> Option<&TxRec> {
        self.txs.get(id).or_else(|| self.gone.get(id))
    }

    /// The network forgets a transaction that waits, and what depends on it.
    pub fn evict(&mut self, id: &Txid) -> Vec<Txid> {
        if !self.mempool.contains(id) {
            return vec![];
        }
        let mut out = vec![*id];
        let mut i = 0;
        while i < out.len() {
            for m in &self.mempool {
                if !out.contains(m) && self.txs[m].tx.input.iter().any(|n| n.previous_output.txid == out[i]) {
                    out.push(*m);
                }
            }
            i += 1;
        }
        for id in &out {
            self.mempool.retain(|m| m != id);
            let r = self.txs.remove(id).unwrap();
            for n in &r.tx.input {
                self.spent.remove(&n.previous_output);
            }
            for h in self.history.values_mut() {
                h.retain(|t| t != id);
            }
            self.gone.insert(*id, r);
        }
        out
    }

    /// Puts a transaction into the mempool without checking it.
    pub fn inject(&mut self, tx: &Transaction, now: Time) {
        if !self.txs.contains_key(&tx.txid()) {
            self.add(tx.clone(), 250, now);
            self.mempool.push(tx.txid());
        }
    }

    /// Mines the given mempool transactions (in an order that respects
    /// dependencies) and `extra` ones that relay rules would not have let in.
    pub fn mine(&mut self, pick: &[Txid], extra: Vec<Transaction>, coinbase_extra: Vec<TxOut>, now: Time) -> u64 {
        let height = self.base + self.blocks.len() as u64;
        let mut txs: Vec<Transaction> = vec![];
        for t in extra {
            if !self.txs.contains_key(&t.txid()) {
                self.add(t.clone(), 0, now);
            }
            self.mempool.retain(|x| *x != t.txid());
            txs.push(t);
        }
        for id in pick {
            self.mempool.retain(|x| x != id);
            txs.push(self.txs[id].tx.clone());
        }
        self.coin_nonce += 1;
        let mut sig = small_script_int(height).into_bytes();
        sig.extend_from_slice(&[8]);
        sig.extend_from_slice(&self.coin_nonce.to_le_bytes());
        let mut outs = vec![TxOut {
            value: 5_000_000_000,
            script_pubkey: Builder::new().push_int(1).push_slice(&[7; 32]).into_script(),
        }];
        outs.extend(coinbase_extra);
        let cb = Transaction {
            version: 2,
            lock_time: PackedLockTime::ZERO,
            input: vec![TxIn {
                previous_output: OutPoint::null(),
                script_sig: Script::from(sig),
                sequence: Sequence::MAX,
                witness: Witness::new(),
            }],
            output: outs,
        };
        let mut all = vec![cb.clone()];
        all.extend(txs);
        self.txs.insert(cb.txid(), TxRec { tx: cb, fee: 0, seen: now, mined: None });
        self.block_time += 600;
        let prev = self
            .blocks
            .last()
            .map(|b| b.hash)
            .unwrap_or_else(|| BlockHash::from_inner([9; 32]));
        let mut block = Block {
            header: BlockHeader {
                version: 0x2000_0000,
                prev_blockhash: prev,
                merkle_root: TxMerkleNode::from_inner([0; 32]),
                time: self.block_time,
                bits: 0x207f_ffff,
                nonce: self.coin_nonce as u32,
            },
            txdata: all,
        };
        block.header.merkle_root = block.compute_merkle_root().unwrap();
        for (pos, tx) in block.txdata.iter().enumerate() {
            let id = tx.txid();
            for i in &tx.input {
                self.utxo.remove(&i.previous_output);
            }
            for (n, o) in tx.output.iter().enumerate() {
                self.utxo.insert(OutPoint::new(id, n as u32), o.clone());
            }
            if let Some(r) = self.txs.get_mut(&id) {
                r.mined = Some((height, pos));
            }
        }
        let hash = block.block_hash();
        self.blocks.push(BlockRec { block, hash, at: now });
        height
    }

    /// Creates a coin out of thin air (an old, irrelevant payment): spends an
    /// ancient coinbase that everybody knows.
    pub fn faucet_tx(&mut self, script: &Script, value: u64) -> Transaction {
        self.coin_nonce += 1;
        let parent = Transaction {
            version: 1,
            lock_time: PackedLockTime::ZERO,
            input: vec![TxIn {
                previous_output: OutPoint::null(),
                script_sig: Script::from([&[8u8][..], &self.coin_nonce.to_le_bytes()].concat()),
                sequence: Sequence::MAX,
                witness: Witness::new(),
            }],
            output: vec![TxOut {
                value: value.saturating_add(250),
                script_pubkey: Script::new_p2pkh(&bitcoin::PubkeyHash::from_inner([0x66; 20])),
            }],
        };
        let id = parent.txid();
        self.old(parent);
        Transaction {
            version: 2,
            lock_time: PackedLockTime::ZERO,
            input: vec![TxIn {
                previous_output: OutPoint::new(id, 0),
                script_sig: Script::from(vec![1, 1]),
                sequence: Sequence::MAX,
                witness: Witness::new(),
            }],
            output: vec![TxOut { value, script_pubkey: script.clone() }],
        }
    }

    /// Makes an old transaction known, long mined.
    pub fn old(&mut self, tx: Transaction) {
        let rec = TxRec { tx, fee: 0, seen: 0, mined: Some((self.base, 0)) };
        self.txs.entry(rec.tx.txid()).or_insert(rec);
    }

    pub fn unspent(&self, script: &Script) -> Vec<(OutPoint, TxOut)> {
        self.utxo
            .iter()
            .filter(|(o, t)| t.script_pubkey == *script && !self.spent.contains_key(o))
            .map(|(o, t)| (*o, t.clone()))
            .collect()
    }
}

pub fn raw<T: Encodable>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.consensus_encode(&mut v).unwrap();
    v
}
