//! What must hold of a run, judged from the chains, the log and the traffic.
use std::collections::{BTreeMap, BTreeSet};

use bdk::bitcoin::{hashes::{sha256d, Hash}, Block, Script, Transaction, Txid};
use blockstack_lib::{chainstate::stacks::{StacksTransaction, TransactionAnchorMode, TransactionPayload, TransactionVersion}, codec::StacksMessageCodec};
use clarity::V;
use simcore::driver::Violation;
use simworld::{btc::raw, ops::{self, Op}};
use stacksworld::{addr_text, to_v, Status};

use crate::world::{describe, parse_line, parse_log, show, Act, Line, What, World, LOG};

fn display(t: &Txid) -> [u8; 32] {
    let mut d = t.into_inner();
    d.reverse();
    d
}

/// A panic message or reason with everything particular to the run removed.
pub fn normal(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if c.is_ascii_alphabetic() {
            out.push(c.to_ascii_lowercase());
        } else if !out.ends_with('-') {
            out.push('-');
        }
        if out.len() >= 56 {
            break;
        }
    }
    out.trim_matches('-').to_string()
}

struct Logged {
    bitcoin: BTreeSet<u64>,
    stacks_last: Option<u64>,
    bitcoin_last: Option<u64>,
}

fn logged(w: &World) -> Logged {
    let d = w.sim.disk.read_all(LOG).unwrap_or_default();
    let mut l = Logged { bitcoin: Default::default(), stacks_last: None, bitcoin_last: None };
    for r in d.split(|b| *b == b'\n') {
        match parse_line(r, false) {
            Some(Line { kind, height: Some(h), .. }) if kind == "BitcoinBlock" => {
                l.bitcoin.insert(h);
                l.bitcoin_last = Some(h);
            }
            Some(Line { kind, height: Some(h), .. }) if kind == "StacksBlock" => l.stacks_last = Some(h),
            _ => {}
        }
    }
    l
}

pub struct Goal {
    pub prop: &'static str,
    pub class: String,
    pub detail: String,
}

/// What should have been reached and has not.
pub fn goals(w: &World) -> Vec<Goal> {
    let mut out = vec![];
    let mut goal = |prop, class: String, detail: String| out.push(Goal { prop, class, detail });
    let c = w.chain.borrow();
    if c.wallet_key().is_none() {
        let started = w.rec.borrow().acts.iter().filter(|a| a.what == What::SetKey && a.res.is_ok()).count();
        goal("B11", format!("setup-{}", if started == 0 { "unsent" } else { "unconfirmed" }), "the wallet key is not recorded".into());
    }
    let mut minted = BTreeSet::new();
    let mut burned = BTreeSet::new();
    for a in c.calls.iter().filter(|a| a.ok) {
        if let Some(V::Buff(b)) = a.args.get(2) {
            match a.func.as_str() {
                "mint" => minted.insert(b.clone()),
                "burn" => burned.insert(b.clone()),
                _ => false,
            };
        }
    }
    let rec = w.rec.borrow();
    let mut lazy = None;
    let mut stage = |what: What, t: &Txid, height: u64| -> String {
        if !lazy.get_or_insert_with(|| logged(w)).bitcoin.contains(&height) {
            return "unseen".into();
        }
        let sent: Vec<&Act> = rec.acts.iter().filter(|a| a.what == what && a.res.is_ok()).collect();
        match sent.last().map(|a| c.txs.get(&a.id).map(|t| t.status.clone())) {
            None => {
                let refused = rec.acts.iter().rev().find(|a| a.what == what).and_then(|a| a.res.clone().err());
                let _ = t;
                format!("unsent{}", refused.map_or(String::new(), |r| format!("-{}", reason(&r))))
            }
            Some(Some(Status::Abort(r))) => format!("aborted-{}", normal_result(&r)),
            Some(Some(s)) => normal(&format!("{s:?}")),
            Some(None) => "lost".into(),
        }
    };
    let mut due: BTreeMap<(Script, u64), Vec<Txid>> = Default::default();
    for m in &rec.musts {
        let d = display(&m.txid);
        match &m.op {
            Op::Deposit { amount, to, .. } => {
                if !minted.contains(&d[..]) {
                    let s = stage(What::Mint(d), &m.txid, m.height);
                    goal("B04", format!("uncredited-{s}"), format!("deposit {} of {amount} to {} in block {}", m.txid, to.text(), m.height));
                }
            }
            Op::Request { amount, from, payee, .. } => {
                if !burned.contains(&d[..]) {
                    let s = stage(What::Burn(d), &m.txid, m.height);
                    goal("B05", format!("unburned-{s}"), format!("withdrawal {} of {amount} from {} in block {}", m.txid, from.text(), m.height));
                }
                due.entry((payee.clone(), *amount)).or_default().push(m.txid);
            }
            _ => {}
        }
    }
    // Whatever was burned is owed, expected or not.
    for a in c.calls.iter().filter(|a| a.func == "burn" && a.ok) {
        if let Some((t, Op::Request { payee, amount, .. })) = w.op_of(&a.args) {
            if amount >= payee.dust_value().to_sat() && !rec.musts.iter().any(|m| m.txid == t) {
                due.entry((payee, amount)).or_default().push(t);
            }
        }
    }
    if !due.is_empty() {
        let btc = w.btc.borrow();
        let mut paid: BTreeMap<(Script, u64), (usize, usize)> = Default::default();
        for id in accepted(w, &btc) {
            let t = btc.ever(&id).expect("accepted");
            if let Some(o) = t.tx.output.get(1) {
                let e = paid.entry((o.script_pubkey.clone(), o.value)).or_default();
                e.0 += 1;
                e.1 += t.mined.is_some() as usize;
            }
        }
        for (k, v) in due {
            let (sent, conf) = paid.get(&k).copied().unwrap_or_default();
            if conf < v.len() && v.iter().all(|t| burned.contains(&display(t)[..])) {
                let s = if sent < v.len() { "unsent" } else { "unconfirmed" };
                goal("B05", format!("payout-{s}"), format!("withdrawals {v:?} of {} paid {conf} times", k.1));
            }
        }
    }
    out
}

/// Distinct transactions the Bitcoin node took from the bridge, in order.
fn accepted(w: &World, btc: &simworld::btc::Btc) -> Vec<Txid> {
    let _ = w;
    let mut seen = BTreeSet::new();
    btc.submitted.iter().filter(|s| s.2.is_ok()).map(|s| s.1).filter(|t| seen.insert(*t)).collect()
}

fn reason(r: &str) -> String {
    serde_json::from_str::<serde_json::Value>(r)
        .ok()
        .and_then(|j| j["reason"].as_str().map(|s| s.to_string()))
        .unwrap_or_else(|| normal(r))
}

fn normal_result(r: &str) -> String {
    r.trim_matches(|c| c == '(' || c == ')').replace(' ', "-")
}

pub fn judge(prop: &str, w: &World) -> Vec<Violation> {
    let mut v: Vec<Violation> = vec![];
    match prop {
        "B01" => mints(w, &mut v),
        "B02" => burns(w, &mut v),
        "B03" => payouts(w, &mut v),
        "B04" => unmet(w, prop, &[prop], &mut v),
        "B05" => {
            unpayable(w, &mut v);
            unmet(w, prop, &[prop], &mut v)
        }
        "B06" => {
            exits(w, prop, &mut v);
            resumes(w, &mut v);
            unmet(w, prop, &["B04", "B05", "B11"], &mut v);
        }
        "B07" => order(w, &mut v),
        "B08" | "B09" => {
            exits(w, prop, &mut v);
            following(w, prop, &mut v);
            unmet(w, prop, &["B04", "B05", "B11"], &mut v);
        }
        "B10" => durable(w, &mut v),
        "B11" => {
            keyed(w, &mut v);
            unmet(w, prop, &["B11"], &mut v);
        }
        "B12" => proofs(w, &mut v),
        "B13" => nonces(w, &mut v),
        _ => {}
    }
    v
}

fn panics(w: &World) -> String {
    let p = w.sim.tasks.panics.borrow();
    if p.is_empty() {
        String::new()
    } else {
        format!("; tasks that panicked: {:?}", p.iter().rev().take(3).collect::<Vec<_>>())
    }
}

fn unmet(w: &World, prop: &str, which: &[&str], v: &mut Vec<Violation>) {
    for g in goals(w) {
        if which.contains(&g.prop) {
            v.push(Violation::new(prop, g.class, format!("{}{}", g.detail, panics(w))));
        }
    }
}

// ----- B01, B02, B03

fn mints(w: &World, v: &mut Vec<Violation>) {
    let c = w.chain.borrow();
    let mut seen: BTreeMap<Txid, [u8; 32]> = Default::default();
    // what the bridge asks for counts even if it fails for another reason
    for a in c.calls.iter().filter(|a| a.func == "mint" && (a.ok || a.sender == c.owner)) {
        let at = format!("mint in stacks block {} with {:?}", a.height, &a.args[..3]);
        match w.op_of(&a.args) {
            Some((t, Op::Deposit { to, amount, wallet })) => {
                if wallet != w.keys.wallet {
                    v.push(Violation::new("B01", "mint-for-another-wallet", at));
                } else if a.args[0] != V::UInt(amount as u128) {
                    v.push(Violation::new("B01", "mint-wrong-amount", format!("{at}: deposited {amount}")));
                } else if a.args[1] != V::Principal(to.text()) {
                    v.push(Violation::new("B01", "mint-wrong-recipient", format!("{at}: deposited for {}", to.text())));
                } else if !a.ok {
                } else if let Some(o) = seen.insert(t, a.txid) {
                    v.push(Violation::new("B01", "minted-twice", format!("{at}: already by {}", hex::encode(o))));
                }
            }
            o => v.push(Violation::new("B01", "mint-without-deposit", format!("{at}: {o:?}"))),
        }
    }
    supply(w, "B01", v);
}

fn supply(w: &World, prop: &str, v: &mut Vec<Violation>) {
    let c = w.chain.borrow();
    let mut want: BTreeMap<String, i128> = c.preset.iter().map(|(k, n)| (k.clone(), *n as i128)).collect();
    for a in c.calls.iter().filter(|a| a.ok && (a.func == "mint" || a.func == "burn")) {
        let (V::UInt(n), V::Principal(p)) = (&a.args[0], &a.args[1]) else { continue };
        *want.entry(p.clone()).or_default() += if a.func == "mint" { *n as i128 } else { -(*n as i128) };
    }
    want.retain(|_, n| *n != 0);
    let mut have = c.balances();
    have.retain(|_, n| *n != 0);
    let have: BTreeMap<String, i128> = have.into_iter().map(|(k, n)| (k, n as i128)).collect();
    if want != have {
        v.push(Violation::new(prop, "ledger-differs", format!("balances {have:?} but mints and burns give {want:?}")));
    }
}

fn burns(w: &World, v: &mut Vec<Violation>) {
    let c = w.chain.borrow();
    let mut seen: BTreeMap<Txid, [u8; 32]> = Default::default();
    // what the bridge asks for counts even if it fails for another reason
    for a in c.calls.iter().filter(|a| a.func == "burn" && (a.ok || a.sender == c.owner)) {
        let at = format!("burn in stacks block {} with {:?}", a.height, &a.args[..3]);
        match w.op_of(&a.args) {
            Some((t, Op::Request { from, amount, wallet, .. })) => {
                if wallet != w.keys.wallet {
                    v.push(Violation::new("B02", "burn-for-another-wallet", at));
                } else if a.args[0] != V::UInt(amount as u128) {
                    v.push(Violation::new("B02", "burn-wrong-amount", format!("{at}: signed {amount}")));
                } else if a.args[1] != V::Principal(from.text()) {
                    v.push(Violation::new("B02", "burn-wrong-account", format!("{at}: signed by {}", from.text())));
                } else if !a.ok {
                } else if let Some(o) = seen.insert(t, a.txid) {
                    v.push(Violation::new("B02", "burned-twice", format!("{at}: already by {}", hex::encode(o))));
                }
            }
            o => v.push(Violation::new("B02", "burn-without-request", format!("{at}: {o:?}"))),
        }
    }
    supply(w, "B02", v);
}

/// Burned for what no Bitcoin node lets through.
fn unpayable(w: &World, v: &mut Vec<Violation>) {
    for a in w.chain.borrow().calls.iter().filter(|a| a.func == "burn" && a.ok) {
        if let Some((t, Op::Request { payee, amount, .. })) = w.op_of(&a.args) {
            if amount < payee.dust_value().to_sat() {
                v.push(Violation::new("B05", "burned-unpayable", format!("{t} withdraws {amount} to {}", hex::encode(payee.as_bytes()))));
            }
        }
    }
}

fn payouts(w: &World, v: &mut Vec<Violation>) {
    let btc = w.btc.borrow();
    let c = w.chain.borrow();
    // when each burn became final, by what it pays
    let mut owed: BTreeMap<(Script, u64), Vec<u64>> = Default::default();
    // and where on Bitcoin the requests are
    let mut asked: BTreeMap<(Script, u64), Vec<u64>> = Default::default();
    for a in c.calls.iter().filter(|a| a.func == "burn" && a.ok) {
        if let Some((id, Op::Request { payee, amount, .. })) = w.op_of(&a.args) {
            let h = btc.txs[&id].mined.expect("mined");
            asked.entry((payee.clone(), amount)).or_default().push(h.0);
            owed.entry((payee, amount)).or_default().push(a.at);
        }
    }
    let mut seen = BTreeSet::new();
    for a in w.rec.borrow().acts.iter().filter(|a| a.what == What::Payout && a.res.is_ok()) {
        let (at, id) = (&a.at, Txid::from_inner(a.id));
        let t = btc.ever(&id).expect("accepted");
        let tx = &t.tx;
        if !seen.insert((id, a.rivals)) {
            continue;
        }
        if let Err((class, d)) = fulfilment(w, &btc, &c, tx, t.fee) {
            v.push(Violation::new("B03", class, format!("{id}: {d}")));
            continue;
        }
        let k = (tx.output[1].script_pubkey.clone(), tx.output[1].value);
        let n = a.rivals + 1;
        let due = owed.get(&k).map_or(&[][..], |x| &x[..]);
        let total = due.len();
        let by_now = due.iter().filter(|b| **b <= *at).count();
        if n > by_now {
            let class = match () {
                _ if total == 0 => "payout-without-withdrawal",
                _ if n > total => "paid-twice",
                _ => "paid-before-burn",
            };
            v.push(Violation::new(
                "B03",
                class,
                format!("{id} at {:.1} s pays {} to {}, number {n}; burned {total} times, {by_now} by then{}", *at as f64 / 1e6, k.1, hex::encode(k.0.as_bytes()), panics(w)),
            ));
            continue;
        }
        // The Stacks block it names is the last one up to the request.
        let data = ops::op_return_push(&tx.output[0].script_pubkey).unwrap_or_default();
        let named = c.blocks.iter().find(|b| b.hash == data[3..35]).expect("known").burn;
        let fits = |h: u64| named <= h && !c.blocks.iter().any(|b| named < b.burn && b.burn <= h);
        if !asked[&k].iter().any(|h| fits(*h)) {
            v.push(Violation::new(
                "B03",
                "payout-names-other-stacks-block",
                format!("{id} names a stacks block of bitcoin height {named}; requests in {:?}", asked[&k]),
            ));
        }
    }
}

fn fulfilment(w: &World, btc: &simworld::btc::Btc, c: &stacksworld::Chain, tx: &Transaction, fee: u64) -> Result<(), (&'static str, String)> {
    let data = tx.output.first().and_then(|o| ops::op_return_push(&o.script_pubkey));
    let Some(data) = data else { return Err(("payout-without-data", format!("{:?}", tx.output))) };
    let tag = ops::fulfillment_data(w.net, &[0; 32]);
    if data.len() != 35 || data[..3] != tag[..3] {
        return Err(("payout-wrong-data", hex::encode(&data)));
    }
    if !c.blocks.iter().any(|b| b.hash == data[3..35]) {
        return Err(("payout-unknown-stacks-block", hex::encode(&data[3..])));
    }
    if tx.output.len() < 2 {
        return Err(("payout-without-payee", format!("{:?}", tx.output)));
    }
    for o in &tx.output[2..] {
        if o.script_pubkey != w.keys.wallet {
            return Err(("payout-pays-others", format!("{o:?}")));
        }
    }
    for i in &tx.input {
        let spent = btc.ever(&i.previous_output.txid).and_then(|t| t.tx.output.get(i.previous_output.vout as usize));
        if spent.map(|o| &o.script_pubkey) != Some(&w.keys.wallet) {
            return Err(("payout-spends-others", format!("{i:?}")));
        }
    }
    if fee > 20_000 + 100 * simworld::btc::vsize(tx) {
        return Err(("payout-burns-change", format!("fee {fee}")));
    }
    Ok(())
}

// ----- B06, B08, B09

fn exits(w: &World, prop: &str, v: &mut Vec<Violation>) {
    for e in &w.rec.borrow().exits {
        if !e.planned && !e.disk_fault {
            v.push(Violation::new(
                prop,
                format!("exit-{}", normal(&e.text)),
                format!("process {} ended at {:.3} s: {}", e.epoch, e.at as f64 / 1e6, e.text),
            ));
        }
    }
}

fn following(w: &World, prop: &str, v: &mut Vec<Violation>) {
    let l = logged(w);
    let tip = w.btc.borrow().tip();
    if l.bitcoin_last.unwrap_or(0) + 2 < tip {
        v.push(Violation::new(prop, "bitcoin-not-followed", format!("at {:?} of {tip}{}", l.bitcoin_last, panics(w))));
    }
    let tip = w.chain.borrow().tip();
    if l.stacks_last.unwrap_or(0) + 2 < tip {
        v.push(Violation::new(prop, "stacks-not-followed", format!("at {:?} of {tip}{}", l.stacks_last, panics(w))));
    }
}

/// Every process starts where the log it found ends.
fn resumes(w: &World, v: &mut Vec<Violation>) {
    let rec = w.rec.borrow();
    for s in &rec.starts {
        let (mut lines, bad) = parse_log(&s.log, false);
        if let Some(b) = bad {
            v.push(Violation::new("B06", "log-damaged", format!("process {}: {b}", s.epoch)));
            continue;
        }
        let tail = s.log.rsplit(|b| *b == b'\n').next().filter(|t| !t.is_empty()).and_then(|t| parse_line(t, false));
        let mut ends = vec![resume_point(w, &lines)];
        if let Some(t) = tail {
            lines.push(t);
            ends.push(resume_point(w, &lines));
        }
        let first = w
            .node
            .block_reqs
            .borrow()
            .iter()
            .find(|r| r.epoch == s.epoch as u64 && (ends[0].0.is_some() || r.height != w.chain.borrow().deployed))
            .map(|r| r.height);
        let deployed = w.chain.borrow().deployed;
        if let Some(h) = first {
            if !ends.iter().any(|e| h == e.0.unwrap_or(deployed) + 1) {
                v.push(Violation::new("B06", "stacks-resumed-elsewhere", format!("process {} asked for stacks block {h}; the log ends at {ends:?}", s.epoch)));
            }
        }
        // Blocks of operations are fetched again for their proofs; what is new
        // must come next.
        let base = ends.iter().map(|e| e.1.unwrap_or(w.deployed_burn)).min().unwrap();
        let first = w
            .bitcoind
            .heights
            .borrow()
            .iter()
            .find(|r| r.1 == s.epoch && r.2 > base)
            .map(|r| r.2);
        if let Some(h) = first {
            if !ends.iter().any(|e| h == e.1.unwrap_or(w.deployed_burn) + 1) {
                v.push(Violation::new("B06", "bitcoin-resumed-elsewhere", format!("process {} asked for bitcoin block {h}; the log ends at {ends:?}", s.epoch)));
            }
        }
        // What is recorded as sent is not sent again in other words.
        let complete = lines.len() - (ends.len() - 1);
        for l in &lines[..complete] {
            let (kind, func) = match l.kind.as_str() {
                "MintBroadcasted" => ("MintBroadcasted", 'm'),
                "BurnBroadcasted" => ("BurnBroadcasted", 'b'),
                _ => continue,
            };
            let j = &l.json.as_ref().unwrap()[kind];
            let (Some(op), Some(sent)) = (j[0]["txid"].as_str().and_then(|t| t.parse::<Txid>().ok()), j[1].as_str()) else {
                v.push(Violation::new("B06", "record-unreadable", j.to_string()));
                continue;
            };
            let what = if func == 'm' { What::Mint(display(&op)) } else { What::Burn(display(&op)) };
            let sent = sent.trim_start_matches("0x");
            let failed = w.chain.borrow().txs.iter().any(|(id, t)| {
                hex::encode(id) == sent && (!t.drops.is_empty() || matches!(t.status, Status::Abort(_) | Status::PostCondition))
            });
            let known = w.chain.borrow().txs.keys().any(|id| hex::encode(id) == sent);
            if failed || !known {
                continue;
            }
            if let Some(a) = rec.acts.iter().find(|a| a.epoch == s.epoch && a.what == what && a.res == Ok(true)) {
                v.push(Violation::new(
                    "B06",
                    "repeated-recorded-operation",
                    format!("process {} sent {} for {} again as {}", s.epoch, sent, show(&what), hex::encode(a.id)),
                ));
            }
        }
    }
}

/// The last Stacks and Bitcoin blocks a log accounts for.
fn resume_point(_w: &World, lines: &[Line]) -> (Option<u64>, Option<u64>) {
    let mut s = None;
    let mut b = None;
    for l in lines {
        match (l.kind.as_str(), l.height) {
            ("StacksBlock", h) => s = h,
            ("BitcoinBlock", h) => b = h,
            ("ContractBlockHeight", _) => {
                let j = &l.json.as_ref().unwrap()["ContractBlockHeight"];
                s = j[0].as_u64();
                b = j[1].as_u64();
            }
            _ => {}
        }
    }
    (s, b)
}

// ----- B07

fn order(w: &World, v: &mut Vec<Violation>) {
    let d = w.sim.disk.read_all(LOG).unwrap_or_default();
    let (lines, _) = parse_log(&d, true);
    let mut s: Option<u64> = None;
    let mut b: Option<u64> = None;
    let c = w.chain.borrow();
    let btc = w.btc.borrow();
    let mut bad = |class: &str, d: String| v.push(Violation::new("B07", class, d));
    for l in &lines {
        let j = l.json.as_ref().unwrap();
        match l.kind.as_str() {
            "ContractBlockHeight" => {
                let j = &j["ContractBlockHeight"];
                let want = (Some(c.deployed), Some(w.deployed_burn));
                if (j[0].as_u64(), j[1].as_u64()) != want || s.is_some() {
                    bad("contract-height", format!("{j} instead of {want:?}"));
                }
                s = Some(c.deployed);
                b = Some(w.deployed_burn);
            }
            "BitcoinBlock" => {
                let h = l.height.unwrap_or(0);
                if b.map(|b| b + 1) != Some(h) {
                    bad("bitcoin-order", format!("block {h} after {b:?}"));
                }
                b = Some(h);
                let got: Option<Block> = serde_json::from_value(j["BitcoinBlock"][1].clone()).ok();
                match (got, btc.block(h)) {
                    (Some(g), Some(r)) if g == r.block => {}
                    (g, r) => bad(
                        "bitcoin-content",
                        format!(
                            "block {h} recorded as {:?} with {:?} transactions, is {:?}",
                            g.as_ref().map(|g| g.block_hash()),
                            g.as_ref().map(|g| g.txdata.len()),
                            r.map(|r| r.hash)
                        ),
                    ),
                }
            }
            "StacksBlock" => {
                let h = l.height.unwrap_or(0);
                if s.map(|s| s + 1) != Some(h) {
                    bad("stacks-order", format!("block {h} after {s:?}"));
                }
                s = Some(h);
                let got: Option<Vec<StacksTransaction>> = serde_json::from_value(j["StacksBlock"][1].clone()).ok();
                let got: Option<Vec<Vec<u8>>> = got.map(|g| g.iter().map(|t| t.serialize_to_vec()).collect());
                let want: Option<Vec<Vec<u8>>> = c.block(h).map(|b| b.txs.iter().map(|t| c.txs[t].raw.clone()).collect());
                if got != want {
                    bad("stacks-content", format!("block {h} recorded with {:?} transactions, has {:?}", got.map(|g| g.len()), want.map(|g| g.len())));
                }
            }
            _ => {}
        }
    }
}

// ----- B10, B11

fn durable(w: &World, v: &mut Vec<Violation>) {
    let rec = w.rec.borrow();
    for a in rec.acts.iter().filter(|a| a.res == Ok(true)) {
        if let Some(u) = &a.unjustified {
            v.push(Violation::new("B10", format!("unlogged-{}", kind(&a.what)), format!("{} at {:.3} s: {u}", show(&a.what), a.at as f64 / 1e6)));
        }
    }
    for (class, d) in &rec.unstable {
        v.push(Violation::new("B10", class.clone(), d.clone()));
    }
}

fn kind(w: &What) -> &'static str {
    match w {
        What::SetKey => "setup",
        What::Mint(_) => "mint",
        What::Burn(_) => "burn",
        What::Payout => "payout",
        What::Other(_) => "other",
    }
}

fn keyed(w: &World, v: &mut Vec<Violation>) {
    for a in w.rec.borrow().acts.iter().filter(|a| a.res.is_ok()) {
        match &a.what {
            What::Mint(_) | What::Burn(_) | What::Payout => {}
            _ => continue,
        }
        let ok = a.key.as_ref().is_some_and(|k| k.len() == 33 && w.keys.recorded.iter().any(|r| k[1..] == r[..]));
        if !ok {
            v.push(Violation::new("B11", format!("{}-before-key", kind(&a.what)), format!("{} while the contract held {:?}", show(&a.what), a.key)));
        }
    }
    if let Some(k) = w.chain.borrow().wallet_key() {
        if k.len() != 33 || !w.keys.recorded.iter().any(|r| k[1..] == r[..]) {
            v.push(Violation::new("B11", "wrong-key", format!("recorded {}, the wallet's is {:?}", hex::encode(k), w.keys.recorded.iter().map(hex::encode).collect::<Vec<_>>())));
        }
    }
}

// ----- B12, B13

fn call_args(raw: &[u8]) -> Option<(StacksTransaction, Vec<V>)> {
    let tx = StacksTransaction::consensus_deserialize(&mut &raw[..]).ok()?;
    let args = match &tx.payload {
        TransactionPayload::ContractCall(c) => c.function_args.iter().map(to_v).collect(),
        _ => return None,
    };
    Some((tx, args))
}

fn proofs(w: &World, v: &mut Vec<Violation>) {
    let mut seen = BTreeSet::new();
    for a in &w.rec.borrow().acts {
        if !matches!(a.what, What::Mint(_) | What::Burn(_)) || !seen.insert(a.id) {
            continue;
        }
        let Some((_, args)) = call_args(&a.raw) else { continue };
        if let Err((class, d)) = proof(w, &args) {
            v.push(Violation::new("B12", class, format!("{}: {d}", show(&a.what))));
        }
    }
    let c = w.chain.borrow();
    for a in c.calls.iter().filter(|a| a.sender == c.owner && (a.func == "mint" || a.func == "burn")) {
        let r = normal_result(&a.result);
        let bad = match r.as_str() {
            "err-u7" | "err-u8" | "err-u9" => true,
            // The contract sees the burn chain up to the parent's burn block.
            "err-u6" => {
                let parent = c.block(a.height - 1).map_or(0, |b| b.burn);
                !matches!(a.args.get(3), Some(V::UInt(h)) if *h > parent as u128)
            }
            _ => false,
        };
        if bad {
            v.push(Violation::new("B12", format!("refused-{r}"), format!("{} {:?}", a.func, a.args)));
        }
    }
}

/// Recomputes the claim a mint or burn makes.
fn proof(w: &World, args: &[V]) -> Result<(), (&'static str, String)> {
    let [_, _, V::Buff(id), V::UInt(height), V::List(path), V::UInt(index), V::Buff(header)] = args else {
        return Err(("arguments", format!("{args:?}")));
    };
    let btc = w.btc.borrow();
    let mut internal = id.clone();
    internal.reverse();
    let Some(b) = btc.block(*height as u64) else {
        return Err(("unknown-height", format!("{height}")));
    };
    if raw(&b.block.header) != *header {
        return Err(("wrong-header", hex::encode(header)));
    }
    let at = b.block.txdata.iter().position(|t| t.txid().into_inner()[..] == internal[..]);
    if at != Some(*index as usize) {
        return Err(("wrong-position", format!("{index} instead of {at:?} at height {height}")));
    }
    let mut n = sha256d::Hash::from_slice(&internal).map_err(|e| ("txid", e.to_string()))?;
    let mut i = *index;
    for p in path {
        let V::Buff(p) = p else { return Err(("path", format!("{p:?}"))) };
        let pair = if i & 1 == 0 { [&n[..], p].concat() } else { [p, &n[..]].concat() };
        n = sha256d::Hash::hash(&pair);
        i >>= 1;
    }
    if i != 0 || n.into_inner() != b.block.header.merkle_root.into_inner() {
        return Err(("wrong-path", format!("position {index} of {} at height {height}", b.block.txdata.len())));
    }
    Ok(())
}

fn nonces(w: &World, v: &mut Vec<Violation>) {
    let rec = w.rec.borrow();
    let c = w.chain.borrow();
    let version = if c.mainnet { TransactionVersion::Mainnet } else { TransactionVersion::Testnet };
    let chain = if c.mainnet { stacksworld::MAINNET_CHAIN } else { stacksworld::TESTNET_CHAIN };
    let mut by_nonce: BTreeMap<u64, Vec<&Act>> = Default::default();
    let mut accepted = BTreeSet::new();
    let mut last: BTreeMap<(u32, String), &Act> = Default::default();
    for a in rec.acts.iter().filter(|a| a.what != What::Payout) {
        let mut bad = |class: String, d: String| v.push(Violation::new("B13", class, format!("{} at {:.3} s: {d}", show(&a.what), a.at as f64 / 1e6)));
        let Ok(tx) = StacksTransaction::consensus_deserialize(&mut &a.raw[..]) else {
            bad("undecodable".into(), hex::encode(&a.raw));
            continue;
        };
        if tx.version != version || tx.chain_id != chain {
            bad("wrong-network".into(), format!("{:?} chain {:#x}", tx.version, tx.chain_id));
        }
        if tx.verify().is_err() {
            bad("unsigned".into(), String::new());
        }
        if addr_text(&tx.origin_address()) != c.owner {
            bad("wrong-sender".into(), addr_text(&tx.origin_address()));
        }
        if tx.get_tx_fee() == 0 {
            bad("no-fee".into(), String::new());
        }
        if tx.anchor_mode == TransactionAnchorMode::OffChainOnly {
            bad("kept-out-of-blocks".into(), format!("{:?}", tx.anchor_mode));
        }
        if c.txs.get(&a.id).is_some_and(|t| t.status == Status::PostCondition) {
            bad("undone-by-postcondition".into(), format!("{:?} {:?}", tx.post_condition_mode, tx.post_conditions));
        }
        match &tx.payload {
            TransactionPayload::ContractCall(k) => {
                let id = format!("{}.{}", addr_text(&k.address), k.contract_name);
                if id != c.id() {
                    bad("wrong-contract".into(), id);
                }
                if let What::Other(f) = &a.what {
                    bad("unexpected-call".into(), f.clone());
                }
            }
            _ => bad("no-call".into(), String::new()),
        }
        if let Err(r) = &a.res {
            let r = reason(r);
            if matches!(r.as_str(), "Deserialization" | "BadTransactionVersion" | "SignatureValidation" | "NoSuchContract" | "FeeTooLow") {
                bad(format!("refused-{r}"), String::new());
            }
        }
        // Another transaction with this nonce that may still be mined.
        let nonce = tx.get_origin_nonce();
        let others = by_nonce.entry(nonce).or_default();
        // What a dead process still had on the way, its successor cannot know.
        let asked = w.node.nonces.borrow().iter().filter(|n| n.1 == a.epoch as u64 && n.2 == nonce && n.0 <= a.at).map(|n| n.0).last();
        let avoidable = |o: &&&Act| o.epoch == a.epoch || (o.epoch < a.epoch && asked.map_or(true, |t| o.at < t));
        let over = |o: &&&Act| c.txs.get(&o.id).is_some_and(|t| t.gone(a.at));
        for o in others.iter().filter(|o| o.id != a.id && o.res.is_ok()).filter(avoidable).filter(|o| !over(o)) {
            bad(
                "nonce-reused".into(),
                format!("nonce {nonce} also used by {} ({}) accepted at {:.3} s", show(&o.what), hex::encode(o.id), o.at as f64 / 1e6),
            );
            break;
        }
        others.push(a);
        // A retry of the same process repeats itself byte for byte unless it was
        // told that the transaction cannot be.
        let k = (a.epoch, show(&a.what));
        if let Some(o) = last.get(&k) {
            // Also if this one was refused: it is there since it was sent before.
            let over = !accepted.contains(&o.id)
                || c.txs.get(&o.id).is_none_or(|t| !t.drops.is_empty() || matches!(t.status, Status::Abort(_) | Status::PostCondition))
                || o.res.is_err() && w.node.unlisted.borrow().contains_key(&o.id);
            if o.raw != a.raw && !over {
                bad("resent-differently".into(), format!("{} after {}", hex::encode(a.id), hex::encode(o.id)));
            }
        }
        last.insert(k, a);
        if a.res.is_ok() {
            accepted.insert(a.id);
        }
    }
}

/// The kinds of things a run reached, for the evidence.
pub fn probes(w: &World) -> BTreeMap<String, u64> {
    let mut p: BTreeMap<String, u64> = Default::default();
    let mut add = |k: &str, n: u64| {
        if n > 0 {
            *p.entry(k.into()).or_default() += n
        }
    };
    let rec = w.rec.borrow();
    let c = w.chain.borrow();
    add("mints", c.calls.iter().filter(|a| a.func == "mint" && a.ok).count() as u64);
    add("burns", c.calls.iter().filter(|a| a.func == "burn" && a.ok).count() as u64);
    add("aborted-calls", c.calls.iter().filter(|a| !a.ok && a.sender == c.owner).count() as u64);
    add("payouts", accepted(w, &w.btc.borrow()).len() as u64);
    add("posts-refused", rec.acts.iter().filter(|a| a.res.is_err()).count() as u64);
    add("posts-repeated", rec.acts.iter().filter(|a| a.res == Ok(false)).count() as u64);
    add("restarts", rec.starts.len() as u64 - 1);
    add("unplanned-exits", rec.exits.iter().filter(|e| !e.planned).count() as u64);
    add("torn-records", rec.torn);
    add("task-panics", w.sim.tasks.panics.borrow().len() as u64);
    if let Some(t) = w.met.get() {
        add("goals-met", 1);
        add("seconds-to-goals-after-quiet", (t - (w.plan.quiet * 1000).min(t)) / 1_000_000);
    }
    p
}

pub fn describe_raw(raw: &[u8]) -> String {
    call_args(raw).map_or("?".into(), |(t, _)| show(&describe(&t)))
}
