//! S01-S03: encoding and decoding against simulated streams.
mod io;
mod spec;
mod txs;
mod val;

use serde::{Deserialize, Serialize};
use simcore::{
    driver::{drive, main_with},
    fnv, mix, panics, Outcome, Rng, Scenario, Tier,
};

use io::{SimIo, Step};
use spec::{Kind, Princ, Rec, KINDS};
use val::Val;

/// A byte-level corruption of stored data.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    Flip { at: usize, bit: u8 },
    Set { at: usize, to: u8 },
    Cut { at: usize },
    Drop { at: usize, n: usize },
    Insert { at: usize, hex: String },
    Swap { at: usize, with: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    recs: Vec<Rec>,
    steps: Vec<Step>,
    chunk: usize,
    /// Which of the two public entry points.
    alt: bool,
    #[serde(default)]
    muts: Vec<Mut>,
    #[serde(default)]
    decode_as: Option<Kind>,
    #[serde(default)]
    tx: Option<txs::TxPlan>,
}

fn gen_name(r: &mut Rng) -> String {
    if r.chance(1, 10) {
        return "__transient".into();
    }
    let len = match r.below(6) {
        0 => 1,
        1 => 40,
        2 => 39,
        3 => r.range(1, 3),
        _ => r.range(1, 40),
    } as usize;
    let first = b"abzAZmQ";
    let rest = b"abzAZ09-_m";
    let mut s = vec![*r.pick(first)];
    while s.len() < len {
        s.push(*r.pick(rest));
    }
    String::from_utf8(s).unwrap()
}

fn gen_hash(r: &mut Rng) -> String {
    let mut b = r.bytes(20);
    match r.below(6) {
        0 => b = vec![0; 20],
        1 => b = vec![0xff; 20],
        2 => {
            let n = r.idx(19) + 1;
            b[..n].fill(0);
        }
        _ => {}
    }
    hex::encode(b)
}

fn gen_princ(r: &mut Rng) -> Princ {
    Princ {
        version: *r.pick(&[22u8, 20, 26, 21]),
        hash: gen_hash(r),
        name: if r.chance(1, 2) { Some(gen_name(r)) } else { None },
    }
}

fn gen_u64(r: &mut Rng) -> u64 {
    match r.below(7) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 1 << r.below(64),
        4 => r.below(100_000),
        _ => r.next(),
    }
}

fn gen_sig(r: &mut Rng) -> String {
    let mut b = r.bytes(65);
    b[0] = r.below(4) as u8;
    // Both halves stay below the group order.
    b[1] &= 0x7f;
    b[33] &= 0x7f;
    if r.chance(1, 12) {
        b[1..].fill(0);
    }
    hex::encode(b)
}

fn gen_rec(r: &mut Rng, kind: Kind) -> Rec {
    let wide = |r: &mut Rng, n: usize| {
        let mut b = r.bytes(n);
        match r.below(5) {
            0 => b.fill(0),
            1 => b.fill(0xff),
            2 => {
                let k = r.idx(n);
                b[..k].fill(0)
            }
            _ => {}
        }
        hex::encode(b)
    };
    let mut rec = Rec { kind, net: 0, a: 0, b: 0, hex: String::new(), princ: None };
    match kind {
        Kind::Amount | Kind::U64 => rec.a = gen_u64(r),
        Kind::Sig => rec.hex = gen_sig(r),
        Kind::Addr | Kind::StdPrincipal | Kind::Principal => rec.princ = Some(gen_princ(r)),
        Kind::Name => {
            rec.princ = Some(Princ { version: 26, hash: String::new(), name: Some(gen_name(r)) })
        }
        Kind::U256 | Kind::Block => rec.hex = wide(r, 32),
        Kind::U512 => rec.hex = wide(r, 64),
        Kind::Op => rec.a = r.below(4),
        Kind::DepOut => {
            rec.net = r.below(4) as u8;
            rec.princ = Some(gen_princ(r));
        }
        Kind::WdOut => {
            rec.net = r.below(4) as u8;
            rec.a = gen_u64(r);
            rec.hex = gen_sig(r);
        }
        Kind::FulOut => {
            rec.net = r.below(4) as u8;
            rec.hex = wide(r, 32);
        }
        Kind::CrDep => {
            rec.princ = Some(gen_princ(r));
            rec.a = gen_u64(r);
        }
        Kind::CrWd => {
            rec.a = gen_u64(r);
            rec.b = gen_u64(r);
            rec.hex = gen_sig(r);
        }
        Kind::Script => {
            let n = r.idx(120);
            rec.hex = hex::encode(r.bytes(n));
        }
    }
    rec
}

fn gen_recs(r: &mut Rng, script_last: bool) -> Vec<Rec> {
    let n = 1 + r.idx(4);
    let mut v: Vec<Rec> = (0..n)
        .map(|_| {
            let k = KINDS[r.idx(KINDS.len() - 1)];
            gen_rec(r, k)
        })
        .collect();
    if script_last && r.chance(1, 8) {
        v.push(gen_rec(r, Kind::Script));
    }
    v
}

/// Chunk sizes and interruptions; `fail` adds a final failure.
fn gen_steps(r: &mut Rng, total: usize, fail: bool) -> (Vec<Step>, usize) {
    let chunk = match r.below(4) {
        0 => 1,
        1 => 1 + r.idx(8),
        2 => 1 + r.idx(64),
        _ => 1 << 16,
    };
    let mut steps = vec![];
    let n = r.idx(12);
    let small = r.chance(1, 2);
    let intr = r.below(4);
    for _ in 0..n {
        if r.below(4) < intr {
            steps.push(Step::Intr);
        } else {
            steps.push(Step::Take(1 + r.idx(if small { 4 } else { total.max(1) })));
        }
    }
    if fail {
        let at = r.idx(steps.len() + 1);
        steps.truncate(at);
        if r.chance(1, 3) {
            // Byte-exact position of the failure.
            steps.clear();
            let upto = r.idx(total + 1);
            let mut left = upto;
            while left > 0 {
                let k = 1 + r.idx(left.min(16));
                steps.push(Step::Take(k));
                left -= k.min(left);
            }
        }
        // EIO, ENOSPC, EPIPE, ETIMEDOUT, EAGAIN, ECONNRESET
        steps.push(match r.below(4) {
            0 => Step::End,
            _ => Step::Fail(*r.pick(&[5, 28, 32, 110, 11, 104])),
        });
    }
    (steps, chunk)
}

fn shrink_plan(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    for i in 0..p.recs.len() {
        if p.recs.len() > 1 {
            let mut q = p.clone();
            q.recs.remove(i);
            out.push(q);
        }
    }
    if !p.steps.is_empty() {
        let mut q = p.clone();
        q.steps.clear();
        out.push(q);
    }
    for i in 0..p.steps.len() {
        let mut q = p.clone();
        q.steps.remove(i);
        out.push(q);
    }
    for i in 0..p.muts.len() {
        let mut q = p.clone();
        q.muts.remove(i);
        out.push(q);
    }
    if p.chunk != 1 << 16 {
        let mut q = p.clone();
        q.chunk = 1 << 16;
        out.push(q);
    }
    if p.alt {
        let mut q = p.clone();
        q.alt = false;
        out.push(q);
    }
    for i in 0..p.recs.len() {
        let mut simple = p.recs[i].clone();
        simple.a = 0;
        simple.b = 0;
        simple.net = 0;
        if let Some(pr) = &mut simple.princ {
            pr.hash = "00".repeat(20);
            if pr.name.is_some() {
                pr.name = Some("a".into());
            }
        }
        if simple != p.recs[i] {
            let mut q = p.clone();
            q.recs[i] = simple;
            out.push(q);
        }
    }
    if let Some(t) = &p.tx {
        for t2 in t.shrink() {
            let mut q = p.clone();
            q.tx = Some(t2);
            out.push(q);
        }
    }
    out
}

fn runs(tier: Tier) -> u64 {
    match tier {
        Tier::Quick => 150_000,
        Tier::Thorough => 6_000_000,
    }
}

struct Hist {
    h: u64,
}

impl Hist {
    fn add(&mut self, o: &mut Outcome, line: String) {
        self.h = mix(self.h, fnv(line.as_bytes()));
        if o.log.len() < 400 {
            o.log.push(line);
        }
    }
}

fn io_report(o: &mut Outcome, io: &SimIo, kind: Kind) {
    for (k, v) in &io.fired {
        *o.faults.entry(k.clone()).or_default() += v;
    }
    for (off, what) in &io.events {
        o.states.push(mix(mix(kind as u64, *off as u64), fnv(what.as_bytes())));
    }
    o.steps += io.calls;
}

fn common_real() -> Vec<String> {
    vec!["stacks-core codec, address, contract_name, uint, utils".into(), "sbtc-core operations (op_return and commit_reveal data types)".into()]
}

// ---------------------------------------------------------------- S01

struct S01;

impl Scenario for S01 {
    type Plan = Plan;
    fn gen(&self, seed: u64, _i: u64, _t: Tier) -> Plan {
        let mut r = Rng::new(seed);
        let recs = gen_recs(&mut r, true);
        let total: usize = recs.iter().map(|x| spec::encode(x).len()).sum();
        let fail = r.chance(1, 2);
        let (steps, chunk) = gen_steps(&mut r, total, fail);
        Plan { recs, steps, chunk, alt: r.chance(1, 2), muts: vec![], decode_as: None, tx: None }
    }
    fn run(&self, p: &Plan) -> Outcome {
        let mut o = Outcome::default();
        let mut h = Hist { h: 1 };
        let mut w = SimIo::new(vec![], &p.steps, p.chunk);
        for rec in &p.recs {
            let want = spec::encode(rec);
            let v = match panics::guard(|| match Val::build(rec) {
                Some(v) => Ok(v),
                None => Val::decode(rec.kind, &mut want.as_slice()),
            }) {
                Ok(Ok(v)) => v,
                Ok(Err(e)) => {
                    o.violate("S01", format!("cannot-build-{:?}", rec.kind), format!("{rec:?}: {e}"));
                    break;
                }
                Err(e) => {
                    o.violate("S01", format!("panic-{:?}", rec.kind), format!("building {rec:?}: {e}"));
                    break;
                }
            };
            let start = w.data.len();
            let failed_before = w.failed;
            let res = panics::guard(|| {
                if p.alt {
                    v.encode2(&mut w).map_err(|e| e.to_string())
                } else {
                    v.encode(&mut w).map_err(|e| e.to_string())
                }
            });
            let got = w.data[start..].to_vec();
            h.add(&mut o, format!("encode {:?} -> {res:?} wrote {}", rec.kind, hex::encode(&got)));
            match res {
                Err(e) => {
                    o.violate("S01", format!("panic-{:?}", rec.kind), format!("encoding {rec:?}: {e}"));
                    break;
                }
                Ok(Ok(())) => {
                    if w.failed {
                        o.violate(
                            "S01",
                            format!("failure-hidden-{:?}", rec.kind),
                            format!("{rec:?}: the writer failed but encoding reported success, {} of {} bytes written", got.len(), want.len()),
                        );
                        break;
                    }
                    if got != want {
                        o.violate(
                            "S01",
                            format!("wrong-bytes-{:?}", rec.kind),
                            format!("{rec:?}: wrote {} instead of {}", hex::encode(&got), hex::encode(&want)),
                        );
                        break;
                    }
                }
                Ok(Err(e)) => {
                    if !w.failed {
                        o.violate(
                            "S01",
                            format!("spurious-error-{:?}", rec.kind),
                            format!("{rec:?}: writer never failed but encoding did: {e}"),
                        );
                    } else if !want.starts_with(&got) {
                        o.violate(
                            "S01",
                            format!("wrong-prefix-{:?}", rec.kind),
                            format!("{rec:?}: wrote {} which is no prefix of {}", hex::encode(&got), hex::encode(&want)),
                        );
                    }
                    if !failed_before {
                        o.probe("encoding-failed-midway");
                    }
                    break;
                }
            }
            if !p.steps.is_empty() {
                continue;
            }
            match panics::guard(|| v.to_vec()) {
                Ok(b) if b == want => {}
                x => o.violate("S01", format!("to-vec-{:?}", rec.kind), format!("{rec:?}: {x:?}")),
            }
        }
        o.nontrivial = !w.fired.is_empty();
        let k = p.recs[0].kind;
        io_report(&mut o, &w, k);
        o.trace_hash = h.h;
        o
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        shrink_plan(p)
    }
    fn runs(&self, t: Tier) -> u64 {
        runs(t)
    }
    fn rule(&self) -> String {
        "each run encodes 1-5 values of the 17 encodable kinds one after another into one simulated writer whose every call accepts a planned number of bytes, is interrupted, fails with an errno or is full; non-trivial: at least one short write, interruption or failure fired".into()
    }
    fn state_measure(&self) -> String {
        "distinct (value kind, byte offset, stream event) triples".into()
    }
    fn real_components(&self) -> Vec<String> {
        common_real()
    }
    fn stub_components(&self) -> Vec<String> {
        vec!["the writer".into()]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["writers obey std::io::Write (never report more bytes than offered)".into()]
    }
}

// ---------------------------------------------------------------- S02

struct S02;

impl Scenario for S02 {
    type Plan = Plan;
    fn gen(&self, seed: u64, _i: u64, _t: Tier) -> Plan {
        let mut r = Rng::new(seed);
        let recs = gen_recs(&mut r, true);
        let total: usize = recs.iter().map(|x| spec::encode(x).len()).sum();
        let fail = r.chance(1, 2);
        let (steps, chunk) = gen_steps(&mut r, total, fail);
        Plan { recs, steps, chunk, alt: r.chance(1, 2), muts: vec![], decode_as: None, tx: None }
    }
    fn run(&self, p: &Plan) -> Outcome {
        let mut o = Outcome::default();
        let mut h = Hist { h: 2 };
        let mut data = vec![];
        for rec in &p.recs {
            data.extend(spec::encode(rec));
        }
        // Bytes after the last value: a decoder must leave them alone.
        let tail_follows = p.recs.iter().all(|r| r.kind != Kind::Script);
        if tail_follows {
            data.extend([0x5a; 7]);
        }
        let mut io = SimIo::new(data, &p.steps, p.chunk);
        let mut at = 0;
        for rec in &p.recs {
            let want = spec::encode(rec);
            let res = panics::guard(|| {
                if p.alt {
                    Val::decode2(rec.kind, &mut io).map_err(|e| e.to_string())
                } else {
                    Val::decode(rec.kind, &mut io).map_err(|e| e.to_string())
                }
            });
            let shown = match &res {
                Ok(Ok(_)) => "value".to_string(),
                Ok(Err(e)) => format!("error {e}"),
                Err(e) => format!("panic {e}"),
            };
            h.add(&mut o, format!("decode {:?} at {at} -> {shown}, stream at {}", rec.kind, io.pos));
            match res {
                Err(e) => {
                    o.violate("S02", format!("panic-{:?}", rec.kind), format!("decoding {rec:?}: {e}"));
                    break;
                }
                Ok(Ok(v)) => {
                    // For the unframed Script an early end is its end.
                    let unframed_end = rec.kind == Kind::Script
                        && io.failed
                        && !io.events.iter().any(|(_, w)| w == "read-error");
                    if io.failed && !unframed_end {
                        o.violate(
                            "S02",
                            format!("value-from-failed-stream-{:?}", rec.kind),
                            format!("{rec:?}: the stream ended or failed after {} of {} bytes, yet a value came out", io.pos - at, want.len()),
                        );
                        break;
                    }
                    if unframed_end {
                        break;
                    }
                    if io.pos != at + want.len() {
                        o.violate(
                            "S02",
                            format!("consumed-{:?}", rec.kind),
                            format!("{rec:?}: consumed {} bytes, its encoding has {}", io.pos as i64 - at as i64, want.len()),
                        );
                        break;
                    }
                    let same = panics::guard(|| v.same(rec)).unwrap_or(false);
                    let back = panics::guard(|| v.to_vec()).unwrap_or_default();
                    if !same || back != want {
                        o.violate(
                            "S02",
                            format!("different-value-{:?}", rec.kind),
                            format!("{rec:?}: decoded value encodes as {}", hex::encode(back)),
                        );
                        break;
                    }
                }
                Ok(Err(e)) => {
                    if !io.failed {
                        o.violate(
                            "S02",
                            format!("spurious-error-{:?}", rec.kind),
                            format!("{rec:?}: complete stream but: {e}"),
                        );
                    } else {
                        o.probe("decoding-failed-midway");
                    }
                    if io.pos > at + want.len() {
                        o.violate("S02", format!("consumed-{:?}", rec.kind), format!("{rec:?}: consumed beyond its encoding before failing"));
                    }
                    break;
                }
            }
            at += want.len();
        }
        o.nontrivial = !io.fired.is_empty();
        io_report(&mut o, &io, p.recs[0].kind);
        o.trace_hash = h.h;
        o
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        shrink_plan(p)
    }
    fn runs(&self, t: Tier) -> u64 {
        runs(t)
    }
    fn rule(&self) -> String {
        "each run decodes 1-5 values of the 17 kinds written one after another from one simulated reader whose every call delivers a planned number of bytes, is interrupted, fails with an errno or ends early; non-trivial: at least one short read, interruption or failure fired".into()
    }
    fn state_measure(&self) -> String {
        "distinct (value kind, byte offset, stream event) triples".into()
    }
    fn real_components(&self) -> Vec<String> {
        common_real()
    }
    fn stub_components(&self) -> Vec<String> {
        vec!["the reader".into(), "the encoder: bytes come from an independent description of the formats".into()]
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a raw script has no length prefix, so an early end of its stream cannot be told from its end".into(),
        ]
    }
}

// ---------------------------------------------------------------- S03

struct S03;

fn apply(mut d: Vec<u8>, muts: &[Mut]) -> Vec<u8> {
    for m in muts {
        let n = d.len();
        match m {
            Mut::Flip { at, bit } if n > 0 => d[at % n] ^= 1 << (bit % 8),
            Mut::Set { at, to } if n > 0 => d[at % n] = *to,
            Mut::Cut { at } => d.truncate(at % (n + 1)),
            Mut::Drop { at, n: k } if n > 0 => {
                let a = at % n;
                let b = (a + k).min(n);
                d.drain(a..b);
            }
            Mut::Insert { at, hex: x } => {
                let a = at % (n + 1);
                let ins = hex::decode(x).unwrap_or_default();
                d.splice(a..a, ins);
            }
            Mut::Swap { at, with } if n > 0 => d.swap(at % n, with % n),
            _ => {}
        }
    }
    d
}

fn gen_muts(r: &mut Rng) -> Vec<Mut> {
    let n = match r.below(8) {
        0 => 0,
        1..=4 => 1,
        5 | 6 => 2,
        _ => 3 + r.idx(6),
    };
    (0..n)
        .map(|_| {
            // Structure bytes sit at the front of every format.
            let at = if r.chance(1, 2) { r.idx(6) } else { r.idx(90) };
            match r.below(8) {
                0 | 1 => Mut::Flip { at, bit: r.below(8) as u8 },
                2 | 3 => Mut::Set {
                    at,
                    to: match r.below(3) {
                        0 => r.next() as u8,
                        1 => *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 20, 21, 22, 26, 40, 41, 255]),
                        _ => *r.pick(b"<>!HXTid2.- _$aZ09"),
                    },
                },
                4 => Mut::Cut { at },
                5 => Mut::Drop { at, n: 1 + r.idx(4) },
                6 => {
                    let k = 1 + r.idx(4);
                    Mut::Insert { at, hex: hex::encode(r.bytes(k)) }
                }
                _ => Mut::Swap { at, with: r.idx(90) },
            }
        })
        .collect()
}

impl Scenario for S03 {
    type Plan = Plan;
    fn gen(&self, seed: u64, _i: u64, _t: Tier) -> Plan {
        let mut r = Rng::new(seed);
        let in_tx = r.chance(1, 4);
        let (kind, base) = {
            let k = match r.below(5) {
                0 | 1 if in_tx => Kind::DepOut,
                2 | 3 if in_tx => Kind::WdOut,
                _ => *r.pick(&KINDS),
            };
            (k, if r.chance(4, 5) { k } else { *r.pick(&KINDS) })
        };
        let mut rec = gen_rec(&mut r, base);
        if r.chance(1, 10) {
            let n = r.idx(100);
            rec = Rec { kind: Kind::Script, net: 0, a: 0, b: 0, hex: hex::encode(r.bytes(n)), princ: None };
        }
        if base == Kind::Name && r.chance(1, 2) {
            // Names around the rules, with their true length byte.
            let mut n = gen_name(&mut r);
            match r.below(5) {
                0 => n = "a".repeat(r.range(38, 60) as usize),
                1 => n.clear(),
                2 => n.insert(r.idx(n.len()), *r.pick(&['.', ' ', '$', 'é', '\n', '0', '-', '_'])),
                3 => n.push(*r.pick(&['.', ' ', '$', 'é', '\n', '\0', '-', '_'])),
                _ => n = format!("{}{n}", r.pick(&["0", "-", "_", "__", "é"])),
            }
            let mut b = vec![n.len() as u8];
            b.extend(n.as_bytes());
            rec = Rec { kind: Kind::Script, net: 0, a: 0, b: 0, hex: hex::encode(b), princ: None };
        }
        let muts = gen_muts(&mut r);
        let (steps, chunk) = gen_steps(&mut r, 40, false);
        let tx = in_tx.then(|| txs::TxPlan::gen(&mut r));
        Plan { recs: vec![rec], steps, chunk, alt: r.chance(1, 2), muts, decode_as: Some(kind), tx }
    }
    fn run(&self, p: &Plan) -> Outcome {
        let mut o = Outcome::default();
        let mut h = Hist { h: 3 };
        let kind = p.decode_as.unwrap_or(Kind::U64);
        let data = apply(spec::encode(&p.recs[0]), &p.muts);
        let want = spec::decode(kind, &data);
        for m in &p.muts {
            o.fault(match m {
                Mut::Flip { .. } => "flipped-bit",
                Mut::Set { .. } => "overwritten-byte",
                Mut::Cut { .. } => "truncated",
                Mut::Drop { .. } => "lost-bytes",
                Mut::Insert { .. } => "inserted-bytes",
                Mut::Swap { .. } => "swapped-bytes",
            });
        }
        if let Some(t) = &p.tx {
            let line = t.run(&data, &mut o);
            h.add(&mut o, line);
        }
        let mut io = SimIo::new(data.clone(), &p.steps, p.chunk);
        let res = panics::guard(|| {
            if p.alt {
                Val::decode2(kind, &mut io).map_err(|e| e.to_string())
            } else {
                Val::decode(kind, &mut io).map_err(|e| e.to_string())
            }
        });
        let shown = match &res {
            Ok(Ok(_)) => "value".to_string(),
            Ok(Err(e)) => format!("error {e}"),
            Err(e) => format!("panic {e}"),
        };
        h.add(&mut o, format!("decode {kind:?} from {} -> {shown}, consumed {}", hex::encode(&data), io.pos));
        match (res, want) {
            (Err(e), _) => o.violate("S03", format!("panic-{kind:?}"), format!("decoding {}: {e}", hex::encode(&data))),
            (Ok(Ok(v)), Some(n)) => {
                o.probe("accepted");
                if io.pos != n {
                    o.violate("S03", format!("consumed-{kind:?}"), format!("{}: consumed {} instead of {n}", hex::encode(&data), io.pos));
                } else {
                    match panics::guard(|| v.to_vec()) {
                        Ok(b) if b == data[..n] => {}
                        x => o.violate(
                            "S03",
                            format!("not-canonical-{kind:?}"),
                            format!("{} decodes to a value that encodes as {:?}", hex::encode(&data[..n]), x.map(hex::encode)),
                        ),
                    }
                }
            }
            (Ok(Ok(v)), None) => o.violate(
                "S03",
                format!("accepted-{kind:?}"),
                format!("{} is not a legal {kind:?} but decodes to a value that encodes as {:?}", hex::encode(&data), panics::guard(|| v.to_vec()).map(hex::encode)),
            ),
            (Ok(Err(e)), Some(n)) => {
                o.violate("S03", format!("rejected-{kind:?}"), format!("{} is a legal {kind:?} of {n} bytes but: {e}", hex::encode(&data)))
            }
            (Ok(Err(_)), None) => {
                o.probe("rejected");
                if io.pos > spec::max_len(kind) {
                    o.violate("S03", format!("overread-{kind:?}"), format!("consumed {} bytes before rejecting {}", io.pos, hex::encode(&data)));
                }
            }
        }
        o.nontrivial = !p.muts.is_empty() || p.tx.is_some();
        io_report(&mut o, &io, kind);
        o.states.clear();
        o.states.push(mix(kind as u64, fnv(&data)));
        o.trace_hash = h.h;
        o
    }
    fn shrink(&self, p: &Plan) -> Vec<Plan> {
        let mut v = shrink_plan(p);
        if p.tx.is_some() {
            let mut q = p.clone();
            q.tx = None;
            v.insert(0, q);
        }
        v
    }
    fn runs(&self, t: Tier) -> u64 {
        runs(t)
    }
    fn rule(&self) -> String {
        "each run corrupts one stored encoding (bit flips, overwritten, lost, inserted, swapped bytes, truncation; also encodings of another kind and random bytes) and decodes it through a simulated chunked, interrupted reader, or inside the data output of a Bitcoin transaction through the operation parsers; an independent recogniser of each format says accept or reject; non-trivial: at least one corruption applied".into()
    }
    fn state_measure(&self) -> String {
        "distinct (kind, stored bytes) pairs".into()
    }
    fn real_components(&self) -> Vec<String> {
        let mut v = common_real();
        v.push("Deposit::parse and try_parse_withdrawal_request".into());
        v
    }
    fn stub_components(&self) -> Vec<String> {
        vec!["the reader".into(), "the stored medium".into()]
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["secp256k1 and rust-bitcoin (address recognition, key recovery) are trusted".into()]
    }
}

fn main() {
    main_with(|p, cmd| {
        Some(match p {
            "S01" => drive(S01, p, cmd),
            "S02" => drive(S02, p, cmd),
            "S03" => drive(S03, p, cmd),
            _ => return None,
        })
    })
}
