//! Independent description of every format (written from the format
//! documentation, not from the code under test).
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub enum Kind {
    Amount,
    U64,
    Sig,
    Addr,
    Name,
    StdPrincipal,
    Principal,
    U256,
    U512,
    Block,
    Op,
    DepOut,
    WdOut,
    FulOut,
    CrDep,
    CrWd,
    Script,
}

pub const KINDS: [Kind; 17] = [
    Kind::Amount,
    Kind::U64,
    Kind::Sig,
    Kind::Addr,
    Kind::Name,
    Kind::StdPrincipal,
    Kind::Principal,
    Kind::U256,
    Kind::U512,
    Kind::Block,
    Kind::Op,
    Kind::DepOut,
    Kind::WdOut,
    Kind::FulOut,
    Kind::CrDep,
    Kind::CrWd,
    Kind::Script,
];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Princ {
    pub version: u8,
    pub hash: String,
    pub name: Option<String>,
}

/// A value, by its parts.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub kind: Kind,
    #[serde(default)]
    pub net: u8,
    #[serde(default)]
    pub a: u64,
    #[serde(default)]
    pub b: u64,
    #[serde(default)]
    pub hex: String,
    #[serde(default)]
    pub princ: Option<Princ>,
}

pub fn magic(net: u8) -> [u8; 2] {
    match net {
        0 => *b"X2",
        1 => *b"T2",
        _ => *b"id",
    }
}

fn unhex(s: &str) -> Vec<u8> {
    hex::decode(s).unwrap_or_default()
}

fn fixed(s: &str, n: usize) -> Vec<u8> {
    let mut v = unhex(s);
    v.resize(n, 0);
    v
}

fn enc_princ(p: &Princ) -> Vec<u8> {
    let mut o = vec![if p.name.is_some() { 6 } else { 5 }, p.version];
    o.extend(fixed(&p.hash, 20));
    if let Some(n) = &p.name {
        o.push(n.len() as u8);
        o.extend(n.as_bytes());
    }
    o
}

pub fn encode(r: &Rec) -> Vec<u8> {
    let p = r.princ.clone().unwrap_or(Princ { version: 26, hash: String::new(), name: None });
    let mut o = vec![];
    match r.kind {
        Kind::Amount | Kind::U64 => o.extend(r.a.to_be_bytes()),
        Kind::Sig => {
            o.extend(fixed(&r.hex, 65));
        }
        Kind::Addr | Kind::StdPrincipal => {
            o.push(p.version);
            o.extend(fixed(&p.hash, 20));
        }
        Kind::Name => {
            let n = p.name.unwrap_or_else(|| "a".into());
            o.push(n.len() as u8);
            o.extend(n.as_bytes());
        }
        Kind::Principal => o.extend(enc_princ(&p)),
        Kind::U256 | Kind::Block => o.extend(fixed(&r.hex, 32)),
        Kind::U512 => o.extend(fixed(&r.hex, 64)),
        Kind::Op => o.push(b"<>!H"[(r.a % 4) as usize]),
        Kind::DepOut => {
            o.extend(magic(r.net));
            o.push(b'<');
            o.extend(enc_princ(&p));
        }
        Kind::WdOut => {
            o.extend(magic(r.net));
            o.push(b'>');
            o.extend(r.a.to_be_bytes());
            o.extend(fixed(&r.hex, 65));
        }
        Kind::FulOut => {
            o.extend(magic(r.net));
            o.push(b'!');
            o.extend(fixed(&r.hex, 32));
        }
        Kind::CrDep => {
            o.push(b'<');
            o.extend(enc_princ(&p));
            o.extend(r.a.to_be_bytes());
        }
        Kind::CrWd => {
            o.push(b'>');
            o.extend(r.a.to_be_bytes());
            o.extend(fixed(&r.hex, 65));
            o.extend(r.b.to_be_bytes());
        }
        Kind::Script => o.extend(unhex(&r.hex)),
    }
    o
}

const ORDER: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
    0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];

fn need(d: &[u8], at: usize, n: usize) -> Option<usize> {
    (d.len() >= at + n).then_some(at + n)
}

fn sig(d: &[u8], at: usize) -> Option<usize> {
    let end = need(d, at, 65)?;
    if d[at] > 3 {
        return None;
    }
    if d[at + 1..at + 33] >= ORDER[..] || d[at + 33..at + 65] >= ORDER[..] {
        return None;
    }
    Some(end)
}

fn addr(d: &[u8], at: usize) -> Option<usize> {
    let end = need(d, at, 21)?;
    matches!(d[at], 20 | 21 | 22 | 26).then_some(end)
}

pub fn legal_name(n: &[u8]) -> bool {
    if n == b"__transient" {
        return true;
    }
    !n.is_empty()
        && n.len() <= 40
        && n[0].is_ascii_alphabetic()
        && n[1..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
}

fn name(d: &[u8], at: usize) -> Option<usize> {
    let at = need(d, at, 1)?;
    let end = need(d, at, d[at - 1] as usize)?;
    legal_name(&d[at..end]).then_some(end)
}

fn princ(d: &[u8], at: usize) -> Option<usize> {
    let p = need(d, at, 1)?;
    match d[at] {
        5 => addr(d, p),
        6 => name(d, addr(d, p)?),
        _ => None,
    }
}

fn tag(d: &[u8], op: u8) -> Option<usize> {
    need(d, 0, 3)?;
    (matches!(&d[..2], b"X2" | b"T2" | b"id") && d[2] == op).then_some(3)
}

/// The number of bytes of the value at the start of `d`, or None if there is none.
pub fn decode(kind: Kind, d: &[u8]) -> Option<usize> {
    match kind {
        Kind::Amount | Kind::U64 => need(d, 0, 8),
        Kind::Sig => sig(d, 0),
        Kind::Addr | Kind::StdPrincipal => addr(d, 0),
        Kind::Name => name(d, 0),
        Kind::Principal => princ(d, 0),
        Kind::U256 | Kind::Block => need(d, 0, 32),
        Kind::U512 => need(d, 0, 64),
        Kind::Op => {
            need(d, 0, 1)?;
            matches!(d[0], b'<' | b'>' | b'!' | b'H').then_some(1)
        }
        Kind::DepOut => princ(d, tag(d, b'<')?),
        Kind::WdOut => {
            let p = need(d, tag(d, b'>')?, 8)?;
            sig(d, p)
        }
        Kind::FulOut => need(d, tag(d, b'!')?, 32),
        Kind::CrDep => {
            need(d, 0, 1)?;
            if d[0] != b'<' {
                return None;
            }
            need(d, princ(d, 1)?, 8)
        }
        Kind::CrWd => {
            need(d, 0, 9)?;
            if d[0] != b'>' {
                return None;
            }
            need(d, sig(d, 9)?, 8)
        }
        Kind::Script => Some(d.len()),
    }
}

/// No decoder of this kind may take more bytes than this.
pub fn max_len(kind: Kind) -> usize {
    match kind {
        Kind::Amount | Kind::U64 => 8,
        Kind::Sig => 65,
        Kind::Addr | Kind::StdPrincipal => 21,
        Kind::Name => 256,
        Kind::Principal => 22 + 256,
        Kind::U256 | Kind::Block => 32,
        Kind::U512 => 64,
        Kind::Op => 1,
        Kind::DepOut => 25 + 256,
        Kind::WdOut => 76,
        Kind::FulOut => 35,
        Kind::CrDep => 31 + 256,
        Kind::CrWd => 82,
        Kind::Script => usize::MAX,
    }
}
