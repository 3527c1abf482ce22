use std::{collections::BTreeMap, fmt};

use crate::parse::Expr;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum V {
    Int(i128),
    UInt(u128),
    Bool(bool),
    Buff(Vec<u8>),
    Str(String),
    Utf8(String),
    List(Vec<V>),
    Tuple(BTreeMap<String, V>),
    Opt(Option<Box<V>>),
    Resp(bool, Box<V>),
    Principal(String),
}
impl V {
    pub fn some(v: V) -> V {
        V::Opt(Some(Box::new(v)))
    }
    pub fn none() -> V {
        V::Opt(None)
    }
    pub fn ok(v: V) -> V {
        V::Resp(true, Box::new(v))
    }
    pub fn err(v: V) -> V {
        V::Resp(false, Box::new(v))
    }
    /// Consensus encoding.
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        match self {
            V::Int(i) => {
                o.push(0);
                o.extend(i.to_be_bytes());
            }
            V::UInt(i) => {
                o.push(1);
                o.extend(i.to_be_bytes());
            }
            V::Buff(b) => {
                o.push(2);
                o.extend((b.len() as u32).to_be_bytes());
                o.extend(b);
            }
            V::Bool(b) => o.push(if *b { 3 } else { 4 }),
            V::Principal(p) => {
                o.push(5);
                o.extend(p.as_bytes());
            }
            V::Resp(k, v) => {
                o.push(if *k { 7 } else { 8 });
                o.extend(v.bytes());
            }
            V::Opt(None) => o.push(9),
            V::Opt(Some(v)) => {
                o.push(10);
                o.extend(v.bytes());
            }
            V::List(l) => {
                o.push(11);
                o.extend((l.len() as u32).to_be_bytes());
                for v in l {
                    o.extend(v.bytes());
                }
            }
            V::Tuple(t) => {
                o.push(12);
                o.extend((t.len() as u32).to_be_bytes());
                for (k, v) in t {
                    o.push(k.len() as u8);
                    o.extend(k.as_bytes());
                    o.extend(v.bytes());
                }
            }
            V::Str(s) => {
                o.push(13);
                o.extend((s.len() as u32).to_be_bytes());
                o.extend(s.as_bytes());
            }
            V::Utf8(s) => {
                o.push(14);
                o.extend((s.len() as u32).to_be_bytes());
                o.extend(s.as_bytes());
            }
        }
        o
    }
}
impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::Int(i) => write!(f, "{i}"),
            V::UInt(i) => write!(f, "u{i}"),
            V::Bool(b) => write!(f, "{b}"),
            V::Buff(b) => write!(f, "0x{}", hex::encode(b)),
            V::Str(s) => write!(f, "{s:?}"),
            V::Utf8(s) => write!(f, "u{s:?}"),
            V::Principal(p) => write!(f, "{p}"),
            V::List(l) => {
                write!(f, "(list")?;
                for v in l {
                    write!(f, " {v}")?;
                }
                write!(f, ")")
            }
            V::Tuple(t) => {
                write!(f, "(tuple")?;
                for (k, v) in t {
                    write!(f, " ({k} {v})")?;
                }
                write!(f, ")")
            }
            V::Opt(None) => write!(f, "none"),
            V::Opt(Some(v)) => write!(f, "(some {v})"),
            V::Resp(true, v) => write!(f, "(ok {v})"),
            V::Resp(false, v) => write!(f, "(err {v})"),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int,
    UInt,
    Bool,
    Principal,
    Buff(u64),
    Ascii(u64),
    Utf8(u64),
    List(u64, Box<Ty>),
    Tuple(BTreeMap<String, Ty>),
    Opt(Box<Ty>),
    Resp(Box<Ty>, Box<Ty>),
}

fn size(e: &Expr) -> Result<u64, String> {
    match e {
        Expr::Int(n) if *n >= 0 => Ok(*n as u64),
        e => Err(format!("not a length: {e:?}")),
    }
}

impl Ty {
    pub fn parse(e: &Expr) -> Result<Ty, String> {
        Ok(match e {
            Expr::Sym(s) => match s.as_str() {
                "int" => Ty::Int,
                "uint" => Ty::UInt,
                "bool" => Ty::Bool,
                "principal" => Ty::Principal,
                s => return Err(format!("unknown type {s}")),
            },
            Expr::Tuple(t) => {
                Ty::Tuple(t.iter().map(|(k, v)| Ok((k.clone(), Ty::parse(v)?))).collect::<Result<_, String>>()?)
            }
            Expr::List(l) => {
                let Some(Expr::Sym(h)) = l.first() else { return Err("bad type".into()) };
                match (h.as_str(), &l[1..]) {
                    ("buff", [n]) => Ty::Buff(size(n)?),
                    ("string-ascii", [n]) => Ty::Ascii(size(n)?),
                    ("string-utf8", [n]) => Ty::Utf8(size(n)?),
                    ("optional", [t]) => Ty::Opt(Box::new(Ty::parse(t)?)),
                    ("response", [a, b]) => Ty::Resp(Box::new(Ty::parse(a)?), Box::new(Ty::parse(b)?)),
                    ("list", [n, t]) => Ty::List(size(n)?, Box::new(Ty::parse(t)?)),
                    ("tuple", fs) => {
                        let mut m = BTreeMap::new();
                        for f in fs {
                            match f {
                                Expr::List(p) if p.len() == 2 => match &p[0] {
                                    Expr::Sym(k) => {
                                        m.insert(k.clone(), Ty::parse(&p[1])?);
                                    }
                                    _ => return Err("bad tuple type".into()),
                                },
                                _ => return Err("bad tuple type".into()),
                            }
                        }
                        Ty::Tuple(m)
                    }
                    (h, _) => return Err(format!("unknown type {h}")),
                }
            }
            e => return Err(format!("not a type: {e:?}")),
        })
    }

    pub fn admits(&self, v: &V) -> bool {
        match (self, v) {
            (Ty::Int, V::Int(_)) | (Ty::UInt, V::UInt(_)) | (Ty::Bool, V::Bool(_)) | (Ty::Principal, V::Principal(_)) => {
                true
            }
            (Ty::Buff(n), V::Buff(b)) => b.len() as u64 <= *n,
            (Ty::Ascii(n), V::Str(b)) => b.len() as u64 <= *n,
            (Ty::Utf8(n), V::Utf8(b)) => b.chars().count() as u64 <= *n,
            (Ty::List(n, t), V::List(l)) => l.len() as u64 <= *n && l.iter().all(|v| t.admits(v)),
            (Ty::Tuple(a), V::Tuple(b)) => {
                a.len() == b.len() && a.iter().all(|(k, t)| b.get(k).is_some_and(|v| t.admits(v)))
            }
            (Ty::Opt(_), V::Opt(None)) => true,
            (Ty::Opt(t), V::Opt(Some(v))) => t.admits(v),
            (Ty::Resp(a, _), V::Resp(true, v)) => a.admits(v),
            (Ty::Resp(_, b), V::Resp(false, v)) => b.admits(v),
            _ => false,
        }
    }
}
