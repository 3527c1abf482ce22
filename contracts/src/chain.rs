//! A Bitcoin chain reduced to what the contracts can see of it, and proofs
//! about it: right ones, and ones somebody tampered with.
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use simcore::Rng;

pub type Id = [u8; 32];

pub fn dsha(b: &[u8]) -> Id {
    Sha256::digest(Sha256::digest(b)).into()
}
fn pair(a: &Id, b: &Id) -> Id {
    dsha(&[&a[..], &b[..]].concat())
}
pub fn rev(b: &[u8]) -> Vec<u8> {
    b.iter().rev().copied().collect()
}

#[derive(Clone)]
pub struct Block {
    pub header: Vec<u8>,
    /// Transaction ids as they are hashed (not as they are displayed).
    pub ids: Vec<Id>,
    levels: Vec<Vec<Id>>,
}

fn levels(ids: &[Id]) -> Vec<Vec<Id>> {
    let mut out = vec![ids.to_vec()];
    while out.last().unwrap().len() > 1 {
        let l = out.last().unwrap();
        out.push(l.chunks(2).map(|c| pair(&c[0], c.last().unwrap())).collect());
    }
    out
}

impl Block {
    pub fn new(prev: &Id, ids: Vec<Id>, salt: u64) -> Block {
        let levels = levels(&ids);
        let mut header = vec![0, 0, 0, 0x20];
        header.extend(prev);
        header.extend(levels.last().unwrap()[0]);
        header.extend((1_700_000_000u32 ^ (salt >> 40) as u32).to_le_bytes());
        header.extend(0x1d00ffffu32.to_le_bytes());
        header.extend((salt as u32).to_le_bytes());
        Block { header, ids, levels }
    }
    pub fn hash(&self) -> Id {
        dsha(&self.header)
    }
    pub fn path(&self, mut i: usize) -> Vec<Id> {
        let mut out = vec![];
        for l in &self.levels[..self.levels.len() - 1] {
            out.push(*l.get(i ^ 1).unwrap_or(&l[i]));
            i /= 2;
        }
        out
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tweak {
    None,
    Height { by: i64 },
    /// The height, header or path of another block.
    HeightOf { back: u64 },
    HeaderOf { back: u64 },
    PathOf { back: u64, tx: u64 },
    HeaderBit { bit: u64 },
    HeaderCut { to: u64 },
    /// A header never mined whose root is the transaction itself or a new tree.
    Forged { salt: u64 },
    PathBit { at: u64, bit: u64 },
    PathCut,
    PathExtend { salt: u64 },
    PathEmpty,
    PathSwap { a: u64, b: u64 },
    Index { to: u64 },
    IdReversed,
    IdBit { bit: u64 },
    IdOf { tx: u64 },
    /// An id no block has, with the path of one that is.
    IdNew { salt: u64 },
}

impl Tweak {
    pub fn any(r: &mut Rng) -> Tweak {
        match r.below(18) {
            0 => Tweak::Height { by: if r.chance(1, 2) { 1 } else { -1 } },
            1 => Tweak::Height { by: r.range(0, 40) as i64 - 20 },
            2 => Tweak::HeightOf { back: r.below(4) },
            3 => Tweak::HeaderOf { back: r.below(4) },
            4 => Tweak::PathOf { back: r.below(4), tx: r.below(8) },
            5 => Tweak::HeaderBit { bit: r.below(640) },
            6 => Tweak::HeaderCut { to: *r.pick(&[0, 35, 36, 67, 68, 79]) },
            7 => Tweak::Forged { salt: r.next() },
            8 => Tweak::PathBit { at: r.below(14), bit: r.below(256) },
            9 => Tweak::PathCut,
            10 => Tweak::PathExtend { salt: r.next() },
            11 => Tweak::PathEmpty,
            12 => Tweak::PathSwap { a: r.below(4), b: r.below(4) },
            13 => Tweak::Index { to: if r.chance(1, 2) { r.below(9) } else { r.below(1 << 20) } },
            14 => Tweak::IdReversed,
            15 => Tweak::IdBit { bit: r.below(256) },
            16 => Tweak::IdOf { tx: r.below(9) },
            _ => Tweak::IdNew { salt: r.next() },
        }
    }
}

/// What a mint or burn claims about the Bitcoin chain.
#[derive(Clone, Debug)]
pub struct Claim {
    pub id: Vec<u8>,
    pub height: u128,
    pub path: Vec<Vec<u8>>,
    pub index: u128,
    pub header: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProofPlan {
    /// Blocks below the tip at the time of making it, or below the newest the
    /// contract can know.
    pub known: bool,
    pub back: u64,
    pub tx: u64,
    pub tweak: Tweak,
}

pub struct Burn {
    pub base: u64,
    pub blocks: Vec<Block>,
}

impl Burn {
    pub fn tip(&self) -> u64 {
        self.base + self.blocks.len() as u64 - 1
    }
    pub fn at(&self, h: u128) -> Option<&Block> {
        h.checked_sub(self.base as u128).and_then(|i| self.blocks.get(i as usize))
    }
    fn back(&self, n: u64) -> (u64, &Block) {
        let i = self.blocks.len() - 1 - (n as usize % self.blocks.len());
        (self.base + i as u64, &self.blocks[i])
    }

    pub fn claim(&self, p: &ProofPlan, seen: u64) -> Claim {
        let ahead = if p.known { self.tip() - seen } else { 0 };
        let (height, b) = self.back(p.back + ahead);
        let i = p.tx as usize % b.ids.len();
        let mut c = Claim {
            id: rev(&b.ids[i]),
            height: height as u128,
            path: b.path(i).iter().map(|x| x.to_vec()).collect(),
            index: i as u128,
            header: b.header.clone(),
        };
        let flip = |v: &mut Vec<u8>, bit: u64| {
            if !v.is_empty() {
                let at = bit as usize / 8 % v.len();
                v[at] ^= 1 << (bit % 8);
            }
        };
        match &p.tweak {
            Tweak::None => {}
            Tweak::Height { by } => c.height = (c.height as i128 + *by as i128).max(0) as u128,
            Tweak::HeightOf { back } => c.height = self.back(*back).0 as u128,
            Tweak::HeaderOf { back } => c.header = self.back(*back).1.header.clone(),
            Tweak::PathOf { back, tx } => {
                let o = self.back(*back).1;
                let i = *tx as usize % o.ids.len();
                c.path = o.path(i).iter().map(|x| x.to_vec()).collect();
            }
            Tweak::HeaderBit { bit } => flip(&mut c.header, *bit),
            Tweak::HeaderCut { to } => c.header.truncate(*to as usize),
            Tweak::Forged { salt } => {
                let id = dsha(&salt.to_le_bytes());
                let f = Block::new(&b.hash(), vec![id, b.ids[i]], *salt);
                c.path = f.path(0).iter().map(|x| x.to_vec()).collect();
                (c.id, c.index, c.header) = (rev(&id), 0, f.header);
            }
            Tweak::PathBit { at, bit } => {
                if let n @ 1.. = c.path.len() {
                    flip(&mut c.path[*at as usize % n], *bit)
                }
            }
            Tweak::PathCut => {
                c.path.pop();
            }
            Tweak::PathExtend { salt } => c.path.push(dsha(&salt.to_be_bytes()).to_vec()),
            Tweak::PathEmpty => c.path.clear(),
            Tweak::PathSwap { a, b } => {
                if let n @ 1.. = c.path.len() {
                    c.path.swap(*a as usize % n, *b as usize % n)
                }
            }
            Tweak::Index { to } => c.index = *to as u128,
            Tweak::IdReversed => c.id = rev(&c.id),
            Tweak::IdBit { bit } => flip(&mut c.id, *bit),
            Tweak::IdOf { tx } => c.id = rev(&b.ids[*tx as usize % b.ids.len()]),
            Tweak::IdNew { salt } => c.id = dsha(&salt.to_le_bytes()).to_vec(),
        }
        c
    }
}

impl Claim {
    /// Whether the claim holds in a chain known up to `seen`.
    pub fn holds(&self, burn: &Burn, seen: u64) -> Result<(), &'static str> {
        if self.height > seen as u128 {
            return Err("height");
        }
        let Some(b) = burn.at(self.height) else { return Err("height") };
        if b.header != self.header {
            return Err("header");
        }
        let Ok(mut n) = Id::try_from(rev(&self.id)) else { return Err("id") };
        for (k, p) in self.path.iter().enumerate() {
            let Ok(p) = Id::try_from(&p[..]) else { return Err("path") };
            n = if self.index >> k & 1 == 0 { pair(&n, &p) } else { pair(&p, &n) };
        }
        if n != b.levels.last().unwrap()[0] || (self.path.is_empty() && b.ids.len() > 1) {
            return Err("path");
        }
        Ok(())
    }
}
