//! Simulated storage: a page cache over durable contents.
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    io::{self, ErrorKind},
    rc::Rc,
};

use crate::{Sim, Time, MS};

#[derive(Clone, Debug)]
enum Op {
    Write(u64, Vec<u8>),
    SetLen(u64),
    Create,
}

#[derive(Clone, Debug, Default)]
struct File {
    cache: Vec<u8>,
    durable: Option<Vec<u8>>,
    pending: Vec<Op>,
    /// When (in free time) something last happened to it.
    busy: Time,
}

#[derive(Default)]
pub struct Disk {
    files: RefCell<BTreeMap<String, File>>,
    inflight: RefCell<Vec<(u64, String, Op)>>,
    next: RefCell<u64>,
    /// Called with (path, before, after) whenever durable content changes.
    pub on_durable: RefCell<Option<Rc<dyn Fn(&Rc<Sim>, &str)>>>,
    pub capacity: RefCell<Option<u64>>,
    syncing: Cell<u64>,
    synced: Cell<Time>,
}

fn apply(data: &mut Vec<u8>, op: &Op) {
    match op {
        Op::Write(off, b) => {
            let off = *off as usize;
            if data.len() < off + b.len() {
                data.resize(off + b.len(), 0);
            }
            data[off..off + b.len()].copy_from_slice(b);
        }
        Op::SetLen(n) => data.resize(*n as usize, 0),
        Op::Create => {}
    }
}

fn os(code: i32) -> io::Error {
    io::Error::from_raw_os_error(code)
}

impl Disk {
    pub fn exists(&self, path: &str) -> bool {
        self.files.borrow().contains_key(path)
    }
    pub fn list(&self) -> Vec<String> {
        self.files.borrow().keys().cloned().collect()
    }
    /// What the operating system shows now.
    pub fn read_all(&self, path: &str) -> Option<Vec<u8>> {
        self.files.borrow().get(path).map(|f| f.cache.clone())
    }
    /// What is on stable storage now.
    pub fn durable(&self, path: &str) -> Option<Vec<u8>> {
        self.files.borrow().get(path).and_then(|f| f.durable.clone())
    }
    /// Places a file as if written and synced long ago.
    pub fn preset(&self, path: &str, data: Vec<u8>) {
        self.files.borrow_mut().insert(
            path.into(),
            File { cache: data.clone(), durable: Some(data), ..File::default() },
        );
    }
    pub fn len(&self, path: &str) -> u64 {
        self.files.borrow().get(path).map_or(0, |f| f.cache.len() as u64)
    }

    pub fn open(
        &self,
        sim: &Rc<Sim>,
        path: &str,
        create: bool,
        create_new: bool,
        truncate: bool,
    ) -> io::Result<()> {
        sim.point("disk.open");
        if let Some(a) = sim.fault("disk.open") {
            return Err(os(if a % 2 == 0 { 5 } else { 24 }));
        }
        let mut files = self.files.borrow_mut();
        let has = files.contains_key(path);
        if has && create_new {
            return Err(ErrorKind::AlreadyExists.into());
        }
        if !has {
            if !(create || create_new) {
                return Err(ErrorKind::NotFound.into());
            }
            files.insert(path.into(), File { pending: vec![Op::Create], ..File::default() });
        }
        if truncate {
            let f = files.get_mut(path).unwrap();
            if !f.cache.is_empty() {
                f.cache.clear();
                f.pending.push(Op::SetLen(0));
            }
        }
        Ok(())
    }

    pub fn read(&self, sim: &Rc<Sim>, path: &str, off: u64, max: usize) -> io::Result<Vec<u8>> {
        if let Some(_a) = sim.fault("disk.read") {
            return Err(os(5));
        }
        let files = self.files.borrow();
        let Some(f) = files.get(path) else { return Err(ErrorKind::NotFound.into()) };
        let off = (off as usize).min(f.cache.len());
        let end = (off + max).min(f.cache.len());
        Ok(f.cache[off..end].to_vec())
    }

    fn latency(&self, sim: &Rc<Sim>) -> Time {
        sim.latency("disk.lat", 20, 3 * MS) + Disk::stall(sim)
    }

    /// A device that takes seconds for what usually takes milliseconds.
    fn stall(sim: &Rc<Sim>) -> Time {
        sim.fault("disk.slow").map_or(0, |a| 20 * a)
    }

    /// How long a file has had contents that are not on stable storage while
    /// nobody was doing anything about it although tasks could run.
    pub fn unattended(&self, sim: &Rc<Sim>, path: &str) -> Time {
        if self.syncing.get() > 0 || self.inflight.borrow().iter().any(|i| i.1 == path) {
            return 0;
        }
        let f = self.files.borrow();
        match f.get(path) {
            Some(f) if !f.pending.is_empty() => sim.free_time() - f.busy.max(self.synced.get()),
            _ => 0,
        }
    }

    /// Starts a write (or truncation); `done` gets its result. A dying process
    /// may or may not leave it applied.
    pub fn submit(
        &self,
        sim: &Rc<Sim>,
        path: &str,
        off: Option<u64>,
        data: Vec<u8>,
        set_len: Option<u64>,
        done: impl FnOnce(&Rc<Sim>, io::Result<u64>) + 'static,
    ) {
        let op = match set_len {
            Some(n) => Op::SetLen(n),
            None => Op::Write(off.unwrap_or(u64::MAX), data),
        };
        let id = {
            let mut n = self.next.borrow_mut();
            *n += 1;
            *n
        };
        self.inflight.borrow_mut().push((id, path.to_string(), op));
        let lat = self.latency(sim);
        let epoch = sim.epoch.get();
        sim.at(lat, move |sim| {
            let op = {
                let mut i = sim.disk.inflight.borrow_mut();
                i.iter().position(|(x, _, _)| *x == id).map(|p| i.remove(p))
            };
            let Some((_, path, op)) = op else { return };
            let r = sim.disk.execute(sim, &path, op, None);
            if sim.epoch.get() == epoch && sim.alive.get() {
                done(sim, r);
            }
        });
    }

    /// Performs an operation on the page cache; returns the end offset.
    fn execute(&self, sim: &Rc<Sim>, path: &str, op: Op, limit: Option<usize>) -> io::Result<u64> {
        let mut op = op;
        if let Op::Write(off, _) = &mut op {
            if *off == u64::MAX {
                *off = self.len(path);
            }
        }
        let mut err = None;
        let mut limit = limit;
        if let Op::Write(off, data) = &op {
            if let Some(cap) = *self.capacity.borrow() {
                let room = cap.saturating_sub(*off);
                if (data.len() as u64) > room {
                    limit = Some(room as usize);
                    err = Some(os(28));
                    *sim.fault_counts.borrow_mut().entry("disk.full".into()).or_default() += 1;
                }
            }
            if let Some(a) = sim.fault("disk.write") {
                limit = Some(a as usize % (data.len() + 1));
                err = Some(os(if a % 3 == 0 { 5 } else { 28 }));
            }
        } else if sim.fault("disk.truncate").is_some() {
            return Err(os(5));
        }
        if let (Op::Write(_, data), Some(n)) = (&mut op, limit) {
            data.truncate(n);
        }
        let mut files = self.files.borrow_mut();
        let Some(f) = files.get_mut(path) else { return Err(ErrorKind::NotFound.into()) };
        let end = match &op {
            Op::Write(off, d) => off + d.len() as u64,
            Op::SetLen(n) => *n,
            Op::Create => 0,
        };
        let empty = matches!(&op, Op::Write(_, d) if d.is_empty());
        if !empty {
            apply(&mut f.cache, &op);
            f.pending.push(op);
            f.busy = sim.free_time();
        }
        match err {
            Some(e) => Err(e),
            None => Ok(end),
        }
    }

    pub fn sync(
        &self,
        sim: &Rc<Sim>,
        path: &str,
        done: impl FnOnce(&Rc<Sim>, io::Result<()>) + 'static,
    ) {
        let lat = sim.latency("disk.sync", 200, 20 * MS) + Disk::stall(sim);
        self.syncing.set(self.syncing.get() + 1);
        let path = path.to_string();
        let epoch = sim.epoch.get();
        sim.at(lat, move |sim| {
            if sim.epoch.get() != epoch || !sim.alive.get() {
                return;
            }
            sim.disk.syncing.set(sim.disk.syncing.get() - 1);
            sim.disk.synced.set(sim.free_time());
            let r = if sim.fault("disk.sync").is_some() {
                Err(os(5))
            } else {
                if let Some(f) = sim.disk.files.borrow_mut().get_mut(&path) {
                    f.durable = Some(f.cache.clone());
                    f.pending.clear();
                }
                let hook = sim.disk.on_durable.borrow().clone();
                if let Some(h) = hook {
                    h(sim, &path);
                }
                Ok(())
            };
            done(sim, r);
        });
    }

    pub fn rename(&self, from: &str, to: &str) -> io::Result<()> {
        let mut files = self.files.borrow_mut();
        let Some(f) = files.remove(from) else { return Err(ErrorKind::NotFound.into()) };
        files.insert(to.into(), f);
        Ok(())
    }
    pub fn remove(&self, path: &str) -> io::Result<()> {
        match self.files.borrow_mut().remove(path) {
            Some(_) => Ok(()),
            None => Err(ErrorKind::NotFound.into()),
        }
    }

    /// The process is gone: its unfinished operations happen or do not; on
    /// power loss the page cache is lost too, except for what happened to be
    /// written back in order, with the last write possibly torn.
    pub fn process_died(&self, sim: &Rc<Sim>, power: bool) {
        self.syncing.set(0);
        let inflight = std::mem::take(&mut *self.inflight.borrow_mut());
        for (_, path, op) in inflight {
            let a = sim.decide("crash.inflight");
            if power && a % 4 == 0 {
                if let Op::Write(_, d) = &op {
                    let n = (a >> 8) as usize % (d.len() + 1);
                    let _ = self.execute(sim, &path, op.clone(), Some(n));
                    continue;
                }
            }
            if a % 2 == 0 {
                let _ = self.execute(sim, &path, op, None);
            }
        }
        if !power {
            return;
        }
        let mut gone = vec![];
        for (path, f) in self.files.borrow_mut().iter_mut() {
            let mut kept = f.durable.clone();
            let mode = sim.decide("crash.writeback") % 4;
            let n = f.pending.len();
            let keep = match mode {
                0 | 1 => 0,
                2 => n,
                _ => sim.decide("crash.keep") as usize % (n + 1),
            };
            for (i, op) in f.pending.iter().enumerate() {
                if i < keep {
                    apply(kept.get_or_insert_with(Vec::new), op);
                } else if i == keep && mode == 3 {
                    if let Op::Write(off, d) = op {
                        let cut = sim.decide("crash.torn") as usize % (d.len() + 1);
                        if kept.is_some() {
                            apply(kept.as_mut().unwrap(), &Op::Write(*off, d[..cut].to_vec()));
                            if cut > 0 && cut < d.len() {
                                sim.probe("disk.torn_write");
                            }
                        }
                    }
                }
            }
            if kept.as_ref() != Some(&f.cache) {
                sim.probe("disk.lost_writes");
            }
            f.pending.clear();
            match kept {
                Some(k) => {
                    f.cache = k.clone();
                    f.durable = Some(k);
                }
                None => gone.push(path.clone()),
            }
        }
        for g in gone {
            self.files.borrow_mut().remove(&g);
        }
    }
}
