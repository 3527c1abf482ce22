use std::{
    any::Any,
    cell::{Cell, RefCell},
    cmp::Reverse,
    collections::{BTreeMap, BinaryHeap},
    fmt::{self, Write as _},
    rc::Rc,
};

use crate::{disk::Disk, net::Net, task::Tasks};

pub type Time = u64; // microseconds
pub const MS: Time = 1_000;
pub const SEC: Time = 1_000_000;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn mix3(a: u64, b: u64, c: u64) -> u64 {
    mix(mix(mix(a) ^ b) ^ c)
}
pub fn fnv(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// One injected fault: the `idx`-th decision of `class` came out as `arg`.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FaultAt {
    pub class: String,
    pub idx: u64,
    pub arg: u64,
}

/// A planned crash.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Crash {
    /// Crash when the `nth` occurrence of this point is reached ("*": any
    /// point), or at `nth` microseconds of simulated time if it is "time".
    pub point: String,
    pub nth: u64,
    /// Power loss: only durable storage survives.
    pub power: bool,
    pub down: Time,
}

/// A planned time window in which a service misbehaves.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outage {
    pub service: String,
    pub from: Time,
    pub to: Time,
    pub kind: String,
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    /// Decides latencies, random numbers and, by rate, faults.
    pub seed: u64,
    /// Decides the order of ready tasks and their wake-up delays; 0: FIFO.
    pub sched: u64,
    /// Faults per 100 000 decisions, by class.
    pub rates: BTreeMap<String, u32>,
    /// If set, exactly these faults fire and `rates` is ignored.
    pub explicit: Option<Vec<FaultAt>>,
    pub outages: Vec<Outage>,
    /// A lost reply may begin an outage of up to this length.
    pub spell: Time,
    pub crashes: Vec<Crash>,
    /// From this time on no fault fires.
    pub quiet: Time,
    pub max_time: Time,
    pub max_steps: u64,
    pub keep_log: bool,
    /// Scales every latency (percent).
    pub latency: u64,
}

/// Payload of the unwinding that ends a process at a crash point.
pub struct SimCrash;
/// Payload of the unwinding that ends the whole run (limits reached).
pub struct SimStop;

type Event = Box<dyn FnOnce(&Rc<Sim>)>;

struct Entry {
    at: Time,
    seq: u64,
    ev: Event,
}
impl PartialEq for Entry {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Entry {}
impl PartialOrd for Entry {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Entry {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stop {
    Running,
    Done,
    TimeLimit,
    StepLimit,
    Deadlock,
}

pub struct Sim {
    pub cfg: Config,
    now: Cell<Time>,
    /// The part of the time passed in which tasks could run, that is without
    /// the time in blocking calls (which stop every task here).
    free: Cell<Time>,
    seq: Cell<u64>,
    queue: RefCell<BinaryHeap<Reverse<Entry>>>,
    pub steps: Cell<u64>,
    counters: RefCell<BTreeMap<String, u64>>,
    explicit: BTreeMap<(String, u64), u64>,
    pub fired: RefCell<Vec<FaultAt>>,
    pub fault_counts: RefCell<BTreeMap<String, u64>>,
    /// Until when services are down that were not planned to be.
    pub spells: RefCell<BTreeMap<String, Time>>,
    pub probes: RefCell<BTreeMap<String, u64>>,
    pub random_counter: Cell<u64>,
    hash: Cell<u64>,
    pub log: RefCell<Vec<String>>,
    pub stop: Cell<Stop>,
    pub tasks: Tasks,
    pub net: Net,
    pub disk: Disk,
    // Process under test.
    pub epoch: Cell<u32>,
    pub alive: Cell<bool>,
    pub in_process: Cell<u32>,
    pub kill_pending: RefCell<Option<Crash>>,
    crash_done: RefCell<Vec<bool>>,
    pub on_exit: RefCell<Option<Rc<dyn Fn(&Rc<Sim>, Exit)>>>,
    pub ext: RefCell<BTreeMap<&'static str, Rc<dyn Any>>>,
    pub stop_when: RefCell<Option<Rc<dyn Fn(&Sim) -> bool>>>,
}

/// How a process ended.
#[derive(Clone, Debug)]
pub enum Exit {
    Returned(String),
    Panicked(String),
    Crashed(Crash),
}

thread_local! {
    static CURRENT: RefCell<Option<Rc<Sim>>> = const { RefCell::new(None) };
}

pub fn try_current() -> Option<Rc<Sim>> {
    CURRENT.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten()
}
pub fn current() -> Rc<Sim> {
    try_current().expect("no simulation on this thread")
}
pub fn now() -> Time {
    current().now()
}
pub fn point(name: &str) {
    if let Some(s) = try_current() {
        s.point(name)
    }
}

impl Sim {
    pub fn new(cfg: Config) -> Rc<Sim> {
        let explicit = cfg
            .explicit
            .iter()
            .flatten()
            .map(|f| ((f.class.clone(), f.idx), f.arg))
            .collect();
        let n = cfg.crashes.len();
        let sim = Rc::new(Sim {
            explicit,
            cfg,
            now: Cell::new(0),
            free: Cell::new(0),
            seq: Cell::new(0),
            queue: Default::default(),
            steps: Cell::new(0),
            counters: Default::default(),
            fired: Default::default(),
            fault_counts: Default::default(),
            spells: Default::default(),
            probes: Default::default(),
            random_counter: Cell::new(0),
            hash: Cell::new(0x5eed),
            log: Default::default(),
            stop: Cell::new(Stop::Running),
            tasks: Default::default(),
            net: Default::default(),
            disk: Default::default(),
            epoch: Cell::new(0),
            alive: Cell::new(true),
            in_process: Cell::new(0),
            kill_pending: RefCell::new(None),
            crash_done: RefCell::new(vec![false; n]),
            on_exit: RefCell::new(None),
            ext: Default::default(),
            stop_when: Default::default(),
        });
        for (i, c) in sim.cfg.crashes.clone().into_iter().enumerate() {
            if c.point == "time" {
                sim.at_abs(c.nth, move |s| {
                    s.crash_done.borrow_mut()[i] = true;
                    if s.alive.get() {
                        *s.kill_pending.borrow_mut() = Some(c);
                    }
                });
            }
        }
        sim
    }

    /// Makes this the simulation of the current thread.
    pub fn install(self: &Rc<Self>) {
        CURRENT.with(|c| *c.borrow_mut() = Some(self.clone()));
    }

    /// Breaks reference cycles; call when the run is over.
    pub fn teardown(self: &Rc<Self>) {
        self.alive.set(false);
        loop {
            let tasks = self.tasks.take_all();
            if tasks.is_empty() {
                break;
            }
            for t in tasks {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(t)));
            }
        }
        let q = std::mem::take(&mut *self.queue.borrow_mut());
        drop(q);
        self.net.clear();
        *self.on_exit.borrow_mut() = None;
        *self.stop_when.borrow_mut() = None;
        let e = std::mem::take(&mut *self.ext.borrow_mut());
        drop(e);
        CURRENT.with(|c| *c.borrow_mut() = None);
    }

    pub fn free_time(&self) -> Time {
        self.free.get()
    }
    pub fn now(&self) -> Time {
        self.now.get()
    }

    pub fn at(&self, delay: Time, f: impl FnOnce(&Rc<Sim>) + 'static) {
        self.at_abs(self.now().saturating_add(delay), f)
    }

    pub fn at_abs(&self, at: Time, f: impl FnOnce(&Rc<Sim>) + 'static) {
        let seq = self.seq.get();
        self.seq.set(seq + 1);
        self.queue.borrow_mut().push(Reverse(Entry {
            at: at.max(self.now()),
            seq,
            ev: Box::new(f),
        }));
    }

    // ----- decisions -----

    fn count(&self, class: &str) -> u64 {
        let mut c = self.counters.borrow_mut();
        if let Some(n) = c.get_mut(class) {
            *n += 1;
            return *n - 1;
        }
        c.insert(class.to_string(), 1);
        0
    }

    /// A seeded number for the next decision of this class (not a fault).
    pub fn decide(&self, class: &str) -> u64 {
        let n = self.count(class);
        mix3(self.cfg.seed, fnv(class.as_bytes()), n)
    }

    /// Whether the next decision of this fault class injects a fault, and a
    /// number that selects its details.
    pub fn fault(&self, class: &str) -> Option<u64> {
        let idx = self.count(class);
        let arg = if self.cfg.explicit.is_some() {
            *self.explicit.get(&(class.to_string(), idx))?
        } else {
            let rate = *self.cfg.rates.get(class)? as u64;
            if self.now() >= self.cfg.quiet {
                return None;
            }
            let h = mix3(self.cfg.seed ^ 0xfa, fnv(class.as_bytes()), idx);
            if h % 100_000 >= rate {
                return None;
            }
            mix(h) % 1_000_000
        };
        self.fired.borrow_mut().push(FaultAt { class: class.into(), idx, arg });
        *self.fault_counts.borrow_mut().entry(class.into()).or_default() += 1;
        self.ev(format_args!("fault {class} #{idx} arg {arg}"));
        Some(arg)
    }

    /// The reply got lost because the service goes down, for some of the faults.
    pub fn spell(&self, service: &str, arg: u64) {
        if self.cfg.spell > 0 && arg / 64 % 3 == 0 {
            let until = (self.now() + mix(arg) % self.cfg.spell).min(self.cfg.quiet);
            self.ev(format_args!("{service} down until {until}"));
            self.spells.borrow_mut().insert(service.into(), until);
        }
    }

    /// The kind of the outage of this service now, if any.
    pub fn outage(&self, service: &str) -> Option<String> {
        let now = self.now();
        if self.spells.borrow().get(service).is_some_and(|t| now < *t) {
            *self.fault_counts.borrow_mut().entry(format!("outage.{service}.spell")).or_default() += 1;
            return Some("down".into());
        }
        let o = self
            .cfg
            .outages
            .iter()
            .find(|o| o.service == service && o.from <= now && now < o.to)?;
        *self
            .fault_counts
            .borrow_mut()
            .entry(format!("outage.{}.{}", o.service, o.kind))
            .or_default() += 1;
        Some(o.kind.clone())
    }

    /// A latency between `lo` and `hi`, usually near `lo`.
    pub fn latency(&self, class: &str, lo: Time, hi: Time) -> Time {
        let h = self.decide(class);
        let span = hi.saturating_sub(lo).max(1);
        let a = h % span;
        let b = (h >> 32) % span;
        let v = lo + (a as u128 * b as u128 / span as u128) as u64;
        v * self.cfg.latency.max(1) / 100
    }

    pub fn probe(&self, name: &str) {
        *self.probes.borrow_mut().entry(name.into()).or_default() += 1;
    }

    // ----- history -----

    pub fn ev(&self, args: fmt::Arguments) {
        struct H(u64);
        impl fmt::Write for H {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                for b in s.as_bytes() {
                    self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100_0000_01b3);
                }
                Ok(())
            }
        }
        let mut h = H(mix(self.hash.get()) ^ self.now());
        let _ = h.write_fmt(args);
        self.hash.set(mix(h.0));
        if self.cfg.keep_log {
            let mut l = self.log.borrow_mut();
            if l.len() < 200_000 {
                l.push(format!("{:>12.6} {}", self.now() as f64 / 1e6, args));
            }
        }
    }

    pub fn trace_hash(&self) -> u64 {
        self.hash.get()
    }

    // ----- crash points -----

    /// A place where the process may be made to crash.
    pub fn point(&self, name: &str) {
        if !self.alive.get() || self.in_process.get() == 0 || std::thread::panicking() {
            return;
        }
        if !self.cfg.crashes.is_empty() && self.now() < self.cfg.quiet {
            let n = self.count(&format!("point.{name}")) + 1;
            let all = self.count("point.*") + 1;
            let hit = {
                let done = self.crash_done.borrow();
                self.cfg.crashes.iter().enumerate().position(|(i, c)| {
                    !done[i]
                        && ((c.point == name && c.nth == n) || (c.point == "*" && c.nth == all))
                })
            };
            if let Some(i) = hit {
                self.crash_done.borrow_mut()[i] = true;
                *self.kill_pending.borrow_mut() = Some(self.cfg.crashes[i].clone());
                self.ev(format_args!("crash point {name} #{n}"));
            }
        }
        self.check_kill();
    }

    /// A moment in the outside world at which the process may be made to crash
    /// (a node has just accepted a transaction, say).
    pub fn world_point(&self, name: &str) {
        if !self.alive.get() || self.cfg.crashes.is_empty() || self.now() >= self.cfg.quiet {
            return;
        }
        let n = self.count(&format!("point.{name}")) + 1;
        let hit = {
            let done = self.crash_done.borrow();
            self.cfg.crashes.iter().enumerate().position(|(i, c)| !done[i] && c.point == name && c.nth == n)
        };
        if let Some(i) = hit {
            self.crash_done.borrow_mut()[i] = true;
            *self.kill_pending.borrow_mut() = Some(self.cfg.crashes[i].clone());
            self.ev(format_args!("crash point {name} #{n}"));
        }
    }

    /// Crash points seen so far (for planning crashes in later runs).
    pub fn points(&self) -> u64 {
        self.counters.borrow().get("point.*").copied().unwrap_or(0)
    }

    /// Unwinds out of the process under test if it is being killed.
    pub fn check_kill(&self) {
        if self.stop.get() != Stop::Running && self.in_process.get() > 0 {
            std::panic::resume_unwind(Box::new(SimStop));
        }
        if self.kill_pending.borrow().is_some() && self.in_process.get() > 0 && self.alive.get() {
            self.alive.set(false);
            std::panic::resume_unwind(Box::new(SimCrash));
        }
    }

    // ----- running -----

    fn next_event_at(&self) -> Option<Time> {
        self.queue.borrow().peek().map(|Reverse(e)| e.at)
    }

    fn step_limits(&self) {
        self.steps.set(self.steps.get() + 1);
        if self.stop.get() != Stop::Running {
            return;
        }
        if self.steps.get() > self.cfg.max_steps {
            self.stop.set(Stop::StepLimit);
        } else if self.now() >= self.cfg.max_time {
            self.stop.set(Stop::TimeLimit);
        }
    }

    /// Runs the earliest event; false if there is none.
    fn step_event(self: &Rc<Self>) -> bool {
        let e = self.queue.borrow_mut().pop();
        let Some(Reverse(e)) = e else { return false };
        if e.at > self.now() {
            self.now.set(e.at);
        }
        (e.ev)(self);
        self.step_limits();
        if self.steps.get() % 64 == 0 {
            let f = self.stop_when.borrow().clone();
            if let Some(f) = f {
                if f(self) && self.stop.get() == Stop::Running {
                    self.stop.set(Stop::Done);
                }
            }
        }
        true
    }

    /// Blocks the calling code (a synchronous operation) until `cond` holds;
    /// false if `timeout` passes first. Only world events run meanwhile.
    pub fn block_until(
        self: &Rc<Self>,
        timeout: Option<Time>,
        mut cond: impl FnMut() -> bool,
    ) -> bool {
        let deadline = timeout.map(|t| self.now().saturating_add(t));
        loop {
            self.check_kill();
            if cond() {
                return true;
            }
            if let Some(d) = deadline {
                if self.next_event_at().map_or(true, |n| n > d) {
                    if d > self.now() {
                        self.now.set(d);
                    }
                    self.step_limits();
                    self.check_kill();
                    return cond();
                }
            }
            if !self.step_event() {
                self.stop.set(Stop::Deadlock);
                self.check_kill();
                return false;
            }
        }
    }

    pub fn block_sleep(self: &Rc<Self>, d: Time) {
        self.block_until(Some(d), || false);
    }

    /// Runs until a limit is reached, `stop` is set or nothing is left to do.
    pub fn run(self: &Rc<Self>) {
        loop {
            if self.stop.get() != Stop::Running {
                return;
            }
            if self.kill_pending.borrow().is_some() {
                self.finish_crash();
                continue;
            }
            if self.tasks.poll_one(self) {
                self.step_limits();
                continue;
            }
            let before = self.now();
            if !self.step_event() {
                self.stop.set(Stop::Deadlock);
                return;
            }
            self.free.set(self.free.get() + (self.now() - before));
        }
    }

    /// Ends the current process after a crash.
    pub fn finish_crash(self: &Rc<Self>) {
        let Some(crash) = self.kill_pending.borrow_mut().take() else { return };
        if self.epoch.get() == 0 {
            return;
        }
        self.end_process(Exit::Crashed(crash));
    }

    /// Drops everything the process owned; only the disk survives.
    pub fn end_process(self: &Rc<Self>, exit: Exit) {
        self.alive.set(false);
        self.ev(format_args!("process {} ends: {:?}", self.epoch.get(), exit));
        match &exit {
            Exit::Crashed(c) => {
                *self
                    .fault_counts
                    .borrow_mut()
                    .entry(if c.power { "crash.power" } else { "crash.kill" }.into())
                    .or_default() += 1;
                self.disk.process_died(self, c.power);
            }
            _ => self.disk.process_died(self, false),
        }
        for t in self.tasks.take_all() {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(t)));
        }
        self.net.process_died();
        self.epoch.set(self.epoch.get() + 1);
        let f = self.on_exit.borrow().clone();
        if let Some(f) = f {
            f(self, exit);
        }
    }

    /// Starts a process: `main` runs as its first task.
    pub fn start_process(
        self: &Rc<Self>,
        main: std::pin::Pin<Box<dyn std::future::Future<Output = String>>>,
    ) {
        if self.epoch.get() == 0 {
            self.epoch.set(1);
        }
        self.alive.set(true);
        self.ev(format_args!("process {} starts", self.epoch.get()));
        self.tasks.spawn_main(main);
    }
}
