//! Seeded single-threaded executor for the process under test.
use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::BTreeMap,
    future::Future,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    rc::Rc,
    sync::Arc,
    task::{Context, Poll, Wake, Waker},
};

use crate::{mix3, try_current, Exit, Sim, SimCrash, SimStop, Time, MS};

type Fut = Pin<Box<dyn Future<Output = ()>>>;

struct Task {
    fut: Option<Fut>,
    queued: bool,
}

#[derive(Default)]
pub struct Tasks {
    next: Cell<u64>,
    tasks: RefCell<BTreeMap<u64, Task>>,
    ready: RefCell<Vec<u64>>,
    polls: Cell<u64>,
    main_result: RefCell<Option<Result<String, String>>>,
    pub panics: RefCell<Vec<String>>,
    pub spawned: Cell<u64>,
}

struct TaskWaker {
    id: u64,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if let Some(sim) = try_current() {
            sim.tasks.wake(&sim, self.id);
        }
    }
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Why a spawned task gave no value.
#[derive(Debug)]
pub enum TaskError {
    Panic(Box<dyn Any + Send>),
    Cancelled,
}

/// Catches a panic of the code under test, but lets simulated crashes through.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn Any + Send>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) if e.is::<SimCrash>() || e.is::<SimStop>() => std::panic::resume_unwind(e),
        Err(e) => {
            if let Some(sim) = try_current() {
                let t = panic_text(&*e);
                sim.ev(format_args!("panic: {t}"));
                sim.tasks.panics.borrow_mut().push(t);
            }
            Err(e)
        }
    }
}

pub struct Join<T> {
    slot: Rc<RefCell<JoinSlot<T>>>,
    id: u64,
}
struct JoinSlot<T> {
    value: Option<Result<T, TaskError>>,
    waker: Option<Waker>,
    done: bool,
}
impl<T> Clone for Join<T> {
    fn clone(&self) -> Self {
        Join { slot: self.slot.clone(), id: self.id }
    }
}
impl<T> Join<T> {
    pub fn is_finished(&self) -> bool {
        self.slot.borrow().done
    }
    pub fn abort(&self) {
        if let Some(sim) = try_current() {
            let t = sim.tasks.tasks.borrow_mut().remove(&self.id);
            drop(t);
        }
        let mut s = self.slot.borrow_mut();
        if !s.done {
            s.done = true;
            s.value = Some(Err(TaskError::Cancelled));
            if let Some(w) = s.waker.take() {
                w.wake()
            }
        }
    }
}
impl<T> Future for Join<T> {
    type Output = Result<T, TaskError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.slot.borrow_mut();
        match s.value.take() {
            Some(v) => Poll::Ready(v),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
// Everything of one simulation lives on one thread.
unsafe impl<T> Send for Join<T> {}
unsafe impl<T> Sync for Join<T> {}

fn finish<T>(slot: &Rc<RefCell<JoinSlot<T>>>, v: Result<T, TaskError>) {
    let w = {
        let mut s = slot.borrow_mut();
        s.value = Some(v);
        s.done = true;
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake()
    }
}

impl Tasks {
    fn insert(&self, sim: &Rc<Sim>, fut: Fut) -> u64 {
        let id = self.next.get();
        self.next.set(id + 1);
        self.spawned.set(self.spawned.get() + 1);
        self.tasks.borrow_mut().insert(id, Task { fut: Some(fut), queued: false });
        self.wake(sim, id);
        id
    }

    pub fn spawn_main(&self, main: Pin<Box<dyn Future<Output = String>>>) {
        let sim = crate::current();
        let s2 = Rc::downgrade(&sim);
        let mut main = main;
        let fut: Fut = Box::pin(std::future::poll_fn(move |cx| {
            let r = catch(|| main.as_mut().poll(cx));
            let Some(sim) = s2.upgrade() else { return Poll::Ready(()) };
            match r {
                Ok(Poll::Pending) => Poll::Pending,
                Ok(Poll::Ready(v)) => {
                    *sim.tasks.main_result.borrow_mut() = Some(Ok(v));
                    Poll::Ready(())
                }
                Err(e) => {
                    *sim.tasks.main_result.borrow_mut() = Some(Err(panic_text(&*e)));
                    Poll::Ready(())
                }
            }
        }));
        self.insert(&sim, fut);
    }

    pub fn spawn<T: 'static>(&self, sim: &Rc<Sim>, fut: impl Future<Output = T> + 'static) -> Join<T> {
        let slot = Rc::new(RefCell::new(JoinSlot { value: None, waker: None, done: false }));
        let s2 = slot.clone();
        let mut fut = Box::pin(fut);
        let id = self.insert(
            sim,
            Box::pin(std::future::poll_fn(move |cx| match catch(|| fut.as_mut().poll(cx)) {
                Ok(Poll::Pending) => Poll::Pending,
                Ok(Poll::Ready(v)) => {
                    finish(&s2, Ok(v));
                    Poll::Ready(())
                }
                Err(e) => {
                    finish(&s2, Err(TaskError::Panic(e)));
                    Poll::Ready(())
                }
            })),
        );
        Join { slot, id }
    }

    fn wake(&self, sim: &Rc<Sim>, id: u64) {
        {
            let mut tasks = self.tasks.borrow_mut();
            let Some(t) = tasks.get_mut(&id) else { return };
            if t.queued {
                return;
            }
            t.queued = true;
        }
        // Some wake-ups arrive late: a slow thread or a busy machine.
        let mut delay: Time = 0;
        if sim.cfg.sched != 0 {
            let h = sim.decide("sched.wake");
            let h = mix3(sim.cfg.sched, h, 1);
            delay = match h % 64 {
                0 => (h >> 8) % (40 * MS),
                1..=7 => (h >> 8) % 400,
                _ => 0,
            };
        }
        if delay == 0 {
            self.ready.borrow_mut().push(id);
        } else {
            sim.at(delay, move |s| s.tasks.ready.borrow_mut().push(id));
        }
    }

    /// Polls one ready task; false if none is ready.
    pub fn poll_one(&self, sim: &Rc<Sim>) -> bool {
        let id = {
            let mut ready = self.ready.borrow_mut();
            if ready.is_empty() {
                return false;
            }
            let n = self.polls.get();
            self.polls.set(n + 1);
            let i = if sim.cfg.sched == 0 {
                0
            } else {
                (mix3(sim.cfg.sched, 2, n) % ready.len() as u64) as usize
            };
            ready.remove(i)
        };
        let fut = {
            let mut tasks = self.tasks.borrow_mut();
            let Some(t) = tasks.get_mut(&id) else { return true };
            t.queued = false;
            t.fut.take()
        };
        let Some(mut fut) = fut else { return true };
        let waker = Waker::from(Arc::new(TaskWaker { id }));
        let mut cx = Context::from_waker(&waker);
        sim.in_process.set(sim.in_process.get() + 1);
        let r = catch_unwind(AssertUnwindSafe(|| {
            sim.point("poll");
            fut.as_mut().poll(&mut cx)
        }));
        sim.in_process.set(sim.in_process.get() - 1);
        match r {
            Ok(Poll::Pending) => {
                if let Some(t) = self.tasks.borrow_mut().get_mut(&id) {
                    t.fut = Some(fut);
                    return true;
                }
                drop(fut);
            }
            Ok(Poll::Ready(())) => {
                self.tasks.borrow_mut().remove(&id);
                drop(fut);
            }
            Err(e) => {
                let _ = catch_unwind(AssertUnwindSafe(|| drop(fut)));
                self.tasks.borrow_mut().remove(&id);
                if e.is::<SimCrash>() {
                    sim.finish_crash();
                } else if !e.is::<SimStop>() {
                    std::panic::resume_unwind(e);
                }
                return true;
            }
        }
        let main = self.main_result.borrow_mut().take();
        match main {
            Some(Ok(v)) => sim.end_process(Exit::Returned(v)),
            Some(Err(e)) => sim.end_process(Exit::Panicked(e)),
            None => {}
        }
        true
    }

    pub fn take_all(&self) -> Vec<Box<dyn Any>> {
        self.ready.borrow_mut().clear();
        let all = std::mem::take(&mut *self.tasks.borrow_mut());
        all.into_values()
            .filter_map(|t| t.fut)
            .map(|f| Box::new(f) as Box<dyn Any>)
            .collect()
    }
}

/// A timer future.
pub struct Sleep {
    at: Time,
    slot: Option<Rc<SleepSlot>>,
}
struct SleepSlot {
    fired: Cell<bool>,
    waker: RefCell<Option<Waker>>,
}
unsafe impl Send for Sleep {}
unsafe impl Sync for Sleep {}

pub fn sleep_until(at: Time) -> Sleep {
    Sleep { at, slot: None }
}
pub fn sleep(d: Time) -> Sleep {
    sleep_until(crate::now().saturating_add(d))
}
impl Sleep {
    pub fn deadline(&self) -> Time {
        self.at
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let Some(sim) = try_current() else { return Poll::Pending };
        if sim.now() >= self.at {
            return Poll::Ready(());
        }
        if self.slot.is_none() {
            let slot = Rc::new(SleepSlot { fired: Cell::new(false), waker: RefCell::new(None) });
            let s2 = slot.clone();
            sim.at_abs(self.at, move |_| {
                s2.fired.set(true);
                let w = s2.waker.borrow_mut().take();
                if let Some(w) = w {
                    w.wake()
                }
            });
            self.slot = Some(slot);
        }
        *self.slot.as_ref().unwrap().waker.borrow_mut() = Some(cx.waker().clone());
        Poll::Pending
    }
}

/// A one-shot value delivered by a world event.
pub struct Promise<T> {
    slot: Rc<PromiseSlot<T>>,
}
struct PromiseSlot<T> {
    value: RefCell<Option<T>>,
    waker: RefCell<Option<Waker>>,
}
pub struct Resolver<T> {
    slot: Rc<PromiseSlot<T>>,
}
unsafe impl<T> Send for Promise<T> {}
unsafe impl<T> Sync for Promise<T> {}

pub fn promise<T>() -> (Resolver<T>, Promise<T>) {
    let slot = Rc::new(PromiseSlot { value: RefCell::new(None), waker: RefCell::new(None) });
    (Resolver { slot: slot.clone() }, Promise { slot })
}
impl<T> Resolver<T> {
    pub fn resolve(self, v: T) {
        *self.slot.value.borrow_mut() = Some(v);
        let w = self.slot.waker.borrow_mut().take();
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl<T> Promise<T> {
    pub fn try_take(&self) -> Option<T> {
        self.slot.value.borrow_mut().take()
    }
    pub fn is_ready(&self) -> bool {
        self.slot.value.borrow().is_some()
    }
}
impl<T> Future for Promise<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        if let Some(v) = self.try_take() {
            return Poll::Ready(v);
        }
        *self.slot.waker.borrow_mut() = Some(cx.waker().clone());
        Poll::Pending
    }
}
