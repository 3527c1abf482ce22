use std::{
    any::Any,
    fmt,
    future::Future,
    pin::Pin,
    sync::Mutex,
    task::{Context, Poll},
};

use simrt::task::{Join, TaskError};

pub struct JoinError {
    panic: Option<Mutex<Box<dyn Any + Send + 'static>>>,
}
impl JoinError {
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.panic.expect("`JoinError` reason is not a panic.").into_inner().unwrap()
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        if self.is_panic() {
            Ok(self.into_panic())
        } else {
            Err(self)
        }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinError::{}", if self.is_panic() { "Panic(...)" } else { "Cancelled" })
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.panic {
            Some(p) => write!(f, "task panicked with message {:?}", simrt::task::panic_text(&**p.lock().unwrap())),
            None => write!(f, "task was cancelled"),
        }
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}

pub struct JoinHandle<T> {
    join: Join<T>,
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.join.abort()
    }
    pub fn abort_handle(&self) -> AbortHandle
    where
        T: 'static,
    {
        let j = self.join.clone();
        AbortHandle(std::rc::Rc::new(move || j.abort()))
    }
    pub fn is_finished(&self) -> bool {
        self.join.is_finished()
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match Pin::new(&mut self.join).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(v)) => Poll::Ready(Ok(v)),
            Poll::Ready(Err(TaskError::Panic(p))) => {
                Poll::Ready(Err(JoinError { panic: Some(Mutex::new(p)) }))
            }
            Poll::Ready(Err(TaskError::Cancelled)) => Poll::Ready(Err(JoinError { panic: None })),
        }
    }
}
impl<T> Unpin for JoinHandle<T> {}

#[derive(Clone)]
pub struct AbortHandle(std::rc::Rc<dyn Fn()>);
unsafe impl Send for AbortHandle {}
unsafe impl Sync for AbortHandle {}
impl AbortHandle {
    pub fn abort(&self) {
        (self.0)()
    }
}

pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let sim = simrt::current();
    JoinHandle { join: sim.tasks.spawn(&sim, future) }
}

/// The closure runs in one go, when the scheduler picks its task; network and
/// disk operations in it block while only the rest of the world moves on.
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    let sim = simrt::current();
    JoinHandle { join: sim.tasks.spawn(&sim, async move { f() }) }
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            return Poll::Ready(());
        }
        done = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

/// A set of tasks, joined in the order in which they finish.
pub struct JoinSet<T> {
    set: Vec<JoinHandle<T>>,
}
impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        Self { set: vec![] }
    }
    pub fn len(&self) -> usize {
        self.set.len()
    }
    pub fn is_empty(&self) -> bool {
        self.set.is_empty()
    }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.set.push(h);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.set.is_empty() {
            return None;
        }
        let (i, r) = std::future::poll_fn(|cx| {
            for (i, h) in self.set.iter_mut().enumerate() {
                if let Poll::Ready(r) = Pin::new(h).poll(cx) {
                    return Poll::Ready((i, r));
                }
            }
            Poll::Pending
        })
        .await;
        self.set.remove(i);
        Some(r)
    }
    pub fn abort_all(&mut self) {
        for h in &self.set {
            h.abort()
        }
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.set {
            h.abort()
        }
    }
}
