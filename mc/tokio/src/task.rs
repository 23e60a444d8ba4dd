//! Tasks on the controlled scheduler.
use crate::mc;
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub mod coop {
    pub async fn consume_budget() {}
}
pub use coop::consume_budget;

pub struct JoinError {
    panic: Option<Mutex<Box<dyn Any + Send>>>,
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    pub fn into_panic(self) -> Box<dyn Any + Send> {
        self.panic.expect("not a panic").into_inner().unwrap()
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send>, JoinError> {
        if self.is_panic() { Ok(self.into_panic()) } else { Err(self) }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "JoinError::Panic(...)" } else { "JoinError::Cancelled" })
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "task panicked" } else { "task was cancelled" })
    }
}
impl std::error::Error for JoinError {}

struct Slot<T> {
    result: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
}

pub struct JoinHandle<T> {
    id: mc::TaskId,
    slot: Arc<Mutex<Slot<T>>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Id(mc::TaskId);
impl fmt::Display for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
pub fn try_id() -> Option<Id> {
    mc::current_task().map(Id)
}
pub fn id() -> Id {
    try_id().expect("not inside a task")
}

#[derive(Clone, Debug)]
pub struct AbortHandle {
    id: mc::TaskId,
}
impl AbortHandle {
    pub fn abort(&self) {
        mc::abort(self.id);
    }
    pub fn is_finished(&self) -> bool {
        !mc::with(|w| w.task_alive(self.id))
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle({})", self.id)
    }
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn id(&self) -> Id {
        Id(self.id)
    }
    pub fn abort(&self) {
        mc::abort(self.id);
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { id: self.id }
    }
    pub fn is_finished(&self) -> bool {
        self.slot.lock().unwrap().done
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.slot.lock().unwrap();
        match s.result.take() {
            Some(r) => Poll::Ready(r),
            None => {
                assert!(!s.done, "JoinHandle polled after completion");
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

fn finish<T>(slot: &Arc<Mutex<Slot<T>>>, r: Result<T, JoinError>) {
    let wk = {
        let mut s = slot.lock().unwrap();
        s.result = Some(r);
        s.done = true;
        s.waker.take()
    };
    if let Some(w) = wk {
        w.wake();
    }
}

struct Catch<F: Future> {
    fut: Option<Pin<Box<F>>>,
    slot: Arc<Mutex<Slot<F::Output>>>,
}
impl<F: Future> Unpin for Catch<F> {}
impl<F: Future> Future for Catch<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        let fut = this.fut.as_mut().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(cx)));
        match r {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => {
                drop(this.fut.take());
                finish(&this.slot, Ok(v));
                Poll::Ready(())
            }
            Err(p) => {
                mc::note_panic(&p);
                let f = this.fut.take();
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
                finish(&this.slot, Err(JoinError { panic: Some(Mutex::new(p)) }));
                Poll::Ready(())
            }
        }
    }
}

fn spawn_inner<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let slot = Arc::new(Mutex::new(Slot { result: None, done: false, waker: None }));
    let s2 = slot.clone();
    let id = mc::spawn_raw(
        Box::pin(Catch { fut: Some(Box::pin(fut)), slot: slot.clone() }),
        Some(Box::new(move || finish(&s2, Err(JoinError { panic: None })))),
    );
    JoinHandle { id, slot }
}

pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_inner(fut)
}
pub fn spawn_local<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_inner(fut)
}
/// Blocking work becomes an ordinary task that runs in one step.
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_inner(async move { f() })
}
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}
pub async fn yield_now() {
    let mut yielded = false;
    std::future::poll_fn(|cx| {
        if yielded {
            Poll::Ready(())
        } else {
            yielded = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

/// Tasks of a LocalSet are tasks like all others.
#[derive(Debug, Default)]
pub struct LocalSet(());
impl LocalSet {
    pub fn new() -> LocalSet {
        LocalSet(())
    }
    pub fn spawn_local<F>(&self, fut: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        spawn_inner(fut)
    }
    pub async fn run_until<F: Future>(&self, fut: F) -> F::Output {
        fut.await
    }
}
pub async fn unconstrained<F: Future>(f: F) -> F::Output {
    f.await
}

/// Minimal JoinSet.
pub struct JoinSet<T> {
    handles: Vec<JoinHandle<T>>,
}
impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { handles: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.handles.len()
    }
    pub fn is_empty(&self) -> bool {
        self.handles.is_empty()
    }
    pub fn spawn<F>(&mut self, fut: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn_inner(fut);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub fn abort_all(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| {
            if self.handles.is_empty() {
                return Poll::Ready(None);
            }
            for i in 0..self.handles.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
                    self.handles.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let mut cx = Context::from_waker(Waker::noop());
        for i in 0..self.handles.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(&mut cx) {
                self.handles.remove(i);
                return Some(r);
            }
        }
        None
    }
    pub async fn join_all(mut self) -> Vec<T> {
        let mut v = vec![];
        while let Some(r) = self.join_next().await {
            v.push(r.expect("task"));
        }
        v
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub fn detach_all(&mut self) {
        self.handles.clear();
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
}
