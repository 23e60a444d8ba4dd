//! Just enough for code that spawns through a handle.
use crate::task::{spawn, JoinHandle};
use std::future::Future;

#[derive(Clone, Debug)]
pub struct Handle(());
impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        spawn(f)
    }
}
