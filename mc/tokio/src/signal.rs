use crate::mc;
use std::io;

pub async fn ctrl_c() -> io::Result<()> {
    let mut seen = None;
    std::future::poll_fn(|cx| mc::poll_ctrl_c(&mut seen, cx)).await
}

pub mod unix {
    use super::*;
    use std::task::{Context, Poll};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn interrupt() -> Self {
            SignalKind(2)
        }
        pub const fn terminate() -> Self {
            SignalKind(15)
        }
        pub const fn hangup() -> Self {
            SignalKind(1)
        }
        pub const fn quit() -> Self {
            SignalKind(3)
        }
    }
    /// Only the interrupt is ever delivered.
    #[derive(Debug)]
    pub struct Signal(SignalKind, Option<u32>);
    pub fn signal(kind: SignalKind) -> io::Result<Signal> {
        Ok(Signal(kind, None))
    }
    impl Signal {
        pub async fn recv(&mut self) -> Option<()> {
            std::future::poll_fn(|cx| self.poll_recv(cx)).await
        }
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<()>> {
            if self.0 != SignalKind::interrupt() {
                return Poll::Pending;
            }
            mc::poll_ctrl_c(&mut self.1, cx).map(|_| Some(()))
        }
    }
}
