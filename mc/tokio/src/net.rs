//! In-memory stand-ins for tokio::net.
use crate::mc;
use std::future::poll_fn;
use std::io;
use std::net::{Shutdown, SocketAddr};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

pub trait ToSocketAddrs: std::net::ToSocketAddrs {}
impl<T: std::net::ToSocketAddrs + ?Sized> ToSocketAddrs for T {}

/// Stand-in for tokio::io::Interest (re-exported there).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Interest {
    readable: bool,
    writable: bool,
}
impl Interest {
    pub const READABLE: Interest = Interest { readable: true, writable: false };
    pub const WRITABLE: Interest = Interest { readable: false, writable: true };
    pub const fn add(self, o: Interest) -> Interest {
        Interest { readable: self.readable || o.readable, writable: self.writable || o.writable }
    }
    pub const fn is_readable(self) -> bool {
        self.readable
    }
    pub const fn is_writable(self) -> bool {
        self.writable
    }
}
impl std::ops::BitOr for Interest {
    type Output = Interest;
    fn bitor(self, o: Interest) -> Interest {
        self.add(o)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ready {
    r: bool,
    w: bool,
}
impl Ready {
    pub fn is_readable(self) -> bool {
        self.r
    }
    pub fn is_writable(self) -> bool {
        self.w
    }
    pub fn is_empty(self) -> bool {
        !self.r && !self.w
    }
}

#[derive(Debug)]
pub struct TcpSocket {
    addr: std::cell::Cell<Option<SocketAddr>>,
}
impl TcpSocket {
    pub fn new_v4() -> io::Result<TcpSocket> {
        Ok(TcpSocket { addr: Default::default() })
    }
    pub fn new_v6() -> io::Result<TcpSocket> {
        Self::new_v4()
    }
    pub fn set_reuseaddr(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_reuseport(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_keepalive(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_send_buffer_size(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_recv_buffer_size(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn bind(&self, a: SocketAddr) -> io::Result<()> {
        self.addr.set(Some(a));
        Ok(())
    }
    pub fn listen(self, _: u32) -> io::Result<TcpListener> {
        let a = self.addr.get().ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "not bound"))?;
        Ok(TcpListener { addr: mc::net_bind(a)? })
    }
}

#[derive(Debug)]
pub struct TcpListener {
    addr: SocketAddr,
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<TcpListener> {
        let mut last = io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address");
        for a in addr.to_socket_addrs()? {
            match mc::net_bind(a) {
                Ok(addr) => return Ok(TcpListener { addr }),
                Err(e) => last = e,
            }
        }
        Err(last)
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        mc::net_poll_accept(self.addr, cx).map_ok(|(id, peer)| (TcpStream::from_conn(id), peer))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        mc::net_unbind(self.addr);
    }
}

#[derive(Debug)]
pub struct TcpStream {
    id: mc::ConnId,
    armed: bool,
}

impl TcpStream {
    /// harness only
    pub fn from_conn(id: mc::ConnId) -> TcpStream {
        TcpStream { id, armed: true }
    }
    pub async fn connect<A: ToSocketAddrs>(_addr: A) -> io::Result<TcpStream> {
        Err(io::Error::new(io::ErrorKind::ConnectionRefused, "outgoing connections are not modelled"))
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(mc::net_addrs(self.id).1)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(mc::net_addrs(self.id).0)
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_linger(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn linger(&self) -> io::Result<Option<Duration>> {
        Ok(None)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    /// harness only
    pub fn conn_id(&self) -> mc::ConnId {
        self.id
    }
    pub async fn ready(&self, i: Interest) -> io::Result<Ready> {
        poll_fn(|cx| {
            let r = i.readable && mc::net_poll_read_ready(self.id, cx).is_ready();
            let w = i.writable && mc::net_poll_write_ready(self.id, cx).is_ready();
            if r || w { Poll::Ready(Ok(Ready { r, w })) } else { Poll::Pending }
        })
        .await
    }
    pub fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
        let b = buf.initialize_unfilled();
        let r = mc::net_poll_read(self.id, cx, b, true);
        if let Poll::Ready(Ok(n)) = &r {
            buf.advance(*n);
        }
        r
    }
    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        mc::net_poll_read_ready(self.id, cx)
    }
    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        mc::net_poll_write_ready(self.id, cx)
    }
    pub fn set_quickack(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| mc::net_poll_read_ready(self.id, cx)).await
    }
    pub async fn writable(&self) -> io::Result<()> {
        poll_fn(|cx| mc::net_poll_write_ready(self.id, cx)).await
    }
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let wk = std::task::Waker::noop();
        match mc::net_poll_read(self.id, &mut Context::from_waker(wk), buf, false) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
        let mut tmp = vec![0u8; buf.chunk_mut().len()];
        let n = self.try_read(&mut tmp)?;
        buf.put_slice(&tmp[..n]);
        Ok(n)
    }
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        match mc::net_poll_write(self.id, None, buf) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        poll_fn(|cx| mc::net_poll_read(self.id, cx, buf, true)).await
    }
    pub fn into_split(mut self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        self.armed = false;
        let s = Arc::new(self);
        (tcp::OwnedReadHalf { inner: s.clone(), disarmed: false }, tcp::OwnedWriteHalf { inner: s, shutdown_on_drop: true })
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (tcp::ReadHalf(self.id, std::marker::PhantomData), tcp::WriteHalf(self.id, std::marker::PhantomData))
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        if self.armed {
            mc::net_drop_read(self.id);
            mc::net_shutdown_write(self.id);
            mc::net_drop_write(self.id);
        }
    }
}

fn do_read(id: mc::ConnId, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let b = buf.initialize_unfilled();
    match mc::net_poll_read(id, cx, b, false) {
        Poll::Ready(Ok(n)) => {
            buf.advance(n);
            Poll::Ready(Ok(()))
        }
        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        Poll::Pending => Poll::Pending,
    }
}

macro_rules! impl_read {
    ($t:ty, $self_:ident => $id:expr) => {
        impl AsyncRead for $t {
            fn poll_read($self_: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                do_read($id, cx, buf)
            }
        }
    };
}
macro_rules! impl_write {
    ($t:ty, $self_:ident => $id:expr) => {
        impl AsyncWrite for $t {
            fn poll_write($self_: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                mc::net_poll_write($id, Some(cx), buf)
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown($self_: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                mc::net_shutdown_write($id);
                Poll::Ready(Ok(()))
            }
        }
    };
}
impl_read!(TcpStream, self => self.id);
impl_write!(TcpStream, self => self.id);

pub mod tcp {
    use super::*;
    use std::marker::PhantomData;

    pub struct ReadHalf<'a>(pub(crate) mc::ConnId, pub(crate) PhantomData<&'a ()>);
    pub struct WriteHalf<'a>(pub(crate) mc::ConnId, pub(crate) PhantomData<&'a ()>);
    impl_read!(ReadHalf<'_>, self => self.0);
    impl_write!(WriteHalf<'_>, self => self.0);

    #[derive(Debug)]
    pub struct OwnedReadHalf {
        pub(crate) inner: Arc<TcpStream>,
        pub(crate) disarmed: bool,
    }
    #[derive(Debug)]
    pub struct OwnedWriteHalf {
        pub(crate) inner: Arc<TcpStream>,
        pub(crate) shutdown_on_drop: bool,
    }
    #[derive(Debug)]
    pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);

    impl_read!(OwnedReadHalf, self => self.inner.id);
    impl_write!(OwnedWriteHalf, self => self.inner.id);

    macro_rules! half {
        ($t:ty) => {
            impl $t {
                pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                    Ok(mc::net_addrs(self.inner.id).1)
                }
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    Ok(mc::net_addrs(self.inner.id).0)
                }
                pub async fn ready(&self, i: Interest) -> io::Result<Ready> {
                    self.inner.ready(i).await
                }
            }
            impl AsRef<TcpStream> for $t {
                fn as_ref(&self) -> &TcpStream {
                    &self.inner
                }
            }
        };
    }
    half!(OwnedReadHalf);
    half!(OwnedWriteHalf);
    impl OwnedReadHalf {
        pub async fn readable(&self) -> io::Result<()> {
            poll_fn(|cx| mc::net_poll_read_ready(self.inner.id, cx)).await
        }
        pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
            let wk = std::task::Waker::noop();
            match mc::net_poll_read(self.inner.id, &mut Context::from_waker(wk), buf, false) {
                Poll::Ready(r) => r,
                Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
            }
        }
        pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
            let mut tmp = vec![0u8; buf.chunk_mut().len()];
            let n = self.try_read(&mut tmp)?;
            buf.put_slice(&tmp[..n]);
            Ok(n)
        }
        pub async fn peek(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            poll_fn(|cx| mc::net_poll_read(self.inner.id, cx, buf, true)).await
        }
        pub fn reunite(self, other: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
            if Arc::ptr_eq(&self.inner, &other.inner) {
                let id = self.inner.id;
                let mut me = self;
                me.disarmed = true;
                other.forget();
                Ok(TcpStream::from_conn(id))
            } else {
                Err(ReuniteError(self, other))
            }
        }
    }
    impl OwnedWriteHalf {
        pub async fn writable(&self) -> io::Result<()> {
            poll_fn(|cx| mc::net_poll_write_ready(self.inner.id, cx)).await
        }
        pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
            match mc::net_poll_write(self.inner.id, None, buf) {
                Poll::Ready(r) => r,
                Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
            }
        }
        pub fn reunite(self, other: OwnedReadHalf) -> Result<TcpStream, ReuniteError> {
            other.reunite(self)
        }
        pub fn forget(mut self) {
            self.shutdown_on_drop = false;
        }
    }
    impl Drop for OwnedReadHalf {
        fn drop(&mut self) {
            if !self.disarmed {
                mc::net_drop_read(self.inner.id);
            }
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            if self.shutdown_on_drop {
                mc::net_shutdown_write(self.inner.id);
                mc::net_drop_write(self.inner.id);
            }
        }
    }
}
