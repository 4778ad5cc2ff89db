use simrt::net::{self, Addr, Waiter, EAGAIN};
use std::{
    fmt, io,
    net::{IpAddr, Ipv4Addr, SocketAddr, SocketAddrV4},
    os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, IntoRawFd, RawFd},
    pin::Pin,
    sync::Arc,
    task::{Context, Poll},
    time::Duration,
};
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

fn err(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}
fn to_std(a: Addr) -> SocketAddr {
    SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::from(a.0), a.1))
}
fn from_std(a: SocketAddr) -> io::Result<Addr> {
    match a.ip() {
        IpAddr::V4(v) => Ok((u32::from(v), a.port())),
        IpAddr::V6(_) => Err(err(net::EAFNOSUPPORT)),
    }
}

pub trait ToSocketAddrs {
    fn addrs(&self) -> io::Result<Vec<SocketAddr>>;
}
impl<T: std::net::ToSocketAddrs + ?Sized> ToSocketAddrs for T {
    fn addrs(&self) -> io::Result<Vec<SocketAddr>> {
        Ok(std::net::ToSocketAddrs::to_socket_addrs(self)?.collect())
    }
}
pub async fn lookup_host<A: ToSocketAddrs>(a: A) -> io::Result<impl Iterator<Item = SocketAddr>> {
    Ok(a.addrs()?.into_iter())
}

pub struct TcpListener {
    fd: RawFd,
}
impl fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TcpListener({})", self.fd)
    }
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(a: A) -> io::Result<Self> {
        let mut last = io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address");
        for a in a.addrs()? {
            match Self::bind_one(a) {
                Ok(l) => return Ok(l),
                Err(e) => last = e,
            }
        }
        Err(last)
    }
    fn bind_one(a: SocketAddr) -> io::Result<Self> {
        let a = from_std(a)?;
        let fd = net::new_sock(net::cur_node());
        net::sock(fd).nonblock = true;
        match net::bind_listen(fd, a) {
            Ok(_) => Ok(TcpListener { fd }),
            Err(e) => {
                net::close(fd);
                Err(err(e))
            }
        }
    }
    pub fn from_std(l: std::net::TcpListener) -> io::Result<Self> {
        Ok(TcpListener { fd: l.into_raw_fd() })
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        simrt::yield_point(50);
        match net::try_accept(self.fd, Some(Waiter::Waker(cx.waker().clone()))) {
            Ok((fd, a)) => {
                net::sock(fd).nonblock = true;
                net::sock(fd).registered = true;
                Poll::Ready(Ok((TcpStream::of(fd), to_std(a))))
            }
            Err(EAGAIN) => Poll::Pending,
            Err(e) => Poll::Ready(Err(err(e))),
        }
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        net::local_addr(self.fd).map(to_std).ok_or_else(|| err(net::EINVAL))
    }
    pub fn into_std(self) -> io::Result<std::net::TcpListener> {
        let fd = self.fd;
        std::mem::forget(self);
        Ok(unsafe { std::net::TcpListener::from_raw_fd(fd) })
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_ttl(&self, _t: u32) -> io::Result<()> {
        Ok(())
    }
}
impl AsFd for TcpListener {
    fn as_fd(&self) -> BorrowedFd<'_> {
        unsafe { BorrowedFd::borrow_raw(self.fd) }
    }
}
impl TryFrom<std::net::TcpListener> for TcpListener {
    type Error = io::Error;
    fn try_from(l: std::net::TcpListener) -> io::Result<Self> {
        Self::from_std(l)
    }
}

/// A socket that is configured before it listens or connects.
#[derive(Debug)]
pub struct TcpSocket {
    at: std::sync::Mutex<Option<SocketAddr>>,
}
impl TcpSocket {
    pub fn new_v4() -> io::Result<Self> {
        Ok(TcpSocket { at: Default::default() })
    }
    pub fn new_v6() -> io::Result<Self> {
        Err(err(net::EAFNOSUPPORT))
    }
    pub fn set_reuseaddr(&self, _b: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn reuseaddr(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_reuseport(&self, _b: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn set_send_buffer_size(&self, _n: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_recv_buffer_size(&self, _n: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_linger(&self, _d: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn bind(&self, a: SocketAddr) -> io::Result<()> {
        from_std(a)?;
        *self.at.lock().unwrap() = Some(a);
        Ok(())
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.at.lock().unwrap().ok_or_else(|| err(net::EINVAL))
    }
    pub fn listen(self, _backlog: u32) -> io::Result<TcpListener> {
        TcpListener::bind_one(self.local_addr()?)
    }
    pub async fn connect(self, a: SocketAddr) -> io::Result<TcpStream> {
        TcpStream::connect(a).await
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        if simrt::active() && !simrt::coro_in_child() {
            net::close(self.fd);
        }
    }
}
impl AsRawFd for TcpListener {
    fn as_raw_fd(&self) -> RawFd {
        self.fd
    }
}

pub struct TcpStream {
    fd: RawFd,
    keep: std::sync::atomic::AtomicBool,
}
impl fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "TcpStream({})", self.fd)
    }
}
impl TcpStream {
    fn of(fd: RawFd) -> Self {
        TcpStream { fd, keep: Default::default() }
    }
    pub async fn connect<A: ToSocketAddrs>(a: A) -> io::Result<Self> {
        let mut last = io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address");
        for a in a.addrs()? {
            let fd = net::new_sock(net::cur_node());
            let s = TcpStream::of(fd);
            net::sock(fd).nonblock = true;
            net::sock(fd).registered = true;
            let a = from_std(a)?;
            if let Err(e) = net::begin_connect(fd, a) {
                last = err(e);
                continue;
            }
            let r = std::future::poll_fn(|cx| match net::poll_connect(fd, Some(Waiter::Waker(cx.waker().clone()))) {
                Err(EAGAIN) => Poll::Pending,
                r => Poll::Ready(r),
            })
            .await;
            match r {
                Ok(()) => return Ok(s),
                Err(e) => last = err(e),
            }
        }
        Err(last)
    }
    pub fn from_std(s: std::net::TcpStream) -> io::Result<Self> {
        let fd = s.into_raw_fd();
        net::sock(fd).registered = true;
        Ok(TcpStream::of(fd))
    }
    /// As in tokio, the socket stays in non-blocking mode.
    pub fn into_std(self) -> io::Result<std::net::TcpStream> {
        let fd = self.fd;
        if simrt::coro_in_child() {
            simrt::child::child_deregister(fd).map_err(err)?;
        } else if !std::mem::replace(&mut net::sock(fd).registered, false) {
            return Err(err(2));
        }
        std::mem::forget(self);
        Ok(unsafe { std::net::TcpStream::from_raw_fd(fd) })
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        net::local_addr(self.fd).map(to_std).ok_or_else(|| err(net::ENOTCONN))
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        net::peer_addr(self.fd).map(to_std).ok_or_else(|| err(net::ENOTCONN))
    }
    pub fn set_nodelay(&self, _b: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_ttl(&self, _t: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_linger(&self, _d: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn linger(&self) -> io::Result<Option<Duration>> {
        Ok(None)
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    /// Readiness in both directions, as far as it is asked for.
    pub async fn ready(&self, interest: crate::io::Interest) -> io::Result<crate::io::Ready> {
        std::future::poll_fn(|cx| {
            let r = interest.is_readable() && net::readable(self.fd, Some(Waiter::Waker(cx.waker().clone())));
            let w = interest.is_writable() && net::writable(self.fd, Some(Waiter::Waker(cx.waker().clone())));
            if r || w {
                Poll::Ready(Ok(crate::io::Ready { r, w }))
            } else {
                Poll::Pending
            }
        })
        .await
    }
    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if net::readable(self.fd, Some(Waiter::Waker(cx.waker().clone()))) {
            Poll::Ready(Ok(()))
        } else {
            Poll::Pending
        }
    }
    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if net::writable(self.fd, Some(Waiter::Waker(cx.waker().clone()))) {
            Poll::Ready(Ok(()))
        } else {
            Poll::Pending
        }
    }
    pub fn poll_peek(&self, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
        let had = b.filled().len();
        self.p_read(cx, b, true).map_ok(|()| b.filled().len() - had)
    }
    pub fn try_io<R>(&self, _i: crate::io::Interest, f: impl FnOnce() -> io::Result<R>) -> io::Result<R> {
        f()
    }
    pub fn try_write_vectored(&self, v: &[io::IoSlice<'_>]) -> io::Result<usize> {
        match v.iter().find(|b| !b.is_empty()) {
            Some(b) => self.try_write(b),
            None => Ok(0),
        }
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    fn p_read(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>, peek: bool) -> Poll<io::Result<()>> {
        simrt::yield_point(51);
        let b = buf.initialize_unfilled();
        match net::try_read(self.fd, b, peek, Some(Waiter::Waker(cx.waker().clone()))) {
            Ok(n) => {
                buf.advance(n);
                Poll::Ready(Ok(()))
            }
            Err(EAGAIN) => Poll::Pending,
            Err(e) => Poll::Ready(Err(err(e))),
        }
    }
    fn p_write(&self, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        simrt::yield_point(52);
        match net::try_write(self.fd, b, Some(Waiter::Waker(cx.waker().clone()))) {
            Ok(n) => Poll::Ready(Ok(n)),
            Err(EAGAIN) => Poll::Pending,
            Err(e) => Poll::Ready(Err(err(e))),
        }
    }
    pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
        simrt::yield_point(51);
        net::try_read(self.fd, b, false, None).map_err(err)
    }
    pub fn try_write(&self, b: &[u8]) -> io::Result<usize> {
        simrt::yield_point(52);
        net::try_write(self.fd, b, None).map_err(err)
    }
    pub fn try_read_buf<B: AsMutVec>(&self, b: &mut B) -> io::Result<usize> {
        let mut t = [0u8; 8192];
        let n = self.try_read(&mut t)?;
        b.put(&t[..n]);
        Ok(n)
    }
    pub async fn peek(&self, b: &mut [u8]) -> io::Result<usize> {
        let mut rb = ReadBuf::new(b);
        std::future::poll_fn(|cx| self.p_read(cx, &mut rb, true)).await?;
        Ok(rb.filled().len())
    }
    pub async fn readable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| {
            if net::readable(self.fd, Some(Waiter::Waker(cx.waker().clone()))) {
                Poll::Ready(Ok(()))
            } else {
                Poll::Pending
            }
        })
        .await
    }
    pub async fn writable(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| {
            if net::writable(self.fd, Some(Waiter::Waker(cx.waker().clone()))) {
                Poll::Ready(Ok(()))
            } else {
                Poll::Pending
            }
        })
        .await
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (tcp::ReadHalf(self), tcp::WriteHalf(self))
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        let a = Arc::new(self);
        (tcp::OwnedReadHalf(a.clone()), tcp::OwnedWriteHalf(a))
    }
}
pub trait AsMutVec {
    fn put(&mut self, b: &[u8]);
}
impl<B: bytes::BufMut> AsMutVec for B {
    fn put(&mut self, b: &[u8]) {
        self.put_slice(b);
    }
}
impl TryFrom<std::net::TcpStream> for TcpStream {
    type Error = io::Error;
    fn try_from(s: std::net::TcpStream) -> io::Result<Self> {
        Self::from_std(s)
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        if simrt::active() && !simrt::coro_in_child() {
            net::sock(self.fd).registered = false;
            net::close(self.fd);
        }
    }
}
impl AsRawFd for TcpStream {
    fn as_raw_fd(&self) -> RawFd {
        self.fd
    }
}
impl AsFd for TcpStream {
    fn as_fd(&self) -> BorrowedFd<'_> {
        unsafe { BorrowedFd::borrow_raw(self.fd) }
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.p_read(cx, buf, false)
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.p_write(cx, b)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(net::shutdown(self.fd, 1).map_err(err))
    }
}

pub mod tcp {
    use super::*;
    #[derive(Debug)]
    pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)]
    pub struct WriteHalf<'a>(pub(super) &'a TcpStream);
    #[derive(Debug)]
    pub struct OwnedReadHalf(pub(super) Arc<TcpStream>);
    #[derive(Debug)]
    pub struct OwnedWriteHalf(pub(super) Arc<TcpStream>);
    macro_rules! common {
        ($($t:tt)*) => {
            impl $($t)* {
                pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                    self.0.peer_addr()
                }
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    self.0.local_addr()
                }
                pub async fn ready(&self, i: crate::io::Interest) -> io::Result<crate::io::Ready> {
                    self.0.ready(i).await
                }
            }
            impl AsRef<TcpStream> for $($t)* {
                fn as_ref(&self) -> &TcpStream {
                    &self.0
                }
            }
        };
    }
    macro_rules! reads {
        ($($t:tt)*) => {
            impl $($t)* {
                pub async fn peek(&mut self, b: &mut [u8]) -> io::Result<usize> {
                    self.0.peek(b).await
                }
                pub async fn readable(&self) -> io::Result<()> {
                    self.0.readable().await
                }
                pub fn try_read(&self, b: &mut [u8]) -> io::Result<usize> {
                    self.0.try_read(b)
                }
                pub fn try_read_buf<B: AsMutVec>(&self, b: &mut B) -> io::Result<usize> {
                    self.0.try_read_buf(b)
                }
            }
        };
    }
    macro_rules! writes {
        ($($t:tt)*) => {
            impl $($t)* {
                pub async fn writable(&self) -> io::Result<()> {
                    self.0.writable().await
                }
                pub fn try_write(&self, b: &[u8]) -> io::Result<usize> {
                    self.0.try_write(b)
                }
                pub fn try_write_vectored(&self, v: &[io::IoSlice<'_>]) -> io::Result<usize> {
                    self.0.try_write_vectored(v)
                }
            }
        };
    }
    common!(ReadHalf<'_>);
    common!(WriteHalf<'_>);
    common!(OwnedReadHalf);
    common!(OwnedWriteHalf);
    reads!(ReadHalf<'_>);
    reads!(OwnedReadHalf);
    writes!(WriteHalf<'_>);
    writes!(OwnedWriteHalf);
    #[derive(Debug)]
    pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);
    impl fmt::Display for ReuniteError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("tried to reunite halves that are not from the same socket")
        }
    }
    impl std::error::Error for ReuniteError {}
    impl OwnedWriteHalf {
        /// Dropped without shutting the write direction down.
        pub fn forget(self) {
            let s = self.0.clone();
            self.0.keep.store(true, std::sync::atomic::Ordering::SeqCst);
            drop(self);
            s.keep.store(false, std::sync::atomic::Ordering::SeqCst);
        }
        pub fn reunite(self, r: OwnedReadHalf) -> Result<TcpStream, ReuniteError> {
            r.reunite(self)
        }
    }
    impl OwnedReadHalf {
        pub fn reunite(self, w: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
            if !Arc::ptr_eq(&self.0, &w.0) {
                return Err(ReuniteError(self, w));
            }
            w.forget();
            Ok(Arc::try_unwrap(self.0).expect("two halves"))
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            if simrt::active() && Arc::strong_count(&self.0) > 1 && !self.0.keep.load(std::sync::atomic::Ordering::SeqCst) {
                let _ = net::shutdown(self.0.fd, 1);
            }
        }
    }
    macro_rules! rd {
        ($($t:tt)*) => {
            impl AsyncRead for $($t)* {
                fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                    self.0.p_read(cx, b, false)
                }
            }
        };
    }
    macro_rules! wr {
        ($($t:tt)*) => {
            impl AsyncWrite for $($t)* {
                fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
                    self.0.p_write(cx, b)
                }
                fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                    Poll::Ready(Ok(()))
                }
                fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                    Poll::Ready(net::shutdown(self.0.fd, 1).map_err(err))
                }
            }
        };
    }
    rd!(ReadHalf<'_>);
    rd!(OwnedReadHalf);
    wr!(WriteHalf<'_>);
    wr!(OwnedWriteHalf);
}
