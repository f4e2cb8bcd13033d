//! Sockets in memory. A socket has bytes that have arrived, room for bytes to send, and a state of
//! its peer; nothing happens by itself.
use crate::io::{AsyncRead, AsyncWrite, Interest, ReadBuf, Ready};
use bytes::BufMut;
use std::{
    collections::{HashMap, VecDeque},
    future::poll_fn,
    io,
    net::{Ipv4Addr, SocketAddr},
    pin::Pin,
    sync::{Arc, Mutex, MutexGuard},
    task::{Context, Poll, Waker},
};

/// How the peer has stopped.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stop {
    Open,
    /// End of file after what has arrived; writing still works.
    Half,
    /// End of file after what has arrived; writing fails.
    Gone,
    /// Reading fails after what has arrived; writing fails.
    Reset,
}

pub struct Pipe {
    /// Arrived and not yet read.
    pub input: VecDeque<u8>,
    /// Written by the code under test.
    pub output: Vec<u8>,
    /// How much more may be written.
    pub room: usize,
    pub stop: Stop,
    /// At most so much per read or write call (0: no limit).
    pub read_step: usize,
    pub write_step: usize,
    pub dropped: bool,
    pub write_shut: bool,
    pub reads: u64,
    pub writes: u64,
    rwaker: Vec<Waker>,
    wwaker: Vec<Waker>,
}

#[derive(Clone)]
pub struct Wire(Arc<Mutex<Pipe>>);

impl Wire {
    pub fn new() -> Self {
        Wire(Arc::new(Mutex::new(Pipe {
            input: VecDeque::new(),
            output: Vec::new(),
            room: 0,
            stop: Stop::Open,
            read_step: 0,
            write_step: 0,
            dropped: false,
            write_shut: false,
            reads: 0,
            writes: 0,
            rwaker: Vec::new(),
            wwaker: Vec::new(),
        })))
    }
    pub fn lock(&self) -> MutexGuard<'_, Pipe> {
        self.0.lock().unwrap()
    }
    /// Bytes arrive.
    pub fn arrive(&self, b: &[u8]) {
        let mut p = self.lock();
        p.input.extend(b);
        let w = std::mem::take(&mut p.rwaker);
        drop(p);
        w.into_iter().for_each(Waker::wake);
    }
    pub fn add_room(&self, n: usize) {
        let mut p = self.lock();
        p.room = p.room.saturating_add(n);
        let w = std::mem::take(&mut p.wwaker);
        drop(p);
        w.into_iter().for_each(Waker::wake);
    }
    pub fn stop(&self, s: Stop) {
        let mut p = self.lock();
        p.stop = s;
        let mut w = std::mem::take(&mut p.rwaker);
        if s != Stop::Half {
            w.append(&mut std::mem::take(&mut p.wwaker));
        }
        drop(p);
        w.into_iter().for_each(Waker::wake);
    }
    pub fn take_output(&self) -> Vec<u8> {
        std::mem::take(&mut self.lock().output)
    }
    pub fn stream(&self) -> TcpStream {
        TcpStream { wire: self.clone() }
    }
    fn poll_read(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut p = self.lock();
        p.reads += 1;
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if p.input.is_empty() {
            return match p.stop {
                Stop::Open => {
                    add(&mut p.rwaker, cx);
                    Poll::Pending
                }
                Stop::Half | Stop::Gone => Poll::Ready(Ok(())),
                Stop::Reset => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
            };
        }
        let mut n = p.input.len().min(buf.remaining());
        if p.read_step > 0 {
            n = n.min(p.read_step);
        }
        let b: Vec<u8> = p.input.drain(..n).collect();
        buf.put_slice(&b);
        Poll::Ready(Ok(()))
    }
    fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.lock();
        p.writes += 1;
        if p.write_shut || matches!(p.stop, Stop::Gone | Stop::Reset) {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if p.room == 0 {
            add(&mut p.wwaker, cx);
            return Poll::Pending;
        }
        let mut n = p.room.min(buf.len());
        if p.write_step > 0 {
            n = n.min(p.write_step);
        }
        p.output.extend_from_slice(&buf[..n]);
        p.room -= if p.room == usize::MAX { 0 } else { n };
        Poll::Ready(Ok(n))
    }
    fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.lock();
        if p.input.is_empty() && p.stop == Stop::Open {
            add(&mut p.rwaker, cx);
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn poll_writable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.lock();
        if p.room == 0 && !matches!(p.stop, Stop::Gone | Stop::Reset) {
            add(&mut p.wwaker, cx);
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }
    fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let mut cx = Context::from_waker(Waker::noop());
        let mut rb = ReadBuf::new(buf);
        match self.poll_read(&mut cx, &mut rb) {
            Poll::Ready(r) => r.map(|_| rb.filled().len()),
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    fn poll_ready(&self, i: Interest, cx: &mut Context<'_>) -> Poll<io::Result<Ready>> {
        let mut r = Ready::EMPTY;
        if i.is_readable() && self.poll_readable(cx).is_ready() {
            r |= Ready::READABLE;
        }
        if i.is_writable() && self.poll_writable(cx).is_ready() {
            r |= Ready::WRITABLE;
        }
        if r == Ready::EMPTY { Poll::Pending } else { Poll::Ready(Ok(r)) }
    }
    fn try_read_buf<B: BufMut>(&self, buf: &mut B) -> io::Result<usize> {
        let mut b = vec![0; buf.remaining_mut().min(4096)];
        let n = self.try_read(&mut b)?;
        buf.put_slice(&b[..n]);
        Ok(n)
    }
    async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        poll_fn(|cx| self.poll_readable(cx)).await?;
        let p = self.lock();
        if p.input.is_empty() && p.stop == Stop::Reset {
            return Err(io::ErrorKind::ConnectionReset.into());
        }
        let n = p.input.len().min(buf.len());
        buf.iter_mut().zip(p.input.iter()).for_each(|(b, x)| *b = *x);
        Ok(n)
    }
    fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        let mut cx = Context::from_waker(Waker::noop());
        match self.poll_write(&mut cx, buf) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
}
fn peer() -> SocketAddr {
    SocketAddr::from((Ipv4Addr::LOCALHOST, 9))
}
fn local() -> SocketAddr {
    SocketAddr::from((Ipv4Addr::LOCALHOST, 8))
}
fn add(l: &mut Vec<Waker>, cx: &mut Context<'_>) {
    if !l.iter().any(|w| w.will_wake(cx.waker())) {
        l.push(cx.waker().clone());
    }
}

pub struct TcpStream {
    wire: Wire,
}
macro_rules! shown {
    ($($t:ty),*) => {
        $(impl std::fmt::Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($t))
            }
        })*
    };
}
shown!(TcpStream, TcpListener, tcp::ReadHalf<'_>, tcp::WriteHalf<'_>, tcp::OwnedReadHalf, tcp::OwnedWriteHalf);
impl Drop for TcpStream {
    fn drop(&mut self) {
        self.wire.lock().dropped = true;
    }
}
macro_rules! reading {
    ($t:ty) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                self.wire.poll_read(cx, buf)
            }
        }
    };
}
macro_rules! writing {
    ($t:ty) => {
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                self.wire.poll_write(cx, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.wire.lock().write_shut = true;
                Poll::Ready(Ok(()))
            }
        }
    };
}
reading!(TcpStream);
writing!(TcpStream);

pub mod tcp {
    use super::*;
    pub struct ReadHalf<'a> {
        pub(super) wire: &'a Wire,
    }
    pub struct WriteHalf<'a> {
        pub(super) wire: &'a Wire,
    }
    reading!(ReadHalf<'_>);
    writing!(WriteHalf<'_>);
    pub struct OwnedReadHalf {
        pub(super) wire: Wire,
        pub(super) _s: Arc<TcpStream>,
    }
    pub struct OwnedWriteHalf {
        pub(super) wire: Wire,
        pub(super) _s: Arc<TcpStream>,
    }
    reading!(OwnedReadHalf);
    writing!(OwnedWriteHalf);
    macro_rules! more {
        ($t:ty, r) => {
            impl $t {
                pub async fn ready(&self, i: Interest) -> io::Result<Ready> {
                    poll_fn(|cx| self.wire.poll_ready(i, cx)).await
                }
                pub fn try_read_buf<B: BufMut>(&self, buf: &mut B) -> io::Result<usize> {
                    self.wire.try_read_buf(buf)
                }
                pub async fn peek(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                    self.wire.peek(buf).await
                }
                pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                    Ok(peer())
                }
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    Ok(local())
                }
                pub async fn readable(&self) -> io::Result<()> {
                    poll_fn(|cx| self.wire.poll_readable(cx)).await
                }
                pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
                    self.wire.try_read(buf)
                }
            }
        };
        ($t:ty, w) => {
            impl $t {
                pub async fn ready(&self, i: Interest) -> io::Result<Ready> {
                    poll_fn(|cx| self.wire.poll_ready(i, cx)).await
                }
                pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                    Ok(peer())
                }
                pub fn local_addr(&self) -> io::Result<SocketAddr> {
                    Ok(local())
                }
                pub async fn writable(&self) -> io::Result<()> {
                    poll_fn(|cx| self.wire.poll_writable(cx)).await
                }
                pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
                    self.wire.try_write(buf)
                }
            }
        };
    }
    more!(ReadHalf<'_>, r);
    more!(OwnedReadHalf, r);
    more!(WriteHalf<'_>, w);
    more!(OwnedWriteHalf, w);
}

impl TcpStream {
    /// Waits until the harness answers.
    pub async fn connect<A: Target>(addr: A) -> io::Result<TcpStream> {
        let a = addr.name();
        let id = NET.with(|n| {
            let mut n = n.borrow_mut();
            n.connects.push(Connect { addr: a, answer: None, wakers: vec![] });
            n.connects.len() - 1
        });
        let w = poll_fn(|cx| {
            NET.with(|n| {
                let c = &mut n.borrow_mut().connects[id];
                match c.answer.take() {
                    Some(r) => Poll::Ready(r),
                    None => {
                        add(&mut c.wakers, cx);
                        Poll::Pending
                    }
                }
            })
        })
        .await?;
        Ok(w.stream())
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (tcp::ReadHalf { wire: &self.wire }, tcp::WriteHalf { wire: &self.wire })
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        let wire = self.wire.clone();
        let s = Arc::new(self);
        (tcp::OwnedReadHalf { wire: wire.clone(), _s: s.clone() }, tcp::OwnedWriteHalf { wire, _s: s })
    }
    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| self.wire.poll_readable(cx)).await
    }
    pub async fn writable(&self) -> io::Result<()> {
        poll_fn(|cx| self.wire.poll_writable(cx)).await
    }
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.wire.try_read(buf)
    }
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        self.wire.try_write(buf)
    }
    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.wire.peek(buf).await
    }
    pub async fn ready(&self, i: Interest) -> io::Result<Ready> {
        poll_fn(|cx| self.wire.poll_ready(i, cx)).await
    }
    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.wire.poll_readable(cx)
    }
    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.wire.poll_writable(cx)
    }
    pub fn try_read_buf<B: BufMut>(&self, buf: &mut B) -> io::Result<usize> {
        self.wire.try_read_buf(buf)
    }
    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> {
        Ok(None)
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(false)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(peer())
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(local())
    }
}

pub use Target as ToSocketAddrs;
/// What can be connected or bound to.
pub trait Target {
    fn name(&self) -> String;
}
impl Target for str {
    fn name(&self) -> String {
        self.to_string()
    }
}
impl Target for String {
    fn name(&self) -> String {
        self.clone()
    }
}
impl Target for SocketAddr {
    fn name(&self) -> String {
        self.to_string()
    }
}
impl<H: std::fmt::Display> Target for (H, u16) {
    fn name(&self) -> String {
        let h = self.0.to_string();
        if h.contains(':') && !h.starts_with('[') {
            format!("[{h}]:{}", self.1)
        } else {
            format!("{h}:{}", self.1)
        }
    }
}
impl Target for [SocketAddr] {
    fn name(&self) -> String {
        self.first().map_or(String::new(), |a| a.to_string())
    }
}
impl<T: Target + ?Sized> Target for &T {
    fn name(&self) -> String {
        (**self).name()
    }
}

#[derive(Default)]
struct Dial {
    ready: VecDeque<io::Result<Wire>>,
    wakers: Vec<Waker>,
}
struct Connect {
    addr: String,
    answer: Option<io::Result<Wire>>,
    wakers: Vec<Waker>,
}
#[derive(Default)]
struct Net {
    connects: Vec<Connect>,
    incoming: HashMap<String, Dial>,
    bound: std::collections::BTreeSet<String>,
    busy: std::collections::BTreeSet<String>,
}
thread_local! {
    static NET: std::cell::RefCell<Net> = Default::default();
}
/// How many connections have been asked for so far, and where to from the given number on.
pub fn connects(from: usize) -> Vec<String> {
    NET.with(|n| n.borrow().connects.iter().skip(from).map(|c| c.addr.clone()).collect())
}
pub fn answer(id: usize, r: io::Result<Wire>) {
    let w = NET.with(|n| {
        let mut n = n.borrow_mut();
        let c = &mut n.connects[id];
        c.answer = Some(r);
        std::mem::take(&mut c.wakers)
    });
    w.into_iter().for_each(Waker::wake);
}
/// A client connects to the listener.
pub fn dial_in(addr: &str, r: io::Result<Wire>) {
    let w = NET.with(|n| {
        let mut n = n.borrow_mut();
        let d = n.incoming.entry(plain(addr)).or_default();
        d.ready.push_back(r);
        std::mem::take(&mut d.wakers)
    });
    w.into_iter().for_each(Waker::wake);
}

/// However the host is written.
fn plain(addr: &str) -> String {
    addr.replace(['[', ']'], "")
}
/// The addresses listened at.
pub fn bound() -> Vec<String> {
    NET.with(|n| n.borrow().bound.iter().cloned().collect())
}
/// Somebody else listens there.
pub fn occupy(addr: &str) {
    NET.with(|n| n.borrow_mut().busy.insert(plain(addr)));
}

pub struct TcpListener {
    addr: String,
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        let _ = NET.try_with(|n| n.borrow_mut().bound.remove(&plain(&self.addr)));
    }
}
impl TcpListener {
    pub async fn bind<A: Target>(addr: A) -> io::Result<TcpListener> {
        let addr = addr.name();
        NET.with(|n| {
            let mut n = n.borrow_mut();
            if n.busy.contains(&plain(&addr)) || !n.bound.insert(plain(&addr)) {
                return Err(io::Error::from(io::ErrorKind::AddrInUse));
            }
            n.incoming.entry(plain(&addr)).or_default().wakers.clear();
            Ok(())
        })?;
        Ok(TcpListener { addr })
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        let w = poll_fn(|cx| {
            NET.with(|n| {
                let mut n = n.borrow_mut();
                let d = n.incoming.entry(plain(&self.addr)).or_default();
                match d.ready.pop_front() {
                    Some(r) => Poll::Ready(r),
                    None => {
                        add(&mut d.wakers, cx);
                        Poll::Pending
                    }
                }
            })
        })
        .await?;
        Ok((w.stream(), SocketAddr::from((Ipv4Addr::LOCALHOST, 7))))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(SocketAddr::from((Ipv4Addr::LOCALHOST, 8)))
    }
}
