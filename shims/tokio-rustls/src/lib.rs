//! Offline stand-in for `tokio-rustls`: the handshake futures and the stream types this project
//! takes apart with `into_inner`. Built on the real `rustls`.
pub use rustls;

use rustls::{pki_types::ServerName, ClientConfig, ClientConnection, ServerConfig, ServerConnection};
use std::{
    future::poll_fn,
    io::{self, Read, Write},
    pin::Pin,
    sync::Arc,
    task::{Context, Poll},
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub mod client {
    pub struct TlsStream<IO> {
        pub(crate) io: IO,
        pub(crate) session: rustls::ClientConnection,
    }
    impl<IO> TlsStream<IO> {
        pub fn get_ref(&self) -> (&IO, &rustls::ClientConnection) {
            (&self.io, &self.session)
        }
        pub fn get_mut(&mut self) -> (&mut IO, &mut rustls::ClientConnection) {
            (&mut self.io, &mut self.session)
        }
        pub fn into_inner(self) -> (IO, rustls::ClientConnection) {
            (self.io, self.session)
        }
    }
}
pub mod server {
    pub struct TlsStream<IO> {
        pub(crate) io: IO,
        pub(crate) session: rustls::ServerConnection,
    }
    impl<IO> TlsStream<IO> {
        pub fn get_ref(&self) -> (&IO, &rustls::ServerConnection) {
            (&self.io, &self.session)
        }
        pub fn get_mut(&mut self) -> (&mut IO, &mut rustls::ServerConnection) {
            (&mut self.io, &mut self.session)
        }
        pub fn into_inner(self) -> (IO, rustls::ServerConnection) {
            (self.io, self.session)
        }
    }
}

pub enum TlsStream<T> {
    Client(client::TlsStream<T>),
    Server(server::TlsStream<T>),
}
impl<T> From<client::TlsStream<T>> for TlsStream<T> {
    fn from(s: client::TlsStream<T>) -> Self {
        Self::Client(s)
    }
}
impl<T> From<server::TlsStream<T>> for TlsStream<T> {
    fn from(s: server::TlsStream<T>) -> Self {
        Self::Server(s)
    }
}

#[derive(Clone)]
pub struct TlsConnector(Arc<ClientConfig>);
impl From<Arc<ClientConfig>> for TlsConnector {
    fn from(c: Arc<ClientConfig>) -> Self {
        Self(c)
    }
}
impl TlsConnector {
    pub async fn connect<IO>(&self, domain: ServerName<'static>, mut io: IO) -> io::Result<client::TlsStream<IO>>
    where
        IO: AsyncRead + AsyncWrite + Unpin,
    {
        let mut session = ClientConnection::new(self.0.clone(), domain).map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
        handshake(&mut io, &mut session).await?;
        Ok(client::TlsStream { io, session })
    }
}

#[derive(Clone)]
pub struct TlsAcceptor(Arc<ServerConfig>);
impl From<Arc<ServerConfig>> for TlsAcceptor {
    fn from(c: Arc<ServerConfig>) -> Self {
        Self(c)
    }
}
impl TlsAcceptor {
    pub async fn accept<IO>(&self, mut io: IO) -> io::Result<server::TlsStream<IO>>
    where
        IO: AsyncRead + AsyncWrite + Unpin,
    {
        let mut session = ServerConnection::new(self.0.clone()).map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
        handshake(&mut io, &mut session).await?;
        Ok(server::TlsStream { io, session })
    }
}

struct SyncIo<'a, 'b, IO> {
    io: &'a mut IO,
    cx: &'a mut Context<'b>,
}
impl<IO: AsyncRead + Unpin> Read for SyncIo<'_, '_, IO> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut rb = ReadBuf::new(buf);
        match Pin::new(&mut *self.io).poll_read(self.cx, &mut rb) {
            Poll::Ready(Ok(())) => Ok(rb.filled().len()),
            Poll::Ready(Err(e)) => Err(e),
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
}
impl<IO: AsyncWrite + Unpin> Write for SyncIo<'_, '_, IO> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match Pin::new(&mut *self.io).poll_write(self.cx, buf) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match Pin::new(&mut *self.io).poll_flush(self.cx) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }
}

/// Same structure as `tokio_rustls::common::Stream::handshake` followed by the flush of
/// `MidHandshake`: one `read_tls` per readiness, stop as soon as the handshake is over.
async fn handshake<IO, C, D>(io: &mut IO, session: &mut C) -> io::Result<()>
where
    IO: AsyncRead + AsyncWrite + Unpin,
    C: std::ops::DerefMut<Target = rustls::ConnectionCommon<D>>,
{
    poll_fn(|cx| -> Poll<io::Result<()>> {
        loop {
            let mut blocked = false;
            while session.wants_write() {
                match session.write_tls(&mut SyncIo { io, cx }) {
                    Ok(0) => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())),
                    Ok(_) => {}
                    Err(e) if e.kind() == io::ErrorKind::WouldBlock => {
                        blocked = true;
                        break;
                    }
                    Err(e) => return Poll::Ready(Err(e)),
                }
            }
            if !session.is_handshaking() {
                return if blocked { Poll::Pending } else { Poll::Ready(Ok(())) };
            }
            if session.wants_read() {
                match session.read_tls(&mut SyncIo { io, cx }) {
                    Ok(0) => return Poll::Ready(Err(io::Error::new(io::ErrorKind::UnexpectedEof, "tls handshake eof"))),
                    Ok(_) => {
                        if let Err(e) = session.process_new_packets() {
                            let _ = session.write_tls(&mut SyncIo { io, cx });
                            return Poll::Ready(Err(io::Error::new(io::ErrorKind::InvalidData, e)));
                        }
                        continue;
                    }
                    Err(e) if e.kind() == io::ErrorKind::WouldBlock => return Poll::Pending,
                    Err(e) => return Poll::Ready(Err(e)),
                }
            }
            if blocked {
                return Poll::Pending;
            }
        }
    })
    .await
}
