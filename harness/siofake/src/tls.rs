//! The far end of the connection: plain, or TLS over `rustls`.
use faketokio::net::Wire;
use std::{
    future::Future,
    io::{Read, Write},
    pin::Pin,
    sync::{Arc, OnceLock},
    task::{Context, Poll, Waker},
};
use tokio_rustls::{
    rustls::{
        pki_types::{pem::PemObject, CertificateDer, PrivateKeyDer, ServerName},
        version::{TLS12, TLS13},
        ClientConfig, ClientConnection, Connection, RootCertStore, ServerConfig, ServerConnection,
    },
    TlsAcceptor, TlsConnector, TlsStream,
};

fn server_config(v12: bool) -> Arc<ServerConfig> {
    static C: [OnceLock<Arc<ServerConfig>>; 2] = [OnceLock::new(), OnceLock::new()];
    C[v12 as usize]
        .get_or_init(|| {
            let chain = vec![CertificateDer::from_pem_slice(include_bytes!("../../certs/leaf.pem")).unwrap()];
            let key = PrivateKeyDer::from_pem_slice(include_bytes!("../../certs/leaf.key")).unwrap();
            let mut c = ServerConfig::builder_with_protocol_versions(if v12 { &V12 } else { &V13 })
                .with_no_client_auth()
                .with_single_cert(chain, key)
                .unwrap();
            c.send_half_rtt_data = true;
            Arc::new(c)
        })
        .clone()
}
fn client_config(v12: bool) -> Arc<ClientConfig> {
    static C: [OnceLock<Arc<ClientConfig>>; 2] = [OnceLock::new(), OnceLock::new()];
    C[v12 as usize]
        .get_or_init(|| {
            let mut roots = RootCertStore::empty();
            roots.add(CertificateDer::from_pem_slice(include_bytes!("../../certs/ca.pem")).unwrap()).unwrap();
            let mut c = ClientConfig::builder_with_protocol_versions(if v12 { &V12 } else { &V13 })
                .with_root_certificates(roots)
                .with_no_client_auth();
            c.resumption = tokio_rustls::rustls::client::Resumption::disabled();
            Arc::new(c)
        })
        .clone()
}
static V12: [&tokio_rustls::rustls::SupportedProtocolVersion; 1] = [&TLS12];
static V13: [&tokio_rustls::rustls::SupportedProtocolVersion; 1] = [&TLS13];
fn name() -> ServerName<'static> {
    ServerName::try_from("localhost").unwrap()
}

pub enum Peer {
    Plain,
    Tls(Connection),
}
impl Peer {
    /// The bytes that carry `data`.
    pub fn wrap(&mut self, data: &[u8]) -> Vec<u8> {
        match self {
            Peer::Plain => data.to_vec(),
            Peer::Tls(c) => {
                let mut raw = Vec::new();
                for d in data.chunks(30_000) {
                    c.writer().write_all(d).unwrap();
                    drain(c, &mut raw);
                }
                raw
            }
        }
    }
    pub fn close_notify(&mut self) -> Vec<u8> {
        let mut raw = Vec::new();
        if let Peer::Tls(c) = self {
            c.send_close_notify();
            drain(c, &mut raw);
        }
        raw
    }
    /// What `raw` carries, and what TLS answers to it by itself.
    pub fn unwrap(&mut self, raw: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
        match self {
            Peer::Plain => Ok((raw.to_vec(), vec![])),
            Peer::Tls(c) => {
                let (mut data, mut back) = (Vec::new(), Vec::new());
                let mut rd = raw;
                while !rd.is_empty() {
                    c.read_tls(&mut rd).map_err(|e| e.to_string())?;
                    c.process_new_packets().map_err(|e| e.to_string())?;
                    let mut buf = [0; 16384];
                    loop {
                        match c.reader().read(&mut buf) {
                            Ok(0) | Err(_) => break,
                            Ok(n) => data.extend_from_slice(&buf[..n]),
                        }
                    }
                }
                drain(c, &mut back);
                Ok((data, back))
            }
        }
    }
}
fn drain(c: &mut Connection, raw: &mut Vec<u8>) {
    while c.wants_write() {
        c.write_tls(raw).unwrap();
    }
}

type Handshake<T> = Pin<Box<dyn Future<Output = std::io::Result<T>>>>;
fn poll<T>(f: &mut Handshake<T>) -> Option<T> {
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(r) => Some(r.expect("handshake")),
        Poll::Pending => None,
    }
}
/// Establishes TLS in the way the proxy does, the peer's last flight being followed by `hand` in
/// the same burst; `placed` is what the application writes before it gives the connection away.
/// `side`: the code under test is "c"lient or "s"erver.
pub fn establish(side: &str, v12: bool, wire: &Wire, hand: &[u8], placed: &[u8]) -> (TlsStream<faketokio::net::TcpStream>, Peer) {
    wire.add_room(usize::MAX);
    let tcp = wire.stream();
    let mut sent = hand.is_empty();
    let (mut peer, stream): (Connection, TlsStream<_>) = if side == "s" {
        let acceptor = TlsAcceptor::from(server_config(v12));
        let mut f: Handshake<_> = Box::pin(async move { acceptor.accept(tcp).await });
        let mut peer = Connection::Client(ClientConnection::new(client_config(v12), name()).unwrap());
        let s = pump(&mut f, &mut peer, wire, hand, &mut sent, false);
        (peer, s.into())
    } else {
        let connector = TlsConnector::from(client_config(v12));
        let mut f: Handshake<_> = Box::pin(async move { connector.connect(name(), tcp).await });
        let mut peer = Connection::Server(ServerConnection::new(server_config(v12)).unwrap());
        let s = pump(&mut f, &mut peer, wire, hand, &mut sent, !v12);
        (peer, s.into())
    };
    let mut stream = stream;
    // What the handshake's end still has to say.
    let out = wire.take_output();
    let mut rd = &out[..];
    while !rd.is_empty() {
        peer.read_tls(&mut rd).unwrap();
        peer.process_new_packets().unwrap();
    }
    let mut raw = Vec::new();
    if !sent {
        peer.writer().write_all(hand).unwrap();
    }
    drain(&mut peer, &mut raw);
    wire.arrive(&raw);
    if !placed.is_empty() {
        match &mut stream {
            TlsStream::Client(s) => s.get_mut().1.writer().write_all(placed).unwrap(),
            TlsStream::Server(s) => s.get_mut().1.writer().write_all(placed).unwrap(),
        }
    }
    (stream, Peer::Tls(peer))
}
fn pump<T>(f: &mut Handshake<T>, peer: &mut Connection, wire: &Wire, hand: &[u8], sent: &mut bool, early: bool) -> T {
    for _ in 0..20 {
        let mut raw = Vec::new();
        drain(peer, &mut raw);
        if !*sent && (!peer.is_handshaking() || (early && !raw.is_empty())) {
            // Goes out together with the last flight.
            peer.writer().write_all(hand).unwrap();
            drain(peer, &mut raw);
            *sent = true;
        }
        wire.arrive(&raw);
        if let Some(s) = poll(f) {
            return s;
        }
        let out = wire.take_output();
        let mut rd = &out[..];
        while !rd.is_empty() {
            peer.read_tls(&mut rd).unwrap();
            peer.process_new_packets().unwrap();
        }
    }
    panic!("no end of the handshake")
}
