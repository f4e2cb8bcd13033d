//! Runs the program under test through a list of jobs: clients and upstream servers that connect,
//! send, stop reading and go away, one step after the other; after each step everything that can
//! happen happens, and what has been written is recorded.
//!
//! DRIVE_JOBS: a file with one job per line, `[step, ...]`; DRIVE_OUT: one line per job.
use crate::net::{self, Stop, Wire};
use serde_json::{json, Map, Value};
use std::{
    future::Future,
    io::{BufRead, BufReader, BufWriter, Read, Write},
    pin::pin,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex, OnceLock,
    },
    time::Duration,
};
use tokio_rustls::rustls::{
    self,
    client::danger::{HandshakeSignatureValid, ServerCertVerified, ServerCertVerifier},
    crypto::CryptoProvider,
    pki_types::UnixTime,
    DigitallySignedStruct, SignatureScheme,
    pki_types::{pem::PemObject, CertificateDer, PrivateKeyDer, ServerName},
    ClientConfig, ClientConnection, Connection, RootCertStore, ServerConfig, ServerConnection,
};

fn bs(b: &[u8]) -> String {
    b.iter().map(|b| *b as char).collect()
}
fn unbs(v: &Value) -> Vec<u8> {
    v.as_str().unwrap_or("").chars().map(|c| c as u32 as u8).collect()
}

fn server_config(cert: &str) -> Arc<ServerConfig> {
    let dir = std::env::var("DRIVE_CERTS").unwrap();
    let chain = vec![CertificateDer::from_pem_file(format!("{dir}/{cert}.pem")).unwrap()];
    let key = PrivateKeyDer::from_pem_file(format!("{dir}/{cert}.key")).unwrap();
    Arc::new(ServerConfig::builder().with_no_client_auth().with_single_cert(chain, key).unwrap())
}
fn client_config() -> Arc<ClientConfig> {
    static C: OnceLock<Arc<ClientConfig>> = OnceLock::new();
    C.get_or_init(|| {
        let dir = std::env::var("DRIVE_CERTS").unwrap();
        let mut roots = RootCertStore::empty();
        roots.add(CertificateDer::from_pem_file(format!("{dir}/ca.pem")).unwrap()).unwrap();
        Arc::new(ClientConfig::builder().with_root_certificates(roots).with_no_client_auth())
    })
    .clone()
}

/// Takes any certificate; which one it was is recorded.
#[derive(Debug)]
struct Any(Arc<CryptoProvider>);
impl ServerCertVerifier for Any {
    fn verify_server_cert(
        &self,
        _: &CertificateDer<'_>,
        _: &[CertificateDer<'_>],
        _: &ServerName<'_>,
        _: &[u8],
        _: UnixTime,
    ) -> Result<ServerCertVerified, rustls::Error> {
        Ok(ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls12_signature(m, c, d, &self.0.signature_verification_algorithms)
    }
    fn verify_tls13_signature(&self, m: &[u8], c: &CertificateDer<'_>, d: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, rustls::Error> {
        rustls::crypto::verify_tls13_signature(m, c, d, &self.0.signature_verification_algorithms)
    }
    fn supported_verify_schemes(&self) -> Vec<SignatureScheme> {
        self.0.signature_verification_algorithms.supported_schemes()
    }
}
fn any_config() -> Arc<ClientConfig> {
    let b = ClientConfig::builder();
    let p = b.crypto_provider().clone();
    Arc::new(b.dangerous().with_custom_certificate_verifier(Arc::new(Any(p))).with_no_client_auth())
}
/// Which of our certificates is it?
fn cert_name(c: &Connection) -> String {
    let Some(l) = c.peer_certificates() else { return String::new() };
    let dir = std::env::var("DRIVE_CERTS").unwrap();
    for n in ["leaf", "imap", "mail", "other", "full"] {
        let chain = CertificateDer::pem_file_iter(format!("{dir}/{n}.pem")).unwrap();
        if l.iter().cloned().eq(chain.map(Result::unwrap)) {
            return n.into();
        }
    }
    "unknown".into()
}

/// One end of a connection: the harness's.
struct End {
    /// The first bytes written to it.
    first: Vec<u8>,
    wire: Wire,
    tls: Option<Connection>,
    /// TLS is broken or refused.
    bad: bool,
    got: Vec<u8>,
    gone: bool,
}
impl End {
    fn new(wire: Wire, tls: Option<Connection>) -> End {
        let mut e = End { first: vec![], wire, tls, bad: false, got: vec![], gone: false };
        e.flush();
        e
    }
    /// What TLS has to say.
    fn flush(&mut self) {
        if let Some(c) = &mut self.tls {
            let mut raw = vec![];
            while c.wants_write() {
                c.write_tls(&mut raw).unwrap();
            }
            if !raw.is_empty() && !self.gone {
                self.wire.arrive(&raw);
            }
        }
    }
    fn send(&mut self, b: &[u8]) {
        match &mut self.tls {
            None => self.wire.arrive(b),
            Some(_) => {
                for d in b.chunks(30_000) {
                    // (nothing to be said after a fatal error)
                    let _ = self.tls.as_mut().unwrap().writer().write_all(d);
                    self.flush();
                }
            }
        }
    }
    /// Takes what has been written; true if TLS had something to do.
    fn receive(&mut self) -> bool {
        let raw = self.wire.take_output();
        let n = raw.len().min(3 - self.first.len());
        self.first.extend(&raw[..n]);
        let Some(c) = &mut self.tls else {
            self.got.extend(raw);
            return false;
        };
        if raw.is_empty() && !c.wants_write() {
            return false;
        }
        let mut rd = &raw[..];
        while !rd.is_empty() && !self.bad {
            if c.read_tls(&mut rd).is_err() || c.process_new_packets().is_err() {
                self.bad = true;
            }
            let mut buf = [0; 16384];
            while let Ok(n) = c.reader().read(&mut buf) {
                if n == 0 {
                    break;
                }
                self.got.extend_from_slice(&buf[..n]);
            }
        }
        let more = c.wants_write();
        self.flush();
        more
    }
    /// What is spoken to it?
    fn kind(&self) -> &'static str {
        match self.first[..] {
            [] => "",
            [20..=23, 3, ..] => "tls",
            _ => "plain",
        }
    }
    /// Whom did it ask for (TLS)?
    fn sni(&self) -> String {
        match &self.tls {
            Some(Connection::Server(s)) => s.server_name().unwrap_or("").to_string(),
            _ => String::new(),
        }
    }
    fn hs(&self) -> bool {
        self.tls.as_ref().is_some_and(|c| !c.is_handshaking())
    }
    fn stop(&mut self, how: &str) {
        if how == "notify" || how == "half" {
            if let Some(c) = &mut self.tls {
                c.send_close_notify();
            }
            self.flush();
        }
        match how {
            "half" => self.wire.stop(Stop::Half),
            "gone" => self.wire.stop(Stop::Gone),
            "reset" => self.wire.stop(Stop::Reset),
            _ => {}
        }
        self.gone = true;
    }
}

#[derive(Default)]
struct Session {
    client: Option<End>,
    up: Option<End>,
    conn: Option<usize>,
    to: String,
    /// The connection answered last; whether there was one to be answered at the last "again".
    answered: Option<usize>,
    again: bool,
    refused: bool,
    seen: (bool, bool, bool),
}

static BEAT: AtomicU64 = AtomicU64::new(0);
static LOG: Mutex<Vec<Value>> = Mutex::new(Vec::new());
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Until nothing moves.
async fn settle(sessions: &mut [Session]) {
    for _ in 0..40 {
        real_tokio::time::sleep(Duration::from_millis(1)).await;
        let mut more = false;
        for s in sessions.iter_mut() {
            for e in [&mut s.client, &mut s.up].into_iter().flatten() {
                more |= e.receive();
            }
        }
        if !more {
            break;
        }
    }
}
fn wire(v: &Value) -> Wire {
    let w = Wire::new();
    w.add_room(v.as_u64().map_or(usize::MAX, |n| n as usize));
    w
}

/// Until nothing moves; what has been seen then is recorded.
async fn continue_(sessions: &mut [Session], i: usize, asked: &mut usize) {
    settle(sessions).await;
    let now = net::connects(*asked);
    *asked += now.len();
    let mut seen = vec![];
    if let Some(a) = now.first() {
        // The session that was acted upon has asked for its upstream connection.
        sessions[i].conn = Some(*asked - now.len());
        sessions[i].to = a.clone();
    }
    let more = std::env::var("DRIVE_MORE").is_ok();
    for (k, s) in sessions.iter_mut().enumerate() {
        let co = s.client.as_mut().map_or(vec![], |e| std::mem::take(&mut e.got));
        let uo = s.up.as_mut().map_or(vec![], |e| std::mem::take(&mut e.got));
        let state = |e: &Option<End>| match e {
            None => (false, false, 0, false),
            Some(e) => {
                let p = e.wire.lock();
                (p.dropped || p.write_shut, p.room == 0, p.input.len(), e.bad)
            }
        };
        let (cd, cb, cin, cbad) = state(&s.client);
        let (ud, ub, uin, ubad) = state(&s.up);
        let asks = s.conn.is_some();
        if k == i || !co.is_empty() || !uo.is_empty() || s.seen != (cd, ud, asks) {
            s.seen = (cd, ud, asks);
            let mut m = Map::new();
            m.insert("i".into(), json!(k));
            m.insert("co".into(), json!(bs(&co)));
            m.insert("uo".into(), json!(bs(&uo)));
            m.insert("cd".into(), json!(cd));
            m.insert("ud".into(), json!(ud));
            m.insert("cb".into(), json!(cb));
            m.insert("ub".into(), json!(ub));
            m.insert("cin".into(), json!(cin));
            m.insert("uin".into(), json!(uin));
            m.insert("bad".into(), json!(cbad || ubad));
            m.insert("asks".into(), json!(asks));
            m.insert("to".into(), json!(s.to));
            if more {
                m.insert("refused".into(), json!(s.refused));
                let e = s.client.as_ref();
                m.insert("hs".into(), json!(e.is_some_and(End::hs)));
                m.insert("cert".into(), json!(e.and_then(|e| e.tls.as_ref()).map_or(String::new(), cert_name)));
                m.insert("ck".into(), json!(e.map_or("", End::kind)));
                let e = s.up.as_ref();
                m.insert("uk".into(), json!(e.map_or("", End::kind)));
                m.insert("uhs".into(), json!(e.is_some_and(End::hs)));
                m.insert("sni".into(), json!(e.map_or(String::new(), End::sni)));
            }
            seen.push(Value::Object(m));
        }
    }
    LOG.lock().unwrap().push(json!({"dials": now.len(), "seen": seen}));
}

async fn job(steps: &[Value]) {
    let mut sessions: Vec<Session> = vec![];
    let mut asked = net::connects(0).len();
    for st in steps {
        BEAT.fetch_add(1, Ordering::SeqCst);
        let i = st["i"].as_u64().unwrap_or(0) as usize;
        while sessions.len() <= i {
            sessions.push(Session::default());
        }
        let s = &mut sessions[i];
        // What is done only if the program has dialled again
        if st["again"].as_bool().unwrap_or(false) {
            if st["t"] == "up" {
                s.again = s.conn.is_some() && s.conn != s.answered;
            }
            if !s.again {
                continue;
            }
        }
        if st["t"] == "up" {
            s.answered = s.conn;
        }
        match st["t"].as_str().unwrap() {
            "dial" => {
                let w = wire(&st["room"]);
                if !net::bound().iter().any(|a| a == st["to"].as_str().unwrap()) {
                    s.refused = true;
                    continue_(&mut sessions, i, &mut asked).await;
                    continue;
                }
                net::dial_in(st["to"].as_str().unwrap(), Ok(w.clone()));
                let any = st["any"].as_bool().unwrap_or(false);
                let tls = st["tls"].as_bool().unwrap_or(false).then(|| {
                    Connection::Client(ClientConnection::new(if any { any_config() } else { client_config() }, ServerName::try_from("localhost").unwrap()).unwrap())
                });
                s.client = Some(End::new(w, tls));
            }
            "accfail" => {
                // Accepting itself fails
                let e = match st["kind"].as_str() {
                    Some("files") => std::io::Error::from_raw_os_error(24),
                    Some("memory") => std::io::Error::from_raw_os_error(12),
                    Some("interrupted") => std::io::ErrorKind::Interrupted.into(),
                    _ => std::io::ErrorKind::ConnectionAborted.into(),
                };
                net::dial_in(st["to"].as_str().unwrap(), Err(e));
            }
            "up" => match s.conn {
                Some(id) if st["how"] == "ok" => {
                    let w = wire(&st["room"]);
                    let tls = st["tls"].as_str().map(|c| Connection::Server(ServerConnection::new(server_config(c)).unwrap()));
                    s.up = Some(End::new(w.clone(), tls));
                    net::answer(id, Ok(w));
                }
                Some(id) => net::answer(id, Err(std::io::ErrorKind::ConnectionRefused.into())),
                None => {}
            },
            "in" => {
                // Bytes of one side or both at once
                for (e, k) in [(&mut s.client, "c"), (&mut s.up, "u")] {
                    let b = unbs(&st[k]);
                    if let (Some(e), false) = (e, b.is_empty()) {
                        e.send(&b);
                    }
                }
                // ... perhaps directly followed by the end
                for (e, k) in [(&mut s.client, "cx"), (&mut s.up, "ux")] {
                    if let (Some(e), Some(how)) = (e, st[k].as_str()) {
                        e.stop(how);
                    }
                }
            }
            "raw" => {
                if let Some(e) = &mut s.client {
                    e.wire.arrive(&unbs(&st["c"]));
                }
                if let Some(e) = &mut s.up {
                    e.wire.arrive(&unbs(&st["u"]));
                }
            }
            "room" => {
                for (e, k) in [(&mut s.client, "c"), (&mut s.up, "u")] {
                    if let (Some(e), Some(n)) = (e, st[k].as_i64()) {
                        if n == 0 {
                            e.wire.lock().room = 0;
                        } else {
                            e.wire.add_room(if n < 0 { usize::MAX } else { n as usize });
                        }
                    }
                }
            }
            "steps" => {
                // How much one read or write moves at most
                for e in [&s.client, &s.up].into_iter().flatten() {
                    let mut p = e.wire.lock();
                    p.read_step = st["r"].as_u64().unwrap_or(0) as usize;
                    p.write_step = st["w"].as_u64().unwrap_or(0) as usize;
                }
            }
            "tick" => real_tokio::time::sleep(Duration::from_secs(60)).await,
            x => panic!("unknown step {x}"),
        }
        continue_(&mut sessions, i, &mut asked).await;
    }
    // Everybody goes away.
    for s in &mut sessions {
        if let (None, Some(id)) = (&s.up, s.conn) {
            net::answer(id, Err(std::io::ErrorKind::ConnectionRefused.into()));
        }
        for e in [&mut s.client, &mut s.up].into_iter().flatten() {
            e.wire.stop(Stop::Gone);
        }
    }
    real_tokio::time::sleep(Duration::from_secs(600)).await;
}

pub async fn run<F: Future>(main: F) -> F::Output {
    let Ok(file) = std::env::var("DRIVE_JOBS") else {
        return main.await;
    };
    let out = std::env::var("DRIVE_OUT").unwrap();
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{i}");
        PANICS.lock().unwrap().push(i.to_string());
    }));
    let out = Arc::new(Mutex::new(BufWriter::new(std::fs::File::create(out).unwrap())));
    let at = Arc::new(AtomicU64::new(0));
    {
        let (out, at) = (out.clone(), at.clone());
        std::thread::spawn(move || {
            let mut last = (0, std::time::Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let b = BEAT.load(Ordering::SeqCst);
                if b != last.0 {
                    last = (b, std::time::Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(10) {
                    let mut o = out.lock().unwrap();
                    let l = std::mem::take(&mut *LOG.lock().unwrap());
                    let p = std::mem::take(&mut *PANICS.lock().unwrap());
                    let _ = writeln!(o, "{}", json!({"n": at.load(Ordering::SeqCst), "hang": true, "ended": false, "log": l, "panics": p}));
                    let _ = o.flush();
                    std::process::exit(0);
                }
            }
        });
    }
    let ended = std::cell::Cell::new(false);
    for a in std::env::var("DRIVE_BUSY").unwrap_or_default().split_whitespace() {
        net::occupy(a);
    }
    let driver = async {
        settle(&mut []).await;
        for (n, line) in BufReader::new(std::fs::File::open(file).unwrap()).lines().enumerate() {
            at.store(n as u64, Ordering::SeqCst);
            let steps: Vec<Value> = serde_json::from_str(&line.unwrap()).unwrap();
            job(&steps).await;
            let l = std::mem::take(&mut *LOG.lock().unwrap());
            let p = std::mem::take(&mut *PANICS.lock().unwrap());
            writeln!(out.lock().unwrap(), "{}", json!({"n": n, "hang": false, "ended": ended.get(), "bound": net::bound(), "log": l, "panics": p})).unwrap();
        }
        out.lock().unwrap().flush().unwrap();
        std::process::exit(0)
    };
    let mut driver = pin!(driver);
    let mut main = pin!(main);
    let r: F::Output = real_tokio::select! {
        biased;
        r = &mut main => r,
        () = &mut driver => unreachable!(),
    };
    ended.set(true);
    driver.await;
    r
}
