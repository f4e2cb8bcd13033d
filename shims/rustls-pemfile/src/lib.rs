//! Offline stand-in for `rustls-pemfile` on top of `rustls-pki-types`' PEM reader.
use rustls_pki_types::{pem::{self, PemObject}, CertificateDer, PrivatePkcs8KeyDer};
use std::io;

fn map(e: pem::Error) -> io::Error {
    match e {
        pem::Error::Io(e) => e,
        other => io::Error::new(io::ErrorKind::InvalidData, other.to_string()),
    }
}

pub fn certs(rd: &mut dyn io::BufRead) -> impl Iterator<Item = Result<CertificateDer<'static>, io::Error>> + '_ {
    CertificateDer::pem_reader_iter(rd).map(|r| r.map_err(map))
}

pub fn pkcs8_private_keys(rd: &mut dyn io::BufRead) -> impl Iterator<Item = Result<PrivatePkcs8KeyDer<'static>, io::Error>> + '_ {
    PrivatePkcs8KeyDer::pem_reader_iter(rd).map(|r| r.map_err(map))
}
