//! Offline stand-in for `rustls-native-certs`: PEM file from `SSL_CERT_FILE`, else the system bundle.
use rustls_pki_types::CertificateDer;
use std::{fs::File, io::{self, BufReader}};

pub fn load_native_certs() -> Result<Vec<CertificateDer<'static>>, io::Error> {
    let path = std::env::var("SSL_CERT_FILE")
        .unwrap_or_else(|_| "/etc/ssl/certs/ca-certificates.crt".into());
    let mut reader = BufReader::new(File::open(path)?);
    let mut out = Vec::new();
    for cert in rustls_pemfile::certs(&mut reader) {
        out.push(cert?);
    }
    Ok(out)
}
