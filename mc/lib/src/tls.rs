//! A browser's side of TLS.
use crate::env::Tls;
use rustls::client::danger::{HandshakeSignatureValid, ServerCertVerified, ServerCertVerifier};
use rustls::pki_types::{CertificateDer, ServerName, UnixTime};
use rustls::{ClientConfig, ClientConnection, DigitallySignedStruct, Error, SignatureScheme};
use std::io::{Read, Write};
use std::sync::Arc;

#[derive(Debug)]
struct Anything;
impl ServerCertVerifier for Anything {
    fn verify_server_cert(&self, _: &CertificateDer<'_>, _: &[CertificateDer<'_>], _: &ServerName<'_>, _: &[u8], _: UnixTime) -> Result<ServerCertVerified, Error> {
        Ok(ServerCertVerified::assertion())
    }
    fn verify_tls12_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, Error> {
        Ok(HandshakeSignatureValid::assertion())
    }
    fn verify_tls13_signature(&self, _: &[u8], _: &CertificateDer<'_>, _: &DigitallySignedStruct) -> Result<HandshakeSignatureValid, Error> {
        Ok(HandshakeSignatureValid::assertion())
    }
    fn supported_verify_schemes(&self) -> Vec<SignatureScheme> {
        rustls::crypto::ring::default_provider().signature_verification_algorithms.supported_schemes()
    }
}
pub struct Client {
    c: ClientConnection,
    text: Vec<u8>,
    failed: bool,
}
impl Client {
    pub fn new() -> Client {
        let mut cfg = ClientConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
            .with_safe_default_protocol_versions()
            .unwrap()
            .dangerous()
            .with_custom_certificate_verifier(Arc::new(Anything))
            .with_no_client_auth();
        cfg.alpn_protocols = vec![b"h2".to_vec(), b"http/1.1".to_vec()];
        let c = ClientConnection::new(Arc::new(cfg), ServerName::try_from("localhost").unwrap()).unwrap();
        Client { c, text: vec![], failed: false }
    }
    fn out(&mut self) -> Vec<u8> {
        let mut v = vec![];
        while self.c.wants_write() {
            if self.c.write_tls(&mut v).is_err() {
                break;
            }
        }
        v
    }
}
impl Tls for Client {
    fn feed(&mut self, b: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let mut r = b;
        while !r.is_empty() && !self.failed {
            if self.c.read_tls(&mut r).is_err() || self.c.process_new_packets().is_err() {
                self.failed = true;
                break;
            }
            let mut buf = [0; 4096];
            while let Ok(n) = self.c.reader().read(&mut buf) {
                if n == 0 {
                    break;
                }
                self.text.extend_from_slice(&buf[..n]);
            }
        }
        let o = self.out();
        (o, self.text.clone())
    }
    fn send(&mut self, b: &[u8]) -> Vec<u8> {
        let _ = self.c.writer().write_all(b);
        self.out()
    }
}
