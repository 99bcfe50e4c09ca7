//! TLS client without I/O: bytes in, bytes out.
#[cfg(feature = "f_tls")]
mod imp {
    use crate::kernel::ClientSt;
    use rustls::{Certificate, ClientConfig, ClientSession, ClientSessionMemoryCache, ProtocolVersion, RootCertStore, ServerCertVerified, ServerCertVerifier, Session, TLSError};
    use std::io::{Read, Write};
    use std::sync::{Arc, OnceLock};

    struct AnyCert;
    impl ServerCertVerifier for AnyCert {
        fn verify_server_cert(
            &self, _: &RootCertStore, _: &[Certificate], _: webpki::DNSNameRef, _: &[u8],
        ) -> Result<ServerCertVerified, TLSError> {
            Ok(ServerCertVerified::assertion())
        }
    }

    pub struct Tls {
        s: ClientSession,
        plain: Vec<u8>,
        written: bool,
        close: bool,
        closed: bool,
        failed: bool,
        tail: u32,
    }

    impl Tls {
        pub fn new(opt: u32, record: u32) -> Tls {
            let mut c = ClientConfig::new();
            if opt & 1 != 0 {
                c.versions = vec![ProtocolVersion::TLSv1_2];
            }
            if opt & 2 != 0 {
                // one store per version, this client does not cope with a mixture
                static STORE: [OnceLock<Arc<ClientSessionMemoryCache>>; 2] = [OnceLock::new(), OnceLock::new()];
                c.set_persistence(STORE[(opt & 1) as usize].get_or_init(|| ClientSessionMemoryCache::new(32)).clone());
            }
            if record > 0 {
                c.set_mtu(&Some(record.max(64) as usize));
            }
            c.dangerous().set_certificate_verifier(Arc::new(AnyCert));
            let name = webpki::DNSNameRef::try_from_ascii_str("octsim").unwrap();
            Tls {
                s: ClientSession::new(&Arc::new(c), name),
                plain: vec![],
                written: false,
                close: false,
                closed: false,
                failed: false,
                tail: 0,
            }
        }
        pub fn write_plain(&mut self, b: &[u8]) {
            self.plain = b.to_vec();
        }
        pub fn close_after(&mut self) {
            self.close = true;
        }
        /// the whole request (and closure, if wanted) has been handed to the wire
        pub fn all_written(&self) -> bool {
            self.failed || (self.written && (!self.close || self.closed))
        }
        pub fn take_out(&mut self, out: &mut Vec<u8>) {
            if !self.s.is_handshaking() && !self.written {
                self.s.write_all(&self.plain).ok();
                self.written = true;
            }
            while self.s.wants_write() {
                if self.s.write_tls(out).is_err() {
                    break;
                }
            }
            let before = out.len();
            if self.written && self.close && !self.closed {
                self.s.send_close_notify();
                self.closed = true;
            }
            while self.s.wants_write() {
                if self.s.write_tls(out).is_err() {
                    break;
                }
            }
            self.tail = (out.len() - before) as u32;
        }
        pub fn written(&self) -> bool {
            self.written
        }
        /// bytes of the last output that follow the request
        pub fn tail(&self) -> u32 {
            self.tail
        }
        pub fn feed(&mut self, mut b: &[u8], st: &mut ClientSt) {
            while !b.is_empty() && !self.failed {
                match self.s.read_tls(&mut b) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {}
                }
                if let Err(e) = self.s.process_new_packets() {
                    st.tls_err = Some(format!("{:?}", e));
                    self.failed = true;
                }
                let mut buf = [0u8; 4096];
                loop {
                    match self.s.read(&mut buf) {
                        Ok(0) => break,
                        Ok(n) => st.rx.extend_from_slice(&buf[..n]),
                        Err(e) => {
                            if e.kind() == std::io::ErrorKind::ConnectionAborted {
                                st.tls_notify = true;
                            }
                            break;
                        }
                    }
                }
            }
            if !self.s.is_handshaking() {
                st.tls_done = true;
            }
        }
    }
}

#[cfg(not(feature = "f_tls"))]
mod imp {
    use crate::kernel::ClientSt;
    pub struct Tls;
    impl Tls {
        pub fn new(_: u32, _: u32) -> Tls {
            Tls
        }
        pub fn write_plain(&mut self, _: &[u8]) {}
        pub fn close_after(&mut self) {}
        pub fn all_written(&self) -> bool {
            true
        }
        pub fn take_out(&mut self, _: &mut Vec<u8>) {}
        pub fn written(&self) -> bool {
            true
        }
        pub fn tail(&self) -> u32 {
            0
        }
        pub fn feed(&mut self, _: &[u8], _: &mut ClientSt) {}
    }
}
pub use imp::Tls;
