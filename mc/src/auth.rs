//! X03: every combination of TLS settings against every kind of server certificate.
use crate::env;
use crate::fw::*;
use crate::tls::CA;
use flowsdk::mqtt_client::opts::{MqttClientOptions, TlsBackend};
use flowsdk::mqtt_client::tokio_async_client::{TokioAsyncClientConfig, TokioAsyncMqttClient, TokioMqttEventHandler};
use flowsdk::mqtt_client::transport::tls::{TlsConfig, TlsTransport};
use flowsdk::mqtt_client::transport::{parse_mqtt_address, RustlsTlsConfig, RustlsTlsTransport};
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer, ServerName};
use rustls::{ClientConfig, ClientConnection, RootCertStore, ServerConfig, ServerConnection};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

pub const OTHERCA: &[u8] = include_bytes!("../certs/otherca.pem");
pub const CLIENT: &[u8] = include_bytes!("../certs/client.pem");
pub const CLIENT_KEY: &[u8] = include_bytes!("../certs/client.key");
const CERTS: [(&str, &[u8], &[u8]); 6] = [
    ("a good certificate", include_bytes!("../certs/server.pem"), include_bytes!("../certs/server.key")),
    ("a certificate for another name", include_bytes!("../certs/wrongname.pem"), include_bytes!("../certs/wrongname.key")),
    ("a certificate of an unknown authority", include_bytes!("../certs/untrusted.pem"), include_bytes!("../certs/untrusted.key")),
    ("a certificate of an unknown authority for another name", include_bytes!("../certs/untrustedwrong.pem"), include_bytes!("../certs/untrustedwrong.key")),
    ("an expired certificate", include_bytes!("../certs/expired.pem"), include_bytes!("../certs/expired.key")),
    ("a good certificate without its key", include_bytes!("../certs/server.pem"), include_bytes!("../certs/untrusted.key")),
];
const NAMES: [&str; 2] = ["localhost", "127.0.0.1"];

pub fn ders(pem: &[u8]) -> Vec<CertificateDer<'static>> {
    CertificateDer::pem_slice_iter(pem).map(|c| c.unwrap()).collect()
}
/// The server with certificate `i`.
pub fn server(i: usize, v12: bool, need_client: bool, alpn: &[&[u8]]) -> ServerConfig {
    let p = Arc::new(rustls::crypto::ring::default_provider());
    let b = ServerConfig::builder_with_provider(p.clone());
    let b = if v12 { b.with_protocol_versions(&[&rustls::version::TLS12]).unwrap() } else { b.with_protocol_versions(&[&rustls::version::TLS13]).unwrap() };
    let b = if need_client {
        let mut r = RootCertStore::empty();
        r.add(ders(CA).remove(0)).unwrap();
        b.with_client_cert_verifier(rustls::server::WebPkiClientVerifier::builder_with_provider(Arc::new(r), p.clone()).build().unwrap())
    } else {
        b.with_no_client_auth()
    };
    let key = p.key_provider.load_private_key(PrivateKeyDer::from_pem_slice(CERTS[i].2).unwrap()).unwrap();
    let ck = rustls::sign::CertifiedKey::new(ders(CERTS[i].1), key);
    let mut c = b.with_cert_resolver(Arc::new(rustls::sign::SingleCertAndKey::from(ck)));
    c.alpn_protocols = alpn.iter().map(|x| x.to_vec()).collect();
    Arc::new(c).as_ref().clone()
}

/// What a client is told to trust.
#[derive(Clone, Copy, Debug)]
pub struct Trust {
    pub ca: bool,
    pub other: bool,
    pub any_cert: bool, // danger: the chain does not matter
    pub any_name: bool, // danger: the name does not matter
    pub both: bool,     // any_cert implies any_name
    pub client: bool,   // has a certificate of its own
}
/// None: not claimed.
pub fn accepts(t: Trust, cert: usize, need_client: bool) -> Option<bool> {
    if need_client && !t.client {
        return Some(false);
    }
    let trusted = if matches!(cert, 2 | 3) { t.other } else { t.ca } && cert != 4;
    let name = !matches!(cert, 1 | 3) || t.any_name || (t.any_cert && t.both);
    if !name {
        return Some(false);
    }
    if t.any_cert {
        return if cert == 5 { None } else { Some(true) };
    }
    Some(trusted && cert != 5)
}

/// What a server has been told by a client it has accepted.
#[derive(PartialEq, Debug, Default)]
struct Told {
    name: Option<String>,
    alpn: Option<Vec<u8>>,
    client: bool,
}
fn told_by(s: &rustls::ServerConnection) -> Told {
    Told { name: s.server_name().map(|x| x.to_string()), alpn: s.alpn_protocol().map(|x| x.to_vec()), client: s.peer_certificates().is_some_and(|c| c[..1] == ders(CLIENT)) }
}
fn check_told(got: &Told, name: &str, alpn: Option<&[u8]>, need: bool) -> Result<(), String> {
    // an address is not sent
    let want = Told { name: (name == "localhost").then(|| name.to_string()), alpn: alpn.map(|x| x.to_vec()), client: need };
    if *got != want {
        return Err(format!("the server is told: {:?} where {:?} is right", got, want));
    }
    Ok(())
}

/// A handshake in memory, then one byte from each side.
fn handshake(c: Arc<ClientConfig>, s: Arc<ServerConfig>, name: &'static str) -> Result<Told, String> {
    let mut c = ClientConnection::new(c, ServerName::try_from(name).unwrap()).map_err(|e| e.to_string())?;
    let mut s = ServerConnection::new(s).map_err(|e| e.to_string())?;
    let (mut cw, mut sw) = (false, false);
    let (mut cr, mut sr) = (0, 0);
    for _ in 0..20 {
        let mut b = vec![];
        while c.wants_write() {
            c.write_tls(&mut b).unwrap();
        }
        let mut r = &b[..];
        while !r.is_empty() {
            s.read_tls(&mut r).unwrap();
            let p = s.process_new_packets();
            if let Err(e) = p {
                return Err(format!("server: {}", e));
            }
        }
        let mut b = vec![];
        while s.wants_write() {
            s.write_tls(&mut b).unwrap();
        }
        let mut r = &b[..];
        while !r.is_empty() {
            c.read_tls(&mut r).unwrap();
            c.process_new_packets().map_err(|e| format!("client: {}", e))?;
        }
        if !c.is_handshaking() && !cw {
            cw = true;
            c.writer().write_all(b"c").unwrap();
        }
        if !s.is_handshaking() && !sw {
            sw = true;
            s.writer().write_all(b"s").unwrap();
        }
        let mut x = [0; 4];
        cr += c.reader().read(&mut x).unwrap_or(0);
        sr += s.reader().read(&mut x).unwrap_or(0);
    }
    if cr == 1 && sr == 1 {
        Ok(told_by(&s))
    } else {
        Err("the handshake does not end".into())
    }
}

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn path(&self, f: &str) -> String {
        self.0.join(f).to_str().unwrap().to_string()
    }
}
/// The platform's trust store of this process is our CA.
fn scratch() -> &'static Scratch {
    static S: OnceLock<Scratch> = OnceLock::new();
    S.get_or_init(|| {
        let d = std::env::temp_dir().join(format!("mc-x03-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        for (n, b) in [("ca.pem", CA), ("otherca.pem", OTHERCA), ("client.pem", CLIENT), ("client.key", CLIENT_KEY)] {
            std::fs::write(d.join(n), b).unwrap();
        }
        std::fs::write(d.join("both.pem"), [CA, OTHERCA].concat()).unwrap();
        let _ = rustls::crypto::ring::default_provider().install_default();
        Scratch(d)
    })
}

fn verdict<T>(want: Option<bool>, got: Result<T, String>) -> Result<(), String> {
    match (want, &got) {
        (Some(true), Err(e)) => Err(format!("refused: {}", e)),
        (Some(false), Ok(_)) => Err("accepted".into()),
        _ => Ok(()),
    }
}

// ---- 0: RustlsTlsConfig ----
const RUSTLS: [usize; 9] = [3, 4, 3, 2, 2, 6, 2, 2, 3];
/// What the client offers, what the server has, what they agree on.
const ALPN: [(&[&str], &[&str], Result<Option<&str>, ()>); 3] = [(&[], &["mqtt"], Ok(None)), (&["x", "mqtt"], &["mqtt"], Ok(Some("mqtt"))), (&["x", "y"], &["mqtt"], Err(()))];
/// system roots: unset, on, off; custom: none, ca, other, both (from a file); own cert: none, PEM, files
fn rustls_cfg(d: &[usize], alpn: &[&str]) -> Result<(RustlsTlsConfig, Trust), String> {
    let s = scratch();
    let mut b = RustlsTlsConfig::builder();
    match d[0] {
        1 => b = b.use_system_roots(true),
        2 => b = b.use_system_roots(false),
        _ => {}
    }
    b = match d[1] {
        1 => b.add_roots_from_pem(CA),
        2 => b.add_roots_from_pem(OTHERCA),
        3 => b.add_roots_from_pem_file(s.path("both.pem")),
        _ => Ok(b),
    }
    .map_err(|e| e.to_string())?;
    b = match d[2] {
        1 => b.client_auth_from_pem(CLIENT, CLIENT_KEY),
        2 => b.client_auth_from_pem_files(s.path("client.pem"), s.path("client.key")),
        _ => Ok(b),
    }
    .map_err(|e| e.to_string())?;
    if d[3] == 1 {
        b = b.danger_accept_invalid_certs(true);
    }
    if d[4] == 1 {
        b = b.danger_accept_invalid_hostnames(true);
    }
    if !alpn.is_empty() {
        b = b.alpn_list(alpn.iter().map(|x| x.as_bytes().to_vec()).collect());
    }
    let t = Trust { ca: d[0] < 2 || matches!(d[1], 1 | 3), other: d[1] >= 2, any_cert: d[3] == 1, any_name: d[4] == 1, both: false, client: d[2] > 0 };
    Ok((b.build(), t))
}
fn rustls_case(d: &[usize]) -> Result<(), String> {
    let (offer, has, agree) = ALPN[d[8]];
    let (cfg, t) = rustls_cfg(d, offer)?;
    let need = d[6] == 1;
    let name = NAMES[(d[0] + d[5]) % 2];
    let has: Vec<&[u8]> = has.iter().map(|x| x.as_bytes()).collect();
    // the client offers both versions; the server has one
    let r = cfg.to_client_config().map_err(|e| e.to_string()).and_then(|c| handshake(Arc::new(c), Arc::new(server(d[5], d[7] == 1, need, &has)), name));
    if let (Ok(told), Ok(a)) = (&r, &agree) {
        check_told(told, name, a.map(|x| x.as_bytes()), need)?;
    }
    verdict(if agree.is_err() { Some(false) } else { accepts(t, d[5], need) }, r)
}

// ---- 1: the TLS client behind the foreign-function interface ----
const FFI: [usize; 7] = [4, 2, 3, 6, 2, 2, 6];
/// Through C or not, what the client is told to offer, what the server has, what they agree on.
const FFI_ALPN: [(bool, &[&str], &str, Option<&str>); 6] = [
    (false, &[], "mqtt", Some("mqtt")),
    (false, &["x", "mqtt"], "mqtt", Some("mqtt")),
    (false, &["other"], "mqtt", None),
    (true, &[], "mqtt", Some("mqtt")),
    (true, &["other"], "other", Some("other")),
    (true, &["other"], "mqtt", None),
];
fn ffi_tls(ca: Option<String>, insecure: bool, own: usize, alpn: &[&str]) -> flowsdk_ffi::engine::ffi_types::MqttTlsOptionsFFI {
    let s = scratch();
    flowsdk_ffi::engine::ffi_types::MqttTlsOptionsFFI {
        ca_cert_file: ca,
        client_cert_file: (own > 0).then(|| s.path("client.pem")),
        client_key_file: (own == 1).then(|| s.path("client.key")),
        insecure_skip_verify: insecure,
        alpn_protocols: alpn.iter().map(|x| x.to_string()).collect(),
        enable_key_log: false,
    }
}
fn ffi_opts() -> flowsdk_ffi::engine::ffi_types::MqttOptionsFFI {
    flowsdk_ffi::engine::ffi_types::MqttOptionsFFI { client_id: "c".into(), mqtt_version: 5, clean_start: true, keep_alive: 0, username: None, password: None, reconnect_base_delay_ms: 1000, reconnect_max_delay_ms: 1000, max_reconnect_attempts: 0 }
}
/// The same as C has it.
fn with_c<T>(o: &flowsdk_ffi::engine::ffi_types::MqttTlsOptionsFFI, f: impl FnOnce(&flowsdk_ffi::engine::MqttTlsOptionsC) -> T) -> T {
    let c = |x: &Option<String>| x.as_ref().map(|x| std::ffi::CString::new(x.as_str()).unwrap());
    let (a, b, k, l) = (c(&o.ca_cert_file), c(&o.client_cert_file), c(&o.client_key_file), c(&o.alpn_protocols.first().cloned()));
    let p = |x: &Option<std::ffi::CString>| x.as_ref().map_or(std::ptr::null(), |x| x.as_ptr());
    f(&flowsdk_ffi::engine::MqttTlsOptionsC { ca_cert_file: p(&a), client_cert_file: p(&b), client_key_file: p(&k), alpn: p(&l), insecure_skip_verify: o.insecure_skip_verify as u8, enable_key_log: 0 })
}
fn ffi_case(d: &[usize]) -> Result<(), String> {
    use flowsdk_ffi::engine::*;
    let s = scratch();
    let ca = [None, Some("ca.pem"), Some("otherca.pem"), Some("missing.pem")][d[0]].map(|f| s.path(f));
    let insecure = d[1] == 1;
    let own = d[2];
    let need = d[4] == 1;
    let name = NAMES[d[5]];
    let (by_c, offer, has, agree) = FFI_ALPN[d[6]];
    let o = ffi_tls(ca, insecure, own, offer);
    let f: Box<TlsMqttEngineFFI> = if !by_c {
        Box::new(TlsMqttEngineFFI::new(ffi_opts(), o, name.into()))
    } else {
        let n = std::ffi::CString::new(name).unwrap();
        with_c(&o, |o| unsafe { Box::from_raw(mqtt_tls_engine_new(c"c".as_ptr(), 5, n.as_ptr(), o)) })
    };
    let t = Trust { ca: d[0] < 2, other: d[0] == 2, any_cert: insecure, any_name: insecure, both: true, client: own == 1 };
    let want = if agree.is_none() { Some(false) } else { accepts(t, d[3], need) };
    let mut sv = ServerConnection::new(Arc::new(server(d[3], false, need, &[has.as_bytes()]))).unwrap();
    f.connect();
    let mut got = vec![];
    let mut failed = None;
    let mut errors = 0;
    let mut acked = false;
    for i in 0..20 {
        f.handle_tick(i);
        for e in crate::ffi::vals(&f.take_events()) {
            if e.get("Error").is_some() {
                errors += 1;
            }
        }
        let b = f.take_socket_data();
        let mut r = &b[..];
        while !r.is_empty() && failed.is_none() {
            sv.read_tls(&mut r).unwrap();
            failed = sv.process_new_packets().err().map(|e| e.to_string());
            let mut x = [0; 512];
            while let Ok(n) = sv.reader().read(&mut x) {
                if n == 0 {
                    break;
                }
                got.extend(&x[..n]);
            }
        }
        if !got.is_empty() && !acked && failed.is_none() {
            acked = true;
            sv.writer().write_all(&[0x20, 3, 0, 0, 0]).unwrap();
        }
        let mut b = vec![];
        while sv.wants_write() {
            sv.write_tls(&mut b).unwrap();
        }
        if !b.is_empty() {
            f.handle_socket_data(b);
        }
    }
    let ok = f.is_connected();
    if !ok && errors == 0 {
        return Err("refused without an error event".into());
    }
    if want == Some(false) && got.first() == Some(&0x10) && !need {
        return Err("CONNECT sent to a server that is not accepted".into());
    }
    if ok && want == Some(true) {
        check_told(&told_by(&sv), name, agree.map(|x| x.as_bytes()), need)?;
    }
    verdict(want, if ok { Ok(()) } else { Err(format!("{:?}", failed)) })
}

// ---- servers on the loopback interface ----
struct Seen {
    tls: bool,
    done: bool,
    told: Told,
    app: Vec<u8>,
}
fn serve(l: &std::net::TcpListener, cfg: ServerConfig) -> Option<Seen> {
    let (mut s, _) = l.accept().ok()?;
    s.set_read_timeout(Some(Duration::from_secs(10))).ok();
    let mut seen = Seen { tls: false, done: false, told: Told::default(), app: vec![] };
    let mut first = [0u8; 1];
    if s.peek(&mut first).ok()? == 0 {
        return Some(seen);
    }
    seen.tls = first[0] == 0x16;
    let mut c = ServerConnection::new(Arc::new(cfg)).unwrap();
    let mut acked = false;
    loop {
        while c.wants_write() {
            if c.write_tls(&mut s).is_err() {
                return Some(seen);
            }
        }
        match c.read_tls(&mut s) {
            Ok(0) | Err(_) => return Some(seen),
            _ => {}
        }
        let r = c.process_new_packets();
        seen.done = !c.is_handshaking();
        seen.told = told_by(&c);
        let mut b = [0; 512];
        while let Ok(n) = c.reader().read(&mut b) {
            if n == 0 {
                break;
            }
            seen.app.extend(&b[..n]);
        }
        if r.is_err() {
            while c.wants_write() && c.write_tls(&mut s).is_ok() {}
            return Some(seen);
        }
        if !acked && seen.app.len() >= 2 {
            acked = true;
            c.writer().write_all(&[0x20, 3, 0, 0, 0]).unwrap();
        }
    }
}
/// Run a client against a server with certificate `cert`.
fn loopback<F: std::future::Future<Output = Result<(), String>>>(cert: usize, v12: bool, need: bool, f: impl FnOnce(u16) -> F) -> Result<(Result<(), String>, Seen), String> {
    // the port is this case's until the end
    let l = Arc::new(std::net::TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?);
    let a = l.local_addr().unwrap();
    let cfg = server(cert, v12, need, &[]);
    let l2 = l.clone();
    let h = std::thread::spawn(move || serve(&l2, cfg));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let r = rt.block_on(f(a.port()));
    drop(rt);
    // in case the client never came
    drop(std::net::TcpStream::connect(a));
    let s = h.join().map_err(|_| "the server panics".to_string())?.ok_or("no connection")?;
    Ok((r, s))
}

// ---- 2: TlsTransport and RustlsTlsTransport ----
async fn talk(mut t: impl tokio::io::AsyncRead + tokio::io::AsyncWrite + Unpin) -> Result<(), String> {
    t.write_all(b"hello").await.map_err(|e| e.to_string())?;
    t.flush().await.map_err(|e| e.to_string())?;
    let mut b = [0; 5];
    t.read_exact(&mut b).await.map_err(|e| e.to_string())?;
    Ok(())
}
fn native_cfg(d: &[usize]) -> (TlsConfig, Trust) {
    let mut b = TlsConfig::builder();
    if d[0] == 1 {
        b = b.add_root_certificate(native_tls::Certificate::from_pem(OTHERCA).unwrap());
    }
    if d[1] == 1 {
        b = b.client_identity(native_tls::Identity::from_pkcs8(CLIENT, CLIENT_KEY).unwrap());
    }
    if d[2] == 1 {
        b = b.danger_accept_invalid_certs(true);
    }
    if d[3] == 1 {
        b = b.danger_accept_invalid_hostnames(true);
    }
    (b.build(), Trust { ca: true, other: d[0] == 1, any_cert: d[2] == 1, any_name: d[3] == 1, both: true, client: d[1] == 1 })
}
const NATIVE: [usize; 7] = [2, 2, 2, 2, 6, 2, 2];
fn native_case(d: &[usize]) -> Result<(), String> {
    let (cfg, t) = native_cfg(d);
    let need = d[5] == 1;
    let name = NAMES[(d[4] + d[6]) % 2];
    let (r, s) = loopback(d[4], d[6] == 1, need, |p| async move {
        let scheme = ["", "mqtts://"][d[5]];
        let t = TlsTransport::connect_with_config(&format!("{}{}:{}", scheme, name, p), &cfg).await.map_err(|e| e.to_string())?;
        talk(t).await
    })?;
    if !s.tls {
        return Err("in the clear".into());
    }
    if r.is_ok() {
        check_told(&s.told, name, None, need)?;
    }
    verdict(accepts(t, d[4], need), r)
}
const RUSTLS_T: [usize; 8] = [3, 4, 2, 2, 2, 6, 1, 1];
fn rustls_transport_case(d: &[usize]) -> Result<(), String> {
    let (cfg, t) = rustls_cfg(d, &[])?;
    // the default constructor when nothing is said
    let plain = d[..5].iter().all(|x| *x == 0);
    let (r, s) = loopback(d[5], false, false, |p| async move {
        let a = format!("localhost:{}", p);
        let t = if plain {
            use flowsdk::mqtt_client::transport::Transport;
            RustlsTlsTransport::connect(&a).await
        } else {
            RustlsTlsTransport::connect_with_config(&a, cfg).await
        };
        talk(t.map_err(|e| e.to_string())?).await
    })?;
    if !s.tls && r.is_ok() {
        return Err("in the clear".into());
    }
    if r.is_ok() {
        check_told(&s.told, "localhost", None, false)?;
    }
    verdict(accepts(t, d[5], false), r)
}

// ---- 3: the tokio client ----
struct Quiet;
#[async_trait::async_trait]
impl TokioMqttEventHandler for Quiet {}
const OPTS: [&str; 16] = [
    "nothing", "enable_tls", "tls_config with another root", "tls_config with danger_accept_invalid_certs", "tls_config with danger_accept_invalid_hostnames", "tls_config with an identity",
    "enable_rustls_tls", "rustls_tls_config with another root only", "rustls_tls_config with another root", "rustls_tls_config with danger_accept_invalid_certs", "rustls_tls_config with danger_accept_invalid_hostnames",
    "rustls_tls_config with a certificate", "tls_backend Rustls", "tls_backend Native", "enable_tls, then disable_tls", "tls_config with danger, then enable_rustls_tls",
];
const TOKIO: [usize; 4] = [16, 6, 2, 2];
fn tokio_case(d: &[usize]) -> Result<(), String> {
    let o = MqttClientOptions::builder().client_id("c").mqtt_version(5).keep_alive(0).reconnect_base_delay_ms(60_000);
    let native = |d: [usize; 4]| native_cfg(&d);
    let rustls = |d: [usize; 5]| rustls_cfg(&d, &[]).unwrap();
    let sys = Trust { ca: true, other: false, any_cert: false, any_name: false, both: false, client: false };
    let (o, t) = match d[0] {
        0 => (o, sys),
        1 => (o.enable_tls(), sys),
        k @ 2..=5 => {
            let (c, t) = native([(k == 2) as usize, (k == 5) as usize, (k == 3) as usize, (k == 4) as usize]);
            (o.tls_config(c), t)
        }
        6 => (o.enable_rustls_tls(), sys),
        k @ 7..=11 => {
            let (c, t) = rustls([if k == 7 { 2 } else { 0 }, if k < 9 { 2 } else { 0 }, (k == 11) as usize, (k == 9) as usize, (k == 10) as usize]);
            (o.rustls_tls_config(c), t)
        }
        12 => (o.tls_backend(TlsBackend::Rustls), sys),
        13 => (o.tls_backend(TlsBackend::Native), sys),
        14 => (o.enable_tls().disable_tls(), sys),
        _ => (o.tls_config(native([0, 0, 1, 1]).0).enable_rustls_tls(), sys),
    };
    let need = d[2] == 1;
    let host = NAMES[d[3]];
    let (r, s) = loopback(d[1], false, need, |p| async move {
        let o = o.peer(format!("mqtts://{}:{}", host, p)).build();
        let c = TokioAsyncClientConfig::builder().auto_reconnect(false).connect_timeout_ms(10_000).build();
        let c = TokioAsyncMqttClient::new(o, Box::new(Quiet), c).await.map_err(|e| e.to_string())?;
        let r = c.connect_sync().await.map_err(|e| format!("{:?}", e)).map(|_| ());
        c.shutdown().await.ok();
        r
    })?;
    if !s.tls {
        return Err("in the clear".into());
    }
    let want = accepts(t, d[1], need);
    if want == Some(false) && !need && s.app.first() == Some(&0x10) {
        return Err("CONNECT sent to a server that is not accepted".into());
    }
    let _ = s.done;
    if r.is_ok() {
        check_told(&s.told, host, None, need)?;
    }
    verdict(want, r)
}

// ---- 4: addresses ----
const ADDR: [(&str, Option<(&str, &str)>); 10] = [
    ("mqtts://a.b:1", Some(("a.b", "a.b:1"))),
    ("a.b:8883", Some(("a.b", "a.b:8883"))),
    ("127.0.0.1:1", Some(("127.0.0.1", "127.0.0.1:1"))),
    ("mqtts://127.0.0.1:65535", Some(("127.0.0.1", "127.0.0.1:65535"))),
    ("[::1]:8883", Some(("::1", "[::1]:8883"))),
    ("mqtts://[::1]:8883", Some(("::1", "[::1]:8883"))),
    ("mqtts://[2001:db8::1:2]:1", Some(("2001:db8::1:2", "[2001:db8::1:2]:1"))),
    ("a.b", None),
    ("", None),
    ("mqtts://a.b", None),
];
fn addr_case(d: &[usize]) -> Result<(), String> {
    let (a, want) = ADDR[d[0]];
    let got = parse_mqtt_address(a).ok();
    if got.as_ref().map(|(a, b)| (a.as_str(), b.as_str())) != want {
        return Err(format!("{:?} is taken for {:?}", a, got));
    }
    Ok(())
}

// ---- 6, 7: QuicTransport and the tokio client over QUIC ----
#[derive(Default)]
struct QSeen {
    told: Option<Told>,
    from: Vec<std::net::IpAddr>,
    app: Vec<u8>,
}
/// Serve one QUIC connection on the loopback interface; the client's first data is answered with `answer`.
fn quic_loopback<F: std::future::Future<Output = Result<(), String>>>(cfg: ServerConfig, answer: &'static [u8], f: impl FnOnce(u16) -> F) -> Result<(Result<(), String>, QSeen), String> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let seen = Arc::new(Mutex::new(QSeen::default()));
    let r = rt.block_on(async {
        let q = quinn::crypto::rustls::QuicServerConfig::try_from(cfg).map_err(|e| e.to_string())?;
        let ep = quinn::Endpoint::server(quinn::ServerConfig::with_crypto(Arc::new(q)), std::net::SocketAddr::from(([127, 0, 0, 1], 0))).map_err(|e| e.to_string())?;
        let port = ep.local_addr().map_err(|e| e.to_string())?.port();
        let (s2, e2) = (seen.clone(), ep.clone());
        let h = tokio::spawn(async move {
            let Some(i) = e2.accept().await else { return };
            let Ok(c) = i.await else { return };
            let hd = c.handshake_data().and_then(|d| d.downcast::<quinn::crypto::rustls::HandshakeData>().ok());
            let client = c.peer_identity().and_then(|d| d.downcast::<Vec<CertificateDer<'static>>>().ok()).is_some_and(|x| *x == ders(CLIENT));
            s2.lock().unwrap().told = hd.map(|d| Told { name: d.server_name, alpn: d.protocol, client });
            let Ok((mut tx, mut rx)) = c.accept_bi().await else { return };
            let mut b = [0; 512];
            while let Ok(Some(n)) = rx.read(&mut b).await {
                let first = {
                    let mut s = s2.lock().unwrap();
                    s.from.push(c.remote_address().ip());
                    s.app.extend(&b[..n]);
                    s.app.len() == n
                };
                if (first || answer == b"hello") && tx.write_all(answer).await.is_err() {
                    return;
                }
            }
        });
        let r = tokio::time::timeout(Duration::from_secs(20), f(port)).await.unwrap_or_else(|_| Err("nothing happens".into()));
        ep.close(0u32.into(), b"");
        h.await.map_err(|e| e.to_string())?;
        Ok::<_, String>(r)
    })?;
    drop(rt);
    let s = std::mem::take(&mut *seen.lock().unwrap());
    Ok((r, s))
}
fn ip(n: u8) -> std::net::IpAddr {
    std::net::IpAddr::from([127, 0, 0, n])
}
/// roots: platform, PEM, file, DER, none; insecure: unset, on, on and off again; own certificate: none, PEM, files, DER, no key;
/// what the client offers and which address it binds
const QUIC: [usize; 7] = [5, 3, 5, 6, 2, 2, 6];
const QUIC_ALPN: [(&[&str], &[&str], Result<Option<&str>, ()>); 6] = [(&["mqtt"], &["mqtt"], Ok(Some("mqtt"))), (&["x", "mqtt"], &["mqtt"], Ok(Some("mqtt"))), (&[], &[], Ok(None)), (&[], &["mqtt"], Err(())), (&["mqtt"], &["other"], Err(())), (&["mqtt"], &["mqtt"], Err(()))];
fn quic_case(d: &[usize]) -> Result<(), String> {
    use flowsdk::mqtt_client::transport::quic::{QuicConfig, QuicTransport};
    use flowsdk::mqtt_client::transport::Transport;
    let s = scratch();
    let (offer, has, agree) = QUIC_ALPN[d[6]];
    let need = d[4] == 1;
    let name = NAMES[d[5]];
    let e = |e: flowsdk::mqtt_client::transport::TransportError| e.to_string();
    let mut b = QuicConfig::builder();
    let der = |p: &[u8]| ders(p).iter().map(|c| c.to_vec()).collect::<Vec<_>>();
    b = match d[0] {
        1 => b.custom_roots_from_pem(OTHERCA).map_err(e)?,
        2 => b.custom_roots_from_pem_file(s.path("both.pem")).map_err(e)?,
        3 => b.custom_roots(der(CA)),
        4 => b.custom_roots(vec![]),
        _ => b,
    };
    b = match d[1] {
        1 => b.insecure_skip_verify(true),
        2 => b.insecure_skip_verify(true).insecure_skip_verify(false),
        _ => b,
    };
    b = match d[2] {
        1 => b.client_cert_chain_from_pem(CLIENT).map_err(e)?.client_private_key_from_pem(CLIENT_KEY).map_err(e)?,
        2 => b.client_cert_chain_from_pem_file(s.path("client.pem")).map_err(e)?.client_private_key_from_pem_file(s.path("client.key")).map_err(e)?,
        3 => b.client_cert_chain(der(CLIENT)).client_private_key(PrivateKeyDer::from_pem_slice(CLIENT_KEY).unwrap().secret_der().to_vec()),
        4 => b.client_cert_chain(der(CLIENT)),
        _ => b,
    };
    b = match d[6] {
        1 => b.alpn_list(vec![b"z".to_vec()]).alpn_list(offer.iter().map(|x| x.as_bytes().to_vec()).collect()),
        _ => offer.iter().fold(b, |b, x| b.alpn(x)),
    };
    let from = match d[6] {
        1 => {
            b = b.local_bind_ip(ip(2));
            2
        }
        2 => {
            b = b.local_bind_addr((ip(3), 0).into());
            3
        }
        5 => {
            // of another family
            b = b.local_bind_ip(std::net::Ipv6Addr::LOCALHOST.into());
            1
        }
        _ => 1,
    };
    let t = Trust { ca: matches!(d[0], 0 | 2 | 3), other: matches!(d[0], 1 | 2), any_cert: d[1] == 1, any_name: d[1] == 1, both: true, client: matches!(d[2], 1..=3) };
    let want = if agree.is_err() { Some(false) } else { accepts(t, d[3], need) };
    let has: Vec<&[u8]> = has.iter().map(|x| x.as_bytes()).collect();
    let cfg = b.build();
    let moves = want == Some(true) && d[6] == 0;
    let (r, s) = quic_loopback(server(d[3], false, need, &has), b"hello", |p| async move {
        let mut t = QuicTransport::connect_with_config(&format!("{}:{}", name, p), cfg).await.map_err(e)?;
        talk(&mut t).await?;
        if t.peer_addr().map_err(e)? != format!("127.0.0.1:{}", p) {
            return Err("another peer".into());
        }
        if moves {
            let a = t.rebind((ip(4), 0).into()).map_err(e)?;
            if a.ip() != ip(4) || t.local_addr().map_err(e)? != a.to_string() {
                return Err("the new address is not in use".into());
            }
            talk(&mut t).await?;
        }
        t.close().await.map_err(e)
    })?;
    if r.is_ok() {
        check_told(s.told.as_ref().unwrap_or(&Told::default()), name, agree.unwrap_or(None).map(|x| x.as_bytes()), need)?;
        if s.from.first() != Some(&ip(from)) || s.from.last() != Some(&ip(if moves { 4 } else { from })) {
            return Err(format!("comes from: {:?}", s.from));
        }
    }
    if want == Some(false) && !need && !s.app.is_empty() {
        return Err("data sent to a server that is not accepted".into());
    }
    verdict(want, r)
}
const QUIC_OPTS: [&str; 12] = [
    "nothing", "quic_insecure_skip_verify", "quic_custom_root_ca_pem", "another quic_custom_root_ca_pem", "both in quic_custom_root_ca_pem", "quic_client_cert_pem and quic_client_key_pem", "quic_client_cert_pem", "quic_client_key_pem",
    "quic_custom_root_ca_pem without a certificate", "quic_insecure_skip_verify, then not", "quic_local_bind_addr", "quic_enable_0rtt and quic_datagram_receive_buffer_size",
];
const QUIC_TOKIO: [usize; 4] = [12, 6, 2, 2];
fn quic_tokio_case(d: &[usize]) -> Result<(), String> {
    let b = TokioAsyncClientConfig::builder().auto_reconnect(false).connect_timeout_ms(10_000);
    let text = |b: &[u8]| String::from_utf8(b.to_vec()).unwrap();
    let sys = Trust { ca: true, other: false, any_cert: false, any_name: false, both: true, client: false };
    let (b, t) = match d[0] {
        1 => (b.quic_insecure_skip_verify(true), Trust { any_cert: true, ..sys }),
        2 => (b.quic_custom_root_ca_pem(text(CA)), sys),
        3 => (b.quic_custom_root_ca_pem(text(OTHERCA)), Trust { ca: false, other: true, ..sys }),
        4 => (b.quic_custom_root_ca_pem(text(CA) + &text(OTHERCA)), Trust { other: true, ..sys }),
        5 => (b.quic_client_cert_pem(text(CLIENT)).quic_client_key_pem(text(CLIENT_KEY)), Trust { client: true, ..sys }),
        6 => (b.quic_client_cert_pem(text(CLIENT)), sys),
        7 => (b.quic_client_key_pem(text(CLIENT_KEY)), sys),
        8 => (b.quic_custom_root_ca_pem("no certificate".into()), Trust { ca: false, ..sys }),
        9 => (b.quic_insecure_skip_verify(true).quic_insecure_skip_verify(false), sys),
        10 => (b.quic_local_bind_addr((ip(2), 0).into()), sys),
        11 => (b.quic_enable_0rtt(true).quic_datagram_receive_buffer_size(1000), sys),
        _ => (b, sys),
    };
    let need = d[2] == 1;
    let host = NAMES[d[3]];
    let c = b.build();
    let (r, s) = quic_loopback(server(d[1], false, need, &[b"mqtt"]), &[0x20, 3, 0, 0, 0], |p| async move {
        let o = MqttClientOptions::builder().client_id("c").mqtt_version(5).keep_alive(0).reconnect_base_delay_ms(60_000).peer(format!("quic://{}:{}", host, p)).build();
        let c = TokioAsyncMqttClient::new(o, Box::new(Quiet), c).await.map_err(|e| e.to_string())?;
        let r = c.connect_sync().await.map_err(|e| format!("{:?}", e)).map(|_| ());
        c.shutdown().await.ok();
        r
    })?;
    let want = accepts(t, d[1], need);
    if r.is_ok() {
        check_told(s.told.as_ref().unwrap_or(&Told::default()), host, Some(b"mqtt"), need)?;
        if s.from[0] != ip(if d[0] == 10 { 2 } else { 1 }) {
            return Err(format!("comes from: {:?}", s.from));
        }
    }
    if want == Some(false) && !need && !s.app.is_empty() {
        return Err("data sent to a server that is not accepted".into());
    }
    verdict(want, r)
}

// ---- 8: the QUIC client behind the foreign-function interface ----
fn quic_ffi_case(d: &[usize]) -> Result<(), String> {
    use flowsdk_ffi::engine::*;
    let s = scratch();
    let ca = [None, Some("ca.pem"), Some("otherca.pem"), Some("missing.pem")][d[0]].map(|f| s.path(f));
    let insecure = d[1] == 1;
    let own = d[2];
    let need = d[4] == 1;
    let name = NAMES[d[5]];
    let (by_c, offer, has, agree) = FFI_ALPN[d[6]];
    let o = ffi_tls(ca, insecure, own, offer);
    let mut f = QuicMqttEngineFFI::new(ffi_opts());
    let to = "127.0.0.1:14567";
    if by_c {
        let n = std::ffi::CString::new(name).unwrap();
        let a = std::ffi::CString::new(to).unwrap();
        if with_c(&o, |o| unsafe { mqtt_quic_engine_connect(&mut f, a.as_ptr(), n.as_ptr(), o) }) != 0 {
            return Err("connect fails".into());
        }
    } else {
        f.connect(to.into(), name.into(), o, 0);
    }
    let t = Trust { ca: d[0] < 2, other: d[0] == 2, any_cert: insecure, any_name: insecure, both: true, client: own == 1 };
    let want = if agree.is_none() { Some(false) } else { accepts(t, d[3], need) };
    let mut sv = crate::quic::Srv::new(crate::quic::server_config(server(d[3], false, need, &[has.as_bytes()]), 0), 7);
    let mut acked = false;
    let mut got = vec![];
    for i in 0..20 {
        let now = std::time::Instant::now();
        f.handle_tick(i);
        for g in f.take_outgoing_datagrams() {
            if g.addr != to {
                return Err("datagrams for another address".into());
            }
            sv.recv(&g.data, now);
        }
        sv.poll(now);
        if let Some((id, b)) = sv.rx.iter().next().filter(|(_, b)| !b.is_empty() && !acked) {
            acked = true;
            got = b.clone();
            let id = *id;
            sv.tx.entry(id).or_default().extend([0x20, 3, 0, 0, 0]);
            sv.poll(now);
        }
        while let Some(g) = sv.out.pop_front() {
            f.handle_datagram(g, to.into(), i);
        }
    }
    let ok = f.is_connected();
    if want == Some(false) && !need && !got.is_empty() {
        return Err("data sent to a server that is not accepted".into());
    }
    if ok {
        let c = &sv.conn.as_ref().unwrap().1;
        let h = c.crypto_session().handshake_data().and_then(|d| d.downcast::<quinn_proto::crypto::rustls::HandshakeData>().ok()).ok_or("no handshake data")?;
        let client = c.crypto_session().peer_identity().and_then(|d| d.downcast::<Vec<CertificateDer<'static>>>().ok()).is_some_and(|x| *x == ders(CLIENT));
        check_told(&Told { name: h.server_name, alpn: h.protocol, client }, name, agree.map(|x| x.as_bytes()), need)?;
    }
    verdict(want, if ok { Ok(()) } else { Err(sv.lost.unwrap_or_default()) })
}

fn run1(part: usize, d: &[usize]) -> Result<(), String> {
    match part {
        0 => rustls_case(d),
        1 => ffi_case(d),
        2 => native_case(d),
        3 => rustls_transport_case(d),
        4 => tokio_case(d),
        6 => quic_case(d),
        7 => quic_tokio_case(d),
        8 => quic_ffi_case(d),
        _ => addr_case(d),
    }
}
const PARTS: [(&str, &[usize], usize); 9] = [("RustlsTlsConfig", &RUSTLS, 5), ("FFI", &FFI, 3), ("TlsTransport", &NATIVE, 4), ("RustlsTlsTransport", &RUSTLS_T, 5), ("tokio client", &TOKIO, 1), ("address", &[10], 9), ("QuicTransport", &QUIC, 3), ("tokio client over QUIC", &QUIC_TOKIO, 1), ("QUIC FFI", &FFI, 3)];

fn one(ctx: &Ctx, part: usize, n: usize, l: &mut Local) {
    let (name, dim, ci) = PARTS[part];
    let mut d = vec![];
    let mut k = n;
    for x in dim {
        d.push(k % x);
        k /= x;
    }
    let c = [&[part as u8][..], &(n as u32).to_le_bytes()].concat();
    case(&c);
    env::vclock_off();
    l.evals += 1;
    l.steps += 1;
    // loopback connections may fail for reasons outside, which do not come again
    let mut r = Ok(());
    for _ in 0..3 {
        r = guard(|| run1(part, &d)).unwrap_or_else(|p| Err(format!("panic {}", p)));
        if r.is_ok() || part < 2 {
            break;
        }
    }
    l.outcome(&(part, &d));
    l.state(&(part, &d));
    if let Err(e) = r {
        let cert = d.get(ci).map_or("", |x| CERTS[*x].0);
        let set = if part == 4 {
            OPTS[d[0]].to_string()
        } else if part == 7 {
            QUIC_OPTS[d[0]].to_string()
        } else { format!("{:?}", d) };
        ctx.fail(&sigify(&format!("{} {} {}", name, cert, e.split(':').next().unwrap())), format!("{} with {} and {}: {}", name, set, cert, e), &c);
    }
}

pub fn x03(ctx: &Ctx) {
    let s = scratch();
    prepare(s);
    let only = std::env::var("MC_ONLY").ok().and_then(|x| x.parse().ok());
    for p in (0..PARTS.len()).filter(|p| only.is_none_or(|o: usize| o == *p)) {
        let n: usize = PARTS[p].1.iter().product();
        let next = Mutex::new(());
        drop(next);
        ctx.par(n, |i, l| one(ctx, p, i, l));
    }
    std::fs::remove_dir_all(&s.0).ok();
    ctx.note("bounds", "every combination of trusted roots (platform, given, both, none), danger switches, own certificate, TLS version and the six kinds of server certificate, with and without client authentication, for RustlsTlsConfig (in memory), the TLS and QUIC FFI (from Rust and C, in memory), the native, the rustls and the QUIC transport and the tokio client with 16 ways to set its TLS options and 12 for QUIC (loopback); what the server is told; addresses");
}
fn prepare(s: &Scratch) {
    std::env::set_var("SSL_CERT_FILE", s.path("ca.pem"));
    std::env::set_var("SSL_CERT_DIR", s.path("none"));
}
pub fn x03_replay(ctx: &Ctx, c: &[u8]) {
    let s = scratch();
    prepare(s);
    let mut l = Local::new();
    one(ctx, c[0] as usize, u32::from_le_bytes(c[1..5].try_into().unwrap()) as usize, &mut l);
    std::fs::remove_dir_all(&s.0).ok();
}
