//! The ways to reach the broker: PROXY header, TLS, WebSocket and their combinations. A bridge
//! task speaks the transport, so that the plain client runs over any of them.
use std::net::SocketAddr;
use std::sync::{Arc, OnceLock};

use akasa_core::server::{ConnectionArgs, handle_accept};
use akasa_core::{GlobalState, Hook};
use base64::Engine;
use base64::engine::general_purpose::STANDARD;
use proptest::prelude::*;
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

use super::pipe::{self, AsyncEnd, ClientEnd, ServerEnd};
use super::world::Task;

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Via {
    /// 0: none, 1: PROXY header, 2: PROXY header of a TLS terminating proxy
    pub proxy: u8,
    pub tls: bool,
    pub ws: bool,
    /// sizes of WebSocket frames (cyclic, 0: everything)
    pub frames: Vec<u16>,
    /// WebSocket: fragmented messages, pings and empty messages in between
    pub noise: bool,
    /// say goodbye on the transport (close frame, close_notify) or just end the stream
    pub polite: bool,
}

pub fn via() -> BoxedStrategy<Via> {
    (
        prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
        prop::bool::weighted(0.4),
        prop::bool::weighted(0.6),
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(prop::sample::select(vec![1u16, 2, 3, 10, 125, 126, 127, 1000, 0]), 1..4)],
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(proxy, tls, ws, frames, noise, polite)| Via { proxy, tls: tls && proxy != 2, ws, frames, noise, polite })
        .boxed()
}

pub const CA: &[u8] = include_bytes!("../../certs/ca.pem");
pub const SERVER: (&[u8], &[u8]) = (include_bytes!("../../certs/server.pem"), include_bytes!("../../certs/server.key"));
pub const CLIENT: (&[u8], &[u8]) = (include_bytes!("../../certs/client.pem"), include_bytes!("../../certs/client.key"));
pub const STRANGER: (&[u8], &[u8]) = (include_bytes!("../../certs/stranger.pem"), include_bytes!("../../certs/stranger.key"));

fn chain(p: &[u8]) -> Vec<CertificateDer<'static>> {
    CertificateDer::pem_slice_iter(p).map(|c| c.unwrap()).collect()
}
fn key(p: &[u8]) -> PrivateKeyDer<'static> {
    PrivateKeyDer::from_pem_slice(p).unwrap()
}

pub fn acceptor() -> tokio_rustls::TlsAcceptor {
    static A: OnceLock<tokio_rustls::TlsAcceptor> = OnceLock::new();
    A.get_or_init(|| {
        let c = rustls::ServerConfig::builder().with_no_client_auth().with_single_cert(chain(SERVER.0), key(SERVER.1)).unwrap();
        tokio_rustls::TlsAcceptor::from(Arc::new(c))
    })
    .clone()
}

pub fn connector(cert: Option<(&[u8], &[u8])>) -> tokio_rustls::TlsConnector {
    let mut roots = rustls::RootCertStore::empty();
    for c in chain(CA) {
        roots.add(c).unwrap();
    }
    let b = rustls::ClientConfig::builder().with_root_certificates(roots);
    let c = match cert {
        None => b.with_no_client_auth(),
        Some((c, k)) => b.with_client_auth_cert(chain(c), key(k)).unwrap(),
    };
    tokio_rustls::TlsConnector::from(Arc::new(c))
}

pub fn plain_connector() -> tokio_rustls::TlsConnector {
    static C: OnceLock<tokio_rustls::TlsConnector> = OnceLock::new();
    C.get_or_init(|| connector(None)).clone()
}

pub fn args(v: &Via) -> ConnectionArgs {
    ConnectionArgs {
        addr: "127.0.0.1:1883".parse().unwrap(),
        reuse_port: false,
        proxy: v.proxy > 0,
        proxy_tls_termination: v.proxy == 2,
        websocket: v.ws,
        tls_acceptor: v.tls.then(acceptor),
    }
}

/// A PROXY v2 header.
pub fn proxy_header(source: SocketAddr, tls: bool) -> Vec<u8> {
    let mut body = Vec::new();
    let fam = match source {
        SocketAddr::V4(s) => {
            body.extend(s.ip().octets());
            body.extend([127, 0, 0, 1]);
            0x11
        }
        SocketAddr::V6(s) => {
            body.extend(s.ip().octets());
            body.extend([0; 15]);
            body.push(1);
            0x21
        }
    };
    body.extend(source.port().to_be_bytes());
    body.extend(1883u16.to_be_bytes());
    if tls {
        // AUTHORITY "localhost", SSL: by client connection, verified
        body.extend([0x02, 0, 9]);
        body.extend(b"localhost");
        body.extend([0x20, 0, 5, 0x01, 0, 0, 0, 0]);
    }
    let mut h = b"\r\n\r\n\0\r\nQUIT\n\x21".to_vec();
    h.push(fam);
    h.extend((body.len() as u16).to_be_bytes());
    h.extend(body);
    h
}

pub trait Wire: AsyncRead + AsyncWrite + Unpin + Send {}
impl<T: AsyncRead + AsyncWrite + Unpin + Send> Wire for T {}

/// A masked client frame.
pub fn frame(fin: bool, opcode: u8, data: &[u8]) -> Vec<u8> {
    let mut f = vec![(fin as u8) << 7 | opcode];
    match data.len() {
        n if n < 126 => f.push(0x80 | n as u8),
        n if n < 65536 => {
            f.push(0x80 | 126);
            f.extend((n as u16).to_be_bytes());
        }
        n => {
            f.push(0x80 | 127);
            f.extend((n as u64).to_be_bytes());
        }
    }
    let mask = [0x5a, 0x11, data.len() as u8, 0xc3];
    f.extend(mask);
    f.extend(data.iter().enumerate().map(|(i, b)| b ^ mask[i % 4]));
    f
}

pub const WS_KEY: &str = "dGhlIHNhbXBsZSBub25jZQ==";

pub fn upgrade(protocol: Option<&str>) -> Vec<u8> {
    let mut s = format!(
        "GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: {WS_KEY}\r\nSec-WebSocket-Version: 13\r\n"
    );
    if let Some(p) = protocol {
        s += &format!("Sec-WebSocket-Protocol: {p}\r\n");
    }
    s += "\r\n";
    s.into_bytes()
}

/// Reads an HTTP response head.
pub async fn response<W: Wire + ?Sized>(wire: &mut W) -> Option<String> {
    let mut head = Vec::new();
    while !head.ends_with(b"\r\n\r\n") {
        head.push(wire.read_u8().await.ok()?);
    }
    String::from_utf8(head).ok()
}

/// Is this the right answer to the upgrade?
pub fn upgraded(head: &str, protocol: Option<&str>) -> bool {
    let mut lines = head.split("\r\n");
    let field = |n: &str| {
        head.split("\r\n").filter_map(|l| l.split_once(':')).find(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.trim().to_string())
    };
    let accept = ring::digest::digest(&ring::digest::SHA1_FOR_LEGACY_USE_ONLY, format!("{WS_KEY}258EAFA5-E914-47DA-95CA-C5AB0DC85B11").as_bytes());
    lines.next().is_some_and(|l| l.starts_with("HTTP/1.1 101"))
        && field("sec-websocket-accept") == Some(STANDARD.encode(accept))
        && field("sec-websocket-protocol").as_deref() == protocol
}

/// One frame of the server; None at the end of the stream.
pub async fn read_frame<W: AsyncRead + Unpin>(r: &mut W) -> Option<(bool, u8, Vec<u8>)> {
    let a = r.read_u8().await.ok()?;
    let b = r.read_u8().await.ok()?;
    assert_eq!(a & 0x70, 0, "WebSocket frame with reserved bits");
    assert_eq!(b & 0x80, 0, "WebSocket frame of the server is masked");
    let n = match b & 0x7f {
        126 => r.read_u16().await.ok()? as usize,
        127 => r.read_u64().await.ok()? as usize,
        n => n as usize,
    };
    let mut data = vec![0; n];
    r.read_exact(&mut data).await.ok()?;
    Some((a & 0x80 != 0, a & 0x0f, data))
}

/// Carries the plain bytes at `a` over the transport; `b`: the in-memory end `wire` is made of.
pub async fn bridge(a: ServerEnd, mut wire: Box<dyn Wire>, b: Option<ClientEnd>, v: Via, peer: SocketAddr, tls: tokio_rustls::TlsConnector) {
    struct Gone(Option<ClientEnd>);
    impl Drop for Gone {
        fn drop(&mut self) {
            if let Some(b) = &self.0 {
                b.reset();
            }
        }
    }
    let _gone = Gone(b.clone());
    if v.proxy > 0 {
        let _ = wire.write_all(&proxy_header(peer, v.proxy == 2)).await;
    }
    if v.tls {
        match tls.connect("localhost".try_into().unwrap(), wire).await {
            Ok(t) => wire = Box::new(t),
            Err(_) if b.is_none() => return,
            Err(e) => panic!("TLS handshake failed: {e}"),
        }
    }
    if v.ws {
        let proto = if v.noise { Some("mqtt") } else { None };
        let _ = wire.write_all(&upgrade(proto)).await;
        let _ = wire.flush().await;
        let Some(head) = response(&mut *wire).await else { return };
        assert!(upgraded(&head, proto), "WebSocket upgrade answered with {head:?}");
    }
    let (mut ar, mut aw) = tokio::io::split(a);
    let (mut wr, mut ww) = tokio::io::split(wire);
    let (pong_tx, mut pong_rx) = tokio::sync::mpsc::unbounded_channel::<Vec<u8>>();
    let v2 = v.clone();
    let up = async {
        let mut buf = vec![0u8; 70_000];
        let mut fi = 0usize;
        let mut pings = 0u32;
        loop {
            let r = tokio::select! {
                r = ar.read(&mut buf) => r,
                Some(d) = pong_rx.recv() => {
                    let _ = ww.write_all(&frame(true, 0xa, &d)).await;
                    continue;
                }
            };
            let n = match r {
                Ok(0) => {
                    if v.polite {
                        if v.ws {
                            let _ = ww.write_all(&frame(true, 8, &[])).await;
                        }
                        let _ = ww.shutdown().await;
                    }
                    if let Some(b) = &b {
                        b.eof();
                    } else {
                        let _ = ww.shutdown().await;
                    }
                    break;
                }
                Ok(n) => n,
                Err(_) => {
                    if let Some(b) = &b {
                        b.reset();
                    }
                    break;
                }
            };
            let mut out = Vec::new();
            if !v.ws {
                out.extend_from_slice(&buf[..n]);
            } else {
                let mut rest = &buf[..n];
                let mut open = false;
                while !rest.is_empty() {
                    let k = if v.frames.is_empty() { 0 } else { v.frames[fi % v.frames.len()] as usize };
                    fi += 1;
                    let k = if k == 0 { rest.len() } else { k.min(rest.len()) };
                    // a message of several frames, or one message per frame
                    let fin = k == rest.len() || !v.noise || fi % 3 == 0;
                    out.extend(frame(fin, if open { 0 } else { 2 }, &rest[..k]));
                    open = !fin;
                    rest = &rest[k..];
                    if v.noise && fi % 4 == 1 {
                        out.extend(frame(true, 9, &pings.to_be_bytes()));
                        pings += 1;
                    }
                    if v.noise && !open && fi % 5 == 2 {
                        out.extend(frame(true, 2, &[]));
                    }
                }
            }
            let _ = ww.write_all(&out).await;
            let _ = ww.flush().await;
        }
        std::future::pending::<()>().await
    };
    let b2 = b.clone();
    let down = async {
        let mut buf = vec![0u8; 70_000];
        loop {
            if v2.ws {
                match read_frame(&mut wr).await {
                    Some((_, 0 | 2, d)) => {
                        let _ = aw.write_all(&d).await;
                    }
                    Some((_, 9, d)) => {
                        let _ = pong_tx.send(d);
                    }
                    Some((_, 10, _)) => {}
                    Some((_, 8, _)) => break,
                    Some((_, o, _)) => panic!("WebSocket frame with opcode {o}"),
                    None => break,
                }
            } else {
                match wr.read(&mut buf).await {
                    Ok(n) if n > 0 => {
                        let _ = aw.write_all(&buf[..n]).await;
                    }
                    _ => break,
                }
            }
        }
        let _ = aw.shutdown().await;
        if let Some(b) = b2 {
            b.wait_gone().await;
        }
    };
    tokio::select! {
        _ = up => {}
        _ = down => {}
    }
}

/// A connection to the broker over `v`.
pub fn open<H: Hook + Clone + Send + Sync + 'static>(
    global: &Arc<GlobalState>,
    hook: H,
    v: &Via,
    read: Vec<usize>,
    write: Vec<usize>,
    peer: u16,
) -> (ClientEnd, Task) {
    let from: SocketAddr = format!("127.0.0.1:{}", 10000 + peer as u32 % 50000).parse().unwrap();
    // the WebSocket library takes tiny reads of the upgrade request for an attack
    let read = if v.ws { read.into_iter().map(|n| if (1..5).contains(&n) { n + 4 } else { n }).collect() } else { read };
    let (bend, bserver) = pipe::pipe(if *v == Via::default() { usize::MAX } else { 2000 }, read, write);
    let task = tokio::spawn(handle_accept(bserver, args(v), from, hook, global.clone()));
    if *v == Via::default() {
        return (bend, task);
    }
    let (aend, aserver) = pipe::pipe(usize::MAX, vec![], vec![]);
    let source = format!("10.1.2.3:{}", 10000 + peer as u32 % 50000).parse().unwrap();
    tokio::spawn(bridge(aserver, Box::new(AsyncEnd(bend.clone())), Some(bend), v.clone(), source, plain_connector()));
    (aend, task)
}
