//! The listeners of a configuration over real sockets: which doors exist, whom they let in
//! (client certificates), and that everyone inside can talk to everyone else.
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

use akasa_core::{GlobalState, Http, Listener, ProxyMode, TlsListener};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

use super::client::*;
use super::pipe;
use super::transport::{self, Via};
use super::world::{IdleHook, base_config};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome, fail};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Setup {
    verify: bool,
    required: bool,
    /// PROXY protocol of mqtt and ws: none, plain, TLS terminated
    proxy: u8,
    /// PROXY protocol of mqtts and wss
    proxy_tls: bool,
    reuse: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cert {
    None,
    Known,
    Stranger,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Visit {
    /// mqtt, mqtts, ws, wss
    door: u8,
    cert: Cert,
    ver: Ver,
    frames: Vec<u16>,
    noise: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    setup: Setup,
    visits: Vec<Visit>,
    /// a broken TLS listener: no CA file to verify with, or a missing or wrong file
    broken: Option<u8>,
}

struct Server {
    global: Arc<GlobalState>,
    doors: [SocketAddr; 4],
    http: SocketAddr,
    n: usize,
}

/// Addresses nobody else uses (clients get 127.0.0.1).
fn free<const N: usize>() -> [SocketAddr; N] {
    let p = std::process::id();
    let ip = [127, 77, (p >> 8) as u8, 1 + (p % 250) as u8];
    let held: [std::net::TcpListener; N] = std::array::from_fn(|_| std::net::TcpListener::bind(SocketAddr::from((ip, 0))).unwrap());
    held.each_ref().map(|l| l.local_addr().unwrap())
}

fn cert_file(n: &str) -> std::path::PathBuf {
    format!("{}/certs/{n}", env!("CARGO_MANIFEST_DIR")).into()
}

fn listener(addr: SocketAddr, s: &Setup) -> Listener {
    let proxy_mode = match s.proxy {
        0 => None,
        1 => Some(ProxyMode::Normal),
        _ => Some(ProxyMode::TlsTermination),
    };
    Listener { addr, reuse_port: s.reuse, proxy_mode }
}

fn tls_listener(addr: SocketAddr, s: &Setup) -> TlsListener {
    TlsListener {
        addr,
        reuse_port: s.reuse,
        proxy: s.proxy_tls,
        ca_file: s.verify.then(|| cert_file("ca.pem")),
        key_file: cert_file("server.key"),
        cert_file: cert_file("server.pem"),
        verify_peer: s.verify,
        fail_if_no_peer_cert: s.required,
    }
}

fn server(s: Setup) -> Arc<Mutex<Server>> {
    static ALL: OnceLock<Mutex<HashMap<Setup, Arc<Mutex<Server>>>>> = OnceLock::new();
    let mut all = ALL.get_or_init(Default::default).lock().unwrap();
    all.entry(s)
        .or_insert_with(|| {
            let [a, b, c, d, http] = free();
            let doors = [a, b, c, d];
            let mut c = base_config();
            c.listeners.mqtt = Some(listener(doors[0], &s));
            c.listeners.mqtts = Some(tls_listener(doors[1], &s));
            c.listeners.ws = Some(listener(doors[2], &s));
            c.listeners.wss = Some(tls_listener(doors[3], &s));
            c.listeners.http = Some(Http { addr: http, reuse_port: s.reuse, prometheus: true });
            let global = Arc::new(GlobalState::new(c));
            let g = global.clone();
            std::thread::spawn(move || akasa_core::server::rt::start(IdleHook { wait: false }, g));
            let t0 = Instant::now();
            for d in doors.iter().chain([&http]) {
                while std::net::TcpStream::connect(d).is_err() && t0.elapsed() < Duration::from_secs(20) {
                    std::thread::sleep(Duration::from_millis(2));
                }
            }
            Arc::new(Mutex::new(Server { global, doors, http, n: 0 }))
        })
        .clone()
}

async fn get(addr: SocketAddr, path: &str) -> std::io::Result<String> {
    let mut s = TcpStream::connect(addr).await?;
    s.write_all(format!("GET {path} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n").as_bytes()).await?;
    let mut out = Vec::new();
    s.read_to_end(&mut out).await?;
    Ok(String::from_utf8_lossy(&out).into_owned())
}

fn broken(s: &Setup, kind: u8) -> CaseResult {
    let mut c = base_config();
    c.listeners.mqtt = None;
    let mut t = tls_listener(free::<1>()[0], s);
    match kind % 4 {
        0 => {
            t.verify_peer = true;
            t.ca_file = None;
        }
        1 => {
            t.verify_peer = true;
            t.ca_file = Some(cert_file("no-such-file.pem"));
        }
        2 => t.cert_file = cert_file("server.key"),
        _ => t.key_file = cert_file("stranger.key"),
    }
    if kind / 4 % 2 == 0 {
        c.listeners.mqtts = Some(t);
    } else {
        c.listeners.wss = Some(t);
    }
    let (tx, rx) = std::sync::mpsc::channel();
    let g = Arc::new(GlobalState::new(c));
    std::thread::spawn(move || tx.send(akasa_core::server::rt::start(IdleHook { wait: false }, g).is_err()));
    match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(true) => Ok(Outcome { nontrivial: true, tags: vec!["unusable-tls-listener"] }),
        Ok(false) => fail("started", "the server ended without an error"),
        Err(_) => fail("started", "a TLS listener that cannot work (or cannot verify clients) was started"),
    }
}

pub fn run(case: &Case) -> CaseResult {
    if let Some(kind) = case.broken {
        return broken(&case.setup, kind);
    }
    let server = server(case.setup);
    let mut srv = server.lock().unwrap_or_else(|e| e.into_inner());
    srv.n += 1;
    let room = format!("room/{}", srv.n);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let s = case.setup;
    let mut out = Outcome::default();
    let res: Result<(), Failure> = rt.block_on(async {
        let patience = Duration::from_secs(20);
        let mut inside: Vec<(usize, Client)> = Vec::new();
        // the last case may still be leaving
        let t0 = Instant::now();
        while srv.global.clients_count() > 0 && t0.elapsed() < patience {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let mut waiting = Vec::new();
        for (i, v) in case.visits.iter().enumerate() {
            let addr = srv.doors[v.door as usize % 4];
            let tls = v.door % 2 == 1;
            let via = Via {
                proxy: if tls { s.proxy_tls as u8 } else { s.proxy },
                tls,
                ws: v.door % 4 > 1,
                frames: v.frames.clone(),
                noise: v.noise,
                polite: true,
            };
            let connector = transport::connector(match v.cert {
                Cert::None => None,
                Cert::Known => Some(transport::CLIENT),
                Cert::Stranger => Some(transport::STRANGER),
            });
            let welcome = !tls
                || match v.cert {
                    Cert::None => !(s.verify && s.required),
                    Cert::Known => true,
                    Cert::Stranger => !s.verify,
                };
            let tcp = match TcpStream::connect(addr).await {
                Ok(t) => t,
                Err(e) => return fail("no-listener", format!("cannot connect to {addr} (door {}): {e}", v.door % 4)),
            };
            let (end, a) = pipe::pipe(usize::MAX, vec![], vec![]);
            tokio::spawn(transport::bridge(a, Box::new(tcp), None, via, "10.0.0.1:77".parse().unwrap(), connector));
            let o = ConnOpts { clean: true, ..Default::default() };
            let c = Client::new(v.ver, end, &o, 10);
            c.send(&connect_packet(v.ver, &format!("visitor-{i}"), &o));
            c.send(&subscribe_packet(v.ver, 1, &[SubReq { filter: format!("{room}/#"), qos: 1, ..Default::default() }], None));
            waiting.push((i, c, welcome));
        }
        for (i, mut c, welcome) in waiting {
            let t0 = Instant::now();
            let mut evs = Vec::new();
            while evs.len() < 2 && !c.end.closed() && t0.elapsed() < patience {
                tokio::time::sleep(Duration::from_micros(300)).await;
                evs.extend(c.read()?.1);
            }
            evs.extend(c.read()?.1);
            let v = &case.visits[i];
            if welcome {
                ensure!(
                    matches!(&evs[..], [Ev::Connack { code: 0, .. }, Ev::Suback(..)]),
                    "refused",
                    "visitor {i} ({v:?}) was not let in: {evs:?}, closed={}",
                    c.end.closed()
                );
                inside.push((i, c));
            } else {
                ensure!(evs.is_empty(), "let-in", "visitor {i} ({v:?}) was let in: {evs:?}");
                ensure!(c.end.closed(), "not-closed", "visitor {i} ({v:?}) is refused but still connected");
                out.tag("refused");
            }
        }
        ensure!(
            srv.global.clients_count() == inside.len() && srv.global.online_clients_count() == inside.len() as u64,
            "clients",
            "{} clients, {} online, {} are connected",
            srv.global.clients_count(),
            srv.global.online_clients_count(),
            inside.len()
        );
        // everyone hears everyone
        for (i, c) in &inside {
            c.send(&publish_packet(
                c.ver,
                &OutPub { qos: 1, pid: 9, topic: format!("{room}/{i}"), payload: vec![*i as u8; 1 + i * 700], ..Default::default() },
            ));
        }
        let n = inside.len();
        for (i, c) in &mut inside {
            let mut got: Vec<(String, Vec<u8>)> = Vec::new();
            let mut acked = false;
            let t0 = Instant::now();
            while (got.len() < n || !acked) && t0.elapsed() < patience {
                tokio::time::sleep(Duration::from_micros(300)).await;
                for e in c.read()?.1 {
                    match e {
                        Ev::Publish(p) => {
                            ensure!(p.qos == 1, "message", "QoS {}", p.qos);
                            got.push((p.topic, p.payload));
                            c.send(&ack_packet(c.ver, Ack::Puback, p.pid));
                            c.done(p.pid);
                        }
                        Ev::Puback(9, 0) => acked = true,
                        e => return fail("message", format!("visitor {i} received {e:?}")),
                    }
                }
            }
            got.sort();
            let mut want: Vec<_> = case.visits.iter().enumerate().map(|(i, _)| i).collect();
            want.retain(|i| got.iter().any(|(t, _)| *t == format!("{room}/{i}")));
            ensure!(
                got.len() == n && want.len() == n && got.iter().all(|(t, p)| {
                    let i: usize = t.rsplit('/').next().unwrap().parse().unwrap();
                    *p == vec![i as u8; 1 + i * 700]
                }),
                "message",
                "visitor {i} ({:?}) received {} of {n} messages, acknowledged: {acked}",
                case.visits[*i],
                got.len()
            );
        }
        let health = get(srv.http, "/health").await.unwrap_or_else(|e| e.to_string());
        ensure!(health.starts_with("HTTP/1.1 200") && health.contains(r#"{"status":"ok"}"#), "http", "/health: {health}");
        let metrics = get(srv.http, "/metrics").await.unwrap_or_else(|e| e.to_string());
        ensure!(
            metrics.starts_with("HTTP/1.1 200") && metrics.lines().any(|l| l == format!("ONLINE_CLIENTS {n}")),
            "http",
            "/metrics with {n} clients: {metrics}"
        );
        for (_, c) in &inside {
            c.send(&disconnect_packet(c.ver, 0, None));
            c.end.eof();
        }
        let t0 = Instant::now();
        while srv.global.clients_count() > 0 && t0.elapsed() < patience {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        ensure!(srv.global.clients_count() == 0, "clients", "everyone left, but there are {} clients", srv.global.clients_count());
        out.nontrivial = n > 1;
        out.tag_if(n > 2, "several-inside");
        Ok(())
    });
    rt.shutdown_timeout(Duration::from_millis(50));
    res?;
    Ok(out)
}

pub fn case() -> BoxedStrategy<Case> {
    let setup = (
        // what is interesting about certificates × a few of the other things
        prop::sample::select(vec![(false, false), (true, false), (true, true), (false, true)]),
        prop::sample::select(vec![(0u8, false, false), (1, true, true), (2, false, true), (0, true, true)]),
    )
        .prop_map(|((verify, required), (proxy, proxy_tls, reuse))| Setup { verify, required, proxy, proxy_tls, reuse });
    let visit = (
        0u8..4,
        prop::sample::select(vec![Cert::None, Cert::Known, Cert::Stranger]),
        prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 2 => Just(Ver::V5)],
        prop::collection::vec(prop::sample::select(vec![1u16, 3, 125, 126, 1000, 0]), 0..3),
        any::<bool>(),
    )
        .prop_map(|(door, cert, ver, frames, noise)| Visit { door, cert, ver, frames, noise });
    (setup, prop::collection::vec(visit, 1..6), prop_oneof![12 => Just(None), 1 => (0u8..8).prop_map(Some)])
        .prop_map(|(setup, visits, broken)| Case { setup, visits, broken })
        .boxed()
}
