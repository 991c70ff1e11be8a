//! Getting in: every stage of accepting a connection (PROXY header, TLS, WebSocket upgrade,
//! CONNECT) done right, late, partly, or wrong.
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

use akasa_core::mqtt_proto::{v3, v5};
use akasa_core::{GlobalState, Hook, HookConnectCode, HookResult};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
use tokio::time::Sleep;

use super::client::*;
use super::pipe::{self, AsyncEnd, ClientEnd};
use super::transport::{self, Via, Wire};
use super::world::{base_config, paused_rt, set_hooks, settle};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum After {
    /// send the rest after the pause
    Finish,
    Stall,
    Eof,
    Reset,
    Garbage(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Wrong {
    No,
    /// no PROXY header where one is expected, or one where none is expected
    Header,
    Signature(u8),
    Version(u8),
    Local,
    Unix,
    /// the proxy did not verify the TLS connection
    NotVerified,
    /// no TLS where it is expected, or TLS where it is not
    Tls,
    /// no upgrade request where it is expected, or one where it is not
    Upgrade,
    Subprotocol(String),
    HttpVersion,
    NoUpgradeField,
    NoKey,
    WsVersion,
    Text,
    Pong,
    Unmasked,
    Reserved,
    /// the first packet is not a CONNECT
    Packet(u8),
    Protocol(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    via: Via,
    ver: Ver,
    source: SocketAddr,
    /// where the client stops: after `keep` bytes of this stage and the ones behind it
    stage: u8,
    keep: u16,
    wait: u16,
    after: After,
    wrong: Wrong,
    read: Vec<usize>,
    write: Vec<usize>,
}

#[derive(Clone, Default)]
struct Watch(Arc<Mutex<Vec<SocketAddr>>>);

impl Hook for Watch {
    async fn v5_before_connect(&self, peer: SocketAddr, _: &v5::Connect) -> HookResult<HookConnectCode> {
        self.0.lock().unwrap().push(peer);
        Ok(HookConnectCode::Success)
    }
    async fn v3_before_connect(&self, peer: SocketAddr, _: &v3::Connect) -> HookResult<HookConnectCode> {
        self.0.lock().unwrap().push(peer);
        Ok(HookConnectCode::Success)
    }
}

struct Budget {
    left: Option<usize>,
    wait: Duration,
    after: After,
    paused: bool,
    sleep: Option<Pin<Box<Sleep>>>,
}

/// Lets through what the budget allows.
struct Tap {
    end: ClientEnd,
    inner: AsyncEnd,
    b: Arc<Mutex<Budget>>,
}

impl AsyncRead for Tap {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.inner).poll_read(cx, buf)
    }
}

impl AsyncWrite for Tap {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let me = self.get_mut();
        let mut b = me.b.lock().unwrap();
        let n = match b.left {
            None => data.len(),
            Some(n) if n > 0 => n.min(data.len()),
            Some(_) => {
                if b.sleep.is_none() {
                    b.paused = true;
                    b.sleep = Some(Box::pin(tokio::time::sleep(b.wait)));
                }
                if b.sleep.as_mut().unwrap().as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
                match b.after.clone() {
                    After::Finish => {}
                    After::Stall => return Poll::Pending,
                    After::Eof => {
                        me.end.eof();
                        return Poll::Pending;
                    }
                    After::Reset => {
                        me.end.reset();
                        return Poll::Pending;
                    }
                    After::Garbage(g) => {
                        me.end.send(&g);
                        b.after = After::Stall;
                        return Poll::Pending;
                    }
                }
                b.left = None;
                data.len()
            }
        };
        if let Some(l) = &mut b.left {
            *l -= n;
        }
        Pin::new(&mut me.inner).poll_write(cx, &data[..n])
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.end.eof();
        Poll::Ready(Ok(()))
    }
}

fn header(case: &Case) -> Vec<u8> {
    let tls = case.via.proxy == 2;
    let mut h = transport::proxy_header(case.source, tls);
    match case.wrong {
        Wrong::Signature(i) => h[i as usize % 12] ^= 0x20,
        Wrong::Version(v) => h[12] = v << 4 | 1,
        Wrong::Local => h[12] = 0x20,
        Wrong::Unix => {
            let mut body = vec![b'/'; 216];
            body[1] = b'x';
            body.truncate(216);
            h.truncate(12);
            h.extend([0x21, 0x31]);
            h.extend((body.len() as u16).to_be_bytes());
            h.extend(body);
        }
        Wrong::NotVerified => {
            let n = h.len();
            h[n - 1] = 1;
        }
        _ => {}
    }
    h
}

fn first_packet(case: &Case) -> Vec<u8> {
    let c = connect_packet(case.ver, "visitor", &ConnOpts { clean: true, ..Default::default() });
    match case.wrong {
        Wrong::Packet(k) => match k % 7 {
            0 => ping_packet(case.ver),
            1 => disconnect_packet(case.ver, 0, None),
            2 => publish_packet(case.ver, &OutPub { topic: "bystander".into(), payload: vec![1; 30], ..Default::default() }),
            3 => subscribe_packet(case.ver, 1, &[SubReq { filter: "#".into(), qos: 0, ..Default::default() }], None),
            4 => vec![0x20, 2, 0, 0],
            5 => {
                let mut c = c;
                c[0] |= 1 + k % 15;
                c
            }
            _ => {
                let mut c = c;
                c[0] = 0xf0;
                c
            }
        },
        Wrong::Protocol(k) => {
            let mut c = c;
            // 10 len 00 04 M Q T T level, or 00 06 M Q I s d p level
            let level = 4 + c[3] as usize;
            match k % 3 {
                0 => c[level] = 6 + k / 3 % 100,
                1 => c[4 + k as usize % 3] ^= 0x01,
                _ => c[level] = if case.ver == Ver::V310 { 4 } else { 2 },
            }
            c
        }
        _ => c,
    }
}

async fn mark(b: &Arc<Mutex<Budget>>, stage: &mut u8, case: &Case, last: u8) {
    if *stage == case.stage % (last + 1) {
        b.lock().unwrap().left = Some(case.keep as usize);
    }
    *stage += 1;
}

/// Everything up to the answer to CONNECT; true if it is CONNACK with success.
async fn speak(case: &Case, end: ClientEnd, b: Arc<Mutex<Budget>>, done: Arc<Mutex<Option<Duration>>>) -> Option<bool> {
    let t0 = tokio::time::Instant::now();
    let v = &case.via;
    let w = &case.wrong;
    let has_header = (v.proxy > 0) != (*w == Wrong::Header);
    let has_tls = v.tls != (*w == Wrong::Tls);
    let has_ws = v.ws != (*w == Wrong::Upgrade);
    let last = has_header as u8 + has_tls as u8 + has_ws as u8;
    let mut wire: Box<dyn Wire> = Box::new(Tap { end: end.clone(), inner: AsyncEnd(end), b: b.clone() });
    let mut stage = 0;
    if has_header {
        mark(&b, &mut stage, case, last).await;
        wire.write_all(&header(case)).await.ok()?;
    }
    if has_tls {
        mark(&b, &mut stage, case, last).await;
        wire = Box::new(transport::plain_connector().connect("localhost".try_into().unwrap(), wire).await.ok()?);
    }
    if has_ws {
        mark(&b, &mut stage, case, last).await;
        let proto = match w {
            Wrong::Subprotocol(s) => Some(s.as_str()),
            _ if v.noise => Some("mqtt"),
            _ => None,
        };
        let mut req = String::from_utf8(transport::upgrade(proto)).unwrap();
        match w {
            Wrong::HttpVersion => req = req.replace("HTTP/1.1", "HTTP/1.0"),
            Wrong::NoUpgradeField => req = req.replace("Upgrade: websocket\r\n", ""),
            Wrong::NoKey => req = req.replace("Sec-WebSocket-Key", "Sec-WebSocket-Kay"),
            Wrong::WsVersion => req = req.replace("Version: 13", "Version: 12"),
            _ => {}
        }
        wire.write_all(req.as_bytes()).await.ok()?;
        wire.flush().await.ok()?;
        if v.ws {
            let head = transport::response(&mut *wire).await?;
            if !transport::upgraded(&head, proto) {
                return Some(false);
            }
        }
    }
    mark(&b, &mut stage, case, last).await;
    let p = first_packet(case);
    let p = if !has_ws {
        p
    } else {
        match w {
            Wrong::Text => transport::frame(true, 1, &p),
            Wrong::Pong => [transport::frame(true, 10, &[1]), transport::frame(true, 2, &p)].concat(),
            Wrong::Reserved => transport::frame(true, 3, &p),
            Wrong::Unmasked => [&[0x82, p.len() as u8], &p[..]].concat(),
            _ => {
                // split over frames
                let k = v.frames.first().map_or(p.len(), |k| (*k as usize).clamp(1, p.len()));
                let mut out = transport::frame(k == p.len() || !v.noise, 2, &p[..k]);
                if k < p.len() {
                    out.extend(transport::frame(true, if v.noise { 0 } else { 2 }, &p[k..]));
                }
                out
            }
        }
    };
    wire.write_all(&p).await.ok()?;
    wire.flush().await.ok()?;
    *done.lock().unwrap() = Some(t0.elapsed());
    let want: &[u8] = if case.ver.is5() { &[0x20] } else { &[0x20, 2, 0, 0] };
    let mut got = Vec::new();
    if has_ws && v.ws {
        while got.len() < want.len() {
            match transport::read_frame(&mut wire).await? {
                (_, 0 | 2, d) => got.extend(d),
                (_, 9 | 10, _) => {}
                _ => return Some(false),
            }
        }
    } else {
        while got.len() < want.len() {
            got.push(wire.read_u8().await.ok()?);
        }
    }
    let ok = got.starts_with(want);
    // keep the connection until the case is over
    tokio::time::sleep(Duration::from_millis(100)).await;
    Some(ok)
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut out = Outcome::default();
    let res: Result<(), Failure> = rt.block_on(async {
        let mut config = base_config();
        set_hooks(&mut config, false);
        config.hook.enable_before_connect = true;
        let global = Arc::new(GlobalState::new(config));
        // someone is there already
        let (bend, _btask) = transport::open(&global, Watch::default(), &Via::default(), vec![], vec![], 1);
        let mut by = Client::new(Ver::V5, bend, &ConnOpts::default(), 10);
        by.send(&connect_packet(Ver::V5, "bystander", &ConnOpts { clean: true, ..Default::default() }));
        by.send(&subscribe_packet(Ver::V5, 1, &[SubReq { filter: "#".into(), qos: 0, ..Default::default() }], None));
        settle().await;
        ensure!(by.read()?.1.len() == 2, "bystander", "the first client cannot connect");
        let watch = Watch::default();
        let read = if case.via.ws { case.read.iter().map(|n| if (1..5).contains(n) { n + 4 } else { *n }).collect() } else { case.read.clone() };
        let (end, server) = pipe::pipe(usize::MAX, read, case.write.clone());
        let from: SocketAddr = "127.0.0.9:999".parse().unwrap();
        let task = tokio::spawn(akasa_core::server::handle_accept(server, transport::args(&case.via), from, watch.clone(), global.clone()));
        let b = Arc::new(Mutex::new(Budget {
            left: None,
            wait: Duration::from_millis(case.wait as u64),
            after: case.after.clone(),
            paused: false,
            sleep: None,
        }));
        let done = Arc::new(Mutex::new(None));
        let (end2, b2, d2, case2) = (end.clone(), b.clone(), done.clone(), case.clone());
        let mut talk = tokio::spawn(async move { speak(&case2, end2, b2, d2).await });
        let limit = Duration::from_millis(5100);
        let mut answer = None;
        let mut over = false;
        let t0 = tokio::time::Instant::now();
        while t0.elapsed() < limit && !over && !task.is_finished() {
            settle().await;
            if talk.is_finished() {
                answer = (&mut talk).await.map_err(|e| Failure { sig: "transport".into(), msg: format!("{e:?}") })?;
                over = true;
            }
        }
        let ended_at = t0.elapsed();
        settle().await;
        let paused = b.lock().unwrap().paused;
        let complete = case.wrong == Wrong::No && (!paused || (case.after == After::Finish && case.wait < 5000));
        let seen = watch.0.lock().unwrap().clone();
        let who = if case.via.proxy > 0 { case.source } else { from };
        let garbage_may_be_a_connect = paused && matches!(case.after, After::Garbage(_)) && case.wrong == Wrong::No;
        if complete {
            ensure!(
                answer == Some(true),
                "not-accepted",
                "a correct connection was not accepted: {answer:?}, closed={} after {ended_at:?} (the last byte was sent after {:?})",
                end.closed(),
                done.lock().unwrap()
            );
            ensure!(seen == vec![who], "wrong-peer", "the hook saw the peers {seen:?} instead of {who}");
            ensure!(global.clients_count() == 2, "no-session", "{} clients", global.clients_count());
            out.nontrivial = true;
            out.tag_if(paused, "late-but-in-time");
            out.tag_if(!paused, "at-once");
            end.eof();
        } else if !garbage_may_be_a_connect {
            ensure!(
                task.is_finished(),
                "not-closed",
                "the connection is still open {ended_at:?} after it was accepted (wrong: {:?}, stopped: {paused}, then {:?})",
                case.wrong,
                case.after
            );
            ensure!(answer != Some(true), "accepted", "the connection was accepted");
            ensure!(seen.is_empty(), "accepted", "the connection reached the hook: {seen:?}");
            ensure!(global.clients_count() == 1, "accepted", "{} clients", global.clients_count());
            if paused && matches!(case.after, After::Eof | After::Reset) {
                ensure!(
                    ended_at < Duration::from_millis(case.wait.min(5000) as u64 + 50),
                    "closed-late",
                    "the client was gone after {} ms, the connection after {ended_at:?}",
                    case.wait
                );
            }
            if !paused && case.wrong == Wrong::Local {
                ensure!(ended_at < Duration::from_millis(50), "closed-late", "a health check took {ended_at:?}");
            }
            if paused && case.after != After::Garbage(vec![]) && case.wrong == Wrong::No && !matches!(case.after, After::Eof | After::Reset | After::Garbage(_)) {
                ensure!(
                    ended_at >= Duration::from_millis(4900),
                    "closed-early",
                    "a slow client was closed after {ended_at:?}"
                );
            }
            out.nontrivial = true;
            out.tag_if(paused && case.wrong == Wrong::No, "incomplete");
            out.tag_if(case.wrong != Wrong::No, "wrong");
        } else {
            ensure!(
                task.is_finished() || !seen.is_empty(),
                "not-closed",
                "the connection is still open after {ended_at:?} and nothing of a CONNECT was understood"
            );
            out.tag("garbage");
        }
        // nobody else is disturbed
        by.send(&publish_packet(Ver::V5, &OutPub { topic: "still/here".into(), payload: vec![7], ..Default::default() }));
        settle().await;
        let evs = by.read()?.1;
        ensure!(
            matches!(&evs[..], [Ev::Publish(p)] if p.topic == "still/here"),
            "bystander",
            "another client received {evs:?}"
        );
        Ok(())
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res?;
    Ok(out)
}

fn wrong() -> BoxedStrategy<Wrong> {
    let sub = prop::sample::select(vec!["mqttv3.1", "MQTT", "mqt", "foo", "mqtt5", "chat"]).prop_map(|s| s.to_string());
    prop_oneof![
        Just(Wrong::Header),
        any::<u8>().prop_map(Wrong::Signature),
        prop::sample::select(vec![0u8, 1, 3, 15]).prop_map(Wrong::Version),
        Just(Wrong::Local),
        Just(Wrong::Unix),
        Just(Wrong::NotVerified),
        Just(Wrong::Tls),
        Just(Wrong::Upgrade),
        sub.prop_map(Wrong::Subprotocol),
        Just(Wrong::HttpVersion),
        Just(Wrong::NoUpgradeField),
        Just(Wrong::NoKey),
        Just(Wrong::WsVersion),
        Just(Wrong::Text),
        Just(Wrong::Pong),
        Just(Wrong::Unmasked),
        Just(Wrong::Reserved),
        any::<u8>().prop_map(Wrong::Packet),
        any::<u8>().prop_map(Wrong::Protocol),
    ]
    .boxed()
}

fn applies(w: &Wrong, v: &Via) -> bool {
    match w {
        Wrong::No | Wrong::Header | Wrong::Tls | Wrong::Upgrade | Wrong::Packet(_) | Wrong::Protocol(_) => true,
        Wrong::Signature(_) | Wrong::Version(_) | Wrong::Local | Wrong::Unix => v.proxy > 0,
        Wrong::NotVerified => v.proxy == 2,
        _ => v.ws,
    }
}

pub fn case() -> BoxedStrategy<Case> {
    let chunk = || prop_oneof![
        2 => Just(vec![]),
        1 => prop::collection::vec(prop::sample::select(vec![1usize, 2, 3, 5, 7, 16, 64, 1000, 0]), 1..5),
    ];
    let source = prop::sample::select(vec!["10.1.2.3:4", "255.255.255.255:65535", "1.2.3.4:80", "[2001:db8::7]:1883", "[::1]:1", "0.0.0.0:0"])
        .prop_map(|s| s.parse::<SocketAddr>().unwrap());
    let after = prop_oneof![
        4 => Just(After::Finish),
        2 => Just(After::Stall),
        1 => Just(After::Eof),
        1 => Just(After::Reset),
        2 => prop::collection::vec(any::<u8>(), 1..60).prop_map(After::Garbage),
    ];
    let keep = prop_oneof![2 => 0u16..30, 2 => 0u16..300, 1 => Just(60000u16)];
    (
        transport::via(),
        prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 2 => Just(Ver::V5)],
        source,
        (0u8..12, keep, prop::sample::select(vec![0u16, 1, 1000, 3000, 4900, 5050, 9000]), after),
        prop_oneof![1 => Just(Wrong::No), 1 => wrong()],
        chunk(),
        chunk(),
    )
        .prop_map(|(via, ver, source, (stage, keep, wait, after), wrong, read, write)| {
            let wrong = if applies(&wrong, &via) { wrong } else { Wrong::No };
            Case { via, ver, source, stage, keep, wait, after, wrong, read, write }
        })
        .boxed()
}
