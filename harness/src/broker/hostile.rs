//! Connections that break the protocol next to others that keep it: the former are ended as the
//! protocol says, the latter notice nothing.
use std::collections::BTreeSet;
use std::sync::Arc;
use std::time::Duration;

use akasa_core::GlobalState;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::client::*;
use super::pipe::ClientEnd;
use super::transport::{self, Via};
use super::world::{IdleHook, Task, base_config, paused_rt, set_hooks, settle};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome, fail};

/// What a well-behaved client may send.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Good {
    Pub { qos: u8, len: u8 },
    Sub { wild: bool, qos: u8 },
    Unsub,
    Ping,
    Rel,
    Ack(u8),
}

/// Violations with a prescribed outcome.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Bad {
    Connect,
    Server(u8),
    Auth(u8),
    Frame(u8),
    Dollar { qos: u8 },
    Dup0,
    NoTopic { qos: u8 },
    PubSubId,
    DiscExpiry,
    SharedNoLocal(u8),
    SubIdZero,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    Eof,
    Reset,
    Normal,
    Nothing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    Flip(u16, u8),
    Set(u16, u8),
    Insert(u16, u8),
    Remove(u16),
    Copy(u16, u16, u8),
    Cut(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Attack {
    Violation { before: Vec<Good>, bad: Bad, after: Vec<Good> },
    /// a CONNECT that no client may send
    BadConnect(u8),
    /// acknowledgements nobody waits for and the like: odd, but no reason to close
    Odd(Vec<(u8, u16)>),
    Bytes { connected: bool, data: Vec<u8> },
    Mutated { connected: bool, packets: Vec<Good>, changes: Vec<Change>, again: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hostile {
    ver: Ver,
    id: u8,
    will: Option<(u8, bool)>,
    keep: bool,
    attack: Attack,
    end: End,
    read: Vec<usize>,
    /// Maximum Packet Size
    #[serde(default)]
    size: Option<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Hostile(Hostile),
    Talk { from: u8, qos: u8, len: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    vers: [Ver; 2],
    hooks: bool,
    steps: Vec<Step>,
}

const TALK: [&str; 2] = ["bystander/the first one listens here", "bystander/the second one listens here"];

fn client_id(ver: Ver, k: u8) -> String {
    format!("{}-{k}", if ver.is5() { "five" } else { "three" })
}

fn raw(first: u8, body: &[u8]) -> Vec<u8> {
    assert!(body.len() < 128);
    let mut v = vec![first, body.len() as u8];
    v.extend_from_slice(body);
    v
}

struct Made {
    data: Vec<u8>,
    /// what the watcher is to see of it
    seen: Vec<(u8, Vec<u8>)>,
}

impl Hostile {
    fn topic(&self) -> String {
        format!("h/{}", self.id)
    }

    fn good(&self, g: &Good, pid: &mut u16, tag: &mut u32) -> Made {
        *pid = *pid % 60000 + 1;
        *tag += 1;
        let mut seen = vec![];
        let data = match g {
            Good::Pub { qos, len } => {
                let mut payload = tag.to_be_bytes().to_vec();
                payload.resize(4 + *len as usize, b'.');
                seen.push((*qos, payload.clone()));
                publish_packet(self.ver, &OutPub { qos: *qos, pid: *pid, topic: self.topic(), payload, ..Default::default() })
            }
            Good::Sub { wild, qos } => {
                let filter = if *wild { "own/#".into() } else { format!("own/{}", self.id) };
                subscribe_packet(self.ver, *pid, &[SubReq { filter, qos: *qos, ..Default::default() }], None)
            }
            Good::Unsub => unsubscribe_packet(self.ver, *pid, &[format!("own/{}", self.id)]),
            Good::Ping => ping_packet(self.ver),
            Good::Rel => ack_packet(self.ver, Ack::Pubrel, *pid),
            Good::Ack(k) => ack_packet(self.ver, [Ack::Puback, Ack::Pubrec, Ack::Pubcomp][*k as usize % 3], *pid),
        };
        Made { data, seen }
    }

    /// The packet, and for v5 the reason codes it may be answered with (none: just closed).
    fn bad(&self, bad: Bad) -> Option<(Vec<u8>, &'static [u8])> {
        let v5 = self.ver.is5();
        let mal: &[u8] = &[0x81, 0x82];
        let publish = |flags: u8, topic: &[u8], pid: &[u8], props: &[u8], payload: &[u8]| {
            let mut b = (topic.len() as u16).to_be_bytes().to_vec();
            b.extend_from_slice(topic);
            b.extend_from_slice(pid);
            if v5 {
                b.push(props.len() as u8);
                b.extend_from_slice(props);
            }
            b.extend_from_slice(payload);
            raw(0x30 | flags, &b)
        };
        let request = |first: u8, props: &[u8], rest: &[u8]| {
            let mut b = vec![0, 7];
            if v5 {
                b.push(props.len() as u8);
                b.extend_from_slice(props);
            }
            b.extend_from_slice(rest);
            raw(first, &b)
        };
        let prop = |p: &[u8]| if v5 { p.to_vec() } else { vec![] };
        Some(match bad {
            Bad::Connect => {
                let o = ConnOpts { clean: true, ..Default::default() };
                (connect_packet(self.ver, &client_id(self.ver, self.id), &o), &[0x82])
            }
            Bad::Server(k) => match k % 3 {
                0 if v5 => (raw(0x20, &[0, 0, 0]), &[0x82]),
                0 => (raw(0x20, &[0, 0]), &[]),
                1 => (request(0x90, &[], &[0]), &[0x82]),
                _ => (raw(0xd0, &[]), &[0x82]),
            },
            Bad::Auth(k) if v5 => match k % 3 {
                0 => (raw(0xf0, &[]), &[0x82]),
                1 => (raw(0xf0, &[0x19, 4, 0x15, 0, 1, b'x']), &[0x82, 0x8c]),
                _ => (raw(0xf0, &[0x18, 4, 0x15, 0, 1, b'x']), &[0x82, 0x8c]),
            },
            Bad::Auth(_) => (raw(0xf0, &[]), &[]),
            Bad::Frame(k) => (
                match k % 24 {
                    0 => raw(0x00, &[]),
                    1 if v5 => raw(0xf1, &[]),
                    1 => raw(0xf0, &[0, 0]),
                    2 => publish(0x06, b"h/x", &[0, 1], &[], b"m"),
                    3 => vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x01, 0, 0, 0],
                    4 => request(0x80, &[], &[0, 1, b'a', 0]),
                    5 => raw(0x60, &[0, 1]),
                    6 => request(0xa0, &[], &[0, 1, b'a']),
                    7 => raw(0x30, &[0, 200, b'h', b'/', b'x']),
                    8 => publish(0x02, b"h/x", &[0, 0], &[], b"m"),
                    9 => publish(0x00, b"h/#", &[], &[], b"m"),
                    10 => publish(0x02, b"h/+", &[0, 1], &[], b"m"),
                    11 => publish(0x00, &[b'h', b'/', 0xc3, 0x28], &[], &[], b"m"),
                    12 => publish(0x00, &[b'h', b'/', 0], &[], &[], b"m"),
                    13 => request(0x82, &[], &[]),
                    14 => request(0x82, &[], &[0, 1, b'a', 3]),
                    15 => request(0x82, &[], &[0, 1, b'a', 0xc0]),
                    16 => request(0x82, &[], &[0, 2, b'a', b'#', 0]),
                    17 => request(0xa2, &[], &[]),
                    18 => raw(0x40, &[0]),
                    19 if v5 => raw(0xe0, &[0x7f]),
                    19 => raw(0xe0, &[0]),
                    20 => publish(0x00, b"h/x", &[], &prop(&[0x7f, 0]), if v5 { b"m" } else { return None }),
                    21 => publish(0x00, b"h/x", &[], &prop(&[1, 0, 1, 0]), if v5 { b"m" } else { return None }),
                    22 => raw(0xc0, &[0]),
                    _ => request(0x82, &[], &[0, 1, b'a']),
                },
                mal,
            ),
            Bad::Dollar { qos } => {
                let m = OutPub { qos: qos % 3, pid: 9, topic: "$h/x".into(), ..Default::default() };
                (publish_packet(self.ver, &m), &[0x90])
            }
            Bad::Dup0 => (publish(0x08, b"h/x", &[], &[], b"m"), mal),
            Bad::NoTopic { qos } => {
                let m = OutPub { qos: qos % 3, pid: 9, short: true, ..Default::default() };
                (if v5 { publish_packet(self.ver, &m) } else { publish(0, b"", &[], &[], b"m") }, &[0x82, 0x90])
            }
            Bad::PubSubId if v5 => (publish(0x00, b"h/x", &[], &[0x0b, 3], b"m"), &[0x82]),
            // only if the session ends with the connection
            Bad::DiscExpiry if v5 && !self.keep => (raw(0xe0, &[0, 5, 0x11, 0, 0, 0, 9]), &[0x82]),
            Bad::SharedNoLocal(k) if v5 => {
                let mut r = vec![SubReq { filter: "$share/g/a".into(), no_local: true, ..Default::default() }];
                if k & 1 == 1 {
                    r.insert(0, SubReq { filter: "h/x".into(), no_local: k & 4 == 4, ..Default::default() });
                }
                if k & 2 == 2 {
                    r.push(SubReq { filter: "$share/g/h/x".into(), ..Default::default() });
                }
                (subscribe_packet(self.ver, 7, &r, None), &[0x82])
            }
            Bad::SubIdZero if v5 => (request(0x82, &[0x0b, 0], &[0, 1, b'a', 0]), mal),
            _ => return None,
        })
    }
}

fn bad_connect(ver: Ver, id: &str, will: Option<&Will>, k: u8) -> Vec<u8> {
    let v5 = ver.is5();
    let text = |s: &[u8]| {
        let mut v = (s.len() as u16).to_be_bytes().to_vec();
        v.extend_from_slice(s);
        v
    };
    let mut name: &[u8] = if ver == Ver::V310 { b"MQIsdp" } else { b"MQTT" };
    let mut level = match ver {
        Ver::V310 => 3u8,
        Ver::V311 => 4,
        Ver::V5 => 5,
    };
    let mut first = 0x10;
    // (clean or not)
    let mut flags = if k / 14 % 2 == 0 { 2u8 } else { 0 };
    let mut props: Vec<u8> = vec![];
    let mut id = id.as_bytes().to_vec();
    let mut will_topic = will.map_or(b"will/9".to_vec(), |w| w.topic.clone().into_bytes());
    let mut with_will = will.is_some();
    let mut qos = will.map_or(0, |w| w.qos);
    let mut cut = 0;
    match k % 14 {
        0 => flags |= 1,
        1 => (with_will, qos) = (true, 3),
        2 => {
            with_will = false;
            flags |= 0x20;
        }
        3 => level = 6,
        4 => name = b"MQTX",
        5 => cut = 3,
        6 => first = 0x14,
        7 if v5 => props.extend([0x21, 0, 0]),
        7 => first = 0x12,
        8 => id = vec![b'h', 0xc3, 0x28],
        9 if v5 => props.extend([0x11, 0, 0, 0, 1, 0x11, 0, 0, 0, 1]),
        9 => cut = 1,
        10 => (with_will, will_topic) = (true, b"will/+".to_vec()),
        11 => first = 0x11,
        12 => (with_will, will_topic) = (true, b"$will/9".to_vec()),
        _ if v5 => props.extend([0x27, 0, 0, 0, 0]),
        _ => {
            id = vec![];
            flags &= !2;
        }
    }
    if with_will {
        flags |= 4 | (qos << 3);
    }
    let mut b = text(name);
    b.push(level);
    b.push(flags);
    b.extend([0, 60]);
    if v5 {
        b.push(props.len() as u8);
        b.extend(props);
    }
    b.extend(text(&id));
    if with_will {
        if v5 {
            b.push(0);
        }
        b.extend(text(&will_topic));
        b.extend(text(will.map_or(&[], |w| &w.payload)));
    }
    b.truncate(b.len() - cut);
    raw(first, &b)
}

fn change(data: &mut Vec<u8>, c: &Change) {
    if data.is_empty() {
        return;
    }
    let n = data.len();
    match c {
        Change::Flip(i, b) => data[*i as usize % n] ^= 1 << (b % 8),
        Change::Set(i, b) => data[*i as usize % n] = *b,
        Change::Insert(i, b) => data.insert(*i as usize % n, *b),
        Change::Remove(i) => {
            data.remove(*i as usize % n);
        }
        Change::Copy(i, j, k) => {
            let i = *i as usize % n;
            let part = data[i..(i + *k as usize).min(n)].to_vec();
            let j = *j as usize % n;
            data.splice(j..j, part);
        }
        Change::Cut(i) => data.truncate(*i as usize % n),
    }
}

/// Everything the broker sent is packets of one protocol version (the last may be incomplete).
fn wellformed(mut data: &[u8]) -> Result<(), Failure> {
    let all = data;
    while data.len() >= 2 {
        let mut len = 0usize;
        let mut used = 0;
        for (i, b) in data[1..].iter().take(4).enumerate() {
            len |= ((b & 0x7f) as usize) << (7 * i);
            used = i + 1;
            if b & 0x80 == 0 {
                break;
            }
        }
        let total = 1 + used + len;
        if data.len() < total {
            return Ok(());
        }
        let p = &data[..total];
        let ok5 = matches!(mqtt_proto::v5::Packet::decode(p), Ok(Some(_)));
        let ok3 = matches!(mqtt_proto::v3::Packet::decode(p), Ok(Some(_)));
        ensure!(ok5 || ok3, "malformed", "the broker sent {p:02x?} within {all:02x?}");
        data = &data[total..];
    }
    Ok(())
}

struct H {
    global: Arc<GlobalState>,
    hook: IdleHook,
    by: Vec<Client>,
    peers: u16,
    tag: u32,
    tasks: Vec<Task>,
    out: Outcome,
    violations: u64,
    pid: u16,
    /// there was a connection whose effects are not known
    mutated: bool,
    /// what carries these tags is fully determined
    exact: BTreeSet<u32>,
}

impl H {
    fn open(&mut self, read: Vec<usize>) -> ClientEnd {
        self.peers += 1;
        let (end, task) = transport::open(&self.global, self.hook.clone(), &Via::default(), read, vec![], self.peers);
        self.tasks.push(task);
        end
    }

    async fn talk(&mut self, from: usize, qos: u8, len: u16) -> Result<(), Failure> {
        self.tag += 1;
        let mut payload = self.tag.to_be_bytes().to_vec();
        payload.resize(4 + len as usize, b'-');
        let to = 1 - from;
        let m = OutPub { qos, pid: 1, topic: TALK[to].into(), payload: payload.clone(), ..Default::default() };
        self.by[from].send(&publish_packet(self.by[from].ver, &m));
        let mut got = 0;
        for _ in 0..4 {
            settle().await;
            for k in 0..2 {
                let by = &mut self.by[k];
                for e in by.read()?.1 {
                    match e {
                        Ev::Publish(p) if k == to && p.payload == payload && p.topic == TALK[to] => {
                            ensure!(p.qos == qos && !p.dup && !p.retain, "talk", "{p:?} of a message of QoS {qos}");
                            got += 1;
                            answer(by, &p);
                        }
                        Ev::Puback(1, 0) if k == from && qos == 1 => {}
                        Ev::Pubrec(1, 0) if k == from && qos == 2 => by.send(&ack_packet(by.ver, Ack::Pubrel, 1)),
                        Ev::Pubcomp(1, 0) if k == from && qos == 2 => {}
                        Ev::Pubrel(p, 0) if k == to && qos == 2 => {
                            by.send(&ack_packet(by.ver, Ack::Pubcomp, p));
                            by.done(p);
                        }
                        e => return fail("bystander", format!("bystander {k} received {e:?}")),
                    }
                }
            }
        }
        for (k, by) in self.by.iter().enumerate() {
            ensure!(!by.end.closed(), "bystander-closed", "the connection of bystander {k} was closed");
        }
        ensure!(got == 1, "talk-lost", "a message between bystanders arrived {got} times");
        Ok(())
    }

    /// What the watcher (bystander 0) received on the topics of hostile clients.
    async fn watched(&mut self) -> Result<Vec<(String, u8, Vec<u8>)>, Failure> {
        let mut all = vec![];
        for _ in 0..4 {
            settle().await;
            let w = &mut self.by[0];
            for e in w.read()?.1 {
                match e {
                    Ev::Publish(p) if !TALK.contains(&&p.topic[..]) => {
                        answer(w, &p);
                        all.push((p.topic, p.qos, p.payload));
                    }
                    Ev::Pubrel(p, 0) => {
                        w.send(&ack_packet(w.ver, Ack::Pubcomp, p));
                        w.done(p);
                    }
                    e => return fail("watcher", format!("the watcher received {e:?}")),
                }
            }
        }
        all.retain(|(_, _, p)| p.len() >= 4 && self.exact.contains(&u32::from_be_bytes(p[..4].try_into().unwrap())));
        Ok(all)
    }

    async fn over(&mut self, online: usize) -> Result<(), Failure> {
        settle().await;
        for t in std::mem::take(&mut self.tasks) {
            if t.is_finished() {
                if let Err(e) = t.await {
                    return fail("panic", format!("a connection task panicked: {e}"));
                }
            } else {
                self.tasks.push(t);
            }
        }
        ensure!(
            self.tasks.len() == online && self.global.online_clients_count() as usize == online,
            "online",
            "{online} connections are open, {} tasks run, online_clients_count() = {}",
            self.tasks.len(),
            self.global.online_clients_count()
        );
        Ok(())
    }

    async fn hostile(&mut self, h: &Hostile) -> Result<(), Failure> {
        let v5 = h.ver.is5();
        let id = client_id(h.ver, h.id);
        let first_tag = self.tag;
        self.tag += 1;
        let will = h.will.map(|(qos, retain)| Will {
            topic: format!("will/{}", h.id),
            payload: self.tag.to_be_bytes().to_vec(),
            qos,
            retain,
            ..Default::default()
        });
        let exact = matches!(h.attack, Attack::Violation { .. } | Attack::Odd(_) | Attack::BadConnect(_));
        let clean = !h.keep || (exact && self.mutated);
        self.mutated |= !exact;
        // (v3 sessions are kept or discarded as a whole)
        let keep = h.keep && (h.ver.is5() || !clean);
        let o = ConnOpts { clean, expiry: keep.then_some(1000), will: will.clone(), max_packet: h.size.filter(|_| h.ver.is5() && !matches!(h.attack, Attack::BadConnect(_))).map(|n| n as u32), ..Default::default() };
        let end = self.open(h.read.clone());
        let mut pid = self.pid;
        self.pid += 100;
        let connected = match &h.attack {
            Attack::Bytes { connected, .. } | Attack::Mutated { connected, .. } => *connected,
            Attack::BadConnect(_) => false,
            _ => true,
        };
        let mut me = Client::new(h.ver, end.clone(), &o, 1000);
        if connected {
            me.send(&connect_packet(h.ver, &id, &o));
            settle().await;
            if exact {
                let evs = me.read()?.1;
                ensure!(
                    matches!(&evs[..], [Ev::Connack { code: 0, .. }, ..]),
                    "connack",
                    "{id} is not let in (any more): {evs:?}"
                );
            } else {
                wellformed(&end.recv())?;
            }
        }
        let mut want: Vec<(String, u8, Vec<u8>)> = vec![];
        let mut dead = false;
        let mut connected_will = true;
        match &h.attack {
            Attack::Violation { before, bad, after } => {
                let Some((packet, codes)) = h.bad(*bad) else {
                    end.reset();
                    return self.over(2).await.and(self.watched().await.map(|_| ()));
                };
                self.violations += 1;
                self.out.tag(match bad {
                    Bad::Connect => "second-connect",
                    Bad::Server(_) => "server-packet",
                    Bad::Auth(_) => "auth",
                    Bad::Frame(_) => "malformed",
                    _ => "protocol-error",
                });
                let mut data = vec![];
                for g in before {
                    let m = h.good(g, &mut pid, &mut self.tag);
                    data.extend(m.data);
                    want.extend(m.seen.into_iter().map(|(q, p)| (h.topic(), q, p)));
                }
                data.extend(&packet);
                for g in after {
                    data.extend(h.good(g, &mut pid, &mut self.tag).data);
                }
                me.send(&data);
                settle().await;
                let mut evs = me.read()?.1;
                ensure!(end.closed(), "open", "{:?} {bad:?} ({packet:02x?}) leaves the connection open: {evs:?}", h.ver);
                let end_codes: Vec<u8> = evs.iter().filter_map(|e| if let Ev::Disconnect(c) = e { Some(*c) } else { None }).collect();
                if v5 {
                    let last = evs.pop();
                    // packets that are no client's to send end the connection at once
                    let silent = matches!(bad, Bad::Connect | Bad::Server(_) | Bad::Auth(_));
                    match last {
                        Some(Ev::Disconnect(c)) => {
                            ensure!(codes.contains(&c), "reason", "{bad:?} ({packet:02x?}): DISCONNECT {c:#x}, expected one of {codes:02x?}")
                        }
                        l => ensure!(silent, "no-reason", "{bad:?} ({packet:02x?}): closed after {l:?} without a DISCONNECT"),
                    }
                    ensure!(end_codes.len() <= 1, "disconnect-twice", "several DISCONNECTs: {end_codes:02x?}");
                }
                end.reset();
                dead = true;
            }
            Attack::Odd(list) => {
                for (k, id) in list {
                    let id = (*id).max(1);
                    let kind = [Ack::Puback, Ack::Pubrec, Ack::Pubrel, Ack::Pubcomp][*k as usize % 4];
                    me.send(&ack_packet(h.ver, kind, id));
                    settle().await;
                    let evs = me.read()?.1;
                    let bad = if v5 { 0x92 } else { 0 };
                    let ok = match kind {
                        Ack::Puback | Ack::Pubcomp => evs.is_empty(),
                        Ack::Pubrec => matches!(&evs[..], [Ev::Pubrel(p, c)] if *p == id && *c == bad),
                        Ack::Pubrel => matches!(&evs[..], [Ev::Pubcomp(p, c)] if *p == id && *c == bad),
                    };
                    ensure!(ok && !end.closed(), "odd-ack", "{kind:?} {id} that nobody waits for was answered with {evs:?}, closed: {}", end.closed());
                    self.out.tag("unexpected-ack");
                }
            }
            Attack::BadConnect(k) => {
                let data = bad_connect(h.ver, &id, will.as_ref(), *k);
                end.send(&data);
                tokio::time::sleep(Duration::from_secs(6)).await;
                let evs = me.read()?.1;
                ensure!(end.closed(), "open", "the connection is open after the bad CONNECT {data:02x?}: {evs:?}");
                ensure!(
                    matches!(&evs[..], [] | [Ev::Connack { present: false, code: 1.., .. }] | [Ev::Disconnect(0x80..)]),
                    "bad-connect",
                    "the bad CONNECT {data:02x?} was answered with {evs:?}"
                );
                end.reset();
                dead = true;
                connected_will = false;
                self.out.tag("bad-connect");
            }
            Attack::Bytes { data, .. } => {
                end.send(data);
                settle().await;
                wellformed(&end.recv())?;
                self.out.tag("random-bytes");
            }
            Attack::Mutated { packets, changes, again, .. } => {
                let mut data = vec![];
                if !connected {
                    data.extend(connect_packet(h.ver, &id, &o));
                }
                let rest: Vec<u8> = packets.iter().flat_map(|g| h.good(g, &mut pid, &mut self.tag).data).collect();
                data.extend(&rest);
                for c in changes {
                    change(&mut data, c);
                }
                if *again {
                    data.extend(&rest);
                }
                end.send(&data);
                settle().await;
                wellformed(&end.recv())?;
                self.out.tag("mutated-stream");
            }
        }
        let mut normal = false;
        if !dead {
            match h.end {
                End::Eof => end.eof(),
                End::Reset => end.reset(),
                End::Normal => {
                    end.send(&disconnect_packet(h.ver, 0, None));
                    settle().await;
                    normal = true;
                    end.reset();
                }
                // hangs around until the end of the connect timeout, then leaves
                End::Nothing => {
                    if !connected {
                        tokio::time::sleep(Duration::from_secs(6)).await;
                        wellformed(&end.recv())?;
                    }
                    end.reset();
                }
            }
        }
        // (draining what is left for a client may take up to a second)
        tokio::time::sleep(Duration::from_secs(2)).await;
        if exact {
            self.exact.extend(first_tag + 1..=self.tag);
        }
        let seen = self.watched().await?;
        if exact {
            if let (Some(w), false, true) = (&will, normal, connected_will) {
                want.push((w.topic.clone(), w.qos, w.payload.clone()));
            }
            ensure!(seen == want, "effect", "{:?} {:?}: expected {want:?}, the watcher received {seen:?}", h.ver, h.attack);
        }
        self.over(2).await
    }
}

fn answer(by: &mut Client, p: &InPub) {
    if p.qos == 1 {
        by.send(&ack_packet(by.ver, Ack::Puback, p.pid));
        by.done(p.pid);
    } else if p.qos == 2 {
        by.send(&ack_packet(by.ver, Ack::Pubrec, p.pid));
    }
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut config = base_config();
    set_hooks(&mut config, case.hooks);
    let res = rt.block_on(async {
        let global = Arc::new(GlobalState::new(config));
        let mut h = H {
            global,
            hook: IdleHook { wait: case.hooks },
            by: vec![],
            peers: 0,
            tag: 0,
            tasks: vec![],
            out: Outcome::default(),
            violations: 0,
            pid: 100,
            mutated: false,
            exact: BTreeSet::new(),
        };
        for (k, ver) in case.vers.iter().enumerate() {
            let end = h.open(vec![]);
            let mut by = Client::new(*ver, end, &ConnOpts::default(), 1000);
            let o = ConnOpts { clean: true, ..Default::default() };
            by.send(&connect_packet(*ver, &format!("bystander number {k} keeps to the rules"), &o));
            let mut subs = vec![SubReq { filter: TALK[k].into(), qos: 2, ..Default::default() }];
            if k == 0 {
                subs.push(SubReq { filter: "h/#".into(), qos: 2, rh: 2, ..Default::default() });
                subs.push(SubReq { filter: "will/#".into(), qos: 2, rh: 2, ..Default::default() });
            }
            by.send(&subscribe_packet(*ver, 1, &subs, None));
            settle().await;
            let evs = by.read()?.1;
            ensure!(matches!(&evs[..], [Ev::Connack { .. }, Ev::Suback(..)]), "setup", "bystander {k}: {evs:?}");
            h.by.push(by);
        }
        for s in &case.steps {
            match s {
                Step::Hostile(x) => h.hostile(x).await?,
                Step::Talk { from, qos, len } => h.talk(*from as usize % 2, *qos, *len).await?,
            }
        }
        for from in 0..2 {
            h.talk(from, 1, 0).await?;
        }
        // the identifiers are as usable as before
        let wild = case.steps.iter().any(|s| matches!(s, Step::Hostile(h) if matches!(h.attack, Attack::Mutated { connected: false, .. })));
        for id in 0..3 {
            for ver in [Ver::V311, Ver::V5] {
                let name = client_id(ver, id);
                let end = h.open(vec![]);
                let o = ConnOpts { clean: true, ..Default::default() };
                let mut me = Client::new(ver, end, &o, 1000);
                me.send(&connect_packet(ver, &name, &o));
                me.send(&ping_packet(ver));
                settle().await;
                let evs = me.read()?.1;
                // a mutated CONNECT may have left a session of another protocol version
                let other = wild && evs.is_empty() && me.end.closed();
                ensure!(
                    other || matches!(&evs[..], [Ev::Connack { present: false, code: 0, .. }, Ev::Pingresp]),
                    "locked-out",
                    "{name} is not served any more: {evs:?}"
                );
                if !other {
                    me.send(&disconnect_packet(ver, 0, None));
                    settle().await;
                }
                me.end.reset();
                settle().await;
            }
        }
        if !wild {
            let n = h.global.clients_count();
            ensure!(n == 2, "clients-count", "two sessions exist, clients_count() = {n}");
        }
        h.over(2).await?;
        let left = h.watched().await?;
        ensure!(left.is_empty(), "late", "the watcher received {left:?}");
        h.out.nontrivial = case.steps.iter().any(|s| matches!(s, Step::Hostile(_)));
        h.out.tag_if(h.violations > 1, "several-violations");
        Ok(h.out)
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res
}

pub fn case() -> BoxedStrategy<Case> {
    let ver = || prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 4 => Just(Ver::V5)];
    let good = || {
        prop_oneof![
            6 => (0u8..3, 0u8..30).prop_map(|(qos, len)| Good::Pub { qos, len }),
            2 => (any::<bool>(), 0u8..3).prop_map(|(wild, qos)| Good::Sub { wild, qos }),
            1 => Just(Good::Unsub),
            1 => Just(Good::Ping),
            1 => Just(Good::Rel),
            1 => any::<u8>().prop_map(Good::Ack),
        ]
    };
    let bad = prop_oneof![
        2 => Just(Bad::Connect),
        2 => any::<u8>().prop_map(|k| Bad::Server(k % 3)),
        1 => any::<u8>().prop_map(|k| Bad::Auth(k % 3)),
        10 => any::<u8>().prop_map(|k| Bad::Frame(k % 24)),
        2 => (0u8..3).prop_map(|qos| Bad::Dollar { qos }),
        1 => Just(Bad::Dup0),
        2 => (0u8..3).prop_map(|qos| Bad::NoTopic { qos }),
        1 => Just(Bad::PubSubId),
        1 => Just(Bad::DiscExpiry),
        2 => (0u8..8).prop_map(Bad::SharedNoLocal),
        1 => Just(Bad::SubIdZero),
    ];
    let change = prop_oneof![
        3 => (any::<u16>(), any::<u8>()).prop_map(|(i, b)| Change::Flip(i, b % 8)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(i, b)| Change::Set(i, b)),
        2 => (any::<u16>(), any::<u8>()).prop_map(|(i, b)| Change::Insert(i, b)),
        2 => any::<u16>().prop_map(Change::Remove),
        1 => (any::<u16>(), any::<u16>(), 1u8..40).prop_map(|(i, j, k)| Change::Copy(i, j, k)),
        1 => any::<u16>().prop_map(Change::Cut),
    ];
    let attack = prop_oneof![
        8 => (prop::collection::vec(good(), 0..4), bad, prop::collection::vec(good(), 0..3))
            .prop_map(|(before, bad, after)| Attack::Violation { before, bad, after }),
        2 => any::<u8>().prop_map(|k| Attack::BadConnect(k % 28)),
        1 => prop::collection::vec((any::<u8>(), any::<u16>()), 1..5).prop_map(Attack::Odd),
        1 => (any::<bool>(), prop::collection::vec(any::<u8>(), 1..60)).prop_map(|(connected, data)| Attack::Bytes { connected, data }),
        4 => (any::<bool>(), prop::collection::vec(good(), 1..6), prop::collection::vec(change, 1..5), any::<bool>())
            .prop_map(|(connected, packets, changes, again)| Attack::Mutated { connected, packets, changes, again }),
    ];
    let end = prop_oneof![3 => Just(End::Eof), 3 => Just(End::Reset), 1 => Just(End::Normal), 1 => Just(End::Nothing)];
    let read = prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(0usize..9, 1..6)];
    let hostile = (ver(), 0u8..3, prop::option::weighted(0.6, (0u8..3, prop::bool::weighted(0.2))), prop::bool::weighted(0.3), attack, end, read, prop::option::weighted(0.5, 26u8..100))
        .prop_map(|(ver, id, will, keep, attack, end, read, size)| Hostile { ver, id, will, keep, attack, end, read, size });
    let step = prop_oneof![
        4 => hostile.prop_map(Step::Hostile),
        2 => (any::<u8>(), 0u8..3, prop_oneof![0u16..20, Just(3000u16)]).prop_map(|(from, qos, len)| Step::Talk { from: from % 2, qos, len }),
    ];
    ([ver(), ver()], prop::bool::weighted(0.3), prop::collection::vec(step, 1..7))
        .prop_map(|(vers, hooks, steps)| Case { vers, hooks, steps })
        .boxed()
}
