//! What the broker announces to a client in CONNACK, and that exactly this is enforced: the
//! limits (packet size, QoS 2 in flight, topic aliases) and the optional features.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

use akasa_core::GlobalState;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::client::*;
use super::transport::{self, Via};
use super::world::{IdleHook, base_config, paused_rt, settle};
use crate::ensure;
use crate::pure::gen_topic::matches;
use crate::runner::{CaseResult, Failure, Outcome, fail};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    max_qos: u8,
    retain: bool,
    wildcard: bool,
    shared: bool,
    sub_id: bool,
    alias_max: u16,
    /// QoS 2 publications in flight from a client
    window: u16,
    size: u32,
    expiry: u32,
    keep_alive: (u16, u16),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Size {
    Small(u8),
    /// this far from the maximum
    Near(i8),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum AliasSel {
    No,
    Small(u8),
    /// this far from the maximum
    Near(i8),
    Zero,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SubSel {
    topic: u8,
    kind: u8,
    qos: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Connect { expiry: Option<u32>, keep_alive: u16, empty_id: bool },
    Pub { qos: u8, retain: bool, topic: u8, alias: AliasSel, short: bool, size: Size },
    /// complete the k-th QoS 2 publication in flight, or one that is not
    Rel(Option<u8>),
    Sub { subs: Vec<SubSel>, id: Option<u32>, pad: Option<i8> },
    Unsub(Vec<SubSel>),
    Deliver(u8),
    Ping,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ver: Ver,
    cfg: Cfg,
    ops: Vec<Op>,
}

const TOPICS: [&str; 3] = ["a", "a/b", "c"];

/// (filter to subscribe to, filter the topic must match)
fn sub_filter(s: &SubSel) -> (String, String) {
    let t = TOPICS[s.topic as usize % 3];
    let f = match s.kind % 5 {
        0 | 3 => t.to_string(),
        1 => "+".to_string(),
        2 => format!("{t}/#"),
        _ => "#".to_string(),
    };
    if s.kind % 5 == 3 { (format!("$share/g/{f}"), f) } else { (f.clone(), f) }
}

/// Encoded length of a packet of `base` bytes with `n` more in it.
fn grown(base: usize, n: usize) -> usize {
    let header = if base < 130 { 2 } else if base < 16387 { 3 } else { 4 };
    let rest = base - header + n;
    let digits = if rest < 128 { 1 } else if rest < 16384 { 2 } else { 3 };
    1 + digits + rest
}

struct L<'a> {
    case: &'a Case,
    global: Arc<GlobalState>,
    me: Option<Client>,
    id: String,
    watcher: Client,
    peers: u16,
    next: u16,
    pub_pid: u16,
    inflight: Vec<u16>,
    aliases: BTreeMap<u16, String>,
    subs: BTreeMap<String, (String, u8)>,
    assigned: BTreeSet<String>,
    /// the session of `id` outlives its connection
    kept: bool,
    out: Outcome,
    refused: u64,
    at_limit: u64,
}

impl L<'_> {
    fn v5(&self) -> bool {
        self.case.ver.is5()
    }

    async fn connect(&mut self, expiry: Option<u32>, keep_alive: u16, empty_id: bool) -> Result<(), Failure> {
        let c = self.case;
        if let Some(old) = self.me.take() {
            old.end.reset();
            settle().await;
        }
        self.peers += 1;
        let (end, _) = transport::open(&self.global, IdleHook { wait: false }, &Via::default(), vec![], vec![], self.peers);
        let resume = self.kept && !empty_id;
        let o = ConnOpts { clean: !resume, keep_alive, expiry, ..Default::default() };
        let mut me = Client::new(c.ver, end, &o, 100);
        let id = if empty_id && c.ver != Ver::V310 { String::new() } else { self.id.clone() };
        me.send(&connect_packet(c.ver, &id, &o));
        settle().await;
        let (_, evs) = me.read()?;
        let [Ev::Connack { present, code: 0, props }, ..] = &evs[..] else {
            return fail("connack", format!("instead of CONNACK: {evs:?}"));
        };
        ensure!(*present == resume, "session-present", "session present: {present}, expected {resume}");
        if !resume {
            self.subs.clear();
            self.inflight.clear();
        }
        ensure!(evs.len() == 1, "after-connack", "after CONNACK: {:?}", &evs[1..]);
        if let Some(p) = props {
            let cfg = &c.cfg;
            let want_expiry = expiry.unwrap_or(0).min(cfg.expiry);
            let want_alive = keep_alive.clamp(cfg.keep_alive.0, cfg.keep_alive.1);
            macro_rules! same {
                ($name:literal, $got:expr, $want:expr) => {
                    ensure!($got == $want, concat!("connack-", $name), "CONNACK says {} {:?}, the truth is {:?}", $name, $got, $want)
                };
            }
            same!("session-expiry", p.session_expiry_interval.unwrap_or(expiry.unwrap_or(0)), want_expiry);
            same!("receive-maximum", p.receive_max.unwrap_or(u16::MAX), cfg.window);
            same!("maximum-qos", p.max_qos.map_or(2, |q| q as u8), cfg.max_qos);
            same!("retain-available", p.retain_available.unwrap_or(true), cfg.retain);
            same!("maximum-packet-size", p.max_packet_size.unwrap_or(u32::MAX), cfg.size);
            same!("alias-maximum", p.topic_alias_max.unwrap_or(0), cfg.alias_max);
            same!("wildcards", p.wildcard_subscription_available.unwrap_or(true), cfg.wildcard);
            same!("subscription-ids", p.subscription_id_available.unwrap_or(true), cfg.sub_id);
            same!("shared", p.shared_subscription_available.unwrap_or(true), cfg.shared);
            same!("keep-alive", p.server_keep_alive.unwrap_or(keep_alive), want_alive);
            same!("assigned", p.assigned_client_id.is_some(), id.is_empty());
            ensure!(
                p.auth_method.is_none() && p.auth_data.is_none() && p.response_info.is_none() && p.server_reference.is_none(),
                "connack-extra",
                "CONNACK carries what does not belong there: {p:?}"
            );
            // what CONNACK says holds, also where the request differs
            self.out.tag_if(want_expiry != expiry.unwrap_or(0), "expiry-capped");
            self.out.tag_if(want_alive != keep_alive, "keep-alive-clamped");
            if let Some(a) = &p.assigned_client_id {
                ensure!(!a.is_empty() && self.assigned.insert(a.to_string()), "assigned-twice", "the identifier {a:?} was assigned before");
                self.id = a.to_string();
                self.out.tag("assigned-id");
            }
            self.kept = want_expiry > 0;
        } else {
            self.kept = false;
        }
        self.aliases.clear();
        self.me = Some(me);
        Ok(())
    }

    /// Send `data`; `codes` are the reasons to refuse it, if any.
    async fn exchange(&mut self, what: &str, data: Vec<u8>, codes: &[u8]) -> Result<Vec<Ev>, Failure> {
        let v5 = self.v5();
        let me = self.me.as_mut().unwrap();
        me.send(&data);
        settle().await;
        let (_, mut evs) = me.read()?;
        if codes.is_empty() {
            ensure!(!me.end.closed(), "closed", "{what} is within the limits, but the connection was closed: {evs:?}");
            return Ok(evs);
        }
        self.refused += 1;
        ensure!(me.end.closed(), "accepted", "{what} exceeds the limits ({codes:02x?}), but the connection is still open: {evs:?}");
        let last = evs.pop();
        if v5 {
            let Some(Ev::Disconnect(code)) = last else {
                return fail("no-reason", format!("{what}: closed after {last:?} instead of DISCONNECT {codes:02x?}"));
            };
            ensure!(codes.contains(&code), "reason", "{what}: DISCONNECT {code:#x}, expected one of {codes:02x?}");
            ensure!(evs.is_empty(), "answered", "{what}: refused, but also answered with {evs:?}");
        } else {
            ensure!(last.is_none(), "answered", "{what}: refused, but also answered with {last:?}");
        }
        self.me.take().unwrap().end.reset();
        settle().await;
        if !self.kept {
            self.subs.clear();
            self.inflight.clear();
        }
        Ok(vec![])
    }

    async fn watched(&mut self, want: &[(String, u8, Vec<u8>)]) -> Result<(), Failure> {
        let (_, evs) = self.watcher.read()?;
        let mut got = vec![];
        for e in evs {
            match e {
                Ev::Publish(p) => {
                    if p.qos == 1 {
                        self.watcher.send(&ack_packet(self.watcher.ver, Ack::Puback, p.pid));
                        self.watcher.done(p.pid);
                    } else if p.qos == 2 {
                        self.watcher.send(&ack_packet(self.watcher.ver, Ack::Pubrec, p.pid));
                        self.watcher.send(&ack_packet(self.watcher.ver, Ack::Pubcomp, p.pid));
                        self.watcher.done(p.pid);
                    }
                    got.push((p.topic, p.qos, p.payload));
                }
                Ev::Pubrel(..) | Ev::Puback(..) => {}
                e => return fail("watcher", format!("the watcher received {e:?}")),
            }
        }
        ensure!(got == want, "forwarded", "instead of {want:?} the watcher received {got:?}");
        Ok(())
    }

    async fn op(&mut self, op: &Op) -> Result<(), Failure> {
        let c = self.case;
        if self.me.is_none() && !matches!(op, Op::Connect { .. }) {
            self.connect(None, 60, false).await?;
        }
        match op {
            Op::Connect { expiry, keep_alive, empty_id } => {
                let empty = *empty_id && !self.kept;
                self.connect(*expiry, *keep_alive, empty).await?;
            }
            Op::Pub { qos, retain, topic: t, alias, short, size } => {
                let name = TOPICS[*t as usize % 3].to_string();
                let alias = match alias {
                    _ if !self.v5() => None,
                    AliasSel::No => None,
                    AliasSel::Small(a) => Some(1 + *a as u16 % 4),
                    AliasSel::Near(d) => Some((c.cfg.alias_max as i32 + *d as i32).clamp(1, 65535) as u16),
                    AliasSel::Zero => Some(0),
                };
                let short = *short && self.v5();
                let retain = &(*retain && self.v5());
                self.pub_pid = self.pub_pid % 60000 + 1;
                let mut m = OutPub { qos: *qos, pid: self.pub_pid, retain: *retain, topic: name.clone(), alias, short, ..Default::default() };
                self.next += 1;
                let tag = self.next.to_be_bytes();
                let base = publish_packet(c.ver, &m).len();
                let n = match size {
                    Size::Small(n) => 2 + *n as usize % 20,
                    Size::Near(d) => {
                        let want = (c.cfg.size as i64 + *d as i64) as usize;
                        (2..want.max(3)).find(|n| grown(base, *n) >= want).unwrap_or(2)
                    }
                };
                m.payload = vec![b'.'; n];
                m.payload[..2].copy_from_slice(&tag);
                let data = publish_packet(c.ver, &m);
                let mut codes = vec![];
                if data.len() > c.cfg.size as usize {
                    codes.push(0x95);
                }
                self.at_limit += (data.len() == c.cfg.size as usize || data.len() == c.cfg.size as usize + 1) as u64;
                let mut resolved = name;
                if self.v5() {
                    if *qos > c.cfg.max_qos {
                        codes.push(0x9b);
                    }
                    match alias {
                        Some(a) => {
                            if a == 0 || a > c.cfg.alias_max {
                                codes.push(0x94);
                            }
                            self.at_limit += (a == c.cfg.alias_max || a == c.cfg.alias_max.wrapping_add(1)) as u64;
                            if short {
                                match self.aliases.get(&a) {
                                    Some(t) => resolved = t.clone(),
                                    None => codes.push(0x82),
                                }
                            }
                        }
                        None if short => codes.push(0x82),
                        None => {}
                    }
                    if *qos == 2 && self.inflight.len() >= c.cfg.window as usize {
                        codes.push(0x93);
                    }
                    self.at_limit += (*qos == 2 && self.inflight.len() + 1 == c.cfg.window as usize) as u64;
                }
                let what = format!("PUBLISH of {} bytes {m:?} with {} in flight", data.len(), self.inflight.len());
                let evs = self.exchange(&what, data, &codes).await?;
                if !codes.is_empty() {
                    return self.watched(&[]).await;
                }
                if let (Some(a), false) = (alias, short) {
                    self.aliases.insert(a, resolved.clone());
                }
                if *qos == 2 {
                    self.inflight.push(self.pub_pid);
                }
                // an answer of the right kind; and its own copy, if it subscribed to that
                let answers: Vec<&Ev> = evs.iter().filter(|e| !matches!(e, Ev::Publish(_))).collect();
                let right = match (qos, &answers[..]) {
                    (0, []) => true,
                    (1, [Ev::Puback(p, 0)]) => *p == self.pub_pid,
                    (2, [Ev::Pubrec(p, 0)]) => *p == self.pub_pid,
                    _ => false,
                };
                ensure!(right, "answer", "{what} was answered with {answers:?}");
                let granted = self.granted(&resolved);
                self.delivered(evs, granted.map(|g| g.min(*qos)), &m.payload)?;
                let want = (resolved, (*qos).min(c.cfg.max_qos), m.payload);
                self.watched(&[want]).await?;
            }
            Op::Rel(k) => {
                let (id, known) = match k {
                    Some(k) if !self.inflight.is_empty() => (self.inflight.remove(*k as usize % self.inflight.len()), true),
                    _ => (65000, false),
                };
                let evs = self.exchange("PUBREL", ack_packet(c.ver, Ack::Pubrel, id), &[]).await?;
                let want = if known || !self.v5() { 0 } else { 0x92 };
                ensure!(
                    matches!(&evs[..], [Ev::Pubcomp(p, code)] if *p == id && *code == want),
                    "pubcomp",
                    "PUBREL {id} (known: {known}) was answered with {evs:?}"
                );
            }
            Op::Sub { subs, id, pad } => {
                let v5 = self.v5();
                let id = if v5 { *id } else { None };
                // without retained messages there are none to send, whatever was published
                let rh = if c.cfg.retain { 2 } else { 0 };
                let mut reqs: Vec<SubReq> = vec![];
                for s in subs {
                    let f = sub_filter(s).0;
                    if (v5 || s.kind % 5 != 3) && !reqs.iter().any(|r| r.filter == f) {
                        reqs.push(SubReq { filter: f, qos: s.qos, rh, ..Default::default() });
                    }
                }
                if let Some(d) = pad {
                    // a filter of the length that brings the packet close to the maximum
                    let with = |f: String| {
                        let mut all = reqs.clone();
                        all.push(SubReq { filter: f, qos: 0, rh, ..Default::default() });
                        all
                    };
                    let base = subscribe_packet(c.ver, 1, &with("z".into()), id).len();
                    let want = (c.cfg.size as i64 + *d as i64) as usize;
                    let n = (0..want).find(|n| grown(base, *n) >= want).unwrap_or(0);
                    reqs = with("z".repeat(1 + n));
                }
                if reqs.is_empty() {
                    return Ok(());
                }
                let data = subscribe_packet(c.ver, 5, &reqs, id);
                let mut codes = vec![];
                if data.len() > c.cfg.size as usize {
                    codes.push(0x95);
                }
                self.at_limit += (data.len() == c.cfg.size as usize || data.len() == c.cfg.size as usize + 1) as u64;
                if id == Some(0) {
                    codes.extend([0x82, 0x81]);
                }
                let what = format!("SUBSCRIBE of {} bytes {reqs:?} id {id:?}", data.len());
                let evs = self.exchange(&what, data, &codes).await?;
                if !codes.is_empty() {
                    return Ok(());
                }
                let [Ev::Suback(5, got)] = &evs[..] else {
                    return fail("suback", format!("{what} was answered with {evs:?}"));
                };
                ensure!(got.len() == reqs.len(), "suback", "{what} was answered with {got:02x?}");
                for (r, got) in reqs.iter().zip(got) {
                    let mut no = vec![];
                    if v5 {
                        if id.is_some() && !c.cfg.sub_id {
                            no.push(0xa1);
                        }
                        if r.filter.starts_with("$share/") && !c.cfg.shared {
                            no.push(0x9e);
                        }
                        if r.filter.contains(['+', '#']) && !c.cfg.wildcard {
                            no.push(0xa2);
                        }
                    }
                    if no.is_empty() {
                        let granted = r.qos.min(c.cfg.max_qos);
                        ensure!(*got == granted, "granted", "{r:?} was granted {got:#x}, expected {granted}");
                        let inner = r.filter.strip_prefix("$share/g/").unwrap_or(&r.filter).to_string();
                        self.subs.insert(r.filter.clone(), (inner, granted));
                    } else {
                        ensure!(no.contains(got), "granted", "{r:?} was answered with {got:#x}, expected one of {no:02x?}");
                        self.out.tag("refused-subscription");
                    }
                }
            }
            Op::Unsub(subs) => {
                let mut fs: Vec<String> = vec![];
                for s in subs {
                    let f = sub_filter(s).0;
                    if (self.v5() || s.kind % 5 != 3) && !fs.contains(&f) {
                        fs.push(f);
                    }
                }
                if fs.is_empty() {
                    return Ok(());
                }
                let data = unsubscribe_packet(c.ver, 6, &fs);
                if data.len() > c.cfg.size as usize {
                    return Ok(());
                }
                let want: Vec<u8> = fs.iter().map(|f| if self.subs.remove(f).is_some() { 0 } else { 0x11 }).collect();
                let evs = self.exchange("UNSUBSCRIBE", data, &[]).await?;
                let [Ev::Unsuback(6, got)] = &evs[..] else {
                    return fail("unsuback", format!("UNSUBSCRIBE {fs:?} was answered with {evs:?}"));
                };
                ensure!(!self.v5() || *got == want, "unsuback", "UNSUBSCRIBE {fs:?} was answered with {got:02x?}, expected {want:02x?}");
            }
            Op::Deliver(t) => {
                let name = TOPICS[*t as usize % 3];
                self.next += 1;
                let payload = self.next.to_be_bytes().to_vec();
                let m = OutPub { topic: name.into(), payload: payload.clone(), ..Default::default() };
                self.watcher.send(&publish_packet(self.watcher.ver, &m));
                settle().await;
                let (_, evs) = self.me.as_mut().unwrap().read()?;
                let g = self.granted(name).map(|_| 0);
                self.delivered(evs, g, &payload)?;
                self.watched(&[(name.to_string(), 0, payload)]).await?;
            }
            Op::Ping => {
                let evs = self.exchange("PINGREQ", ping_packet(c.ver), &[]).await?;
                ensure!(matches!(&evs[..], [Ev::Pingresp]), "pingresp", "PINGREQ was answered with {evs:?}");
            }
        }
        Ok(())
    }

    fn granted(&self, name: &str) -> Option<u8> {
        self.subs.values().filter(|(f, _)| matches(f, name)).map(|(_, q)| *q).max()
    }

    /// What came with `evs` is the message, once or per subscription, if it is subscribed to.
    fn delivered(&mut self, evs: Vec<Ev>, want: Option<u8>, payload: &[u8]) -> Result<(), Failure> {
        let mut best = None;
        let me = self.me.as_mut().unwrap();
        for e in evs {
            if let Ev::Publish(p) = e {
                ensure!(p.payload == payload && Some(p.qos) <= want, "delivered", "received {p:?}, expected QoS {want:?} of {payload:?}");
                best = best.max(Some(p.qos));
                if p.qos == 1 {
                    me.send(&ack_packet(me.ver, Ack::Puback, p.pid));
                    me.done(p.pid);
                } else if p.qos == 2 {
                    // the PUBREL comes with the next packets
                    me.send(&ack_packet(me.ver, Ack::Pubrec, p.pid));
                }
            }
        }
        ensure!(best == want, "delivered", "{payload:?} came with QoS {best:?}, expected {want:?}");
        Ok(())
    }

    /// Complete QoS 2 deliveries to the client.
    async fn finish(&mut self) -> Result<(), Failure> {
        if let Some(me) = &mut self.me {
            settle().await;
            let (_, evs) = me.read()?;
            for e in evs {
                match e {
                    Ev::Pubrel(p, 0) => {
                        me.send(&ack_packet(me.ver, Ack::Pubcomp, p));
                        me.done(p);
                    }
                    e => return fail("unexpected", format!("the client received {e:?}")),
                }
            }
            settle().await;
        }
        Ok(())
    }
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut config = base_config();
    let f = &case.cfg;
    config.max_allowed_qos = f.max_qos;
    config.retain_available = f.retain;
    config.wildcard_subscription_available = f.wildcard;
    config.shared_subscription_available = f.shared;
    config.subscription_id_available = f.sub_id;
    config.topic_alias_max = f.alias_max;
    config.max_inflight_server = f.window;
    config.max_packet_size_server = f.size;
    config.max_session_expiry_interval = f.expiry;
    config.min_keep_alive = f.keep_alive.0;
    config.max_keep_alive = f.keep_alive.1;
    let res = rt.block_on(async {
        let global = Arc::new(GlobalState::new(config));
        let (end, _) = transport::open(&global, IdleHook { wait: false }, &Via::default(), vec![], vec![], 1);
        let mut watcher = Client::new(Ver::V311, end, &ConnOpts::default(), 100);
        watcher.send(&connect_packet(Ver::V311, "watcher", &ConnOpts { clean: true, ..Default::default() }));
        watcher.send(&subscribe_packet(Ver::V311, 1, &[SubReq { filter: "#".into(), qos: 2, ..Default::default() }], None));
        settle().await;
        let (_, evs) = watcher.read()?;
        ensure!(evs.len() == 2, "setup", "the watcher received {evs:?}");
        let mut l = L {
            case,
            global,
            me: None,
            id: "me".into(),
            watcher,
            peers: 1,
            next: 0,
            pub_pid: 0,
            inflight: vec![],
            aliases: BTreeMap::new(),
            subs: BTreeMap::new(),
            assigned: BTreeSet::new(),
            kept: false,
            out: Outcome::default(),
            refused: 0,
            at_limit: 0,
        };
        for op in &case.ops {
            l.op(op).await?;
            l.finish().await?;
        }
        l.out.nontrivial = l.refused > 0 || l.at_limit > 0 || !l.out.tags.is_empty();
        l.out.tag_if(l.refused > 0, "refused");
        l.out.tag_if(l.at_limit > 0, "at-the-limit");
        Ok(l.out)
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res
}

/// `features`: more of the optional features, else more of the limits.
pub fn case(features: bool) -> BoxedStrategy<Case> {
    let yes = move || if features { prop::bool::weighted(0.6) } else { prop::bool::weighted(0.95) };
    let cfg = (
        if features { prop_oneof![1 => Just(0u8), 1 => Just(1), 2 => Just(2)].boxed() } else { Just(2u8).boxed() },
        (yes(), yes(), yes(), yes()),
        prop_oneof![1 => Just(0u16), 4 => 1u16..6, 1 => Just(u16::MAX)],
        prop_oneof![4 => 1u16..5, 1 => Just(u16::MAX)],
        prop_oneof![3 => 60u32..200, 1 => 16370u32..16400, 1 => Just(u32::MAX), 1 => 120u32..140],
        prop_oneof![2 => Just(u32::MAX), 1 => 0u32..200],
        prop_oneof![1 => Just((0u16, u16::MAX)), 2 => (0u16..60, 60u16..200)],
    )
        .prop_map(|(max_qos, (retain, wildcard, shared, sub_id), alias_max, window, size, expiry, keep_alive)| Cfg {
            max_qos,
            retain,
            wildcard,
            shared,
            sub_id,
            alias_max,
            window,
            size,
            expiry,
            keep_alive,
        });
    let size = prop_oneof![3 => any::<u8>().prop_map(Size::Small), 2 => (-3i8..4).prop_map(Size::Near)];
    let alias = prop_oneof![
        4 => Just(AliasSel::No),
        3 => any::<u8>().prop_map(AliasSel::Small),
        2 => (-2i8..3).prop_map(AliasSel::Near),
        1 => Just(AliasSel::Zero),
    ];
    let sub = || (any::<u8>(), any::<u8>(), 0u8..3).prop_map(|(topic, kind, qos)| SubSel { topic: topic % 3, kind: kind % 5, qos });
    let op = prop_oneof![
        2 => (prop::option::weighted(0.6, prop_oneof![0u32..300, Just(u32::MAX)]), prop_oneof![0u16..300, Just(u16::MAX)], any::<bool>())
            .prop_map(|(expiry, keep_alive, empty_id)| Op::Connect { expiry, keep_alive, empty_id }),
        10 => (0u8..3, prop::bool::weighted(0.2), 0u8..3, alias, any::<bool>(), size)
            .prop_map(|(qos, retain, topic, alias, short, size)| Op::Pub { qos, retain, topic, short: short && alias != AliasSel::No, alias, size }),
        3 => prop::option::weighted(0.85, any::<u8>()).prop_map(Op::Rel),
        5 => (
            prop::collection::vec(sub(), 1..4),
            prop::option::weighted(0.35, prop_oneof![1 => Just(0u32), 5 => 1u32..300, 1 => Just(268_435_455u32)]),
            prop::option::weighted(0.1, -3i8..4)
        )
            .prop_map(|(subs, id, pad)| Op::Sub { subs, id, pad }),
        1 => prop::collection::vec(sub(), 1..3).prop_map(Op::Unsub),
        3 => any::<u8>().prop_map(Op::Deliver),
        1 => Just(Op::Ping),
    ];
    let ver = prop_oneof![1 => Just(Ver::V310), 1 => Just(Ver::V311), 8 => Just(Ver::V5)];
    (ver, cfg, prop::collection::vec(op, 1..14))
        .prop_map(|(ver, cfg, mut ops)| {
            // packets close to a huge maximum are not sent
            if cfg.size > 20_000 {
                for o in &mut ops {
                    match o {
                        Op::Pub { size, .. } => *size = Size::Small(3),
                        Op::Sub { pad, .. } => *pad = None,
                        _ => {}
                    }
                }
            }
            Case { ver, cfg, ops }
        })
        .boxed()
}
