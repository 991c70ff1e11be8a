//! Message expiry and the resending of unacknowledged messages over time (virtual): queues of
//! receivers behind small windows or away, retained messages, wills.
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::Duration;

use akasa_core::GlobalState;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::Instant;

use super::client::*;
use super::transport::{self, Via};
use super::world::{IdleHook, base_config, paused_rt, set_hooks, settle};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome, fail};

thread_local! {
    static START: Cell<Option<Instant>> = const { Cell::new(None) };
}

/// The broker's (and our) time in seconds. The operations of a case take far less than 0.7 s,
/// waits are whole seconds.
fn now() -> u64 {
    1_700_000_000 + (START.get().unwrap().elapsed() + Duration::from_millis(300)).as_secs()
}

pub const TOPICS: [&str; 3] = ["t/a", "t/b", "t/c"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Msg {
    t: u8,
    qos: u8,
    retain: bool,
    /// None: no interval
    exp: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Pub { m: Msg, v3: bool },
    /// remove the retained message of a topic
    Clear(u8),
    /// a client with this will dies
    Die { m: Msg },
    Drop(u8),
    Connect(u8),
    /// connect while connected
    Again(u8),
    Ack { c: u8, n: u8 },
    Ping(u8),
    Sub { c: u8, t: u8 },
    Wait(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    vers: Vec<Ver>,
    qoss: Vec<u8>,
    windows: Vec<u16>,
    v3_window: u16,
    resend: Option<u8>,
    hooks: bool,
    ops: Vec<Op>,
}

#[derive(Clone, Debug)]
enum St {
    New,
    /// delivered with this identifier
    Sent(u16),
    Rec(u16),
    Done,
}

#[derive(Clone, Debug)]
struct Entry {
    tag: u32,
    qos: u8,
    /// when it expires, and whether it does
    until: Option<u64>,
    st: St,
    /// when it (or its PUBREL) was last seen
    last: u64,
    /// seen on this connection
    here: bool,
}

impl Entry {
    fn expired(&self) -> bool {
        self.until.is_some_and(|t| now() >= t)
    }
    fn gone(&self) -> bool {
        matches!(self.st, St::Done) || matches!(self.st, St::New) && self.expired()
    }
}

struct Slot {
    ver: Ver,
    qos: u8,
    window: u16,
    me: Option<Client>,
    /// received together with the CONNACK
    early: Vec<Ev>,
    q: VecDeque<Entry>,
    /// QoS 0 messages to arrive now: tag, interval
    direct: Vec<(u32, Option<u32>)>,
    subs: [bool; 3],
    started: bool,
}

struct Retained {
    tag: u32,
    qos: u8,
    until: Option<u64>,
}

struct X {
    global: Arc<GlobalState>,
    hook: IdleHook,
    slots: Vec<Slot>,
    pubs: [Client; 2],
    retained: [Option<Retained>; 3],
    peers: u16,
    tag: u32,
    pid: u16,
    resend: u64,
    out: Outcome,
}

impl X {
    /// Read what arrived; `triggered`: receivers whose packets the broker just handled.
    async fn look(&mut self, triggered: Option<usize>) -> Result<(), Failure> {
        settle().await;
        for p in &mut self.pubs {
            for e in p.read()?.1 {
                match e {
                    Ev::Puback(_, 0 | 0x10) | Ev::Pubcomp(_, 0) => {}
                    Ev::Pubrec(id, 0 | 0x10) => p.send(&ack_packet(p.ver, Ack::Pubrel, id)),
                    e => return fail("publisher", format!("the publisher received {e:?}")),
                }
            }
        }
        settle().await;
        let t = now();
        for (k, s) in self.slots.iter_mut().enumerate() {
            let Some(me) = &mut s.me else { continue };
            ensure!(!me.end.closed(), "closed", "the connection of receiver {k} was closed");
            for e in std::mem::take(&mut s.early).into_iter().chain(me.read()?.1) {
                match e {
                    Ev::Publish(p) => {
                        let tag = u32::from_be_bytes(p.payload[..].try_into().unwrap());
                        if p.qos == 0 {
                            let Some(i) = s.direct.iter().position(|d| d.0 == tag) else {
                                return fail("unexpected", format!("receiver {k} received {p:?}"));
                            };
                            let (_, exp) = s.direct.remove(i);
                            ensure!(!me.ver.is5() || p.props.expiry == exp, "interval", "receiver {k} received {p:?}, the interval is {exp:?}");
                            continue;
                        }
                        // (the copies of a retained message have the same content)
                        let i = s.q.iter().position(|e| e.tag == tag && matches!(e.st, St::Sent(i) if i == p.pid));
                        let i = i.or_else(|| s.q.iter().position(|e| e.tag == tag && matches!(e.st, St::New) && !e.gone()));
                        let Some(i) = i.or_else(|| s.q.iter().position(|e| e.tag == tag)) else {
                            return fail("unexpected", format!("receiver {k} received {p:?}"));
                        };
                        let before = s.q.iter().take(i).position(|e| !e.gone() && matches!(e.st, St::New));
                        let e = &mut s.q[i];
                        ensure!(p.qos == e.qos, "qos", "receiver {k} received {p:?}, expected QoS {}", e.qos);
                        match e.st {
                            St::New => {
                                ensure!(!e.expired(), "expired", "receiver {k} received {p:?}, which expired {} s ago", t - e.until.unwrap());
                                ensure!(!p.dup, "dup", "receiver {k} received {p:?} for the first time");
                                ensure!(before.is_none(), "order", "receiver {k} received {p:?} before {:?}", before.map(|b| &s.q[b]));
                                e.st = St::Sent(p.pid);
                                self.out.tag_if(e.until.is_some_and(|u| u - t < 3), "just-in-time");
                            }
                            St::Sent(pid) => {
                                ensure!(p.pid == pid && p.dup, "again", "receiver {k} received {p:?} again, identifier {pid}");
                                ensure!(
                                    !e.here || t >= e.last + self.resend,
                                    "again-early",
                                    "receiver {k} received {p:?} again {} s after, the timeout is {}",
                                    t - e.last,
                                    self.resend
                                );
                                self.out.tag_if(e.here, "resend-by-timeout");
                                self.out.tag_if(e.expired(), "resent-though-expired");
                            }
                            _ => return fail("again", format!("receiver {k} received {p:?} again, which it acknowledged")),
                        }
                        e.here = true;
                        e.last = t;
                        if me.ver.is5() {
                            let left = e.until.map(|u| u.saturating_sub(t) as u32);
                            ensure!(p.props.expiry == left, "interval", "receiver {k} received {p:?}, the remaining interval is {left:?}");
                        }
                    }
                    Ev::Pubrel(pid, 0) => {
                        let Some(e) = s.q.iter_mut().find(|e| matches!(e.st, St::Rec(p) if p == pid)) else {
                            return fail("pubrel", format!("receiver {k} received PUBREL {pid}"));
                        };
                        ensure!(
                            !e.here || e.last == u64::MAX || t >= e.last + self.resend,
                            "again-early",
                            "receiver {k} received PUBREL {pid} again {} s after, the timeout is {}",
                            t - e.last,
                            self.resend
                        );
                        e.here = true;
                        e.last = t;
                    }
                    Ev::Pingresp | Ev::Suback(..) => {}
                    e => return fail("unexpected", format!("receiver {k} received {e:?}")),
                }
            }
            ensure!(s.direct.is_empty(), "lost", "receiver {k} did not receive {:?}", s.direct);
            // what has to be there: all in the window, expired messages taking up place at most
            // behind delivered ones
            while s.q.front().is_some_and(|e| e.gone()) {
                if matches!(s.q.front().unwrap().st, St::New) {
                    self.out.tag("expired");
                }
                s.q.pop_front();
            }
            for e in s.q.iter().take(s.window as usize) {
                if e.gone() {
                    self.out.tag("expired");
                    continue;
                }
                ensure!(!matches!(e.st, St::New), "withheld", "receiver {k} did not receive {e:?}, the queue is {:?}", s.q);
                ensure!(e.here && e.last != u64::MAX, "not-resent", "receiver {k} did not receive {e:?} again");
                ensure!(
                    triggered != Some(k) || t < e.last + self.resend,
                    "not-resent",
                    "receiver {k} did not receive {e:?} again {} s after, the timeout is {}",
                    t - e.last,
                    self.resend
                );
            }
        }
        Ok(())
    }

    /// A message reaches the broker.
    fn route(&mut self, m: &Msg, tag: u32) {
        let t = m.t as usize % 3;
        let until = m.exp.map(|e| now() + e as u64);
        if m.retain {
            self.retained[t] = Some(Retained { tag, qos: m.qos, until });
        }
        for s in &mut self.slots {
            if s.subs[t] {
                Self::queue(s, tag, m.qos, until);
            }
        }
    }

    fn queue(s: &mut Slot, tag: u32, qos: u8, until: Option<u64>) {
        let qos = qos.min(s.qos);
        if qos > 0 {
            s.q.push_back(Entry { tag, qos, until, st: St::New, last: 0, here: false });
        } else if s.me.is_some() {
            s.direct.push((tag, until.map(|u| u.saturating_sub(now()) as u32)));
        }
    }

    async fn connect(&mut self, c: usize) -> Result<(), Failure> {
        let s = &mut self.slots[c];
        let o = ConnOpts { clean: false, expiry: Some(u32::MAX), recv_max: s.ver.is5().then_some(s.window), ..Default::default() };
        self.peers += 1;
        let (end, _) = transport::open(&self.global, self.hook.clone(), &Via::default(), vec![], vec![], self.peers);
        let mut me = Client::new(s.ver, end, &o, s.window);
        me.resends = true;
        me.send(&connect_packet(s.ver, &format!("receiver-{c}"), &o));
        settle().await;
        let mut evs = me.read()?.1;
        ensure!(
            matches!(evs.first(), Some(Ev::Connack { code: 0, present, .. }) if *present == s.started),
            "connack",
            "receiver {c}: {evs:?}"
        );
        s.early = evs.split_off(1);
        for e in &mut s.q {
            e.here = false;
        }
        if let Some(old) = s.me.take() {
            ensure!(old.end.gone() || old.end.closed(), "takeover-open", "the old connection of receiver {c} is open");
            old.end.reset();
        }
        if !s.started {
            s.started = true;
            let subs: Vec<SubReq> = TOPICS
                .iter()
                .zip(s.subs)
                .filter(|x| x.1)
                .map(|(t, _)| SubReq { filter: t.to_string(), qos: s.qos, ..Default::default() })
                .collect();
            if !subs.is_empty() {
                me.send(&subscribe_packet(s.ver, 1, &subs, None));
            }
        }
        s.me = Some(me);
        self.look(Some(c)).await
    }

    async fn op(&mut self, op: &Op) -> Result<(), Failure> {
        let n = self.slots.len();
        let mut triggered = None;
        match op {
            Op::Pub { m, v3 } => {
                let m = Msg { exp: if *v3 { None } else { m.exp }, ..m.clone() };
                self.tag += 1;
                self.pid = self.pid % 60000 + 1;
                let p = &self.pubs[*v3 as usize];
                p.send(&publish_packet(
                    p.ver,
                    &OutPub {
                        qos: m.qos,
                        pid: self.pid,
                        retain: m.retain,
                        topic: TOPICS[m.t as usize % 3].into(),
                        payload: self.tag.to_be_bytes().to_vec(),
                        props: Props { expiry: m.exp, ..Default::default() },
                        ..Default::default()
                    },
                ));
                self.route(&m, self.tag);
            }
            Op::Clear(t) => {
                // (to a topic nobody listens to at the moment: publications without a payload
                // are no different otherwise)
                let t = *t as usize % 3;
                if self.slots.iter().all(|s| !s.subs[t]) {
                    let m = OutPub { retain: true, topic: TOPICS[t].into(), ..Default::default() };
                    self.pubs[0].send(&publish_packet(self.pubs[0].ver, &m));
                    self.retained[t] = None;
                }
            }
            Op::Die { m } => {
                self.tag += 1;
                let will = Will {
                    topic: TOPICS[m.t as usize % 3].into(),
                    payload: self.tag.to_be_bytes().to_vec(),
                    qos: m.qos,
                    retain: m.retain,
                    delay: None,
                    props: Props { expiry: m.exp, ..Default::default() },
                };
                let o = ConnOpts { clean: true, will: Some(will), ..Default::default() };
                self.peers += 1;
                let (end, _) = transport::open(&self.global, self.hook.clone(), &Via::default(), vec![], vec![], self.peers);
                let mut me = Client::new(Ver::V5, end, &o, 10);
                me.send(&connect_packet(Ver::V5, "mortal", &o));
                settle().await;
                let evs = me.read()?.1;
                ensure!(matches!(evs[..], [Ev::Connack { code: 0, .. }]), "connack", "the client with the will: {evs:?}");
                me.end.reset();
                self.route(m, self.tag);
            }
            Op::Drop(c) => {
                let s = &mut self.slots[*c as usize % n];
                if let Some(me) = s.me.take() {
                    me.end.reset();
                    self.out.tag("away");
                }
            }
            Op::Connect(c) => {
                let c = *c as usize % n;
                if self.slots[c].me.is_none() {
                    return self.connect(c).await;
                }
            }
            Op::Again(c) => return self.connect(*c as usize % n).await,
            Op::Ack { c, n: count } => {
                let c = *c as usize % n;
                for _ in 0..=*count {
                    let s = &mut self.slots[c];
                    let Some(me) = &mut s.me else { break };
                    let Some(e) = s.q.iter_mut().find(|e| !e.gone()) else { break };
                    if !e.here {
                        break;
                    }
                    match e.st {
                        St::Sent(pid) if e.qos == 1 => {
                            me.send(&ack_packet(me.ver, Ack::Puback, pid));
                            me.done(pid);
                            e.st = St::Done;
                        }
                        St::Sent(pid) => {
                            me.send(&ack_packet(me.ver, Ack::Pubrec, pid));
                            e.st = St::Rec(pid);
                            e.last = u64::MAX;
                        }
                        St::Rec(pid) => {
                            me.send(&ack_packet(me.ver, Ack::Pubcomp, pid));
                            me.done(pid);
                            e.st = St::Done;
                        }
                        _ => break,
                    }
                    self.look(Some(c)).await?;
                }
                return Ok(());
            }
            Op::Ping(c) => {
                let c = *c as usize % n;
                if let Some(me) = &self.slots[c].me {
                    me.send(&ping_packet(me.ver));
                    triggered = Some(c);
                }
            }
            Op::Sub { c, t } => {
                let (c, t) = (*c as usize % n, *t as usize % 3);
                let s = &mut self.slots[c];
                if let Some(me) = &s.me {
                    me.send(&subscribe_packet(me.ver, 2, &[SubReq { filter: TOPICS[t].into(), qos: s.qos, ..Default::default() }], None));
                    s.subs[t] = true;
                    if let Some(r) = &self.retained[t] {
                        if r.until.is_some_and(|u| now() >= u) {
                            self.out.tag("retained-expired");
                        } else {
                            self.out.tag_if(r.until.is_some(), "retained-in-time");
                            Self::queue(s, r.tag, r.qos, r.until);
                        }
                    }
                    triggered = Some(c);
                }
            }
            Op::Wait(secs) => tokio::time::sleep(Duration::from_secs(*secs as u64)).await,
        }
        self.look(triggered).await
    }
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut config = base_config();
    config.max_inflight_client = case.v3_window;
    if let Some(t) = case.resend {
        config.inflight_timeout = t as u64;
    }
    let resend = config.inflight_timeout;
    set_hooks(&mut config, case.hooks);
    let res = rt.block_on(async {
        START.set(Some(Instant::now()));
        akasa_core::verif::UNIX_TS.set(Some(now));
        let global = Arc::new(GlobalState::new(config));
        let hook = IdleHook { wait: case.hooks };
        let mut pubs = vec![];
        for (i, ver) in [Ver::V5, Ver::V311].into_iter().enumerate() {
            let o = ConnOpts { clean: true, ..Default::default() };
            let (end, _) = transport::open(&global, hook.clone(), &Via::default(), vec![], vec![], i as u16);
            let mut p = Client::new(ver, end, &o, 100);
            p.send(&connect_packet(ver, &format!("publisher-{i}"), &o));
            settle().await;
            let evs = p.read()?.1;
            ensure!(matches!(evs[..], [Ev::Connack { code: 0, .. }]), "setup", "a publisher received {evs:?}");
            pubs.push(p);
        }
        let slots = (0..case.vers.len())
            .map(|i| Slot {
                ver: case.vers[i],
                qos: case.qoss[i],
                window: if case.vers[i].is5() { case.windows[i] } else { case.v3_window },
                me: None,
                early: vec![],
                q: VecDeque::new(),
                direct: vec![],
                subs: [true, i == 0, false],
                started: false,
            })
            .collect();
        let mut x = X {
            global,
            hook,
            slots,
            pubs: pubs.try_into().ok().unwrap(),
            retained: [None, None, None],
            peers: 10,
            tag: 0,
            pid: 0,
            resend,
            out: Outcome::default(),
        };
        for c in 0..x.slots.len() {
            x.connect(c).await?;
        }
        for op in &case.ops {
            x.op(op).await?;
        }
        // everything left is delivered in the end
        for c in 0..x.slots.len() {
            if x.slots[c].me.is_none() {
                x.connect(c).await?;
            }
            x.op(&Op::Ack { c: c as u8, n: 200 }).await?;
            let s = &x.slots[c];
            ensure!(s.q.iter().all(|e| e.gone()), "lost", "receiver {c} never received {:?}", s.q);
        }
        let t = &x.out.tags;
        x.out.nontrivial = ["expired", "retained-expired", "just-in-time", "resend-by-timeout", "resent-though-expired"].iter().any(|k| t.contains(k));
        Ok(x.out)
    });
    akasa_core::verif::UNIX_TS.set(None);
    START.set(None);
    rt.shutdown_timeout(Duration::from_millis(100));
    res
}

pub fn case() -> BoxedStrategy<Case> {
    let ver = || prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 4 => Just(Ver::V5)];
    let exp = || prop_oneof![2 => Just(None), 6 => (1u32..10).prop_map(Some), 1 => Just(Some(u32::MAX))];
    let msg = || {
        (0u8..3, prop_oneof![1 => Just(0u8), 3 => 1u8..3], prop::bool::weighted(0.3), exp())
            .prop_map(|(t, qos, retain, exp)| Msg { t, qos, retain, exp })
    };
    let c = || 0u8..2;
    let op = prop_oneof![
        8 => (msg(), prop::bool::weighted(0.15)).prop_map(|(m, v3)| Op::Pub { m, v3 }),
        1 => (0u8..3).prop_map(Op::Clear),
        1 => msg().prop_map(|m| Op::Die { m }),
        2 => c().prop_map(Op::Drop),
        2 => c().prop_map(Op::Connect),
        1 => c().prop_map(Op::Again),
        4 => (c(), 0u8..4).prop_map(|(c, n)| Op::Ack { c, n }),
        1 => c().prop_map(Op::Ping),
        2 => (c(), 0u8..3).prop_map(|(c, t)| Op::Sub { c, t }),
        5 => (1u8..7).prop_map(Op::Wait),
    ];
    (
        prop::collection::vec(ver(), 2),
        prop::collection::vec(1u8..3, 2),
        prop::collection::vec(1u16..4, 2),
        1u16..4,
        prop_oneof![3 => Just(None), 1 => (2u8..12).prop_map(Some)],
        prop::bool::weighted(0.2),
        prop::collection::vec(op, 3..30),
    )
        .prop_map(|(vers, qoss, windows, v3_window, resend, hooks, ops)| Case { vers, qoss, windows, v3_window, resend, hooks, ops })
        .boxed()
}
