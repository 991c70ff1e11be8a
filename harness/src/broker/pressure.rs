//! Back-pressure: what the broker holds for clients that do not read is bounded by a few packets,
//! others are served meanwhile, and everything flows on as soon as they read again.
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::Duration;

use akasa_core::GlobalState;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::client::*;
use super::transport::{self, Via};
use super::world::{IdleHook, base_config, paused_rt, set_hooks, settle};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome, fail};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ask {
    Ping,
    Pub { qos: u8 },
    Sub { n: u8 },
    Unsub { n: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Role {
    /// asks and asks, but does not read the answers
    Talker { asks: Vec<Ask>, bytes: u16 },
    /// publishes to "t/<t>"
    Publisher { t: u8, qos: u8, len: u16, bytes: u16 },
    /// subscribes to "t/<t>" (2: "t/#"), does not read
    Reader { t: u8, qos: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Actor {
    ver: Ver,
    /// what the network takes while the client does not read; None: it reads
    cap: Option<u16>,
    role: Role,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    /// the actor sends (a reader: subscribes to the retained messages)
    Go { a: u8 },
    /// reads what is there once
    Sip { a: u8 },
    /// does not stop reading any more
    Resume { a: u8 },
    Settle,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hooks: u8,
    read: Vec<usize>,
    write: Vec<usize>,
    retained: u8,
    rlen: u16,
    actors: Vec<Actor>,
    ops: Vec<Op>,
}

const BATCH: usize = 2048;

struct Node {
    a: Actor,
    conn: Client,
    stalled: bool,
    next: u16,
    sent: usize,
    /// talker: expected answers, in order
    due: VecDeque<Ev>,
    /// talker: (end of the request in the stream, length of its answer)
    asked: VecDeque<(usize, usize)>,
    sent_bytes: usize,
    due_bytes: usize,
    read_bytes: usize,
    /// publisher: ends of the messages in the stream
    ends: Vec<usize>,
    out: VecDeque<(u16, u8)>,
    /// reader: (publisher, number) received
    got: Vec<(u8, u32)>,
    kept: usize,
    asked_kept: usize,
    subacks: usize,
}

fn same(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Pingresp, Ev::Pingresp) => true,
        (Ev::Puback(x, _), Ev::Puback(y, _)) | (Ev::Pubrec(x, _), Ev::Pubrec(y, _)) => x == y,
        (Ev::Suback(x, c), Ev::Suback(y, d)) => x == y && c == d,
        (Ev::Unsuback(x, c), Ev::Unsuback(y, d)) => x == y && (d.is_empty() || c.len() == d.len()),
        _ => false,
    }
}

impl Node {
    fn who(&self, i: usize) -> String {
        format!("actor {i} ({:?} {:?})", self.a.ver, self.a.role)
    }

    fn consumed(&self) -> usize {
        self.sent_bytes - self.conn.end.unread()
    }

    fn reply(&mut self, ack: Ack, id: u16) {
        let pkt = ack_packet(self.a.ver, ack, id);
        self.sent_bytes += pkt.len();
        self.conn.send(&pkt);
    }

    fn go(&mut self, i: usize) {
        let ver = self.a.ver;
        let mut data = Vec::new();
        match self.a.role.clone() {
            Role::Talker { asks, bytes } => {
                let mut total = 0;
                let mut k = 0;
                while total < bytes as usize && k < 4000 {
                    let id = self.next;
                    self.next = if id == u16::MAX { 1 } else { id + 1 };
                    let (pkt, ev, len) = match asks[k % asks.len()] {
                        Ask::Ping => (ping_packet(ver), Ev::Pingresp, 2),
                        Ask::Pub { qos } => {
                            let p = publish_packet(ver, &out("nobody", qos, id, vec![1; 3]));
                            let ev = if qos == 1 { Ev::Puback(id, 0) } else { Ev::Pubrec(id, 0) };
                            (p, ev, 4)
                        }
                        Ask::Sub { n } => {
                            let subs: Vec<_> = (0..n).map(|j| SubReq { filter: format!("s/{j}"), qos: j % 3, ..Default::default() }).collect();
                            (subscribe_packet(ver, id, &subs, None), Ev::Suback(id, (0..n).map(|j| j % 3).collect()), 4 + n as usize)
                        }
                        Ask::Unsub { n } => {
                            let f: Vec<_> = (0..n).map(|j| format!("s/{j}")).collect();
                            let (codes, len) = if ver.is5() { (vec![0; n as usize], 4 + n as usize) } else { (vec![], 4) };
                            (unsubscribe_packet(ver, id, &f), Ev::Unsuback(id, codes), len)
                        }
                    };
                    data.extend(pkt);
                    self.due.push_back(ev);
                    self.asked.push_back((self.sent_bytes + data.len(), len));
                    total += len;
                    k += 1;
                }
            }
            Role::Publisher { t, qos, len, bytes } => {
                let n = (bytes as usize / (len as usize + 12)).clamp(100, 3000);
                for _ in 0..n {
                    let id = self.next;
                    if qos > 0 {
                        self.next = if id == u16::MAX { 1 } else { id + 1 };
                        self.out.push_back((id, qos));
                    }
                    let mut body = vec![i as u8];
                    body.extend((self.sent as u32).to_be_bytes());
                    body.resize(5 + len as usize, 7);
                    self.sent += 1;
                    data.extend(publish_packet(ver, &out(&format!("t/{t}"), qos, id, body)));
                    self.ends.push(self.sent_bytes + data.len());
                }
            }
            Role::Reader { .. } => {
                let id = self.next;
                self.next += 1;
                data = subscribe_packet(ver, id, &[SubReq { filter: "k/#".into(), ..Default::default() }], None);
                self.asked_kept += 1;
            }
        }
        self.sent_bytes += data.len();
        self.conn.send(&data);
    }

    fn read(&mut self, i: usize) -> Result<bool, Failure> {
        let who = self.who(i);
        let (n, evs) = self.conn.read().map_err(|mut f| {
            f.msg = format!("{who}: {}", f.msg);
            f
        })?;
        self.read_bytes += n;
        for ev in evs {
            match (&self.a.role, ev) {
                (Role::Talker { .. }, ev) => {
                    let want = self.due.pop_front();
                    ensure!(want.as_ref().is_some_and(|w| same(&ev, w)), "answers", "{who}: got {ev:?}, the next answer has to be {want:?}");
                }
                (Role::Publisher { .. }, Ev::Puback(id, c)) if c == 0 || c == 0x10 => {
                    ensure!(self.out.pop_front() == Some((id, 1)), "acks", "{who}: PUBACK {id} out of order");
                }
                (Role::Publisher { .. }, Ev::Pubrec(id, c)) if c == 0 || c == 0x10 => {
                    ensure!(self.out.pop_front() == Some((id, 2)), "acks", "{who}: PUBREC {id} out of order");
                    // (no PUBREL: they would be unordered with the next batch)
                }
                (Role::Reader { .. }, Ev::Publish(p)) => {
                    if p.topic.starts_with("k/") {
                        self.kept += 1;
                        continue;
                    }
                    ensure!(p.payload.len() >= 5, "payload", "{who}: {p:?}");
                    self.got.push((p.payload[0], u32::from_be_bytes(p.payload[1..5].try_into().unwrap())));
                    if p.qos == 1 {
                        self.reply(Ack::Puback, p.pid);
                        self.conn.done(p.pid);
                    } else if p.qos == 2 {
                        self.reply(Ack::Pubrec, p.pid);
                    }
                }
                (Role::Reader { .. }, Ev::Pubrel(id, 0)) => {
                    self.reply(Ack::Pubcomp, id);
                    self.conn.done(id);
                }
                (Role::Reader { .. }, Ev::Suback(..)) => self.subacks += 1,
                (_, other) => return fail("unexpected", format!("{who}: the broker sent {other:?}")),
            }
        }
        Ok(n > 0)
    }
}

fn out(topic: &str, qos: u8, pid: u16, payload: Vec<u8>) -> OutPub {
    OutPub { dup: false, qos, pid, retain: false, topic: topic.into(), alias: None, short: false, payload, props: Props::default() }
}

struct World {
    global: Arc<GlobalState>,
    hook: IdleHook,
    peers: u16,
    read: Vec<usize>,
    write: Vec<usize>,
}

impl World {
    async fn connect(&mut self, ver: Ver, id: &str) -> Result<Client, Failure> {
        self.peers += 1;
        let (end, _) = transport::open(&self.global, self.hook.clone(), &Via::default(), self.read.clone(), self.write.clone(), self.peers);
        let o = ConnOpts { clean: true, recv_max: Some(20), ..Default::default() };
        end.send(&connect_packet(ver, id, &o));
        let mut c = Client::new(ver, end, &o, self.global.config.max_inflight_client);
        settle().await;
        let (_, evs) = c.read()?;
        ensure!(matches!(evs[..], [Ev::Connack { code: 0, .. }]), "connack", "{id}: {evs:?}");
        Ok(c)
    }
}

fn hits(f: u8, t: u8) -> bool {
    f == 2 || f == t
}

async fn drive(case: &Case, out_: &mut Outcome) -> Result<(), Failure> {
    let mut config = base_config();
    set_hooks(&mut config, case.hooks > 0);
    config.max_inflight_server = u16::MAX;
    config.max_inflight_client = 20;
    let mut w = World { global: Arc::new(GlobalState::new(config)), hook: IdleHook { wait: case.hooks == 2 }, peers: 0, read: case.read.clone(), write: case.write.clone() };
    let mut x = w.connect(Ver::V5, "x").await?;
    let mut y = w.connect(Ver::V311, "y").await?;
    for k in 0..case.retained {
        let mut p = out(&format!("k/{k}"), 0, 0, vec![k; case.rlen as usize + 1]);
        p.retain = true;
        x.send(&publish_packet(Ver::V5, &p));
    }
    y.send(&subscribe_packet(Ver::V311, 1, &[SubReq { filter: "free".into(), qos: 1, ..Default::default() }], None));
    settle().await;
    y.read()?;
    let mut nodes: Vec<Node> = Vec::new();
    for (i, a) in case.actors.iter().enumerate() {
        let conn = w.connect(a.ver, &format!("a{i}")).await?;
        if let Role::Reader { t, qos } = a.role {
            let filter = if t == 2 { "t/#".to_string() } else { format!("t/{t}") };
            conn.send(&subscribe_packet(a.ver, 1, &[SubReq { filter, qos, ..Default::default() }], None));
        }
        nodes.push(Node {
            a: a.clone(),
            conn,
            stalled: false,
            next: 2,
            sent: 0,
            due: VecDeque::new(),
            asked: VecDeque::new(),
            sent_bytes: 0,
            due_bytes: 0,
            read_bytes: 0,
            ends: vec![],
            out: VecDeque::new(),
            got: vec![],
            kept: 0,
            asked_kept: 0,
            subacks: 0,
        });
    }
    settle().await;
    for (i, n) in nodes.iter_mut().enumerate() {
        n.read(i)?;
        n.read_bytes = 0;
        n.sent_bytes = n.conn.end.unread();
        n.subacks = 0;
        if let Some(cap) = n.a.cap {
            n.conn.end.set_cap(cap as usize);
            n.stalled = true;
        }
    }

    let mut rounds = 0u8;
    let mut full = false;
    let mut kept_behind = false;
    for op in &case.ops {
        let k = nodes.len();
        match *op {
            Op::Go { a } => {
                let a = a as usize % k;
                if nodes[a].sent_bytes - nodes[a].consumed() == 0 && nodes[a].sent_bytes < 200_000 {
                    nodes[a].go(a);
                }
            }
            Op::Sip { a } => {
                let a = a as usize % k;
                nodes[a].read(a)?;
            }
            Op::Resume { a } => {
                let n = &mut nodes[a as usize % k];
                n.stalled = false;
                n.conn.end.set_cap(usize::MAX);
            }
            Op::Settle => {
                // those who read go on until nothing moves
                loop {
                    settle().await;
                    let mut moved = false;
                    for (i, n) in nodes.iter_mut().enumerate() {
                        if !n.stalled {
                            moved |= n.read(i)?;
                        }
                    }
                    if !moved {
                        break;
                    }
                }
                // what the broker holds
                for i in 0..k {
                    let consumed = nodes[i].consumed();
                    let n = &mut nodes[i];
                    match n.a.role {
                        Role::Talker { .. } => {
                            let mut max = 4;
                            while let Some(&(end, len)) = n.asked.front() {
                                if end > consumed {
                                    break;
                                }
                                n.due_bytes += len;
                                n.asked.pop_front();
                            }
                            if let Role::Talker { asks, .. } = &n.a.role {
                                for a in asks {
                                    if let Ask::Sub { n } | Ask::Unsub { n } = a {
                                        max = max.max(*n as usize + 6);
                                    }
                                }
                            }
                            let held = n.due_bytes.saturating_sub(n.read_bytes + n.conn.end.waiting());
                            full |= n.stalled && n.conn.end.unread() > 0;
                            let bound = 2 * BATCH + 48 * max;
                            ensure!(
                                held <= bound,
                                "answers-held",
                                "{}: the broker has read {consumed} bytes of requests and holds {held} bytes of answers for a client that does not read (expected at most about {bound})",
                                n.who(i)
                            );
                        }
                        Role::Reader { t, qos } => {
                            let writ = n.read_bytes + n.conn.end.waiting();
                            let who = n.who(i);
                            let mut accepted = 0;
                            let mut min = usize::MAX;
                            let mut pubs = 0;
                            for p in &nodes {
                                if let Role::Publisher { t: pt, qos: pq, len, .. } = p.a.role
                                    && hits(t, pt)
                                    && pq.min(qos) == 0
                                    && !p.ends.is_empty()
                                {
                                    let c = p.consumed();
                                    accepted += p.ends.partition_point(|e| *e <= c);
                                    min = min.min(len as usize + 10);
                                    pubs += 1;
                                }
                            }
                            if accepted > 0 {
                                let bound = writ / min + (2 * BATCH) / min + 48 + 8 + 24 * pubs;
                                ensure!(
                                    accepted <= bound,
                                    "messages-held",
                                    "{who}: the broker has accepted {accepted} QoS 0 messages for a client to which {writ} bytes were written (messages of {min} bytes and more, expected at most about {bound})"
                                );
                            }
                        }
                        Role::Publisher { .. } => {}
                    }
                }
                // the others are served
                rounds = rounds.wrapping_add(1);
                x.send(&publish_packet(Ver::V5, &out("free", rounds % 2, 1, vec![rounds])));
                x.send(&ping_packet(Ver::V5));
                settle().await;
                settle().await;
                let (_, evs) = y.read()?;
                let pid = match &evs[..] {
                    [Ev::Publish(p)] if p.payload == [rounds] => p.pid,
                    _ => return fail("bystander", format!("a message between clients that have nothing to do with the stalled ones did not arrive at once: {evs:?}")),
                };
                if pid != 0 {
                    y.send(&ack_packet(Ver::V311, Ack::Puback, pid));
                    y.done(pid);
                }
                let (_, evs) = x.read()?;
                let ok = match &evs[..] {
                    [Ev::Pingresp] => rounds % 2 == 0,
                    [Ev::Puback(1, 0), Ev::Pingresp] => rounds % 2 == 1,
                    _ => false,
                };
                ensure!(ok, "bystander", "the publisher next to the stalled clients got {evs:?}");
            }
        }
        for n in &nodes {
            if let Role::Reader { .. } = n.a.role {
                kept_behind |= n.asked_kept > 0 && case.retained > 16;
            }
        }
    }
    // everybody reads again: everything arrives without further ado
    for n in &mut nodes {
        n.stalled = false;
        n.conn.end.set_cap(usize::MAX);
    }
    let mut idle = 0;
    while idle < 3 {
        settle().await;
        let mut moved = false;
        for (i, n) in nodes.iter_mut().enumerate() {
            moved |= n.read(i)?;
        }
        idle = if moved { 0 } else { idle + 1 };
    }
    let sent: Vec<_> = nodes.iter().map(|n| (n.a.role.clone(), n.sent)).collect();
    for (i, n) in nodes.iter().enumerate() {
        let who = n.who(i);
        ensure!(n.conn.end.unread() == 0, "stuck", "{who}: everybody reads again, but the broker left {} bytes unread", n.conn.end.unread());
        ensure!(!n.conn.end.closed(), "closed", "{who}: the connection was closed");
        match n.a.role {
            Role::Talker { .. } => ensure!(n.due.is_empty(), "answers", "{who}: {} answers are missing, the first: {:?}", n.due.len(), n.due[0]),
            Role::Publisher { .. } => ensure!(n.out.is_empty(), "acks", "{who}: {} acknowledgements are missing", n.out.len()),
            Role::Reader { t, .. } => {
                ensure!(
                    n.kept == n.asked_kept * case.retained as usize && n.subacks == n.asked_kept,
                    "retained",
                    "{who}: {} retained messages and {} SUBACK for {} requests, {} messages each",
                    n.kept,
                    n.subacks,
                    n.asked_kept,
                    case.retained
                );
                for (j, (role, total)) in sent.iter().enumerate() {
                    let Role::Publisher { t: pt, .. } = role else { continue };
                    let got: Vec<u32> = n.got.iter().filter(|g| g.0 as usize == j).map(|g| g.1).collect();
                    let want = if hits(t, *pt) { *total } else { 0 };
                    ensure!(
                        got.iter().enumerate().all(|(k, v)| k as u32 == *v) && got.len() == want,
                        "messages",
                        "{who}: of the {want} messages of actor {j} arrived {}, the first out of order: {:?}",
                        got.len(),
                        got.iter().enumerate().find(|(k, v)| *k as u32 != **v)
                    );
                }
            }
        }
    }
    out_.nontrivial = full || nodes.iter().any(|n| matches!(n.a.role, Role::Publisher { .. }) && n.sent > 0);
    out_.tag_if(full, "talker-stopped");
    out_.tag_if(nodes.iter().any(|n| matches!(n.a.role, Role::Reader { .. }) && !n.got.is_empty()), "messages");
    out_.tag_if(kept_behind, "many-retained");
    out_.tag_if(nodes.iter().any(|n| n.got.len() > 500), "over-500-messages");
    Ok(())
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut out = Outcome::default();
    let r = rt.block_on(drive(case, &mut out));
    rt.shutdown_timeout(Duration::from_millis(100));
    r?;
    Ok(out)
}

pub fn case() -> BoxedStrategy<Case> {
    let chunk = || prop_oneof![
        3 => Just(vec![]),
        1 => prop::collection::vec(prop::sample::select(vec![7usize, 16, 64, 1000, 1001, 0]), 1..4),
    ];
    let ask = prop_oneof![
        2 => Just(Ask::Ping),
        2 => (1u8..3).prop_map(|qos| Ask::Pub { qos }),
        2 => (1u8..40).prop_map(|n| Ask::Sub { n }),
        1 => (1u8..40).prop_map(|n| Ask::Unsub { n }),
    ];
    let role = prop_oneof![
        3 => (prop::collection::vec(ask, 1..4), 100u16..14_000).prop_map(|(asks, bytes)| Role::Talker { asks, bytes }),
        4 => (0u8..2, prop_oneof![3 => Just(0u8), 1 => 1u8..3], prop_oneof![2 => 0u16..60, 1 => 60u16..3000], 1000u16..40_000)
            .prop_map(|(t, qos, len, bytes)| Role::Publisher { t, qos, len, bytes }),
        5 => (0u8..3, 0u8..3).prop_map(|(t, qos)| Role::Reader { t, qos }),
    ];
    let actor = (
        prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 3 => Just(Ver::V5)],
        prop_oneof![1 => Just(None), 2 => Just(Some(0u16)), 2 => (1u16..300).prop_map(Some), 1 => (300u16..6000).prop_map(Some)],
        role,
    )
        .prop_map(|(ver, cap, role)| Actor { ver, cap, role });
    let a = || 0u8..6;
    let op = prop_oneof![
        6 => a().prop_map(|a| Op::Go { a }),
        3 => a().prop_map(|a| Op::Sip { a }),
        1 => a().prop_map(|a| Op::Resume { a }),
        4 => Just(Op::Settle),
    ];
    (0u8..3, chunk(), chunk(), prop_oneof![1 => 0u8..4, 1 => 10u8..60], 0u16..200, prop::collection::vec(actor, 2..6), prop::collection::vec(op, 3..25))
        .prop_map(|(hooks, read, write, retained, rlen, actors, ops)| Case { hooks, read, write, retained, rlen, actors, ops })
        .boxed()
}
