//! A subscriber's bounded queue of QoS 1/2 messages over long histories: what fits is delivered
//! once and in order, what does not is dropped and leaves no trace, and packet identifiers stay
//! unique among what is unacknowledged, also after all 65535 were used.
use std::sync::Arc;
use std::time::Duration;

use akasa_core::GlobalState;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::client::*;
use super::transport::{self, Via};
use super::world::{IdleHook, base_config, paused_rt, settle};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome, fail};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Pub(u8),
    /// as many as it takes to go once around the packet identifiers, and a few more or less
    Around(i8),
    /// acknowledge the k-th unacknowledged message (QoS 2: the next step of it)
    Ack(u8),
    AckAll,
    Drop,
    Connect,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ver: Ver,
    pubver: Ver,
    qos: u8,
    window: u16,
    cap: u8,
    ops: Vec<Op>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    New,
    Rec,
    Done,
}

#[derive(Clone, Debug)]
struct Entry {
    id: u32,
    st: St,
    pid: Option<u16>,
    /// may have been refused
    optional: bool,
    /// seen on the current connection
    here: bool,
    got: bool,
    rel: bool,
}

struct Q {
    case: Case,
    global: Arc<GlobalState>,
    publisher: Client,
    sub: Option<Client>,
    peers: u16,
    next: u32,
    pub_pid: u16,
    queue: Vec<Entry>,
    dropped: u64,
    sent: u64,
}

impl Q {
    async fn connect(&mut self) -> Result<(), Failure> {
        self.peers += 1;
        let (end, _) = transport::open(&self.global, IdleHook { wait: false }, &Via::default(), vec![], vec![], self.peers);
        let o = ConnOpts { clean: false, expiry: Some(u32::MAX), recv_max: Some(self.case.window), ..Default::default() };
        let mut c = Client::new(self.case.ver, end, &o, self.case.window);
        c.send(&connect_packet(self.case.ver, "sub", &o));
        if self.peers == 2 {
            c.send(&subscribe_packet(self.case.ver, 1, &[SubReq { filter: "t".into(), qos: 2, ..Default::default() }], None));
        }
        for e in &mut self.queue {
            e.here = false;
        }
        settle().await;
        let n = self.peers;
        let (_, evs) = c.read()?;
        let mut it = evs.into_iter();
        match it.next() {
            Some(Ev::Connack { present, code: 0, .. }) => {
                ensure!(present == (n > 2), "session-present", "session present: {present} at connection {}", n - 1)
            }
            e => return fail("connack", format!("instead of CONNACK: {e:?}")),
        }
        if n == 2 {
            ensure!(matches!(it.next(), Some(Ev::Suback(..))), "suback", "no SUBACK");
        }
        self.sub = Some(c);
        self.take(it.collect())
    }

    fn take(&mut self, evs: Vec<Ev>) -> Result<(), Failure> {
        for e in evs {
            match e {
                Ev::Publish(p) => {
                    ensure!(p.qos == self.case.qos, "qos", "QoS {}", p.qos);
                    let id = u32::from_be_bytes(p.payload[..4].try_into().unwrap());
                    let Some(i) = self.queue.iter().position(|e| e.id == id) else {
                        return fail("unexpected-message", format!("message {id} was completed, dropped, or never sent"));
                    };
                    for e in &self.queue {
                        ensure!(
                            e.id == id || e.st == St::Done || e.pid != Some(p.pid),
                            "pid-in-use",
                            "message {id} has packet identifier {}, which message {} still uses",
                            p.pid,
                            e.id
                        );
                    }
                    // in order: nothing behind it came before on this connection
                    ensure!(
                        self.queue[i + 1..].iter().all(|e| !e.here),
                        "order",
                        "message {id} came after a later one"
                    );
                    let e = &mut self.queue[i];
                    ensure!(e.st == St::New, "redelivered-late", "message {id} came again in state {:?}", e.st);
                    ensure!(e.pid.is_none_or(|old| old == p.pid), "pid-changed", "message {id} came with packet identifiers {:?} and {}", e.pid, p.pid);
                    ensure!(!e.here, "duplicate", "message {id} came twice on one connection");
                    ensure!(p.dup == e.got, "dup-flag", "message {id} came with DUP={}", p.dup);
                    e.pid = Some(p.pid);
                    e.here = true;
                    e.got = true;
                    e.optional = false;
                }
                Ev::Pubrel(pid, 0) => {
                    let Some(e) = self.queue.iter_mut().find(|e| e.pid == Some(pid) && e.st == St::Rec) else {
                        return fail("pubrel", format!("unexpected PUBREL {pid}"));
                    };
                    e.rel = true;
                    e.here = true;
                }
                e => return fail("unexpected", format!("the subscriber received {e:?}")),
            }
        }
        Ok(())
    }

    async fn listen(&mut self) -> Result<(), Failure> {
        settle().await;
        if let Some(c) = &mut self.sub {
            let (_, evs) = c.read()?;
            ensure!(!c.end.closed(), "closed", "the subscriber was disconnected: {evs:?}");
            self.take(evs)?;
        }
        Ok(())
    }

    /// The next step of the acknowledgement of an entry.
    fn ack(&mut self, i: usize) {
        let Some(c) = &mut self.sub else { return };
        let e = &mut self.queue[i];
        let pid = e.pid.unwrap();
        match (self.case.qos, e.st) {
            (1, St::New) => {
                c.send(&ack_packet(self.case.ver, Ack::Puback, pid));
                c.done(pid);
                e.st = St::Done;
            }
            (_, St::New) => {
                c.send(&ack_packet(self.case.ver, Ack::Pubrec, pid));
                e.st = St::Rec;
                e.rel = false;
            }
            (_, St::Rec) if e.rel => {
                c.send(&ack_packet(self.case.ver, Ack::Pubcomp, pid));
                c.done(pid);
                e.st = St::Done;
            }
            _ => {}
        }
    }

    fn clean(&mut self) {
        while self.queue.first().is_some_and(|e| e.st == St::Done) {
            self.queue.remove(0);
        }
    }

    async fn publish(&mut self, n: usize) -> Result<(), Failure> {
        let mut left = n;
        while left > 0 {
            let k = left.min(150);
            left -= k;
            let mut data = Vec::new();
            for _ in 0..k {
                let id = self.next;
                self.next += 1;
                self.sent += 1;
                self.pub_pid = self.pub_pid % 60000 + 1;
                let m = OutPub { qos: self.case.qos, pid: self.pub_pid, topic: "t".into(), payload: id.to_be_bytes().to_vec(), ..Default::default() };
                data.extend(publish_packet(self.case.pubver, &m));
                if self.case.qos == 2 {
                    data.extend(ack_packet(self.case.pubver, Ack::Pubrel, self.pub_pid));
                }
                self.clean();
                let open = self.queue.iter().filter(|e| e.st != St::Done && !e.optional).count();
                if open >= self.case.cap as usize {
                    self.dropped += 1;
                } else {
                    let optional = self.queue.len() >= self.case.cap as usize;
                    self.queue.push(Entry { id, st: St::New, pid: None, optional, here: false, got: false, rel: false });
                }
            }
            self.publisher.send(&data);
            settle().await;
            let (_, evs) = self.publisher.read()?;
            ensure!(
                evs.len() == k * self.case.qos as usize,
                "not-acknowledged",
                "{k} messages were answered with {} packets, closed={}",
                evs.len(),
                self.publisher.end.closed()
            );
            self.listen().await?;
            // everything is settled: what was optional and inside the window would have come
        }
        Ok(())
    }

    async fn run(&mut self) -> Result<(), Failure> {
        self.publisher.send(&connect_packet(self.case.pubver, "pub", &ConnOpts { clean: true, ..Default::default() }));
        settle().await;
        self.publisher.read()?;
        self.connect().await?;
        let mut ops = self.case.ops.clone();
        ops.extend([Op::Connect, Op::AckAll, Op::Pub(3), Op::AckAll]);
        for op in &ops {
            match op {
                Op::Pub(n) => self.publish(*n as usize).await?,
                Op::Around(d) => self.publish((65535 + *d as i64) as usize).await?,
                Op::Ack(k) => {
                    let open: Vec<usize> = (0..self.queue.len()).filter(|i| self.queue[*i].here && self.queue[*i].st != St::Done).collect();
                    if !open.is_empty() {
                        self.ack(open[*k as usize % open.len()]);
                        self.listen().await?;
                    }
                }
                Op::AckAll => {
                    while self.sub.is_some() {
                        let before: Vec<St> = self.queue.iter().map(|e| e.st).collect();
                        for i in 0..self.queue.len() {
                            if self.queue[i].here {
                                self.ack(i);
                            }
                        }
                        self.listen().await?;
                        let after: Vec<St> = self.queue.iter().map(|e| e.st).collect();
                        if before == after {
                            break;
                        }
                    }
                    if self.sub.is_some() {
                        let missing: Vec<u32> = self.queue.iter().filter(|e| e.st != St::Done && !e.optional).map(|e| e.id).collect();
                        ensure!(missing.is_empty(), "lost", "everything was acknowledged, but the messages {missing:?} did not come");
                        self.queue.clear();
                    }
                }
                Op::Drop => {
                    if let Some(c) = self.sub.take() {
                        c.end.reset();
                        settle().await;
                    }
                }
                Op::Connect => {
                    if let Some(c) = self.sub.take() {
                        c.end.reset();
                        settle().await;
                    }
                    self.connect().await?;
                }
            }
        }
        Ok(())
    }
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut config = base_config();
    config.max_in_mem_pending_messages = case.cap as usize;
    config.max_inflight_client = case.window;
    config.max_inflight_server = u16::MAX;
    let mut out = Outcome::default();
    let res: Result<(), Failure> = rt.block_on(async {
        let global = Arc::new(GlobalState::new(config));
        let (end, _) = transport::open(&global, IdleHook { wait: false }, &Via::default(), vec![], vec![], 1);
        let mut q = Q {
            case: case.clone(),
            publisher: Client::new(case.pubver, end, &ConnOpts::default(), 10),
            global,
            sub: None,
            peers: 1,
            next: 1,
            pub_pid: 0,
            queue: vec![],
            dropped: 0,
            sent: 0,
        };
        q.run().await?;
        out.nontrivial = q.dropped > 0 || q.sent > 65535;
        out.tag_if(q.dropped > 0, "queue-full");
        out.tag_if(q.sent > 65535, "all-identifiers-used");
        Ok(())
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res?;
    Ok(out)
}

pub fn case(around: bool) -> BoxedStrategy<Case> {
    let ver = || prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 3 => Just(Ver::V5)];
    let op = prop_oneof![
        5 => (1u8..12).prop_map(Op::Pub),
        4 => any::<u8>().prop_map(Op::Ack),
        1 => Just(Op::AckAll),
        1 => Just(Op::Drop),
        1 => Just(Op::Connect),
    ];
    let ops = prop::collection::vec(op, 1..14);
    (ver(), ver(), 1u8..3, 1u16..8, 1u8..9, ops, (any::<prop::sample::Index>(), -12i8..12))
        .prop_map(move |(ver, pubver, qos, window, cap, mut ops, (at, d))| {
            if around {
                // the queue is full while the identifiers go around, then there is room again
                let mut all = ops.split_off(at.index(ops.len() + 1));
                all.extend([Op::Connect, Op::AckAll, Op::Pub(cap + 1), Op::Around(d)]);
                all.extend([Op::Ack(0), Op::Ack(0), Op::Pub(1), Op::Ack(0), Op::Pub(2), Op::Ack(1), Op::Pub(3)]);
                all.extend(ops);
                return Case { ver, pubver, qos, window: window.max(cap as u16 - 1), cap, ops: all };
            }
            Case { ver, pubver, qos, window, cap, ops }
        })
        .boxed()
}
