//! Message flow under back-pressure: slow and stalled readers, publishers that leave or are
//! taken over with messages still inside the broker, subscribers that break away. Nothing the
//! broker accepted may be lost, duplicated or reordered, and nobody may get stuck.
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, Instant};

use akasa_core::GlobalState;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::client::*;
use super::pipe;
use super::world::{IdleHook, Task, base_config, paused_rt, set_hooks, settle};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome, fail};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Peer {
    ver: Ver,
    /// 0: no subscription, 1: "t/#", 2: "t/0", 3: "t/1"
    sub: u8,
    qos: u8,
    persistent: bool,
    window: u16,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Bye {
    Normal,
    Eof,
    Reset,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Send { c: u8, n: u8, qos: u8, t: u8, len: u16 },
    /// stop reading; `cap`: what the network still takes
    Stall { c: u8, cap: u16 },
    Resume { c: u8 },
    /// read what is there once, although stalled
    Sip { c: u8 },
    Leave { c: u8, how: Bye },
    /// connect again (a take over if connected)
    Again { c: u8 },
    Settle,
    /// let time pass (threads: a few milliseconds)
    Wait { ms: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hooks: u8,
    read: Vec<usize>,
    write: Vec<usize>,
    peers: Vec<Peer>,
    ops: Vec<Op>,
    threads: bool,
    /// transports of the connections (cyclic; plain TCP if empty)
    #[serde(default)]
    via: Vec<super::transport::Via>,
}

const FILTERS: [&str; 4] = ["", "t/#", "t/0", "t/1"];
const TOPICS: [&str; 2] = ["t/0", "t/1"];

fn hit(sub: u8, t: u8) -> bool {
    match sub {
        0 => false,
        1 => true,
        _ => sub - 2 == t,
    }
}

#[derive(Clone, Debug)]
struct Sent {
    id: u32,
    qos: u8,
    t: u8,
}

/// One connection of a publisher.
#[derive(Default, Debug)]
struct Epoch {
    msgs: Vec<Sent>,
    /// ended by a reset or a take over: the broker may not have read everything
    cut: bool,
    /// this many are known to be processed
    acked: usize,
}

struct Node {
    p: Peer,
    id: String,
    conn: Option<Client>,
    task: Option<Task>,
    ready: bool,
    stalled: bool,
    epochs: Vec<Epoch>,
    next_pid: u16,
    out: HashMap<u16, (usize, usize, u8)>, // pid -> (epoch, index, qos)
    // as a subscriber
    got: Vec<(u32, u8)>, // (message, qos)
    seen: HashMap<u16, (u32, u8, usize)>, // pid -> (message, qos, connection)
    conns: usize,
    left: bool,
    gone: bool,
    pings: usize,
    /// the last connection we left
    leaving: Option<pipe::ClientEnd>,
}

struct Flow {
    global: Arc<GlobalState>,
    hook: IdleHook,
    case: Case,
    nodes: Vec<Node>,
    old: Vec<Task>,
    next_id: u32,
    peers: u16,
    moved: bool,
    blocked: bool,
}

fn id_of(payload: &[u8]) -> u32 {
    if payload.len() < 4 { u32::MAX } else { u32::from_be_bytes(payload[..4].try_into().unwrap()) }
}

fn body(id: u32, len: u16) -> Vec<u8> {
    let mut p = id.to_be_bytes().to_vec();
    p.extend((0..len).map(|i| (id as u8).wrapping_mul(7).wrapping_add(i as u8)));
    p
}

impl Flow {
    async fn settle(&self) {
        if self.case.threads {
            tokio::task::yield_now().await;
            std::thread::sleep(Duration::from_micros(100));
        } else {
            settle().await;
        }
    }

    fn connect(&mut self, c: usize) -> Result<(), Failure> {
        self.peers += 1;
        let via = if self.case.via.is_empty() { Default::default() } else { self.case.via[self.peers as usize % self.case.via.len()].clone() };
        let (end, task) = super::transport::open(&self.global, self.hook.clone(), &via, self.case.read.clone(), self.case.write.clone(), self.peers);
        let hooks = self.case.hooks;
        let n = &mut self.nodes[c];
        if let Some(end) = n.leaving.take() {
            // the new connection takes over before the rest was read; a message may
            // also be waiting in a hook
            if end.unread() > 0 || ((hooks == 2 || !self.case.via.is_empty()) && !end.gone()) {
                n.epochs.last_mut().unwrap().cut = true;
            }
        }
        if let Some(t) = n.task.replace(task) {
            self.old.push(t);
        }
        let o = ConnOpts {
            clean: !n.p.persistent,
            expiry: n.p.persistent.then_some(u32::MAX),
            recv_max: Some(n.p.window),
            ..Default::default()
        };
        end.send(&connect_packet(n.p.ver, &n.id, &o));
        let win = self.global.config.max_inflight_client;
        n.conn = Some(Client::new(n.p.ver, end, &o, win));
        n.ready = false;
        n.stalled = false;
        n.pings = 0;
        n.conns += 1;
        n.epochs.push(Epoch::default());
        n.out.clear();
        Ok(())
    }

    /// Read from everybody who is not stalled.
    fn read_all(&mut self) -> Result<(), Failure> {
        for c in 0..self.nodes.len() {
            if !self.nodes[c].stalled {
                self.read(c)?;
            }
        }
        Ok(())
    }

    fn read(&mut self, c: usize) -> Result<(), Failure> {
        let n = &mut self.nodes[c];
        let who = format!("{} ({:?})", n.id, n.p.ver);
        let Some(conn) = &mut n.conn else { return Ok(()) };
        let (k, evs) = conn.read().map_err(|mut f| {
            f.msg = format!("{who}: {}", f.msg);
            f
        })?;
        self.moved |= k > 0;
        for ev in evs {
            match ev {
                Ev::Connack { present, code, .. } => {
                    ensure!(code == 0, "connack", "{who}: CONNECT refused with {code:#x}");
                    if n.conns > 1 && n.p.ver != Ver::V310 {
                        ensure!(present == n.p.persistent, "session-present", "{who}: session present is {present}");
                    }
                    n.ready = true;
                }
                Ev::Publish(p) => {
                    let id = id_of(&p.payload);
                    if p.qos > 0 {
                        if let Some(&(old, q, at)) = n.seen.get(&p.pid) {
                            ensure!(
                                old == id && q == p.qos && p.dup && at < n.conns,
                                "pid-reuse",
                                "{who}: packet identifier {} carried message {old} (QoS {q}, connection {at}), now {id}: {p:?} (connection {})",
                                p.pid,
                                n.conns
                            );
                        } else {
                            ensure!(!p.dup || n.left, "dup-first", "{who}: DUP=1 on the first transmission of {id}");
                            n.got.push((id, p.qos));
                        }
                        n.seen.insert(p.pid, (id, p.qos, n.conns));
                        if p.qos == 1 {
                            conn.send(&ack_packet(n.p.ver, Ack::Puback, p.pid));
                            conn.done(p.pid);
                        } else {
                            conn.send(&ack_packet(n.p.ver, Ack::Pubrec, p.pid));
                        }
                    } else {
                        n.got.push((id, 0));
                    }
                }
                Ev::Pubrel(pid, 0) => {
                    conn.send(&ack_packet(n.p.ver, Ack::Pubcomp, pid));
                    conn.done(pid);
                }
                Ev::Puback(pid, code) | Ev::Pubrec(pid, code) => {
                    ensure!(code == 0 || code == 0x10, "ack-code", "{who}: {ev:?}");
                    let Some(&(e, i, q)) = n.out.get(&pid) else {
                        return fail("ack-unknown", format!("{who}: {ev:?}, nothing waits for it"));
                    };
                    n.epochs[e].acked = n.epochs[e].acked.max(i + 1);
                    if q == 1 {
                        ensure!(matches!(ev, Ev::Puback(..)), "ack-kind", "{who}: {ev:?} for QoS 1");
                        n.out.remove(&pid);
                    } else {
                        ensure!(matches!(ev, Ev::Pubrec(..)), "ack-kind", "{who}: {ev:?} for QoS 2");
                        conn.send(&ack_packet(n.p.ver, Ack::Pubrel, pid));
                    }
                }
                Ev::Pubcomp(pid, 0) => {
                    ensure!(n.out.remove(&pid).is_some(), "ack-unknown", "{who}: PUBCOMP {pid}");
                }
                Ev::Suback(_, codes) => {
                    ensure!(codes == [n.p.qos], "suback", "{who}: SUBACK {codes:?}, asked for QoS {}", n.p.qos);
                }
                Ev::Pingresp => {
                    ensure!(n.pings > 0, "pingresp", "{who}: PINGRESP without PINGREQ");
                    n.pings -= 1;
                }
                other => return fail("unexpected", format!("{who}: the broker sent {other:?}")),
            }
        }
        Ok(())
    }

    fn step(&mut self, op: &Op) -> Result<(), Failure> {
        let k = self.nodes.len();
        match *op {
            Op::Send { c, n, qos, t, len } => {
                let node = &mut self.nodes[c as usize % k];
                let Some(conn) = &node.conn else { return Ok(()) };
                let mut data = Vec::new();
                for _ in 0..n {
                    let id = self.next_id;
                    self.next_id += 1;
                    let e = node.epochs.len() - 1;
                    let mut o = OutPub {
                        dup: false,
                        qos,
                        pid: 0,
                        retain: false,
                        topic: TOPICS[t as usize].to_string(),
                        alias: None,
                        short: false,
                        payload: body(id, len),
                        props: Props::default(),
                    };
                    if qos > 0 {
                        o.pid = node.next_pid;
                        node.next_pid += 1;
                        node.out.insert(o.pid, (e, node.epochs[e].msgs.len(), qos));
                    }
                    node.epochs[e].msgs.push(Sent { id, qos, t });
                    data.extend(publish_packet(node.p.ver, &o));
                }
                conn.send(&data);
            }
            Op::Stall { c, cap } => {
                let n = &mut self.nodes[c as usize % k];
                if let (Some(conn), true) = (&n.conn, n.ready) {
                    n.stalled = true;
                    conn.end.set_cap(cap as usize);
                    self.blocked = true;
                }
            }
            Op::Resume { c } => {
                let n = &mut self.nodes[c as usize % k];
                if let (Some(conn), true) = (&n.conn, n.stalled) {
                    n.stalled = false;
                    conn.end.set_cap(usize::MAX);
                }
            }
            Op::Sip { c } => {
                if self.nodes[c as usize % k].stalled {
                    self.read(c as usize % k)?;
                }
            }
            Op::Leave { c, how } => {
                let n = &mut self.nodes[c as usize % k];
                if n.ready
                    && let Some(conn) = n.conn.take()
                {
                    n.ready = false;
                    n.stalled = false;
                    n.left = true;
                    n.gone |= !n.p.persistent;
                    match how {
                        Bye::Normal => {
                            conn.send(&disconnect_packet(n.p.ver, 0, None));
                            conn.end.eof();
                        }
                        Bye::Eof => conn.end.eof(),
                        Bye::Reset => {
                            n.epochs.last_mut().unwrap().cut = true;
                            conn.end.reset();
                        }
                    }
                    // nobody reads any more, the network swallows it
                    conn.end.set_cap(usize::MAX);
                    n.leaving = Some(conn.end.clone());
                }
            }
            Op::Again { c } => {
                let n = &mut self.nodes[c as usize % k];
                if n.ready || n.conn.is_none() {
                    if n.conn.take().is_some() {
                        n.epochs.last_mut().unwrap().cut = true;
                    }
                    n.left = true;
                    n.gone |= !n.p.persistent;
                    self.connect(c as usize % k)?;
                }
            }
            Op::Settle | Op::Wait { .. } => {}
        }
        Ok(())
    }

    async fn run(&mut self) -> Result<(), Failure> {
        for c in 0..self.nodes.len() {
            self.connect(c)?;
            let n = &self.nodes[c];
            if n.p.sub > 0 {
                let subs = [SubReq { filter: FILTERS[n.p.sub as usize].into(), qos: n.p.qos, no_local: false, rap: false, rh: 0 }];
                n.conn.as_ref().unwrap().send(&subscribe_packet(n.p.ver, 60000, &subs, None));
            }
            n.conn.as_ref().unwrap().send(&ping_packet(n.p.ver));
            self.nodes[c].pings = 1;
        }
        let t0 = Instant::now();
        while self.nodes.iter().any(|n| n.pings > 0) {
            self.settle().await;
            self.read_all()?;
            ensure!(t0.elapsed() < Duration::from_secs(30), "hang", "clients could not connect and subscribe");
        }
        let ops = self.case.ops.clone();
        for op in &ops {
            self.step(op)?;
            match op {
                Op::Settle => {
                    self.settle().await;
                    self.read_all()?;
                }
                Op::Wait { ms } => {
                    if self.case.threads {
                        std::thread::sleep(Duration::from_millis((*ms as u64).min(3)));
                    } else {
                        tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
                    }
                    self.read_all()?;
                }
                _ => {}
            }
        }
        // everybody reads, everybody comes back
        for n in &mut self.nodes {
            n.stalled = false;
            if let Some(conn) = &n.conn {
                conn.end.set_cap(usize::MAX);
            }
        }
        self.quiet().await?;
        for c in 0..self.nodes.len() {
            if self.nodes[c].conn.is_none() {
                self.nodes[c].left = true;
                self.connect(c)?;
            }
        }
        self.quiet().await?;
        for n in &mut self.nodes {
            ensure!(n.ready, "no-connack", "{}: no CONNACK", n.id);
            n.pings += 1;
            n.conn.as_ref().unwrap().send(&ping_packet(n.p.ver));
        }
        self.quiet().await?;
        self.verdict()?;
        // all leave
        for n in &mut self.nodes {
            let expiry = (n.p.ver.is5() && n.p.persistent).then_some(0);
            n.conn.as_ref().unwrap().send(&disconnect_packet(n.p.ver, 0, expiry));
            n.conn.as_ref().unwrap().end.eof();
            self.old.push(n.task.take().unwrap());
        }
        let t0 = Instant::now();
        while self.old.iter().any(|t| !t.is_finished()) {
            if self.case.threads {
                ensure!(t0.elapsed() < Duration::from_secs(30), "task-alive", "a connection task is still running");
            } else {
                ensure!(t0.elapsed() < Duration::from_secs(5), "task-alive", "a connection task is still running");
            }
            self.settle().await;
        }
        for t in self.old.drain(..) {
            if let Err(e) = t.await {
                return fail("panic", format!("a connection task panicked: {e}"));
            }
        }
        // sessions of v3 clients stay
        let stay = self.nodes.iter().filter(|n| !n.p.ver.is5() && n.p.persistent).count();
        let t0 = Instant::now();
        while self.global.clients_count() != stay && self.case.threads && t0.elapsed() < Duration::from_secs(10) {
            self.settle().await;
        }
        ensure!(
            self.global.clients_count() == stay && self.global.online_clients_count() == 0,
            "leftover",
            "{} sessions ({} online) after everybody left, expected {stay} (0)",
            self.global.clients_count(),
            self.global.online_clients_count()
        );
        Ok(())
    }

    /// What still has to happen.
    fn unfinished(&self) -> Option<String> {
        for n in &self.nodes {
            if n.conn.is_some() && !n.ready {
                return Some(format!("{}: CONNACK", n.id));
            }
            if n.pings > 0 {
                return Some(format!("{}: PINGRESP", n.id));
            }
            if n.conn.is_some() && !n.out.is_empty() {
                return Some(format!("{}: acknowledgements of {:?}", n.id, n.out));
            }
        }
        self.verdict().err().map(|f| f.msg)
    }

    /// Until nothing moves any more (threads: until nothing is missing).
    async fn quiet(&mut self) -> Result<(), Failure> {
        if self.case.threads {
            let t0 = Instant::now();
            loop {
                self.settle().await;
                self.read_all()?;
                if self.unfinished().is_none() {
                    break;
                }
                // a subscriber may be away: then a while without any movement is the end
                if self.nodes.iter().any(|n| n.conn.is_none()) && t0.elapsed() > Duration::from_millis(20) {
                    break;
                }
                if t0.elapsed() > Duration::from_secs(30) {
                    break;
                }
            }
            for _ in 0..5 {
                self.settle().await;
                self.read_all()?;
            }
        } else {
            let mut idle = 0;
            while idle < 4 {
                self.moved = false;
                if idle == 2 {
                    tokio::time::sleep(Duration::from_secs(3)).await;
                }
                self.settle().await;
                self.read_all()?;
                idle = if self.moved { 0 } else { idle + 1 };
            }
        }
        Ok(())
    }

    fn verdict(&self) -> Result<(), Failure> {
        for n in &self.nodes {
            ensure!(n.pings == 0, "no-pingresp", "{}: no PINGRESP", n.id);
            ensure!(n.out.is_empty(), "no-ack", "{}: no acknowledgement for {:?}", n.id, n.out);
            let Some(conn) = &n.conn else { continue };
            ensure!(!conn.end.closed(), "closed", "{}: the broker closed the connection", n.id);
            ensure!(conn.partial() == 0, "partial", "{}: the broker sent an incomplete packet", n.id);
        }
        // where is each message: (publisher, epoch, index)
        let mut place: HashMap<u32, (usize, usize, usize)> = HashMap::new();
        for (a, n) in self.nodes.iter().enumerate() {
            for (b, e) in n.epochs.iter().enumerate() {
                for (i, m) in e.msgs.iter().enumerate() {
                    place.insert(m.id, (a, b, i));
                }
            }
        }
        let mut upto: HashMap<(usize, usize), usize> = HashMap::new();
        for (a, n) in self.nodes.iter().enumerate() {
            for (b, e) in n.epochs.iter().enumerate() {
                upto.insert((a, b), if e.cut { e.acked } else { e.msgs.len() });
            }
        }
        // what anybody received was processed, and so was everything before it
        for n in &self.nodes {
            let mut last: HashMap<(usize, bool), (usize, usize)> = HashMap::new();
            let mut once = std::collections::HashSet::new();
            for &(id, q) in &n.got {
                let Some(&(a, b, i)) = place.get(&id) else {
                    return fail("unexpected-message", format!("{} received a message nobody sent ({id})", n.id));
                };
                let m = &self.nodes[a].epochs[b].msgs[i];
                ensure!(hit(n.p.sub, m.t), "unexpected-message", "{} received message {id} on {} (subscription {})", n.id, m.t, n.p.sub);
                ensure!(q == m.qos.min(n.p.qos), "wrong-qos", "{} received message {id} with QoS {q}", n.id);
                ensure!(once.insert(id), "duplicate", "{} received message {id} (QoS {q}) twice", n.id);
                let u = upto.get_mut(&(a, b)).unwrap();
                *u = (*u).max(i + 1);
                let l = last.entry((a, q > 0)).or_insert((0, 0));
                ensure!((b, i) >= *l, "order", "{} received message {id} of {} after a later one", n.id, self.nodes[a].id);
                *l = (b, i);
            }
        }
        for n in &self.nodes {
            if n.p.sub == 0 || n.gone {
                continue;
            }
            let got: std::collections::HashSet<u32> = n.got.iter().map(|(i, _)| *i).collect();
            for (&(a, b), &u) in &upto {
                for m in &self.nodes[a].epochs[b].msgs[..u] {
                    let q = m.qos.min(n.p.qos);
                    if hit(n.p.sub, m.t) && (q > 0 || !n.left) {
                        ensure!(
                            got.contains(&m.id),
                            "lost",
                            "{} ({:?}) did not receive message {} (QoS {q}) of {} (connection {b}, {} of {} messages known to be accepted)",
                            n.id,
                            n.p.ver,
                            m.id,
                            self.nodes[a].id,
                            u,
                            self.nodes[a].epochs[b].msgs.len()
                        );
                    }
                }
            }
        }
        Ok(())
    }
}

pub fn run(case: &Case) -> CaseResult {
    let rt = if case.threads {
        tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_time().build().unwrap()
    } else {
        paused_rt()
    };
    let mut config = base_config();
    set_hooks(&mut config, case.hooks > 0);
    config.max_inflight_server = u16::MAX;
    config.max_inflight_client = 20;
    let mut out = Outcome::default();
    let res: Result<(), Failure> = rt.block_on(async {
        let mut f = Flow {
            global: Arc::new(GlobalState::new(config)),
            hook: IdleHook { wait: case.hooks == 2 },
            case: case.clone(),
            nodes: case
                .peers
                .iter()
                .enumerate()
                .map(|(i, p)| Node {
                    p: p.clone(),
                    id: client_name(i),
                    conn: None,
                    task: None,
                    ready: false,
                    stalled: false,
                    epochs: vec![],
                    next_pid: 1,
                    out: HashMap::new(),
                    got: vec![],
                    seen: HashMap::new(),
                    conns: 0,
                    left: false,
                    gone: false,
                    pings: 0,
                    leaving: None,
                })
                .collect(),
            old: vec![],
            next_id: 1,
            peers: 0,
            moved: false,
            blocked: false,
        };
        f.run().await?;
        let sent: usize = f.nodes.iter().flat_map(|n| &n.epochs).map(|e| e.msgs.len()).sum();
        let got: usize = f.nodes.iter().map(|n| n.got.len()).sum();
        out.nontrivial = sent >= 20 && got >= 10 && (f.blocked || f.nodes.iter().any(|n| n.left));
        out.tag_if(f.blocked, "stalled-reader");
        out.tag_if(f.nodes.iter().any(|n| n.epochs.iter().any(|e| e.cut)), "cut-connection");
        out.tag_if(sent > 100, "over-100-messages");
        out.tag_if(f.nodes.iter().any(|n| n.p.sub > 0 && n.epochs.iter().any(|e| !e.msgs.is_empty())), "own-subscription");
        Ok(())
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res?;
    Ok(out)
}

fn peer() -> impl Strategy<Value = Peer> {
    (
        prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 3 => Just(Ver::V5)],
        prop_oneof![2 => Just(0u8), 3 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)],
        0u8..3,
        any::<bool>(),
        prop::sample::select(vec![1u16, 3, 20, 1000]),
    )
        .prop_map(|(ver, sub, qos, persistent, window)| Peer { ver, sub, qos, persistent, window })
}

pub fn case(depth: usize, threads: bool, via: bool) -> BoxedStrategy<Case> {
    let chunk = || prop_oneof![
        2 => Just(vec![]),
        1 => prop::collection::vec(prop::sample::select(vec![1usize, 2, 3, 5, 7, 16, 64, 1000, 0]), 1..5),
    ];
    let c = || 0u8..4;
    let bye = prop_oneof![2 => Just(Bye::Normal), 2 => Just(Bye::Eof), 2 => Just(Bye::Reset)];
    let op = prop_oneof![
        8 => (c(), 1u8..14, 0u8..3, 0u8..2, prop_oneof![4 => 0u16..30, 1 => prop::sample::select(vec![120u16, 700, 2040, 5000])])
            .prop_map(|(c, n, qos, t, len)| Op::Send { c, n, qos, t, len }),
        1 => (c(), 15u8..60, 0u8..3, 0u8..2, 0u16..8).prop_map(|(c, n, qos, t, len)| Op::Send { c, n, qos, t, len }),
        3 => (c(), prop_oneof![Just(0u16), 1u16..200, Just(3000u16)]).prop_map(|(c, cap)| Op::Stall { c, cap }),
        2 => c().prop_map(|c| Op::Resume { c }),
        1 => c().prop_map(|c| Op::Sip { c }),
        2 => (c(), bye).prop_map(|(c, how)| Op::Leave { c, how }),
        2 => c().prop_map(|c| Op::Again { c }),
        5 => Just(Op::Settle),
        1 => prop::sample::select(vec![1u16, 2, 50, 500]).prop_map(|ms| Op::Wait { ms }),
    ];
    let vias = if via { prop::collection::vec(super::transport::via(), 1..4).boxed() } else { Just(vec![]).boxed() };
    (0u8..3, chunk(), chunk(), prop::collection::vec(peer(), 2..5), prop::collection::vec(op, 4..40 * depth), vias)
        .prop_map(move |(hooks, read, write, peers, ops, via)| Case { hooks, read, write, peers, ops, threads, via })
        .boxed()
}
