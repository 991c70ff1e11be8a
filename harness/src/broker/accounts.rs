//! Who is known and who is online: connections of a few clients that fail at every possible
//! point, take each other over and race, with hooks that refuse, fail and take their time.
use std::collections::HashMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use akasa_core::mqtt_proto::{v3, v5};
use akasa_core::{GlobalState, Hook, HookAction, HookConnectCode, HookError, HookResult, SessionV3, SessionV5};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::Instant;

use super::client::*;
use super::transport::{self, Via};
use super::world::{Task, base_config, paused_rt, settle};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome, fail};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    None,
    /// the connection breaks after the broker wrote this many bytes
    Cut(u8),
    /// the client reads nothing behind the CONNACK
    Stuck,
    /// only so much of the CONNECT arrives, then the end of the stream (or a reset)
    Part(u8, bool),
    /// the connection breaks right after the CONNECT; whether the broker got it
    Reset(bool),
    /// the stream ends right after the CONNECT
    Eof,
    /// something follows the CONNECT at once which breaks the protocol
    Junk,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Verdict {
    Yes,
    No,
    Fail,
}

/// What the hooks do with a connection.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Plan {
    before: Verdict,
    after: bool,
    /// milliseconds
    slow: (u8, u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    Disconnect,
    DisconnectExpiry(u32),
    Eof,
    Reset,
    Junk,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// `n` connections of a client at the same time
    Connect { c: u8, n: u8, v310: bool, clean: bool, expiry: u32, will: bool, fault: Fault, plan: Plan },
    Leave { c: u8, how: How },
    /// messages for a client
    Feed { c: u8, n: u8 },
    Wait(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    v5: Vec<bool>,
    /// before, after connect, after disconnect
    on: [bool; 3],
    gone_fails: bool,
    limit: Option<u32>,
    ops: Vec<Op>,
}

#[derive(Default)]
struct Book {
    plans: HashMap<u16, Plan>,
    /// peer, event
    log: Vec<(u16, &'static str)>,
    gone_fails: bool,
}

#[derive(Clone)]
struct Clerk(Arc<Mutex<Book>>);

impl Clerk {
    fn plan(&self, peer: SocketAddr) -> Option<Plan> {
        self.0.lock().unwrap().plans.get(&peer.port()).copied()
    }
    async fn before(&self, peer: SocketAddr) -> HookResult<HookConnectCode> {
        let Some(p) = self.plan(peer) else { return Ok(HookConnectCode::Success) };
        tokio::time::sleep(Duration::from_millis(p.slow.0 as u64)).await;
        match p.before {
            Verdict::Yes => Ok(HookConnectCode::Success),
            Verdict::No => Ok(HookConnectCode::NotAuthorized),
            Verdict::Fail => Err(HookError::Internal),
        }
    }
    async fn after(&self, peer: SocketAddr) -> HookResult<Vec<HookAction>> {
        let Some(p) = self.plan(peer) else { return Ok(vec![]) };
        tokio::time::sleep(Duration::from_millis(p.slow.1 as u64)).await;
        self.0.lock().unwrap().log.push((peer.port(), if p.after { "connected" } else { "failed" }));
        if p.after { Ok(vec![]) } else { Err(HookError::Internal) }
    }
    fn gone(&self, peer: SocketAddr) -> HookResult<()> {
        let mut b = self.0.lock().unwrap();
        if b.plans.contains_key(&peer.port()) {
            b.log.push((peer.port(), "gone"));
            if b.gone_fails {
                return Err(HookError::Internal);
            }
        }
        Ok(())
    }
}

impl Hook for Clerk {
    async fn v3_before_connect(&self, peer: SocketAddr, _: &v3::Connect) -> HookResult<HookConnectCode> {
        self.before(peer).await
    }
    async fn v5_before_connect(&self, peer: SocketAddr, _: &v5::Connect) -> HookResult<HookConnectCode> {
        self.before(peer).await
    }
    async fn v3_after_connect(&self, s: &SessionV3, _: bool) -> HookResult<Vec<HookAction>> {
        self.after(s.peer).await
    }
    async fn v5_after_connect(&self, s: &SessionV5, _: bool) -> HookResult<Vec<HookAction>> {
        self.after(s.peer).await
    }
    async fn v3_after_disconnect(&self, s: &SessionV3, _: bool) -> HookResult<()> {
        self.gone(s.peer)
    }
    async fn v5_after_disconnect(&self, s: &SessionV5, _: bool) -> HookResult<()> {
        self.gone(s.peer)
    }
}

/// Until when a session without a connection exists.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Until {
    Forever,
    At(Instant),
}

#[derive(Default)]
struct Slot {
    /// the connection in use
    me: Option<Client>,
    stuck: bool,
    /// what becomes of the session: None: it ends with the connection
    keeps: Option<u32>,
    stored: Option<Until>,
}

struct N<'a> {
    case: &'a Case,
    global: Arc<GlobalState>,
    clerk: Clerk,
    slots: Vec<Slot>,
    watcher: Client,
    tasks: Vec<(u16, Task)>,
    peers: u16,
    pid: u16,
    out: Outcome,
}

/// In v3 there is no interval.
const FOREVER: u32 = u32::MAX;

impl N<'_> {
    fn ver(&self, c: usize, v310: bool) -> Ver {
        match (self.case.v5[c], v310) {
            (true, _) => Ver::V5,
            (_, true) => Ver::V310,
            _ => Ver::V311,
        }
    }

    /// The connection of a client has ended.
    fn ended(&mut self, c: usize) {
        let s = &mut self.slots[c];
        s.stuck = false;
        s.stored = s.keeps.map(|t| match t {
            FOREVER => Until::Forever,
            t => Until::At(Instant::now() + Duration::from_secs(t as u64)),
        });
    }

    async fn check(&mut self) -> Result<(), Failure> {
        for _ in 0..3 {
            settle().await;
        }
        for (k, s) in self.slots.iter_mut().enumerate() {
            let Some(me) = &mut s.me else { continue };
            ensure!(!me.end.closed(), "closed", "the connection of client {k} was closed");
            if s.stuck {
                continue;
            }
            for e in me.read()?.1 {
                match e {
                    Ev::Publish(p) if p.qos > 0 => {
                        me.send(&ack_packet(me.ver, Ack::Puback, p.pid));
                        me.done(p.pid);
                    }
                    Ev::Suback(..) => {}
                    e => return fail("unexpected", format!("client {k} received {e:?}")),
                }
            }
        }
        settle().await;
        for e in self.watcher.read()?.1 {
            ensure!(matches!(e, Ev::Puback(..)), "watcher", "the watcher received {e:?}");
        }
        for (peer, t) in std::mem::take(&mut self.tasks) {
            if t.is_finished() {
                if let Err(e) = t.await {
                    return fail("panic", format!("the task of connection {peer} panicked: {e}"));
                }
            } else {
                self.tasks.push((peer, t));
            }
        }
        let online = 1 + self.slots.iter().filter(|s| s.me.is_some()).count();
        let soon = Duration::from_secs(1);
        let now = Instant::now();
        let (mut least, mut most) = (online, online);
        for s in self.slots.iter().filter(|s| s.me.is_none()) {
            match s.stored {
                None => {}
                Some(Until::At(t)) if t + soon < now => {}
                Some(Until::At(t)) if t <= now + soon => most += 1,
                _ => {
                    least += 1;
                    most += 1;
                }
            }
        }
        let g = &self.global;
        ensure!(
            g.online_clients_count() as usize == online && self.tasks.len() == online,
            "online",
            "{online} clients are connected, online_clients_count() = {}, {} connection tasks",
            g.online_clients_count(),
            self.tasks.len()
        );
        ensure!(
            (least..=most).contains(&g.clients_count()),
            "clients",
            "{least} to {most} clients have a session, clients_count() = {}",
            g.clients_count()
        );
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    async fn connect(&mut self, c: usize, n: usize, v310: bool, clean: bool, expiry: u32, will: bool, fault: Fault, plan: Plan) -> Result<(), Failure> {
        let ver = self.ver(c, v310);
        // (a client that was sent a DISCONNECT has a second to close)
        let n = if fault == Fault::Junk { 1 } else { n };
        let o = ConnOpts {
            clean,
            expiry: ver.is5().then_some(expiry),
            will: will.then(|| Will { topic: "nowhere".into(), qos: 1, ..Default::default() }),
            ..Default::default()
        };
        let data = connect_packet(ver, &client_name(c), &o);
        let mut new = vec![];
        for _ in 0..n {
            self.peers += 1;
            self.clerk.0.lock().unwrap().plans.insert(10000 + self.peers, plan);
            let (end, task) = transport::open(&self.global, self.clerk.clone(), &Via::default(), vec![], vec![], self.peers);
            self.tasks.push((self.peers, task));
            let me = Client::new(ver, end, &o, 1000);
            match fault {
                Fault::Cut(n) => me.end.cut_after(n as usize),
                Fault::Stuck => me.end.set_cap(100),
                _ => {}
            }
            match fault {
                Fault::Part(n, eof) => {
                    me.end.send(&data[..n as usize % data.len()]);
                    if eof {
                        me.end.eof();
                    } else {
                        settle().await;
                        me.end.reset();
                    }
                }
                _ => me.send(&data),
            }
            match fault {
                Fault::Reset(seen) => {
                    if seen {
                        settle().await;
                    }
                    me.end.reset();
                }
                Fault::Eof => me.end.eof(),
                Fault::Junk => me.send(&[0xf0, 0xff, 0xff, 0xff, 0xff, 0x01]),
                _ => {}
            }
            new.push(me);
        }
        let [before, after, _] = self.case.on;
        let slow = plan.slow.0 as u64 * before as u64 + plan.slow.1 as u64 * after as u64;
        tokio::time::sleep(Duration::from_millis((n as u64 + 1) * (slow + 2))).await;
        let mut accepted = vec![];
        let mut entered = false;
        for (i, mut me) in new.into_iter().enumerate() {
            let evs = me.read()?.1;
            let code = match evs.first() {
                None => None,
                Some(Ev::Connack { code, .. }) => Some(*code),
                Some(e) => return fail("connack", format!("client {c} received {e:?}")),
            };
            // (refused ones never entered)
            let refused = before && plan.before != Verdict::Yes;
            match fault {
                Fault::Part(..) => {
                    ensure!(code.is_none() && me.end.closed(), "partial", "client {c} sent half a CONNECT and received {evs:?}, closed: {}", me.end.closed());
                    me.end.reset();
                    continue;
                }
                _ if refused => {
                    let ok = match code {
                        None => plan.before == Verdict::Fail || me.end.broken(),
                        Some(code) => plan.before == Verdict::No && code == if ver.is5() { 0x87 } else { 5 },
                    };
                    ensure!(ok && me.end.closed(), "refused", "client {c} was refused and received {evs:?}, closed: {}", me.end.closed());
                    me.end.reset();
                    self.out.tag("refused");
                    continue;
                }
                Fault::Reset(false) => {
                    ensure!(code.is_none() && me.end.closed(), "reset", "client {c} broke off before the CONNECT and received {evs:?}");
                    continue;
                }
                _ => {}
            }
            entered = true;
            let dies = matches!(fault, Fault::Eof | Fault::Junk) || after && !plan.after || me.end.broken();
            if dies {
                ensure!(me.end.closed(), "open", "the connection {i} of client {c} is open, it received {evs:?}");
                me.end.reset();
                self.out.tag("died-early");
                continue;
            }
            ensure!(code == Some(0), "connack", "the connection {i} of client {c} received {evs:?}");
            me.end.cut_after(usize::MAX / 2);
            if !me.end.closed() {
                accepted.push(me);
            }
        }
        if !entered {
            return self.check().await;
        }
        ensure!(accepted.len() <= 1, "several", "{} connections of client {c} are open", accepted.len());
        self.out.tag_if(n > 1, "race");
        let s = &mut self.slots[c];
        if let Some(old) = s.me.take() {
            ensure!(old.end.closed(), "takeover-open", "the old connection of client {c} is open");
            self.out.tag("take-over");
            old.end.reset();
        }
        s.keeps = match (ver.is5(), clean) {
            (true, _) => Some(self.case.limit.map_or(expiry, |l| l.min(expiry))).filter(|e| *e > 0),
            (false, true) => None,
            (false, false) => Some(FOREVER),
        };
        s.stuck = fault == Fault::Stuck;
        match accepted.pop() {
            Some(me) => {
                if !s.stuck {
                    me.send(&subscribe_packet(ver, 9, &[SubReq { filter: format!("for/{c}/#"), qos: 1, rh: 2, ..Default::default() }], None));
                }
                s.me = Some(me);
                s.stored = None;
            }
            None => {
                ensure!(
                    matches!(fault, Fault::Eof | Fault::Junk | Fault::Reset(_) | Fault::Cut(_)) || after && !plan.after,
                    "none",
                    "no connection of client {c} is open after {n} were made"
                );
                self.ended(c);
            }
        }
        self.check().await
    }

    async fn op(&mut self, op: &Op) -> Result<(), Failure> {
        let k = self.slots.len();
        match op {
            Op::Connect { c, n, v310, clean, expiry, will, fault, plan } => {
                return self.connect(*c as usize % k, 1 + *n as usize % 4, *v310, *clean, *expiry, *will, *fault, *plan).await;
            }
            Op::Leave { c, how } => {
                let c = *c as usize % k;
                let s = &mut self.slots[c];
                let Some(me) = s.me.take() else { return Ok(()) };
                match how {
                    _ if s.stuck => {
                        self.out.tag("stuck");
                        me.end.reset();
                    }
                    How::Disconnect => me.send(&disconnect_packet(me.ver, 0, None)),
                    How::DisconnectExpiry(e) if me.ver.is5() && s.keeps.is_some() => {
                        me.send(&disconnect_packet(me.ver, 0, Some(*e)));
                        s.keeps = Some(self.case.limit.map_or(*e, |l| l.min(*e))).filter(|e| *e > 0);
                    }
                    How::DisconnectExpiry(_) | How::Eof => me.end.eof(),
                    How::Reset => me.end.reset(),
                    How::Junk => me.send(&[0xf0, 0xff, 0xff, 0xff, 0xff, 0x01]),
                }
                settle().await;
                ensure!(me.end.closed(), "open", "the connection of client {c} is open after {how:?}");
                me.end.reset();
                self.ended(c);
            }
            Op::Feed { c, n } => {
                let c = *c as usize % k;
                if self.slots[c].stuck {
                    // (the watcher would have to wait)
                    return Ok(());
                }
                for _ in 0..*n % 4 {
                    self.pid = self.pid % 60000 + 1;
                    let m = OutPub { qos: 1, pid: self.pid, topic: format!("for/{c}"), payload: vec![b'x'; 60], ..Default::default() };
                    self.watcher.send(&publish_packet(Ver::V5, &m));
                }
            }
            Op::Wait(secs) => tokio::time::sleep(Duration::from_secs(*secs as u64)).await,
        }
        self.check().await
    }
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut config = base_config();
    let [bc, ac, ad] = case.on;
    config.hook.enable_before_connect = bc;
    config.hook.enable_after_connect = ac;
    config.hook.enable_after_disconnect = ad;
    if let Some(l) = case.limit {
        config.max_session_expiry_interval = l;
    }
    let res = rt.block_on(async {
        let global = Arc::new(GlobalState::new(config));
        let clerk = Clerk(Arc::new(Mutex::new(Book { gone_fails: case.gone_fails, ..Default::default() })));
        let (end, task) = transport::open(&global, clerk.clone(), &Via::default(), vec![], vec![], 1);
        let o = ConnOpts { clean: true, ..Default::default() };
        let mut watcher = Client::new(Ver::V5, end, &o, 100);
        watcher.send(&connect_packet(Ver::V5, "watcher", &o));
        settle().await;
        let evs = watcher.read()?.1;
        ensure!(evs.len() == 1, "setup", "the watcher received {evs:?}");
        let slots = case.v5.iter().map(|_| Slot::default()).collect();
        let mut n = N { case, global, clerk, slots, watcher, tasks: vec![(1, task)], peers: 1, pid: 0, out: Outcome::default() };
        for op in &case.ops {
            n.op(op).await?;
        }
        // everybody can come back, and nothing is left when all have gone for good
        let plan = Plan { before: Verdict::Yes, after: true, slow: (0, 0) };
        for c in 0..n.slots.len() {
            n.connect(c, 1, false, true, 0, false, Fault::None, plan).await?;
            n.op(&Op::Leave { c: c as u8, how: How::Disconnect }).await?;
        }
        let g = &n.global;
        ensure!(g.clients_count() == 1 && g.online_clients_count() == 1, "left", "{} clients and {} online are left", g.clients_count(), g.online_clients_count());
        for c in 0..n.slots.len() {
            let m = OutPub { qos: 1, pid: 60001, topic: format!("for/{c}"), ..Default::default() };
            n.watcher.send(&publish_packet(Ver::V5, &m));
            settle().await;
            let evs = n.watcher.read()?.1;
            ensure!(matches!(evs[..], [Ev::Puback(60001, 0x10)]), "routes", "a message nobody subscribes to was answered with {evs:?}");
        }
        // every connection the hooks were told of was reported to have ended, once
        let book = n.clerk.0.lock().unwrap();
        for peer in book.plans.keys() {
            let log: Vec<_> = book.log.iter().filter(|l| l.0 == *peer).map(|l| l.1).collect();
            let ok = match (&log[..], case.on) {
                ([] | ["failed"], _) => true,
                (["connected"], [_, true, false]) => true,
                (["gone"], [_, false, true]) => true,
                (["connected", "gone"], [_, true, true]) => true,
                _ => false,
            };
            ensure!(ok, "hooks", "the hooks of connection {peer} were called: {log:?}");
        }
        drop(book);
        n.out.nontrivial = ["died-early", "race", "refused"].iter().any(|t| n.out.tags.contains(t));
        Ok(n.out)
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res
}

fn plan() -> BoxedStrategy<Plan> {
    (
        prop_oneof![10 => Just(Verdict::Yes), 1 => Just(Verdict::No), 1 => Just(Verdict::Fail)],
        prop::bool::weighted(0.85),
        (prop_oneof![Just(0u8), 0u8..6], prop_oneof![Just(0u8), 0u8..6]),
    )
        .prop_map(|(before, after, slow)| Plan { before, after, slow })
        .boxed()
}

pub fn case() -> BoxedStrategy<Case> {
    let c = || 0u8..3;
    let expiry = || prop_oneof![2 => Just(0u32), 4 => 2u32..20, 1 => Just(u32::MAX)];
    let fault = prop_oneof![
        5 => Just(Fault::None),
        4 => prop_oneof![0u8..60, any::<u8>()].prop_map(Fault::Cut),
        1 => Just(Fault::Stuck),
        1 => (any::<u8>(), any::<bool>()).prop_map(|(n, e)| Fault::Part(n, e)),
        2 => any::<bool>().prop_map(Fault::Reset),
        1 => Just(Fault::Eof),
        1 => Just(Fault::Junk),
    ];
    let how = prop_oneof![
        2 => Just(How::Disconnect),
        1 => expiry().prop_map(How::DisconnectExpiry),
        1 => Just(How::Eof),
        1 => Just(How::Reset),
        1 => Just(How::Junk),
    ];
    let n = prop_oneof![3 => Just(0u8), 1 => 1u8..4];
    let op = prop_oneof![
        8 => (c(), n, any::<bool>(), any::<bool>(), expiry(), any::<bool>(), fault, plan())
            .prop_map(|(c, n, v310, clean, expiry, will, fault, plan)| Op::Connect { c, n, v310, clean, expiry, will, fault, plan }),
        3 => (c(), how).prop_map(|(c, how)| Op::Leave { c, how }),
        3 => (c(), 1u8..4).prop_map(|(c, n)| Op::Feed { c, n }),
        2 => (1u8..25).prop_map(Op::Wait),
    ];
    let on = prop::collection::vec(prop::bool::weighted(0.7), 3).prop_map(|v| v.try_into().unwrap());
    (
        prop::collection::vec(any::<bool>(), 3),
        on,
        prop::bool::weighted(0.2),
        prop::option::weighted(0.3, 1u32..12),
        prop::collection::vec(op, 2..20),
    )
        .prop_map(|(v5, on, gone_fails, limit, ops)| Case { v5, on, gone_fails, limit, ops })
        .boxed()
}

// ------------------------------------------------------------------ on several threads

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conn {
    c: u8,
    clean: bool,
    expiry: u32,
    /// yields before it starts
    after: u8,
    /// 0: the connection breaks at once, 1: after the CONNACK, 2: DISCONNECT after it,
    /// 3: DISCONNECT at once, 4: stays until it is taken over or the others have ended
    how: u8,
    /// yields before the end
    then: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Storm {
    v5: Vec<bool>,
    conns: Vec<Conn>,
}

async fn one(global: Arc<GlobalState>, hook: super::world::IdleHook, v5: bool, i: u16, k: Conn, stop: tokio::sync::watch::Receiver<bool>) -> Result<(), Failure> {
    use tokio::io::AsyncReadExt;
    for _ in 0..k.after {
        tokio::task::yield_now().await;
    }
    let ver = if v5 { Ver::V5 } else { Ver::V311 };
    let o = ConnOpts { clean: k.clean, expiry: v5.then_some(k.expiry), ..Default::default() };
    let (end, task) = transport::open(&global, hook, &Via::default(), vec![], vec![], i);
    end.send(&connect_packet(ver, &client_name(k.c as usize), &o));
    if k.how == 3 {
        end.send(&disconnect_packet(ver, 0, None));
    }
    if matches!(k.how, 1 | 2 | 4) {
        let mut head = [0u8; 2];
        let mut r = super::pipe::AsyncEnd(end.clone());
        ensure!(
            r.read_exact(&mut head).await.is_ok() && head[0] == 0x20,
            "no-connack",
            "connection {i} was closed before a CONNACK"
        );
    }
    for _ in 0..k.then {
        tokio::task::yield_now().await;
    }
    match k.how {
        2 => end.send(&disconnect_packet(ver, 0, None)),
        4 => {
            let mut stop = stop.clone();
            let gone = end.clone();
            tokio::select! {
                _ = gone.wait_gone() => {}
                _ = stop.wait_for(|s| *s) => {}
            }
            end.reset();
        }
        3 => {}
        _ => end.reset(),
    }
    match task.await {
        Ok(_) => Ok(()),
        Err(e) => fail("panic", format!("the task of connection {i} panicked: {e}")),
    }
}

pub fn run_storm(case: &Storm) -> CaseResult {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_time().build().unwrap();
    let mut out = Outcome::default();
    let res: Result<(), Failure> = rt.block_on(async {
        let global = Arc::new(GlobalState::new(base_config()));
        let hook = super::world::IdleHook { wait: false };
        let limit = Duration::from_secs(30);
        let (stop, stopped) = tokio::sync::watch::channel(false);
        let (mut tasks, mut last) = (vec![], vec![]);
        for (i, k) in case.conns.iter().enumerate() {
            let v5 = case.v5[k.c as usize % case.v5.len()];
            let k = Conn { c: k.c % case.v5.len() as u8, ..k.clone() };
            let stays = k.how == 4;
            let t = tokio::spawn(one(global.clone(), hook.clone(), v5, i as u16, k, stopped.clone()));
            if stays { last.push(t) } else { tasks.push(t) }
        }
        for (stay, tasks) in [(false, tasks), (true, last)] {
            if stay {
                let _ = stop.send(true);
            }
            for t in tasks {
                match tokio::time::timeout(limit, t).await {
                    Ok(Ok(res)) => res?,
                    Ok(Err(e)) => return fail("panic", format!("{e}")),
                    Err(_) => return fail("hang", "a connection did not end within 30 s".to_string()),
                }
            }
        }
        let online = global.online_clients_count();
        ensure!(online == 0, "online", "all connections have ended, online_clients_count() = {online}");
        let known: std::collections::BTreeSet<_> = case.conns.iter().map(|k| k.c as usize % case.v5.len()).collect();
        ensure!(global.clients_count() <= known.len(), "clients", "{} clients, clients_count() = {}", known.len(), global.clients_count());
        for c in known {
            let k = Conn { c: c as u8, clean: true, expiry: 0, after: 0, how: 2, then: 0 };
            match tokio::time::timeout(limit, one(global.clone(), hook.clone(), case.v5[c], 1000, k, stopped.clone())).await {
                Ok(res) => res?,
                Err(_) => return fail("locked-out", format!("client-{c} can not connect any more")),
            }
        }
        ensure!(
            global.clients_count() == 0 && global.online_clients_count() == 0,
            "left",
            "{} clients and {} online are left",
            global.clients_count(),
            global.online_clients_count()
        );
        Ok(())
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res?;
    let mut ids: Vec<u8> = case.conns.iter().map(|k| k.c % case.v5.len() as u8).collect();
    ids.sort();
    out.nontrivial = ids.windows(4).any(|w| w[0] == w[3]);
    Ok(out)
}

pub fn storm() -> BoxedStrategy<Storm> {
    let conn = (0u8..3, any::<bool>(), prop_oneof![Just(0u32), Just(1000u32)], 0u8..6, 0u8..5, 0u8..6)
        .prop_map(|(c, clean, expiry, after, how, then)| Conn { c, clean, expiry, after, how, then });
    (prop::collection::vec(any::<bool>(), 1..4), prop::collection::vec(conn, 2..24)).prop_map(|(v5, conns)| Storm { v5, conns }).boxed()
}
