//! Keep alive: a silent client is disconnected in time, one that speaks never is, whatever
//! connections of the same client came before. In virtual time (see `verif::UNIX_TS` and the
//! clock of the broker).
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Duration;
use akasa_core::mqtt_proto::{v3, v5};
use akasa_core::{GlobalState, Hook, HookAction, HookConnectCode, HookPublishCode, HookResult, SessionV3, SessionV5};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::time::Instant;

use super::client::*;
use super::transport::{self, Via};
use super::world::{Task, base_config, paused_rt, set_hooks, settle};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome, fail};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Say {
    Ping,
    Pub(u8),
    Sub,
    Unsub,
    Ack,
    /// two packets at once
    Twice,
    /// a publication whose hook takes this many quarters of the interval
    Slow(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// `stall`: without reading more than the CONNACK
    Connect { c: u8, keep: u16, clean: bool, will: bool, #[serde(default)] stall: bool },
    Say { c: u8, what: Say },
    /// the first byte of a packet, which is no packet
    Half { c: u8 },
    /// a message for the client
    Feed { c: u8, qos: u8 },
    /// the client stops (or starts again) to read
    Stall { c: u8, on: bool },
    Leave { c: u8, eof: bool },
    /// this many thousandths of the client's interval, and some milliseconds
    Wait { c: u8, part: u16, ms: i8 },
    WaitMs(u32),
    /// connect again this many thousandths of the interval (and some milliseconds) after the
    /// last packet, to meet the timer of the old connection
    Again { c: u8, part: u16, ms: i8, clean: bool, keep: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    vers: Vec<Ver>,
    limits: (u16, u16),
    hooks: bool,
    /// duration of the hook after a connect
    slow: u8,
    /// duration of the hook before a connect
    early: u8,
    ops: Vec<Op>,
}

#[derive(Clone)]
struct SlowHook(Duration, u8);

impl SlowHook {
    async fn pass(&self) {
        if !self.0.is_zero() {
            tokio::time::sleep(self.0).await;
        }
    }
}

async fn linger(topic: &str) -> HookPublishCode {
    if let Some(ms) = topic.strip_prefix("slow/") {
        tokio::time::sleep(Duration::from_millis(ms.parse().unwrap())).await;
    }
    HookPublishCode::Success
}

impl SlowHook {
    async fn early(&self) -> HookResult<HookConnectCode> {
        if self.1 > 0 {
            tokio::time::sleep(Duration::from_millis(self.1 as u64)).await;
        }
        Ok(HookConnectCode::Success)
    }
}

impl Hook for SlowHook {
    async fn v3_before_connect(&self, _: SocketAddr, _: &v3::Connect) -> HookResult<HookConnectCode> {
        self.early().await
    }
    async fn v5_before_connect(&self, _: SocketAddr, _: &v5::Connect) -> HookResult<HookConnectCode> {
        self.early().await
    }
    async fn v3_before_publish(&self, _: &SessionV3, _: usize, _: &[u8], p: &mut v3::Publish, _: &mut bool) -> HookResult<HookPublishCode> {
        Ok(linger(&p.topic_name).await)
    }
    async fn v5_before_publish(&self, _: &SessionV5, _: usize, _: &[u8], p: &mut v5::Publish, _: &mut bool) -> HookResult<HookPublishCode> {
        Ok(linger(&p.topic_name).await)
    }
    async fn v3_after_connect(&self, _: &SessionV3, _: bool) -> HookResult<Vec<HookAction>> {
        self.pass().await;
        Ok(vec![])
    }
    async fn v5_after_connect(&self, _: &SessionV5, _: bool) -> HookResult<Vec<HookAction>> {
        self.pass().await;
        Ok(vec![])
    }
}

struct Slot {
    me: Option<Client>,
    /// effective interval in ms, 0: none
    keep: u64,
    /// when the broker last got a packet
    last: Instant,
    /// when the client last sent one
    said: Instant,
    /// a byte of an incomplete packet was sent
    half: bool,
    stalled: bool,
    /// it spoke so late that it may be about to be disconnected
    late: Option<Instant>,
    /// a hook runs until then, and the broker reads nothing
    busy: Option<Instant>,
    /// it could not be heard for longer than the interval allows
    excused: bool,
    will: Option<Vec<u8>>,
    pid: u16,
}

struct A<'a> {
    case: &'a Case,
    global: Arc<GlobalState>,
    hook: SlowHook,
    slots: Vec<Slot>,
    watcher: Client,
    tasks: Vec<Task>,
    peers: u16,
    tag: u32,
    fed: u32,
    out: Outcome,
}

/// Delay of the broker between two looks at a connection, as a share of the interval.
const SLACK: u64 = 5;

impl A<'_> {
    async fn wait(&mut self, ms: u64) -> Result<(), Failure> {
        tokio::time::sleep(Duration::from_millis(ms)).await;
        self.look(vec![]).await
    }

    /// Compare what is open with what has to be; `wills` are expected besides those of kicked clients.
    async fn look(&mut self, mut wills: Vec<Vec<u8>>) -> Result<(), Failure> {
        let mut kicked = vec![];
        // (more may time out while time passes here)
        loop {
            settle().await;
            let before = kicked.len();
            self.timeouts(&mut kicked, &mut wills)?;
            if kicked.len() == before {
                break;
            }
        }
        let mut seen = vec![];
        for e in self.watcher.read()?.1 {
            match e {
                Ev::Publish(p) => {
                    ensure!(p.topic == "will" && p.qos == 0, "watcher", "the watcher received {p:?}");
                    seen.push(p.payload);
                }
                Ev::Puback(..) => {}
                e => return fail("watcher", format!("the watcher received {e:?}")),
            }
        }
        seen.sort();
        wills.sort();
        ensure!(seen == wills, "will", "after the clients {kicked:?} timed out: wills {wills:?}, the watcher received {seen:?}");
        for t in std::mem::take(&mut self.tasks) {
            if t.is_finished() {
                if let Err(e) = t.await {
                    return fail("panic", format!("a connection task panicked: {e}"));
                }
            } else {
                self.tasks.push(t);
            }
        }
        let online = 1 + self.slots.iter().filter(|s| s.me.is_some()).count();
        ensure!(
            self.global.online_clients_count() as usize == online && self.tasks.len() == online,
            "online",
            "{online} clients are connected, online_clients_count() = {}, {} tasks",
            self.global.online_clients_count(),
            self.tasks.len()
        );
        Ok(())
    }

    fn timeouts(&mut self, kicked: &mut Vec<usize>, wills: &mut Vec<Vec<u8>>) -> Result<(), Failure> {
        for (k, s) in self.slots.iter_mut().enumerate() {
            let Some(me) = &mut s.me else { continue };
            if s.busy.is_some_and(|t| t.elapsed() > Duration::ZERO) {
                s.busy = None;
            }
            let ver = me.ver;
            let idle = s.last.elapsed().as_millis() as u64;
            if !s.stalled {
                for e in me.read()?.1 {
                    match e {
                        Ev::Publish(p) if p.qos > 0 => {
                            // (never acknowledged: this would be a packet)
                        }
                        Ev::Publish(_) | Ev::Pingresp | Ev::Suback(..) | Ev::Unsuback(..) | Ev::Puback(..) | Ev::Pubrec(..) | Ev::Pubcomp(..) | Ev::Pubrel(..) => {}
                        Ev::Disconnect(0x8d) if ver.is5() && s.keep > 0 => {}
                        e => return fail("unexpected", format!("client {k} received {e:?}")),
                    }
                }
            }
            let me = s.me.as_ref().unwrap();
            if me.end.closed() {
                ensure!(
                    s.keep > 0 && (s.excused || 2 * idle + 2 * SLACK > 3 * s.keep || s.late.is_some()),
                    "kicked-early",
                    "client {k} ({ver:?}) was disconnected {idle} ms after its last packet, its interval is {} ms",
                    s.keep
                );
                self.out.tag("timed-out");
                me.end.reset();
                s.me = None;
                wills.extend(s.will.take());
                kicked.push(k);
            } else {
                // (a kick on its way would have arrived)
                s.late = s.late.filter(|t| t.elapsed() < Duration::from_millis(1));
                let idle = s.said.elapsed().as_millis() as u64;
                ensure!(
                    s.keep == 0 || idle <= 2 * s.keep + SLACK,
                    "not-kicked",
                    "client {k} ({ver:?}) is connected {idle} ms after its last packet, its interval is {} ms",
                    s.keep
                );
                self.out.tag_if(s.keep > 0 && 10 * idle > 11 * s.keep && 2 * idle <= 3 * s.keep, "close-to-the-limit");
            }
        }
        Ok(())
    }

    fn say(&mut self, c: usize, data: &[u8]) {
        let s = &mut self.slots[c];
        if let Some(me) = &s.me {
            if s.half {
                // completes the PINGREQ
                me.send(&[0]);
                s.half = false;
            }
            me.send(data);
            // (while its output is stuck the broker may stop reading)
            s.said = s.said.max(Instant::now());
            if !s.stalled {
                if 2 * s.last.elapsed().as_millis() as u64 + 2 * SLACK > 3 * s.keep {
                    s.late = Some(Instant::now());
                }
                s.last = Instant::now();
            }
        }
    }

    async fn op(&mut self, op: &Op) -> Result<(), Failure> {
        let n = self.slots.len();
        match op {
            Op::Connect { c, keep, clean, will, stall } => {
                let c = *c as usize % n;
                let ver = self.case.vers[c];
                self.tag += 1;
                let payload = self.tag.to_be_bytes().to_vec();
                let o = ConnOpts {
                    clean: *clean,
                    keep_alive: *keep,
                    expiry: Some(100_000),
                    will: will.then(|| Will { topic: "will".into(), payload: payload.clone(), ..Default::default() }),
                    ..Default::default()
                };
                self.peers += 1;
                let (end, task) = transport::open(&self.global, self.hook.clone(), &Via::default(), vec![], vec![], self.peers);
                self.tasks.push(task);
                let mut me = Client::new(ver, end, &o, 10_000);
                if *stall {
                    me.end.set_cap(100);
                    self.out.tag("stalled-from-the-start");
                }
                me.send(&connect_packet(ver, &client_name(c), &o));
                settle().await;
                let busy = self.slots[c].busy.filter(|_| self.slots[c].me.is_some());
                if let Some(t) = busy {
                    self.out.tag("busy-at-take-over");
                    tokio::time::sleep_until(t).await;
                    settle().await;
                }
                // (the broker reads nothing before the hook is done; a kick meant for the old
                // connection does not wait for it)
                if self.case.hooks && self.case.slow + self.case.early > 0 {
                    tokio::time::sleep(self.hook.0 + Duration::from_millis(self.case.early as u64)).await;
                    settle().await;
                }
                let evs = me.read()?.1;
                ensure!(matches!(evs.first(), Some(Ev::Connack { code: 0, .. })), "connack", "client-{c}: {evs:?}");
                let s = &mut self.slots[c];
                let mut wills = vec![];
                if let Some(old) = s.me.take() {
                    ensure!(old.end.gone() || old.end.closed(), "takeover-open", "the old connection of client-{c} is open");
                    old.end.reset();
                    wills.extend(s.will.take());
                    self.out.tag("take-over");
                }
                let (min, max) = self.case.limits;
                let keep = if ver.is5() { (*keep).clamp(min, max) } else { *keep };
                *s = Slot {
                    me: Some(me),
                    keep: keep as u64 * 1000,
                    last: Instant::now(),
                    said: Instant::now(),
                    half: false,
                    stalled: *stall,
                    late: None,
                    busy: None,
                    excused: false,
                    will: will.then_some(payload),
                    pid: s.pid,
                };
                return self.look(wills).await;
            }
            Op::Say { c, what: Say::Slow(quarters) } => {
                let c = *c as usize % n;
                let s = &self.slots[c];
                if self.case.hooks && s.busy.is_none() && !s.stalled && s.me.is_some() && s.keep < 100_000 {
                    let ms = s.keep * (*quarters as u64 % 12) / 4;
                    let data = publish_packet(s.me.as_ref().unwrap().ver, &OutPub { topic: format!("slow/{ms}"), ..Default::default() });
                    self.say(c, &data);
                    self.out.tag("slow-hook");
                    let s = &mut self.slots[c];
                    let until = Instant::now() + Duration::from_millis(ms);
                    s.busy = Some(until);
                    s.said = until;
                    // (a kick on its way waits for the hook too)
                    s.late = s.late.map(|t| if t.elapsed() == Duration::ZERO { until } else { t });
                    s.excused |= 2 * ms + 2 * SLACK > 3 * s.keep;
                }
            }
            Op::Say { c, what } => {
                let c = *c as usize % n;
                let ver = self.case.vers[c];
                let s = &mut self.slots[c];
                s.pid = s.pid % 60000 + 1;
                let pid = s.pid;
                let publish = |q: u8| publish_packet(ver, &OutPub { qos: q % 2, pid, topic: "said".into(), ..Default::default() });
                let data = match what {
                    Say::Ping => ping_packet(ver),
                    Say::Pub(q) => publish(*q),
                    Say::Sub => subscribe_packet(ver, pid, &[SubReq { filter: format!("for/{c}"), qos: 1, ..Default::default() }], None),
                    Say::Unsub => unsubscribe_packet(ver, pid, &["nothing".into()]),
                    Say::Ack => ack_packet(ver, Ack::Puback, 65000),
                    Say::Slow(_) => unreachable!(),
                    Say::Twice => [publish(1), ping_packet(ver)].concat(),
                };
                self.say(c, &data);
            }
            Op::Half { c } => {
                let s = &mut self.slots[*c as usize % n];
                if let (Some(me), false) = (&s.me, s.half) {
                    me.send(&[0xc0]);
                    s.half = true;
                    self.out.tag("incomplete-packet");
                }
            }
            Op::Feed { c, qos } => {
                if self.fed < 6 {
                    self.fed += 1;
                    let m = OutPub {
                        qos: qos % 2,
                        pid: 7,
                        topic: format!("for/{}", *c as usize % n),
                        payload: vec![b'.'; 3000],
                        ..Default::default()
                    };
                    self.watcher.send(&publish_packet(self.watcher.ver, &m));
                }
            }
            Op::Stall { c, on } => {
                let s = &mut self.slots[*c as usize % n];
                if let (Some(me), None) = (&s.me, s.busy) {
                    s.stalled |= on;
                    me.end.set_cap(if *on { 100 } else { usize::MAX });
                    if *on {
                        self.out.tag("stalled");
                    } else if s.stalled {
                        s.stalled = false;
                        // what it said meanwhile may or may not have been read
                        s.me.take().unwrap().end.reset();
                        let will = s.will.take();
                        tokio::time::sleep(Duration::from_secs(1)).await;
                        return self.look(will.into_iter().collect()).await;
                    }
                }
            }
            Op::Leave { c, eof } => {
                let s = &mut self.slots[*c as usize % n];
                if s.busy.is_some_and(|t| t.elapsed() == Duration::ZERO) {
                    return Ok(());
                }
                if let Some(me) = s.me.take() {
                    if *eof {
                        me.end.eof();
                        if s.stalled {
                            settle().await;
                            me.end.reset();
                        }
                    } else {
                        me.end.reset();
                    }
                    let will = s.will.take();
                    return self.look(will.into_iter().collect()).await;
                }
            }
            Op::Wait { c, part, ms } => {
                let s = &self.slots[*c as usize % n];
                let keep = if s.me.is_some() { s.keep.min(100_000) } else { 0 };
                let t = (keep * *part as u64 / 1000) as i64 + *ms as i64;
                return self.wait(t.max(0) as u64).await;
            }
            Op::Again { c, part, ms, clean, keep } => {
                let s = &self.slots[*c as usize % n];
                if s.me.is_some() && (1..100_000).contains(&s.keep) && !s.stalled {
                    let at = s.last + Duration::from_millis((s.keep * *part as u64 / 1000).saturating_add_signed(*ms as i64));
                    let ms = at.saturating_duration_since(Instant::now());
                    tokio::time::sleep(Duration::from_millis(ms.as_millis() as u64)).await;
                    let op = Op::Connect { c: *c, keep: *keep, clean: *clean, will: false, stall: false };
                    return Box::pin(self.op(&op)).await;
                }
            }
            Op::WaitMs(ms) => return self.wait(*ms as u64).await,
        }
        self.look(vec![]).await
    }
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut config = base_config();
    config.min_keep_alive = case.limits.0;
    config.max_keep_alive = case.limits.1;
    set_hooks(&mut config, case.hooks);
    let res = rt.block_on(async {
        let global = Arc::new(GlobalState::new(config));
        let hook = SlowHook(Duration::from_millis(case.slow as u64), case.early);
        let (end, task) = transport::open(&global, hook.clone(), &Via::default(), vec![], vec![], 1);
        // (a v3 client without keep alive)
        let mut watcher = Client::new(Ver::V311, end, &ConnOpts::default(), 100);
        watcher.send(&connect_packet(Ver::V311, "watcher", &ConnOpts { clean: true, ..Default::default() }));
        watcher.send(&subscribe_packet(Ver::V311, 1, &[SubReq { filter: "will".into(), ..Default::default() }], None));
        tokio::time::sleep(Duration::from_millis(2 + case.slow as u64 + case.early as u64)).await;
        let evs = watcher.read()?.1;
        ensure!(evs.len() == 2, "setup", "the watcher received {evs:?}");
        let slots = case
            .vers
            .iter()
            .map(|_| Slot { me: None, keep: 0, last: Instant::now(), said: Instant::now(), half: false, stalled: false, late: None, busy: None, excused: false, will: None, pid: 0 })
            .collect();
        let mut a = A { case, global, hook, slots, watcher, tasks: vec![task], peers: 1, tag: 0, fed: 0, out: Outcome::default() };
        for op in &case.ops {
            a.op(op).await?;
        }
        // everyone falls silent
        let longest = a.slots.iter().filter(|s| s.me.is_some()).map(|s| s.keep).max().unwrap_or(0);
        if longest < 1_000_000 {
            a.wait(2 * longest + 20).await?;
        }
        a.out.nontrivial = a.out.tags.contains(&"timed-out") || a.out.tags.contains(&"close-to-the-limit");
        Ok(a.out)
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res
}

pub fn case() -> BoxedStrategy<Case> {
    let ver = || prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 3 => Just(Ver::V5)];
    let keep = prop_oneof![1 => Just(0u16), 8 => 1u16..12, 2 => 12u16..100, 1 => Just(u16::MAX)];
    let c = || 0u8..2;
    let say = prop_oneof![
        3 => Just(Say::Ping),
        2 => any::<u8>().prop_map(|q| Say::Pub(q % 2)),
        2 => Just(Say::Sub),
        1 => Just(Say::Unsub),
        1 => Just(Say::Ack),
        1 => Just(Say::Twice),
        1 => any::<u8>().prop_map(Say::Slow),
    ];
    let op = prop_oneof![
        4 => (c(), keep, any::<bool>(), prop::bool::weighted(0.4), prop::bool::weighted(0.15))
            .prop_map(|(c, keep, clean, will, stall)| Op::Connect { c, keep, clean, will, stall }),
        6 => (c(), say).prop_map(|(c, what)| Op::Say { c, what }),
        1 => c().prop_map(|c| Op::Half { c }),
        1 => (c(), 0u8..2).prop_map(|(c, qos)| Op::Feed { c, qos }),
        1 => (c(), prop::bool::weighted(0.7)).prop_map(|(c, on)| Op::Stall { c, on }),
        1 => (c(), any::<bool>()).prop_map(|(c, eof)| Op::Leave { c, eof }),
        8 => (c(), prop_oneof![2 => 0u16..1600, 2 => prop::sample::select(vec![500u16, 1000, 1490, 1500, 1990, 2000]), 1 => 1500u16..2100], -8i8..9)
            .prop_map(|(c, part, ms)| Op::Wait { c, part, ms }),
        1 => (0u32..20_000).prop_map(Op::WaitMs),
        2 => (c(), prop::sample::select(vec![1500u16, 1500, 2000]), -4i8..16, any::<bool>(), 0u16..20)
            .prop_map(|(c, part, ms, clean, keep)| Op::Again { c, part, ms, clean, keep }),
    ];
    let limits = prop_oneof![3 => Just((0u16, u16::MAX)), 1 => (0u16..6, 6u16..30)];
    (prop::collection::vec(ver(), 2), limits, prop::bool::weighted(0.6), prop_oneof![Just(0u8), 0u8..20], 0u8..6, prop::collection::vec(op, 2..20))
        .prop_map(|(vers, limits, hooks, slow, early, ops)| Case { vers, limits, hooks, slow, early, ops })
        .boxed()
}
