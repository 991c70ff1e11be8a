//! What has ended leaves nothing behind: a script of connections, sessions, subscriptions, messages
//! and wills is run again and again with new names, everything is brought to its end after every
//! round, and the memory in use must not depend on the number of rounds. Some clients stay: for them
//! only subscriptions and handshakes come to an end.
use std::sync::Arc;
use std::time::Duration;

use akasa_core::GlobalState;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::client::*;
use super::transport::{self, Via};
use super::world::{IdleHook, base_config, paused_rt, set_hooks, settle};
use crate::alloc;
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome};

/// "@" becomes the number of the round
const TOPICS: [&str; 6] = ["@", "@/a", "@/a/b", "r/@/x", "fix", "@//"];
const FILTERS: [&str; 12] =
    ["@", "@/a", "@/+", "@/#", "@/a/b", "@/+/b/#", "+/@/x", "#", "fix", "fix/@", "r/+/x", "@//"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LastWill {
    t: u8,
    qos: u8,
    retain: bool,
    delay: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Filter {
    f: u8,
    qos: u8,
    share: Option<bool>,
    no_local: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Connect { c: u8, clean: bool, expiry: Option<u32>, keep_alive: u16, will: Option<LastWill> },
    /// 0: DISCONNECT, 1: with will, 2: end of file, 3: reset, 4: the client is silent from now on
    Close { c: u8, how: u8 },
    Sub { c: u8, fs: Vec<Filter>, id: bool },
    Unsub { c: u8, fs: Vec<u8> },
    Pub { c: u8, t: u8, qos: u8, retain: bool, len: u16, expiry: Option<u32>, alias: Option<u8>, n: u8 },
    /// does not acknowledge (and does not complete its own QoS 2 messages)
    Hold { c: u8, on: bool },
    /// does not read
    Stall { c: u8, on: bool },
    Wait { secs: u16 },
    /// a connection that never becomes one: 0 silent, 1 part of a CONNECT, 2 garbage, 3 another
    /// packet, 4 end of file at once, 5 a will that cannot be
    Stray { kind: u8 },
    /// sends something it must not
    Misbehave { c: u8, kind: u8 },
    Ping { c: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    hooks: u8,
    vers: Vec<Ver>,
    /// the client identifiers are the same in every round
    same: Vec<bool>,
    /// these do not disconnect after a round
    stay: Vec<bool>,
    window: u16,
    ops: Vec<Op>,
    /// how the sessions end: true by themselves where they can
    expire: bool,
}

struct Slot {
    id: String,
    ver: Ver,
    me: Option<Client>,
    next: u16,
    hold: bool,
    stall: bool,
    /// there may be a session
    kept: bool,
    forever: bool,
    stay: bool,
    /// acknowledgements that were held back, and the identifiers that are free after them
    owed: Vec<(Vec<u8>, Option<u16>)>,
}

impl Slot {
    fn pid(&mut self) -> u16 {
        self.next = if self.next > 60_000 { 1 } else { self.next + 1 };
        self.next
    }
}

struct Round<'a> {
    case: &'a Case,
    global: &'a Arc<GlobalState>,
    hook: IdleHook,
    n: usize,
    slots: Vec<Slot>,
    /// connections that nobody looks after any more
    loose: Vec<super::pipe::ClientEnd>,
    delivered: usize,
    sessions: usize,
}

fn name(s: &str, n: usize) -> String {
    s.replace('@', &format!("n{n:05}"))
}

impl Round<'_> {
    fn open(&self) -> super::pipe::ClientEnd {
        transport::open(self.global, self.hook.clone(), &Via::default(), vec![], vec![], 1).0
    }

    async fn serve(&mut self) -> Result<(), Failure> {
        for _ in 0..50 {
            settle().await;
            let mut moved = false;
            for s in &mut self.slots {
                if s.stall {
                    continue;
                }
                let Some(me) = &mut s.me else { continue };
                let (n, evs) = me.read()?;
                moved |= n > 0;
                for e in evs {
                    match e {
                        Ev::Publish(p) => {
                            self.delivered += 1;
                            match p.qos {
                                0 => {}
                                1 => s.owed.push((ack_packet(s.ver, Ack::Puback, p.pid), Some(p.pid))),
                                _ => s.owed.push((ack_packet(s.ver, Ack::Pubrec, p.pid), None)),
                            }
                        }
                        Ev::Pubrel(id, _) => s.owed.push((ack_packet(s.ver, Ack::Pubcomp, id), Some(id))),
                        Ev::Pubrec(id, c) if c < 0x80 => s.owed.push((ack_packet(s.ver, Ack::Pubrel, id), None)),
                        _ => {}
                    }
                }
                if !s.hold {
                    for (pkt, free) in s.owed.drain(..) {
                        me.send(&pkt);
                        moved = true;
                        if let Some(id) = free {
                            me.done(id);
                        }
                    }
                }
                if me.end.closed() {
                    s.me = None;
                }
            }
            if !moved {
                break;
            }
        }
        Ok(())
    }

    async fn connect(&mut self, c: usize, o: &ConnOpts) {
        let end = self.open();
        let s = &mut self.slots[c];
        end.send(&connect_packet(s.ver, &s.id, o));
        let me = Client::new(s.ver, end, o, self.case.window);
        if let Some(old) = s.me.replace(me) {
            self.loose.push(old.end);
        }
        s.stall = false;
        s.hold = false;
        s.owed.clear();
        settle().await;
    }

    async fn op(&mut self, op: &Op) -> Result<(), Failure> {
        let k = self.slots.len();
        let n = self.n;
        match op {
            Op::Connect { c, clean, expiry, keep_alive, will } => {
                let c = *c as usize % k;
                let five = self.slots[c].ver.is5();
                let o = ConnOpts {
                    clean: *clean,
                    expiry: if five { *expiry } else { None },
                    keep_alive: *keep_alive,
                    recv_max: if five { Some(self.case.window) } else { None },
                    alias_max: if five && self.case.window % 2 == 0 { Some(3) } else { None },
                    will: will.as_ref().map(|w| Will {
                        topic: name(TOPICS[w.t as usize % TOPICS.len()], n),
                        payload: vec![1; 20],
                        qos: w.qos,
                        retain: w.retain,
                        delay: if five { w.delay } else { None },
                        ..Default::default()
                    }),
                    ..Default::default()
                };
                let s = &mut self.slots[c];
                s.kept = !clean || o.expiry.is_some();
                s.forever = !five || o.expiry == Some(u32::MAX);
                self.sessions += s.kept as usize;
                self.connect(c, &o).await;
            }
            Op::Close { c, how } => {
                let s = &mut self.slots[*c as usize % k];
                s.owed.clear();
                let Some(me) = s.me.take() else { return Ok(()) };
                match how {
                    0 => me.send(&disconnect_packet(s.ver, 0, None)),
                    1 => me.send(&disconnect_packet(s.ver, if s.ver.is5() { 4 } else { 0 }, None)),
                    2 => me.end.eof(),
                    3 => me.end.reset(),
                    _ => {}
                }
                self.loose.push(me.end);
            }
            Op::Sub { c, fs, id } => {
                let s = &mut self.slots[*c as usize % k];
                let Some(me) = &mut s.me else { return Ok(()) };
                let five = s.ver.is5();
                let subs: Vec<_> = fs
                    .iter()
                    .map(|f| {
                        let plain = name(FILTERS[f.f as usize % FILTERS.len()], n);
                        let (filter, shared) = match f.share {
                            Some(own) if five => (name(if own { "$share/@/" } else { "$share/g/" }, n) + &plain, true),
                            _ => (plain, false),
                        };
                        SubReq { filter, qos: f.qos, no_local: f.no_local && five && !shared, ..Default::default() }
                    })
                    .collect();
                let ver = s.ver;
                let id = if *id && five { Some(7) } else { None };
                me.send(&subscribe_packet(ver, s.next, &subs, id));
                s.pid();
            }
            Op::Unsub { c, fs } => {
                let s = &mut self.slots[*c as usize % k];
                let Some(me) = &mut s.me else { return Ok(()) };
                let fs: Vec<_> = fs.iter().map(|f| name(FILTERS[*f as usize % FILTERS.len()], n)).collect();
                me.send(&unsubscribe_packet(s.ver, s.next, &fs));
                s.pid();
            }
            Op::Pub { c, t, qos, retain, len, expiry, alias, n: count } => {
                let s = &mut self.slots[*c as usize % k];
                for _ in 0..*count {
                    let pid = s.pid();
                    let Some(me) = &mut s.me else { return Ok(()) };
                    let p = OutPub {
                        qos: *qos,
                        pid,
                        alias: if s.ver.is5() { alias.map(|a| a as u16) } else { None },
                        retain: *retain,
                        topic: name(TOPICS[*t as usize % TOPICS.len()], n),
                        payload: vec![3; *len as usize + 1],
                        props: Props { expiry: if s.ver.is5() { *expiry } else { None }, ..Default::default() },
                        ..Default::default()
                    };
                    me.send(&publish_packet(s.ver, &p));
                }
            }
            Op::Hold { c, on } => self.slots[*c as usize % k].hold = *on,
            Op::Stall { c, on } => {
                let s = &mut self.slots[*c as usize % k];
                s.stall = *on;
                if let Some(me) = &s.me {
                    me.end.set_cap(if *on { 20 } else { usize::MAX });
                }
            }
            Op::Wait { secs } => tokio::time::sleep(Duration::from_secs(*secs as u64)).await,
            Op::Stray { kind } => {
                let end = self.open();
                let id = name("stray@", n);
                let mut o = ConnOpts::default();
                match kind {
                    0 => {}
                    1 => end.send(&connect_packet(Ver::V5, &id, &o)[..9]),
                    2 => end.send(&[0xff; 40]),
                    3 => end.send(&ping_packet(Ver::V311)),
                    4 => end.eof(),
                    _ => {
                        o.will = Some(Will { topic: "$no".into(), payload: vec![9; 30], ..Default::default() });
                        end.send(&connect_packet(Ver::V5, &id, &o));
                    }
                }
                self.loose.push(end);
            }
            Op::Misbehave { c, kind } => {
                let s = &mut self.slots[*c as usize % k];
                let Some(me) = &mut s.me else { return Ok(()) };
                match kind {
                    0 => me.send(&[0xf7, 0xff, 0xff, 0xff, 0xff]),
                    1 => me.send(&connect_packet(s.ver, &s.id, &ConnOpts::default())),
                    2 => me.send(&[0x30, 0x50, 0, 4, b'a']),
                    _ => me.send(&ack_packet(s.ver, Ack::Puback, 777)),
                }
            }
            Op::Ping { c } => {
                let s = &mut self.slots[*c as usize % k];
                if let Some(me) = &mut s.me {
                    me.send(&ping_packet(s.ver));
                }
            }
        }
        self.serve().await
    }

    async fn end(&mut self) -> Result<(), Failure> {
        let n = self.n;
        // all connections end
        for s in &mut self.slots {
            if s.stay {
                s.hold = false;
                s.stall = false;
                let Some(me) = &s.me else { continue };
                me.end.set_cap(usize::MAX);
            } else if let Some(me) = s.me.take() {
                me.end.reset();
            }
        }
        for c in 0..self.slots.len() {
            if self.slots[c].stay && self.slots[c].me.is_some() {
                let mut fs: Vec<String> = FILTERS.iter().map(|f| name(f, n)).collect();
                if self.slots[c].ver.is5() {
                    for g in ["$share/@/", "$share/g/"] {
                        fs.extend(FILTERS.iter().map(|f| name(g, n) + &name(f, n)));
                    }
                }
                let s = &mut self.slots[c];
                let id = s.pid();
                s.me.as_ref().unwrap().send(&unsubscribe_packet(s.ver, id, &fs));
            }
        }
        self.serve().await?;
        for e in self.loose.drain(..) {
            e.reset();
        }
        // delayed wills, the sessions that expire
        if self.case.expire {
            tokio::time::sleep(Duration::from_secs(5000)).await;
        } else {
            settle().await;
        }
        // the others
        for c in 0..self.slots.len() {
            let s = &self.slots[c];
            if !s.stay && s.kept && (s.forever || !self.case.expire) {
                self.connect(c, &ConnOpts { clean: true, ..Default::default() }).await;
                let ver = self.slots[c].ver;
                let me = self.slots[c].me.take().unwrap();
                me.send(&disconnect_packet(ver, 0, None));
                settle().await;
            }
        }
        tokio::time::sleep(Duration::from_secs(5000)).await;
        // the retained messages
        let end = self.open();
        let o = ConnOpts { clean: true, ..Default::default() };
        end.send(&connect_packet(Ver::V311, "admin", &o));
        for t in TOPICS {
            let p = OutPub { retain: true, topic: name(t, n), ..Default::default() };
            end.send(&publish_packet(Ver::V311, &p));
        }
        settle().await;
        end.send(&disconnect_packet(Ver::V311, 0, None));
        // (keep alive of up to a minute or two, connections that never were)
        tokio::time::sleep(Duration::from_secs(1000)).await;
        self.serve().await?;
        ensure!(end.closed(), "admin", "the last connection of the round is still open");
        Ok(())
    }
}

async fn round(case: &Case, global: &Arc<GlobalState>, n: usize, stay: &mut [Option<Slot>], seen: &mut (usize, usize)) -> Result<(), Failure> {
    let slots = case
        .vers
        .iter()
        .enumerate()
        .map(|(i, v)| {
            stay[i].take().unwrap_or_else(|| Slot {
                id: if case.same[i] || case.stay[i] { format!("client{i}") } else { format!("c{i}-{n:05}") },
                ver: *v,
                me: None,
                next: 1,
                hold: false,
                stall: false,
                kept: false,
                forever: false,
                stay: case.stay[i],
                owed: vec![],
            })
        })
        .collect();
    let mut r = Round { case, global, hook: IdleHook { wait: case.hooks == 2 }, n, slots, loose: vec![], delivered: 0, sessions: 0 };
    for op in &case.ops {
        // (those who stay do not leave)
        if let Op::Connect { c, .. } | Op::Close { c, .. } | Op::Misbehave { c, .. } = op {
            let s = &r.slots[*c as usize % r.slots.len()];
            if s.stay && s.me.is_some() && n > 1 {
                continue;
            }
        }
        r.op(op).await?;
    }
    r.end().await?;
    *seen = (r.delivered, r.sessions);
    for (i, s) in r.slots.into_iter().enumerate() {
        if s.stay {
            stay[i] = Some(s);
        }
    }
    Ok(())
}

const FIRST: usize = 16;
const LAST: usize = 256;

async fn drive(case: &Case, out: &mut Outcome) -> Result<(), Failure> {
    let mut config = base_config();
    set_hooks(&mut config, case.hooks > 0);
    config.max_inflight_client = case.window;
    config.max_inflight_server = u16::MAX;
    config.topic_alias_max = 3;
    let global = Arc::new(GlobalState::new(config));
    // (the tables of clients are split by hash: let every part be used once)
    {
        let mut ends = Vec::new();
        for i in 0..100 {
            let (end, _) = transport::open(&global, IdleHook { wait: false }, &Via::default(), vec![], vec![], 1);
            end.send(&connect_packet(Ver::V311, &format!("warm{i:05}"), &ConnOpts { clean: true, ..Default::default() }));
            ends.push(end);
        }
        settle().await;
        for e in &ends {
            e.reset();
        }
        tokio::time::sleep(Duration::from_secs(10)).await;
    }
    let mut marks: Vec<(usize, (isize, isize))> = Vec::with_capacity(20);
    let mut seen = (0, 0);
    let mut stay: Vec<Option<Slot>> = case.vers.iter().map(|_| None).collect();
    let mut next = FIRST;
    let mut n = 0;
    while n < LAST {
        n += 1;
        Box::pin(round(case, &global, n, &mut stay, &mut seen)).await?;
        if n == next {
            let now = alloc::live();
            if let Some((_, last)) = marks.last()
                && now.0 <= last.0
                && now.1 <= last.1
            {
                break;
            }
            marks.push((n, now));
            next *= 2;
        }
    }
    if !case.stay.contains(&true) {
        ensure!(
            global.clients_count() == 0 && global.online_clients_count() == 0,
            "clients",
            "{} clients left, {} of them online",
            global.clients_count(),
            global.online_clients_count()
        );
    }
    out.nontrivial = seen.0 > 0 || seen.1 > 0;
    out.tag_if(seen.0 > 0, "messages");
    out.tag_if(seen.1 > 0, "sessions");
    out.tag_if(marks.len() > 1, "looked-closer");
    out.tag_if(stay.iter().flatten().any(|s| s.me.is_some()), "stayed");
    if n == LAST {
        let (a, b) = (marks[0].1, marks[marks.len() - 1].1);
        let rounds = (LAST - FIRST) as isize;
        ensure!(
            b.1 - a.1 < rounds / 2 && b.0 - a.0 < rounds * 8,
            "leak",
            "after everything had ended, each round left about {} allocations and {} bytes behind: (rounds, (bytes, allocations)) {marks:?}",
            (b.1 - a.1) / rounds,
            (b.0 - a.0) / rounds
        );
    }
    Ok(())
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut out = Outcome::default();
    let r = rt.block_on(drive(case, &mut out));
    rt.shutdown_timeout(Duration::from_millis(100));
    r?;
    Ok(out)
}

pub fn case() -> BoxedStrategy<Case> {
    let c = || 0u8..4;
    let t = || 0u8..TOPICS.len() as u8;
    let will = (t(), 0u8..3, any::<bool>(), prop_oneof![Just(None), (0u32..60).prop_map(Some)])
        .prop_map(|(t, qos, retain, delay)| LastWill { t, qos, retain, delay });
    let filter = (0u8..FILTERS.len() as u8, 0u8..3, prop::option::weighted(0.25, any::<bool>()), any::<bool>())
        .prop_map(|(f, qos, share, no_local)| Filter { f, qos, share, no_local });
    let expiry = prop_oneof![2 => Just(None), 3 => (0u32..200).prop_map(Some), 1 => Just(Some(u32::MAX))];
    let op = prop_oneof![
        8 => (c(), prop::bool::weighted(0.3), expiry, prop_oneof![2 => Just(0u16), 1 => 1u16..60], prop::option::of(will))
            .prop_map(|(c, clean, expiry, keep_alive, will)| Op::Connect { c, clean, expiry, keep_alive, will }),
        4 => (c(), 0u8..5).prop_map(|(c, how)| Op::Close { c, how }),
        6 => (c(), prop::collection::vec(filter, 1..4), any::<bool>()).prop_map(|(c, fs, id)| Op::Sub { c, fs, id }),
        3 => (c(), prop::collection::vec(0u8..FILTERS.len() as u8, 1..3)).prop_map(|(c, fs)| Op::Unsub { c, fs }),
        8 => (c(), t(), 0u8..3, prop::bool::weighted(0.3), 0u16..200, prop::option::weighted(0.2, 1u32..100), prop::option::weighted(0.2, 1u8..4), prop_oneof![3 => Just(1u8), 1 => 2u8..25])
            .prop_map(|(c, t, qos, retain, len, expiry, alias, n)| Op::Pub { c, t, qos, retain, len, expiry, alias, n }),
        2 => (c(), any::<bool>()).prop_map(|(c, on)| Op::Hold { c, on }),
        1 => (c(), any::<bool>()).prop_map(|(c, on)| Op::Stall { c, on }),
        1 => (0u16..100).prop_map(|secs| Op::Wait { secs }),
        1 => (0u8..6).prop_map(|kind| Op::Stray { kind }),
        1 => (c(), 0u8..4).prop_map(|(c, kind)| Op::Misbehave { c, kind }),
        1 => c().prop_map(|c| Op::Ping { c }),
    ];
    let ver = prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 4 => Just(Ver::V5)];
    (0u8..3, prop::collection::vec((ver, prop::bool::weighted(0.3), prop::bool::weighted(0.25)), 1..5), 1u16..30, prop::collection::vec(op, 2..30), any::<bool>())
        .prop_map(|(hooks, who, window, mut ops, expire)| {
            let vers: Vec<_> = who.iter().map(|w| w.0).collect();
            let same = who.iter().map(|w| w.1).collect();
            let stay = who.iter().map(|w| w.2).collect();
            // mostly there is somebody who receives
            for c in (0..vers.len() as u8).rev() {
                let at = (c as usize * 7 + window as usize) % 3;
                if at < 2 {
                    let fs = vec![Filter { f: if at == 0 { 7 } else { 3 }, qos: c % 3, share: None, no_local: false }];
                    ops.insert(0, Op::Sub { c, fs, id: at == 1 });
                }
                ops.insert(0, Op::Connect { c, clean: c % 2 == 1 && at == 2, expiry: Some(window as u32 * 9), keep_alive: 0, will: None });
            }
            Case { hooks, vers, same, stay, window, ops, expire }
        })
        .boxed()
}
