//! Hooks: which are called, in which order, with what, and what their verdicts, changes and
//! actions do.
use std::collections::{BTreeMap, VecDeque};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use akasa_core::mqtt_proto::{QosPid, v3, v5};
use akasa_core::{
    GlobalState, Hook, HookAction, HookConnectCode, HookError, HookPublishCode, HookResult, HookSubscribeCode, HookUnsubscribeCode,
    PublishAction, SessionV3, SessionV5, SubscribeAction, UnsubscribeAction,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::client::*;
use super::transport::{self, Via};
use super::world::{Task, base_config, paused_rt, settle};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome, fail};

pub const TOPICS: [&str; 3] = ["a", "b", "c"];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    /// retain: 0 no, 1 yes, 2 without payload, which clears
    Pub { t: u8, qos: u8, #[serde(default)] retain: u8 },
    Sub { t: u8, qos: u8 },
    Unsub { t: u8 },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Verdict {
    Yes,
    No(u8),
    Err,
}

/// What the hooks of one request do.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    before: Verdict,
    /// change the request: another topic (and payload)
    change: Option<u8>,
    acts: Vec<Act>,
    /// the hook after it fails
    fail: bool,
    slow: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum What {
    Pub { t: u8, qos: u8 },
    Sub { t: u8, u: u8, qos: u8 },
    Unsub { t: u8, u: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    what: What,
    plan: Plan,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Connect { c: u8, clean: bool, will: bool, plan: Plan },
    /// sent at once
    Reqs { c: u8, reqs: Vec<Req> },
    /// DISCONNECT, end of stream, reset, broken protocol; the hook fails
    Leave { c: u8, how: u8, fail: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    vers: Vec<Ver>,
    /// before and after connect, after disconnect, publish, subscribe, unsubscribe
    on: [bool; 6],
    retained: bool,
    ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
struct Call {
    kind: &'static str,
    peer: u16,
    client: String,
    /// the filters of the session, as the hook sees them
    subs: Option<Vec<String>>,
    arg: String,
}

#[derive(Default)]
struct Shared {
    plans: VecDeque<(Plan, Vec<u8>)>,
    current: Option<(Plan, Vec<u8>)>,
    disconnect_fails: bool,
    log: Vec<Call>,
    tag: u32,
    mismatch: Option<String>,
}

#[derive(Clone)]
struct Judge(Arc<Mutex<Shared>>);

fn subject(id: &str) -> bool {
    id.starts_with("subject-")
}

fn new_payload(p: &[u8]) -> Vec<u8> {
    [p, b"changed"].concat()
}

fn act_payload(n: u32, retain: u8) -> String {
    if retain == 2 { String::new() } else { format!("act{n}") }
}

fn acts(plan: &Plan, shared: &mut Shared) -> Vec<HookAction> {
    plan.acts
        .iter()
        .map(|a| match *a {
            Act::Pub { t, qos: q, retain } => {
                shared.tag += 1;
                HookAction::Publish(PublishAction {
                    retain: retain > 0,
                    qos: qos(q),
                    topic_name: topic(TOPICS[t as usize % 3]),
                    payload: act_payload(shared.tag, retain).into_bytes().into(),
                    payload_is_utf8: None,
                    message_expiry_interval: None,
                    content_type: None,
                })
            }
            Act::Sub { t, qos: q } => HookAction::Subscribe(SubscribeAction(vec![(filter(TOPICS[t as usize % 3]), qos(q))])),
            Act::Unsub { t } => HookAction::Unsubscribe(UnsubscribeAction(vec![filter(TOPICS[t as usize % 3])])),
        })
        .collect()
}

impl Judge {
    async fn slow(&self, plan: &Plan) {
        if plan.slow > 0 {
            tokio::time::sleep(Duration::from_millis(plan.slow as u64 % 4)).await;
        }
    }

    /// A hook before a request: log it, get the plan.
    async fn before(&self, call: Call, raw: Option<(usize, &[u8])>) -> Plan {
        let plan = {
            let mut s = self.0.lock().unwrap();
            s.log.push(call.clone());
            let (plan, data) = s.plans.pop_front().unwrap_or((Plan { before: Verdict::Yes, change: None, acts: vec![], fail: false, slow: 0 }, vec![]));
            if let Some((len, body)) = raw {
                let head = 1 + data[1..].iter().position(|b| b & 0x80 == 0).unwrap_or(0) + 1;
                if len != data.len() || body != &data[head..] {
                    s.mismatch = Some(format!("{call:?}: length {len}, body {body:02x?}; the packet was {data:02x?}"));
                }
            }
            s.current = (plan.before == Verdict::Yes).then(|| (plan.clone(), data));
            plan
        };
        self.slow(&plan).await;
        plan
    }

    async fn after(&self, call: Call, raw: Option<(usize, &[u8])>) -> HookResult<Vec<HookAction>> {
        let (plan, res) = {
            let mut s = self.0.lock().unwrap();
            s.log.push(call.clone());
            let (plan, data) = if call.kind == "after-connect" && s.current.is_none() {
                s.plans.pop_front().unwrap()
            } else {
                s.current.take().unwrap_or((Plan { before: Verdict::Yes, change: None, acts: vec![], fail: false, slow: 0 }, vec![]))
            };
            if let Some((len, body)) = raw {
                let head = 1 + data[1..].iter().position(|b| b & 0x80 == 0).unwrap_or(0) + 1;
                if len != data.len() || body != &data[head..] {
                    s.mismatch = Some(format!("{call:?}: length {len}, body {body:02x?}; the packet was {data:02x?}"));
                }
            }
            let res = if plan.fail { Err(HookError::Internal) } else { Ok(acts(&plan, &mut s)) };
            (plan, res)
        };
        self.slow(&plan).await;
        res
    }

    fn gone(&self, call: Call) -> HookResult<()> {
        let mut s = self.0.lock().unwrap();
        s.log.push(call);
        if s.disconnect_fails { Err(HookError::Internal) } else { Ok(()) }
    }
}

fn names<'a, I: Iterator<Item = &'a akasa_core::mqtt_proto::TopicFilter>>(i: I) -> Vec<String> {
    let mut v: Vec<String> = i.map(|f| f.to_string()).collect();
    v.sort();
    v
}

pub const CONNECT_CODES: [(HookConnectCode, u8); 7] = [
    (HookConnectCode::UnspecifiedError, 0x80),
    (HookConnectCode::ClientIdentifierNotValid, 0x85),
    (HookConnectCode::BadUserNameOrPassword, 0x86),
    (HookConnectCode::NotAuthorized, 0x87),
    (HookConnectCode::ServerUnavailable, 0x88),
    (HookConnectCode::QuotaExceeded, 0x97),
    (HookConnectCode::ConnectionRateExceeded, 0x9f),
];
/// Return codes of CONNACK in v3 for these.
pub const V3_CONNECT_CODES: [u8; 7] = [3, 2, 4, 5, 3, 3, 3];
pub const PUBLISH_CODES: [(HookPublishCode, u8); 4] = [
    (HookPublishCode::UnspecifiedError, 0x80),
    (HookPublishCode::NotAuthorized, 0x87),
    (HookPublishCode::TopicNameInvalid, 0x90),
    (HookPublishCode::QuotaExceeded, 0x97),
];
pub const SUBSCRIBE_CODES: [(HookSubscribeCode, u8); 4] = [
    (HookSubscribeCode::UnspecifiedError, 0x80),
    (HookSubscribeCode::NotAuthorized, 0x87),
    (HookSubscribeCode::TopicFilterInvalid, 0x8f),
    (HookSubscribeCode::QuotaExceeded, 0x97),
];
pub const UNSUBSCRIBE_CODES: [(HookUnsubscribeCode, u8); 3] = [
    (HookUnsubscribeCode::UnspecifiedError, 0x80),
    (HookUnsubscribeCode::NotAuthorized, 0x87),
    (HookUnsubscribeCode::TopicFilterInvalid, 0x8f),
];

macro_rules! verdict {
    ($plan:expr, $yes:expr, $codes:expr) => {
        match $plan.before {
            Verdict::Yes => Ok($yes),
            Verdict::No(n) => Ok($codes[n as usize % $codes.len()].0),
            Verdict::Err => Err(HookError::Internal),
        }
    };
}

macro_rules! hooks {
    ($ver:ident, $session:ty, $after_sub_codes:ty,
     $before_connect:ident, $after_connect:ident, $before_publish:ident, $after_publish:ident, $before_subscribe:ident,
     $after_subscribe:ident, $before_unsubscribe:ident, $after_unsubscribe:ident, $after_disconnect:ident) => {
        async fn $before_connect(&self, peer: SocketAddr, p: &$ver::Connect) -> HookResult<HookConnectCode> {
            if !subject(&p.client_id) {
                return Ok(HookConnectCode::Success);
            }
            let call = Call { kind: "before-connect", peer: peer.port(), client: p.client_id.to_string(), subs: None, arg: format!("will={}", p.last_will.is_some()) };
            let plan = self.before(call, None).await;
            verdict!(plan, HookConnectCode::Success, CONNECT_CODES)
        }
        async fn $after_connect(&self, s: &$session, present: bool) -> HookResult<Vec<HookAction>> {
            if !subject(&s.client_identifier) {
                return Ok(vec![]);
            }
            let call = Call { kind: "after-connect", peer: s.peer.port(), client: s.client_identifier.to_string(), subs: Some(names(s.subscribes.keys())), arg: format!("present={present}") };
            self.after(call, None).await
        }
        async fn $before_publish(&self, s: &$session, len: usize, body: &[u8], p: &mut $ver::Publish, changed: &mut bool) -> HookResult<HookPublishCode> {
            if !subject(&s.client_identifier) {
                return Ok(HookPublishCode::Success);
            }
            let call = Call { kind: "before-publish", peer: s.peer.port(), client: s.client_identifier.to_string(), subs: Some(names(s.subscribes.keys())), arg: show_publish(&p.topic_name, &p.payload, p.qos_pid) };
            let plan = self.before(call, Some((len, body))).await;
            if let Some(t) = plan.change {
                p.topic_name = topic(TOPICS[t as usize % 3]);
                p.payload = new_payload(&p.payload).into();
                *changed = true;
            }
            verdict!(plan, HookPublishCode::Success, PUBLISH_CODES)
        }
        async fn $after_publish(&self, s: &$session, len: usize, body: &[u8], p: &$ver::Publish, changed: bool) -> HookResult<Vec<HookAction>> {
            if !subject(&s.client_identifier) {
                return Ok(vec![]);
            }
            let call = Call { kind: "after-publish", peer: s.peer.port(), client: s.client_identifier.to_string(), subs: Some(names(s.subscribes.keys())), arg: format!("{} changed={changed}", show_publish(&p.topic_name, &p.payload, p.qos_pid)) };
            self.after(call, Some((len, body))).await
        }
        async fn $before_subscribe(&self, s: &$session, len: usize, body: &[u8], p: &mut $ver::Subscribe, changed: &mut bool) -> HookResult<HookSubscribeCode> {
            if !subject(&s.client_identifier) {
                return Ok(HookSubscribeCode::Success);
            }
            let call = Call { kind: "before-subscribe", peer: s.peer.port(), client: s.client_identifier.to_string(), subs: Some(names(s.subscribes.keys())), arg: format!("{:?}", p.topics.iter().map(|t| t.0.to_string()).collect::<Vec<_>>()) };
            let plan = self.before(call, Some((len, body))).await;
            if let Some(t) = plan.change {
                p.topics[0].0 = filter(TOPICS[t as usize % 3]);
                *changed = true;
            }
            verdict!(plan, HookSubscribeCode::Success, SUBSCRIBE_CODES)
        }
        async fn $after_subscribe(&self, s: &$session, len: usize, body: &[u8], p: &$ver::Subscribe, changed: bool, codes: Option<Vec<$after_sub_codes>>) -> HookResult<Vec<HookAction>> {
            if !subject(&s.client_identifier) {
                return Ok(vec![]);
            }
            let codes = codes.map(|c| c.iter().map(|c| *c as u8).collect::<Vec<_>>());
            let call = Call { kind: "after-subscribe", peer: s.peer.port(), client: s.client_identifier.to_string(), subs: Some(names(s.subscribes.keys())), arg: format!("{:?} changed={changed} {codes:?}", p.topics.iter().map(|t| t.0.to_string()).collect::<Vec<_>>()) };
            self.after(call, Some((len, body))).await
        }
        async fn $before_unsubscribe(&self, s: &$session, len: usize, body: &[u8], p: &mut $ver::Unsubscribe, changed: &mut bool) -> HookResult<HookUnsubscribeCode> {
            if !subject(&s.client_identifier) {
                return Ok(HookUnsubscribeCode::Success);
            }
            let call = Call { kind: "before-unsubscribe", peer: s.peer.port(), client: s.client_identifier.to_string(), subs: Some(names(s.subscribes.keys())), arg: format!("{:?}", p.topics.iter().map(|t| t.to_string()).collect::<Vec<_>>()) };
            let plan = self.before(call, Some((len, body))).await;
            if let Some(t) = plan.change {
                p.topics[0] = filter(TOPICS[t as usize % 3]);
                *changed = true;
            }
            verdict!(plan, HookUnsubscribeCode::Success, UNSUBSCRIBE_CODES)
        }
        async fn $after_unsubscribe(&self, s: &$session, len: usize, body: &[u8], p: &$ver::Unsubscribe, changed: bool) -> HookResult<Vec<HookAction>> {
            if !subject(&s.client_identifier) {
                return Ok(vec![]);
            }
            let call = Call { kind: "after-unsubscribe", peer: s.peer.port(), client: s.client_identifier.to_string(), subs: Some(names(s.subscribes.keys())), arg: format!("{:?} changed={changed}", p.topics.iter().map(|t| t.to_string()).collect::<Vec<_>>()) };
            self.after(call, Some((len, body))).await
        }
        async fn $after_disconnect(&self, s: &$session, taken_over: bool) -> HookResult<()> {
            if !subject(&s.client_identifier) {
                return Ok(());
            }
            self.gone(Call { kind: "after-disconnect", peer: s.peer.port(), client: s.client_identifier.to_string(), subs: None, arg: format!("taken_over={taken_over}") })
        }
    };
}

fn show_publish(topic: &str, payload: &[u8], qp: QosPid) -> String {
    format!("{topic} {} {qp:?}", String::from_utf8_lossy(payload))
}

impl Hook for Judge {
    hooks!(
        v5, SessionV5, v5::SubscribeReasonCode, v5_before_connect, v5_after_connect, v5_before_publish, v5_after_publish, v5_before_subscribe,
        v5_after_subscribe, v5_before_unsubscribe, v5_after_unsubscribe, v5_after_disconnect
    );
    hooks!(
        v3, SessionV3, v3::SubscribeReturnCode, v3_before_connect, v3_after_connect, v3_before_publish, v3_after_publish, v3_before_subscribe,
        v3_after_subscribe, v3_before_unsubscribe, v3_after_unsubscribe, v3_after_disconnect
    );
}

// ------------------------------------------------------------------ the oracle

#[derive(Clone, Debug)]
struct Due {
    topic: usize,
    payload: String,
    qos: u8,
    /// unsubscribed meanwhile
    optional: bool,
}

#[derive(Default)]
struct Slot {
    me: Option<Client>,
    peer: u16,
    exists: bool,
    persistent: bool,
    subs: BTreeMap<usize, u8>,
    will: Option<String>,
    /// messages it has to receive (now, or when it is back)
    due: Vec<Due>,
    pid: u16,
}

struct Z<'a> {
    case: &'a Case,
    global: Arc<GlobalState>,
    judge: Judge,
    slots: Vec<Slot>,
    watcher: Client,
    /// messages the watcher has to receive now
    watched: Vec<(String, String)>,
    calls: Vec<Call>,
    /// retained messages
    kept: [Option<(String, u8)>; 3],
    peers: u16,
    tag: u32,
    act_tag: u32,
    tasks: Vec<Task>,
    out: Outcome,
}

impl Z<'_> {
    fn ver(&self, c: usize) -> Ver {
        self.case.vers[c]
    }

    fn name(c: usize) -> String {
        format!("subject-{c}")
    }

    fn subs(&self, c: usize) -> Vec<String> {
        self.slots[c].subs.keys().map(|t| TOPICS[*t].to_string()).collect()
    }

    fn call(&mut self, c: usize, kind: &'static str, subs: bool, arg: String) {
        let call = Call { kind, peer: self.slots[c].peer, client: Self::name(c), subs: subs.then(|| self.subs(c)), arg };
        self.calls.push(call);
    }

    fn deliver(&mut self, t: usize, payload: String, qos: u8) {
        for s in &mut self.slots {
            if let Some(q) = s.subs.get(&t) {
                let qos = qos.min(*q);
                if s.me.is_some() || qos > 0 {
                    s.due.push(Due { topic: t, payload: payload.clone(), qos, optional: false });
                }
            }
        }
        self.watched.push((TOPICS[t].into(), payload));
    }

    fn unsubscribe(&mut self, c: usize, t: usize) -> bool {
        for d in &mut self.slots[c].due {
            d.optional |= d.topic == t;
        }
        self.slots[c].subs.remove(&t).is_some()
    }

    fn acts(&mut self, c: usize, acts: &[Act]) {
        for a in acts {
            self.out.tag("action");
            match *a {
                Act::Pub { t, qos, retain } => {
                    self.act_tag += 1;
                    let t = t as usize % 3;
                    let payload = act_payload(self.act_tag, retain);
                    if retain > 0 {
                        self.out.tag("retained-action");
                        self.kept[t] = (retain == 1).then(|| (payload.clone(), qos));
                    }
                    self.deliver(t, payload, qos);
                }
                Act::Sub { t, qos } => {
                    self.slots[c].subs.insert(t as usize % 3, qos);
                }
                Act::Unsub { t } => {
                    self.unsubscribe(c, t as usize % 3);
                }
            }
        }
    }

    /// The connection of a client ends.
    fn ended(&mut self, c: usize, with_will: bool) {
        let s = &mut self.slots[c];
        if let Some(will) = s.will.take()
            && with_will
        {
            self.watched.push(("w".into(), will));
        }
        let s = &mut self.slots[c];
        s.due.retain(|d| d.qos > 0);
        s.exists = s.persistent;
        if !s.exists {
            s.subs.clear();
            s.due.clear();
        }
    }

    /// Compare everything with the model.
    async fn check(&mut self, sort: bool) -> Result<(), Failure> {
        for _ in 0..3 {
            settle().await;
        }
        let (log, mismatch) = {
            let mut s = self.judge.0.lock().unwrap();
            s.plans.clear();
            s.current = None;
            (std::mem::take(&mut s.log), s.mismatch.take())
        };
        if let Some(m) = mismatch {
            return fail("raw", m);
        }
        let (mut log, mut calls) = (log, std::mem::take(&mut self.calls));
        if sort {
            ensure!(log.first() == calls.first(), "calls", "hooks called: {log:#?}, expected: {calls:#?}");
            log.sort_by_key(|c| format!("{c:?}"));
            calls.sort_by_key(|c| format!("{c:?}"));
        }
        ensure!(log == calls, "calls", "hooks called: {log:#?}, expected: {calls:#?}");
        for (k, s) in self.slots.iter_mut().enumerate() {
            let Some(me) = &mut s.me else { continue };
            ensure!(!me.end.closed(), "closed", "the connection of {} was closed", Self::name(k));
            for e in me.read()?.1 {
                match e {
                    Ev::Publish(p) => receive(k, me, &mut s.due, &p)?,
                    Ev::Pubcomp(_, 0) => {}
                    e => return fail("unexpected", format!("{} received {e:?}", Self::name(k))),
                }
            }
            s.due.retain(|d| !d.optional);
            ensure!(s.due.is_empty(), "lost", "{} did not receive {:?}", Self::name(k), s.due);
        }
        let mut seen = vec![];
        for e in self.watcher.read()?.1 {
            match e {
                Ev::Publish(p) => seen.push((p.topic.clone(), String::from_utf8_lossy(&p.payload).into_owned())),
                e => return fail("watcher", format!("the watcher received {e:?}")),
            }
        }
        let mut watched = std::mem::take(&mut self.watched);
        if sort {
            seen.sort();
            watched.sort();
        }
        ensure!(seen == watched, "watcher", "published: {seen:?}, expected: {watched:?}");
        let online = 1 + self.slots.iter().filter(|s| s.me.is_some()).count();
        let all = 1 + self.slots.iter().filter(|s| s.exists).count();
        let g = &self.global;
        ensure!(
            (g.online_clients_count() as usize, g.clients_count() as usize) == (online, all),
            "counts",
            "{} online of {} clients, expected {online} of {all}",
            g.online_clients_count(),
            g.clients_count()
        );
        for t in std::mem::take(&mut self.tasks) {
            if t.is_finished() {
                if let Err(e) = t.await {
                    return fail("panic", format!("a connection task panicked: {e}"));
                }
            } else {
                self.tasks.push(t);
            }
        }
        ensure!(self.tasks.len() == online, "tasks", "{} connections are handled, {online} are open", self.tasks.len());
        Ok(())
    }

    async fn connect(&mut self, c: usize, clean: bool, will: bool, plan: &Plan) -> Result<(), Failure> {
        let ver = self.ver(c);
        self.tag += 1;
        let payload = format!("will{}", self.tag);
        let o = ConnOpts {
            clean,
            expiry: (!clean).then_some(1_000_000),
            will: will.then(|| Will { topic: "w".into(), payload: payload.clone().into_bytes(), ..Default::default() }),
            ..Default::default()
        };
        self.peers += 1;
        let peer = 10000 + self.peers;
        let [before, after, gone, ..] = self.case.on;
        if before || after {
            self.judge.0.lock().unwrap().plans.push_back((plan.clone(), vec![]));
        }
        let (end, task) = transport::open(&self.global, self.judge.clone(), &Via::default(), vec![], vec![], self.peers);
        self.tasks.push(task);
        let mut me = Client::new(ver, end, &o, 1000);
        me.send(&connect_packet(ver, &Self::name(c), &o));
        for _ in 0..12 {
            settle().await;
        }
        let evs = me.read()?.1;
        if before {
            let call = Call { kind: "before-connect", peer, client: Self::name(c), subs: None, arg: format!("will={will}") };
            self.calls.push(call);
            let want = match plan.before {
                Verdict::Yes => None,
                Verdict::No(n) => {
                    let n = n as usize % CONNECT_CODES.len();
                    Some(Some(if ver.is5() { CONNECT_CODES[n].1 } else { V3_CONNECT_CODES[n] }))
                }
                Verdict::Err => Some(None),
            };
            if let Some(code) = want {
                self.out.tag("connect-refused");
                let ok = match (&evs[..], code) {
                    ([], None) => true,
                    ([Ev::Connack { code, present: false, .. }], Some(want)) => *code == want,
                    _ => false,
                };
                ensure!(ok, "connack", "{} received {evs:?}, expected {code:?}", Self::name(c));
                ensure!(me.end.closed(), "open", "the refused connection of {} is open", Self::name(c));
                me.end.reset();
                return self.check(false).await;
            }
        }
        // the connection before
        if let Some(old) = self.slots[c].me.take() {
            self.out.tag("take-over");
            ensure!(old.end.closed(), "takeover-open", "the old connection of {} is open", Self::name(c));
            old.end.reset();
            if gone {
                self.call(c, "after-disconnect", false, "taken_over=true".into());
            }
            self.ended(c, true);
        }
        let s = &mut self.slots[c];
        let present = s.exists && !clean;
        if !present {
            s.subs.clear();
            s.due.clear();
        }
        s.peer = peer;
        s.exists = true;
        s.persistent = !clean;
        s.will = will.then_some(payload);
        let mut evs = evs.into_iter();
        let first = evs.next();
        ensure!(
            matches!(first, Some(Ev::Connack { code: 0, present: p, .. }) if p == present),
            "connack",
            "{} received {first:?}, expected session present {present}",
            Self::name(c)
        );
        for e in evs.clone() {
            match e {
                // (at least those: more may come with the actions)
                Ev::Publish(_) => {}
                e => return fail("unexpected", format!("{} received {e:?}", Self::name(c))),
            }
        }
        let failed = after && plan.fail;
        s.me = Some(me);
        if after {
            self.call(c, "after-connect", true, format!("present={present}"));
            if !failed {
                self.acts(c, &plan.acts);
            }
        }
        let s = &mut self.slots[c];
        let me = s.me.as_mut().unwrap();
        if failed {
            self.out.tag("hook-failed");
            ensure!(me.end.closed(), "open", "the connection of {} is open after the failure of the hook", Self::name(c));
            me.end.reset();
            s.me = None;
            self.ended(c, true);
        } else {
            for e in evs {
                if let Ev::Publish(p) = e {
                    receive(c, me, &mut s.due, &p)?;
                }
            }
        }
        self.check(true).await
    }

    async fn reqs(&mut self, c: usize, reqs: &[Req]) -> Result<(), Failure> {
        let ver = self.ver(c);
        if self.slots[c].me.is_none() {
            return Ok(());
        }
        let mut data = vec![];
        // acknowledgements in order
        let mut acks: Vec<String> = vec![];
        let mut rels = vec![];
        let mut open = true;
        let yes = Plan { before: Verdict::Yes, change: None, acts: vec![], fail: false, slow: 0 };
        for r in reqs {
            self.slots[c].pid += 1;
            let pid = self.slots[c].pid;
            let (packet, hooked, kinds, raw);
            self.tag += 1;
            let payload = format!("msg{}", self.tag);
            match r.what {
                What::Pub { t, qos } => {
                    let t = TOPICS[t as usize % 3];
                    packet = publish_packet(ver, &OutPub { qos, pid, topic: t.into(), payload: payload.clone().into_bytes(), ..Default::default() });
                    hooked = self.case.on[3];
                    kinds = ("before-publish", "after-publish");
                    raw = String::new();
                }
                What::Sub { t, u, qos } => {
                    let (t, u) = (t as usize % 3, u as usize % 3);
                    let mut topics = vec![TOPICS[t]];
                    if u != t {
                        topics.push(TOPICS[u]);
                    }
                    let subs: Vec<_> = topics.iter().map(|t| SubReq { filter: t.to_string(), qos, ..Default::default() }).collect();
                    packet = subscribe_packet(ver, pid, &subs, None);
                    hooked = self.case.on[4];
                    kinds = ("before-subscribe", "after-subscribe");
                    raw = format!("{topics:?}");
                }
                What::Unsub { t, u } => {
                    let (t, u) = (t as usize % 3, u as usize % 3);
                    let mut topics = vec![TOPICS[t].to_string()];
                    if u != t {
                        topics.push(TOPICS[u].to_string());
                    }
                    packet = unsubscribe_packet(ver, pid, &topics);
                    hooked = self.case.on[5];
                    kinds = ("before-unsubscribe", "after-unsubscribe");
                    raw = format!("{topics:?}");
                }
            }
            data.extend(&packet);
            let plan = if hooked { &r.plan } else { &yes };
            if hooked {
                self.judge.0.lock().unwrap().plans.push_back((plan.clone(), packet));
            }
            if !open {
                continue;
            }
            let change = plan.change.map(|t| t as usize % 3);
            let shown = |q: u8| match q {
                0 => QosPid::Level0,
                1 => QosPid::Level1(super::client::pid(pid)),
                _ => QosPid::Level2(super::client::pid(pid)),
            };
            if hooked {
                let arg = match r.what {
                    What::Pub { t, qos } => show_publish(TOPICS[t as usize % 3], payload.as_bytes(), shown(qos)),
                    _ => raw,
                };
                self.call(c, kinds.0, true, arg);
            }
            if plan.before != Verdict::Yes {
                self.out.tag("refused");
            }
            self.out.tag_if(change.is_some() && plan.before == Verdict::Yes, "changed");
            let no = match plan.before {
                Verdict::Yes => None,
                Verdict::No(n) if ver.is5() => Some(n as usize),
                _ => {
                    open = false;
                    continue;
                }
            };
            let arg;
            match r.what {
                What::Pub { t, qos } => {
                    let code = no.map(|n| PUBLISH_CODES[n % PUBLISH_CODES.len()].1);
                    match qos {
                        0 => {}
                        1 => acks.push(format!("puback {pid} {}", code.unwrap_or(0))),
                        _ => {
                            acks.push(format!("pubrec {pid} {}", code.unwrap_or(0)));
                            if code.is_none() {
                                rels.push(pid);
                            }
                        }
                    }
                    if code.is_some() {
                        continue;
                    }
                    let (t, payload) = match change {
                        Some(u) => (u, format!("{payload}changed")),
                        None => (t as usize % 3, payload),
                    };
                    self.deliver(t, payload.clone(), qos);
                    arg = format!("{} changed={}", show_publish(TOPICS[t], payload.as_bytes(), shown(qos)), change.is_some());
                }
                What::Sub { t, u, qos } => {
                    let mut topics = vec![t as usize % 3];
                    if u % 3 != t % 3 {
                        topics.push(u as usize % 3);
                    }
                    if let Some(n) = no {
                        acks.push(format!("suback {pid} {:?}", vec![SUBSCRIBE_CODES[n % SUBSCRIBE_CODES.len()].1; topics.len()]));
                        continue;
                    }
                    if let Some(t) = change {
                        topics[0] = t;
                    }
                    for t in &topics {
                        self.slots[c].subs.insert(*t, qos);
                        if let Some((payload, q)) = &self.kept[*t] {
                            self.slots[c].due.push(Due { topic: *t, payload: payload.clone(), qos: qos.min(*q), optional: false });
                        }
                    }
                    acks.push(format!("suback {pid} {:?}", vec![qos; topics.len()]));
                    let shown: Vec<_> = topics.iter().map(|t| TOPICS[*t]).collect();
                    arg = format!("{shown:?} changed={} {:?}", change.is_some(), Some(vec![qos; topics.len()]));
                }
                What::Unsub { t, u } => {
                    let mut topics = vec![t as usize % 3];
                    if u % 3 != t % 3 {
                        topics.push(u as usize % 3);
                    }
                    if let Some(n) = no {
                        acks.push(format!("unsuback {pid} {:?}", vec![UNSUBSCRIBE_CODES[n % UNSUBSCRIBE_CODES.len()].1; topics.len()]));
                        continue;
                    }
                    if let Some(t) = change {
                        topics[0] = t;
                    }
                    let had: Vec<_> = topics.iter().map(|t| self.unsubscribe(c, *t)).collect();
                    let codes: Vec<u8> = if ver.is5() { had.iter().map(|h| if *h { 0 } else { 0x11 }).collect() } else { vec![] };
                    acks.push(format!("unsuback {pid} {codes:?}"));
                    let shown: Vec<_> = topics.iter().map(|t| TOPICS[*t]).collect();
                    arg = format!("{shown:?} changed={}", change.is_some());
                }
            }
            if hooked {
                self.call(c, kinds.1, true, arg);
                if plan.fail {
                    self.out.tag("hook-failed");
                    open = false;
                    continue;
                }
                self.acts(c, &plan.acts);
            }
        }
        let me = self.slots[c].me.as_mut().unwrap();
        me.send(&data);
        for _ in 0..8 * reqs.len() + 2 {
            settle().await;
        }
        let mut got = vec![];
        let evs = me.read()?.1;
        for e in evs {
            match e {
                Ev::Publish(p) => {
                    let s = &mut self.slots[c];
                    if open {
                        receive(c, s.me.as_mut().unwrap(), &mut s.due, &p)?;
                    } else {
                        // (not acknowledged, QoS 1 is to come again)
                        let text = String::from_utf8_lossy(&p.payload).into_owned();
                        ensure!(s.due.iter().any(|d| d.payload == text), "unexpected", "{} received {p:?}", Self::name(c));
                    }
                }
                Ev::Puback(pid, code) => got.push(format!("puback {pid} {code}")),
                Ev::Pubrec(pid, code) => got.push(format!("pubrec {pid} {code}")),
                Ev::Suback(pid, codes) => got.push(format!("suback {pid} {codes:?}")),
                Ev::Unsuback(pid, codes) => got.push(format!("unsuback {pid} {codes:?}")),
                Ev::Disconnect(_) if !open => {}
                e => return fail("unexpected", format!("{} received {e:?}", Self::name(c))),
            }
        }
        if open {
            ensure!(got == acks, "acks", "{} received {got:?}, expected {acks:?}", Self::name(c));
            let me = self.slots[c].me.as_ref().unwrap();
            for pid in rels {
                me.send(&ack_packet(ver, Ack::Pubrel, pid));
            }
        } else {
            ensure!(acks.starts_with(&got), "acks", "{} received {got:?}, expected {acks:?} (the connection was to be closed)", Self::name(c));
            let me = self.slots[c].me.take().unwrap();
            ensure!(me.end.closed(), "open", "the connection of {} is open after the verdict of the hook", Self::name(c));
            me.end.reset();
            if self.case.on[2] {
                self.call(c, "after-disconnect", false, "taken_over=false".into());
            }
            self.ended(c, true);
        }
        self.check(false).await
    }

    async fn op(&mut self, op: &Op) -> Result<(), Failure> {
        let n = self.slots.len();
        // (what was just acknowledged)
        settle().await;
        match op {
            Op::Connect { c, clean, will, plan } => self.connect(*c as usize % n, *clean, *will, plan).await,
            Op::Reqs { c, reqs } => self.reqs(*c as usize % n, reqs).await,
            Op::Leave { c, how, fail } => {
                let c = *c as usize % n;
                let ver = self.ver(c);
                let Some(me) = self.slots[c].me.take() else { return Ok(()) };
                self.judge.0.lock().unwrap().disconnect_fails = *fail;
                match how % 4 {
                    0 => me.send(&disconnect_packet(ver, 0, None)),
                    1 => me.end.eof(),
                    2 => me.end.reset(),
                    _ => me.send(&[0xf0, 0xff, 0xff, 0xff, 0xff, 0x01]),
                }
                if self.case.on[2] {
                    self.call(c, "after-disconnect", false, "taken_over=false".into());
                }
                settle().await;
                settle().await;
                if how % 4 != 2 {
                    ensure!(me.end.closed(), "open", "the connection of {} is open", Self::name(c));
                    me.end.reset();
                }
                self.ended(c, how % 4 != 0);
                let res = self.check(false).await;
                self.judge.0.lock().unwrap().disconnect_fails = false;
                res
            }
        }
    }
}

fn receive(k: usize, me: &mut Client, due: &mut Vec<Due>, p: &InPub) -> Result<(), Failure> {
    let text = String::from_utf8_lossy(&p.payload).into_owned();
    let Some(i) = due.iter().position(|d| d.payload == text && TOPICS[d.topic] == p.topic && d.qos == p.qos) else {
        return fail("unexpected", format!("subject-{k} received {p:?}, expected {due:?}"));
    };
    due.remove(i);
    if p.qos == 1 {
        me.send(&ack_packet(me.ver, Ack::Puback, p.pid));
        me.done(p.pid);
    }
    Ok(())
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut config = base_config();
    let [bc, ac, ad, p, s, u] = case.on;
    config.hook.enable_before_connect = bc;
    config.hook.enable_after_connect = ac;
    config.hook.enable_after_disconnect = ad;
    config.hook.enable_publish = p;
    config.hook.enable_subscribe = s;
    config.hook.enable_unsubscribe = u;
    let res = rt.block_on(async {
        let global = Arc::new(GlobalState::new(config));
        let judge = Judge(Default::default());
        let (end, task) = transport::open(&global, judge.clone(), &Via::default(), vec![], vec![], 1);
        let o = ConnOpts { clean: true, ..Default::default() };
        let mut watcher = Client::new(Ver::V5, end, &o, 100);
        watcher.send(&connect_packet(Ver::V5, "watcher", &o));
        if case.retained {
            watcher.send(&publish_packet(Ver::V5, &OutPub { qos: 1, pid: 1, retain: true, topic: "a".into(), payload: b"kept".to_vec(), ..Default::default() }));
        }
        watcher.send(&subscribe_packet(Ver::V5, 1, &[SubReq { filter: "#".into(), rh: 2, ..Default::default() }], None));
        settle().await;
        settle().await;
        let evs = watcher.read()?.1;
        ensure!(evs.len() == 2 + case.retained as usize, "setup", "the watcher received {evs:?}");
        let mut z = Z {
            case,
            global,
            judge,
            slots: case.vers.iter().map(|_| Slot::default()).collect(),
            watcher,
            watched: vec![],
            calls: vec![],
            kept: [case.retained.then(|| ("kept".into(), 1)), None, None],
            peers: 1,
            tag: 0,
            act_tag: 0,
            tasks: vec![task],
            out: Outcome::default(),
        };
        for op in &case.ops {
            z.op(op).await?;
        }
        // nobody is locked out
        let plan = Plan { before: Verdict::Yes, change: None, acts: vec![], fail: false, slow: 0 };
        for c in 0..z.slots.len() {
            z.connect(c, c == 0, false, &plan).await?;
        }
        z.out.nontrivial = ["action", "refused", "changed", "hook-failed", "connect-refused"].iter().any(|t| z.out.tags.contains(t));
        Ok(z.out)
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res
}

pub fn case() -> BoxedStrategy<Case> {
    let ver = || prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 3 => Just(Ver::V5)];
    let t = || 0u8..3;
    let act = prop_oneof![
        (t(), 0u8..3, prop_oneof![3 => Just(0u8), 2 => Just(1), 1 => Just(2)]).prop_map(|(t, qos, retain)| Act::Pub { t, qos, retain }),
        (t(), 0u8..2).prop_map(|(t, qos)| Act::Sub { t, qos }),
        t().prop_map(|t| Act::Unsub { t }),
    ];
    let plan = move |no: u32| {
        (
            prop_oneof![8 => Just(Verdict::Yes), no => (0u8..8).prop_map(Verdict::No), 1 => Just(Verdict::Err)],
            prop::option::weighted(0.3, t()),
            prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(act.clone(), 1..4)],
            prop::bool::weighted(0.06),
            prop_oneof![2 => Just(0u8), 1 => 0u8..4],
        )
            .prop_map(|(before, change, acts, fail, slow)| Plan { before, change, acts, fail, slow })
    };
    let what = prop_oneof![
        3 => (t(), 0u8..3).prop_map(|(t, qos)| What::Pub { t, qos }),
        2 => (t(), t(), 0u8..2).prop_map(|(t, u, qos)| What::Sub { t, u, qos }),
        1 => (t(), t()).prop_map(|(t, u)| What::Unsub { t, u }),
    ];
    let c = || 0u8..2;
    let req = (what, plan(2)).prop_map(|(what, plan)| Req { what, plan });
    let op = prop_oneof![
        4 => (c(), any::<bool>(), any::<bool>(), plan(1)).prop_map(|(c, clean, will, plan)| Op::Connect { c, clean, will, plan }),
        7 => (c(), prop::collection::vec(req, 1..4)).prop_map(|(c, reqs)| Op::Reqs { c, reqs }),
        1 => (c(), 0u8..4, prop::bool::weighted(0.2)).prop_map(|(c, how, fail)| Op::Leave { c, how, fail }),
    ];
    let on = prop::collection::vec(prop::bool::weighted(0.8), 6).prop_map(|v| v.try_into().unwrap());
    (prop::collection::vec(ver(), 2), on, any::<bool>(), prop::collection::vec(op, 2..16))
        .prop_map(|(vers, on, retained, ops)| Case { vers, on, retained, ops })
        .boxed()
}
