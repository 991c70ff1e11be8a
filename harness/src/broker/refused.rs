//! What a refusal by the publish hook leaves behind: topic aliases stay set, packet identifiers
//! become free, nothing else changes.
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use akasa_core::mqtt_proto::v5;
use akasa_core::{GlobalState, Hook, HookAction, HookConnectCode, HookPublishCode, HookResult, HookSubscribeCode, HookUnsubscribeCode, SessionV3, SessionV5};
use akasa_core::mqtt_proto::v3;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::client::*;
use super::hooks::{PUBLISH_CODES, TOPICS};
use super::transport::{self, Via};
use super::world::{base_config, paused_rt, settle};
use crate::ensure;
use crate::runner::{CaseResult, Failure, Outcome};

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Alias {
    No,
    Set(u8),
    Use(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Send { t: u8, qos: u8, alias: Alias, no: Option<u8>, slow: u8 },
    /// release the oldest message
    Release,
    /// a new connection: what is not released and whose answer the client did not see (from the
    /// given one on) is sent again, with the verdicts
    Reconnect { seen: u8, no: Vec<Option<u8>> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
}

#[derive(Clone)]
struct Judge(Arc<Mutex<VecDeque<(Option<u8>, u8)>>>);

impl Judge {
    async fn verdict(&self, subject: bool) -> HookResult<HookPublishCode> {
        if !subject {
            return Ok(HookPublishCode::Success);
        }
        let (no, slow) = self.0.lock().unwrap().pop_front().unwrap_or((None, 0));
        if slow > 0 {
            tokio::time::sleep(Duration::from_millis(slow as u64 % 4)).await;
        }
        Ok(no.map_or(HookPublishCode::Success, |n| PUBLISH_CODES[n as usize % PUBLISH_CODES.len()].0))
    }
}

macro_rules! rest {
    ($ver:ident, $session:ty, $codes:ty, $bc:ident, $ac:ident, $ap:ident, $bs:ident, $as:ident, $bu:ident, $au:ident, $ad:ident) => {
        async fn $bc(&self, _: std::net::SocketAddr, _: &$ver::Connect) -> HookResult<HookConnectCode> {
            Ok(HookConnectCode::Success)
        }
        async fn $ac(&self, _: &$session, _: bool) -> HookResult<Vec<HookAction>> {
            Ok(vec![])
        }
        async fn $ap(&self, _: &$session, _: usize, _: &[u8], _: &$ver::Publish, _: bool) -> HookResult<Vec<HookAction>> {
            Ok(vec![])
        }
        async fn $bs(&self, _: &$session, _: usize, _: &[u8], _: &mut $ver::Subscribe, _: &mut bool) -> HookResult<HookSubscribeCode> {
            Ok(HookSubscribeCode::Success)
        }
        async fn $as(&self, _: &$session, _: usize, _: &[u8], _: &$ver::Subscribe, _: bool, _: Option<Vec<$codes>>) -> HookResult<Vec<HookAction>> {
            Ok(vec![])
        }
        async fn $bu(&self, _: &$session, _: usize, _: &[u8], _: &mut $ver::Unsubscribe, _: &mut bool) -> HookResult<HookUnsubscribeCode> {
            Ok(HookUnsubscribeCode::Success)
        }
        async fn $au(&self, _: &$session, _: usize, _: &[u8], _: &$ver::Unsubscribe, _: bool) -> HookResult<Vec<HookAction>> {
            Ok(vec![])
        }
        async fn $ad(&self, _: &$session, _: bool) -> HookResult<()> {
            Ok(())
        }
    };
}

impl Hook for Judge {
    rest!(v5, SessionV5, v5::SubscribeReasonCode, v5_before_connect, v5_after_connect, v5_after_publish, v5_before_subscribe, v5_after_subscribe, v5_before_unsubscribe, v5_after_unsubscribe, v5_after_disconnect);
    rest!(v3, SessionV3, v3::SubscribeReturnCode, v3_before_connect, v3_after_connect, v3_after_publish, v3_before_subscribe, v3_after_subscribe, v3_before_unsubscribe, v3_after_unsubscribe, v3_after_disconnect);

    async fn v5_before_publish(&self, s: &SessionV5, _: usize, _: &[u8], _: &mut v5::Publish, _: &mut bool) -> HookResult<HookPublishCode> {
        self.verdict(&*s.client_identifier == "subject").await
    }
    async fn v3_before_publish(&self, s: &SessionV3, _: usize, _: &[u8], _: &mut v3::Publish, _: &mut bool) -> HookResult<HookPublishCode> {
        self.verdict(&*s.client_identifier == "subject").await
    }
}

#[derive(Clone, Debug)]
struct Open {
    pid: u16,
    topic: usize,
    payload: Vec<u8>,
    /// the broker has published it
    done: bool,
}

struct Z {
    global: Arc<GlobalState>,
    judge: Judge,
    me: Client,
    watcher: Client,
    /// QoS 2 messages not released
    open: Vec<Open>,
    aliases: BTreeMap<u8, usize>,
    tag: u32,
    peer: u16,
    out: Outcome,
}

impl Z {
    async fn rest() {
        for _ in 0..6 {
            settle().await;
        }
    }

    fn expect(&mut self, what: &str, answers: &[String], published: &[(usize, Vec<u8>)]) -> Result<(), Failure> {
        let evs = self.me.read()?.1;
        let got: Vec<String> = evs.iter().map(|e| format!("{e:?}")).collect();
        ensure!(got == answers, "answers", "{what}: the client received {got:?}, expected {answers:?}");
        let mut seen = vec![];
        for e in self.watcher.read()?.1 {
            match e {
                Ev::Publish(p) => seen.push((p.topic, p.payload)),
                e => ensure!(false, "watcher", "{what}: the watcher received {e:?}"),
            }
        }
        let due: Vec<_> = published.iter().map(|(t, p)| (TOPICS[*t].to_string(), p.clone())).collect();
        ensure!(seen == due, "published", "{what}: published {seen:?}, expected {due:?}");
        Ok(())
    }

    fn code(no: Option<u8>) -> u8 {
        no.map_or(0, |n| PUBLISH_CODES[n as usize % PUBLISH_CODES.len()].1)
    }

    async fn op(&mut self, op: &Op) -> Result<(), Failure> {
        match op {
            Op::Send { t, qos, alias, no, slow } => {
                if *qos == 2 && self.open.len() >= 4 {
                    return Ok(());
                }
                let (mut t, mut a, mut short) = (*t as usize % 3, None, false);
                match *alias {
                    Alias::No => {}
                    Alias::Set(n) => {
                        let n = 1 + n % 3;
                        a = Some(n);
                        if no.is_some() {
                            self.out.tag("alias-refused");
                        }
                        self.aliases.insert(n, t);
                    }
                    Alias::Use(n) => {
                        let n = 1 + n % 3;
                        if let Some(s) = self.aliases.get(&n) {
                            t = *s;
                            a = Some(n);
                            short = true;
                            self.out.tag("alias-used");
                        }
                    }
                }
                self.tag += 1;
                let payload = format!("m{}", self.tag).into_bytes();
                let pid = (1..).find(|p| self.open.iter().all(|o| o.pid != *p)).unwrap();
                self.judge.0.lock().unwrap().push_back((*no, *slow));
                self.me.send(&publish_packet(Ver::V5, &OutPub {
                    qos: *qos,
                    pid,
                    topic: TOPICS[t].into(),
                    alias: a.map(|a| a as u16),
                    short,
                    payload: payload.clone(),
                    ..Default::default()
                }));
                Self::rest().await;
                let code = Self::code(*no);
                let answers = match qos {
                    0 => vec![],
                    1 => vec![format!("{:?}", Ev::Puback(pid, code))],
                    _ => vec![format!("{:?}", Ev::Pubrec(pid, code))],
                };
                if no.is_some() {
                    self.out.tag("refused");
                }
                if *qos == 2 {
                    self.out.tag_if(self.open.is_empty() && self.tag > 3, "identifier-again");
                    // (when it is refused the client may not learn about it, see Reconnect)
                    self.open.push(Open { pid, topic: t, payload: payload.clone(), done: no.is_none() });
                }
                let published = if no.is_none() { vec![(t, payload)] } else { vec![] };
                self.expect(&format!("{op:?}"), &answers, &published)?;
                if *qos == 2 && no.is_some() && self.tag % 3 != 0 {
                    // the client sees the refusal
                    self.open.pop();
                }
                Ok(())
            }
            Op::Release => {
                // (a refused one is not released)
                self.open.retain(|o| o.done);
                if self.open.is_empty() {
                    return Ok(());
                }
                let o = self.open.remove(0);
                self.me.send(&ack_packet(Ver::V5, Ack::Pubrel, o.pid));
                Self::rest().await;
                self.expect("PUBREL", &[format!("{:?}", Ev::Pubcomp(o.pid, 0))], &[])
            }
            Op::Reconnect { seen, no } => {
                self.me.end.reset();
                Self::rest().await;
                self.peer += 1;
                let (end, _task) = transport::open(&self.global, self.judge.clone(), &Via::default(), vec![], vec![], self.peer);
                let o = ConnOpts { expiry: Some(1000), ..Default::default() };
                self.me = Client::new(Ver::V5, end, &o, 100);
                self.me.send(&connect_packet(Ver::V5, "subject", &o));
                Self::rest().await;
                let evs = self.me.read()?.1;
                ensure!(matches!(evs[..], [Ev::Connack { present: true, code: 0, .. }]), "connack", "the client received {evs:?}");
                self.aliases.clear();
                let mut keep = vec![];
                for (i, mut o) in std::mem::take(&mut self.open).into_iter().enumerate() {
                    if i < *seen as usize && o.done {
                        keep.push(o);
                        continue;
                    }
                    let no = no.get(i).copied().flatten();
                    self.out.tag("sent-again");
                    if no.is_some() {
                        self.out.tag("refused");
                        self.out.tag_if(o.done, "refused-again");
                    }
                    self.judge.0.lock().unwrap().push_back((no, 0));
                    self.me.send(&publish_packet(Ver::V5, &OutPub { dup: true, qos: 2, pid: o.pid, topic: TOPICS[o.topic].into(), payload: o.payload.clone(), ..Default::default() }));
                    Self::rest().await;
                    let published = if no.is_none() && !o.done { vec![(o.topic, o.payload.clone())] } else { vec![] };
                    self.expect(&format!("{o:?} again, {no:?}"), &[format!("{:?}", Ev::Pubrec(o.pid, Self::code(no)))], &published)?;
                    if no.is_none() {
                        o.done = true;
                        keep.push(o);
                    }
                }
                self.open = keep;
                Ok(())
            }
        }
    }
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut config = base_config();
    config.hook.enable_publish = true;
    config.topic_alias_max = 3;
    let res = rt.block_on(async {
        let global = Arc::new(GlobalState::new(config));
        let judge = Judge(Default::default());
        let (end, _t1) = transport::open(&global, judge.clone(), &Via::default(), vec![], vec![], 1);
        let o = ConnOpts { clean: true, ..Default::default() };
        let mut watcher = Client::new(Ver::V5, end, &o, 100);
        watcher.send(&connect_packet(Ver::V5, "watcher", &o));
        watcher.send(&subscribe_packet(Ver::V5, 1, &[SubReq { filter: "#".into(), ..Default::default() }], None));
        let (end, _t2) = transport::open(&global, judge.clone(), &Via::default(), vec![], vec![], 2);
        let o = ConnOpts { clean: true, expiry: Some(1000), ..Default::default() };
        let mut me = Client::new(Ver::V5, end, &o, 100);
        me.send(&connect_packet(Ver::V5, "subject", &o));
        Z::rest().await;
        let (a, b) = (watcher.read()?.1, me.read()?.1);
        ensure!(a.len() == 2 && b.len() == 1, "setup", "{a:?} {b:?}");
        let mut z = Z { global, judge, me, watcher, open: vec![], aliases: Default::default(), tag: 0, peer: 2, out: Outcome::default() };
        for op in &case.ops {
            z.op(op).await?;
        }
        z.out.nontrivial = ["alias-refused", "refused-again"].iter().any(|t| z.out.tags.contains(t));
        Ok(z.out)
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res
}

pub fn case() -> BoxedStrategy<Case> {
    let no = || prop::option::weighted(0.35, 0u8..4);
    let alias = prop_oneof![
        2 => Just(Alias::No),
        2 => (0u8..3).prop_map(Alias::Set),
        3 => (0u8..3).prop_map(Alias::Use),
    ];
    let op = prop_oneof![
        8 => (0u8..3, prop_oneof![Just(0u8), Just(1), Just(2), Just(2)], alias, no(), prop_oneof![2 => Just(0u8), 1 => 1u8..4])
            .prop_map(|(t, qos, alias, no, slow)| Op::Send { t, qos, alias, no, slow }),
        2 => Just(Op::Release),
        2 => (0u8..3, prop::collection::vec(no(), 4)).prop_map(|(seen, no)| Op::Reconnect { seen, no }),
    ];
    prop::collection::vec(op, 2..20).prop_map(|ops| Case { ops }).boxed()
}
