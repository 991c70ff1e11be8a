//! A reference model of an MQTT broker (sessions, subscriptions, retained messages, wills,
//! QoS handshakes) run in lock step with the real broker over in-memory connections.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use std::time::Duration;

use akasa_core::mqtt_proto::v5;
use akasa_core::server::{ConnectionArgs, handle_accept};
use akasa_core::{Config, GlobalState, Hook, HookConnectCode, HookPublishCode, HookResult, HookSubscribeCode, HookUnsubscribeCode, SessionV3, SessionV5};
use bytes::Bytes;
use mqtt_proto::QosPid;
use serde::{Deserialize, Serialize};
use tokio::task::JoinHandle;

use super::client::*;
use super::pipe;
use crate::ensure;
use crate::pure::gen_topic;
use crate::runner::{CaseResult, Failure, Outcome, fail};

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Cfg {
    /// 0: hooks off, 1: on, 2: on and every hook waits once
    pub hooks: u8,
    pub window: u16,
    pub max_qos: u8,
    pub read: Vec<usize>,
    pub write: Vec<usize>,
    pub max_session_expiry: Option<u32>,
    /// shared subscriptions: 0 random, 1 by client identifier, 2 by topic name
    #[serde(default)]
    pub share_mode: u8,
    /// transports of the connections (cyclic; plain TCP if empty)
    #[serde(default)]
    pub via: Vec<super::transport::Via>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cfg: Cfg,
    pub vers: Vec<Ver>,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct PubSpec {
    pub topic: String,
    pub qos: u8,
    pub retain: bool,
    pub empty: bool,
    pub len: u16,
    pub props: Props,
    pub alias: Option<(u16, bool)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    Normal,
    NormalExpiry(u32),
    WithWill,
    Eof,
    Reset,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Connect { c: u8, clean: bool, expiry: Option<u32>, will: Option<Will>, recv_max: Option<u16>, alias_max: Option<u16>, max_packet: Option<u32> },
    Close { c: u8, how: How },
    Sub { c: u8, subs: Vec<SubReq>, id: Option<u32> },
    Unsub { c: u8, filters: Vec<String> },
    Pub { c: u8, m: PubSpec },
    Burst { c: u8, ms: Vec<PubSpec>, then: Option<How> },
    /// 0: acknowledge everything, 1: nothing, 2: no PUBCOMP, 3: refuse everything (v5)
    Hold { c: u8, mode: u8 },
    /// PUBREC again for what waits for PUBCOMP
    RecAgain { c: u8 },
    HoldRel { c: u8, on: bool },
    /// send the publishes that wait for PUBREL again with DUP=1 (v3 only)
    Redeliver { c: u8 },
    /// another message with the packet identifier of one that waits for PUBREL: `what` differs,
    /// 0 the topic, 1 the payload, 2 RETAIN
    Reuse { c: u8, what: u8, dup: bool },
    /// publish, then the connection is lost; `seen`: the broker got the packet
    LostPub { c: u8, m: PubSpec, seen: bool },
    /// the PUBRELs that are held back are sent, then the connection is lost; `seen`: the broker
    /// got them
    LostRel { c: u8, seen: bool },
    /// the PUBRELs that are held back are sent `n` times
    RelAgain { c: u8, n: u8 },
    Advance { secs: u16 },
    /// `n` of them at once
    Ping { c: u8, #[serde(default = "one")] n: u8 },
}

fn one() -> u8 {
    1
}

// ------------------------------------------------------------------ hook

#[derive(Clone)]
pub struct IdleHook {
    pub wait: bool,
}

impl IdleHook {
    async fn pass(&self) {
        if self.wait {
            tokio::task::yield_now().await;
        }
    }
}

impl Hook for IdleHook {
    async fn v5_before_publish(&self, _: &SessionV5, _: usize, _: &[u8], _: &mut v5::Publish, _: &mut bool) -> HookResult<HookPublishCode> {
        self.pass().await;
        Ok(HookPublishCode::Success)
    }
    async fn v5_before_subscribe(&self, _: &SessionV5, _: usize, _: &[u8], _: &mut v5::Subscribe, _: &mut bool) -> HookResult<HookSubscribeCode> {
        self.pass().await;
        Ok(HookSubscribeCode::Success)
    }
    async fn v5_before_unsubscribe(&self, _: &SessionV5, _: usize, _: &[u8], _: &mut v5::Unsubscribe, _: &mut bool) -> HookResult<HookUnsubscribeCode> {
        self.pass().await;
        Ok(HookUnsubscribeCode::Success)
    }
    async fn v3_before_publish(&self, _: &SessionV3, _: usize, _: &[u8], _: &mut mqtt_proto::v3::Publish, _: &mut bool) -> HookResult<HookPublishCode> {
        self.pass().await;
        Ok(HookPublishCode::Success)
    }
    async fn v3_before_subscribe(&self, _: &SessionV3, _: usize, _: &[u8], _: &mut mqtt_proto::v3::Subscribe, _: &mut bool) -> HookResult<HookSubscribeCode> {
        self.pass().await;
        Ok(HookSubscribeCode::Success)
    }
    async fn v3_before_connect(&self, _: std::net::SocketAddr, _: &mqtt_proto::v3::Connect) -> HookResult<HookConnectCode> {
        self.pass().await;
        Ok(HookConnectCode::Success)
    }
}

// ------------------------------------------------------------------ broker

/// What a client that refuses messages answers: mostly an error.
fn answer_code(pid: u16) -> u8 {
    [0x80, 0x10, 0x83, 0x87, 0x90, 0x97, 0x99][pid as usize % 7]
}

pub const HOURS: u64 = 1_000_000;

pub fn base_config() -> Config {
    let mut c = Config::new_allow_anonymous();
    c.inflight_timeout = HOURS;
    c.max_in_mem_pending_messages = 100_000;
    c.max_inflight_server = 200;
    c.max_inflight_client = 100;
    c.min_keep_alive = 0;
    set_hooks(&mut c, false);
    c
}

pub fn set_hooks(c: &mut Config, on: bool) {
    c.hook.enable_before_connect = on;
    c.hook.enable_after_connect = on;
    c.hook.enable_after_disconnect = on;
    c.hook.enable_publish = on;
    c.hook.enable_subscribe = on;
    c.hook.enable_unsubscribe = on;
}

pub fn conn_args() -> ConnectionArgs {
    ConnectionArgs {
        addr: "127.0.0.1:1883".parse().unwrap(),
        reuse_port: false,
        proxy: false,
        proxy_tls_termination: false,
        websocket: false,
        tls_acceptor: None,
    }
}

pub fn paused_rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap()
}

/// Let everything run until nothing can make progress without new input or time.
pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(1)).await;
}

pub type Task = JoinHandle<std::io::Result<()>>;

pub fn accept<H: Hook + Clone + Send + Sync + 'static>(global: &Arc<GlobalState>, hook: H, server: pipe::ServerEnd, peer: u16) -> Task {
    tokio::spawn(handle_accept(
        server,
        conn_args(),
        format!("127.0.0.1:{}", 10000 + peer as u32 % 50000).parse().unwrap(),
        hook,
        global.clone(),
    ))
}

// ------------------------------------------------------------------ model

#[derive(Clone, Debug, PartialEq)]
pub struct Sub {
    qos: u8,
    no_local: bool,
    rap: bool,
    id: Option<u32>,
}

#[derive(Clone, Debug)]
pub struct Msg {
    topic: String,
    payload: Vec<u8>,
    qos: u8,
    retain: bool,
    props: Props,
    v5: bool,
    /// identifier of the publishing client
    src: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Src {
    Live(usize),
    Retained,
}

#[derive(Clone, Debug)]
pub struct Exp {
    seq: usize,
    src: Src,
    topic: String,
    payload: Vec<u8>,
    qos: u8,
    retain: Option<bool>,
    ids: Vec<u32>,
    props: Props,
    mandatory: bool,
}

/// A message with shared subscriptions among its matches: one of the `combos` must be what
/// happened. A combination is the member picked in each group and the copies it leads to.
#[derive(Debug)]
struct Choice {
    seq: usize,
    src: Src,
    payload: Vec<u8>,
    /// (full filter, epoch of the group) of each group
    groups: Vec<(String, usize)>,
    /// what picks the member in the hash modes
    key: String,
    combos: Vec<Combo>,
    got: Vec<(usize, InPub)>,
    done: HashSet<usize>,
}

#[derive(Debug, Clone)]
struct Combo {
    picks: Vec<usize>,
    copies: Vec<(usize, Exp)>,
}

impl Combo {
    /// `all`: everything must have come, 1: except what waits for acknowledgements
    fn explains(&self, c: usize, got: &[(usize, InPub)], all: u8) -> bool {
        let mut want: Vec<&Exp> = self.copies.iter().filter(|(to, _)| *to == c).map(|(_, e)| e).collect();
        for (_, g) in got.iter().filter(|(to, _)| *to == c) {
            match want.iter().position(|e| fits(e, g)) {
                Some(i) => want.remove(i),
                None => return false,
            };
        }
        match all {
            0 => true,
            1 => want.iter().all(|e| !e.mandatory || e.qos > 0),
            _ => want.iter().all(|e| !e.mandatory),
        }
    }
}

fn fits(e: &Exp, g: &InPub) -> bool {
    let mut ids = g.ids.clone();
    ids.sort();
    e.topic == g.topic
        && e.payload == g.payload
        && e.qos == g.qos
        && e.retain.is_none_or(|r| r == g.retain)
        && e.ids == ids
        && same_props(&e.props, &g.props)
}

fn is_shared(filter: &str) -> bool {
    filter.starts_with("$share/")
}

/// The filter behind `$share/<group>/`.
fn shared_filter(filter: &str) -> &str {
    filter.splitn(3, '/').nth(2).unwrap()
}

#[derive(Default, Debug)]
struct Sess {
    subs: BTreeMap<String, Sub>,
    exp: Vec<Exp>,
    last: HashMap<(Src, bool), usize>,
    /// v3: clean session
    clean: bool,
    expiry: u32,
    max_packet: u32,
    /// messages up to this one may have been sent on a connection we did not read to its end
    blind: usize,
    /// a queued message was dropped: its place in the window stays used for a while
    dropped: bool,
    will: Option<Will>,
    will_at: Option<u64>,
    ends_at: Option<u64>,
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Stage {
    Pub,
    Rec,
}

#[derive(Debug)]
struct InState {
    msg: (String, Vec<u8>, u8),
    /// RETAIN, properties and subscription identifiers of the first transmission
    rest: (bool, Props, Vec<u32>),
    stage: Stage,
    rel: bool,
    here: bool,
    order: usize,
    /// of the PUBLISH without a topic alias
    size: usize,
    /// was too large for a connection of the client: may not be sent again
    dropped: bool,
}

#[derive(Debug)]
struct OutState {
    pid: u16,
    m: OutPub,
    stage: Stage,
    /// the broker has (or may have) processed the PUBLISH
    seen: bool,
    /// the broker has (or may have) processed a PUBREL before
    released: bool,
    expect_none: Option<bool>,
}

struct Slot {
    ver: Ver,
    id: String,
    conn: Option<Client>,
    task: Option<Task>,
    sess: Option<Sess>,
    got: Vec<InPub>,
    inq: BTreeMap<u16, InState>,
    out: Vec<OutState>,
    next_pid: u16,
    order: usize,
    hold: u8,
    hold_rel: bool,
    /// PUBCOMPs that answer repeated PUBRELs
    extra_comp: Vec<u16>,
    /// PUBREC 0x91 expected
    in_use: Vec<u16>,
    aliases: HashMap<u16, String>,
    want_sub: Option<(u16, Vec<u8>)>,
    want_unsub: Option<(u16, Vec<u8>)>,
    pongs: usize,
    acks_optional: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub delivered: usize,
    pub delivered_q12: usize,
    pub cross_version: usize,
    pub retained: usize,
    pub retained_cleared: usize,
    pub wills: usize,
    pub delayed_wills: usize,
    pub cancelled_wills: usize,
    pub takeover_wills: usize,
    /// answered with an error reason code
    pub refused: usize,
    pub rec_again: usize,
    pub resumed: usize,
    pub redelivered: usize,
    pub redelivered_rel: usize,
    pub rel_again: usize,
    pub reused: usize,
    pub offline_queued: usize,
    pub takeover: usize,
    pub expired: usize,
    pub qos2_in: usize,
    pub dup_in: usize,
    pub unseen_in: usize,
    pub held: usize,
    pub no_local: usize,
    pub sub_ids: usize,
    pub rap: usize,
    pub rh: usize,
    pub overlap: usize,
    pub alias_in: usize,
    pub alias_out: usize,
    pub too_large: usize,
    pub window_full: usize,
    pub downgraded: usize,
    pub nomatch: usize,
    pub burst: usize,
    pub unsub: usize,
    pub resub: usize,
    pub shared: usize,
    pub shared_many: usize,
    pub shared_groups: usize,
    pub shared_hash: usize,
}

pub struct World {
    global: Arc<GlobalState>,
    hook: IdleHook,
    cfg: Cfg,
    slots: Vec<Slot>,
    retained: BTreeMap<String, Msg>,
    next_id: u64,
    seq: usize,
    peers: u16,
    connecting: Option<usize>,
    choices: Vec<Choice>,
    /// changes of the membership of a group
    epochs: HashMap<String, usize>,
    /// who was picked, in the hash modes
    picked: HashMap<(String, usize, String), usize>,
    twice: HashSet<Vec<u8>>,
    t0: tokio::time::Instant,
    old_tasks: Vec<Task>,
    pub stats: Stats,
}

fn v5_len(e: &Exp) -> usize {
    pub_len(e.qos, &e.topic, &e.payload, &e.props, &e.ids)
}

fn pub_len(qos: u8, name: &str, payload: &[u8], props: &Props, ids: &[u32]) -> usize {
    let qp = match qos {
        0 => QosPid::Level0,
        1 => QosPid::Level1(pid(1)),
        _ => QosPid::Level2(pid(1)),
    };
    let mut p = v5::Publish::new(qp, topic(name), Bytes::from(payload.to_vec()));
    p.properties = props.to_v5();
    p.properties.subscription_ids = ids.iter().map(|i| v5::VarByteInt::try_from(*i).unwrap()).collect();
    v5::Packet::Publish(p).encode_len().unwrap()
}

impl World {
    pub fn new(case: &Case) -> World {
        let mut c = base_config();
        set_hooks(&mut c, case.cfg.hooks > 0);
        c.max_inflight_client = case.cfg.window;
        c.max_allowed_qos = case.cfg.max_qos;
        // the type is not exported
        let mode = ["Random", "HashClientId", "HashTopicName"][case.cfg.share_mode as usize % 3];
        c.shared_subscription_mode = serde_json::from_value(mode.into()).unwrap();
        if let Some(m) = case.cfg.max_session_expiry {
            c.max_session_expiry_interval = m;
        }
        World {
            global: Arc::new(GlobalState::new(c)),
            hook: IdleHook { wait: case.cfg.hooks == 2 },
            cfg: case.cfg.clone(),
            slots: case
                .vers
                .iter()
                .enumerate()
                .map(|(i, v)| Slot {
                    ver: *v,
                    id: client_name(i),
                    conn: None,
                    task: None,
                    sess: None,
                    got: Vec::new(),
                    inq: BTreeMap::new(),
                    out: Vec::new(),
                    next_pid: 1,
                    order: 0,
                    hold: 0,
                    hold_rel: false,
                    extra_comp: Vec::new(),
                    in_use: Vec::new(),
                    aliases: HashMap::new(),
                    want_sub: None,
                    want_unsub: None,
                    pongs: 0,
                    acks_optional: false,
                })
                .collect(),
            retained: BTreeMap::new(),
            next_id: 1,
            seq: 0,
            peers: 0,
            connecting: None,
            choices: Vec::new(),
            epochs: HashMap::new(),
            picked: HashMap::new(),
            twice: HashSet::new(),
            t0: tokio::time::Instant::now(),
            old_tasks: Vec::new(),
            stats: Stats::default(),
        }
    }

    fn now(&self) -> u64 {
        self.t0.elapsed().as_millis() as u64
    }

    // -------------------------------------------------------------- model: routing

    fn push_exp(&mut self, to: usize, mut e: Exp, online: bool) {
        let is5 = self.slots[to].ver.is5();
        if !is5 {
            e.ids.clear();
            e.props = Props::default();
        }
        e.ids.sort();
        e.ids.dedup();
        if e.qos == 0 && !online {
            return;
        }
        let sess = self.slots[to].sess.as_mut().unwrap();
        if is5 {
            if v5_len(&e) > sess.max_packet as usize {
                self.stats.too_large += 1;
                return;
            }
            self.stats.sub_ids += (!e.ids.is_empty()) as usize;
        }
        self.stats.offline_queued += !online as usize;
        sess.exp.push(e);
    }

    /// The copies `to` gets of `m` for these subscriptions.
    fn copies(&self, m: &Msg, seq: usize, to: usize, subs: &[Sub]) -> Vec<Exp> {
        if subs.is_empty() {
            return vec![];
        }
        let is5 = self.slots[to].ver.is5();
        let base = Exp {
            seq,
            src: Src::Live(m.src),
            topic: m.topic.clone(),
            payload: m.payload.clone(),
            qos: 0,
            retain: Some(false),
            ids: vec![],
            props: m.props.clone(),
            mandatory: true,
        };
        if m.v5 {
            // one copy with the highest granted QoS
            let q = subs.iter().map(|s| s.qos).max().unwrap();
            let rap = is5 && subs.iter().any(|s| s.rap);
            vec![Exp {
                qos: q.min(m.qos),
                retain: Some(m.retain && rap),
                ids: subs.iter().filter_map(|s| s.id).collect(),
                ..base
            }]
        } else {
            // one copy per matching subscription
            subs.iter()
                .map(|s| Exp {
                    qos: s.qos.min(m.qos),
                    retain: Some(m.retain && is5 && s.rap),
                    ids: s.id.into_iter().collect(),
                    props: Props::default(),
                    ..base.clone()
                })
                .collect()
        }
    }

    fn online(&self, c: usize) -> bool {
        self.slots[c].conn.is_some() || self.connecting == Some(c)
    }

    /// A message which matches shared subscriptions.
    fn route_shared(&mut self, m: &Msg, seq: usize, normal: Vec<(usize, Vec<Sub>)>, groups: BTreeMap<String, Vec<(usize, Sub)>>) {
        let names: Vec<String> = groups.keys().cloned().collect();
        let members: Vec<&Vec<(usize, Sub)>> = groups.values().collect();
        self.stats.shared += 1;
        self.stats.shared_many += members.iter().any(|v| v.len() > 1) as usize;
        self.stats.shared_groups += (members.len() > 1) as usize;
        let mut combos = Vec::new();
        let mut at = vec![0usize; members.len()];
        'all: loop {
            let mut per: BTreeMap<usize, Vec<Sub>> = normal.iter().cloned().collect();
            let mut picks = Vec::new();
            for (i, v) in members.iter().enumerate() {
                let (c, s) = &v[at[i]];
                picks.push(*c);
                per.entry(*c).or_default().push(s.clone());
            }
            let mut copies = Vec::new();
            for (to, subs) in &per {
                for mut e in self.copies(m, seq, *to, subs) {
                    if !self.slots[*to].ver.is5() {
                        e.ids.clear();
                        e.props = Props::default();
                    }
                    e.ids.sort();
                    e.ids.dedup();
                    if e.qos == 0 && !self.online(*to) {
                        continue;
                    }
                    if self.slots[*to].ver.is5() && v5_len(&e) > self.slots[*to].sess.as_ref().unwrap().max_packet as usize {
                        continue;
                    }
                    copies.push((*to, e));
                }
            }
            combos.push(Combo { picks, copies });
            let mut i = 0;
            loop {
                if i == at.len() {
                    break 'all;
                }
                at[i] += 1;
                if at[i] < members[i].len() {
                    break;
                }
                at[i] = 0;
                i += 1;
            }
        }
        let groups = names
            .into_iter()
            .map(|n| {
                let e = self.epochs.get(&n).copied().unwrap_or(0);
                (n, e)
            })
            .collect();
        let key = if self.cfg.share_mode == 2 { m.topic.clone() } else { self.slots[m.src].id.clone() };
        let payload = m.payload.clone();
        self.choices.push(Choice { seq, src: Src::Live(m.src), payload, groups, key, combos, got: vec![], done: HashSet::new() });
    }

    fn check_choices(&mut self) -> Result<(), Failure> {
        let mut choices = std::mem::take(&mut self.choices);
        let mut res = Ok(());
        for ch in &mut choices {
            let before = ch.combos.clone();
            for c in 0..self.slots.len() {
                if ch.done.contains(&c) {
                    continue;
                }
                let all = match (&self.slots[c].conn, self.slots[c].hold) {
                    (None, _) => 0,
                    (Some(_), 1 | 2) => 1,
                    _ => 2,
                };
                ch.combos.retain(|k| k.explains(c, &ch.got, all));
                if all == 2 || self.slots[c].sess.is_none() {
                    ch.done.insert(c);
                }
            }
            if ch.combos.is_empty() {
                res = fail(
                    "shared",
                    format!("no choice of one member per group {:?} explains what was received: {:?}; possible before: {before:?}", ch.groups, ch.got),
                );
                break;
            }
            // copies of a message sent again can't be told apart
            if self.cfg.share_mode > 0 && !self.twice.contains(&ch.payload) {
                for (i, (name, epoch)) in ch.groups.iter().enumerate() {
                    let p = ch.combos[0].picks[i];
                    if ch.combos.iter().all(|k| k.picks[i] == p) {
                        let key = (name.clone(), *epoch, ch.key.clone());
                        let old = *self.picked.entry(key).or_insert(p);
                        if old != p {
                            res = fail(
                                "shared-hash",
                                format!("group {name} picked {old} and then {p} for {:?} although nobody joined or left", ch.key),
                            );
                        } else {
                            self.stats.shared_hash += 1;
                        }
                    }
                }
            }
        }
        let n = self.slots.len();
        choices.retain(|c| (0..n).any(|i| !c.done.contains(&i)));
        self.choices = choices;
        res
    }

    /// Returns (sessions with a matching subscription, copies made).
    fn route(&mut self, m: &Msg) -> (usize, usize) {
        self.seq += 1;
        let seq = self.seq;
        if m.retain {
            if m.payload.is_empty() {
                self.stats.retained_cleared += self.retained.remove(&m.topic).is_some() as usize;
            } else {
                self.retained.insert(m.topic.clone(), m.clone());
            }
        }
        let mut matched = 0;
        let mut copies = 0;
        let mut normal = Vec::new();
        for to in 0..self.slots.len() {
            let Some(sess) = &self.slots[to].sess else { continue };
            let all: Vec<(String, Sub)> = sess
                .subs
                .iter()
                .filter(|(f, _)| !is_shared(f) && gen_topic::matches(f, &m.topic))
                .map(|(f, s)| (f.clone(), s.clone()))
                .collect();
            matched += all.len();
            let subs: Vec<Sub> = all.iter().map(|(_, s)| s.clone()).filter(|s| !(s.no_local && to == m.src)).collect();
            self.stats.no_local += (subs.len() < all.len()) as usize;
            if subs.is_empty() {
                continue;
            }
            let is5 = self.slots[to].ver.is5();
            self.stats.cross_version += (is5 != m.v5) as usize;
            self.stats.overlap += (subs.len() > 1) as usize;
            for s in &subs {
                self.stats.downgraded += (s.qos < m.qos) as usize;
                self.stats.rap += (is5 && s.rap && m.retain) as usize;
            }
            normal.push((to, subs));
        }
        let mut groups: BTreeMap<String, Vec<(usize, Sub)>> = BTreeMap::new();
        for (to, slot) in self.slots.iter().enumerate() {
            let Some(sess) = &slot.sess else { continue };
            for (f, s) in &sess.subs {
                if is_shared(f) && gen_topic::matches(shared_filter(f), &m.topic) {
                    groups.entry(f.clone()).or_default().push((to, s.clone()));
                }
            }
        }
        if !groups.is_empty() {
            self.route_shared(m, seq, normal, groups);
            return (1, 1);
        }
        for (to, subs) in normal {
            let online = self.online(to);
            for e in self.copies(m, seq, to, &subs) {
                copies += 1;
                self.push_exp(to, e, online);
            }
        }
        (matched, copies)
    }

    fn model_subscribe(&mut self, c: usize, subs: &[SubReq], id: Option<u32>) -> Vec<u8> {
        let is5 = self.slots[c].ver.is5();
        let mut codes = Vec::new();
        for s in subs {
            let granted = s.qos.min(self.cfg.max_qos);
            let sub = Sub {
                qos: granted,
                no_local: is5 && s.no_local,
                rap: is5 && s.rap,
                id: if is5 { id } else { None },
            };
            let old = self.slots[c].sess.as_mut().unwrap().subs.insert(s.filter.clone(), sub.clone());
            if is_shared(&s.filter) {
                if old.is_none() {
                    *self.epochs.entry(s.filter.clone()).or_default() += 1;
                }
                codes.push(granted);
                continue;
            }
            self.stats.resub += old.is_some() as usize;
            codes.push(granted);
            let send = !is5 || s.rh == 0 || (s.rh == 1 && old.is_none());
            self.stats.rh += (is5 && s.rh > 0) as usize;
            if !send {
                continue;
            }
            self.seq += 1;
            let seq = self.seq;
            let found: Vec<Msg> = self
                .retained
                .values()
                .filter(|m| gen_topic::matches(&s.filter, &m.topic))
                .cloned()
                .collect();
            for m in found {
                if sub.no_local && m.src == c {
                    self.stats.no_local += 1;
                    continue;
                }
                self.stats.retained += 1;
                let e = Exp {
                    seq,
                    src: Src::Retained,
                    topic: m.topic.clone(),
                    payload: m.payload.clone(),
                    qos: granted.min(m.qos),
                    // v5 without Retain As Published: not fixed here
                    retain: if !is5 || sub.rap { Some(true) } else { None },
                    ids: sub.id.into_iter().collect(),
                    props: m.props.clone(),
                    mandatory: true,
                    };
                self.push_exp(c, e, true);
            }
        }
        codes
    }

    fn send_will(&mut self, c: usize) {
        if let Some(w) = self.slots[c].sess.as_mut().and_then(|s| s.will.take()) {
            self.route_will(c, w);
        }
    }

    fn route_will(&mut self, c: usize, w: Will) {
        let v5 = self.slots[c].ver.is5();
        {
            self.stats.wills += 1;
            let m = Msg {
                topic: w.topic,
                payload: w.payload,
                qos: w.qos,
                retain: w.retain,
                props: if v5 { w.props } else { Props::default() },
                v5,
                src: c,
            };
            self.route(&m);
        }
    }

    /// The connection of `c` ended; what happens to will and session.
    fn model_closed(&mut self, c: usize, normal: bool) {
        let now = self.now();
        let is5 = self.slots[c].ver.is5();
        self.slots[c].aliases.clear();
        let sess = self.slots[c].sess.as_mut().unwrap();
        if normal {
            sess.will = None;
        }
        if !is5 {
            self.send_will(c);
            let sess = self.slots[c].sess.as_mut().unwrap();
            if sess.clean {
                self.end_session(c);
            } else {
                drop_qos0(sess);
            }
            return;
        }
        let expiry = sess.expiry;
        if let Some(w) = &sess.will {
            let delay = w.delay.unwrap_or(0);
            if delay == 0 || expiry == 0 {
                self.send_will(c);
            } else {
                sess.will_at = Some(now + delay.min(expiry) as u64 * 1000);
            }
        }
        if expiry == 0 {
            self.end_session(c);
        } else {
            let sess = self.slots[c].sess.as_mut().unwrap();
            sess.ends_at = Some(now + expiry as u64 * 1000);
            drop_qos0(sess);
        }
    }

    fn end_session(&mut self, c: usize) {
        if let Some(sess) = &self.slots[c].sess {
            for f in sess.subs.keys().filter(|f| is_shared(f)) {
                *self.epochs.entry(f.clone()).or_default() += 1;
            }
        }
        for ch in &mut self.choices {
            ch.done.insert(c);
        }
        let s = &mut self.slots[c];
        s.sess = None;
        s.inq.clear();
        s.out.clear();
        s.got.clear();
    }

    // -------------------------------------------------------------- the real thing

    async fn pump(&mut self) -> Result<(), Failure> {
        loop {
            settle().await;
            let mut again = false;
            for c in 0..self.slots.len() {
                again |= self.read(c)?;
            }
            if !again {
                break;
            }
        }
        for t in std::mem::take(&mut self.old_tasks) {
            if t.is_finished() {
                if let Err(e) = t.await {
                    return fail("panic", format!("a connection task panicked: {e}"));
                }
            } else {
                self.old_tasks.push(t);
            }
        }
        Ok(())
    }

    /// Handle what the broker sent to `c`; true if bytes were read or sent.
    fn read(&mut self, c: usize) -> Result<bool, Failure> {
        let Some(conn) = &mut self.slots[c].conn else { return Ok(false) };
        let (n, evs) = conn.read().map_err(|f| self.at(c, f))?;
        for ev in evs {
            self.event(c, ev).map_err(|f| self.at(c, f))?;
        }
        Ok(n > 0)
    }

    fn at(&self, c: usize, mut f: Failure) -> Failure {
        f.msg = format!("{} ({:?}): {}", self.slots[c].id, self.slots[c].ver, f.msg);
        f
    }

    fn event(&mut self, c: usize, ev: Ev) -> Result<(), Failure> {
        let s = &mut self.slots[c];
        let ver = s.ver;
        let conn = s.conn.as_mut().unwrap();
        match ev {
            Ev::Connack { .. } => return fail("connack", "unexpected CONNACK"),
            Ev::Publish(p) => {
                if p.alias.is_some() {
                    self.stats.alias_out += 1;
                }
                let fresh = if p.qos == 0 {
                    true
                } else if let Some(st) = s.inq.get_mut(&p.pid) {
                    ensure!(
                        st.msg == (p.topic.clone(), p.payload.clone(), p.qos),
                        "pid-reuse",
                        "packet identifier {} carries a different message although the first one was never acknowledged: {p:?}",
                        p.pid
                    );
                    ensure!(
                        st.stage == Stage::Pub,
                        "publish-after-pubrec",
                        "PUBLISH with packet identifier {} sent again although its PUBREC was received",
                        p.pid
                    );
                    ensure!(p.dup, "redeliver-dup", "redelivered PUBLISH without DUP: {p:?}");
                    let (retain, props, ids) = &mut st.rest;
                    let left = p.props.expiry.unwrap_or(0) <= props.expiry.unwrap_or(0);
                    props.expiry = p.props.expiry;
                    ensure!(
                        *retain == p.retain && *props == p.props && *ids == p.ids && left,
                        "redeliver-same",
                        "redelivered {p:?}, sent before with RETAIN={retain} {props:?} {ids:?}"
                    );
                    st.here = true;
                    st.dropped = false;
                    self.stats.redelivered += 1;
                    false
                } else {
                    true
                };
                if p.qos > 0 && fresh {
                    s.order += 1;
                    let size = pub_len(p.qos, &p.topic, &p.payload, &p.props, &p.ids);
                    s.inq.insert(
                        p.pid,
                        InState {
                            msg: (p.topic.clone(), p.payload.clone(), p.qos),
                            rest: (p.retain, p.props.clone(), p.ids.clone()),
                            stage: Stage::Pub,
                            rel: false,
                            here: true,
                            order: s.order,
                            size,
                            dropped: false,
                        },
                    );
                }
                if fresh {
                    s.got.push(p.clone());
                }
                match (p.qos, s.hold) {
                    (1 | 2, 3) if ver.is5() => {
                        let code = answer_code(p.pid);
                        conn.send(&ack_with(if p.qos == 1 { Ack::Puback } else { Ack::Pubrec }, p.pid, code));
                        if p.qos == 1 || code >= 0x80 {
                            self.stats.refused += (code >= 0x80) as usize;
                            conn.done(p.pid);
                            s.inq.remove(&p.pid);
                        } else {
                            s.inq.get_mut(&p.pid).unwrap().stage = Stage::Rec;
                        }
                    }
                    (1, 0 | 2 | 3) => {
                        conn.send(&ack_packet(ver, Ack::Puback, p.pid));
                        conn.done(p.pid);
                        s.inq.remove(&p.pid);
                    }
                    (2, 0 | 2 | 3) => {
                        conn.send(&ack_packet(ver, Ack::Pubrec, p.pid));
                        s.inq.get_mut(&p.pid).unwrap().stage = Stage::Rec;
                    }
                    _ => {}
                }
            }
            Ev::Pubrel(id, code) => {
                let Some(st) = s.inq.get_mut(&id) else {
                    return fail("pubrel-unknown", format!("PUBREL for packet identifier {id}, nothing waits for it"));
                };
                ensure!(st.stage == Stage::Rec, "pubrel-early", "PUBREL for packet identifier {id} before PUBREC was sent");
                ensure!(code == 0, "pubrel-code", "PUBREL for {id} with reason code {code:#x}");
                if st.rel {
                    self.stats.redelivered_rel += 1;
                }
                st.rel = true;
                st.here = true;
                if s.hold == 0 || s.hold == 3 {
                    conn.send(&ack_packet(ver, Ack::Pubcomp, id));
                    conn.done(id);
                    s.inq.remove(&id);
                }
            }
            Ev::Puback(id, code) | Ev::Pubrec(id, code) => {
                let rec = matches!(ev, Ev::Pubrec(..));
                let Some(i) = s.out.iter().position(|o| o.pid == id) else {
                    return fail("ack-unknown", format!("{ev:?}, nothing was sent with this packet identifier"));
                };
                if let Some(k) = s.in_use.iter().position(|p| *p == id) {
                    ensure!(code == 0x91, "reuse-code", "{ev:?} for another message with an identifier in use");
                    s.in_use.remove(k);
                    return Ok(());
                }
                let o = &mut s.out[i];
                ensure!((o.m.qos == 2) == rec, "ack-kind", "{ev:?} for a QoS {} PUBLISH", o.m.qos);
                ensure!(o.stage == Stage::Pub, "ack-twice", "a second {ev:?}");
                ensure!(code == 0 || code == 0x10, "ack-code", "{ev:?} refuses a valid PUBLISH");
                if let Some(none) = o.expect_none
                    && ver.is5()
                {
                    ensure!(
                        (code == 0x10) == none,
                        "ack-nomatch",
                        "{ev:?}: reason code says {} subscriber matched, the model says {}",
                        if code == 0x10 { "no" } else { "a" },
                        if none { "none did" } else { "one did" }
                    );
                    self.stats.nomatch += none as usize;
                }
                if rec {
                    o.stage = Stage::Rec;
                    if !s.hold_rel {
                        conn.send(&ack_packet(ver, Ack::Pubrel, id));
                    }
                } else {
                    s.out.remove(i);
                }
            }
            Ev::Pubcomp(id, code) => {
                let Some(i) = s.out.iter().position(|o| o.pid == id) else {
                    if let Some(k) = s.extra_comp.iter().position(|p| *p == id) {
                        ensure!(code == 0x92 || !ver.is5(), "pubcomp-code", "second PUBCOMP {id} with reason code {code:#x}");
                        s.extra_comp.remove(k);
                        return Ok(());
                    }
                    return fail("ack-unknown", format!("PUBCOMP for packet identifier {id}, nothing was sent with it"));
                };
                ensure!(s.out[i].stage == Stage::Rec && s.out[i].m.qos == 2, "pubcomp", "unexpected PUBCOMP {id}");
                let released = s.out[i].released;
                ensure!(code == 0 || (code == 0x92 && released), "pubcomp-code", "PUBCOMP {id} with reason code {code:#x}");
                self.stats.qos2_in += 1;
                self.stats.rel_again += released as usize;
                s.out.remove(i);
            }
            Ev::Suback(id, codes) => {
                ensure!(s.want_sub.as_ref() == Some(&(id, codes.clone())), "suback", "SUBACK {id} {codes:02x?}, expected {:?}", s.want_sub);
                s.want_sub = None;
            }
            Ev::Unsuback(id, codes) => {
                ensure!(s.want_unsub.as_ref() == Some(&(id, codes.clone())), "unsuback", "UNSUBACK {id} {codes:02x?}, expected {:?}", s.want_unsub);
                s.want_unsub = None;
            }
            Ev::Pingresp => {
                ensure!(s.pongs > 0, "pingresp", "PINGRESP without PINGREQ");
                s.pongs -= 1;
            }
            other => return fail("unexpected", format!("the broker sent {other:?}")),
        }
        Ok(())
    }

    /// online, and the broker takes some more messages before the PUBRELs
    fn room(&self, c: usize) -> bool {
        self.slots[c].conn.is_some() && self.slots[c].out.len() < 150
    }

    fn take_pid(&mut self, c: usize) -> u16 {
        let s = &mut self.slots[c];
        loop {
            let p = s.next_pid;
            s.next_pid = if p as usize >= 40.max(s.out.len() + 20) { 1 } else { p + 1 };
            if !s.out.iter().any(|o| o.pid == p) {
                return p;
            }
        }
    }

    fn make(&mut self, c: usize, m: &PubSpec, allow_alias: bool) -> (OutPub, Msg) {
        let is5 = self.slots[c].ver.is5();
        let payload = if m.empty {
            vec![]
        } else {
            let id = self.next_id;
            self.next_id += 1;
            let mut p = id.to_be_bytes().to_vec();
            p.extend((0..m.len).map(|i| (id as u8).wrapping_mul(31).wrapping_add(i as u8)));
            p
        };
        let mut name = m.topic.clone();
        let mut alias = None;
        let mut short = false;
        if let Some((a, s)) = m.alias
            && is5
            && allow_alias
        {
            let known = self.slots[c].aliases.get(&a).cloned();
            match known {
                Some(t) if s => {
                    name = t;
                    short = true;
                    self.stats.alias_in += 1;
                }
                _ => {
                    self.slots[c].aliases.insert(a, name.clone());
                }
            }
            alias = Some(a);
        }
        let props = if is5 { m.props.clone() } else { Props::default() };
        let out = OutPub {
            dup: false,
            qos: m.qos,
            pid: if m.qos > 0 { self.take_pid(c) } else { 0 },
            retain: m.retain,
            topic: name.clone(),
            alias,
            short,
            payload: payload.clone(),
            props: props.clone(),
        };
        let msg = Msg {
            topic: name,
            payload,
            qos: m.qos,
            retain: m.retain,
            props,
            v5: is5,
            src: c,
        };
        (out, msg)
    }

    fn record_out(&mut self, c: usize, o: &OutPub, seen: bool, expect_none: Option<bool>) {
        if o.qos > 0 {
            self.slots[c].out.push(OutState {
                pid: o.pid,
                m: o.clone(),
                stage: Stage::Pub,
                seen,
                released: false,
                expect_none,
            });
        }
    }

    fn publish_bytes(&mut self, c: usize, m: &PubSpec) -> Vec<u8> {
        let (o, msg) = self.make(c, m, true);
        let data = publish_packet(self.slots[c].ver, &o);
        let (matched, copies) = self.route(&msg);
        // only the publisher's own "no local" subscription matched: not fixed here
        let none = if matched == 0 { Some(true) } else if copies > 0 { Some(false) } else { None };
        self.record_out(c, &o, true, none);
        data
    }

    async fn connect(&mut self, c: usize, o: &ConnOpts) -> Result<(), Failure> {
        let ver = self.slots[c].ver;
        let id = self.slots[c].id.clone();
        // what an earlier online connection becomes
        let mut old = None;
        if self.slots[c].conn.is_some() {
            self.stats.takeover += 1;
            old = self.slots[c].conn.take();
            if let Some(t) = self.slots[c].task.take() {
                self.old_tasks.push(t);
            }
            let s = &mut self.slots[c];
            s.aliases.clear();
            if let Some(sess) = &mut s.sess {
                drop_qos0(sess);
            }
        }
        self.peers += 1;
        let via = if self.cfg.via.is_empty() { Default::default() } else { self.cfg.via[self.peers as usize % self.cfg.via.len()].clone() };
        let (end, task) = super::transport::open(&self.global, self.hook.clone(), &via, self.cfg.read.clone(), self.cfg.write.clone(), self.peers);
        let mut client = Client::new(ver, end, o, self.cfg.window);
        client.send(&connect_packet(ver, &id, o));
        // model
        let mut old_will = None;
        let mut short = false;
        if let Some(sess) = &mut self.slots[c].sess {
            short = old.is_some() && if ver.is5() { sess.expiry == 0 } else { sess.clean };
            if old.is_some() || sess.will_at.is_some() {
                old_will = sess.will.take();
            }
        }
        let present = !o.clean && !short && self.slots[c].sess.is_some();
        if !present {
            self.end_session(c);
            self.slots[c].sess = Some(Sess::default());
        } else {
            self.stats.resumed += 1;
        }
        let max_exp = self.cfg.max_session_expiry.unwrap_or(u32::MAX);
        let sess = self.slots[c].sess.as_mut().unwrap();
        sess.clean = o.clean;
        sess.expiry = o.expiry.unwrap_or(0).min(max_exp);
        sess.max_packet = o.max_packet.unwrap_or(u32::MAX);
        sess.will = o.will.clone();
        sess.will_at = None;
        sess.ends_at = None;
        // a message that became too large is dropped when its turn comes on this connection
        if ver.is5() {
            let max = sess.max_packet as usize;
            for e in &mut sess.exp {
                if v5_len(e) > max {
                    e.mandatory = false;
                    sess.dropped = true;
                    self.stats.too_large += 1;
                }
            }
            for (to, e) in self.choices.iter_mut().flat_map(|ch| &mut ch.combos).flat_map(|k| &mut k.copies) {
                if *to == c && v5_len(e) > max {
                    e.mandatory = false;
                    sess.dropped = true;
                }
            }
        }
        if ver.is5() {
            let max = o.max_packet.unwrap_or(u32::MAX) as usize;
            let s = &mut self.slots[c];
            for st in s.inq.values_mut() {
                if st.stage == Stage::Pub && st.size > max {
                    st.dropped = true;
                    s.sess.as_mut().unwrap().dropped = true;
                }
            }
        }
        for st in self.slots[c].inq.values_mut() {
            st.here = false;
        }
        if let Some(w) = old_will {
            // a reconnect cancels a delayed will, if the session continues
            if present && w.delay.unwrap_or(0) > 0 && ver.is5() {
                self.stats.cancelled_wills += 1;
            } else {
                self.stats.takeover_wills += 1;
                self.connecting = Some(c);
                self.route_will(c, w);
                self.connecting = None;
            }
        }
        // wait for CONNACK
        let mut rest = None;
        for _ in 0..50 {
            settle().await;
            let (_, evs) = client.read().map_err(|f| self.at(c, f))?;
            let mut it = evs.into_iter();
            if let Some(ev) = it.next() {
                match ev {
                    Ev::Connack { present: p, code, props } => {
                        ensure!(code == 0, "connack-code", "{id}: CONNECT refused with code {code:#x}");
                        if ver != Ver::V310 {
                            ensure!(p == present, "session-present", "{id} ({ver:?}): session present is {p}, expected {present}");
                        }
                        if let Some(props) = props {
                            let clamped = o.expiry.unwrap_or(0) > max_exp;
                            ensure!(
                                props.session_expiry_interval == clamped.then_some(max_exp),
                                "connack-expiry",
                                "{id}: CONNACK session expiry {:?}, asked for {:?}, maximum {max_exp}",
                                props.session_expiry_interval,
                                o.expiry
                            );
                        }
                    }
                    other => return fail("connack", format!("{id}: expected CONNACK, got {other:?}")),
                }
                rest = Some(it.collect::<Vec<_>>());
                break;
            }
        }
        let Some(rest) = rest else {
            return fail("connack", format!("{id} ({ver:?}): no CONNACK; closed={}", client.end.closed()));
        };
        if let Some(old) = old {
            settle().await;
            ensure!(old.end.gone(), "takeover-open", "{id}: the old connection is still open after a take over");
        }
        self.slots[c].conn = Some(client);
        self.slots[c].task = Some(task);
        // the client's half of the session: send unfinished messages again
        let mut data = Vec::new();
        let mut lost: Vec<usize> = Vec::new();
        let hold_rel = self.slots[c].hold_rel;
        for (i, o) in self.slots[c].out.iter_mut().enumerate() {
            match o.stage {
                Stage::Pub => {
                    o.m.dup = true;
                    o.m.alias = None;
                    o.m.short = false;
                    lost.push(i);
                    data.extend(publish_packet(ver, &o.m));
                }
                Stage::Rec => {
                    if !hold_rel {
                        data.extend(ack_packet(ver, Ack::Pubrel, o.pid));
                    }
                }
            }
        }
        for i in lost {
            let (seen, m) = (self.slots[c].out[i].seen, self.slots[c].out[i].m.clone());
            self.slots[c].out[i].seen = true;
            self.slots[c].out[i].expect_none = None;
            if seen {
                self.stats.dup_in += 1;
            } else {
                self.stats.unseen_in += 1;
            }
            if !seen || m.qos == 1 {
                let first = !seen;
                let before: Vec<usize> = self.slots.iter().map(|s| s.sess.as_ref().map_or(0, |s| s.exp.len())).collect();
                let choices = self.choices.len();
                if !first {
                    self.twice.insert(m.payload.clone());
                }
                self.route(&Msg {
                    topic: m.topic.clone(),
                    payload: m.payload.clone(),
                    qos: m.qos,
                    retain: m.retain,
                    props: m.props.clone(),
                    v5: ver.is5(),
                    src: c,
                });
                if !first {
                    // at least once: the second copy is allowed, not required
                    for (_, e) in self.choices[choices..].iter_mut().flat_map(|ch| &mut ch.combos).flat_map(|k| &mut k.copies) {
                        e.mandatory = false;
                    }
                    for (s, n) in self.slots.iter_mut().zip(before) {
                        if let Some(sess) = &mut s.sess {
                            for e in &mut sess.exp[n..] {
                                e.mandatory = false;
                            }
                        }
                    }
                }
            }
        }
        if !data.is_empty() {
            self.slots[c].conn.as_ref().unwrap().send(&data);
        }
        for ev in rest {
            self.event(c, ev).map_err(|f| self.at(c, f))?;
        }
        Ok(())
    }

    /// The client ends its connection (bytes already sent are read by the broker first,
    /// except for a reset).
    async fn close(&mut self, c: usize, how: How) -> Result<(), Failure> {
        let Some(conn) = self.slots[c].conn.take() else { return Ok(()) };
        let ver = self.slots[c].ver;
        let mut normal = false;
        let mut new_expiry = None;
        match how {
            How::Normal => {
                conn.send(&disconnect_packet(ver, 0, None));
                normal = true;
            }
            How::NormalExpiry(v) => {
                let e = self.slots[c].sess.as_ref().unwrap().expiry;
                let v = if ver.is5() && e > 0 { Some(v) } else { None };
                new_expiry = v.map(|v| v.min(self.cfg.max_session_expiry.unwrap_or(u32::MAX)));
                conn.send(&disconnect_packet(ver, 0, v));
                normal = true;
            }
            How::WithWill if ver.is5() => conn.send(&disconnect_packet(ver, 4, None)),
            How::WithWill | How::Eof => conn.end.eof(),
            How::Reset => conn.end.reset(),
        }
        if let Some(v) = new_expiry {
            self.slots[c].sess.as_mut().unwrap().expiry = v;
        }
        settle().await;
        if !matches!(how, How::Reset | How::Eof) {
            ensure!(conn.end.closed(), "disconnect-open", "{}: connection still open after DISCONNECT", self.slots[c].id);
            conn.end.eof();
        }
        settle().await;
        ensure!(conn.end.gone(), "close-open", "{}: the broker still holds the connection after {how:?}", self.slots[c].id);
        if let Some(t) = self.slots[c].task.take() {
            self.old_tasks.push(t);
        }
        self.slots[c].want_sub = None;
        self.slots[c].want_unsub = None;
        self.slots[c].pongs = 0;
        self.slots[c].extra_comp.clear();
        self.slots[c].in_use.clear();
        self.slots[c].acks_optional = false;
        self.model_closed(c, normal);
        Ok(())
    }

    // -------------------------------------------------------------- checks

    fn check(&mut self) -> Result<(), Failure> {
        for c in 0..self.slots.len() {
            self.check_slot(c)?;
        }
        self.check_choices()?;
        let sessions = self.slots.iter().filter(|s| s.sess.is_some()).count();
        let online = self.slots.iter().filter(|s| s.conn.is_some()).count();
        ensure!(
            self.global.clients_count() == sessions,
            "clients-count",
            "clients_count() = {}, {sessions} sessions exist",
            self.global.clients_count()
        );
        ensure!(
            self.global.online_clients_count() as usize == online,
            "online-count",
            "online_clients_count() = {}, {online} clients are connected",
            self.global.online_clients_count()
        );
        Ok(())
    }

    fn check_slot(&mut self, c: usize) -> Result<(), Failure> {
        let s = &mut self.slots[c];
        let id = s.id.clone();
        let who = format!("{id} ({:?})", s.ver);
        let Some(sess) = &mut s.sess else {
            ensure!(s.got.is_empty(), "stray", "{who}: messages without a session: {:?}", s.got);
            return Ok(());
        };
        let online = s.conn.is_some();
        for g in std::mem::take(&mut s.got) {
            let ok = |e: &Exp| fits(e, &g);
            let open = |ch: &Choice| ch.payload == g.payload && !ch.done.contains(&c);
            let takes = |ch: &Choice| {
                let mut got = ch.got.clone();
                got.push((c, g.clone()));
                ch.combos.iter().any(|k| k.explains(c, &got, 0))
            };
            let at = self.choices.iter().position(|ch| open(ch) && takes(ch));
            let at = at.or_else(|| self.choices.iter().position(open).filter(|_| !sess.exp.iter().any(ok)));
            // a message sent again may have left a copy from before the group was there
            let sure = at.is_some_and(|i| sess.exp.iter().any(|e| ok(e) && e.mandatory && e.seq < self.choices[i].seq));
            if let Some(ch) = at.filter(|_| !sure).map(|i| &mut self.choices[i]) {
                ensure!(!g.dup || ch.seq <= sess.blind, "dup-first", "{who} received {g:?} with DUP=1 on its first transmission");
                self.stats.delivered += 1;
                self.stats.delivered_q12 += (g.qos > 0) as usize;
                let last = sess.last.entry((ch.src, g.qos > 0)).or_insert(0);
                ensure!(ch.seq >= *last, "order", "{who} received {g:?} after a later message of the same publisher ({:?})", ch.src);
                *last = ch.seq;
                ch.got.push((c, g));
                continue;
            }
            let last = &sess.last;
            let next = |e: &Exp| e.seq >= last.get(&(e.src, e.qos > 0)).copied().unwrap_or(0);
            let found = sess.exp.iter().position(|e| ok(e) && next(e));
            let Some(i) = found.or_else(|| sess.exp.iter().position(ok)) else {
                let near: Vec<&Exp> = sess.exp.iter().filter(|e| e.payload == g.payload).collect();
                return fail(
                    if near.is_empty() { "unexpected-message" } else { "wrong-message" },
                    format!("{who} received {g:?}; expected for this payload: {near:?}; subscriptions {:?}", sess.subs),
                );
            };
            let e = sess.exp.remove(i);
            ensure!(!g.dup || e.seq <= sess.blind, "dup-first", "{who} received {g:?} with DUP=1 on its first transmission");
            self.stats.delivered += 1;
            self.stats.delivered_q12 += (e.qos > 0) as usize;
            let last = sess.last.entry((e.src, e.qos > 0)).or_insert(0);
            ensure!(
                e.seq >= *last,
                "order",
                "{who} received {g:?} after a later message of the same publisher ({:?})",
                e.src
            );
            *last = e.seq;
        }
        if !online {
            return Ok(());
        }
        let all = matches!(s.hold, 0 | 3);
        for e in &sess.exp {
            let waits = e.qos > 0 && !all;
            ensure!(waits || !e.mandatory, "lost", "{who} did not receive {e:?}; subscriptions {:?}", sess.subs);
        }
        if all {
            sess.exp.clear();
            s.inq.retain(|_, st| !st.dropped);
            ensure!(s.inq.is_empty(), "unfinished", "{who}: the broker did not finish {:?}", s.inq);
        } else {
            let conn = s.conn.as_ref().unwrap();
            let waiting = sess.exp.iter().filter(|e| e.mandatory && e.qos > 0).count();
            if waiting > 0 {
                self.stats.window_full += 1;
                // the window starts at the oldest message that is not complete
                let oldest = s.inq.values().map(|i| i.order).min().unwrap_or(s.order + 1);
                let used = s.order + 1 - oldest;
                ensure!(
                    // (a copy for a shared subscription may be taken for an equal one that waits)
                    sess.dropped || self.stats.shared > 0 || used >= conn.window as usize,
                    "window-unused",
                    "{who}: {waiting} messages wait although only {used} of {} are in flight",
                    conn.window
                );
            }
            self.stats.held += 1;
        }
        let conn = s.conn.as_ref().unwrap();
        ensure!(!conn.end.closed(), "closed", "{who}: the broker closed the connection");
        ensure!(conn.partial() == 0, "partial", "{who}: the broker sent an incomplete packet");
        ensure!(s.want_sub.is_none(), "no-suback", "{who}: no SUBACK, expected {:?}", s.want_sub);
        ensure!(s.want_unsub.is_none(), "no-unsuback", "{who}: no UNSUBACK");
        ensure!(s.pongs == 0, "no-pingresp", "{who}: no PINGRESP");
        ensure!(s.in_use.is_empty(), "no-pubrec", "{who}: no answer to other messages with identifiers in use {:?}", s.in_use);
        ensure!(s.extra_comp.is_empty(), "no-pubcomp", "{who}: no answer to repeated PUBRELs for {:?}", s.extra_comp);
        for o in &s.out {
            ensure!(
                o.m.qos == 2 && o.stage == Stage::Rec && s.hold_rel,
                "no-ack",
                "{who}: the broker did not complete {o:?}"
            );
        }
        Ok(())
    }

    // -------------------------------------------------------------- operations

    pub async fn step(&mut self, op: &Op) -> Result<(), Failure> {
        let n = self.slots.len();
        match op {
            Op::Connect { c, clean, expiry, will, recv_max, alias_max, max_packet } => {
                let c = *c as usize % n;
                let mut o = ConnOpts {
                    clean: *clean,
                    keep_alive: 0,
                    expiry: *expiry,
                    recv_max: *recv_max,
                    max_packet: *max_packet,
                    alias_max: *alias_max,
                    will: will.clone(),
                    ..Default::default()
                };
                if let Some(w) = &mut o.will {
                    w.qos = w.qos.min(self.cfg.max_qos);
                }
                // (an empty one stays empty: it clears what is retained)
                if let Some(w) = o.will.as_mut().filter(|w| !w.payload.is_empty()) {
                    let id = self.next_id;
                    self.next_id += 1;
                    let mut p = id.to_be_bytes().to_vec();
                    p.extend_from_slice(&w.payload);
                    w.payload = p;
                }
                self.connect(c, &o).await?;
            }
            Op::Close { c, how } => {
                let c = *c as usize % n;
                self.close(c, *how).await?;
            }
            Op::Sub { c, subs, id } => {
                let c = *c as usize % n;
                if self.slots[c].conn.is_some() && !subs.is_empty() {
                    let p = self.take_pid(c);
                    let data = subscribe_packet(self.slots[c].ver, p, subs, *id);
                    let codes = self.model_subscribe(c, subs, *id);
                    self.slots[c].want_sub = Some((p, codes));
                    self.slots[c].conn.as_ref().unwrap().send(&data);
                }
            }
            Op::Unsub { c, filters } => {
                let c = *c as usize % n;
                if self.slots[c].conn.is_some() && !filters.is_empty() {
                    let p = self.take_pid(c);
                    let data = unsubscribe_packet(self.slots[c].ver, p, filters);
                    let is5 = self.slots[c].ver.is5();
                    let sess = self.slots[c].sess.as_mut().unwrap();
                    let mut codes = Vec::new();
                    for f in filters {
                        let had = sess.subs.remove(f).is_some();
                        if had && is_shared(f) {
                            *self.epochs.entry(f.clone()).or_default() += 1;
                        }
                        self.stats.unsub += had as usize;
                        codes.push(if had { 0 } else { 0x11 });
                    }
                    self.slots[c].want_unsub = Some((p, if is5 { codes } else { vec![] }));
                    self.slots[c].conn.as_ref().unwrap().send(&data);
                }
            }
            Op::Pub { c, m } => {
                let c = *c as usize % n;
                if self.room(c) {
                    let data = self.publish_bytes(c, m);
                    self.slots[c].conn.as_ref().unwrap().send(&data);
                }
            }
            Op::Burst { c, ms, then } => {
                let c = *c as usize % n;
                if self.room(c) {
                    let mut data = Vec::new();
                    for m in ms {
                        data.extend(self.publish_bytes(c, m));
                    }
                    self.stats.burst += 1;
                    self.slots[c].conn.as_ref().unwrap().send(&data);
                    if let Some(h) = then {
                        // the broker may stop talking to us before our own copies are written
                        self.blind(c);
                        let h = if *h == How::Reset { How::Eof } else { *h };
                        self.close(c, h).await?;
                    }
                }
            }
            Op::Hold { c, mode } => {
                let c = *c as usize % n;
                let s = &mut self.slots[c];
                s.hold = *mode % 4;
                let refuse = s.hold == 3 && s.ver.is5();
                if (s.hold == 0 || s.hold == 3)
                    && let Some(conn) = &mut s.conn
                {
                    let mut ids: Vec<u16> = s.inq.iter().filter(|(_, st)| st.here).map(|(p, _)| *p).collect();
                    ids.sort_by_key(|p| s.inq[p].order);
                    for id in ids {
                        let st = s.inq.get_mut(&id).unwrap();
                        let q = st.msg.2;
                        let code = answer_code(id);
                        if refuse && (q == 1 || st.stage == Stage::Pub && code >= 0x80) {
                            conn.send(&ack_with(if q == 1 { Ack::Puback } else { Ack::Pubrec }, id, code));
                            self.stats.refused += (code >= 0x80) as usize;
                            conn.done(id);
                            s.inq.remove(&id);
                        } else if q == 1 {
                            conn.send(&ack_packet(s.ver, Ack::Puback, id));
                            conn.done(id);
                            s.inq.remove(&id);
                        } else if st.stage == Stage::Pub {
                            conn.send(&ack_packet(s.ver, Ack::Pubrec, id));
                            st.stage = Stage::Rec;
                        } else if st.rel {
                            conn.send(&ack_packet(s.ver, Ack::Pubcomp, id));
                            conn.done(id);
                            s.inq.remove(&id);
                        }
                    }
                }
            }
            Op::RecAgain { c } => {
                let c = *c as usize % n;
                let s = &mut self.slots[c];
                if let Some(conn) = &s.conn
                    && matches!(s.hold, 1 | 2)
                {
                    for (id, st) in s.inq.iter_mut().filter(|(_, st)| st.here && st.rel && st.stage == Stage::Rec) {
                        st.rel = false;
                        conn.send(&ack_packet(s.ver, Ack::Pubrec, *id));
                        self.stats.rec_again += 1;
                    }
                }
            }
            Op::HoldRel { c, on } => {
                let c = *c as usize % n;
                let s = &mut self.slots[c];
                s.hold_rel = *on;
                if !*on
                    && let Some(conn) = &s.conn
                {
                    for o in &s.out {
                        if o.stage == Stage::Rec {
                            conn.send(&ack_packet(s.ver, Ack::Pubrel, o.pid));
                        }
                    }
                }
            }
            Op::Redeliver { c } => {
                let c = *c as usize % n;
                let s = &mut self.slots[c];
                if s.ver.is5() {
                    return Ok(());
                }
                if let Some(conn) = &s.conn {
                    for o in &mut s.out {
                        if o.m.qos == 2 && o.stage == Stage::Rec && !o.released && s.hold_rel {
                            let mut m = o.m.clone();
                            m.dup = true;
                            o.stage = Stage::Pub;
                            conn.send(&publish_packet(s.ver, &m));
                            self.stats.dup_in += 1;
                        }
                    }
                }
            }
            Op::Reuse { c, what, dup } => {
                let c = *c as usize % n;
                let s = &mut self.slots[c];
                if let Some(conn) = &s.conn
                    && s.hold_rel
                    && let Some(o) = s.out.iter().find(|o| o.m.qos == 2 && o.stage == Stage::Rec && !o.released)
                {
                    let mut m = o.m.clone();
                    m.dup = *dup;
                    m.alias = None;
                    m.short = false;
                    match what {
                        0 => m.topic = if m.topic == "a" { "b".into() } else { "a".into() },
                        1 => m.payload.push(7),
                        _ => m.retain = !m.retain,
                    }
                    self.stats.reused += 1;
                    conn.send(&publish_packet(s.ver, &m));
                    if s.ver.is5() {
                        s.in_use.push(o.pid);
                    } else {
                        self.blind(c);
                        settle().await;
                        let conn = self.slots[c].conn.as_ref().unwrap();
                        ensure!(conn.end.closed(), "reuse-open", "{}: the connection is open after another message with an identifier in use", self.slots[c].id);
                        self.close(c, How::Eof).await?;
                    }
                }
            }
            Op::LostPub { c, m, seen } => {
                let c = *c as usize % n;
                if self.slots[c].conn.is_some() {
                    let (o, msg) = self.make(c, m, false);
                    if *seen {
                        let data = publish_packet(self.slots[c].ver, &o);
                        self.route(&msg);
                        self.record_out(c, &o, true, None);
                        self.blind(c);
                        self.slots[c].conn.as_ref().unwrap().send(&data);
                        self.close(c, How::Eof).await?;
                    } else {
                        self.record_out(c, &o, false, None);
                        self.close(c, How::Reset).await?;
                    }
                }
            }
            Op::LostRel { c, seen } => {
                let c = *c as usize % n;
                let s = &mut self.slots[c];
                if let Some(conn) = &s.conn
                    && s.hold_rel
                {
                    let mut data = Vec::new();
                    for o in s.out.iter_mut().filter(|o| o.m.qos == 2 && o.stage == Stage::Rec) {
                        data.extend(ack_packet(s.ver, Ack::Pubrel, o.pid));
                        o.released |= *seen;
                    }
                    if !data.is_empty() {
                        if *seen {
                            conn.send(&data);
                        }
                        s.hold_rel = false;
                        self.blind(c);
                        self.close(c, if *seen { How::Eof } else { How::Reset }).await?;
                    }
                }
            }
            Op::RelAgain { c, n: times } => {
                let c = *c as usize % n;
                let s = &mut self.slots[c];
                if let Some(conn) = &s.conn
                    && s.hold_rel
                {
                    let mut pids = vec![];
                    for o in s.out.iter().filter(|o| o.m.qos == 2 && o.stage == Stage::Rec) {
                        pids.push(o.pid);
                        for _ in 0..*times {
                            conn.send(&ack_packet(s.ver, Ack::Pubrel, o.pid));
                        }
                    }
                    if !pids.is_empty() && *times > 1 {
                        s.extra_comp.extend(pids.iter().flat_map(|p| std::iter::repeat_n(*p, *times as usize - 1)));
                    }
                }
            }
            Op::Advance { secs } => self.advance(*secs as u64).await?,
            Op::Ping { c, n: times } => {
                let c = *c as usize % n;
                if let Some(conn) = &self.slots[c].conn {
                    conn.send(&ping_packet(self.slots[c].ver).repeat(*times as usize));
                    self.slots[c].pongs += *times as usize;
                }
            }
        }
        self.pump().await?;
        self.check()
    }

    /// The connection of `c` goes down before everything written to it was read.
    fn blind(&mut self, c: usize) {
        let seq = self.seq;
        if let Some(sess) = &mut self.slots[c].sess {
            sess.blind = seq;
            for e in &mut sess.exp {
                if e.qos == 0 {
                    e.mandatory = false;
                }
            }
        }
        for e in self.choices.iter_mut().flat_map(|ch| &mut ch.combos).flat_map(|k| &mut k.copies) {
            if e.0 == c && e.1.qos == 0 {
                e.1.mandatory = false;
            }
        }
    }

    fn deadlines(&self) -> Vec<(u64, usize, bool)> {
        let mut v = Vec::new();
        for (i, s) in self.slots.iter().enumerate() {
            if let Some(sess) = &s.sess {
                if let Some(t) = sess.will_at {
                    v.push((t, i, false));
                }
                if let Some(t) = sess.ends_at {
                    v.push((t, i, true));
                }
            }
        }
        v.sort();
        v
    }

    async fn advance(&mut self, secs: u64) -> Result<(), Failure> {
        let start = self.now();
        let mut target = start + secs * 1000;
        while self.deadlines().iter().any(|(t, _, _)| t.abs_diff(target) < 300) {
            target += 700;
        }
        // time passes first, then the model catches up in order
        tokio::time::sleep(Duration::from_millis(target - start)).await;
        loop {
            let Some(&(t, c, end)) = self.deadlines().first() else { break };
            if t > target {
                break;
            }
            if end {
                self.stats.expired += 1;
                self.send_will(c);
                self.end_session(c);
            } else {
                self.stats.delayed_wills += 1;
                self.slots[c].sess.as_mut().unwrap().will_at = None;
                self.send_will(c);
            }
        }
        Ok(())
    }

    /// Everybody comes back, acknowledges everything; then all must have arrived.
    pub async fn finish(&mut self) -> Result<(), Failure> {
        for c in 0..self.slots.len() {
            self.step(&Op::HoldRel { c: c as u8, on: false }).await?;
            self.step(&Op::Hold { c: c as u8, mode: 0 }).await?;
        }
        for c in 0..self.slots.len() {
            if self.slots[c].conn.is_none() && self.slots[c].sess.is_some() {
                let expiry = Some(self.slots[c].sess.as_ref().unwrap().expiry);
                let o = ConnOpts { clean: false, expiry, ..Default::default() };
                self.connect(c, &o).await?;
                self.pump().await?;
                self.check()?;
            }
        }
        // what is retained now is exactly what a new subscriber gets
        let probe = Slot {
            ver: Ver::V311,
            id: "probe".into(),
            conn: None,
            task: None,
            sess: None,
            got: vec![],
            inq: BTreeMap::new(),
            out: vec![],
            next_pid: 1,
            order: 0,
            hold: 0,
            hold_rel: false,
            extra_comp: vec![],
            in_use: vec![],
            aliases: HashMap::new(),
            want_sub: None,
            want_unsub: None,
            pongs: 0,
            acks_optional: false,
        };
        self.slots.push(probe);
        let c = self.slots.len() - 1;
        self.connect(c, &ConnOpts { clean: true, ..Default::default() }).await?;
        self.step(&Op::Sub {
            c: c as u8,
            subs: vec![SubReq { filter: "#".into(), qos: 2, no_local: false, rap: false, rh: 0 }],
            id: None,
        })
        .await?;
        // everybody leaves; nothing may stay behind
        for c in 0..self.slots.len() {
            if self.slots[c].conn.is_some() {
                let is5 = self.slots[c].ver.is5();
                if !is5 && !self.slots[c].sess.as_ref().unwrap().clean {
                    self.close(c, How::Normal).await?;
                    self.pump().await?;
                    self.connect(c, &ConnOpts { clean: true, ..Default::default() }).await?;
                }
                self.close(c, How::NormalExpiry(0)).await?;
                self.pump().await?;
                self.check()?;
            }
        }
        ensure!(
            self.slots.iter().all(|s| s.sess.is_none()) && self.global.clients_count() == 0,
            "leftover",
            "{} clients left after everybody left",
            self.global.clients_count()
        );
        for t in self.old_tasks.drain(..) {
            if !t.is_finished() {
                return fail("task-alive", "a connection task is still running after its connection ended");
            }
        }
        Ok(())
    }
}

fn drop_qos0(sess: &mut Sess) {
    sess.exp.retain(|e| e.qos > 0);
}

fn same_props(e: &Props, g: &Props) -> bool {
    let exp_ok = match (e.expiry, g.expiry) {
        (Some(a), Some(b)) => b <= a && b.saturating_add(120) >= a,
        (None, None) => true,
        _ => false,
    };
    exp_ok && e.utf8 == g.utf8 && e.response == g.response && e.corr == g.corr && e.ctype == g.ctype && e.user == g.user
}

pub fn run(case: &Case, judge: fn(&Stats, &mut Outcome)) -> CaseResult {
    let rt = paused_rt();
    let res = rt.block_on(async {
        let mut w = World::new(case);
        for (i, op) in case.ops.iter().enumerate() {
            if let Err(mut f) = w.step(op).await {
                f.msg = format!("step {i} {op:?}: {}", f.msg);
                return Err(f);
            }
        }
        w.finish().await.map_err(|mut f| {
            f.msg = format!("at the end: {}", f.msg);
            f
        })?;
        Ok(w.stats.clone())
    });
    drop(rt);
    let stats = res?;
    let mut out = Outcome::default();
    judge(&stats, &mut out);
    let _ = HashSet::<u8>::new();
    Ok(out)
}

impl Case {
    /// Keep generated histories inside what the broker accepts.
    pub fn clamp(&mut self) {
        let max = self.cfg.max_qos;
        let vers = self.vers.clone();
        let fix = |m: &mut PubSpec| m.qos = m.qos.min(max);
        for op in &mut self.ops {
            match op {
                Op::Pub { m, .. } | Op::LostPub { m, .. } => fix(m),
                Op::Burst { ms, .. } => ms.iter_mut().for_each(fix),
                Op::Connect { will: Some(w), .. } => w.qos = w.qos.min(max),
                Op::Sub { c, subs, .. } => {
                    for s in subs.iter_mut().filter(|s| is_shared(&s.filter)) {
                        if vers[*c as usize % vers.len()].is5() {
                            s.no_local = false;
                        } else {
                            s.filter = shared_filter(&s.filter).to_string();
                        }
                    }
                }
                Op::Unsub { c, filters } => {
                    for f in filters.iter_mut().filter(|f| is_shared(f)) {
                        if !vers[*c as usize % vers.len()].is5() {
                            *f = shared_filter(f).to_string();
                        }
                    }
                }
                _ => {}
            }
        }
        self.ops.retain(|o| !matches!(o, Op::LostPub { m, .. } if m.qos == 0));
    }
}
