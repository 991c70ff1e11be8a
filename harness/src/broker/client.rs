//! A raw MQTT client for one connection: encodes what it is told to send, decodes and
//! checks what the broker sends (protocol invariants that hold on every connection).
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

use bytes::Bytes;
use mqtt_proto::{Pid, QoS, QosPid, TopicFilter, TopicName, v3, v5};
use serde::{Deserialize, Serialize};

use super::pipe::ClientEnd;
use crate::ensure;
use crate::runner::{Failure, fail};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ver {
    V310,
    V311,
    V5,
}

impl Ver {
    pub fn proto(self) -> mqtt_proto::Protocol {
        match self {
            Ver::V310 => mqtt_proto::Protocol::V310,
            Ver::V311 => mqtt_proto::Protocol::V311,
            Ver::V5 => mqtt_proto::Protocol::V500,
        }
    }
    pub fn is5(self) -> bool {
        self == Ver::V5
    }
}

pub fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::Level0,
        1 => QoS::Level1,
        _ => QoS::Level2,
    }
}
pub fn pid(v: u16) -> Pid {
    Pid::try_from(v).unwrap()
}
/// Identifiers which are easily confused: prefixes of each other, upper and lower case, white
/// space, several bytes for a character.
pub fn client_name(i: usize) -> String {
    match i {
        0 => "client-1".into(),
        1 => "client-10".into(),
        2 => "Client-1".into(),
        3 => "client-".into(),
        4 => " client-1".into(),
        5 => "clie\u{301}nt-1".into(),
        _ => format!("client-{i}0"),
    }
}
pub fn topic(s: &str) -> TopicName {
    TopicName::try_from(s).unwrap()
}
pub fn filter(s: &str) -> TopicFilter {
    TopicFilter::try_from(s).unwrap_or_else(|_| panic!("filter {s:?}"))
}

/// v5 application properties of a message.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Props {
    pub utf8: Option<bool>,
    pub expiry: Option<u32>,
    pub response: Option<String>,
    pub corr: Option<Vec<u8>>,
    pub ctype: Option<String>,
    pub user: Vec<(String, String)>,
}

impl Props {
    pub fn to_v5(&self) -> v5::PublishProperties {
        v5::PublishProperties {
            payload_is_utf8: self.utf8,
            message_expiry_interval: self.expiry,
            topic_alias: None,
            response_topic: self.response.as_deref().map(topic),
            correlation_data: self.corr.clone().map(Bytes::from),
            content_type: self.ctype.as_deref().map(Arc::from),
            user_properties: self
                .user
                .iter()
                .map(|(n, v)| v5::UserProperty::new(n.as_str().into(), v.as_str().into()))
                .collect(),
            subscription_ids: Vec::new(),
        }
    }
    pub fn from_v5(p: &v5::PublishProperties) -> Props {
        Props {
            utf8: p.payload_is_utf8,
            expiry: p.message_expiry_interval,
            response: p.response_topic.as_ref().map(|t| t.to_string()),
            corr: p.correlation_data.as_ref().map(|b| b.to_vec()),
            ctype: p.content_type.as_ref().map(|s| s.to_string()),
            user: p
                .user_properties
                .iter()
                .map(|u| (u.name.to_string(), u.value.to_string()))
                .collect(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct InPub {
    pub dup: bool,
    pub qos: u8,
    pub retain: bool,
    pub pid: u16,
    /// resolved through the aliases of this connection
    pub topic: String,
    pub alias: Option<u16>,
    pub short: bool,
    pub payload: Vec<u8>,
    pub props: Props,
    pub ids: Vec<u32>,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Connack { present: bool, code: u8, props: Option<Box<v5::ConnackProperties>> },
    Publish(InPub),
    Puback(u16, u8),
    Pubrec(u16, u8),
    Pubrel(u16, u8),
    Pubcomp(u16, u8),
    Suback(u16, Vec<u8>),
    Unsuback(u16, Vec<u8>),
    Pingresp,
    Disconnect(u8),
    Auth { code: u8, method: Option<String>, data: Option<Vec<u8>> },
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Will {
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
    pub delay: Option<u32>,
    pub props: Props,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct ConnOpts {
    pub clean: bool,
    pub keep_alive: u16,
    pub expiry: Option<u32>,
    pub recv_max: Option<u16>,
    pub max_packet: Option<u32>,
    pub alias_max: Option<u16>,
    pub will: Option<Will>,
    pub user: Option<String>,
    pub pass: Option<Vec<u8>>,
    pub auth_method: Option<String>,
    pub auth_data: Option<Vec<u8>>,
}

pub struct Client {
    pub ver: Ver,
    pub end: ClientEnd,
    buf: Vec<u8>,
    aliases: HashMap<u16, String>,
    alias_max: u16,
    max_packet: u32,
    /// how many unacknowledged QoS>0 PUBLISH the broker may have on its way to us
    pub window: u16,
    /// received on this connection, not yet completed by us: pid -> qos
    pub inflight: BTreeMap<u16, u8>,
    /// unacknowledged messages may be sent again on this connection (short inflight_timeout)
    pub resends: bool,
    pub connack_seen: bool,
    pub sent_disconnect: bool,
    pub dead: bool,
}

pub fn connect_packet(ver: Ver, id: &str, o: &ConnOpts) -> Vec<u8> {
    match ver {
        Ver::V5 => {
            let mut c = v5::Connect::new(id.into(), o.keep_alive);
            c.clean_start = o.clean;
            c.username = o.user.as_deref().map(Arc::from);
            c.password = o.pass.clone().map(Bytes::from);
            c.properties.session_expiry_interval = o.expiry;
            c.properties.receive_max = o.recv_max;
            c.properties.max_packet_size = o.max_packet;
            c.properties.topic_alias_max = o.alias_max;
            c.properties.auth_method = o.auth_method.as_deref().map(Arc::from);
            c.properties.auth_data = o.auth_data.clone().map(Bytes::from);
            if let Some(w) = &o.will {
                let mut lw = v5::LastWill::new(qos(w.qos), topic(&w.topic), Bytes::from(w.payload.clone()));
                lw.retain = w.retain;
                let p = w.props.to_v5();
                lw.properties.delay_interval = w.delay;
                lw.properties.payload_is_utf8 = p.payload_is_utf8;
                lw.properties.message_expiry_interval = p.message_expiry_interval;
                lw.properties.content_type = p.content_type;
                lw.properties.response_topic = p.response_topic;
                lw.properties.correlation_data = p.correlation_data;
                lw.properties.user_properties = p.user_properties;
                c.last_will = Some(lw);
            }
            v5::Packet::Connect(c).encode().unwrap().as_ref().to_vec()
        }
        _ => {
            let mut c = v3::Connect::new(id.into(), o.keep_alive);
            c.protocol = ver.proto();
            c.clean_session = o.clean;
            c.username = o.user.as_deref().map(Arc::from);
            c.password = o.pass.clone().map(Bytes::from);
            if let Some(w) = &o.will {
                let mut lw = v3::LastWill::new(qos(w.qos), topic(&w.topic), Bytes::from(w.payload.clone()));
                lw.retain = w.retain;
                c.last_will = Some(lw);
            }
            v3::Packet::Connect(c).encode().unwrap().as_ref().to_vec()
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct OutPub {
    pub dup: bool,
    pub qos: u8,
    pub pid: u16,
    pub retain: bool,
    pub topic: String,
    pub alias: Option<u16>,
    /// send an empty topic name (the alias stands for it)
    pub short: bool,
    pub payload: Vec<u8>,
    pub props: Props,
}

pub fn publish_packet(ver: Ver, m: &OutPub) -> Vec<u8> {
    let qp = match m.qos {
        0 => QosPid::Level0,
        1 => QosPid::Level1(pid(m.pid)),
        _ => QosPid::Level2(pid(m.pid)),
    };
    if ver.is5() {
        let mut p = v5::Publish::new(
            qp,
            if m.short { topic("") } else { topic(&m.topic) },
            Bytes::from(m.payload.clone()),
        );
        p.dup = m.dup;
        p.retain = m.retain;
        p.properties = m.props.to_v5();
        p.properties.topic_alias = m.alias;
        v5::Packet::Publish(p).encode().unwrap().as_ref().to_vec()
    } else {
        let mut p = v3::Publish::new(qp, topic(&m.topic), Bytes::from(m.payload.clone()));
        p.dup = m.dup;
        p.retain = m.retain;
        v3::Packet::Publish(p).encode().unwrap().as_ref().to_vec()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct SubReq {
    pub filter: String,
    pub qos: u8,
    pub no_local: bool,
    pub rap: bool,
    pub rh: u8,
}

pub fn subscribe_packet(ver: Ver, id: u16, subs: &[SubReq], sub_id: Option<u32>) -> Vec<u8> {
    if ver.is5() {
        let topics = subs
            .iter()
            .map(|s| {
                let mut o = v5::SubscriptionOptions::new(qos(s.qos));
                o.no_local = s.no_local;
                o.retain_as_published = s.rap;
                o.retain_handling = match s.rh {
                    0 => v5::RetainHandling::SendAtSubscribe,
                    1 => v5::RetainHandling::SendAtSubscribeIfNotExist,
                    _ => v5::RetainHandling::DoNotSend,
                };
                (filter(&s.filter), o)
            })
            .collect();
        let mut p = v5::Subscribe::new(pid(id), topics);
        p.properties.subscription_id = sub_id.map(|v| v5::VarByteInt::try_from(v).unwrap());
        v5::Packet::Subscribe(p).encode().unwrap().as_ref().to_vec()
    } else {
        let topics = subs.iter().map(|s| (filter(&s.filter), qos(s.qos))).collect();
        v3::Packet::Subscribe(v3::Subscribe::new(pid(id), topics)).encode().unwrap().as_ref().to_vec()
    }
}

pub fn unsubscribe_packet(ver: Ver, id: u16, filters: &[String]) -> Vec<u8> {
    let topics: Vec<_> = filters.iter().map(|f| filter(f)).collect();
    if ver.is5() {
        v5::Packet::Unsubscribe(v5::Unsubscribe::new(pid(id), topics)).encode().unwrap().as_ref().to_vec()
    } else {
        v3::Packet::Unsubscribe(v3::Unsubscribe::new(pid(id), topics)).encode().unwrap().as_ref().to_vec()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ack {
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
}

/// PUBACK or PUBREC with a reason code (v5).
pub fn ack_with(kind: Ack, id: u16, code: u8) -> Vec<u8> {
    let (p, code) = (pid(id).value().to_be_bytes(), code);
    vec![if kind == Ack::Puback { 0x40 } else { 0x50 }, 3, p[0], p[1], code]
}

pub fn ack_packet(ver: Ver, kind: Ack, id: u16) -> Vec<u8> {
    let p = pid(id);
    if ver.is5() {
        let pkt: v5::Packet = match kind {
            Ack::Puback => v5::Puback::new_success(p).into(),
            Ack::Pubrec => v5::Pubrec::new_success(p).into(),
            Ack::Pubrel => v5::Pubrel::new_success(p).into(),
            Ack::Pubcomp => v5::Pubcomp::new_success(p).into(),
        };
        pkt.encode().unwrap().as_ref().to_vec()
    } else {
        let pkt = match kind {
            Ack::Puback => v3::Packet::Puback(p),
            Ack::Pubrec => v3::Packet::Pubrec(p),
            Ack::Pubrel => v3::Packet::Pubrel(p),
            Ack::Pubcomp => v3::Packet::Pubcomp(p),
        };
        pkt.encode().unwrap().as_ref().to_vec()
    }
}

pub fn disconnect_packet(ver: Ver, code: u8, expiry: Option<u32>) -> Vec<u8> {
    if ver.is5() {
        let code = match code {
            0 => v5::DisconnectReasonCode::NormalDisconnect,
            4 => v5::DisconnectReasonCode::DisconnectWithWillMessage,
            _ => v5::DisconnectReasonCode::UnspecifiedError,
        };
        let mut d = v5::Disconnect::new(code);
        d.properties.session_expiry_interval = expiry;
        v5::Packet::Disconnect(d).encode().unwrap().as_ref().to_vec()
    } else {
        v3::Packet::Disconnect.encode().unwrap().as_ref().to_vec()
    }
}

pub fn ping_packet(ver: Ver) -> Vec<u8> {
    if ver.is5() {
        v5::Packet::Pingreq.encode().unwrap().as_ref().to_vec()
    } else {
        v3::Packet::Pingreq.encode().unwrap().as_ref().to_vec()
    }
}

impl Client {
    pub fn new(ver: Ver, end: ClientEnd, o: &ConnOpts, default_window: u16) -> Client {
        Client {
            ver,
            end,
            buf: Vec::new(),
            aliases: HashMap::new(),
            alias_max: o.alias_max.unwrap_or(0),
            max_packet: o.max_packet.unwrap_or(u32::MAX),
            window: if ver.is5() { o.recv_max.unwrap_or(default_window) } else { default_window },
            inflight: BTreeMap::new(),
            resends: false,
            connack_seen: false,
            sent_disconnect: false,
            dead: false,
        }
    }

    pub fn send(&self, data: &[u8]) {
        self.end.send(data);
    }

    /// We acknowledged a message of the broker completely.
    pub fn done(&mut self, id: u16) {
        self.inflight.remove(&id);
    }

    /// Decode everything the broker sent; (bytes read, events).
    pub fn read(&mut self) -> Result<(usize, Vec<Ev>), Failure> {
        let data = self.end.recv();
        let n = data.len();
        self.buf.extend_from_slice(&data);
        let mut evs = Vec::new();
        loop {
            if self.buf.is_empty() {
                break;
            }
            // fixed header
            let mut len = 0usize;
            let mut used = 0;
            let mut complete = false;
            for (i, b) in self.buf[1..].iter().take(4).enumerate() {
                len |= ((b & 0x7f) as usize) << (7 * i);
                used = i + 1;
                if b & 0x80 == 0 {
                    complete = true;
                    break;
                }
            }
            if !complete {
                ensure!(used < 4, "malformed", "the broker sent a malformed length: {:02x?}", &self.buf[..5]);
                break;
            }
            let total = 1 + used + len;
            if self.buf.len() < total {
                break;
            }
            let pkt: Vec<u8> = self.buf.drain(..total).collect();
            let ev = self.decode(&pkt)?;
            evs.push(ev);
        }
        Ok((n, evs))
    }

    /// Bytes of an incomplete packet left in the buffer.
    pub fn partial(&self) -> usize {
        self.buf.len()
    }

    fn decode(&mut self, data: &[u8]) -> Result<Ev, Failure> {
        let ev = if self.ver.is5() {
            let pkt = match v5::Packet::decode(data) {
                Ok(Some(p)) => p,
                other => return fail("malformed", format!("the broker sent an undecodable v5 packet {data:02x?}: {other:?}")),
            };
            // (the reason string must not make it too large)
            let told = match &pkt {
                v5::Packet::Connack(c) => c.reason_code as u8 != 0,
                v5::Packet::Disconnect(_) => true,
                _ => false,
            };
            ensure!(
                !told || self.max_packet == 0 || data.len() <= self.max_packet as usize,
                "max-packet-size",
                "the broker sent {pkt:?}, {} bytes, to a client whose Maximum Packet Size is {}",
                data.len(),
                self.max_packet
            );
            match pkt {
                v5::Packet::Connack(c) => Ev::Connack {
                    present: c.session_present,
                    code: c.reason_code as u8,
                    props: Some(Box::new(c.properties)),
                },
                v5::Packet::Publish(p) => {
                    ensure!(
                        data.len() <= self.max_packet as usize,
                        "max-packet-size",
                        "the broker sent a PUBLISH of {} bytes to a client whose Maximum Packet Size is {}",
                        data.len(),
                        self.max_packet
                    );
                    let (q, id) = split(p.qos_pid);
                    let mut name = p.topic_name.to_string();
                    let short = name.is_empty();
                    if let Some(a) = p.properties.topic_alias {
                        ensure!(
                            a >= 1 && a <= self.alias_max,
                            "alias-range",
                            "the broker used topic alias {a}, allowed are 1..={}",
                            self.alias_max
                        );
                        if short {
                            match self.aliases.get(&a) {
                                Some(t) => name = t.clone(),
                                None => return fail("alias-unknown", format!("the broker used topic alias {a} without a topic name, it was never set on this connection")),
                            }
                        } else {
                            self.aliases.insert(a, name.clone());
                        }
                    } else {
                        ensure!(!short, "empty-topic", "the broker sent a PUBLISH with an empty topic name and no alias");
                    }
                    Ev::Publish(InPub {
                        dup: p.dup,
                        qos: q,
                        retain: p.retain,
                        pid: id,
                        topic: name,
                        alias: p.properties.topic_alias,
                        short,
                        payload: p.payload.to_vec(),
                        props: Props::from_v5(&p.properties),
                        ids: p.properties.subscription_ids.iter().map(|v| v.value()).collect(),
                    })
                }
                v5::Packet::Puback(p) => Ev::Puback(p.pid.value(), p.reason_code as u8),
                v5::Packet::Pubrec(p) => Ev::Pubrec(p.pid.value(), p.reason_code as u8),
                v5::Packet::Pubrel(p) => Ev::Pubrel(p.pid.value(), p.reason_code as u8),
                v5::Packet::Pubcomp(p) => Ev::Pubcomp(p.pid.value(), p.reason_code as u8),
                v5::Packet::Suback(p) => Ev::Suback(p.pid.value(), p.topics.iter().map(|c| *c as u8).collect()),
                v5::Packet::Unsuback(p) => Ev::Unsuback(p.pid.value(), p.topics.iter().map(|c| *c as u8).collect()),
                v5::Packet::Pingresp => Ev::Pingresp,
                v5::Packet::Disconnect(d) => Ev::Disconnect(d.reason_code as u8),
                v5::Packet::Auth(a) => Ev::Auth {
                    code: a.reason_code as u8,
                    method: a.properties.auth_method.map(|m| m.to_string()),
                    data: a.properties.auth_data.map(|d| d.to_vec()),
                },
                p => return fail("direction", format!("the broker sent a client packet: {p:?}")),
            }
        } else {
            let pkt = match v3::Packet::decode(data) {
                Ok(Some(p)) => p,
                other => return fail("malformed", format!("the broker sent an undecodable v3 packet {data:02x?}: {other:?}")),
            };
            match pkt {
                v3::Packet::Connack(c) => Ev::Connack { present: c.session_present, code: c.code as u8, props: None },
                v3::Packet::Publish(p) => {
                    let (q, id) = split(p.qos_pid);
                    Ev::Publish(InPub {
                        dup: p.dup,
                        qos: q,
                        retain: p.retain,
                        pid: id,
                        topic: p.topic_name.to_string(),
                        alias: None,
                        short: false,
                        payload: p.payload.to_vec(),
                        props: Props::default(),
                        ids: Vec::new(),
                    })
                }
                v3::Packet::Puback(p) => Ev::Puback(p.value(), 0),
                v3::Packet::Pubrec(p) => Ev::Pubrec(p.value(), 0),
                v3::Packet::Pubrel(p) => Ev::Pubrel(p.value(), 0),
                v3::Packet::Pubcomp(p) => Ev::Pubcomp(p.value(), 0),
                v3::Packet::Suback(s) => Ev::Suback(s.pid.value(), s.topics.iter().map(|c| *c as u8).collect()),
                v3::Packet::Unsuback(p) => Ev::Unsuback(p.value(), Vec::new()),
                v3::Packet::Pingresp => Ev::Pingresp,
                p => return fail("direction", format!("the broker sent a client packet: {p:?}")),
            }
        };
        match &ev {
            Ev::Connack { .. } => {
                ensure!(!self.connack_seen, "connack-twice", "the broker sent a second CONNACK");
                self.connack_seen = true;
            }
            Ev::Auth { .. } | Ev::Disconnect(_) => {}
            other => {
                ensure!(self.connack_seen, "before-connack", "the broker sent {other:?} before CONNACK");
            }
        }
        if let Ev::Publish(p) = &ev {
            if p.qos > 0 {
                ensure!(p.pid != 0, "pid-zero", "PUBLISH with packet identifier 0");
                if let Some(q) = self.inflight.get(&p.pid)
                    && !(self.resends && p.dup && *q == p.qos)
                {
                    // inflight_timeout is hours: nothing may be sent again on the same connection
                    return fail("pid-in-use", format!("the broker sent a PUBLISH with packet identifier {} which is still in flight on this connection (qos {q}): {p:?}", p.pid));
                }
                self.inflight.insert(p.pid, p.qos);
                ensure!(
                    self.inflight.len() <= self.window as usize,
                    "receive-maximum",
                    "{} unacknowledged PUBLISH in flight, the limit is {}",
                    self.inflight.len(),
                    self.window
                );
            } else {
                ensure!(!p.dup, "qos0-dup", "the broker sent a QoS 0 PUBLISH with DUP=1");
            }
            ensure!(!p.topic.is_empty(), "empty-topic", "PUBLISH with an empty topic");
        }
        Ok(ev)
    }
}

fn split(q: QosPid) -> (u8, u16) {
    match q {
        QosPid::Level0 => (0, 0),
        QosPid::Level1(p) => (1, p.value()),
        QosPid::Level2(p) => (2, p.value()),
    }
}
