//! The authentication gate: who gets in (password, SCRAM, both), with what answer, and that
//! whoever does not get in leaves no trace.
use std::sync::Arc;
use std::time::Duration;

use akasa_core::{AuthPassword, GlobalState, HashAlgorithm};
use bytes::Bytes;
use mqtt_proto::v5;
use proptest::prelude::*;
use ring::digest::SHA256;
use serde::{Deserialize, Serialize};
use serde_json::json;

use super::client::*;
use super::transport::{self, Via};
use super::world::{IdleHook, base_config, paused_rt, settle};
use crate::ensure;
use crate::pure::scram::{RefClient, name, near};
use crate::pure::sha;
use crate::runner::{CaseResult, Failure, Outcome, fail};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Secret {
    /// what belongs to the k-th user
    Right(u8),
    None,
    Near(u8, u8),
    Other(String),
    /// the stored hash of the user's password
    Hash(u8),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum First {
    Fine,
    Missing,
    Binary,
    Garbage(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Second {
    Fine,
    Missing,
    Binary,
    Garbage(String),
    /// one character of the final message changed
    Flip(u8),
    /// the first message again
    Again,
    Method(Option<String>),
    /// another AUTH reason code
    Code(u8),
    /// another packet than AUTH
    Packet(u8),
    /// a packet sent together with CONNECT
    Early(u8),
    Stall,
    Eof,
    Reset,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Auth {
    No,
    /// data without a method
    Data,
    Method(String),
    Scram { user: Secret, pass: Secret, authzid: Option<Secret>, first: First, second: Second },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Id {
    Victim,
    Fresh(u8),
    Long,
    Empty,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Will {
    No,
    Some { qos: u8, retain: bool },
    Empty,
    Dollar,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attempt {
    ver: Ver,
    id: Id,
    clean: bool,
    user: Secret,
    pass: Secret,
    auth: Auth,
    will: Will,
    zero_window: bool,
    zero_size: bool,
    /// Maximum Packet Size (without SCRAM)
    #[serde(default)]
    size: Option<u8>,
    /// packets sent without waiting for the answer
    tail: Vec<u8>,
    read: Vec<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    passwords: bool,
    scram: bool,
    users: Vec<(String, String)>,
    logins: Vec<(String, String)>,
    victim: Ver,
    online: bool,
    check_len: bool,
    retain: bool,
    max_qos: u8,
    attempts: Vec<Attempt>,
}

fn salt(k: usize) -> Vec<u8> {
    vec![k as u8 + 1; 12]
}
const ITER: u16 = 5;

fn stored(pass: &str, k: usize) -> Vec<u8> {
    sha::hash(&SHA256, &[pass.as_bytes(), &salt(k)])
}

/// The k-th user of `table` as (name, password).
fn entry(table: &[(String, String)], k: u8) -> (usize, &(String, String)) {
    let i = k as usize % table.len();
    (i, &table[i])
}

fn user_name(table: &[(String, String)], s: &Secret) -> Option<String> {
    match s {
        Secret::Right(k) | Secret::Hash(k) => Some(entry(table, *k).1.0.clone()),
        Secret::None => None,
        Secret::Near(k, n) => Some(near(&entry(table, *k).1.0, *n)),
        Secret::Other(s) => Some(s.clone()),
    }
}

fn password(table: &[(String, String)], s: &Secret) -> Option<Vec<u8>> {
    match s {
        Secret::Right(k) => Some(entry(table, *k).1.1.clone().into_bytes()),
        Secret::None => None,
        Secret::Near(k, n) => Some(near(&entry(table, *k).1.1, *n).into_bytes()),
        Secret::Other(s) => Some(s.clone().into_bytes()),
        Secret::Hash(k) => {
            let (i, (_, p)) = entry(table, *k);
            Some(stored(p, i))
        }
    }
}

fn auth_packet(code: u8, method: Option<&str>, data: Option<Vec<u8>>) -> Vec<u8> {
    let reason_code = match code {
        0 => v5::AuthReasonCode::Success,
        0x18 => v5::AuthReasonCode::ContinueAuthentication,
        _ => v5::AuthReasonCode::ReAuthentication,
    };
    let a = v5::Auth {
        reason_code,
        properties: v5::AuthProperties {
            auth_method: method.map(Arc::from),
            auth_data: data.map(Bytes::from),
            reason_string: None,
            user_properties: vec![],
        },
    };
    v5::Packet::Auth(a).encode().unwrap().as_ref().to_vec()
}

const METHOD: &str = "SCRAM-SHA-256";

/// Packet `k` of somebody who does not wait to be let in. All of it would be noticed.
fn tail_packet(c: &Case, ver: Ver, k: u8) -> Vec<u8> {
    let m = |qos, retain| {
        publish_packet(ver, &OutPub { qos: c.max_qos.min(qos), pid: 7, retain: retain && c.retain, topic: "b/t".into(), payload: vec![b't', k], ..Default::default() })
    };
    match k % 6 {
        0 => m(0, false),
        1 => m(1, true),
        2 if c.max_qos == 2 => [m(2, false), ack_packet(ver, Ack::Pubrel, 7)].concat(),
        2 => m(1, false),
        3 => subscribe_packet(ver, 9, &[SubReq { filter: "#".into(), qos: 1, ..Default::default() }], None),
        4 => unsubscribe_packet(ver, 9, &["v".into()]),
        _ => ping_packet(ver),
    }
}

struct Gate<'a> {
    case: &'a Case,
    global: Arc<GlobalState>,
    watcher: Client,
    victim: Option<Client>,
    peers: u16,
    seq: u8,
    /// the victim's messages that came while it was away
    queued: Vec<Vec<u8>>,
    /// retained messages on b/t
    retained: Option<Vec<u8>>,
    accepted: u64,
    refused: u64,
    out: Outcome,
}

impl Gate<'_> {
    fn open(&mut self, read: Vec<usize>) -> super::pipe::ClientEnd {
        self.peers += 1;
        transport::open(&self.global, IdleHook { wait: false }, &Via::default(), read, vec![], self.peers).0
    }

    /// Credentials of somebody who may come in without SCRAM (or with it, see `login`).
    fn honest(&self) -> ConnOpts {
        let (u, p) = &self.case.users[0];
        ConnOpts { user: Some(u.clone()), pass: Some(p.clone().into_bytes()), ..Default::default() }
    }

    async fn login_victim(&mut self) -> Result<(), Failure> {
        let o = ConnOpts {
            clean: false,
            expiry: Some(100_000),
            will: Some(super::client::Will { topic: "b/will".into(), payload: b"victim".to_vec(), qos: 1, ..Default::default() }),
            ..self.honest()
        };
        let end = self.open(vec![]);
        let mut c = Client::new(self.case.victim, end, &o, 100);
        c.send(&connect_packet(self.case.victim, "victim", &o));
        c.send(&subscribe_packet(self.case.victim, 1, &[SubReq { filter: "v".into(), qos: 1, ..Default::default() }], None));
        settle().await;
        let (_, evs) = c.read()?;
        ensure!(
            matches!(evs.first(), Some(Ev::Connack { code: 0, .. })),
            "honest-refused",
            "the right password was answered with {evs:?}"
        );
        self.victim = Some(c);
        Ok(())
    }

    /// What an attempt must be answered with: the reasons to refuse it.
    fn reasons(&self, a: &Attempt, held: bool) -> Vec<Option<u8>> {
        let mut r: Vec<Option<u8>> = vec![];
        let c = self.case;
        if c.passwords {
            let user = user_name(&c.users, &a.user);
            let pass = password(&c.users, &a.pass);
            let ok = user.is_some()
                && pass.is_some()
                && c.users.iter().any(|(u, p)| Some(u) == user.as_ref() && Some(p.as_bytes()) == pass.as_deref());
            if !ok {
                r.push(Some(if a.ver.is5() { 0x86 } else { 4 }));
            }
        }
        match a.ver {
            Ver::V310 => {
                if a.id == Id::Empty || a.id == Id::Long && c.check_len {
                    r.push(Some(2));
                }
            }
            Ver::V311 => {
                if a.id == Id::Empty && !a.clean {
                    r.push(Some(2));
                }
            }
            Ver::V5 => {
                if a.zero_window || a.zero_size {
                    r.push(Some(0x82));
                }
                match &a.auth {
                    Auth::No => {}
                    Auth::Data => r.push(Some(0x82)),
                    Auth::Method(_) => r.push(Some(0x8c)),
                    Auth::Scram { .. } if !c.scram => r.push(Some(0x8c)),
                    Auth::Scram { user, pass, authzid, first, second } => {
                        let user = user_name(&c.logins, user);
                        let pass = password(&c.logins, pass);
                        let known = c.logins.iter().find(|(u, _)| Some(u) == user.as_ref());
                        if *first != First::Fine || known.is_none() {
                            r.push(Some(0x87));
                        } else {
                            let right = known.is_some_and(|(_, p)| Some(p.as_bytes()) == pass.as_deref())
                                && authzid.as_ref().is_none_or(|z| user_name(&c.logins, z) == user);
                            match second {
                                Second::Fine => {
                                    if !right {
                                        r.push(Some(0x87))
                                    }
                                }
                                Second::Method(m) => {
                                    if m.as_deref() != Some(METHOD) {
                                        r.push(Some(0x82))
                                    } else if !right {
                                        r.push(Some(0x87))
                                    }
                                }
                                Second::Code(0x18) => {
                                    if !right {
                                        r.push(Some(0x87))
                                    }
                                }
                                Second::Code(_) | Second::Packet(_) | Second::Early(_) => r.push(Some(0x82)),
                                Second::Missing | Second::Binary | Second::Garbage(_) | Second::Flip(_) | Second::Again => {
                                    r.push(Some(0x87))
                                }
                                Second::Stall | Second::Eof | Second::Reset => r.push(None),
                            }
                        }
                        // what was sent along with CONNECT comes before AUTH
                        if !a.tail.is_empty() {
                            r.push(Some(0x82));
                        }
                    }
                }
                if let Will::Some { qos, retain } = a.will {
                    if retain && !c.retain {
                        r.push(Some(0x9a));
                    }
                    if qos > c.max_qos {
                        r.push(Some(0x9b));
                    }
                }
            }
        }
        if matches!(a.will, Will::Empty | Will::Dollar) {
            r.push(None);
            if a.ver.is5() {
                r.push(Some(0x90));
            }
        }
        if held && a.ver.is5() != c.victim.is5() {
            r.push(None);
        }
        r
    }

    async fn attempt(&mut self, n: usize, a: &Attempt) -> Result<(), Failure> {
        let c = self.case;
        let reasons = self.reasons(a, a.id == Id::Victim);
        let id = match a.id {
            Id::Victim => "victim".to_string(),
            Id::Fresh(k) => format!("f{k}"),
            Id::Long => "a-client-identifier-longer-than-23".into(),
            Id::Empty => String::new(),
        };
        let mut o = ConnOpts {
            clean: a.clean,
            expiry: (a.id == Id::Victim).then_some(100_000),
            user: user_name(&c.users, &a.user),
            pass: password(&c.users, &a.pass),
            recv_max: a.zero_window.then_some(0),
            max_packet: if a.zero_size {
                Some(0)
            } else {
                a.size.filter(|_| !matches!(a.auth, Auth::Scram { .. })).map(|n| n as u32)
            },
            ..Default::default()
        };
        // a v3 CONNECT cannot carry a password without a user name
        if o.user.is_none() && !a.ver.is5() {
            o.pass = None;
        }
        let will_payload = vec![b'w', n as u8];
        o.will = match a.will {
            Will::No => None,
            Will::Some { qos, retain } => {
                Some(super::client::Will { topic: "b/will".into(), payload: will_payload.clone(), qos, retain, ..Default::default() })
            }
            Will::Empty => Some(super::client::Will::default()),
            Will::Dollar => Some(super::client::Will { topic: "$x".into(), ..Default::default() }),
        };
        let mut scram: Option<RefClient> = None;
        if a.ver.is5() {
            match &a.auth {
                Auth::No => {}
                Auth::Data => o.auth_data = Some(vec![1, 2]),
                Auth::Method(m) => {
                    o.auth_method = Some(m.clone());
                    o.auth_data = Some(b"n,,n=x,r=y".to_vec());
                }
                Auth::Scram { user, pass, authzid, first, .. } => {
                    let pass = String::from_utf8_lossy(&password(&c.logins, pass).unwrap_or_default()).into_owned();
                    let rc = RefClient::new(
                        'n',
                        &user_name(&c.logins, user).unwrap_or_default(),
                        authzid.as_ref().map(|z| user_name(&c.logins, z).unwrap_or_default()).as_deref(),
                        "nonce+nonce",
                        "",
                        "",
                        &pass,
                    );
                    o.auth_method = Some(METHOD.into());
                    o.auth_data = match first {
                        First::Fine => Some(rc.first().into_bytes()),
                        First::Missing => None,
                        First::Binary => Some(vec![0xc3, 0x28]),
                        First::Garbage(s) => Some(s.clone().into_bytes()),
                    };
                    scram = Some(rc);
                }
            }
        }
        let before = (self.global.clients_count(), self.global.online_clients_count());
        let end = self.open(a.read.clone());
        let mut me = Client::new(a.ver, end, &o, 100);
        let mut bytes = connect_packet(a.ver, &id, &o);
        if let Auth::Scram { second: Second::Early(k), .. } = &a.auth
            && a.ver.is5()
        {
            bytes.extend(tail_packet(c, a.ver, *k));
        }
        for k in &a.tail {
            bytes.extend(tail_packet(c, a.ver, *k));
        }
        me.send(&bytes);
        settle().await;
        let (_, mut evs) = me.read()?;
        // the exchange
        if let (Some(rc), Some(Ev::Auth { code, method, data })) = (&mut scram, evs.first().cloned()) {
            evs.remove(0);
            ensure!(code == 0x18 && method.as_deref() == Some(METHOD), "auth", "the answer is AUTH {code:#x} {method:?}");
            let Auth::Scram { second, .. } = &a.auth else { unreachable!() };
            let server_first = String::from_utf8(data.unwrap_or_default()).unwrap_or_default();
            let fin = match rc.answer(&server_first) {
                Ok(f) => f,
                Err(e) => return fail("server-first", format!("{server_first:?}: {e}")),
            };
            let auth = |code, data: Option<Vec<u8>>| auth_packet(code, Some(METHOD), data);
            let msg = match second {
                Second::Fine | Second::Early(_) => auth(0x18, Some(fin.into_bytes())),
                Second::Missing => auth(0x18, None),
                Second::Binary => auth(0x18, Some(vec![0xc3, 0x28])),
                Second::Garbage(s) => auth(0x18, Some(s.clone().into_bytes())),
                Second::Flip(k) => {
                    let mut b = fin.into_bytes();
                    // inside the proof or the nonce; the last digits of base64 carry spare bits
                    let i = *k as usize % (b.len() - 3);
                    b[i] = if b[i] == b'A' { b'B' } else { b'A' };
                    auth(0x18, Some(b))
                }
                Second::Again => auth(0x18, Some(rc.first().into_bytes())),
                Second::Method(m) => auth_packet(0x18, m.as_deref(), Some(fin.into_bytes())),
                Second::Code(k) => auth(*k, Some(fin.into_bytes())),
                Second::Packet(k) => tail_packet(c, a.ver, *k),
                Second::Stall | Second::Eof | Second::Reset => vec![],
            };
            // nobody who is not in yet counts
            ensure!(
                before == (self.global.clients_count(), self.global.online_clients_count()),
                "counted-early",
                "a client that has not answered the challenge is counted"
            );
            match second {
                Second::Stall => tokio::time::sleep(Duration::from_millis(5500)).await,
                Second::Eof => me.end.eof(),
                Second::Reset => me.end.reset(),
                _ => me.send(&msg),
            }
            settle().await;
            let (_, more) = me.read()?;
            evs.extend(more);
            self.out.tag("challenge");
        }
        let got = evs.first().cloned();
        if reasons.is_empty() {
            self.accepted += 1;
            self.out.tag("accepted");
            self.out.tag_if(scram.is_some(), "accepted-scram");
            let Some(Ev::Connack { present, code: 0, props }) = got else {
                return fail("refused", format!("{a:?} should be let in, but is answered with {evs:?}"));
            };
            ensure!(
                present == (a.id == Id::Victim && !a.clean && a.ver == c.victim),
                "session-present",
                "session present: {present} for {a:?}"
            );
            if let Some(rc) = &scram {
                let p = props.as_ref().unwrap();
                ensure!(
                    p.auth_method.as_deref() == Some(METHOD)
                        && p.auth_data.as_deref().is_some_and(|d| rc.verify(&String::from_utf8_lossy(d))),
                    "server-final",
                    "CONNACK carries {:?} {:?}",
                    p.auth_method,
                    p.auth_data
                );
            } else if let Some(p) = &props {
                ensure!(p.auth_method.is_none() && p.auth_data.is_none(), "auth-data", "CONNACK without a challenge carries {p:?}");
            }
            // what was sent along is done
            let mut seen = vec![];
            for k in &a.tail {
                let payload = vec![b't', *k];
                match k % 6 {
                    0 | 2 => seen.push(payload),
                    1 => {
                        if c.retain {
                            self.retained = Some(payload.clone());
                        }
                        seen.push(payload);
                    }
                    _ => {}
                }
            }
            let (_, wevs) = self.watcher.read()?;
            let mut at = 0;
            for e in wevs {
                match e {
                    Ev::Publish(p) if p.topic == "b/t" => {
                        ensure!(seen.get(at) == Some(&p.payload), "tail", "instead of {:?} the broker forwarded {:?}", seen.get(at), p.payload);
                        at += 1;
                        self.ack_watcher(p.qos, p.pid);
                    }
                    Ev::Publish(p) if p.topic == "b/will" && p.payload == b"victim" && a.id == Id::Victim && self.victim.is_some() => {
                        self.ack_watcher(p.qos, p.pid);
                    }
                    Ev::Pubrel(..) => {}
                    e => return fail("stranger", format!("the watcher received {e:?}")),
                }
            }
            ensure!(at == seen.len(), "tail-lost", "{} of {} messages sent along with CONNECT were forwarded", at, seen.len());
            if a.id == Id::Victim {
                // the session is the newcomer's: end it, and start again
                if let Some(old) = self.victim.take() {
                    settle().await;
                    ensure!(old.end.closed(), "not-taken-over", "the old connection of the client identifier is still open");
                }
                me.send(&disconnect_packet(a.ver, 0, Some(0)));
                settle().await;
                settle().await;
                // v3 sessions stay: clear them
                let o = ConnOpts { clean: true, ..self.honest() };
                let end = self.open(vec![]);
                let mut clear = Client::new(self.case.victim, end, &o, 100);
                clear.send(&connect_packet(self.case.victim, "victim", &o));
                clear.send(&disconnect_packet(self.case.victim, 0, None));
                settle().await;
                clear.read()?;
                self.queued.clear();
                self.login_victim().await?;
                let (_, wevs) = self.watcher.read()?;
                ensure!(
                    !wevs.iter().any(|e| matches!(e, Ev::Publish(p) if p.topic != "b/will")),
                    "stranger",
                    "the watcher received {wevs:?}"
                );
                return self.reset_watcher().await;
            }
            me.send(&disconnect_packet(a.ver, 0, None));
            settle().await;
            if !a.clean && !a.ver.is5() {
                // a session that stays; it is counted, as offline
                let o = ConnOpts { clean: true, ..self.honest() };
                let end = self.open(vec![]);
                let mut clear = Client::new(a.ver, end, &o, 100);
                clear.send(&connect_packet(a.ver, &id, &o));
                clear.send(&disconnect_packet(a.ver, 0, None));
                settle().await;
                clear.read()?;
            }
        } else {
            self.refused += 1;
            self.out.tag("refused");
            self.out.tag_if(a.id == Id::Victim, "refused-victims-id");
            self.out.tag_if(scram.is_some(), "refused-scram");
            let code = match got {
                None => None,
                Some(Ev::Connack { present, code, .. }) => {
                    ensure!(code != 0, "let-in", "{a:?} was let in, reasons to refuse it: {reasons:02x?}");
                    ensure!(!present, "session-present", "CONNACK {code:#x} with session present");
                    Some(code)
                }
                Some(e) => return fail("answer", format!("{a:?} was answered with {e:?}")),
            };
            ensure!(reasons.contains(&code), "code", "{a:?} was answered with {code:02x?}, expected one of {reasons:02x?}");
            ensure!(evs.len() <= 1, "more", "after the refusal: {evs:?}");
            ensure!(me.end.closed(), "not-closed", "the refused connection is still open ({a:?})");
            me.end.reset();
            settle().await;
            let (_, wevs) = self.watcher.read()?;
            ensure!(wevs.is_empty(), "stranger", "after {a:?} was refused the watcher received {wevs:?}");
        }
        let after = (self.global.clients_count(), self.global.online_clients_count());
        ensure!(before == after, "count", "(clients, online) was {before:?} and is {after:?} after {a:?}");
        self.alive().await
    }

    fn ack_watcher(&mut self, qos: u8, id: u16) {
        if qos == 1 {
            self.watcher.send(&ack_packet(self.watcher.ver, Ack::Puback, id));
            self.watcher.done(id);
        } else if qos == 2 {
            self.watcher.send(&ack_packet(self.watcher.ver, Ack::Pubrec, id));
            self.watcher.send(&ack_packet(self.watcher.ver, Ack::Pubcomp, id));
            self.watcher.done(id);
        }
    }

    async fn reset_watcher(&mut self) -> Result<(), Failure> {
        let end = self.open(vec![]);
        let o = ConnOpts { clean: true, ..self.honest() };
        let mut w = Client::new(Ver::V311, end, &o, 100);
        w.send(&connect_packet(Ver::V311, "watcher", &o));
        w.send(&subscribe_packet(Ver::V311, 1, &[SubReq { filter: "b/#".into(), qos: 1, ..Default::default() }], None));
        settle().await;
        let (_, evs) = w.read()?;
        ensure!(matches!(evs.first(), Some(Ev::Connack { code: 0, .. })), "honest-refused", "the right password was answered with {evs:?}");
        let kept: Vec<_> = evs.iter().filter_map(|e| if let Ev::Publish(p) = e { Some((p.topic.clone(), p.payload.clone())) } else { None }).collect();
        let want: Vec<_> = self.retained.iter().map(|p| ("b/t".to_string(), p.clone())).collect();
        ensure!(kept == want, "retained", "retained messages are {kept:?}, expected {want:?}");
        for e in evs {
            if let Ev::Publish(p) = e {
                w.send(&ack_packet(Ver::V311, Ack::Puback, p.pid));
                w.done(p.pid);
            }
        }
        self.watcher = w;
        Ok(())
    }

    /// The victim is as it was: connected and subscribed, or away with a session that collects.
    async fn alive(&mut self) -> Result<(), Failure> {
        self.seq += 1;
        let payload = vec![b'v', self.seq];
        let m = OutPub { qos: 1, pid: 1, topic: "v".into(), payload: payload.clone(), ..Default::default() };
        self.watcher.send(&publish_packet(self.watcher.ver, &m));
        settle().await;
        let (_, wevs) = self.watcher.read()?;
        ensure!(wevs.len() == 1 && matches!(wevs[0], Ev::Puback(1, _)), "watcher", "the watcher received {wevs:?}");
        match &mut self.victim {
            Some(v) => {
                let (_, evs) = v.read()?;
                ensure!(!v.end.closed(), "victim-closed", "the connection of another client was closed ({evs:?})");
                let mut got = vec![];
                for e in evs {
                    match e {
                        Ev::Publish(p) if p.topic == "v" => {
                            v.send(&ack_packet(v.ver, Ack::Puback, p.pid));
                            v.done(p.pid);
                            got.push(p.payload);
                        }
                        e => return fail("victim", format!("another client received {e:?}")),
                    }
                }
                ensure!(got == [payload.clone()], "victim-lost", "instead of {payload:?} another client received {got:?}");
                settle().await;
            }
            None => self.queued.push(payload),
        }
        Ok(())
    }

    async fn run(&mut self) -> Result<(), Failure> {
        self.reset_watcher().await?;
        self.login_victim().await?;
        if !self.case.online {
            let v = self.victim.take().unwrap();
            v.send(&disconnect_packet(self.case.victim, 0, None));
            settle().await;
        }
        for (n, a) in self.case.attempts.iter().enumerate() {
            self.attempt(n, a).await?;
        }
        if self.victim.is_none() {
            // the session was kept as it was
            let o = ConnOpts { clean: false, expiry: Some(100_000), ..self.honest() };
            let end = self.open(vec![]);
            let mut c = Client::new(self.case.victim, end, &o, 100);
            c.send(&connect_packet(self.case.victim, "victim", &o));
            settle().await;
            let (_, evs) = c.read()?;
            ensure!(matches!(evs.first(), Some(Ev::Connack { present: true, code: 0, .. })), "session-lost", "the session was answered with {evs:?}");
            let got: Vec<_> = evs.iter().filter_map(|e| if let Ev::Publish(p) = e { Some(p.payload.clone()) } else { None }).collect();
            ensure!(got == self.queued, "session-lost", "instead of {:?} the session had {got:?}", self.queued);
        }
        self.reset_watcher().await
    }
}

pub fn run(case: &Case) -> CaseResult {
    let rt = paused_rt();
    let mut config = base_config();
    config.auth.enable = case.passwords;
    config.check_v310_client_id_length = case.check_len;
    config.retain_available = case.retain;
    config.max_allowed_qos = case.max_qos;
    config.sasl_mechanisms = serde_json::from_value(if case.scram { json!(["SCRAM-SHA-256"]) } else { json!([]) }).unwrap();
    let infos: serde_json::Map<String, serde_json::Value> = case
        .logins
        .iter()
        .enumerate()
        .map(|(i, (u, p))| {
            let h = sha::pbkdf2(&SHA256, p.as_bytes(), &salt(i), ITER as u32);
            (u.clone(), json!({"hashed_password": hex(&h), "iterations": ITER, "salt": hex(&salt(i))}))
        })
        .collect();
    config.scram_users = serde_json::from_value(infos.into()).unwrap();
    let res = rt.block_on(async {
        let global = GlobalState::new(config);
        for (i, (u, p)) in case.users.iter().enumerate() {
            global.auth_passwords.insert(
                u.clone(),
                AuthPassword { hash_algorithm: HashAlgorithm::Sha256, hashed_password: stored(p, i), salt: salt(i) },
            );
        }
        let global = Arc::new(global);
        let (end, _) = super::pipe::pipe(0, vec![], vec![]);
        let mut g = Gate {
            case,
            watcher: Client::new(Ver::V311, end, &ConnOpts::default(), 10),
            global,
            victim: None,
            peers: 0,
            seq: 0,
            queued: vec![],
            retained: None,
            accepted: 0,
            refused: 0,
            out: Outcome::default(),
        };
        g.run().await?;
        g.out.nontrivial = g.refused > 0 && g.out.tags.iter().any(|t| t.starts_with("accepted") || t.starts_with("refused-"));
        Ok(g.out)
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    res
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn table() -> BoxedStrategy<Vec<(String, String)>> {
    prop::collection::vec((name(), "[ -~]{1,8}"), 1..4)
        .prop_map(|mut v| {
            let mut seen = std::collections::HashSet::new();
            v.retain(|(u, _)| !u.is_empty() && seen.insert(u.clone()));
            if v.is_empty() {
                v.push(("u".into(), "p".into()));
            }
            v
        })
        .boxed()
}

fn secret(right: u32) -> BoxedStrategy<Secret> {
    prop_oneof![
        right => (0u8..3).prop_map(Secret::Right),
        1 => Just(Secret::None),
        2 => (0u8..3, 0u8..12).prop_map(|(k, n)| Secret::Near(k, n)),
        1 => "[a-z]{0,4}".prop_map(Secret::Other),
        1 => (0u8..3).prop_map(Secret::Hash),
    ]
    .boxed()
}

fn auth() -> BoxedStrategy<Auth> {
    let first = prop_oneof![
        9 => Just(First::Fine),
        1 => Just(First::Missing),
        1 => Just(First::Binary),
        1 => "[nyp,=ra-z]{0,12}".prop_map(First::Garbage),
    ];
    let second = prop_oneof![
        9 => Just(Second::Fine),
        1 => Just(Second::Missing),
        1 => Just(Second::Binary),
        1 => "[crp,=a-z]{0,12}".prop_map(Second::Garbage),
        2 => any::<u8>().prop_map(Second::Flip),
        1 => Just(Second::Again),
        1 => prop_oneof![Just(None), Just(Some("SCRAM-SHA-1".to_string())), Just(Some(METHOD.to_string()))].prop_map(Second::Method),
        2 => prop_oneof![Just(0u8), Just(0x18), Just(0x19)].prop_map(Second::Code),
        2 => any::<u8>().prop_map(Second::Packet),
        1 => any::<u8>().prop_map(Second::Early),
        1 => Just(Second::Stall),
        1 => Just(Second::Eof),
        1 => Just(Second::Reset),
    ];
    let scram = (0u8..3, secret(8), secret(8), prop::option::weighted(0.25, secret(3)), first, second).prop_map(|(k, user, pass, authzid, first, second)| {
        // mostly the user and the password of the same entry
        let (user, pass) = match (user, pass) {
            (Secret::Right(_), Secret::Right(_)) => (Secret::Right(k), Secret::Right(k)),
            x => x,
        };
        let authzid = match authzid {
            Some(Secret::Right(_)) => Some(user.clone()),
            z => z,
        };
        Auth::Scram { user, pass, authzid, first, second }
    });
    prop_oneof![
        5 => Just(Auth::No),
        1 => Just(Auth::Data),
        1 => prop_oneof![Just("SCRAM-SHA-256-PLUS".to_string()), Just("scram-sha-256".to_string()), Just(String::new()), Just("PLAIN".to_string())].prop_map(Auth::Method),
        8 => scram,
    ]
    .boxed()
}

fn attempt() -> BoxedStrategy<Attempt> {
    let ver = prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 6 => Just(Ver::V5)];
    let id = prop_oneof![4 => Just(Id::Victim), 4 => (0u8..2).prop_map(Id::Fresh), 1 => Just(Id::Long), 1 => Just(Id::Empty)];
    let will = prop_oneof![
        6 => Just(Will::No),
        4 => (0u8..3, any::<bool>()).prop_map(|(qos, retain)| Will::Some { qos, retain }),
        1 => Just(Will::Empty),
        1 => Just(Will::Dollar),
    ];
    (
        (ver, id, any::<bool>(), 0u8..3, prop::bool::weighted(0.7), secret(4), secret(4)),
        auth(),
        will,
        (prop::bool::weighted(0.04), prop::bool::weighted(0.04), prop::option::weighted(0.5, 12u8..80)),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..4)],
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(1usize..40, 1..4)],
    )
        .prop_map(|((ver, id, clean, k, right, user, pass), auth, will, (zero_window, zero_size, size), tail, read)| {
            let (user, pass) = if right { (Secret::Right(k), Secret::Right(k)) } else { (user, pass) };
            Attempt { ver, id, clean, user, pass, auth, will, zero_window, zero_size, size, tail, read }
        })
        .boxed()
}

pub fn case() -> BoxedStrategy<Case> {
    (
        (prop::bool::weighted(0.6), prop::bool::weighted(0.85)),
        table(),
        table(),
        prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 3 => Just(Ver::V5)],
        prop::bool::weighted(0.7),
        any::<bool>(),
        (prop::bool::weighted(0.7), prop_oneof![3 => Just(2u8), 1 => Just(1u8)]),
        prop::collection::vec(attempt(), 1..6),
    )
        .prop_map(|((passwords, scram), users, logins, victim, online, check_len, (retain, max_qos), attempts)| Case {
            passwords,
            scram,
            users,
            logins,
            victim,
            online,
            check_len,
            retain,
            max_qos,
            attempts,
        })
        .boxed()
}
