//! C10: configuration validation and serialization.
use std::collections::{HashMap, HashSet};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::str::FromStr;

use akasa_core::mqtt_proto::QoS;
use akasa_core::{
    Config, Http, Listener, Listeners, ProxyMode, SaslMechanism, ScramPasswordInfo,
    SharedSubscriptionMode, TlsListener,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::ensure;
use crate::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    anonymous_base: bool,
    auth: bool,
    password_file: Option<String>,
    listeners: [bool; 5],
    ports: [u16; 5],
    v6: bool,
    flags: u32,
    proxy_mode: u8,
    users: Vec<(String, u16, Vec<u8>, Vec<u8>)>,
    sasl: u8,
    mode: u8,
    max_qos: u8,
    packet_client: u32,
    packet_server: u32,
    nums: (u64, u16, u16, u16, u16, u32, u16),
    mem: (usize, usize),
}

fn cases(_t: Tier) -> BoxedStrategy<Case> {
    let size = prop_oneof![1 => Just(0u32), 1 => Just(1u32), 6 => 1u32..=u32::MAX];
    let iters = prop_oneof![1 => Just(4095u16), 2 => Just(4096u16), 4 => 4096u16..=u16::MAX, 1 => 0u16..4096];
    let user = ("[a-z:,\"\\\\é]{0,6}", iters, prop::collection::vec(any::<u8>(), 0..34), prop::collection::vec(any::<u8>(), 0..20));
    let a = (
        any::<bool>(),
        any::<bool>(),
        prop::option::weighted(0.75, "[a-z/. ]{0,8}"),
        prop_oneof![1 => Just([false; 5]), 2 => (0usize..5).prop_map(|i| { let mut l = [false; 5]; l[i] = true; l }), 4 => any::<[bool; 5]>()],
        any::<[u16; 5]>(),
        any::<bool>(),
        any::<u32>(),
        0u8..3,
    );
    let b = (
        prop::collection::vec(user, 0..3),
        prop_oneof![4 => Just(1u8), 1 => Just(0u8), 1 => Just(2u8), 1 => Just(3u8)],
        0u8..3,
        prop_oneof![6 => 0u8..3, 1 => Just(3u8), 1 => any::<u8>()],
        size.clone(),
        size,
        any::<(u64, u16, u16, u16, u16, u32, u16)>(),
        (0usize..100000, 0usize..100000),
    );
    (a, b)
        .prop_map(|((anonymous_base, auth, password_file, listeners, ports, v6, flags, proxy_mode), (users, sasl, mode, max_qos, packet_client, packet_server, nums, mem))| Case {
            anonymous_base, auth, password_file, listeners, ports, v6, flags, proxy_mode, users, sasl, mode, max_qos, packet_client, packet_server, nums, mem,
        })
        .boxed()
}

fn build(c: &Case) -> Config {
    let ip: IpAddr = if c.v6 { Ipv6Addr::LOCALHOST.into() } else { Ipv4Addr::UNSPECIFIED.into() };
    let addr = |i: usize| SocketAddr::new(ip, c.ports[i]);
    let bit = |i: u32| c.flags & (1 << i) != 0;
    let proxy_mode = [None, Some(ProxyMode::Normal), Some(ProxyMode::TlsTermination)][c.proxy_mode as usize];
    let tls = |i: usize| TlsListener {
        addr: addr(i),
        reuse_port: bit(0),
        proxy: bit(1),
        ca_file: bit(2).then(|| "/ca".into()),
        key_file: "/key".into(),
        cert_file: "/cert".into(),
        verify_peer: bit(3),
        fail_if_no_peer_cert: bit(4),
    };
    let tcp = |i: usize| Listener { addr: addr(i), reuse_port: bit(5), proxy_mode };
    let mut cfg = if c.anonymous_base { Config::new_allow_anonymous() } else { Config::default() };
    cfg.auth.enable = c.auth;
    cfg.auth.password_file = c.password_file.as_ref().map(|p| p.into());
    cfg.listeners = Listeners {
        mqtt: c.listeners[0].then(|| tcp(0)),
        mqtts: c.listeners[1].then(|| tls(1)),
        ws: c.listeners[2].then(|| tcp(2)),
        wss: c.listeners[3].then(|| tls(3)),
        http: c.listeners[4].then(|| Http { addr: addr(4), reuse_port: bit(6), prometheus: bit(7) }),
    };
    cfg.scram_users = c
        .users
        .iter()
        .map(|(u, i, h, s)| (u.clone(), ScramPasswordInfo { hashed_password: h.clone(), iterations: *i, salt: s.clone() }))
        .collect::<HashMap<_, _>>();
    let mut sasl = HashSet::new();
    if c.sasl & 1 != 0 {
        sasl.insert(SaslMechanism::ScramSha256);
    }
    if c.sasl & 2 != 0 {
        sasl.insert(SaslMechanism::ScramSha256Plus);
    }
    cfg.sasl_mechanisms = sasl;
    cfg.shared_subscription_mode = [
        SharedSubscriptionMode::Random,
        SharedSubscriptionMode::HashClientId,
        SharedSubscriptionMode::HashTopicName,
    ][c.mode as usize];
    cfg.max_allowed_qos = c.max_qos;
    cfg.max_packet_size_client = c.packet_client;
    cfg.max_packet_size_server = c.packet_server;
    cfg.inflight_timeout = c.nums.0;
    cfg.max_inflight_client = c.nums.1;
    cfg.max_inflight_server = c.nums.2;
    cfg.min_keep_alive = c.nums.3;
    cfg.max_keep_alive = c.nums.4;
    cfg.max_session_expiry_interval = c.nums.5;
    cfg.topic_alias_max = c.nums.6;
    cfg.max_in_mem_pending_messages = c.mem.0;
    cfg.max_in_db_pending_messages = c.mem.1;
    cfg.check_v310_client_id_length = bit(8);
    cfg.multiple_subscription_id_in_publish = bit(9);
    cfg.retain_available = bit(10);
    cfg.shared_subscription_available = bit(11);
    cfg.subscription_id_available = bit(12);
    cfg.wildcard_subscription_available = bit(13);
    cfg.hook.enable_before_connect = bit(14);
    cfg.hook.enable_after_connect = bit(15);
    cfg.hook.enable_after_disconnect = bit(16);
    cfg.hook.enable_publish = bit(17);
    cfg.hook.enable_subscribe = bit(18);
    cfg.hook.enable_unsubscribe = bit(19);
    cfg
}

/// The documented rules, evaluated on the generated case.
fn valid(c: &Case) -> bool {
    let last: HashMap<&String, u16> = c.users.iter().map(|(u, i, ..)| (u, *i)).collect();
    !(c.auth && c.password_file.is_none())
        && c.max_qos <= 2
        && c.packet_client >= 1
        && c.packet_server >= 1
        && c.sasl & 2 == 0
        && last.values().all(|i| *i >= 4096)
        && c.listeners.iter().any(|l| *l)
}

fn eval(case: &Case) -> CaseResult {
    let cfg = build(case);
    let want = valid(case);
    ensure!(cfg.is_valid() == want, "is-valid", "is_valid is {}, expected {want}", cfg.is_valid());
    if case.max_qos <= 2 {
        let q = [QoS::Level0, QoS::Level1, QoS::Level2][case.max_qos as usize];
        ensure!(cfg.max_allowed_qos() == q, "max-qos", "max_allowed_qos() is {:?}", cfg.max_allowed_qos());
    }
    // round trip, field by field through the serialized form
    let v1 = serde_json::to_value(&cfg).map_err(|e| Failure { sig: "serialize".into(), msg: e.to_string() })?;
    let back: Config = serde_json::from_value(v1.clone()).map_err(|e| Failure { sig: "deserialize".into(), msg: format!("{e}: {v1}") })?;
    let v2 = serde_json::to_value(&back).map_err(|e| Failure { sig: "serialize".into(), msg: e.to_string() })?;
    // sets have no order
    let sort = |mut v: serde_json::Value| {
        if let Some(a) = v["sasl_mechanisms"].as_array_mut() {
            a.sort_by_key(|x| x.to_string());
        }
        v
    };
    ensure!(sort(v1.clone()) == sort(v2.clone()), "roundtrip", "{v1} became {v2}");
    ensure!(
        back.listeners == cfg.listeners
            && back.auth == cfg.auth
            && back.scram_users == cfg.scram_users
            && back.sasl_mechanisms == cfg.sasl_mechanisms
            && back.shared_subscription_mode == cfg.shared_subscription_mode
            && back.max_packet_size_client == cfg.max_packet_size_client
            && back.max_packet_size_server == cfg.max_packet_size_server
            && back.max_in_db_pending_messages == cfg.max_in_db_pending_messages
            && back.inflight_timeout == cfg.inflight_timeout
            && back.max_session_expiry_interval == cfg.max_session_expiry_interval,
        "roundtrip",
        "fields changed: {cfg:?} became {back:?}"
    );
    ensure!(back.is_valid() == want, "is-valid", "validity changed over a round trip");
    for m in &cfg.sasl_mechanisms {
        let name = serde_json::to_value(m).unwrap();
        ensure!(
            SaslMechanism::from_str(name.as_str().unwrap_or_default()) == Ok(*m),
            "mechanism-name",
            "{m:?} is written as {name}, which names {:?}",
            SaslMechanism::from_str(name.as_str().unwrap_or_default())
        );
    }
    let mut out = Outcome { nontrivial: true, ..Default::default() };
    out.tag(if want { "valid" } else { "invalid" });
    Ok(out)
}

pub fn property() -> Property {
    Property {
        id: "C10",
        rule: "random configurations (every field), validity compared with the documented rules, JSON round trip; every case is decided and counts as non-trivial",
        assumptions: &[],
        parts: vec![part("config", 300_000, 5_000_000, cases, eval)],
    }
}
