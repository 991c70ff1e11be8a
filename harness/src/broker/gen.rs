//! Generators of broker histories.
use proptest::prelude::*;

use super::client::{Props, SubReq, Ver, Will};
use super::world::{Case, Cfg, How, Op, PubSpec};
use crate::pure::gen_topic;

/// What a history consists of; weights of 0 leave something out.
#[derive(Clone, Debug)]
pub struct Prof {
    pub clients: (usize, usize),
    /// percentage of v5 clients
    pub v5: u32,
    pub ops: (usize, usize),
    pub connect: u32,
    pub close: u32,
    pub sub: u32,
    pub unsub: u32,
    pub publish: u32,
    pub burst: u32,
    pub hold: u32,
    pub hold_rel: u32,
    pub redeliver: u32,
    pub lost: u32,
    pub advance: u32,
    pub ping: u32,
    /// percentages
    pub retain: u32,
    pub empty: u32,
    pub clean: u32,
    pub will: u32,
    pub persistent: u32,
    pub alias: u32,
    pub recv_max: u32,
    pub max_packet: u32,
    pub opts: u32,
    pub props: u32,
    pub big: u32,
    pub chunks: u32,
    pub low_qos: u32,
    pub cap_expiry: u32,
    pub wide_topics: u32,
    pub qos12: u32,
    pub shared: u32,
    /// connections over PROXY, TLS and WebSocket
    pub via: bool,
}

pub const BASE: Prof = Prof {
    clients: (2, 4),
    v5: 50,
    ops: (4, 30),
    connect: 4,
    close: 2,
    sub: 5,
    unsub: 2,
    publish: 14,
    burst: 2,
    hold: 0,
    hold_rel: 0,
    redeliver: 0,
    lost: 0,
    advance: 0,
    ping: 1,
    retain: 10,
    empty: 3,
    clean: 40,
    will: 0,
    persistent: 50,
    alias: 0,
    recv_max: 0,
    max_packet: 0,
    opts: 30,
    props: 30,
    big: 5,
    chunks: 20,
    low_qos: 5,
    cap_expiry: 0,
    wide_topics: 10,
    qos12: 60,
    shared: 0,
    via: false,
};

/// Everything together.
pub const ALL: Prof = Prof {
    clients: (2, 5),
    v5: 70,
    ops: (6, 40),
    connect: 5,
    close: 4,
    sub: 7,
    unsub: 3,
    publish: 16,
    burst: 2,
    hold: 4,
    hold_rel: 1,
    redeliver: 2,
    lost: 0,
    advance: 2,
    ping: 1,
    retain: 25,
    empty: 0,
    clean: 30,
    will: 25,
    persistent: 65,
    alias: 25,
    recv_max: 25,
    max_packet: 15,
    opts: 50,
    props: 40,
    big: 10,
    chunks: 25,
    low_qos: 10,
    cap_expiry: 20,
    wide_topics: 0,
    qos12: 70,
    shared: 0,
    via: false,
};

/// Shared subscriptions among the others. Copies for groups that wait for acknowledgements, or
/// stand next to retained copies of the same message, can't be told from those.
pub const ALL_SHARED: Prof = Prof { shared: 35, hold: 0, hold_rel: 0, redeliver: 0, retain: 0, ..ALL };

fn pct(p: u32) -> BoxedStrategy<bool> {
    prop::bool::weighted((p as f64 / 100.0).clamp(0.0, 1.0)).boxed()
}

fn maybe<T: Clone + std::fmt::Debug + 'static>(p: u32, s: BoxedStrategy<T>) -> BoxedStrategy<Option<T>> {
    if p == 0 {
        return Just(None).boxed();
    }
    (pct(p), s).prop_map(|(b, v)| b.then_some(v)).boxed()
}

pub fn topic(p: &Prof) -> BoxedStrategy<String> {
    let small = prop::sample::select(vec!["a", "a/b", "a/b/c", "b", "b/a", "a/", "/a", "c"]).prop_map(|s| s.to_string());
    if p.wide_topics == 0 {
        return small.boxed();
    }
    prop_oneof![
        100 - p.wide_topics => small,
        p.wide_topics => gen_topic::publish_topic().prop_filter("valid", |t| t.len() < 200),
    ]
    .boxed()
}

pub fn filter(p: &Prof) -> BoxedStrategy<String> {
    let small =
        prop::sample::select(vec!["a", "a/b", "a/+", "a/#", "#", "+/b", "+", "b/#", "b", "/+", "a/+/c", "+/+", "c", "+/#"]).prop_map(|s| s.to_string());
    let plain = if p.wide_topics == 0 {
        small.boxed()
    } else {
        prop_oneof![
            100 - p.wide_topics => small,
            p.wide_topics => gen_topic::filter().prop_filter("not shared", |f| !f.starts_with("$share/")),
        ]
        .boxed()
    };
    if p.shared == 0 {
        return plain;
    }
    let few = prop::sample::select(vec!["a", "a/b", "a/+", "#", "+/b"]).prop_map(|s| s.to_string());
    let group = prop::sample::select(vec!["g", "h"]);
    prop_oneof![
        100 - p.shared => plain,
        p.shared => (group, few).prop_map(|(g, f)| format!("$share/{g}/{f}")),
    ]
    .boxed()
}

pub fn qos(p: &Prof) -> BoxedStrategy<u8> {
    let q = p.qos12;
    prop_oneof![100 - q => Just(0u8), q / 2 => Just(1u8), q - q / 2 => Just(2u8)].boxed()
}

pub fn props(p: &Prof, expiry: bool) -> BoxedStrategy<Props> {
    if p.props == 0 {
        return Just(Props::default()).boxed();
    }
    let text = prop::sample::select(vec!["", "x", "text/plain", "é", "a b"]).prop_map(|s| s.to_string());
    let user = prop::collection::vec((text.clone(), text.clone()), 0..4);
    (
        pct(p.props),
        prop::option::of(any::<bool>()),
        maybe(if expiry { 30 } else { 0 }, prop::sample::select(vec![600u32, 5000, u32::MAX]).boxed()),
        prop::option::of(prop::sample::select(vec!["r", "r/1", "é"])),
        prop::option::of(prop::collection::vec(any::<u8>(), 0..6)),
        prop::option::of(text),
        user,
    )
        .prop_map(|(on, utf8, expiry, response, corr, ctype, user)| {
            if !on {
                return Props::default();
            }
            Props {
                // the payloads are not UTF-8
                utf8: utf8.filter(|u| !*u),
                expiry,
                response: response.map(str::to_string),
                corr,
                ctype,
                user,
            }
        })
        .boxed()
}

pub fn pub_spec(p: &Prof) -> BoxedStrategy<PubSpec> {
    let len = prop_oneof![
        100 - p.big => 0u16..24,
        p.big => prop::sample::select(vec![60u16, 100, 110, 120, 127, 128, 129, 300, 2000, 2100, 5000, 16384, 20000]),
    ];
    let alias = maybe(p.alias, (1u16..4, any::<bool>()).boxed());
    (topic(p), qos(p), pct(p.retain), pct(p.empty), len, props(p, true), alias)
        .prop_map(|(topic, qos, retain, empty, len, props, alias)| PubSpec {
            topic,
            qos,
            retain,
            // an empty message can not be told apart from another: only to clear a retained one
            empty: empty && retain,
            len,
            props,
            alias,
        })
        .boxed()
}

pub fn sub_req(p: &Prof) -> BoxedStrategy<SubReq> {
    (filter(p), 0u8..3, pct(p.opts / 2), pct(p.opts), prop_oneof![100 - p.opts => Just(0u8), p.opts => 0u8..3])
        .prop_map(|(filter, qos, no_local, rap, rh)| SubReq { filter, qos, no_local, rap, rh })
        .boxed()
}

fn will(p: &Prof) -> BoxedStrategy<Option<Will>> {
    if p.will == 0 {
        return Just(None).boxed();
    }
    maybe(
        p.will,
        (topic(p), prop::collection::vec(any::<u8>(), if p.shared > 0 { 4..8 } else { 0..6 }), 0u8..3, pct(25), prop::option::of(prop::sample::select(vec![0u32, 3, 10, 40])), props(p, false))
            .prop_map(|(topic, payload, qos, retain, delay, props)| Will { topic, payload, qos, retain, delay, props })
            .boxed(),
    )
}

fn expiry(p: &Prof) -> BoxedStrategy<Option<u32>> {
    let per = p.persistent;
    prop_oneof![
        100 - per => prop::sample::select(vec![None, Some(0)]),
        per => prop::sample::select(vec![Some(5u32), Some(30), Some(3600), Some(u32::MAX)]),
    ]
    .boxed()
}

fn connect(p: &Prof, c: BoxedStrategy<u8>) -> BoxedStrategy<Op> {
    (
        c,
        pct(p.clean),
        expiry(p),
        will(p),
        maybe(p.recv_max, prop::sample::select(vec![1u16, 2, 3, 5, 65535]).boxed()),
        maybe(p.alias, prop::sample::select(vec![0u16, 1, 2, 10]).boxed()),
        maybe(p.max_packet, prop::sample::select(vec![24u32, 30, 40, 60, 128, 130, 1000]).boxed()),
    )
        .prop_map(|(c, clean, expiry, will, recv_max, alias_max, max_packet)| Op::Connect { c, clean, expiry, will, recv_max, alias_max, max_packet })
        .boxed()
}

fn how() -> BoxedStrategy<How> {
    prop_oneof![
        2 => Just(How::Normal),
        1 => prop::sample::select(vec![0u32, 4, 100]).prop_map(How::NormalExpiry),
        1 => Just(How::WithWill),
        2 => Just(How::Eof),
        2 => Just(How::Reset),
    ]
    .boxed()
}

fn sub(p: &Prof, c: BoxedStrategy<u8>) -> BoxedStrategy<Op> {
    (
        c,
        prop::collection::vec(sub_req(p), 1..4),
        maybe(p.opts, prop::sample::select(vec![1u32, 2, 3, 127, 128, 16384, 268435455]).boxed()),
    )
        .prop_map(|(c, subs, id)| Op::Sub { c, subs, id })
        .boxed()
}

pub fn op(p: &Prof) -> BoxedStrategy<Op> {
    let c = (0u8..p.clients.1 as u8).boxed();
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (p.connect, connect(p, c.clone())),
        (p.close, (c.clone(), how()).prop_map(|(c, how)| Op::Close { c, how }).boxed()),
        (p.sub, sub(p, c.clone())),
        (
            p.unsub,
            (c.clone(), prop::collection::vec(filter(p), 1..3)).prop_map(|(c, filters)| Op::Unsub { c, filters }).boxed(),
        ),
        (p.publish, (c.clone(), pub_spec(p)).prop_map(|(c, m)| Op::Pub { c, m }).boxed()),
        (
            p.burst,
            (c.clone(), prop::collection::vec(pub_spec(p), 2..16), maybe(if p.shared > 0 { 0 } else { 20 }, how()))
                .prop_map(|(c, ms, then)| Op::Burst { c, ms, then })
                .boxed(),
        ),
        (p.hold, (c.clone(), prop::sample::select(vec![0u8, 0, 1, 1, 2, 2, 3])).prop_map(|(c, mode)| Op::Hold { c, mode }).boxed()),
        (p.hold / 3, c.clone().prop_map(|c| Op::RecAgain { c }).boxed()),
        (p.hold_rel, (c.clone(), any::<bool>()).prop_map(|(c, on)| Op::HoldRel { c, on }).boxed()),
        (p.redeliver, c.clone().prop_map(|c| Op::Redeliver { c }).boxed()),
        (p.redeliver / 2, (c.clone(), 0u8..3, any::<bool>()).prop_map(|(c, what, dup)| Op::Reuse { c, what, dup }).boxed()),
        (
            p.lost,
            (c.clone(), pub_spec(p), any::<bool>())
                .prop_map(|(c, mut m, seen)| {
                    m.qos = m.qos.max(1);
                    Op::LostPub { c, m, seen }
                })
                .boxed(),
        ),
        (p.lost, (c.clone(), any::<bool>()).prop_map(|(c, seen)| Op::LostRel { c, seen }).boxed()),
        (p.redeliver, (c.clone(), 1u8..4).prop_map(|(c, n)| Op::RelAgain { c, n }).boxed()),
        (
            p.advance,
            prop::sample::select(vec![1u16, 2, 4, 9, 20, 35, 60, 4000]).prop_map(|secs| Op::Advance { secs }).boxed(),
        ),
        (p.ping, (c, prop_oneof![2 => Just(1u8), 3 => 14u8..80]).prop_map(|(c, n)| Op::Ping { c, n }).boxed()),
    ];
    v.retain(|(w, _)| *w > 0);
    prop::strategy::Union::new_weighted(v).boxed()
}

pub fn cfg(p: &Prof) -> BoxedStrategy<Cfg> {
    let chunk = || prop::collection::vec(prop::sample::select(vec![1usize, 2, 3, 5, 7, 16, 64, 1000, 0]), 1..5);
    let low = p.low_qos;
    (
        0u8..3,
        if p.recv_max > 0 || p.hold > 0 { prop::sample::select(vec![1u16, 2, 3, 5, 100]).boxed() } else { Just(100u16).boxed() },
        prop_oneof![100 - low => Just(2u8), low => 0u8..2],
        maybe(p.chunks, chunk().boxed()),
        maybe(p.chunks, chunk().boxed()),
        maybe(p.cap_expiry, prop::sample::select(vec![0u32, 8, 100]).boxed()),
        if p.shared > 0 { (0u8..3).boxed() } else { Just(0u8).boxed() },
        if p.via { prop::collection::vec(super::transport::via(), 1..4).boxed() } else { Just(vec![]).boxed() },
    )
        .prop_map(|(hooks, window, max_qos, read, write, max_session_expiry, share_mode, via)| Cfg {
            via,
            share_mode,
            hooks,
            window,
            max_qos,
            read: read.unwrap_or_default(),
            write: write.unwrap_or_default(),
            max_session_expiry,
        })
        .boxed()
}

pub fn case(p: Prof, depth: usize) -> BoxedStrategy<Case> {
    let n = p.clients.1;
    let v5 = p.v5;
    let vers = prop::collection::vec(
        prop_oneof![
            v5 => Just(Ver::V5),
            (100 - v5) / 4 => Just(Ver::V310),
            100 - v5 - (100 - v5) / 4 => Just(Ver::V311),
        ],
        p.clients.0..=n,
    );
    let mut intro = Vec::new();
    for c in 0..n as u8 {
        intro.push((
            pct(85),
            connect(&p, Just(c).boxed()),
            pct(80),
            sub(&p, Just(c).boxed()),
        ));
    }
    (cfg(&p), vers, intro, prop::collection::vec(op(&p), p.ops.0..p.ops.1 * depth))
        .prop_map(|(cfg, vers, intro, mut rest)| {
            let mut ops = Vec::new();
            let n = vers.len();
            for (c, (a, conn, b, sub)) in intro.into_iter().enumerate() {
                if c >= n {
                    break;
                }
                if a {
                    ops.push(conn);
                    if b {
                        ops.push(sub);
                    }
                }
            }
            ops.append(&mut rest);
            let mut k = Case { cfg, vers, ops };
            k.clamp();
            k
        })
        .boxed()
}
