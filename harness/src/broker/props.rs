use r#gen::{ALL, ALL_SHARED, BASE, Prof};
use proptest::strategy::Strategy;

use super::r#gen;
use super::{accounts, alive, doors, expiry, flow, gate, hooks, hostile, leak, limits, listen, pressure, queue, refused};
use super::world::{self, Case, Stats};
use crate::runner::{Outcome, Part, Property, Tier, part};

fn world_part(name: &'static str, quick: u64, thorough: u64, p: Prof, judge: fn(&Stats, &mut Outcome)) -> Part {
    part(
        name,
        quick,
        thorough,
        move |t| r#gen::case(p.clone(), if t == Tier::Thorough { 2 } else { 1 }).boxed(),
        move |c: &Case| world::run(c, judge),
    )
}

/// Histories of the property's own profile, and histories with everything together.
fn worlds(quick: u64, thorough: u64, p: Prof, judge: fn(&Stats, &mut Outcome)) -> Vec<Part> {
    vec![world_part("histories", quick, thorough, p, judge), mixed(quick / 3, thorough / 3, judge)]
}

fn mixed(quick: u64, thorough: u64, judge: fn(&Stats, &mut Outcome)) -> Part {
    part(
        "mixed",
        quick,
        thorough,
        |t| r#gen::case(ALL, depth(t)).prop_union(r#gen::case(ALL_SHARED, depth(t))).boxed(),
        move |c: &Case| world::run(c, judge),
    )
}

fn depth(t: Tier) -> usize {
    if t == Tier::Thorough { 2 } else { 1 }
}

fn tags(s: &Stats, o: &mut Outcome) {
    o.tag_if(s.cross_version > 0, "cross-version");
    o.tag_if(s.downgraded > 0, "downgraded");
    o.tag_if(s.overlap > 0, "overlapping");
    o.tag_if(s.offline_queued > 0, "offline-queued");
    o.tag_if(s.delivered_q12 > 0, "qos1-2");
    o.tag_if(s.retained > 0, "retained");
    o.tag_if(s.retained_cleared > 0, "retained-cleared");
    o.tag_if(s.takeover > 0, "takeover");
    o.tag_if(s.resumed > 0, "resumed");
    o.tag_if(s.expired > 0, "session-expired");
    o.tag_if(s.wills > 0, "will");
    o.tag_if(s.delayed_wills > 0, "delayed-will");
    o.tag_if(s.cancelled_wills > 0, "cancelled-will");
    o.tag_if(s.takeover_wills > 0, "will-on-takeover");
    o.tag_if(s.refused > 0, "refused-by-receiver");
    o.tag_if(s.rec_again > 0, "pubrec-again");
    o.tag_if(s.redelivered > 0, "redelivered");
    o.tag_if(s.redelivered_rel > 0, "redelivered-pubrel");
    o.tag_if(s.rel_again > 0, "pubrel-sent-again");
    o.tag_if(s.reused > 0, "identifier-reused");
    o.tag_if(s.qos2_in > 0, "qos2-in");
    o.tag_if(s.dup_in > 0, "dup-in");
    o.tag_if(s.unseen_in > 0, "unseen-in");
    o.tag_if(s.held > 0, "acks-held");
    o.tag_if(s.window_full > 0, "window-full");
    o.tag_if(s.no_local > 0, "no-local");
    o.tag_if(s.sub_ids > 0, "sub-ids");
    o.tag_if(s.rap > 0, "retain-as-published");
    o.tag_if(s.rh > 0, "retain-handling");
    o.tag_if(s.alias_in > 0, "alias-in");
    o.tag_if(s.alias_out > 0, "alias-out");
    o.tag_if(s.too_large > 0, "too-large");
    o.tag_if(s.nomatch > 0, "no-match-code");
    o.tag_if(s.burst > 0, "burst");
    o.tag_if(s.unsub > 0, "unsubscribed");
    o.tag_if(s.resub > 0, "resubscribed");
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C11",
            rule: "at least one message was delivered and at least one copy crossed protocol versions or was downgraded",
            assumptions: &[],
            parts: worlds(90_000, 1_500_000, BASE, |s, o| {
                o.nontrivial = s.delivered > 0 && (s.cross_version > 0 || s.downgraded > 0);
                tags(s, o);
            }),
        },
        Property {
            id: "C12",
            rule: "at least 20 messages were sent and 10 received, with a stalled reader or a client that left or was taken over",
            assumptions: &[],
            parts: vec![
                part("flow", 40_000, 600_000, |t| flow::case(depth(t), false, false), flow::run),
                part("threads", 1_500, 40_000, |t| flow::case(depth(t), true, false), flow::run),
            ],
        },
        Property {
            id: "C13",
            rule: "a QoS 1/2 message was redelivered over a new connection, waited behind a full window, or did not fit into the queue; or all packet identifiers were used",
            assumptions: &[],
            parts: vec![
            part("bounded", 20_000, 300_000, |_| queue::case(false), queue::run),
            part("around", 120, 2_000, |_| queue::case(true), queue::run),
            world_part(
                "histories",
                60_000,
                1_000_000,
                Prof { hold: 6, connect: 5, close: 4, persistent: 85, clean: 10, recv_max: 60, qos12: 96, ops: (6, 40), burst: 4, retain: 5, unsub: 1, ..BASE },
                |s, o| {
                    o.nontrivial = s.redelivered > 0 || s.redelivered_rel > 0 || s.window_full > 0;
                    tags(s, o);
                },
            ), mixed(20_000, 300_000, |s, o| {
                o.nontrivial = s.redelivered > 0 || s.redelivered_rel > 0 || s.window_full > 0;
                tags(s, o);
            })],
        },
        Property {
            id: "C14",
            rule: "a QoS 2 handshake completed and a PUBLISH was sent again after a lost connection or before PUBREL",
            assumptions: &[],
            parts: vec![world_part(
                "histories",
                60_000,
                1_000_000,
                Prof { hold_rel: 4, redeliver: 4, lost: 6, connect: 6, persistent: 85, clean: 10, qos12: 96, alias: 20, ops: (6, 40), burst: 3, ..BASE },
                |s, o| {
                    o.nontrivial = s.qos2_in > 0 && (s.dup_in > 0 || s.unseen_in > 0);
                    tags(s, o);
                },
            )],
        },
        Property {
            id: "C15",
            rule: "a retained message was delivered to a new subscription, and one was replaced or cleared; mixed: a retained message was delivered",
            assumptions: &[],
            parts: vec![world_part(
                "histories",
                70_000,
                1_000_000,
                Prof { retain: 70, empty: 20, sub: 9, unsub: 3, opts: 40, will: 10, ..BASE },
                |s, o| {
                    o.nontrivial = s.retained > 0 && s.retained_cleared > 0;
                    tags(s, o);
                },
            ), mixed(20_000, 300_000, |s, o| {
                o.nontrivial = s.retained > 0;
                tags(s, o);
            })],
        },
        Property {
            id: "C16",
            rule: "a will was published, or cancelled by a normal disconnect or a reconnect in time",
            assumptions: &[],
            parts: worlds(60_000,
                1_000_000,
                Prof { will: 75, connect: 9, close: 9, advance: 6, publish: 5, persistent: 65, clean: 25, sub: 5, cap_expiry: 10, ..BASE },
                |s, o| {
                    o.nontrivial = s.wills > 0 || s.cancelled_wills > 0;
                    tags(s, o);
                },
            ),
        },
        Property {
            id: "C17",
            rule: "a session was resumed, taken over or expired",
            assumptions: &[],
            parts: worlds(60_000,
                1_000_000,
                Prof { connect: 10, close: 8, advance: 4, publish: 9, persistent: 70, clean: 30, cap_expiry: 20, sub: 5, ..BASE },
                |s, o| {
                    o.nontrivial = s.resumed + s.takeover + s.expired > 0;
                    tags(s, o);
                },
            ),
        },
        Property {
            id: "C18",
            rule: "a message was published to a shared subscription with several members",
            assumptions: &[],
            parts: worlds(60_000,
                1_000_000,
                Prof { shared: 55, empty: 0, v5: 80, clients: (3, 5), connect: 5, close: 3, persistent: 55, sub: 9, unsub: 4, publish: 20, wide_topics: 0, will: 10, ..BASE },
                |s, o| {
                    o.nontrivial = s.shared_many > 0;
                    o.tag_if(s.shared_groups > 0, "several-groups");
                    o.tag_if(s.shared_hash > 0, "hash-mode-decided");
                    tags(s, o);
                },
            ),
        },
        Property {
            id: "C19",
            rule: "No Local, subscription identifiers, Retain As Published or Retain Handling mattered",
            assumptions: &[],
            parts: worlds(70_000,
                1_000_000,
                Prof { v5: 85, opts: 70, sub: 8, unsub: 3, retain: 35, low_qos: 20, ..BASE },
                |s, o| {
                    o.nontrivial = s.no_local + s.sub_ids + s.rap + s.rh > 0;
                    tags(s, o);
                },
            ),
        },
        Property {
            id: "C20",
            rule: "a topic alias replaced the topic name in either direction",
            assumptions: &[],
            parts: worlds(60_000,
                1_000_000,
                Prof { v5: 90, alias: 75, connect: 5, persistent: 70, clean: 20, burst: 3, retain: 15, publish: 18, ..BASE },
                |s, o| {
                    o.nontrivial = s.alias_in + s.alias_out > 0;
                    tags(s, o);
                },
            ),
        },
        Property {
            id: "C21",
            rule: "a message exceeded the receiver's Maximum Packet Size or waited for its Receive Maximum; limits: a client exceeded a limit of the broker or was at the limit",
            assumptions: &[],
            parts: vec![world_part(
                "histories",
                60_000,
                1_000_000,
                Prof { v5: 85, max_packet: 60, recv_max: 60, hold: 4, big: 40, alias: 25, connect: 6, persistent: 70, clean: 20, retain: 20, ..BASE },
                |s, o| {
                    o.nontrivial = s.too_large + s.window_full > 0;
                    tags(s, o);
                },
            ), mixed(20_000, 300_000, |s, o| {
                o.nontrivial = s.too_large + s.window_full > 0;
                tags(s, o);
            }),
            part("limits", 100_000, 1_500_000, |_| limits::case(false), limits::run),
            ],
        },
        Property {
            id: "C22",
            rule: "an attempt to connect was refused and left no trace, after or before others that were let in, or one that was challenged",
            assumptions: &[],
            parts: vec![part("attempts", 100_000, 1_500_000, |_| gate::case(), gate::run)],
        },
        Property {
            id: "C23",
            rule: "a connection broke the protocol, or sent mutated or random bytes",
            assumptions: &[],
            parts: vec![part("bystanders", 80_000, 1_200_000, |_| hostile::case(), hostile::run)],
        },
        Property {
            id: "C24",
            rule: "a hook refused or changed a request, failed, or an action was applied",
            assumptions: &[],
            parts: vec![
                part("verdicts", 60_000, 1_000_000, |_| hooks::case(), hooks::run),
                part("refusals", 100_000, 1_500_000, |_| refused::case(), refused::run),
            ],
        },
        Property {
            id: "C27",
            rule: "a client was disconnected for its silence or was silent for almost as long as it may",
            assumptions: &[],
            parts: vec![part("silence", 300_000, 1_500_000, |_| alive::case(), alive::run)],
        },
        Property {
            id: "C28",
            rule: "the broker refused something for its configuration, something was at a limit, or an interval was changed or an identifier assigned",
            assumptions: &[],
            parts: vec![part("features", 200_000, 3_000_000, |_| limits::case(true), limits::run)],
        },
        Property {
            id: "C26",
            rule: "a connection was refused or died before it was of use, or several connections of a client were made at once",
            assumptions: &[],
            parts: vec![
                part("accounts", 60_000, 1_000_000, |_| accounts::case(), accounts::run),
                part("storm", 4_000, 100_000, |_| accounts::storm(), accounts::run_storm),
            ],
        },
        Property {
            id: "C29",
            rule: "a message expired before its delivery, was delivered within 3 s of its expiry, or was sent again after it or by the timeout",
            assumptions: &[],
            parts: vec![part("lifetimes", 100_000, 1_500_000, |_| expiry::case(), expiry::run)],
        },
        Property {
            id: "C30",
            rule: "the broker stopped reading from a client that does not read, or messages were published to clients that do not",
            assumptions: &[],
            parts: vec![part("pressure", 6_000, 100_000, |_| pressure::case(), pressure::run)],
        },
        Property {
            id: "C31",
            rule: "messages were delivered or sessions kept in every round",
            assumptions: &[],
            parts: vec![part("rounds", 6_000, 100_000, |_| leak::case(), leak::run)],
        },
        Property {
            id: "C25",
            rule: "histories and flow: a message was delivered over a connection with a PROXY header, TLS or WebSocket; the others: see the part",
            assumptions: &[],
            parts: vec![
                world_part(
                    "histories",
                    12_000,
                    200_000,
                    Prof { via: true, hold: 1, connect: 5, will: 20, ..BASE },
                    |s, o| {
                        o.nontrivial = s.delivered > 0;
                        tags(s, o);
                    },
                ),
                part("flow", 8_000, 120_000, |t| flow::case(depth(t), false, true), flow::run),
                part("accept", 20_000, 300_000, |_| doors::case(), doors::run),
                part("listeners", 400, 6_000, |_| listen::case(), listen::run),
            ],
        },
    ]
}
