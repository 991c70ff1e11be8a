//! C03: the queue of unacknowledged outgoing messages of a session.
use std::collections::VecDeque;
use std::time::{SystemTime, UNIX_EPOCH};

use akasa_core::mqtt_proto::{Pid, QoS};
use akasa_core::protocols::mqtt::{PendingPacketStatus, PendingPackets};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::ensure;
use crate::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Push,
    Pubrec { nth: u8 },
    Complete { nth: u8, qos2: bool },
    Clean,
    /// walk the ready packets and send them (stamp them now, or as long ago)
    Send { from: u8, max: u8, long_ago: bool },
    /// look at the ready packets only
    Peek { from: u8 },
    SetInflight { n: u16 },
    Reset,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    inflight: u16,
    max: usize,
    timeout: u64,
    first_pid: u16,
    ops: Vec<Op>,
}

fn cases(tier: Tier) -> BoxedStrategy<Case> {
    let max = if tier == Tier::Quick { 60 } else { 200 };
    let op = prop_oneof![
        8 => Just(Op::Push),
        4 => (0u8..12).prop_map(|nth| Op::Pubrec { nth }),
        6 => (0u8..12, any::<bool>()).prop_map(|(nth, qos2)| Op::Complete { nth, qos2 }),
        5 => Just(Op::Clean),
        4 => (prop_oneof![4 => Just(0u8), 1 => 0u8..6], 1u8..8, prop::bool::weighted(0.3))
            .prop_map(|(from, max, long_ago)| Op::Send { from, max, long_ago }),
        3 => (0u8..8).prop_map(|from| Op::Peek { from }),
        1 => prop_oneof![3 => 1u16..8, 1 => Just(u16::MAX), 1 => Just(0u16)].prop_map(|n| Op::SetInflight { n }),
        1 => Just(Op::Reset),
    ];
    (
        prop_oneof![5 => 1u16..6, 1 => 6u16..40, 1 => Just(u16::MAX)],
        prop_oneof![3 => 1usize..6, 3 => 6usize..40, 1 => Just(0usize)],
        prop_oneof![2 => Just(0u64), 4 => Just(3600u64), 1 => Just(100_000u64)],
        prop_oneof![3 => Just(1u16), 1 => Just(65530u16)],
        prop::collection::vec(op, 1..max),
    )
        .prop_map(|(inflight, max, timeout, first_pid, ops)| Case { inflight, max, timeout, first_pid, ops })
        .boxed()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sent {
    Never,
    Now,
    LongAgo,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    New(Sent, bool),
    Rec(Sent),
    Done,
}

fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
}

fn eval(case: &Case) -> CaseResult {
    let mut q: PendingPackets<u32> = PendingPackets::new(case.inflight, case.max, case.timeout);
    // (pid, packet, state)
    let mut m: VecDeque<(u16, u32, St)> = VecDeque::new();
    let mut inflight = case.inflight as usize;
    let mut pid = case.first_pid;
    let mut serial = 0u32;
    let mut out = Outcome::default();
    let (mut acked, mut sent_n) = (0, 0);
    let start = now();
    let ready = |s: Sent| match s {
        Sent::Never | Sent::LongAgo => true,
        Sent::Now => case.timeout == 0,
    };
    let is_ready = |st: &St| match st {
        St::New(s, _) | St::Rec(s) => ready(*s),
        St::Done => false,
    };
    // pid of the nth queued packet, or one that is not queued
    let pick = |m: &VecDeque<(u16, u32, St)>, nth: u8| {
        m.get(nth as usize).map(|e| e.0).unwrap_or(30_000 + nth as u16)
    };
    for (step, op) in case.ops.iter().enumerate() {
        let window = inflight.min(m.len());
        match op {
            Op::Push => {
                let p = pid;
                pid = if pid == u16::MAX { 1 } else { pid + 1 };
                serial += 1;
                let full = q.push_back(Pid::try_from(p).unwrap(), serial);
                let want = m.len() >= case.max;
                ensure!(full == want, "push", "step {step}: push reported full={full} with {} of {} packets queued", m.len(), case.max);
                out.tag_if(full, "queue-full");
                if !want {
                    m.push_back((p, serial, St::New(Sent::Never, false)));
                }
            }
            Op::Pubrec { nth } => {
                let p = pick(&m, *nth);
                let found = q.pubrec(Pid::try_from(p).unwrap());
                let hit = m.iter_mut().take(window).find(|e| e.0 == p && matches!(e.2, St::New(..)));
                let mut want = hit.is_some();
                if let Some(e) = hit {
                    e.2 = St::Rec(Sent::Now);
                    acked += 1;
                } else {
                    // a PUBREC that comes again changes nothing
                    want = m.iter().take(window).any(|e| e.0 == p && matches!(e.2, St::Rec(_)));
                    out.tag_if(want, "pubrec-again");
                }
                out.tag_if(want, "pubrec");
                ensure!(found == want, "pubrec", "step {step}: PUBREC of {p} found={found}, expected {want}; queue {m:?} window {window}");
            }
            Op::Complete { nth, qos2 } => {
                let p = pick(&m, *nth);
                let found = q.complete(Pid::try_from(p).unwrap(), if *qos2 { QoS::Level2 } else { QoS::Level1 });
                let hit = m.iter_mut().take(window).find(|e| {
                    e.0 == p && if *qos2 { matches!(e.2, St::Rec(_)) } else { matches!(e.2, St::New(..)) }
                });
                let want = hit.is_some();
                if let Some(e) = hit {
                    e.2 = St::Done;
                    acked += 1;
                }
                out.tag_if(want, "complete");
                ensure!(found == want, "complete", "step {step}: acknowledgement of {p} (qos2={qos2}) found={found}, expected {want}; queue {m:?} window {window}");
            }
            Op::Clean => {
                q.clean_complete();
                while matches!(m.front(), Some((_, _, St::Done))) {
                    m.pop_front();
                    out.tag("cleaned");
                }
            }
            Op::Send { from, max, long_ago } => {
                let mut idx = *from as usize;
                for _ in 0..*max {
                    let want = (idx..window).find(|i| is_ready(&m[*i].2));
                    let got = q.get_ready_packet(idx);
                    ensure!(
                        got.as_ref().map(|g| g.0) == want,
                        "ready",
                        "step {step}: next packet to send from {idx} is {:?}, expected {want:?}; queue {m:?} window {window}",
                        got.map(|g| g.0)
                    );
                    let Some((i, status)) = got else { break };
                    sent_n += 1;
                    same(status, &m[i], step, start)?;
                    let stamp = if *long_ago { now().saturating_sub(case.timeout + 1000) } else { now() };
                    let s = if *long_ago { Sent::LongAgo } else { Sent::Now };
                    match status {
                        PendingPacketStatus::New { last_sent, dup, .. } => {
                            *last_sent = stamp;
                            *dup = true;
                            m[i].2 = St::New(s, true);
                        }
                        PendingPacketStatus::Pubrec { last_sent, .. } => {
                            *last_sent = stamp;
                            m[i].2 = St::Rec(s);
                        }
                        PendingPacketStatus::Complete => {}
                    }
                    idx = i + 1;
                }
            }
            Op::Peek { from } => {
                let mut idx = *from as usize;
                loop {
                    let want = (idx..window).find(|i| is_ready(&m[*i].2));
                    let got = q.get_ready_packet(idx);
                    ensure!(
                        got.as_ref().map(|g| g.0) == want,
                        "ready",
                        "step {step}: next packet to send from {idx} is {:?}, expected {want:?}; queue {m:?} window {window}",
                        got.map(|g| g.0)
                    );
                    let Some((i, status)) = got else { break };
                    same(status, &m[i], step, start)?;
                    idx = i + 1;
                }
            }
            Op::SetInflight { n } => {
                q.set_max_inflight(*n);
                inflight = *n as usize;
            }
            Op::Reset => {
                q.reset_last_sent();
                for e in m.iter_mut() {
                    match &mut e.2 {
                        St::New(s, _) | St::Rec(s) => *s = Sent::Never,
                        St::Done => {}
                    }
                }
            }
        }
        ensure!(q.len() == m.len() && q.is_empty() == m.is_empty(), "len", "step {step} {op:?}: {} packets queued (empty={}), expected {}", q.len(), q.is_empty(), m.len());
    }
    out.tag_if(acked > 0 && sent_n > 0, "acked-after-send");
    out.nontrivial = acked >= 1 && sent_n >= 1;
    Ok(out)
}

fn same(s: &PendingPacketStatus<u32>, e: &(u16, u32, St), step: usize, start: u64) -> Result<(), Failure> {
    let ok = match (s, e.2) {
        (PendingPacketStatus::New { pid, packet, dup, added_at, .. }, St::New(_, d)) => {
            pid.value() == e.0 && *packet == e.1 && *dup == d && *added_at >= start && *added_at <= now()
        }
        (PendingPacketStatus::Pubrec { pid, .. }, St::Rec(_)) => pid.value() == e.0,
        _ => false,
    };
    let shown = match s {
        PendingPacketStatus::New { pid, packet, dup, .. } => format!("New pid {} packet {packet} dup {dup}", pid.value()),
        PendingPacketStatus::Pubrec { pid, .. } => format!("Pubrec pid {}", pid.value()),
        PendingPacketStatus::Complete => "Complete".into(),
    };
    ensure!(ok, "packet", "step {step}: the packet to send is {shown}, expected {e:?}");
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C03",
        rule: "random push/acknowledge/clean/send/reset histories on the queue against a list model, for windows 0..65535, capacities 0..40, timeouts 0 and hours; non-trivial = at least one packet sent and one acknowledged",
        assumptions: &["packet identifiers of queued packets are distinct (at most 65535 are queued)", "the wall clock does not jump by an hour during a run"],
        parts: vec![part("history", 800_000, 20_000_000, cases, eval)],
    }
}
