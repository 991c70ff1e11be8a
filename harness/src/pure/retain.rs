//! C02: the retained-message table.
use std::collections::BTreeMap;
use std::sync::Arc;

use akasa_core::mqtt_proto::v5::PublishProperties;
use akasa_core::mqtt_proto::{QoS, TopicName};
use akasa_core::protocols::mqtt::{RetainContent, RetainTable};
use bytes::Bytes;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::gen_topic::{filter, matches, topic_name};
use crate::ensure;
use crate::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert { t: usize, q: u8, client: u8, v5: bool, size: usize },
    Remove { t: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    topics: Vec<String>,
    filters: Vec<String>,
    ops: Vec<Op>,
}

fn cases(tier: Tier) -> BoxedStrategy<Case> {
    let max = if tier == Tier::Quick { 40 } else { 100 };
    (1usize..8)
        .prop_flat_map(move |nt| {
            let op = prop_oneof![
                3 => (0..nt, 0u8..3, 0u8..3, any::<bool>(), 0usize..20)
                    .prop_map(|(t, q, client, v5, size)| Op::Insert { t, q, client, v5, size }),
                2 => (0..nt).prop_map(|t| Op::Remove { t }),
            ];
            (
                prop::collection::vec(topic_name(), nt),
                prop::collection::vec(filter(), 1..6),
                prop::collection::vec(op, 1..max),
                // turn some topics into relatives of others: parents, children, siblings
                prop::collection::vec((0..nt, 0..nt, 0u8..4), 0..5),
            )
        })
        .prop_map(|(mut topics, mut filters, ops, rel)| {
            for (a, b, how) in rel {
                let t = topics[b].clone();
                topics[a] = match how {
                    0 => format!("{t}/a"),
                    1 => match t.rsplit_once('/') {
                        Some((p, _)) if !p.is_empty() => p.to_owned(),
                        _ => t,
                    },
                    2 => format!("{t}/"),
                    _ => format!("/{t}"),
                };
            }
            // filters derived from the topics, so that matches are common
            for t in topics.iter().take(4) {
                let l: Vec<&str> = t.split('/').collect();
                let mut one = l.clone();
                let k = t.len() % l.len();
                one[k] = "+";
                filters.push(one.join("/"));
                filters.push(format!("{}/#", l[..=k].join("/")));
                filters.push(format!("{}/#", one.join("/")));
                filters.push(t.clone());
            }
            filters.push("#".into());
            filters.push("+".into());
            filters.push("+/+".into());
            filters.push("+/#".into());
            filters.push("$SYS/#".into());
            filters.sort();
            filters.dedup();
            Case { topics, filters, ops }
        })
        .boxed()
}

fn eval(case: &Case) -> CaseResult {
    let table = RetainTable::default();
    let mut model: BTreeMap<String, Arc<RetainContent>> = BTreeMap::new();
    let mut out = Outcome::default();
    let mut hits = 0;
    for (step, op) in case.ops.iter().enumerate() {
        match op {
            Op::Insert { t, q, client, v5, size } => {
                let topic = &case.topics[*t];
                let content = Arc::new(RetainContent::new(
                    format!("client{client}").as_str().into(),
                    [QoS::Level0, QoS::Level1, QoS::Level2][*q as usize],
                    TopicName::try_from(topic.as_str()).unwrap(),
                    Bytes::from(vec![step as u8; *size + 1]),
                    v5.then(|| PublishProperties {
                        message_expiry_interval: Some(step as u32 + 100),
                        ..Default::default()
                    }),
                    step,
                ));
                let old = table.insert(Arc::clone(&content));
                let want = model.insert(topic.clone(), content);
                out.tag_if(want.is_some(), "replace");
                ensure!(old == want, "insert-old", "step {step}: storing on {topic:?} returned {old:?}, expected {want:?}");
            }
            Op::Remove { t } => {
                let topic = &case.topics[*t];
                let old = table.remove(topic);
                let want = model.remove(topic);
                out.tag_if(want.is_some(), "remove-hit");
                ensure!(old == want, "remove-old", "step {step}: clearing {topic:?} returned {old:?}, expected {want:?}");
            }
        }
        let last = step + 1 == case.ops.len();
        for (i, f) in case.filters.iter().enumerate() {
            if !last && (i + step) % 4 != 0 {
                continue;
            }
            let mut got = BTreeMap::new();
            for c in table.get_matches(f) {
                let t = c.topic_name.to_string();
                ensure!(got.insert(t.clone(), c).is_none(), "duplicate", "step {step}: filter {f:?} returned {t:?} twice");
            }
            let want: BTreeMap<String, Arc<RetainContent>> =
                model.iter().filter(|(t, _)| matches(f, t)).map(|(t, c)| (t.clone(), Arc::clone(c))).collect();
            hits += want.len();
            ensure!(
                got == want,
                "wrong-match",
                "step {step}: filter {f:?} returned {:?}, expected {:?} (stored: {:?})",
                got.iter().map(|(t, c)| (t, c.payload.first())).collect::<Vec<_>>(),
                want.iter().map(|(t, c)| (t, c.payload.first())).collect::<Vec<_>>(),
                model.keys().collect::<Vec<_>>()
            );
        }
    }
    out.nontrivial = hits >= 3 && case.ops.len() >= 3;
    Ok(out)
}

pub fn property() -> Property {
    Property {
        id: "C02",
        rule: "random store/replace/clear histories over related topics (parents, children, empty levels, $-topics), every filter of a derived set compared with a map plus naive matcher; non-trivial = at least 3 operations and 3 returned messages",
        assumptions: &["topic names and filters are valid (checked by the packet decoder)"],
        parts: vec![part("history", 250_000, 4_000_000, cases, eval)],
    }
}
