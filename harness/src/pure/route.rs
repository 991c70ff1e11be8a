//! C01: the route table.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};

use akasa_core::mqtt_proto::{Protocol, QoS, TopicFilter, TopicName};
use akasa_core::protocols::mqtt::RouteTable;
use akasa_core::verif::{AddClientReceipt, ClientId};
use akasa_core::{Config, GlobalState};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::gen_topic::{filter, group, matches, topic_name};
use crate::ensure;
use crate::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Sub { c: usize, f: usize, g: Option<String>, q: u8 },
    Unsub { c: usize, f: usize, g: Option<String> },
    /// the client goes away with all its subscriptions
    Remove { c: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    filters: Vec<String>,
    topics: Vec<String>,
    ops: Vec<Op>,
}

const CLIENTS: usize = 6;

fn op(nf: usize) -> BoxedStrategy<Op> {
    let grp = prop_oneof![3 => Just(None), 3 => group().prop_map(Some)];
    prop_oneof![
        6 => (0..CLIENTS, 0..nf, grp.clone(), 0u8..3).prop_map(|(c, f, g, q)| Op::Sub { c, f, g, q }),
        5 => (0..CLIENTS, 0..nf, grp).prop_map(|(c, f, g)| Op::Unsub { c, f, g }),
        1 => (0..CLIENTS).prop_map(|c| Op::Remove { c }),
    ]
    .boxed()
}

fn cases(tier: Tier) -> BoxedStrategy<Case> {
    let max = if tier == Tier::Quick { 50 } else { 120 };
    (1usize..7)
        .prop_flat_map(move |nf| {
            (
                prop::collection::vec(filter(), nf),
                prop::collection::vec(topic_name(), 1..6),
                prop::collection::vec(op(nf), 1..max),
            )
        })
        .prop_map(|(filters, topics, ops)| Case { filters, topics, ops })
        .boxed()
}

fn qos(q: u8) -> QoS {
    [QoS::Level0, QoS::Level1, QoS::Level2][q as usize]
}

pub fn full(f: &str, g: &Option<String>) -> String {
    match g {
        Some(g) => format!("$share/{g}/{f}"),
        None => f.to_owned(),
    }
}

/// Replay the model: (filter, group) -> client -> qos
type Model = BTreeMap<(String, Option<String>), BTreeMap<usize, u8>>;

/// Topic names derived from the filters, so that matches are common.
fn derived(filters: &[String]) -> Vec<String> {
    let mut out = Vec::new();
    for f in filters {
        for (one, all) in [("a", "a/b"), ("b", ""), ("", "x"), ("zz", "a")] {
            let mut t: Vec<&str> = f.split('/').map(|l| if l == "+" { one } else { l }).collect();
            if t.last() == Some(&"#") {
                t.pop();
                let parent = t.join("/");
                if !parent.is_empty() {
                    out.push(parent);
                }
                t.push(all);
            }
            let s = t.join("/");
            if !s.is_empty() {
                out.push(s);
            }
        }
    }
    out.sort();
    out.dedup();
    out.truncate(24);
    out
}

fn check_topic(
    found: Vec<(String, BTreeMap<usize, u8>, BTreeMap<String, BTreeMap<usize, u8>>)>,
    model: &Model,
    topic: &str,
    step: usize,
) -> Result<usize, Failure> {
    let mut want: BTreeMap<String, (BTreeMap<usize, u8>, BTreeMap<String, BTreeMap<usize, u8>>)> =
        BTreeMap::new();
    for ((f, g), m) in model {
        if m.is_empty() || !matches(f, topic) {
            continue;
        }
        let e = want.entry(f.clone()).or_default();
        match g {
            None => e.0 = m.clone(),
            Some(g) => {
                e.1.insert(g.clone(), m.clone());
            }
        }
    }
    let n = found.len();
    let mut got = BTreeMap::new();
    for (f, c, g) in found {
        ensure!(
            got.insert(f.clone(), (c, g)).is_none(),
            "duplicate-match",
            "step {step}: topic {topic:?} returned the filter {f:?} twice"
        );
    }
    ensure!(
        got == want,
        "wrong-match",
        "step {step}: topic {topic:?} matched {got:?}, expected {want:?} (filter -> (clients, groups))"
    );
    Ok(n)
}

fn eval(case: &Case) -> CaseResult {
    let global = GlobalState::new(Config::default());
    let mut ids: Vec<ClientId> = Vec::new();
    for i in 0..CLIENTS {
        match futures_lite::future::block_on(global.add_client(&format!("c{i}"), Protocol::V500)) {
            Ok(AddClientReceipt::New { client_id, .. }) => ids.push(client_id),
            _ => return fail("add-client", "a first connection is not a new client"),
        }
    }
    let idx: BTreeMap<_, usize> = ids.iter().enumerate().map(|(i, id)| (*id, i)).collect();
    let table: &RouteTable = &global.route_table;
    let mut model: Model = BTreeMap::new();
    let mut out = Outcome::default();
    let mut topics = case.topics.clone();
    topics.extend(derived(&case.filters));
    let names: Vec<TopicName> = topics.iter().map(|t| TopicName::try_from(t.as_str()).unwrap()).collect();
    let mut matched = 0;
    for (step, op) in case.ops.iter().enumerate() {
        match op {
            Op::Sub { c, f, g, q } => {
                let f = &case.filters[*f];
                let tf = TopicFilter::try_from(full(f, g).as_str()).unwrap();
                table.subscribe(&tf, ids[*c], qos(*q));
                let old = model.entry((f.clone(), g.clone())).or_default().insert(*c, *q);
                out.tag_if(old.is_some(), "resubscribe");
                out.tag_if(g.is_some(), "shared");
            }
            Op::Unsub { c, f, g } => {
                let f = &case.filters[*f];
                let tf = TopicFilter::try_from(full(f, g).as_str()).unwrap();
                table.unsubscribe(&tf, ids[*c]);
                let old = model.entry((f.clone(), g.clone())).or_default().remove(c);
                out.tag_if(old.is_some(), "unsubscribe-hit");
                out.tag_if(old.is_some() && g.is_some(), "shared-leave");
            }
            Op::Remove { c } => {
                // what a session end does: all subscriptions of the client are withdrawn
                for ((f, g), m) in model.iter_mut() {
                    if m.remove(c).is_some() {
                        table.unsubscribe(&TopicFilter::try_from(full(f, g).as_str()).unwrap(), ids[*c]);
                        out.tag("remove-client");
                    }
                }
            }
        }
        let last = step + 1 == case.ops.len();
        for (t, name) in topics.iter().zip(&names) {
            // every topic at the end, a changing third of them in between
            if !last && (t.len() + step) % 3 != 0 {
                continue;
            }
            let mut found = Vec::new();
            for content in table.get_matches(name) {
                let content = content.read();
                let f = match &content.topic_filter {
                    Some(f) => f.to_string(),
                    None => return fail("no-filter", format!("step {step}: a match of {t:?} has no topic filter")),
                };
                let clients = content.clients.iter().map(|(id, q)| (idx[id], *q as u8)).collect();
                let mut groups = BTreeMap::new();
                for (name, shared) in content.groups.iter() {
                    // The size expected: picking by number must cycle through exactly the members.
                    // the filter string of a group created first carries the plain filter
                    let plain = f.clone();
                    let want = model.get(&(plain, Some(name.clone()))).cloned().unwrap_or_default();
                    let n = want.len().max(1) as u64;
                    let mut members = BTreeMap::new();
                    for i in 0..n {
                        let (id, q) = shared.get_by_number(i);
                        members.insert(idx[&id], q as u8);
                    }
                    for i in 0..3 * n + 2 {
                        let (id, q) = shared.get_by_number(i);
                        ensure!(
                            shared.get_by_number(i % n) == (id, q),
                            "shared-members",
                            "step {step}: group {name:?} of {f:?} does not cycle through its {n} members {want:?}"
                        );
                    }
                    for key in 0..4u64 {
                        let (id, q) = shared.get_by_hash(key);
                        ensure!(
                            want.get(&idx[&id]) == Some(&(q as u8)) && shared.get_by_hash(key) == (id, q),
                            "shared-hash",
                            "step {step}: group {name:?} of {f:?} picked client {} qos {q:?}, members {want:?}", idx[&id]
                        );
                    }
                    groups.insert(name.clone(), members);
                }
                found.push((f, clients, groups));
            }
            matched += check_topic(found, &model, t, step)?;
        }
    }
    out.tag_if(matched > 0, "matched");
    out.nontrivial = matched >= 3 && case.ops.len() >= 3;
    Ok(out)
}


// ---- concurrent use: operations of different clients commute

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conc {
    filters: Vec<String>,
    /// one operation list per thread; thread i only acts for client i
    ops: Vec<Vec<(bool, usize, Option<String>, u8)>>,
    topics: Vec<String>,
}

fn conc_cases(tier: Tier) -> BoxedStrategy<Conc> {
    let max = if tier == Tier::Quick { 60 } else { 200 };
    (1usize..5)
        .prop_flat_map(move |nf| {
            let g = prop_oneof![2 => Just(None), 2 => group().prop_map(Some)];
            let op = (prop::bool::weighted(0.6), 0..nf, g, 0u8..3);
            (
                prop::collection::vec(filter(), nf),
                prop::collection::vec(prop::collection::vec(op, 1..max), 2..5),
                prop::collection::vec(topic_name(), 1..4),
            )
        })
        .prop_map(|(filters, ops, topics)| Conc { filters, ops, topics })
        .boxed()
}

fn eval_conc(case: &Conc) -> CaseResult {
    let global = GlobalState::new(Config::default());
    let mut ids: Vec<ClientId> = Vec::new();
    for i in 0..=case.ops.len() {
        match futures_lite::future::block_on(global.add_client(&format!("c{i}"), Protocol::V500)) {
            Ok(AddClientReceipt::New { client_id, .. }) => ids.push(client_id),
            _ => return fail("add-client", "a first connection is not a new client"),
        }
    }
    let table: &RouteTable = &global.route_table;
    // a client which stays subscribed to everything that is not a `$` topic
    let stable = ids[case.ops.len()];
    let all = TopicFilter::try_from("#").unwrap();
    table.subscribe(&all, stable, QoS::Level1);
    let mut topics = case.topics.clone();
    topics.extend(derived(&case.filters));
    let names: Vec<TopicName> = topics.iter().map(|t| TopicName::try_from(t.as_str()).unwrap()).collect();
    let stop = AtomicBool::new(false);
    let mut models: Vec<Model> = Vec::new();
    let mut seen_missing = None;
    let mut panicked = None;
    std::thread::scope(|s| {
        let hs: Vec<_> = case
            .ops
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let (ids, filters) = (&ids, &case.filters);
                s.spawn(move || {
                    let mut model: Model = BTreeMap::new();
                    for (sub, f, g, q) in ops {
                        let f = &filters[*f];
                        let tf = TopicFilter::try_from(full(f, g).as_str()).unwrap();
                        if *sub {
                            table.subscribe(&tf, ids[i], qos(*q));
                            model.entry((f.clone(), g.clone())).or_default().insert(i, *q);
                        } else {
                            table.unsubscribe(&tf, ids[i]);
                            model.entry((f.clone(), g.clone())).or_default().remove(&i);
                        }
                    }
                    model
                })
            })
            .collect();
        let (stop, names) = (&stop, &names);
        let reader = s.spawn(move || {
            let mut missing = None;
            while !stop.load(Ordering::Relaxed) {
                for n in names {
                    if n.starts_with('$') {
                        continue;
                    }
                    let m = table.get_matches(n);
                    if !m.iter().any(|c| c.read().clients.contains_key(&stable)) {
                        missing = Some(n.to_string());
                    }
                }
            }
            missing
        });
        for h in hs {
            match h.join() {
                Ok(m) => models.push(m),
                Err(_) => panicked = Some("a thread using the route table panicked"),
            }
        }
        stop.store(true, Ordering::Relaxed);
        match reader.join() {
            Ok(m) => seen_missing = m,
            Err(_) => panicked = Some("a thread reading the route table panicked"),
        }
    });
    if let Some(p) = panicked {
        return fail("panic", p);
    }
    if let Some(t) = seen_missing {
        return fail("lost-subscriber", format!("a client subscribed to # all along was missing from the matches of {t:?}"));
    }
    let mut model: Model = BTreeMap::new();
    for m in models {
        for (k, v) in m {
            model.entry(k).or_default().extend(v);
        }
    }
    model.entry(("#".into(), None)).or_default().insert(case.ops.len(), 1);
    let idx: BTreeMap<ClientId, usize> = ids.iter().enumerate().map(|(i, id)| (*id, i)).collect();
    let mut matched = 0;
    for (t, name) in topics.iter().zip(&names) {
        let mut found = Vec::new();
        for content in table.get_matches(name) {
            let content = content.read();
            let f = content.topic_filter.as_ref().map(|f| f.to_string()).unwrap_or_default();
            let clients = content.clients.iter().map(|(id, q)| (idx[id], *q as u8)).collect();
            let mut groups = BTreeMap::new();
            for (name, shared) in content.groups.iter() {
                let n = model.get(&(f.clone(), Some(name.clone()))).map_or(1, |m| m.len().max(1)) as u64;
                let members = (0..n * 2 + 1).map(|i| shared.get_by_number(i)).map(|(id, q)| (idx[&id], q as u8)).collect();
                groups.insert(name.clone(), members);
            }
            found.push((f, clients, groups));
        }
        matched += check_topic(found, &model, t, usize::MAX)?;
    }
    let mut out = Outcome::default();
    out.nontrivial = matched >= 2 && case.ops.iter().map(Vec::len).sum::<usize>() > 4;
    Ok(out)
}

pub fn property() -> Property {
    Property {
        id: "C01",
        rule: "random subscribe/unsubscribe/client-removal histories over small filter sets (wildcards, empty levels, $-topics, shared groups), every topic compared with a naive matcher; non-trivial = at least 3 operations and at least 3 matched filters over the history (concurrent part: at least 5 operations and 2 matches)",
        assumptions: &["topic filters are valid (checked by the packet decoder before they get here)"],
        parts: vec![
            part("history", 100_000, 1_500_000, cases, eval),
            part("concurrent", 3_000, 60_000, conc_cases, eval_conc),
        ],
    }
}
