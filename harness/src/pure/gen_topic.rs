//! Topic names / filters: generators and the reference matcher (MQTT 4.7).
use proptest::prelude::*;

/// Reference matcher, straight from MQTT v3.1.1/v5.0 section 4.7.
pub fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('+') || filter.starts_with('#')) {
        return false;
    }
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    let mut i = 0;
    loop {
        if i < f.len() && f[i] == "#" {
            // also the parent level: `a/#` matches `a`
            return true;
        }
        if i == f.len() || i == t.len() {
            // `a/#` against `a`
            return i == t.len() && (i == f.len() || (i + 1 == f.len() && f[i] == "#"));
        }
        if f[i] != "+" && f[i] != t[i] {
            return false;
        }
        i += 1;
    }
}

fn level() -> BoxedStrategy<String> {
    prop_oneof![
        6 => Just("a".to_string()),
        5 => Just("b".to_string()),
        2 => Just("ab".to_string()),
        2 => Just(String::new()),
        1 => Just("A".to_string()),
        1 => Just("$s".to_string()),
        1 => Just("é".to_string()),
        1 => Just("a b".to_string()),
        1 => Just("$".to_string()),
    ]
    .boxed()
}

fn join(v: Vec<String>) -> String {
    v.join("/")
}

/// A valid topic name (possibly with a leading `$`), not empty.
pub fn topic_name() -> BoxedStrategy<String> {
    prop_oneof![
        12 => prop::collection::vec(level(), 1..5),
        2 => (Just("$SYS".to_string()), prop::collection::vec(level(), 0..3)).prop_map(|(h, mut t)| { t.insert(0, h); t }),
        1 => prop::collection::vec(level(), 5..12),
    ]
    .prop_map(join)
    .prop_map(|s| if s.is_empty() { "/".to_string() } else { s })
    .boxed()
}

/// A topic a client may publish to (does not begin with `$`).
pub fn publish_topic() -> BoxedStrategy<String> {
    topic_name()
        .prop_map(|s| {
            let t = s.trim_start_matches('$').to_string();
            if t.is_empty() { "a".to_string() } else { t }
        })
        .boxed()
}

/// A valid, not shared topic filter.
pub fn filter() -> BoxedStrategy<String> {
    let lv = prop_oneof![5 => level(), 3 => Just("+".to_string())];
    let head = prop_oneof![8 => Just(None), 1 => Just(Some("$SYS".to_string()))];
    (head, prop::collection::vec(lv, 0..5), prop::bool::weighted(0.3))
        .prop_map(|(head, mut v, all)| {
            if let Some(h) = head {
                v.insert(0, h);
            }
            if all || v.is_empty() {
                v.push("#".to_string());
            }
            let s = join(v);
            if s.is_empty() { "/".to_string() } else { s }
        })
        .boxed()
}

pub fn group() -> BoxedStrategy<String> {
    prop_oneof![Just("g".to_string()), Just("h".to_string()), Just("share".to_string())].boxed()
}
