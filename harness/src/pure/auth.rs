//! C04: the password file.  C05: password verification.
use std::collections::BTreeMap;
use std::num::NonZeroU32;

use akasa_core::protocols::mqtt::check_password;
use akasa_core::{AuthPassword, HashAlgorithm, dump_passwords, hash_password, load_passwords};
use base64::Engine;
use base64::engine::general_purpose::STANDARD_NO_PAD;
use dashmap::DashMap;
use proptest::prelude::*;
use ring::digest::{SHA256, SHA512};
use serde::{Deserialize, Serialize};

use super::sha;
use crate::ensure;
use crate::runner::*;

/// (0 sha256, 1 sha512, 2 sha256-pbkdf2, 3 sha512-pbkdf2), iterations
type Algo = (u8, u32);

fn algo(a: Algo) -> HashAlgorithm {
    let iterations = NonZeroU32::new(a.1).unwrap();
    match a.0 {
        0 => HashAlgorithm::Sha256,
        1 => HashAlgorithm::Sha512,
        2 => HashAlgorithm::Sha256Pkbdf2 { iterations },
        _ => HashAlgorithm::Sha512Pkbdf2 { iterations },
    }
}

fn reference(a: Algo, salt: &[u8], password: &[u8]) -> Vec<u8> {
    match a.0 {
        0 => sha::hash(&SHA256, &[password, salt]),
        1 => sha::hash(&SHA512, &[password, salt]),
        2 => sha::pbkdf2(&SHA256, password, salt, a.1),
        _ => sha::pbkdf2(&SHA512, password, salt, a.1),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Entry {
    user: String,
    algo: Algo,
    salt: Vec<u8>,
    hash: Vec<u8>,
}

/// Names which the file format can carry: no line break, no white space in front.
fn username() -> BoxedStrategy<String> {
    prop_oneof![
        5 => "[a-z]{1,3}",
        2 => "[!-~]{1,12}",
        1 => "[a-z:,=$]{1,8}",
        1 => "[a-z] [a-z ]{0,3}",
        1 => "\\PC{1,8}",
    ]
    .prop_map(|s: String| {
        let t = s.trim_start().replace(['\n', '\r'], "_");
        if t.is_empty() { "u".to_string() } else { t }
    })
    .boxed()
}

/// ... and names it may refuse, but not change
fn any_username() -> BoxedStrategy<String> {
    prop_oneof![
        1 => username().prop_map(|u| format!(" {u}")),
        1 => (username(), username()).prop_map(|(a, b)| format!("{a}\n{b}")),
        1 => (username(), username()).prop_map(|(a, b)| format!("{a}:sha256,AAAAAAAAAAAAAAAA,AA\n{b}")),
        1 => prop::sample::select(vec!["\n", "\tx", "\u{a0}y", " ", "\r"]).prop_map(String::from),
    ]
    .boxed()
}

fn iterations() -> BoxedStrategy<u32> {
    prop_oneof![6 => 1u32..20, 1 => Just(4096u32), 1 => any::<u32>().prop_map(|n| n.max(1))].boxed()
}

fn entry() -> BoxedStrategy<Entry> {
    (
        username(),
        (0u8..4, iterations()),
        prop::collection::vec(any::<u8>(), 12..40),
        prop::collection::vec(any::<u8>(), 0..70),
    )
        .prop_map(|(user, algo, salt, hash)| Entry { user, algo, salt, hash })
        .boxed()
}

fn any_entry() -> BoxedStrategy<Entry> {
    (entry(), prop_oneof![20 => Just(None), 1 => any_username().prop_map(Some)])
        .prop_map(|(e, user)| Entry { user: user.unwrap_or(e.user), ..e })
        .boxed()
}

type Plain = BTreeMap<String, (u8, Option<u32>, Vec<u8>, Vec<u8>)>;

fn plain(map: &DashMap<String, AuthPassword>) -> Plain {
    map.iter()
        .map(|p| {
            let v = p.value();
            let (a, n) = match v.hash_algorithm {
                HashAlgorithm::Sha256 => (0, None),
                HashAlgorithm::Sha512 => (1, None),
                HashAlgorithm::Sha256Pkbdf2 { iterations } => (2, Some(iterations.get())),
                HashAlgorithm::Sha512Pkbdf2 { iterations } => (3, Some(iterations.get())),
            };
            (p.key().clone(), (a, n, v.salt.clone(), v.hashed_password.clone()))
        })
        .collect()
}

fn want(entries: &[Entry]) -> Plain {
    entries
        .iter()
        .map(|e| {
            let n = (e.algo.0 >= 2).then_some(e.algo.1);
            (e.user.clone(), (e.algo.0, n, e.salt.clone(), e.hash.clone()))
        })
        .collect()
}

fn line(e: &Entry) -> String {
    let salt = STANDARD_NO_PAD.encode(&e.salt);
    let hash = STANDARD_NO_PAD.encode(&e.hash);
    match e.algo.0 {
        0 => format!("{}:sha256,{salt},{hash}", e.user),
        1 => format!("{}:sha512,{salt},{hash}", e.user),
        2 => format!("{}:sha256-pkbdf2,{},{salt},{hash}", e.user, e.algo.1),
        _ => format!("{}:sha512-pkbdf2,{},{salt},{hash}", e.user, e.algo.1),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    entries: Vec<Entry>,
}

fn eval_roundtrip(case: &FileCase) -> CaseResult {
    let map = DashMap::new();
    for e in &case.entries {
        map.insert(
            e.user.clone(),
            AuthPassword { hash_algorithm: algo(e.algo), hashed_password: e.hash.clone(), salt: e.salt.clone() },
        );
    }
    let mut text = Vec::new();
    let odd = |u: &str| u.contains('\n') || u.trim_start() != u;
    if let Err(e) = dump_passwords(&mut text, &map) {
        if case.entries.iter().any(|e| odd(&e.user)) {
            return Ok(Outcome { nontrivial: true, tags: vec!["refused"], ..Default::default() });
        }
        return fail("dump", format!("writing the password file failed: {e}"));
    }
    let want = want(&case.entries);
    let lines = text.iter().filter(|b| **b == b'\n').count();
    ensure!(
        lines == want.len() && (text.is_empty() || text.ends_with(b"\n")),
        "dump-lines",
        "{} users were written as {lines} lines: {:?}",
        want.len(),
        String::from_utf8_lossy(&text)
    );
    let loaded = match load_passwords(&text[..]) {
        Ok(m) => m,
        Err(e) => return fail("reload", format!("a written password file is rejected: {e}: {:?}", String::from_utf8_lossy(&text))),
    };
    let got = plain(&loaded);
    ensure!(got == want, "roundtrip", "write + read gives {got:?}, expected {want:?}");
    // a user database never loses anybody when it is written again
    let mut again = Vec::new();
    dump_passwords(&mut again, &loaded).map_err(|e| Failure { sig: "dump".into(), msg: e.to_string() })?;
    let mut l1: Vec<&[u8]> = text.split(|b| *b == b'\n').collect();
    let mut l2: Vec<&[u8]> = again.split(|b| *b == b'\n').collect();
    l1.sort();
    l2.sort();
    ensure!(l1 == l2, "stable", "writing a read file changes it");
    let mut out = Outcome { nontrivial: want.len() >= 2, ..Default::default() };
    out.tag_if(case.entries.iter().any(|e| e.user.contains(':')), "colon-in-name");
    out.tag_if(case.entries.iter().any(|e| e.algo.0 >= 2), "pbkdf2");
    Ok(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    NoColon,
    Algo(String),
    ZeroIterations,
    Iterations(String),
    ShortSalt(usize),
    SaltAlphabet,
    HashAlphabet,
    MissingField,
    ExtraField,
    NoSalt,
    NotUtf8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TextCase {
    entries: Vec<Entry>,
    /// per line: (blank lines in front, CRLF, spaces in front, spaces behind)
    layout: Vec<(u8, bool, u8, u8)>,
    last_newline: bool,
    bad: Option<(Bad, usize, Entry)>,
}

fn bad() -> BoxedStrategy<Bad> {
    prop_oneof![
        Just(Bad::NoColon),
        prop_oneof![Just("sha1".to_string()), Just("SHA256".to_string()), Just("".to_string()), Just("sha256-pbkdf2".to_string()), Just("sha384".to_string()), Just("sha256 ".to_string()), "[a-z0-9]{1,6}".prop_map(|s| format!("x{s}"))].prop_map(Bad::Algo),
        Just(Bad::ZeroIterations),
        prop_oneof![Just("".to_string()), Just("-1".to_string()), Just("abc".to_string()), Just("4294967296".to_string()), Just("1.5".to_string()), Just("0x10".to_string()), Just(" 5".to_string())].prop_map(Bad::Iterations),
        (0usize..12).prop_map(Bad::ShortSalt),
        Just(Bad::SaltAlphabet),
        Just(Bad::HashAlphabet),
        Just(Bad::MissingField),
        Just(Bad::ExtraField),
        Just(Bad::NoSalt),
        Just(Bad::NotUtf8),
    ]
    .boxed()
}

fn bad_line(b: &Bad, e: &Entry) -> Vec<u8> {
    let salt = STANDARD_NO_PAD.encode(&e.salt);
    let hash = STANDARD_NO_PAD.encode(&e.hash);
    let name = "bad";
    let kdf = if e.algo.0 % 2 == 0 { "sha256-pkbdf2" } else { "sha512-pkbdf2" };
    let plain = if e.algo.0 % 2 == 0 { "sha256" } else { "sha512" };
    let two = e.algo.0 >= 2;
    let prefix = if two { format!("{kdf},{},", e.algo.1) } else { format!("{plain},") };
    match b {
        Bad::NoColon => format!("{name} {prefix}{salt},{hash}"),
        Bad::Algo(a) => {
            if two {
                format!("{name}:{a},{},{salt},{hash}", e.algo.1)
            } else {
                format!("{name}:{a},{salt},{hash}")
            }
        }
        Bad::ZeroIterations => format!("{name}:{kdf},0,{salt},{hash}"),
        Bad::Iterations(n) => format!("{name}:{kdf},{n},{salt},{hash}"),
        Bad::ShortSalt(n) => format!("{name}:{prefix}{},{hash}", STANDARD_NO_PAD.encode(&e.salt[..*n])),
        Bad::SaltAlphabet => format!("{name}:{prefix}{salt}!,{hash}"),
        Bad::HashAlphabet => format!("{name}:{prefix}{salt},{hash}*"),
        Bad::MissingField => format!("{name}:{prefix}{salt}"),
        Bad::ExtraField => format!("{name}:{prefix}{salt},{hash},{salt}"),
        Bad::NoSalt => format!("{name}:{}", prefix.trim_end_matches(',')),
        Bad::NotUtf8 => {
            let mut v = format!("{name}:{prefix}{salt},{hash}").into_bytes();
            v[1] = 0xff;
            return v;
        }
    }
    .into_bytes()
}

fn text_cases(_t: Tier) -> BoxedStrategy<TextCase> {
    prop::collection::vec(entry(), 0..6)
        .prop_flat_map(|entries| {
            let n = entries.len();
            (
                Just(entries),
                prop::collection::vec((0u8..3, any::<bool>(), 0u8..3, 0u8..3), n + 1),
                any::<bool>(),
                prop::option::weighted(0.7, (bad(), 0..=n, entry())),
            )
        })
        .prop_map(|(entries, layout, last_newline, bad)| TextCase { entries, layout, last_newline, bad })
        .boxed()
}

fn eval_text(case: &TextCase) -> CaseResult {
    let mut lines: Vec<Vec<u8>> = case.entries.iter().map(|e| line(e).into_bytes()).collect();
    if let Some((b, at, e)) = &case.bad {
        lines.insert(*at, bad_line(b, e));
    }
    let mut text = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        let (blank, crlf, before, after) = case.layout[i.min(case.layout.len() - 1)];
        for k in 0..blank {
            text.extend_from_slice(if k == 0 { b"\n" } else { b"  \t\n" });
        }
        text.extend(std::iter::repeat_n(b' ', before as usize));
        text.extend_from_slice(l);
        text.extend(std::iter::repeat_n(b' ', after as usize));
        if i + 1 < lines.len() || case.last_newline {
            text.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
        }
    }
    let shown = String::from_utf8_lossy(&text).into_owned();
    let loaded = load_passwords(&text[..]);
    let mut out = Outcome::default();
    match (&case.bad, loaded) {
        (Some((b, ..)), Ok(m)) => {
            return fail("malformed-accepted", format!("a file with a malformed line ({b:?}) was accepted as {:?}: {shown:?}", plain(&m)));
        }
        (Some(_), Err(_)) => {
            out.nontrivial = true;
            out.tag("malformed");
        }
        (None, Err(e)) => return fail("valid-rejected", format!("a valid file was rejected: {e}: {shown:?}")),
        (None, Ok(m)) => {
            // later lines win
            let (got, want) = (plain(&m), want(&case.entries));
            ensure!(got == want, "text", "{shown:?} was read as {got:?}, expected {want:?}");
            out.nontrivial = want.len() >= 2;
            out.tag("valid");
        }
    }
    Ok(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    text: Vec<u8>,
}

/// Any bytes: refused, or a database that survives being written and read again.
fn eval_raw(case: &Raw) -> CaseResult {
    let mut out = Outcome::default();
    if let Ok(m) = load_passwords(&case.text[..]) {
        let got = plain(&m);
        for (u, (a, n, salt, _)) in &got {
            ensure!(
                salt.len() >= akasa_core::MIN_SALT_LEN && (*a < 2 || n.is_some_and(|n| n > 0)),
                "weak",
                "user {u:?} was accepted with a salt of {} bytes, iterations {n:?}",
                salt.len()
            );
        }
        let mut text = Vec::new();
        dump_passwords(&mut text, &m).map_err(|e| Failure { sig: "dump".into(), msg: e.to_string() })?;
        match load_passwords(&text[..]) {
            Ok(m2) => ensure!(plain(&m2) == got, "roundtrip", "{got:?} became {:?}", plain(&m2)),
            Err(e) => return fail("reload", format!("{got:?} cannot be read back: {e}")),
        }
        out.nontrivial = !got.is_empty();
        out.tag_if(!got.is_empty(), "accepted");
    } else {
        out.nontrivial = true;
        out.tag("rejected");
    }
    Ok(out)
}

fn raw_cases(_t: Tier) -> BoxedStrategy<Raw> {
    let valid = prop::collection::vec(entry(), 1..4).prop_map(|es| es.iter().map(line).collect::<Vec<_>>().join("\n").into_bytes());
    prop_oneof![
        1 => prop::collection::vec(any::<u8>(), 0..120),
        2 => "[a-z0-9:,\\-+/=\n ]{0,80}".prop_map(|s: String| s.into_bytes()),
        // a valid file with a few edits
        5 => (valid, prop::collection::vec((any::<prop::sample::Index>(), 0u8..3, prop_oneof![3 => prop::sample::select(b",:=\n\r 0aZ+/-\0".to_vec()), 1 => any::<u8>()]), 0..4)).prop_map(|(mut t, edits)| {
            for (i, how, b) in edits {
                if t.is_empty() { break; }
                let i = i.index(t.len());
                match how {
                    0 => t[i] = b,
                    1 => t.insert(i, b),
                    _ => { t.remove(i); }
                }
            }
            t
        }),
    ]
    .prop_map(|text| Raw { text })
    .boxed()
}

pub fn file_property() -> Property {
    Property {
        id: "C04",
        rule: "random user databases written and read back; random file layouts with at most one malformed line of a known kind; arbitrary and edited bytes. Non-trivial = at least two users, a malformed line, or an input decided as valid/invalid",
        assumptions: &["a user name which begins with white space or contains a line break may be refused when the file is written (the format cannot carry it)"],
        parts: vec![
            part("roundtrip", 150_000, 3_000_000, |_| prop::collection::vec(any_entry(), 0..12).prop_map(|entries| FileCase { entries }).boxed(), eval_roundtrip),
            part("layout", 200_000, 4_000_000, text_cases, eval_text),
            part("bytes", 200_000, 4_000_000, raw_cases, eval_raw),
        ],
    }
}

// ------------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cred {
    user: String,
    password: Vec<u8>,
    algo: Algo,
    salt: Vec<u8>,
    #[serde(default)]
    damage: Option<Damage>,
}

/// What happened to the stored hash
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Damage {
    Flip(u16, u8),
    /// the first bytes remain; at least 12, so that nothing fits by chance
    Cut(u16),
    Empty,
    Extend(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VerifyCase {
    creds: Vec<Cred>,
    tries: Vec<(usize, Try)>,
    through_file: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Try {
    Right,
    Flip(u16, u8),
    Append(u8),
    Cut,
    Empty,
    /// the password of another user
    Of(usize),
    Random(Vec<u8>),
    /// the salt glued to the password / the stored hash itself
    WithSalt,
    StoredHash,
    UnknownUser(String),
    /// the password of this user under the name of another
    UserCase,
    /// ... or under nearly the same name
    UserNear(u8),
}

fn password() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => "[ -~]{1,16}".prop_map(|s: String| s.into_bytes()),
        2 => prop::collection::vec(any::<u8>(), 0..24),
        1 => prop::collection::vec(any::<u8>(), 60..140),
    ]
    .boxed()
}

fn verify_cases(tier: Tier) -> BoxedStrategy<VerifyCase> {
    let it = if tier == Tier::Quick { 12 } else { 64 };
    let damage = prop_oneof![
        2 => (any::<u16>(), 0u8..8).prop_map(|(i, b)| Damage::Flip(i, b)),
        2 => any::<u16>().prop_map(Damage::Cut),
        1 => Just(Damage::Empty),
        1 => prop::collection::vec(any::<u8>(), 1..40).prop_map(Damage::Extend),
    ];
    let cred = (username(), password(), (0u8..4, 1u32..it), prop::collection::vec(any::<u8>(), 12..24), prop::option::weighted(0.12, damage))
        .prop_map(|(user, password, algo, salt, damage)| Cred { user, password, algo, salt, damage });
    let t = prop_oneof![
        4 => Just(Try::Right),
        2 => (any::<u16>(), 0u8..8).prop_map(|(i, b)| Try::Flip(i, b)),
        1 => prop_oneof![Just(0u8), Just(b' '), any::<u8>()].prop_map(Try::Append),
        1 => Just(Try::Cut),
        1 => Just(Try::Empty),
        2 => (0usize..5).prop_map(Try::Of),
        1 => password().prop_map(Try::Random),
        1 => Just(Try::WithSalt),
        1 => Just(Try::StoredHash),
        1 => username().prop_map(Try::UnknownUser),
        1 => Just(Try::UserCase),
        1 => (0u8..6).prop_map(Try::UserNear),
    ];
    (
        prop::collection::vec(cred, 1..5),
        prop::collection::vec((0usize..5, t), 1..10),
        any::<bool>(),
    )
        .prop_map(|(creds, tries, through_file)| VerifyCase { creds, tries, through_file })
        .boxed()
}

fn eval_verify(case: &VerifyCase) -> CaseResult {
    let mut map = DashMap::new();
    let mut db: BTreeMap<String, &Cred> = BTreeMap::new();
    for c in &case.creds {
        let mut hash = hash_password(algo(c.algo), &c.salt, &c.password);
        let want = reference(c.algo, &c.salt, &c.password);
        ensure!(hash == want, "hash", "hash of {c:?} is {}, expected {}", hex::encode(hash), hex::encode(want));
        match &c.damage {
            None => {}
            Some(Damage::Flip(i, b)) => {
                let i = *i as usize % hash.len();
                hash[i] ^= 1 << b;
            }
            Some(Damage::Cut(n)) => hash.truncate(12 + *n as usize % (hash.len() - 12)),
            Some(Damage::Empty) => hash.clear(),
            Some(Damage::Extend(more)) => hash.extend(more),
        }
        map.insert(
            c.user.clone(),
            AuthPassword { hash_algorithm: algo(c.algo), hashed_password: hash, salt: c.salt.clone() },
        );
        db.insert(c.user.clone(), c);
    }
    if case.through_file {
        let mut text = Vec::new();
        dump_passwords(&mut text, &map).map_err(|e| Failure { sig: "dump".into(), msg: e.to_string() })?;
        map = load_passwords(&text[..]).map_err(|e| Failure { sig: "reload".into(), msg: e.to_string() })?;
    }
    let mut out = Outcome::default();
    for (i, t) in &case.tries {
        let c = db[&case.creds[i % case.creds.len()].user];
        let mut pw = c.password.clone();
        let mut user = c.user.clone();
        match t {
            Try::Right => {}
            Try::Flip(i, b) => {
                if pw.is_empty() {
                    pw.push(1);
                } else {
                    let i = *i as usize % pw.len();
                    pw[i] ^= 1 << b;
                }
            }
            Try::Append(b) => pw.push(*b),
            Try::Cut => {
                pw.pop();
            }
            Try::Empty => pw.clear(),
            Try::Of(j) => pw = case.creds[j % case.creds.len()].password.clone(),
            Try::Random(r) => pw = r.clone(),
            Try::WithSalt => pw.extend_from_slice(&c.salt),
            Try::StoredHash => pw = map.get(&c.user).unwrap().hashed_password.clone(),
            Try::UnknownUser(u) => user = u.clone(),
            Try::UserCase => user = user.to_uppercase(),
            Try::UserNear(k) => match k {
                0 => user.push(' '),
                1 => user.insert(0, ' '),
                2 => user.push('\0'),
                3 => user.push('a'),
                4 => user = user.replace(['=', ':', ','], ""),
                _ => {
                    user.pop();
                }
            },
        }
        let mut want = db.get(&user).is_some_and(|c| {
            reference(c.algo, &c.salt, &pw) == reference(c.algo, &c.salt, &c.password)
        });
        let got = check_password(&map, &user, &pw);
        if let Some(d) = db.get(&user).and_then(|c| c.damage.as_ref()) {
            // PBKDF2 derives as many bytes as are stored
            if want && matches!(d, Damage::Cut(_)) && db[&user].algo.0 >= 2 {
                continue;
            }
            out.tag_if(want, "damaged-hash");
            want = false;
        }
        ensure!(
            got == want,
            if want { "right-rejected" } else { "wrong-accepted" },
            "user {user:?} with password {pw:?} ({t:?}): accepted={got}, expected {want}; stored {c:?}"
        );
        out.tag_if(want, "right");
        out.tag_if(!want && db.contains_key(&user), "wrong");
        out.tag_if(!db.contains_key(&user), "unknown-user");
    }
    out.nontrivial = out.tags.contains(&"right") && out.tags.contains(&"wrong");
    Ok(out)
}

pub fn check_property() -> Property {
    Property {
        id: "C05",
        rule: "random user databases (four algorithms, 1..64 iterations), login attempts with the right password and with near misses, against hashes computed by an independent HMAC/PBKDF2; non-trivial = the case has both a right and a wrong attempt for known users",
        assumptions: &["a shortened PBKDF2 hash may still accept the password it was made of (PBKDF2 derives any length)"],
        parts: vec![part("verify", 200_000, 4_000_000, verify_cases, eval_verify)],
    }
}
