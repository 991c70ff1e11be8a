//! C06: SCRAM-SHA-256 authenticates exactly the holder of the password.
//! C07: a changed, malformed or out-of-order message never does, and never crashes.
use std::num::NonZeroU32;

use akasa_core::protocols::scram::client::ScramClient;
use akasa_core::protocols::scram::server::ScramServer;
use akasa_core::protocols::scram::{AuthenticationStatus, Error, hash_password};
use base64::Engine;
use base64::engine::general_purpose::STANDARD;
use proptest::prelude::*;
use rand::SeedableRng;
use rand::rngs::StdRng;
use ring::digest::SHA256;
use serde::{Deserialize, Serialize};

use super::sha;
use crate::ensure;
use crate::runner::*;

// ---------------------------------------------------------- reference (RFC 5802)

pub fn escape(s: &str) -> String {
    s.replace('=', "=3D").replace(',', "=2C")
}

fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

/// (proof, server signature)
pub fn proofs(salted: &[u8], auth_message: &str) -> (Vec<u8>, Vec<u8>) {
    let ck = sha::hmac(&SHA256, salted, &[b"Client Key"]);
    let sk = sha::hmac(&SHA256, salted, &[b"Server Key"]);
    let stored = sha::hash(&SHA256, &[&ck]);
    let sig = sha::hmac(&SHA256, &stored, &[auth_message.as_bytes()]);
    (xor(&ck, &sig), sha::hmac(&SHA256, &sk, &[auth_message.as_bytes()]))
}

/// A client written from the RFC.
pub struct RefClient {
    pub gs2: String,
    pub bare: String,
    pub nonce: String,
    pub password: String,
    pub final_ext: String,
    expect: Vec<u8>,
}

impl RefClient {
    pub fn new(flag: char, user: &str, authzid: Option<&str>, nonce: &str, ext: &str, final_ext: &str, password: &str) -> Self {
        let gs2 = match authzid {
            Some(a) => format!("{flag},a={},", escape(a)),
            None => format!("{flag},,"),
        };
        RefClient {
            gs2,
            bare: format!("n={},r={nonce}{ext}", escape(user)),
            nonce: nonce.to_owned(),
            password: password.to_owned(),
            final_ext: final_ext.to_owned(),
            expect: Vec::new(),
        }
    }
    pub fn first(&self) -> String {
        format!("{}{}", self.gs2, self.bare)
    }
    pub fn answer(&mut self, server_first: &str) -> Result<String, String> {
        let mut parts = server_first.split(',');
        let r = parts.next().and_then(|p| p.strip_prefix("r=")).ok_or("no nonce")?;
        let s = parts.next().and_then(|p| p.strip_prefix("s=")).ok_or("no salt")?;
        let i = parts.next().and_then(|p| p.strip_prefix("i=")).ok_or("no iterations")?;
        if !r.starts_with(&self.nonce) || r.len() <= self.nonce.len() {
            return Err(format!("server nonce {r:?} does not extend {:?}", self.nonce));
        }
        if r.bytes().any(|b| !(0x21..=0x7e).contains(&b) || b == b',') && self.nonce.is_ascii() {
            return Err(format!("server nonce {r:?} is not printable"));
        }
        let salt = STANDARD.decode(s).map_err(|e| e.to_string())?;
        let i: u32 = i.parse().map_err(|_| "iterations")?;
        let salted = sha::pbkdf2(&SHA256, self.password.as_bytes(), &salt, i);
        let without = format!("c={},r={r}{}", STANDARD.encode(&self.gs2), self.final_ext);
        let msg = format!("{},{server_first},{without}", self.bare);
        let (proof, sig) = proofs(&salted, &msg);
        self.expect = sig;
        Ok(format!("{without},p={}", STANDARD.encode(proof)))
    }
    pub fn verify(&self, server_final: &str) -> bool {
        server_final == format!("v={}", STANDARD.encode(&self.expect))
    }
}

// ---------------------------------------------------------- generators

pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z]{1,6}",
        2 => "[a-z,=]{1,8}",
        2 => "\\PC{1,8}",
        1 => Just("=2C".to_string()),
        1 => Just("=3D,".to_string()),
    ]
    .boxed()
}

fn pass() -> BoxedStrategy<String> {
    prop_oneof![4 => "[ -~]{1,12}", 1 => "\\PC{0,10}", 1 => "[a-z]{64,90}"].boxed()
}

fn nonce() -> BoxedStrategy<String> {
    prop_oneof![5 => "[!-+\\--~]{1,30}", 1 => Just("fyko+d2lbbFgONRv9qkxdawL".to_string())].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Login {
    user: String,
    authzid: Option<(bool, String)>,
    password: String,
    /// what the client knows, if not the password
    typed: Option<String>,
    salt: Vec<u8>,
    iterations: u16,
    flag_y: bool,
    nonce: String,
    first_ext: String,
    final_ext: String,
    seeds: (u64, u64),
}

impl Login {
    fn authzid(&self) -> Option<String> {
        self.authzid.as_ref().map(|(same, other)| if *same { self.user.clone() } else { other.clone() })
    }
    fn typed(&self) -> &str {
        self.typed.as_deref().unwrap_or(&self.password)
    }
    fn stored(&self) -> Vec<u8> {
        sha::pbkdf2(&SHA256, self.password.as_bytes(), &self.salt, self.iterations as u32)
    }
    fn right(&self) -> bool {
        sha::pbkdf2(&SHA256, self.typed().as_bytes(), &self.salt, self.iterations as u32) == self.stored()
    }
    fn expected(&self) -> AuthenticationStatus {
        if !self.right() {
            AuthenticationStatus::NotAuthenticated
        } else if self.authzid().is_some_and(|a| a != self.user) {
            AuthenticationStatus::NotAuthorized
        } else {
            AuthenticationStatus::Authenticated
        }
    }
}

/// Another string close to `s` (the same if there is none of that kind).
pub fn near(s: &str, kind: u8) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match kind {
        0 => s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        1 => {
            if let Some(c) = v.first_mut() {
                *c = if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            }
            v.into_iter().collect()
        }
        2 => {
            v.pop();
            v.into_iter().collect()
        }
        3 => v.into_iter().skip(1).collect(),
        4 => format!("{s}x"),
        5 => format!("x{s}"),
        6 => format!("{s} "),
        7 => {
            v.reverse();
            v.into_iter().collect()
        }
        8 => s.trim().to_string(),
        9 => {
            if let Some(c) = v.last_mut() {
                *c = char::from_u32(*c as u32 ^ 1).unwrap_or('x');
            }
            v.into_iter().collect()
        }
        10 => escape(s),
        _ => format!("{s}{s}"),
    }
}

fn login(tier: Tier) -> BoxedStrategy<Login> {
    let it = if tier == Tier::Quick { 24u16 } else { 200 };
    let ext = prop_oneof![5 => Just(String::new()), 1 => Just(",x=1".to_string()), 1 => Just(",e=abc=,f=".to_string())];
    (
        name(),
        prop::option::weighted(0.3, (any::<bool>(), name())),
        pass(),
        prop::option::weighted(0.35, prop_oneof![2 => pass(), 1 => Just(String::new())]),
        prop::collection::vec(any::<u8>(), 0..40),
        prop_oneof![8 => 1u16..it, 1 => Just(4096u16)],
        any::<bool>(),
        nonce(),
        (ext.clone(), ext),
        any::<(u64, u64)>(),
        (0u8..40, 0u8..40),
    )
        .prop_map(|(user, mut authzid, password, mut typed, salt, iterations, flag_y, nonce, (first_ext, final_ext), seeds, (near_id, near_pass))| {
          if near_id < 12 && let Some((false, a)) = &mut authzid {
              let n = near(&user, near_id);
              if !n.is_empty() && !n.contains('\0') {
                  *a = n;
              }
          }
          if near_pass < 12 && let Some(t) = &mut typed {
              *t = near(&password, near_pass);
          }
          Login {
            user, authzid, password, typed, salt, iterations, flag_y, nonce, first_ext, final_ext, seeds,
        }})
        .boxed()
}

type R<T> = Result<T, Failure>;

fn step<T>(what: &str, case: &Login, r: Result<T, Error>) -> R<T> {
    r.map_err(|e| Failure {
        sig: format!("{what}-error"),
        msg: format!("{what} failed with {e:?} in a correct exchange: {case:?}"),
    })
}

/// akasa's client against akasa's server.
fn eval_pair(case: &Login) -> CaseResult {
    let authzid = case.authzid();
    let mut crng = StdRng::seed_from_u64(case.seeds.0);
    let mut srng = StdRng::seed_from_u64(case.seeds.1);
    let mut client = ScramClient::with_rng(&case.user, case.typed(), authzid.as_deref(), &mut crng);
    let mut server = ScramServer::new();
    let first = step("client-first", case, client.encode_client_first())?;
    ensure!(first.split(',').nth(2).is_some_and(|n| n == format!("n={}", escape(&case.user))), "client-first-name", "the client announces user {:?} as {first:?}", case.user);
    step("decode-client-first", case, server.decode_client_first(&first))?;
    identity(case, &server, &authzid)?;
    let salted = hash_password(&case.password, NonZeroU32::new(case.iterations as u32).unwrap(), &case.salt);
    ensure!(salted.to_vec() == case.stored(), "salted-password", "the salted password of {case:?} is wrong");
    let sf = step("server-first", case, server.encode_server_first(salted.to_vec(), &case.salt, case.iterations, &mut srng))?;
    identity(case, &server, &authzid)?;
    let cf = step("decode-server-first", case, client.decode_server_first(&sf))?;
    let (status, fin) = step("client-final", case, server.decode_client_final(&cf))?;
    finish(case, status, &fin)?;
    let res = client.decode_server_final(&fin);
    match status {
        AuthenticationStatus::Authenticated => ensure!(res == Ok(()), "server-final", "the client refuses the server: {res:?}"),
        _ => ensure!(matches!(res, Err(Error::Authentication(_))), "server-final", "status {status:?}, but the client says {res:?}"),
    }
    Ok(outcome(case))
}

fn identity(case: &Login, server: &ScramServer, authzid: &Option<String>) -> R<()> {
    ensure!(server.authcid() == Some(&case.user), "authcid", "user {:?} is taken for {:?}", case.user, server.authcid());
    ensure!(server.authzid() == Some(authzid.as_deref()), "authzid", "authorization identity {authzid:?} is taken for {:?}", server.authzid());
    Ok(())
}

fn finish(case: &Login, status: AuthenticationStatus, fin: &str) -> R<()> {
    let want = case.expected();
    ensure!(status == want, format!("status-{want:?}"), "login ended as {status:?}, expected {want:?}: {case:?}");
    ensure!(
        fin.starts_with(if want == AuthenticationStatus::Authenticated { "v=" } else { "e=" }),
        "final-kind",
        "status {status:?} with the final message {fin:?}"
    );
    Ok(())
}

fn outcome(case: &Login) -> Outcome {
    let mut o = Outcome { nontrivial: true, ..Default::default() };
    o.tag(match case.expected() {
        AuthenticationStatus::Authenticated => "authenticated",
        AuthenticationStatus::NotAuthenticated => "wrong-password",
        AuthenticationStatus::NotAuthorized => "not-authorized",
    });
    o.tag_if(case.user.contains([',', '=']), "escaped-name");
    o.tag_if(case.flag_y, "gs2-y");
    o.tag_if(!case.first_ext.is_empty() || !case.final_ext.is_empty(), "extensions");
    o
}

/// A client written from the RFC against akasa's server.
fn eval_server(case: &Login) -> CaseResult {
    let authzid = case.authzid();
    let mut srng = StdRng::seed_from_u64(case.seeds.1);
    let mut client = RefClient::new(
        if case.flag_y { 'y' } else { 'n' },
        &case.user,
        authzid.as_deref(),
        &case.nonce,
        &case.first_ext,
        &case.final_ext,
        case.typed(),
    );
    let mut server = ScramServer::new();
    step("decode-client-first", case, server.decode_client_first(&client.first()))?;
    identity(case, &server, &authzid)?;
    let sf = step("server-first", case, server.encode_server_first(case.stored(), &case.salt, case.iterations, &mut srng))?;
    ensure!(
        sf.ends_with(&format!(",s={},i={}", STANDARD.encode(&case.salt), case.iterations)),
        "server-first-fields",
        "salt/iterations are announced as {sf:?}: {case:?}"
    );
    let cf = client.answer(&sf).map_err(|e| Failure { sig: "server-first-bad".into(), msg: format!("{e}: {sf:?}") })?;
    let (status, fin) = step("client-final", case, server.decode_client_final(&cf))?;
    finish(case, status, &fin)?;
    ensure!(
        client.verify(&fin) == (status == AuthenticationStatus::Authenticated),
        "server-signature",
        "status {status:?} with the final message {fin:?}: {case:?}"
    );
    // the exchange is over: nothing can be replayed
    for _ in 0..2 {
        let r = server.decode_client_final(&cf);
        ensure!(r == Err(Error::InvalidState), "replayed", "a replayed final message gives {r:?}");
    }
    Ok(outcome(case))
}

/// akasa's client against a server written from the RFC; the server may not know the password.
fn eval_client(case: &Login) -> CaseResult {
    let authzid = case.authzid();
    let authzid_wire = authzid.as_ref().map(|a| escape(a));
    let mut crng = StdRng::seed_from_u64(case.seeds.0);
    let mut client = ScramClient::with_rng(&case.user, case.typed(), authzid.as_deref(), &mut crng);
    let first = step("client-first", case, client.encode_client_first())?;
    let gs2 = match &authzid_wire {
        Some(a) => format!("n,a={a},"),
        None => "n,,".to_owned(),
    };
    let bare = first.strip_prefix(&gs2).unwrap_or_default().to_owned();
    let cn = bare.strip_prefix(&format!("n={},r=", escape(&case.user))).unwrap_or_default().to_owned();
    ensure!(
        cn.len() >= 16 && cn.bytes().all(|b| (0x21..=0x7e).contains(&b) && b != b','),
        "client-first",
        "client-first message {first:?} for {case:?}"
    );
    let sf = format!("r={cn}{},s={},i={}{}", case.nonce, STANDARD.encode(&case.salt), case.iterations, case.first_ext);
    let cf = step("decode-server-first", case, client.decode_server_first(&sf))?;
    let without = format!("c={},r={cn}{}", STANDARD.encode(&gs2), case.nonce);
    let msg = format!("{bare},{sf},{without}");
    // what a client that knows `typed` has to send
    let typed = sha::pbkdf2(&SHA256, case.typed().as_bytes(), &case.salt, case.iterations as u32);
    let (proof, good_sig) = proofs(&typed, &msg);
    ensure!(cf == format!("{without},p={}", STANDARD.encode(proof)), "client-final", "client-final message {cf:?} for {case:?}");
    // the server signs with what it stores
    let (_, sig) = proofs(&case.stored(), &msg);
    let res = client.decode_server_final(&format!("v={}", STANDARD.encode(&sig)));
    if sig == good_sig {
        ensure!(res == Ok(()), "server-refused", "the client refuses a genuine server: {res:?}");
    } else {
        ensure!(res == Err(Error::InvalidServer), "server-accepted", "a server without the password is accepted: {res:?}");
    }
    Ok(outcome(case))
}

/// Nonces are fresh: two exchanges with different randomness never share one.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh {
    seed: u64,
    nonce: String,
}

fn eval_fresh(case: &Fresh) -> CaseResult {
    let mut rng = StdRng::seed_from_u64(case.seed);
    let mut seen = std::collections::BTreeSet::new();
    let mut cseen = std::collections::BTreeSet::new();
    let mut used = std::collections::BTreeSet::new();
    for _ in 0..40 {
        let mut s = ScramServer::new();
        let r = s.decode_client_first(&format!("n,,n=u,r={}", case.nonce));
        ensure!(r.is_ok(), "decode-client-first", "{r:?}");
        let Ok(sf) = s.encode_server_first(vec![1; 32], b"salt", 10, &mut rng) else {
            return fail("server-first", "refused");
        };
        let own = sf[2..].split(',').next().unwrap()[case.nonce.len()..].to_owned();
        ensure!(own.len() >= 16, "short-nonce", "the server adds only {own:?}");
        used.extend(own.bytes());
        ensure!(seen.insert(own), "nonce-repeated", "the server used a nonce twice");
        let mut c = ScramClient::with_rng("u", "p", None, &mut rng);
        let f = c.encode_client_first().unwrap();
        let cn = f.split(",r=").nth(1).unwrap_or_default().to_owned();
        ensure!(cn.len() >= 16, "short-nonce", "the client uses only {cn:?}");
        ensure!(cseen.insert(cn), "nonce-repeated", "the client used a nonce twice");
    }
    ensure!(used.len() > 40, "nonce-entropy", "server nonces use only {} characters", used.len());
    Ok(Outcome { nontrivial: true, ..Default::default() })
}

pub fn exchange_property() -> Property {
    Property {
        id: "C06",
        rule: "random logins (names with , and =, authorization identities, gs2 flags, extensions, salts, iteration counts, right and wrong passwords): akasa client <-> akasa server, RFC client <-> akasa server, akasa client <-> RFC server; every completed exchange counts as non-trivial",
        assumptions: &["user names and passwords are not normalised (no SASLprep on either side)"],
        parts: vec![
            part("pair", 16_000, 300_000, login, eval_pair),
            part("server", 16_000, 300_000, login, eval_server),
            part("client", 16_000, 300_000, login, eval_client),
            part("fresh", 200, 4_000, |_| (any::<u64>(), nonce()).prop_map(|(seed, nonce)| Fresh { seed, nonce }).boxed(), eval_fresh),
        ],
    }
}

// ------------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Replace(u16, char),
    Insert(u16, char),
    Delete(u16),
    Truncate(u16),
    Append(String),
    SwapFields(u8, u8),
    DropField(u8),
    DupField(u8),
    /// put this value behind `x=` of the nth field
    SetField(u8, String),
    /// decode the base64 value of the field, change it, encode it again
    FlipB64(u8, u16, u8),
    /// cut the base64 value of the field
    CutB64(u8, u8),
    Case(u16),
}

fn edit() -> BoxedStrategy<Edit> {
    let ch = prop_oneof![3 => prop::sample::select(",=nrcpsvieyamx+/A0".chars().collect::<Vec<_>>()), 1 => any::<char>()];
    prop_oneof![
        3 => (any::<u16>(), ch.clone()).prop_map(|(i, c)| Edit::Replace(i, c)),
        2 => (any::<u16>(), ch).prop_map(|(i, c)| Edit::Insert(i, c)),
        2 => any::<u16>().prop_map(Edit::Delete),
        2 => any::<u16>().prop_map(Edit::Truncate),
        2 => prop_oneof![Just(",".to_string()), Just(",x=1".to_string()), Just("=".to_string()), Just(",p=AAAA".to_string()), Just(" ".to_string()), Just("\n".to_string()), Just("\0".to_string())].prop_map(Edit::Append),
        1 => (0u8..5, 0u8..5).prop_map(|(a, b)| Edit::SwapFields(a, b)),
        1 => (0u8..5).prop_map(Edit::DropField),
        1 => (0u8..5).prop_map(Edit::DupField),
        2 => (0u8..5, prop_oneof![Just("".to_string()), Just("biws".to_string()), Just("eSws".to_string()), Just("AAAA".to_string()), Just("user2".to_string()), Just("1".to_string()), Just("0".to_string()), Just("-1".to_string()), "[a-zA-Z0-9+/]{4}".prop_map(String::from)]).prop_map(|(f, v)| Edit::SetField(f, v)),
        3 => (0u8..5, any::<u16>(), 0u8..8).prop_map(|(f, i, b)| Edit::FlipB64(f, i, b)),
        2 => (0u8..5, 0u8..40).prop_map(|(f, n)| Edit::CutB64(f, n)),
        1 => any::<u16>().prop_map(Edit::Case),
    ]
    .boxed()
}

fn apply(e: &Edit, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    if c.is_empty() {
        return "x".into();
    }
    let fields = || s.split(',').map(str::to_owned).collect::<Vec<_>>();
    match e {
        Edit::Replace(i, ch) => {
            let i = *i as usize % c.len();
            c[i] = *ch;
        }
        Edit::Insert(i, ch) => c.insert(*i as usize % (c.len() + 1), *ch),
        Edit::Delete(i) => {
            c.remove(*i as usize % c.len());
        }
        Edit::Truncate(i) => c.truncate(*i as usize % c.len()),
        Edit::Append(t) => return format!("{s}{t}"),
        Edit::SwapFields(a, b) => {
            let mut f = fields();
            let n = f.len();
            f.swap(*a as usize % n, *b as usize % n);
            return f.join(",");
        }
        Edit::DropField(a) => {
            let mut f = fields();
            let n = f.len();
            f.remove(*a as usize % n);
            return f.join(",");
        }
        Edit::DupField(a) => {
            let mut f = fields();
            let i = *a as usize % f.len();
            let d = f[i].clone();
            f.insert(i, d);
            return f.join(",");
        }
        Edit::SetField(a, v) => {
            let mut f = fields();
            let i = *a as usize % f.len();
            let head: String = f[i].chars().take(2).collect();
            f[i] = format!("{head}{v}");
            return f.join(",");
        }
        Edit::FlipB64(a, at, bit) => {
            let mut f = fields();
            let i = *a as usize % f.len();
            if let Some((k, v)) = f[i].clone().split_once('=')
                && let Ok(mut raw) = STANDARD.decode(v)
                && !raw.is_empty()
            {
                let at = *at as usize % raw.len();
                raw[at] ^= 1 << bit;
                f[i] = format!("{k}={}", STANDARD.encode(raw));
            }
            return f.join(",");
        }
        Edit::CutB64(a, n) => {
            let mut f = fields();
            let i = *a as usize % f.len();
            if let Some((k, v)) = f[i].clone().split_once('=')
                && let Ok(mut raw) = STANDARD.decode(v)
            {
                raw.truncate(*n as usize);
                f[i] = format!("{k}={}", STANDARD.encode(raw));
            }
            return f.join(",");
        }
        Edit::Case(i) => {
            let i = *i as usize % c.len();
            c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() };
        }
    }
    c.into_iter().collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tamper {
    login: Login,
    /// which message: 0 client-first, 1 server-first, 2 client-final, 3 server-final
    which: u8,
    edits: Vec<Edit>,
    akasa_client: bool,
}

fn tamper_cases(tier: Tier) -> BoxedStrategy<Tamper> {
    (login(tier), 0u8..4, prop::collection::vec(edit(), 1..3), any::<bool>())
        .prop_map(|(mut login, which, edits, akasa_client)| {
            // an exchange which would succeed
            login.typed = None;
            if let Some(a) = &mut login.authzid {
                a.0 = true;
            }
            login.iterations = login.iterations.min(99);
            Tamper { login, which, edits, akasa_client }
        })
        .boxed()
}

/// Would a huge iteration count keep the client busy for long?
fn slow(sf: &str) -> bool {
    sf.split(',').filter_map(|f| f.strip_prefix("i=")).any(|i| i.parse::<u32>().is_ok_and(|i| i > 20_000))
}

fn eval_tamper(case: &Tamper) -> CaseResult {
    let l = &case.login;
    let mut out = Outcome::default();
    let authzid = l.authzid();
    let mut crng = StdRng::seed_from_u64(l.seeds.0);
    let mut srng = StdRng::seed_from_u64(l.seeds.1);
    let mut ac = ScramClient::with_rng(&l.user, l.typed(), authzid.as_deref(), &mut crng);
    let mut rc = RefClient::new(if l.flag_y { 'y' } else { 'n' }, &l.user, authzid.as_deref(), &l.nonce, &l.first_ext, &l.final_ext, l.typed());
    let mut server = ScramServer::new();
    let mutate = |n: u8, m: &str| -> String {
        if n != case.which {
            return m.to_owned();
        }
        case.edits.iter().fold(m.to_owned(), |m, e| apply(e, &m))
    };
    let first = if case.akasa_client { ac.encode_client_first().unwrap() } else { rc.first() };
    let first2 = mutate(0, &first);
    let mut changed = first2 != first;
    let done = |mut out: Outcome, changed: bool, tag: &'static str| {
        out.nontrivial = changed;
        out.tag(tag);
        Ok(out)
    };
    if let Err(e) = server.decode_client_first(&first2) {
        ensure!(changed, "client-first", "a correct client-first {first2:?} is refused: {e:?}");
        // nothing was set up
        ensure!(server.authcid().is_none(), "state-after-error", "after a refused message the server knows {:?}", server.authcid());
        let r = server.encode_server_first(l.stored(), &l.salt, l.iterations, &mut srng);
        ensure!(r == Err(Error::InvalidState), "state-after-error", "after a refused message: {r:?}");
        return done(out, changed, "refused-client-first");
    }
    let sf = match server.encode_server_first(l.stored(), &l.salt, l.iterations, &mut srng) {
        Ok(s) => s,
        Err(e) => return fail("server-first", format!("{e:?}")),
    };
    let sf2 = mutate(1, &sf);
    changed |= sf2 != sf;
    if slow(&sf2) {
        return done(out, false, "skipped-slow");
    }
    let cf = if case.akasa_client {
        match ac.decode_server_first(&sf2) {
            Ok(cf) => cf,
            Err(e) => {
                ensure!(changed, "server-first", "a correct server-first {sf2:?} is refused: {e:?}");
                let r = ac.decode_server_final("v=AAAA");
                ensure!(r == Err(Error::InvalidState), "state-after-error", "after a refused message: {r:?}");
                return done(out, changed, "refused-server-first");
            }
        }
    } else {
        match rc.answer(&sf2) {
            Ok(cf) => cf,
            Err(_) => return done(out, changed, "refused-server-first"),
        }
    };
    let cf2 = mutate(2, &cf);
    changed |= cf2 != cf;
    let (status, fin) = match server.decode_client_final(&cf2) {
        Ok(x) => x,
        Err(e) => {
            ensure!(changed, "client-final", "a correct client-final {cf2:?} is refused: {e:?}");
            let r = server.decode_client_final(&cf);
            ensure!(r == Err(Error::InvalidState), "retry", "after a refused final message the right one gives {r:?}");
            return done(out, changed, "refused-client-final");
        }
    };
    if changed {
        ensure!(
            status != AuthenticationStatus::Authenticated,
            format!("tampered-{}", case.which),
            "authenticated although a message was changed: client-first {first:?} -> {first2:?}, server-first {sf:?} -> {sf2:?}, client-final {cf:?} -> {cf2:?}"
        );
        ensure!(!fin.starts_with("v="), "signature-leak", "status {status:?} came with the server signature {fin:?}");
        out.tag("not-authenticated");
        // one try only
        let r = server.decode_client_final(&cf);
        ensure!(r == Err(Error::InvalidState), "retry", "after a failed login another final message gives {r:?}");
        if case.akasa_client {
            let r = ac.decode_server_final(&fin);
            ensure!(r.is_err(), "client-accepts", "the client accepts {fin:?}");
        }
    } else {
        ensure!(status == AuthenticationStatus::Authenticated, "status", "an unchanged login ended as {status:?}");
        if case.akasa_client {
            let fin2 = mutate(3, &fin);
            let r = ac.decode_server_final(&fin2);
            if fin2 != fin {
                changed = true;
                ensure!(r.is_err(), "server-final", "the client accepts {fin2:?} in place of {fin:?}");
                out.tag("refused-server-final");
            } else {
                ensure!(r == Ok(()), "server-final", "the client refuses {fin:?}: {r:?}");
            }
            let r = ac.decode_server_final(&fin);
            ensure!(r == Err(Error::InvalidState), "client-retry", "a second server-final gives {r:?}");
        }
    }
    out.nontrivial = changed;
    Ok(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    First(String),
    ServerFirst,
    Final(String),
    /// a proof made with a key that is not the password's
    Forged(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Calls {
    server: Vec<Call>,
    client: Vec<(u8, String)>,
}

fn text(kind: u8) -> BoxedStrategy<String> {
    let seed = match kind {
        0 => "n,,n=user,r=abcdef",
        1 => "r=abcdefxyz,s=QSXCR+Q6sek8bf92,i=40",
        2 => "c=biws,r=abcdefxyz,p=dHzbZapWIk4jUhN+Ute9ytag9zjfMHgsqmmiz7AndVQ=",
        _ => "v=6rriTRBi23WpRR/wtup+mMhUZUn/dB5nLTJRsjl95G4=",
    };
    prop_oneof![
        1 => any::<String>(),
        1 => "[a-z]=[é,a-z=]{0,4}".prop_map(String::from),
        1 => "\\PC{0,3}".prop_map(String::from),
        4 => prop::collection::vec(edit(), 0..4).prop_map(move |es| es.iter().fold(seed.to_owned(), |m, e| apply(e, &m))),
    ]
    .boxed()
}

fn call_cases(_t: Tier) -> BoxedStrategy<Calls> {
    let s = prop_oneof![
        3 => text(0).prop_map(Call::First),
        2 => Just(Call::First("n,,n=user,r=abcdef".into())),
        3 => Just(Call::ServerFirst),
        2 => text(2).prop_map(Call::Final),
        2 => prop::collection::vec(any::<u8>(), 0..33).prop_map(Call::Forged),
    ];
    let c = (0u8..4).prop_flat_map(|k| (Just(k), text(k)));
    (prop::collection::vec(s, 1..8), prop::collection::vec(c, 1..8))
        .prop_map(|(server, client)| Calls { server, client })
        .boxed()
}

/// Arbitrary calls in arbitrary order: no panic, no authentication, the documented state order.
fn eval_calls(case: &Calls) -> CaseResult {
    let mut rng = StdRng::seed_from_u64(7);
    let stored = sha::pbkdf2(&SHA256, b"the password", b"salt", 3);
    let mut s = ScramServer::new();
    // 0 new/over, 1 waiting for the password, 2 waiting for the final message
    let mut state = 0;
    let mut sf = String::new();
    let mut first = String::new();
    let mut refused = 0;
    for (i, c) in case.server.iter().enumerate() {
        match c {
            Call::First(t) => {
                // a login can only begin once per exchange; the broker never repeats it
                if state != 0 {
                    continue;
                }
                if s.decode_client_first(t).is_ok() {
                    state = 1;
                    first = t.clone();
                    // it is well formed
                    let f: Vec<&str> = t.split(',').collect();
                    ensure!(
                        f.len() >= 4 && (f[0] == "n" || f[0] == "y") && (f[1].is_empty() || f[1].starts_with("a=")) && f[2].starts_with("n=") && f[3].starts_with("r="),
                        "malformed-accepted",
                        "client-first {t:?} is accepted"
                    );
                } else {
                    refused += 1;
                }
            }
            Call::ServerFirst => {
                let r = s.encode_server_first(stored.clone(), b"salt", 3, &mut rng);
                if state == 1 {
                    match r {
                        Ok(m) => sf = m,
                        Err(e) => return fail("server-first", format!("call {i}: {e:?}")),
                    }
                    state = 2;
                } else {
                    ensure!(r == Err(Error::InvalidState), "order", "call {i}: server-first out of order gives {r:?}");
                    refused += 1;
                }
            }
            Call::Final(_) | Call::Forged(_) => {
                let m = match c {
                    Call::Final(t) => t.clone(),
                    Call::Forged(key) => {
                        let f: Vec<&str> = first.split(',').collect();
                        let gs2 = if f.len() > 2 { format!("{},{},", f[0], f[1]) } else { "n,,".into() };
                        let bare = first.strip_prefix(&gs2).unwrap_or("");
                        let nonce = sf.split(',').next().unwrap_or("").trim_start_matches("r=");
                        let without = format!("c={},r={nonce}", STANDARD.encode(&gs2));
                        let (p, _) = proofs(key, &format!("{bare},{sf},{without}"));
                        let n = key.len();
                        format!("{without},p={}", STANDARD.encode(if n < 8 { &p[..n] } else { &p[..] }))
                    }
                    _ => unreachable!(),
                };
                let r = s.decode_client_final(&m);
                if state == 2 {
                    if let Ok((st, fin)) = &r {
                        ensure!(*st != AuthenticationStatus::Authenticated && !fin.starts_with("v="), "forged", "call {i}: {m:?} gives {r:?}");
                    }
                    ensure!(r != Err(Error::InvalidState), "order", "call {i}: the final message in order gives {r:?}");
                    state = 0;
                    // over: only a new server can begin again
                    let again = s.decode_client_final(&m);
                    ensure!(again == Err(Error::InvalidState), "order", "call {i}: a second final message gives {again:?}");
                    s = ScramServer::new();
                } else {
                    ensure!(r == Err(Error::InvalidState), "order", "call {i}: the final message out of order gives {r:?}");
                }
                refused += 1;
            }
        }
        ensure!((state != 0) == s.authcid().is_some(), "authcid", "call {i}: state {state}, user {:?}", s.authcid());
    }
    let mut crng = StdRng::seed_from_u64(9);
    let mut c = ScramClient::with_rng("user", "pencil", None, &mut crng);
    let mut cstate = 0;
    for (i, (k, t)) in case.client.iter().enumerate() {
        match k {
            0 => {
                let r = c.encode_client_first();
                ensure!(r.is_ok() == (cstate == 0), "client-order", "call {i}: client-first in state {cstate}: {r:?}");
                if cstate == 0 {
                    cstate = 1;
                } else {
                    ensure!(r == Err(Error::InvalidState), "client-order", "call {i}: {r:?}");
                }
            }
            1 => {
                if slow(t) {
                    continue;
                }
                let r = c.decode_server_first(t);
                if cstate == 1 {
                    // its nonce cannot be guessed
                    ensure!(r.is_err() && r != Err(Error::InvalidState), "client-nonce", "call {i}: {t:?} gives {r:?}");
                    cstate = 3;
                } else {
                    ensure!(r == Err(Error::InvalidState), "client-order", "call {i}: server-first in state {cstate}: {r:?}");
                }
                refused += 1;
            }
            _ => {
                let r = c.decode_server_final(t);
                ensure!(r == Err(Error::InvalidState), "client-order", "call {i}: server-final in state {cstate}: {r:?}");
                refused += 1;
            }
        }
    }
    Ok(Outcome { nontrivial: refused >= 1, ..Default::default() })
}

/// The last message a client gets, in the state that waits for it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Final {
    text: String,
    seed: u64,
}

fn eval_final(case: &Final) -> CaseResult {
    let mut crng = StdRng::seed_from_u64(case.seed);
    let mut c = ScramClient::with_rng("user", "pencil", None, &mut crng);
    let first = c.encode_client_first().unwrap();
    let cn = first.split(",r=").nth(1).unwrap();
    if c.decode_server_first(&format!("r={cn}xyz,s=QSXCR+Q6sek8bf92,i=2")).is_err() {
        return fail("server-first", "a correct server-first is refused");
    }
    let r = c.decode_server_final(&case.text);
    ensure!(r.is_err() && r != Err(Error::InvalidState), "server-final", "{:?} gives {r:?}", case.text);
    if let Some(e) = case.text.strip_prefix("e=") {
        ensure!(r == Err(Error::Authentication(e.to_owned())), "server-error", "{:?} gives {r:?}", case.text);
    }
    Ok(Outcome { nontrivial: true, ..Default::default() })
}

/// Someone who knows the password and proves it over a final message with another channel binding
/// header or nonce; a server that knows the password and answers with another nonce.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rebound {
    login: Login,
    /// 0 the header, 1 its base64 text, 2 the nonce, 3 the server's part of it, 4 the client's part,
    /// 5 the nonce which the server sends
    what: u8,
    how: Result<u8, Vec<Edit>>,
    /// prove the text that should have been sent
    prove_right: bool,
}

fn rebound_cases(tier: Tier) -> BoxedStrategy<Rebound> {
    (login(tier), 0u8..6, prop_oneof![(0u8..13).prop_map(Ok), prop::collection::vec(edit(), 1..3).prop_map(Err)], prop::bool::weighted(0.2))
        .prop_map(|(mut login, what, how, prove_right)| {
            login.typed = None;
            if let Some(a) = &mut login.authzid {
                a.0 = true;
            }
            login.iterations = login.iterations.min(40);
            Rebound { login, what, how, prove_right }
        })
        .boxed()
}

fn eval_rebound(case: &Rebound) -> CaseResult {
    let l = &case.login;
    let mut out = Outcome::default();
    let authzid = l.authzid();
    let other = |s: &str| match &case.how {
        Ok(k) => near(s, *k),
        Err(es) => es.iter().fold(s.to_owned(), |m, e| apply(e, &m)),
    };
    if case.what == 5 {
        let mut crng = StdRng::seed_from_u64(l.seeds.0);
        let mut c = ScramClient::with_rng(&l.user, l.typed(), authzid.as_deref(), &mut crng);
        let first = c.encode_client_first().unwrap();
        let cn = first.rsplit(",r=").next().unwrap().to_owned();
        let nonce = format!("{}{}", other(&cn), l.nonce);
        let r = c.decode_server_first(&format!("r={nonce},s={},i={}", STANDARD.encode(&l.salt), l.iterations));
        if nonce.starts_with(&cn) {
            out.tag("same");
            if !nonce.contains(',') {
                ensure!(r.is_ok(), "server-first", "the nonce {nonce:?} for {cn:?} is refused: {r:?}");
            }
        } else {
            ensure!(r.is_err(), "foreign-nonce", "the client sent the nonce {cn:?} and accepts {nonce:?}");
            out.nontrivial = true;
            out.tag("server-nonce");
        }
        return Ok(out);
    }
    let mut srng = StdRng::seed_from_u64(l.seeds.1);
    let c = RefClient::new(if l.flag_y { 'y' } else { 'n' }, &l.user, authzid.as_deref(), &l.nonce, &l.first_ext, "", l.typed());
    let mut server = ScramServer::new();
    step("decode-client-first", l, server.decode_client_first(&c.first()))?;
    let sf = step("server-first", l, server.encode_server_first(l.stored(), &l.salt, l.iterations, &mut srng))?;
    let nonce = sf[2..].split(',').next().unwrap().to_owned();
    let own = nonce.strip_prefix(&l.nonce).unwrap_or_default().to_owned();
    let right = format!("c={},r={nonce}", STANDARD.encode(&c.gs2));
    let sent = match case.what {
        0 => format!("c={},r={nonce}", STANDARD.encode(other(&c.gs2))),
        1 => format!("c={},r={nonce}", other(&STANDARD.encode(&c.gs2))),
        2 => format!("c={},r={}", STANDARD.encode(&c.gs2), other(&nonce)),
        3 => format!("c={},r={}{}", STANDARD.encode(&c.gs2), l.nonce, other(&own)),
        _ => format!("c={},r={}{own}", STANDARD.encode(&c.gs2), other(&l.nonce)),
    };
    let (proof, _) = proofs(&l.stored(), &format!("{},{sf},{}", c.bare, if case.prove_right { &right } else { &sent }));
    let r = server.decode_client_final(&format!("{sent},p={}", STANDARD.encode(proof)));
    // (a further field is an extension)
    let extended = sent.starts_with(&format!("{right},"));
    if sent == right {
        ensure!(matches!(r, Ok((AuthenticationStatus::Authenticated, _))), "status", "the right final message gives {r:?}");
        out.tag("same");
    } else if !extended {
        if let Ok((status, fin)) = &r {
            ensure!(*status != AuthenticationStatus::Authenticated && !fin.starts_with("v="), "rebound", "{sent:?} in place of {right:?} gives {r:?}");
        }
        out.nontrivial = true;
        out.tag(["header", "header-text", "nonce", "server-part", "client-part"][case.what as usize]);
    }
    Ok(out)
}

pub fn tamper_property() -> Property {
    Property {
        id: "C07",
        rule: "exchanges which would succeed with one message edited (characters, fields, base64 payloads, truncation, extension); final messages with another channel binding header or nonce and a genuine proof, and servers answering with another nonce; arbitrary calls in arbitrary order with edited and arbitrary strings; non-trivial = a message was really changed, or a call had to be refused",
        assumptions: &["iteration counts above 20000 announced by a server are skipped (they only cost time)"],
        parts: vec![
            part("tamper", 300_000, 6_000_000, tamper_cases, eval_tamper),
            part("rebound", 100_000, 2_000_000, rebound_cases, eval_rebound),
            part("calls", 300_000, 6_000_000, call_cases, eval_calls),
            part("final", 150_000, 2_000_000, |_| (text(3), any::<u64>()).prop_map(|(text, seed)| Final { text, seed }).boxed(), eval_final),
        ],
    }
}
