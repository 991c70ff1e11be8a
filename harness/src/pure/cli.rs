//! The command line program: commands on the password file (with write errors and crashes at any
//! byte), and starting the server from a configuration.
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

use akasa_core::protocols::mqtt::check_password;
use akasa_core::{AuthPassword, Config, HashAlgorithm, dump_passwords, hash_password, load_passwords};
use dashmap::DashMap;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};

use crate::broker::client::*;
use crate::ensure;
use crate::runner::*;

// ------------------------------------------------------------------ running it

fn program() -> Command {
    let exe = std::env::current_exe().unwrap().with_file_name("akasa");
    let mut c = Command::new(exe);
    c.env("RUST_LOG", "error").env("RUST_BACKTRACE", "0").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    c
}

/// A directory that goes away with the case.
struct Dir(PathBuf);

impl Dir {
    fn new() -> Dir {
        static N: AtomicU32 = AtomicU32::new(0);
        let p = std::env::temp_dir().join(format!("akasa-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------ the password file

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fault {
    /// writing fails when a file would get longer than this
    Full(u32),
    /// the process dies when a file would get longer than this
    Crash(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd {
    Insert {
        create: bool,
        user: String,
        pass: String,
        /// what is typed the second time
        again: Option<String>,
        algo: u8,
        /// None: the default
        iterations: Option<u32>,
        fault: Option<Fault>,
    },
    Remove {
        user: String,
        fault: Option<Fault>,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Start {
    Missing,
    Users(Vec<(String, String, u8)>),
    Broken,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    start: Start,
    mode: u32,
    link: bool,
    cmds: Vec<Cmd>,
}

type Algo = Option<(u8, u32)>;

fn algorithm(a: u8, n: u32) -> HashAlgorithm {
    let iterations = std::num::NonZeroU32::new(n).unwrap();
    match a {
        0 => HashAlgorithm::Sha256,
        1 => HashAlgorithm::Sha512,
        2 => HashAlgorithm::Sha256Pkbdf2 { iterations },
        _ => HashAlgorithm::Sha512Pkbdf2 { iterations },
    }
}

const ALGOS: [&str; 4] = ["sha256", "sha512", "sha256-pkbdf2", "sha512-pkbdf2"];

/// The file format is one trimmed line for each user: these names it cannot carry, and a command
/// may refuse them.
fn odd(user: &str) -> bool {
    user.trim_start() != user || user.contains(['\n', '\r', '\0'])
}

fn run_cmd(cmd: &Cmd, path: &Path) -> Result<(bool, String), Failure> {
    let mut c = program();
    let (input, fault) = match cmd {
        Cmd::Insert { create, user, pass, again, algo, iterations, fault } => {
            c.arg("insert-password").arg("--path").arg(path).arg(format!("--username={user}"));
            if *create {
                c.arg("--create");
            }
            if *algo < 4 {
                c.arg(format!("--hash-algorithm={}", ALGOS[*algo as usize]));
            }
            if let Some(n) = iterations {
                c.arg(format!("--iterations={n}"));
            }
            (format!("{pass}\n{}\n", again.as_ref().unwrap_or(pass)), *fault)
        }
        Cmd::Remove { user, fault } => {
            c.arg("remove-password").arg("--path").arg(path).arg(format!("--username={user}"));
            (String::new(), *fault)
        }
    };
    if let Some(f) = fault {
        unsafe {
            c.pre_exec(move || {
                let (n, crash) = match f {
                    Fault::Full(n) => (n, false),
                    Fault::Crash(n) => (n, true),
                };
                let l = libc::rlimit { rlim_cur: n as u64, rlim_max: n as u64 };
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                libc::signal(libc::SIGXFSZ, if crash { libc::SIG_DFL } else { libc::SIG_IGN });
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                Ok(())
            });
        }
    }
    let mut child = match c.spawn() {
        Ok(c) => c,
        // (a name with a zero byte is no argument)
        Err(e) => return Ok((false, e.to_string())),
    };
    let _ = child.stdin.take().unwrap().write_all(input.as_bytes());
    let out = child.wait_with_output().map_err(|e| Failure { sig: "run".into(), msg: e.to_string() })?;
    Ok((out.status.success(), String::from_utf8_lossy(&out.stderr).into_owned()))
}

fn eval_file(case: &FileCase) -> CaseResult {
    let dir = Dir::new();
    let real = dir.0.join("passwords");
    let path = if case.link { dir.0.join("link") } else { real.clone() };
    let mut out = Outcome::default();
    // None: there is no file, or one that cannot be read
    let mut model: Option<BTreeMap<String, (String, Algo)>> = None;
    match &case.start {
        Start::Missing => {}
        Start::Broken => fs::write(&real, "alice:sha512,AAAA\n").unwrap(),
        Start::Users(us) => {
            let m: DashMap<String, AuthPassword> = DashMap::new();
            let mut users = BTreeMap::new();
            for (i, (u, p, a)) in us.iter().enumerate() {
                let algo = algorithm(*a, 7);
                let salt = vec![i as u8 + 65; 12];
                m.insert(u.clone(), AuthPassword { hash_algorithm: algo, hashed_password: hash_password(algo, &salt, p.as_bytes()), salt });
                users.insert(u.clone(), (p.clone(), Some((*a, 7))));
            }
            let mut data = Vec::new();
            dump_passwords(&mut data, &m).unwrap();
            fs::write(&real, data).unwrap();
            model = Some(users);
        }
    }
    if case.link {
        std::os::unix::fs::symlink("passwords", &path).unwrap();
    }
    if real.exists() {
        fs::set_permissions(&real, fs::Permissions::from_mode(case.mode)).unwrap();
    }
    let mut salts: Vec<Vec<u8>> = Vec::new();
    for (k, cmd) in case.cmds.iter().enumerate() {
        let before = fs::read(&real).ok();
        let (ok, err) = run_cmd(cmd, &path)?;
        let what = format!("command {k} {cmd:?}");
        let after = fs::read(&real).ok();
        let (must, may, faulty) = match cmd {
            Cmd::Insert { create, user, pass, again, iterations, fault, .. } => {
                let fine = again.as_ref().is_none_or(|a| a == pass) && *iterations != Some(0) && (*create || model.is_some());
                (fine && fault.is_none() && !odd(user), fine, fault.is_some())
            }
            Cmd::Remove { fault, .. } => (model.is_some() && fault.is_none(), model.is_some(), fault.is_some()),
        };
        ensure!(ok || !must, "refused", "{what} failed: {err}");
        ensure!(!ok || may, "accepted", "{what} reported success");
        if ok {
            match cmd {
                Cmd::Insert { create, user, pass, algo, iterations, .. } => {
                    let mut m = if *create { BTreeMap::new() } else { model.take().unwrap() };
                    let n = iterations.unwrap_or(128);
                    out.tag_if(m.contains_key(user), "password-changed");
                    m.insert(user.clone(), (pass.clone(), Some((if *algo < 4 { *algo } else { 3 }, n))));
                    model = Some(m);
                }
                Cmd::Remove { user, .. } => {
                    if model.as_mut().unwrap().remove(user).is_some() {
                        out.tag("removed");
                    } else {
                        ensure!(before == after, "unchanged", "{what}: there is no such user, but the file changed");
                    }
                }
            }
        } else {
            ensure!(
                before == after,
                "half-done",
                "{what} failed ({}), and the file is not what it was before: {:?} became {:?}",
                err.trim(),
                before.as_deref().map(String::from_utf8_lossy),
                after.as_deref().map(String::from_utf8_lossy)
            );
            out.tag_if(faulty && may, "failed-while-writing");
        }
        if let Some(m) = &model {
            let file = match fs::File::open(&path).and_then(load_passwords) {
                Ok(f) => f,
                Err(e) => return fail("unreadable", format!("after {what} (success: {ok}) the file cannot be read: {e}")),
            };
            let mut names: Vec<_> = file.iter().map(|e| e.key().clone()).collect();
            names.sort();
            ensure!(names.iter().eq(m.keys()), "users", "after {what} (success: {ok}) the users are {names:?}, expected {:?}", m.keys());
            for (u, (p, algo)) in m {
                ensure!(check_password(&file, u, p.as_bytes()), "password", "after {what}: {u:?} with password {p:?} is refused");
                for wrong in m.values().map(|(q, _)| q.clone()).chain([format!("{p} "), format!("{p}x"), String::new()]) {
                    ensure!(wrong == *p || !check_password(&file, u, wrong.as_bytes()), "wrong-password", "after {what}: {u:?} with password {wrong:?} is accepted");
                }
                let e = file.get(u).unwrap();
                let Some((a, n)) = algo else { continue };
                ensure!(e.hash_algorithm == algorithm(*a, *n), "algorithm", "after {what}: {u:?} has {:?}", e.hash_algorithm);
            }
            if let (true, Cmd::Insert { user, .. }) = (ok, cmd) {
                let salt = file.get(user).unwrap().salt.clone();
                ensure!(salt.len() >= 12 && !salts.contains(&salt), "salt", "{what}: salt {salt:?} after {salts:?}");
                salts.push(salt);
            }
            if case.start_exists() {
                let mode = fs::metadata(&real).unwrap().permissions().mode() & 0o777;
                ensure!(mode == case.mode, "mode", "after {what} the permissions of the file are {mode:o}, before {:o}", case.mode);
            }
        }
        if case.link {
            ensure!(fs::symlink_metadata(&path).is_ok_and(|m| m.is_symlink()), "link", "after {what} the link to the file is gone");
        }
        out.nontrivial |= model.as_ref().is_some_and(|m| !m.is_empty());
    }
    Ok(out)
}

impl FileCase {
    fn start_exists(&self) -> bool {
        !matches!(self.start, Start::Missing)
    }
}

fn user() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["alice", "Alice", "alic", "bob", "alice:", "bob:sha256,AAAA"]).prop_map(String::from),
        1 => prop::sample::select(vec!["", " bob", "\tbob", "bob ", "al ice", "-bob", "名", "a\nb", "bob\r", "\u{2003}bob", "#bob"]).prop_map(String::from),
        1 => "\\PC{0,6}",
    ]
    .boxed()
}

fn pass() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-c]{1,2}",
        1 => Just(String::new()),
        1 => "[ -~]{1,40}",
        1 => "\\PC{1,8}",
        1 => "x{200,400}",
    ]
    .boxed()
}

fn file_case(_: Tier) -> BoxedStrategy<FileCase> {
    let fault = || {
        prop::option::weighted(
            0.3,
            (prop_oneof![Just(0u32), 1u32..150, 150u32..1500], any::<bool>()).prop_map(|(n, crash)| if crash { Fault::Crash(n) } else { Fault::Full(n) }),
        )
    };
    let insert = (
        prop::bool::weighted(0.2),
        user(),
        pass(),
        prop::option::weighted(0.1, pass()),
        0u8..5,
        prop_oneof![3 => Just(None), 2 => (1u32..300).prop_map(Some), 1 => prop::sample::select(vec![0u32, 1, 4096]).prop_map(Some)],
        fault(),
    )
        .prop_map(|(create, user, pass, again, algo, iterations, fault)| Cmd::Insert { create, user, pass, again, algo, iterations, fault });
    let remove = (user(), fault()).prop_map(|(user, fault)| Cmd::Remove { user, fault });
    let known = user().prop_map(|u| if odd(&u) { "bob".to_string() } else { u });
    let start = prop_oneof![
        1 => Just(Start::Missing),
        1 => Just(Start::Broken),
        6 => prop::collection::vec((known, pass(), 0u8..4), 0..8).prop_map(Start::Users),
    ];
    (start, prop::sample::select(vec![0o600u32, 0o640, 0o644]), prop::bool::weighted(0.15), prop::collection::vec(prop_oneof![3 => insert, 1 => remove], 1..6))
        .prop_map(|(start, mode, link, cmds)| {
            let link = link && !matches!(start, Start::Missing);
            FileCase { start, mode, link, cmds }
        })
        .boxed()
}

// ------------------------------------------------------------------ starting

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Wrong {
    Qos(u8),
    PacketClient,
    PacketServer,
    NoListener,
    Mechanism,
    Iterations(u16),
    NoPasswordPath,
    NoPasswordFile,
    BadPasswordFile,
    Syntax,
    MissingField(u8),
    WrongType(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct StartCase {
    anonymous: bool,
    users: Vec<(String, String, u8)>,
    wrong: Option<Wrong>,
    ws_too: bool,
    logins: Vec<(String, String, Ver)>,
    talk: Vec<(Ver, Ver, u8)>,
}

struct Running(Child);

impl Drop for Running {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

/// A loopback address of its own. (Trying it out first would leave its socket in programs that
/// another thread is just starting, which then hold the port for a moment.)
fn free_addr() -> SocketAddr {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let n = NEXT.fetch_add(1, Ordering::Relaxed) + std::process::id().wrapping_mul(100_003);
    // (the ports are below the range of ephemeral ports)
    let (h, port) = (n.to_le_bytes(), 12_000 + (n % 20_011) as u16);
    SocketAddr::from(([127, 64 + h[2] % 128, h[1], 1 + h[0] % 254], port))
}

fn packet(s: &mut TcpStream) -> Option<Vec<u8>> {
    let mut v = vec![0u8; 2];
    s.read_exact(&mut v).ok()?;
    while v[v.len() - 1] & 0x80 != 0 {
        let mut b = [0];
        s.read_exact(&mut b).ok()?;
        v.push(b[0]);
    }
    let head = v.len();
    let n = v[1..].iter().rev().fold(0usize, |a, b| a << 7 | (*b & 0x7f) as usize);
    v.resize(head + n, 0);
    s.read_exact(&mut v[head..]).ok()?;
    Some([vec![v[0]], v[head..].to_vec()].concat())
}

fn eval_start(case: &StartCase) -> CaseResult {
    let dir = Dir::new();
    let mut out = Outcome::default();
    // what `default-config` prints is the base
    let mut c = program();
    c.arg("default-config");
    if case.anonymous {
        c.arg("--allow-anonymous");
    }
    let printed = c.output().unwrap();
    ensure!(printed.status.success(), "default-config", "default-config failed: {printed:?}");
    let text = String::from_utf8(printed.stdout).unwrap();
    let mut v: Value = match serde_json::from_str(&text) {
        Ok(v) => v,
        Err(e) => return fail("default-config", format!("default-config printed {text:?}: {e}")),
    };
    let parsed: Result<Config, _> = serde_json::from_value(v.clone());
    ensure!(parsed.as_ref().is_ok_and(|c| c.is_valid()), "default-config", "default-config printed {text:?}, which is no valid configuration");
    let want = serde_json::to_value(if case.anonymous { Config::new_allow_anonymous() } else { Config::default() }).unwrap();
    ensure!(v == want, "default-config", "default-config printed {v}, expected {want}");

    let m: DashMap<String, AuthPassword> = DashMap::new();
    let mut accounts = BTreeMap::new();
    for (i, (u, p, a)) in case.users.iter().enumerate() {
        let algo = algorithm(*a, 5);
        let salt = vec![i as u8 + 65; 12];
        m.insert(u.clone(), AuthPassword { hash_algorithm: algo, hashed_password: hash_password(algo, &salt, p.as_bytes()), salt });
        accounts.insert(u.clone(), p.clone());
    }
    let passwords = dir.0.join("passwords");
    dump_passwords(fs::File::create(&passwords).unwrap(), &m).unwrap();
    let mut addr = free_addr();
    v["auth"]["password_file"] = if case.anonymous { Value::Null } else { json!(passwords) };
    if case.ws_too {
        v["listeners"]["ws"] = json!({"addr": free_addr().to_string(), "reuse_port": false, "proxy_mode": null});
    }
    let mut broken = case.wrong.is_some();
    match &case.wrong {
        None => {}
        Some(Wrong::Qos(n)) => v["max_allowed_qos"] = json!(n),
        Some(Wrong::PacketClient) => v["max_packet_size_client"] = json!(0),
        Some(Wrong::PacketServer) => v["max_packet_size_server"] = json!(0),
        Some(Wrong::NoListener) => {
            for l in ["mqtt", "mqtts", "ws", "wss", "http"] {
                v["listeners"][l] = Value::Null;
            }
        }
        Some(Wrong::Mechanism) => v["sasl_mechanisms"] = json!(["SCRAM-SHA-256", "SCRAM-SHA-256-PLUS"]),
        Some(Wrong::Iterations(n)) => v["scram_users"]["other"] = json!({"hashed_password": "00", "iterations": n, "salt": "00"}),
        Some(Wrong::NoPasswordPath) => {
            v["auth"]["password_file"] = Value::Null;
            broken = !case.anonymous;
        }
        Some(Wrong::NoPasswordFile) => {
            v["auth"]["password_file"] = json!(dir.0.join("nothing"));
            broken = !case.anonymous;
        }
        Some(Wrong::BadPasswordFile) => {
            fs::OpenOptions::new().append(true).open(&passwords).unwrap().write_all(b"x:sha256,AAAA\n").unwrap();
            v["auth"]["password_file"] = json!(passwords);
            broken = !case.anonymous;
        }
        Some(Wrong::Syntax) => {}
        Some(Wrong::MissingField(k)) => {
            let f = ["auth", "listeners", "max_inflight_client", "max_packet_size_server"][*k as usize % 4];
            v.as_object_mut().unwrap().remove(f);
        }
        Some(Wrong::WrongType(k)) => {
            let f = ["auth", "shared_subscription_mode", "max_inflight_client", "retain_available", "listeners"][*k as usize % 5];
            v[f] = json!("what");
        }
    }
    let config = dir.0.join("config.yaml");
    let mut tries = 0;
    let mut child = 'up: loop {
        if v["listeners"]["mqtt"].is_object() {
            v["listeners"]["mqtt"] = json!({"addr": addr.to_string(), "reuse_port": false, "proxy_mode": null});
        }
        let mut text = serde_json::to_string(&v).unwrap();
        if case.wrong == Some(Wrong::Syntax) {
            text.push('}');
        }
        fs::write(&config, text).unwrap();
        let mut c = program();
        c.arg("start").arg("--config").arg(&config).current_dir(&dir.0).stdin(Stdio::null());
        let mut child = Running(c.spawn().unwrap());
        let begin = Instant::now();
        loop {
            if let Some(status) = child.0.try_wait().unwrap() {
                let mut err = String::new();
                child.0.stderr.take().unwrap().read_to_string(&mut err).unwrap();
                if broken {
                    ensure!(!status.success(), "wrong-config", "start with {:?} ended with success", case.wrong);
                    out.nontrivial = true;
                    out.tag("refused");
                    return Ok(out);
                }
                tries += 1;
                if err.contains("in use") && tries < 5 {
                    addr = free_addr();
                    if case.ws_too && v["listeners"]["ws"].is_object() {
                        v["listeners"]["ws"]["addr"] = json!(free_addr().to_string());
                    }
                    continue 'up;
                }
                return fail("ended", format!("start ended with {status}: {err}"));
            }
            if v["listeners"]["mqtt"].is_object() && TcpStream::connect(addr).is_ok() {
                ensure!(!broken, "wrong-config", "started with {:?}", case.wrong);
                break 'up child;
            }
            ensure!(begin.elapsed() < Duration::from_secs(40), "no-answer", "the server neither listens nor ends within 40 s ({:?})", case.wrong);
            std::thread::sleep(Duration::from_millis(3));
        }
    };
    out.nontrivial = true;
    out.tag("started");
    let connect = |ver: Ver, id: &str, user: Option<&str>, pass: Option<&str>| -> Result<(TcpStream, u8), Failure> {
        let mut s = TcpStream::connect(addr).map_err(|e| Failure { sig: "connect".into(), msg: e.to_string() })?;
        s.set_read_timeout(Some(Duration::from_secs(30))).unwrap();
        let o = ConnOpts { clean: true, user: user.map(String::from), pass: pass.map(|p| p.as_bytes().to_vec()), ..Default::default() };
        s.write_all(&connect_packet(ver, id, &o)).unwrap();
        match packet(&mut s) {
            Some(p) if p[0] == 0x20 => Ok((s, p[2])),
            p => fail("connack", format!("{ver:?} {user:?}: {p:?} instead of CONNACK")),
        }
    };
    for (i, (u, p, ver)) in case.logins.iter().enumerate() {
        let (_, code) = connect(*ver, &format!("login{i}"), Some(u), Some(p))?;
        let want = case.anonymous || accounts.get(u) == Some(p);
        ensure!((code == 0) == want, "login", "{u:?} with {p:?} ({ver:?}): CONNACK {code}, accounts {accounts:?}");
        out.tag(if want { "login-accepted" } else { "login-refused" });
    }
    // the default hooks let everything pass
    let me = accounts.iter().next().map(|(u, p)| (u.as_str(), p.as_str()));
    if case.anonymous || me.is_some() {
        for (i, (from, to, qos)) in case.talk.iter().enumerate() {
            let (mut a, c1) = connect(*from, &format!("a{i}"), me.map(|m| m.0), me.map(|m| m.1))?;
            let (mut b, c2) = connect(*to, &format!("b{i}"), me.map(|m| m.0), me.map(|m| m.1))?;
            ensure!(c1 == 0 && c2 == 0, "login", "CONNACK {c1} {c2} for {me:?}");
            b.write_all(&subscribe_packet(*to, 7, &[SubReq { filter: format!("t/{i}"), qos: 2, ..Default::default() }], None)).unwrap();
            let p = packet(&mut b);
            ensure!(p.as_ref().is_some_and(|p| p[0] == 0x90 && p[p.len() - 1] == 2), "talk", "SUBACK {p:?}");
            let m = OutPub { qos: *qos, pid: 9, topic: format!("t/{i}"), payload: b"hello".to_vec(), ..Default::default() };
            a.write_all(&publish_packet(*from, &m)).unwrap();
            let p = packet(&mut b);
            ensure!(p.as_ref().is_some_and(|p| p[0] == 0x30 | qos << 1 && p.ends_with(b"hello")), "talk", "QoS {qos} {from:?} to {to:?}: {p:?}");
            let p = if *qos > 0 { packet(&mut a) } else { Some(vec![0]) };
            ensure!(p.as_ref().is_some_and(|p| p[0] == [0, 0x40, 0x50][*qos as usize] && *p.get(3).unwrap_or(&0) == 0), "talk", "QoS {qos} {from:?}: {p:?}");
            b.write_all(&unsubscribe_packet(*to, 8, &[format!("t/{i}")])).unwrap();
            let p = packet(&mut b);
            ensure!(p.as_ref().is_some_and(|p| p[0] == 0xb0), "talk", "UNSUBACK {p:?}");
            out.tag("message");
        }
    }
    ensure!(child.0.try_wait().unwrap().is_none(), "ended", "the server ended");
    Ok(out)
}

fn start_case(_: Tier) -> BoxedStrategy<StartCase> {
    let ver = || prop_oneof![1 => Just(Ver::V310), 2 => Just(Ver::V311), 3 => Just(Ver::V5)];
    let known = || prop::sample::select(vec!["alice", "bob", "alice:x", "Bob"]).prop_map(String::from);
    let word = || prop::sample::select(vec!["pw", "pw2", "pw ", "秘密"]).prop_map(String::from);
    let wrong = prop_oneof![
        (3u8..255).prop_map(Wrong::Qos),
        Just(Wrong::PacketClient),
        Just(Wrong::PacketServer),
        Just(Wrong::NoListener),
        Just(Wrong::Mechanism),
        (0u16..4096).prop_map(Wrong::Iterations),
        Just(Wrong::NoPasswordPath),
        Just(Wrong::NoPasswordFile),
        Just(Wrong::BadPasswordFile),
        Just(Wrong::Syntax),
        (0u8..4).prop_map(Wrong::MissingField),
        (0u8..5).prop_map(Wrong::WrongType),
    ];
    (
        prop::bool::weighted(0.4),
        prop::collection::vec((known(), word(), 0u8..4), 0..4),
        prop::option::weighted(0.35, wrong),
        any::<bool>(),
        prop::collection::vec((known(), word(), ver()), 0..5),
        prop::collection::vec((ver(), ver(), 0u8..3), 0..4),
    )
        .prop_map(|(anonymous, users, wrong, ws_too, logins, talk)| StartCase { anonymous, users, wrong, ws_too, logins, talk })
        .boxed()
}

pub fn property() -> Property {
    Property {
        id: "C32",
        rule: "file: a command ran against a file with users; start: the server started or refused to",
        assumptions: &[],
        parts: vec![
            part("file", 3_000, 60_000, file_case, eval_file),
            part("start", 400, 8_000, start_case, eval_start),
        ],
    }
}
