//! A broker in this process and raw MQTT clients over in-memory streams (virtual time).
#![allow(dead_code)]
pub use std::sync::Arc;
pub use std::time::Duration;

pub use akasa_core::{Config, GlobalState, Hook};
pub use bytes::Bytes;
pub use mqtt_proto::{Pid, QoS, QosPid, TopicFilter, TopicName, v3, v5};
use tokio::io::{AsyncReadExt, AsyncWriteExt, DuplexStream};

#[derive(Clone)]
pub struct NoHook;
impl Hook for NoHook {}

pub fn config() -> Config {
    let mut c = Config::new_allow_anonymous();
    c.min_keep_alive = 0;
    c.inflight_timeout = 100_000;
    c.hook.enable_before_connect = false;
    c.hook.enable_after_connect = false;
    c.hook.enable_after_disconnect = false;
    c.hook.enable_publish = false;
    c.hook.enable_subscribe = false;
    c.hook.enable_unsubscribe = false;
    c
}

pub fn broker(c: Config) -> Arc<GlobalState> {
    Arc::new(GlobalState::new(c))
}

pub async fn settle() {
    tokio::time::sleep(Duration::from_millis(5)).await;
}

pub struct Conn {
    pub io: DuplexStream,
    pub v5: bool,
}

pub fn args() -> akasa_core::server::ConnectionArgs {
    akasa_core::server::ConnectionArgs {
        addr: "127.0.0.1:1883".parse().unwrap(),
        reuse_port: false,
        proxy: false,
        proxy_tls_termination: false,
        websocket: false,
        tls_acceptor: None,
    }
}

pub fn open_with<H: Hook + Clone + Send + Sync + 'static>(g: &Arc<GlobalState>, h: H, v5: bool) -> Conn {
    let (io, server) = tokio::io::duplex(1 << 20);
    tokio::spawn(akasa_core::server::handle_accept(server, args(), "127.0.0.1:9999".parse().unwrap(), h, g.clone()));
    Conn { io, v5 }
}
pub fn open(g: &Arc<GlobalState>, v5: bool) -> Conn {
    open_with(g, NoHook, v5)
}

#[derive(Debug, Clone)]
pub enum Any {
    V3(v3::Packet),
    V5(v5::Packet),
}

impl Conn {
    pub async fn raw(&mut self, data: &[u8]) {
        let _ = self.io.write_all(data).await;
    }
    pub async fn s5(&mut self, p: impl Into<v5::Packet>) {
        let d = p.into().encode().unwrap();
        self.raw(d.as_ref()).await
    }
    pub async fn s3(&mut self, p: impl Into<v3::Packet>) {
        let d = p.into().encode().unwrap();
        self.raw(d.as_ref()).await
    }
    /// The next packet, None when the connection is closed or nothing comes.
    pub async fn next(&mut self) -> Option<Any> {
        let f = async {
            let mut buf = vec![self.io.read_u8().await.ok()?];
            let mut len = 0usize;
            for i in 0.. {
                let b = self.io.read_u8().await.ok()?;
                buf.push(b);
                len |= ((b & 0x7f) as usize) << (7 * i);
                if b & 0x80 == 0 {
                    break;
                }
            }
            let at = buf.len();
            buf.resize(at + len, 0);
            self.io.read_exact(&mut buf[at..]).await.ok()?;
            Some(if self.v5 {
                Any::V5(v5::Packet::decode(&buf).unwrap().unwrap())
            } else {
                Any::V3(v3::Packet::decode(&buf).unwrap().unwrap())
            })
        };
        tokio::time::timeout(Duration::from_millis(200), f).await.ok().flatten()
    }
    pub async fn n5(&mut self) -> Option<v5::Packet> {
        match self.next().await {
            Some(Any::V5(p)) => Some(p),
            _ => None,
        }
    }
    pub async fn n3(&mut self) -> Option<v3::Packet> {
        match self.next().await {
            Some(Any::V3(p)) => Some(p),
            _ => None,
        }
    }
    /// The connection was closed by the broker.
    pub async fn closed(&mut self) -> bool {
        let mut b = [0u8; 4096];
        loop {
            match tokio::time::timeout(Duration::from_millis(200), self.io.read(&mut b)).await {
                Err(_) => return false,
                Ok(Ok(n)) if n > 0 => {}
                Ok(_) => return true,
            }
        }
    }
    /// v5 CONNECT; returns the CONNACK.
    pub async fn connect5(&mut self, id: &str, f: impl FnOnce(&mut v5::Connect)) -> Option<v5::Connack> {
        let mut c = v5::Connect::new(id.into(), 0);
        f(&mut c);
        self.s5(c).await;
        match self.n5().await {
            Some(v5::Packet::Connack(a)) => Some(a),
            _ => None,
        }
    }
    pub async fn connect3(&mut self, id: &str, f: impl FnOnce(&mut v3::Connect)) -> Option<v3::Connack> {
        let mut c = v3::Connect::new(id.into(), 0);
        f(&mut c);
        self.s3(c).await;
        match self.n3().await {
            Some(v3::Packet::Connack(a)) => Some(a),
            _ => None,
        }
    }
    pub async fn sub5(&mut self, f: &str, o: v5::SubscriptionOptions, id: Option<u32>) -> v5::Suback {
        let mut p = v5::Subscribe::new(pid(999), vec![(filter(f), o)]);
        p.properties.subscription_id = id.map(|v| v5::VarByteInt::try_from(v).unwrap());
        self.s5(p).await;
        loop {
            match self.n5().await.expect("suback") {
                v5::Packet::Suback(a) => return a,
                _ => continue,
            }
        }
    }
    pub async fn sub3(&mut self, f: &str, q: QoS) {
        self.s3(v3::Subscribe::new(pid(999), vec![(filter(f), q)])).await;
        loop {
            match self.n3().await.expect("suback") {
                v3::Packet::Suback(_) => return,
                _ => continue,
            }
        }
    }
}

pub fn pid(v: u16) -> Pid {
    Pid::try_from(v).unwrap()
}
pub fn topic(s: &str) -> TopicName {
    TopicName::try_from(s).unwrap()
}
pub fn filter(s: &str) -> TopicFilter {
    TopicFilter::try_from(s).unwrap()
}
pub fn opts(q: QoS) -> v5::SubscriptionOptions {
    v5::SubscriptionOptions::new(q)
}
pub fn pub5(t: &str, q: QosPid, payload: &str) -> v5::Publish {
    v5::Publish::new(q, topic(t), Bytes::from(payload.to_owned()))
}
pub fn pub3(t: &str, q: QosPid, payload: &str) -> v3::Publish {
    v3::Publish::new(q, topic(t), Bytes::from(payload.to_owned()))
}

pub fn run(f: impl Future<Output = ()>) {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    rt.block_on(f);
}
