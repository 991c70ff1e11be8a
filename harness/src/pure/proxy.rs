//! C08: PROXY protocol v2 headers are parsed exactly.  C09: bad ones are refused, never crash.
use std::io;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::pin::Pin;
use std::task::{Context, Poll};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tokio::io::{AsyncRead, ReadBuf};

use crate::ensure;
use crate::runner::*;

/// The code under test, compiled from the repository (the module is private there).
#[allow(dead_code)]
#[path = "/repo/akasa-core/src/server/proxy.rs"]
mod sut;

const PREFIX: [u8; 12] = [0x0D, 0x0A, 0x0D, 0x0A, 0x00, 0x0D, 0x0A, 0x51, 0x55, 0x49, 0x54, 0x0A];

// ---------------------------------------------------------- reference

/// CRC-32C (Castagnoli), bit by bit.
pub fn crc32c(data: &[u8]) -> u32 {
    let mut crc = !0u32;
    for b in data {
        crc ^= *b as u32;
        for _ in 0..8 {
            crc = if crc & 1 == 1 { (crc >> 1) ^ 0x82F6_3B78 } else { crc >> 1 };
        }
    }
    !crc
}

#[derive(Clone, Debug, PartialEq)]
enum Parsed {
    Local,
    Proxy { stream: bool, addr: Vec<u8>, family: u8, sni: Option<String> },
    Refused,
    /// the specification leaves it to the receiver (refused or accepted without addresses)
    Open,
}

/// A strict reader written from the PROXY protocol specification and the documented limits.
fn reference(data: &[u8], tls: bool) -> (Parsed, usize) {
    if data.len() < 16 || data[..12] != PREFIX || data[12] >> 4 != 2 {
        return (Parsed::Refused, 0);
    }
    let len = u16::from_be_bytes([data[14], data[15]]) as usize;
    match data[12] & 15 {
        0 => {
            return if data[13] == 0 && len == 0 { (Parsed::Local, 16) } else { (Parsed::Open, 0) };
        }
        1 => {}
        _ => return (Parsed::Refused, 0),
    }
    let alen = match data[13] >> 4 {
        0 => return (Parsed::Open, 0),
        1 => 12,
        2 => 36,
        3 => 216,
        _ => return (Parsed::Refused, 0),
    };
    if len < alen {
        return (Parsed::Refused, 0);
    }
    let stream = match data[13] & 15 {
        0 => return (Parsed::Open, 0),
        1 => true,
        2 => false,
        _ => return (Parsed::Refused, 0),
    };
    if len - alen > 256 || data.len() < 16 + len {
        return (Parsed::Refused, 0);
    }
    let addr = data[16..16 + alen].to_vec();
    let all = &data[..16 + len];
    let mut pos = 16 + alen;
    let (mut ssl, mut sni, mut crcs, mut snis) = (false, None, 0, 0);
    while pos < all.len() {
        if all.len() - pos < 3 {
            return (Parsed::Refused, 0);
        }
        let n = u16::from_be_bytes([all[pos + 1], all[pos + 2]]) as usize;
        let ty = all[pos];
        pos += 3;
        if all.len() - pos < n {
            return (Parsed::Refused, 0);
        }
        let v = &all[pos..pos + n];
        match ty {
            0x02 => {
                snis += 1;
                match std::str::from_utf8(v) {
                    Ok(s) if !s.is_empty() => sni = Some(s.to_owned()),
                    _ => return (Parsed::Refused, 0),
                }
            }
            0x03 => {
                crcs += 1;
                if n != 4 {
                    return (Parsed::Refused, 0);
                }
                let mut copy = all.to_vec();
                copy[pos..pos + 4].fill(0);
                if u32::from_be_bytes([v[0], v[1], v[2], v[3]]) != crc32c(&copy) {
                    return (Parsed::Refused, 0);
                }
            }
            0x20 => {
                if n < 5 || v[1..5] != [0; 4] {
                    return (Parsed::Refused, 0);
                }
                ssl = true;
            }
            _ => {}
        }
        pos += n;
    }
    if crcs > 1 || snis > 1 {
        return (Parsed::Open, 0);
    }
    if tls != ssl || tls != sni.is_some() {
        return (Parsed::Refused, 0);
    }
    (Parsed::Proxy { stream, addr, family: data[13] >> 4, sni }, 16 + len)
}

// ---------------------------------------------------------- the reader

/// Hands the bytes out in pieces of the given sizes (0: not ready yet), then ends.
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    sizes: &'a [u8],
    next: usize,
}

impl AsyncRead for Pieces<'_> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut n = usize::MAX;
        if !self.sizes.is_empty() {
            n = self.sizes[self.next % self.sizes.len()] as usize;
            self.next += 1;
            if n == 0 {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        let n = n.min(buf.remaining()).min(self.data.len() - self.pos);
        let pos = self.pos;
        buf.put_slice(&self.data[pos..pos + n]);
        self.pos += n;
        Poll::Ready(Ok(()))
    }
}

/// What the code under test makes of the bytes, and how many it took.
fn run(data: &[u8], tls: bool, sizes: &[u8]) -> (Parsed, usize) {
    // at least one piece makes progress
    let sizes: Vec<u8> = if sizes.iter().all(|s| *s == 0) { Vec::new() } else { sizes.to_vec() };
    let mut r = Pieces { data, pos: 0, sizes: &sizes, next: 0 };
    let res = futures_lite::future::block_on(sut::parse_header(&mut r, tls));
    let parsed = match res {
        Err(_) => Parsed::Refused,
        Ok(None) => Parsed::Local,
        Ok(Some(h)) => {
            let mut addr = Vec::new();
            let family = match h.addresses {
                sut::Addresses::IPv4 { source_address, source_port, destination_address, destination_port } => {
                    let (s, d): (Ipv4Addr, Ipv4Addr) = (source_address, destination_address);
                    addr.extend(s.octets());
                    addr.extend(d.octets());
                    addr.extend(source_port.to_be_bytes());
                    addr.extend(destination_port.to_be_bytes());
                    1
                }
                sut::Addresses::IPv6 { source_address, source_port, destination_address, destination_port } => {
                    let (s, d): (Ipv6Addr, Ipv6Addr) = (source_address, destination_address);
                    addr.extend(s.octets());
                    addr.extend(d.octets());
                    addr.extend(source_port.to_be_bytes());
                    addr.extend(destination_port.to_be_bytes());
                    2
                }
                sut::Addresses::Unix { source, destination } => {
                    addr.extend(source);
                    addr.extend(destination);
                    3
                }
            };
            Parsed::Proxy { stream: h.protocol == sut::Protocol::Stream, addr, family, sni: h.tls_sni }
        }
    };
    (parsed, r.pos)
}

// ---------------------------------------------------------- generators

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tlv {
    Other(u8, Vec<u8>),
    Authority(Vec<u8>),
    Ssl { client: u8, verify: [u8; 4], sub: Vec<u8> },
    /// right, or xored with this
    Crc(u32),
    /// type 3 with a wrong length
    BadCrc(Vec<u8>),
    BadSsl(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    tls: bool,
    local: bool,
    family: u8,
    protocol: u8,
    addr: Vec<u8>,
    tlvs: Vec<Tlv>,
    trailing: Vec<u8>,
    sizes: Vec<u8>,
    /// then: overwrite bytes (position, xor)
    flips: Vec<(u16, u8)>,
    /// and cut
    cut: Option<u16>,
    /// length field changed by
    len_delta: i16,
}

fn encode(c: &Case) -> Vec<u8> {
    let mut v = PREFIX.to_vec();
    if c.local {
        v.extend([0x20, 0, 0, 0]);
        v.extend(&c.trailing);
        return v;
    }
    v.push(0x21);
    v.push(c.family << 4 | c.protocol);
    let mut body = Vec::new();
    let alen = [0, 12, 36, 216, 0][c.family.min(4) as usize];
    body.extend(c.addr.iter().cycle().take(alen));
    let mut crc_at = Vec::new();
    for t in &c.tlvs {
        let (ty, val): (u8, Vec<u8>) = match t {
            Tlv::Other(t, v) => (*t, v.clone()),
            Tlv::Authority(a) => (2, a.clone()),
            Tlv::Ssl { client, verify, sub } => {
                let mut v = vec![*client];
                v.extend(verify);
                v.extend(sub);
                (0x20, v)
            }
            Tlv::Crc(x) => {
                crc_at.push((16 + body.len() + 3, *x));
                (3, vec![0; 4])
            }
            Tlv::BadCrc(v) => (3, v.clone()),
            Tlv::BadSsl(v) => (0x20, v.clone()),
        };
        body.push(ty);
        body.extend((val.len() as u16).to_be_bytes());
        body.extend(val);
    }
    let len = (body.len() as i32 + c.len_delta as i32).clamp(0, 65535) as u16;
    v.extend(len.to_be_bytes());
    v.extend(body);
    let crc = crc32c(&v);
    for (at, x) in crc_at {
        v[at..at + 4].copy_from_slice(&(crc ^ x).to_be_bytes());
    }
    v.extend(&c.trailing);
    v
}

fn authority() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![4 => "[a-z0-9.-]{1,30}".prop_map(String::into_bytes), 1 => "\\PC{1,10}".prop_map(String::into_bytes), 1 => "[a-z]{60,90}".prop_map(String::into_bytes)].boxed()
}

fn other() -> BoxedStrategy<Tlv> {
    let ty = prop_oneof![
        3 => prop::sample::select(vec![0x01u8, 0x04, 0x05, 0x21, 0x22, 0x30, 0xE0, 0xFF, 0x00, 0x10]),
        1 => (0x40u8..0xf0).boxed()
    ];
    (ty, prop_oneof![4 => prop::collection::vec(any::<u8>(), 0..20), 1 => prop::collection::vec(any::<u8>(), 20..90)])
        .prop_map(|(t, v)| Tlv::Other(t, v))
        .boxed()
}

fn ssl() -> BoxedStrategy<Tlv> {
    (any::<u8>(), prop::collection::vec(any::<u8>(), 0..20))
        .prop_map(|(client, sub)| Tlv::Ssl { client, verify: [0; 4], sub })
        .boxed()
}

fn body_len(tlvs: &[Tlv]) -> usize {
    tlvs.iter()
        .map(|t| {
            3 + match t {
                Tlv::Other(_, v) | Tlv::Authority(v) | Tlv::BadCrc(v) | Tlv::BadSsl(v) => v.len(),
                Tlv::Ssl { sub, .. } => 5 + sub.len(),
                Tlv::Crc(_) => 4,
            }
        })
        .sum()
}

/// Headers which have to be accepted.
fn valid() -> BoxedStrategy<Case> {
    (
        any::<bool>(),
        prop::bool::weighted(0.1),
        1u8..4,
        1u8..3,
        prop::collection::vec(any::<u8>(), 216),
        (prop::collection::vec(other(), 0..4), authority(), ssl(), prop::bool::weighted(0.6)),
        any::<[prop::sample::Index; 3]>(),
        prop::collection::vec(any::<u8>(), 0..40),
        prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(0u8..20, 1..6)],
    )
        .prop_map(|(tls, local, family, protocol, addr, (others, sni, ssl, crc), at, trailing, sizes)| {
            let mut tlvs = others;
            let put = |v: &mut Vec<Tlv>, i: usize, t: Tlv| {
                let i = at[i].index(v.len() + 1);
                v.insert(i, t);
            };
            if tls {
                put(&mut tlvs, 0, Tlv::Authority(sni));
                put(&mut tlvs, 1, ssl);
            }
            if crc {
                put(&mut tlvs, 2, Tlv::Crc(0));
            }
            // documented limit: at most 256 bytes of TLVs
            while body_len(&tlvs) > 256 {
                let i = tlvs.iter().position(|t| matches!(t, Tlv::Other(..))).unwrap();
                tlvs.remove(i);
            }
            // grow to the limit now and then
            let rest = 256 - body_len(&tlvs);
            if trailing.len() % 5 == 0 && rest >= 3 {
                let n = if trailing.len() % 2 == 0 { rest - 3 } else { rest / 2 };
                if n + 3 <= rest {
                    tlvs.push(Tlv::Other(0x04, vec![7; n]));
                }
            }
            Case { tls, local, family, protocol, addr, tlvs, trailing, sizes, flips: vec![], cut: None, len_delta: 0 }
        })
        .boxed()
}

fn eval_valid(c: &Case) -> CaseResult {
    let data = encode(c);
    let total = data.len() - c.trailing.len();
    let want = if c.local {
        Parsed::Local
    } else {
        let alen = [0, 12, 36, 216][c.family as usize];
        let sni = c.tlvs.iter().find_map(|t| match t {
            Tlv::Authority(a) => Some(String::from_utf8(a.clone()).unwrap()),
            _ => None,
        });
        Parsed::Proxy { stream: c.protocol == 1, addr: c.addr[..alen].to_vec(), family: c.family, sni }
    };
    let (got, used) = run(&data, c.tls, &c.sizes);
    ensure!(got == want, "parse", "the header {} was parsed as {got:?}, expected {want:?}", hex::encode(&data[..total]));
    ensure!(used == total, "consumed", "{used} bytes were taken for a header of {total}: {}", hex::encode(&data));
    // the other mode
    if !c.local {
        let (got, _) = run(&data, !c.tls, &c.sizes);
        ensure!(got == Parsed::Refused, "mode", "a header for tls={} was accepted for tls={}: {got:?}", c.tls, !c.tls);
    }
    let mut out = Outcome { nontrivial: !c.local, ..Default::default() };
    out.tag(["local", "ipv4", "ipv6", "unix"][if c.local { 0 } else { c.family as usize }]);
    out.tag_if(c.tlvs.iter().any(|t| matches!(t, Tlv::Crc(_))), "crc");
    out.tag_if(body_len(&c.tlvs) == 256, "limit");
    Ok(out)
}

/// Anything: valid headers damaged in one or more ways, or wrong on purpose.
fn broken() -> BoxedStrategy<Case> {
    let odd = prop_oneof![
        2 => prop_oneof![prop::collection::vec(any::<u8>(), 0..6), Just(vec![0xff, 0xfe]), Just(vec![])].prop_map(Tlv::Authority),
        2 => (any::<u8>(), any::<[u8; 4]>()).prop_map(|(client, verify)| Tlv::Ssl { client, verify, sub: vec![] }),
        2 => (0usize..4, 0u32..32).prop_map(|(n, b)| Tlv::Ssl { client: 1, verify: { let mut v = [0; 4]; v[n] = 1 << (b % 8); v }, sub: vec![] }),
        2 => (0u32..32).prop_map(|b| Tlv::Crc(1 << b)),
        1 => any::<u32>().prop_map(Tlv::Crc),
        1 => prop::collection::vec(any::<u8>(), 0..8).prop_map(Tlv::BadCrc),
        2 => prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => any::<u8>()], 0..7).prop_map(Tlv::BadSsl),
        1 => ssl(),
        1 => (any::<u8>(), prop::collection::vec(any::<u8>(), 0..300)).prop_map(|(t, v)| Tlv::Other(t, v)),
    ];
    (
        valid(),
        prop::option::weighted(0.4, (odd, any::<prop::sample::Index>(), any::<bool>())),
        prop_oneof![3 => Just(vec![]), 4 => prop::collection::vec((prop_oneof![3 => 0u16..16, 1 => any::<u16>()], prop_oneof![2 => (0u8..8).prop_map(|b| 1 << b), 1 => any::<u8>()]), 1..3)],
        prop_oneof![4 => Just(None), 1 => any::<u16>().prop_map(Some)],
        prop_oneof![4 => Just(0i16), 1 => -6i16..7, 1 => any::<i16>()],
        prop::option::weighted(0.15, (0u8..16, 0u8..16)),
    )
        .prop_map(|(mut c, odd, flips, cut, len_delta, fam)| {
            if let Some((t, at, replace)) = odd {
                let i = at.index(c.tlvs.len() + 1);
                if replace && i < c.tlvs.len() {
                    c.tlvs[i] = t;
                } else {
                    c.tlvs.insert(i, t);
                }
            }
            if let Some((f, p)) = fam {
                c.family = f;
                c.protocol = p;
            }
            c.flips = flips;
            c.cut = cut;
            c.len_delta = len_delta;
            c
        })
        .boxed()
}

fn compare(data: &[u8], tls: bool, sizes: &[u8]) -> Result<(Parsed, Parsed), Failure> {
    let (want, end) = reference(data, tls);
    let (got, used) = run(data, tls, sizes);
    match &want {
        Parsed::Open => ensure!(
            !matches!(got, Parsed::Proxy { .. }) || data[13] >> 4 != 0 && data[13] & 15 != 0 && data[12] & 15 == 1,
            "open",
            "a header without addresses gives {got:?}: {}",
            hex::encode(data)
        ),
        w => {
            let sig = match (w, &got) {
                (Parsed::Refused, _) => "accepted",
                (_, Parsed::Refused) => "refused",
                _ => "parse",
            };
            ensure!(*w == got, sig, "tls={tls}: {} gives {got:?}, expected {want:?}", hex::encode(data));
            ensure!(matches!(w, Parsed::Refused) || used == end, "consumed", "{used} bytes taken, the header has {end}: {}", hex::encode(data));
        }
    }
    Ok((want, got))
}

fn eval_broken(c: &Case) -> CaseResult {
    let mut data = encode(c);
    for (at, x) in &c.flips {
        let n = data.len();
        data[*at as usize % n] ^= x;
    }
    if let Some(cut) = c.cut {
        data.truncate(cut as usize % (data.len() + 1));
    }
    let (want, _) = compare(&data, c.tls, &c.sizes)?;
    let mut out = Outcome { nontrivial: matches!(want, Parsed::Refused | Parsed::Open), ..Default::default() };
    out.tag(match want {
        Parsed::Refused => "refused",
        Parsed::Open => "no-address",
        _ => "still-valid",
    });
    Ok(out)
}

/// Every prefix of a valid header, and every single-bit error in one with a checksum.
fn eval_exhaust(c: &Case) -> CaseResult {
    let data = encode(c);
    let total = data.len() - c.trailing.len();
    for n in 0..total {
        let (got, _) = run(&data[..n], c.tls, &c.sizes);
        ensure!(got == Parsed::Refused, "truncated", "the first {n} of {total} bytes of {} give {got:?}", hex::encode(&data[..total]));
    }
    let crc = c.tlvs.iter().any(|t| matches!(t, Tlv::Crc(_))) && !c.local;
    if crc {
        for bit in 0..total * 8 {
            let mut d = data.clone();
            d[bit / 8] ^= 1 << (bit % 8);
            compare(&d, c.tls, &[])?;
        }
    }
    let mut out = Outcome { nontrivial: crc, ..Default::default() };
    out.tag_if(crc, "all-single-bit-errors");
    Ok(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    tls: bool,
    data: Vec<u8>,
    sizes: Vec<u8>,
}

fn raw() -> BoxedStrategy<Raw> {
    (
        any::<bool>(),
        0u8..4,
        prop_oneof![4 => prop::sample::select(vec![0x21u8, 0x20, 0x22, 0x11, 0x31]), 1 => any::<u8>()],
        prop_oneof![4 => prop::sample::select(vec![0x11u8, 0x12, 0x21, 0x22, 0x31, 0x32, 0x00, 0x01, 0x10]), 1 => any::<u8>()],
        prop_oneof![4 => 0u16..300, 1 => any::<u16>()],
        prop::collection::vec(prop_oneof![2 => 0u8..8, 1 => any::<u8>()], 0..600),
        prop::collection::vec(0u8..40, 0..4),
    )
        .prop_map(|(tls, k, cmd, fam, len, body, sizes)| {
            let mut data = if k == 0 { Vec::new() } else { PREFIX.to_vec() };
            if k >= 2 {
                data.extend([cmd, fam]);
                data.extend(len.to_be_bytes());
            }
            data.extend(body);
            Raw { tls, data, sizes }
        })
        .boxed()
}

fn eval_raw(c: &Raw) -> CaseResult {
    let (want, _) = compare(&c.data, c.tls, &c.sizes)?;
    let mut out = Outcome { nontrivial: c.data.len() >= 16 && c.data[..12] == PREFIX, ..Default::default() };
    out.tag_if(matches!(want, Parsed::Proxy { .. }), "valid");
    Ok(out)
}

pub fn valid_property() -> Property {
    Property {
        id: "C08",
        rule: "headers from an independent encoder (families, protocols, addresses, unknown and known TLVs in any order up to the 256-byte limit, checksums), followed by payload, delivered in random pieces; non-trivial = PROXY command",
        assumptions: &["at most 256 bytes of TLVs, no repeated AUTHORITY or CRC32C TLV (documented limit / not meaningful)"],
        parts: vec![part("valid", 500_000, 10_000_000, |_| valid(), eval_valid)],
    }
}

pub fn reject_property() -> Property {
    Property {
        id: "C09",
        rule: "valid headers damaged (bit flips, truncation, wrong lengths, wrong checksum, wrong TLVs, other families), all prefixes and all single-bit errors of checksummed headers, arbitrary bytes; compared with a strict reference reader; non-trivial = the input has to be refused (or the header begins like one)",
        assumptions: &["PROXY headers without an address family or protocol and LOCAL headers with a body may be refused or accepted without addresses (the specification leaves it open); they must not crash"],
        parts: vec![
            part("damaged", 500_000, 10_000_000, |_| broken(), eval_broken),
            part("exhaust", 20_000, 400_000, |_| valid(), eval_exhaust),
            part("bytes", 500_000, 10_000_000, |_| raw(), eval_raw),
        ],
    }
}
