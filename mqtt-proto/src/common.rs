use std::convert::TryFrom;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io;
use std::ops::{Add, AddAssign, Deref, Sub, SubAssign};
use std::sync::Arc;

use bytes::Bytes;
use thiserror::Error as ThisError;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

/// Character used to separate each level within a topic tree.
pub const LEVEL_SEP: char = '/';
pub const MATCH_ALL_CHAR: char = '#';
pub const MATCH_ALL_STR: &str = "#";
pub const MATCH_ONE_CHAR: char = '+';
pub const MATCH_ONE_STR: &str = "+";
pub const SHARED_PREFIX: &str = "$share/";
pub const SYS_PREFIX: &str = "$SYS/";
pub const MQISDP: &[u8] = b"MQIsdp";
pub const MQTT: &[u8] = b"MQTT";

pub type IoErrorKind = io::ErrorKind;

#[derive(ThisError, Debug, Clone, PartialEq, Eq)]
pub enum Error {
    #[error("invalid remaining length")]
    InvalidRemainingLength,
    #[error("empty subscription")]
    EmptySubscription,
    #[error("packet identifier is 0")]
    ZeroPid,
    #[error("invalid qos: `{0}`")]
    InvalidQos(u8),
    #[error("invalid connect flags: `{0}`")]
    InvalidConnectFlags(u8),
    #[error("invalid connack flags: `{0}`")]
    InvalidConnackFlags(u8),
    #[error("invalid connect return code: `{0}`")]
    InvalidConnectReturnCode(u8),
    #[error("invalid protocol: `{0}`, level={1}")]
    InvalidProtocol(String, u8),
    #[error("unexpected protocol: `{0}`")]
    UnexpectedProtocol(Protocol),
    #[error("invalid fixed header")]
    InvalidHeader,
    #[error("invalid variable byte integer")]
    InvalidVarByteInt,
    #[error("invalid topic name: `{0}`")]
    InvalidTopicName(String),
    #[error("invalid topic filter: `{0}`")]
    InvalidTopicFilter(String),
    #[error("invalid string")]
    InvalidString,
    #[error("io error: `{0:?}`")]
    IoError(IoErrorKind),
}

impl Error {
    pub fn is_eof(&self) -> bool {
        matches!(self, Error::IoError(IoErrorKind::UnexpectedEof))
    }
}

impl From<io::Error> for Error {
    fn from(err: io::Error) -> Error {
        Error::IoError(err.kind())
    }
}

impl From<Error> for io::Error {
    fn from(err: Error) -> io::Error {
        match err {
            Error::IoError(kind) => kind.into(),
            _ => io::ErrorKind::InvalidData.into(),
        }
    }
}

/// Protocol version.
#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Protocol {
    V310 = 3,
    V311 = 4,
    V500 = 5,
}

impl Protocol {
    pub fn new(name: &[u8], level: u8) -> Result<Protocol, Error> {
        match (name, level) {
            (MQISDP, 3) => Ok(Protocol::V310),
            (MQTT, 4) => Ok(Protocol::V311),
            (MQTT, 5) => Ok(Protocol::V500),
            _ => {
                let name = std::str::from_utf8(name).map_err(|_| Error::InvalidString)?;
                Err(Error::InvalidProtocol(name.into(), level))
            }
        }
    }

    pub fn to_pair(self) -> (&'static str, u8) {
        match self {
            Self::V310 => ("MQIsdp", 3),
            Self::V311 => ("MQTT", 4),
            Self::V500 => ("MQTT", 5),
        }
    }

    pub fn decode(mut bytes: &[u8]) -> Result<Self, Error> {
        futures_lite::future::block_on(Self::decode_async(&mut bytes))
    }

    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let name = read_bytes(reader).await?;
        let level = read_u8(reader).await?;
        Protocol::new(&name, level)
    }
}

impl fmt::Display for Protocol {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "{}",
            match self {
                Self::V310 => "v3.1",
                Self::V311 => "v3.1.1",
                Self::V500 => "v5.0",
            }
        )
    }
}

impl Encodable for Protocol {
    fn encode<W: io::Write>(&self, writer: &mut W) -> Result<(), Error> {
        let (name, level) = self.to_pair();
        write_bytes(writer, name.as_bytes())?;
        write_u8(writer, level)
    }
    fn encode_len(&self) -> usize {
        match self {
            Self::V310 => 2 + 6 + 1,
            _ => 2 + 4 + 1,
        }
    }
}

/// Packet identifier: 1..=65535, wrapping around without ever being 0.
#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Pid(u16);

impl Pid {
    pub fn value(self) -> u16 {
        self.0
    }
}
impl Default for Pid {
    fn default() -> Pid {
        Pid(1)
    }
}
impl TryFrom<u16> for Pid {
    type Error = Error;
    fn try_from(value: u16) -> Result<Self, Error> {
        if value == 0 {
            Err(Error::ZeroPid)
        } else {
            Ok(Pid(value))
        }
    }
}
impl Add<u16> for Pid {
    type Output = Pid;
    fn add(self, u: u16) -> Pid {
        let n = match self.0.overflowing_add(u) {
            (n, false) => n,
            (n, true) => n + 1,
        };
        Pid(n)
    }
}
impl AddAssign<u16> for Pid {
    fn add_assign(&mut self, other: u16) {
        *self = *self + other;
    }
}
impl Sub<u16> for Pid {
    type Output = Pid;
    fn sub(self, u: u16) -> Pid {
        let n = match self.0.overflowing_sub(u) {
            (0, _) => u16::MAX,
            (n, false) => n,
            (n, true) => n - 1,
        };
        Pid(n)
    }
}
impl SubAssign<u16> for Pid {
    fn sub_assign(&mut self, other: u16) {
        *self = *self - other;
    }
}

#[repr(u8)]
#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum QoS {
    Level0 = 0,
    Level1 = 1,
    Level2 = 2,
}

impl QoS {
    pub fn from_u8(byte: u8) -> Result<QoS, Error> {
        match byte {
            0 => Ok(QoS::Level0),
            1 => Ok(QoS::Level1),
            2 => Ok(QoS::Level2),
            n => Err(Error::InvalidQos(n)),
        }
    }
}

#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub enum QosPid {
    Level0,
    Level1(Pid),
    Level2(Pid),
}

impl QosPid {
    pub fn new(qos: QoS, pid: Option<Pid>) -> QosPid {
        match qos {
            QoS::Level0 => QosPid::Level0,
            QoS::Level1 => QosPid::Level1(pid.expect("pid")),
            QoS::Level2 => QosPid::Level2(pid.expect("pid")),
        }
    }
    pub fn pid(self) -> Option<Pid> {
        match self {
            QosPid::Level0 => None,
            QosPid::Level1(p) => Some(p),
            QosPid::Level2(p) => Some(p),
        }
    }
    pub fn qos(self) -> QoS {
        match self {
            QosPid::Level0 => QoS::Level0,
            QosPid::Level1(_) => QoS::Level1,
            QosPid::Level2(_) => QoS::Level2,
        }
    }
}

/// Topic name: no wildcard characters, no NUL, at most 65535 bytes.
/// (An empty name is representable: MQTT 5.0 uses it together with a topic alias.)
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TopicName(Arc<str>);

impl TopicName {
    pub fn is_invalid(value: &str) -> bool {
        value.len() > u16::MAX as usize
            || value.contains(|c: char| c == MATCH_ONE_CHAR || c == MATCH_ALL_CHAR || c == '\0')
    }
    pub fn is_shared(&self) -> bool {
        self.0.starts_with(SHARED_PREFIX)
    }
    pub fn is_sys(&self) -> bool {
        self.0.starts_with(SYS_PREFIX)
    }
}
impl TryFrom<String> for TopicName {
    type Error = Error;
    fn try_from(value: String) -> Result<Self, Error> {
        if TopicName::is_invalid(&value) {
            Err(Error::InvalidTopicName(value))
        } else {
            Ok(TopicName(Arc::from(value)))
        }
    }
}
impl TryFrom<&str> for TopicName {
    type Error = Error;
    fn try_from(value: &str) -> Result<Self, Error> {
        TopicName::try_from(value.to_string())
    }
}
impl TryFrom<Arc<str>> for TopicName {
    type Error = Error;
    fn try_from(value: Arc<str>) -> Result<Self, Error> {
        if TopicName::is_invalid(&value) {
            Err(Error::InvalidTopicName(value.to_string()))
        } else {
            Ok(TopicName(value))
        }
    }
}
impl fmt::Display for TopicName {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Deref for TopicName {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}

/// Topic filter, with the position at which the real filter of a shared
/// subscription begins (0: not a shared subscription).
#[derive(Debug, Clone)]
pub struct TopicFilter {
    inner: Arc<str>,
    shared_filter_sep: u16,
}

impl TopicFilter {
    /// Returns the index of the separator before the shared filter on success.
    fn check(value: &str) -> Option<u16> {
        if value.len() > u16::MAX as usize || value.is_empty() {
            return None;
        }
        if value.contains('\0') {
            return None;
        }
        let mut sep = 0usize;
        let mut filter = value;
        if let Some(rest) = value.strip_prefix(SHARED_PREFIX) {
            let idx = rest.find(LEVEL_SEP)?;
            let group = &rest[..idx];
            if group.is_empty() || group.contains(|c| c == MATCH_ALL_CHAR || c == MATCH_ONE_CHAR) {
                return None;
            }
            filter = &rest[idx + 1..];
            if filter.is_empty() {
                return None;
            }
            sep = SHARED_PREFIX.len() + idx;
        } else if value == "$share" {
            return None;
        }
        let levels: Vec<&str> = filter.split(LEVEL_SEP).collect();
        for (i, level) in levels.iter().enumerate() {
            if level.contains(MATCH_ALL_CHAR) && (*level != MATCH_ALL_STR || i + 1 != levels.len())
            {
                return None;
            }
            if level.contains(MATCH_ONE_CHAR) && *level != MATCH_ONE_STR {
                return None;
            }
        }
        Some(sep as u16)
    }
    pub fn is_invalid(value: &str) -> (bool, u16) {
        match Self::check(value) {
            Some(sep) => (false, sep),
            None => (true, 0),
        }
    }
    pub fn is_shared(&self) -> bool {
        self.shared_filter_sep > 0
    }
    pub fn is_sys(&self) -> bool {
        self.inner.starts_with(SYS_PREFIX)
    }
    pub fn shared_group_name(&self) -> Option<&str> {
        self.shared_info().map(|(g, _)| g)
    }
    pub fn shared_filter(&self) -> Option<&str> {
        self.shared_info().map(|(_, f)| f)
    }
    /// (share group name, the real filter)
    pub fn shared_info(&self) -> Option<(&str, &str)> {
        if self.shared_filter_sep > 0 {
            let sep = self.shared_filter_sep as usize;
            Some((&self.inner[SHARED_PREFIX.len()..sep], &self.inner[sep + 1..]))
        } else {
            None
        }
    }
}
impl PartialEq for TopicFilter {
    fn eq(&self, other: &Self) -> bool {
        self.inner == other.inner
    }
}
impl Eq for TopicFilter {}
impl PartialOrd for TopicFilter {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for TopicFilter {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.inner.cmp(&other.inner)
    }
}
impl Hash for TopicFilter {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.inner.hash(state)
    }
}
impl TryFrom<String> for TopicFilter {
    type Error = Error;
    fn try_from(value: String) -> Result<Self, Error> {
        match TopicFilter::check(&value) {
            Some(sep) => Ok(TopicFilter {
                inner: Arc::from(value),
                shared_filter_sep: sep,
            }),
            None => Err(Error::InvalidTopicFilter(value)),
        }
    }
}
impl TryFrom<&str> for TopicFilter {
    type Error = Error;
    fn try_from(value: &str) -> Result<Self, Error> {
        TopicFilter::try_from(value.to_string())
    }
}
impl TryFrom<Arc<str>> for TopicFilter {
    type Error = Error;
    fn try_from(value: Arc<str>) -> Result<Self, Error> {
        TopicFilter::try_from(value.to_string())
    }
}
impl fmt::Display for TopicFilter {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.inner)
    }
}
impl Deref for TopicFilter {
    type Target = str;
    fn deref(&self) -> &str {
        &self.inner
    }
}

/// Bytes of an encoded packet.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum VarBytes {
    Dynamic(Vec<u8>),
    Fixed2([u8; 2]),
    Fixed4([u8; 4]),
}
impl AsRef<[u8]> for VarBytes {
    fn as_ref(&self) -> &[u8] {
        match self {
            VarBytes::Dynamic(vec) => vec,
            VarBytes::Fixed2(arr) => &arr[..],
            VarBytes::Fixed4(arr) => &arr[..],
        }
    }
}
impl VarBytes {
    pub fn as_slice(&self) -> &[u8] {
        self.as_ref()
    }
}

pub trait Encodable {
    fn encode<W: io::Write>(&self, writer: &mut W) -> Result<(), Error>;
    fn encode_len(&self) -> usize;
}

/// Remaining length -> length of the whole packet (fixed header included).
pub fn total_len(remaining_len: usize) -> Result<usize, Error> {
    header_len(remaining_len).map(|h| h + remaining_len)
}
pub fn packet_len(remaining_len: usize) -> Result<usize, Error> {
    total_len(remaining_len)
}
pub fn header_len(remaining_len: usize) -> Result<usize, Error> {
    var_int_len(remaining_len).map(|n| n + 1)
}
pub fn remaining_len(total_len: usize) -> usize {
    match total_len {
        n if n < 2 + 128 => n.saturating_sub(2),
        n if n < 3 + 16384 => n - 3,
        n if n < 4 + 2097152 => n - 4,
        n => n - 5,
    }
}
pub fn var_int_len(value: usize) -> Result<usize, Error> {
    Ok(match value {
        0..=127 => 1,
        128..=16383 => 2,
        16384..=2097151 => 3,
        2097152..=268435455 => 4,
        _ => return Err(Error::InvalidVarByteInt),
    })
}

pub fn decode_raw_header(mut bytes: &[u8]) -> Result<(u8, u32, usize), Error> {
    futures_lite::future::block_on(decode_raw_header_async(&mut bytes))
}
/// Returns: (first byte, remaining length, number of bytes of the fixed header)
pub async fn decode_raw_header_async<T: AsyncRead + Unpin>(
    reader: &mut T,
) -> Result<(u8, u32, usize), Error> {
    let typ = read_u8(reader).await?;
    let (remaining_len, bytes) = decode_var_int_async(reader).await?;
    Ok((typ, remaining_len, 1 + bytes))
}
pub async fn decode_var_int_async<T: AsyncRead + Unpin>(
    reader: &mut T,
) -> Result<(u32, usize), Error> {
    let mut var_int: u32 = 0;
    let mut i = 0;
    loop {
        let byte = read_u8(reader).await?;
        var_int |= (u32::from(byte) & 0x7F) << (7 * i);
        if byte & 0x80 == 0 {
            break;
        } else if i < 3 {
            i += 1;
        } else {
            return Err(Error::InvalidVarByteInt);
        }
    }
    Ok((var_int, i + 1))
}

// ---- primitive readers / writers ----
pub async fn read_u8<T: AsyncRead + Unpin>(r: &mut T) -> Result<u8, Error> {
    let mut b = [0u8; 1];
    r.read_exact(&mut b).await?;
    Ok(b[0])
}
pub async fn read_u16<T: AsyncRead + Unpin>(r: &mut T) -> Result<u16, Error> {
    let mut b = [0u8; 2];
    r.read_exact(&mut b).await?;
    Ok(u16::from_be_bytes(b))
}
pub async fn read_u32<T: AsyncRead + Unpin>(r: &mut T) -> Result<u32, Error> {
    let mut b = [0u8; 4];
    r.read_exact(&mut b).await?;
    Ok(u32::from_be_bytes(b))
}
pub async fn read_bytes<T: AsyncRead + Unpin>(r: &mut T) -> Result<Vec<u8>, Error> {
    let len = read_u16(r).await?;
    let mut buf = vec![0u8; len as usize];
    r.read_exact(&mut buf).await?;
    Ok(buf)
}
pub async fn read_n<T: AsyncRead + Unpin>(r: &mut T, n: usize) -> Result<Vec<u8>, Error> {
    let mut buf = vec![0u8; n];
    r.read_exact(&mut buf).await?;
    Ok(buf)
}
pub async fn read_string<T: AsyncRead + Unpin>(r: &mut T) -> Result<String, Error> {
    let s = String::from_utf8(read_bytes(r).await?).map_err(|_| Error::InvalidString)?;
    if s.contains('\0') {
        return Err(Error::InvalidString);
    }
    Ok(s)
}
pub fn write_u8<W: io::Write>(w: &mut W, v: u8) -> Result<(), Error> {
    Ok(w.write_all(&[v])?)
}
pub fn write_u16<W: io::Write>(w: &mut W, v: u16) -> Result<(), Error> {
    Ok(w.write_all(&v.to_be_bytes())?)
}
pub fn write_u32<W: io::Write>(w: &mut W, v: u32) -> Result<(), Error> {
    Ok(w.write_all(&v.to_be_bytes())?)
}
pub fn write_bytes<W: io::Write>(w: &mut W, v: &[u8]) -> Result<(), Error> {
    write_u16(w, u16::try_from(v.len()).map_err(|_| Error::InvalidString)?)?;
    Ok(w.write_all(v)?)
}
pub fn write_var_int<W: io::Write>(w: &mut W, mut len: usize) -> Result<(), Error> {
    if len > 268435455 {
        return Err(Error::InvalidVarByteInt);
    }
    loop {
        let mut byte = (len % 128) as u8;
        len /= 128;
        if len > 0 {
            byte |= 128;
        }
        w.write_all(&[byte])?;
        if len == 0 {
            return Ok(());
        }
    }
}

pub(crate) async fn write_all_async<T: AsyncWrite + Unpin>(
    w: &mut T,
    data: &[u8],
) -> Result<(), Error> {
    w.write_all(data).await?;
    Ok(())
}

pub(crate) fn bytes_of(v: Vec<u8>) -> Bytes {
    Bytes::from(v)
}
