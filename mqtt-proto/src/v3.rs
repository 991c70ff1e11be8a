//! MQTT 3.1 / 3.1.1
use std::convert::TryFrom;
use std::io;
use std::sync::Arc;

use bytes::Bytes;
use tokio::io::{AsyncRead, AsyncWrite};

use crate::common::*;
use crate::poll::*;

pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;
pub type PollPacketState = GenericPollPacketState<Header>;
pub type PollBodyState = GenericPollBodyState<Header>;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}

impl Header {
    pub fn new(
        typ: PacketType,
        dup: bool,
        qos: QoS,
        retain: bool,
        remaining_len: u32,
        total_len: u32,
    ) -> Self {
        Self {
            typ,
            dup,
            qos,
            retain,
            remaining_len,
            total_len,
        }
    }

    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Header, Error> {
        const FLAGS_MASK: u8 = 0b1111;
        let (typ, flags_ok) = match hd >> 4 {
            1 => (PacketType::Connect, hd & FLAGS_MASK == 0),
            2 => (PacketType::Connack, hd & FLAGS_MASK == 0),
            3 => {
                return Ok(Header {
                    typ: PacketType::Publish,
                    dup: hd & 0b1000 != 0,
                    qos: QoS::from_u8((hd & 0b110) >> 1)?,
                    retain: hd & 1 == 1,
                    remaining_len,
                    total_len,
                });
            }
            4 => (PacketType::Puback, hd & FLAGS_MASK == 0),
            5 => (PacketType::Pubrec, hd & FLAGS_MASK == 0),
            6 => (PacketType::Pubrel, hd & FLAGS_MASK == 0b0010),
            7 => (PacketType::Pubcomp, hd & FLAGS_MASK == 0),
            8 => (PacketType::Subscribe, hd & FLAGS_MASK == 0b0010),
            9 => (PacketType::Suback, hd & FLAGS_MASK == 0),
            10 => (PacketType::Unsubscribe, hd & FLAGS_MASK == 0b0010),
            11 => (PacketType::Unsuback, hd & FLAGS_MASK == 0),
            12 => (PacketType::Pingreq, hd & FLAGS_MASK == 0),
            13 => (PacketType::Pingresp, hd & FLAGS_MASK == 0),
            14 => (PacketType::Disconnect, hd & FLAGS_MASK == 0),
            _ => (PacketType::Connect, false),
        };
        if !flags_ok {
            return Err(Error::InvalidHeader);
        }
        Ok(Header {
            typ,
            dup: false,
            qos: QoS::Level0,
            retain: false,
            remaining_len,
            total_len,
        })
    }

    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let (typ, remaining_len, hlen) = decode_raw_header_async(reader).await?;
        Header::new_with(typ, remaining_len, hlen as u32 + remaining_len)
    }
    pub fn decode(mut bytes: &[u8]) -> Result<Self, Error> {
        futures_lite::future::block_on(Self::decode_async(&mut bytes))
    }
}

impl PollHeader for Header {
    type Error = Error;
    type Packet = Packet;

    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, Error> {
        Header::new_with(hd, remaining_len, total_len)
    }
    fn build_empty_packet(&self) -> Option<Packet> {
        match self.typ {
            PacketType::Pingreq => Some(Packet::Pingreq),
            PacketType::Pingresp => Some(Packet::Pingresp),
            PacketType::Disconnect => Some(Packet::Disconnect),
            _ => None,
        }
    }
    fn block_decode(self, reader: &mut &[u8]) -> Result<Packet, Error> {
        futures_lite::future::block_on(Packet::decode_with_header(reader, self))
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
    fn total_len(&self) -> usize {
        self.total_len as usize
    }
    fn is_eof_error(err: &Error) -> bool {
        err.is_eof()
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Pid),
    Pubrec(Pid),
    Pubrel(Pid),
    Pubcomp(Pid),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Pid),
    Pingreq,
    Pingresp,
    Disconnect,
}

macro_rules! packet_from {
    ($($t:ident),+) => {
        $(impl From<$t> for Packet {
            fn from(p: $t) -> Packet { Packet::$t(p) }
        })+
    }
}
packet_from!(Connect, Connack, Publish, Subscribe, Suback, Unsubscribe);

impl Packet {
    pub fn get_type(&self) -> PacketType {
        match self {
            Packet::Connect(_) => PacketType::Connect,
            Packet::Connack(_) => PacketType::Connack,
            Packet::Publish(_) => PacketType::Publish,
            Packet::Puback(_) => PacketType::Puback,
            Packet::Pubrec(_) => PacketType::Pubrec,
            Packet::Pubrel(_) => PacketType::Pubrel,
            Packet::Pubcomp(_) => PacketType::Pubcomp,
            Packet::Subscribe(_) => PacketType::Subscribe,
            Packet::Suback(_) => PacketType::Suback,
            Packet::Unsubscribe(_) => PacketType::Unsubscribe,
            Packet::Unsuback(_) => PacketType::Unsuback,
            Packet::Pingreq => PacketType::Pingreq,
            Packet::Pingresp => PacketType::Pingresp,
            Packet::Disconnect => PacketType::Disconnect,
        }
    }

    /// Decode a packet from some bytes; `None` if the bytes are not a whole packet yet.
    pub fn decode(mut bytes: &[u8]) -> Result<Option<Self>, Error> {
        match futures_lite::future::block_on(Self::decode_async(&mut bytes)) {
            Ok(pkt) => Ok(Some(pkt)),
            Err(err) if err.is_eof() => Ok(None),
            Err(err) => Err(err),
        }
    }

    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let header = Header::decode_async(reader).await?;
        let body = read_n(reader, header.remaining_len as usize).await?;
        let mut slice = &body[..];
        match Self::decode_with_header(&mut slice, header).await {
            Ok(p) if slice.is_empty() => Ok(p),
            Ok(_) => Err(Error::InvalidRemainingLength),
            Err(err) if err.is_eof() => Err(Error::InvalidRemainingLength),
            Err(err) => Err(err),
        }
    }

    async fn decode_with_header<T: AsyncRead + Unpin>(
        r: &mut T,
        header: Header,
    ) -> Result<Self, Error> {
        Ok(match header.typ {
            PacketType::Pingreq => Packet::Pingreq,
            PacketType::Pingresp => Packet::Pingresp,
            PacketType::Disconnect => Packet::Disconnect,
            PacketType::Connect => Connect::decode_async(r).await?.into(),
            PacketType::Connack => Connack::decode_async(r).await?.into(),
            PacketType::Publish => Publish::decode_async(r, header).await?.into(),
            PacketType::Puback => Packet::Puback(Pid::try_from(read_u16(r).await?)?),
            PacketType::Pubrec => Packet::Pubrec(Pid::try_from(read_u16(r).await?)?),
            PacketType::Pubrel => Packet::Pubrel(Pid::try_from(read_u16(r).await?)?),
            PacketType::Pubcomp => Packet::Pubcomp(Pid::try_from(read_u16(r).await?)?),
            PacketType::Subscribe => {
                Subscribe::decode_async(r, header.remaining_len as usize)
                    .await?
                    .into()
            }
            PacketType::Suback => Suback::decode_async(r, header.remaining_len as usize)
                .await?
                .into(),
            PacketType::Unsubscribe => {
                Unsubscribe::decode_async(r, header.remaining_len as usize)
                    .await?
                    .into()
            }
            PacketType::Unsuback => Packet::Unsuback(Pid::try_from(read_u16(r).await?)?),
        })
    }

    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, writer: &mut T) -> Result<(), Error> {
        write_all_async(writer, self.encode()?.as_ref()).await
    }

    pub fn encode(&self) -> Result<VarBytes, Error> {
        fn pid(control: u8, p: Pid) -> VarBytes {
            let v = p.value();
            VarBytes::Fixed4([control, 2, (v >> 8) as u8, v as u8])
        }
        fn body<E: Encodable>(control: u8, e: &E) -> Result<VarBytes, Error> {
            let len = e.encode_len();
            let mut buf = Vec::with_capacity(total_len(len)?);
            buf.push(control);
            write_var_int(&mut buf, len)?;
            e.encode(&mut buf)?;
            debug_assert_eq!(buf.len(), total_len(len)?);
            Ok(VarBytes::Dynamic(buf))
        }
        Ok(match self {
            Packet::Pingreq => VarBytes::Fixed2([0b1100_0000, 0]),
            Packet::Pingresp => VarBytes::Fixed2([0b1101_0000, 0]),
            Packet::Disconnect => VarBytes::Fixed2([0b1110_0000, 0]),
            Packet::Connack(c) => {
                VarBytes::Fixed4([0b0010_0000, 2, c.session_present as u8, c.code as u8])
            }
            Packet::Puback(p) => pid(0b0100_0000, *p),
            Packet::Pubrec(p) => pid(0b0101_0000, *p),
            Packet::Pubrel(p) => pid(0b0110_0010, *p),
            Packet::Pubcomp(p) => pid(0b0111_0000, *p),
            Packet::Unsuback(p) => pid(0b1011_0000, *p),
            Packet::Connect(c) => body(0b0001_0000, c)?,
            Packet::Publish(p) => body(p.control_byte(), p)?,
            Packet::Subscribe(p) => body(0b1000_0010, p)?,
            Packet::Suback(p) => body(0b1001_0000, p)?,
            Packet::Unsubscribe(p) => body(0b1010_0010, p)?,
        })
    }

    /// Length of the whole encoded packet.
    pub fn encode_len(&self) -> Result<usize, Error> {
        Ok(match self {
            Packet::Pingreq | Packet::Pingresp | Packet::Disconnect => 2,
            Packet::Connack(_)
            | Packet::Puback(_)
            | Packet::Pubrec(_)
            | Packet::Pubrel(_)
            | Packet::Pubcomp(_)
            | Packet::Unsuback(_) => 4,
            Packet::Connect(p) => total_len(p.encode_len())?,
            Packet::Publish(p) => total_len(p.encode_len())?,
            Packet::Subscribe(p) => total_len(p.encode_len())?,
            Packet::Suback(p) => total_len(p.encode_len())?,
            Packet::Unsubscribe(p) => total_len(p.encode_len())?,
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_session: bool,
    pub keep_alive: u16,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}

impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Self {
        Connect {
            protocol: Protocol::V311,
            clean_session: true,
            keep_alive,
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }

    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, Error> {
        let protocol = Protocol::decode_async(reader).await?;
        Self::decode_with_protocol(reader, protocol).await
    }

    pub async fn decode_with_protocol<T: AsyncRead + Unpin>(
        reader: &mut T,
        protocol: Protocol,
    ) -> Result<Self, Error> {
        Self::decode_stream_with_protocol(reader, protocol).await
    }

    /// Decode the rest of a CONNECT packet, whose protocol name and level were read before.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        reader: &mut T,
        protocol: Protocol,
    ) -> Result<Self, Error> {
        if protocol > Protocol::V311 {
            return Err(Error::UnexpectedProtocol(protocol));
        }
        let flags = read_u8(reader).await?;
        if flags & 1 != 0 {
            return Err(Error::InvalidConnectFlags(flags));
        }
        let keep_alive = read_u16(reader).await?;
        let client_id = Arc::from(read_string(reader).await?);
        let last_will = if flags & 0b100 != 0 {
            let topic_name = TopicName::try_from(read_string(reader).await?)?;
            let message = read_bytes(reader).await?;
            let qos = QoS::from_u8((flags & 0b11000) >> 3)?;
            let retain = flags & 0b0010_0000 != 0;
            Some(LastWill {
                qos,
                retain,
                topic_name,
                message: bytes_of(message),
            })
        } else if flags & 0b0011_1000 != 0 {
            return Err(Error::InvalidConnectFlags(flags));
        } else {
            None
        };
        let username = if flags & 0b1000_0000 != 0 {
            Some(Arc::from(read_string(reader).await?))
        } else {
            None
        };
        let password = if flags & 0b0100_0000 != 0 {
            Some(bytes_of(read_bytes(reader).await?))
        } else {
            None
        };
        Ok(Connect {
            protocol,
            clean_session: flags & 0b10 != 0,
            keep_alive,
            client_id,
            last_will,
            username,
            password,
        })
    }
}

impl Encodable for Connect {
    fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        let mut flags = 0u8;
        if self.clean_session {
            flags |= 0b10;
        }
        if self.username.is_some() {
            flags |= 0b1000_0000;
        }
        if self.password.is_some() {
            flags |= 0b0100_0000;
        }
        if let Some(will) = &self.last_will {
            flags |= 0b100 | ((will.qos as u8) << 3);
            if will.retain {
                flags |= 0b0010_0000;
            }
        }
        self.protocol.encode(w)?;
        write_u8(w, flags)?;
        write_u16(w, self.keep_alive)?;
        write_bytes(w, self.client_id.as_bytes())?;
        if let Some(will) = &self.last_will {
            write_bytes(w, will.topic_name.as_bytes())?;
            write_bytes(w, &will.message)?;
        }
        if let Some(u) = &self.username {
            write_bytes(w, u.as_bytes())?;
        }
        if let Some(p) = &self.password {
            write_bytes(w, p)?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        let mut len = self.protocol.encode_len() + 1 + 2 + 2 + self.client_id.len();
        if let Some(will) = &self.last_will {
            len += 4 + will.topic_name.len() + will.message.len();
        }
        if let Some(u) = &self.username {
            len += 2 + u.len();
        }
        if let Some(p) = &self.password {
            len += 2 + p.len();
        }
        len
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub message: Bytes,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, message: Bytes) -> Self {
        LastWill {
            qos,
            retain: false,
            topic_name,
            message,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub code: ConnectReturnCode,
}
impl Connack {
    pub fn new(session_present: bool, code: ConnectReturnCode) -> Self {
        Connack {
            session_present,
            code,
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(r: &mut T) -> Result<Self, Error> {
        let flags = read_u8(r).await?;
        let code = read_u8(r).await?;
        if flags > 1 {
            return Err(Error::InvalidConnackFlags(flags));
        }
        Ok(Connack::new(flags == 1, ConnectReturnCode::from_u8(code)?))
    }
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum ConnectReturnCode {
    Accepted = 0,
    UnacceptableProtocolVersion = 1,
    IdentifierRejected = 2,
    ServerUnavailable = 3,
    BadUserNameOrPassword = 4,
    NotAuthorized = 5,
}
impl ConnectReturnCode {
    pub fn from_u8(byte: u8) -> Result<Self, Error> {
        Ok(match byte {
            0 => Self::Accepted,
            1 => Self::UnacceptableProtocolVersion,
            2 => Self::IdentifierRejected,
            3 => Self::ServerUnavailable,
            4 => Self::BadUserNameOrPassword,
            5 => Self::NotAuthorized,
            n => return Err(Error::InvalidConnectReturnCode(n)),
        })
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Publish {
    pub dup: bool,
    pub retain: bool,
    pub qos_pid: QosPid,
    pub topic_name: TopicName,
    pub payload: Bytes,
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Self {
        Publish {
            dup: false,
            retain: false,
            qos_pid,
            topic_name,
            payload,
        }
    }
    fn control_byte(&self) -> u8 {
        let mut b = 0b0011_0000 | ((self.qos_pid.qos() as u8) << 1);
        if self.dup {
            b |= 0b1000;
        }
        if self.retain {
            b |= 1;
        }
        b
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(
        r: &mut T,
        header: Header,
    ) -> Result<Self, Error> {
        let mut remaining = header.remaining_len as usize;
        let topic = read_string(r).await?;
        remaining = remaining
            .checked_sub(2 + topic.len())
            .ok_or(Error::InvalidRemainingLength)?;
        let topic_name = TopicName::try_from(topic)?;
        let qos_pid = match header.qos {
            QoS::Level0 => QosPid::Level0,
            qos => {
                remaining = remaining
                    .checked_sub(2)
                    .ok_or(Error::InvalidRemainingLength)?;
                QosPid::new(qos, Some(Pid::try_from(read_u16(r).await?)?))
            }
        };
        let payload = bytes_of(read_n(r, remaining).await?);
        Ok(Publish {
            dup: header.dup,
            retain: header.retain,
            qos_pid,
            topic_name,
            payload,
        })
    }
}
impl Encodable for Publish {
    fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_bytes(w, self.topic_name.as_bytes())?;
        if let Some(pid) = self.qos_pid.pid() {
            write_u16(w, pid.value())?;
        }
        Ok(w.write_all(&self.payload)?)
    }
    fn encode_len(&self) -> usize {
        2 + self.topic_name.len()
            + self.payload.len()
            + if self.qos_pid == QosPid::Level0 { 0 } else { 2 }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub topics: Vec<(TopicFilter, QoS)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, QoS)>) -> Self {
        Subscribe { pid, topics }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(
        r: &mut T,
        mut remaining: usize,
    ) -> Result<Self, Error> {
        let pid = Pid::try_from(read_u16(r).await?)?;
        remaining = remaining
            .checked_sub(2)
            .ok_or(Error::InvalidRemainingLength)?;
        if remaining == 0 {
            return Err(Error::EmptySubscription);
        }
        let mut topics = Vec::new();
        while remaining > 0 {
            let filter = TopicFilter::try_from(read_string(r).await?)?;
            let qos = QoS::from_u8(read_u8(r).await?)?;
            remaining = remaining
                .checked_sub(3 + filter.len())
                .ok_or(Error::InvalidRemainingLength)?;
            topics.push((filter, qos));
        }
        Ok(Subscribe { pid, topics })
    }
}
impl Encodable for Subscribe {
    fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_u16(w, self.pid.value())?;
        for (f, q) in &self.topics {
            write_bytes(w, f.as_bytes())?;
            write_u8(w, *q as u8)?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        2 + self.topics.iter().map(|(f, _)| 3 + f.len()).sum::<usize>()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Suback {
    pub pid: Pid,
    pub topics: Vec<SubscribeReturnCode>,
}
impl Suback {
    pub fn new(pid: Pid, topics: Vec<SubscribeReturnCode>) -> Self {
        Suback { pid, topics }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(
        r: &mut T,
        remaining: usize,
    ) -> Result<Self, Error> {
        let pid = Pid::try_from(read_u16(r).await?)?;
        let mut topics = Vec::new();
        for _ in 0..remaining.saturating_sub(2) {
            topics.push(SubscribeReturnCode::from_u8(read_u8(r).await?)?);
        }
        Ok(Suback { pid, topics })
    }
}
impl Encodable for Suback {
    fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_u16(w, self.pid.value())?;
        for c in &self.topics {
            write_u8(w, *c as u8)?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        2 + self.topics.len()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Self {
        Unsubscribe { pid, topics }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(
        r: &mut T,
        mut remaining: usize,
    ) -> Result<Self, Error> {
        let pid = Pid::try_from(read_u16(r).await?)?;
        remaining = remaining
            .checked_sub(2)
            .ok_or(Error::InvalidRemainingLength)?;
        if remaining == 0 {
            return Err(Error::EmptySubscription);
        }
        let mut topics = Vec::new();
        while remaining > 0 {
            let filter = TopicFilter::try_from(read_string(r).await?)?;
            remaining = remaining
                .checked_sub(2 + filter.len())
                .ok_or(Error::InvalidRemainingLength)?;
            topics.push(filter);
        }
        Ok(Unsubscribe { pid, topics })
    }
}
impl Encodable for Unsubscribe {
    fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_u16(w, self.pid.value())?;
        for f in &self.topics {
            write_bytes(w, f.as_bytes())?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        2 + self.topics.iter().map(|f| 2 + f.len()).sum::<usize>()
    }
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum SubscribeReturnCode {
    MaxLevel0 = 0,
    MaxLevel1 = 1,
    MaxLevel2 = 2,
    Failure = 0x80,
}
impl SubscribeReturnCode {
    pub fn from_u8(byte: u8) -> Result<Self, Error> {
        Ok(match byte {
            0 => Self::MaxLevel0,
            1 => Self::MaxLevel1,
            2 => Self::MaxLevel2,
            0x80 => Self::Failure,
            n => return Err(Error::InvalidQos(n)),
        })
    }
}
impl From<QoS> for SubscribeReturnCode {
    fn from(qos: QoS) -> Self {
        match qos {
            QoS::Level0 => Self::MaxLevel0,
            QoS::Level1 => Self::MaxLevel1,
            QoS::Level2 => Self::MaxLevel2,
        }
    }
}

