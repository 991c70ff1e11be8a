//! MQTT 5.0
use std::convert::TryFrom;
use std::fmt;
use std::io;
use std::sync::Arc;

use bytes::Bytes;
use thiserror::Error as ThisError;
use tokio::io::{AsyncRead, AsyncWrite};

use crate::common::*;
use crate::poll::*;

pub type PollPacket<'a, T> = GenericPollPacket<'a, T, Header>;
pub type PollPacketState = GenericPollPacketState<Header>;
pub type PollBodyState = GenericPollBodyState<Header>;

#[derive(ThisError, Debug, Clone, PartialEq, Eq)]
pub enum ErrorV5 {
    #[error("common error: {0}")]
    Common(#[from] Error),
    #[error("invalid reason code {1} for packet: {0}")]
    InvalidReasonCode(PacketType, u8),
    #[error("duplicated property: {0}")]
    DuplicatedProperty(PropertyId),
    #[error("invalid property `{1}` for packet: {0}")]
    InvalidProperty(PacketType, PropertyId),
    #[error("invalid property `{0}` for last will")]
    InvalidWillProperty(PropertyId),
    #[error("invalid property id: {0}")]
    InvalidPropertyId(u8),
    #[error("invalid property length: {0}")]
    InvalidPropertyLength(u32),
    #[error("invalid byte property: {0}, value={1}")]
    InvalidByteProperty(PropertyId, u8),
    #[error("invalid subscription option: {0}")]
    InvalidSubscriptionOption(u8),
    #[error("invalid response topic: {0}")]
    InvalidResponseTopic(String),
    #[error("invalid payload format, utf8 expected")]
    InvalidPayloadFormat,
}
impl ErrorV5 {
    pub fn is_eof(&self) -> bool {
        matches!(self, ErrorV5::Common(err) if err.is_eof())
    }
}
impl From<io::Error> for ErrorV5 {
    fn from(err: io::Error) -> Self {
        ErrorV5::Common(err.into())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PacketType {
    Connect,
    Connack,
    Publish,
    Puback,
    Pubrec,
    Pubrel,
    Pubcomp,
    Subscribe,
    Suback,
    Unsubscribe,
    Unsuback,
    Pingreq,
    Pingresp,
    Disconnect,
    Auth,
}
impl fmt::Display for PacketType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum PropertyId {
    PayloadFormatIndicator = 0x01,
    MessageExpiryInterval = 0x02,
    ContentType = 0x03,
    ResponseTopic = 0x08,
    CorrelationData = 0x09,
    SubscriptionIdentifier = 0x0B,
    SessionExpiryInterval = 0x11,
    AssignedClientIdentifier = 0x12,
    ServerKeepAlive = 0x13,
    AuthenticationMethod = 0x15,
    AuthenticationData = 0x16,
    RequestProblemInformation = 0x17,
    WillDelayInterval = 0x18,
    RequestResponseInformation = 0x19,
    ResponseInformation = 0x1A,
    ServerReference = 0x1C,
    ReasonString = 0x1F,
    ReceiveMaximum = 0x21,
    TopicAliasMaximum = 0x22,
    TopicAlias = 0x23,
    MaximumQoS = 0x24,
    RetainAvailable = 0x25,
    UserProperty = 0x26,
    MaximumPacketSize = 0x27,
    WildcardSubscriptionAvailable = 0x28,
    SubscriptionIdentifierAvailable = 0x29,
    SharedSubscriptionAvailable = 0x2A,
}
impl PropertyId {
    pub fn from_u8(v: u8) -> Result<Self, ErrorV5> {
        use PropertyId::*;
        Ok(match v {
            0x01 => PayloadFormatIndicator,
            0x02 => MessageExpiryInterval,
            0x03 => ContentType,
            0x08 => ResponseTopic,
            0x09 => CorrelationData,
            0x0B => SubscriptionIdentifier,
            0x11 => SessionExpiryInterval,
            0x12 => AssignedClientIdentifier,
            0x13 => ServerKeepAlive,
            0x15 => AuthenticationMethod,
            0x16 => AuthenticationData,
            0x17 => RequestProblemInformation,
            0x18 => WillDelayInterval,
            0x19 => RequestResponseInformation,
            0x1A => ResponseInformation,
            0x1C => ServerReference,
            0x1F => ReasonString,
            0x21 => ReceiveMaximum,
            0x22 => TopicAliasMaximum,
            0x23 => TopicAlias,
            0x24 => MaximumQoS,
            0x25 => RetainAvailable,
            0x26 => UserProperty,
            0x27 => MaximumPacketSize,
            0x28 => WildcardSubscriptionAvailable,
            0x29 => SubscriptionIdentifierAvailable,
            0x2A => SharedSubscriptionAvailable,
            n => return Err(ErrorV5::InvalidPropertyId(n)),
        })
    }
}
impl fmt::Display for PropertyId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

/// Variable byte integer (0..=268435455)
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct VarByteInt(u32);
impl VarByteInt {
    pub fn value(self) -> u32 {
        self.0
    }
}
impl TryFrom<u32> for VarByteInt {
    type Error = Error;
    fn try_from(v: u32) -> Result<Self, Error> {
        if v > 268435455 {
            Err(Error::InvalidVarByteInt)
        } else {
            Ok(VarByteInt(v))
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct UserProperty {
    pub name: Arc<str>,
    pub value: Arc<str>,
}
impl UserProperty {
    pub fn new(name: Arc<str>, value: Arc<str>) -> Self {
        UserProperty { name, value }
    }
}

// ---- property values ----
fn s_u8(r: &mut &[u8]) -> Result<u8, ErrorV5> {
    let (first, rest) = r
        .split_first()
        .ok_or(Error::IoError(io::ErrorKind::UnexpectedEof))?;
    *r = rest;
    Ok(*first)
}
fn s_n<'a>(r: &mut &'a [u8], n: usize) -> Result<&'a [u8], ErrorV5> {
    if r.len() < n {
        return Err(Error::IoError(io::ErrorKind::UnexpectedEof).into());
    }
    let (a, b) = r.split_at(n);
    *r = b;
    Ok(a)
}
fn s_u16(r: &mut &[u8]) -> Result<u16, ErrorV5> {
    let b = s_n(r, 2)?;
    Ok(u16::from_be_bytes([b[0], b[1]]))
}
fn s_bytes<'a>(r: &mut &'a [u8]) -> Result<&'a [u8], ErrorV5> {
    let n = s_u16(r)?;
    s_n(r, n as usize)
}
fn s_str(r: &mut &[u8]) -> Result<String, ErrorV5> {
    let s = std::str::from_utf8(s_bytes(r)?).map_err(|_| Error::InvalidString)?;
    if s.contains('\0') {
        return Err(Error::InvalidString.into());
    }
    Ok(s.to_string())
}

trait PropValue: Sized {
    fn put<W: io::Write>(&self, w: &mut W) -> Result<(), Error>;
    fn size(&self) -> usize;
    fn get(id: PropertyId, r: &mut &[u8]) -> Result<Self, ErrorV5>;
}
impl PropValue for bool {
    fn put<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_u8(w, *self as u8)
    }
    fn size(&self) -> usize {
        1
    }
    fn get(id: PropertyId, r: &mut &[u8]) -> Result<Self, ErrorV5> {
        match s_u8(r)? {
            0 => Ok(false),
            1 => Ok(true),
            n => Err(ErrorV5::InvalidByteProperty(id, n)),
        }
    }
}
impl PropValue for QoS {
    fn put<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_u8(w, *self as u8)
    }
    fn size(&self) -> usize {
        1
    }
    fn get(id: PropertyId, r: &mut &[u8]) -> Result<Self, ErrorV5> {
        match s_u8(r)? {
            0 => Ok(QoS::Level0),
            1 => Ok(QoS::Level1),
            n => Err(ErrorV5::InvalidByteProperty(id, n)),
        }
    }
}
impl PropValue for u16 {
    fn put<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_u16(w, *self)
    }
    fn size(&self) -> usize {
        2
    }
    fn get(_: PropertyId, r: &mut &[u8]) -> Result<Self, ErrorV5> {
        s_u16(r)
    }
}
impl PropValue for u32 {
    fn put<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_u32(w, *self)
    }
    fn size(&self) -> usize {
        4
    }
    fn get(_: PropertyId, r: &mut &[u8]) -> Result<Self, ErrorV5> {
        let b = s_n(r, 4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
}
impl PropValue for Arc<str> {
    fn put<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_bytes(w, self.as_bytes())
    }
    fn size(&self) -> usize {
        2 + self.len()
    }
    fn get(_: PropertyId, r: &mut &[u8]) -> Result<Self, ErrorV5> {
        Ok(Arc::from(s_str(r)?))
    }
}
impl PropValue for TopicName {
    fn put<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_bytes(w, self.as_bytes())
    }
    fn size(&self) -> usize {
        2 + self.len()
    }
    fn get(_: PropertyId, r: &mut &[u8]) -> Result<Self, ErrorV5> {
        let s = s_str(r)?;
        TopicName::try_from(s.clone()).map_err(|_| ErrorV5::InvalidResponseTopic(s))
    }
}
impl PropValue for Bytes {
    fn put<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_bytes(w, self)
    }
    fn size(&self) -> usize {
        2 + self.len()
    }
    fn get(_: PropertyId, r: &mut &[u8]) -> Result<Self, ErrorV5> {
        Ok(Bytes::copy_from_slice(s_bytes(r)?))
    }
}
impl PropValue for VarByteInt {
    fn put<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_var_int(w, self.0 as usize)
    }
    fn size(&self) -> usize {
        var_int_len(self.0 as usize).expect("var byte int")
    }
    fn get(_: PropertyId, r: &mut &[u8]) -> Result<Self, ErrorV5> {
        Ok(VarByteInt(s_var_int(r)?))
    }
}
impl PropValue for UserProperty {
    fn put<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_bytes(w, self.name.as_bytes())?;
        write_bytes(w, self.value.as_bytes())
    }
    fn size(&self) -> usize {
        4 + self.name.len() + self.value.len()
    }
    fn get(_: PropertyId, r: &mut &[u8]) -> Result<Self, ErrorV5> {
        Ok(UserProperty {
            name: Arc::from(s_str(r)?),
            value: Arc::from(s_str(r)?),
        })
    }
}
fn s_var_int(r: &mut &[u8]) -> Result<u32, ErrorV5> {
    let mut v = 0u32;
    for i in 0..4 {
        let b = s_u8(r)?;
        v |= (u32::from(b) & 0x7f) << (7 * i);
        if b & 0x80 == 0 {
            return Ok(v);
        }
    }
    Err(Error::InvalidVarByteInt.into())
}

/// Reads the property length and the property bytes; returns also the bytes consumed.
async fn read_props<T: AsyncRead + Unpin>(r: &mut T) -> Result<(Vec<u8>, usize), ErrorV5> {
    let (len, n) = decode_var_int_async(r).await?;
    let body = read_n(r, len as usize).await?;
    Ok((body, n + len as usize))
}

macro_rules! props {
    ($name:ident, $err:expr, { $($f:ident : $t:ty = $id:ident),* $(,)? }, { $($vf:ident : $vt:ty = $vid:ident),* $(,)? }) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
        pub struct $name {
            $(pub $f: Option<$t>,)*
            $(pub $vf: Vec<$vt>,)*
        }
        impl $name {
            pub fn is_empty(&self) -> bool {
                $(self.$f.is_none() &&)* $(self.$vf.is_empty() &&)* true
            }
            #[allow(unused_mut)]
            fn body_len(&self) -> usize {
                let mut len = 0;
                $(if let Some(v) = &self.$f { len += 1 + PropValue::size(v); })*
                $(for v in &self.$vf { len += 1 + PropValue::size(v); })*
                len
            }
            fn parse(body: &[u8]) -> Result<Self, ErrorV5> {
                let mut r = body;
                let mut out = Self::default();
                while !r.is_empty() {
                    let id = PropertyId::from_u8(s_u8(&mut r)?)?;
                    match id {
                        $(PropertyId::$id => {
                            if out.$f.is_some() {
                                return Err(ErrorV5::DuplicatedProperty(id));
                            }
                            out.$f = Some(PropValue::get(id, &mut r)?);
                        })*
                        $(PropertyId::$vid => out.$vf.push(PropValue::get(id, &mut r)?),)*
                        #[allow(unreachable_patterns)]
                        id => return Err(($err)(id)),
                    }
                }
                Ok(out)
            }
            async fn read<T: AsyncRead + Unpin>(r: &mut T) -> Result<(Self, usize), ErrorV5> {
                let (body, n) = read_props(r).await?;
                let props = Self::parse(&body).map_err(|err| if err.is_eof() {
                    ErrorV5::InvalidPropertyLength(body.len() as u32)
                } else {
                    err
                })?;
                Ok((props, n))
            }
        }
        impl Encodable for $name {
            fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
                write_var_int(w, self.body_len())?;
                $(if let Some(v) = &self.$f {
                    write_u8(w, PropertyId::$id as u8)?;
                    PropValue::put(v, w)?;
                })*
                $(for v in &self.$vf {
                    write_u8(w, PropertyId::$vid as u8)?;
                    PropValue::put(v, w)?;
                })*
                Ok(())
            }
            fn encode_len(&self) -> usize {
                let len = self.body_len();
                var_int_len(len).expect("property length") + len
            }
        }
    };
}

props!(ConnectProperties, |id| ErrorV5::InvalidProperty(PacketType::Connect, id), {
    session_expiry_interval: u32 = SessionExpiryInterval,
    receive_max: u16 = ReceiveMaximum,
    max_packet_size: u32 = MaximumPacketSize,
    topic_alias_max: u16 = TopicAliasMaximum,
    request_response_info: bool = RequestResponseInformation,
    request_problem_info: bool = RequestProblemInformation,
    auth_method: Arc<str> = AuthenticationMethod,
    auth_data: Bytes = AuthenticationData,
}, { user_properties: UserProperty = UserProperty });
props!(WillProperties, ErrorV5::InvalidWillProperty, {
    delay_interval: u32 = WillDelayInterval,
    payload_is_utf8: bool = PayloadFormatIndicator,
    message_expiry_interval: u32 = MessageExpiryInterval,
    content_type: Arc<str> = ContentType,
    response_topic: TopicName = ResponseTopic,
    correlation_data: Bytes = CorrelationData,
}, { user_properties: UserProperty = UserProperty });
props!(ConnackProperties, |id| ErrorV5::InvalidProperty(PacketType::Connack, id), {
    session_expiry_interval: u32 = SessionExpiryInterval,
    receive_max: u16 = ReceiveMaximum,
    max_qos: QoS = MaximumQoS,
    retain_available: bool = RetainAvailable,
    max_packet_size: u32 = MaximumPacketSize,
    assigned_client_id: Arc<str> = AssignedClientIdentifier,
    topic_alias_max: u16 = TopicAliasMaximum,
    reason_string: Arc<str> = ReasonString,
    wildcard_subscription_available: bool = WildcardSubscriptionAvailable,
    subscription_id_available: bool = SubscriptionIdentifierAvailable,
    shared_subscription_available: bool = SharedSubscriptionAvailable,
    server_keep_alive: u16 = ServerKeepAlive,
    response_info: Arc<str> = ResponseInformation,
    server_reference: Arc<str> = ServerReference,
    auth_method: Arc<str> = AuthenticationMethod,
    auth_data: Bytes = AuthenticationData,
}, { user_properties: UserProperty = UserProperty });
props!(PublishProperties, |id| ErrorV5::InvalidProperty(PacketType::Publish, id), {
    payload_is_utf8: bool = PayloadFormatIndicator,
    message_expiry_interval: u32 = MessageExpiryInterval,
    topic_alias: u16 = TopicAlias,
    response_topic: TopicName = ResponseTopic,
    correlation_data: Bytes = CorrelationData,
    content_type: Arc<str> = ContentType,
}, { user_properties: UserProperty = UserProperty, subscription_ids: VarByteInt = SubscriptionIdentifier });
macro_rules! ack_props {
    ($($name:ident : $pt:ident),+) => {
        $(props!($name, |id| ErrorV5::InvalidProperty(PacketType::$pt, id), {
            reason_string: Arc<str> = ReasonString,
        }, { user_properties: UserProperty = UserProperty });)+
    }
}
ack_props!(
    PubackProperties: Puback,
    PubrecProperties: Pubrec,
    PubrelProperties: Pubrel,
    PubcompProperties: Pubcomp,
    SubackProperties: Suback,
    UnsubackProperties: Unsuback
);
props!(SubscribeProperties, |id| ErrorV5::InvalidProperty(PacketType::Subscribe, id), {
    subscription_id: VarByteInt = SubscriptionIdentifier,
}, { user_properties: UserProperty = UserProperty });
props!(UnsubscribeProperties, |id| ErrorV5::InvalidProperty(PacketType::Unsubscribe, id), {
}, { user_properties: UserProperty = UserProperty });
props!(DisconnectProperties, |id| ErrorV5::InvalidProperty(PacketType::Disconnect, id), {
    session_expiry_interval: u32 = SessionExpiryInterval,
    reason_string: Arc<str> = ReasonString,
    server_reference: Arc<str> = ServerReference,
}, { user_properties: UserProperty = UserProperty });
props!(AuthProperties, |id| ErrorV5::InvalidProperty(PacketType::Auth, id), {
    auth_method: Arc<str> = AuthenticationMethod,
    auth_data: Bytes = AuthenticationData,
    reason_string: Arc<str> = ReasonString,
}, { user_properties: UserProperty = UserProperty });

// ---- reason codes ----
macro_rules! reason_codes {
    ($name:ident { $($v:ident = $n:literal),+ $(,)? }) => {
        #[repr(u8)]
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum $name { $($v = $n),+ }
        impl $name {
            pub fn from_u8(value: u8) -> Option<Self> {
                match value { $($n => Some(Self::$v),)+ _ => None }
            }
        }
    }
}
reason_codes!(ConnectReasonCode {
    Success = 0x00,
    UnspecifiedError = 0x80,
    MalformedPacket = 0x81,
    ProtocolError = 0x82,
    ImplementationSpecificError = 0x83,
    UnsupportedProtocolVersion = 0x84,
    ClientIdentifierNotValid = 0x85,
    BadUserNameOrPassword = 0x86,
    NotAuthorized = 0x87,
    ServerUnavailable = 0x88,
    ServerBusy = 0x89,
    Banned = 0x8A,
    BadAuthMethod = 0x8C,
    TopicNameInvalid = 0x90,
    PacketTooLarge = 0x95,
    QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99,
    RetainNotSupported = 0x9A,
    QoSNotSupported = 0x9B,
    UseAnotherServer = 0x9C,
    ServerMoved = 0x9D,
    ConnectionRateExceeded = 0x9F,
});
reason_codes!(DisconnectReasonCode {
    NormalDisconnect = 0x00,
    DisconnectWithWillMessage = 0x04,
    UnspecifiedError = 0x80,
    MalformedPacket = 0x81,
    ProtocolError = 0x82,
    ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87,
    ServerBusy = 0x89,
    ServerShuttingDown = 0x8B,
    KeepAliveTimeout = 0x8D,
    SessionTakenOver = 0x8E,
    TopicFilterInvalid = 0x8F,
    TopicNameInvalid = 0x90,
    ReceiveMaximumExceeded = 0x93,
    TopicAliasInvalid = 0x94,
    PacketTooLarge = 0x95,
    MessageRateTooHigh = 0x96,
    QuotaExceeded = 0x97,
    AdministrativeAction = 0x98,
    PayloadFormatInvalid = 0x99,
    RetainNotSupported = 0x9A,
    QoSNotSupported = 0x9B,
    UserAnotherServer = 0x9C,
    ServerMoved = 0x9D,
    SharedSubscriptionNotSupported = 0x9E,
    ConnectionRateExceeded = 0x9F,
    MaximumConnectTime = 0xA0,
    SubscriptionIdentifiersNotSupported = 0xA1,
    WildcardSubscriptionsNotSupported = 0xA2,
});
reason_codes!(AuthReasonCode {
    Success = 0x00,
    ContinueAuthentication = 0x18,
    ReAuthentication = 0x19,
});
reason_codes!(PubackReasonCode {
    Success = 0x00,
    NoMatchingSubscribers = 0x10,
    UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87,
    TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99,
});
reason_codes!(PubrecReasonCode {
    Success = 0x00,
    NoMatchingSubscribers = 0x10,
    UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87,
    TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99,
});
reason_codes!(PubrelReasonCode {
    Success = 0x00,
    PacketIdentifierNotFound = 0x92,
});
reason_codes!(PubcompReasonCode {
    Success = 0x00,
    PacketIdentifierNotFound = 0x92,
});
reason_codes!(SubscribeReasonCode {
    GrantedQoS0 = 0x00,
    GrantedQoS1 = 0x01,
    GrantedQoS2 = 0x02,
    UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87,
    TopicFilterInvalid = 0x8F,
    PacketIdentifierInUse = 0x91,
    QuotaExceeded = 0x97,
    SharedSubscriptionNotSupported = 0x9E,
    SubscriptionIdentifiersNotSupported = 0xA1,
    WildcardSubscriptionsNotSupported = 0xA2,
});
impl From<QoS> for SubscribeReasonCode {
    fn from(qos: QoS) -> Self {
        match qos {
            QoS::Level0 => Self::GrantedQoS0,
            QoS::Level1 => Self::GrantedQoS1,
            QoS::Level2 => Self::GrantedQoS2,
        }
    }
}
reason_codes!(UnsubscribeReasonCode {
    Success = 0x00,
    NoSubscriptionExisted = 0x11,
    UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87,
    TopicFilterInvalid = 0x8F,
    PacketIdentifierInUse = 0x91,
});

// ---- header ----
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Header {
    pub typ: PacketType,
    pub dup: bool,
    pub qos: QoS,
    pub retain: bool,
    pub remaining_len: u32,
    pub total_len: u32,
}
impl Header {
    pub fn new(
        typ: PacketType,
        dup: bool,
        qos: QoS,
        retain: bool,
        remaining_len: u32,
        total_len: u32,
    ) -> Self {
        Self {
            typ,
            dup,
            qos,
            retain,
            remaining_len,
            total_len,
        }
    }
    pub fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Header, ErrorV5> {
        const FLAGS_MASK: u8 = 0b1111;
        let (typ, flags_ok) = match hd >> 4 {
            1 => (PacketType::Connect, hd & FLAGS_MASK == 0),
            2 => (PacketType::Connack, hd & FLAGS_MASK == 0),
            3 => {
                return Ok(Header {
                    typ: PacketType::Publish,
                    dup: hd & 0b1000 != 0,
                    qos: QoS::from_u8((hd & 0b110) >> 1)?,
                    retain: hd & 1 == 1,
                    remaining_len,
                    total_len,
                });
            }
            4 => (PacketType::Puback, hd & FLAGS_MASK == 0),
            5 => (PacketType::Pubrec, hd & FLAGS_MASK == 0),
            6 => (PacketType::Pubrel, hd & FLAGS_MASK == 0b0010),
            7 => (PacketType::Pubcomp, hd & FLAGS_MASK == 0),
            8 => (PacketType::Subscribe, hd & FLAGS_MASK == 0b0010),
            9 => (PacketType::Suback, hd & FLAGS_MASK == 0),
            10 => (PacketType::Unsubscribe, hd & FLAGS_MASK == 0b0010),
            11 => (PacketType::Unsuback, hd & FLAGS_MASK == 0),
            12 => (PacketType::Pingreq, hd & FLAGS_MASK == 0),
            13 => (PacketType::Pingresp, hd & FLAGS_MASK == 0),
            14 => (PacketType::Disconnect, hd & FLAGS_MASK == 0),
            15 => (PacketType::Auth, hd & FLAGS_MASK == 0),
            _ => (PacketType::Connect, false),
        };
        if !flags_ok {
            return Err(Error::InvalidHeader.into());
        }
        Ok(Header {
            typ,
            dup: false,
            qos: QoS::Level0,
            retain: false,
            remaining_len,
            total_len,
        })
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, ErrorV5> {
        let (typ, remaining_len, hlen) = decode_raw_header_async(reader).await?;
        Header::new_with(typ, remaining_len, hlen as u32 + remaining_len)
    }
    pub fn decode(mut bytes: &[u8]) -> Result<Self, ErrorV5> {
        futures_lite::future::block_on(Self::decode_async(&mut bytes))
    }
}
impl PollHeader for Header {
    type Error = ErrorV5;
    type Packet = Packet;
    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, ErrorV5> {
        Header::new_with(hd, remaining_len, total_len)
    }
    fn build_empty_packet(&self) -> Option<Packet> {
        match self.typ {
            PacketType::Pingreq => Some(Packet::Pingreq),
            PacketType::Pingresp => Some(Packet::Pingresp),
            PacketType::Disconnect => Some(Disconnect::new_normal().into()),
            PacketType::Auth => Some(Auth::new_success().into()),
            _ => None,
        }
    }
    fn block_decode(self, reader: &mut &[u8]) -> Result<Packet, ErrorV5> {
        futures_lite::future::block_on(Packet::decode_with_header(reader, self))
    }
    fn remaining_len(&self) -> usize {
        self.remaining_len as usize
    }
    fn total_len(&self) -> usize {
        self.total_len as usize
    }
    fn is_eof_error(err: &ErrorV5) -> bool {
        err.is_eof()
    }
}

// ---- packet ----
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Packet {
    Connect(Connect),
    Connack(Connack),
    Publish(Publish),
    Puback(Puback),
    Pubrec(Pubrec),
    Pubrel(Pubrel),
    Pubcomp(Pubcomp),
    Subscribe(Subscribe),
    Suback(Suback),
    Unsubscribe(Unsubscribe),
    Unsuback(Unsuback),
    Pingreq,
    Pingresp,
    Disconnect(Disconnect),
    Auth(Auth),
}
macro_rules! packet_from {
    ($($t:ident = $c:literal),+) => {
        $(impl From<$t> for Packet {
            fn from(p: $t) -> Packet { Packet::$t(p) }
        })+
    }
}
packet_from!(
    Connect = 0x10,
    Connack = 0x20,
    Publish = 0x30,
    Puback = 0x40,
    Pubrec = 0x50,
    Pubrel = 0x62,
    Pubcomp = 0x70,
    Subscribe = 0x82,
    Suback = 0x90,
    Unsubscribe = 0xA2,
    Unsuback = 0xB0,
    Disconnect = 0xE0,
    Auth = 0xF0
);

impl Packet {
    pub fn get_type(&self) -> PacketType {
        match self {
            Packet::Connect(_) => PacketType::Connect,
            Packet::Connack(_) => PacketType::Connack,
            Packet::Publish(_) => PacketType::Publish,
            Packet::Puback(_) => PacketType::Puback,
            Packet::Pubrec(_) => PacketType::Pubrec,
            Packet::Pubrel(_) => PacketType::Pubrel,
            Packet::Pubcomp(_) => PacketType::Pubcomp,
            Packet::Subscribe(_) => PacketType::Subscribe,
            Packet::Suback(_) => PacketType::Suback,
            Packet::Unsubscribe(_) => PacketType::Unsubscribe,
            Packet::Unsuback(_) => PacketType::Unsuback,
            Packet::Pingreq => PacketType::Pingreq,
            Packet::Pingresp => PacketType::Pingresp,
            Packet::Disconnect(_) => PacketType::Disconnect,
            Packet::Auth(_) => PacketType::Auth,
        }
    }
    pub fn decode(mut bytes: &[u8]) -> Result<Option<Self>, ErrorV5> {
        match futures_lite::future::block_on(Self::decode_async(&mut bytes)) {
            Ok(pkt) => Ok(Some(pkt)),
            Err(err) if err.is_eof() => Ok(None),
            Err(err) => Err(err),
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(reader: &mut T) -> Result<Self, ErrorV5> {
        let header = Header::decode_async(reader).await?;
        let body = read_n(reader, header.remaining_len as usize).await?;
        let mut slice = &body[..];
        match Self::decode_with_header(&mut slice, header).await {
            Ok(p) if slice.is_empty() => Ok(p),
            Ok(_) => Err(Error::InvalidRemainingLength.into()),
            Err(err) if err.is_eof() => Err(Error::InvalidRemainingLength.into()),
            Err(err) => Err(err),
        }
    }
    async fn decode_with_header<T: AsyncRead + Unpin>(
        r: &mut T,
        header: Header,
    ) -> Result<Self, ErrorV5> {
        Ok(match header.typ {
            PacketType::Pingreq => Packet::Pingreq,
            PacketType::Pingresp => Packet::Pingresp,
            PacketType::Connect => Connect::decode_async(r, header).await?.into(),
            PacketType::Connack => Connack::decode_async(r, header).await?.into(),
            PacketType::Publish => Publish::decode_async(r, header).await?.into(),
            PacketType::Puback => Puback::decode_async(r, header).await?.into(),
            PacketType::Pubrec => Pubrec::decode_async(r, header).await?.into(),
            PacketType::Pubrel => Pubrel::decode_async(r, header).await?.into(),
            PacketType::Pubcomp => Pubcomp::decode_async(r, header).await?.into(),
            PacketType::Subscribe => Subscribe::decode_async(r, header).await?.into(),
            PacketType::Suback => Suback::decode_async(r, header).await?.into(),
            PacketType::Unsubscribe => Unsubscribe::decode_async(r, header).await?.into(),
            PacketType::Unsuback => Unsuback::decode_async(r, header).await?.into(),
            PacketType::Disconnect => Disconnect::decode_async(r, header).await?.into(),
            PacketType::Auth => Auth::decode_async(r, header).await?.into(),
        })
    }
    pub async fn encode_async<T: AsyncWrite + Unpin>(&self, writer: &mut T) -> Result<(), ErrorV5> {
        Ok(write_all_async(writer, self.encode()?.as_ref()).await?)
    }
    pub fn encode(&self) -> Result<VarBytes, Error> {
        fn body<E: Encodable>(control: u8, e: &E) -> Result<VarBytes, Error> {
            let len = e.encode_len();
            let mut buf = Vec::with_capacity(total_len(len)?);
            buf.push(control);
            write_var_int(&mut buf, len)?;
            e.encode(&mut buf)?;
            debug_assert_eq!(buf.len(), total_len(len)?);
            Ok(VarBytes::Dynamic(buf))
        }
        Ok(match self {
            Packet::Pingreq => VarBytes::Fixed2([0b1100_0000, 0]),
            Packet::Pingresp => VarBytes::Fixed2([0b1101_0000, 0]),
            Packet::Connect(p) => body(0x10, p)?,
            Packet::Connack(p) => body(0x20, p)?,
            Packet::Publish(p) => body(p.control_byte(), p)?,
            Packet::Puback(p) => body(0x40, p)?,
            Packet::Pubrec(p) => body(0x50, p)?,
            Packet::Pubrel(p) => body(0x62, p)?,
            Packet::Pubcomp(p) => body(0x70, p)?,
            Packet::Subscribe(p) => body(0x82, p)?,
            Packet::Suback(p) => body(0x90, p)?,
            Packet::Unsubscribe(p) => body(0xA2, p)?,
            Packet::Unsuback(p) => body(0xB0, p)?,
            Packet::Disconnect(p) => body(0xE0, p)?,
            Packet::Auth(p) => body(0xF0, p)?,
        })
    }
    /// Length of the whole encoded packet.
    pub fn encode_len(&self) -> Result<usize, Error> {
        total_len(match self {
            Packet::Pingreq | Packet::Pingresp => 0,
            Packet::Connect(p) => p.encode_len(),
            Packet::Connack(p) => p.encode_len(),
            Packet::Publish(p) => p.encode_len(),
            Packet::Puback(p) => p.encode_len(),
            Packet::Pubrec(p) => p.encode_len(),
            Packet::Pubrel(p) => p.encode_len(),
            Packet::Pubcomp(p) => p.encode_len(),
            Packet::Subscribe(p) => p.encode_len(),
            Packet::Suback(p) => p.encode_len(),
            Packet::Unsubscribe(p) => p.encode_len(),
            Packet::Unsuback(p) => p.encode_len(),
            Packet::Disconnect(p) => p.encode_len(),
            Packet::Auth(p) => p.encode_len(),
        })
    }
}

// ---- CONNECT ----
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connect {
    pub protocol: Protocol,
    pub clean_start: bool,
    pub keep_alive: u16,
    pub properties: ConnectProperties,
    pub client_id: Arc<str>,
    pub last_will: Option<LastWill>,
    pub username: Option<Arc<str>>,
    pub password: Option<Bytes>,
}
impl Connect {
    pub fn new(client_id: Arc<str>, keep_alive: u16) -> Self {
        Connect {
            protocol: Protocol::V500,
            clean_start: true,
            keep_alive,
            properties: ConnectProperties::default(),
            client_id,
            last_will: None,
            username: None,
            password: None,
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(
        r: &mut T,
        header: Header,
    ) -> Result<Self, ErrorV5> {
        let protocol = Protocol::decode_async(r).await?;
        Self::decode_stream_with_protocol(r, header, protocol).await
    }
    pub async fn decode_with_protocol<T: AsyncRead + Unpin>(
        r: &mut T,
        header: Header,
        protocol: Protocol,
    ) -> Result<Self, ErrorV5> {
        Self::decode_stream_with_protocol(r, header, protocol).await
    }
    /// Decode the rest of a CONNECT packet, whose protocol name and level were read before.
    pub async fn decode_stream_with_protocol<T: AsyncRead + Unpin>(
        r: &mut T,
        _header: Header,
        protocol: Protocol,
    ) -> Result<Self, ErrorV5> {
        if protocol != Protocol::V500 {
            return Err(Error::UnexpectedProtocol(protocol).into());
        }
        let flags = read_u8(r).await?;
        if flags & 1 != 0 {
            return Err(Error::InvalidConnectFlags(flags).into());
        }
        let keep_alive = read_u16(r).await?;
        let (properties, _) = ConnectProperties::read(r).await?;
        let client_id = Arc::from(read_string(r).await?);
        let last_will = if flags & 0b100 != 0 {
            let qos = QoS::from_u8((flags & 0b11000) >> 3)?;
            let retain = flags & 0b0010_0000 != 0;
            let (will_properties, _) = WillProperties::read(r).await?;
            let topic_name = TopicName::try_from(read_string(r).await?)?;
            let payload = bytes_of(read_bytes(r).await?);
            if will_properties.payload_is_utf8 == Some(true)
                && std::str::from_utf8(&payload).is_err()
            {
                return Err(ErrorV5::InvalidPayloadFormat);
            }
            Some(LastWill {
                qos,
                retain,
                topic_name,
                payload,
                properties: will_properties,
            })
        } else if flags & 0b0011_1000 != 0 {
            return Err(Error::InvalidConnectFlags(flags).into());
        } else {
            None
        };
        let username = if flags & 0b1000_0000 != 0 {
            Some(Arc::from(read_string(r).await?))
        } else {
            None
        };
        let password = if flags & 0b0100_0000 != 0 {
            Some(bytes_of(read_bytes(r).await?))
        } else {
            None
        };
        Ok(Connect {
            protocol,
            clean_start: flags & 0b10 != 0,
            keep_alive,
            properties,
            client_id,
            last_will,
            username,
            password,
        })
    }
}
impl Encodable for Connect {
    fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        let mut flags = 0u8;
        if self.clean_start {
            flags |= 0b10;
        }
        if self.username.is_some() {
            flags |= 0b1000_0000;
        }
        if self.password.is_some() {
            flags |= 0b0100_0000;
        }
        if let Some(will) = &self.last_will {
            flags |= 0b100 | ((will.qos as u8) << 3);
            if will.retain {
                flags |= 0b0010_0000;
            }
        }
        self.protocol.encode(w)?;
        write_u8(w, flags)?;
        write_u16(w, self.keep_alive)?;
        self.properties.encode(w)?;
        write_bytes(w, self.client_id.as_bytes())?;
        if let Some(will) = &self.last_will {
            will.properties.encode(w)?;
            write_bytes(w, will.topic_name.as_bytes())?;
            write_bytes(w, &will.payload)?;
        }
        if let Some(u) = &self.username {
            write_bytes(w, u.as_bytes())?;
        }
        if let Some(p) = &self.password {
            write_bytes(w, p)?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        let mut len = self.protocol.encode_len()
            + 3
            + self.properties.encode_len()
            + 2
            + self.client_id.len();
        if let Some(will) = &self.last_will {
            len += will.properties.encode_len() + 4 + will.topic_name.len() + will.payload.len();
        }
        if let Some(u) = &self.username {
            len += 2 + u.len();
        }
        if let Some(p) = &self.password {
            len += 2 + p.len();
        }
        len
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct LastWill {
    pub qos: QoS,
    pub retain: bool,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: WillProperties,
}
impl LastWill {
    pub fn new(qos: QoS, topic_name: TopicName, payload: Bytes) -> Self {
        LastWill {
            qos,
            retain: false,
            topic_name,
            payload,
            properties: WillProperties::default(),
        }
    }
}

// ---- CONNACK ----
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Connack {
    pub session_present: bool,
    pub reason_code: ConnectReasonCode,
    pub properties: ConnackProperties,
}
impl Connack {
    pub fn new(session_present: bool, reason_code: ConnectReasonCode) -> Self {
        Connack {
            session_present,
            reason_code,
            properties: ConnackProperties::default(),
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(
        r: &mut T,
        header: Header,
    ) -> Result<Self, ErrorV5> {
        let flags = read_u8(r).await?;
        if flags > 1 {
            return Err(Error::InvalidConnackFlags(flags).into());
        }
        let code = read_u8(r).await?;
        let reason_code = ConnectReasonCode::from_u8(code)
            .ok_or(ErrorV5::InvalidReasonCode(header.typ, code))?;
        let (properties, _) = ConnackProperties::read(r).await?;
        Ok(Connack {
            session_present: flags == 1,
            reason_code,
            properties,
        })
    }
}
impl Encodable for Connack {
    fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_u8(w, self.session_present as u8)?;
        write_u8(w, self.reason_code as u8)?;
        self.properties.encode(w)
    }
    fn encode_len(&self) -> usize {
        2 + self.properties.encode_len()
    }
}

// ---- PUBLISH ----
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Publish {
    pub dup: bool,
    pub retain: bool,
    pub qos_pid: QosPid,
    pub topic_name: TopicName,
    pub payload: Bytes,
    pub properties: PublishProperties,
}
impl Publish {
    pub fn new(qos_pid: QosPid, topic_name: TopicName, payload: Bytes) -> Self {
        Publish {
            dup: false,
            retain: false,
            qos_pid,
            topic_name,
            payload,
            properties: PublishProperties::default(),
        }
    }
    fn control_byte(&self) -> u8 {
        let mut b = 0b0011_0000 | ((self.qos_pid.qos() as u8) << 1);
        if self.dup {
            b |= 0b1000;
        }
        if self.retain {
            b |= 1;
        }
        b
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(
        r: &mut T,
        header: Header,
    ) -> Result<Self, ErrorV5> {
        let mut remaining = header.remaining_len as usize;
        let topic = read_string(r).await?;
        remaining = remaining
            .checked_sub(2 + topic.len())
            .ok_or(Error::InvalidRemainingLength)?;
        let topic_name = TopicName::try_from(topic)?;
        let qos_pid = match header.qos {
            QoS::Level0 => QosPid::Level0,
            qos => {
                remaining = remaining
                    .checked_sub(2)
                    .ok_or(Error::InvalidRemainingLength)?;
                QosPid::new(qos, Some(Pid::try_from(read_u16(r).await?)?))
            }
        };
        let (properties, n) = PublishProperties::read(r).await?;
        remaining = remaining
            .checked_sub(n)
            .ok_or(Error::InvalidRemainingLength)?;
        let payload = bytes_of(read_n(r, remaining).await?);
        if properties.payload_is_utf8 == Some(true) && std::str::from_utf8(&payload).is_err() {
            return Err(ErrorV5::InvalidPayloadFormat);
        }
        Ok(Publish {
            dup: header.dup,
            retain: header.retain,
            qos_pid,
            topic_name,
            payload,
            properties,
        })
    }
}
impl Encodable for Publish {
    fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_bytes(w, self.topic_name.as_bytes())?;
        if let Some(pid) = self.qos_pid.pid() {
            write_u16(w, pid.value())?;
        }
        self.properties.encode(w)?;
        Ok(w.write_all(&self.payload)?)
    }
    fn encode_len(&self) -> usize {
        2 + self.topic_name.len()
            + self.payload.len()
            + if self.qos_pid == QosPid::Level0 { 0 } else { 2 }
            + self.properties.encode_len()
    }
}

// ---- PUBACK, PUBREC, PUBREL, PUBCOMP ----
macro_rules! pub_acks {
    ($($name:ident, $code:ident, $props:ident);+) => {
        $(
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name {
            pub pid: Pid,
            pub reason_code: $code,
            pub properties: $props,
        }
        impl $name {
            pub fn new(pid: Pid, reason_code: $code) -> Self {
                $name { pid, reason_code, properties: $props::default() }
            }
            pub fn new_success(pid: Pid) -> Self {
                Self::new(pid, $code::Success)
            }
            pub async fn decode_async<T: AsyncRead + Unpin>(r: &mut T, header: Header) -> Result<Self, ErrorV5> {
                let pid = Pid::try_from(read_u16(r).await?)?;
                if header.remaining_len == 2 {
                    return Ok(Self::new_success(pid));
                }
                let code = read_u8(r).await?;
                let reason_code = $code::from_u8(code)
                    .ok_or(ErrorV5::InvalidReasonCode(header.typ, code))?;
                let properties = if header.remaining_len == 3 {
                    $props::default()
                } else {
                    $props::read(r).await?.0
                };
                Ok($name { pid, reason_code, properties })
            }
        }
        impl Encodable for $name {
            fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
                write_u16(w, self.pid.value())?;
                if self.properties.is_empty() {
                    if self.reason_code != $code::Success {
                        write_u8(w, self.reason_code as u8)?;
                    }
                    Ok(())
                } else {
                    write_u8(w, self.reason_code as u8)?;
                    self.properties.encode(w)
                }
            }
            fn encode_len(&self) -> usize {
                if self.properties.is_empty() {
                    if self.reason_code != $code::Success { 3 } else { 2 }
                } else {
                    3 + self.properties.encode_len()
                }
            }
        }
        )+
    }
}
pub_acks!(
    Puback, PubackReasonCode, PubackProperties;
    Pubrec, PubrecReasonCode, PubrecProperties;
    Pubrel, PubrelReasonCode, PubrelProperties;
    Pubcomp, PubcompReasonCode, PubcompProperties
);

// ---- SUBSCRIBE ----
#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum RetainHandling {
    SendAtSubscribe = 0,
    SendAtSubscribeIfNotExist = 1,
    DoNotSend = 2,
}
impl RetainHandling {
    pub fn from_u8(v: u8) -> Option<Self> {
        match v {
            0 => Some(Self::SendAtSubscribe),
            1 => Some(Self::SendAtSubscribeIfNotExist),
            2 => Some(Self::DoNotSend),
            _ => None,
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct SubscriptionOptions {
    pub max_qos: QoS,
    pub no_local: bool,
    pub retain_as_published: bool,
    pub retain_handling: RetainHandling,
}
impl SubscriptionOptions {
    pub fn new(max_qos: QoS) -> Self {
        SubscriptionOptions {
            max_qos,
            no_local: false,
            retain_as_published: true,
            retain_handling: RetainHandling::SendAtSubscribe,
        }
    }
    pub fn to_u8(&self) -> u8 {
        (self.max_qos as u8)
            | ((self.no_local as u8) << 2)
            | ((self.retain_as_published as u8) << 3)
            | ((self.retain_handling as u8) << 4)
    }
    fn from_u8(b: u8) -> Result<Self, ErrorV5> {
        if b & 0b1100_0000 != 0 {
            return Err(ErrorV5::InvalidSubscriptionOption(b));
        }
        Ok(SubscriptionOptions {
            max_qos: QoS::from_u8(b & 0b11).map_err(|_| ErrorV5::InvalidSubscriptionOption(b))?,
            no_local: b & 0b100 != 0,
            retain_as_published: b & 0b1000 != 0,
            retain_handling: RetainHandling::from_u8((b >> 4) & 0b11)
                .ok_or(ErrorV5::InvalidSubscriptionOption(b))?,
        })
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Subscribe {
    pub pid: Pid,
    pub properties: SubscribeProperties,
    pub topics: Vec<(TopicFilter, SubscriptionOptions)>,
}
impl Subscribe {
    pub fn new(pid: Pid, topics: Vec<(TopicFilter, SubscriptionOptions)>) -> Self {
        Subscribe {
            pid,
            properties: SubscribeProperties::default(),
            topics,
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(
        r: &mut T,
        header: Header,
    ) -> Result<Self, ErrorV5> {
        let mut remaining = header.remaining_len as usize;
        let pid = Pid::try_from(read_u16(r).await?)?;
        let (properties, n) = SubscribeProperties::read(r).await?;
        remaining = remaining
            .checked_sub(2 + n)
            .ok_or(Error::InvalidRemainingLength)?;
        if remaining == 0 {
            return Err(Error::EmptySubscription.into());
        }
        let mut topics = Vec::new();
        while remaining > 0 {
            let filter = TopicFilter::try_from(read_string(r).await?)?;
            let options = SubscriptionOptions::from_u8(read_u8(r).await?)?;
            remaining = remaining
                .checked_sub(3 + filter.len())
                .ok_or(Error::InvalidRemainingLength)?;
            topics.push((filter, options));
        }
        Ok(Subscribe {
            pid,
            properties,
            topics,
        })
    }
}
impl Encodable for Subscribe {
    fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_u16(w, self.pid.value())?;
        self.properties.encode(w)?;
        for (f, o) in &self.topics {
            write_bytes(w, f.as_bytes())?;
            write_u8(w, o.to_u8())?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        2 + self.properties.encode_len()
            + self.topics.iter().map(|(f, _)| 3 + f.len()).sum::<usize>()
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Unsubscribe {
    pub pid: Pid,
    pub properties: UnsubscribeProperties,
    pub topics: Vec<TopicFilter>,
}
impl Unsubscribe {
    pub fn new(pid: Pid, topics: Vec<TopicFilter>) -> Self {
        Unsubscribe {
            pid,
            properties: UnsubscribeProperties::default(),
            topics,
        }
    }
    pub async fn decode_async<T: AsyncRead + Unpin>(
        r: &mut T,
        header: Header,
    ) -> Result<Self, ErrorV5> {
        let mut remaining = header.remaining_len as usize;
        let pid = Pid::try_from(read_u16(r).await?)?;
        let (properties, n) = UnsubscribeProperties::read(r).await?;
        remaining = remaining
            .checked_sub(2 + n)
            .ok_or(Error::InvalidRemainingLength)?;
        if remaining == 0 {
            return Err(Error::EmptySubscription.into());
        }
        let mut topics = Vec::new();
        while remaining > 0 {
            let filter = TopicFilter::try_from(read_string(r).await?)?;
            remaining = remaining
                .checked_sub(2 + filter.len())
                .ok_or(Error::InvalidRemainingLength)?;
            topics.push(filter);
        }
        Ok(Unsubscribe {
            pid,
            properties,
            topics,
        })
    }
}
impl Encodable for Unsubscribe {
    fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
        write_u16(w, self.pid.value())?;
        self.properties.encode(w)?;
        for f in &self.topics {
            write_bytes(w, f.as_bytes())?;
        }
        Ok(())
    }
    fn encode_len(&self) -> usize {
        2 + self.properties.encode_len() + self.topics.iter().map(|f| 2 + f.len()).sum::<usize>()
    }
}

macro_rules! sub_acks {
    ($($name:ident, $code:ident, $props:ident);+) => {
        $(
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name {
            pub pid: Pid,
            pub properties: $props,
            pub topics: Vec<$code>,
        }
        impl $name {
            pub fn new(pid: Pid, topics: Vec<$code>) -> Self {
                $name { pid, properties: $props::default(), topics }
            }
            pub async fn decode_async<T: AsyncRead + Unpin>(r: &mut T, header: Header) -> Result<Self, ErrorV5> {
                let pid = Pid::try_from(read_u16(r).await?)?;
                let (properties, n) = $props::read(r).await?;
                let remaining = (header.remaining_len as usize)
                    .checked_sub(2 + n)
                    .ok_or(Error::InvalidRemainingLength)?;
                let mut topics = Vec::new();
                for _ in 0..remaining {
                    let code = read_u8(r).await?;
                    topics.push($code::from_u8(code)
                        .ok_or(ErrorV5::InvalidReasonCode(header.typ, code))?);
                }
                Ok($name { pid, properties, topics })
            }
        }
        impl Encodable for $name {
            fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
                write_u16(w, self.pid.value())?;
                self.properties.encode(w)?;
                for c in &self.topics {
                    write_u8(w, *c as u8)?;
                }
                Ok(())
            }
            fn encode_len(&self) -> usize {
                2 + self.properties.encode_len() + self.topics.len()
            }
        }
        )+
    }
}
sub_acks!(
    Suback, SubscribeReasonCode, SubackProperties;
    Unsuback, UnsubscribeReasonCode, UnsubackProperties
);

// ---- DISCONNECT, AUTH ----
macro_rules! reason_packets {
    ($($name:ident, $code:ident, $default:ident, $props:ident);+) => {
        $(
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name {
            pub reason_code: $code,
            pub properties: $props,
        }
        impl $name {
            pub fn new(reason_code: $code) -> Self {
                $name { reason_code, properties: $props::default() }
            }
            pub async fn decode_async<T: AsyncRead + Unpin>(r: &mut T, header: Header) -> Result<Self, ErrorV5> {
                if header.remaining_len == 0 {
                    return Ok(Self::new($code::$default));
                }
                let code = read_u8(r).await?;
                let reason_code = $code::from_u8(code)
                    .ok_or(ErrorV5::InvalidReasonCode(header.typ, code))?;
                let properties = if header.remaining_len == 1 {
                    $props::default()
                } else {
                    $props::read(r).await?.0
                };
                Ok($name { reason_code, properties })
            }
        }
        impl Encodable for $name {
            fn encode<W: io::Write>(&self, w: &mut W) -> Result<(), Error> {
                if self.properties.is_empty() {
                    if self.reason_code != $code::$default {
                        write_u8(w, self.reason_code as u8)?;
                    }
                    Ok(())
                } else {
                    write_u8(w, self.reason_code as u8)?;
                    self.properties.encode(w)
                }
            }
            fn encode_len(&self) -> usize {
                if self.properties.is_empty() {
                    if self.reason_code != $code::$default { 1 } else { 0 }
                } else {
                    1 + self.properties.encode_len()
                }
            }
        }
        )+
    }
}
reason_packets!(
    Disconnect, DisconnectReasonCode, NormalDisconnect, DisconnectProperties;
    Auth, AuthReasonCode, Success, AuthProperties
);
impl Disconnect {
    pub fn new_normal() -> Self {
        Self::new(DisconnectReasonCode::NormalDisconnect)
    }
}
impl Auth {
    pub fn new_success() -> Self {
        Self::new(AuthReasonCode::Success)
    }
}
