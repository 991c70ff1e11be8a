use std::future::Future;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::task::{Context, Poll};

use tokio::io::{AsyncRead, ReadBuf};

use crate::Error;

/// What [`GenericPollPacket`] needs to know about a fixed header.
pub trait PollHeader {
    type Error;
    type Packet;

    fn new_with(hd: u8, remaining_len: u32, total_len: u32) -> Result<Self, Self::Error>
    where
        Self: Sized;
    fn build_empty_packet(&self) -> Option<Self::Packet>;
    fn block_decode(self, reader: &mut &[u8]) -> Result<Self::Packet, Self::Error>;
    fn remaining_len(&self) -> usize;
    fn total_len(&self) -> usize;
    fn is_eof_error(err: &Self::Error) -> bool;
}

#[derive(Debug, Clone)]
pub struct PollHeaderState {
    control_byte: Option<u8>,
    var_idx: u32,
    var_int: u32,
}
impl Default for PollHeaderState {
    fn default() -> Self {
        PollHeaderState {
            control_byte: None,
            var_idx: 0,
            var_int: 0,
        }
    }
}

#[derive(Debug)]
pub struct GenericPollBodyState<H> {
    pub header: H,
    pub idx: usize,
    pub buf: Vec<MaybeUninit<u8>>,
}

#[derive(Debug)]
pub enum GenericPollPacketState<H> {
    Header(PollHeaderState),
    Body(GenericPollBodyState<H>),
}
impl<H> Default for GenericPollPacketState<H> {
    fn default() -> Self {
        GenericPollPacketState::Header(PollHeaderState::default())
    }
}

/// Reads one packet; its progress is kept in `state`, so it can be dropped and rebuilt.
pub struct GenericPollPacket<'a, T, H> {
    state: &'a mut GenericPollPacketState<H>,
    reader: &'a mut T,
}
impl<'a, T, H> GenericPollPacket<'a, T, H> {
    pub fn new(state: &'a mut GenericPollPacketState<H>, reader: &'a mut T) -> Self {
        GenericPollPacket { state, reader }
    }
}

impl<'a, T, H> Future for GenericPollPacket<'a, T, H>
where
    T: AsyncRead + Unpin,
    H: PollHeader + Copy + Unpin,
    H::Error: From<std::io::Error> + From<Error>,
{
    type Output = Result<(usize, Vec<MaybeUninit<u8>>, H::Packet), H::Error>;

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let GenericPollPacket { state, reader } = self.get_mut();
        loop {
            match state {
                GenericPollPacketState::Header(hs) => {
                    let mut b = [0u8; 1];
                    let mut rb = ReadBuf::new(&mut b);
                    match Pin::new(&mut **reader).poll_read(cx, &mut rb) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Err(err)) => return Poll::Ready(Err(err.into())),
                        Poll::Ready(Ok(())) => {}
                    }
                    if rb.filled().is_empty() {
                        return Poll::Ready(Err(Error::IoError(
                            std::io::ErrorKind::UnexpectedEof,
                        )
                        .into()));
                    }
                    let byte = b[0];
                    if hs.control_byte.is_none() {
                        hs.control_byte = Some(byte);
                        continue;
                    }
                    hs.var_int |= (u32::from(byte) & 0x7F) << (7 * hs.var_idx);
                    if byte & 0x80 != 0 {
                        if hs.var_idx < 3 {
                            hs.var_idx += 1;
                            continue;
                        }
                        return Poll::Ready(Err(Error::InvalidVarByteInt.into()));
                    }
                    let total = 1 + hs.var_idx + 1 + hs.var_int;
                    let header = H::new_with(hs.control_byte.unwrap(), hs.var_int, total)?;
                    if header.remaining_len() == 0 {
                        if let Some(packet) = header.build_empty_packet() {
                            return Poll::Ready(Ok((header.total_len(), Vec::new(), packet)));
                        }
                    }
                    let len = header.remaining_len();
                    let mut buf = Vec::with_capacity(len);
                    buf.resize(len, MaybeUninit::new(0));
                    **state = GenericPollPacketState::Body(GenericPollBodyState {
                        header,
                        idx: 0,
                        buf,
                    });
                }
                GenericPollPacketState::Body(bs) => {
                    while bs.idx < bs.buf.len() {
                        let mut rb = ReadBuf::uninit(&mut bs.buf[bs.idx..]);
                        match Pin::new(&mut **reader).poll_read(cx, &mut rb) {
                            Poll::Pending => return Poll::Pending,
                            Poll::Ready(Err(err)) => return Poll::Ready(Err(err.into())),
                            Poll::Ready(Ok(())) => {}
                        }
                        let n = rb.filled().len();
                        if n == 0 {
                            return Poll::Ready(Err(Error::IoError(
                                std::io::ErrorKind::UnexpectedEof,
                            )
                            .into()));
                        }
                        bs.idx += n;
                    }
                    let body: Vec<u8> = bs
                        .buf
                        .iter()
                        .map(|b| unsafe { b.assume_init() })
                        .collect();
                    let mut slice = &body[..];
                    return Poll::Ready(match bs.header.block_decode(&mut slice) {
                        Ok(packet) => {
                            if slice.is_empty() {
                                Ok((
                                    bs.header.total_len(),
                                    std::mem::take(&mut bs.buf),
                                    packet,
                                ))
                            } else {
                                Err(Error::InvalidRemainingLength.into())
                            }
                        }
                        Err(err) => {
                            if H::is_eof_error(&err) {
                                Err(Error::InvalidRemainingLength.into())
                            } else {
                                Err(err)
                            }
                        }
                    });
                }
            }
        }
    }
}
