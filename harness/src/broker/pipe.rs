//! An in-memory byte stream between a synchronous test client and the broker, with
//! configurable fragmentation of reads, partial writes and back-pressure.
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// Cyclic sizes; 0 = no limit. After a chunk of odd size the next call is pending once.
#[derive(Clone, Debug, Default)]
pub struct Chunks {
    pub sizes: Vec<usize>,
    i: usize,
    pended: bool,
}

impl Chunks {
    pub fn new(sizes: Vec<usize>) -> Chunks {
        Chunks { sizes, i: 0, pended: false }
    }
    /// None: pend once (the caller wakes itself)
    fn next(&mut self) -> Option<usize> {
        if self.sizes.is_empty() {
            return Some(usize::MAX);
        }
        let prev = self.sizes[(self.i + self.sizes.len() - 1) % self.sizes.len()];
        if self.i > 0 && prev % 2 == 1 && !self.pended {
            self.pended = true;
            return None;
        }
        self.pended = false;
        let n = self.sizes[self.i % self.sizes.len()];
        self.i += 1;
        Some(if n == 0 { usize::MAX } else { n })
    }
}

#[derive(Default)]
struct Inner {
    c2s: VecDeque<u8>,
    eof: bool,
    reset: bool,
    s2c: Vec<u8>,
    cap: usize,
    /// the connection breaks when the broker has written this many more bytes
    cut: Option<usize>,
    shutdown: bool,
    dropped: bool,
    read_chunks: Chunks,
    write_chunks: Chunks,
    reader: Option<Waker>,
    writer: Option<Waker>,
    /// an asynchronous client waits for data or the end
    creader: Option<Waker>,
    cgone: Option<Waker>,
}

/// The end the broker (or a bridge task) holds.
pub struct ServerEnd(Arc<Mutex<Inner>>);
/// The end the test holds.
#[derive(Clone)]
pub struct ClientEnd(Arc<Mutex<Inner>>);

pub fn pipe(cap: usize, read: Vec<usize>, write: Vec<usize>) -> (ClientEnd, ServerEnd) {
    let inner = Arc::new(Mutex::new(Inner {
        cap,
        read_chunks: Chunks::new(read),
        write_chunks: Chunks::new(write),
        ..Default::default()
    }));
    (ClientEnd(inner.clone()), ServerEnd(inner))
}

impl ClientEnd {
    pub fn send(&self, data: &[u8]) {
        let mut g = self.0.lock().unwrap();
        g.c2s.extend(data);
        if let Some(w) = g.reader.take() {
            w.wake();
        }
    }
    /// Half close: the broker reads the rest, then end of file.
    pub fn eof(&self) {
        let mut g = self.0.lock().unwrap();
        g.eof = true;
        if let Some(w) = g.reader.take() {
            w.wake();
        }
    }
    /// The connection breaks: unread bytes are lost, reads and writes fail.
    pub fn reset(&self) {
        let mut g = self.0.lock().unwrap();
        g.reset = true;
        g.c2s.clear();
        for w in [g.reader.take(), g.writer.take(), g.creader.take()].into_iter().flatten() {
            w.wake();
        }
    }
    pub fn recv(&self) -> Vec<u8> {
        let mut g = self.0.lock().unwrap();
        let v = std::mem::take(&mut g.s2c);
        if let Some(w) = g.writer.take() {
            w.wake();
        }
        v
    }
    pub fn set_cap(&self, cap: usize) {
        let mut g = self.0.lock().unwrap();
        g.cap = cap;
        if let Some(w) = g.writer.take() {
            w.wake();
        }
    }
    /// The connection breaks when the broker has written `n` more bytes.
    pub fn cut_after(&self, n: usize) {
        self.0.lock().unwrap().cut = Some(n);
    }
    pub fn broken(&self) -> bool {
        self.0.lock().unwrap().reset
    }
    /// Bytes the broker wrote which we have not read yet.
    pub fn waiting(&self) -> usize {
        self.0.lock().unwrap().s2c.len()
    }
    /// Bytes the broker has not read yet.
    pub fn unread(&self) -> usize {
        self.0.lock().unwrap().c2s.len()
    }
    /// The broker closed its side (shut down or dropped).
    pub fn closed(&self) -> bool {
        let g = self.0.lock().unwrap();
        g.shutdown || g.dropped
    }
    pub fn gone(&self) -> bool {
        self.0.lock().unwrap().dropped
    }
}

impl Drop for ServerEnd {
    fn drop(&mut self) {
        let mut g = self.0.lock().unwrap();
        g.dropped = true;
        for w in [g.creader.take(), g.cgone.take()].into_iter().flatten() {
            w.wake();
        }
    }
}

/// The client end as an asynchronous stream (for bridges).
pub struct AsyncEnd(pub ClientEnd);

impl ClientEnd {
    /// Until the broker dropped its end.
    pub async fn wait_gone(&self) {
        std::future::poll_fn(|cx| {
            let mut g = self.0.lock().unwrap();
            if g.dropped {
                return Poll::Ready(());
            }
            g.cgone = Some(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
}

impl AsyncRead for AsyncEnd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut g = self.0.0.lock().unwrap();
        if g.s2c.is_empty() {
            if g.reset {
                return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
            }
            if g.shutdown || g.dropped {
                return Poll::Ready(Ok(()));
            }
            g.creader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = buf.remaining().min(g.s2c.len());
        buf.put_slice(&g.s2c[..n]);
        g.s2c.drain(..n);
        if let Some(w) = g.writer.take() {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for AsyncEnd {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let end = &self.0;
        {
            let g = end.0.lock().unwrap();
            if g.dropped || g.reset {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
        }
        end.send(data);
        Poll::Ready(Ok(data.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.eof();
        Poll::Ready(Ok(()))
    }
}

impl AsyncRead for ServerEnd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut g = self.0.lock().unwrap();
        if g.reset {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if g.c2s.is_empty() {
            if g.eof {
                return Poll::Ready(Ok(()));
            }
            g.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        let Some(n) = g.read_chunks.next() else {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        };
        let n = n.min(g.c2s.len()).min(buf.remaining());
        let (a, b) = g.c2s.as_slices();
        if n <= a.len() {
            buf.put_slice(&a[..n]);
        } else {
            buf.put_slice(a);
            buf.put_slice(&b[..n - a.len()]);
        }
        g.c2s.drain(..n);
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for ServerEnd {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        let mut g = self.0.lock().unwrap();
        if g.reset || g.shutdown {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let room = g.cap.saturating_sub(g.s2c.len());
        if room == 0 {
            g.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let Some(n) = g.write_chunks.next() else {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        };
        let mut n = n.min(room).min(data.len());
        if let Some(cut) = g.cut {
            if cut == 0 {
                g.reset = true;
                g.c2s.clear();
                for w in [g.reader.take(), g.creader.take()].into_iter().flatten() {
                    w.wake();
                }
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
            n = n.min(cut);
            g.cut = Some(cut - n);
        }
        g.s2c.extend_from_slice(&data[..n]);
        if let Some(w) = g.creader.take() {
            w.wake();
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.0.lock().unwrap().reset {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut g = self.0.lock().unwrap();
        g.shutdown = true;
        if let Some(w) = g.creader.take() {
            w.wake();
        }
        Poll::Ready(Ok(()))
    }
}
