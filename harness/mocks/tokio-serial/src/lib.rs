//! In-memory stand-in for `tokio-serial` 5: a scripted serial port.
#![allow(clippy::all)]

use std::{
    cell::RefCell,
    collections::VecDeque,
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
    time::Duration,
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Debug)]
pub struct Error {
    pub description: String,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.description)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod sim {
    use super::*;
    #[derive(Debug, Clone, PartialEq)]
    pub enum RxEv {
        /// bytes available together (a read returns at most what fits its buffer)
        Chunk(Vec<u8>),
        /// the reader is polled in vain once
        Spurious,
        Err(io::ErrorKind),
        /// from here on every read returns zero bytes
        Eof,
    }
    #[derive(Default)]
    pub struct State {
        pub opened: Vec<(String, u32)>,
        pub rx: VecDeque<RxEv>,
        pub eof: bool,
        /// zero-byte reads handed out (a livelock is cut off, and visible here)
        pub zero_reads: usize,
        pub(crate) rx_waker: Option<Waker>,
        pub written: Vec<u8>,
        /// sizes accepted by successive writes (0 = not ready once); unlimited when exhausted
        pub wr_sizes: VecDeque<usize>,
        /// total bytes accepted before writes fail
        pub fail_after: Option<usize>,
        /// total bytes accepted before writes block
        pub block_after: Option<usize>,
        pub(crate) tx_waker: Option<Waker>,
        pub shutdowns: usize,
        pub dropped: bool,
    }
    thread_local! { pub static PORT: RefCell<Option<(Arc<Mutex<State>>, bool)>> = const { RefCell::new(None) }; }
    pub fn install(open_fails: bool) -> Arc<Mutex<State>> {
        let st = Arc::new(Mutex::new(State::default()));
        PORT.with(|p| *p.borrow_mut() = Some((st.clone(), open_fails)));
        st
    }
    pub fn feed(st: &Arc<Mutex<State>>, evs: impl IntoIterator<Item = RxEv>) {
        let mut s = st.lock().unwrap();
        s.rx.extend(evs);
        if let Some(w) = s.rx_waker.take() {
            w.wake();
        }
    }
    pub fn unblock(st: &Arc<Mutex<State>>, upto: Option<usize>) {
        let mut s = st.lock().unwrap();
        s.block_after = upto;
        if let Some(w) = s.tx_waker.take() {
            w.wake();
        }
    }
}

#[derive(Debug, Clone)]
pub struct SerialPortBuilder {
    path: String,
    baud: u32,
}
pub fn new<'a>(path: impl Into<std::borrow::Cow<'a, str>>, baud_rate: u32) -> SerialPortBuilder {
    SerialPortBuilder { path: path.into().into_owned(), baud: baud_rate }
}
impl SerialPortBuilder {
    pub fn path<'a>(mut self, path: impl Into<std::borrow::Cow<'a, str>>) -> Self {
        self.path = path.into().into_owned();
        self
    }
    pub fn baud_rate(mut self, baud_rate: u32) -> Self {
        self.baud = baud_rate;
        self
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
}
pub trait SerialPortBuilderExt {
    fn open_native_async(self) -> Result<SerialStream>;
}
impl SerialPortBuilderExt for SerialPortBuilder {
    fn open_native_async(self) -> Result<SerialStream> {
        SerialStream::open(&self)
    }
}

#[derive(Debug)]
pub struct SerialStream {
    st: Arc<Mutex<sim::State>>,
}
impl std::fmt::Debug for sim::State {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "port")
    }
}
impl SerialStream {
    pub fn open(b: &SerialPortBuilder) -> Result<Self> {
        let (st, fails) = sim::PORT.with(|p| p.borrow().clone()).expect("no simulated port installed");
        if fails {
            return Err(Error { description: "open failed".into() });
        }
        st.lock().unwrap().opened.push((b.path.clone(), b.baud));
        Ok(SerialStream { st })
    }
}
impl Drop for SerialStream {
    fn drop(&mut self) {
        if let Ok(mut s) = self.st.lock() {
            s.dropped = true;
        }
    }
}

impl AsyncRead for SerialStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut s = self.st.lock().unwrap();
        loop {
            if s.eof {
                s.zero_reads += 1;
                if s.zero_reads > 2000 {
                    // the reader ignores the end of the stream: stop feeding the livelock
                    return Poll::Pending;
                }
                return Poll::Ready(Ok(()));
            }
            match s.rx.pop_front() {
                None => {
                    s.rx_waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Some(sim::RxEv::Spurious) => {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                Some(sim::RxEv::Err(k)) => return Poll::Ready(Err(k.into())),
                Some(sim::RxEv::Eof) => s.eof = true,
                Some(sim::RxEv::Chunk(c)) => {
                    if c.is_empty() {
                        continue;
                    }
                    let n = c.len().min(buf.remaining());
                    buf.put_slice(&c[..n]);
                    if n < c.len() {
                        s.rx.push_front(sim::RxEv::Chunk(c[n..].to_vec()));
                    }
                    return Poll::Ready(Ok(()));
                }
            }
        }
    }
}

impl AsyncWrite for SerialStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.st.lock().unwrap();
        if let Some(n) = s.fail_after {
            if s.written.len() >= n {
                return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
            }
        }
        if let Some(n) = s.block_after {
            if s.written.len() >= n {
                s.tx_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
        }
        let mut n = match s.wr_sizes.pop_front() {
            Some(0) => {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Some(n) => n.min(buf.len()),
            None => buf.len(),
        };
        for lim in [s.fail_after, s.block_after].into_iter().flatten() {
            n = n.min(lim - s.written.len());
        }
        s.written.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.st.lock().unwrap().shutdowns += 1;
        Poll::Ready(Ok(()))
    }
}
