//! C24: the in-process transports (channel client, channel server, local test setup).

use std::{cell::RefCell, collections::HashMap, rc::Rc};

use postcard_rpc::{
    header::{VarHeader, VarKey, VarSeq},
    host_client::{test_channels::new_from_channels, HostClient, HostErr, RpcFrame},
    server::{
        impls::test_channels::{
            dispatch_impl::{new_server, new_server_stoppable, Settings},
            ChannelWireRx, ChannelWireTx, ChannelWireTxError,
        },
        AsWireRxErrorKind, AsWireTxErrorKind, Dispatch, Sender, ServerError, WireRx, WireRxErrorKind, WireTx, WireTxErrorKind,
    },
    standard_icd::{LoggingTopic, WireError},
    test_utils::{local_setup, LocalError},
    Topic,
};
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc;
use vcommon::{ensure, ensure_eq, frames, proptest, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::{
    exec::{with_rt, Exec},
    hdr::{kkind, klen, skind, slen},
    mock::*,
};

fn vkey(k: postcard_rpc::Key, n: usize) -> VarKey {
    let mut v = VarKey::Key8(k);
    v.shrink_to(kkind(n));
    v
}
fn vseq(w: usize, s: u32) -> VarSeq {
    match w {
        1 => VarSeq::Seq1(s as u8),
        2 => VarSeq::Seq2(s as u16),
        _ => VarSeq::Seq4(s),
    }
}

struct NoDispatch;
impl Dispatch for NoDispatch {
    type Tx = ChannelWireTx;
    fn min_key_len(&self) -> postcard_rpc::header::VarKeyKind {
        kkind(8)
    }
    async fn handle(&mut self, _: &Sender<ChannelWireTx>, _: &VarHeader, _: &[u8]) -> Result<(), ChannelWireTxError> {
        Ok(())
    }
}

// ------------------------------------------------------------------ server side

#[derive(Debug, Clone, Serialize, Deserialize)]
enum TxOp {
    Send { klen: usize, slen: usize, seq: u32, len: u16 },
    Raw(Vec<u8>),
    LogStr(usize, String),
    LogFmt(usize, String, u32),
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Act {
    /// let some polls happen
    Steps(u8),
    Settle,
    /// the peer reads this many frames sent by the server
    Read(u8),
    /// the peer sends the next frames
    Feed(u8),
    Stop,
    /// the peer stops reading / sending
    DropReader,
    DropFeeder,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct CaseS {
    cap_out: u8,
    cap_in: u8,
    tasks: Vec<Vec<TxOp>>,
    feed: Vec<Vec<u8>>,
    buf: usize,
    stoppable: (bool, bool),
    acts: Vec<Act>,
    sched: Vec<u8>,
    rng: u64,
    /// added to the length of every frame in both directions, and to the receive buffer
    #[serde(default)]
    big: u32,
}
/// `b` extended to `n` more bytes
fn grown(b: &[u8], n: u32) -> Vec<u8> {
    b.iter().copied().chain((0..n).map(|i| (i ^ (i >> 8)) as u8)).collect()
}

#[derive(Default)]
struct TxLog {
    /// per task: results so far
    res: Vec<Vec<Result<(), ()>>>,
}

fn body_of(op: &TxOp, big: u32) -> Vec<u8> {
    match op {
        TxOp::Send { seq, len, .. } => (0..*len as u32 + big).map(|i| (i ^ (i >> 8) ^ *seq) as u8).collect(),
        _ => vec![],
    }
}

fn run_s(c: &CaseS) -> CaseResult {
    with_rt(c.rng, async {
        let ex = Exec::new(&c.sched);
        let (o_tx, o_rx) = mpsc::channel::<Vec<u8>>(c.cap_out.max(1) as usize);
        let (i_tx, i_rx) = mpsc::channel::<Vec<u8>>(c.cap_in.max(1) as usize);
        // stoppers only come with a server
        let (_server, stopper) = new_server_stoppable(
            NoDispatch,
            Settings {
                tx: ChannelWireTx::new(mpsc::channel(1).0),
                rx: ChannelWireRx::new(mpsc::channel(1).1),
                buf: 1,
                kkind: kkind(8),
            },
        );
        let mut tx = ChannelWireTx::new(o_tx);
        let mut rx = ChannelWireRx::new(i_rx);
        if c.stoppable.0 {
            tx.set_stopper(stopper.clone());
        }
        if c.stoppable.1 {
            rx.set_stopper(stopper.clone());
        }
        let log: Rc<RefCell<TxLog>> = Rc::new(RefCell::new(TxLog { res: vec![vec![]; c.tasks.len()] }));
        let mut ids = vec![];
        for (t, ops) in c.tasks.iter().enumerate() {
            let (tx, ops, log, big) = (tx.clone(), ops.clone(), log.clone(), c.big);
            ids.push(ex.spawn(async move {
                for op in &ops {
                    let r = match op {
                        TxOp::Send { klen, slen, seq, .. } => {
                            let h = VarHeader { key: vkey(TP_KEYS[0], *klen), seq_no: vseq(*slen, *seq) };
                            tx.send(h, &body_of(op, big)).await
                        }
                        TxOp::Raw(b) => tx.send_raw(&grown(b, big)).await,
                        TxOp::LogStr(k, s) => tx.send_log_str(kkind(*k), s).await,
                        TxOp::LogFmt(k, s, n) => tx.send_log_fmt(kkind(*k), format_args!("{s}={n:>4}")).await,
                    };
                    let r = match r {
                        Ok(()) => Ok(()),
                        Err(e) => {
                            if !matches!(e.as_kind(), WireTxErrorKind::ConnectionClosed) {
                                panic!("a failed send on a channel is {:?}", e.as_kind());
                            }
                            Err(())
                        }
                    };
                    log.borrow_mut().res[t].push(r);
                }
            }));
        }
        drop(tx);
        // receiver
        type RxRes = Vec<Result<Vec<u8>, bool>>;
        let got: Rc<RefCell<RxRes>> = Default::default();
        let (g2, buf) = (got.clone(), c.buf + c.big as usize);
        let rx_id = ex.spawn(async move {
            let mut b = vec![0xEEu8; buf];
            let mut closed = 0;
            while closed < 2 {
                let r = match rx.receive(&mut b).await {
                    Ok(f) => Ok(f.to_vec()),
                    Err(e) => match e.as_kind() {
                        WireRxErrorKind::ReceivedMessageTooLarge => Err(true),
                        WireRxErrorKind::ConnectionClosed => {
                            closed += 1;
                            Err(false)
                        }
                        k => panic!("a failed receive on a channel is {k:?}"),
                    },
                };
                g2.borrow_mut().push(r);
            }
        });
        let mut reader = Some(o_rx);
        let mut feeder = Some(i_tx);
        let mut fed = 0;
        let mut seen: Vec<Vec<u8>> = vec![];
        let mut stopped = false;
        // state at the moment of stopping, everything settled: results there, and whether each task was blocked
        let mut at_stop: Option<(Vec<usize>, usize)> = None;
        for a in &c.acts {
            match a {
                Act::Steps(n) => ex.steps(*n as usize).await,
                Act::Settle => ex.settle().await?,
                Act::Read(n) => {
                    for _ in 0..*n {
                        if let Some(Ok(f)) = reader.as_mut().map(|r| r.try_recv()) {
                            seen.push(f);
                        }
                    }
                }
                Act::Feed(n) => {
                    for _ in 0..*n {
                        if let (Some(f), Some(s)) = (c.feed.get(fed), feeder.as_ref()) {
                            if s.try_send(grown(f, c.big)).is_ok() {
                                fed += 1;
                            }
                        }
                    }
                }
                Act::Stop => {
                    if !stopped {
                        ex.settle().await?;
                        at_stop = Some((log.borrow().res.iter().map(|r| r.len()).collect(), got.borrow().len()));
                    }
                    stopped = true;
                    stopper.stop();
                    // before anything else happens, such as room for a waiting frame
                    ex.settle().await?;
                }
                Act::DropReader => {
                    // what is still queued is lost with the reader
                    if let Some(mut r) = reader.take() {
                        r.close();
                        while let Ok(f) = r.try_recv() {
                            seen.push(f);
                        }
                    }
                }
                Act::DropFeeder => feeder = None,
            }
        }
        ex.settle().await?;
        let tx_stopped = stopped && c.stoppable.0;
        let rx_stopped = stopped && c.stoppable.1;
        let reader_gone = reader.is_none();
        // nobody may be stuck once the transport is stopped or the peer is gone, even with nobody reading
        if tx_stopped || reader_gone {
            for id in &ids {
                ensure!(ex.is_done(*id), "a send hangs although the transport was {}", if tx_stopped { "stopped" } else { "abandoned by its peer" });
            }
        }
        if rx_stopped || feeder.is_none() {
            ensure!(ex.is_done(rx_id), "a receive hangs although the transport was {}", if rx_stopped { "stopped" } else { "abandoned by its peer" });
        } else {
            ensure!(!ex.is_done(rx_id), "receiving ended although the peer is there");
        }
        // with a reader, everything comes through
        if let Some(r) = reader.as_mut() {
            for _ in 0..10_000 {
                match r.try_recv() {
                    Ok(f) => seen.push(f),
                    Err(_) => {
                        ex.settle().await?;
                        match r.try_recv() {
                            Ok(f) => seen.push(f),
                            Err(_) => break,
                        }
                    }
                }
            }
            for id in &ids {
                ensure!(ex.is_done(*id), "a send hangs although its peer reads everything");
            }
        }
        // ---- outgoing frames
        let res = &log.borrow().res;
        let mut logs_ok: Vec<u32> = vec![];
        let mut next: Vec<usize> = vec![0; c.tasks.len()];
        // what every successful operation puts on the channel; the number of a log message is read off it
        let expect = |op: &TxOp, f: &[u8]| -> Option<Option<u32>> {
            match op {
                TxOp::Send { klen, slen, seq, .. } => {
                    let b = postcard::to_stdvec(&body_of(op, c.big)).unwrap();
                    let m = if *slen == 4 { u32::MAX } else { (1 << (8 * slen)) - 1 };
                    (frames::frame(&TP_KEYS[0].to_bytes(), *klen, *slen, seq & m, &b) == f).then_some(None)
                }
                TxOp::Raw(b) => (grown(b, c.big) == f).then_some(None),
                TxOp::LogStr(k, _) | TxOp::LogFmt(k, _, _) => {
                    let text = match op {
                        TxOp::LogStr(_, s) => s.clone(),
                        TxOp::LogFmt(_, s, n) => format!("{s}={n:>4}"),
                        _ => unreachable!(),
                    };
                    let (key, (w, n), b) = frames::decode(f)?;
                    let ok = w == 4 && key == frames::fold(&LoggingTopic::TOPIC_KEY.to_bytes(), *k) && b == postcard::to_stdvec(&text).unwrap();
                    ok.then_some(Some(n))
                }
            }
        };
        // assign the seen frames to the tasks, each in its order; identical frames of different tasks are interchangeable
        let okops: Vec<Vec<&TxOp>> = c.tasks.iter().zip(res).map(|(ops, r)| ops.iter().zip(r).filter(|(_, r)| r.is_ok()).map(|x| x.0).collect()).collect();
        let total: usize = okops.iter().map(|o| o.len()).sum();
        if !reader_gone {
            ensure!(seen.len() == total, "{} frames arrived, {total} sends succeeded", seen.len());
        } else {
            ensure!(seen.len() <= total, "{} frames arrived, {total} sends succeeded", seen.len());
        }
        let mut last_log: HashMap<usize, u32> = HashMap::new();
        if !assign(&okops, &seen, &mut next, 0, &expect, &mut logs_ok, &mut last_log) {
            return Err("the frames on the channel are not what was sent, each sender's in order".into());
        }
        let n_log_ops: usize = c.tasks.iter().flatten().filter(|o| matches!(o, TxOp::LogStr(..) | TxOp::LogFmt(..))).count();
        let mut l = logs_ok.clone();
        l.sort();
        let all_ok = res.iter().flatten().all(|r| r.is_ok());
        if all_ok && !reader_gone {
            ensure_eq!(l, (0..n_log_ops as u32).collect::<Vec<_>>(), "log message numbers");
        } else {
            let k = l.len();
            l.dedup();
            ensure!(l.len() == k && l.iter().all(|n| (*n as usize) < n_log_ops), "log message numbers {l:?}");
        }
        if !tx_stopped && !reader_gone {
            ensure!(all_ok, "a send failed although the channel is open");
        }
        // a send that was waiting when the transport was stopped fails
        if let (Some((n, _)), true, false) = (&at_stop, tx_stopped, reader_gone) {
            for (t, r) in res.iter().enumerate() {
                if n[t] < c.tasks[t].len() {
                    // settled and not finished: it was waiting for room
                    ensure!(r[n[t]].is_err(), "a send that was waiting when the transport was stopped succeeded");
                }
            }
        }
        // ---- incoming frames
        let want: Vec<Result<Vec<u8>, bool>> = c.feed[..fed].iter().map(|f| if f.len() <= c.buf { Ok(grown(f, c.big)) } else { Err(true) }).collect();
        let got = got.borrow().clone();
        let data: Vec<_> = got.iter().filter(|r| **r != Err(false)).cloned().collect();
        if rx_stopped {
            ensure!(data.len() <= want.len() && data[..] == want[..data.len()], "received {data:?}, sent {want:?}");
            let (_, n) = at_stop.as_ref().unwrap();
            ensure!(got.len() <= *n || got.iter().skip(*n).any(|r| *r == Err(false)), "receiving did not end after the stop");
        } else {
            ensure_eq!(data, want, "received frames");
            let ends = got.iter().position(|r| *r == Err(false));
            ensure!(ends.is_none_or(|e| e >= want.len()), "the connection was reported closed before all frames were received");
        }
        Ok(Outcome::new(total + fed >= 3)
            .label(tx_stopped || rx_stopped, "stopped")
            .label(at_stop.as_ref().is_some_and(|(n, _)| n.iter().zip(&c.tasks).any(|(n, t)| *n < t.len())), "stopped while a send waits")
            .label(reader_gone, "peer stopped reading")
            .label(feeder.is_none(), "peer stopped sending")
            .label(want.contains(&Err(true)), "frame too large")
            .label(n_log_ops > 1, "several log messages"))
    })
}

#[allow(clippy::too_many_arguments)]
fn assign(
    ops: &[Vec<&TxOp>],
    seen: &[Vec<u8>],
    next: &mut Vec<usize>,
    i: usize,
    expect: &dyn Fn(&TxOp, &[u8]) -> Option<Option<u32>>,
    logs: &mut Vec<u32>,
    last: &mut HashMap<usize, u32>,
) -> bool {
    let Some(f) = seen.get(i) else { return true };
    for t in 0..ops.len() {
        let Some(op) = ops[t].get(next[t]) else { continue };
        let Some(n) = expect(op, f) else { continue };
        let before = last.get(&t).copied();
        if let Some(n) = n {
            // one sender's log messages are numbered in their order
            if before.is_some_and(|b| n <= b) {
                continue;
            }
            logs.push(n);
            last.insert(t, n);
        }
        next[t] += 1;
        if assign(ops, seen, next, i + 1, expect, logs, last) {
            return true;
        }
        next[t] -= 1;
        if n.is_some() {
            logs.pop();
            match before {
                Some(b) => last.insert(t, b),
                None => last.remove(&t),
            };
        }
    }
    false
}

// ------------------------------------------------------------------ a whole server

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum WAct {
    Steps(u8),
    Settle,
    Feed(u8),
    Read(u8),
    /// a task sends this many log messages
    Log(u8),
    Stop,
    DropReader,
    DropFeeder,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct CaseW {
    stoppable: bool,
    cap: (u8, u8),
    buf: usize,
    klen: usize,
    /// valid header?, body
    feed: Vec<(bool, Vec<u8>)>,
    acts: Vec<WAct>,
    sched: Vec<u8>,
    rng: u64,
    /// added to the length of every message, and to the receive buffer
    #[serde(default)]
    big: u32,
}
/// Echoes every message whose first byte is odd
struct Echo(Rc<RefCell<Vec<(u32, Vec<u8>)>>>);
impl Dispatch for Echo {
    type Tx = ChannelWireTx;
    fn min_key_len(&self) -> postcard_rpc::header::VarKeyKind {
        kkind(8)
    }
    async fn handle(&mut self, tx: &Sender<ChannelWireTx>, h: &VarHeader, b: &[u8]) -> Result<(), ChannelWireTxError> {
        let VarSeq::Seq4(n) = h.seq_no else { return Ok(()) };
        self.0.borrow_mut().push((n, b.to_vec()));
        if b.first().is_some_and(|x| x % 2 == 1) {
            tx.reply_keyed(h.seq_no, TP_KEYS[0], &b.to_vec()).await?;
        }
        Ok(())
    }
}
fn run_w(c: &CaseW) -> CaseResult {
    with_rt(c.rng, async {
        let ex = Exec::new(&c.sched);
        let (o_tx, o_rx) = mpsc::channel::<Vec<u8>>(c.cap.0.max(1) as usize);
        let (i_tx, i_rx) = mpsc::channel::<Vec<u8>>(c.cap.1.max(1) as usize);
        let handled: Rc<RefCell<Vec<(u32, Vec<u8>)>>> = Default::default();
        let set = Settings { tx: ChannelWireTx::new(o_tx), rx: ChannelWireRx::new(i_rx), buf: c.buf + c.big as usize, kkind: kkind(c.klen) };
        let (mut server, stopper) = if c.stoppable {
            let (s, st) = new_server_stoppable(Echo(handled.clone()), set);
            (s, Some(st))
        } else {
            (new_server(Echo(handled.clone()), set), None)
        };
        let sender = server.sender();
        // how it ended: transmitting?
        let end: Rc<RefCell<Option<bool>>> = Default::default();
        let e2 = end.clone();
        let id = ex.spawn(async move {
            let r = server.run().await;
            let (tx, ok) = match r {
                ServerError::TxFatal(e) => (true, matches!(e.as_kind(), WireTxErrorKind::ConnectionClosed)),
                ServerError::RxFatal(e) => (false, matches!(e.as_kind(), WireRxErrorKind::ConnectionClosed)),
            };
            assert!(ok, "the server ended with another error than a closed connection");
            *e2.borrow_mut() = Some(tx);
        });
        let mut logs: Vec<(crate::exec::TaskId, u8, Rc<RefCell<(usize, usize)>>)> = vec![];
        let (mut reader, mut feeder) = (Some(o_rx), Some(i_tx));
        let (mut fed, mut seen, mut stopped) = (0usize, vec![], false);
        let frame = |i: usize| -> Vec<u8> {
            let (ok, b) = &c.feed[i];
            if *ok {
                frames::frame(&TP_KEYS[1].to_bytes(), c.klen, 4, i as u32, &grown(b, c.big))
            } else {
                vec![0xff; 1 + b.len() % 3]
            }
        };
        for a in &c.acts {
            match a {
                WAct::Steps(n) => ex.steps(*n as usize).await,
                WAct::Settle => ex.settle().await?,
                WAct::Feed(n) => {
                    for _ in 0..*n {
                        if let (true, Some(s)) = (fed < c.feed.len(), feeder.as_ref()) {
                            if s.try_send(frame(fed)).is_ok() {
                                fed += 1;
                            }
                        }
                    }
                }
                WAct::Read(n) => {
                    for _ in 0..*n {
                        if let Some(Ok(f)) = reader.as_mut().map(|r| r.try_recv()) {
                            seen.push(f);
                        }
                    }
                }
                WAct::Log(n) => {
                    let st: Rc<RefCell<(usize, usize)>> = Default::default();
                    let (s, st2, n2) = (sender.clone(), st.clone(), *n);
                    let id = ex.spawn(async move {
                        for i in 0..n2 {
                            let r = s.log_str(&format!("{i}")).await;
                            let mut x = st2.borrow_mut();
                            if r.is_ok() {
                                x.0 += 1
                            } else {
                                x.1 += 1
                            }
                        }
                    });
                    logs.push((id, *n, st));
                }
                WAct::Stop => {
                    if let Some(s) = &stopper {
                        stopped = true;
                        s.stop();
                    }
                }
                WAct::DropReader => {
                    if let Some(mut r) = reader.take() {
                        r.close();
                        while let Ok(f) = r.try_recv() {
                            seen.push(f);
                        }
                    }
                }
                WAct::DropFeeder => feeder = None,
            }
        }
        ex.settle().await?;
        if stopped {
            ensure!(end.borrow().is_some(), "the server runs on although it was stopped");
        }
        if stopped || reader.is_none() {
            ensure!(logs.iter().all(|l| ex.is_done(l.0)), "a send hangs on a stopped or abandoned transport");
        }
        // the peer reads everything
        for _ in 0..10_000 {
            let Some(r) = reader.as_mut() else { break };
            match r.try_recv() {
                Ok(f) => seen.push(f),
                Err(_) => {
                    ex.settle().await?;
                    match r.try_recv() {
                        Ok(f) => seen.push(f),
                        Err(_) => break,
                    }
                }
            }
        }
        ex.settle().await?;
        let must_end = stopped || feeder.is_none();
        let all: Vec<(u32, Vec<u8>)> = (0..fed).filter(|i| c.feed[*i].0 && frame(*i).len() <= c.buf + c.big as usize).map(|i| (i as u32, grown(&c.feed[i].1, c.big))).collect();
        let odd = |x: &(u32, Vec<u8>)| x.1.first().is_some_and(|b| b % 2 == 1);
        let handled = handled.borrow();
        // with nobody reading, the first echo ends it
        let by_echo = reader.is_none() && all.iter().any(odd);
        if must_end {
            ensure!(ex.is_done(id) && end.borrow().is_some(), "the server runs on although {}", if stopped { "it was stopped" } else { "its peer is gone" });
        } else if !by_echo {
            ensure!(end.borrow().is_none(), "the server ended on an open channel");
        }
        ensure!(logs.iter().all(|l| ex.is_done(l.0)), "a send hangs");
        if stopped || reader.is_none() {
            ensure!(handled.len() <= all.len() && handled[..] == all[..handled.len()], "handled {handled:?} of {all:?}");
        } else {
            ensure_eq!(*handled, all, "messages handled");
        }
        // echoes and logs on the channel
        let mut echo = vec![];
        let mut log_n = 0;
        let mut nums = std::collections::BTreeSet::new();
        for f in &seen {
            let (k, (_, n), b) = frames::decode(f).ok_or("malformed frame from the server")?;
            ensure_eq!(k.len(), c.klen, "key length of the server");
            if frames::key_is(&k, &LoggingTopic::TOPIC_KEY.to_bytes()) {
                log_n += 1;
                ensure!(nums.insert(n), "log number {n} twice");
            } else {
                ensure!(frames::key_is(&k, &TP_KEYS[0].to_bytes()), "unknown key");
                echo.push((n, postcard::from_bytes::<Vec<u8>>(&b).map_err(|_| "echo does not decode")?));
            }
        }
        let want: Vec<_> = handled.iter().filter(|x| odd(x)).cloned().collect();
        let ok: usize = logs.iter().map(|l| l.2.borrow().0).sum();
        let total: usize = logs.iter().map(|l| l.1 as usize).sum();
        ensure!(echo.len() <= want.len() && echo[..] == want[..echo.len()], "answers {echo:?}, expected {want:?}");
        if reader.is_some() {
            ensure!(log_n == ok, "{log_n} log messages arrived, {ok} were sent");
            ensure!(echo.len() + 1 >= want.len(), "answers missing");
        }
        if !stopped && reader.is_some() {
            ensure!(ok == total, "a send failed on an open channel");
            ensure_eq!(echo, want, "answers");
            ensure!(nums.iter().copied().eq(0..total as u32), "log numbers {nums:?}");
        }
        Ok(Outcome::new(handled.len() >= 2 && total > 0).label(stopped, "stopped").label(by_echo, "peer stopped reading").label(feeder.is_none(), "peer stopped sending"))
    })
}

// ------------------------------------------------------------------ client side

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum End {
    Open,
    /// the peer's receiver / sender is dropped
    DropRx,
    DropTx,
    /// local setup: injected fatal error
    Fatal,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum COp {
    Request(u32),
    Publish(u32),
    /// the peer answers the n-th request it saw
    Answer(u8),
    Topic(u32),
    Steps(u8),
    Settle,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct CaseC {
    /// the local test setup instead of plain channels
    local: bool,
    cap: u8,
    slen: usize,
    klen: usize,
    ops: Vec<COp>,
    end: End,
    sched: Vec<u8>,
    rng: u64,
    /// added to the length of requests and published messages
    #[serde(default)]
    big: u32,
}

enum Peer {
    Chan(Option<mpsc::Receiver<Vec<u8>>>, Option<mpsc::Sender<Vec<u8>>>),
    Local(postcard_rpc::test_utils::LocalFakeServer),
}
impl Peer {
    fn rx(&mut self) -> Option<&mut mpsc::Receiver<Vec<u8>>> {
        match self {
            Peer::Chan(r, _) => r.as_mut(),
            Peer::Local(l) => Some(&mut l.from_client),
        }
    }
}

type ReqRes = Rc<RefCell<Option<Result<Resp, &'static str>>>>;

fn short<E>(r: Result<Resp, HostErr<E>>) -> Result<Resp, &'static str> {
    r.map_err(|e| match e {
        HostErr::Closed => "closed",
        HostErr::Wire(_) => "wire",
        HostErr::BadResponse => "bad response",
        _ => "other",
    })
}

fn run_c(c: &CaseC) -> CaseResult {
    if c.local {
        let (srv, cl) = (c.cap.max(1) as usize, ());
        let _ = cl;
        with_rt(c.rng, async {
            let (l, client) = local_setup::<MyErr>(srv, ERR_PATH);
            drive(c, client, Peer::Local(l), 2).await
        })
    } else {
        with_rt(c.rng, async {
            let (a, b) = mpsc::channel(c.cap.max(1) as usize);
            let (x, y) = mpsc::channel(c.cap.max(1) as usize);
            let client: HostClient<WireError> = new_from_channels(a, y, skind(c.slen));
            drive(c, client, Peer::Chan(Some(b), Some(x)), c.slen).await
        })
    }
}

async fn drive<E>(c: &CaseC, client: HostClient<E>, mut peer: Peer, w: usize) -> CaseResult
where
    E: serde::de::DeserializeOwned + postcard_schema::Schema + 'static,
{
    let ex = Exec::new(&c.sched);
    let mut sub = client.subscribe_exclusive::<Tp0>(4096).await.map_err(|_| "subscribe on a fresh client failed")?;
    let mut reqs: Vec<(u32, ReqRes)> = vec![];
    let mut pubs: Vec<(u32, Rc<RefCell<Option<bool>>>)> = vec![];
    // frames the peer saw; requests by number
    let mut seen: Vec<(Vec<u8>, (usize, u32), Vec<u8>)> = vec![];
    let mut asked: Vec<(u32, Req)> = vec![];
    let mut answered: HashMap<u32, Resp> = HashMap::new();
    let mut topics: Vec<u32> = vec![];
    let look = |peer: &mut Peer, seen: &mut Vec<_>, asked: &mut Vec<(u32, Req)>| -> Result<(), String> {
        while let Some(Ok(f)) = peer.rx().map(|r| r.try_recv()) {
            let d = frames::decode(&f).ok_or("the peer received something that is not a frame")?;
            if frames::key_is(&d.0, &REQ_KEYS[0].to_bytes()) {
                ensure!(d.1 .0 == w, "request with a {} byte sequence number", d.1 .0);
                asked.push((d.1 .1, postcard::from_bytes(&d.2).map_err(|e| format!("request does not decode: {e}"))?));
            } else {
                ensure!(frames::key_is(&d.0, &TP_KEYS[1].to_bytes()), "unknown key on the channel");
            }
            seen.push(d);
        }
        Ok(())
    };
    for op in &c.ops {
        match op {
            COp::Request(tag) => {
                let slot: ReqRes = Default::default();
                let (s2, cl, tag2, big) = (slot.clone(), client.clone(), *tag, c.big);
                ex.spawn(async move {
                    let r = cl.send_resp::<Ep0>(&Req { tag: tag2, blob: vec![1; (tag2 % 40 + big) as usize] }).await;
                    *s2.borrow_mut() = Some(short(r));
                });
                reqs.push((*tag, slot));
            }
            COp::Publish(tag) => {
                let slot = Rc::new(RefCell::new(None));
                let (s2, cl, tag2, n, big) = (slot.clone(), client.clone(), *tag, pubs.len() as u32, c.big);
                ex.spawn(async move {
                    let r = cl.publish::<Tp1>(VarSeq::Seq4(n), &Msg { tag: tag2, text: "p".repeat(1 + big as usize) }).await;
                    *s2.borrow_mut() = Some(r.is_ok());
                });
                pubs.push((*tag, slot));
            }
            COp::Answer(n) => {
                ex.settle().await?;
                look(&mut peer, &mut seen, &mut asked)?;
                if asked.is_empty() {
                    continue;
                }
                let (num, rq) = asked[*n as usize % asked.len()].clone();
                if answered.contains_key(&num) {
                    continue;
                }
                let resp = Resp { tag: rq.tag, ok: rq.blob.len() == (rq.tag % 40 + c.big) as usize };
                let ok = match &mut peer {
                    Peer::Local(l) => l.reply::<Ep0>(num, &resp).await == Ok(()),
                    Peer::Chan(_, Some(s)) => s.send(frames::frame(&RESP_KEYS[0].to_bytes(), c.klen, w, num, &postcard::to_stdvec(&resp).unwrap())).await.is_ok(),
                    _ => false,
                };
                ensure!(ok, "the peer could not answer on an open channel");
                answered.insert(num, resp);
                ex.settle().await?;
            }
            COp::Topic(tag) => {
                let m = Msg { tag: *tag, text: "t".repeat(1 + c.big as usize) };
                let n = topics.len() as u32;
                let ok = match &mut peer {
                    Peer::Local(l) => l.publish::<Tp0>(n, &m).await == Ok(()),
                    Peer::Chan(_, Some(s)) => s.send(frames::frame(&TP_KEYS[0].to_bytes(), c.klen, 4, n, &postcard::to_stdvec(&m).unwrap())).await.is_ok(),
                    _ => false,
                };
                ensure!(ok, "the peer could not publish on an open channel");
                topics.push(*tag);
            }
            COp::Steps(n) => ex.steps(*n as usize).await,
            COp::Settle => {
                ex.settle().await?;
                look(&mut peer, &mut seen, &mut asked)?;
            }
        }
    }
    for _ in 0..(reqs.len() + pubs.len()) {
        ex.settle().await?;
        look(&mut peer, &mut seen, &mut asked)?;
    }
    ex.settle().await?;
    look(&mut peer, &mut seen, &mut asked)?;
    // everything handed to the client is on the channel exactly once, unmodified
    ensure!(!client.is_closed(), "the client closed on an open channel");
    let mut a: Vec<u32> = asked.iter().map(|x| x.1.tag).collect();
    let mut b: Vec<u32> = reqs.iter().map(|x| x.0).collect();
    a.sort();
    b.sort();
    ensure_eq!(a, b, "requests the peer received");
    let mut nums: Vec<u32> = asked.iter().map(|x| x.0).collect();
    nums.sort();
    nums.dedup();
    ensure!(nums.len() == asked.len(), "two requests with one number");
    for (tag, s) in &pubs {
        ensure!(*s.borrow() == Some(true), "publish of {tag} did not succeed: {:?}", s.borrow());
    }
    let mut p: Vec<(u32, u32)> = seen.iter().filter(|d| frames::key_is(&d.0, &TP_KEYS[1].to_bytes()))
        .map(|d| (d.1 .1, postcard::from_bytes::<Msg>(&d.2).ok().filter(|m| m.text.len() == 1 + c.big as usize).map(|m| m.tag).unwrap_or(u32::MAX))).collect();
    p.sort();
    ensure_eq!(p, pubs.iter().enumerate().map(|(i, x)| (i as u32, x.0)).collect::<Vec<_>>(), "messages the peer received");
    for (num, rq) in &asked {
        let Some(want) = answered.get(num) else { continue };
        let n = reqs.iter().filter(|(t, s)| *t == rq.tag && *s.borrow() == Some(Ok(want.clone()))).count();
        let due = asked.iter().filter(|(k, q)| q.tag == rq.tag && answered.contains_key(k)).count();
        ensure!(n == due, "{n} requests {} were answered, the peer answered {due}", rq.tag);
    }
    for (t, s) in &reqs {
        let s = s.borrow();
        ensure!(matches!(&*s, None | Some(Ok(_))), "request {t} ended with {s:?} on an open channel");
    }
    let done = reqs.iter().filter(|r| r.1.borrow().is_some()).count();
    ensure!(done == answered.len(), "{done} requests completed, {} were answered", answered.len());
    // ---- the end
    let mut dead = true;
    match (&mut peer, c.end) {
        (Peer::Chan(r, _), End::DropRx | End::Fatal) => {
            *r = None;
            // noticed by the next send
            let _ = client.publish::<Tp1>(VarSeq::Seq1(0), &Msg { tag: 0, text: String::new() }).await;
        }
        (Peer::Chan(_, s), End::DropTx) => *s = None,
        (Peer::Local(l), End::Fatal | End::DropTx | End::DropRx) => l.cause_fatal_error(),
        (_, End::Open) => dead = false,
    }
    ex.settle().await?;
    ensure!(client.is_closed() == dead, "client closed: {}", client.is_closed());
    if dead {
        for (t, s) in &reqs {
            ensure!(s.borrow().is_some(), "request {t} still waits on a dead channel");
        }
        let late: ReqRes = Default::default();
        let (l2, cl) = (late.clone(), client.clone());
        ex.spawn(async move {
            let r = cl.send_resp::<Ep0>(&Req { tag: 0, blob: vec![] }).await;
            *l2.borrow_mut() = Some(short(r));
        });
        ex.settle().await?;
        ensure_eq!(*late.borrow(), Some(Err("closed")), "request on a dead channel");
        if let Peer::Local(l) = &mut peer {
            let r = l.recv_from_client().await;
            ensure!(matches!(r, Err(LocalError::TxClosed)), "the local server still receives after the fatal error");
            let r = l.publish::<Tp0>(0, &Msg { tag: 0, text: String::new() }).await;
            ensure!(r == Err(LocalError::RxClosed), "the local server can publish after the fatal error: {r:?}");
        }
    }
    // the subscription yields everything published, in order
    let out: Rc<RefCell<(Vec<u32>, bool)>> = Default::default();
    let o2 = out.clone();
    ex.spawn(async move {
        while let Some(m) = sub.recv().await {
            o2.borrow_mut().0.push(m.tag);
        }
        o2.borrow_mut().1 = true;
    });
    ex.settle().await?;
    ensure_eq!(out.borrow().0, topics, "messages received");
    ensure!(out.borrow().1 == dead, "the subscription {}", if dead { "did not end" } else { "ended" });
    let _ = RpcFrame { header: VarHeader { key: vkey(TP_KEYS[0], 8), seq_no: vseq(1, 0) }, body: vec![] };
    Ok(Outcome::new(reqs.len() + pubs.len() + topics.len() >= 3).label(dead, "channel lost").label(c.local, "local setup").label(!answered.is_empty(), "answered"))
}

/// Mostly nothing, rarely enough to pass 64 KiB
fn big() -> impl Strategy<Value = u32> {
    prop_oneof![400 => Just(0u32), 2 => 65_480u32..65_600, 1 => 1_000u32..140_000]
}

pub fn c24(r: &mut Run) {
    assert_interface();
    r.assume("a stopped channel transport may still carry operations that could complete at once (the choice is random by design)");
    r.check(
        "server",
        "several senders (frames, raw bytes, plain and formatted logs), a peer that reads and sends in bits, stops and disappearing peers; non-trivial = three or more frames",
        800_000,
        12_000_000,
        || {
            let op = prop_oneof![
                3 => (klen(), slen(), any::<u32>(), prop_oneof![0u16..8, 0u16..300]).prop_map(|(klen, slen, seq, len)| TxOp::Send { klen, slen, seq, len }),
                1 => proptest::collection::vec(any::<u8>(), 0..20).prop_map(TxOp::Raw),
                2 => (klen(), "\\PC{0,12}").prop_map(|(k, s)| TxOp::LogStr(k, s)),
                2 => (klen(), "\\PC{0,12}", any::<u32>()).prop_map(|(k, s, n)| TxOp::LogFmt(k, s, n)),
            ];
            let act = prop_oneof![
                4 => (1u8..6).prop_map(Act::Steps), 3 => Just(Act::Settle), 4 => (1u8..5).prop_map(Act::Read), 4 => (1u8..5).prop_map(Act::Feed),
                1 => Just(Act::Stop), 1 => prop_oneof![3 => Just(Act::DropReader), 2 => Just(Act::DropFeeder)].prop_filter("rare", |_| true),
            ];
            (
                (1u8..5, 1u8..5),
                proptest::collection::vec(vcommon::hist(op, 0..6), 1..4),
                vcommon::hist(proptest::collection::vec(any::<u8>(), 0..24), 0..8),
                prop_oneof![3 => 8usize..24, 1 => 0usize..8],
                any::<(bool, bool)>(),
                vcommon::hist(act, 1..14),
                proptest::collection::vec(any::<u8>(), 0..40),
                (any::<u64>(), big()),
            )
                .prop_map(|((cap_out, cap_in), tasks, feed, buf, stoppable, acts, sched, (rng, big))| CaseS { cap_out, cap_in, tasks, feed, buf, stoppable, acts, sched, rng, big })
        },
        run_s,
    );
    r.check(
        "whole-server",
        "a running server built by either constructor, with messages, answers, other senders, stops and disappearing peers; non-trivial = two messages handled and a log message",
        500_000,
        8_000_000,
        || {
            let act = prop_oneof![
                4 => (1u8..6).prop_map(WAct::Steps), 3 => Just(WAct::Settle), 3 => (1u8..5).prop_map(WAct::Read), 5 => (1u8..5).prop_map(WAct::Feed),
                2 => (1u8..4).prop_map(WAct::Log), 1 => prop_oneof![3 => Just(WAct::Stop), 1 => Just(WAct::DropReader), 1 => Just(WAct::DropFeeder)],
            ];
            (any::<bool>(), (1u8..4, 1u8..4), prop_oneof![2 => 20usize..40, 1 => 8usize..24], klen(),
                vcommon::hist((prop::bool::weighted(0.85), proptest::collection::vec(any::<u8>(), 0..16)), 0..10),
                vcommon::hist(act, 1..16), proptest::collection::vec(any::<u8>(), 0..40), (any::<u64>(), big()))
                .prop_map(|(stoppable, cap, buf, klen, feed, acts, sched, (rng, big))| CaseW { stoppable, cap, buf, klen, feed, acts, sched, rng, big })
        },
        run_w,
    );
    r.check(
        "client",
        "requests, answers, topics in both directions over channels or the local test setup, then loss of either channel or an injected error; non-trivial = three or more messages",
        600_000,
        9_000_000,
        || {
            let op = prop_oneof![
                3 => any::<u32>().prop_map(COp::Request), 2 => any::<u32>().prop_map(COp::Publish), 4 => any::<u8>().prop_map(COp::Answer),
                2 => any::<u32>().prop_map(COp::Topic), 1 => (1u8..6).prop_map(COp::Steps), 1 => Just(COp::Settle),
            ];
            (any::<bool>(), 1u8..6, slen(), klen(), vcommon::hist(op, 1..14),
                prop_oneof![Just(End::Open), Just(End::DropRx), Just(End::DropTx), Just(End::Fatal)], proptest::collection::vec(any::<u8>(), 0..30), (any::<u64>(), big()))
                .prop_map(|(local, cap, slen, klen, mut ops, end, sched, (rng, big))| {
                    if slen == 1 {
                        ops.truncate(200);
                    }
                    CaseC { local, cap, slen, klen, ops, end, sched, rng, big }
                })
        },
        run_c,
    );
}
