//! C17: packets of sent frames, under stalls, errors, cancellation and concurrency.

use std::{cell::RefCell, rc::Rc};

use postcard_rpc::{
    header::{VarHeader, VarKey, VarKeyKind, VarSeq},
    server::{Sender, WireTx, WireTxErrorKind},
    topic, Key,
};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, frames, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::sim::{self, Exec, Log, Ver, Wr, V3, V4};

topic!(BytesTopic, Vec<u8>, "eusb/bytes");

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum How {
    Send,
    Raw,
    Publish,
    LogStr,
    LogFmt,
}
impl How {
    fn log(self) -> bool {
        matches!(self, How::LogStr | How::LogFmt)
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Op {
    how: How,
    /// total frame length aimed at
    len: usize,
    klen: usize,
    slen: usize,
    /// start this many µs after the previous one of the same task (0 = at once)
    delay: u32,
    /// give up from outside after so many µs
    cancel: Option<u32>,
    set_timeout: Option<u64>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    v4: bool,
    buf: usize,
    /// one list of sends per task
    tasks: Vec<Vec<Op>>,
    wr: Vec<Wr>,
    sched: Vec<u8>,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Res {
    Ok,
    Closed,
    Timeout,
    Other,
    Cancelled,
}

struct Call {
    frame: Vec<u8>,
    fits: bool,
    called: u64,
    deadline_us: u64,
    res: Res,
    /// where the number of a log message is; it is not predicted here
    num: Option<usize>,
}

/// Text of a log message that makes up a frame of about the given length
fn log_text(op: &Op, id: usize) -> String {
    let m = op.len.saturating_sub(1 + op.klen + 2 + 2);
    (0..m).map(|i| (b'a' + ((id * 7 + i * (i / 64 + 1)) % 26) as u8) as char).collect()
}
/// The frame of a log message over an endpoint that takes everything at once
fn undisturbed<V: Ver>(buf: usize, op: &Op, id: usize) -> Option<Vec<u8>> {
    sim::reset();
    let (tx, rx, guard) = V::build(buf);
    let ex = Exec::default();
    let ok = Rc::new(RefCell::new(false));
    let (op, o) = (op.clone(), ok.clone());
    ex.spawn({
        let tx = tx.clone();
        async move {
            let t = log_text(&op, id);
            let r = match op.how {
                How::LogStr => tx.send_log_str(kkind(op.klen), &t).await,
                _ => tx.send_log_fmt(kkind(op.klen), format_args!("{}{}", &t[..t.len() / 2], &t[t.len() / 2..])).await,
            };
            *o.borrow_mut() = r.is_ok();
        }
    });
    ex.run(&[]);
    ex.clear();
    drop((tx, rx, guard));
    let log = sim::with(|s| std::mem::take(&mut s.log));
    let f: Vec<u8> = log.into_iter().filter_map(|l| if let Log::Start(b) = l { Some(b) } else { None }).flatten().collect();
    let ok = *ok.borrow();
    ok.then_some(f)
}

fn vkey(k: Key, n: usize) -> VarKey {
    let mut v = VarKey::Key8(k);
    match n {
        1 => v.shrink_to(VarKeyKind::Key1),
        2 => v.shrink_to(VarKeyKind::Key2),
        4 => v.shrink_to(VarKeyKind::Key4),
        _ => {}
    }
    v
}
pub fn kkind(n: usize) -> VarKeyKind {
    match n {
        1 => VarKeyKind::Key1,
        2 => VarKeyKind::Key2,
        4 => VarKeyKind::Key4,
        _ => VarKeyKind::Key8,
    }
}
fn vseq(w: usize, s: u32) -> VarSeq {
    match w {
        1 => VarSeq::Seq1(s as u8),
        2 => VarSeq::Seq2(s as u16),
        _ => VarSeq::Seq4(s),
    }
}

async fn until_cancelled<T>(f: impl std::future::Future<Output = T>, after: Option<u32>) -> Option<T> {
    let Some(us) = after else { return Some(f.await) };
    let mut f = Box::pin(f);
    let mut t = Box::pin(sim::sleep_us(us as u64));
    std::future::poll_fn(move |cx| {
        use std::task::Poll;
        if t.as_mut().poll(cx).is_ready() {
            return Poll::Ready(None);
        }
        f.as_mut().poll(cx).map(Some)
    })
    .await
}
use std::future::Future;

fn run<V: Ver>(c: &Case) -> CaseResult {
    let mut logs = std::collections::HashMap::new();
    for (id, op) in c.tasks.iter().flatten().enumerate() {
        if op.how.log() {
            logs.insert(id, undisturbed::<V>(c.buf, op, id));
        }
    }
    let logs = Rc::new(logs);
    sim::reset();
    let (tx, rx, guard) = V::build(c.buf);
    sim::with(|s| s.wr = c.wr.clone().into());
    let calls: Rc<RefCell<Vec<Call>>> = Default::default();
    let ms = Rc::new(RefCell::new(2u64));
    let ex = Exec::default();
    let mut n = 0u32;
    let single = c.tasks.len() == 1;
    for (ti, ops) in c.tasks.iter().enumerate() {
        let (tx, calls, ops, ms, logs) = (tx.clone(), calls.clone(), ops.clone(), ms.clone(), logs.clone());
        let buf = c.buf;
        let base = n;
        n += ops.len() as u32;
        ex.spawn(async move {
            for (k, op) in ops.iter().enumerate() {
                if op.delay > 0 {
                    sim::sleep_us(op.delay as u64).await;
                }
                if let (Some(t), true) = (op.set_timeout, single) {
                    if let Some(f) = V::set_timeout(&tx, t as usize) {
                        f.await;
                        *ms.borrow_mut() = t.clamp(1, 60_000);
                    }
                }
                let id = base + k as u32;
                let key = <BytesTopic as postcard_rpc::Topic>::TOPIC_KEY;
                let hlen = 1 + op.klen + op.slen;
                // a recognisable body: task and call number in every byte position mod 5
                let pat = |m: usize| -> Vec<u8> { (0..m).map(|i| (id as usize * 37 + ti * 11 + i * (i / 64 + 1)) as u8).collect() };
                let (frame, body) = match op.how {
                    How::Raw => (pat(op.len), vec![]),
                    How::LogStr | How::LogFmt => (logs[&(id as usize)].clone().unwrap_or_default(), vec![]),
                    _ => {
                        let room = op.len.saturating_sub(hlen);
                        let mut m = room.saturating_sub(1);
                        if m >= 128 { m -= 1 }
                        let b = pat(m);
                        (frames::frame(&key.to_bytes(), op.klen, op.slen, id, &postcard::to_stdvec(&b).unwrap()), b)
                    }
                };
                let packets = frame.len().div_ceil(64) as u64;
                let fits = match op.how {
                    How::Raw => true,
                    How::LogStr | How::LogFmt => logs[&(id as usize)].is_some(),
                    _ => frame.len() <= buf,
                };
                let num = op.how.log().then_some(1 + op.klen);
                let called = sim::now_us();
                let deadline_us = packets * *ms.borrow() * 1000;
                let cancel = if single { op.cancel } else { None };
                let r = match op.how {
                    How::Raw => until_cancelled(tx.send_raw(&frame), cancel).await,
                    How::Send => {
                        let h = VarHeader { key: vkey(key, op.klen), seq_no: vseq(op.slen, id) };
                        until_cancelled(tx.send(h, &body), cancel).await
                    }
                    How::Publish => {
                        let s = Sender::new(tx.clone(), kkind(op.klen));
                        until_cancelled(s.publish::<BytesTopic>(vseq(op.slen, id), &body), cancel).await
                    }
                    How::LogStr => {
                        let t = log_text(op, id as usize);
                        until_cancelled(tx.send_log_str(kkind(op.klen), &t), cancel).await
                    }
                    How::LogFmt => {
                        let t = log_text(op, id as usize);
                        until_cancelled(tx.send_log_fmt(kkind(op.klen), format_args!("{}{}", &t[..t.len() / 2], &t[t.len() / 2..])), cancel).await
                    }
                };
                let res = match r {
                    Some(Ok(())) => Res::Ok,
                    Some(Err(WireTxErrorKind::ConnectionClosed)) => Res::Closed,
                    Some(Err(WireTxErrorKind::Timeout)) => Res::Timeout,
                    Some(Err(_)) => Res::Other,
                    None => Res::Cancelled,
                };
                let mut cs = calls.borrow_mut();
                let t = sim::now_us();
                sim::with(|s| s.log.push(Log::Done(cs.len(), t)));
                cs.push(Call { frame, fits, called, deadline_us, res, num });
            }
        });
    }
    let stuck = ex.run(&c.sched);
    ex.clear();
    drop((tx, rx, guard));
    let (log, misuse) = sim::with(|s| (std::mem::take(&mut s.log), std::mem::take(&mut s.misuse)));
    ensure!(stuck == 0, "{stuck} sender(s) blocked forever");
    ensure!(misuse.is_empty(), "{misuse:?}");
    let mut calls = calls.borrow_mut();
    ensure!(calls.len() == n as usize, "{} of {n} sends returned", calls.len());

    // ---- split the log by call (sends exclude each other)
    let mut packets: Vec<Vec<u8>> = vec![]; // that went out
    let mut writes: Vec<(Vec<u8>, Option<bool>)> = vec![]; // of this call: content, sent / failed / dropped
    let mut prev_end = 0u64;
    let mut open: Option<Vec<u8>> = None; // unterminated bytes on the wire, and the last send that failed
    let mut dirty = false; // the previous send did not complete
    let (mut timeouts, mut closes, mut zlps, mut cancels, mut refused, mut resumed) = (0, 0, 0, 0, 0, 0);
    for l in &log {
        match l {
            Log::Start(b) => writes.push((b.clone(), None)),
            Log::Sent => writes.last_mut().unwrap().1 = Some(true),
            Log::Failed => writes.last_mut().unwrap().1 = Some(false),
            Log::Dropped => {}
            Log::Done(i, end) => {
                let w = std::mem::take(&mut writes);
                if let (Some(p), Some((b, _))) = (calls[*i].num, w.iter().find(|x| !x.0.is_empty())) {
                    if b.len() >= p + 2 && calls[*i].frame.len() >= p + 2 {
                        calls[*i].frame[p..p + 2].copy_from_slice(&b[p..p + 2]);
                    }
                }
                let call = &calls[*i];
                let len = call.frame.len();
                let start = call.called.max(prev_end);
                let name = format!("send {i} of {len} bytes ({:?})", call.res);
                if !call.fits {
                    ensure!(call.res == Res::Other || call.res == Res::Cancelled, "{name}: the message does not fit the buffer");
                    ensure!(w.is_empty(), "{name}: packets sent for a message that was refused");
                    refused += 1;
                    continue;
                }
                ensure!(call.res != Res::Other, "{name}: refused although it fits");
                if len == 0 {
                    ensure!(call.res == Res::Ok && w.is_empty(), "{name}: an empty buffer is not a frame");
                    continue;
                }
                // expected packets
                let mut want: Vec<&[u8]> = call.frame.chunks(64).collect();
                if len % 64 == 0 {
                    want.push(&[]);
                }
                let lead = match w.first() {
                    // an empty packet to end the previous, interrupted frame
                    Some((b, _)) if b.is_empty() => {
                        ensure!(dirty, "{name}: starts with an empty packet although the previous frame was complete");
                        1
                    }
                    Some(_) => {
                        ensure!(open.is_none(), "{name}: not delimited from the {} bytes of the interrupted frame before it", open.as_ref().unwrap().len());
                        0
                    }
                    None => 0,
                };
                let body = &w[lead.min(w.len())..];
                ensure!(body.len() <= want.len(), "{name}: {} packets, expected {}", body.len(), want.len());
                for (k, (b, _)) in body.iter().enumerate() {
                    ensure!(b == want[k], "{name}: packet {k} has {} bytes, expected {}, or other content", b.len(), want[k].len());
                }
                for (k, (_, r)) in w.iter().enumerate() {
                    ensure!(k + 1 == w.len() || *r == Some(true), "{name}: packet {k} was not sent, yet the next one was");
                }
                let all_sent = w.iter().all(|x| x.1 == Some(true));
                let complete = all_sent && body.len() == want.len();
                match call.res {
                    Res::Ok => ensure!(complete, "{name}: reported as sent with {} of {} packets", body.iter().filter(|x| x.1 == Some(true)).count(), want.len()),
                    Res::Closed => {
                        ensure!(w.last().is_some_and(|x| x.1 == Some(false)), "{name}: no endpoint error occurred");
                        closes += 1;
                    }
                    Res::Timeout => {
                        ensure!(*end == start + call.deadline_us, "{name}: timed out after {} µs, due after {}", end - start, call.deadline_us);
                        timeouts += 1;
                    }
                    Res::Cancelled => cancels += 1,
                    Res::Other => {}
                }
                if w.last().is_some_and(|x| x.1 == Some(false)) {
                    ensure!(matches!(call.res, Res::Closed | Res::Cancelled) || (call.res == Res::Timeout), "{name}: endpoint error not reported");
                }
                ensure!(*end <= start + call.deadline_us, "{name}: took {} µs, longer than the timeout of {}", end - start, call.deadline_us);
                // wire state
                for (b, r) in &w {
                    if *r == Some(true) {
                        packets.push(b.clone());
                        if b.is_empty() { zlps += 1 }
                        let mut o = open.take().unwrap_or_default();
                        o.extend(b);
                        if b.len() == 64 { open = Some(o) } else { open = None }
                    }
                }
                if dirty && complete { resumed += 1 }
                if !w.is_empty() || call.res != Res::Cancelled {
                    dirty = if w.is_empty() { dirty } else { !complete };
                }
                prev_end = *end;
            }
        }
    }
    // ---- what the host sees: every completed frame, in order; others at most in part
    let mut host: Vec<Vec<u8>> = vec![];
    let mut cur = vec![];
    for p in &packets {
        cur.extend_from_slice(p);
        if p.len() < 64 {
            host.push(std::mem::take(&mut cur));
        }
    }
    host.retain(|f| !f.is_empty());
    let mut hi = 0;
    for (i, call) in calls.iter().enumerate() {
        if !call.fits || call.frame.is_empty() { continue }
        match call.res {
            Res::Ok => {
                ensure!(host.get(hi) == Some(&call.frame), "the host does not receive frame {i} ({} bytes), but {:?} bytes", call.frame.len(), host.get(hi).map(|x| x.len()));
                hi += 1;
            }
            _ => {
                if host.get(hi).is_some_and(|h| h.len() % 64 == 0 && call.frame.starts_with(h)) {
                    // a partial frame; unless it is the next completed one
                    let next_same = calls[i + 1..].iter().find(|c| c.res == Res::Ok && !c.frame.is_empty() && c.fits).is_some_and(|c| Some(&c.frame) == host.get(hi));
                    if !next_same { hi += 1 }
                }
            }
        }
    }
    ensure!(hi == host.len(), "the host sees {} transfers, {} explained", host.len(), hi);
    let multi = calls.iter().any(|c| c.res == Res::Ok && c.frame.len() > 64);
    Ok(Outcome::new(calls.iter().filter(|c| c.res == Res::Ok).count() >= 2 && (multi || resumed > 0))
        .label(timeouts > 0, "timeout").label(closes > 0, "endpoint error").label(zlps > 0, "empty packet").label(cancels > 0, "cancelled send")
        .label(refused > 0, "message too large").label(resumed > 0, "sent after an interrupted frame").label(!single, "concurrent senders")
        .label(c.v4, "embassy-usb 0.4").label(!c.v4, "embassy-usb 0.3"))
}

pub fn c17(r: &mut Run) {
    r.assume("The endpoint is simulated: a packet write takes a generated time, never completes, or fails; a write given up before completion sends nothing.");
    r.assume("Timeouts are checked in virtual time against the documented (64-byte packets, rounded up) x (ms per packet).");
    r.check(
        "send",
        "sequences of sends (raw frames, messages, published topics, plain and formatted log messages; lengths around multiples of 64 and the buffer size) from one or several tasks over an endpoint with generated delays, stalls and errors, with outside cancellation and changed timeouts, for both embassy-usb versions; non-trivial = two or more completed sends, one of several packets or after an interrupted one",
        600_000,
        6_000_000,
        || {
            let len = || prop_oneof![150 => 0usize..70, 200 => (1usize..7, 0usize..3).prop_map(|(a, b)| a * 64 + b - 1), 50 => 0usize..700, 1 => (1020usize..1030, 0usize..3).prop_map(|(a, b)| a * 64 + b - 1)];
            let op = move || (
                prop_oneof![6 => Just(How::Raw), 4 => Just(How::Send), 4 => Just(How::Publish), 1 => Just(How::LogStr), 2 => Just(How::LogFmt)],
                len(), frames::klen(), frames::slen(),
                prop_oneof![3 => Just(0u32), 1 => 0u32..6000],
                prop::option::weighted(0.12, prop_oneof![0u32..3000, 0u32..30_000]),
                prop::option::weighted(0.1, prop_oneof![4 => 0u64..8, 1 => Just(u64::MAX), 1 => 59_999u64..60_003, 1 => 0u64..1000]),
            ).prop_map(|(how, len, klen, slen, delay, cancel, set_timeout)| Op { how, len, klen, slen, delay, cancel, set_timeout });
            let wr = || prop_oneof![
                8 => Just(Wr::Ok(0)),
                4 => (0u32..2500).prop_map(Wr::Ok),
                2 => (1u32..5).prop_map(|x| Wr::Ok(x * 1000)),
                1 => Just(Wr::Stall),
                1 => (prop_oneof![Just(0u32), 0u32..3000], any::<bool>()).prop_map(|(d, e)| Wr::Err(d, e)),
            ];
            (
                any::<bool>(),
                prop_oneof![5 => Just(64usize), 5 => Just(128), 5 => 0usize..700, 5 => Just(1024), 1 => 65_530usize..66_500],
                prop_oneof![
                    2 => prop::collection::vec(vcommon::hist(op(), 1..9), 1..2),
                    1 => prop::collection::vec(prop::collection::vec(op(), 1..4), 2..5),
                ],
                vcommon::hist(wr(), 0..24),
                prop::collection::vec(any::<u8>(), 0..12),
            )
                .prop_map(|(v4, buf, tasks, wr, sched)| Case { v4, buf, tasks, wr, sched })
        },
        |c| if c.v4 { run::<V4>(c) } else { run::<V3>(c) },
    );
}
