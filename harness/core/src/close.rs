//! C09: closing or losing the connection.

use std::{cell::RefCell, rc::Rc, time::Duration};

use postcard_rpc::header::VarSeq;
use serde::{Deserialize, Serialize};
use vcommon::{ensure, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::{
    client::{call, mk_client_t, Client, Res},
    exec::{with_rt, Exec, TaskId},
    hdr::{klen, slen},
    mock::*,
    subs::{subscribe, topic_frame, Got, Sub, SubErr},
};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Req { ep: u8, clone: u8 },
    Publish { tp: u8, clone: u8 },
    Sub { tp: u8, kind: u8, big: bool, clone: u8 },
    Msg { tp: u8, n: u8 },
    Reply(u16),
    WaitClosed(u8),
    Recv { sub: u16, n: u8 },
    /// a task that keeps reading this subscription
    Reader(u16),
    CancelReq(u16),
    Permit(u8),
    Garbage(Vec<u8>),
    Steps(u8),
    Settle,
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Cause {
    Close(u8),
    RxErr,
    TxErr,
    /// one failing send; the transport would work again afterwards
    TxErrOnce,
    DropAll,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    before: Vec<Op>,
    cause: Cause,
    after: Vec<Op>,
    second: Option<Cause>,
    sched: Vec<u8>,
    rng: u64,
    klen: usize,
    seqw: usize,
    gated: bool,
    depth: usize,
    timeout: u16,
}

fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        5 => (0u8..4, 0u8..3).prop_map(|(ep, clone)| Op::Req { ep, clone }),
        2 => (0u8..3, 0u8..3).prop_map(|(tp, clone)| Op::Publish { tp, clone }),
        4 => (0u8..3, 0u8..6, prop::bool::weighted(0.7), 0u8..3).prop_map(|(tp, kind, big, clone)| Op::Sub { tp, kind, big, clone }),
        5 => (0u8..3, 1u8..4).prop_map(|(tp, n)| Op::Msg { tp, n }),
        3 => any::<u16>().prop_map(Op::Reply),
        1 => (0u8..3).prop_map(Op::WaitClosed),
        2 => (any::<u16>(), 1u8..4).prop_map(|(sub, n)| Op::Recv { sub, n }),
        1 => any::<u16>().prop_map(Op::Reader),
        1 => any::<u16>().prop_map(Op::CancelReq),
        1 => (1u8..4).prop_map(Op::Permit),
        1 => crate::hdr::junk().prop_map(Op::Garbage),
        4 => (1u8..6).prop_map(Op::Steps),
        4 => Just(Op::Settle),
    ]
}
fn cause() -> impl Strategy<Value = Cause> {
    prop_oneof![
        3 => (0u8..3).prop_map(Cause::Close),
        2 => Just(Cause::RxErr),
        2 => Just(Cause::TxErr),
        2 => Just(Cause::TxErrOnce),
        1 => Just(Cause::DropAll),
    ]
}
fn case() -> impl Strategy<Value = Case> {
    (
        (
            vcommon::hist(op(), 0..24),
            cause(),
            prop::collection::vec(op(), 0..6),
            prop::option::weighted(0.2, cause()),
            prop::collection::vec(any::<u8>(), 0..40),
        ),
        any::<u64>(),
        klen(),
        slen(),
        prop::bool::weighted(0.3),
        prop_oneof![Just(1usize), 1usize..6],
        prop_oneof![2 => Just(0u16), 1 => Just(10_000u16)],
    )
        .prop_map(|((mut before, cause, after, second, sched), rng, klen, seqw, gated, depth, timeout)| Case {
            before: {
                if seqw == 1 {
                    // automatic numbers must not wrap onto a request in flight
                    before.truncate(200);
                }
                before
            }, cause, after, second, sched, rng, klen, seqw, gated, depth, timeout,
        })
}

type Slot<T> = Rc<RefCell<Option<T>>>;

struct SubRec {
    tp: usize,
    kind: u8,
    big: bool,
    started: u64,
    task: TaskId,
    /// result and the tick at which it was available
    slot: Slot<(u64, Result<Sub, SubErr>)>,
    log: Rc<RefCell<Vec<(u64, Got)>>>,
    reader: Option<TaskId>,
    /// it was replaced at this tick (its window ends there)
    replaced: Option<u64>,
}

struct World {
    exec: Exec,
    wire: Wire,
    clones: Vec<Client>,
    reqs: Vec<(u32, usize, u64, TaskId, Slot<Res>)>,
    pubs: Vec<(TaskId, Slot<bool>)>,
    subs: Vec<SubRec>,
    waits: Vec<(TaskId, Slot<()>)>,
    msgs: Vec<(usize, usize, Vec<u8>, Vec<u8>)>,
    reply_ids: Vec<(usize, u32)>,
    cancelled: Vec<usize>,
    tag: u32,
    last_settle: u64,
    /// depth of the large subscriptions: more than all messages of a case
    room: usize,
}

impl World {
    async fn settle(&mut self) -> Result<(), String> {
        self.exec.settle().await?;
        self.last_settle = self.wire.tick();
        Ok(())
    }

    fn req(&mut self, ep: usize, clone: usize) {
        if self.clones.is_empty() || self.reqs.len() > 60 {
            return;
        }
        self.tag += 1;
        let slot: Slot<Res> = Default::default();
        let (s2, cl, t) = (slot.clone(), self.clones[clone % self.clones.len()].clone(), self.tag);
        let task = self.exec.spawn(async move {
            let r = call(&cl, ep, &Req { tag: t, blob: vec![1] }).await;
            *s2.borrow_mut() = Some(r);
        });
        self.reqs.push((t, ep, self.wire.tick(), task, slot));
    }
    fn publish(&mut self, tp: usize, clone: usize) {
        if self.clones.is_empty() {
            return;
        }
        self.tag += 1;
        let slot: Slot<bool> = Default::default();
        let (s2, cl, t) = (slot.clone(), self.clones[clone % self.clones.len()].clone(), self.tag);
        let task = self.exec.spawn(async move {
            let m = Msg { tag: t, text: String::new() };
            let r = match tp % NTP {
                0 => cl.publish::<Tp0>(VarSeq::Seq2(1), &m).await,
                1 => cl.publish::<Tp1>(VarSeq::Seq2(1), &m).await,
                _ => cl.publish::<Tp2>(VarSeq::Seq2(1), &m).await,
            };
            *s2.borrow_mut() = Some(r.is_ok());
        });
        self.pubs.push((task, slot));
    }
    fn sub(&mut self, tp: usize, kind: u8, big: bool, clone: usize) {
        if self.clones.is_empty() || self.subs.len() > 20 {
            return;
        }
        let room = self.room;
        let slot: Slot<(u64, Result<Sub, SubErr>)> = Default::default();
        let (s2, cl, w) = (slot.clone(), self.clones[clone % self.clones.len()].clone(), self.wire.clone());
        let task = self.exec.spawn(async move {
            let r = subscribe(&cl, tp, kind, if big { room } else { 1 }).await;
            *s2.borrow_mut() = Some((w.tick(), r));
        });
        let started = self.wire.tick();
        self.subs.push(SubRec { tp, kind, big, started, task, slot, log: Default::default(), reader: None, replaced: None });
    }
    fn wait_closed(&mut self, clone: usize) {
        if self.clones.is_empty() {
            return;
        }
        let slot: Slot<()> = Default::default();
        let (s2, cl) = (slot.clone(), self.clones[clone % self.clones.len()].clone());
        let task = self.exec.spawn(async move {
            cl.wait_closed().await;
            *s2.borrow_mut() = Some(());
        });
        self.waits.push((task, slot));
    }

    async fn op(&mut self, op: &Op, c: &Case) -> Result<(), String> {
        match op {
            Op::Req { ep, clone } => self.req(*ep as usize % NEP, *clone as usize),
            Op::Publish { tp, clone } => self.publish(*tp as usize, *clone as usize),
            Op::Sub { tp, kind, big, clone } => self.sub(*tp as usize, *kind, *big, *clone as usize),
            Op::WaitClosed(clone) => self.wait_closed(*clone as usize),
            Op::Msg { tp, n } => {
                for _ in 0..*n {
                    self.tag += 1;
                    let (f, b) = topic_frame(*tp as usize, self.tag, c.klen, 2, 3, false);
                    let id = self.wire.deliver(f.clone());
                    self.msgs.push((id, *tp as usize, f, b));
                }
            }
            Op::Reply(s) => {
                let sent: Vec<_> = self
                    .wire
                    .sent()
                    .into_iter()
                    .filter_map(|(_, f)| dec(&f))
                    .filter_map(|(k, s, b)| {
                        let ep = REQ_KEYS.iter().position(|x| key_is(&k, x))?;
                        Some((ep, s, postcard::from_bytes::<Req>(&b).ok()?))
                    })
                    .collect();
                if sent.is_empty() {
                    return Ok(());
                }
                let (ep, (sw, seq), rq) = &sent[*s as usize % sent.len()];
                let b = postcard::to_stdvec(&Resp { tag: rq.tag, ok: true }).unwrap();
                let id = self.wire.deliver(frame(&RESP_KEYS[*ep], c.klen, *sw, *seq, &b));
                self.reply_ids.push((id, rq.tag));
            }
            Op::Recv { sub, n } => {
                let w = self.wire.clone();
                let cand: Vec<usize> = (0..self.subs.len())
                    .filter(|i| self.subs[*i].reader.is_none() && matches!(*self.subs[*i].slot.borrow(), Some((_, Ok(_)))))
                    .collect();
                if cand.is_empty() {
                    return Ok(());
                }
                let s = &mut self.subs[cand[*sub as usize % cand.len()]];
                if let Some((_, Ok(x))) = &mut *s.slot.borrow_mut() {
                    for _ in 0..*n {
                        match x.recv_once() {
                            Got::Pending => break,
                            g => s.log.borrow_mut().push((w.tick(), g)),
                        }
                    }
                }
            }
            Op::Reader(i) => {
                let cand: Vec<usize> = (0..self.subs.len())
                    .filter(|i| self.subs[*i].reader.is_none() && matches!(*self.subs[*i].slot.borrow(), Some((_, Ok(_)))))
                    .collect();
                if cand.is_empty() {
                    return Ok(());
                }
                let s = &mut self.subs[cand[*i as usize % cand.len()]];
                let Some((t, Ok(mut x))) = s.slot.borrow_mut().take() else { return Ok(()) };
                *s.slot.borrow_mut() = Some((t, Err(SubErr::Already))); // placeholder, reader has it
                let (log, w) = (s.log.clone(), self.wire.clone());
                s.reader = Some(self.exec.spawn(async move {
                    loop {
                        let g = x.recv().await;
                        let end = g == Got::End;
                        log.borrow_mut().push((w.tick(), g));
                        if end {
                            return;
                        }
                    }
                }));
            }
            Op::CancelReq(i) => {
                if !self.reqs.is_empty() {
                    let i = *i as usize % self.reqs.len();
                    if self.exec.is_live(self.reqs[i].3) {
                        self.exec.cancel(self.reqs[i].3);
                        self.cancelled.push(i);
                    }
                }
            }
            Op::Permit(n) => self.wire.permit(*n as usize),
            Op::Garbage(b) => {
                let mine = |k: &[u8]| TP_KEYS.iter().chain(RESP_KEYS.iter()).any(|x| key_may(k, x)) || key_may(k, &err_key());
                if !dec(b).is_some_and(|(k, _, _)| mine(&k)) {
                    self.wire.deliver(b.clone());
                }
            }
            Op::Steps(n) => self.exec.steps(*n as usize).await,
            Op::Settle => self.settle().await?,
        }
        Ok(())
    }

    fn cause(&mut self, c: Cause) {
        match c {
            Cause::Close(i) => {
                if let Some(cl) = self.clones.get(i as usize % self.clones.len().max(1)) {
                    cl.close();
                }
            }
            Cause::RxErr => {
                self.wire.deliver_err();
            }
            Cause::TxErr => {
                self.wire.fail_tx();
            }
            Cause::TxErrOnce => {
                self.wire.fail_tx_once();
            }
            Cause::DropAll => {
                self.clones.clear();
                for i in 0..self.reqs.len() {
                    if self.exec.is_live(self.reqs[i].3) {
                        self.exec.cancel(self.reqs[i].3);
                        self.cancelled.push(i);
                    }
                }
                for p in &self.pubs {
                    self.exec.cancel(p.0);
                }
                for s in &self.subs {
                    self.exec.cancel(s.task);
                }
                for w in &self.waits {
                    self.exec.cancel(w.0);
                }
                self.wire.permit(usize::MAX);
            }
        }
    }
}

fn run(c: &Case) -> CaseResult {
    with_rt(c.rng, async {
        let exec = Exec::new(&c.sched);
        let wire = Wire::new(if c.gated { 1 } else { usize::MAX });
        let (client, workers) = mk_client_t(&exec, &wire, c.seqw, c.depth, Duration::from_millis(c.timeout as u64));
        let mut w = World {
            exec: exec.clone(),
            wire: wire.clone(),
            clones: vec![client.clone(), client.clone(), client],
            reqs: vec![], pubs: vec![], subs: vec![], waits: vec![], msgs: vec![], reply_ids: vec![],
            cancelled: vec![], tag: 0, last_settle: 0, room: if c.before.len() > 30 { 2048 } else { 256 },
        };
        for o in &c.before {
            w.op(o, c).await?;
        }
        ensure!(!w.clones[0].is_closed(), "client reports closed before anything closed it");
        // What was certainly queued before the cause: popped before the last quiescent point.
        let sure = w.last_settle;
        let blocked_before = {
            let st = wire.st.lock().unwrap();
            !st.inbox.is_empty()
        };
        let cause_tick = wire.tick();
        let pending_before = w.reqs.iter().filter(|r| r.4.borrow().is_none() && exec.is_live(r.3)).count();
        w.cause(c.cause);
        let sent_at_cause = wire.sent_len();
        for o in &c.after {
            w.op(o, c).await?;
        }
        if let Some(s) = c.second {
            if s != Cause::DropAll {
                w.cause(s);
            }
        }
        // A failing transmitter is only noticed when something is transmitted.
        if matches!(c.cause, Cause::TxErr | Cause::TxErrOnce) {
            w.publish(0, 0);
        }
        // A receive error behind a blocked (timed) subscription is reached when that wait is over.
        exec.settle().await?;
        if c.cause == Cause::RxErr && c.timeout > 0 {
            for _ in 0..2000 {
                if wire.st.lock().unwrap().inbox.is_empty() {
                    break;
                }
                exec.advance(Duration::from_millis(c.timeout as u64 + 1)).await?;
            }
        }
        exec.settle().await?;

        // ---- everything has stopped
        for (i, t) in workers.borrow().iter().enumerate() {
            ensure!(exec.is_done(*t), "I/O worker {i} still runs after {:?}", c.cause);
        }
        if matches!(c.cause, Cause::Close(_)) {
            ensure!(wire.sent_len() == sent_at_cause, "{} frame(s) sent after close()", wire.sent_len() - sent_at_cause);
        }
        let at_err = wire.st.lock().unwrap().sent_at_err;
        if let Some(n) = at_err {
            ensure!(wire.sent_len() == n, "{} frame(s) sent after a failed send", wire.sent_len() - n);
        }
        for (i, cl) in w.clones.iter().enumerate() {
            ensure!(cl.is_closed(), "clone {i} does not report closed after {:?}", c.cause);
        }
        for (i, x) in w.waits.iter().enumerate() {
            if c.cause != Cause::DropAll {
                ensure!(x.1.borrow().is_some(), "wait_closed {i} still waits");
            }
        }
        let popped = wire.popped();
        let mut closed = 0;
        for (i, r) in w.reqs.iter().enumerate() {
            if w.cancelled.contains(&i) {
                continue;
            }
            let res = r.4.borrow().clone();
            let replied = w.reply_ids.iter().any(|(id, tag)| *tag == r.0 && popped.iter().any(|p| p.1 == *id));
            match res {
                None => return Err(format!("request {i} still waits after {:?} (started {} cause)", c.cause, if r.2 < cause_tick { "before the" } else { "after the" })),
                Some(Res::Closed) => closed += 1,
                Some(Res::Ok(t)) if t == r.0 && replied => {}
                Some(x) => return Err(format!("request {i} ended with {x:?} after {:?} (response {}received)", c.cause, if replied { "" } else { "not " })),
            }
        }
        for (i, p) in w.pubs.iter().enumerate() {
            if c.cause != Cause::DropAll {
                ensure!(p.1.borrow().is_some(), "publish {i} still waits after {:?}", c.cause);
            }
        }
        // ---- subscriptions drain, then end
        for i in 0..w.subs.len() {
            // when was it replaced by a later one?
            if w.subs[i].kind % 6 >= 4 {
                continue;
            }
            let me = w.subs[i].slot.borrow().as_ref().map(|x| x.0);
            let rep = w
                .subs
                .iter()
                .filter(|o| o.tp == w.subs[i].tp && matches!(o.kind % 6, 0..=3))
                .filter_map(|o| match &*o.slot.borrow() {
                    // (a message taken while the subscribe call waits for its turn may go to either)
                    Some((t, Ok(_))) => Some((*t, o.started)),
                    Some((t, _)) if o.reader.is_some() => Some((*t, o.started)),
                    _ => None,
                })
                .filter(|(t, _)| Some(*t) > me)
                .map(|(_, started)| started)
                .min();
            w.subs[i].replaced = rep;
        }
        let mut drained = 0;
        let mut lag = false;
        for (i, s) in w.subs.iter().enumerate() {
            let (t0, have) = match &mut *s.slot.borrow_mut() {
                None if c.cause == Cause::DropAll => continue,
                None => return Err(format!("subscribe {i} (kind {}) still waits after {:?}", s.kind, c.cause)),
                Some((t, Ok(x))) => {
                    let mut n = 0;
                    loop {
                        match x.recv_once() {
                            Got::Pending => return Err(format!("subscription {i} (kind {}) still waits for messages after {:?}", s.kind, c.cause)),
                            Got::End => {
                                s.log.borrow_mut().push((wire.tick(), Got::End));
                                break;
                            }
                            g => {
                                s.log.borrow_mut().push((wire.tick(), g));
                                n += 1;
                            }
                        }
                        ensure!(n < 2000, "subscription {i} never ends");
                    }
                    drained += n;
                    (*t, true)
                }
                Some((t, Err(_))) => (*t, s.reader.is_some()),
            };
            if let Some(r) = s.reader {
                ensure!(exec.is_done(r), "subscription {i} (kind {}) still waits for messages after {:?}", s.kind, c.cause);
            }
            if !have {
                continue;
            }
            let log = s.log.borrow();
            ensure!(log.last().map(|l| &l.1) == Some(&Got::End), "subscription {i} did not end");
            let raw = s.kind % 2 == 1;
            let end = s.replaced.unwrap_or(u64::MAX);
            let arr: Vec<(u64, &(usize, usize, Vec<u8>, Vec<u8>))> = popped
                .iter()
                .filter(|(t, _)| *t > s.started)
                .filter_map(|(t, id)| w.msgs.iter().find(|m| m.0 == *id && m.1 == s.tp).map(|m| (*t, m)))
                .collect();
            let mut pos = 0;
            let mut seen = vec![];
            let fin = log.iter().position(|l| l.1 == Got::End).unwrap_or(0);
            ensure!(log[fin..].iter().all(|l| l.1 == Got::End), "subscription {i} yields messages after it ended");
            for (_, g) in log.iter().take(fin) {
                if let Got::Lagged(_) = g {
                    lag = true;
                    continue;
                }
                let p = (pos..arr.len()).find(|p| {
                    let m = arr[*p].1;
                    *g == if raw { Got::Frame(m.2.clone()) } else { Got::Body(m.3.clone()) }
                });
                let Some(p) = p else { return Err(format!("subscription {i} received {g:02x?} out of order, twice or altered")) };
                seen.push(p);
                pos = p + 1;
            }
            if s.big {
                for (p, (t, _)) in arr.iter().enumerate() {
                    let handled = popped.iter().map(|p| p.0).find(|x| x > t).unwrap_or(sure);
                    if *t > t0 && *t < sure && handled < end && !(c.timeout > 0 && blocked_before && p + 1 == arr.len()) {
                        // broadcast groups take their depth from the first subscriber
                        let certain = s.kind % 6 < 4
                            || w.subs.iter().all(|o| o.tp != s.tp || o.kind % 6 < 4 || o.big);
                        ensure!(!certain || seen.contains(&p), "subscription {i} (kind {}) lost queued message {p} when the client closed by {:?}", s.kind, c.cause);
                    }
                }
            }
        }
        // ---- and stays so
        let sent_now = wire.sent_len();
        let n = w.clones.len();
        let (r0, p0, s0, w0) = (w.reqs.len(), w.pubs.len(), w.subs.len(), w.waits.len());
        wire.permit(usize::MAX);
        w.subs.clear();
        for cl in 0..n {
            w.req(cl % NEP, cl);
            w.publish(cl, cl);
            for kind in 0..6 {
                w.sub((cl + kind as usize) % NTP, kind, true, cl);
            }
            w.wait_closed(cl);
        }
        exec.settle().await?;
        let _ = s0;
        for r in &w.reqs[r0..] {
            ensure!(*r.4.borrow() == Some(Res::Closed), "request on a closed client ended with {:?}", r.4.borrow());
        }
        for p in &w.pubs[p0..] {
            ensure!(*p.1.borrow() == Some(false), "publish on a closed client: {:?} (false = closed error)", p.1.borrow());
        }
        for s in &w.subs {
            let ok = matches!(*s.slot.borrow(), Some((_, Err(SubErr::Closed))));
            ensure!(ok, "subscribing (kind {}) on a closed client {}", s.kind,
                match &*s.slot.borrow() { None => "hangs", Some((_, Ok(_))) => "succeeds", _ => "reports another error" });
        }
        for x in &w.waits[w0..] {
            ensure!(x.1.borrow().is_some(), "wait_closed on a closed client hangs");
        }
        ensure!(wire.sent_len() == sent_now, "frames sent on a closed client");
        Ok(Outcome::new(pending_before > 0 || drained > 0)
            .label(pending_before > 0, "pending requests")
            .label(closed > 0, "requests closed")
            .label(drained > 0, "queued messages drained")
            .label(lag, "lagged")
            .label(c.timeout > 0 && blocked_before, "receiver busy or blocked")
            .label(matches!(c.cause, Cause::Close(_)), "close()")
            .label(c.cause == Cause::RxErr, "receive error")
            .label(c.cause == Cause::TxErr, "send error")
            .label(c.cause == Cause::TxErrOnce, "single send error")
            .label(c.cause == Cause::DropAll, "last client dropped"))
    })
}

pub fn c09(r: &mut Run) {
    assert_interface();
    r.assume("a failing transmitter is noticed when the next frame is sent; a stuck (never completing) send is only interrupted by close() or the other direction failing");
    r.check(
        "closing",
        "a request was pending or a subscription had queued messages when the connection ended",
        700_000, 9_000_000, case, run,
    );
}
