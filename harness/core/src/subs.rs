//! C07 exclusive subscriptions, C08 broadcast subscriptions.

#![allow(deprecated)]

use std::{
    cell::RefCell,
    collections::VecDeque,
    future::Future,
    pin::pin,
    rc::Rc,
    task::{Context, Poll, Waker},
    time::Duration,
};

use postcard_rpc::host_client::{
    MultiSubRxError, MultiSubscription, RawMultiSubscription, RawSubscription, SubscribeError, Subscription,
};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::{
    client::{call, mk_client_t, Client, Res},
    exec::{with_rt, Exec},
    hdr::{klen, slen},
    mock::*,
};

/// Poll a future exactly once
pub fn now<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(tokio::task::unconstrained(f));
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

pub enum Sub {
    Ex(Subscription<Msg>),
    ExRaw(RawSubscription),
    Mu(MultiSubscription<Msg>),
    MuRaw(RawMultiSubscription),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Got {
    Pending,
    /// serialised message (typed subscription)
    Body(Vec<u8>),
    /// whole frame (raw subscription)
    Frame(Vec<u8>),
    Lagged(u64),
    End,
}

fn mbody(m: Msg) -> Got {
    Got::Body(postcard::to_stdvec(&m).unwrap())
}

impl Sub {
    pub async fn recv(&mut self) -> Got {
        match self {
            Sub::Ex(s) => s.recv().await.map(mbody).unwrap_or(Got::End),
            Sub::ExRaw(s) => s.recv().await.map(|f| Got::Frame(f.to_bytes())).unwrap_or(Got::End),
            Sub::Mu(s) => match s.recv().await {
                Ok(m) => mbody(m),
                Err(MultiSubRxError::Lagged(n)) => Got::Lagged(n),
                Err(MultiSubRxError::IoClosed) => Got::End,
            },
            Sub::MuRaw(s) => match s.recv().await {
                Ok(f) => Got::Frame(f.to_bytes()),
                Err(MultiSubRxError::Lagged(n)) => Got::Lagged(n),
                Err(MultiSubRxError::IoClosed) => Got::End,
            },
        }
    }
    pub fn recv_once(&mut self) -> Got {
        now(self.recv()).unwrap_or(Got::Pending)
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum SubErr {
    Already,
    Closed,
}

/// kind: 0 exclusive, 1 exclusive raw, 2 replacing, 3 replacing raw, 4 multi, 5 multi raw
pub async fn subscribe(c: &Client, tp: usize, kind: u8, depth: usize) -> Result<Sub, SubErr> {
    fn e(e: SubscribeError) -> SubErr {
        match e {
            SubscribeError::AlreadySubscribed => SubErr::Already,
            SubscribeError::IoClosed => SubErr::Closed,
        }
    }
    macro_rules! t {
        ($m:ident, $v:ident, $e:expr) => {
            match tp % MTP {
                0 => c.$m::<Tp0>(depth).await.map(Sub::$v).map_err($e),
                1 => c.$m::<Tp1>(depth).await.map(Sub::$v).map_err($e),
                2 => c.$m::<Tp2>(depth).await.map(Sub::$v).map_err($e),
                3 => c.$m::<Tp3>(depth).await.map(Sub::$v).map_err($e),
                4 => c.$m::<Tp4>(depth).await.map(Sub::$v).map_err($e),
                5 => c.$m::<Tp5>(depth).await.map(Sub::$v).map_err($e),
                6 => c.$m::<Tp6>(depth).await.map(Sub::$v).map_err($e),
                7 => c.$m::<Tp7>(depth).await.map(Sub::$v).map_err($e),
                8 => c.$m::<Tp8>(depth).await.map(Sub::$v).map_err($e),
                9 => c.$m::<Tp9>(depth).await.map(Sub::$v).map_err($e),
                10 => c.$m::<Tp10>(depth).await.map(Sub::$v).map_err($e),
                11 => c.$m::<Tp11>(depth).await.map(Sub::$v).map_err($e),
                12 => c.$m::<Tp12>(depth).await.map(Sub::$v).map_err($e),
                13 => c.$m::<Tp13>(depth).await.map(Sub::$v).map_err($e),
                14 => c.$m::<Tp14>(depth).await.map(Sub::$v).map_err($e),
                15 => c.$m::<Tp15>(depth).await.map(Sub::$v).map_err($e),
                16 => c.$m::<Tp16>(depth).await.map(Sub::$v).map_err($e),
                17 => c.$m::<Tp17>(depth).await.map(Sub::$v).map_err($e),
                18 => c.$m::<Tp18>(depth).await.map(Sub::$v).map_err($e),
                _ => c.$m::<Tp19>(depth).await.map(Sub::$v).map_err($e),
            }
        };
    }
    let key = TP_ALL[tp % MTP];
    match kind % 6 {
        0 => t!(subscribe_exclusive, Ex, e),
        1 => c.subscribe_exclusive_raw(key, depth).await.map(Sub::ExRaw).map_err(e),
        2 => t!(subscribe, Ex, |_| SubErr::Closed),
        3 => c.subscribe_raw(key, depth).await.map(Sub::ExRaw).map_err(|_| SubErr::Closed),
        4 => t!(subscribe_multi, Mu, |_| SubErr::Closed),
        _ => c.subscribe_multi_raw(key, depth).await.map(Sub::MuRaw).map_err(|_| SubErr::Closed),
    }
}

/// A topic frame and whether its body decodes
pub fn topic_frame(tp: usize, tag: u32, kl: usize, sl: usize, seq: u32, bad: bool) -> (Vec<u8>, Vec<u8>) {
    let body = if bad {
        // tag followed by an announced but missing string
        let mut b = postcard::to_stdvec(&tag).unwrap();
        b.push(5);
        b
    } else {
        postcard::to_stdvec(&Msg { tag, text: "ü".repeat(if seq % 997 == 5 { 32_768 + (tag % 4) as usize } else { (tag % 4) as usize }) }).unwrap()
    };
    (frame(&TP_ALL[tp % MTP], kl, sl, seq, &body), body)
}

// ------------------------------------------------------------------ C07

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op7 {
    Sub { tp: u8, kind: u8, depth: u8, clone: u8 },
    Drop(u16),
    Msg { tp: u8, klen: u8, seq: u32, bad: bool, n: u8 },
    Garbage(Vec<u8>),
    Recv { sub: u16, n: u8 },
    Multi { tp: u8, raw: bool },
    Req { ep: u8 },
    Reply(u16),
    Advance(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case7 {
    ops: Vec<Op7>,
    sched: Vec<u8>,
    rng: u64,
    klen: usize,
    mixed: bool,
    seqw: usize,
    /// milliseconds; 0 = drop at once
    timeout: u16,
}

/// Queue depths, the last few beyond a byte
fn deep(d: u8) -> usize {
    match d {
        250.. => 255 + 100 * (d as usize - 250),
        d => d as usize,
    }
}

fn case7() -> impl Strategy<Value = Case7> {
    let op = prop_oneof![
        4 => (0u8..3, 0u8..4, prop_oneof![Just(1u8), 1u8..5], 0u8..2)
            .prop_map(|(tp, kind, depth, clone)| Op7::Sub { tp, kind, depth, clone }),
        1 => any::<u16>().prop_map(Op7::Drop),
        10 => (0u8..3, 0u8..4, any::<u32>(), prop::bool::weighted(0.15), 1u8..4)
            .prop_map(|(tp, klen, seq, bad, n)| Op7::Msg { tp, klen, seq, bad, n }),
        1 => crate::hdr::junk().prop_map(Op7::Garbage),
        6 => (any::<u16>(), 1u8..4).prop_map(|(sub, n)| Op7::Recv { sub, n }),
        1 => (0u8..3, any::<bool>()).prop_map(|(tp, raw)| Op7::Multi { tp, raw }),
        1 => (0u8..4).prop_map(|ep| Op7::Req { ep }),
        1 => any::<u16>().prop_map(Op7::Reply),
        3 => (1u8..60).prop_map(Op7::Advance),
    ];
    let op = op.boxed();
    // many topics
    let spread = (vcommon::hist(op.clone(), 10..70), prop::collection::vec((0u8..4, 1u8..4, 0u8..2), 4..MTP), any::<u8>()).prop_map(|(ops, subs, salt)| {
        let n = subs.len();
        let mut v: Vec<Op7> = subs.into_iter().enumerate().map(|(i, (kind, depth, clone))| Op7::Sub { tp: i as u8, kind, depth, clone }).collect();
        for (i, mut op) in ops.into_iter().enumerate() {
            match &mut op {
                Op7::Sub { tp, .. } | Op7::Msg { tp, .. } | Op7::Multi { tp, .. } => *tp = ((*tp as usize * 7 + i * 3 + salt as usize) % n) as u8,
                _ => {}
            }
            v.push(op);
        }
        v
    });
    // deep queues
    let many = (0u8..2, 0u8..4, any::<u32>(), prop::bool::weighted(0.05), 60u8..).prop_map(|(tp, klen, seq, bad, n)| Op7::Msg { tp, klen, seq: seq | 1, bad, n });
    let deepq = (0u8..4, 250u8.., prop::collection::vec(prop_oneof![4 => many, 1 => (any::<u16>(), 1u8..).prop_map(|(sub, n)| Op7::Recv { sub, n }), 1 => op.clone()], 1..9))
        .prop_map(|(kind, depth, ops)| [Op7::Sub { tp: 0, kind, depth, clone: 0 }].into_iter().chain(ops).collect::<Vec<_>>());
    (
        prop_oneof![40 => vcommon::hist(op, 2..50), 2 => spread, 1 => deepq],
        prop::collection::vec(any::<u8>(), 0..30),
        any::<u64>(),
        klen(),
        prop::bool::weighted(0.3),
        slen(),
        prop_oneof![3 => Just(0u16), 2 => 5u16..40, 1 => Just(10_000u16)],
    )
        .prop_map(|(mut ops, sched, rng, klen, mixed, seqw, timeout)| {
            if seqw == 1 {
                // automatic numbers must not wrap onto a request in flight
                ops.truncate(200);
            }
            Case7 { ops, sched, rng, klen, mixed, seqw, timeout }
        })
}

#[derive(Clone, Debug)]
struct MsgF {
    tp: usize,
    frame: Vec<u8>,
    body: Vec<u8>,
    bad: bool,
}

enum In {
    Msg(MsgF),
    /// reply for request index
    Reply(usize),
    Other,
}

struct SubSt {
    sub: Option<Sub>,
    raw: bool,
    multi: bool,
    depth: usize,
    queue: VecDeque<MsgF>,
    /// the sending side is gone: drains, then ends
    ended: bool,
}

/// Reference model of the receiving side of the client
struct Model {
    inbox: VecDeque<In>,
    owner: [Option<usize>; MTP],
    multis: [Vec<usize>; MTP],
    subs: Vec<SubSt>,
    blocked: Option<(usize, MsgF, u64)>,
    now: u64,
    timeout: u64,
    replied: Vec<bool>,
    drops: usize,
    timeouts: usize,
}

impl Model {
    fn run(&mut self) {
        loop {
            if let Some((s, m, dl)) = self.blocked.take() {
                let sub = &mut self.subs[s];
                if sub.sub.is_none() {
                    // receiver gone: subscription is removed
                    self.owner[m.tp] = None;
                } else if sub.queue.len() < sub.depth {
                    sub.queue.push_back(m);
                } else if self.now > dl {
                    self.timeouts += 1;
                } else {
                    self.blocked = Some((s, m, dl));
                    return;
                }
            }
            let Some(i) = self.inbox.pop_front() else { return };
            match i {
                In::Other => {}
                In::Reply(r) => self.replied[r] = true,
                In::Msg(m) => {
                    for s in &self.multis[m.tp] {
                        self.subs[*s].queue.push_back(m.clone());
                    }
                    let Some(s) = self.owner[m.tp] else { continue };
                    let sub = &mut self.subs[s];
                    if sub.sub.is_none() {
                        self.owner[m.tp] = None;
                    } else if sub.queue.len() < sub.depth {
                        sub.queue.push_back(m);
                    } else if self.timeout == 0 {
                        self.drops += 1;
                    } else {
                        self.blocked = Some((s, m, self.now + self.timeout));
                    }
                }
            }
        }
    }
}

fn expect_recv(s: &mut SubSt) -> Got {
    while let Some(m) = s.queue.pop_front() {
        if s.raw {
            return Got::Frame(m.frame);
        }
        if !m.bad {
            return Got::Body(m.body);
        }
    }
    if s.ended {
        Got::End
    } else {
        Got::Pending
    }
}

fn run7(c: &Case7) -> CaseResult {
    with_rt(c.rng, async {
        let exec = Exec::new(&c.sched);
        let wire = Wire::new(usize::MAX);
        let (client, _) = mk_client_t(&exec, &wire, c.seqw, 8, Duration::from_millis(c.timeout as u64));
        let clones = [client.clone(), client];
        let mut m = Model {
            inbox: Default::default(),
            owner: [None; MTP],
            multis: Default::default(),
            subs: vec![],
            blocked: None,
            now: 0,
            timeout: c.timeout as u64,
            replied: vec![],
            drops: 0,
            timeouts: 0,
        };
        let mut tag = 0u32;
        let mut reqs: Vec<(u32, Rc<RefCell<Option<Res>>>, bool)> = vec![];
        let (mut refused, mut replaced, mut undec, mut blocked, mut received, mut resub) = (0, 0, 0, 0, 0, 0);
        exec.settle().await?;
        for (oi, op) in c.ops.iter().enumerate() {
            match op {
                Op7::Sub { tp, kind, depth, clone } => {
                    if m.blocked.is_some() {
                        continue;
                    }
                    let tp = *tp as usize;
                    let kind = kind % 4;
                    let got = now(subscribe(&clones[*clone as usize % 2], tp, kind, deep(*depth)));
                    let live = m.owner[tp].filter(|s| m.subs[*s].sub.is_some());
                    match got {
                        None => return Err(format!("op {oi}: subscribe did not complete")),
                        Some(Err(SubErr::Closed)) => return Err(format!("op {oi}: subscribe reports a closed client")),
                        Some(Err(SubErr::Already)) => {
                            ensure!(live.is_some(), "op {oi}: exclusive subscription refused although topic {tp} has no live subscriber");
                            refused += 1;
                        }
                        Some(Ok(s)) => {
                            if let Some(l) = live {
                                ensure!(kind >= 2, "op {oi}: second exclusive subscription to topic {tp} accepted");
                                m.subs[l].ended = true;
                                replaced += 1;
                            } else if m.owner[tp].is_some() {
                                resub += 1;
                            }
                            m.subs.push(SubSt {
                                sub: Some(s),
                                raw: kind % 2 == 1,
                                multi: false,
                                depth: deep(*depth),
                                queue: Default::default(),
                                ended: false,
                            });
                            m.owner[tp] = Some(m.subs.len() - 1);
                        }
                    }
                }
                Op7::Multi { tp, raw } => {
                    let tp = *tp as usize;
                    if m.blocked.is_some() || m.multis[tp].len() >= 2 {
                        continue;
                    }
                    match now(subscribe(&clones[0], tp, 4 + *raw as u8, 2048)) {
                        Some(Ok(s)) => {
                            m.subs.push(SubSt { sub: Some(s), raw: *raw, multi: true, depth: 2048, queue: Default::default(), ended: false });
                            let i = m.subs.len() - 1;
                            m.multis[tp].push(i);
                        }
                        _ => return Err(format!("op {oi}: subscribe_multi did not succeed")),
                    }
                }
                Op7::Drop(s) => {
                    let cand: Vec<usize> = (0..m.subs.len()).filter(|i| m.subs[*i].sub.is_some() && !m.subs[*i].multi).collect();
                    if cand.is_empty() {
                        continue;
                    }
                    m.subs[cand[*s as usize % cand.len()]].sub = None;
                }
                Op7::Msg { tp, klen, seq, bad, n } => {
                    for i in 0..*n {
                        tag += 1;
                        let kl = if c.mixed { [1, 2, 4, 8][(*klen as usize + i as usize) % 4] } else { c.klen };
                        let sl = [1, 2, 4][(*klen as usize + tag as usize) % 3];
                        let (f, body) = topic_frame(*tp as usize, tag, kl, sl, *seq, *bad);
                        if *bad {
                            undec += 1;
                        }
                        m.inbox.push_back(In::Msg(MsgF { tp: *tp as usize, frame: f.clone(), body, bad: *bad }));
                        wire.deliver(f);
                    }
                }
                Op7::Garbage(b) => {
                    if dec(b).is_some_and(|(k, _, _)| TP_ALL.iter().chain(RESP_KEYS.iter()).any(|x| key_is(&k, x)) || key_is(&k, &err_key())) {
                        continue;
                    }
                    m.inbox.push_back(In::Other);
                    wire.deliver(b.clone());
                }
                Op7::Req { ep } => {
                    tag += 1;
                    let res = Rc::new(RefCell::new(None));
                    let (r2, cl, ep, t) = (res.clone(), clones[0].clone(), *ep as usize, tag);
                    exec.spawn(async move {
                        let r = call(&cl, ep, &Req { tag: t, blob: vec![] }).await;
                        *r2.borrow_mut() = Some(r);
                    });
                    reqs.push((tag, res, false));
                    m.replied.push(false);
                }
                Op7::Reply(s) => {
                    let sent = wire.sent();
                    if sent.is_empty() {
                        continue;
                    }
                    let (_, (sw, seq), body) = dec(&sent[*s as usize % sent.len()].1).ok_or("undecodable frame sent")?;
                    let rq: Req = postcard::from_bytes(&body).map_err(|e| e.to_string())?;
                    let i = reqs.iter().position(|r| r.0 == rq.tag).ok_or("unknown request sent")?;
                    if reqs[i].2 {
                        continue;
                    }
                    reqs[i].2 = true;
                    let (k, _, _) = dec(&sent[*s as usize % sent.len()].1).unwrap();
                    let ep = REQ_KEYS.iter().position(|x| key_is(&k, x)).ok_or("unknown request key")?;
                    let b = postcard::to_stdvec(&Resp { tag: rq.tag, ok: true }).unwrap();
                    wire.deliver(frame(&RESP_KEYS[ep], c.klen, sw, seq, &b));
                    m.inbox.push_back(In::Reply(i));
                }
                Op7::Recv { sub, n } => {
                    let cand: Vec<usize> = (0..m.subs.len()).filter(|i| m.subs[*i].sub.is_some()).collect();
                    if cand.is_empty() {
                        continue;
                    }
                    let i = cand[*sub as usize % cand.len()];
                    for _ in 0..*n {
                        let exp = expect_recv(&mut m.subs[i]);
                        let Some(s) = m.subs[i].sub.as_mut() else { continue };
                        let got = s.recv_once();
                        ensure!(got == exp, "op {oi}: subscriber {i} received {got:02x?}, expected {exp:02x?}");
                        if matches!(got, Got::Body(_) | Got::Frame(_)) {
                            received += 1;
                        }
                        exec.settle().await?;
                        m.run();
                    }
                }
                Op7::Advance(ms) => {
                    exec.settle().await?;
                    m.run();
                    let mut target = m.now + *ms as u64;
                    loop {
                        match m.blocked.as_ref().map(|b| b.2) {
                            Some(dl) if dl < target => {
                                // just before: still held; just after: given up
                                exec.advance(Duration::from_millis(dl + 1 - m.now)).await?;
                                m.now = dl + 1;
                                m.run();
                                target = target.max(m.now);
                            }
                            Some(dl) if dl == target => target += 1,
                            _ => break,
                        }
                    }
                    exec.advance(Duration::from_millis(target - m.now)).await?;
                    m.now = target;
                }
            }
            exec.settle().await?;
            m.run();
            if m.blocked.is_some() {
                blocked += 1;
            }
            // requests complete exactly when their reply was processed
            for (i, r) in reqs.iter().enumerate() {
                let got = r.1.borrow().clone();
                let exp = m.replied[i].then_some(Res::Ok(r.0));
                ensure!(got == exp, "op {oi}: request {i} is {got:?}, expected {exp:?}");
            }
        }
        // Drain everything, then check that a waiting receiver is woken by the next message.
        for round in 0..2 {
            for _ in 0..400 {
                let mut any = false;
                for i in 0..m.subs.len() {
                    if m.subs[i].sub.is_none() {
                        continue;
                    }
                    loop {
                        let exp = expect_recv(&mut m.subs[i]);
                        let got = m.subs[i].sub.as_mut().unwrap().recv_once();
                        ensure!(got == exp, "final drain: subscriber {i} received {got:02x?}, expected {exp:02x?}");
                        if matches!(got, Got::Pending | Got::End) {
                            break;
                        }
                        any = true;
                        exec.settle().await?;
                        m.run();
                    }
                }
                if !any && m.blocked.is_none() {
                    break;
                }
                exec.settle().await?;
                m.run();
            }
            if round == 0 && m.blocked.is_none() {
                let mut waits = vec![];
                for tp in 0..MTP {
                    if let Some(i) = m.owner[tp].filter(|i| m.subs[*i].sub.is_some()) {
                        let mut s = m.subs[i].sub.take().unwrap();
                        let out = Rc::new(RefCell::new(vec![]));
                        let o2 = out.clone();
                        exec.spawn(async move {
                            for _ in 0..6 {
                                let g = s.recv().await;
                                o2.borrow_mut().push(g);
                            }
                            std::future::pending::<()>().await;
                            drop(s);
                        });
                        waits.push((tp, m.subs[i].raw, out, vec![]));
                    }
                }
                exec.settle().await?;
                for k in 0..6u32 {
                    for (tp, raw, out, exp) in &mut waits {
                        tag += 1;
                        let bad = k < 5 && (c.rng >> k) & 1 == 1;
                        let (f, b) = topic_frame(*tp, tag, c.klen, 2, k, bad);
                        wire.deliver(f.clone());
                        exec.settle().await?;
                        if *raw {
                            exp.push(Got::Frame(f));
                        } else if !bad {
                            exp.push(Got::Body(b));
                        }
                        ensure!(*out.borrow() == *exp, "waiting receiver of topic {tp}: got {:02x?}, expected {exp:02x?}", out.borrow());
                    }
                }
                break;
            }
        }
        Ok(Outcome::new(received >= 1 && (m.drops + m.timeouts + refused + replaced + undec + blocked) >= 1)
            .label(m.drops > 0, "full: dropped")
            .label(blocked > 0, "full: waited")
            .label(m.timeouts > 0, "full: timed out")
            .label(refused > 0, "second exclusive refused")
            .label(replaced > 0, "replaced")
            .label(resub > 0, "resubscribed after drop")
            .label(undec > 0, "undecodable message"))
    })
}

/// Interleaved reading: queue occupancy reconstructed from the observed history.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op7b {
    Msg { tp: u8, n: u8 },
    Steps(u8),
    Recv { tp: u8, n: u8 },
    Settle,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case7b {
    ops: Vec<Op7b>,
    sched: Vec<u8>,
    rng: u64,
    klen: usize,
    depth: [usize; NTP],
    kind: [u8; NTP],
    tasks: u8,
}

fn case7b() -> impl Strategy<Value = Case7b> {
    let op = prop_oneof![
        6 => (0u8..3, 1u8..5).prop_map(|(tp, n)| Op7b::Msg { tp, n }),
        4 => (1u8..4).prop_map(Op7b::Steps),
        4 => (0u8..3, 1u8..4).prop_map(|(tp, n)| Op7b::Recv { tp, n }),
        1 => Just(Op7b::Settle),
    ];
    (
        vcommon::hist(op, 2..40),
        prop::collection::vec(any::<u8>(), 0..60),
        any::<u64>(),
        klen(),
        prop::array::uniform3(1usize..5),
        prop::array::uniform3(0u8..4),
        0u8..8,
    )
        .prop_map(|(ops, sched, rng, klen, depth, kind, tasks)| Case7b { ops, sched, rng, klen, depth, kind, tasks })
}

fn run7b(c: &Case7b) -> CaseResult {
    with_rt(c.rng, async {
        let exec = Exec::new(&c.sched);
        let wire = Wire::new(usize::MAX);
        let (client, _) = mk_client_t(&exec, &wire, 2, 8, Duration::ZERO);
        type Log = Rc<RefCell<Vec<(u64, Got)>>>;
        let mut logs: Vec<Log> = vec![];
        let mut held: Vec<Option<Sub>> = vec![];
        for tp in 0..NTP {
            let mut s = match now(subscribe(&client, tp, c.kind[tp], c.depth[tp])) {
                Some(Ok(s)) => s,
                _ => return Err("subscribe failed".into()),
            };
            let log: Log = Default::default();
            logs.push(log.clone());
            if c.tasks >> tp & 1 == 1 {
                let w = wire.clone();
                exec.spawn(async move {
                    loop {
                        let g = s.recv().await;
                        let end = g == Got::End;
                        log.borrow_mut().push((w.tick(), g));
                        if end {
                            return;
                        }
                    }
                });
                held.push(None);
            } else {
                held.push(Some(s));
            }
        }
        let mut msgs: Vec<(usize, Vec<u8>, Vec<u8>)> = vec![];
        for op in &c.ops {
            match op {
                Op7b::Msg { tp, n } => {
                    for _ in 0..*n {
                        let (f, b) = topic_frame(*tp as usize, msgs.len() as u32, c.klen, 2, 7, false);
                        wire.deliver(f.clone());
                        msgs.push((*tp as usize, f, b));
                    }
                }
                Op7b::Steps(n) => exec.steps(*n as usize).await,
                Op7b::Settle => exec.settle().await?,
                Op7b::Recv { tp, n } => {
                    if let Some(s) = &mut held[*tp as usize] {
                        for _ in 0..*n {
                            match s.recv_once() {
                                Got::Pending => break,
                                g => logs[*tp as usize].borrow_mut().push((wire.tick(), g)),
                            }
                        }
                    }
                }
            }
        }
        exec.settle().await?;
        for tp in 0..NTP {
            if let Some(s) = &mut held[tp] {
                loop {
                    match s.recv_once() {
                        Got::Pending => break,
                        g => logs[tp].borrow_mut().push((wire.tick(), g)),
                    }
                }
            }
        }
        let popped = wire.popped();
        ensure!(popped.len() == msgs.len(), "client took {} of {} frames", popped.len(), msgs.len());
        let (mut dropped, mut delivered) = (0, 0);
        for tp in 0..NTP {
            let log = logs[tp].borrow();
            let raw = c.kind[tp] % 2 == 1;
            // (pop tick, end of its handling window, message index)
            let arr: Vec<(u64, u64, usize)> = popped
                .iter()
                .enumerate()
                .filter(|(_, (_, id))| msgs[*id].0 == tp)
                .map(|(i, (t, id))| (*t, popped.get(i + 1).map(|p| p.0).unwrap_or(u64::MAX), *id))
                .collect();
            let mut got_at: Vec<Option<u64>> = vec![None; arr.len()];
            let mut pos = 0;
            for (t, g) in log.iter() {
                let p = (pos..arr.len()).find(|p| {
                    let (_, f, b) = &msgs[arr[*p].2];
                    *g == if raw { Got::Frame(f.clone()) } else { Got::Body(b.clone()) }
                });
                let Some(p) = p else {
                    return Err(format!("topic {tp}: received {g:02x?} out of order, twice, or altered"));
                };
                ensure!(arr[p].0 < *t, "topic {tp}: received before it arrived");
                got_at[p] = Some(*t);
                pos = p + 1;
                delivered += 1;
            }
            // occupancy (of messages before `i` that were accepted) at time t
            let occ = |i: usize, t: u64| (0..i).filter(|j| got_at[*j].is_some_and(|r| r > t)).count();
            for i in 0..arr.len() {
                let (t0, t1, _) = arr[i];
                let at_arrival = occ(i, t0);
                if got_at[i].is_none() {
                    dropped += 1;
                    ensure!(at_arrival >= c.depth[tp],
                        "topic {tp}: message {i} dropped although only {at_arrival} of {} queue places were taken", c.depth[tp]);
                } else {
                    // least occupancy while the message was being handled
                    let least = log.iter().map(|(t, _)| *t).filter(|t| *t > t0 && *t < t1).map(|t| occ(i, t)).min().unwrap_or(at_arrival).min(at_arrival);
                    ensure!(least < c.depth[tp],
                        "topic {tp}: message {i} queued although {least} of {} places were taken", c.depth[tp]);
                }
            }
        }
        Ok(Outcome::new(dropped > 0 && delivered > 0)
            .label(dropped > 0, "dropped when full")
            .label(delivered > 8, "more than 8 delivered")
            .label(c.tasks != 0, "concurrent reader"))
    })
}

pub fn c07(r: &mut Run) {
    assert_interface();
    r.assume("subscription depth is at least 1 (tokio channels refuse 0)");
    r.check(
        "model",
        "a subscriber received at least one message and the history contains a full queue, refusal, replacement or undecodable message",
        400_000, 6_000_000, case7, run7,
    );
    r.check(
        "interleaved",
        "at least one message dropped by a full queue and at least one delivered, with reading interleaved at poll granularity",
        700_000, 10_000_000, case7b, run7b,
    );
}

// ------------------------------------------------------------------ C08

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op8 {
    Sub { tp: u8, raw: bool, depth: u8, clone: u8 },
    Excl { tp: u8, depth: u8 },
    /// replace (true) or drop the exclusive subscription of this topic
    ExclEnd { tp: u8, replace: bool },
    Drop(u16),
    Msg { tp: u8, klen: u8, seq: u32, bad: bool, n: u8 },
    Garbage(Vec<u8>),
    Recv { sub: u16, n: u8 },
    /// hand the subscriber to a task that keeps reading
    Task(u16),
    Steps(u8),
    Settle,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case8 {
    ops: Vec<Op8>,
    sched: Vec<u8>,
    rng: u64,
    klen: usize,
    mixed: bool,
}

fn case8() -> impl Strategy<Value = Case8> {
    let op = prop_oneof![
        4 => (0u8..2, any::<bool>(), prop_oneof![1u8..6, 1u8..20], 0u8..2)
            .prop_map(|(tp, raw, depth, clone)| Op8::Sub { tp, raw, depth, clone }),
        1 => (0u8..2, 1u8..3).prop_map(|(tp, depth)| Op8::Excl { tp, depth }),
        1 => (0u8..2, any::<bool>()).prop_map(|(tp, replace)| Op8::ExclEnd { tp, replace }),
        2 => any::<u16>().prop_map(Op8::Drop),
        10 => (0u8..2, 0u8..4, any::<u32>(), prop::bool::weighted(0.15), prop_oneof![3 => 1u8..4, 1 => 1u8..24])
            .prop_map(|(tp, klen, seq, bad, n)| Op8::Msg { tp, klen, seq, bad, n }),
        1 => crate::hdr::junk().prop_map(Op8::Garbage),
        8 => (any::<u16>(), 1u8..6).prop_map(|(sub, n)| Op8::Recv { sub, n }),
        1 => any::<u16>().prop_map(Op8::Task),
        2 => (1u8..6).prop_map(Op8::Steps),
        4 => Just(Op8::Settle),
    ];
    let op = op.boxed();
    // many topics
    let spread = (vcommon::hist(op.clone(), 10..80), prop::collection::vec((any::<bool>(), 1u8..6, 0u8..2), 4..MTP), any::<u8>()).prop_map(|(ops, subs, salt)| {
        let n = subs.len();
        let mut v: Vec<Op8> = subs.into_iter().enumerate().map(|(i, (raw, depth, clone))| Op8::Sub { tp: i as u8, raw, depth, clone }).collect();
        for (i, mut op) in ops.into_iter().enumerate() {
            match &mut op {
                Op8::Sub { tp, .. } | Op8::Msg { tp, .. } | Op8::Excl { tp, .. } | Op8::ExclEnd { tp, .. } => *tp = ((*tp as usize * 7 + i * 3 + salt as usize) % n) as u8,
                _ => {}
            }
            v.push(op);
        }
        v
    });
    // deep queues
    let many = (0u8..2, 0u8..4, any::<u32>(), prop::bool::weighted(0.05), 60u8..).prop_map(|(tp, klen, seq, bad, n)| Op8::Msg { tp, klen, seq: seq | 1, bad, n });
    let deepq = (any::<bool>(), 250u8.., prop::collection::vec(prop_oneof![4 => many, 1 => (any::<u16>(), 1u8..).prop_map(|(sub, n)| Op8::Recv { sub, n }), 2 => op.clone()], 1..12))
        .prop_map(|(raw, depth, ops)| [Op8::Sub { tp: 0, raw, depth, clone: 0 }].into_iter().chain(ops).collect::<Vec<_>>());
    (
        prop_oneof![40 => vcommon::hist(op, 2..60), 2 => spread, 1 => deepq],
        prop::collection::vec(any::<u8>(), 0..40),
        any::<u64>(),
        klen(),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(ops, sched, rng, klen, mixed)| Case8 { ops, sched, rng, klen, mixed })
}

/// Oracle for one broadcast subscriber
struct Bsub {
    sub: Option<Sub>,
    log: Option<Rc<RefCell<Vec<(u64, Got)>>>>,
    tp: usize,
    raw: bool,
    /// least number of messages that must be retained for it
    depth: usize,
    /// messages of its topic taken from the wire before it subscribed
    start: usize,
    pos: Vec<usize>,
    lags: u64,
    got: usize,
}

type TMsg = (Vec<u8>, Vec<u8>, bool, usize);

impl Bsub {
    /// `arrived`: messages of the topic taken from the wire so far; `settled`: all of them were handled.
    /// Undecodable messages are skipped invisibly, so several positions can be possible.
    fn judge(&mut self, g: &Got, msgs: &[TMsg], arrived: usize, settled: bool) -> Result<(), String> {
        let mut next = vec![];
        let mut why = String::new();
        for pos in &self.pos {
            match self.judge_at(*pos, g, msgs, arrived, settled) {
                Ok(v) => next.extend(v),
                Err(e) => why = e,
            }
        }
        next.sort();
        next.dedup();
        if next.is_empty() {
            return Err(why);
        }
        self.pos = next;
        match g {
            Got::Lagged(_) => self.lags += 1,
            Got::Body(_) | Got::Frame(_) => self.got += 1,
            _ => {}
        }
        Ok(())
    }
    fn judge_at(&self, pos: usize, g: &Got, msgs: &[TMsg], arrived: usize, settled: bool) -> Result<Vec<usize>, String> {
        let unread = arrived - pos;
        match g {
            Got::Pending => {
                ensure!(
                    !settled || (pos..arrived).all(|i| msgs[i].2 && !self.raw),
                    "broadcast subscriber has {unread} unread message(s) but receives nothing"
                );
                if settled {
                    return Ok(vec![arrived]);
                }
                let mut v = vec![pos];
                if !self.raw {
                    v.extend((pos..arrived).take_while(|i| msgs[*i].2).map(|i| i + 1));
                }
                Ok(v)
            }
            Got::End => Err("broadcast subscription ended while the client is open".into()),
            Got::Lagged(n) => {
                let n = *n as usize;
                ensure!(n > 0, "lagged by zero messages");
                // a receiver that kept waiting may have skipped undecodable messages before
                let lead = if self.raw { 0 } else { (pos..arrived).take_while(|i| msgs[*i].2).count() };
                let v: Vec<usize> = (0..=lead)
                    .filter(|k| {
                        let u = unread - k;
                        u > self.depth && u >= n && u - n >= self.depth
                    })
                    .map(|k| pos + k + n)
                    .collect();
                ensure!(!v.is_empty(), "told to have missed {n} of {unread} unread message(s) with a depth of {}", self.depth);
                Ok(v)
            }
            Got::Body(b) => {
                let mut p = pos;
                while p < arrived && msgs[p].2 {
                    p += 1;
                }
                ensure!(p < arrived, "received {b:02x?} though nothing is unread");
                ensure!(msgs[p].1 == *b, "received {b:02x?}, expected message {p} {:02x?}", msgs[p].1);
                Ok(vec![p + 1])
            }
            Got::Frame(f) => {
                ensure!(pos < arrived, "received {f:02x?} though nothing is unread");
                ensure!(msgs[pos].0 == *f, "received {f:02x?}, expected message {pos} {:02x?}", msgs[pos].0);
                Ok(vec![pos + 1])
            }
        }
    }
}

fn run8(c: &Case8) -> CaseResult {
    with_rt(c.rng, async {
        let exec = Exec::new(&c.sched);
        let wire = Wire::new(usize::MAX);
        let (client, _) = mk_client_t(&exec, &wire, 2, 8, Duration::ZERO);
        let clones = [client.clone(), client];
        let mut msgs: Vec<Vec<TMsg>> = vec![vec![]; MTP];
        // depth of the current group of subscribers
        let mut chan: Vec<Option<usize>> = vec![None; MTP];
        let mut subs: Vec<Bsub> = vec![];
        // exclusive subscription beside the broadcast ones: (subscription, depth, messages before the last drain)
        let mut excl: Vec<Option<(Sub, usize, usize)>> = (0..MTP).map(|_| None).collect();
        let mut besides = 0;
        let mut tag = 0;
        let mut settled = true;
        let (mut dropped, mut undec) = (0, 0);
        exec.settle().await?;
        let arrived = |msgs: &Vec<Vec<TMsg>>, tp: usize, before: u64| {
            let p = wire.popped();
            msgs[tp].iter().filter(|m| p.iter().any(|x| x.1 == m.3 && x.0 < before)).count()
        };
        // after settling: the exclusive subscriber has exactly what fitted its queue since the last drain
        let drain = |e: &mut (Sub, usize, usize), msgs: &[TMsg], ended: bool| -> Result<usize, String> {
            let exp: Vec<Got> = msgs[e.2..].iter().take(e.1).filter(|m| !m.2).map(|m| Got::Body(m.1.clone())).collect();
            e.2 = msgs.len();
            for x in &exp {
                let got = e.0.recv_once();
                ensure!(got == *x, "exclusive subscriber beside broadcast ones received {got:02x?}, expected {x:02x?}");
            }
            let last = e.0.recv_once();
            let want = if ended { Got::End } else { Got::Pending };
            ensure!(last == want, "exclusive subscriber beside broadcast ones: {last:02x?}, expected {want:?}");
            Ok(exp.len())
        };
        for (oi, op) in c.ops.iter().enumerate() {
            match op {
                Op8::Sub { tp, raw, depth, clone } => {
                    let tp = *tp as usize;
                    if subs.len() >= 12 {
                        continue;
                    }
                    if exec.tight() {
                        // the receiving worker may have been suspended holding the subscription list
                        exec.settle().await?;
                        settled = true;
                    }
                    let start = arrived(&msgs, tp, u64::MAX);
                    let s = match now(subscribe(&clones[*clone as usize % 2], tp, 4 + *raw as u8, deep(*depth))) {
                        Some(Ok(s)) => s,
                        _ => return Err(format!("op {oi}: subscribe_multi failed")),
                    };
                    let live = subs.iter().any(|s| s.tp == tp && (s.sub.is_some() || s.log.is_some()));
                    let d = deep(*depth);
                    let eff = match chan[tp] {
                        // the first subscriber of a group sets the depth
                        Some(d0) if live => d0,
                        _ => d,
                    };
                    chan[tp] = Some(eff);
                    subs.push(Bsub { sub: Some(s), log: None, tp, raw: *raw, depth: eff, start, pos: vec![start], lags: 0, got: 0 });
                }
                Op8::Excl { tp, depth } => {
                    let tp = *tp as usize;
                    if excl[tp].is_none() {
                        exec.settle().await?;
                        settled = true;
                        if let Some(Ok(s)) = now(subscribe(&clones[0], tp, 0, *depth as usize)) {
                            excl[tp] = Some((s, *depth as usize, msgs[tp].len()));
                        } else {
                            return Err(format!("op {oi}: exclusive subscription beside broadcast ones failed"));
                        }
                    }
                }
                Op8::ExclEnd { tp, replace } => {
                    let tp = *tp as usize;
                    exec.settle().await?;
                    settled = true;
                    let Some(mut e) = excl[tp].take() else { continue };
                    if *replace {
                        let Some(Ok(s)) = now(subscribe(&clones[1], tp, 2, e.1)) else {
                            return Err(format!("op {oi}: replacing the exclusive subscription beside broadcast ones failed"));
                        };
                        excl[tp] = Some((s, e.1, msgs[tp].len()));
                        besides += drain(&mut e, &msgs[tp], true).map_err(|e| format!("op {oi}: {e}"))?;
                    }
                }
                Op8::Drop(s) => {
                    let cand: Vec<usize> = (0..subs.len()).filter(|i| subs[*i].sub.is_some()).collect();
                    if !cand.is_empty() {
                        let i = cand[*s as usize % cand.len()];
                        subs[i].sub = None;
                        dropped += 1;
                    }
                }
                Op8::Msg { tp, klen, seq, bad, n } => {
                    for i in 0..*n {
                        tag += 1;
                        let kl = if c.mixed { [1, 2, 4, 8][(*klen as usize + i as usize) % 4] } else { c.klen };
                        let bad = *bad && i % 2 == 0;
                        if bad {
                            undec += 1;
                        }
                        let (f, b) = topic_frame(*tp as usize, tag, kl, [1, 2, 4][tag as usize % 3], *seq, bad);
                        let id = wire.deliver(f.clone());
                        msgs[*tp as usize].push((f, b, bad, id));
                    }
                    settled = false;
                }
                Op8::Garbage(b) => {
                    if dec(b).is_some_and(|(k, _, _)| TP_ALL.iter().any(|x| key_is(&k, x))) {
                        continue;
                    }
                    wire.deliver(b.clone());
                    settled = false;
                }
                Op8::Recv { sub, n } => {
                    let cand: Vec<usize> = (0..subs.len()).filter(|i| subs[*i].sub.is_some()).collect();
                    if cand.is_empty() {
                        continue;
                    }
                    let i = cand[*sub as usize % cand.len()];
                    for _ in 0..*n {
                        let a = arrived(&msgs, subs[i].tp, u64::MAX);
                        let g = subs[i].sub.as_mut().unwrap().recv_once();
                        let tp = subs[i].tp;
                        subs[i].judge(&g, &msgs[tp], a, settled).map_err(|e| format!("op {oi}, subscriber {i}: {e}"))?;
                        if g == Got::Pending {
                            break;
                        }
                    }
                }
                Op8::Task(s) => {
                    let cand: Vec<usize> = (0..subs.len()).filter(|i| subs[*i].sub.is_some()).collect();
                    if cand.is_empty() {
                        continue;
                    }
                    let i = cand[*s as usize % cand.len()];
                    let log: Rc<RefCell<Vec<(u64, Got)>>> = Default::default();
                    let (l2, w) = (log.clone(), wire.clone());
                    let mut s = subs[i].sub.take().unwrap();
                    subs[i].log = Some(log);
                    exec.spawn(async move {
                        loop {
                            let g = s.recv().await;
                            let end = g == Got::End;
                            l2.borrow_mut().push((w.tick(), g));
                            if end {
                                return;
                            }
                        }
                    });
                    settled = false;
                }
                Op8::Steps(n) => exec.steps(*n as usize).await,
                Op8::Settle => {
                    exec.settle().await?;
                    settled = true;
                    for tp in 0..MTP {
                        if let Some(e) = &mut excl[tp] {
                            besides += drain(e, &msgs[tp], false).map_err(|e| format!("op {oi}: {e}"))?;
                        }
                    }
                }
            }
        }
        exec.settle().await?;
        for tp in 0..MTP {
            if let Some(e) = &mut excl[tp] {
                besides += drain(e, &msgs[tp], false)?;
            }
        }
        let mut total = 0;
        for i in 0..subs.len() {
            let tp = subs[i].tp;
            let a = arrived(&msgs, tp, u64::MAX);
            ensure!(a == msgs[tp].len(), "client took {a} of {} messages", msgs[tp].len());
            if let Some(log) = subs[i].log.take() {
                for (t, g) in log.borrow().iter() {
                    let a = arrived(&msgs, tp, *t);
                    subs[i].judge(g, &msgs[tp], a, false).map_err(|e| format!("reading task {i}: {e}"))?;
                }
                let s = &mut subs[i];
                s.judge(&Got::Pending, &msgs[tp], a, true).map_err(|e| format!("reading task {i} at the end: {e}"))?;
            } else if subs[i].sub.is_some() {
                for _ in 0..5000 {
                    let g = subs[i].sub.as_mut().unwrap().recv_once();
                    subs[i].judge(&g, &msgs[tp], a, true).map_err(|e| format!("final drain of {i}: {e}"))?;
                    if g == Got::Pending {
                        break;
                    }
                }
                ensure!(subs[i].pos == [a], "subscriber {i} drained to {:?} of {a}", subs[i].pos);
            }
            total += subs[i].got;
        }
        let lags: u64 = subs.iter().map(|s| s.lags).sum();
        let shared = subs.iter().enumerate().any(|(i, a)| subs[..i].iter().any(|b| a.tp == b.tp && b.start <= a.start));
        Ok(Outcome::new(total > 1 && shared)
            .label(lags > 0, "lagged")
            .label(shared, "several subscribers of one topic")
            .label(dropped > 0, "subscriber dropped")
            .label(undec > 0, "undecodable message")
            .label(besides > 0, "exclusive subscriber beside")
            .label(subs.len() > 4, "more than four subscribers"))
    })
}

pub fn c08(r: &mut Run) {
    assert_interface();
    r.assume("the depth of a broadcast group is the one its first subscriber asked for; depth is at least 1");
    r.check(
        "broadcast",
        "at least two subscribers of one topic and more than one message received",
        500_000, 7_000_000, case8, run8,
    );
}
