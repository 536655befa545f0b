//! C04 response correlation, C05 key length negotiation, C06 sequence numbers.

use std::{cell::RefCell, rc::Rc};

use postcard_rpc::{
    header::{VarHeader, VarKey},
    host_client::{HostClient, HostClientConfig, HostErr, RpcFrame},
    Endpoint, Topic,
};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::{
    exec::{with_rt, Exec, TaskId},
    hdr::{fold, key_bytes, klen, seq_parts, skind, slen, varseq},
    mock::*,
};

pub type Client = HostClient<MyErr>;

/// Comparable form of a request result
#[derive(Debug, Clone, PartialEq)]
pub enum Res {
    Ok(u32),
    Wire(MyErr),
    Decode,
    BadResponse,
    Closed,
}

pub fn to_res(r: Result<Resp, HostErr<MyErr>>) -> Res {
    match r {
        Ok(r) => Res::Ok(r.tag),
        Err(HostErr::Wire(e)) => Res::Wire(e),
        Err(HostErr::Postcard(_)) => Res::Decode,
        Err(HostErr::BadResponse) => Res::BadResponse,
        Err(HostErr::Closed) => Res::Closed,
    }
}

pub async fn call(c: &Client, ep: usize, req: &Req) -> Res {
    to_res(match ep % NEP {
        0 => c.send_resp::<Ep0>(req).await,
        1 => c.send_resp::<Ep1>(req).await,
        2 => c.send_resp::<Ep2>(req).await,
        _ => c.send_resp::<Ep3>(req).await,
    })
}

pub fn mk_client(exec: &Exec, wire: &Wire, seqw: usize, depth: usize) -> (Client, Rc<RefCell<Vec<TaskId>>>) {
    mk_client_t(exec, wire, seqw, depth, std::time::Duration::ZERO)
}
pub fn mk_client_t(
    exec: &Exec, wire: &Wire, seqw: usize, depth: usize, t: std::time::Duration,
) -> (Client, Rc<RefCell<Vec<TaskId>>>) {
    let (tx, rx) = wire.parts();
    let sp = MockSpawn::new(exec);
    let ids = sp.ids.clone();
    let cfg = HostClientConfig {
        seq_kind: skind(seqw),
        err_uri_path: ERR_PATH,
        outgoing_depth: depth,
        subscriber_timeout_if_full: t,
    };
    (HostClient::new_with_wire_and_config(tx, rx, sp, &cfg), ids)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Rk {
    Ok,
    OkBadBody,
    Err,
    ErrBadBody,
    /// right sequence number, some other endpoint's response key
    WrongKey(u8),
    /// right key, other sequence number
    WrongSeq(i8),
    /// right sequence number on a topic key
    Topic(u8),
    /// the request echoed back
    Echo,
}

/// Request sizes, a few of them beyond 64 KiB
fn blob_len(b: u8) -> usize {
    match b {
        250.. => 65_500 + (b as usize - 250) * 20,
        b => b as usize,
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op4 {
    Req { ep: u8, clone: u8, blob: u8 },
    Reply { sel: u16, kind: Rk, klen: u8 },
    Garbage(Vec<u8>),
    Cancel(u16),
    Steps(u8),
    Settle,
    Permit(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case4 {
    ops: Vec<Op4>,
    sched: Vec<u8>,
    rng: u64,
    klen: usize,
    mixed: bool,
    seqw: usize,
    depth: usize,
    gated: bool,
}

fn rk() -> impl Strategy<Value = Rk> {
    prop_oneof![
        8 => Just(Rk::Ok),
        1 => Just(Rk::OkBadBody),
        3 => Just(Rk::Err),
        1 => Just(Rk::ErrBadBody),
        2 => (0u8..4).prop_map(Rk::WrongKey),
        2 => (-3i8..4).prop_map(Rk::WrongSeq),
        1 => (0u8..3).prop_map(Rk::Topic),
        1 => Just(Rk::Echo),
    ]
}

fn case4() -> impl Strategy<Value = Case4> {
    let op = prop_oneof![
        6 => (0u8..4, 0u8..3, prop_oneof![60 => Just(0u8), 60 => 0u8..60, 1 => 250u8..]).prop_map(|(ep, clone, blob)| Op4::Req { ep, clone, blob }),
        8 => (any::<u16>(), rk(), 0u8..4).prop_map(|(sel, kind, klen)| Op4::Reply { sel, kind, klen }),
        1 => crate::hdr::junk().prop_map(Op4::Garbage),
        1 => any::<u16>().prop_map(Op4::Cancel),
        5 => (1u8..6).prop_map(Op4::Steps),
        2 => Just(Op4::Settle),
        1 => (1u8..4).prop_map(Op4::Permit),
    ];
    (
        vcommon::hist(op, 1..45),
        prop::collection::vec(any::<u8>(), 0..60),
        any::<u64>(),
        klen(),
        prop::bool::weighted(0.2),
        slen(),
        prop_oneof![Just(1usize), 1usize..9],
        prop::bool::weighted(0.3),
    )
        .prop_map(|(ops, sched, rng, klen, mixed, seqw, depth, gated)| Case4 { ops, sched, rng, klen, mixed, seqw, depth, gated })
}

struct ReqSt {
    ep: usize,
    tag: u32,
    start: u64,
    task: TaskId,
    cancel: Option<u64>,
    res: Rc<RefCell<Option<Res>>>,
}

fn run4(c: &Case4) -> CaseResult {
    with_rt(c.rng, async {
        let exec = Exec::new(&c.sched);
        let wire = Wire::new(if c.gated { 0 } else { usize::MAX });
        let (client, _) = mk_client(&exec, &wire, c.seqw, c.depth);
        let clones = [client.clone(), client.clone(), client];
        let mut reqs: Vec<ReqSt> = vec![];
        // frame id -> expectation
        let mut frames: Vec<(Vec<u8>, Option<Res>)> = vec![];
        let mut tag = 100u32;
        let mut resp_tag = 1_000_000u32;
        let (mut stale, mut dup, mut cancels, mut errs, mut ooo) = (false, false, false, false, false);

        for op in &c.ops {
            match op {
                Op4::Req { ep, clone, blob } => {
                    if reqs.len() >= 200 {
                        continue;
                    }
                    tag += 1;
                    let cl = clones[*clone as usize % 3].clone();
                    let req = Req { tag, blob: vec![*blob; blob_len(*blob)] };
                    let res = Rc::new(RefCell::new(None));
                    let r2 = res.clone();
                    let ep = *ep as usize;
                    let task = exec.spawn(async move {
                        let r = call(&cl, ep, &req).await;
                        *r2.borrow_mut() = Some(r);
                    });
                    reqs.push(ReqSt { ep, tag, start: wire.tick(), task, cancel: None, res });
                }
                Op4::Reply { sel, kind, klen } => {
                    let sent = wire.sent();
                    if sent.is_empty() {
                        continue;
                    }
                    // bias to recent ones, reach back sometimes
                    let i = *sel as usize % sent.len();
                    let f = &sent[i].1;
                    let Some((_, (sw, seq), body)) = dec(f) else {
                        return Err(format!("client put an undecodable frame on the wire: {f:02x?}"));
                    };
                    let rq: Req = postcard::from_bytes(&body).map_err(|e| format!("request body on the wire: {e}"))?;
                    let Some(ri) = reqs.iter().position(|r| r.tag == rq.tag) else {
                        return Err(format!("unknown request on the wire {rq:?}"));
                    };
                    let r = &reqs[ri];
                    if r.cancel.is_some() {
                        stale = true;
                    }
                    if r.res.borrow().is_some() {
                        dup = true;
                    }
                    if i + 1 < sent.len() {
                        ooo = true;
                    }
                    let kl = if c.mixed { [1, 2, 4, 8][*klen as usize % 4] } else { c.klen };
                    resp_tag += 1;
                    let okb = postcard::to_stdvec(&Resp { tag: resp_tag, ok: true }).unwrap();
                    let ev = if resp_tag % 2 == 0 {
                        MyErr::Plain(resp_tag)
                    } else {
                        MyErr::Full { code: resp_tag, text: "é".repeat(if resp_tag % 61 == 60 { 33_000 } else { (resp_tag % 5) as usize }) }
                    };
                    let errb = postcard::to_stdvec(&ev).unwrap();
                    let (f, exp) = match kind {
                        Rk::Ok => (frame(&RESP_KEYS[r.ep], kl, sw, seq, &okb), Res::Ok(resp_tag)),
                        Rk::OkBadBody => (frame(&RESP_KEYS[r.ep], kl, sw, seq, &okb[..2]), Res::Decode),
                        Rk::Err => {
                            errs = true;
                            (frame(&err_key(), kl, sw, seq, &errb), Res::Wire(ev))
                        }
                        Rk::ErrBadBody => (frame(&err_key(), kl, sw, seq, &[9]), Res::Decode),
                        Rk::WrongKey(d) => {
                            let e = (r.ep + 1 + *d as usize % 3) % NEP;
                            (frame(&RESP_KEYS[e], kl, sw, seq, &okb), Res::Ok(resp_tag))
                        }
                        Rk::WrongSeq(d) => {
                            (frame(&RESP_KEYS[r.ep], kl, sw, seq.wrapping_add(*d as i32 as u32), &okb), Res::Ok(resp_tag))
                        }
                        Rk::Topic(t) => {
                            let b = postcard::to_stdvec(&Msg { tag: resp_tag, text: "t".into() }).unwrap();
                            (frame(&TP_KEYS[*t as usize % NTP], kl, sw, seq, &b), Res::Decode)
                        }
                        Rk::Echo => (frame(&REQ_KEYS[r.ep], kl, sw, seq, &body), Res::Decode),
                    };
                    let id = wire.deliver(f.clone());
                    if id != frames.len() {
                        vcommon::harness_error("frame ids out of step");
                    }
                    frames.push((f, Some(exp)));
                }
                Op4::Garbage(b) => {
                    // must not decode to something that matches: only header-invalid garbage or random keys;
                    // matching is judged on the bytes below either way
                    let id = wire.deliver(b.clone());
                    if id != frames.len() {
                        vcommon::harness_error("frame ids out of step");
                    }
                    frames.push((b.clone(), None));
                }
                Op4::Cancel(s) => {
                    if reqs.is_empty() {
                        continue;
                    }
                    let i = *s as usize % reqs.len();
                    if reqs[i].cancel.is_none() && exec.is_live(reqs[i].task) {
                        exec.cancel(reqs[i].task);
                        reqs[i].cancel = Some(wire.tick());
                        cancels = true;
                    }
                }
                Op4::Steps(n) => exec.steps(*n as usize).await,
                Op4::Settle => exec.settle().await?,
                Op4::Permit(n) => wire.permit(*n as usize),
            }
        }
        wire.permit(usize::MAX);
        exec.settle().await?;

        // ---- oracle
        let sent = wire.sent();
        let popped = wire.popped();
        ensure!(popped.len() == frames.len(), "client stopped reading: {} of {} frames taken", popped.len(), frames.len());
        let mut on_wire: Vec<Option<(u64, (usize, u32))>> = vec![None; reqs.len()];
        for (t, f) in &sent {
            let Some((k, s, body)) = dec(f) else { return Err(format!("undecodable frame sent {f:02x?}")) };
            let rq: Req = postcard::from_bytes(&body).map_err(|e| format!("request body {e}"))?;
            let Some(i) = reqs.iter().position(|r| r.tag == rq.tag) else { return Err("unknown request sent".into()) };
            ensure!(on_wire[i].is_none(), "request {i} was sent twice");
            ensure!(key_is(&k, &REQ_KEYS[reqs[i].ep]), "request {i} was sent with key {k:02x?}");
            on_wire[i] = Some((*t, s));
        }
        let mut completed = 0;
        for (i, r) in reqs.iter().enumerate() {
            let res = r.res.borrow().clone();
            let Some((wt, (_, seq))) = on_wire[i] else {
                ensure!(r.cancel.is_some(), "request {i} never reached the wire (result {res:?})");
                continue;
            };
            let end = r.cancel.unwrap_or(u64::MAX);
            let mut cand: Vec<Res> = vec![];
            let (mut first_ok, mut first_err) = (None, None);
            for (pi, (t, id)) in popped.iter().enumerate() {
                let (f, exp) = &frames[*id];
                let Some((k, (_, s), body)) = dec(f) else { continue };
                // When the receiving worker can be suspended anywhere, a frame is handled at some
                // point between being taken and the next one being taken.
                let handled = if exec.tight() { popped.get(pi + 1).map_or(u64::MAX, |p| p.0) } else { *t };
                if s != seq || handled < r.start || *t > end {
                    continue;
                }
                let mut is_ok = key_is(&k, &RESP_KEYS[r.ep]);
                let is_err = key_is(&k, &err_key());
                // Garbage may carry a longer key that shortens to the right one: a client that
                // uses the short form cannot tell them apart, one that uses the long form can.
                let mut may = false;
                if !is_ok && !is_err {
                    if exp.is_some() || !(key_may(&k, &RESP_KEYS[r.ep]) || key_may(&k, &err_key())) {
                        continue;
                    }
                    may = true;
                    is_ok = key_may(&k, &RESP_KEYS[r.ep]);
                }
                // Garbage that happens to match is judged by decoding it independently
                let exp = match exp {
                    Some(e) => e.clone(),
                    None if is_ok => match postcard::from_bytes::<Resp>(&body) {
                        Ok(r) => Res::Ok(r.tag),
                        Err(_) => Res::Decode,
                    },
                    None => match postcard::from_bytes::<MyErr>(&body) {
                        Ok(e) => Res::Wire(e),
                        Err(_) => Res::Decode,
                    },
                };
                if *t < wt || may {
                    cand.push(exp); // arrived while the request was being set up: may count
                } else if is_ok && first_ok.is_none() {
                    first_ok = Some(exp);
                } else if is_err && first_err.is_none() {
                    first_err = Some(exp);
                }
            }
            let must = first_ok.is_some() || first_err.is_some();
            cand.extend(first_ok);
            cand.extend(first_err);
            match res {
                None => {
                    if r.cancel.is_none() {
                        ensure!(!must, "request {i} (seq {seq}) still waits although its response arrived: {cand:?}");
                    }
                }
                Some(x) => {
                    completed += 1;
                    ensure!(cand.contains(&x), "request {i} (ep {}, seq {seq}) completed with {x:?}, acceptable: {cand:?}", r.ep);
                }
            }
        }
        Ok(Outcome::new(reqs.len() >= 2 && completed >= 2 && (ooo || dup || stale))
            .label(stale, "reply-after-cancel")
            .label(dup, "duplicate-reply")
            .label(ooo, "out-of-order")
            .label(errs, "wire-error")
            .label(cancels, "cancel")
            .label(c.gated, "backpressure")
            .label(completed >= 4, "completed>=4"))
    })
}

pub fn c04(run: &mut Run) {
    assert_interface();
    run.assume("Mock wire implements the public WireTx/WireRx/WireSpawn traits; tasks run on one thread in a generated poll order with tokio's select! RNG seeded by the case.");
    run.check(
        "correlation",
        "op sequences (requests on 3 clones, replies of 8 kinds to any earlier request, garbage, cancellations, backpressure, partial scheduling) over key lengths, sequence widths and queue depths; non-trivial = at least 2 requests completed and a reply out of order, duplicated or to a cancelled request",
        800_000,
        12_000_000,
        case4,
        run4,
    );
}

// ------------------------------------------------------------------ C05

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op5 {
    /// start a request
    Req { ep: u8, clone: u8 },
    /// start a raw request whose header already has a key of this length
    Raw { ep: u8, clone: u8, klen: usize },
    Publish { tp: u8, clone: u8 },
    PublishRaw { tp: u8, clone: u8, klen: usize },
    /// answer an outstanding request with a key of this length
    Reply { sel: u16, klen: usize, err: bool, #[serde(default)] bad: bool },
    /// a frame no request waits for
    Unsolicited { klen: usize, seq: u32 },
    Topic { tp: u8, klen: usize },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case5 {
    ops: Vec<Op5>,
    rng: u64,
    seqw: usize,
    sub: bool,
}

fn run5(c: &Case5) -> CaseResult {
    with_rt(c.rng, async {
        let exec = Exec::new(&[]);
        let wire = Wire::new(usize::MAX);
        let (client, _) = mk_client(&exec, &wire, c.seqw, 4);
        let clones = [client.clone(), client.clone(), client];
        let mut cur = 8usize; // key length in use, by the model
        let mut sent_n = 0usize;
        let mut seq_raw = if c.seqw == 1 { 0x40u32 } else { 10_000 }; // clear of the automatic numbers
        // outstanding: (ep, (sw, seq), result slot, raw)
        let mut out: Vec<(usize, (usize, u32), Rc<RefCell<Option<Res>>>)> = vec![];
        let mut tag = 0u32;
        let mut switches = 0;
        let mut after_switch = 0;
        let mut sub = None;
        if c.sub {
            let cl = clones[0].clone();
            let slot = Rc::new(RefCell::new(None));
            let s2 = slot.clone();
            exec.spawn(async move { *s2.borrow_mut() = cl.subscribe_exclusive::<Tp0>(64).await.ok() });
            exec.settle().await?;
            sub = slot.borrow_mut().take();
            ensure!(sub.is_some(), "subscribe failed");
        }
        let got_topic: Rc<RefCell<Vec<u32>>> = Default::default();
        let mut want_topic: Vec<u32> = vec![];
        if let Some(mut s) = sub {
            let g = got_topic.clone();
            exec.spawn(async move {
                while let Some(m) = s.recv().await {
                    g.borrow_mut().push(m.tag);
                }
            });
        }

        // returns the newly sent frame
        let new_sent = |sent_n: &mut usize| -> Result<Dec, String> {
            let s = wire.sent();
            ensure!(s.len() == *sent_n + 1, "expected exactly one new frame on the wire, got {}", s.len() - *sent_n);
            *sent_n += 1;
            dec(&s[s.len() - 1].1).ok_or_else(|| "undecodable frame sent".to_string())
        };

        for op in &c.ops {
            match op {
                Op5::Req { ep, clone } => {
                    if out.len() >= 20 {
                        continue;
                    }
                    let ep = *ep as usize % NEP;
                    tag += 1;
                    let cl = clones[*clone as usize % 3].clone();
                    let slot = Rc::new(RefCell::new(None));
                    let s2 = slot.clone();
                    let rq = Req { tag, blob: vec![] };
                    exec.spawn(async move {
                        let r = call(&cl, ep, &rq).await;
                        *s2.borrow_mut() = Some(r);
                    });
                    exec.settle().await?;
                    let (k, s, _) = new_sent(&mut sent_n)?;
                    ensure!(k == fold(&REQ_KEYS[ep].to_bytes(), cur), "request key on the wire {k:02x?}, expected {} byte(s) {:02x?}", cur, fold(&REQ_KEYS[ep].to_bytes(), cur));
                    if switches > 0 { after_switch += 1; }
                    out.push((ep, s, slot));
                }
                Op5::Raw { ep, clone, klen } => {
                    if out.len() >= 20 {
                        continue;
                    }
                    let ep = *ep as usize % NEP;
                    let cl = clones[*clone as usize % 3].clone();
                    let slot = Rc::new(RefCell::new(None));
                    let s2 = slot.clone();
                    seq_raw += 1;
                    // stay clear of automatically numbered requests (at most 40 ops)
                    let mut key = VarKey::Key8(REQ_KEYS[ep]);
                    key.shrink_to(crate::hdr::kkind(*klen));
                    let fr = RpcFrame { header: VarHeader { key, seq_no: varseq(c.seqw, seq_raw) }, body: vec![1, 2, 3] };
                    exec.spawn(async move {
                        let r = cl.send_resp_raw(fr, RESP_KEYS[ep]).await;
                        *s2.borrow_mut() = Some(match r {
                            Ok(f) => match postcard::from_bytes::<Resp>(&f.body) { Ok(r) => Res::Ok(r.tag), Err(_) => Res::Decode },
                            Err(e) => to_res(Err(e)),
                        });
                    });
                    exec.settle().await?;
                    let (k, s, b) = new_sent(&mut sent_n)?;
                    let l = cur.min(*klen);
                    ensure!(k == fold(&REQ_KEYS[ep].to_bytes(), l), "raw request key on the wire {k:02x?}, expected {l} byte(s)");
                    ensure!(b == vec![1, 2, 3], "raw body changed");
                    out.push((ep, s, slot));
                }
                Op5::Publish { tp, clone } | Op5::PublishRaw { tp, clone, .. } => {
                    let t = *tp as usize % NTP;
                    let cl = clones[*clone as usize % 3].clone();
                    tag += 1;
                    let msg = Msg { tag, text: "x".into() };
                    let raw = if let Op5::PublishRaw { klen, .. } = op { Some(*klen) } else { None };
                    let ok = Rc::new(RefCell::new(None));
                    let ok2 = ok.clone();
                    let m2 = msg.clone();
                    exec.spawn(async move {
                        let sq = varseq(2, tag);
                        let r = match (raw, t) {
                            (Some(l), _) => {
                                let mut key = VarKey::Key8(TP_KEYS[t]);
                                key.shrink_to(crate::hdr::kkind(l));
                                cl.publish_raw(RpcFrame { header: VarHeader { key, seq_no: sq }, body: postcard::to_stdvec(&m2).unwrap() }).await
                            }
                            (None, 0) => cl.publish::<Tp0>(sq, &m2).await,
                            (None, 1) => cl.publish::<Tp1>(sq, &m2).await,
                            (None, _) => cl.publish::<Tp2>(sq, &m2).await,
                        };
                        *ok2.borrow_mut() = Some(r.is_ok());
                    });
                    exec.settle().await?;
                    ensure!(*ok.borrow() == Some(true), "publish result {:?}", ok.borrow());
                    let (k, s, b) = new_sent(&mut sent_n)?;
                    let l = cur.min(raw.unwrap_or(8));
                    ensure!(k == fold(&TP_KEYS[t].to_bytes(), l), "topic key on the wire {k:02x?}, expected {l} byte(s)");
                    ensure!(s == (2, tag & 0xffff), "publish sequence number {s:?}, expected {tag}");
                    ensure!(b == postcard::to_stdvec(&msg).unwrap(), "published body changed");
                    if switches > 0 { after_switch += 1; }
                }
                Op5::Reply { sel, klen, err, bad } => {
                    if out.is_empty() {
                        continue;
                    }
                    let i = *sel as usize % out.len();
                    let (ep, (sw, seq), slot) = out.remove(i);
                    tag += 1;
                    let ek = err_key();
                    let (f, want) = if *err {
                        (frame(&err_key(), *klen, sw, seq, &postcard::to_stdvec(&MyErr::Plain(tag)).unwrap()), Res::Wire(MyErr::Plain(tag)))
                    } else {
                        (frame(&RESP_KEYS[ep], *klen, sw, seq, &postcard::to_stdvec(&Resp { tag, ok: false }).unwrap()), Res::Ok(tag))
                    };
                    // a body that cannot be decoded is still a response
                    let (f, want) = if *bad {
                        (frame(if *err { &ek } else { &RESP_KEYS[ep] }, *klen, sw, seq, &[0xff; 3]), Res::Decode)
                    } else {
                        (f, want)
                    };
                    wire.deliver(f);
                    exec.settle().await?;
                    let got = slot.borrow().clone();
                    ensure!(got == Some(want.clone()), "response with a {klen}-byte key (client at {cur}): got {got:?}, expected {want:?}");
                    if cur != *klen { switches += 1; }
                    cur = *klen;
                }
                Op5::Unsolicited { klen, seq } => {
                    // sequence numbers nobody uses
                    let seq = 200 + seq % 50;
                    wire.deliver(frame(&RESP_KEYS[0], *klen, 1, seq, &[1, 1]));
                    exec.settle().await?;
                }
                Op5::Topic { tp, klen } => {
                    let t = *tp as usize % NTP;
                    tag += 1;
                    wire.deliver(frame(&TP_KEYS[t], *klen, 4, tag, &postcard::to_stdvec(&Msg { tag, text: String::new() }).unwrap()));
                    if t == 0 && c.sub { want_topic.push(tag); }
                    exec.settle().await?;
                    ensure!(*got_topic.borrow() == want_topic, "subscriber saw {:?}, expected {want_topic:?}", got_topic.borrow());
                }
            }
        }
        Ok(Outcome::new(switches >= 1 && after_switch >= 1)
            .label(switches >= 2, "two-switches")
            .label(!want_topic.is_empty(), "topic-received")
            .label(cur == 8, "ends-at-8"))
    })
}

pub fn c05(run: &mut Run) {
    assert_interface();
    run.assume("Sequential histories: the client settles between operations, so the length in use is a function of the history. Only responses to pending requests switch the length (unsolicited frames and topics do not).");
    run.check(
        "negotiation",
        "histories of requests, raw requests, publishes, responses/errors/topics/unsolicited frames with per-frame key lengths; the key of every frame on the wire must be the fold at the length of the last response; non-trivial = the length changed and something was sent afterwards",
        400_000,
        8_000_000,
        || {
            let op = prop_oneof![
                5 => (0u8..4, 0u8..3).prop_map(|(ep, clone)| Op5::Req { ep, clone }),
                1 => (0u8..4, 0u8..3, klen()).prop_map(|(ep, clone, klen)| Op5::Raw { ep, clone, klen }),
                2 => (0u8..3, 0u8..3).prop_map(|(tp, clone)| Op5::Publish { tp, clone }),
                1 => (0u8..3, 0u8..3, klen()).prop_map(|(tp, clone, klen)| Op5::PublishRaw { tp, clone, klen }),
                5 => (any::<u16>(), klen(), prop::bool::weighted(0.3), prop::bool::weighted(0.1)).prop_map(|(sel, klen, err, bad)| Op5::Reply { sel, klen, err, bad }),
                1 => (klen(), any::<u32>()).prop_map(|(klen, seq)| Op5::Unsolicited { klen, seq }),
                1 => (0u8..3, klen()).prop_map(|(tp, klen)| Op5::Topic { tp, klen }),
            ];
            (vcommon::hist(op, 1..40), any::<u64>(), slen(), any::<bool>())
                .prop_map(|(mut ops, rng, seqw, sub)| {
                    if seqw == 1 {
                        // numbers must not wrap onto a request in flight
                        ops.truncate(45);
                    }
                    Case5 { ops, rng, seqw, sub }
                })
        },
        run5,
    );
}

// ------------------------------------------------------------------ C06

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op6 {
    /// `n` automatically numbered requests started at once on alternating clones
    Burst { n: u8, ep: u8 },
    /// caller-chosen number
    Raw { ep: u8, seq: u32, width: usize },
    /// answer one outstanding request
    Reply { sel: u16 },
    /// answer all but `keep` of the outstanding requests
    Drain { keep: u8, from_back: bool },
    Cancel { sel: u16 },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case6 {
    ops: Vec<Op6>,
    sched: Vec<u8>,
    rng: u64,
    seqw: usize,
    klen: usize,
}

fn run6(c: &Case6) -> CaseResult {
    with_rt(c.rng, async {
        let exec = Exec::new(&c.sched);
        let wire = Wire::new(usize::MAX);
        let (client, _) = mk_client(&exec, &wire, c.seqw, 4);
        let clones = [client.clone(), client];
        let mask = match c.seqw { 1 => 0xffu32, 2 => 0xffff, _ => u32::MAX };
        struct R { ep: usize, seq: u32, slot: Rc<RefCell<Option<Res>>>, task: TaskId }
        let mut out: Vec<R> = vec![];
        let mut auto = 0u32; // numbers handed out so far
        let mut tag = 0u32;
        let mut sent_n = 0;
        let (mut wrapped, mut dups) = (false, 0);

        // answer a request and check it completes
        macro_rules! reply {
            ($r:expr) => {{
                let r: R = $r;
                tag += 1;
                wire.deliver(frame(&RESP_KEYS[r.ep], c.klen, c.seqw, r.seq, &postcard::to_stdvec(&Resp { tag, ok: true }).unwrap()));
                exec.settle().await?;
                let got = r.slot.borrow().clone();
                ensure!(got == Some(Res::Ok(tag)), "request with seq {} got {got:?}, expected its response {tag}", r.seq);
            }};
        }

        for op in &c.ops {
            match op {
                Op6::Burst { n, ep } => {
                    let ep = *ep as usize % NEP;
                    if out.len() > 400 { continue; }
                    // start n requests, then schedule them in generated order
                    let mut started = vec![];
                    for j in 0..*n {
                        tag += 1;
                        let cl = clones[j as usize % 2].clone();
                        let slot = Rc::new(RefCell::new(None));
                        let s2 = slot.clone();
                        let rq = Req { tag, blob: vec![] };
                        let task = exec.spawn(async move {
                            let r = call(&cl, ep, &rq).await;
                            *s2.borrow_mut() = Some(r);
                        });
                        started.push((tag, slot, task));
                    }
                    exec.settle().await?;
                    let sent = wire.sent();
                    let new: Vec<_> = sent[sent_n..].to_vec();
                    sent_n = sent.len();
                    // the numbers this burst must have used
                    let mut nums: Vec<u32> = (0..*n as u32).map(|k| auto.wrapping_add(k) & mask).collect();
                    if (auto & mask) as u64 + *n as u64 > mask as u64 { wrapped = true; }
                    auto = auto.wrapping_add(*n as u32);
                    let mut new_out = vec![];
                    for (_, f) in new {
                        let Some((k, (w, s), body)) = dec(&f) else { return Err("undecodable frame".into()) };
                        ensure!(w == c.seqw, "request sequence number is {w} byte(s) wide on the wire, configured {}", c.seqw);
                        ensure!(key_is(&k, &REQ_KEYS[ep]), "key on the wire {k:02x?}");
                        let rq: Req = postcard::from_bytes(&body).map_err(|e| e.to_string())?;
                        let Some(i) = started.iter().position(|x| x.0 == rq.tag) else { return Err("unexpected request on the wire".into()) };
                        let (_, slot, task) = started.remove(i);
                        ensure!(slot.borrow().is_none(), "request completed {:?} without a response", slot.borrow());
                        let Some(p) = nums.iter().position(|x| *x == s) else {
                            return Err(format!("sequence number {s} on the wire; the next consecutive numbers are {nums:?}"));
                        };
                        nums.remove(p);
                        ensure!(!out.iter().any(|o: &R| o.seq == s), "sequence number {s} reused while a request with it is still in flight");
                        ensure!(!new_out.iter().any(|o: &R| o.seq == s), "sequence number {s} used twice in flight");
                        new_out.push(R { ep, seq: s, slot, task });
                    }
                    // whoever is left was refused: exactly those whose number is in flight
                    for (_, slot, task) in started {
                        ensure!(*slot.borrow() == Some(Res::BadResponse), "request not sent and result {:?} (expected the duplicate error)", slot.borrow());
                        ensure!(exec.is_done(task), "refused request still running");
                        dups += 1;
                    }
                    for s in nums {
                        ensure!(out.iter().any(|o| o.seq == s), "number {s} was skipped although no request with it is in flight");
                    }
                    out.extend(new_out);
                }
                Op6::Raw { ep, seq, width } => {
                    let ep = *ep as usize % NEP;
                    let cl = clones[0].clone();
                    let slot = Rc::new(RefCell::new(None));
                    let s2 = slot.clone();
                    let sq = varseq(*width, *seq);
                    let eff = { let (_, v) = seq_parts(&sq); v & mask };
                    let fr = RpcFrame { header: VarHeader { key: VarKey::Key8(REQ_KEYS[ep]), seq_no: sq }, body: vec![7] };
                    let task = exec.spawn(async move {
                        let r = cl.send_resp_raw(fr, RESP_KEYS[ep]).await;
                        *s2.borrow_mut() = Some(match r {
                            Ok(f) => {
                                let _ = key_bytes(&f.header.key);
                                match postcard::from_bytes::<Resp>(&f.body) { Ok(r) => Res::Ok(r.tag), Err(_) => Res::Decode }
                            }
                            Err(e) => to_res(Err(e)),
                        });
                    });
                    exec.settle().await?;
                    let sent = wire.sent();
                    let new: Vec<_> = sent[sent_n..].to_vec();
                    sent_n = sent.len();
                    let busy = out.iter().any(|o| o.seq == eff);
                    if busy {
                        ensure!(new.is_empty(), "a request reusing in-flight number {eff} was sent");
                        ensure!(*slot.borrow() == Some(Res::BadResponse), "duplicate raw request result {:?}", slot.borrow());
                        dups += 1;
                    } else {
                        ensure!(new.len() == 1, "raw request: {} frames sent", new.len());
                        let Some((_, (w, s), b)) = dec(&new[0].1) else { return Err("undecodable".into()) };
                        ensure!(w == c.seqw && s == eff, "raw request seq {sq:?} appears as {s} ({w} bytes), configured width {}", c.seqw);
                        ensure!(b == vec![7], "raw body");
                        out.push(R { ep, seq: eff, slot, task });
                    }
                }
                Op6::Reply { sel } => {
                    if out.is_empty() { continue; }
                    let r = out.remove(*sel as usize % out.len());
                    reply!(r);
                }
                Op6::Drain { keep, from_back } => {
                    while out.len() > *keep as usize {
                        let r = if *from_back { out.pop().unwrap() } else { out.remove(0) };
                        reply!(r);
                    }
                }
                Op6::Cancel { sel } => {
                    if out.is_empty() { continue; }
                    let r = out.remove(*sel as usize % out.len());
                    exec.cancel(r.task);
                    exec.settle().await?;
                }
            }
        }
        // every request left in flight still completes with its own response
        for r in out {
            reply!(r);
        }
        Ok(Outcome::new(dups > 0 || wrapped)
            .label(dups > 0, "duplicate-refused")
            .label(wrapped, "wrapped")
            .label(c.seqw == 1, "seq1").label(c.seqw == 2, "seq2").label(c.seqw == 4, "seq4"))
    })
}


// ---- C06 on real threads: numbers drawn by clones running in parallel

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case6t {
    /// requests made by each thread
    threads: Vec<u8>,
    seqw: usize,
    klen: usize,
    /// requests made (and left unanswered) before the threads start
    before: u8,
    order: u64,
}

type BoxFut<T> = std::pin::Pin<Box<dyn std::future::Future<Output = T> + Send>>;
struct BoxSpawn(std::sync::Arc<std::sync::Mutex<Vec<BoxFut<()>>>>);
impl postcard_rpc::host_client::WireSpawn for BoxSpawn {
    fn spawn(&mut self, fut: impl std::future::Future<Output = ()> + Send + 'static) {
        self.0.lock().unwrap().push(Box::pin(fut));
    }
}

fn run6t(c: &Case6t) -> CaseResult {
    use std::task::{Context, Poll, Waker};
    let wire = Wire::new(usize::MAX);
    let (tx, rx) = wire.parts();
    let workers: std::sync::Arc<std::sync::Mutex<Vec<BoxFut<()>>>> = Default::default();
    let cfg = HostClientConfig {
        seq_kind: skind(c.seqw),
        err_uri_path: ERR_PATH,
        outgoing_depth: 2048,
        subscriber_timeout_if_full: std::time::Duration::ZERO,
    };
    let client: Client = HostClient::new_with_wire_and_config(tx, rx, BoxSpawn(workers.clone()), &cfg);
    let mut workers = std::mem::take(&mut *workers.lock().unwrap());
    let total = c.before as usize + c.threads.iter().map(|x| *x as usize).sum::<usize>();
    let mk = |cl: Client, tag: u32| -> BoxFut<Res> {
        Box::pin(async move { call(&cl, tag as usize % NEP, &Req { tag, blob: vec![] }).await })
    };
    let mut cx = Context::from_waker(Waker::noop());
    let mut futs: Vec<(u32, BoxFut<Res>)> = vec![];
    let mut early = vec![];
    for t in 0..c.before as u32 {
        let mut f = mk(client.clone(), t);
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            early.push((t, r));
        } else {
            futs.push((t, f));
        }
    }
    let barrier = std::sync::Barrier::new(c.threads.len());
    let mut base = c.before as u32;
    let parts: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = c.threads.iter().map(|n| {
            let (n, b0, cl, barrier) = (*n as u32, base, client.clone(), &barrier);
            base += n;
            let mk = &mk;
            s.spawn(move || {
                let mut cx = Context::from_waker(Waker::noop());
                let mut mine: Vec<_> = (0..n).map(|k| (b0 + k, mk(cl.clone(), b0 + k))).collect();
                let mut early = vec![];
                barrier.wait();
                let mut pend = vec![];
                for (t, mut f) in mine.drain(..) {
                    match f.as_mut().poll(&mut cx) {
                        Poll::Ready(r) => early.push((t, r)),
                        Poll::Pending => pend.push((t, f)),
                    }
                }
                (pend, early)
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
    });
    for (p, e) in parts {
        futs.extend(p);
        early.extend(e);
    }
    ensure!(early.is_empty(), "requests completed without a response (numbers must be distinct): {early:?}");
    let mut spin = |workers: &mut Vec<BoxFut<()>>| {
        for _ in 0..3 {
            workers.retain_mut(|w| w.as_mut().poll(&mut cx).is_pending());
        }
    };
    spin(&mut workers);
    let sent = wire.sent();
    ensure!(sent.len() == total, "{} requests made, {} frames sent", total, sent.len());
    let mut seqs = vec![];
    let mut by_tag = std::collections::BTreeMap::new();
    for (_, f) in &sent {
        let Some((_, (w, s), body)) = dec(f) else { return Err("undecodable frame".into()) };
        ensure!(w == c.seqw, "sequence number is {w} byte(s) wide on the wire, configured {}", c.seqw);
        let rq: Req = postcard::from_bytes(&body).map_err(|e| e.to_string())?;
        seqs.push(s);
        ensure!(by_tag.insert(rq.tag, s).is_none(), "request sent twice");
    }
    seqs.sort();
    let exp: Vec<u32> = (0..total as u32).collect();
    ensure!(seqs == exp, "numbers drawn by concurrent clones are not consecutive and distinct: {seqs:?}");
    // answer in a generated order: everybody gets their own response
    let mut order: Vec<u32> = by_tag.keys().copied().collect();
    let mut x = c.order | 1;
    for i in (1..order.len()).rev() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        order.swap(i, (x >> 33) as usize % (i + 1));
    }
    for t in order {
        wire.deliver(frame(&RESP_KEYS[t as usize % NEP], c.klen, c.seqw, by_tag[&t], &postcard::to_stdvec(&Resp { tag: t, ok: true }).unwrap()));
    }
    // the receiver may need several polls (tokio's cooperative budget does not apply outside a runtime)
    for _ in 0..total + 4 {
        workers.retain_mut(|w| w.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_pending());
        if wire.st.lock().unwrap().inbox.is_empty() { break; }
    }
    for (t, mut f) in futs {
        match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(r) => ensure!(r == Res::Ok(t), "request {t} got {r:?}"),
            Poll::Pending => return Err(format!("request {t} still pending after its response arrived")),
        }
    }
    Ok(Outcome::new(c.threads.len() > 1 && c.threads.iter().all(|n| *n > 0))
        .label(c.before > 0, "requests in flight before").label(c.threads.len() > 2, "three or more threads"))
}

// ---- C06 over long histories: counters past 2^16

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case6l {
    seqw: usize,
    klen: usize,
    n: u32,
    /// requests (by index) that are left unanswered until the end
    hold: Vec<u32>,
}

fn run6l(c: &Case6l) -> CaseResult {
    use std::task::{Context, Poll, Waker};
    let wire = Wire::new(usize::MAX);
    let (tx, rx) = wire.parts();
    let workers: std::sync::Arc<std::sync::Mutex<Vec<BoxFut<()>>>> = Default::default();
    let cfg = HostClientConfig {
        seq_kind: skind(c.seqw),
        err_uri_path: ERR_PATH,
        outgoing_depth: 4,
        subscriber_timeout_if_full: std::time::Duration::ZERO,
    };
    let client: Client = HostClient::new_with_wire_and_config(tx, rx, BoxSpawn(workers.clone()), &cfg);
    let mut workers = std::mem::take(&mut *workers.lock().unwrap());
    let mut cx = Context::from_waker(Waker::noop());
    let clones = [client.clone(), client];
    let mask = match c.seqw { 1 => 0xffu32, 2 => 0xffff, _ => u32::MAX };
    let mut held: Vec<(u32, u32, BoxFut<Res>)> = vec![];
    let mut dups = 0;
    for i in 0..c.n {
        let cl = clones[i as usize % 2].clone();
        let ep = i as usize % NEP;
        let mut f: BoxFut<Res> = Box::pin(async move { call(&cl, ep, &Req { tag: i, blob: vec![] }).await });
        let want = i & mask;
        let busy = held.iter().any(|h| h.1 == want);
        let first = f.as_mut().poll(&mut cx);
        for w in &mut workers {
            ensure!(w.as_mut().poll(&mut cx).is_pending(), "a worker stopped");
        }
        let sent = std::mem::take(&mut wire.st.lock().unwrap().sent);
        if busy {
            ensure!(sent.is_empty(), "request {i} reuses number {want}, which is in flight, and is sent");
            ensure!(matches!(first, Poll::Ready(Res::BadResponse)), "request {i} reuses number {want}, which is in flight: {first:?}");
            dups += 1;
            continue;
        }
        ensure!(first.is_pending(), "request {i} completed without a response: {first:?}");
        ensure!(sent.len() == 1, "request {i}: {} frames sent", sent.len());
        let Some((_, (w, s), _)) = dec(&sent[0].1) else { return Err("undecodable frame".into()) };
        ensure!(w == c.seqw && s == want, "request {i} carries number {s} ({w} bytes), expected {want} ({} bytes)", c.seqw);
        if c.hold.contains(&i) {
            held.push((i, want, f));
            continue;
        }
        wire.deliver(frame(&RESP_KEYS[ep], c.klen, c.seqw, s, &postcard::to_stdvec(&Resp { tag: i, ok: true }).unwrap()));
        for w in &mut workers {
            ensure!(w.as_mut().poll(&mut cx).is_pending(), "a worker stopped");
        }
        wire.st.lock().unwrap().popped.clear();
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(Res::Ok(t)) if t == i => {}
            r => return Err(format!("request {i} with number {s}: {r:?} after its response")),
        }
    }
    let n_held = held.len();
    for (i, s, mut f) in held {
        wire.deliver(frame(&RESP_KEYS[i as usize % NEP], c.klen, c.seqw, s, &postcard::to_stdvec(&Resp { tag: i, ok: true }).unwrap()));
        for w in &mut workers {
            ensure!(w.as_mut().poll(&mut cx).is_pending(), "a worker stopped");
        }
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(Res::Ok(t)) if t == i => {}
            r => return Err(format!("held request {i} with number {s}: {r:?} after its response")),
        }
    }
    Ok(Outcome::new(c.n > 66_000 && n_held > 0)
        .label(dups > 0, "duplicate-refused")
        .label(c.n > mask, "wrapped").label(c.n > 131_072, "past 2^17")
        .label(c.seqw == 1, "seq1").label(c.seqw == 2, "seq2").label(c.seqw == 4, "seq4"))
}

pub fn c06(run: &mut Run) {
    assert_interface();
    run.assume("Numbers of requests started in one burst are compared as a set (their poll order is generated).");
    run.check(
        "sequence",
        "bursts of requests on two clones (long enough to wrap 1-byte numbers), raw requests with chosen numbers, replies, partial drains and cancellations; non-trivial = the number space wrapped or a duplicate was refused",
        24_000,
        900_000,
        || {
            let op = prop_oneof![
                4 => (prop_oneof![3 => 1u8..8, 3 => 60u8..200], 0u8..4).prop_map(|(n, ep)| Op6::Burst { n, ep }),
                3 => (0u8..4, prop_oneof![3 => 0u32..300, 1 => crate::hdr::spicy_u32()], slen()).prop_map(|(ep, seq, width)| Op6::Raw { ep, seq, width }),
                3 => any::<u16>().prop_map(|sel| Op6::Reply { sel }),
                3 => (0u8..6, any::<bool>()).prop_map(|(keep, from_back)| Op6::Drain { keep, from_back }),
                1 => any::<u16>().prop_map(|sel| Op6::Cancel { sel }),
            ];
            (prop::collection::vec(op, 1..16), prop::collection::vec(any::<u8>(), 0..40), any::<u64>(), prop_oneof![2 => Just(1usize), 1 => Just(2), 1 => Just(4)], klen())
                .prop_map(|(ops, sched, rng, seqw, klen)| Case6 { ops, sched, rng, seqw, klen })
        },
        run6,
    );
    run.check(
        "threads",
        "clones on 2-4 OS threads released together, each making up to 60 requests in a tight loop; the numbers on the wire must be consecutive and distinct and every request must get its own response; non-trivial = two or more threads made requests",
        24_000,
        600_000,
        || (prop::collection::vec(1u8..60, 2..5), slen(), klen(), 0u8..16, any::<u64>())
            .prop_map(|(threads, seqw, klen, before, order)| Case6t { threads, seqw, klen, before, order }),
        run6t,
    );
    run.check(
        "long",
        "up to 140000 requests one after the other on one client, some left in flight until the end, so that 2-byte numbers wrap onto numbers in flight; non-trivial = more than 66000 requests with some held in flight",
        48,
        1_500,
        || (slen(), klen(), prop_oneof![1 => 1u32..66_000, 5 => 66_000u32..140_000], prop::collection::vec(prop_oneof![0u32..70_000, 0u32..140_000], 0..5))
            .prop_map(|(seqw, klen, n, hold)| Case6l { seqw, klen, n, hold }),
        run6l,
    );
}

#[allow(dead_code)]
fn _unused(_: &dyn Fn() -> &'static str) {
    let _ = (Ep0::PATH, Tp0::PATH);
}
