//! C25: the server-side sender: every operation is one frame, addressed and numbered correctly.

use std::{
    fmt::Arguments,
    sync::{Arc, Mutex},
};

use postcard_rpc::{
    header::{VarHeader, VarKey, VarKeyKind, VarSeq},
    sender_fmt,
    server::{AsWireTxErrorKind, Sender, WireTx, WireTxErrorKind},
    standard_icd::{
        FrameTooLong, FrameTooShort, GetAllSchemaDataTopic, GetAllSchemasEndpoint, OwnedSchemaData, SchemaTotals, WireError,
        ERROR_KEY,
    },
    DeviceMap, Endpoint, Key, Topic, TopicDirection,
};
use postcard_schema::schema::{owned::OwnedNamedType, NamedType};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, proptest, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::{
    dispatch::{drive, yield_once},
    hdr::{kkind, klen, slen},
    mock::*,
    types::{build, node, reachable, Arena, Node, PRIMS},
};

// ------------------------------------------------------------------ recording transport

#[derive(Debug, Clone, PartialEq)]
enum Call {
    Send(Vec<u8>),
    Raw,
    LogStr(usize, String),
    LogFmt(usize, String),
}
/// An error that can be told from every other one
#[derive(Debug, Clone, PartialEq)]
struct Fail {
    id: usize,
    kind: u8,
}
impl AsWireTxErrorKind for Fail {
    fn as_kind(&self) -> WireTxErrorKind {
        match self.kind % 3 {
            0 => WireTxErrorKind::ConnectionClosed,
            1 => WireTxErrorKind::Timeout,
            _ => WireTxErrorKind::Other,
        }
    }
}
#[derive(Default)]
struct Rec {
    calls: Vec<Call>,
    /// which calls fail, and how
    faults: Vec<Option<u8>>,
    pend: u8,
}
#[derive(Clone, Default)]
struct RecTx(Arc<Mutex<Rec>>);
impl RecTx {
    async fn put(&self, c: Call) -> Result<(), Fail> {
        let pend = self.0.lock().unwrap().pend;
        for _ in 0..pend {
            yield_once().await;
        }
        let mut s = self.0.lock().unwrap();
        let id = s.calls.len();
        s.calls.push(c);
        match s.faults.get(id).copied().flatten() {
            Some(kind) => Err(Fail { id, kind }),
            None => Ok(()),
        }
    }
}
fn kn(k: VarKeyKind) -> usize {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}
impl WireTx for RecTx {
    type Error = Fail;
    async fn send<T: Serialize + ?Sized>(&self, hdr: VarHeader, msg: &T) -> Result<(), Fail> {
        let mut f = hdr.write_to_vec();
        match postcard::to_stdvec(msg) {
            Ok(b) => f.extend_from_slice(&b),
            Err(e) => vcommon::harness_error(format!("{e}")),
        }
        self.put(Call::Send(f)).await
    }
    async fn send_raw(&self, _buf: &[u8]) -> Result<(), Fail> {
        self.put(Call::Raw).await
    }
    async fn send_log_str(&self, k: VarKeyKind, s: &str) -> Result<(), Fail> {
        self.put(Call::LogStr(kn(k), s.to_string())).await
    }
    async fn send_log_fmt<'a>(&self, k: VarKeyKind, a: Arguments<'a>) -> Result<(), Fail> {
        self.put(Call::LogFmt(kn(k), a.to_string())).await
    }
}

// ------------------------------------------------------------------ operations

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Reply { ep: u8, slen: usize, seq: u32, tag: u32, ok: bool },
    Keyed { key: [u8; 8], slen: usize, seq: u32, body: Vec<u8> },
    KeyedStr { key: [u8; 8], slen: usize, seq: u32, body: String },
    Publish { tp: u8, slen: usize, seq: u32, tag: u32, text: String },
    Error { kind: u8, a: u32, b: u32, slen: usize, seq: u32 },
    LogStr(String),
    LogFmt(String, u64),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    klen: usize,
    ops: Vec<Op>,
    faults: Vec<Option<u8>>,
    pend: u8,
}

fn vseq(w: usize, s: u32) -> VarSeq {
    match w {
        1 => VarSeq::Seq1(s as u8),
        2 => VarSeq::Seq2(s as u16),
        _ => VarSeq::Seq4(s),
    }
}
fn cutseq(w: usize, s: u32) -> u32 {
    match w {
        1 => s as u8 as u32,
        2 => s as u16 as u32,
        _ => s,
    }
}
fn werr(kind: u8, a: u32, b: u32) -> WireError {
    match kind % 7 {
        0 => WireError::FrameTooLong(FrameTooLong { len: a, max: b }),
        1 => WireError::FrameTooShort(FrameTooShort { len: a }),
        2 => WireError::DeserFailed,
        3 => WireError::SerFailed,
        4 => WireError::UnknownKey,
        5 => WireError::FailedToSpawn,
        _ => WireError::KeyTooSmall,
    }
}
/// Independent encoding of the wire error
fn werr_bytes(kind: u8, a: u32, b: u32) -> Vec<u8> {
    fn var(mut v: u32, out: &mut Vec<u8>) {
        while v >= 0x80 {
            out.push(v as u8 | 0x80);
            v >>= 7;
        }
        out.push(v as u8);
    }
    let mut o = vec![kind % 7];
    if kind % 7 <= 1 {
        var(a, &mut o);
    }
    if kind % 7 == 0 {
        var(b, &mut o);
    }
    o
}

async fn reply<E: Endpoint<Response = Resp>>(s: &Sender<RecTx>, q: VarSeq, r: &Resp) -> Result<(), Fail> {
    s.reply::<E>(q, r).await
}
async fn publish<T: Topic<Message = Msg>>(s: &Sender<RecTx>, q: VarSeq, m: &Msg) -> Result<(), Fail> {
    s.publish::<T>(q, m).await
}

fn ops(c: &Case) -> CaseResult {
    let tx = RecTx::default();
    {
        let mut s = tx.0.lock().unwrap();
        s.faults = c.faults.clone();
        s.pend = c.pend;
    }
    let sender = Sender::new(tx.clone(), kkind(c.klen));
    let clone = sender.clone();
    let n = c.klen;
    let mut failed = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let s = if i % 3 == 2 { &clone } else { &sender };
        let (res, want) = match op {
            Op::Reply { ep, slen, seq, tag, ok } => {
                let r = Resp { tag: *tag, ok: *ok };
                let q = vseq(*slen, *seq);
                let res = match ep % 4 {
                    0 => drive(reply::<Ep0>(s, q, &r), 100)?,
                    1 => drive(reply::<Ep1>(s, q, &r), 100)?,
                    2 => drive(reply::<Ep2>(s, q, &r), 100)?,
                    _ => drive(reply::<Ep3>(s, q, &r), 100)?,
                };
                let body = postcard::to_stdvec(&r).unwrap();
                (res, Call::Send(frame(&RESP_KEYS[*ep as usize % 4], n, *slen, cutseq(*slen, *seq), &body)))
            }
            Op::Keyed { key, slen, seq, body } => {
                let k = unsafe { Key::from_bytes(*key) };
                let res = drive(s.reply_keyed::<[u8]>(vseq(*slen, *seq), k, body.as_slice()), 100)?;
                let b = postcard::to_stdvec(body.as_slice()).unwrap();
                (res, Call::Send(frame(&k, n, *slen, cutseq(*slen, *seq), &b)))
            }
            Op::KeyedStr { key, slen, seq, body } => {
                let k = unsafe { Key::from_bytes(*key) };
                let res = drive(s.reply_keyed::<str>(vseq(*slen, *seq), k, body.as_str()), 100)?;
                let b = postcard::to_stdvec(body.as_str()).unwrap();
                (res, Call::Send(frame(&k, n, *slen, cutseq(*slen, *seq), &b)))
            }
            Op::Publish { tp, slen, seq, tag, text } => {
                let m = Msg { tag: *tag, text: text.clone() };
                let q = vseq(*slen, *seq);
                let res = match tp % 3 {
                    0 => drive(publish::<Tp0>(s, q, &m), 100)?,
                    1 => drive(publish::<Tp1>(s, q, &m), 100)?,
                    _ => drive(publish::<Tp2>(s, q, &m), 100)?,
                };
                let body = postcard::to_stdvec(&m).unwrap();
                (res, Call::Send(frame(&TP_KEYS[*tp as usize % 3], n, *slen, cutseq(*slen, *seq), &body)))
            }
            Op::Error { kind, a, b, slen, seq } => {
                let res = drive(s.error(vseq(*slen, *seq), werr(*kind, *a, *b)), 100)?;
                (res, Call::Send(frame(&ERROR_KEY, n, *slen, cutseq(*slen, *seq), &werr_bytes(*kind, *a, *b))))
            }
            Op::LogStr(t) => (drive(s.log_str(t), 100)?, Call::LogStr(n, t.clone())),
            Op::LogFmt(t, v) => {
                (drive(sender_fmt!(s, "{t}: {:>4} {v:#x}", v), 100)?, Call::LogFmt(n, format!("{t}: {:>4} {v:#x}", v)))
            }
        };
        let calls = tx.0.lock().unwrap().calls.clone();
        ensure_eq!(calls.len(), i + 1, "transport operations for operation {i} ({op:?})");
        match (&calls[i], &want) {
            (Call::Send(g), Call::Send(w)) => {
                let (gk, gs, gb) = dec(g).ok_or_else(|| format!("operation {i} ({op:?}) sent a malformed frame {g:02x?}"))?;
                let (wk, ws, wb) = dec(w).ok_or("harness: malformed expectation")?;
                ensure!(gk == wk, "operation {i} ({op:?}) sent key {gk:02x?} instead of {wk:02x?}");
                ensure!(gs == ws, "operation {i} ({op:?}) sent sequence number {gs:?} instead of {ws:?}");
                ensure!(gb == wb, "operation {i} ({op:?}) sent the payload {gb:02x?} instead of {wb:02x?}");
                ensure!(g == w, "operation {i} ({op:?}) sent {g:02x?} instead of {w:02x?}");
            }
            (g, w) => ensure!(g == w, "operation {i}: {g:?} instead of {w:?}"),
        }
        let exp = match c.faults.get(i).copied().flatten() {
            Some(kind) => Err(Fail { id: i, kind }),
            None => Ok(()),
        };
        failed += exp.is_err() as usize;
        ensure!(res == exp, "operation {i} ({op:?}) returned {res:?}, the transport {exp:?}");
    }
    Ok(Outcome::new(c.ops.len() >= 3).label(failed > 0, "transport errors").label(n < 8, "shortened keys"))
}

// ------------------------------------------------------------------ schema stream

#[derive(Debug, Clone, Serialize, Deserialize)]
struct SCase {
    klen: usize,
    slen: usize,
    seq: u32,
    req_klen: usize,
    nodes: Vec<Node>,
    eps: Vec<(String, [u8; 8], [u8; 8])>,
    tin: Vec<(String, [u8; 8])>,
    tout: Vec<(String, [u8; 8])>,
    faults: Vec<(u16, u8)>,
    /// the reply itself fails
    last: Option<u8>,
    pend: u8,
}

fn schemas(c: &SCase) -> CaseResult {
    let mut a = Arena::default();
    let tys = build(&c.nodes, &mut a, 40);
    let mut seen = std::collections::HashSet::new();
    for t in &tys {
        reachable(t, &mut seen);
    }
    let mut list: Vec<NamedType> = seen.into_iter().collect();
    list.sort_by_key(|t| format!("{t:?}"));
    list.extend(PRIMS.iter().take(c.pend as usize % 3).map(|t| **t));
    let list: Vec<&'static NamedType> = list.into_iter().map(|t| a.put(t)).collect();
    let key = |b: &[u8; 8]| unsafe { Key::from_bytes(*b) };
    let eps: Vec<_> = c.eps.iter().map(|e| (a.str(e.0.clone()), key(&e.1), key(&e.2))).collect();
    let tin: Vec<_> = c.tin.iter().map(|e| (a.str(e.0.clone()), key(&e.1))).collect();
    let tout: Vec<_> = c.tout.iter().map(|e| (a.str(e.0.clone()), key(&e.1))).collect();
    let dm = DeviceMap {
        types: a.put_all(list),
        endpoints: a.put_all(eps),
        topics_in: a.put_all(tin),
        topics_out: a.put_all(tout),
        min_key_len: kkind(c.klen),
    };
    let total = dm.types.len() + dm.endpoints.len() + dm.topics_in.len() + dm.topics_out.len();
    let mut faults = vec![None; total];
    for (i, k) in &c.faults {
        if total > 0 {
            faults[*i as usize % total] = Some(*k);
        }
    }
    let errs = faults.iter().filter(|f| f.is_some()).count();
    faults.push(c.last);
    let tx = RecTx::default();
    {
        let mut s = tx.0.lock().unwrap();
        s.faults = faults;
        s.pend = c.pend % 2;
    }
    let mut rk = VarKey::Key8(GetAllSchemasEndpoint::REQ_KEY);
    rk.shrink_to(kkind(c.req_klen));
    let hdr = VarHeader { key: rk, seq_no: vseq(c.slen, c.seq) };
    let res = drive(Sender::new(tx.clone(), kkind(c.klen)).send_all_schemas(&hdr, &dm), 100_000)?;
    let calls = tx.0.lock().unwrap().calls.clone();
    ensure_eq!(calls.len(), total + 1, "frames sent for {total} schema items");
    // a multiset of schema messages, then the reply
    let mut want: Vec<OwnedSchemaData> = vec![];
    want.extend(dm.types.iter().map(|t| OwnedSchemaData::Type(OwnedNamedType::from(*t))));
    want.extend(dm.endpoints.iter().map(|e| OwnedSchemaData::Endpoint {
        path: e.0.to_string(),
        request_key: e.1,
        response_key: e.2,
    }));
    for (l, direction) in [(dm.topics_in, TopicDirection::ToServer), (dm.topics_out, TopicDirection::ToClient)] {
        want.extend(l.iter().map(|t| OwnedSchemaData::Topic { path: t.0.to_string(), key: t.1, direction }));
    }
    let mut seqs = vec![];
    for (i, call) in calls.iter().enumerate() {
        let Call::Send(f) = call else { return Err(format!("frame {i} was sent as {call:?}")) };
        let (k, (sw, sq), body) = dec(f).ok_or_else(|| format!("frame {i} is malformed: {f:02x?}"))?;
        ensure_eq!(k.len(), c.klen, "key length of frame {i}");
        if i < total {
            ensure!(key_is(&k, &GetAllSchemaDataTopic::TOPIC_KEY), "frame {i} of {total} is not on the schema topic");
            let d: OwnedSchemaData =
                postcard::from_bytes(&body).map_err(|e| format!("schema message {i} does not decode: {e}"))?;
            ensure!(postcard::to_stdvec(&d).unwrap() == body, "schema message {i} has surplus bytes");
            let p = want.iter().position(|w| *w == d).ok_or_else(|| format!("schema message {i} is not the device's: {d:?}"))?;
            want.swap_remove(p);
            seqs.push((sw, sq));
        } else {
            ensure!(key_is(&k, &GetAllSchemasEndpoint::RESP_KEY), "the last frame is not the response");
            ensure_eq!((sw, sq), (c.slen, cutseq(c.slen, c.seq)), "sequence number of the reply");
            let t: SchemaTotals = postcard::from_bytes(&body).map_err(|e| format!("the totals do not decode: {e}"))?;
            let w = SchemaTotals {
                types_sent: dm.types.len() as u32,
                endpoints_sent: dm.endpoints.len() as u32,
                topics_in_sent: dm.topics_in.len() as u32,
                topics_out_sent: dm.topics_out.len() as u32,
                errors: errs as u32,
            };
            ensure!(t == w, "the reply announces {t:?}, the device has {w:?}");
        }
    }
    ensure!(want.is_empty(), "schema messages never sent: {want:?}");
    for w in seqs.windows(2) {
        ensure!(w[1].1 == w[0].1 + 1, "schema messages are numbered {} then {}", w[0].1, w[1].1);
    }
    let exp = match c.last {
        Some(kind) => Err(Fail { id: total, kind }),
        None => Ok(()),
    };
    ensure!(res == exp, "send_all_schemas returned {res:?}, sending the reply {exp:?}");
    Ok(Outcome::new(total >= 4).label(errs > 0, "failed schema messages").label(errs > 1, "several failed").label(c.last.is_some(), "reply failed"))
}

pub fn c25(r: &mut Run) {
    let seq = || prop_oneof![2 => any::<u32>(), 1 => 0u32..300, 1 => (0u32..3).prop_map(|d| u32::MAX - d), 1 => (0u32..3).prop_map(|d| 65535 + d)];
    let text = || prop_oneof![90 => "[a-z ]{0,12}", 30 => any::<String>(), 30 => "\\PC{100,300}", 1 => (32_700usize..32_800).prop_map(|n| "é".repeat(n))];
    r.check(
        "operations",
        "at least three operations",
        400_000,
        6_000_000,
        move || {
            let op = prop_oneof![
                3 => (any::<u8>(), slen(), seq(), any::<u32>(), any::<bool>()).prop_map(|(ep, slen, seq, tag, ok)| Op::Reply { ep, slen, seq, tag, ok }),
                2 => (any::<[u8; 8]>(), slen(), seq(), prop_oneof![100 => proptest::collection::vec(any::<u8>(), 0..40), 1 => (any::<u8>(), 65_500usize..65_560).prop_map(|(b, n)| vec![b; n])]).prop_map(|(key, slen, seq, body)| Op::Keyed { key, slen, seq, body }),
                1 => (any::<[u8; 8]>(), slen(), seq(), text()).prop_map(|(key, slen, seq, body)| Op::KeyedStr { key, slen, seq, body }),
                3 => (any::<u8>(), slen(), seq(), any::<u32>(), text()).prop_map(|(tp, slen, seq, tag, text)| Op::Publish { tp, slen, seq, tag, text }),
                3 => (0u8..7, any::<u32>(), any::<u32>(), slen(), seq()).prop_map(|(kind, a, b, slen, seq)| Op::Error { kind, a, b, slen, seq }),
                1 => text().prop_map(Op::LogStr),
                1 => (text(), any::<u64>()).prop_map(|(t, v)| Op::LogFmt(t, v)),
            ];
            (
                klen(),
                vcommon::hist(op, 1..12),
                proptest::collection::vec(prop_oneof![4 => Just(None), 1 => (0u8..3).prop_map(Some)], 0..12),
                0u8..3,
            )
                .prop_map(|(klen, ops, faults, pend)| Case { klen, ops, faults, pend })
        },
        ops,
    );
    r.check(
        "schemas",
        "at least four schema items",
        150_000,
        2_000_000,
        || {
            let key = || any::<[u8; 8]>();
            let path = || prop_oneof![4 => "[a-z/]{0,12}", 1 => "[a-zé]{100,200}"];
            (
                (klen(), slen(), any::<u32>(), klen()),
                prop_oneof![4 => proptest::collection::vec(node(), 0..8), 1 => proptest::collection::vec(node(), 8..25)],
                prop_oneof![6 => proptest::collection::vec((path(), key(), key()), 0..6), 1 => proptest::collection::vec((path(), key(), key()), 100..350)],
                proptest::collection::vec((path(), key()), 0..6),
                proptest::collection::vec((path(), key()), 0..6),
                prop_oneof![1 => Just(vec![]), 2 => proptest::collection::vec((any::<u16>(), 0u8..3), 1..4), 1 => proptest::collection::vec((any::<u16>(), 0u8..3), 4..40), 1 => proptest::collection::vec((any::<u16>(), 0u8..3), 400..2000)],
                prop_oneof![4 => Just(None), 1 => (0u8..3).prop_map(Some)],
                any::<u8>(),
            )
                .prop_map(|((klen, slen, seq, req_klen), nodes, eps, tin, tout, faults, last, pend)| SCase {
                    klen, slen, seq, req_klen, nodes, eps, tin, tout, faults, last, pend,
                })
        },
        schemas,
    );
}
