//! C12 schema discovery.

use std::{
    cell::RefCell,
    collections::HashSet,
    rc::Rc,
    time::Duration,
};

use postcard_rpc::{
    header::{VarHeader, VarKey, VarSeq},
    host_client::{HostClient, SchemaError, SchemaReport},
    server::Sender,
    standard_icd::{GetAllSchemaDataTopic, GetAllSchemasEndpoint, WireError, ERROR_KEY, ERROR_PATH},
    DeviceMap, Endpoint, Key, Topic,
};
use postcard_schema::{
    schema::{owned::OwnedNamedType, NamedType},
    Schema,
};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, proptest, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::{
    dispatch::{drive, STx, TxK},
    exec::{with_rt, Exec},
    hdr::{kkind, klen, skind, slen},
    mock::{dec, frame, key_is, MockSpawn, Wire},
    types::{build, is_prim, node, reachable, Arena, Node, PRIMS},
};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Fault {
    /// the send fails; bool: the frame went out nevertheless
    SendErr(u16, bool),
    /// the frame is lost on the way
    Lose(u16),
    /// the frame is cut short on the way
    Cut(u16),
    /// silence before this frame, milliseconds
    Gap(u16, u16),
    /// another frame of the device arrives in between
    Noise(u16, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum End {
    Reply,
    WireErr,
    Close,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    nodes: Vec<Node>,
    eps: Vec<(u8, u8, u8)>,
    tin: Vec<(u8, u8)>,
    tout: Vec<(u8, u8)>,
    /// further types the device lists
    extra: Vec<u8>,
    /// types the device fails to list
    omit: Vec<u8>,
    klen: usize,
    slen: usize,
    faults: Vec<Fault>,
    end: End,
    burst: usize,
    sched: Vec<u8>,
    again: bool,
}

fn builtin() -> Vec<OwnedNamedType> {
    macro_rules! o { ($($t:ty)*) => { vec![$(OwnedNamedType::from(<$t as Schema>::SCHEMA)),*] }; }
    o!(bool i8 u8 i16 i32 i64 i128 u16 u32 u64 u128 f32 f64 char String Vec<u8> () OwnedNamedType)
}

type Res = Result<SchemaReport, SchemaError<WireError>>;

async fn discover(
    c: &Case,
    faults: &[Fault],
    ex: &Exec,
    w: &Wire,
    client: &HostClient<WireError>,
    dm: &DeviceMap,
    end: &End,
) -> Result<(Option<Res>, bool, bool), String> {
    let out: Rc<RefCell<Option<Res>>> = Default::default();
    let before = w.sent_len();
    let task = ex.spawn({
        let (out, cl) = (out.clone(), client.clone());
        async move {
            let r = cl.get_schema_report().await;
            *out.borrow_mut() = Some(r);
        }
    });
    ex.settle().await?;
    let sent = w.sent();
    ensure!(sent.len() == before + 1, "discovery sent {} frames instead of one request", sent.len() - before);
    let (k, (sw, seq), body) = dec(&sent[before].1).ok_or("malformed request")?;
    ensure!(key_is(&k, &GetAllSchemasEndpoint::REQ_KEY) && body.is_empty(), "unexpected request for discovery");

    // The device answers
    let tx = STx::default();
    let total = dm.types.len() + dm.endpoints.len() + dm.topics_in.len() + dm.topics_out.len();
    {
        let mut st = tx.0.lock().unwrap();
        st.faults.resize(total, None);
        for f in faults {
            if let Fault::SendErr(i, _) = f {
                if total > 0 {
                    st.faults[*i as usize % total] = Some(TxK::Other);
                }
            }
        }
    }
    let hdr = VarHeader {
        key: VarKey::Key8(GetAllSchemasEndpoint::REQ_KEY),
        seq_no: match sw {
            1 => VarSeq::Seq1(seq as u8),
            2 => VarSeq::Seq2(seq as u16),
            _ => VarSeq::Seq4(seq),
        },
    };
    let r = drive(Sender::new(tx.clone(), kkind(c.klen)).send_all_schemas(&hdr, dm), 10_000)?;
    ensure!(r.is_ok(), "send_all_schemas failed although only schema messages failed to send");
    let attempts = tx.0.lock().unwrap().attempts.clone();
    ensure!(
        attempts.len() == total + 1,
        "the device sent {} frames for {} schema items",
        attempts.len(),
        total
    );
    for (i, (f, _)) in attempts.iter().enumerate() {
        let (k, s, _) = dec(f).ok_or("malformed device frame")?;
        ensure!(k.len() == c.klen, "device frame with a {} byte key", k.len());
        let want = if i == total { GetAllSchemasEndpoint::RESP_KEY } else { GetAllSchemaDataTopic::TOPIC_KEY };
        ensure!(key_is(&k, &want), "device frame {i} of {total} has the wrong key");
        if i == total {
            ensure!(s == (sw, seq), "the reply carries sequence number {s:?}, the request {:?}", (sw, seq));
        }
    }

    // The network delivers
    let mut complete = true;
    let mut dead = false;
    let mut unsettled = 0;
    for (i, (f, err)) in attempts.iter().enumerate() {
        if i == total {
            break;
        }
        let mut f = Some(f.clone());
        if err.is_some() {
            complete = false;
            let goes = faults.iter().any(|x| matches!(x, Fault::SendErr(j, true) if *j as usize % total == i));
            if !goes {
                f = None;
            }
        }
        let gap = faults
            .iter()
            .filter_map(|x| match x {
                Fault::Gap(j, ms) if *j as usize % total == i => Some(*ms),
                _ => None,
            })
            .max();
        if let Some(ms) = gap {
            ex.advance(Duration::from_millis(ms as u64)).await?;
            unsettled = 0;
            // the client stops collecting after 100 ms of silence
            dead |= ms > 100;
        }
        for x in faults {
            match x {
                Fault::Lose(j) if *j as usize % total == i => {
                    f = None;
                    complete = false;
                }
                Fault::Cut(j) if *j as usize % total == i => {
                    // shorter than any schema message that decodes
                    if let Some(v) = &mut f {
                        let h = 1 + c.klen + 2;
                        v.truncate(h + (v.len() - h) / 2);
                        complete = false;
                    }
                }
                Fault::Noise(j, n) if *j as usize % total == i => {
                    // keys that may alias the schema topic at one byte are left out
                    let other = Key::for_path::<u32>(["x/noise", "y/noise", "z/noise"][*n as usize % 3]);
                    w.deliver(frame(&other, 8, 2, *n as u32, &[*n, 1]));
                }
                _ => {}
            }
        }
        if let Some(f) = f {
            w.deliver(f);
            unsettled += 1;
        }
        if unsettled >= c.burst {
            ex.settle().await?;
            unsettled = 0;
        }
    }
    // the network is in order: the end comes after everything else, and promptly
    match end {
        End::Reply => {
            w.deliver(attempts[total].0.clone());
        }
        End::WireErr => {
            w.deliver(frame(&ERROR_KEY, c.klen, sw, seq, &postcard::to_stdvec(&WireError::UnknownKey).unwrap()));
        }
        End::Close => {
            ex.settle().await?;
            client.close();
        }
    }
    ex.settle().await?;
    for _ in 0..4 {
        ex.advance(Duration::from_millis(150)).await?;
    }
    ensure!(ex.is_done(task), "discovery did not finish although the device answered");
    let r = out.borrow_mut().take();
    Ok((r, complete, !dead))
}

fn run(c: &Case) -> CaseResult {
    let mut a = Arena::default();
    let tys = build(&c.nodes, &mut a, 40);
    // 0..16 primitives, then nodes
    let pick = |i: u8| -> &'static NamedType {
        let n = tys.len() * 3 + PRIMS.len();
        let k = i as usize % n;
        if k < PRIMS.len() { PRIMS[k] } else { tys[(k - PRIMS.len()) % tys.len()] }
    };
    let mut used = HashSet::new();
    let mut paths = HashSet::new();
    let mut key = |path: u8, kind: &str, t: &'static NamedType, a: &mut Arena| {
        // endpoints and topics of either direction may share a path
        let p = if path % 5 == 0 { format!("s/{path}") } else { format!("{kind}/{path}") };
        reachable(t, &mut used);
        paths.insert(p.clone());
        (a.str(p.clone()), Key::for_owned_schema_path(&p, &OwnedNamedType::from(t)))
    };
    let mut eps = vec![];
    for (p, rq, rs) in &c.eps {
        let (p1, k1) = key(*p, "e", pick(*rq), &mut a);
        let (_, k2) = key(*p, "e", pick(*rs), &mut a);
        eps.push((p1, k1, k2));
    }
    let tin: Vec<_> = c.tin.iter().map(|(p, t)| key(*p, "ti", pick(*t), &mut a)).collect();
    let tout: Vec<_> = c.tout.iter().map(|(p, t)| key(*p, "to", pick(*t), &mut a)).collect();
    for e in &c.extra {
        let t = pick(*e);
        if !is_prim(t) {
            used.insert(*t);
        }
    }
    let mut list: Vec<NamedType> = used.into_iter().collect();
    list.sort_by_key(|t| format!("{t:?}"));
    for o in &c.omit {
        if !list.is_empty() {
            let i = *o as usize % list.len();
            list.remove(i);
        }
    }
    let list: Vec<&'static NamedType> = list.into_iter().map(|t| a.put(t)).collect();
    let dm = DeviceMap {
        types: a.put_all(list),
        endpoints: a.put_all(eps),
        topics_in: a.put_all(tin),
        topics_out: a.put_all(tout),
        min_key_len: kkind(c.klen),
    };
    let mut want_types: HashSet<OwnedNamedType> = builtin().into_iter().collect();
    want_types.extend(dm.types.iter().map(|t| OwnedNamedType::from(*t)));
    let resolvable = |p: &str, k: &Key| want_types.iter().any(|t| Key::for_owned_schema_path(p, t) == *k);
    let consistent = dm.endpoints.iter().all(|(p, a, b)| resolvable(p, a) && resolvable(p, b))
        && dm.topics_in.iter().chain(dm.topics_out.iter()).all(|(p, k)| resolvable(p, k));

    let total = dm.types.len() + dm.endpoints.len() + dm.topics_in.len() + dm.topics_out.len();
    let (results, n) = with_rt(if c.sched.len() % 4 == 3 { 3 << 56 | (c.sched[0] as u64) << 48 } else { 7 }, async {
        let ex = Exec::new(&c.sched);
        let w = Wire::new(usize::MAX);
        let (tx, rx) = w.parts();
        let client = HostClient::<WireError>::new_with_wire(tx, rx, MockSpawn::new(&ex), skind(c.slen), ERROR_PATH, 8);
        let mut results = vec![];
        results.push(discover(c, &c.faults, &ex, &w, &client, &dm, &c.end).await?);
        let mut n = 1;
        if c.again && !matches!(c.end, End::Close) {
            // a retry on a now lossless connection
            results.push(discover(c, &[], &ex, &w, &client, &dm, &End::Reply).await?);
            n = 2;
        }
        drop(client);
        ex.settle().await?;
        Ok::<_, String>((results, n))
    })?;
    let mut ok = false;
    for (i, (r, complete, prompt)) in results.into_iter().enumerate() {
        let end = if i == 0 { &c.end } else { &End::Reply };
        match r {
            None => return Err("no result".into()),
            Some(Ok(rpt)) => {
                ensure!(matches!(end, End::Reply), "discovery succeeded without a reply");
                ensure!(
                    complete,
                    "discovery succeeded although a schema message was lost or failed to send ({} of {} types reported)",
                    rpt.types.len(),
                    want_types.len()
                );
                ensure!(consistent, "discovery succeeded although an entry has no reported type");
                verify(&rpt, &dm, &want_types)?;
                ok = true;
            }
            Some(Err(e)) => {
                ensure!(
                    !(complete && prompt && consistent && matches!(end, End::Reply)),
                    "discovery failed ({e:?}) on a lossless, prompt connection (attempt {})",
                    i + 1
                );
                match (end, &e) {
                    (End::WireErr, SchemaError::Comms(_)) | (End::Close, SchemaError::Comms(_)) | (End::Reply, _) => {}
                    _ => return Err(format!("discovery ended with {e:?} instead of a communication error")),
                }
            }
        }
    }
    Ok(Outcome::new(total >= 4)
        .label(ok, "complete report")
        .label(!consistent, "inconsistent device")
        .label(!c.faults.is_empty(), "faults")
        .label(n == 2, "retried")
        .label(dm.topics_in.iter().any(|t| dm.topics_out.contains(t)), "a topic in both directions")
        .label(total > 30, "more than 30 items")
        .label(total > 256, "more than 256 items"))
}

fn verify(rpt: &SchemaReport, dm: &DeviceMap, want_types: &HashSet<OwnedNamedType>) -> Result<(), String> {
    for t in want_types {
        ensure!(rpt.types.contains(t), "the report lacks type {t}");
    }
    for t in &rpt.types {
        ensure!(want_types.contains(t), "the report invents type {t}");
    }
    let ty_ok = |p: &str, k: &Key, t: &OwnedNamedType| -> Result<(), String> {
        ensure!(Key::for_owned_schema_path(p, t) == *k, "the type reported for {p} does not reproduce its key");
        ensure!(want_types.contains(t), "the type reported for {p} is not a type of the device");
        Ok(())
    };
    let mut got: Vec<_> = rpt.endpoints.iter().map(|e| (e.path.clone(), e.req_key.to_bytes(), e.resp_key.to_bytes())).collect();
    let mut want: Vec<_> = dm.endpoints.iter().map(|e| (e.0.to_string(), e.1.to_bytes(), e.2.to_bytes())).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "endpoints {got:?}, the device has {want:?}");
    for e in &rpt.endpoints {
        ty_ok(&e.path, &e.req_key, &e.req_ty)?;
        ty_ok(&e.path, &e.resp_key, &e.resp_ty)?;
    }
    for (name, rep, list) in [("incoming", &rpt.topics_in, dm.topics_in), ("outgoing", &rpt.topics_out, dm.topics_out)] {
        let mut got: Vec<_> = rep.iter().map(|e| (e.path.clone(), e.key.to_bytes())).collect();
        let mut want: Vec<_> = list.iter().map(|e| (e.0.to_string(), e.1.to_bytes())).collect();
        got.sort();
        want.sort();
        ensure!(got == want, "{name} topics {got:?}, the device has {want:?}");
        for t in rep {
            ty_ok(&t.path, &t.key, &t.ty)?;
        }
    }
    Ok(())
}

pub fn c12(r: &mut Run) {
    r.assume("Frames arrive in order; discovery runs do not overlap on one connection; at most 60 schema messages arrive before the client is scheduled.");
    r.assume("Message types are those for which Schema is implemented (not usize, isize or raw byte-array schemas).");
    r.check("discovery", "at least four schema items", 250_000, 3_000_000, || cases(1..10, [0..8, 0..8, 0..8]), run);
    r.check(
        "large",
        "devices with hundreds of endpoints and topics; at least four schema items",
        12_000,
        200_000,
        || prop_oneof![
            cases(1..10, [0..300, 0..8, 0..8]),
            cases(1..10, [0..8, 0..300, 0..40]),
            cases(1..10, [0..8, 0..40, 0..300]),
            cases(1..10, [60..140, 60..140, 60..140]),
            cases(40..200, [0..200, 0..20, 0..20]),
        ],
        run,
    );
}

fn cases(types: std::ops::Range<usize>, n: [std::ops::Range<usize>; 3]) -> BoxedStrategy<Case> {
    let fault = prop_oneof![
        2 => (any::<u16>(), any::<bool>()).prop_map(|(a, b)| Fault::SendErr(a, b)),
        3 => any::<u16>().prop_map(Fault::Lose),
        1 => any::<u16>().prop_map(Fault::Cut),
        1 => (any::<u16>(), prop_oneof![3 => 1u16..95, 1 => 105u16..400]).prop_map(|(a, b)| Fault::Gap(a, b)),
        1 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Fault::Noise(a, b)),
    ];
    (
        (
            prop_oneof![4 => proptest::collection::vec(node(), types), 1 => proptest::collection::vec(node(), 10..30)],
            proptest::collection::vec((0u8..30, any::<u8>(), any::<u8>()), n[0].clone()),
            proptest::collection::vec((0u8..30, any::<u8>()), n[1].clone()),
            proptest::collection::vec((0u8..30, any::<u8>()), n[2].clone()),
            proptest::collection::vec(any::<u8>(), 0..4),
            prop_oneof![4 => Just(vec![]), 1 => proptest::collection::vec(any::<u8>(), 1..3)],
        ),
        (
            klen(),
            slen(),
            prop_oneof![2 => Just(vec![]), 3 => proptest::collection::vec(fault, 1..3)],
            prop_oneof![10 => Just(End::Reply), 1 => Just(End::WireErr), 1 => Just(End::Close)],
            prop_oneof![Just(1usize), 2usize..20, Just(60usize)],
            proptest::collection::vec(any::<u8>(), 0..20),
            any::<bool>(),
        ),
    )
        .prop_map(|((nodes, eps, tin, tout, extra, omit), (klen, slen, faults, end, burst, sched, again))| Case {
            nodes, eps, tin, tout, extra, omit, klen, slen, faults, end, burst, sched, again,
        })
        .boxed()
}
