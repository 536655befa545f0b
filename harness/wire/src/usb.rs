//! C21: the nusb transport over a simulated USB bus.

use std::{cell::RefCell, rc::Rc};

use nusb::{
    sim::{self, DevDesc, EpDesc, IfDesc, InEv},
    transfer::{EndpointType, TransferError},
};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, frames, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::util::*;

/// documented as constants of the transport
const MAX_TRANSFER: usize = 1024;
const MAX_RETRIES: usize = 10;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Kind {
    Cancelled,
    Stall,
    Disconnected,
    Fault,
    Unknown,
}
impl Kind {
    fn real(self) -> TransferError {
        match self {
            Kind::Cancelled => TransferError::Cancelled,
            Kind::Stall => TransferError::Stall,
            Kind::Disconnected => TransferError::Disconnected,
            Kind::Fault => TransferError::Fault,
            Kind::Unknown => TransferError::Unknown,
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Ev {
    Topic { klen: usize, slen: usize, seq: u32, len: usize },
    Reply { n: u8, klen: usize },
    /// a transfer that is not a frame
    Junk(Vec<u8>),
    Empty,
    Err(Kind),
    /// the same recoverable error several times in a row
    Errs { n: u8, unknown: bool },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    /// queue device events, then let everything settle
    In(Vec<Ev>),
    /// body lengths: 0 = relative to a multiple of the packet size
    Out(Vec<(u16, bool)>),
    /// allow `n` OUT transfers to complete
    Permit(u8),
    ClearHaltFails,
    Request(u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    mps: usize,
    in_mps: usize,
    out_ep: u8,
    in_ep: u8,
    /// endpoints that must be ignored: (interrupt?, address, mps, before the bulk pair?)
    extra: Vec<(bool, u8, u16, bool)>,
    steps: Vec<Step>,
    /// the n-th OUT transfer fails
    out_err: Option<(u8, Kind)>,
    limited: bool,
    seqw: usize,
    depth: u8,
    rng: u64,
}

pub fn ep(address: u8, ty: EndpointType, mps: usize) -> EpDesc {
    EpDesc { address, ty, mps }
}

fn run21(c: &Case) -> CaseResult {
    with_rt(c.rng, async {
        let mut eps = vec![];
        for (i, a, m, before) in &c.extra {
            if *before {
                eps.push(ep(*a, if *i { EndpointType::Interrupt } else { EndpointType::Isochronous }, *m as usize));
            }
        }
        eps.push(ep(c.out_ep & 0x0f, EndpointType::Bulk, c.mps));
        eps.push(ep(c.in_ep | 0x80, EndpointType::Bulk, c.in_mps));
        for (i, a, m, before) in &c.extra {
            if !*before {
                eps.push(ep(*a, if *i { EndpointType::Interrupt } else { EndpointType::Isochronous }, *m as usize));
            }
        }
        let st = sim::install(vec![DevDesc {
            serial: Some("1".into()), product: None, vid: 1, pid: 2, open_fails: false, claim_fails: false,
            ifs: vec![IfDesc { number: 0, class: 0xff, subclass: 0, alts: vec![eps] }],
        }], false);
        {
            let mut s = st.lock().unwrap();
            if c.limited {
                s.out_permits = 0;
            }
            if let Some((n, k)) = c.out_err {
                s.out_results = (0..n).map(|_| Ok(())).chain([Err(k.real())]).collect();
            }
        }
        let client = Client::try_new_raw_nusb(|d| d.serial_number() == Some("1"), ERR_PATH, c.depth.max(1) as usize, skind(c.seqw))
            .map_err(|e| format!("could not connect: {e}"))?;
        {
            let mut q = st.lock().unwrap().queues.clone();
            q.sort();
            let mut e = vec![(0, c.out_ep & 0x0f), (0, c.in_ep | 0x80)];
            e.sort();
            ensure_eq!(q, e, "endpoint queues opened");
        }
        let Ok(mut sub) = client.subscribe_exclusive_raw(topic_key(), 8192).await else {
            return Err("subscribe on a fresh client failed".into());
        };
        settle().await;

        // model
        let mut open = true;
        let mut errs = 0usize;
        let mut exp: Vec<Dec> = vec![];
        let mut halt_fails = false;
        let mut want_out: Vec<Vec<u8>> = vec![]; // frames handed to the client, in order
        let mut permits: Option<usize> = c.limited.then_some(0);
        let mut reqs: Vec<(u32, Slot, Option<(Res, usize)>)> = vec![];
        let mut out_n = 0u32;
        let (mut recovered, mut zlp, mut gaveup) = (0, 0, false);
        let pubs: Rc<RefCell<Vec<bool>>> = Default::default();
        let mut pubs_n = 0;
        // OUT transfers the frames handed over so far must turn into
        let transfers = |want: &[Vec<u8>]| -> Vec<Vec<u8>> {
            let mut v = vec![];
            for f in want {
                v.push(f.clone());
                if f.len() % c.mps == 0 {
                    v.push(vec![]);
                }
            }
            v
        };
        let mut last = 0;
        for (si, step) in c.steps.iter().enumerate() {
            last = si;
            match step {
                Step::In(evs) => {
                    let mut real = vec![];
                    for ev in evs {
                        match ev {
                            Ev::Topic { klen, slen, seq, len } => {
                                let mut f = frames::frame(&topic_key().to_bytes(), *klen, *slen, *seq, &body(*len, 2));
                                f.truncate(MAX_TRANSFER);
                                if open {
                                    exp.push(frames::decode(&f).unwrap());
                                    errs = 0;
                                }
                                real.push(InEv::Data(f));
                            }
                            Ev::Reply { n, klen } => {
                                let b = body(*n as usize, 2);
                                real.push(InEv::Data(frames::frame(&resp_key().to_bytes(), *klen, c.seqw, *n as u32, &b)));
                                if open {
                                    errs = 0;
                                    // only requests already on the wire can be answered
                                    for r in reqs.iter_mut().filter(|r| r.0 == *n as u32 && r.2.is_none()) {
                                        r.2 = Some((Res::Ok(b.clone()), si));
                                    }
                                }
                            }
                            Ev::Junk(b) => {
                                let mut b = b.clone();
                                if let Some(x) = b.first_mut() {
                                    *x |= 1; // unknown version: never a frame
                                }
                                if open { errs = 0; }
                                real.push(InEv::Data(b));
                            }
                            Ev::Empty => {
                                if open { errs = 0; }
                                real.push(InEv::Data(vec![]));
                            }
                            Ev::Err(k) => {
                                if open {
                                    errs += 1;
                                    let ok = matches!(k, Kind::Stall | Kind::Unknown) && errs <= MAX_RETRIES && !halt_fails;
                                    if ok { recovered += 1 } else { open = false; gaveup |= errs > MAX_RETRIES }
                                }
                                real.push(InEv::Err(k.real()));
                            }
                            Ev::Errs { n, unknown } => {
                                let k = if *unknown { Kind::Unknown } else { Kind::Stall };
                                for _ in 0..*n {
                                    if open {
                                        errs += 1;
                                        if errs <= MAX_RETRIES && !halt_fails { recovered += 1 } else { open = false; gaveup |= errs > MAX_RETRIES }
                                    }
                                    real.push(InEv::Err(k.real()));
                                }
                            }
                        }
                    }
                    sim::push_in(&st, real);
                }
                Step::Out(v) => {
                    for (n, rel) in v {
                        let hdr = 1 + 8 + c.seqw; // upper bound; the key length may shrink below
                        let len = if *rel {
                            // aim at a multiple of the packet size, give or take one
                            let m = c.mps * (1 + (*n as usize / 3) % 4);
                            (m + *n as usize % 3).saturating_sub(1 + hdr)
                        } else if *n >= 65_000 {
                            // at and past 64 KiB
                            match *n % 4 {
                                0 => 65_536 - hdr,
                                1 => 65_536 - hdr + *n as usize / 4 % 3 - 1,
                                _ => 65_535 + (*n as usize - 65_000) / 8,
                            }
                        } else {
                            *n as usize
                        };
                        let f = out_frame(c.seqw, out_n, body(len, 2));
                        out_n += 1;
                        let (cl, p) = (client.clone(), pubs.clone());
                        pubs_n += 1;
                        // the key length in use at the moment of sending is read off the wire below
                        want_out.push(f.to_bytes());
                        tokio::task::spawn_local(async move {
                            let ok = cl.publish_raw(f).await.is_ok();
                            p.borrow_mut().push(ok);
                        });
                        // one at a time, so that the order is the publish order
                        settle().await;
                    }
                }
                Step::Permit(n) => {
                    if let Some(p) = permits.as_mut() {
                        *p += *n as usize;
                        sim::permit_out(&st, *n as usize);
                    }
                }
                Step::ClearHaltFails => {
                    halt_fails = true;
                    st.lock().unwrap().clear_halt_fails = true;
                }
                Step::Request(n) => {
                    // requests need free passage to reach the wire
                    if c.limited || c.out_err.is_some() || reqs.iter().any(|r| r.0 == *n as u32) { continue; }
                    let s = request(&client, c.seqw, *n as u32);
                    settle().await;
                    if open {
                        want_out.push(frames::frame(&req_key().to_bytes(), 8, c.seqw, *n as u32, &[9]));
                        reqs.push((*n as u32, s, None));
                    } else {
                        ensure!(*s.borrow() == Some(Res::Closed), "request on a dead connection: {:?}", s.borrow());
                    }
                }
            }
            settle().await;
            // ---- OUT so far
            let (log, misuse) = { let s = st.lock().unwrap(); (s.out_log.clone(), s.misuse.clone()) };
            ensure!(misuse.is_empty(), "nusb misuse: {misuse:?}");
            // keys on the wire may have been shortened after a response: normalise by rewriting
            let mut norm = vec![];
            let mut wi = 0;
            let mut want_norm: Vec<Vec<u8>> = vec![];
            for t in &log {
                if t.is_empty() { norm.push(vec![]); continue; }
                let Some((k, _, b)) = frames::decode(t) else { return Err("an OUT transfer is not a frame".into()) };
                let Some(w) = want_out.get(wi) else { return Err("more frames on the wire than sent".into()) };
                let (wk, ws, wb) = frames::decode(w).unwrap();
                let wk8: [u8; 8] = wk.try_into().unwrap();
                ensure!(frames::key_is(&k, &wk8) && b == wb, "OUT transfer {wi} is not the frame sent ({} bytes, expected {})", t.len(), w.len());
                want_norm.push(frames::frame(&wk8, k.len(), ws.0, ws.1, &wb));
                wi += 1;
                norm.push(t.clone());
            }
            let full = transfers(&want_norm);
            ensure!(norm.len() <= full.len() && norm == full[..norm.len()], "OUT transfers {:?}, expected {:?} (packet size {})",
                norm.iter().map(|x| x.len()).collect::<Vec<_>>(), full.iter().map(|x| x.len()).collect::<Vec<_>>(), c.mps);
            zlp = norm.iter().filter(|x| x.is_empty()).count();
            // did an OUT transfer fail?
            let done = permits.unwrap_or(usize::MAX).min(norm.len());
            if let Some((n, _)) = c.out_err {
                if open && done > n as usize {
                    open = false;
                }
            }
            // every frame handed over is on the wire, complete with its terminator, when nothing holds it up
            if open && permits.is_none() {
                ensure!(norm.len() == full.len() && wi == want_out.len(), "{wi} of {} frames on the wire, {} of {} transfers", want_out.len(), norm.len(), full.len());
            }
            ensure!(client.is_closed() != open, "client closed: {}, expected {} (consecutive errors {errs})", client.is_closed(), !open);
            if !open { break; }
        }
        // ---- deliveries
        let mut got = vec![];
        loop {
            match tokio::time::timeout(std::time::Duration::from_millis(5), sub.recv()).await {
                Ok(Some(f)) => got.push(undo(&f)),
                Ok(None) => { ensure!(!open, "subscription ended on an open connection"); break }
                Err(_) => { ensure!(open, "subscription still waits after the connection died"); break }
            }
        }
        // an OUT failure closes the client at the same moment data may be arriving: only a prefix is due
        ensure!(got.len() == exp.len(), "{} transfers delivered, {} received", got.len(), exp.len());
        for (i, (g, e)) in got.iter().zip(&exp).enumerate() {
            ensure!(g == e, "transfer {i} delivered modified or out of order");
        }
        for (n, s, e) in &reqs {
            // a reply in the same breath as the end of the connection may lose the race
            if !open && e.as_ref().is_some_and(|e| e.1 == last) && *s.borrow() == Some(Res::Closed) {
                continue;
            }
            let want = e.clone().map(|e| e.0).or((!open).then_some(Res::Closed));
            ensure!(*s.borrow() == want, "request {n}: {:?}, expected {want:?}", s.borrow());
        }
        if !open {
            ensure!(client.publish_raw(out_frame(1, 0, vec![])).await.is_err(), "publish succeeds on a dead connection");
            let n = st.lock().unwrap().out_log.len();
            settle().await;
            ensure!(st.lock().unwrap().out_log.len() == n, "transfers submitted after the connection died");
            ensure!(pubs.borrow().len() == pubs_n, "a publish still hangs on a dead connection");
            let s = st.lock().unwrap();
            ensure!(s.in_dropped && s.out_dropped, "endpoint queues still held after the connection died");
        }
        Ok(Outcome::new(exp.len() + want_out.len() >= 2 && (recovered > 0 || zlp > 0 || !open))
            .label(recovered > 0, "recovered from errors").label(zlp > 0, "empty transfer needed").label(!open, "connection died")
            .label(gaveup, "gave up after persistent errors").label(c.limited, "slow OUT endpoint").label(c.out_err.is_some(), "OUT error")
            .label(errs > 0 && open, "error just before the end"))
    })
}

pub fn c21(r: &mut Run) {
    r.assume("The USB bus is simulated (stand-in for nusb): an erroring IN endpoint delivers nothing until its pending transfers are cancelled and its halt is cleared; a transfer completes the oldest pending request and is at most 1024 bytes long.");
    r.assume("The interface has one bulk IN and one bulk OUT endpoint besides non-bulk ones.");
    r.assume("Documented limits of the transport: ten consecutive IN errors are tolerated.");
    let kind = || prop_oneof![6 => Just(Kind::Stall), 4 => Just(Kind::Unknown), 1 => Just(Kind::Cancelled), 1 => Just(Kind::Disconnected), 1 => Just(Kind::Fault)];
    let case = move || {
        let ev = prop_oneof![
            10 => (frames::klen(), frames::slen(), any::<u32>(), prop_oneof![4 => 0usize..20, 1 => 40usize..80, 1 => 0usize..1011, 1 => 1000usize..1024]).prop_map(|(klen, slen, seq, len)| Ev::Topic { klen, slen, seq, len }),
            2 => (0u8..4, frames::klen()).prop_map(|(n, klen)| Ev::Reply { n, klen }),
            1 => prop::collection::vec(any::<u8>(), 1..20).prop_map(Ev::Junk),
            1 => Just(Ev::Empty),
            3 => kind().prop_map(Ev::Err),
            1 => (prop_oneof![1u8..8, 8u8..13], any::<bool>()).prop_map(|(n, unknown)| Ev::Errs { n, unknown }),
        ];
        let step = prop_oneof![
            5 => prop::collection::vec(ev, 1..9).prop_map(Step::In),
            4 => prop::collection::vec((prop_oneof![60 => 0u16..40, 60 => 0u16..1500, 1 => 65_000u16..], any::<bool>()), 1..4).prop_map(Step::Out),
            2 => (1u8..6).prop_map(Step::Permit),
            1 => (0u8..4).prop_map(Step::Request),
        ];
        (
            prop_oneof![Just(8usize), Just(16), Just(32), Just(64), Just(512)],
            prop_oneof![Just(8usize), Just(64), Just(512)],
            1u8..15,
            1u8..15,
            prop::collection::vec((any::<bool>(), any::<u8>(), prop_oneof![Just(8u16), Just(1), Just(24), Just(1023)], any::<bool>()), 0..3),
            vcommon::hist(step, 1..9),
            prop::option::weighted(0.2, (0u8..6, kind())),
            prop::bool::weighted(0.25),
            (prop::bool::weighted(0.06), 0usize..9),
            (frames::slen(), 1u8..9, any::<u64>()),
        )
            .prop_map(|(mps, in_mps, out_ep, in_ep, extra, mut steps, out_err, limited, (hf, at), (seqw, depth, rng))| {
                if hf {
                    let at = at.min(steps.len());
                    steps.insert(at, Step::ClearHaltFails);
                }
                Case { mps, in_mps, out_ep, in_ep, extra, steps, out_err, limited, seqw, depth, rng }
            })
    };
    r.check(
        "transfers",
        "histories of published frames (lengths around multiples of the packet size), device transfers (frames, junk, empty), stalls and other errors singly and in runs, failing halt clearing, OUT failures and slow OUT completion; non-trivial = two or more frames and a recovery, an empty transfer or a failure",
        300_000,
        12_000_000,
        case,
        run21,
    );
}
