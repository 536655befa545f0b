//! C22: the WebUSB transport over a simulated browser.

use std::{cell::RefCell, rc::Rc, sync::{Arc, Mutex}};

use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, frames, proptest::prelude::*, CaseResult, Outcome, Run};
use web_sys::{
    sim::{self, Dev, Handle, InEv, OutEv, World},
    UsbTransferStatus,
};

use crate::util::*;

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum Fail {
    Stall,
    Babble,
    Invalid,
    Reject,
    /// OUT only: the call throws
    Throw,
}
impl Fail {
    fn status(self) -> Option<UsbTransferStatus> {
        Some(match self {
            Fail::Stall => UsbTransferStatus::Stall,
            Fail::Babble => UsbTransferStatus::Babble,
            Fail::Invalid => UsbTransferStatus::__Invalid,
            _ => return None,
        })
    }
    fn out(self) -> OutEv {
        match self.status() {
            Some(s) => OutEv::Status(s),
            None if self == Fail::Throw => OutEv::Throw,
            None => OutEv::Reject,
        }
    }
    fn inn(self) -> InEv {
        match self.status() {
            Some(s) => InEv::Status(s),
            None => InEv::Reject,
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Ev {
    Topic { klen: usize, slen: usize, seq: u32, len: usize },
    Reply { n: u8, klen: usize },
    Junk(Vec<u8>),
    Empty,
    NoData,
    Err(Fail),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    In(Vec<Ev>),
    /// body lengths; true = relative to a multiple of the packet size
    Out(Vec<(u16, bool)>),
    Permit(u8),
    Request(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    mps: usize,
    out_ep: u8,
    in_ep: u8,
    steps: Vec<Step>,
    out_err: Option<(u8, Fail)>,
    limited: bool,
    seqw: usize,
    depth: u8,
    rng: u64,
}

/// What a device with this packet size receives: frames end with a short packet
fn device_frames(outs: &[Vec<u8>], mps: usize) -> (Vec<Vec<u8>>, Vec<u8>) {
    let (mut fs, mut cur) = (vec![], vec![]);
    for t in outs {
        cur.extend_from_slice(t);
        if t.len() % mps != 0 || t.is_empty() {
            let f = std::mem::take(&mut cur);
            if !f.is_empty() {
                fs.push(f);
            }
        }
    }
    (fs, cur)
}
fn same(got: &[u8], want: &[u8]) -> bool {
    let (Some((k, s, b)), Some((wk, ws, wb))) = (frames::decode(got), frames::decode(want)) else { return false };
    let Ok(wk8): Result<[u8; 8], _> = wk.try_into() else { return false };
    frames::key_is(&k, &wk8) && s == ws && b == wb
}

fn run22(c: &Case) -> CaseResult {
    with_rt(c.rng, async {
        let dev: Handle = Arc::new(Mutex::new(Dev::new(7, 0)));
        {
            let mut d = dev.lock().unwrap();
            if c.limited {
                d.out_permits = 0;
            }
            if let Some((n, k)) = c.out_err {
                d.out_results = (0..n).map(|_| OutEv::Ok).chain([k.out()]).collect();
            }
        }
        sim::install(World { paired: vec![dev.clone()], on_request: None, requests: vec![] });
        let client = Client::try_new_webusb(7, 2, 4096, c.in_ep, c.out_ep, ERR_PATH, c.depth.max(1) as usize, skind(c.seqw))
            .await
            .map_err(|e| format!("could not connect: {e}"))?;
        let Ok(mut sub) = client.subscribe_exclusive_raw(topic_key(), 8192).await else {
            return Err("subscribe on a fresh client failed".into());
        };
        settle().await;

        let mut open = true;
        let mut exp: Vec<Dec> = vec![];
        let mut want: Vec<Vec<u8>> = vec![];
        let mut reqs: Vec<(u32, Slot, Option<(Res, usize)>)> = vec![];
        let mut out_n = 0u32;
        let (mut full, mut in_died, mut out_died) = (0, false, false);
        let pubs: Rc<RefCell<Vec<bool>>> = Default::default();
        let mut pubs_n = 0;
        let mut last = 0;
        for (si, step) in c.steps.iter().enumerate() {
            last = si;
            match step {
                Step::In(evs) => {
                    let mut d = dev.lock().unwrap();
                    for ev in evs {
                        d.in_queue.push_back(match ev {
                            Ev::Topic { klen, slen, seq, len } => {
                                let f = frames::frame(&topic_key().to_bytes(), *klen, *slen, *seq, &body(*len, 2));
                                if open {
                                    exp.push(frames::decode(&f).unwrap());
                                }
                                InEv::Data(f)
                            }
                            Ev::Reply { n, klen } => {
                                let b = body(*n as usize, 2);
                                if open {
                                    for r in reqs.iter_mut().filter(|r| r.0 == *n as u32 && r.2.is_none()) {
                                        r.2 = Some((Res::Ok(b.clone()), si));
                                    }
                                }
                                InEv::Data(frames::frame(&resp_key().to_bytes(), *klen, c.seqw, *n as u32, &b))
                            }
                            Ev::Junk(b) => {
                                let mut b = b.clone();
                                if let Some(x) = b.first_mut() {
                                    *x |= 1;
                                }
                                InEv::Data(b)
                            }
                            Ev::Empty => InEv::Data(vec![]),
                            Ev::NoData => InEv::NoData,
                            Ev::Err(k) => {
                                open = false;
                                in_died = true;
                                k.inn()
                            }
                        });
                    }
                    d.pump();
                    drop(d);
                    // each completed transfer is followed by another one
                    for _ in 0..=evs.len() {
                        settle().await;
                        dev.lock().unwrap().pump();
                    }
                }
                Step::Out(v) => {
                    for (n, rel) in v {
                        let hdr = 1 + 8 + c.seqw;
                        let len = if *rel {
                            let m = c.mps * (1 + (*n as usize / 3) % 4);
                            (m + *n as usize % 3).saturating_sub(1 + hdr)
                        } else if *n >= 65_000 {
                            // at and past 64 KiB
                            match *n % 4 {
                                0 => 65_536 - hdr,
                                1 => 65_536 - hdr + *n as usize / 4 % 3 - 1,
                                _ => 65_535 + (*n as usize - 65_000) / 8,
                            }
                        } else {
                            *n as usize
                        };
                        let f = out_frame(c.seqw, out_n, body(len, 2));
                        out_n += 1;
                        let (cl, p) = (client.clone(), pubs.clone());
                        pubs_n += 1;
                        want.push(f.to_bytes());
                        tokio::task::spawn_local(async move {
                            let ok = cl.publish_raw(f).await.is_ok();
                            p.borrow_mut().push(ok);
                        });
                        settle().await;
                    }
                }
                Step::Permit(n) => {
                    if c.limited {
                        let mut d = dev.lock().unwrap();
                        d.out_permits += *n as usize;
                        d.pump();
                    }
                }
                Step::Request(n) => {
                    if c.limited || c.out_err.is_some() || reqs.iter().any(|r| r.0 == *n as u32) {
                        continue;
                    }
                    let s = request(&client, c.seqw, *n as u32);
                    settle().await;
                    if open {
                        want.push(frames::frame(&req_key().to_bytes(), 8, c.seqw, *n as u32, &[9]));
                        reqs.push((*n as u32, s, None));
                    } else {
                        ensure!(*s.borrow() == Some(Res::Closed), "request on a dead connection: {:?}", s.borrow());
                    }
                }
            }
            settle().await;
            let (outs, failed) = {
                let d = dev.lock().unwrap();
                ensure!(d.outs.iter().all(|o| o.0 == c.out_ep), "OUT transfers on endpoints {:?}, expected {}", d.outs.iter().map(|o| o.0).collect::<Vec<_>>(), c.out_ep);
                ensure!(d.in_eps.iter().all(|e| *e == c.in_ep), "IN transfers on endpoints {:?}, expected {}", d.in_eps, c.in_ep);
                ensure!(d.in_lens.iter().all(|l| *l == 4096), "IN transfers of length {:?}, expected 4096", d.in_lens);
                ensure!(d.in_waiting.len() <= 1 || !open, "several IN transfers pending");
                // has the failing transfer completed?
                let failed = match c.out_err {
                    Some((_, Fail::Throw)) => d.out_results.is_empty(),
                    Some((_, k)) => d.out_results.is_empty() && !d.out_waiting.iter().any(|w| w.1 == k.out()),
                    None => false,
                };
                (d.outs.iter().map(|o| o.1.clone()).collect::<Vec<_>>(), failed)
            };
            let (got, rest) = device_frames(&outs, c.mps);
            let n_full = outs.iter().filter(|t| !t.is_empty() && t.len() % c.mps == 0).count();
            full = full.max(n_full);
            ensure!(got.len() <= want.len(), "the device received {} frames, {} were sent", got.len(), want.len());
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                ensure!(same(g, w), "frame {i} reaches the device as {} bytes, {} were sent (transfers {:?}, packet size {})", g.len(), w.len(),
                    outs.iter().map(|x| x.len()).collect::<Vec<_>>(), c.mps);
            }
            if failed {
                open = false;
                out_died = true;
            }
            if open && !c.limited {
                ensure!(rest.is_empty() && got.len() == want.len(), "{} of {} sent frames complete at the device, {} bytes of another are not delimited (transfers {:?}, packet size {})",
                    got.len(), want.len(), rest.len(), outs.iter().map(|x| x.len()).collect::<Vec<_>>(), c.mps);
            }
            ensure!(client.is_closed() != open, "client closed: {}, expected {}", client.is_closed(), !open);
            if !open {
                break;
            }
        }
        let mut got = vec![];
        loop {
            match tokio::time::timeout(std::time::Duration::from_millis(5), sub.recv()).await {
                Ok(Some(f)) => got.push(undo(&f)),
                Ok(None) => {
                    ensure!(!open, "subscription ended on an open connection");
                    break;
                }
                Err(_) => {
                    ensure!(open, "subscription still waits after the connection died");
                    break;
                }
            }
        }
        ensure!(got.len() == exp.len(), "{} transfers delivered, {} received", got.len(), exp.len());
        for (i, (g, e)) in got.iter().zip(&exp).enumerate() {
            ensure!(g == e, "transfer {i} delivered modified or out of order");
        }
        for (n, s, e) in &reqs {
            if !open && e.as_ref().is_some_and(|e| e.1 == last) && *s.borrow() == Some(Res::Closed) {
                continue;
            }
            let w = e.clone().map(|e| e.0).or((!open).then_some(Res::Closed));
            ensure!(*s.borrow() == w, "request {n}: {:?}, expected {w:?}", s.borrow());
        }
        if !open {
            ensure!(client.publish_raw(out_frame(1, 0, vec![])).await.is_err(), "publish succeeds on a dead connection");
            let n = dev.lock().unwrap().outs.len();
            {
                let mut d = dev.lock().unwrap();
                d.out_permits = usize::MAX;
                d.pump();
            }
            settle().await;
            ensure!(dev.lock().unwrap().outs.len() <= n + 1, "transfers submitted after the connection died");
            ensure!(pubs.borrow().len() == pubs_n, "a publish still hangs on a dead connection");
        }
        Ok(Outcome::new(exp.len() + want.len() >= 2 && (full > 0 || !open))
            .label(full > 0, "frame that fills its packets")
            .label(in_died, "IN failure")
            .label(out_died, "OUT failure")
            .label(c.limited, "slow OUT endpoint")
            .label(!exp.is_empty(), "received frames"))
    })
}

// ---- choosing the device

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CaseSel {
    vid: u16,
    /// vendor ids of the paired devices
    paired: Vec<u16>,
    asks: Option<u16>,
    /// device (index; paired.len() = the one asked for) that fails to open / claim
    open_fails: Option<u8>,
    claim_fails: Option<u8>,
    interface: u8,
    len: u32,
    in_ep: u8,
    out_ep: u8,
    rng: u64,
}
fn run_sel(c: &CaseSel) -> CaseResult {
    with_rt(c.rng, async {
        let mk = |vid: u16, i: usize| -> Handle {
            let mut d = Dev::new(vid, i);
            d.open_fails = c.open_fails == Some(i as u8);
            d.claim_fails = c.claim_fails == Some(i as u8);
            Arc::new(Mutex::new(d))
        };
        let mut all: Vec<Handle> = c.paired.iter().enumerate().map(|(i, v)| mk(*v, i)).collect();
        let paired = all.clone();
        let asked = c.asks.map(|_| mk(c.vid, c.paired.len()));
        all.extend(asked.clone());
        sim::install(World { paired, on_request: asked, requests: vec![] });
        let known = c.paired.iter().position(|v| *v == c.vid);
        let want = known
            .or(c.asks.map(|_| c.paired.len()))
            .filter(|i| c.open_fails != Some(*i as u8) && c.claim_fails != Some(*i as u8));
        let r = Client::try_new_webusb(c.vid, c.interface, c.len, c.in_ep, c.out_ep, ERR_PATH, 4, skind(1)).await;
        ensure!(r.is_ok() == want.is_some(), "connecting gave {:?}, expected device {want:?}", r.as_ref().err());
        let reqs = sim::WORLD.with(|w| w.borrow().requests.clone());
        if known.is_some() {
            ensure!(reqs.is_empty(), "asked the user for a device although a matching one is paired");
        } else {
            ensure_eq!(reqs.len(), 1, "requests for a device");
            let v: serde_json::Value = serde_json::from_str(&reqs[0]).map_err(|e| format!("filter: {e}"))?;
            ensure_eq!(v, serde_json::json!({"filters": [{"vendorId": c.vid}]}), "device filter");
        }
        let Ok(client) = r else { return Ok(Outcome::new(false).label(true, "refused")) };
        settle().await;
        let ok = client.publish_raw(out_frame(1, 0, vec![1])).await.is_ok();
        settle().await;
        ensure!(ok && !client.is_closed(), "fresh connection does not work");
        for (i, d) in all.iter().enumerate() {
            let d = d.lock().unwrap();
            if Some(i) == want {
                ensure_eq!(d.opened, 1, "times the device was opened");
                ensure_eq!(d.claimed, vec![c.interface], "interfaces claimed");
                ensure!(!d.in_eps.is_empty() && d.in_eps.iter().all(|e| *e == c.in_ep), "IN endpoint {:?}, expected {}", d.in_eps, c.in_ep);
                ensure!(d.in_lens.iter().all(|l| *l == c.len), "IN length {:?}, expected {}", d.in_lens, c.len);
                ensure!(d.outs.first().is_some_and(|o| o.0 == c.out_ep), "OUT transfers {:?}, expected on {}", d.outs, c.out_ep);
            } else {
                ensure!(d.opened == 0 && d.in_eps.is_empty() && d.outs.is_empty(), "device {i} used, expected {want:?}");
            }
        }
        Ok(Outcome::new(all.len() > 1).label(known.is_none(), "asked the user"))
    })
}

pub fn c22(r: &mut Run) {
    r.assume("The browser is simulated (stand-ins for web-sys, js-sys, wasm-bindgen, wasm-bindgen-futures and gloo, selected at build time); the transport is built natively through the guarded hook.");
    r.assume("The device sees an OUT transfer as packets of its endpoint's size (8, 16, 32, 64 or 512); a short or empty packet ends a frame and empty frames are ignored, as the embassy-usb servers of this repository do.");
    r.assume("An IN transfer returns one whole frame (the configured maximum length is not exceeded).");
    let fail = || prop_oneof![Just(Fail::Stall), Just(Fail::Babble), Just(Fail::Invalid), Just(Fail::Reject)];
    let case = move || {
        let ev = prop_oneof![
            10 => (frames::klen(), frames::slen(), any::<u32>(), prop_oneof![4 => 0usize..20, 1 => 40usize..80, 1 => 0usize..2000, 1 => 4070usize..4084]).prop_map(|(klen, slen, seq, len)| Ev::Topic { klen, slen, seq, len }),
            2 => (0u8..4, frames::klen()).prop_map(|(n, klen)| Ev::Reply { n, klen }),
            1 => prop::collection::vec(any::<u8>(), 1..20).prop_map(Ev::Junk),
            1 => Just(Ev::Empty),
            1 => Just(Ev::NoData),
            1 => fail().prop_map(Ev::Err),
        ];
        let step = prop_oneof![
            5 => prop::collection::vec(ev, 1..9).prop_map(Step::In),
            4 => prop::collection::vec((prop_oneof![60 => 0u16..40, 60 => 0u16..1500, 1 => 65_000u16..], any::<bool>()), 1..4).prop_map(Step::Out),
            2 => (1u8..6).prop_map(Step::Permit),
            1 => (0u8..4).prop_map(Step::Request),
        ];
        (
            prop_oneof![Just(8usize), Just(16), Just(32), Just(64), Just(512)],
            1u8..15,
            1u8..15,
            vcommon::hist(step, 1..9),
            prop::option::weighted(0.2, (0u8..6, prop_oneof![4 => fail(), 1 => Just(Fail::Throw)])),
            prop::bool::weighted(0.25),
            (frames::slen(), 1u8..9, any::<u64>()),
        )
            .prop_map(|(mps, out_ep, in_ep, steps, out_err, limited, (seqw, depth, rng))| Case { mps, out_ep, in_ep, steps, out_err, limited, seqw, depth, rng })
    };
    r.check(
        "transfers",
        "histories of published frames (lengths around multiples of the packet size), received transfers (frames, junk, empty), failing transfers in both directions and slow OUT completion; non-trivial = two or more frames and a frame that fills its packets or a failure",
        300_000,
        12_000_000,
        case,
        run22,
    );
    r.check(
        "select",
        "paired devices of several vendors and the user's choice: the first paired device of the vendor is used, else the one asked for, else an error; non-trivial = a connection with several devices present",
        20_000,
        400_000,
        || {
            let vid = || prop_oneof![0u16..4, any::<u16>()];
            (vid(), prop_oneof![15 => prop::collection::vec(vid(), 0..5), 1 => prop::collection::vec(vid(), 5..40)], prop::option::of(vid()), prop::option::weighted(0.15, 0u8..5), prop::option::weighted(0.15, 0u8..5),
                any::<u8>(), 64u32..5000, (1u8..16, 1u8..16), any::<u64>())
                .prop_map(|(vid, paired, asks, open_fails, claim_fails, interface, len, (in_ep, out_ep), rng)| CaseSel { vid, paired, asks, open_fails, claim_fails, interface, len, in_ep, out_ep, rng })
        },
        run_sel,
    );
}
