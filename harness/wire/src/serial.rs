//! C16: the serial transport over a simulated port.

use std::{cell::RefCell, rc::Rc};

use serde::{Deserialize, Serialize};
use tokio_serial::sim::{self, RxEv};
use vcommon::{ensure, ensure_eq, frames, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::util::*;

/// The transport's receive buffer: the largest encoded packet, delimiter included
const MAX_PACKET: usize = 1024;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Item {
    /// topic message
    Topic { klen: usize, slen: usize, seq: u32, len: usize, kind: u8 },
    /// answer to request `n`
    Reply { n: u8, klen: usize, len: usize },
    ErrReply { n: u8, klen: usize },
    /// packet whose decoded content is arbitrary
    Packet(Vec<u8>),
    /// arbitrary nonzero bytes without a delimiter: garbles whatever follows
    Noise(Vec<u8>),
    /// arbitrary bytes, zeros included
    Raw(Vec<u8>),
    Zeros(u8),
    /// a packet of `n` encoded bytes and more
    Long { n: usize, valid: bool },
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum End {
    Open,
    Eof,
    Err(u8),
    WriteErr,
    Close,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    items: Vec<Item>,
    /// read chunk sizes, cycled; 0 = a spurious wake-up
    chunks: Vec<u16>,
    /// stage boundaries: settle after every n-th chunk
    stage: u8,
    /// cut the incoming stream after this many bytes (for Eof/Err)
    cut: Option<u16>,
    end: End,
    reqs: u8,
    seqw: usize,
    depth: u8,
    tx: Vec<(usize, u8)>,
    wr: Vec<u16>,
    fail_after: u16,
    rng: u64,
}

fn run16(c: &Case) -> CaseResult {
    with_rt(c.rng, async {
        let port = sim::install(false);
        {
            let mut s = port.lock().unwrap();
            s.wr_sizes = c.wr.iter().cycle().take(if c.wr.is_empty() { 0 } else { 4000.max(c.tx.iter().map(|t| t.0 / 100).sum::<usize>()) }).map(|x| *x as usize).collect();
            if c.end == End::WriteErr {
                s.fail_after = Some(c.fail_after as usize);
            }
        }
        let client = Client::try_new_serial_cobs("/sim/port", ERR_PATH, c.depth.max(1) as usize, 115_200, skind(c.seqw))
            .map_err(|e| format!("could not open the port: {e}"))?;
        ensure_eq!(port.lock().unwrap().opened, vec![("/sim/port".to_string(), 115_200u32)], "port opened");
        let Ok(mut sub) = client.subscribe_exclusive_raw(topic_key(), 8192).await else {
            return Err("subscribe on a fresh client failed".into());
        };
        let reqs: Vec<Slot> = (0..c.reqs as u32).map(|n| request(&client, c.seqw, n)).collect();
        settle().await;

        // ---- incoming stream
        let mut stream: Vec<u8> = vec![];
        let pkt = |data: &[u8]| { let mut p = vcommon::cobs::encode(data); p.push(0); p };
        for it in &c.items {
            match it {
                Item::Topic { klen, slen, seq, len, kind } => {
                    stream.extend(pkt(&frames::frame(&topic_key().to_bytes(), *klen, *slen, *seq, &body(*len, *kind))))
                }
                Item::Reply { n, klen, len } => stream.extend(pkt(&frames::frame(&resp_key().to_bytes(), *klen, c.seqw, *n as u32, &body(*len, 2)))),
                Item::ErrReply { n, klen } => stream.extend(pkt(&frames::frame(
                    &err_key().to_bytes(), *klen, c.seqw, *n as u32, &postcard::to_stdvec(&WErr::Bad(5)).unwrap()))),
                Item::Packet(b) => stream.extend(pkt(b)),
                Item::Noise(b) => stream.extend(b.iter().map(|x| if *x == 0 { 1 } else { *x })),
                Item::Raw(b) => stream.extend(b),
                Item::Zeros(n) => stream.extend(std::iter::repeat(0).take(*n as usize)),
                Item::Long { n, valid } => {
                    if *valid {
                        stream.extend(pkt(&frames::frame(&topic_key().to_bytes(), 8, 4, 1, &body(*n, 0))));
                    } else {
                        stream.extend(std::iter::repeat(7).take(*n));
                        stream.push(0);
                    }
                }
            }
        }
        let ends_rx = matches!(c.end, End::Eof | End::Err(_));
        if let (Some(n), true) = (c.cut, ends_rx) {
            stream.truncate(n as usize);
        }
        // ---- oracle: what the stream contains
        let mut exp: Vec<Dec> = vec![];
        // per request: the first response and the first error message addressed to it (either may win if both are there at once)
        let mut exp_res: Vec<[Option<Res>; 2]> = vec![[None, None]; reqs.len()];
        let (mut bad, mut over, mut tiny) = (0, 0, 0);
        let mut packets: Vec<&[u8]> = stream.split(|b| *b == 0).collect();
        packets.pop(); // not terminated
        for p in packets {
            if p.len() + 1 > MAX_PACKET {
                over += 1;
                continue;
            }
            let Some(d) = vcommon::cobs::decode(p) else { bad += 1; continue };
            let Some((k, (w, s), b)) = frames::decode(&d) else { bad += 1; continue };
            if d.len() < 9 {
                tiny += 1;
            }
            if frames::key_is(&k, &topic_key().to_bytes()) {
                exp.push((k, (w, s), b));
            } else if let Some(r) = exp_res.get_mut(s as usize) {
                if frames::key_is(&k, &resp_key().to_bytes()) {
                    r[0].get_or_insert(Res::Ok(b));
                } else if frames::key_is(&k, &err_key().to_bytes()) {
                    r[1].get_or_insert(if postcard::from_bytes::<WErr>(&b).is_ok() { Res::Wire } else { Res::Bad });
                }
            }
        }
        // ---- outgoing frames
        let sent_ok: Rc<RefCell<Vec<bool>>> = Default::default();
        {
            let (cl, tx, so, w) = (client.clone(), c.tx.clone(), sent_ok.clone(), c.seqw);
            tokio::task::spawn_local(async move {
                for (i, (len, kind)) in tx.into_iter().enumerate() {
                    let r = cl.publish_raw(out_frame(w, i as u32, body(len, kind))).await;
                    so.borrow_mut().push(r.is_ok());
                }
            });
        }
        // ---- play the incoming stream
        let mut pos = 0;
        let mut k = 0usize;
        while pos < stream.len() {
            let n = if c.chunks.is_empty() { stream.len() } else { c.chunks[k % c.chunks.len()] as usize };
            k += 1;
            if n == 0 && c.chunks.iter().any(|x| *x > 0) {
                sim::feed(&port, [RxEv::Spurious]);
                continue;
            }
            let n = n.max(1).min(stream.len() - pos);
            sim::feed(&port, [RxEv::Chunk(stream[pos..pos + n].to_vec())]);
            pos += n;
            if c.stage > 0 && k % c.stage as usize == 0 {
                settle().await;
            }
        }
        settle().await;
        match c.end {
            End::Eof => sim::feed(&port, [RxEv::Eof]),
            End::Err(e) => sim::feed(&port, [RxEv::Err([
                std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::NotConnected, std::io::ErrorKind::Other,
                std::io::ErrorKind::TimedOut, std::io::ErrorKind::UnexpectedEof][e as usize % 5])]),
            End::Close => client.close(),
            _ => {}
        }
        settle().await;

        // ---- outgoing side
        let (written, zero_reads, failing) = {
            let s = port.lock().unwrap();
            (s.written.clone(), s.zero_reads, s.fail_after.is_some_and(|n| s.written.len() >= n))
        };
        ensure!(zero_reads <= 1000, "the reader keeps polling a port at end of stream ({zero_reads} reads) instead of closing");
        let mut out: Vec<&[u8]> = written.split(|b| *b == 0).collect();
        let partial = out.pop().unwrap_or(&[]);
        let mut want: Vec<(Vec<u8>, u32)> = (0..c.reqs as u32).map(|n| (vec![9], n)).collect();
        let nreq = want.len();
        want.extend(c.tx.iter().enumerate().map(|(i, (l, k))| (body(*l, *k), (i as u32) & match c.seqw { 1 => 0xff, 2 => 0xffff, _ => u32::MAX })));
        ensure!(out.len() <= want.len(), "{} packets on the wire, {} frames sent", out.len(), want.len());
        for (i, p) in out.iter().enumerate() {
            let Some((k, (w, s), b)) = vcommon::cobs::decode(p).and_then(|d| frames::decode(&d)) else {
                return Err(format!("packet {i} on the wire is not a COBS encoded frame: {:02x?}", &p[..p.len().min(40)]));
            };
            let key = if i < nreq { req_key() } else { out_key() };
            ensure!(frames::key_is(&k, &key.to_bytes()), "packet {i}: wrong key on the wire");
            ensure!((&b, s) == (&want[i].0, want[i].1), "packet {i}: body of {} bytes/seq {s} on the wire, sent {} bytes/seq {}", b.len(), want[i].0.len(), want[i].1);
            ensure!(w == c.seqw, "packet {i}: sequence width {w}");
        }
        let write_failed = failing && (out.len() < want.len());
        if c.end == End::Open {
            ensure!(out.len() == want.len() && partial.is_empty(), "{} of {} frames on the wire", out.len(), want.len());
            ensure!(sent_ok.borrow().iter().all(|x| *x) && sent_ok.borrow().len() == c.tx.len(), "a publish failed on an open port");
        }
        // ---- closed or open?
        let must_close = ends_rx || c.end == End::Close || write_failed;
        ensure!(client.is_closed() == must_close, "client closed: {}, expected {must_close} (end {:?})", client.is_closed(), c.end);
        // ---- incoming side
        // a write error may stop the client before the stream is consumed
        let exact = !write_failed;
        let mut got = vec![];
        loop {
            match tokio::time::timeout(std::time::Duration::from_millis(5), sub.recv()).await {
                Ok(Some(f)) => got.push(undo(&f)),
                Ok(None) => {
                    ensure!(must_close, "subscription ended on an open port");
                    break;
                }
                Err(_) => {
                    ensure!(!must_close, "subscription still waits after the port died");
                    break;
                }
            }
        }
        if exact {
            ensure!(got.len() == exp.len(), "{} frames delivered, {} valid frames received ({:?}..)", got.len(), exp.len(), exp.iter().zip(&got).position(|(a, b)| a != b));
        }
        ensure!(got.len() <= exp.len(), "{} frames delivered, {} received", got.len(), exp.len());
        for (i, (g, e)) in got.iter().zip(&exp).enumerate() {
            ensure!(g == e, "frame {i} delivered modified or out of order: {} bytes, expected {} bytes", g.2.len(), e.2.len());
        }
        for (i, (s, e)) in reqs.iter().zip(&exp_res).enumerate() {
            let got = s.borrow().clone();
            let answered = e.iter().any(|x| x.is_some());
            let fine = match &got {
                None => !must_close && !answered,
                Some(Res::Closed) => must_close && (!answered || !exact),
                Some(_) => e.contains(&got),
            };
            ensure!(fine, "request {i} resulted in {got:?}, expected one of {e:?} (closed: {must_close})");
        }
        if must_close {
            ensure!(client.publish_raw(out_frame(1, 0, vec![])).await.is_err(), "publish succeeds on a dead port");
            settle().await;
            ensure!(port.lock().unwrap().written.len() == written.len(), "bytes written after the port died");
        }
        Ok(Outcome::new(exp.len() + out.len() >= 2 && (bad + over + tiny > 0 || k > 1 || !c.wr.is_empty()))
            .label(bad > 0, "noise between").label(over > 0, "oversized packet").label(tiny > 0, "frame under 9 bytes")
            .label(ends_rx, "port died").label(write_failed, "write error").label(c.end == End::Open, "port stays open")
            .label(!c.wr.is_empty(), "partial writes").label(exp_res.iter().flatten().any(|x| x.is_some()), "request answered")
            .label(c.tx.iter().any(|x| x.0 > 240), "outgoing frame longer than a COBS block"))
    })
}

pub fn c16(r: &mut Run) {
    r.assume("The serial port is simulated (stand-in for tokio-serial): reads return generated chunks, writes accept generated amounts, errors and end of stream at generated points.");
    r.assume("A received packet is valid if it is zero-terminated, at most 1024 bytes long with its delimiter (the transport's receive buffer) and COBS-decodes to a frame with a well-formed header.");
    let len = || prop_oneof![4 => 0usize..12, 3 => 0usize..120, 2 => 235usize..270, 1 => 490usize..520, 1 => 0usize..1000, 1 => 985usize..1020];
    let case = move || {
        let item = prop_oneof![
            8 => (frames::klen(), frames::slen(), any::<u32>(), len(), any::<u8>()).prop_map(|(klen, slen, seq, len, kind)| Item::Topic { klen, slen, seq, len, kind }),
            2 => (0u8..4, frames::klen(), 0usize..20).prop_map(|(n, klen, len)| Item::Reply { n, klen, len }),
            1 => (0u8..4, frames::klen()).prop_map(|(n, klen)| Item::ErrReply { n, klen }),
            1 => prop::collection::vec(any::<u8>(), 0..30).prop_map(Item::Packet),
            1 => prop::collection::vec(1u8.., 1..12).prop_map(Item::Noise),
            1 => prop::collection::vec(prop_oneof![Just(0u8), any::<u8>()], 1..30).prop_map(Item::Raw),
            1 => (1u8..4).prop_map(Item::Zeros),
            1 => (prop_oneof![1000usize..1030, 1000usize..5000], any::<bool>()).prop_map(|(n, valid)| Item::Long { n, valid }),
        ];
        (
            vcommon::hist(item, 0..14),
            prop::collection::vec(prop_oneof![1 => Just(0u16), 3 => 1u16..8, 2 => 1u16..200, 1 => 900u16..1300], 0..6),
            0u8..4,
            prop::option::of(0u16..2000),
            prop_oneof![3 => Just(End::Open), 2 => Just(End::Eof), 1 => (0u8..5).prop_map(End::Err), 1 => Just(End::WriteErr), 1 => Just(End::Close)],
            0u8..4,
            frames::slen(),
            prop::collection::vec((prop_oneof![30 => 0usize..20, 20 => 240usize..262, 10 => 500usize..515, 10 => 0usize..3000, 1 => 65_500usize..65_600], any::<u8>()), 0..6),
            prop::collection::vec(prop_oneof![1 => Just(0u16), 4 => 1u16..6, 2 => 1u16..300], 0..5),
            (0u16..3000, 1u8..9, any::<u64>()),
        )
            .prop_map(|(items, chunks, stage, cut, end, reqs, seqw, tx, wr, (fail_after, depth, rng))| Case { items, chunks, stage, cut, end, reqs, seqw, depth, tx, wr, fail_after, rng })
    };
    r.check(
        "duplex",
        "incoming streams of topic frames, replies, noise, malformed, oversized and empty packets in generated read chunks, outgoing frames under generated partial writes, and a generated end (open, end of stream, read error, write error, close); non-trivial = two or more frames carried and something irregular (noise, oversize, short frame, chunking or partial writes)",
        200_000,
        10_000_000,
        case,
        run16,
    );
}
