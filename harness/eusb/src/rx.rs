//! C18: reassembly of received packets.

use std::{cell::RefCell, rc::Rc};

use postcard_rpc::server::{WireRx, WireRxErrorKind};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::sim::{self, Exec, Rd, Ver, V3, V4};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Ev {
    /// one transfer of the host: cut into packets, with its terminator
    Frame(usize),
    /// a transfer relative to the buffer size
    Near(i8),
    /// the host stops after some full packets (reset follows, or a new transfer glues on)
    Cut(u8),
    Packet(u8),
    Disabled,
    Gap(u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    v4: bool,
    evs: Vec<Ev>,
    /// buffer sizes, cycled over the calls
    bufs: Vec<usize>,
    overflow_drops: bool,
}

#[derive(Debug, Clone, PartialEq)]
enum R {
    Frame(Vec<u8>),
    TooLarge,
    Closed,
    Other,
}

fn run<V: Ver>(c: &Case) -> CaseResult {
    sim::reset();
    let (tx, mut rx, guard) = V::build(64);
    let mut rd: Vec<Rd> = vec![];
    let mut fill = 0u8;
    let mut bytes = |n: usize| -> Vec<u8> {
        (0..n).map(|_| { fill = fill.wrapping_mul(5).wrapping_add(3); fill }).collect()
    };
    let near = c.bufs[0] as i64;
    for e in &c.evs {
        match e {
            Ev::Frame(_) | Ev::Near(_) => {
                let n = match e { Ev::Frame(n) => *n, Ev::Near(d) => (near + *d as i64).max(0) as usize, _ => 0 };
                let f = bytes(n);
                for ch in f.chunks(64) {
                    rd.push(Rd::Packet(ch.to_vec()));
                }
                if n % 64 == 0 {
                    rd.push(Rd::Packet(vec![]));
                }
            }
            Ev::Cut(n) => (0..*n).for_each(|_| rd.push(Rd::Packet(bytes(64)))),
            Ev::Packet(n) => rd.push(Rd::Packet(bytes(*n as usize % 65))),
            Ev::Disabled => rd.push(Rd::Disabled),
            Ev::Gap(d) => rd.push(Rd::Gap(*d as u32 + 1)),
        }
    }
    // ---- oracle
    let mut exp: Vec<R> = vec![];
    let mut cur: Vec<u8> = vec![];
    let (mut over, mut multi, mut exact) = (0, 0, 0);
    for r in &rd {
        let cap = c.bufs[exp.len() % c.bufs.len()];
        match r {
            Rd::Gap(_) => {}
            Rd::Disabled => {
                cur.clear();
                exp.push(R::Closed);
            }
            Rd::Packet(p) => {
                cur.extend(p);
                if p.len() < 64 {
                    let f = std::mem::take(&mut cur);
                    if f.len() > 64 { multi += 1 }
                    if f.len() == cap && cap > 0 { exact += 1 }
                    exp.push(if f.len() <= cap { R::Frame(f) } else { over += 1; R::TooLarge });
                }
            }
        }
    }
    let rest = !cur.is_empty();
    sim::with(|s| {
        s.rd = rd.into();
        s.overflow_drops = c.overflow_drops;
    });
    let got: Rc<RefCell<Vec<R>>> = Default::default();
    let ex = Exec::default();
    {
        let (g, bufs, max) = (got.clone(), c.bufs.clone(), exp.len() + 3);
        ex.spawn(async move {
            for i in 0..max {
                let n = bufs[i % bufs.len()];
                let mut buf = vec![0x5Au8; n];
                let r = match rx.receive(&mut buf).await {
                    Ok(f) => R::Frame(f.to_vec()),
                    Err(WireRxErrorKind::ConnectionClosed) => R::Closed,
                    Err(WireRxErrorKind::ReceivedMessageTooLarge) => R::TooLarge,
                    Err(_) => R::Other,
                };
                g.borrow_mut().push(r);
            }
        });
    }
    ex.run(&[]);
    ex.clear();
    drop((tx, guard));
    let got = got.borrow().clone();
    let misuse = sim::with(|s| s.misuse.clone());
    ensure!(misuse.is_empty(), "{misuse:?}");
    let short = |r: Option<&R>| match r { Some(R::Frame(f)) => format!("a frame of {} bytes", f.len()), None => "nothing".into(), Some(x) => format!("{x:?}") };
    // the buffer in use depends on the number of results so far, hence strictly one result per transfer
    for (i, e) in exp.iter().enumerate() {
        ensure!(got.get(i) == Some(e), "result {i} is {}, the host's transfer is {} (buffer {} bytes)", short(got.get(i)), short(Some(e)), c.bufs[i % c.bufs.len()]);
    }
    ensure!(got.len() == exp.len(), "{} results for {} transfers", got.len(), exp.len());
    let closed = exp.iter().filter(|x| **x == R::Closed).count();
    Ok(Outcome::new(exp.len() >= 2 && (multi > 0 || over > 0 || exact > 0 || closed > 0))
        .label(over > 0, "oversized frame").label(exact > 0, "frame filling the buffer").label(multi > 0, "several packets")
        .label(closed > 0, "disconnect").label(rest, "unfinished frame at the end").label(c.v4, "embassy-usb 0.4").label(!c.v4, "embassy-usb 0.3")
        .label(c.bufs.iter().any(|b| b % 64 != 0), "buffer not a multiple of the packet size"))
}

pub fn c18(r: &mut Run) {
    r.assume("The endpoint is simulated: packets of at most 64 bytes (full speed bulk), delivered whole; a read into too small a buffer fails with BufferOverflow and, depending on the driver, keeps or loses the packet.");
    r.check(
        "reassembly",
        "packet streams of complete transfers (lengths around the buffer size and multiples of 64), cut-off transfers, lone packets, disconnects and pauses, received into buffers of generated sizes, for both embassy-usb versions; non-trivial = two or more results including a multi-packet, oversized or buffer-filling frame or a disconnect",
        1_000_000,
        8_000_000,
        || {
            let size = || prop_oneof![3 => prop_oneof![Just(64usize), Just(128), Just(192), Just(256), Just(1024)], 3 => 0usize..300, 1 => 64usize..1100, 1 => 0usize..10];
            let size = move || prop_oneof![60 => size(), 1 => 65_500usize..66_500];
            let ev = prop_oneof![
                5 => prop_oneof![2 => 0usize..70, 2 => 0usize..400, 2 => (0usize..9, 0usize..3).prop_map(|(a, b)| (a * 64 + b).saturating_sub(1)), 1 => 0usize..1500].prop_map(Ev::Frame),
                5 => prop_oneof![60 => 0usize..70, 1 => (1020usize..1030, 0usize..3).prop_map(|(a, b)| a * 64 + b - 1)].prop_map(Ev::Frame),
                4 => prop_oneof![-2i8..3, -66i8..70].prop_map(Ev::Near),
                1 => (1u8..4).prop_map(Ev::Cut),
                1 => any::<u8>().prop_map(Ev::Packet),
                1 => Just(Ev::Disabled),
                1 => any::<u16>().prop_map(Ev::Gap),
            ];
            (any::<bool>(), vcommon::hist(ev, 1..12), prop::collection::vec(size(), 1..3), any::<bool>())
                .prop_map(|(v4, evs, bufs, overflow_drops)| Case { v4, evs, bufs, overflow_drops })
        },
        |c| if c.v4 { run::<V4>(c) } else { run::<V3>(c) },
    );
}
