//! C15 COBS accumulator.

use postcard_rpc::accumulator::raw::{CobsAccumulator, FeedResult};
use serde::{Deserialize, Serialize};
use vcommon::{cobs, ensure, proptest, proptest::prelude::*, CaseResult, Outcome, Run};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Seg {
    /// a frame whose encoding (with delimiter) is about `cap + delta` bytes long
    Near(i8, u8),
    /// a frame of this length and content pattern
    Frame(u16, u8),
    /// these bytes (zeros removed), whatever they decode to
    Raw(Vec<u8>),
    /// so many times the capacity, plus something, of non-zero bytes
    Huge(u8, u8, u8),
    /// a well formed packet with its first code byte changed
    Bent(u16, u8, u8),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    cap: usize,
    segs: Vec<Seg>,
    /// an unfinished packet at the end
    tail: u16,
    /// chunk lengths, cycled; 0: up to and including the next delimiter; 255: everything
    chunks: Vec<u8>,
    use_ref: bool,
}

pub fn pattern(n: usize, p: u8) -> Vec<u8> {
    (0..n)
        .map(|i| match p % 6 {
            0 => 0,
            1 => 1,
            2 => (i % 255) as u8 + 1,
            3 => (i as u8).wrapping_mul(p),
            4 => (i % 3 == 2) as u8 * p,
            _ => if i % 254 == p as usize { 0 } else { 0xff },
        })
        .collect()
}

pub fn packet(cap: usize, s: &Seg2) -> Vec<u8> {
    match s {
        Seg2::Frame(f) => cobs::encode(f),
        Seg2::Raw(r) => r.iter().map(|b| if *b == 0 { 1 } else { *b }).collect(),
        Seg2::Huge(n) => (0..*n).map(|i| (i % 250) as u8 + 2).collect(),
        Seg2::Near(delta, p) => {
            // the longest frame whose packet with delimiter has at most cap + delta bytes
            let want = (cap as i64 + *delta as i64).max(1) as usize;
            let mut n = want;
            loop {
                let e = cobs::encode(&pattern(n, *p));
                if e.len() + 1 <= want || n == 0 {
                    return e;
                }
                n -= 1;
            }
        }
    }
}
pub enum Seg2 {
    Frame(Vec<u8>),
    Raw(Vec<u8>),
    Huge(usize),
    Near(i8, u8),
}

fn bytes_of(cap: usize, s: &Seg) -> Vec<u8> {
    match s {
        Seg::Near(d, p) => packet(cap, &Seg2::Near(*d, *p)),
        Seg::Frame(n, p) => packet(cap, &Seg2::Frame(pattern(*n as usize % (cap + 4), *p))),
        Seg::Raw(v) => packet(cap, &Seg2::Raw(v.clone())),
        Seg::Huge(k, plus, p) => {
            if p % 2 == 0 {
                packet(cap, &Seg2::Huge(cap * (*k as usize % 4) + *plus as usize))
            } else {
                cobs::encode(&pattern(cap * (*k as usize % 4) + *plus as usize, *p))
            }
        }
        Seg::Bent(n, p, c) => {
            let mut v = cobs::encode(&pattern(*n as usize % (cap + 2), *p));
            v[0] = (*c).max(1);
            v
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Frame(Vec<u8>),
    Over,
    Bad,
}

/// (consumed, event)
fn feed<const N: usize>(acc: &mut CobsAccumulator<N>, input: &[u8], use_ref: bool) -> Result<(usize, Option<Ev>), String> {
    let r = if use_ref { acc.feed_ref(input) } else { acc.feed(input) };
    let suffix = |rem: &[u8]| -> Result<usize, String> {
        ensure!(
            rem.len() <= input.len() && &input[input.len() - rem.len()..] == rem,
            "the returned rest is not a suffix of the chunk"
        );
        Ok(input.len() - rem.len())
    };
    Ok(match r {
        FeedResult::Consumed => (input.len(), None),
        FeedResult::OverFull(rem) => (suffix(rem)?, Some(Ev::Over)),
        FeedResult::DeserError(rem) => (suffix(rem)?, Some(Ev::Bad)),
        FeedResult::Success { data, remaining } => {
            let d = data.to_vec();
            (suffix(remaining)?, Some(Ev::Frame(d)))
        }
    })
}

fn go<const N: usize>(c: &Case) -> CaseResult {
    // the stream, its segments, and what each must lead to
    struct S {
        end: usize,
        want: Option<Vec<u8>>,
        len: usize,
    }
    let mut stream: Vec<u8> = vec![];
    let mut segs: Vec<S> = vec![];
    for s in &c.segs {
        let b = bytes_of(N, s);
        let fits = b.len() + 1 <= N;
        let want = if fits { cobs::decode(&b) } else { None };
        stream.extend_from_slice(&b);
        stream.push(0);
        segs.push(S { end: stream.len(), want, len: b.len() });
    }
    let tail = c.tail as usize % (2 * N + 2);
    stream.extend((0..tail).map(|i| (i % 9) as u8 + 1));
    let seg_at = |pos: usize| segs.iter().position(|s| pos < s.end);

    let mut acc = CobsAccumulator::<N>::new();
    let mut pos = 0;
    let mut ci = 0;
    let mut reported = vec![0usize; segs.len()];
    let mut delivered = vec![0usize; segs.len()];
    let mut split = false;
    while pos < stream.len() {
        let n = match c.chunks.get(ci % c.chunks.len().max(1)) {
            Some(0) => stream[pos..].iter().position(|b| *b == 0).map(|p| p + 1).unwrap_or(stream.len() - pos),
            Some(255) | None => stream.len() - pos,
            Some(n) => *n as usize,
        };
        ci += 1;
        let end = (pos + n).min(stream.len());
        split |= end < stream.len() && stream[end - 1] != 0;
        let mut stalls = 0;
        // an empty chunk in between changes nothing
        if ci % 3 == 0 {
            let (k, ev) = feed(&mut acc, &[], c.use_ref)?;
            ensure!(k == 0 && ev.is_none(), "feeding nothing gave {ev:?}");
        }
        while pos < end {
            let (k, ev) = feed(&mut acc, &stream[pos..end], c.use_ref)?;
            if k == 0 {
                stalls += 1;
                ensure!(stalls < 3, "no progress at byte {pos} of the stream");
            } else {
                stalls = 0;
            }
            let last = (pos + k).saturating_sub(1);
            match ev {
                None => {}
                Some(Ev::Frame(d)) => {
                    if d.is_empty() {
                        // what a bare delimiter or an empty frame leads to is not specified
                    } else {
                        let Some(i) = seg_at(last) else {
                            return Err(format!("frame of {} bytes delivered from the unfinished tail", d.len()));
                        };
                        let s = &segs[i];
                        ensure!(last + 1 == s.end, "packet {i}: frame delivered before its delimiter");
                        let Some(w) = &s.want else {
                            return Err(format!(
                                "packet {i} ({} bytes with delimiter, capacity {N}) is {} but {} bytes of it were delivered",
                                s.len + 1,
                                if s.len + 1 > N { "too large" } else { "malformed" },
                                d.len()
                            ));
                        };
                        ensure!(&d == w, "packet {i}: delivered {d:02x?}, sent {w:02x?}");
                        delivered[i] += 1;
                    }
                }
                Some(e) => {
                    // belongs to the packet of the last consumed byte, or to the next when nothing was consumed
                    let at: Vec<usize> = [Some(last), if k == 0 { Some(pos) } else { None }].into_iter().flatten().collect();
                    let mut ok = false;
                    for p in at {
                        match seg_at(p) {
                            Some(i) => {
                                if segs[i].want.is_none() || segs[i].want.as_ref().is_some_and(|w| w.is_empty()) {
                                    reported[i] += 1;
                                    ok = true;
                                }
                            }
                            None => ok |= tail + 1 > N,
                        }
                    }
                    ensure!(ok, "{e:?} reported at byte {last} although the packet there is fine");
                }
            }
            pos += k;
        }
    }
    let mut cost = false;
    for (i, s) in segs.iter().enumerate() {
        match &s.want {
            Some(w) if w.is_empty() => {}
            Some(w) => {
                ensure!(
                    delivered[i] == 1,
                    "packet {i} ({} byte frame, {} byte capacity) was delivered {} times (previous packet: {})",
                    w.len(),
                    N,
                    delivered[i],
                    if i == 0 { "none" } else if segs[i - 1].want.is_some() { "fine" } else if segs[i - 1].len + 1 > N { "too large" } else { "malformed" }
                );
                cost |= i > 0 && segs[i - 1].want.is_none();
            }
            None => ensure!(reported[i] >= 1, "packet {i} ({} bytes, capacity {N}) was dropped without a report", s.len + 1),
        }
    }
    Ok(Outcome::new(split && segs.iter().any(|s| s.want.as_ref().is_some_and(|w| !w.is_empty())))
        .label(segs.iter().any(|s| s.len + 1 > N), "oversized packet")
        .label(segs.iter().any(|s| s.len + 1 > 2 * N), "more than twice the capacity")
        .label(segs.iter().any(|s| s.len + 1 <= N && s.want.is_none()), "malformed packet")
        .label(segs.iter().any(|s| s.len + 1 == N && s.want.is_some()), "exact fit")
        .label(cost, "good frame after a bad one"))
}

fn run(c: &Case) -> CaseResult {
    match c.cap {
        2 => go::<2>(c),
        3 => go::<3>(c),
        5 => go::<5>(c),
        8 => go::<8>(c),
        16 => go::<16>(c),
        33 => go::<33>(c),
        64 => go::<64>(c),
        255 => go::<255>(c),
        256 => go::<256>(c),
        257 => go::<257>(c),
        _ => go::<600>(c),
    }
}

pub fn c15(r: &mut Run) {
    r.check(
        "accumulator",
        "at least one deliverable frame, and a chunk boundary inside a packet",
        4_000_000,
        20_000_000,
        || {
            let seg = prop_oneof![
                4 => (-3i8..4, any::<u8>()).prop_map(|(a, b)| Seg::Near(a, b)),
                5 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Seg::Frame(a, b)),
                3 => (0u16..12, any::<u8>()).prop_map(|(a, b)| Seg::Frame(a, b)),
                1 => proptest::collection::vec(any::<u8>(), 0..20).prop_map(Seg::Raw),
                2 => (any::<u8>(), 0u8..20, any::<u8>()).prop_map(|(a, b, c)| Seg::Huge(a, b, c)),
                1 => (any::<u16>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Seg::Bent(a, b, c)),
            ];
            let chunk = prop_oneof![
                3 => 1u8..6, 2 => 1u8..80, 1 => Just(0u8), 1 => Just(255u8), 1 => 80u8..255
            ];
            (
                prop::sample::select(vec![2usize, 3, 5, 8, 16, 16, 33, 33, 64, 64, 255, 256, 257, 600]),
                vcommon::hist(seg, 1..7),
                prop_oneof![2 => Just(0u16), 1 => any::<u16>()],
                proptest::collection::vec(chunk, 1..6),
                any::<bool>(),
            )
                .prop_map(|(cap, segs, tail, chunks, use_ref)| Case { cap, segs, tail, chunks, use_ref })
        },
        run,
    );
}
