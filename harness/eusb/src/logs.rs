//! C19: log messages.

use std::{cell::RefCell, rc::Rc};

use postcard_rpc::{
    server::{Sender, WireTxErrorKind},
    standard_icd::LoggingTopic,
    Topic,
};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, frames, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::{
    sim::{self, Exec, Log, Ver, V3, V4},
    tx::kkind,
};

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Msg {
    Str(String),
    /// formatted in these pieces
    Fmt(Vec<String>),
    /// text sizes relative to the buffer: (bytes more or less than fits, character, formatted)
    Near(i16, char, bool),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    v4: bool,
    buf: usize,
    klen: usize,
    msgs: Vec<Msg>,
    /// ordinary frames in between
    other: bool,
}

struct Pieces<'a>(&'a [String]);
impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for p in self.0 {
            f.write_str(p)?;
        }
        Ok(())
    }
}

fn varint_len(n: usize) -> usize {
    let mut k = 1;
    while n >> (7 * k) != 0 {
        k += 1
    }
    k
}

fn run<V: Ver>(c: &Case) -> CaseResult {
    sim::reset();
    let (tx, rx, guard) = V::build(c.buf);
    let hdr = 1 + c.klen + 2;
    let room = c.buf.saturating_sub(hdr);
    let texts: Vec<(String, Vec<String>, bool)> = c.msgs.iter().map(|m| match m {
        Msg::Str(s) => (s.clone(), vec![s.clone()], false),
        Msg::Fmt(p) => (p.concat(), p.clone(), true),
        Msg::Near(d, ch, fmt) => {
            let want = (room as i64 + *d as i64).clamp(0, 70_000) as usize;
            let n = want / ch.len_utf8();
            let mut s = "-".repeat(want - n * ch.len_utf8());
            s.extend(std::iter::repeat(*ch).take(n));
            (s.clone(), vec![s], *fmt)
        }
    }).collect();
    let res: Rc<RefCell<Vec<Result<(), WireTxErrorKind>>>> = Default::default();
    let ex = Exec::default();
    {
        let (texts, res, kl, other) = (texts.clone(), res.clone(), c.klen, c.other);
        let s = Sender::new(tx.clone(), kkind(kl));
        ex.spawn(async move {
            for (i, (t, p, fmt)) in texts.iter().enumerate() {
                let r = if *fmt {
                    match p.len() {
                        2 => s.log_fmt(format_args!("{}{}", p[0], p[1])).await,
                        3 => s.log_fmt(format_args!("{}{}{}", p[0], p[1], p[2])).await,
                        _ => s.log_fmt(format_args!("{}", Pieces(p))).await,
                    }
                } else {
                    s.log_str(t).await
                };
                let n = res.borrow().len();
                sim::with(|st| st.log.push(Log::Done(n, 0)));
                res.borrow_mut().push(r);
                if other {
                    let _ = postcard_rpc::server::WireTx::send_raw(&tx, &[0xEE; 3][..1 + i % 3]).await;
                    sim::with(|st| while !matches!(st.log.last(), Some(Log::Done(..))) { st.log.pop(); });
                }
            }
        });
    }
    let stuck = ex.run(&[]);
    ex.clear();
    drop((rx, guard));
    ensure!(stuck == 0, "logging blocks");
    let log = sim::with(|s| std::mem::take(&mut s.log));
    let mut packets: Vec<Vec<u8>> = vec![];
    let mut last: Option<u16> = None;
    let mut failed_since = 0u16;
    let (mut trunc, mut refused, mut multi) = (0, 0, 0);
    for l in &log {
        match l {
            Log::Start(b) => packets.push(b.clone()),
            Log::Done(i, _) => {
                let (text, _, fmt) = &texts[*i];
                let r = &res.borrow()[*i];
                let ps = std::mem::take(&mut packets);
                let what = if *fmt { "formatted" } else { "plain" };
                // what certainly fits, and what cannot fit
                let fits_always = room >= varint_len(room) && text.len() + varint_len(room) <= room;
                let fits_ever = text.len() + varint_len(text.len()) <= room;
                if let Err(e) = r {
                    ensure!(matches!(e, WireTxErrorKind::Other), "{what} message of {} bytes: {e:?}", text.len());
                    ensure!(ps.is_empty(), "{what} message reported as failed, yet packets were sent");
                    if *fmt {
                        ensure!(room < varint_len(room).max(1), "formatted message of {} bytes refused with {room} bytes of room", text.len());
                    } else {
                        ensure!(!fits_ever, "plain message of {} bytes refused with {room} bytes of room", text.len());
                    }
                    failed_since += 1;
                    refused += 1;
                    continue;
                }
                let mut f = vec![];
                for (k, p) in ps.iter().enumerate() {
                    ensure!((p.len() == 64) == (k + 1 < ps.len()), "packet {k} of {} of a log message has {} bytes", ps.len(), p.len());
                    f.extend_from_slice(p);
                }
                let Some((k, (w, seq), body)) = frames::decode(&f) else { return Err(format!("{what} message: not a frame")) };
                ensure!(k.len() == c.klen && frames::key_is(&k, &LoggingTopic::TOPIC_KEY.to_bytes()), "{what} message: not on the logging topic with a key of {} bytes", c.klen);
                // number
                ensure!(w == 2, "log sequence number of {w} bytes");
                if let Some(l) = last {
                    let d = (seq as u16).wrapping_sub(l);
                    ensure!(d >= 1 && d <= 1 + failed_since, "log message numbers {l} and {seq} with {failed_since} refused in between");
                }
                last = Some(seq as u16);
                failed_since = 0;
                // text, decoded like the host does
                let (got, rest) = match postcard::take_from_bytes::<<LoggingTopic as Topic>::Message>(&body) {
                    Ok(x) => x,
                    Err(e) => return Err(format!("{what} message of {} bytes in {room}: the host cannot decode it: {e}", text.len())),
                };
                ensure!(rest.is_empty(), "{what} message: {} stray bytes behind it", rest.len());
                let got: &str = got.as_ref();
                if got == text {
                    continue;
                }
                ensure!(*fmt && !fits_always, "{what} message of {} bytes (room {room}) arrives as {} bytes", text.len(), got.len());
                trunc += 1;
                let cap = room - varint_len(room);
                let prefix = got.strip_suffix("...").filter(|p| text.starts_with(p)).or(text.starts_with(got).then_some(got));
                ensure!(prefix.is_some(), "truncated message is not a prefix of the text: {:?}", &got[got.len().saturating_sub(12)..got.len()]);
                ensure!(cap < 3 || got.ends_with("..."), "truncation is not marked");
                ensure!(got.len() + 3 >= cap, "only {} bytes of a truncated message sent, {cap} fit", got.len());
                multi += text.chars().any(|c| c.len_utf8() > 1) as u32;
            }
            _ => {}
        }
    }
    Ok(Outcome::new(texts.iter().any(|t| t.0.len() > 20 || t.0.len() + 10 > room))
        .label(trunc > 0, "truncated").label(multi > 0, "truncated multi-byte text").label(refused > 0, "refused").label(room < 10, "tiny buffer")
        .label(c.v4, "embassy-usb 0.4").label(!c.v4, "embassy-usb 0.3").label(texts.iter().any(|t| t.0.len() >= 128), "length of two bytes"))
}

pub fn c19(r: &mut Run) {
    r.assume("A formatted message is certain to fit when its text plus the longest length field the buffer can need fits behind the header.");
    r.assume("A truncated message keeps the documented form: a prefix of the text followed by \"...\" (when three bytes fit).");
    let ch = || prop_oneof![Just('x'), Just('ä'), Just('€'), Just('🦀'), any::<char>()];
    r.check(
        "texts",
        "sequences of plain and formatted log messages of generated texts (multi-byte characters, lengths around the buffer's capacity, several format pieces) over buffers of 0..20000 bytes and all key lengths, for both embassy-usb versions; non-trivial = a text over 20 bytes or close to the capacity",
        700_000,
        10_000_000,
        move || {
            let text = || prop_oneof![
                2 => "[a-z ]{0,40}".prop_map(String::from),
                2 => prop::collection::vec(ch(), 0..40).prop_map(|v| v.into_iter().collect()),
                1 => (ch(), 0usize..400).prop_map(|(c, n)| std::iter::repeat(c).take(n).collect()),
            ];
            let msg = prop_oneof![
                2 => text().prop_map(Msg::Str),
                2 => prop::collection::vec(text(), 1..5).prop_map(Msg::Fmt),
                4 => (prop_oneof![-8i16..8, -140i16..140], ch(), prop::bool::weighted(0.7)).prop_map(|(d, c, f)| Msg::Near(d, c, f)),
            ];
            (
                any::<bool>(),
                prop_oneof![4 => 0usize..40, 3 => 120usize..280, 3 => 0usize..600, 1 => Just(1024usize), 1 => (prop_oneof![8 => Just(1usize << 14), 1 => Just(1 << 15), 1 => Just(1 << 16)], 0usize..40).prop_map(|(a, b)| a + b - 10)],
                frames::klen(),
                vcommon::hist(msg, 1..6),
                any::<bool>(),
            )
                .prop_map(|(v4, buf, klen, msgs, other)| Case { v4, buf, klen, msgs, other })
        },
        |c| if c.v4 { run::<V4>(c) } else { run::<V3>(c) },
    );
    r.check(
        "wrap",
        "more than 65536 log messages in a row: the numbers stay consecutive across the wrap; non-trivial = every case",
        32,
        200,
        || (any::<bool>(), frames::klen(), 65_540usize..66_000).prop_map(|(v4, klen, n)| Case { v4, buf: 64, klen, msgs: vec![Msg::Str(format!("{n}"))], other: false }),
        |c| if c.v4 { wrap::<V4>(c) } else { wrap::<V3>(c) },
    );
}

fn wrap<V: Ver>(c: &Case) -> CaseResult {
    sim::reset();
    let (tx, rx, guard) = V::build(c.buf);
    let n: usize = match &c.msgs[0] { Msg::Str(s) => s.parse().unwrap(), _ => 0 };
    let ex = Exec::default();
    let s = Sender::new(tx.clone(), kkind(c.klen));
    let bad: Rc<RefCell<Option<String>>> = Default::default();
    let b2 = bad.clone();
    ex.spawn(async move {
        let mut last: Option<u16> = None;
        for i in 0..n {
            let r = if (i * n).count_ones() % 2 == 0 { s.log_str("a").await } else { s.log_fmt(format_args!("{i}")).await };
            let p = sim::with(|s| std::mem::take(&mut s.log)).into_iter().find_map(|l| match l { Log::Start(b) => Some(b), _ => None });
            let seq = p.and_then(|p| frames::decode(&p)).map(|x| x.1 .1 as u16);
            let fine = r.is_ok() && seq.is_some() && last.is_none_or(|l| Some(l.wrapping_add(1)) == seq);
            if !fine {
                *b2.borrow_mut() = Some(format!("message {i}: number {seq:?} after {last:?} ({r:?})"));
                return;
            }
            last = seq;
        }
    });
    ex.run(&[]);
    ex.clear();
    drop((tx, rx, guard));
    if let Some(m) = bad.borrow().clone() {
        return Err(m);
    }
    Ok(Outcome::new(true).label(true, "wrapped"))
}
