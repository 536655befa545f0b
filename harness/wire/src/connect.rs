//! C23: connecting to the requested device, interface or port.

use std::panic::AssertUnwindSafe;

use nusb::{
    sim::{self, DevDesc, IfDesc},
    transfer::EndpointType,
};
use serde::{Deserialize, Serialize};
use tokio_serial::sim as port;
use vcommon::{ensure, ensure_eq, frames, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::{usb::ep, util::*};

#[derive(Debug, Clone, Serialize, Deserialize)]
struct IfGen {
    number: u8,
    class: u8,
    subclass: u8,
    out: bool,
    inn: bool,
    /// IN endpoint listed before the OUT endpoint
    in_first: bool,
    mps: u16,
    mps_in: u16,
    /// interrupt endpoints around the bulk ones
    extra: (bool, bool),
    /// another alternate setting: without bulk endpoints, or the same bulk endpoints with another packet size
    alt: bool,
    alt_mps: Option<u16>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct DevGen {
    matches: bool,
    ifs: Vec<IfGen>,
    open_fails: bool,
    claim_fails: bool,
}
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
enum How {
    Class,
    /// the panicking constructor
    ClassPanics,
    /// by interface class, and by number
    Pred(u8),
    PredNumber(u8),
    Explicit(u8),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    devs: Vec<DevGen>,
    list_fails: bool,
    how: How,
    /// length of the frame sent once connected
    len: u16,
    rng: u64,
}

fn out_addr(n: u8) -> u8 {
    1 + n % 14
}
fn in_addr(n: u8) -> u8 {
    0x80 | (1 + (n + 3) % 14)
}

fn run23(c: &Case) -> CaseResult {
    with_rt(c.rng, async {
        let devs: Vec<DevDesc> = c.devs.iter().enumerate().map(|(n, d)| DevDesc {
            serial: Some(if d.matches { "yes".into() } else { format!("no{n}") }),
            product: None, vid: 1, pid: 2, open_fails: d.open_fails, claim_fails: d.claim_fails,
            ifs: d.ifs.iter().map(|i| {
                let mut e = vec![];
                if i.extra.0 { e.push(ep(0x0f, EndpointType::Interrupt, 8)); e.push(ep(0x8f, EndpointType::Interrupt, 8)); }
                let mut b = vec![];
                if i.out { b.push(ep(out_addr(i.number), EndpointType::Bulk, i.mps as usize)); }
                if i.inn { b.push(ep(in_addr(i.number), EndpointType::Bulk, i.mps_in as usize)); }
                if i.in_first { b.reverse(); }
                e.extend(b);
                if i.extra.1 { e.push(ep(0x0e, EndpointType::Isochronous, 24)); e.push(ep(0x8e, EndpointType::Isochronous, 24)); }
                let mut alts = vec![e];
                if i.alt { alts.push(vec![ep(0x0d, EndpointType::Interrupt, 16)]); }
                if let (Some(m), true, true) = (i.alt_mps, i.out, i.inn) {
                    alts.push(vec![ep(in_addr(i.number), EndpointType::Bulk, m as usize), ep(out_addr(i.number), EndpointType::Bulk, m as usize)]);
                }
                IfDesc { number: i.number, class: i.class, subclass: i.subclass, alts }
            }).collect(),
        }).collect();
        let st = sim::install(devs, c.list_fails);
        let pred = |d: &nusb::DeviceInfo| d.serial_number() == Some("yes");
        // oracle
        let dev = if c.list_fails { None } else { c.devs.iter().position(|d| d.matches) };
        let pick = dev.and_then(|d| {
            let ifs = &c.devs[d].ifs;
            let x = match c.how {
                How::Class | How::ClassPanics => ifs.iter().find(|i| i.class == 0xff)?,
                How::Pred(cl) => ifs.iter().find(|i| i.class == cl)?,
                How::PredNumber(n) | How::Explicit(n) => ifs.iter().find(|i| i.number == n)?,
            };
            Some((d, x))
        });
        let want = pick.filter(|(d, x)| !c.devs[*d].open_fails && !c.devs[*d].claim_fails && x.out && x.inn);
        let r: Result<Client, String> = match c.how {
            How::Class => Client::try_new_raw_nusb(pred, ERR_PATH, 4, skind(1)),
            How::ClassPanics => std::panic::catch_unwind(AssertUnwindSafe(|| Client::new_raw_nusb(pred, ERR_PATH, 4, skind(1)))).map_err(|_| "panicked".into()),
            How::Pred(cl) => Client::try_new_raw_nusb_with_interface(pred, |i| i.class() == cl, ERR_PATH, 4, skind(1)),
            How::PredNumber(n) => Client::try_new_raw_nusb_with_interface(pred, |i| i.interface_number() == n, ERR_PATH, 4, skind(1)),
            How::Explicit(n) => {
                let Some(d) = dev else { return Ok(Outcome::new(false)) };
                let Some(info) = nusb::list_devices().ok().and_then(|mut l| l.nth(d)) else { return Ok(Outcome::new(false)) };
                Client::try_from_nusb_and_interface(&info, n as usize, ERR_PATH, 4, skind(1))
            }
        };
        ensure!(r.is_ok() == want.is_some(), "connecting gave {:?}, expected {:?}", r.as_ref().err(), want.map(|(d, x)| (d, x.number)));
        {
            let s = st.lock().unwrap();
            ensure!(s.opened.iter().all(|d| Some(*d) == dev), "another device was opened: {:?}, the first match is {dev:?}", s.opened);
            ensure!(s.claimed.iter().all(|x| Some(*x) == pick.map(|(d, x)| (d, x.number))), "another interface was claimed: {:?}", s.claimed);
        }
        let Some((d, x)) = want else {
            return Ok(Outcome::new(pick.is_some()).label(true, "refused").label(pick.is_some(), "match, but unusable"));
        };
        let client = r.unwrap();
        {
            let s = st.lock().unwrap();
            ensure_eq!(s.claimed, vec![(d, x.number)], "device and interface claimed");
            let mut q = s.queues.clone();
            q.sort();
            let mut e = vec![(x.number, out_addr(x.number)), (x.number, in_addr(x.number))];
            e.sort();
            ensure_eq!(q, e, "endpoints used");
        }
        // the packet size of that OUT endpoint decides how frames are delimited
        let f = out_frame(1, 7, body(c.len as usize, 2));
        ensure!(client.publish_raw(f.clone()).await.is_ok(), "publish on a fresh connection failed");
        settle().await;
        let mut e = vec![f.to_bytes()];
        // whichever alternate setting is in use
        let mps = x.alt_mps.map_or(x.mps, |m| m.min(x.mps));
        if e[0].len() % mps as usize == 0 { e.push(vec![]); }
        ensure_eq!(st.lock().unwrap().out_log, e, "first frame on the wire");
        ensure!(!client.is_closed(), "fresh connection is closed");
        let gaps = c.devs[d].ifs.iter().position(|i| i.number == x.number) != Some(x.number as usize);
        Ok(Outcome::new(c.devs.len() > 1 || c.devs[d].ifs.len() > 1).label(d > 0, "not the first device").label(gaps, "interface number differs from its position")
            .label(matches!(c.how, How::Pred(_) | How::PredNumber(_)), "interface predicate").label(matches!(c.how, How::Explicit(_)), "explicit interface"))
    })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CaseSer {
    path: String,
    baud: u32,
    open_fails: bool,
    panics: bool,
    width: usize,
    rng: u64,
}
fn run_ser(c: &CaseSer) -> CaseResult {
    with_rt(c.rng, async {
        let st = port::install(c.open_fails);
        let r: Result<Client, String> = if c.panics {
            std::panic::catch_unwind(AssertUnwindSafe(|| Client::new_serial_cobs(&c.path, ERR_PATH, 4, c.baud, skind(c.width)))).map_err(|_| "panicked".into())
        } else {
            Client::try_new_serial_cobs(&c.path, ERR_PATH, 4, c.baud, skind(c.width))
        };
        ensure!(r.is_err() == c.open_fails, "opening gave {:?}", r.as_ref().err());
        let Ok(client) = r else { return Ok(Outcome::new(true).label(true, "refused")) };
        ensure_eq!(st.lock().unwrap().opened, vec![(c.path.clone(), c.baud)], "port opened");
        let _pending = request(&client, c.width, 3);
        settle().await;
        let mut e = vcommon::cobs::encode(&frames::frame(&req_key().to_bytes(), 8, c.width, 3, &[9]));
        e.push(0);
        ensure_eq!(st.lock().unwrap().written, e, "first request on the wire");
        Ok(Outcome::new(true).label(c.panics, "panicking constructor"))
    })
}

pub fn c23(r: &mut Run) {
    r.assume("The USB bus and the serial port are simulated (stand-ins for nusb and tokio-serial); interfaces are listed in the order and with the numbers the bus reports, which need not be 0, 1, 2...");
    r.assume("An interface has at most one bulk endpoint per direction, with the same address in every alternate setting that has it. Not Windows, where the interface is fixed to 0.");
    r.check(
        "usb",
        "generated buses of up to 4 (sometimes 40) devices with up to 5 (sometimes 20) interfaces each (arbitrary numbering, missing endpoints, failing open, claim and listing), connected through each constructor; non-trivial = several devices or interfaces, or a match that cannot be used",
        1_500_000,
        20_000_000,
        || {
            let mps = || prop_oneof![Just(8u16), Just(16), Just(64), Just(512)];
            let ifg = (prop_oneof![Just(0xffu8), Just(0xff), Just(2), Just(0x0a)], 0u8..2, prop::bool::weighted(0.93), prop::bool::weighted(0.93), any::<bool>(),
                (mps(), mps(), any::<bool>()), any::<(bool, bool)>(), (prop::bool::weighted(0.2), prop::option::weighted(0.2, mps())))
                .prop_map(|(class, subclass, out, inn, in_first, (mps, m2, same), extra, (alt, alt_mps))| IfGen { number: 0, class, subclass, out, inn, in_first, mps, mps_in: if same { mps } else { m2 }, extra, alt, alt_mps });
            // numbering: contiguous, with gaps, or listed out of order
            let dev = (prop::bool::weighted(0.5), prop_oneof![24 => prop::collection::vec(ifg.clone(), 0..6), 1 => prop::collection::vec(ifg, 6..20)], prop::bool::weighted(0.05), prop::bool::weighted(0.05), 0u8..4, any::<u8>())
                .prop_map(|(matches, mut ifs, open_fails, claim_fails, mode, salt)| {
                    let n = ifs.len() as u8;
                    for (k, i) in ifs.iter_mut().enumerate() {
                        let k = k as u8;
                        i.number = match mode {
                            0 | 1 => k,
                            2 => k * 2 + salt % 3,
                            _ => (k + salt % 5) % n,
                        };
                    }
                    DevGen { matches, ifs, open_fails, claim_fails }
                });
            let how = prop_oneof![
                6 => Just(How::Class), 2 => Just(How::ClassPanics), 4 => prop_oneof![Just(0xffu8), Just(2), Just(0x0a)].prop_map(How::Pred),
                4 => (0u8..6).prop_map(How::PredNumber), 4 => (0u8..6).prop_map(How::Explicit),
                1 => (6u8..40).prop_map(How::PredNumber), 1 => (6u8..40).prop_map(How::Explicit)];
            (prop_oneof![24 => prop::collection::vec(dev.clone(), 0..5), 1 => (prop::collection::vec(dev, 5..40), any::<bool>()).prop_map(|(mut d, last)| { let n = d.len(); if last { d.iter_mut().take(n - 2).for_each(|x| x.matches = false) } d })], prop::bool::weighted(0.03), how, prop_oneof![0u16..120, Just(54), Just(53), Just(55), Just(502)], any::<u64>())
                .prop_map(|(devs, list_fails, how, len, rng)| Case { devs, list_fails, how, len, rng })
        },
        run23,
    );
    r.check(
        "serial",
        "generated paths, baud rates and open failures through both serial constructors; every case is non-trivial",
        20_000,
        200_000,
        || ("[a-zA-Z0-9/_.]{1,20}", any::<u32>(), prop::bool::weighted(0.3), any::<bool>(), frames::slen(), any::<u64>())
            .prop_map(|(path, baud, open_fails, panics, width, rng)| CaseSer { path, baud, open_fails, panics, width, rng }),
        run_ser,
    );
}
