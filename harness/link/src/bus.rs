//! A simulated USB cable: the host side is the nusb stand-in, the device side an embassy-usb driver.
//! All state is per thread, and time is the paused clock of the tokio runtime of the case.

use std::{
    cell::RefCell,
    collections::{BTreeSet, VecDeque},
    future::poll_fn,
    sync::{Arc, Mutex},
    task::{Poll, Waker},
    time::Duration,
};

use embassy_usb_driver as drv;
use nusb::{
    sim::{EpDesc, IfDesc, State},
    transfer::{EndpointType, TransferError},
};

// ---------------------------------------------------------------- clock

thread_local! {
    static START: RefCell<Option<tokio::time::Instant>> = const { RefCell::new(None) };
    static ALARMS: RefCell<Vec<(u64, Waker)>> = const { RefCell::new(vec![]) };
}
struct Clock;
fn tick_us() -> u64 {
    1_000_000 / embassy_time_driver::TICK_HZ
}
impl embassy_time_driver::Driver for Clock {
    fn now(&self) -> u64 {
        START.with_borrow(|s| s.map_or(0, |s| s.elapsed().as_micros() as u64 / tick_us()))
    }
    fn schedule_wake(&self, at: u64, waker: &Waker) {
        if ALARMS.with_borrow(|a| a.iter().any(|(t, w)| *t == at && w.will_wake(waker))) {
            return;
        }
        ALARMS.with_borrow_mut(|a| a.push((at, waker.clone())));
        let Some(start) = START.with_borrow(|s| *s) else { return };
        tokio::task::spawn_local(async move {
            tokio::time::sleep_until(start + Duration::from_micros(at * tick_us())).await;
            let due: Vec<_> = ALARMS.with_borrow_mut(|a| {
                let (d, rest) = std::mem::take(a).into_iter().partition::<Vec<_>, _>(|x| x.0 <= at);
                *a = rest;
                d
            });
            due.into_iter().for_each(|x| x.1.wake());
        });
    }
}
embassy_time_driver::time_driver_impl!(static CLOCK: Clock = Clock);

// ---------------------------------------------------------------- cable

#[derive(Default)]
pub struct Link {
    host: Option<Arc<Mutex<State>>>,
    /// the host does not poll the device
    pub held: bool,
    pub gone: bool,
    cur_out: Option<(Vec<u8>, VecDeque<Vec<u8>>)>,
    in_buf: Vec<u8>,
    wakers: Vec<Waker>,
    /// endpoints the device used for data
    pub used: BTreeSet<u8>,
    pub enabled: BTreeSet<u8>,
    pub packets_in: usize,
    pub packets_out: usize,
    pub misuse: Vec<String>,
    // enumeration
    events: VecDeque<drv::Event>,
    setup: VecDeque<[u8; 8]>,
    pub answers: Vec<Option<Vec<u8>>>,
    data: Vec<u8>,
}
thread_local! { static LINK: RefCell<Link> = RefCell::default(); }
pub fn with<R>(f: impl FnOnce(&mut Link) -> R) -> R {
    LINK.with_borrow_mut(f)
}
/// Start of a case, inside of its runtime
pub fn reset() {
    with(|l| *l = Link::default());
    ALARMS.with_borrow_mut(|a| a.clear());
    START.with_borrow_mut(|s| *s = Some(tokio::time::Instant::now()));
}
/// End of a case, after its runtime
pub fn finish() {
    let old = with(std::mem::take);
    drop(old);
    let old = ALARMS.with_borrow_mut(std::mem::take);
    drop(old);
    START.with_borrow_mut(|s| *s = None);
}
/// Something changed: everybody looks again
pub fn kick() {
    let w = with(|l| std::mem::take(&mut l.wakers));
    w.into_iter().for_each(|w| w.wake());
}

pub fn plug(host: Arc<Mutex<State>>) {
    host.lock().unwrap().out_permits = 0;
    with(|l| l.host = Some(host.clone()));
    tokio::task::spawn_local(poll_fn(move |cx| {
        host.lock().unwrap().bus_waker = Some(cx.waker().clone());
        kick();
        Poll::<()>::Pending
    }));
}
pub fn hold(on: bool) {
    let was = with(|l| std::mem::replace(&mut l.held, on));
    kick();
    if on && !was {
        // Tasks waiting for embassy's mutex, which holds one waker, keep waking each other while somebody is
        // stuck sending: the program is never idle, so that the paused clock has to be moved along.
        tokio::task::spawn_local(async {
            while with(|l| l.held) {
                for _ in 0..30 {
                    tokio::task::yield_now().await;
                }
                tokio::time::advance(Duration::from_millis(1)).await;
            }
        });
    }
}
pub fn unplug() {
    let host = with(|l| {
        l.gone = true;
        l.host.clone()
    });
    if let Some(h) = host {
        let mut s = h.lock().unwrap();
        s.in_pending.pop_front();
        s.in_done.push_back((vec![], Err(TransferError::Disconnected)));
        while let Some(d) = s.out_pending.pop_front() {
            s.out_done.push_back((d, Err(TransferError::Disconnected)));
        }
        s.gone = true;
        s.pump();
    }
    kick();
}

#[derive(Debug)]
pub struct Dev {
    next: u8,
}
impl Dev {
    pub fn new() -> Self {
        Dev { next: 1 }
    }
}
pub struct Ep(drv::EndpointInfo);
pub struct Bus;
pub struct Ctl;

impl drv::Endpoint for Ep {
    fn info(&self) -> &drv::EndpointInfo {
        &self.0
    }
    async fn wait_enabled(&mut self) {
        poll_fn(|cx| {
            with(|l| {
                if l.enabled.contains(&self.0.addr.into()) {
                    return Poll::Ready(());
                }
                l.wakers.push(cx.waker().clone());
                Poll::Pending
            })
        })
        .await
    }
}
impl drv::EndpointIn for Ep {
    async fn write(&mut self, buf: &[u8]) -> Result<(), drv::EndpointError> {
        let mps = self.0.max_packet_size as usize;
        poll_fn(|cx| {
            with(|l| {
                l.used.insert(self.0.addr.into());
                if buf.len() > mps {
                    l.misuse.push(format!("packet of {} bytes", buf.len()));
                }
                if l.gone || !l.enabled.contains(&self.0.addr.into()) {
                    return Poll::Ready(Err(drv::EndpointError::Disabled));
                }
                let host = l.host.clone();
                let cap = host.as_ref().and_then(|h| h.lock().unwrap().in_pending.front().copied());
                let (Some(h), Some(cap), false) = (host, cap, l.held) else {
                    l.wakers.push(cx.waker().clone());
                    return Poll::Pending;
                };
                l.packets_in += 1;
                l.in_buf.extend_from_slice(buf);
                if l.in_buf.len() > cap {
                    l.misuse.push("packet longer than the host's transfer".into());
                }
                if buf.len() < mps || l.in_buf.len() >= cap {
                    let mut s = h.lock().unwrap();
                    s.in_pending.pop_front();
                    s.in_done.push_back((std::mem::take(&mut l.in_buf), Ok(())));
                    s.pump();
                }
                Poll::Ready(Ok(()))
            })
        })
        .await
    }
}
impl drv::EndpointOut for Ep {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, drv::EndpointError> {
        let mps = self.0.max_packet_size as usize;
        poll_fn(|cx| {
            with(|l| {
                l.used.insert(self.0.addr.into());
                if l.gone || !l.enabled.contains(&self.0.addr.into()) {
                    return Poll::Ready(Err(drv::EndpointError::Disabled));
                }
                let host = l.host.clone();
                let (Some(h), false) = (host, l.held) else {
                    l.wakers.push(cx.waker().clone());
                    return Poll::Pending;
                };
                if l.cur_out.is_none() {
                    if let Some(t) = h.lock().unwrap().out_pending.pop_front() {
                        let q = if t.is_empty() { VecDeque::from([vec![]]) } else { t.chunks(mps).map(|c| c.to_vec()).collect() };
                        l.cur_out = Some((t, q));
                    }
                }
                let Some((t, q)) = &mut l.cur_out else {
                    l.wakers.push(cx.waker().clone());
                    return Poll::Pending;
                };
                let p = q.pop_front().unwrap_or_default();
                l.packets_out += 1;
                if q.is_empty() {
                    let t = std::mem::take(t);
                    l.cur_out = None;
                    let mut s = h.lock().unwrap();
                    s.out_done.push_back((t, Ok(())));
                    s.pump();
                }
                if p.len() > buf.len() {
                    return Poll::Ready(Err(drv::EndpointError::BufferOverflow));
                }
                buf[..p.len()].copy_from_slice(&p);
                Poll::Ready(Ok(p.len()))
            })
        })
        .await
    }
}
impl drv::ControlPipe for Ctl {
    fn max_packet_size(&self) -> usize {
        64
    }
    async fn setup(&mut self) -> [u8; 8] {
        poll_fn(|cx| {
            with(|l| match l.setup.pop_front() {
                Some(s) => Poll::Ready(s),
                None => {
                    l.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            })
        })
        .await
    }
    async fn data_out(&mut self, _: &mut [u8], _: bool, _: bool) -> Result<usize, drv::EndpointError> {
        Err(drv::EndpointError::Disabled)
    }
    async fn data_in(&mut self, d: &[u8], _first: bool, last: bool) -> Result<(), drv::EndpointError> {
        with(|l| {
            l.data.extend_from_slice(d);
            if last {
                let d = std::mem::take(&mut l.data);
                l.answers.push(Some(d));
            }
        });
        Ok(())
    }
    async fn accept(&mut self) {
        with(|l| l.answers.push(Some(vec![])));
    }
    async fn reject(&mut self) {
        with(|l| l.answers.push(None));
    }
    async fn accept_set_address(&mut self, _: u8) {
        with(|l| l.answers.push(Some(vec![])));
    }
}
impl drv::Bus for Bus {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> drv::Event {
        poll_fn(|cx| {
            with(|l| match l.events.pop_front() {
                Some(s) => Poll::Ready(s),
                None => {
                    l.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            })
        })
        .await
    }
    fn endpoint_set_enabled(&mut self, ep: drv::EndpointAddress, on: bool) {
        with(|l| {
            if on {
                l.enabled.insert(ep.into());
            } else {
                l.enabled.remove(&ep.into());
            }
        });
    }
    fn endpoint_set_stalled(&mut self, _: drv::EndpointAddress, _: bool) {}
    fn endpoint_is_stalled(&mut self, _: drv::EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), drv::Unsupported> {
        Err(drv::Unsupported)
    }
}
impl drv::Driver<'static> for Dev {
    type EndpointOut = Ep;
    type EndpointIn = Ep;
    type ControlPipe = Ctl;
    type Bus = Bus;
    fn alloc_endpoint_out(&mut self, ep_type: drv::EndpointType, max_packet_size: u16, interval_ms: u8) -> Result<Ep, drv::EndpointAllocError> {
        self.next += 1;
        Ok(Ep(drv::EndpointInfo { addr: (self.next - 1).into(), ep_type, max_packet_size, interval_ms }))
    }
    fn alloc_endpoint_in(&mut self, ep_type: drv::EndpointType, max_packet_size: u16, interval_ms: u8) -> Result<Ep, drv::EndpointAllocError> {
        self.next += 1;
        Ok(Ep(drv::EndpointInfo { addr: (0x80 | (self.next - 1)).into(), ep_type, max_packet_size, interval_ms }))
    }
    fn start(self, _: u16) -> (Bus, Ctl) {
        (Bus, Ctl)
    }
}

/// Everything runs on one thread
pub struct NoMutex;
unsafe impl embassy_sync::blocking_mutex::raw::RawMutex for NoMutex {
    const INIT: Self = NoMutex;
    fn lock<R>(&self, f: impl FnOnce() -> R) -> R {
        f()
    }
}

// ---------------------------------------------------------------- enumeration

#[derive(Debug, Clone, Default)]
pub struct Desc {
    pub vid: u16,
    pub pid: u16,
    pub strings: [Option<String>; 3],
    pub ifs: Vec<If>,
    pub msos: Vec<u8>,
}
#[derive(Debug, Clone)]
pub struct If {
    pub number: u8,
    pub alt: u8,
    pub class: u8,
    pub subclass: u8,
    pub protocol: u8,
    pub name: Option<String>,
    pub eps: Vec<EpDesc>,
}

async fn control(req: [u8; 8]) -> Result<Option<Vec<u8>>, String> {
    let n = with(|l| {
        l.setup.push_back(req);
        l.answers.len()
    });
    kick();
    for _ in 0..20 {
        tokio::task::yield_now().await;
        if with(|l| l.answers.len() > n) {
            break;
        }
    }
    with(|l| if l.answers.len() == n + 1 { Ok(l.answers[n].clone()) } else { Err(format!("control request {req:02x?} was not answered")) })
}
async fn get(ty: u8, idx: u8, lang: u16, len: u16) -> Result<Option<Vec<u8>>, String> {
    let (l, n) = (lang.to_le_bytes(), len.to_le_bytes());
    control([0x80, 6, idx, ty, l[0], l[1], n[0], n[1]]).await
}
async fn string(idx: u8) -> Result<Option<String>, String> {
    if idx == 0 {
        return Ok(None);
    }
    let d = get(3, idx, 0x0409, 255).await?.ok_or(format!("string descriptor {idx} is missing"))?;
    let u: Vec<u16> = d[2..].chunks(2).map(|c| u16::from_le_bytes([c[0], *c.get(1).unwrap_or(&0)])).collect();
    Ok(Some(String::from_utf16_lossy(&u)))
}

/// What an operating system does with a device that was plugged in
pub async fn enumerate() -> Result<Desc, String> {
    with(|l| l.events.extend([drv::Event::PowerDetected, drv::Event::Reset]));
    kick();
    tokio::task::yield_now().await;
    let d = get(1, 0, 0, 18).await?.ok_or("no device descriptor")?;
    if d.len() != 18 || d[1] != 1 {
        return Err(format!("bad device descriptor {d:02x?}"));
    }
    control([0, 5, 9, 0, 0, 0, 0, 0]).await?.ok_or("SET_ADDRESS was rejected")?;
    let mut out = Desc { vid: u16::from_le_bytes([d[8], d[9]]), pid: u16::from_le_bytes([d[10], d[11]]), ..Default::default() };
    for i in 0..3 {
        out.strings[i] = string(d[14 + i]).await?;
    }
    let c = get(2, 0, 0, 1000).await?.ok_or("no configuration descriptor")?;
    if c.len() < 9 || u16::from_le_bytes([c[2], c[3]]) as usize != c.len() {
        return Err(format!("bad configuration descriptor {c:02x?}"));
    }
    let mut p = 0;
    while p < c.len() {
        let n = c[p] as usize;
        if n < 2 || p + n > c.len() {
            return Err(format!("bad descriptor at {p} in {c:02x?}"));
        }
        match c[p + 1] {
            4 => out.ifs.push(If { number: c[p + 2], alt: c[p + 3], class: c[p + 5], subclass: c[p + 6], protocol: c[p + 7], name: string(c[p + 8]).await?, eps: vec![] }),
            5 => {
                let e = EpDesc {
                    address: c[p + 2],
                    ty: match c[p + 3] & 3 { 0 => EndpointType::Control, 1 => EndpointType::Isochronous, 2 => EndpointType::Bulk, _ => EndpointType::Interrupt },
                    mps: u16::from_le_bytes([c[p + 4], c[p + 5]]) as usize,
                };
                out.ifs.last_mut().ok_or("endpoint without interface")?.eps.push(e);
            }
            _ => {}
        }
        p += n;
    }
    // Windows: the BOS descriptor announces the MS OS 2.0 descriptor set
    let b = get(15, 0, 0, 500).await?.ok_or("no BOS descriptor")?;
    let mut p = 5;
    while p + 4 <= b.len() {
        let n = b[p] as usize;
        if b[p + 2] == 5 && n >= 28 && b[p + 4..p + 8] == [0xDF, 0x60, 0xDD, 0xD8] {
            let (len, code) = ([b[p + 24], b[p + 25]], b[p + 26]);
            out.msos = control([0xC0, code, 0, 0, 7, 0, len[0], len[1]]).await?.unwrap_or_default();
        }
        if n == 0 {
            break;
        }
        p += n;
    }
    control([0, 9, 1, 0, 0, 0, 0, 0]).await?.ok_or("SET_CONFIGURATION was rejected")?;
    Ok(out)
}

pub fn dev_desc(d: &Desc) -> nusb::sim::DevDesc {
    let mut ifs: Vec<IfDesc> = vec![];
    for i in &d.ifs {
        match ifs.iter_mut().find(|x| x.number == i.number) {
            Some(x) => x.alts.push(i.eps.clone()),
            None => ifs.push(IfDesc { number: i.number, class: i.class, subclass: i.subclass, alts: vec![i.eps.clone()] }),
        }
    }
    nusb::sim::DevDesc {
        serial: d.strings[2].clone(),
        product: d.strings[1].clone(),
        vid: d.vid,
        pid: d.pid,
        ifs,
        open_fails: false,
        claim_fails: false,
    }
}
