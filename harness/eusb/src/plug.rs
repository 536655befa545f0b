//! C27: how the device presents itself to a host, and which endpoints it then uses.

use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    future::{poll_fn, Future},
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::{Arc, Mutex, OnceLock},
    task::{Context, Poll, Waker},
};

use embassy_usb_driver as drv;
use postcard_rpc::server::{WireRx, WireRxErrorKind, WireTx, WireTxErrorKind};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, proptest::prelude::*, CaseResult, Outcome, Run};

use crate::sim::{self, lend, Guard, NoMutex};

// ---------------------------------------------------------------- a USB controller

#[derive(Default)]
struct Bs {
    events: VecDeque<drv::Event>,
    setups: VecDeque<[u8; 8]>,
    /// answer to the last control request: data, or a stall
    resp: Option<Result<Vec<u8>, ()>>,
    data: Vec<u8>,
    /// (address, type, packet size) in the order of allocation
    eps: Vec<(u8, drv::EndpointType, u16)>,
    enabled: BTreeSet<u8>,
    outq: BTreeMap<u8, VecDeque<Vec<u8>>>,
    /// packets sent by the device
    inlog: Vec<(u8, Vec<u8>)>,
    /// endpoint addresses are handed out from here, ascending or descending
    first: u8,
    down: bool,
    misuse: Vec<String>,
}
type Sh = Arc<Mutex<Bs>>;

struct Dev(Sh);
struct Ep(Sh, drv::EndpointInfo);
struct Bus(Sh);
struct Ctl(Sh, usize);

impl Ep {
    fn addr(&self) -> u8 {
        self.1.addr.into()
    }
}
impl drv::Endpoint for Ep {
    fn info(&self) -> &drv::EndpointInfo {
        &self.1
    }
    async fn wait_enabled(&mut self) {
        let a = self.addr();
        poll_fn(|_| if self.0.lock().unwrap().enabled.contains(&a) { Poll::Ready(()) } else { Poll::Pending }).await
    }
}
impl drv::EndpointIn for Ep {
    async fn write(&mut self, buf: &[u8]) -> Result<(), drv::EndpointError> {
        let a = self.addr();
        let mut s = self.0.lock().unwrap();
        if !s.enabled.contains(&a) {
            return Err(drv::EndpointError::Disabled);
        }
        if buf.len() > self.1.max_packet_size as usize {
            s.misuse.push(format!("packet of {} bytes on a {} byte endpoint", buf.len(), self.1.max_packet_size));
        }
        s.inlog.push((a, buf.to_vec()));
        Ok(())
    }
}
impl drv::EndpointOut for Ep {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, drv::EndpointError> {
        let a = self.addr();
        poll_fn(|_| {
            let mut s = self.0.lock().unwrap();
            if !s.enabled.contains(&a) {
                return Poll::Ready(Err(drv::EndpointError::Disabled));
            }
            match s.outq.entry(a).or_default().pop_front() {
                None => Poll::Pending,
                Some(p) if p.len() > buf.len() => Poll::Ready(Err(drv::EndpointError::BufferOverflow)),
                Some(p) => {
                    buf[..p.len()].copy_from_slice(&p);
                    Poll::Ready(Ok(p.len()))
                }
            }
        })
        .await
    }
}
impl drv::ControlPipe for Ctl {
    fn max_packet_size(&self) -> usize {
        self.1
    }
    async fn setup(&mut self) -> [u8; 8] {
        poll_fn(|_| match self.0.lock().unwrap().setups.pop_front() {
            Some(s) => Poll::Ready(s),
            None => Poll::Pending,
        })
        .await
    }
    async fn data_out(&mut self, _: &mut [u8], _: bool, _: bool) -> Result<usize, drv::EndpointError> {
        Ok(0)
    }
    async fn data_in(&mut self, d: &[u8], first: bool, last: bool) -> Result<(), drv::EndpointError> {
        let mut s = self.0.lock().unwrap();
        if first {
            s.data.clear();
        }
        s.data.extend_from_slice(d);
        if last {
            let d = std::mem::take(&mut s.data);
            s.resp = Some(Ok(d));
        }
        Ok(())
    }
    async fn accept(&mut self) {
        self.0.lock().unwrap().resp = Some(Ok(vec![]));
    }
    async fn reject(&mut self) {
        self.0.lock().unwrap().resp = Some(Err(()));
    }
    async fn accept_set_address(&mut self, _: u8) {
        self.0.lock().unwrap().resp = Some(Ok(vec![]));
    }
}
impl drv::Bus for Bus {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> drv::Event {
        poll_fn(|_| {
            let mut s = self.0.lock().unwrap();
            match s.events.pop_front() {
                Some(e) => {
                    if matches!(e, drv::Event::Reset) {
                        s.enabled.clear();
                        s.outq.clear();
                    }
                    Poll::Ready(e)
                }
                None => Poll::Pending,
            }
        })
        .await
    }
    fn endpoint_set_enabled(&mut self, a: drv::EndpointAddress, on: bool) {
        let mut s = self.0.lock().unwrap();
        if on {
            s.enabled.insert(a.into());
        } else {
            s.enabled.remove(&a.into());
            s.outq.clear();
        }
    }
    fn endpoint_set_stalled(&mut self, _: drv::EndpointAddress, _: bool) {}
    fn endpoint_is_stalled(&mut self, _: drv::EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), drv::Unsupported> {
        Err(drv::Unsupported)
    }
}
impl Dev {
    fn alloc(&mut self, dir: u8, ep_type: drv::EndpointType, max_packet_size: u16, interval_ms: u8) -> Ep {
        let mut s = self.0.lock().unwrap();
        // the two directions count separately
        let k = s.eps.iter().filter(|e| e.0 & 0x80 == dir).count() as u8;
        let f = s.first + if dir == 0 { 0 } else { 2 };
        let n = if s.down { 15 - (f + k) % 15 } else { 1 + (f + k) % 15 };
        s.eps.push((n | dir, ep_type, max_packet_size));
        Ep(self.0.clone(), drv::EndpointInfo { addr: (n | dir).into(), ep_type, max_packet_size, interval_ms })
    }
}
impl drv::Driver<'static> for Dev {
    type EndpointOut = Ep;
    type EndpointIn = Ep;
    type ControlPipe = Ctl;
    type Bus = Bus;
    fn alloc_endpoint_out(&mut self, t: drv::EndpointType, mps: u16, i: u8) -> Result<Ep, drv::EndpointAllocError> {
        Ok(self.alloc(0, t, mps, i))
    }
    fn alloc_endpoint_in(&mut self, t: drv::EndpointType, mps: u16, i: u8) -> Result<Ep, drv::EndpointAllocError> {
        Ok(self.alloc(0x80, t, mps, i))
    }
    fn start(self, mps: u16) -> (Bus, Ctl) {
        (Bus(self.0.clone()), Ctl(self.0.clone(), mps as usize))
    }
}

// ---------------------------------------------------------------- cases

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Cfg {
    vid: u16,
    pid: u16,
    mps0: u8,
    strings: [Option<String>; 3],
    iads: bool,
    /// class, subclass and protocol of the device (without interface associations)
    #[serde(default)]
    class: (u8, u8, u8),
    #[serde(default)]
    self_powered: bool,
    power: u16,
    release: u16,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum How {
    Init,
    /// the application adds functions of its own: (class, bulk pair?, interrupt IN?)
    Extended(Vec<(u8, bool, bool)>),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Step {
    Reset(u8),
    Configure(bool),
    SetInterface,
    Str { idx: u8, lang: u16 },
    /// the string index the interface names
    OwnStr { lang: u16 },
    Device(u16),
    Config(u16),
    Msos(u16),
    /// a request nobody handles: request type, code, index
    Odd { class: bool, code: u8, index: u16 },
    Send(u16),
    Recv(u16),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Case {
    v4: bool,
    tight: bool,
    how: How,
    cfg: Cfg,
    first: u8,
    down: bool,
    steps: Vec<Step>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
struct CaseP {
    v4: bool,
    steps: Vec<Step>,
}

/// A device on the bus
struct Plug {
    sh: Sh,
    run: Pin<Box<dyn Future<Output = ()>>>,
    send: Box<dyn Fn(&[u8]) -> Poll<Result<(), WireTxErrorKind>>>,
    recv: Box<dyn FnMut() -> Poll<Result<Vec<u8>, WireRxErrorKind>>>,
    /// last
    _guard: Guard,
}
fn once<T>(f: impl Future<Output = T>) -> Poll<T> {
    let f = std::pin::pin!(f);
    f.poll(&mut Context::from_waker(Waker::noop()))
}

const TXLEN: usize = 2048;

macro_rules! opener {
    ($f:ident, $post:ident, $m:ident, $eu:ident) => {
        fn $f(cfg: &Cfg, how: &How, tight: bool, sh: &Sh) -> Plug {
            use postcard_rpc::server::impls::$m::dispatch_impl::{WireRxImpl, WireStorage, WireTxImpl};
            let mut g = Guard::default();
            let mut conf = $eu::Config::new(cfg.vid, cfg.pid);
            conf.max_packet_size_0 = cfg.mps0;
            let own: Vec<Option<&'static str>> = cfg.strings.iter().map(|s| s.as_ref().map(|s| &*lend(s.clone().into_boxed_str(), &mut g))).collect();
            (conf.manufacturer, conf.product, conf.serial_number) = (own[0], own[1], own[2]);
            conf.max_power = cfg.power;
            conf.self_powered = cfg.self_powered;
            conf.device_release = cfg.release;
            conf.composite_with_iads = cfg.iads;
            (conf.device_class, conf.device_sub_class, conf.device_protocol) = if cfg.iads { (0xEF, 2, 1) } else { cfg.class };
            let buf = lend(vec![0xA5u8; TXLEN].into_boxed_slice(), &mut g);
            fn go<const C: usize, const B: usize, const K: usize, const M: usize>(
                conf: $eu::Config<'static>, how: &How, sh: &Sh, buf: &'static mut [u8], g: &mut Guard,
            ) -> ($eu::UsbDevice<'static, Dev>, WireTxImpl<NoMutex, Dev>, WireRxImpl<Dev>) {
                type St<const C: usize, const B: usize, const K: usize, const M: usize> = WireStorage<NoMutex, Dev, C, B, K, M>;
                let st: &'static St<C, B, K, M> = lend(Box::new(St::<C, B, K, M>::new()), g);
                match how {
                    How::Init => st.init(Dev(sh.clone()), conf, buf),
                    How::Extended(x) => {
                        let (mut b, tx, rx) = st.init_without_build(Dev(sh.clone()), conf, buf);
                        for (class, bulk, int) in x {
                            let mut f = b.function(*class, 3, 4);
                            let mut i = f.interface();
                            let mut a = i.alt_setting(*class, 3, 4, None);
                            if *bulk {
                                a.endpoint_bulk_in(64);
                                a.endpoint_bulk_out(64);
                            }
                            if *int {
                                a.endpoint_interrupt_in(8, 10);
                            }
                        }
                        (b.build(), tx, rx)
                    }
                }
            }
            let (dev, tx, rx) = if tight { go::<200, 64, 48, 170>(conf, how, sh, buf, &mut g) } else { go::<256, 256, 64, 256>(conf, how, sh, buf, &mut g) };
            plug(sh.clone(), dev_run!(dev), tx, rx, g)
        }
        /// Possible once per process only
        fn $post(cfg: &Cfg, sh: &Sh) -> Plug {
            use postcard_rpc::server::impls::$m::dispatch_impl::WireStorage;
            let mut conf = $eu::Config::new(cfg.vid, cfg.pid);
            let own: Vec<Option<&'static str>> = cfg.strings.iter().map(|s| s.as_ref().map(|s| &*s.clone().leak())).collect();
            (conf.manufacturer, conf.product, conf.serial_number) = (own[0], own[1], own[2]);
            conf.max_packet_size_0 = cfg.mps0;
            conf.max_power = cfg.power;
            conf.self_powered = cfg.self_powered;
            conf.device_release = cfg.release;
            conf.composite_with_iads = cfg.iads;
            (conf.device_class, conf.device_sub_class, conf.device_protocol) = if cfg.iads { (0xEF, 2, 1) } else { cfg.class };
            let st: &'static WireStorage<NoMutex, Dev, 256, 256, 64, 256> = Box::leak(Box::new(WireStorage::new()));
            let (dev, tx, rx) = st.init_poststation(Dev(sh.clone()), conf, vec![0; TXLEN].leak());
            plug(sh.clone(), dev_run!(dev), tx, rx, Guard::default())
        }
    };
}
macro_rules! dev_run {
    ($d:ident) => {{
        let mut dev = $d;
        Box::pin(async move {
            dev.run().await;
        })
    }};
}
opener!(open3, post3, embassy_usb_v0_3, embassy_usb_0_3);
opener!(open4, post4, embassy_usb_v0_4, embassy_usb_0_4);

fn plug<T, R>(sh: Sh, run: Pin<Box<dyn Future<Output = ()>>>, tx: T, rx: R, guard: Guard) -> Plug
where
    T: WireTx<Error = WireTxErrorKind> + 'static,
    R: WireRx<Error = WireRxErrorKind> + 'static,
{
    let mut rx = rx;
    Plug {
        sh,
        run,
        send: Box::new(move |b| once(tx.send_raw(b))),
        recv: Box::new(move || {
            let mut buf = vec![0u8; TXLEN];
            once(rx.receive(&mut buf)).map(|r| r.map(|f| f.to_vec()))
        }),
        _guard: guard,
    }
}

impl Plug {
    fn step(&mut self) -> Result<(), String> {
        ensure!(self.run.as_mut().poll(&mut Context::from_waker(Waker::noop())).is_pending(), "the device stopped running");
        Ok(())
    }
    /// one control transfer: None = stalled
    fn control(&mut self, ty: u8, req: u8, value: u16, index: u16, len: u16) -> Result<Option<Vec<u8>>, String> {
        let (v, i, l) = (value.to_le_bytes(), index.to_le_bytes(), len.to_le_bytes());
        {
            let mut s = self.sh.lock().unwrap();
            s.resp = None;
            s.setups.push_back([ty, req, v[0], v[1], i[0], i[1], l[0], l[1]]);
        }
        self.step()?;
        let r = self.sh.lock().unwrap().resp.take();
        r.map(|r| r.ok()).ok_or_else(|| format!("control request {ty:#04x} {req} {value:#06x} {index} was not answered"))
    }
    fn get(&mut self, ty: u8, idx: u8, lang: u16, len: u16) -> Result<Option<Vec<u8>>, String> {
        self.control(0x80, 6, u16::from_le_bytes([idx, ty]), lang, len)
    }
    fn string(&mut self, idx: u8, lang: u16) -> Result<Option<String>, String> {
        let Some(d) = self.get(3, idx, lang, 255)? else { return Ok(None) };
        ensure!(d.len() >= 2 && d[0] as usize == d.len() && d[1] == 3 && d.len() % 2 == 0, "malformed string descriptor {d:02x?}");
        let u: Vec<u16> = d[2..].chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        Ok(Some(String::from_utf16_lossy(&u)))
    }
    fn reset(&mut self, addr: u8) -> Result<(), String> {
        self.sh.lock().unwrap().events.push_back(drv::Event::Reset);
        self.step()?;
        let r = self.control(0x00, 5, addr as u16, 0, 0)?;
        ensure!(r.is_some(), "SET_ADDRESS refused");
        Ok(())
    }
}

// ---------------------------------------------------------------- oracle

struct Interface {
    number: u8,
    alt: u8,
    class: (u8, u8, u8),
    string: u8,
    eps: Vec<(u8, u8, u16)>,
}
fn parse_config(d: &[u8]) -> Result<Vec<Interface>, String> {
    ensure!(d.len() >= 9 && d[0] == 9 && d[1] == 2, "malformed configuration descriptor {d:02x?}");
    ensure_eq!(u16::from_le_bytes([d[2], d[3]]) as usize, d.len(), "total length in the configuration descriptor");
    let mut out: Vec<Interface> = vec![];
    let mut i = 9;
    while i < d.len() {
        let l = d[i] as usize;
        ensure!(l >= 2 && i + l <= d.len(), "malformed descriptor at {i} of {d:02x?}");
        match d[i + 1] {
            4 => out.push(Interface { number: d[i + 2], alt: d[i + 3], class: (d[i + 5], d[i + 6], d[i + 7]), string: d[i + 8], eps: vec![] }),
            5 => {
                let Some(x) = out.last_mut() else { return Err("endpoint before any interface".into()) };
                x.eps.push((d[i + 2], d[i + 3] & 3, u16::from_le_bytes([d[i + 4], d[i + 5]])));
            }
            _ => {}
        }
        i += l;
    }
    Ok(out)
}
const MS_UUID: [u8; 16] = [0xdf, 0x60, 0xdd, 0xd8, 0x89, 0x45, 0xc7, 0x4c, 0x9c, 0xd2, 0x65, 0x9d, 0x9e, 0x64, 0x8a, 0x9f];

fn u16s(d: &[u8]) -> String {
    String::from_utf16_lossy(&d.chunks(2).filter(|c| c.len() == 2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect::<Vec<_>>())
}

/// Windows must find WinUSB for the device
fn windows(p: &mut Plug) -> Result<(), String> {
    let Some(bos) = p.get(15, 0, 0, 4096)? else { return Err("no BOS descriptor".into()) };
    let mut i = 5;
    let mut found = None;
    while i + 2 < bos.len() {
        let l = bos[i] as usize;
        ensure!(l >= 3 && i + l <= bos.len(), "malformed BOS descriptor {bos:02x?}");
        if bos[i + 2] == 5 && l >= 28 && bos[i + 4..i + 20] == MS_UUID {
            found = Some((bos[i + 26], u16::from_le_bytes([bos[i + 24], bos[i + 25]])));
        }
        i += l;
    }
    let Some((code, len)) = found else { return Err(format!("no MS OS 2.0 capability in {bos:02x?}")) };
    let Some(d) = p.control(0xC0, code, 0, 7, 4096)? else { return Err("MS OS 2.0 descriptor set refused".into()) };
    ensure_eq!(d.len(), len as usize, "length of the MS OS 2.0 descriptor set");
    let (mut i, mut winusb, mut guid) = (0, false, false);
    while i < d.len() {
        let l = u16::from_le_bytes([d[i], d[i + 1]]) as usize;
        ensure!(l >= 4 && i + l <= d.len(), "malformed MS OS 2.0 descriptor set {d:02x?}");
        let x = &d[i..i + l];
        match x[2] {
            3 if l >= 20 => winusb |= x[4..12] == *b"WINUSB\0\0" && x[12..20] == [0; 8],
            4 if l >= 10 => {
                let n = u16::from_le_bytes([x[6], x[7]]) as usize;
                let name = u16s(&x[8..8 + n]);
                guid |= x[4] == 7 && name == "DeviceInterfaceGUIDs\0" && u16s(&x[10 + n..]) == "{AFB9A6FB-30BA-44BC-9232-806CFC875321}\0\0";
            }
            _ => {}
        }
        i += l;
    }
    ensure!(winusb, "no WINUSB compatible id in {d:02x?}");
    ensure!(guid, "no device interface GUID in {d:02x?}");
    Ok(())
}

fn bytes(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + salt * 13 + 1) as u8).collect()
}

/// enumerate, then follow the steps
fn drive(p: &mut Plug, cfg: &Cfg, post: bool, extra: &[(u8, bool, bool)], steps: &[Step]) -> CaseResult {
    {
        // whatever an earlier case left behind (the poststation device is shared)
        let mut s = p.sh.lock().unwrap();
        s.setups.clear();
        s.events.clear();
        s.outq.clear();
        s.inlog.clear();
        s.misuse.clear();
    }
    p.reset(5)?;
    let Some(dd) = p.get(1, 0, 0, 64)? else { return Err("no device descriptor".into()) };
    ensure!(dd.len() == 18 && dd[0] == 18 && dd[1] == 1, "malformed device descriptor {dd:02x?}");
    ensure_eq!((u16::from_le_bytes([dd[8], dd[9]]), u16::from_le_bytes([dd[10], dd[11]])), (cfg.vid, cfg.pid), "vendor and product id");
    ensure_eq!(u16::from_le_bytes([dd[12], dd[13]]), cfg.release, "device release");
    ensure_eq!(dd[7], cfg.mps0, "control packet size");
    ensure_eq!((dd[4], dd[5], dd[6]), if cfg.iads { (0xEF, 2, 1) } else { cfg.class }, "class of the device");
    ensure_eq!(dd[17], 1, "number of configurations");
    for (i, k) in [14, 15, 16].into_iter().enumerate() {
        let got = if dd[k] == 0 { None } else { p.string(dd[k], 0x409)? };
        ensure_eq!(&got, &cfg.strings[i], "string {i} of the device");
    }
    let Some(cd) = p.get(2, 0, 0, 4096)? else { return Err("no configuration descriptor".into()) };
    let ifs = parse_config(&cd)?;
    ensure_eq!((cd[7] & 0x40 != 0, cd[8] as u16), (cfg.self_powered, cfg.power / 2), "power supply");
    ensure_eq!(ifs.len(), 1 + extra.len(), "number of interfaces");
    // ours comes first, so that hosts looking for the first vendor-specific interface find it
    let me = &ifs[0];
    ensure_eq!((me.number, me.alt), (0, 0), "number and alternate setting of the interface");
    ensure_eq!(me.class, if post { (0xff, 0xca, 0x7d) } else { (0xff, 0, 0) }, "class of the interface");
    let (outs, ins): (Vec<&(u8, u8, u16)>, Vec<_>) = me.eps.iter().partition(|e| e.0 & 0x80 == 0);
    ensure!(outs.len() == 1 && ins.len() == 1, "endpoints {:02x?}, expected one per direction", me.eps);
    ensure!(me.eps.iter().all(|e| e.1 == 2 && e.2 == 64), "endpoints (address, type, size) {:02x?}, expected bulk endpoints of 64 bytes", me.eps);
    let (out, inn) = (outs[0].0, ins[0].0);
    for (k, x) in extra.iter().enumerate() {
        let i = &ifs[1 + k];
        ensure!(i.number as usize == 1 + k && i.class == (x.0, 3, 4) && i.eps.len() == 2 * x.1 as usize + x.2 as usize, "function {k} of the application is presented as {:02x?} with {:02x?}", i.class, i.eps);
    }
    ensure!(post == (me.string != 0), "the interface names string {}, expected {}", me.string, if post { "one" } else { "none" });
    windows(p)?;

    let mut conf = false;
    let mut acc: Vec<u8> = vec![];
    let (mut sent, mut rcvd, mut closed, mut reconf, mut strs) = (0, 0, 0, 0, 0);
    for (si, st) in steps.iter().enumerate() {
        match st {
            Step::Reset(a) => {
                p.reset(1 + a % 126)?;
                conf = false;
                acc.clear();
            }
            Step::Configure(on) => {
                let r = p.control(0, 9, *on as u16, 0, 0)?;
                ensure!(r.is_some(), "step {si}: SET_CONFIGURATION {on} refused");
                reconf += (*on && !conf) as usize;
                conf = *on;
                acc.clear();
            }
            Step::SetInterface if conf => {
                let r = p.control(1, 11, 0, 0, 0)?;
                ensure!(r.is_some(), "step {si}: SET_INTERFACE refused");
            }
            Step::SetInterface => {}
            Step::Str { idx, lang } => {
                // 1 to 3 are the device's, 0 the languages
                let want = match *idx {
                    0 => continue,
                    n @ 1..=3 => cfg.strings[n as usize - 1].clone(),
                    n if post && n == me.string && *lang == 0x409 => Some("Poststation".into()),
                    _ => None,
                };
                let got = p.string(*idx, *lang)?;
                ensure_eq!(got, want, "step {si}: string {idx} in language {lang:#06x}");
                strs += 1;
            }
            Step::OwnStr { lang } => {
                let idx = if me.string != 0 { me.string } else { 4 };
                let got = p.string(idx, *lang)?;
                let want = (post && *lang == 0x409).then(|| "Poststation".to_string());
                ensure_eq!(got, want, "step {si}: string {idx} in language {lang:#06x}");
                strs += 1;
            }
            Step::Device(n) => {
                let d = p.get(1, 0, 0, *n)?;
                ensure_eq!(d.as_deref(), Some(&dd[..dd.len().min(*n as usize)]), "step {si}: device descriptor");
            }
            Step::Config(n) => {
                let d = p.get(2, 0, 0, *n)?;
                ensure_eq!(d.as_deref(), Some(&cd[..cd.len().min(*n as usize)]), "step {si}: configuration descriptor");
            }
            Step::Msos(_) => windows(p)?,
            Step::Odd { class, code, index } => {
                // the vendor request for the descriptor set is the one known request
                let r = p.control(if *class { 0xA1 } else { 0xC0 }, *code, 0, if *index == 7 { 8 } else { *index }, 16)?;
                ensure!(r.is_none(), "step {si}: unknown request answered with {r:02x?}");
            }
            Step::Send(n) => {
                let f = bytes(1 + *n as usize, si);
                let from = p.sh.lock().unwrap().inlog.len();
                match (p.send)(&f) {
                    Poll::Pending => return Err(format!("step {si}: sending waits for an endpoint nobody serves")),
                    Poll::Ready(r) if conf => {
                        ensure!(r.is_ok(), "step {si}: sending on a configured device failed: {r:?}");
                        sent += 1;
                    }
                    Poll::Ready(r) => {
                        ensure!(matches!(r, Err(WireTxErrorKind::ConnectionClosed)), "step {si}: sending while not configured gave {r:?}");
                        closed += 1;
                        continue;
                    }
                }
                let log = p.sh.lock().unwrap().inlog[from..].to_vec();
                let mut frames = vec![];
                for (a, d) in log {
                    ensure!(a == inn, "step {si}: packet on endpoint {a:#04x}, the interface has {inn:#04x}");
                    acc.extend_from_slice(&d);
                    if d.len() < 64 && !acc.is_empty() {
                        frames.push(std::mem::take(&mut acc));
                    }
                }
                ensure!(frames == [f], "step {si}: the host received frames of {:?} bytes, expected one of {}", frames.iter().map(|x| x.len()).collect::<Vec<_>>(), 1 + n);
            }
            Step::Recv(n) => {
                let f = bytes(*n as usize, si);
                if conf {
                    let mut s = p.sh.lock().unwrap();
                    let q = s.outq.entry(out).or_default();
                    q.extend(f.chunks(64).map(|c| c.to_vec()));
                    if f.len() % 64 == 0 {
                        q.push_back(vec![]);
                    }
                }
                match (p.recv)() {
                    Poll::Pending => return Err(format!("step {si}: the receiver does not get what the host sends on endpoint {out:#04x}")),
                    Poll::Ready(r) if conf => {
                        ensure!(r.as_deref().ok() == Some(&f[..]), "step {si}: received {r:02x?}, the host sent {} bytes", f.len());
                        rcvd += 1;
                    }
                    Poll::Ready(r) => {
                        ensure!(matches!(r, Err(WireRxErrorKind::ConnectionClosed)), "step {si}: receiving while not configured gave {r:?}");
                        closed += 1;
                    }
                }
            }
        }
        let s = p.sh.lock().unwrap();
        ensure!(s.misuse.is_empty(), "{}", s.misuse[0]);
    }
    Ok(Outcome::new(sent + rcvd + strs >= 2).label(closed > 0, "used while not configured").label(reconf > 1, "reconfigured").label(!extra.is_empty(), "further functions").label(strs > 0, "strings read"))
}

fn run(c: &Case) -> CaseResult {
    sim::reset();
    let sh: Sh = Arc::new(Mutex::new(Bs { first: c.first % 15, down: c.down, ..Default::default() }));
    let mut p = if c.v4 { open4(&c.cfg, &c.how, c.tight, &sh) } else { open3(&c.cfg, &c.how, c.tight, &sh) };
    let extra = match &c.how { How::Init => &[][..], How::Extended(x) => x };
    drive(&mut p, &c.cfg, false, extra, &c.steps)
}

struct Post(Plug);
// The plug is used by one thread at a time, under the lock; nothing in it is tied to a thread
unsafe impl Send for Post {}

fn run_post(c: &CaseP) -> CaseResult {
    sim::reset();
    static P: OnceLock<Mutex<[Option<Post>; 2]>> = OnceLock::new();
    let cfg = Cfg { vid: 0x1209, pid: 0x7007, mps0: 64, strings: [None, Some("a device".into()), Some("0001".into())], iads: true, class: (0, 0, 0), self_powered: false, power: 100, release: 0x10 };
    let mut g = P.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
    let slot = &mut g[c.v4 as usize];
    let p = slot.get_or_insert_with(|| {
        let sh: Sh = Arc::new(Mutex::new(Bs { first: 3, ..Default::default() }));
        Post(if c.v4 { post4(&cfg, &sh) } else { post3(&cfg, &sh) })
    });
    let r = catch_unwind(AssertUnwindSafe(|| drive(&mut p.0, &cfg, true, &[], &c.steps)));
    drop(g);
    r.unwrap_or_else(|e| resume_unwind(e))
}

fn steps() -> impl Strategy<Value = Vec<Step>> {
    let lang = || prop_oneof![4 => Just(0x409u16), 1 => Just(0u16), 1 => Just(0x407), 1 => Just(0x0904), 1 => Just(0x0809), 1 => Just(0x1409), 1 => any::<u16>()];
    let len = || prop_oneof![4 => 0u16..130, 1 => 0u16..1500, 1 => prop_oneof![Just(63u16), Just(64), Just(127), Just(128)]];
    let step = prop_oneof![
        1 => any::<u8>().prop_map(Step::Reset),
        4 => prop::bool::weighted(0.8).prop_map(Step::Configure),
        1 => Just(Step::SetInterface),
        2 => (prop_oneof![0u8..8, any::<u8>()], lang()).prop_map(|(idx, lang)| Step::Str { idx, lang }),
        2 => lang().prop_map(|lang| Step::OwnStr { lang }),
        1 => (1u16..40).prop_map(Step::Device),
        1 => (1u16..200).prop_map(Step::Config),
        1 => (0u16..300).prop_map(Step::Msos),
        1 => (any::<bool>(), any::<u8>(), 0u16..10).prop_map(|(class, code, index)| Step::Odd { class, code, index }),
        5 => len().prop_map(Step::Send),
        5 => len().prop_map(Step::Recv),
    ];
    (prop::bool::weighted(0.7), vcommon::hist(step, 1..16)).prop_map(|(conf, mut s)| {
        if conf {
            s.insert(0, Step::Configure(true));
        }
        s
    })
}

pub fn c27(r: &mut Run) {
    r.assume("The USB controller is simulated (an implementation of embassy-usb-driver's traits); embassy-usb itself is the real crate, in both supported versions. Endpoint addresses are whatever the controller hands out; its endpoints refuse transfers while the device is not configured.");
    r.assume("init_poststation can be called once per process, so its check drives one device per version through generated histories, each starting with a bus reset.");
    r.check(
        "enumeration",
        "generated device configurations, buffer sizes, endpoint numberings and further functions of the application: the device is enumerated as a host does (descriptors parsed), then follows a history of resets, (re)configurations, descriptor and string requests and frames in both directions; non-trivial = at least two frames or strings",
        1_000_000,
        20_000_000,
        || {
            let s = || prop::option::of("[a-zA-Z0-9 äß]{1,18}");
            let class = prop_oneof![2 => Just((0u8, 0u8, 0u8)), 1 => Just((0xff, 0, 0)), 1 => Just((2, 0, 0)), 1 => any::<(u8, u8, u8)>()];
            let cfg = (any::<u16>(), any::<u16>(), prop_oneof![Just(8u8), Just(16), Just(32), Just(64)], (s(), s(), s()), any::<bool>(), (0u16..=500, any::<bool>()), any::<u16>(), class)
                .prop_map(|(vid, pid, mps0, (a, b, c), iads, (power, self_powered), release, class)| Cfg { vid, pid, mps0, strings: [a, b, c], iads, class, self_powered, power, release });
            let how = prop_oneof![
                1 => Just(How::Init),
                1 => prop::collection::vec((prop_oneof![Just(0xffu8), Just(3), Just(0x0a)], any::<bool>(), any::<bool>()), 0..4).prop_map(How::Extended),
            ];
            (any::<bool>(), any::<bool>(), how, cfg, 0u8..15, any::<bool>(), steps())
                .prop_map(|(v4, tight, how, cfg, first, down, steps)| Case { v4, tight, how, cfg, first, down, steps })
        },
        run,
    );
    r.check(
        "poststation",
        "the same histories on a device set up with init_poststation: interface marked for poststation and its string given in English only; non-trivial as above",
        200_000,
        4_000_000,
        || (any::<bool>(), steps()).prop_map(|(v4, steps)| CaseP { v4, steps }),
        run_post,
    );
}
