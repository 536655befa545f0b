//! Virtual clock, executor and simulated USB endpoints. All state is per thread: every case runs
//! on one thread, and is a pure function of the case.

use std::{
    cell::{Cell, RefCell},
    collections::VecDeque,
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

use embassy_usb_driver as drv;

// ---------------------------------------------------------------- clock

thread_local! {
    static NOW: Cell<u64> = const { Cell::new(0) };
    static ALARMS: RefCell<Vec<(u64, Waker)>> = const { RefCell::new(vec![]) };
}
struct Clock;
impl embassy_time_driver::Driver for Clock {
    fn now(&self) -> u64 {
        NOW.get()
    }
    fn schedule_wake(&self, at: u64, waker: &Waker) {
        ALARMS.with_borrow_mut(|a| {
            if !a.iter().any(|(t, w)| *t == at && w.will_wake(waker)) {
                a.push((at, waker.clone()))
            }
        });
    }
}
embassy_time_driver::time_driver_impl!(static CLOCK: Clock = Clock);

pub fn now_us() -> u64 {
    NOW.get() * (1_000_000 / embassy_time_driver::TICK_HZ)
}
pub async fn sleep_us(us: u64) {
    embassy_time::Timer::after(embassy_time::Duration::from_micros(us)).await
}
/// Wait for as long as the case runs
pub async fn forever() {
    std::future::pending::<()>().await
}

// ---------------------------------------------------------------- executor

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
type Task = (Option<Pin<Box<dyn Future<Output = ()>>>>, Arc<Flag>);

#[derive(Clone, Default)]
pub struct Exec(Rc<RefCell<Vec<Task>>>);

impl Exec {
    pub fn spawn(&self, f: impl Future<Output = ()> + 'static) {
        self.0.borrow_mut().push((Some(Box::pin(f)), Arc::new(Flag(AtomicBool::new(true)))));
    }
    /// Run until nothing can make progress any more, not even by letting time pass.
    /// `pick` chooses among the runnable tasks. Returns the number of unfinished tasks.
    pub fn run(&self, sched: &[u8]) -> usize {
        let mut k = 0usize;
        let mut polls = 0u64;
        let mut seen: Vec<u64> = vec![0; self.0.borrow().len()];
        let mut here = 0usize; // polls since time last passed
        loop {
            let ready: Vec<usize> = self.0.borrow().iter().enumerate().filter(|(_, t)| t.0.is_some() && t.1 .0.load(Ordering::SeqCst)).map(|x| x.0).collect();
            // Waiters of an embassy mutex keep waking each other: once everybody had his fair share
            // of polls at this instant, time passes all the same.
            if ready.is_empty() || (here > 400 && ALARMS.with_borrow(|a| !a.is_empty())) {
                here = 0;
                // let time pass
                let next = ALARMS.with_borrow(|a| a.iter().map(|x| x.0).min());
                let Some(t) = next else { break };
                NOW.set(NOW.get().max(t));
                let due: Vec<Waker> = ALARMS.with_borrow_mut(|a| {
                    let (d, rest) = std::mem::take(a).into_iter().partition::<Vec<_>, _>(|x| x.0 <= t);
                    *a = rest;
                    d.into_iter().map(|x| x.1).collect()
                });
                due.into_iter().for_each(|w| w.wake());
                continue;
            }
            here += 1;
            let i = if here > 100 {
                *ready.iter().min_by_key(|i| seen[**i]).unwrap()
            } else {
                ready[if sched.is_empty() { k } else { sched[k % sched.len()] as usize } % ready.len()]
            };
            seen[i] = polls + 1;
            k += 1;
            polls += 1;
            if polls > 2_000_000 {
                panic!("the code under test never comes to rest (two million polls)");
            }
            let (mut f, flag) = {
                let mut t = self.0.borrow_mut();
                (t[i].0.take().unwrap(), t[i].1.clone())
            };
            flag.0.store(false, Ordering::SeqCst);
            let w = Waker::from(flag);
            if let Poll::Pending = f.as_mut().poll(&mut Context::from_waker(&w)) {
                self.0.borrow_mut()[i].0 = Some(f);
            }
        }
        self.0.borrow().iter().filter(|t| t.0.is_some()).count()
    }
}
impl Exec {
    pub fn clear(&self) {
        let t = std::mem::take(&mut *self.0.borrow_mut());
        drop(t);
    }
}

// ---------------------------------------------------------------- endpoints

/// How the endpoint treats one packet write
#[derive(Debug, Clone, Copy, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Wr {
    /// accepted after some µs
    Ok(u32),
    /// never accepted
    Stall,
    /// fails after some µs: Disabled or BufferOverflow
    Err(u32, bool),
}
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Rd {
    Packet(Vec<u8>),
    Disabled,
    /// nothing arrives for some µs
    Gap(u32),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Log {
    /// a write began
    Start(Vec<u8>),
    /// the packet went out
    Sent,
    Failed,
    /// the write was given up before it was accepted
    Dropped,
    /// harness marker: call `id` returned, at this time (µs)
    Done(usize, u64),
}

#[derive(Default)]
pub struct State {
    pub wr: VecDeque<Wr>,
    pub log: Vec<Log>,
    pub rd: VecDeque<Rd>,
    /// a packet too long for the buffer is dropped (otherwise it stays)
    pub overflow_drops: bool,
    pub misuse: Vec<String>,
    pub reads: usize,
}
thread_local! {
    static STATE: RefCell<State> = RefCell::default();
}
pub fn reset() {
    STATE.with_borrow_mut(|s| *s = State::default());
    NOW.set(0);
    ALARMS.with_borrow_mut(|a| a.clear());
}
pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    STATE.with_borrow_mut(f)
}

#[derive(Debug)]
pub struct Dev;
pub struct Ep(drv::EndpointInfo);
pub struct Bus;
pub struct Ctl;

impl drv::Endpoint for Ep {
    fn info(&self) -> &drv::EndpointInfo {
        &self.0
    }
    async fn wait_enabled(&mut self) {}
}
struct InFlight(bool);
impl Drop for InFlight {
    fn drop(&mut self) {
        if self.0 {
            with(|s| s.log.push(Log::Dropped));
        }
    }
}
impl drv::EndpointIn for Ep {
    async fn write(&mut self, buf: &[u8]) -> Result<(), drv::EndpointError> {
        let how = with(|s| {
            if buf.len() > self.0.max_packet_size as usize {
                s.misuse.push(format!("packet of {} bytes on a {} byte endpoint", buf.len(), self.0.max_packet_size));
            }
            s.log.push(Log::Start(buf.to_vec()));
            s.wr.pop_front().unwrap_or(Wr::Ok(0))
        });
        let mut g = InFlight(true);
        let r = match how {
            Wr::Ok(d) => {
                if d > 0 {
                    sleep_us(d as u64).await;
                }
                with(|s| s.log.push(Log::Sent));
                Ok(())
            }
            Wr::Stall => {
                forever().await;
                Ok(())
            }
            Wr::Err(d, dis) => {
                if d > 0 {
                    sleep_us(d as u64).await;
                }
                with(|s| s.log.push(Log::Failed));
                Err(if dis { drv::EndpointError::Disabled } else { drv::EndpointError::BufferOverflow })
            }
        };
        g.0 = false;
        r
    }
}
impl drv::EndpointOut for Ep {
    async fn read(&mut self, buf: &mut [u8]) -> Result<usize, drv::EndpointError> {
        loop {
            let gap = with(|s| {
                s.reads += 1;
                match s.rd.front() {
                    None => Err(None),
                    Some(Rd::Gap(d)) => {
                        let d = *d;
                        s.rd.pop_front();
                        Err(Some(d))
                    }
                    Some(Rd::Disabled) => {
                        s.rd.pop_front();
                        Ok(Err(drv::EndpointError::Disabled))
                    }
                    Some(Rd::Packet(p)) => {
                        if p.len() > buf.len() {
                            if s.overflow_drops {
                                s.rd.pop_front();
                            }
                            Ok(Err(drv::EndpointError::BufferOverflow))
                        } else {
                            buf[..p.len()].copy_from_slice(p);
                            let n = p.len();
                            s.rd.pop_front();
                            Ok(Ok(n))
                        }
                    }
                }
            });
            match gap {
                Ok(r) => return r,
                Err(Some(d)) => sleep_us(d as u64).await,
                Err(None) => forever().await,
            }
        }
    }
}
impl drv::ControlPipe for Ctl {
    fn max_packet_size(&self) -> usize {
        64
    }
    async fn setup(&mut self) -> [u8; 8] {
        forever().await;
        [0; 8]
    }
    async fn data_out(&mut self, _: &mut [u8], _: bool, _: bool) -> Result<usize, drv::EndpointError> {
        Err(drv::EndpointError::Disabled)
    }
    async fn data_in(&mut self, _: &[u8], _: bool, _: bool) -> Result<(), drv::EndpointError> {
        Err(drv::EndpointError::Disabled)
    }
    async fn accept(&mut self) {}
    async fn reject(&mut self) {}
    async fn accept_set_address(&mut self, _: u8) {}
}
impl drv::Bus for Bus {
    async fn enable(&mut self) {}
    async fn disable(&mut self) {}
    async fn poll(&mut self) -> drv::Event {
        forever().await;
        drv::Event::Reset
    }
    fn endpoint_set_enabled(&mut self, _: drv::EndpointAddress, _: bool) {}
    fn endpoint_set_stalled(&mut self, _: drv::EndpointAddress, _: bool) {}
    fn endpoint_is_stalled(&mut self, _: drv::EndpointAddress) -> bool {
        false
    }
    async fn remote_wakeup(&mut self) -> Result<(), drv::Unsupported> {
        Err(drv::Unsupported)
    }
}
impl drv::Driver<'static> for Dev {
    type EndpointOut = Ep;
    type EndpointIn = Ep;
    type ControlPipe = Ctl;
    type Bus = Bus;
    fn alloc_endpoint_out(&mut self, ep_type: drv::EndpointType, max_packet_size: u16, interval_ms: u8) -> Result<Ep, drv::EndpointAllocError> {
        Ok(Ep(drv::EndpointInfo { addr: 1.into(), ep_type, max_packet_size, interval_ms }))
    }
    fn alloc_endpoint_in(&mut self, ep_type: drv::EndpointType, max_packet_size: u16, interval_ms: u8) -> Result<Ep, drv::EndpointAllocError> {
        Ok(Ep(drv::EndpointInfo { addr: 0x81.into(), ep_type, max_packet_size, interval_ms }))
    }
    fn start(self, _: u16) -> (Bus, Ctl) {
        (Bus, Ctl)
    }
}

/// Everything runs on one thread
pub struct NoMutex;
unsafe impl embassy_sync::blocking_mutex::raw::RawMutex for NoMutex {
    const INIT: Self = NoMutex;
    fn lock<R>(&self, f: impl FnOnce() -> R) -> R {
        f()
    }
}

// ---------------------------------------------------------------- the two versions

pub trait Ver: 'static {
    type Tx: postcard_rpc::server::WireTx<Error = postcard_rpc::server::WireTxErrorKind> + Clone + 'static;
    type Rx: postcard_rpc::server::WireRx<Error = postcard_rpc::server::WireRxErrorKind> + 'static;
    /// build the transport with a transmit buffer of the given size; the guard frees it: drop it last
    fn build(tx_len: usize) -> (Self::Tx, Self::Rx, Guard);
    /// None if this version has a fixed timeout
    fn set_timeout(tx: &Self::Tx, ms: usize) -> Option<Pin<Box<dyn Future<Output = ()>>>>;
}

#[derive(Default)]
pub struct Guard(Vec<Box<dyn FnOnce()>>);
impl Drop for Guard {
    fn drop(&mut self) {
        for f in self.0.drain(..) {
            f()
        }
    }
}
/// A `&'static mut` that the guard takes back
pub fn lend<T: ?Sized + 'static>(b: Box<T>, g: &mut Guard) -> &'static mut T {
    let p = Box::into_raw(b);
    g.0.push(Box::new(move || drop(unsafe { Box::from_raw(p) })));
    unsafe { &mut *p }
}

macro_rules! ver {
    ($name:ident, $m:ident, $eu:ident, $set:expr) => {
        pub struct $name;
        impl Ver for $name {
            type Tx = postcard_rpc::server::impls::$m::dispatch_impl::WireTxImpl<NoMutex, Dev>;
            type Rx = postcard_rpc::server::impls::$m::dispatch_impl::WireRxImpl<Dev>;
            fn build(tx_len: usize) -> (Self::Tx, Self::Rx, Guard) {
                type St = postcard_rpc::server::impls::$m::dispatch_impl::WireStorage<NoMutex, Dev, 256, 256, 64, 256>;
                let mut g = Guard(vec![]);
                let st: &'static St = lend(Box::new(St::new()), &mut g);
                let buf = lend(vec![0xA5u8; tx_len].into_boxed_slice(), &mut g);
                let (dev, tx, rx) = st.init(Dev, $eu::Config::new(0x16c0, 0x27dd), buf);
                drop(dev);
                (tx, rx, g)
            }
            fn set_timeout(tx: &Self::Tx, ms: usize) -> Option<Pin<Box<dyn Future<Output = ()>>>> {
                $set(tx.clone(), ms)
            }
        }
    };
}
ver!(V3, embassy_usb_v0_3, embassy_usb_0_3, |_t, _ms| None);
ver!(V4, embassy_usb_v0_4, embassy_usb_0_4, |t: Self::Tx, ms| Some(Box::pin(async move { t.set_timeout_ms_per_frame(ms).await }) as Pin<Box<dyn Future<Output = ()>>>));
