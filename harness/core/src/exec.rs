//! A single threaded executor whose poll order is chosen by a generated schedule.
//!
//! It runs inside a paused-clock tokio current-thread runtime with a seeded select! RNG, so that
//! every execution is a pure function of the case.

use std::{
    cell::{Cell, RefCell},
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

enum Slot {
    Live(Pin<Box<dyn Future<Output = ()>>>),
    /// taken out while being polled
    Busy,
    Done,
    Cancelled,
}

struct Task {
    slot: Slot,
    flag: Arc<Flag>,
}

#[derive(Clone)]
pub struct Exec {
    tasks: Rc<RefCell<Vec<Task>>>,
    last: Rc<Cell<usize>>,
    sched: Rc<RefCell<(Vec<u8>, usize)>>,
    pub polls: Rc<Cell<u64>>,
    kills: Rc<RefCell<Vec<usize>>>,
    /// see `with_rt`
    tight: Option<usize>,
}

thread_local! {
    static TIGHT: Cell<Option<usize>> = const { Cell::new(None) };
}

/// tokio's cooperative budget of one task poll
const COOP: usize = 128;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct TaskId(usize);

impl Exec {
    pub fn new(schedule: &[u8]) -> Self {
        Exec {
            tasks: Default::default(),
            last: Rc::new(Cell::new(usize::MAX)),
            sched: Rc::new(RefCell::new((schedule.to_vec(), 0))),
            polls: Rc::new(Cell::new(0)),
            kills: Default::default(),
            tight: TIGHT.get(),
        }
    }

    /// Tasks run with a nearly used up budget: they can be suspended at any tokio operation
    pub fn tight(&self) -> bool {
        self.tight.is_some()
    }

    pub fn spawn(&self, fut: impl Future<Output = ()> + 'static) -> TaskId {
        let mut t = self.tasks.borrow_mut();
        t.push(Task {
            slot: Slot::Live(Box::pin(fut)),
            flag: Arc::new(Flag(AtomicBool::new(true))),
        });
        TaskId(t.len() - 1)
    }

    /// Drop the task's future
    pub fn cancel(&self, id: TaskId) {
        let old = {
            let mut t = self.tasks.borrow_mut();
            match t[id.0].slot {
                Slot::Live(_) => std::mem::replace(&mut t[id.0].slot, Slot::Cancelled),
                Slot::Busy => {
                    self.kills.borrow_mut().push(id.0);
                    return;
                }
                _ => return,
            }
        };
        drop(old);
    }

    pub fn is_done(&self, id: TaskId) -> bool {
        matches!(self.tasks.borrow()[id.0].slot, Slot::Done)
    }

    pub fn is_live(&self, id: TaskId) -> bool {
        matches!(self.tasks.borrow()[id.0].slot, Slot::Live(_) | Slot::Busy)
    }

    fn runnable(&self) -> Vec<usize> {
        self.tasks
            .borrow()
            .iter()
            .enumerate()
            .filter(|(_, t)| matches!(t.slot, Slot::Live(_)) && t.flag.0.load(Ordering::SeqCst))
            .map(|(i, _)| i)
            .collect()
    }

    fn pick(&self, r: &[usize]) -> usize {
        let mut s = self.sched.borrow_mut();
        if s.1 < s.0.len() && r.len() > 1 {
            let c = s.0[s.1] as usize;
            s.1 += 1;
            r[c % r.len()]
        } else {
            // round robin once the generated schedule is used up
            let last = self.last.get();
            *r.iter().find(|i| last != usize::MAX && **i > last).unwrap_or(&r[0])
        }
    }

    /// Poll one runnable task. False if none was runnable.
    pub async fn step(&self) -> bool {
        let r = self.runnable();
        if r.is_empty() {
            return false;
        }
        let i = self.pick(&r);
        if let Some(k) = self.tight {
            // Use up this poll's cooperative budget except for `k` operations, as a task that had
            // other work to do in the same poll would, and get a fresh budget afterwards.
            let mut cx = Context::from_waker(Waker::noop());
            for _ in k..COOP {
                let _ = std::pin::pin!(tokio::task::coop::consume_budget()).poll(&mut cx);
            }
            self.poll_task(i);
            tokio::task::yield_now().await;
        } else {
            self.poll_task(i);
        }
        true
    }

    fn poll_task(&self, i: usize) {
        self.last.set(i);
        self.polls.set(self.polls.get() + 1);
        let (mut fut, flag) = {
            let mut t = self.tasks.borrow_mut();
            let slot = std::mem::replace(&mut t[i].slot, Slot::Busy);
            let Slot::Live(f) = slot else {
                vcommon::harness_error("polled a task that is not live")
            };
            (f, t[i].flag.clone())
        };
        flag.0.store(false, Ordering::SeqCst);
        let waker = Waker::from(flag);
        let mut cx = Context::from_waker(&waker);
        let res = fut.as_mut().poll(&mut cx);
        let mut t = self.tasks.borrow_mut();
        if self.kills.borrow().contains(&i) {
            t[i].slot = Slot::Cancelled;
        } else {
            t[i].slot = match res {
                Poll::Ready(()) => Slot::Done,
                Poll::Pending => Slot::Live(fut),
            };
            return;
        }
        drop(t);
        drop(fut);
    }

    /// Run until nothing is runnable (tokio-spawned tasks included). The clock does not move.
    pub async fn settle(&self) -> Result<(), String> {
        let mut n = 0u32;
        loop {
            while self.step().await {
                n += 1;
                if n > 200_000 {
                    return Err("no quiescence: tasks kept waking each other for 200000 polls".into());
                }
            }
            // let tasks spawned on tokio itself run
            for _ in 0..8 {
                tokio::task::yield_now().await;
            }
            if self.runnable().is_empty() {
                return Ok(());
            }
        }
    }

    pub async fn steps(&self, n: usize) {
        for _ in 0..n {
            if !self.step().await {
                return;
            }
        }
    }

    /// Move the paused clock and settle
    pub async fn advance(&self, d: Duration) -> Result<(), String> {
        self.settle().await?;
        tokio::time::advance(d).await;
        self.settle().await
    }
}

/// Run `f` inside a fresh paused runtime with a fixed select! RNG seed.
///
/// A quarter of the seeds run the tasks with a nearly used up cooperative budget: tokio primitives
/// then return Pending although they are ready after 1 to 4 operations of a poll, which opens
/// suspension points inside a task that are unreachable with a fresh budget.
pub fn with_rt<R>(seed: u64, f: impl Future<Output = R>) -> R {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()))
        .build()
        .unwrap_or_else(|e| vcommon::harness_error(format!("runtime: {e}")));
    let r = if (seed >> 56) % 4 == 3 {
        TIGHT.set(Some(1 + (seed >> 48) as usize % 4));
        let r = rt.block_on(f);
        TIGHT.set(None);
        r
    } else {
        TIGHT.set(None);
        rt.block_on(tokio::task::unconstrained(f))
    };
    drop(rt);
    r
}
