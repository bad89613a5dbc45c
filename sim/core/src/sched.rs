//! The seeded scheduler. Every task of a run, the broker's and the simulator's, is a `Gate`: it is
//! polled only when the scheduler has picked it, one at a time, so the seed decides the interleaving.
use crate::{alloc::Owner, rng::Rng, spec::Policy};
use std::{
    cell::{Cell, RefCell},
    future::Future,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Main,
    Broker,
    Sim,
}

struct Slot {
    kind: Kind,
    /// what kind of task, the same from run to run: what interleavings are hashed with
    role: u32,
    ready: bool,
    real: Option<Waker>,
    waker: Waker,
    prio: u64,
    weight: u32,
    stalled_until: u64,
    ready_since: u64,
    alive: bool,
}

struct TaskWaker(usize);
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        ready(self.0)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        ready(self.0)
    }
}

#[derive(Default, Clone, Debug)]
pub struct SchedStats {
    pub steps: u64,
    pub choices: u64,
    pub hash: u64,
    pub yields: u64,
    pub stalls: u64,
    pub max_instant_steps: u64,
    pub broker_polls: u64,
}

pub struct Sched {
    slots: Vec<Slot>,
    ready: Vec<usize>,
    designated: Option<usize>,
    driver: Option<Waker>,
    rng: Rng,
    policy: Policy,
    yield_pm: u32,
    pub stats: SchedStats,
    instant: u64,
    instant_steps: u64,
    broker_tasks: usize,
    pct_changes: Vec<u64>,
    next_low: u64,
    start: Option<tokio::time::Instant>,
    /// set when something went so wrong that the run must stop
    pub abort: Option<String>,
    pub done: bool,
    stalls: Vec<(u32, u64, u64)>,
    pub limit_instant: u64,
}

thread_local! {
    static S: RefCell<Option<Sched>> = const { RefCell::new(None) };
    static IO: Cell<u32> = const { Cell::new(0) };
    static CURRENT: Cell<Kind> = const { Cell::new(Kind::Sim) };
}

fn with<R>(f: impl FnOnce(&mut Sched) -> R) -> R {
    S.with(|s| f(s.borrow_mut().as_mut().expect("no simulation")))
}

pub fn init(seed: u64, policy: Policy, yield_pm: u32, stalls: Vec<(u32, u64, u64)>) {
    let mut rng = Rng::derive(seed, 1);
    let pct_changes = match policy {
        Policy::Pct(d) => (0..d).map(|_| rng.range(1, 2500)).collect(),
        _ => vec![],
    };
    S.with(|s| {
        *s.borrow_mut() = Some(Sched {
            slots: vec![],
            ready: vec![],
            designated: None,
            driver: None,
            rng,
            policy,
            yield_pm,
            stats: SchedStats { hash: 0xcbf2_9ce4_8422_2325, ..Default::default() },
            instant: 0,
            instant_steps: 0,
            broker_tasks: 0,
            pct_changes,
            next_low: 1 << 20,
            start: None,
            abort: None,
            done: false,
            stalls,
            limit_instant: 400_000,
        })
    });
}

pub fn stats() -> SchedStats {
    with(|s| s.stats.clone())
}
pub fn aborted() -> Option<String> {
    with(|s| s.abort.clone())
}
pub fn abort(why: String) {
    with(|s| {
        s.abort.get_or_insert(why);
        if let Some(d) = s.driver.take() {
            d.wake();
        }
    })
}
pub fn finish() {
    with(|s| {
        s.done = true;
        if let Some(d) = s.driver.take() {
            d.wake();
        }
    })
}
pub fn live_broker_tasks() -> usize {
    with(|s| s.slots.iter().filter(|t| t.alive && t.kind == Kind::Broker).count())
}

/// Virtual milliseconds since the start of the run
pub fn now_ms() -> u64 {
    let start = S.with(|s| s.borrow().as_ref().and_then(|s| s.start));
    match start {
        Some(s) => tokio::time::Instant::now().duration_since(s).as_millis() as u64,
        None => 0,
    }
}

fn ready(id: usize) {
    S.with(|s| {
        // wakers may outlive the simulation
        let Ok(mut s) = s.try_borrow_mut() else { return };
        let Some(s) = s.as_mut() else { return };
        s.mark_ready(id);
    })
}

impl Sched {
    fn mark_ready(&mut self, id: usize) {
        let steps = self.stats.steps;
        let t = &mut self.slots[id];
        if !t.alive || t.ready {
            return;
        }
        t.ready = true;
        t.ready_since = steps;
        self.ready.push(id);
        if self.designated.is_none() {
            if let Some(d) = self.driver.take() {
                d.wake();
            }
        }
    }

    fn register(&mut self, kind: Kind, role: u32) -> usize {
        let id = self.slots.len();
        let weight = match self.policy {
            Policy::Skewed => *self.rng.pick(&[1u32, 3, 10, 40, 160]),
            _ => 1,
        };
        let mut stalled_until = 0;
        let role = if kind == Kind::Broker {
            let n = self.broker_tasks as u32;
            self.broker_tasks += 1;
            // a task that is spawned while its stall lasts starts stalled
            let now = self.instant;
            for (which, from, until) in &self.stalls {
                if *which == n && *from <= now && now < *until {
                    stalled_until = *until;
                    self.stats.stalls += 1;
                }
            }
            n
        } else {
            role
        };
        self.slots.push(Slot {
            kind,
            role,
            ready: false,
            real: None,
            waker: Waker::from(Arc::new(TaskWaker(id))),
            prio: self.rng.next() | (1 << 32),
            weight,
            stalled_until,
            ready_since: 0,
            alive: true,
        });
        id
    }

    /// Pick the task that runs next
    fn pick(&mut self) -> Option<usize> {
        let now = self.instant;
        let steps = self.stats.steps;
        let any_stall = self.ready.iter().any(|&i| self.slots[i].stalled_until > now);
        let cand: Vec<usize> = if any_stall {
            (0..self.ready.len()).filter(|&k| self.slots[self.ready[k]].stalled_until <= now).collect()
        } else {
            (0..self.ready.len()).collect()
        };
        if cand.is_empty() {
            return None;
        }
        let k = if cand.len() == 1 {
            cand[0]
        } else {
            self.stats.choices += 1;
            // nobody waits for ever
            let starved = cand
                .iter()
                .copied()
                .filter(|&k| steps - self.slots[self.ready[k]].ready_since > 1500)
                .min_by_key(|&k| self.slots[self.ready[k]].ready_since);
            match (starved, self.policy) {
                (Some(k), _) => k,
                (None, Policy::Random) => cand[self.rng.below(cand.len())],
                (None, Policy::Fifo) => *cand.iter().min_by_key(|&&k| (self.slots[self.ready[k]].ready_since, self.ready[k])).unwrap(),
                (None, Policy::Lifo) => {
                    if self.rng.chance(100) {
                        cand[self.rng.below(cand.len())]
                    } else {
                        *cand.iter().max_by_key(|&&k| (self.slots[self.ready[k]].ready_since, self.ready[k])).unwrap()
                    }
                }
                (None, Policy::Skewed) => {
                    let w: Vec<u32> = cand.iter().map(|&k| self.slots[self.ready[k]].weight).collect();
                    cand[self.rng.weighted(&w)]
                }
                (None, Policy::Pct(_)) => {
                    let k = *cand.iter().max_by_key(|&&k| self.slots[self.ready[k]].prio).unwrap();
                    if self.pct_changes.contains(&self.stats.choices) {
                        self.next_low -= 1;
                        let low = self.next_low;
                        let id = self.ready[k];
                        self.slots[id].prio = low;
                        *cand.iter().max_by_key(|&&k| self.slots[self.ready[k]].prio).unwrap()
                    } else {
                        k
                    }
                }
            }
        };
        let id = self.ready.swap_remove(k);
        let t = &mut self.slots[id];
        t.ready = false;
        if cand.len() > 1 {
            let v = (t.kind as u64) << 32 | t.role as u64;
            self.stats.hash = (self.stats.hash ^ v).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(5);
        }
        self.stats.steps += 1;
        self.stats.broker_polls += (t.kind != Kind::Sim) as u64;
        self.instant_steps += 1;
        self.stats.max_instant_steps = self.stats.max_instant_steps.max(self.instant_steps);
        if self.instant_steps > self.limit_instant {
            self.abort.get_or_insert(format!("spin: {} scheduler steps without time passing", self.instant_steps));
        }
        Some(id)
    }
}

/// What IO operations do first: now and then they are not ready although they could be.
/// True means: return Pending, the task has been woken.
pub fn io_yield(cx: &mut Context<'_>) -> bool {
    let y = with(|s| {
        // not one of the scheduler's tasks
        if s.designated.is_none() {
            return false;
        }
        if IO.with(|c| c.get()) == 0 {
            return true;
        }
        IO.with(|c| c.set(c.get() - 1));
        let y = s.yield_pm > 0 && s.rng.chance(s.yield_pm);
        s.stats.yields += y as u64;
        y
    });
    if y {
        cx.waker().wake_by_ref();
    }
    y
}

/// Whether the code that runs now is the broker's
pub fn in_broker() -> bool {
    CURRENT.with(|c| c.get()) != Kind::Sim
}

struct PollGuard(Kind, #[allow(dead_code)] Owner);
fn begin(kind: Kind) -> PollGuard {
    IO.with(|c| c.set(128));
    PollGuard(CURRENT.with(|c| c.replace(kind)), Owner::set(kind != Kind::Sim))
}
impl Drop for PollGuard {
    fn drop(&mut self) {
        CURRENT.with(|c| c.set(self.0));
        let _own = Owner::sim();
        S.with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                if let Some(s) = s.as_mut() {
                    s.designated = None;
                    if !s.ready.is_empty() {
                        if let Some(d) = s.driver.take() {
                            d.wake();
                        }
                    }
                }
            }
        });
    }
}

pub struct Gate<T> {
    id: usize,
    kind: Kind,
    started: bool,
    fut: Option<Pin<Box<dyn Future<Output = T> + Send>>>,
}

impl<T> Unpin for Gate<T> {}

impl<T> Future for Gate<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let id = self.id;
        let waker = {
            let _own = Owner::sim();
            with(|s| {
                match &s.slots[id].real {
                    Some(w) if w.will_wake(cx.waker()) => {}
                    _ => s.slots[id].real = Some(cx.waker().clone()),
                }
                if !self.started {
                    self.started = true;
                    s.mark_ready(id);
                }
                if s.designated == Some(id) {
                    Some(s.slots[id].waker.clone())
                } else {
                    None
                }
            })
        };
        let Some(waker) = waker else { return Poll::Pending };
        let _guard = begin(self.kind);
        let res = match self.fut.as_mut() {
            Some(f) => f.as_mut().poll(&mut Context::from_waker(&waker)),
            None => Poll::Pending,
        };
        if res.is_ready() {
            self.fut = None;
        }
        res
    }
}

impl<T> Drop for Gate<T> {
    fn drop(&mut self) {
        let _own = Owner::set(self.kind != Kind::Sim);
        let was = CURRENT.with(|c| c.replace(self.kind));
        self.fut = None;
        CURRENT.with(|c| c.set(was));
        let id = self.id;
        S.with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                if let Some(s) = s.as_mut() {
                    s.slots[id].alive = false;
                    s.slots[id].real = None;
                    if s.slots[id].ready {
                        s.slots[id].ready = false;
                        s.ready.retain(|x| *x != id);
                    }
                    if s.designated == Some(id) {
                        s.designated = None;
                        if let Some(d) = s.driver.take() {
                            d.wake();
                        }
                    }
                }
            }
        });
    }
}

/// A task of the broker, for whoever spawns it
pub fn broker_gate<F>(f: F) -> Gate<F::Output>
where
    F: Future + Send + 'static,
{
    gate(Kind::Broker, 0, f)
}

fn gate<F>(kind: Kind, role: u32, f: F) -> Gate<F::Output>
where
    F: Future + Send + 'static,
{
    let fut: Pin<Box<dyn Future<Output = F::Output> + Send>> = {
        let _own = Owner::set(kind != Kind::Sim);
        Box::pin(f)
    };
    let _own = Owner::sim();
    let id = with(|s| s.register(kind, role));
    Gate { id, kind, started: false, fut: Some(fut) }
}

/// Spawn a task of the broker
pub fn spawn_broker<F>(f: F) -> tokio::task::JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    // a task is memory of whoever holds it, also after its end
    let g = {
        let _own = Owner::sim();
        gate(Kind::Broker, 0, f)
    };
    tokio::spawn(g)
}

/// Spawn a task of the simulator
pub fn spawn_sim<F>(role: u32, f: F) -> tokio::task::JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let _own = Owner::sim();
    tokio::spawn(gate(Kind::Sim, role, f))
}

/// A stand-in for `Send` in single-threaded simulator tasks
pub struct Local<F>(pub F);
unsafe impl<F> Send for Local<F> {}
impl<F: Future> Future for Local<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}
pub fn spawn_local<F>(role: u32, f: F)
where
    F: Future<Output = ()> + 'static,
{
    spawn_sim(role, Local(f));
}

/// Run `main` and everything it spawns until the director is finished.
/// `director` is spawned first; `on_exit` is called when `main` has returned.
pub fn drive<F: Future>(main: F, director: impl FnOnce(), on_exit: impl FnOnce()) -> Option<F::Output> {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    let mut main = Box::pin(main);
    let mut out = None;
    let mut on_exit = Some(on_exit);
    rt.block_on(async {
        let main_id = with(|s| {
            s.start = Some(tokio::time::Instant::now());
            let id = s.register(Kind::Main, 0);
            s.mark_ready(id);
            id
        });
        let stalls = with(|s| s.stalls.clone());
        for (which, from, until) in stalls {
            spawn_local(0xff, async move {
                tokio::time::sleep(Duration::from_millis(from)).await;
                with(|s| {
                    for t in s.slots.iter_mut() {
                        let hit = match t.kind {
                            Kind::Broker => t.role == which,
                            Kind::Main => which == u32::MAX,
                            Kind::Sim => false,
                        };
                        if hit && t.alive {
                            t.stalled_until = until;
                            s.stats.stalls += 1;
                        }
                    }
                });
                tokio::time::sleep(Duration::from_millis(until - from)).await;
                // the driver looks at the stalled tasks again after this step
            });
        }
        director();
        let mut main_done = false;
        std::future::poll_fn(|cx| {
            loop {
                let own = Owner::sim();
                let elapsed = {
                    let start = with(|s| s.start.unwrap());
                    tokio::time::Instant::now().duration_since(start)
                };
                crate::sys::set_vnow(elapsed.as_nanos() as u64);
                let picked = with(|s| {
                    let ms = elapsed.as_millis() as u64;
                    if ms != s.instant {
                        s.instant = ms;
                        s.instant_steps = 0;
                    }
                    s.driver = Some(cx.waker().clone());
                    if s.done || s.abort.is_some() {
                        return Err(());
                    }
                    if s.designated.is_some() {
                        return Ok(None);
                    }
                    let id = s.pick();
                    s.designated = id;
                    if s.abort.is_some() {
                        return Err(());
                    }
                    if let Some(id) = id {
                        if id != main_id {
                            if let Some(w) = &s.slots[id].real {
                                w.wake_by_ref();
                            }
                        }
                    }
                    Ok(id)
                });
                drop(own);
                match picked {
                    Err(()) => return Poll::Ready(()),
                    Ok(Some(id)) if id == main_id => {
                        if main_done {
                            with(|s| s.designated = None);
                            continue;
                        }
                        let waker = with(|s| s.slots[main_id].waker.clone());
                        let res = {
                            let _guard = begin(Kind::Main);
                            main.as_mut().poll(&mut Context::from_waker(&waker))
                        };
                        if let Poll::Ready(v) = res {
                            out = Some(v);
                            main_done = true;
                            with(|s| s.slots[main_id].alive = false);
                            if let Some(f) = on_exit.take() {
                                f();
                            }
                        }
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                    Ok(_) => return Poll::Pending,
                }
            }
        })
        .await;
    });
    // what is left is dropped with the process
    std::mem::forget(main);
    std::mem::forget(rt);
    out
}

/// What a thread does that sleeps: with all tasks in one thread nothing happens meanwhile
pub fn block(nanos: u64) {
    let mut f = Box::pin(tokio::time::advance(Duration::from_nanos(nanos)));
    let _ = f.as_mut().poll(&mut Context::from_waker(Waker::noop()));
}

/// Jump the clock: every timer in between fires at once
pub async fn leap(ms: u64) {
    tokio::time::advance(Duration::from_millis(ms)).await;
}

