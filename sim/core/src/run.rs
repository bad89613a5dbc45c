//! One run in one process.
use crate::{
    alloc::Owner,
    client,
    hist::{self, Ev},
    net,
    sched,
    spec::{Fault, Spec},
    sys,
};
use std::{cell::Cell, cell::RefCell, future::Future, time::Duration};

thread_local! {
    static DONE: Cell<usize> = const { Cell::new(0) };
    static EXITED: Cell<bool> = const { Cell::new(false) };
    static SPEC: RefCell<Option<Spec>> = const { RefCell::new(None) };
}

/// Set the stage: called before any of the broker's code runs
pub fn prepare(spec: &Spec) {
    let _own = Owner::sim();
    sys::activate(spec.seed);
    // the keys of all hash maps are drawn now: nothing in the parent may have done so before
    let drawn = sys::draws();
    let _ = std::hash::RandomState::new();
    assert!(sys::draws() != drawn, "hash keys from outside the run");
    let mut windows = vec![];
    let mut once = vec![];
    let mut stalls = vec![];
    for f in &spec.faults {
        match f {
            Fault::AcceptError { from, until } => windows.push((*from, *until)),
            Fault::AcceptAborted { n } => once.push(*n),
            Fault::Stall { task, from, until } => stalls.push((*task, *from, *until)),
            _ => {}
        }
    }
    sched::init(spec.seed, spec.cfg.policy, spec.cfg.yield_pm, stalls);
    net::init(spec.seed, spec.cfg.clone(), windows, once, |e| hist::log(Ev::Net(e)));
    SPEC.with(|s| *s.borrow_mut() = Some(spec.clone()));
    std::panic::set_hook(Box::new(|info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => info.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let task = if sched::in_broker() { "broker" } else { "simulator" };
        hist::log(Ev::Panic { task: task.into(), msg: format!("{msg} at {at}") });
    }));
}

async fn director(spec: Spec) {
    for _ in 0..1000 {
        if net::with(|n| n.listening) && net::sig_installed() {
            break;
        }
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    let n = spec.actors.len();
    let through = std::rc::Rc::new(tokio::sync::Notify::new());
    for (i, a) in spec.actors.iter().enumerate() {
        let (a, seed, through) = (a.clone(), spec.seed, through.clone());
        sched::spawn_local(0x1000 + i as u32, async move {
            client::run_actor(i, a, seed).await;
            DONE.with(|d| d.set(d.get() + 1));
            through.notify_one();
        });
    }
    for f in &spec.faults {
        match f.clone() {
            Fault::Wall { at, ms } => sched::spawn_local(0xfe, async move {
                tokio::time::sleep(Duration::from_millis(at)).await;
                hist::log(Ev::WallSet { ms });
                sys::wall_step(ms * 1_000_000);
            }),
            Fault::Leap { at, ms } => sched::spawn_local(0xfe, async move {
                tokio::time::sleep(Duration::from_millis(at)).await;
                hist::log(Ev::Leap { ms });
                sched::leap(ms).await;
            }),
            Fault::SigInt { at } => sched::spawn_local(0xfd, async move {
                tokio::time::sleep(Duration::from_millis(at)).await;
                let installed = net::sigint();
                hist::log(Ev::Sig { installed });
            }),
            _ => {}
        }
    }
    let mut waited = 0;
    while DONE.with(|d| d.get()) < n && waited < spec.cfg.max_ms {
        // in steps, so that a clock leap is not all that the scripts get
        let step = 10_000.min(spec.cfg.max_ms - waited);
        let from = tokio::time::Instant::now();
        let _ = tokio::time::timeout(Duration::from_millis(step), through.notified()).await;
        waited += (from.elapsed().as_millis() as u64).clamp(1, step);
    }
    let half = spec.cfg.settle_ms / 2;
    tokio::time::sleep(Duration::from_millis(half)).await;
    let before = sched::stats().broker_polls;
    tokio::time::sleep(Duration::from_millis(half)).await;
    hist::log(Ev::Idle { polls: sched::stats().broker_polls - before, ms: half });
    hist::log(Ev::Settled);
    let installed = net::sigint();
    hist::log(Ev::Sig { installed });
    for _ in 0..1500 {
        if EXITED.with(|e| e.get()) {
            break;
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
    }
    tokio::time::sleep(Duration::from_millis(200)).await;
    sched::finish();
}

/// Run the broker's main under the simulator
pub fn simulate<F: Future>(main: F) -> Option<F::Output> {
    let spec = SPEC.with(|s| s.borrow().clone()).expect("prepared");
    sched::drive(
        main,
        || {
            sched::spawn_local(0xfc, net::run_net());
            sched::spawn_local(0xfb, director(spec));
        },
        || {
            EXITED.with(|e| e.set(true));
            hist::log(Ev::MainExit);
            net::broker_exit();
        },
    )
}
