//! What happened in a run, in order.
use crate::{alloc, mqtt::Pkt, net::NetEv, sched};
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Ev {
    Open { conn: usize, actor: usize },
    Refused { actor: usize },
    Net(NetEv),
    Recv { conn: usize, pkt: Pkt },
    RecvBad { conn: usize, why: String },
    /// the client has seen the end of the connection
    RecvEnd { conn: usize, rst: bool },
    /// the client ends the connection
    ClientClose { conn: usize, reset: bool },
    HalfClose { conn: usize },
    Stall { conn: usize, on: bool },
    Partition { conn: usize, until: u64 },
    Timeout { actor: usize, what: String },
    Sig { installed: bool },
    MainExit,
    Settled,
    Mark { id: u32, live: i64, peak: i64, biggest: usize, sockets: usize, tasks: usize },
    /// how often the broker's tasks ran in a time in which nothing happened
    Idle { polls: u64, ms: u64 },
    Leap { ms: u64 },
    WallSet { ms: i64 },
    Panic { task: String, msg: String },
    ActorDone { actor: usize },
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub t: u64,
    pub ev: Ev,
}

thread_local! {
    static H: RefCell<Vec<Entry>> = const { RefCell::new(Vec::new()) };
}

pub fn log(ev: Ev) {
    let _own = alloc::Owner::sim();
    let t = sched::now_ms();
    H.with(|h| h.borrow_mut().push(Entry { t, ev }));
}
pub fn len() -> usize {
    H.with(|h| h.borrow().len())
}
pub fn take() -> Vec<Entry> {
    H.with(|h| std::mem::take(&mut *h.borrow_mut()))
}

pub fn show(e: &Entry) -> String {
    let what = match &e.ev {
        Ev::Recv { conn, pkt } => format!("c{conn} <- {}", pkt.short()),
        Ev::Net(n) => format!("{n:?}"),
        ev => format!("{ev:?}"),
    };
    format!("{:>8} ms  {what}", e.t)
}
