//! A run, written out in full: what a seed expands to and what a replay file holds.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Policy {
    Random,
    Fifo,
    Lifo,
    Skewed,
    Pct(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    pub property: String,
    /// which generator made it
    pub scenario: String,
    /// drives the schedule, the network and every random number the broker draws
    pub seed: u64,
    pub cfg: Cfg,
    pub actors: Vec<Actor>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    /// how many bytes what is compared may differ by, in runs that look at memory
    #[serde(default)]
    pub budget: i64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub policy: Policy,
    /// how often, in thousandths, something that is ready is not ready yet
    pub yield_pm: u32,
    /// one-way delay in ms
    pub lat: (u32, u32),
    /// most bytes the broker gets per read / takes per write, 0: no limit
    pub rchunk: u32,
    pub wchunk: u32,
    /// bytes that fit between the broker and a client, each way
    pub cap: u32,
    /// quiet time at the end, in ms
    pub settle_ms: u64,
    /// when the scripts must be through
    pub max_ms: u64,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Actor {
    pub cid: String,
    pub ack: Ack,
    /// answer PUBREC with PUBREL
    pub auto_rel: bool,
    pub ops: Vec<Op>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ack {
    Auto,
    /// acknowledge after a random time, in ms; out of order
    Delay(u32, u32),
    Never,
    /// all but every n-th message
    Skip(u32),
    /// of every n-th QoS 2 message only the first half: PUBREC, but no PUBCOMP
    Half(u32),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Will {
    pub topic: String,
    pub uid: u32,
    pub len: u32,
    pub qos: u8,
    pub retain: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Sleep { ms: u64 },
    /// sleep until this moment of the run
    At { ms: u64 },
    /// open a connection and send nothing
    Open,
    /// open a connection, unless `reuse`, and send CONNECT
    Connect { clean: bool, ka: u16, wait: bool, #[serde(default)] reuse: bool, #[serde(default)] user: bool, #[serde(default)] will: Option<Will>, #[serde(default)] cid: Option<String> },
    Sub { pid: u16, filters: Vec<(String, u8)>, wait: bool },
    Unsub { pid: u16, filters: Vec<String>, wait: bool },
    /// wait: 0 no, 1 for PUBACK/PUBREC, 2 for PUBCOMP
    Pub { topic: String, uid: u32, len: u32, qos: u8, #[serde(default)] retain: bool, #[serde(default)] dup: bool, pid: u16, wait: u8 },
    Rel { pid: u16, wait: bool },
    Ping { wait: bool },
    Disconnect,
    Close,
    Reset,
    HalfClose,
    Raw { hex: String },
    /// send what follows in pieces of at most `chunk` bytes, `gap_ms` apart (0: all at once)
    Pace { chunk: u32, gap_ms: u32 },
    Stall,
    Resume,
    /// nothing gets through either way for a while
    Partition { ms: u64 },
    /// stop the connection once `bytes` more bytes have been sent
    CutAfter { bytes: u32, reset: bool },
    /// wait until everything sent is answered
    WaitAcks,
    /// wait until the broker closes, at most `ms`
    WaitClose { ms: u64 },
    /// wait until nothing has been received for `ms`
    Quiet { ms: u64 },
    Barrier { id: u32, n: u32 },
    /// note how much memory the broker has
    Mark { id: u32 },
    /// change how deliveries are acknowledged
    SetAck { ack: Ack },
    /// acknowledge the deliveries left unacknowledged
    AckAll,
    /// go back to op `to` another `times` times
    Repeat { to: u32, times: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// accepting fails (EMFILE) while there are connections to accept
    AcceptError { from: u64, until: u64 },
    /// the `n`-th accept fails once (ECONNABORTED)
    AcceptAborted { n: u32 },
    /// the broker's task `task` (in order of spawning, u32::MAX: main) does not run for a while
    Stall { task: u32, from: u64, until: u64 },
    /// the clock leaps: all timers in between fire at once
    Leap { at: u64, ms: u64 },
    /// the wall clock is set forward or back; the monotonic clock goes on
    Wall { at: u64, ms: i64 },
    SigInt { at: u64 },
}
