//! Scripted MQTT clients.
use crate::{
    alloc,
    hist::{self, Ev},
    mqtt::{self, ConnectArgs, Pkt, Step},
    net::{self, Got},
    rng::Rng,
    sched,
    spec::{Ack, Actor, Op},
};
use std::{
    cell::RefCell,
    collections::{HashMap, HashSet, VecDeque},
    rc::Rc,
    time::Duration,
};
use tokio::sync::Notify;

const WAIT_MS: u64 = 30_000;

enum Out {
    Bytes(Vec<u8>),
    Close,
    Reset,
    HalfClose,
}

struct State {
    out: VecDeque<Out>,
    written_all: bool,
    sent_requests: usize,
    responses: usize,
    connack: bool,
    completed: HashSet<u16>,
    closed: bool,
    stalled: bool,
    ack: Ack,
    pending: VecDeque<(u16, u8)>,
    /// PUBREL for these is not answered
    half: HashSet<u16>,
    /// deliveries answered with PUBREC
    recs: HashSet<u16>,
    seen: u32,
    last_recv: u64,
    chunk: u32,
    gap_ms: u32,
    cut: Option<(u64, bool)>,
    written: u64,
    rng: Rng,
}

pub struct Conn {
    pub id: usize,
    auto_rel: bool,
    /// packets that wait to be sent go out as one stretch of bytes
    joins: bool,
    st: RefCell<State>,
    /// something has changed for whoever waits
    changed: Notify,
    /// something to write
    work: Notify,
}

impl Conn {
    fn push(&self, bytes: Vec<u8>, request: bool) -> usize {
        let mut st = self.st.borrow_mut();
        st.out.push_back(Out::Bytes(bytes));
        st.written_all = false;
        if request {
            st.sent_requests += 1;
        }
        let n = st.sent_requests;
        drop(st);
        self.work.notify_one();
        n
    }
    fn end(&self, o: Out) {
        self.st.borrow_mut().out.push_back(o);
        self.work.notify_one();
    }

    async fn until(&self, ms: u64, cond: impl Fn(&State) -> bool) -> bool {
        let deadline = tokio::time::sleep(Duration::from_millis(ms));
        tokio::pin!(deadline);
        loop {
            let n = self.changed.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            if cond(&self.st.borrow()) {
                return true;
            }
            tokio::select! {
                biased;
                () = &mut n => {}
                () = &mut deadline => return cond(&self.st.borrow()),
            }
        }
    }

    fn deliver_ack(self: &Rc<Self>, pid: u16, qos: u8) {
        match qos {
            1 => self.push(mqtt::ack(0x40, pid), false),
            2 => {
                self.st.borrow_mut().recs.insert(pid);
                self.push(mqtt::ack(0x50, pid), true)
            }
            _ => return,
        };
    }

    fn on_packet(self: &Rc<Self>, pkt: &Pkt) {
        let mut rel = None;
        let mut comp = None;
        let mut now_ack = None;
        let mut later = None;
        {
            let mut st = self.st.borrow_mut();
            st.last_recv = sched::now_ms();
            match pkt {
                Pkt::Publish { pid, qos, .. } => {
                    if *qos > 0 {
                        st.seen += 1;
                        let seen = st.seen;
                        match st.ack {
                            Ack::Auto => now_ack = Some((*pid, *qos)),
                            Ack::Never => st.pending.push_back((*pid, *qos)),
                            Ack::Skip(n) => {
                                if seen % n == 0 {
                                    st.pending.push_back((*pid, *qos))
                                } else {
                                    now_ack = Some((*pid, *qos))
                                }
                            }
                            Ack::Half(n) => {
                                if *qos == 2 && seen % n == 0 {
                                    st.half.insert(*pid);
                                }
                                now_ack = Some((*pid, *qos))
                            }
                            Ack::Delay(a, b) => {
                                let ms = st.rng.range(a as u64, b as u64);
                                later = Some((*pid, *qos, ms));
                            }
                        }
                    }
                }
                p => {
                    st.responses += 1;
                    match p {
                        Pkt::ConnAck { .. } => st.connack = true,
                        Pkt::PubRec(pid) if self.auto_rel => rel = Some(*pid),
                        // one that never acknowledges does not answer what it did not ask for
                        Pkt::PubRel(pid) if !st.half.contains(pid) && (st.ack != Ack::Never || st.recs.contains(pid)) => comp = Some(*pid),
                        Pkt::PubComp(pid) => {
                            st.completed.insert(*pid);
                        }
                        _ => {}
                    }
                }
            }
        }
        if let Some(pid) = rel {
            self.push(mqtt::ack(0x62, pid), true);
        }
        if let Some(pid) = comp {
            self.push(mqtt::ack(0x70, pid), false);
        }
        if let Some((pid, qos)) = now_ack {
            self.deliver_ack(pid, qos);
        }
        if let Some((pid, qos, ms)) = later {
            let me = self.clone();
            sched::spawn_local(0x300, async move {
                tokio::time::sleep(Duration::from_millis(ms)).await;
                me.deliver_ack(pid, qos);
            });
        }
        self.changed.notify_waiters();
    }

    fn mark_closed(&self) {
        self.st.borrow_mut().closed = true;
        self.changed.notify_waiters();
        self.work.notify_one();
    }
}

fn open(actor: usize, a: &Actor, ack: Ack, seed: u64) -> Option<Rc<Conn>> {
    let Some(id) = net::client_open() else {
        hist::log(Ev::Refused { actor });
        return None;
    };
    hist::log(Ev::Open { conn: id, actor });
    let conn = Rc::new(Conn {
        id,
        auto_rel: a.auto_rel,
        joins: Rng::derive(seed, 90_000 + id as u64).chance(350),
        st: RefCell::new(State {
            out: VecDeque::new(),
            written_all: true,
            sent_requests: 0,
            responses: 0,
            connack: false,
            completed: HashSet::new(),
            closed: false,
            stalled: false,
            ack,
            pending: VecDeque::new(),
            half: HashSet::new(),
            recs: HashSet::new(),
            seen: 0,
            last_recv: sched::now_ms(),
            chunk: 0,
            gap_ms: 0,
            cut: None,
            written: 0,
            rng: Rng::derive(seed, 5000 + id as u64),
        }),
        changed: Notify::new(),
        work: Notify::new(),
    });
    let role = 0x100 + (actor as u32) * 2;
    sched::spawn_local(role, reader(conn.clone()));
    sched::spawn_local(role + 1, writer(conn.clone()));
    Some(conn)
}

async fn reader(conn: Rc<Conn>) {
    let mut buf: Vec<u8> = vec![];
    let mut bad = false;
    loop {
        if conn.st.borrow().stalled {
            conn.until(u64::MAX / 4, |s| !s.stalled || s.closed).await;
        }
        match net::client_read(conn.id).await {
            Got::Data(d) => {
                if bad {
                    continue;
                }
                buf.extend_from_slice(&d);
                let mut at = 0;
                loop {
                    match mqtt::decode(&buf[at..], false) {
                        Step::Packet(p, n) => {
                            at += n;
                            hist::log(Ev::Recv { conn: conn.id, pkt: p.clone() });
                            conn.on_packet(&p);
                        }
                        Step::Need => break,
                        Step::Bad(why, _) | Step::Unclear(why) => {
                            hist::log(Ev::RecvBad { conn: conn.id, why });
                            bad = true;
                            break;
                        }
                    }
                }
                buf.drain(..at);
            }
            Got::Gone => {
                conn.mark_closed();
                return;
            }
            end => {
                if !bad && !buf.is_empty() {
                    hist::log(Ev::RecvBad { conn: conn.id, why: format!("cut off after {} bytes of a packet", buf.len()) });
                }
                hist::log(Ev::RecvEnd { conn: conn.id, rst: matches!(end, Got::Rst) });
                net::client_close(conn.id, false);
                conn.mark_closed();
                return;
            }
        }
    }
}

async fn writer(conn: Rc<Conn>) {
    loop {
        let item = conn.st.borrow_mut().out.pop_front();
        let Some(item) = item else {
            if conn.st.borrow().closed {
                return;
            }
            conn.st.borrow_mut().written_all = true;
            conn.changed.notify_waiters();
            conn.work.notified().await;
            continue;
        };
        match item {
            Out::Bytes(mut b) => {
                if conn.joins {
                    // whatever waits to be sent goes out together, wherever it is cut
                    let mut st = conn.st.borrow_mut();
                    while let Some(Out::Bytes(_)) = st.out.front() {
                        let Some(Out::Bytes(more)) = st.out.pop_front() else { break };
                        b.extend_from_slice(&more);
                    }
                }
                let mut at = 0;
                while at < b.len() {
                    let (chunk, gap, cut, written) = {
                        let st = conn.st.borrow();
                        (st.chunk as usize, st.gap_ms, st.cut, st.written)
                    };
                    let mut k = b.len() - at;
                    if chunk > 0 {
                        k = k.min(chunk);
                    }
                    if let Some((limit, reset)) = cut {
                        let left = limit.saturating_sub(written) as usize;
                        if left == 0 {
                            hist::log(Ev::ClientClose { conn: conn.id, reset });
                            net::client_close(conn.id, reset);
                            conn.mark_closed();
                            return;
                        }
                        k = k.min(left);
                    }
                    match net::client_write(conn.id, &b[at..at + k]).await {
                        Some(n) => {
                            at += n;
                            conn.st.borrow_mut().written += n as u64;
                        }
                        None => return,
                    }
                    if chunk > 0 && gap > 0 {
                        tokio::time::sleep(Duration::from_millis(gap as u64)).await;
                    }
                }
            }
            Out::HalfClose => {
                hist::log(Ev::HalfClose { conn: conn.id });
                net::client_half_close(conn.id);
            }
            o => {
                let reset = matches!(o, Out::Reset);
                if !conn.st.borrow().closed {
                    hist::log(Ev::ClientClose { conn: conn.id, reset });
                }
                net::client_close(conn.id, reset);
                conn.mark_closed();
                return;
            }
        }
    }
}

thread_local! {
    static BARRIERS: RefCell<HashMap<u32, (u32, Rc<Notify>)>> = RefCell::new(HashMap::new());
    static ALL: RefCell<Vec<Rc<Conn>>> = const { RefCell::new(Vec::new()) };
}

async fn barrier(id: u32, n: u32) -> bool {
    let (full, notify) = BARRIERS.with(|b| {
        let mut b = b.borrow_mut();
        let e = b.entry(id).or_insert_with(|| (0, Rc::new(Notify::new())));
        e.0 += 1;
        (e.0 >= n, e.1.clone())
    });
    let w = notify.notified();
    tokio::pin!(w);
    w.as_mut().enable();
    if full {
        notify.notify_waiters();
        return true;
    }
    tokio::time::timeout(Duration::from_millis(4 * WAIT_MS), w).await.is_ok()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub async fn run_actor(idx: usize, a: Actor, seed: u64) {
    let mut cur: Option<Rc<Conn>> = None;
    let mut ack = a.ack;
    let mut pc = 0;
    let mut iter: u32 = 0;
    let mut loops: HashMap<usize, u32> = HashMap::new();
    let (mut chunk, mut gap) = (0, 0);

    let timeout = |what: &str| hist::log(Ev::Timeout { actor: idx, what: what.to_string() });
    // so is each "{i}" in a name
    let named = |s: &str, iter: u32| -> String { s.replace("{i}", &format!("{iter:06}")) };
    let pid_at = |pid: u16, iter: u32| -> u16 { ((pid as u32 - 1 + iter) % 65535 + 1) as u16 };

    while pc < a.ops.len() {
        let op = &a.ops[pc];
        pc += 1;
        match op {
            Op::Sleep { ms } => tokio::time::sleep(Duration::from_millis(*ms)).await,
            Op::At { ms } => {
                let now = sched::now_ms();
                if *ms > now {
                    tokio::time::sleep(Duration::from_millis(*ms - now)).await;
                }
            }
            Op::Open => cur = open(idx, &a, ack, seed),
            Op::Connect { clean, ka, wait, reuse, user, will, cid } => {
                if !*reuse || cur.is_none() {
                    cur = open(idx, &a, ack, seed);
                }
                let Some(c) = &cur else { continue };
                {
                    let mut st = c.st.borrow_mut();
                    st.chunk = chunk;
                    st.gap_ms = gap;
                }
                let w = will.as_ref().map(|w| (w.topic.as_str(), mqtt::payload(w.uid, w.len), w.qos, w.retain));
                let cid = named(cid.as_deref().unwrap_or(&a.cid), iter);
                let bytes = mqtt::connect(&ConnectArgs { cid: &cid, clean: *clean, ka: *ka, user: *user, will: w });
                c.push(bytes, true);
                if *wait && !c.until(WAIT_MS, |s| s.connack || s.closed).await {
                    timeout("CONNACK");
                }
            }
            Op::Sub { pid, filters, wait } => {
                let Some(c) = &cur else { continue };
                let n = c.push(mqtt::subscribe(pid_at(*pid, iter), &filters.iter().map(|(f, q)| (named(f, iter), *q)).collect::<Vec<_>>()), true);
                if *wait && !c.until(WAIT_MS, |s| s.responses >= n || s.closed).await {
                    timeout("SUBACK");
                }
            }
            Op::Unsub { pid, filters, wait } => {
                let Some(c) = &cur else { continue };
                let n = c.push(mqtt::unsubscribe(pid_at(*pid, iter), &filters.iter().map(|f| named(f, iter)).collect::<Vec<_>>()), true);
                if *wait && !c.until(WAIT_MS, |s| s.responses >= n || s.closed).await {
                    timeout("UNSUBACK");
                }
            }
            Op::Pub { topic, uid, len, qos, retain, dup, pid, wait } => {
                let Some(c) = &cur else { continue };
                let pid = pid_at(*pid, iter);
                let body = mqtt::payload(uid + iter * 1000, *len);
                let p = mqtt::publish(&named(topic, iter), pid, *qos, *dup, *retain, &body);
                c.st.borrow_mut().completed.remove(&pid);
                let n = c.push(p, *qos > 0);
                let ok = match (*wait, *qos) {
                    (0, _) | (_, 0) => true,
                    (2, 2) => c.until(WAIT_MS, |s| s.completed.contains(&pid) || s.closed).await,
                    _ => c.until(WAIT_MS, |s| s.responses >= n || s.closed).await,
                };
                if !ok {
                    timeout("PUBLISH");
                }
            }
            Op::Rel { pid, wait } => {
                let Some(c) = &cur else { continue };
                let n = c.push(mqtt::ack(0x62, pid_at(*pid, iter)), true);
                if *wait && !c.until(WAIT_MS, |s| s.responses >= n || s.closed).await {
                    timeout("PUBCOMP");
                }
            }
            Op::Ping { wait } => {
                let Some(c) = &cur else { continue };
                let n = c.push(vec![0xC0, 0], true);
                if *wait && !c.until(WAIT_MS, |s| s.responses >= n || s.closed).await {
                    timeout("PINGRESP");
                }
            }
            Op::Disconnect => {
                let Some(c) = &cur else { continue };
                c.push(vec![0xE0, 0], false);
                c.end(Out::Close);
                c.until(WAIT_MS, |s| s.closed).await;
            }
            Op::Close => {
                let Some(c) = &cur else { continue };
                c.end(Out::Close);
                c.until(WAIT_MS, |s| s.closed).await;
            }
            Op::Reset => {
                let Some(c) = &cur else { continue };
                c.end(Out::Reset);
                c.until(WAIT_MS, |s| s.closed).await;
            }
            Op::HalfClose => {
                let Some(c) = &cur else { continue };
                c.end(Out::HalfClose);
            }
            Op::Raw { hex } => {
                let Some(c) = &cur else { continue };
                c.push(unhex(hex), false);
            }
            Op::Pace { chunk: k, gap_ms } => {
                chunk = *k;
                gap = *gap_ms;
                if let Some(c) = &cur {
                    let mut st = c.st.borrow_mut();
                    st.chunk = chunk;
                    st.gap_ms = gap;
                }
            }
            Op::Stall | Op::Resume => {
                let Some(c) = &cur else { continue };
                let on = matches!(op, Op::Stall);
                hist::log(Ev::Stall { conn: c.id, on });
                c.st.borrow_mut().stalled = on;
                c.changed.notify_waiters();
            }
            Op::Partition { ms } => {
                let Some(c) = &cur else { continue };
                hist::log(Ev::Partition { conn: c.id, until: sched::now_ms() + ms });
                net::partition(c.id, *ms);
            }
            Op::CutAfter { bytes, reset } => {
                let Some(c) = &cur else { continue };
                let mut st = c.st.borrow_mut();
                let at = st.written + *bytes as u64;
                st.cut = Some((at, *reset));
            }
            Op::WaitAcks => {
                let Some(c) = &cur else { continue };
                if !c.until(WAIT_MS, |s| (s.responses >= s.sent_requests && s.written_all && s.out.is_empty()) || s.closed).await {
                    timeout("answers");
                }
            }
            Op::WaitClose { ms } => {
                let Some(c) = &cur else { continue };
                c.until(*ms, |s| s.closed).await;
            }
            Op::Quiet { ms } => {
                let Some(c) = &cur else { continue };
                for _ in 0..600 {
                    let last = c.st.borrow().last_recv;
                    let now = sched::now_ms();
                    if now >= last + ms {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(last + ms - now)).await;
                }
            }
            Op::Barrier { id, n } => {
                if !barrier(*id, *n).await {
                    timeout("barrier");
                }
            }
            Op::Mark { id } => {
                let (live, peak, biggest) = alloc::stats();
                let sockets = net::with(|n| n.conns.iter().filter(|c| c.accepted && !c.broker_gone).count());
                hist::log(Ev::Mark { id: *id + iter * 1000, live, peak, biggest, sockets, tasks: sched::live_broker_tasks() });
                alloc::reset_peak();
            }
            Op::SetAck { ack: m } => {
                ack = *m;
                if let Some(c) = &cur {
                    c.st.borrow_mut().ack = *m;
                }
            }
            Op::AckAll => {
                let Some(c) = &cur else { continue };
                let pend: Vec<_> = c.st.borrow_mut().pending.drain(..).collect();
                for (pid, qos) in pend {
                    c.deliver_ack(pid, qos);
                }
            }
            Op::Repeat { to, times } => {
                let done = loops.entry(pc - 1).or_insert(0);
                if *done < *times {
                    *done += 1;
                    iter += 1;
                    pc = *to as usize;
                } else {
                    iter -= *done;
                    *done = 0;
                }
            }
        }
    }
    if let Some(c) = cur {
        ALL.with(|a| a.borrow_mut().push(c));
    }
    hist::log(Ev::ActorDone { actor: idx });
}
