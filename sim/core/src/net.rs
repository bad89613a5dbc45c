//! The simulated network: every connection is two byte pipes with delay, limited room, arbitrary
//! segmentation, and ends that can be closed, reset, held or lost.
use crate::{alloc::Owner, rng::Rng, sched, spec::Cfg};
use std::{
    cell::RefCell,
    collections::{BinaryHeap, VecDeque},
    cmp::Reverse,
    io,
    net::SocketAddr,
    pin::Pin,
    task::{Context, Poll, Waker},
};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dir {
    ToBroker,
    ToClient,
}

enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}

#[derive(Default)]
pub struct Pipe {
    inflight: VecDeque<(u64, Seg)>,
    buf: VecDeque<u8>,
    used: usize,
    last_arrive: u64,
    fin: bool,
    rst: bool,
    fin_sent: bool,
    /// the reading end is gone
    no_reader: bool,
    rd: Option<Waker>,
    wr: Option<Waker>,
    pub sent: u64,
    pub arrived: u64,
    pub eof_reads: u32,
}

pub struct Conn {
    pub to_broker: Pipe,
    pub to_client: Pipe,
    rng: Rng,
    hold_until: u64,
    pub broker_gone: bool,
    pub client_gone: bool,
    pub accepted: bool,
    addr: SocketAddr,
    /// everything the client has handed to the network
    pub sent_bytes: Vec<u8>,
    last_read_ms: u64,
    /// the system tells of a lost connection once; afterwards the stream is just at its end
    err_seen: bool,
}

/// What the system says of a connection that was lost: mostly that the peer has reset it
fn lost(c: usize) -> io::Error {
    io::Error::from_raw_os_error(match c % 7 {
        2 => libc::ETIMEDOUT,
        5 => libc::EHOSTUNREACH,
        _ => libc::ECONNRESET,
    })
}

#[derive(Clone, Debug)]
pub enum NetEv {
    Accepted(usize),
    /// all bytes up to this offset have reached the broker
    Arrive(usize, u64),
    FinAtBroker(usize),
    RstAtBroker(usize),
    /// the broker has closed its end (or shut down its sending side)
    BrokerClosed(usize),
    AcceptError,
    Spin(usize),
}

#[derive(Default)]
pub struct NetStats {
    pub segments: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub backpressure: u64,
    pub resets: u64,
    pub fins: u64,
    pub holds: u64,
    pub accept_errors: u64,
    pub bytes_in: u64,
    pub bytes_out: u64,
    pub write_errors: u64,
}

pub struct Net {
    pub conns: Vec<Conn>,
    cfg: Cfg,
    seed: u64,
    events: BinaryHeap<Reverse<(u64, u64, usize, bool)>>,
    seq: u64,
    net_waker: Option<Waker>,
    backlog: VecDeque<usize>,
    accept_waker: Option<Waker>,
    pub listening: bool,
    accept_windows: Vec<(u64, u64)>,
    accept_once: Vec<u32>,
    accepts: u32,
    pub stats: NetStats,
    pub log: fn(NetEv),
    sig_count: u64,
    sig_wakers: Vec<Waker>,
    sig_installed: bool,
    /// which connection has a port, where all come from one host
    ports: std::collections::HashMap<u16, usize>,
}

thread_local! {
    static N: RefCell<Option<Net>> = const { RefCell::new(None) };
}

pub fn with<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    let _own = Owner::sim();
    N.with(|n| f(n.borrow_mut().as_mut().expect("no simulated network")))
}

pub fn init(seed: u64, cfg: Cfg, accept_windows: Vec<(u64, u64)>, accept_once: Vec<u32>, log: fn(NetEv)) {
    N.with(|n| {
        *n.borrow_mut() = Some(Net {
            conns: vec![],
            cfg,
            seed,
            events: BinaryHeap::new(),
            seq: 0,
            net_waker: None,
            backlog: VecDeque::new(),
            accept_waker: None,
            listening: false,
            accept_windows,
            accept_once,
            accepts: 0,
            stats: NetStats::default(),
            log,
            sig_count: 0,
            sig_wakers: vec![],
            sig_installed: false,
            ports: Default::default(),
        })
    });
}

fn wake(w: &mut Option<Waker>) {
    if let Some(w) = w.take() {
        w.wake();
    }
}

impl Conn {
    fn pipe(&mut self, d: Dir) -> &mut Pipe {
        match d {
            Dir::ToBroker => &mut self.to_broker,
            Dir::ToClient => &mut self.to_client,
        }
    }
}

impl Net {
    fn push(&mut self, c: usize, d: Dir, seg: Seg) {
        let now = sched::now_ms();
        let cfg_lat = self.cfg.lat;
        let conn = &mut self.conns[c];
        let lat = conn.rng.range(cfg_lat.0 as u64, cfg_lat.1 as u64);
        let hold = conn.hold_until;
        let p = conn.pipe(d);
        let at = (now + lat).max(p.last_arrive).max(hold);
        p.last_arrive = at;
        p.inflight.push_back((at, seg));
        self.stats.segments += 1;
        if at <= now {
            self.arrive(c, d, now);
        } else {
            self.seq += 1;
            self.events.push(Reverse((at, self.seq, c, d == Dir::ToBroker)));
            wake(&mut self.net_waker);
        }
    }

    /// Hand over what is due
    fn arrive(&mut self, c: usize, d: Dir, now: u64) {
        let log = self.log;
        loop {
            let conn = &mut self.conns[c];
            let hold = conn.hold_until;
            let p = conn.pipe(d);
            match p.inflight.front() {
                Some((at, _)) if *at <= now => {}
                _ => return,
            }
            if hold > now {
                // held since it was sent
                self.seq += 1;
                let s = self.seq;
                self.events.push(Reverse((hold, s, c, d == Dir::ToBroker)));
                wake(&mut self.net_waker);
                return;
            }
            let (_, seg) = p.inflight.pop_front().unwrap();
            match seg {
                Seg::Data(data) => {
                    if p.rst {
                        p.used -= data.len();
                        continue;
                    }
                    if p.no_reader {
                        // nobody is there: the sender is told
                        p.used -= data.len();
                        wake(&mut p.wr);
                        let back = match d {
                            Dir::ToBroker => Dir::ToClient,
                            Dir::ToClient => Dir::ToBroker,
                        };
                        if !conn.pipe(back).fin_sent || d == Dir::ToClient {
                            self.push(c, back, Seg::Rst);
                        }
                        continue;
                    }
                    p.arrived += data.len() as u64;
                    p.buf.extend(data);
                    let off = p.arrived;
                    wake(&mut p.rd);
                    if d == Dir::ToBroker {
                        log(NetEv::Arrive(c, off));
                    }
                }
                Seg::Fin => {
                    p.fin = true;
                    wake(&mut p.rd);
                    if d == Dir::ToBroker {
                        self.stats.fins += 1;
                        log(NetEv::FinAtBroker(c));
                    }
                }
                Seg::Rst => {
                    p.rst = true;
                    p.fin_sent = true;
                    wake(&mut p.rd);
                    // the other direction is dead as well
                    let other = match d {
                        Dir::ToBroker => &mut conn.to_client,
                        Dir::ToClient => &mut conn.to_broker,
                    };
                    other.fin_sent = true;
                    wake(&mut other.wr);
                    if d == Dir::ToBroker {
                        self.stats.resets += 1;
                        log(NetEv::RstAtBroker(c));
                    }
                }
            }
        }
    }

    fn dead(&self, c: usize, d: Dir) -> bool {
        match d {
            Dir::ToBroker => self.conns[c].to_client.rst,
            Dir::ToClient => self.conns[c].to_broker.rst,
        }
    }

    fn close_broker(&mut self, c: usize) {
        let log = self.log;
        let conn = &mut self.conns[c];
        if conn.broker_gone {
            return;
        }
        conn.broker_gone = true;
        conn.to_broker.no_reader = true;
        wake(&mut conn.to_broker.wr);
        let freed = conn.to_broker.buf.len();
        conn.to_broker.used -= freed;
        conn.to_broker.buf.clear();
        let fin = !conn.to_client.fin_sent;
        conn.to_client.fin_sent = true;
        log(NetEv::BrokerClosed(c));
        if fin {
            self.push(c, Dir::ToClient, Seg::Fin);
        }
    }
}

/// The task that moves what is under way
pub async fn run_net() {
    loop {
        let next = with(|n| n.events.peek().map(|Reverse(e)| e.0));
        let wait = std::future::poll_fn(|cx| {
            with(|n| {
                if n.events.peek().map(|Reverse(e)| e.0) != next {
                    return Poll::Ready(());
                }
                n.net_waker = Some(cx.waker().clone());
                Poll::Pending
            })
        });
        match next {
            None => wait.await,
            Some(at) => {
                let now = sched::now_ms();
                if at > now {
                    tokio::select! {
                        biased;
                        () = tokio::time::sleep(std::time::Duration::from_millis(at - now)) => {}
                        () = wait => {}
                    }
                }
            }
        }
        let now = sched::now_ms();
        with(|n| {
            while let Some(Reverse((at, _, c, b))) = n.events.peek().copied() {
                if at > now {
                    break;
                }
                n.events.pop();
                n.arrive(c, if b { Dir::ToBroker } else { Dir::ToClient }, now);
            }
        });
    }
}

// ---- the client's side ----

pub fn client_open() -> Option<usize> {
    with(|n| {
        if !n.listening {
            return None;
        }
        let id = n.conns.len();
        let rng = Rng::derive(n.seed, 1000 + id as u64);
        let addr = n.addr(id);
        n.conns.push(Conn {
            addr,
            to_broker: Pipe::default(),
            to_client: Pipe::default(),
            rng,
            hold_until: 0,
            broker_gone: false,
            client_gone: false,
            accepted: false,
            sent_bytes: vec![],
            err_seen: false,
            last_read_ms: sched::now_ms(),
        });
        n.backlog.push_back(id);
        wake(&mut n.accept_waker);
        Some(id)
    })
}

/// Give as much of `data` as fits to the network: None once the connection is dead
pub async fn client_write(c: usize, data: &[u8]) -> Option<usize> {
    std::future::poll_fn(|cx| {
        with(|n| {
            if n.conns[c].to_broker.fin_sent || n.dead(c, Dir::ToBroker) || n.conns[c].client_gone {
                return Poll::Ready(None);
            }
            let cap = n.cfg.cap as usize;
            let p = &mut n.conns[c].to_broker;
            let room = cap.saturating_sub(p.used);
            if room == 0 {
                p.wr = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let k = room.min(data.len());
            p.used += k;
            p.sent += k as u64;
            n.conns[c].sent_bytes.extend_from_slice(&data[..k]);
            n.push(c, Dir::ToBroker, Seg::Data(data[..k].to_vec()));
            Poll::Ready(Some(k))
        })
    })
    .await
}

pub enum Got {
    Data(Vec<u8>),
    Fin,
    Rst,
    Gone,
}

pub async fn client_read(c: usize) -> Got {
    std::future::poll_fn(|cx| {
        with(|n| {
            let now = sched::now_ms();
            let conn = &mut n.conns[c];
            if conn.client_gone {
                return Poll::Ready(Got::Gone);
            }
            let p = &mut conn.to_client;
            if !p.buf.is_empty() {
                let v: Vec<u8> = p.buf.drain(..).collect();
                p.used -= v.len();
                wake(&mut p.wr);
                conn.last_read_ms = now;
                return Poll::Ready(Got::Data(v));
            }
            if p.rst {
                return Poll::Ready(Got::Rst);
            }
            if p.fin {
                return Poll::Ready(Got::Fin);
            }
            p.rd = Some(cx.waker().clone());
            Poll::Pending
        })
    })
    .await
}

pub fn client_close(c: usize, reset: bool) {
    with(|n| {
        let conn = &mut n.conns[c];
        if conn.client_gone {
            return;
        }
        conn.client_gone = true;
        wake(&mut conn.to_client.rd);
        wake(&mut conn.to_broker.wr);
        let p = &mut conn.to_client;
        p.no_reader = true;
        let freed = p.buf.len();
        p.used -= freed;
        p.buf.clear();
        wake(&mut p.wr);
        let fin_sent = conn.to_broker.fin_sent;
        if reset {
            // what is still under way is lost, or not
            if conn.rng.chance(500) {
                let mut lost = 0;
                conn.to_broker.inflight.retain(|(_, s)| match s {
                    Seg::Data(d) => {
                        lost += d.len();
                        false
                    }
                    _ => true,
                });
                conn.to_broker.used -= lost;
            }
            if !n.dead(c, Dir::ToBroker) {
                n.push(c, Dir::ToBroker, Seg::Rst);
            }
        } else if !fin_sent && !n.dead(c, Dir::ToBroker) {
            n.conns[c].to_broker.fin_sent = true;
            n.push(c, Dir::ToBroker, Seg::Fin);
        }
    })
}

pub fn client_half_close(c: usize) {
    with(|n| {
        let conn = &mut n.conns[c];
        if conn.client_gone || conn.to_broker.fin_sent {
            return;
        }
        conn.to_broker.fin_sent = true;
        n.push(c, Dir::ToBroker, Seg::Fin);
    })
}

pub fn partition(c: usize, ms: u64) {
    with(|n| {
        n.stats.holds += 1;
        let until = sched::now_ms() + ms;
        let conn = &mut n.conns[c];
        conn.hold_until = conn.hold_until.max(until);
    })
}

/// What the broker has sent and the client not yet taken
pub fn unread_by_client(c: usize) -> usize {
    with(|n| n.conns[c].to_client.used)
}

pub fn broker_exit() {
    with(|n| {
        n.listening = false;
        for c in 0..n.conns.len() {
            n.close_broker(c);
        }
    })
}

// ---- the broker's side ----

impl Net {
    /// Clients on hosts of their own, on one host, or on one host that uses a port again at once
    fn addr(&mut self, c: usize) -> SocketAddr {
        match self.seed >> 7 & 3 {
            0 | 1 => SocketAddr::from(([10, 0, (c >> 8) as u8, c as u8], 10_000 + (c % 50_000) as u16)),
            2 => SocketAddr::from(([127, 0, 0, 1], 1024 + (c % 64_000) as u16)),
            _ => {
                let free = |n: &Net, p: u16| match n.ports.get(&p).map(|c| &n.conns[*c]) {
                    Some(o) => o.to_broker.rst || o.broker_gone && o.client_gone,
                    None => true,
                };
                let port = (40_000..=u16::MAX).find(|p| free(self, *p)).unwrap_or(1);
                self.ports.insert(port, c);
                SocketAddr::from(([127, 0, 0, 1], port))
            }
        }
    }
}

pub struct Listener {
    local: SocketAddr,
}

impl Listener {
    pub fn bind(local: SocketAddr) -> io::Result<Self> {
        with(|n| {
            if n.listening {
                return Err(io::Error::from_raw_os_error(libc::EADDRINUSE));
            }
            // nobody looks for the broker anywhere else
            n.listening = local.port() == 1883;
            Ok(Listener { local })
        })
    }
    pub fn local_addr(&self) -> SocketAddr {
        self.local
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(Stream, SocketAddr)>> {
        if sched::io_yield(cx) {
            return Poll::Pending;
        }
        with(|n| {
            let Some(&c) = n.backlog.front() else {
                n.accept_waker = Some(cx.waker().clone());
                return Poll::Pending;
            };
            let now = sched::now_ms();
            if n.accept_windows.iter().any(|(a, b)| *a <= now && now < *b) {
                n.stats.accept_errors += 1;
                (n.log)(NetEv::AcceptError);
                return Poll::Ready(Err(io::Error::from_raw_os_error(libc::EMFILE)));
            }
            n.accepts += 1;
            if n.accept_once.contains(&n.accepts) {
                n.stats.accept_errors += 1;
                (n.log)(NetEv::AcceptError);
                return Poll::Ready(Err(io::Error::from_raw_os_error(libc::ECONNABORTED)));
            }
            n.backlog.pop_front();
            n.conns[c].accepted = true;
            (n.log)(NetEv::Accepted(c));
            Poll::Ready(Ok((Stream { c }, n.conns[c].addr)))
        })
    }
}
impl Drop for Listener {
    fn drop(&mut self) {
        let _own = Owner::sim();
        N.with(|n| {
            if let Ok(mut n) = n.try_borrow_mut() {
                if let Some(n) = n.as_mut() {
                    n.listening = false;
                    // connections nobody has accepted are reset
                    while let Some(c) = n.backlog.pop_front() {
                        n.close_broker(c);
                    }
                }
            }
        });
    }
}

#[derive(Debug)]
pub struct Stream {
    c: usize,
}

impl Stream {
    /// A connection that was reset has no peer any more
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        if with(|n| n.conns[self.c].to_broker.rst) {
            return Err(io::ErrorKind::NotConnected.into());
        }
        Ok(with(|n| n.conns[self.c].addr))
    }
    pub fn id(&self) -> usize {
        self.c
    }

    pub fn poll_read_shared(&self, cx: &mut Context<'_>, out: &mut ReadBuf<'_>, peek: bool) -> Poll<io::Result<()>> {
        if out.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if sched::io_yield(cx) {
            return Poll::Pending;
        }
        let c = self.c;
        with(|n| {
            let limit = n.cfg.rchunk as usize;
            let log = n.log;
            let conn = &mut n.conns[c];
            if conn.to_broker.buf.is_empty() {
                if conn.to_broker.rst && !conn.err_seen {
                    conn.err_seen = true;
                    return Poll::Ready(Err(lost(c)));
                }
                if conn.to_broker.fin || conn.to_broker.rst {
                    conn.to_broker.eof_reads += 1;
                    if conn.to_broker.eof_reads == 1000 {
                        log(NetEv::Spin(c));
                    }
                    return Poll::Ready(Ok(()));
                }
                conn.to_broker.rd = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let avail = conn.to_broker.buf.len();
            let mut k = avail.min(out.remaining());
            if limit > 0 {
                k = k.min(conn.rng.range(1, limit as u64) as usize);
            }
            n.stats.short_reads += (k < avail.min(out.remaining())) as u64;
            n.stats.bytes_in += k as u64;
            let p = &mut n.conns[c].to_broker;
            let (a, b) = p.buf.as_slices();
            let ka = k.min(a.len());
            out.put_slice(&a[..ka]);
            out.put_slice(&b[..k - ka]);
            if !peek {
                p.buf.drain(..k);
                p.used -= k;
                wake(&mut p.wr);
            }
            Poll::Ready(Ok(()))
        })
    }

    pub fn poll_write_shared(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        if data.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if sched::io_yield(cx) {
            return Poll::Pending;
        }
        let c = self.c;
        with(|n| {
            if n.dead(c, Dir::ToClient) || n.conns[c].to_client.fin_sent {
                n.stats.write_errors += 1;
                let conn = &mut n.conns[c];
                if conn.to_broker.rst && !conn.err_seen {
                    conn.err_seen = true;
                    return Poll::Ready(Err(lost(c)));
                }
                return Poll::Ready(Err(io::Error::from(io::ErrorKind::BrokenPipe)));
            }
            let limit = n.cfg.wchunk as usize;
            let cap = n.cfg.cap as usize;
            let conn = &mut n.conns[c];
            let room = cap.saturating_sub(conn.to_client.used);
            if room == 0 {
                n.stats.backpressure += 1;
                conn.to_client.wr = Some(cx.waker().clone());
                return Poll::Pending;
            }
            let mut k = room.min(data.len());
            if limit > 0 {
                k = k.min(conn.rng.range(1, limit as u64) as usize);
            }
            conn.to_client.used += k;
            conn.to_client.sent += k as u64;
            n.stats.short_writes += (k < data.len()) as u64;
            n.stats.bytes_out += k as u64;
            n.push(c, Dir::ToClient, Seg::Data(data[..k].to_vec()));
            Poll::Ready(Ok(k))
        })
    }

    pub fn poll_writable(&self, cx: &mut Context<'_>) -> Poll<()> {
        let c = self.c;
        with(|n| {
            let cap = n.cfg.cap as usize;
            let dead = n.dead(c, Dir::ToClient);
            let p = &mut n.conns[c].to_client;
            if dead || p.fin_sent || p.used < cap {
                return Poll::Ready(());
            }
            p.wr = Some(cx.waker().clone());
            Poll::Pending
        })
    }

    pub fn shutdown_shared(&self) -> io::Result<()> {
        let c = self.c;
        with(|n| {
            if n.dead(c, Dir::ToClient) {
                return Err(io::Error::from(io::ErrorKind::NotConnected));
            }
            let p = &mut n.conns[c].to_client;
            if !p.fin_sent {
                p.fin_sent = true;
                n.push(c, Dir::ToClient, Seg::Fin);
            }
            Ok(())
        })
    }
}

impl Drop for Stream {
    fn drop(&mut self) {
        let _own = Owner::sim();
        N.with(|n| {
            if let Ok(mut n) = n.try_borrow_mut() {
                if let Some(n) = n.as_mut() {
                    n.close_broker(self.c);
                }
            }
        });
    }
}

impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.poll_read_shared(cx, out, false)
    }
}
impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        self.poll_write_shared(cx, data)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(self.shutdown_shared())
    }
}

// ---- the interrupt signal ----

/// Returns false if nobody has ever asked for it: the process would have been killed
pub fn sigint() -> bool {
    with(|n| {
        n.sig_count += 1;
        for w in n.sig_wakers.drain(..) {
            w.wake();
        }
        n.sig_installed
    })
}
pub fn sig_installed() -> bool {
    with(|n| n.sig_installed)
}
pub fn sig_subscribe() -> u64 {
    with(|n| {
        n.sig_installed = true;
        n.sig_count
    })
}
pub fn poll_signal(seen: &mut u64, cx: &mut Context<'_>) -> Poll<()> {
    with(|n| {
        if n.sig_count > *seen {
            *seen = n.sig_count;
            return Poll::Ready(());
        }
        if !n.sig_wakers.iter().any(|w| w.will_wake(cx.waker())) {
            n.sig_wakers.push(cx.waker().clone());
        }
        Poll::Pending
    })
}
