//! Judges a recorded history by what MQTT 3.1.1 and the listed properties promise. It works only from
//! the bytes each client handed to the network, when they arrived, and what each client received.
use crate::{
    hist::{Entry, Ev},
    mqtt::{self, Pkt, Step},
    net::NetEv,
    spec::{Fault, Spec},
};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub const INF: usize = usize::MAX;
/// A client with fewer messages outstanding than this loses none
pub const BACKLOG: usize = 64;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Violation {
    /// what kind it is: a shrunk run must show the same
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Want {
    None,
    ConnAck(u8),
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    SubAck(u16),
    UnsubAck(u16),
    PingResp,
}

pub struct Req {
    pub pkt: Pkt,
    /// when its last byte reached the broker
    pub arr: usize,
    pub t_arr: u64,
    pub want: Want,
    /// when its answer was received
    pub ans: usize,
    pub t_ans: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Must {
    Malformed(String),
    NotConnect,
    SecondConnect,
    Refused,
    Disconnect,
}

pub struct CView {
    pub actor: usize,
    pub open: usize,
    pub t_open: u64,
    /// when the broker took the connection
    pub t_acc: Option<u64>,
    pub reqs: Vec<Req>,
    /// why the broker must close, and since when
    pub must: Option<(Must, usize, u64)>,
    pub unclear: Option<usize>,
    /// from here on there may be a reason to close that is not complete yet
    pub doubt: Option<usize>,
    pub bad_connect: bool,
    pub cid: Option<String>,
    pub clean: bool,
    pub ka: u16,
    pub fin: Option<(usize, u64)>,
    pub rst: Option<(usize, u64)>,
    pub client_close: Option<usize>,
    pub closed: Option<(usize, u64)>,
    pub recv: Vec<(usize, u64, Pkt)>,
    pub slow: bool,
    pub stalled_at_end: bool,
    pub partition_until: u64,
    pub bad: Option<(usize, String)>,
    pub t_arrivals: Vec<(usize, u64)>,
    pub stalls: Vec<(usize, u64, bool)>,
}

impl CView {
    /// index of CONNECT's arrival and of CONNACK
    pub fn connect(&self) -> Option<(usize, usize)> {
        self.reqs.first().filter(|r| matches!(r.pkt, Pkt::Connect { .. })).map(|r| (r.arr, r.ans))
    }
    pub fn session(&self) -> bool {
        matches!(self.reqs.first(), Some(r) if r.want == Want::ConnAck(0))
    }
    /// the first moment at which the broker may have known that the client was done
    pub fn end(&self) -> usize {
        let mut e = INF;
        for x in [self.fin, self.rst].into_iter().flatten() {
            e = e.min(x.0);
        }
        if let Some((_, i, _)) = &self.must {
            e = e.min(*i);
        }
        for i in [self.unclear, self.doubt].into_iter().flatten() {
            e = e.min(i);
        }
        if let Some(i) = self.client_close {
            e = e.min(i);
        }
        e
    }
}

pub struct Msg {
    pub hash: u64,
    pub len: usize,
    pub topic: String,
    pub uid: u32,
    pub qos: u8,
    pub retain: bool,
    pub conn: usize,
    pub nth: usize,
    pub start: usize,
    pub end: usize,
    pub t_end: u64,
    pub certain: bool,
    pub attempts: usize,
}

type Key = (u64, usize, String);

pub struct View<'a> {
    pub spec: &'a Spec,
    pub hist: &'a [Entry],
    pub conns: Vec<CView>,
    pub msgs: Vec<Msg>,
    pub by_key: HashMap<Key, Vec<usize>>,
    /// first interrupt
    pub sig: usize,
    pub t_sig: u64,
    /// what must be complete is looked at here, if no interrupt came before
    pub settled: usize,
    pub t_settled: u64,
    pub main_exit: Option<(usize, u64)>,
    /// time the broker was kept from running
    /// when faults kept the broker from its work
    pub windows: Vec<(u64, u64)>,
    pub out: Vec<Violation>,
    /// the connections of each identifier
    ids: Vec<Id>,
    /// identifier and place of each connection that opened a session
    place: Vec<Option<(usize, usize)>>,
}

/// The connections with one identifier in the order in which CONNECT arrived
struct Id {
    list: Vec<usize>,
    arr: Vec<usize>,
    /// latest CONNACK of the connections before
    latest: Vec<usize>,
    /// earliest CONNACK from here on, and its time
    first: Vec<usize>,
    next: Vec<u64>,
}

pub const LAG: u64 = 2000;

impl<'a> View<'a> {
    pub fn t(&self, i: usize) -> u64 {
        if i >= self.hist.len() {
            u64::MAX / 4
        } else {
            self.hist[i].t
        }
    }
    /// When what is due `ms` after `t` must have happened: a fault window that opens before the
    /// deadline moves it by all that is left of the window, which may bring further ones into reach.
    pub fn due(&self, t: u64, ms: u64) -> u64 {
        let mut at = t + ms;
        for (from, until) in &self.windows {
            if *from <= at {
                at += until.saturating_sub(*from.max(&t));
            }
        }
        at
    }
    pub fn fail(&mut self, class: &str, msg: String) {
        if self.out.len() < 40 {
            self.out.push(Violation { class: class.into(), msg });
        }
    }

    pub fn new(spec: &'a Spec, hist: &'a [Entry], sent: Vec<Vec<u8>>) -> Self {
        let mut windows = vec![];
        for f in &spec.faults {
            match f {
                Fault::Stall { from, until, .. } => windows.push((*from, *until + 250)),
                Fault::AcceptError { from, until } => windows.push((*from, *until + 250)),
                _ => {}
            }
        }
        for e in hist {
            if let Ev::Leap { ms } = e.ev {
                windows.push((e.t, e.t + ms + 250));
            }
        }
        windows.sort();
        let mut v = View {
            spec,
            hist,
            conns: vec![],
            msgs: vec![],
            by_key: HashMap::new(),
            sig: INF,
            t_sig: u64::MAX / 4,
            settled: INF,
            t_settled: u64::MAX / 4,
            main_exit: None,
            windows,
            out: vec![],
            ids: vec![],
            place: vec![],
        };
        let mut arrivals: Vec<Vec<(u64, usize, u64)>> = vec![vec![]; sent.len()];
        for (i, e) in hist.iter().enumerate() {
            match &e.ev {
                Ev::Open { conn, actor } => {
                    assert_eq!(*conn, v.conns.len());
                    v.conns.push(CView {
                        actor: *actor,
                        open: i,
                        t_open: e.t,
                        t_acc: None,
                        reqs: vec![],
                        must: None,
                        unclear: None,
                        doubt: None,
                        bad_connect: false,
                        cid: None,
                        clean: true,
                        ka: 0,
                        fin: None,
                        rst: None,
                        client_close: None,
                        closed: None,
                        recv: vec![],
                        slow: false,
                        stalled_at_end: false,
                        partition_until: 0,
                        bad: None,
                        t_arrivals: vec![],
                        stalls: vec![],
                    });
                }
                Ev::Net(n) => match n {
                    NetEv::Accepted(c) => v.conns[*c].t_acc = Some(e.t),
                    NetEv::Arrive(c, off) => arrivals[*c].push((*off, i, e.t)),
                    NetEv::FinAtBroker(c) => {
                        v.conns[*c].fin.get_or_insert((i, e.t));
                    }
                    NetEv::RstAtBroker(c) => {
                        v.conns[*c].rst.get_or_insert((i, e.t));
                    }
                    NetEv::BrokerClosed(c) => {
                        v.conns[*c].closed.get_or_insert((i, e.t));
                    }
                    _ => {}
                },
                Ev::Recv { conn, pkt } => v.conns[*conn].recv.push((i, e.t, pkt.clone())),
                Ev::RecvBad { conn, why } => {
                    v.conns[*conn].bad.get_or_insert((i, why.clone()));
                }
                Ev::ClientClose { conn, .. } => {
                    v.conns[*conn].client_close.get_or_insert(i);
                }
                Ev::Stall { conn, on } => {
                    let c = &mut v.conns[*conn];
                    c.slow = true;
                    c.stalled_at_end = *on;
                    c.stalls.push((i, e.t, *on));
                }
                Ev::Partition { conn, until } => {
                    let c = &mut v.conns[*conn];
                    c.slow = true;
                    c.partition_until = c.partition_until.max(*until);
                }
                Ev::Sig { .. } => {
                    if v.sig == INF {
                        v.sig = i;
                        v.t_sig = e.t;
                    }
                }
                Ev::Settled => {
                    v.settled = i;
                    v.t_settled = e.t;
                }
                Ev::MainExit => v.main_exit = Some((i, e.t)),
                _ => {}
            }
        }
        for c in 0..v.conns.len() {
            v.parse(c, &sent[c], &arrivals[c]);
        }
        v.answers();
        v.identifiers();
        v.messages();
        v
    }

    /// Whether what must be complete at the end can be asked for
    pub fn judged(&self) -> bool {
        self.settled < self.sig
    }

    fn parse(&mut self, c: usize, data: &[u8], arrivals: &[(u64, usize, u64)]) {
        let find = |off: u64| -> Option<(usize, u64)> {
            let k = arrivals.partition_point(|a| a.0 < off);
            arrivals.get(k).map(|a| (a.1, a.2))
        };
        let cv = &mut self.conns[c];
        let mut at = 0;
        let mut connected = false;
        loop {
            if at < data.len() && mqtt::refusable(data[at], connected) {
                cv.doubt = find(at as u64 + 1).map(|x| x.0);
            }
            match mqtt::decode(&data[at..], true) {
                Step::Need => break,
                Step::Unclear(_) => {
                    // from its first byte on nothing is known
                    if let Some((i, _)) = find(at as u64 + 1) {
                        cv.unclear = Some(i);
                    }
                    break;
                }
                Step::Bad(why, n) => {
                    cv.bad_connect = !connected && data[at] >> 4 == 1;
                    cv.doubt = find(at as u64 + 1).map(|x| x.0);
                    if let Some((i, t)) = find((at + n) as u64) {
                        cv.must = Some((if connected { Must::Malformed(why) } else { Must::NotConnect }, i, t));
                    } else if let Some((i, _)) = find(at as u64 + 1) {
                        cv.unclear = Some(i);
                    }
                    break;
                }
                Step::Packet(pkt, n) => {
                    at += n;
                    let Some((arr, t_arr)) = find(at as u64) else { break };
                    let is_connect = matches!(pkt, Pkt::Connect { .. });
                    if connected && is_connect {
                        cv.must = Some((Must::SecondConnect, arr, t_arr));
                        break;
                    }
                    if !connected && !is_connect {
                        cv.must = Some((Must::NotConnect, arr, t_arr));
                        break;
                    }
                    let want = match &pkt {
                        Pkt::Connect { clean, ka, cid, level, .. } => {
                            if *level != 4 {
                                cv.must = Some((Must::Refused, arr, t_arr));
                                Want::ConnAck(1)
                            } else if cid.is_empty() && !clean {
                                cv.must = Some((Must::Refused, arr, t_arr));
                                Want::ConnAck(2)
                            } else {
                                cv.cid = Some(cid.clone());
                                cv.clean = *clean;
                                cv.ka = *ka;
                                connected = true;
                                Want::ConnAck(0)
                            }
                        }
                        Pkt::Publish { pid, qos: 1, .. } => Want::PubAck(*pid),
                        Pkt::Publish { pid, qos: 2, .. } => Want::PubRec(*pid),
                        Pkt::PubRec(p) => Want::PubRel(*p),
                        Pkt::PubRel(p) => Want::PubComp(*p),
                        Pkt::Subscribe { pid, .. } => Want::SubAck(*pid),
                        Pkt::Unsubscribe { pid, .. } => Want::UnsubAck(*pid),
                        Pkt::PingReq => Want::PingResp,
                        Pkt::Disconnect => {
                            cv.must = Some((Must::Disconnect, arr, t_arr));
                            Want::None
                        }
                        _ => Want::None,
                    };
                    cv.t_arrivals.push((arr, t_arr));
                    cv.reqs.push(Req { pkt, arr, t_arr, want, ans: INF, t_ans: u64::MAX / 4 });
                    if cv.must.is_some() {
                        break;
                    }
                }
            }
        }
    }

    /// Pair answers with requests: both come in order
    fn answers(&mut self) {
        let mut fails = vec![];
        for (c, cv) in self.conns.iter_mut().enumerate() {
            let mut next = 0;
            let unclear = cv.unclear;
            // a CONNECT may be refused for its first fields before the others turn out malformed
            let refusal = cv.bad_connect || cv.must.as_ref().is_some_and(|m| m.0 == Must::SecondConnect);
            for (i, t, p) in &cv.recv {
                if matches!(p, Pkt::Publish { .. }) {
                    continue;
                }
                while next < cv.reqs.len() && cv.reqs[next].want == Want::None {
                    next += 1;
                }
                if next >= cv.reqs.len() {
                    if unclear.is_some_and(|u| u < *i) {
                        break;
                    }
                    if refusal && matches!(p, Pkt::ConnAck { code, present: false } if *code != 0) {
                        continue;
                    }
                    let class = if matches!(p, Pkt::ConnAck { .. }) { "connack" } else { "answer" };
                    fails.push((class, format!("c{c} received {} for which there is no request", p.short())));
                    break;
                }
                let r = &mut cv.reqs[next];
                let ok = match (r.want, p) {
                    (Want::ConnAck(w), Pkt::ConnAck { code, .. }) => w == *code,
                    (Want::PubAck(w), Pkt::PubAck(g)) => w == *g,
                    (Want::PubRec(w), Pkt::PubRec(g)) => w == *g,
                    (Want::PubRel(w), Pkt::PubRel(g)) => w == *g,
                    (Want::PubComp(w), Pkt::PubComp(g)) => w == *g,
                    (Want::UnsubAck(w), Pkt::UnsubAck(g)) => w == *g,
                    (Want::PingResp, Pkt::PingResp) => true,
                    (Want::SubAck(w), Pkt::SubAck { pid, codes }) => {
                        let Pkt::Subscribe { filters, .. } = &r.pkt else { unreachable!() };
                        w == *pid
                            && codes.len() == filters.len()
                            && codes.iter().zip(filters).all(|(code, (f, q))| {
                                if !mqtt::valid_filter(f) {
                                    *code == 0x80
                                } else if f.split('/').count() > 100 {
                                    // there may be a limit
                                    *code == *q || *code == 0x80
                                } else {
                                    *code == *q
                                }
                            })
                    }
                    _ => false,
                };
                if !ok {
                    let class = if matches!(r.want, Want::ConnAck(_)) { "connack" } else { "answer" };
                    fails.push((class, format!("c{c} sent {} and received {} in answer", r.pkt.short(), p.short())));
                    break;
                }
                if r.arr >= *i {
                    fails.push(("answer", format!("c{c} received {} before the broker had all of {}", p.short(), r.pkt.short())));
                    break;
                }
                r.ans = *i;
                r.t_ans = *t;
                next += 1;
            }
            // CONNACK comes first
            if let Some((_, _, p)) = cv.recv.first() {
                if !matches!(p, Pkt::ConnAck { .. }) && unclear.is_none() {
                    fails.push(("connack", format!("c{c} received {} before CONNACK", p.short())));
                }
            }
        }
        for (c, m) in fails {
            self.fail(c, m);
        }
    }

    /// Open at the end, as far as the client knows, and reading
    pub fn alive(&self, c: usize) -> bool {
        let cv = &self.conns[c];
        self.judged() && cv.closed.map_or(true, |x| x.0 > self.settled) && cv.end() > self.settled
    }
    /// alive, and all that is due has had time to arrive
    pub fn complete(&self, c: usize) -> bool {
        let cv = &self.conns[c];
        self.alive(c) && !cv.stalled_at_end && cv.partition_until + LAG < self.t_settled
    }

    /// connections of an identifier that opened a session, in the order in which CONNECT arrived
    pub fn sessions(&self) -> BTreeMap<String, Vec<usize>> {
        let mut m: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (c, cv) in self.conns.iter().enumerate() {
            if let (true, Some(cid)) = (cv.session(), &cv.cid) {
                let name = if cid.is_empty() { format!("\0{c}") } else { cid.clone() };
                m.entry(name).or_default().push(c);
            }
        }
        for v in m.values_mut() {
            v.sort_by_key(|c| self.conns[*c].reqs[0].arr);
        }
        m
    }

    fn identifiers(&mut self) {
        self.place = vec![None; self.conns.len()];
        for list in self.sessions().into_values() {
            let connect = |c: &usize| &self.conns[*c].reqs[0];
            let mut latest = vec![0];
            for c in &list {
                latest.push((*latest.last().unwrap()).max(connect(c).ans));
            }
            let (mut first, mut next) = (vec![INF], vec![u64::MAX]);
            for c in list.iter().rev() {
                let t = if connect(c).ans == INF { u64::MAX } else { connect(c).t_ans };
                next.push((*next.last().unwrap()).min(t));
                first.push((*first.last().unwrap()).min(connect(c).ans));
            }
            next.reverse();
            first.reverse();
            let arr = list.iter().map(|c| connect(c).arr).collect();
            for (k, c) in list.iter().enumerate() {
                self.place[*c] = Some((self.ids.len(), k));
            }
            self.ids.push(Id { list, arr, latest, first, next });
        }
    }

    /// the previous connection of the session: None if there is none, Err if that is not certain
    pub fn previous(&self, c: usize) -> Result<Option<usize>, ()> {
        let (i, k) = self.place[c].unwrap();
        let id = &self.ids[i];
        // all others come certainly before or certainly after
        if id.latest[k] > id.arr[k] || id.arr.get(k + 1).is_some_and(|a| *a < self.conns[c].reqs[0].ans) {
            return Err(());
        }
        if k == 0 {
            return Ok(None);
        }
        // and one of those before comes certainly last
        if id.latest[k - 1] > id.arr[k - 1] {
            return Err(());
        }
        Ok(Some(id.list[k - 1]))
    }

    /// What was published, by whom, between when and when
    fn messages(&mut self) {
        let mut order: Vec<usize> = (0..self.conns.len()).filter(|c| self.conns[*c].session()).collect();
        order.sort_by_key(|c| self.conns[*c].reqs[0].arr);
        let mut recv_sets: HashMap<usize, (HashMap<u16, Option<usize>>, BTreeSet<u16>, bool)> = HashMap::new();
        let mut msgs: Vec<Msg> = vec![];
        for c in order {
            let cv = &self.conns[c];
            // the identifiers of QoS 2 that the broker remembers, and whether that is all of them
            let (mut set, mut fuzzy, raced) = match self.previous(c) {
                Ok(Some(p)) if !cv.clean && !self.conns[p].clean => recv_sets.get(&p).cloned().unwrap_or_default(),
                Err(()) if !cv.clean => (HashMap::new(), BTreeSet::new(), true),
                _ => Default::default(),
            };
            let mut known: BTreeSet<u16> = BTreeSet::new();
            let all_answered_by = |upto: usize, limit: usize| cv.reqs[..upto].iter().all(|r| r.want == Want::None || r.ans < limit);
            for (n, r) in cv.reqs.iter().enumerate() {
                match &r.pkt {
                    Pkt::PubRel(pid) => {
                        set.remove(pid);
                        if r.ans == INF {
                            // may still be remembered
                            fuzzy.insert(*pid);
                            known.remove(pid);
                        } else {
                            fuzzy.remove(pid);
                            known.insert(*pid);
                        }
                    }
                    Pkt::Publish { topic, pid, qos, hash, len, uid, retain, .. } => {
                        let mut end = r.ans;
                        let mut certain = r.ans != INF;
                        if !certain {
                            if let Some(a) = cv.reqs[n..].iter().find(|x| x.ans != INF) {
                                end = a.ans;
                                certain = true;
                            } else if self.judged() && self.due(r.t_arr, LAG) < self.t_settled && cv.closed.map_or(true, |x| x.0 > self.settled) && cv.end() > self.settled && !cv.stalled_at_end {
                                end = self.settled;
                                certain = true;
                            } else if *qos == 0 && cv.rst.is_none() {
                                if let Some((Must::Disconnect, _, _)) = &cv.must {
                                    certain = all_answered_by(n, cv.client_close.unwrap_or(INF));
                                    // done when the broker has closed, unless it has closed for another client's sake
                                    end = cv.closed.map_or(INF, |x| x.0);
                                    certain &= !self.taken_over(c, end);
                                }
                            }
                        }
                        if *qos == 2 {
                            if let Some(prev) = set.get(pid) {
                                // a repetition, or another message if the broker has missed the first
                                let mut missed = false;
                                if let Some(m) = prev {
                                    let m: &mut Msg = &mut msgs[*m];
                                    if m.hash == *hash && m.topic == *topic {
                                        m.attempts += 1;
                                        m.certain |= certain && !fuzzy.contains(pid);
                                        m.end = m.end.min(end);
                                        m.start = m.start.min(r.arr);
                                    } else if !m.certain {
                                        missed = true;
                                    }
                                }
                                if !missed {
                                    continue;
                                }
                                fuzzy.insert(*pid);
                            }
                            set.insert(*pid, Some(msgs.len()));
                            if fuzzy.contains(pid) || raced && known.insert(*pid) {
                                // may be taken for a repetition, and so may its repetitions
                                fuzzy.insert(*pid);
                                certain = false;
                            }
                        }
                        msgs.push(Msg {
                            hash: *hash,
                            len: *len,
                            topic: topic.clone(),
                            uid: *uid,
                            qos: *qos,
                            retain: *retain,
                            conn: c,
                            nth: n,
                            start: r.arr,
                            end,
                            t_end: 0,
                            certain,
                            attempts: 1,
                        });
                    }
                    _ => {}
                }
            }
            recv_sets.insert(c, (set, fuzzy, raced));
        }
        for (i, m) in msgs.iter_mut().enumerate() {
            m.t_end = if m.end >= self.hist.len() { u64::MAX / 4 } else { self.hist[m.end].t };
            self.by_key.entry((m.hash, m.len, m.topic.clone())).or_default().push(i);
        }
        self.msgs = msgs;
    }

    // ---- the checks ----

    /// Every request is answered, in time
    pub fn check_answers(&mut self, bound: Option<u64>) {
        let mut fails = vec![];
        for (c, cv) in self.conns.iter().enumerate() {
            let refused = matches!(cv.must, Some((Must::Refused, _, _)));
            // a CONNECT that may have come only when the handshake's time was up need not be answered
            let too_late = cv.reqs.first().is_some_and(|r| r.ans == INF && self.due(r.t_arr, 1000) >= cv.t_open + 10_000);
            let must_all = self.complete(c) || (refused && !too_late && cv.client_close.is_none() && cv.rst.is_none() && !cv.slow && self.judged());
            for r in &cv.reqs {
                if r.want == Want::None {
                    continue;
                }
                if r.ans == INF {
                    if must_all && r.arr < self.settled && self.due(r.t_arr, LAG) < self.t_settled {
                        let class = if matches!(r.want, Want::ConnAck(_)) { "connack" } else { "unanswered" };
                        fails.push((class, format!("c{c}: {} is never answered", r.pkt.short())));
                        break;
                    }
                    continue;
                }
                if let Some(b) = bound {
                    let late = r.t_ans - r.t_arr;
                    if !cv.slow && r.t_ans > self.due(r.t_arr, b + self.spec.cfg.lat.1 as u64 * 2) {
                        fails.push(("late", format!("c{c}: {} is answered only after {late} ms", r.pkt.short())));
                        break;
                    }
                }
            }
            if let Some((_, why)) = &cv.bad {
                let shutting = cv.bad.as_ref().unwrap().0 > self.sig;
                let dead = cv.client_close.is_some() || cv.rst.is_some();
                let cut = why.starts_with("cut off");
                // a connection that ends while a packet is being written is cut off
                let excused = cut && (shutting || dead || self.may_close(c, cv.bad.as_ref().unwrap().0));
                if !excused {
                    fails.push(("badframe", format!("c{c} received something that is not a packet: {why}")));
                }
            }
        }
        for (c, m) in fails {
            self.fail(c, m);
        }
    }

    /// Is there another connection that may have taken `c`'s identifier over before `at`
    pub fn taken_over(&self, c: usize, at: usize) -> bool {
        let Some((i, k)) = self.place[c] else { return false };
        let id = &self.ids[i];
        let upto = id.arr.partition_point(|a| *a < at);
        upto > k + 1 || id.latest[upto.min(k)] > id.arr[k]
    }

    /// Keep alive: when may it have run out for the first time, in ms
    fn expiry(&self, c: usize) -> Option<u64> {
        let cv = &self.conns[c];
        if cv.session() && cv.reqs[0].ans != INF || cv.session() {
            if cv.ka == 0 {
                return None;
            }
            let k = cv.ka as u64 * 1500;
            let mut last = cv.reqs[0].t_arr;
            for r in &cv.reqs[1..] {
                // taken note of up to a second later, or only after the clock has leapt
                if self.due(r.t_arr, 1000) >= last + k {
                    return Some(last + k);
                }
                last = r.t_arr;
            }
            return Some(last + k);
        }
        Some(cv.t_open + 60_000)
    }

    /// May the broker have had a reason to close `c` before `at`
    pub fn may_close(&self, c: usize, at: usize) -> bool {
        let cv = &self.conns[c];
        if cv.end() < at || self.sig < at || self.taken_over(c, at) {
            return true;
        }
        let t = self.t(at);
        if !cv.session() || cv.reqs[0].ans == INF && self.due(cv.reqs[0].t_arr, 1000) >= cv.t_open + 10_000 {
            return t + 1000 >= cv.t_open + 10_000;
        }
        if cv.ka > 0 {
            if let Some(e) = self.expiry(c) {
                // give or take a second
                if t + 1000 >= e {
                    return true;
                }
            }
            // packets that could not be read while the client did not read either
            if cv.slow {
                return t + 1000 >= cv.reqs[0].t_arr + cv.ka as u64 * 1500;
            }
        }
        false
    }

    /// The broker closes only what it may close
    pub fn check_unjustified(&mut self) {
        let mut fails = vec![];
        for c in 0..self.conns.len() {
            let cv = &self.conns[c];
            if let Some((i, t)) = cv.closed {
                if i > self.sig || self.main_exit.is_some_and(|m| m.0 < i) {
                    continue;
                }
                if !self.may_close(c, i) {
                    let idle = cv.t_arrivals.iter().filter(|a| a.0 < i).last().map_or(t - cv.t_open, |a| t - a.1);
                    fails.push(format!(
                        "c{c} is closed at {t} ms without a reason ({idle} ms after its last packet, keep alive {} s, {} packets sent)",
                        cv.ka,
                        cv.reqs.len()
                    ));
                }
            }
        }
        for m in fails {
            self.fail("unjustified", m);
        }
    }

    fn stalled_at(&self, c: usize, t: u64) -> bool {
        let mut on = false;
        for (_, ts, s) in &self.conns[c].stalls {
            if *ts <= t + LAG {
                on = *s || (on && *ts + LAG > t);
            }
        }
        on || self.conns[c].partition_until > t
    }

    /// The broker closes what it must close, in time
    pub fn check_must_close(&mut self) {
        let mut fails: Vec<(&str, String)> = vec![];
        for (c, cv) in self.conns.iter().enumerate() {
            let mut due: Vec<(&str, u64, String)> = vec![];
            if let Some((m, _, t)) = &cv.must {
                let (class, what) = match m {
                    Must::Malformed(why) => ("malformed-accepted", format!("a malformed packet ({why})")),
                    Must::NotConnect => ("not-connect-accepted", "a first packet that is no valid CONNECT".to_string()),
                    Must::SecondConnect => ("second-connect-accepted", "a second CONNECT".into()),
                    Must::Refused => ("refused-open", "a CONNECT that is refused".into()),
                    Must::Disconnect => ("not-released", "DISCONNECT".into()),
                };
                due.push((class, *t, what));
            }
            if let Some((_, t)) = cv.fin {
                due.push(("not-released", t, "the end of the stream".into()));
            }
            if let Some((_, t)) = cv.rst {
                due.push(("not-released", t, "a reset".into()));
            }
            if let (Some((i, _)), None) = (self.place[c], cv.unclear) {
                let id = &self.ids[i];
                let t = id.next[id.arr.partition_point(|a| *a <= cv.reqs[0].ans)];
                if t != u64::MAX {
                    due.push(("not-taken-over", t, format!("another connection with its identifier {:?}", cv.cid)));
                }
            }
            if cv.unclear.is_none() {
                if cv.session() {
                    if cv.ka > 0 {
                        let last = cv.reqs.last().unwrap().t_arr;
                        let last = self.due(last, 0);
                        due.push(("keepalive-late", last + cv.ka as u64 * 1500, format!("its keep alive of {} s has run out", cv.ka)));
                    }
                } else if cv.must.is_none() {
                    // the time counts from the moment at which the broker takes the connection, in time, and attends to it
                    let from = cv.t_acc.filter(|t| *t <= self.due(cv.t_open, 1000)).unwrap_or(cv.t_open);
                    let from = self.due(from, 0);
                    due.push(("no-connect-open", from + 60_000 + 1000, "no CONNECT has arrived".into()));
                }
            }
            for (class, t, what) in due {
                let at = self.due(t, 1000);
                if at >= self.t_settled.min(self.t_sig) {
                    continue;
                }
                if cv.closed.is_some_and(|x| x.1 <= at) {
                    continue;
                }
                // a broker that cannot write cannot read either, until the keep alive runs out
                let blocked = self.stalled_at(c, t);
                if blocked && class != "keepalive-late" && class != "not-taken-over" {
                    continue;
                }
                let when = match cv.closed {
                    Some(x) => format!("only at {} ms", x.1),
                    None => "never".into(),
                };
                fails.push((class, format!("c{c} should be closed by {at} ms because of {what}: it is closed {when}")));
            }
        }
        for (c, m) in fails {
            self.fail(c, m);
        }
    }

    /// Of the connections with one identifier one stays
    pub fn check_survivor(&mut self) {
        if !self.judged() {
            return;
        }
        let mut fails = vec![];
        for (cid, list) in self.sessions() {
            if list.len() < 2 || list.iter().any(|c| self.conns[*c].end() < self.settled || self.conns[*c].ka > 0) {
                continue;
            }
            if list.iter().any(|c| self.due(self.conns[*c].reqs[0].t_arr, LAG) > self.t_settled) {
                continue;
            }
            let open = list.iter().filter(|c| self.conns[**c].closed.map_or(true, |x| x.0 > self.settled)).count();
            if open != 1 {
                fails.push(format!("{open} of {} connections with identifier {cid:?} stay open", list.len()));
            }
        }
        for m in fails {
            self.fail("not-taken-over", m);
        }
    }

    /// CONNACK says whether a session was resumed
    pub fn check_present(&mut self) {
        let mut fails = vec![];
        for (cid, list) in self.sessions() {
            for k in 0..list.len() {
                let Some(present) = self.conns[list[k]].recv.iter().find_map(|(_, _, p)| match p {
                    Pkt::ConnAck { present, code: 0 } => Some(*present),
                    _ => None,
                }) else {
                    continue;
                };
                let want = match self.previous(list[k]) {
                    Err(()) => {
                        if self.conns[list[k]].clean {
                            false
                        } else {
                            continue;
                        }
                    }
                    Ok(None) => false,
                    Ok(Some(p)) => !self.conns[p].clean && !self.conns[list[k]].clean,
                };
                if present != want {
                    fails.push(format!("c{} ({cid:?}) is told session present = {present}, it is {want}", list[k]));
                }
            }
        }
        for m in fails {
            self.fail("present", m);
        }
    }

    /// Packet identifiers and flags of deliveries
    pub fn check_delivery_form(&mut self) {
        let mut fails = vec![];
        for (c, cv) in self.conns.iter().enumerate() {
            // when each identifier's acknowledgement reached the broker
            let mut acks: HashMap<u16, Vec<usize>> = HashMap::new();
            for r in &cv.reqs {
                if let Pkt::PubAck(p) | Pkt::PubComp(p) = &r.pkt {
                    acks.entry(*p).or_default().push(r.arr);
                }
            }
            let mut last: HashMap<u16, usize> = HashMap::new();
            for (i, _, p) in &cv.recv {
                if let Pkt::Publish { pid, qos, dup, retain, .. } = p {
                    if *dup || *retain {
                        fails.push(("flags", format!("c{c} received {}: DUP or RETAIN is set", p.short())));
                        break;
                    }
                    if *qos > 0 {
                        if *pid == 0 {
                            fails.push(("pid", format!("c{c} received {} with identifier 0", p.short())));
                            break;
                        }
                        if let Some(prev) = last.insert(*pid, *i) {
                            let freed = acks.get(pid).is_some_and(|a| a.iter().any(|x| prev < *x && x < i));
                            if !freed {
                                fails.push(("pid", format!("c{c} received {}: an earlier message with that identifier is not acknowledged", p.short())));
                                break;
                            }
                        }
                    }
                }
            }
        }
        for (c, m) in fails {
            self.fail(c, m);
        }
    }

    /// Who gets what: for each connection there must be one order of its subscription changes and all
    /// publishes that explains what it received.
    /// When nearly all packet identifiers were in use, for messages the client did not acknowledge:
    /// what comes then may have to be dropped
    fn identifiers_used_up(&self, c: usize) -> Vec<(usize, usize)> {
        const NEARLY: usize = 65_535 - 2 * BACKLOG;
        let cv = &self.conns[c];
        if cv.recv.len() < NEARLY {
            return vec![];
        }
        let mut events: Vec<(usize, bool, u16)> = vec![];
        for (i, _, p) in &cv.recv {
            if let Pkt::Publish { pid, qos: 1.., .. } = p {
                events.push((*i, true, *pid));
            }
        }
        for r in &cv.reqs {
            if let Pkt::PubAck(p) | Pkt::PubComp(p) = &r.pkt {
                events.push((r.arr, false, *p));
            }
        }
        events.sort();
        let mut used: BTreeSet<u16> = BTreeSet::new();
        let mut since = None;
        let mut out = vec![];
        for (i, on, pid) in events {
            if on {
                used.insert(pid);
            } else {
                used.remove(&pid);
            }
            match since {
                None if used.len() >= NEARLY => since = Some(i),
                Some(s) if used.len() < NEARLY => {
                    out.push((s, i));
                    since = None;
                }
                _ => {}
            }
        }
        out.extend(since.map(|s| (s, INF)));
        out
    }

    pub fn check_routing(&mut self) {
        let sessions = self.sessions();
        let mut fails: Vec<(&'static str, String)> = vec![];
        let mut states: HashMap<usize, (BTreeMap<String, u8>, BTreeSet<String>, bool)> = HashMap::new();
        let mut by_start: Vec<usize> = (0..self.msgs.len()).collect();
        by_start.sort_by_key(|m| self.msgs[*m].start);

        for list in sessions.values() {
            for k in 0..list.len() {
                let c = list[k];
                let cv = &self.conns[c];
                let (mut map, mut unsure, mut unknown) = match self.previous(list[k]) {
                    Ok(None) => Default::default(),
                    Ok(Some(p)) if cv.clean || self.conns[p].clean => Default::default(),
                    Ok(Some(p)) => states[&p].clone(),
                    Err(()) if cv.clean => Default::default(),
                    Err(()) => (BTreeMap::new(), BTreeSet::new(), true),
                };
                // epoch 0: before CONNECT; 1: after; then one per change; the last: after the end
                let mut ops: Vec<(usize, usize)> = vec![(cv.reqs[0].arr, cv.reqs[0].ans)];
                // what each epoch changes: a filter and its qos, or that it has gone
                let first = map.clone();
                let mut changes: Vec<Vec<(String, Option<u8>)>> = vec![];
                let unsure0 = unsure.clone();
                let unknown0 = unknown;
                for r in &cv.reqs {
                    let mut change = vec![];
                    match &r.pkt {
                        Pkt::Subscribe { filters, .. } => {
                            let codes = cv.recv.iter().find(|x| x.0 == r.ans).and_then(|x| match &x.2 {
                                Pkt::SubAck { codes, .. } => Some(codes.clone()),
                                _ => None,
                            });
                            for (n, (f, q)) in filters.iter().enumerate() {
                                match &codes {
                                    Some(cs) if cs.get(n) == Some(&0x80) => {}
                                    Some(_) => {
                                        map.insert(f.clone(), *q);
                                        change.push((f.clone(), Some(*q)));
                                    }
                                    None => {
                                        if mqtt::valid_filter(f) {
                                            map.insert(f.clone(), *q);
                                            change.push((f.clone(), Some(*q)));
                                            unsure.insert(f.clone());
                                        }
                                    }
                                }
                            }
                        }
                        Pkt::Unsubscribe { filters, .. } => {
                            for f in filters {
                                map.remove(f);
                                change.push((f.clone(), None));
                                if r.ans == INF {
                                    unsure.insert(f.clone());
                                }
                            }
                        }
                        _ => continue,
                    }
                    ops.push((r.arr, r.ans));
                    changes.push(change);
                }
                if cv.reqs[0].ans == INF {
                    unknown = true;
                }
                states.insert(c, (map, unsure, unknown));

                // the end: by the client, or by a takeover
                let mut end_lo = cv.end();
                let mut end_hi = INF;
                let id = &self.ids[self.place[c].unwrap().0];
                let me = &cv.reqs[0];
                if id.latest[k] > me.arr {
                    // one before may have come after
                    end_lo = end_lo.min(me.arr);
                } else if let Some(a) = id.arr.get(k + 1) {
                    end_lo = end_lo.min(*a);
                }
                // one that has certainly come after
                end_hi = end_hi.min(id.first[id.arr.partition_point(|a| *a <= me.ans)]);
                if let Some((i, _)) = cv.closed {
                    end_lo = end_lo.min(i);
                }
                // what it received, by message
                let mut got: HashMap<usize, (usize, u8)> = HashMap::new();
                let mut copies: HashMap<Key, usize> = HashMap::new();
                let mut last_nth: HashMap<usize, (usize, u32)> = HashMap::new();
                for (i, _, p) in &cv.recv {
                    let Pkt::Publish { topic, qos, hash, len, uid, .. } = p else { continue };
                    let key = (*hash, *len, topic.clone());
                    let Some(ms) = self.by_key.get(&key) else {
                        if self.conns.iter().any(|c| c.unclear.is_some()) {
                            continue;
                        }
                        fails.push(("altered", format!("c{c} received {}: nobody has published that", p.short())));
                        continue;
                    };
                    let n = copies.entry(key).or_insert(0);
                    *n += 1;
                    let limit: usize = ms.len();
                    if *n > limit {
                        fails.push(("dup", format!("c{c} received {} {n} times, it was published {limit} times", p.short())));
                        continue;
                    }
                    if ms.iter().filter(|m| self.msgs[**m].start <= *i).count() < *n {
                        fails.push(("alien", format!("c{c} received {} before it was published", p.short())));
                    }
                    if ms.len() == 1 {
                        let m = &self.msgs[ms[0]];
                        got.insert(ms[0], (*i, *qos));
                        if m.attempts == 1 {
                            if let Some((prev, puid)) = last_nth.insert(m.conn, (m.nth, m.uid)) {
                                if prev > m.nth {
                                    fails.push(("order", format!("c{c} received #{uid} after #{puid}, c{} published it before", m.conn)));
                                }
                            }
                        }
                    }
                }

                // value of each epoch for a topic: None or the qos; Err if it is not known
                let mut cache: HashMap<&str, Vec<Result<Option<u8>, ()>>> = HashMap::new();
                let msgs = &self.msgs;
                let relevant: Vec<usize> = by_start
                    .iter()
                    .copied()
                    .filter(|m| {
                        let t = msgs[*m].topic.as_str();
                        let vals = cache.entry(t).or_insert_with(|| {
                            let fuzzy = unknown0 || unsure0.iter().any(|f| mqtt::matches(f, t));
                            if fuzzy {
                                return vec![Err(()); changes.len() + 1];
                            }
                            let mut live: BTreeMap<&str, u8> = first.iter().filter(|(f, _)| mqtt::matches(f, t)).map(|(f, q)| (f.as_str(), *q)).collect();
                            let mut vals = vec![Ok(live.values().copied().max())];
                            for change in &changes {
                                for (f, q) in change.iter().filter(|(f, _)| mqtt::matches(f, t)) {
                                    match q {
                                        Some(q) => live.insert(f, *q),
                                        None => live.remove(f.as_str()),
                                    };
                                }
                                vals.push(Ok(live.values().copied().max()));
                            }
                            vals
                        });
                        vals.iter().any(|v| !matches!(v, Ok(None))) || got.contains_key(m)
                    })
                    .collect();

                // how many were waiting for this client when each was published
                let starts: Vec<usize> = relevant.iter().map(|m| msgs[*m].start).collect();
                let mut suffix = vec![INF; relevant.len() + 1];
                for n in (0..relevant.len()).rev() {
                    let r = got.get(&relevant[n]).map_or(INF, |g| g.0);
                    suffix[n] = suffix[n + 1].min(r);
                }
                let mut gone: Vec<usize> = relevant
                    .iter()
                    .map(|m| match got.get(m) {
                        Some(g) => g.0,
                        None => suffix[starts.partition_point(|s| *s <= msgs[*m].end)],
                    })
                    .collect();
                gone.sort_unstable();

                let used_up = self.identifiers_used_up(c);

                let last = ops.len() + 1;
                let mut gmax = 0;
                let mut conn_max: HashMap<usize, usize> = HashMap::new();
                let mut ends: std::collections::BinaryHeap<std::cmp::Reverse<(usize, usize)>> = Default::default();
                let complete = self.complete(c);
                let end_t = self.t(end_lo.min(self.sig));
                for m in relevant {
                    let msg = &msgs[m];
                    if self.by_key[&(msg.hash, msg.len, msg.topic.clone())].len() != 1 {
                        continue;
                    }
                    while let Some(std::cmp::Reverse((e, ep))) = ends.peek().copied() {
                        if e >= msg.start {
                            break;
                        }
                        ends.pop();
                        gmax = gmax.max(ep);
                    }
                    let vals = &cache[msg.topic.as_str()];
                    let seen = got.get(&m).copied();
                    let outstanding = starts.partition_point(|s| *s <= msg.end).saturating_sub(gone.partition_point(|g| *g < msg.start));
                    let had_time = complete || (!cv.slow && self.due(msg.t_end.min(u64::MAX / 8), LAG + 4 * self.spec.cfg.lat.1 as u64) < end_t);
                    let optional = !msg.certain || !had_time || outstanding > BACKLOG || used_up.iter().any(|(from, to)| *from <= msg.end && msg.start <= *to);
                    // may the epoch hold at some moment of the publish
                    let possible = |e: usize| {
                        if e == 0 {
                            ops[0].1 >= msg.start
                        } else if e == last {
                            end_lo <= msg.end
                        } else {
                            let next_hi = if e < ops.len() { ops[e].1 } else { INF };
                            ops[e - 1].0 <= msg.end && next_hi >= msg.start && end_hi >= msg.start
                        }
                    };
                    let explains = |e: usize| match seen {
                        Some((_, q)) => {
                            e != 0
                                && e != last
                                && match vals[e - 1] {
                                    Err(()) => true,
                                    Ok(v) => v.is_some_and(|s| s.min(msg.qos) == q),
                                }
                        }
                        None => optional || e == 0 || e == last || !matches!(vals[e - 1], Ok(Some(_))),
                    };
                    let bound = gmax.max(conn_max.get(&msg.conn).copied().unwrap_or(0));
                    let found = (bound..=last).find(|e| possible(*e) && explains(*e));
                    match found {
                        Some(e) => {
                            if msg.attempts == 1 && (seen.is_some() || !optional) {
                                conn_max.insert(msg.conn, e);
                                ends.push(std::cmp::Reverse((msg.end, e)));
                            }
                        }
                        None => {
                            let any = (0..=last).find(|e| possible(*e) && explains(*e));
                            let what = format!("#{} on {:?} (q{}) by c{}", msg.uid, msg.topic.chars().take(60).collect::<String>(), msg.qos, msg.conn);
                            match (any, seen) {
                                (Some(_), s) => fails.push((
                                    "linear",
                                    format!(
                                        "c{c} {} {what}: no single order of its subscription changes and the publishes explains that",
                                        if s.is_some() { "received" } else { "did not receive" }
                                    ),
                                )),
                                (None, None) => fails.push(("missed", format!("c{c} did not receive {what} although it was subscribed throughout"))),
                                (None, Some((_, q))) => {
                                    let on: Vec<u8> = (1..last).filter(|e| possible(*e)).filter_map(|e| vals[e - 1].ok().flatten()).collect();
                                    if on.is_empty() {
                                        fails.push(("alien", format!("c{c} received {what} although it was not subscribed at any time in question")));
                                    } else {
                                        fails.push(("qos", format!("c{c} received {what} at q{q}, its subscriptions say {on:?}")));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // connections without a session get nothing
        for (c, cv) in self.conns.iter().enumerate() {
            if !cv.session() && cv.unclear.is_none() && cv.recv.iter().any(|r| matches!(r.2, Pkt::Publish { .. })) {
                fails.push(("alien", format!("c{c} received a message without a session")));
            }
        }
        for (c, m) in fails {
            self.fail(c, m);
        }
    }

    /// How long after it was published (and acknowledged) each message arrived
    pub fn check_delay(&mut self, bound: u64) {
        let mut fails = vec![];
        for (c, cv) in self.conns.iter().enumerate() {
            if cv.slow {
                continue;
            }
            for (_, t, p) in &cv.recv {
                let Pkt::Publish { topic, hash, len, .. } = p else { continue };
                if let Some(ms) = self.by_key.get(&(*hash, *len, topic.clone())) {
                    if ms.len() == 1 {
                        let m = &self.msgs[ms[0]];
                        let d = t.saturating_sub(self.t(m.start));
                        if *t > self.due(self.t(m.start), bound + 2 * self.spec.cfg.lat.1 as u64) && !self.conns[m.conn].slow {
                            fails.push(format!("c{c} received {} only {d} ms after it was published", p.short()));
                            break;
                        }
                    }
                }
            }
        }
        for m in fails {
            self.fail("late", m);
        }
    }

    /// Panics, early exits, shutdown
    pub fn check_process(&mut self, aborted: Option<String>) {
        let mut fails: Vec<(&str, String)> = vec![];
        for e in self.hist {
            match &e.ev {
                Ev::Panic { task, msg } if task == "broker" => fails.push(("panic", format!("the broker panics: {msg}"))),
                Ev::Net(NetEv::Spin(c)) => fails.push(("spin", format!("the broker reads the end of c{c}'s stream over and over"))),
                _ => {}
            }
        }
        if let Some(a) = aborted {
            fails.push(("spin", a));
        } else {
            match self.main_exit {
                Some((i, t)) if i < self.sig => fails.push(("exit", format!("the broker exits at {t} ms without being told to"))),
                Some((_, t)) => {
                    if t > self.due(self.t_sig, 5000) {
                        fails.push(("shutdown", format!("the broker exits only {} ms after the interrupt", t - self.t_sig)));
                    }
                }
                None if self.sig != INF => fails.push(("shutdown", "the broker does not exit after the interrupt".into())),
                None => {}
            }
        }
        for (c, m) in fails {
            self.fail(c, m);
        }
    }

    /// Every connection refused while the broker should be listening
    pub fn check_accept(&mut self) {
        let mut fails = vec![];
        for e in self.hist.iter().take(self.sig.min(self.settled)) {
            if let Ev::Refused { actor } = e.ev {
                fails.push(format!("actor {actor} is refused a connection at {} ms", e.t));
            }
        }
        for m in fails {
            self.fail("exit", m);
        }
    }
}

pub fn distinct<T: std::hash::Hash + Eq>(v: impl Iterator<Item = T>) -> usize {
    v.collect::<HashSet<_>>().len()
}
