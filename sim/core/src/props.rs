//! For each property: the runs that a seed expands to, and which findings count against it.
use crate::{
    client::hex,
    gen::{Script, G},
    hist::Ev,
    mqtt,
    oracle::View,
    spec::{Ack, Fault, Op, Spec, Will},
};

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
];

pub const ASSUMPTIONS: &[&str] = &[
    "TCP delivers each direction of a connection in order and unaltered; what it may do is delay, split, join, stop, end and reset",
    "tasks interleave only at points where they await: data races inside one poll are left to the Rust type system",
    "tokio's own sync, time, task and io-util code runs for real on a current-thread runtime; its multi-thread scheduler and its epoll driver are not exercised",
    "clients that are judged as well-behaved follow MQTT 3.1.1; what the specification leaves open is not judged",
];

/// What counts against any property: the run could not provide what the property promises
const BASE: &[&str] = &["panic", "crash", "hang", "exit", "spin", "unjustified", "badframe", "connack", "unanswered"];

fn classes(p: &str) -> &'static [&'static str] {
    match p {
        "C01" => &["missed", "alien", "altered", "dup", "linear"],
        "C02" => &["altered", "missed", "alien", "dup", "answer", "order", "malformed-accepted", "qos", "pid", "flags", "linear"],
        "C03" => &["order", "dup", "missed"],
        "C04" => &["answer", "missed", "alien", "linear", "qos"],
        "C05" => &["linear", "missed", "alien", "dup", "qos", "answer"],
        "C06" => &["qos", "pid", "flags", "missed", "dup"],
        "C07" => &["dup", "missed", "alien", "answer"],
        "C08" => &["malformed-accepted", "not-connect-accepted", "answer", "alien", "altered", "missed", "dup", "order", "memory"],
        "C09" => &["not-connect-accepted", "second-connect-accepted", "refused-open", "no-connect-open", "answer", "alien", "altered", "present", "missed"],
        "C10" => &["keepalive-late", "no-connect-open"],
        "C11" => &["not-released", "leak", "busy"],
        "C12" => &["not-taken-over", "missed", "alien", "answer", "dup", "linear", "order", "altered", "present", "qos"],
        "C13" => &["present", "missed", "alien", "linear", "dup", "qos", "answer"],
        "C14" => &["late", "missed", "alien", "altered", "dup", "order", "answer", "linear", "qos", "pid", "flags"],
        "C15" => &["shutdown"],
        "C16" => &["late", "missed", "alien", "altered", "dup", "order", "answer", "linear", "qos", "pid", "present"],
        "C17" => &["memory", "leak"],
        _ => &[],
    }
}

pub fn rule(p: &str) -> String {
    let what = match p {
        "C01" => "random subscription histories against random topics (empty levels, unicode, case, $, depth, overlap), one and many subscribers, churn of other clients",
        "C02" => "packet sizes around every change of the length encoding and of the read buffer, cut and joined at random in both directions, and cut off for good",
        "C03" => "bursts of mixed topics and QoS from one to three publishers to several subscribers while others come and go",
        "C04" => "pipelined mixes of all requests, valid and invalid filters, unknown identifiers, with deliveries on the same connection",
        "C05" => "subscription changes, single and multi-filter, racing with publishes from other connections and from the same one",
        "C06" => "overlapping subscriptions at different QoS, acknowledgements late, out of order and missing, more than 65535 deliveries",
        "C07" => "repeated QoS 2 publishes with and without DUP, repeated and unknown PUBREL, cuts at any byte and reconnects, several sessions with equal identifiers",
        "C08" => "mutated, truncated, oversized, mistyped, random and deeply nested packets after valid ones, next to clients that must not notice",
        "C09" => "every kind of first packet, refused and repeated CONNECTs, silence and slow CONNECTs",
        "C10" => "keep alives from 1 s to 65535 s and none, silence, each kind of packet as sign of life, partial packets, stalled readers with data waiting",
        "C11" => "closes, half-closes and resets at every stage, before CONNECT, inside packets, during deliveries; idle time observed",
        "C12" => "two to eight racing connections with one identifier, clean and persistent, with requests and messages in flight",
        "C13" => "histories of connections with and without clean session, ended in every way, with subscription changes in between",
        "C14" => "clients that stop reading, never acknowledge, or dribble, under any load, next to clients whose every latency is measured",
        "C15" => "workloads of all other properties interrupted at a random moment, connections opened around it",
        "C16" => "workloads of all other properties under failing accepts, task stalls, clock leaps, drops and connection storms, followed by fresh clients",
        "C17" => "long churn of connections, sessions, subscriptions and messages with the live memory compared before and after; huge declared lengths; floods towards stalled readers",
        _ => "",
    };
    format!("runs generated from the seed: {what}; distinct_nontrivial counts different client-visible histories (events with virtual times) in which the broker answered, delivered or had to close something")
}

pub fn generate(p: &str, seed: u64, thorough: bool, n: u64) -> Spec {
    let mut g = G::new(p, seed, thorough, n);
    match p {
        "C01" => c01(&mut g),
        "C02" => c02(&mut g),
        "C03" => c03(&mut g),
        "C04" => c04(&mut g),
        "C05" => c05(&mut g),
        "C06" => c06(&mut g),
        "C07" => c07(&mut g),
        "C08" => c08(&mut g),
        "C09" => c09(&mut g),
        "C10" => c10(&mut g),
        "C11" => c11(&mut g),
        "C12" => c12(&mut g),
        "C13" => c13(&mut g),
        "C14" => c14(&mut g),
        "C15" => c15(&mut g),
        "C16" => c16(&mut g),
        "C17" => c17(&mut g),
        _ => panic!("unknown property {p}"),
    }
    wall_clock(&mut g);
    if !matches!(p, "C10" | "C11" | "C15" | "C16" | "C17") {
        long_time(&mut g);
    }
    g.done()
}

/// Now and then nothing happens for hours or days: nothing may expire
fn long_time(g: &mut G) {
    let mut r = crate::rng::Rng::new(g.spec.seed ^ 0x10_9713e);
    if !r.chance(40) || !g.spec.faults.iter().all(|f| matches!(f, Fault::Wall { .. })) {
        return;
    }
    let most = *r.pick(&[100u64, 600, 3000]);
    let at = r.range(20, most);
    let ms = *r.pick(&[200_000u64, 4_000_000, 40_000_000, 300_000_000, 3_000_000_000]);
    g.spec.faults.push(Fault::Leap { at, ms });
    g.spec.cfg.max_ms += ms;
}

/// Now and then somebody sets the clock: nothing here may depend on it
fn wall_clock(g: &mut G) {
    let mut r = crate::rng::Rng::new(g.spec.seed ^ 0x5eed_0fc1_0c4b);
    if !r.chance(150) {
        return;
    }
    for _ in 0..r.range(1, 3) {
        let span = *r.pick(&[200u64, 3000, 20_000, 300_000]);
        let at = r.range(1, span);
        let ms = *r.pick(&[1000i64, 60_000, 3_600_000, 864_000_000]) * if r.chance(500) { 1 } else { -1 };
        g.spec.faults.push(Fault::Wall { at, ms });
    }
}

pub fn check(v: &mut View) {
    let p = v.spec.property.clone();
    let bound = match p.as_str() {
        "C14" => Some(1000),
        "C16" => Some(4000),
        _ => None,
    };
    v.check_answers(bound);
    v.check_unjustified();
    v.check_must_close();
    v.check_survivor();
    v.check_present();
    v.check_delivery_form();
    v.check_routing();
    if let Some(b) = bound {
        v.check_delay(b);
    }
    v.check_accept();
    idle(v);
    marks(v);
    let mine = classes(&p);
    v.out.retain(|x| BASE.contains(&x.class.as_str()) || mine.contains(&x.class.as_str()));
}

/// With nothing to do the broker does nothing
fn idle(v: &mut View) {
    let mut fails = vec![];
    for e in v.hist {
        if let Ev::Idle { polls, ms } = e.ev {
            // keep alives and the like may wake it now and then
            if polls > 200 + ms / 10 {
                fails.push(format!("the broker's tasks run {polls} times in {ms} ms in which nothing happens"));
            }
        }
    }
    if v.judged() {
        for m in fails {
            v.fail("busy", m);
        }
    }
}

// Marks with the same thousand belong together: N000 is the first, N001 is compared with it, N002 is
// a look at the peak since then.
const MARK_CHURN: u32 = 1_000;
const MARK_BYTES: u32 = 2_000;
const MARK_QUEUE: u32 = 3_000;
const MARK_TASKS: u32 = 4_000;

/// How much more may be alive after churn that has ended: far less than what came and went
const SLACK: i64 = 24 << 10;

fn marks(v: &mut View) {
    let ms: Vec<_> = v
        .hist
        .iter()
        .filter_map(|e| match e.ev {
            Ev::Mark { id, live, peak, biggest, sockets, tasks } => Some((id, live, peak, biggest, sockets, tasks)),
            _ => None,
        })
        .collect();
    let get = |id: u32| ms.iter().find(|m| m.0 == id).copied();
    let allow = v.spec.budget;
    let mut fails: Vec<(&str, String)> = vec![];
    if let (Some(a), Some(b)) = (get(MARK_CHURN), get(MARK_CHURN + 1)) {
        if b.1 > a.1 + SLACK + allow {
            fails.push(("memory", format!("after churn that has ended the broker holds {} bytes, before it {}", b.1, a.1)));
        }
    }
    for kind in [MARK_BYTES, MARK_QUEUE] {
        if let (Some(a), Some(b)) = (get(kind), get(kind + 1)) {
            if b.2 > a.1 + allow {
                fails.push(("memory", format!("what the clients have sent makes the broker hold up to {} bytes more, {allow} are plenty", b.2 - a.1)));
            }
        }
    }
    for kind in [MARK_CHURN, MARK_TASKS] {
        if let (Some(a), Some(b)) = (get(kind), get(kind + 1)) {
            if b.4 > a.4 {
                fails.push(("leak", format!("the broker keeps {} sockets where it had {} when the same clients were connected", b.4, a.4)));
            }
            if b.5 > a.5 {
                fails.push(("leak", format!("the broker keeps {} tasks where it had {} when the same clients were connected", b.5, a.5)));
            }
        }
    }
    for (c, m) in fails {
        v.fail(c, m);
    }
}

fn unwait(r: &mut crate::rng::Rng) -> bool {
    r.chance(350)
}

// ---- C01 ----

fn c01(g: &mut G) {
    match g.n % 10 {
        0 | 1 | 2 => routing(g, "routing"),
        3 | 4 | 5 => matching(g),
        6 | 7 => churn(g),
        8 => match g.n / 10 % 6 {
            0 => wide(g),
            1 => backlog(g),
            2 => jam(g),
            _ => fanout(g),
        },
        _ => tree(g),
    }
}

/// Several clients, each with its own subscription history, and several publishers
fn routing(g: &mut G, name: &str) {
    g.name(name);
    g.env();
    let nt = g.r.range(2, 7) as usize;
    let topics: Vec<String> = (0..nt).map(|_| g.topic(4)).collect();
    let subs = g.r.range(1, 4);
    for i in 0..subs {
        let ack = g.ack();
        let mut s = Script::new(&format!("s{i}"), ack);
        let clean = g.r.chance(700);
        s.connect(clean, 0);
        for _ in 0..g.r.range(2, 9) {
            match g.r.weighted(&[6, 3, 2, 1]) {
                0 => {
                    let f = g.filters(&topics, 4);
                    let w = !unwait(&mut g.r);
                    s.sub(f, w);
                }
                1 => {
                    let mut f: Vec<String> = s.known.clone();
                    g.r.shuffle(&mut f);
                    f.truncate(g.r.range(1, 3) as usize);
                    if f.is_empty() {
                        f.push(g.filter(&topics));
                    }
                    let w = !unwait(&mut g.r);
                    s.unsub(f, w);
                }
                2 => s.op(Op::Ping { wait: true }),
                _ => {
                    let t = g.pick_topic(&topics);
                    g.publish(&mut s, &t, 1);
                }
            }
            s.op(Op::Sleep { ms: g.r.range(0, 25) });
        }
        if g.r.chance(250) {
            let e = g.end_op();
            s.op(e);
        }
        g.add(s);
    }
    for i in 0..g.r.range(1, 3) {
        let ack = g.ack();
        let mut s = Script::new(&format!("p{i}"), ack);
        s.connect(true, 0);
        publisher(g, &mut s, &topics, 30);
        g.add(s);
    }
}

/// Publishes mixed messages, few enough at a time that nobody has to drop any
fn publisher(g: &mut G, s: &mut Script, topics: &[String], max: u64) {
    let total = g.r.range(3, max);
    let burst = g.r.range(1, 12);
    let nap = g.r.range(0, 20);
    for k in 0..total {
        let t = g.pick_topic(topics);
        let w = (g.r.chance(300)) as u8;
        g.publish(s, &t, w);
        if k % burst == burst - 1 {
            s.op(Op::WaitAcks);
            s.op(Op::Sleep { ms: nap });
        }
    }
    s.op(Op::Ping { wait: true });
}

/// One subscriber, all kinds of filters; each topic is published once and compared
fn matching(g: &mut G) {
    g.name("matching");
    g.env_fast();
    let depth = *g.r.pick(&[2, 3, 4, 6]);
    let nt = g.r.range(3, 12) as usize;
    let mut topics: Vec<String> = (0..nt).map(|_| g.topic(depth)).collect();
    // neighbours: one level more, one less, an empty one, another case
    for k in 0..nt {
        let t = topics[k].clone();
        match g.r.below(5) {
            0 => topics.push(format!("{t}/")),
            1 => topics.push(format!("/{t}")),
            2 => topics.push(format!("{t}/{}", g.level())),
            3 => {
                if let Some((p, _)) = t.rsplit_once('/') {
                    if !p.is_empty() {
                        topics.push(p.to_string());
                    }
                }
            }
            _ => topics.push(t.to_uppercase()),
        }
    }
    if g.r.chance(60) {
        // deeper than any filter
        let d = *g.r.pick(&[99usize, 100, 101, 130, 256, 1000]);
        let v: Vec<String> = (0..d).map(|_| g.level()).collect();
        topics.push(v.join("/"));
    }
    topics.sort();
    topics.dedup();
    let phases = g.r.range(1, 4) as u32;
    let subs = g.r.range(1, 3) as u32;
    let mut ss: Vec<Script> = (0..subs)
        .map(|i| {
            let ack = g.ack();
            let mut s = Script::new(&format!("s{i}"), ack);
            s.connect(true, 0);
            s
        })
        .collect();
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for ph in 0..phases {
        for s in &mut ss {
            for _ in 0..g.r.range(1, 3) {
                let f = g.filters(&topics, 5);
                s.sub(f, true);
            }
            if ph > 0 && g.r.chance(600) {
                let mut f = s.known.clone();
                g.r.shuffle(&mut f);
                f.truncate(g.r.range(1, 4) as usize);
                if !f.is_empty() {
                    s.unsub(f, true);
                }
            }
            s.op(Op::Barrier { id: 10 + 2 * ph, n: subs + 1 });
            s.op(Op::Barrier { id: 11 + 2 * ph, n: subs + 1 });
        }
        p.op(Op::Barrier { id: 10 + 2 * ph, n: subs + 1 });
        g.r.shuffle(&mut topics);
        for (k, t) in topics.clone().iter().enumerate() {
            g.publish(&mut p, t, 0);
            if k % 15 == 14 {
                p.op(Op::WaitAcks);
                p.op(Op::Sleep { ms: 60 });
            }
        }
        p.op(Op::Ping { wait: true });
        p.op(Op::Sleep { ms: 60 });
        p.op(Op::Barrier { id: 11 + 2 * ph, n: subs + 1 });
    }
    for s in ss {
        g.add(s);
    }
    g.add(p);
}

/// Subscribers come and go; one stays
fn churn(g: &mut G) {
    g.name("churn");
    g.env();
    let topics: Vec<String> = (0..g.r.range(1, 4)).map(|_| g.topic(3)).collect();
    let mut stay = Script::new("stay", Ack::Auto);
    stay.connect(true, 0);
    let f = g.filters(&topics, 4);
    stay.sub(f, true);
    g.add(stay);
    for i in 0..g.r.range(1, 4) {
        let ack = g.ack();
        let mut s = Script::new(&format!("c{i}"), ack);
        for _ in 0..g.r.range(2, 5) {
            let clean = g.r.chance(600);
            s.connect(clean, 0);
            for _ in 0..g.r.range(0, 3) {
                let f = g.filters(&topics, 3);
                let w = !unwait(&mut g.r);
                s.sub(f, w);
            }
            s.op(Op::Sleep { ms: g.r.range(0, 60) });
            let e = g.end_op();
            s.op(e);
            s.op(Op::Sleep { ms: g.r.range(0, 40) });
        }
        let f = g.filters(&topics, 3);
        s.connect(true, 0);
        s.sub(f, true);
        g.add(s);
    }
    for i in 0..g.r.range(1, 3) {
        let mut s = Script::new(&format!("p{i}"), Ack::Auto);
        s.connect(true, 0);
        publisher(g, &mut s, &topics, 40);
        g.add(s);
    }
}

fn fanout(g: &mut G) {
    g.name("fanout");
    g.env_fast();
    let t = g.topic(3);
    let n = match g.n / 60 % 4 {
        0 => *g.r.pick(&[130u64, 270, 300]),
        _ => g.r.range(10, if g.thorough { 300 } else { 80 }),
    };
    for i in 0..n {
        let ack = g.ack();
        let mut s = Script::new(&format!("s{i}"), ack);
        s.connect(true, 0);
        let f = g.filters(&[t.clone()], 2);
        s.sub(f, true);
        s.op(Op::Barrier { id: 1, n: n as u32 + 1 });
        if g.r.chance(100) {
            let e = g.end_op();
            s.op(e);
        } else if g.r.chance(150) {
            let f = s.known.clone();
            s.op(Op::Sleep { ms: g.r.range(0, 20) });
            s.unsub(f, true);
            if g.r.chance(500) {
                s.sub(vec![(t.clone(), 1)], true);
            }
        }
        g.add(s);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: n as u32 + 1 });
    for _ in 0..g.r.range(4, 14) {
        g.publish(&mut p, &t, 1);
        p.op(Op::Sleep { ms: g.r.range(0, 5) });
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// As many messages wait for a client as must not be lost
fn backlog(g: &mut G) {
    g.name("backlog");
    g.env_fast();
    g.spec.cfg.lat = (0, 1);
    // what the connection itself holds is little
    g.spec.cfg.cap = g.r.range(8, 60) as u32;
    let n = g.r.range(1, 3) as u32;
    for i in 0..n {
        let mut s = Script::new(&format!("s{i}"), Ack::Auto);
        s.connect(true, 0);
        s.sub(vec![("b/#".into(), g.r.range(0, 2) as u8)], true);
        for k in 0..2 {
            s.op(Op::Stall);
            s.op(Op::Barrier { id: 10 + k, n: n + 1 });
            s.op(Op::Barrier { id: 20 + k, n: n + 1 });
            s.op(Op::Resume);
            s.op(Op::Ping { wait: true });
            s.op(Op::Barrier { id: 30 + k, n: n + 1 });
        }
        g.add(s);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for k in 0..2 {
        p.op(Op::Barrier { id: 10 + k, n: n + 1 });
        for _ in 0..*g.r.pick(&[20u64, 50, 60, 62, 63]) {
            let q = g.r.range(0, 2) as u8;
            let len = *g.r.pick(&[8u32, 8, 30]);
            g.publish_q(&mut p, "b/1", q, len, 0);
        }
        p.op(Op::WaitAcks);
        p.op(Op::Ping { wait: true });
        p.op(Op::Sleep { ms: 50 });
        p.op(Op::Barrier { id: 20 + k, n: n + 1 });
        p.op(Op::Barrier { id: 30 + k, n: n + 1 });
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// More requests than the broker's queue holds, while the task that works on them does not run
fn jam(g: &mut G) {
    g.name("jam");
    g.env_fast();
    g.spec.cfg.lat = (0, 1);
    let at = 300;
    let until = at + *g.r.pick(&[60u64, 200, 900]);
    // the first task that is spawned is the one with the sessions
    g.spec.faults.push(Fault::Stall { task: 0, from: at, until });
    if g.r.chance(300) {
        g.spec.faults.push(Fault::Stall { task: 0, from: until + 100, until: until + 300 });
    }
    let subs = g.r.range(4, 8);
    for i in 0..subs {
        let ack = g.ack();
        let mut s = Script::new(&format!("s{i}"), ack);
        s.connect(g.r.chance(600), 0);
        s.sub(vec![(format!("j/{i}"), g.r.range(0, 2) as u8)], true);
        if g.r.chance(400) {
            s.op(Op::At { ms: at + g.r.range(0, 50) });
            for _ in 0..g.r.range(1, 3) {
                match g.r.below(6) {
                    0 => s.sub(vec![(format!("j/{}", g.r.below(8)), 1)], true),
                    1 => s.unsub(vec![format!("j/{i}")], true),
                    2 => {
                        s.op(Op::Ping { wait: true });
                    }
                    3 => {
                        let e = g.end_op();
                        s.op(e);
                        s.connect(g.r.chance(500), 0);
                        s.op(Op::Ping { wait: true });
                    }
                    _ => g.publish_q(&mut s, "k/1", 2, 20, 2),
                }
            }
        }
        g.add(s);
    }
    let pubs = g.r.range(1, 3);
    // so many that none waits in vain
    let most = 60 / pubs;
    for i in 0..pubs {
        let ack = g.ack();
        let mut p = Script::new(&format!("p{i}"), ack);
        p.connect(true, 0);
        p.op(Op::At { ms: at + 2 + g.r.range(0, 10) });
        let each = g.r.range(most / 2, most - 1);
        for _ in 0..each {
            for k in 0..subs {
                let q = g.r.below(2) as u8;
                g.publish_q(&mut p, &format!("j/{k}"), q, 8, 0);
            }
        }
        if g.r.chance(400) {
            let e = g.end_op();
            p.op(e);
        } else {
            p.op(Op::WaitAcks);
            g.publish_q(&mut p, "j/0", 1, 8, 1);
        }
        g.add(p);
    }
    for i in 0..g.r.range(0, 3) {
        let mut n = Script::new(&format!("n{i}"), Ack::Auto);
        n.op(Op::At { ms: at + g.r.range(0, 60) });
        n.connect(true, 0);
        n.sub(vec![("k/#".into(), 1)], true);
        n.op(Op::At { ms: until + 500 });
        n.op(Op::Ping { wait: true });
        g.add(n);
    }
    let mut l = Script::new("late", Ack::Auto);
    l.op(Op::At { ms: until + 2500 });
    l.connect(true, 0);
    for k in 0..subs {
        g.publish_q(&mut l, &format!("j/{k}"), 1, 20, 1);
    }
    l.op(Op::Ping { wait: true });
    g.add(l);
}

/// One client with many subscriptions, among others with few
fn wide(g: &mut G) {
    g.name("wide");
    g.env_fast();
    let n = *g.r.pick(&[300u64, 600, 1100, 2500]);
    let t = |k: u64| match k % 3 {
        0 => format!("w/{k}"),
        1 => format!("{k}"),
        _ => format!("w/{}/{k}", k % 7),
    };
    let mut s = Script::new("s", Ack::Auto);
    let mut o = Script::new("o", Ack::Auto);
    s.connect(true, 0);
    o.connect(true, 0);
    let chunk = *g.r.pick(&[1u64, 7, 100]);
    let mut all: Vec<(String, u8)> = (0..n).map(|k| (t(k), (k % 3) as u8)).collect();
    g.r.shuffle(&mut all);
    for f in all.chunks(chunk as usize) {
        s.sub(f.to_vec(), false);
    }
    s.op(Op::WaitAcks);
    o.sub((0..5).map(|_| (t(g.r.range(0, n - 1)), 1)).collect(), true);
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for ph in 0..3u32 {
        for x in [&mut s, &mut o, &mut p] {
            x.op(Op::Barrier { id: 10 + ph, n: 3 });
        }
        for k in 0..40 {
            let x = t(g.r.range(0, n - 1));
            g.publish(&mut p, &x, 0);
            if k % 20 == 19 {
                p.op(Op::WaitAcks);
                p.op(Op::Sleep { ms: 60 });
            }
        }
        p.op(Op::Ping { wait: true });
        p.op(Op::Sleep { ms: 60 });
        for x in [&mut s, &mut o, &mut p] {
            x.op(Op::Barrier { id: 20 + ph, n: 3 });
        }
        g.r.shuffle(&mut all);
        let some: Vec<String> = all.iter().take(n as usize / 3).map(|f| f.0.clone()).collect();
        if ph == 0 {
            for f in some.chunks(chunk as usize) {
                s.unsub(f.to_vec(), false);
            }
        } else {
            for f in some.chunks(chunk as usize) {
                s.sub(f.iter().map(|f| (f.clone(), 1)).collect(), false);
            }
        }
        s.op(Op::WaitAcks);
    }
    g.add(s);
    g.add(o);
    g.add(p);
}

fn tree(g: &mut G) {
    g.name("tree");
    g.env_fast();
    let depth = *g.r.pick(&[2, 3, 5, 20, 80]);
    let names = ["a", "b", "", "c"];
    let mk = |g: &mut G| -> String {
        let d = g.r.range(1, depth);
        let v: Vec<&str> = (0..d).map(|_| *g.r.pick(&names)).collect();
        let t = v.join("/");
        if t.is_empty() { "a".into() } else { t }
    };
    let count = g.r.range(20, 120);
    let mut all: Vec<String> = vec![];
    let mut s = Script::new("s", Ack::Auto);
    let mut o = Script::new("o", Ack::Auto);
    s.connect(true, 0);
    o.connect(true, 0);
    for _ in 0..count {
        let t = mk(g);
        let f = g.wild(&t);
        all.push(t);
        let who = if g.r.chance(700) { &mut s } else { &mut o };
        who.sub(vec![(f, g.r.range(0, 2) as u8)], false);
    }
    for x in [&mut s, &mut o] {
        x.op(Op::WaitAcks);
        let mut k = x.known.clone();
        g.r.shuffle(&mut k);
        k.truncate(k.len() * g.r.range(0, 9) as usize / 10);
        for f in k {
            x.unsub(vec![f], false);
        }
        x.op(Op::WaitAcks);
        x.op(Op::Barrier { id: 1, n: 3 });
    }
    g.add(s);
    g.add(o);
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: 3 });
    for k in 0..g.r.range(10, 60) {
        let t = if g.r.chance(600) { g.r.pick(&all).clone() } else { mk(g) };
        g.publish(&mut p, &t, 0);
        if k % 20 == 19 {
            p.op(Op::WaitAcks);
            p.op(Op::Sleep { ms: 60 });
        }
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

// ---- C02 ----

fn c02(g: &mut G) {
    match g.n % 10 {
        0..=3 => sizes(g),
        4 | 5 => stream(g),
        6 => bigsub(g),
        7 => cutoff(g),
        _ => dribble(g),
    }
}

const EDGES: &[u64] = &[127, 128, 255, 256, 1024, 4096, 8185, 8190, 8192, 8200, 16383, 16384, 32768, 65535, 65536];

fn sizes(g: &mut G) {
    g.name("sizes");
    g.env_fast();
    let big = g.n % 20 == 3;
    let huge = g.n % 200 == 63;
    let mut s = Script::new("s", Ack::Auto);
    s.connect(true, 0);
    let sq = g.r.range(0, 2) as u8;
    s.sub(vec![("t/#".into(), sq)], true);
    s.op(Op::Barrier { id: 1, n: 2 });
    let pause = g.n % 30 == 11;
    if pause {
        // the receiver goes away from its desk in the middle of a packet
        s.op(Op::Stall);
        s.op(Op::Sleep { ms: g.r.range(2_000, 120_000) });
        s.op(Op::Resume);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: 2 });
    let count = if huge { 1 } else if big { g.r.range(1, 2) } else { g.r.range(2, 8) };
    let mut max = 0;
    for k in 0..count {
        let edge = if huge {
            *g.r.pick(&[8_400_000u64, 10_000_000, 16_777_216, 20_000_000])
        } else if big { *g.r.pick(&[2_097_151u64, 2_097_152, 3_000_000]) } else { *g.r.pick(EDGES) };
        let rl = (edge as i64 + g.r.range(0, 8) as i64 - 4).max(20) as u64;
        max = max.max(rl);
        let q = g.r.range(0, 2) as u8;
        let mut topic = format!("t/{}{k}", *g.r.pick(&["", "", "é", "日本日本", "\u{1F600}\u{1F600}", "aé"]));
        if rl > 70_000 || g.r.chance(60) {
            // the topic may be the longest there is
            let unit = *g.r.pick(&["x", "é", "日"]);
            let len = *g.r.pick(&[4usize, 300, 32_760, 32_780, 65_400]);
            if (len as u64) + 100 < rl {
                topic.push_str(&unit.repeat(len / unit.len()));
            }
        }
        let head = 2 + topic.len() as u64 + if q > 0 { 2 } else { 0 };
        // now and then it is the delivery that has this size
        let head = if g.r.chance(400) { 2 + topic.len() as u64 + if q.min(sq) > 0 { 2 } else { 0 } } else { head };
        let w = g.r.chance(500) as u8;
        g.publish_q(&mut p, &topic, q, (rl - head) as u32, w);
        if g.r.chance(300) {
            p.op(Op::Ping { wait: false });
        }
    }
    if g.thorough && g.n % 400 == 3 {
        // the largest packet there is
        g.publish_q(&mut p, "t/m", 0, 268_435_455 - 5, 0);
        max = 268_435_455;
    }
    p.op(Op::WaitAcks);
    p.op(Op::Ping { wait: true });
    // enough to meet every boundary, little enough to be done in time
    let lo = (max / 3000 + 1) as u32;
    g.chunks(lo);
    if g.r.chance(500) {
        let k = g.r.range(lo as u64, 40 * lo as u64 + 200) as u32;
        p.front(Op::Pace { chunk: k, gap_ms: 0 });
    }
    if pause {
        g.spec.cfg.cap = *g.r.pick(&[200, 1000, 9000, 60_000]);
    }
    g.add(s);
    g.add(p);
}

/// Many packets back to back, cut anywhere
fn stream(g: &mut G) {
    g.name("stream");
    g.env_fast();
    g.chunks(1);
    let mut s = Script::new("s", Ack::Auto);
    s.connect(true, 0);
    s.sub(vec![("#".into(), g.r.range(0, 2) as u8)], true);
    s.op(Op::Barrier { id: 1, n: 2 });
    let mut p = Script::new("p", Ack::Auto);
    if g.r.chance(500) {
        // all in one go, the CONNECT too
        p.op(Op::Barrier { id: 1, n: 2 });
        p.connect_with(true, 0, false);
    } else {
        p.connect(true, 0);
        p.op(Op::Barrier { id: 1, n: 2 });
    }
    for k in 0..g.r.range(5, 45) {
        match g.r.weighted(&[8, 2, 1, 1]) {
            0 => {
                let q = g.r.range(0, 2) as u8;
                let len = *g.r.pick(&[0u32, 4, 5, 20, 100, 120, 121, 122, 123, 124, 130, 500]);
                let t = format!("x{}{k}", *g.r.pick(&["", "", "é", "日本日本"]));
                g.publish_q(&mut p, &t, q, len, 0);
            }
            1 => p.op(Op::Ping { wait: false }),
            2 => p.sub(vec![(format!("q{k}"), 1)], false),
            _ => p.unsub(vec![format!("q{k}")], false),
        }
    }
    p.op(Op::WaitAcks);
    p.op(Op::Ping { wait: true });
    if g.r.chance(600) {
        p.front(Op::Pace { chunk: g.r.range(1, 40) as u32, gap_ms: g.r.range(0, 3) as u32 });
    }
    g.add(s);
    g.add(p);
}

/// SUBSCRIBE, SUBACK, UNSUBSCRIBE, topics and client identifiers of all sizes
fn bigsub(g: &mut G) {
    g.name("bigsub");
    g.env_fast();
    g.chunks(1 + (g.n % 3) as u32 * 10);
    let n = *g.r.pick(&[1u64, 20, 125, 126, 127, 400, 4000]);
    let long = if g.r.chance(400) { g.r.range(1, 20_000) as usize } else { 3 };
    let cid: String = "i".repeat(if g.r.chance(500) { g.r.range(1, 300) as usize } else { 1 });
    let mut s = Script::new(&cid, Ack::Auto);
    s.connect(true, 0);
    let t = |k: u64| format!("{}{k}", "l".repeat(if n > 200 { 3 } else { long.min(60_000 / n as usize + 1) }));
    let f: Vec<(String, u8)> = (0..n).map(|k| (t(k), (k % 3) as u8)).collect();
    s.sub(f.clone(), true);
    s.op(Op::Barrier { id: 1, n: 2 });
    s.op(Op::Barrier { id: 2, n: 2 });
    let cut = g.r.range(0, n.min(500));
    if cut > 0 {
        s.unsub(f[..cut as usize].iter().map(|x| x.0.clone()).collect(), true);
    }
    s.op(Op::Barrier { id: 3, n: 2 });
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for b in [1, 3] {
        p.op(Op::Barrier { id: b, n: 2 });
        for _ in 0..10 {
            let k = g.r.range(0, n - 1);
            let q = g.r.range(0, 2) as u8;
            g.publish_q(&mut p, &t(k), q, 20, 1);
        }
        p.op(Op::Ping { wait: true });
        if b == 1 {
            p.op(Op::Sleep { ms: 300 });
            p.op(Op::Barrier { id: 2, n: 2 });
        }
    }
    g.add(s);
    g.add(p);
}

/// A packet that never arrives in full has no effect
fn cutoff(g: &mut G) {
    g.name("cutoff");
    g.env();
    let mut s = Script::new("s", Ack::Auto);
    s.connect(true, 0);
    s.sub(vec![("#".into(), 2)], true);
    s.op(Op::Barrier { id: 1, n: 2 });
    g.add(s);
    let mut p = Script::new("p", Ack::Auto);
    p.op(Op::Barrier { id: 1, n: 2 });
    for k in 0..g.r.range(2, 8) {
        p.connect(true, 0);
        let q = g.r.range(0, 2) as u8;
        let len = *g.r.pick(&[8u32, 30, 130, 9000]);
        if g.r.chance(700) {
            p.op(Op::CutAfter { bytes: g.r.range(0, len as u64 + 60) as u32, reset: g.r.chance(300) });
        }
        g.publish_q(&mut p, &format!("a/{k}"), q, len, 0);
        g.publish_q(&mut p, &format!("b/{k}"), q, len, 0);
        if g.r.chance(300) {
            p.sub(vec![("w/#".into(), 1)], false);
        }
        p.op(Op::WaitAcks);
        p.op(Op::Ping { wait: true });
        p.op(Op::Close);
        p.op(Op::Sleep { ms: g.r.range(0, 20) });
    }
    g.add(p);
}

/// One byte at a time, with pauses anywhere
fn dribble(g: &mut G) {
    g.name("dribble");
    g.env_fast();
    g.chunks(1);
    let mut s = Script::new("s", Ack::Auto);
    s.op(Op::Pace { chunk: 1, gap_ms: g.r.range(0, 30) as u32 });
    s.connect(true, 0);
    s.sub(vec![("d/+".into(), 2)], true);
    s.op(Op::Pace { chunk: 0, gap_ms: 0 });
    s.op(Op::Barrier { id: 1, n: 2 });
    g.add(s);
    let mut p = Script::new("p", Ack::Auto);
    p.op(Op::Pace { chunk: g.r.range(1, 3) as u32, gap_ms: g.r.range(1, 400) as u32 });
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: 2 });
    for k in 0..g.r.range(1, 4) {
        let q = g.r.range(0, 2) as u8;
        let len = *g.r.pick(&[4u32, 6, 60, 130]);
        g.publish_q(&mut p, &format!("d/{k}"), q, len, 0);
    }
    p.op(Op::Ping { wait: false });
    p.op(Op::WaitAcks);
    g.spec.cfg.max_ms = 600_000;
    g.add(p);
}

// ---- C03 ----

fn c03(g: &mut G) {
    match g.n % 4 {
        0 if g.n % 24 == 4 => jam(g),
        0 => routing(g, "order-mixed"),
        1 | 2 => bursts(g),
        _ => churn(g),
    }
}

fn bursts(g: &mut G) {
    g.name("bursts");
    g.env();
    if g.r.chance(300) {
        // a full queue now and then
        g.spec.cfg.cap = 4000;
        g.spec.cfg.lat = (0, 1);
    }
    let topics: Vec<String> = (0..g.r.range(1, 5)).map(|_| g.topic(3)).collect();
    let subs = g.r.range(1, 4) as u32;
    let pubs = g.r.range(1, 3) as u32;
    for i in 0..subs {
        let ack = g.ack();
        let mut s = Script::new(&format!("s{i}"), ack);
        s.connect(true, 0);
        s.sub(vec![("#".into(), g.r.range(0, 2) as u8)], true);
        s.op(Op::Barrier { id: 1, n: subs + pubs });
        for _ in 0..g.r.range(0, 6) {
            let f = g.filters(&topics, 3);
            s.sub(f, false);
            s.op(Op::Sleep { ms: g.r.range(0, 30) });
        }
        g.add(s);
    }
    let heavy = g.r.chance(200);
    for i in 0..pubs {
        let mut s = Script::new(&format!("p{i}"), Ack::Auto);
        s.connect(true, 0);
        s.op(Op::Barrier { id: 1, n: subs + pubs });
        let total = if heavy { 300 } else { 60 / pubs as u64 };
        for k in 0..total {
            let t = g.pick_topic(&topics);
            g.publish(&mut s, &t, 0);
            if !heavy && k % (40 / pubs as u64) == (40 / pubs as u64) - 1 {
                s.op(Op::WaitAcks);
                s.op(Op::Sleep { ms: g.r.range(0, 100) });
            }
        }
        s.op(Op::Ping { wait: true });
        g.add(s);
    }
}

// ---- C04 ----

fn c04(g: &mut G) {
    match g.n % 5 {
        4 if g.n % 60 == 14 => many_filters(g),
        4 if g.n % 20 == 9 => jam(g),
        4 if g.n % 20 == 19 => behind(g),
        4 => effect(g),
        _ => pipeline(g),
    }
}

/// Requests of a client for whom more is waiting than there is room for
fn behind(g: &mut G) {
    g.name("behind");
    g.env_fast();
    g.spec.cfg.lat = (0, 1);
    g.spec.cfg.cap = g.r.range(30, 300) as u32;
    let mut s = Script::new("s", Ack::Auto);
    s.connect(g.r.chance(500), 0);
    s.sub(vec![("b/#".into(), g.r.range(0, 2) as u8)], true);
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for k in 0..g.r.range(1, 3) as u32 {
        s.op(Op::Stall);
        s.op(Op::Barrier { id: 2 * k, n: 2 });
        p.op(Op::Barrier { id: 2 * k, n: 2 });
        for _ in 0..g.r.range(90, 260) {
            let q = g.r.range(0, 2) as u8;
            g.publish_q(&mut p, "b/1", q, 8, 0);
        }
        p.op(Op::WaitAcks);
        p.op(Op::Barrier { id: 2 * k + 1, n: 2 });
        s.op(Op::Barrier { id: 2 * k + 1, n: 2 });
        if g.r.chance(500) {
            s.op(Op::Resume);
        }
        for _ in 0..g.r.range(1, 6) {
            match g.r.below(5) {
                0 | 1 => s.sub(vec![(format!("n/{k}"), g.r.range(0, 2) as u8), ("b/+".into(), 2)], false),
                2 => s.unsub(vec![format!("n/{k}")], false),
                3 => g.publish_q(&mut s, "x/1", 2, 8, 0),
                _ => s.op(Op::Ping { wait: false }),
            }
        }
        s.op(Op::Resume);
        s.op(Op::WaitAcks);
    }
    g.add(s);
    g.publish_q(&mut p, "n/0", 1, 20, 1);
    g.add(p);
}

/// One request with hundreds of filters has one answer for each
fn many_filters(g: &mut G) {
    g.name("many_filters");
    g.env_fast();
    g.chunks(1 + (g.n % 3) as u32 * 20);
    let mut s = Script::new("s", Ack::Auto);
    s.connect(true, 0);
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for k in 0..3u32 {
        let n = *g.r.pick(&[100u64, 255, 256, 257, 500, 1000, 1025, 2500]);
        let f: Vec<(String, u8)> = (0..n).map(|i| (format!("m{k}/{i}"), g.r.range(0, 2) as u8)).collect();
        s.sub(f.clone(), true);
        s.op(Op::Barrier { id: 3 * k, n: 2 });
        p.op(Op::Barrier { id: 3 * k, n: 2 });
        for i in [0, n / 2, n - 2, n - 1] {
            g.publish_q(&mut p, &format!("m{k}/{i}"), 1, 20, 1);
        }
        p.op(Op::Ping { wait: true });
        p.op(Op::Barrier { id: 3 * k + 1, n: 2 });
        s.op(Op::Barrier { id: 3 * k + 1, n: 2 });
        let from = g.r.range(0, n - 1) as usize;
        s.unsub(f[from..].iter().map(|x| x.0.clone()).collect(), true);
        s.op(Op::Barrier { id: 3 * k + 2, n: 2 });
        p.op(Op::Barrier { id: 3 * k + 2, n: 2 });
        for i in [0, from as u64, n - 1] {
            g.publish_q(&mut p, &format!("m{k}/{i}"), 1, 20, 1);
        }
        p.op(Op::Ping { wait: true });
    }
    g.add(s);
    g.add(p);
}

/// Everything at once on one connection
fn pipeline(g: &mut G) {
    g.name("pipeline");
    g.env();
    let topics: Vec<String> = (0..g.r.range(1, 4)).map(|_| g.topic(3)).collect();
    for i in 0..g.r.range(1, 3) {
        let ack = g.ack();
        let mut s = Script::new(&format!("c{i}"), ack);
        s.a.auto_rel = g.r.chance(600);
        let clean = g.r.chance(500);
        s.connect(clean, 0);
        let mut open: Vec<u16> = vec![];
        for k in 0..g.r.range(5, 40) {
            match g.r.weighted(&[5, 2, 2, 2, 2]) {
                0 => {
                    let t = g.pick_topic(&topics);
                    g.publish(&mut s, &t, 0);
                    open.push(s.pid);
                }
                1 => {
                    let mut f = g.filters(&topics, 6);
                    if g.r.chance(60) {
                        let mut l = vec!["d"; *g.r.pick(&[30usize, 60, 70, 99, 100, 101, 130, 200, 260])];
                        if g.r.chance(300) {
                            l[0] = "";
                        }
                        if g.r.chance(300) {
                            *l.last_mut().unwrap() = "#";
                        }
                        f.push((l.join("/"), g.r.range(0, 2) as u8));
                    }
                    if g.r.chance(400) {
                        let bad = g.bad_filter();
                        let at = g.r.below(f.len() + 1);
                        f.insert(at, (bad, g.r.range(0, 2) as u8));
                    }
                    s.sub(f, false);
                }
                2 => {
                    let mut f = s.known.clone();
                    f.push(g.filter(&topics));
                    g.r.shuffle(&mut f);
                    f.truncate(g.r.range(1, 3) as usize);
                    s.unsub(f, false);
                }
                3 => s.op(Op::Ping { wait: false }),
                _ => {
                    // known, unknown, repeated
                    let pid = if open.is_empty() || g.r.chance(300) { g.r.range(1, 65535) as u16 } else { *g.r.pick(&open) };
                    s.op(Op::Rel { pid, wait: false });
                }
            }
            if k % 12 == 11 {
                s.op(Op::WaitAcks);
            }
            if g.r.chance(200) {
                s.op(Op::Sleep { ms: g.r.range(0, 20) });
            }
        }
        s.op(Op::WaitAcks);
        if g.r.chance(300) {
            // identifiers at both ends of the range, and a PUBREC nobody waits for
            for pid in [1u16, 0xffff, 0x0100, 0x00ff, 0x1234] {
                s.op(Op::Raw { hex: hex(&mqtt::ack(0x50, pid)) });
            }
            s.op(Op::Sleep { ms: 100 });
        }
        g.add(s);
    }
}

/// What was acknowledged is in effect
fn effect(g: &mut G) {
    g.name("effect");
    g.env();
    let topics: Vec<String> = (0..g.r.range(1, 3)).map(|_| g.topic(3)).collect();
    let mut s = Script::new("s", Ack::Auto);
    s.connect(true, 0);
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for k in 0..g.r.range(2, 8) as u32 {
        if g.r.chance(650) || s.known.is_empty() {
            let f = g.filters(&topics, 4);
            s.sub(f, true);
        } else {
            let mut f = s.known.clone();
            g.r.shuffle(&mut f);
            f.truncate(g.r.range(1, 3) as usize);
            s.unsub(f, true);
        }
        s.op(Op::Barrier { id: 2 * k, n: 2 });
        s.op(Op::Barrier { id: 2 * k + 1, n: 2 });
        p.op(Op::Barrier { id: 2 * k, n: 2 });
        for t in &topics {
            g.publish(&mut p, t, 1);
        }
        // a request is not lost although the connection ends at once
        if g.r.chance(400) {
            let t = g.pick_topic(&topics);
            g.publish_q(&mut p, &t, 1, 30, 1);
            let e = g.end_op();
            p.op(e);
            p.connect(true, 0);
        }
        p.op(Op::Ping { wait: true });
        p.op(Op::Barrier { id: 2 * k + 1, n: 2 });
    }
    g.add(s);
    g.add(p);
}

// ---- C05 ----

fn c05(g: &mut G) {
    match g.n % 4 {
        0 if g.n % 24 == 4 => jam(g),
        0 => routing(g, "linear-mixed"),
        1 => itself(g),
        _ => racing_subs(g),
    }
}

/// Subscription changes while others publish without a pause
fn racing_subs(g: &mut G) {
    g.name("racing");
    g.env();
    let base: Vec<String> = (0..g.r.range(2, 5)).map(|_| g.topic(3)).collect();
    let subs = g.r.range(1, 3) as u32;
    let pubs = g.r.range(1, 3) as u32;
    for i in 0..subs {
        let ack = g.ack();
        let mut s = Script::new(&format!("s{i}"), ack);
        let clean = g.r.chance(700);
        s.connect(clean, 0);
        let multi: Vec<String> = base.iter().map(|t| if g.r.chance(600) { t.clone() } else { g.wild(t) }).collect();
        s.op(Op::Barrier { id: 1, n: subs + pubs });
        for _ in 0..g.r.range(3, 14) {
            let k = g.r.range(1, multi.len() as u64) as usize;
            let mut m = multi.clone();
            g.r.shuffle(&mut m);
            m.truncate(k);
            let w = g.r.chance(600);
            if g.r.chance(550) {
                let q = g.r.range(0, 2) as u8;
                s.sub(m.into_iter().map(|f| (f, q)).collect(), w);
            } else {
                s.unsub(m, w);
            }
            s.op(Op::Sleep { ms: g.r.range(0, 12) });
        }
        g.add(s);
    }
    for i in 0..pubs {
        let mut s = Script::new(&format!("p{i}"), Ack::Auto);
        s.connect(true, 0);
        s.op(Op::Barrier { id: 1, n: subs + pubs });
        for k in 0..g.r.range(10, 45) {
            let t = g.pick_topic(&base);
            g.publish(&mut s, &t, 0);
            if k % 10 == 9 {
                s.op(Op::WaitAcks);
            }
            if g.r.chance(500) {
                s.op(Op::Sleep { ms: g.r.range(0, 6) });
            }
        }
        s.op(Op::Ping { wait: true });
        g.add(s);
    }
}

/// A client that publishes to itself, pipelined with its subscription changes
fn itself(g: &mut G) {
    g.name("itself");
    g.env();
    let base: Vec<String> = (0..g.r.range(1, 3)).map(|_| g.topic(2)).collect();
    for i in 0..g.r.range(1, 2) {
        let ack = g.ack();
        let mut s = Script::new(&format!("s{i}"), ack);
        s.connect(true, 0);
        for k in 0..g.r.range(5, 30) {
            match g.r.below(4) {
                0 => {
                    let f = g.filters(&base, 3);
                    s.sub(f, false);
                }
                1 if !s.known.is_empty() => {
                    let f = g.r.pick(&s.known).clone();
                    s.unsub(vec![f], false);
                }
                _ => {
                    let t = g.pick_topic(&base);
                    g.publish(&mut s, &t, 0);
                }
            }
            if k % 9 == 8 {
                s.op(Op::WaitAcks);
            }
        }
        s.op(Op::Ping { wait: true });
        g.add(s);
    }
}

// ---- C06 ----

fn c06(g: &mut G) {
    match g.n % 80 {
        7 => wrap(g),
        k if k % 4 == 0 => routing(g, "qos-mixed"),
        _ => overlap(g),
    }
}

fn overlap(g: &mut G) {
    g.name("overlap");
    g.env();
    let t = g.topic(3);
    let topics = vec![t.clone(), g.topic(2)];
    let subs = g.r.range(1, 3) as u32;
    for i in 0..subs {
        let ack = match g.r.below(4) {
            0 => Ack::Auto,
            1 => Ack::Delay(0, g.r.range(1, 400) as u32),
            2 => Ack::Skip(g.r.range(2, 5) as u32),
            _ => Ack::Never,
        };
        let mut s = Script::new(&format!("s{i}"), ack);
        let clean = g.r.chance(700);
        s.connect(clean, 0);
        for k in 0..g.r.range(1, 4) as u32 {
            let mut f: Vec<(String, u8)> = vec![];
            for _ in 0..g.r.range(1, 4) {
                f.push((g.wild(&t), g.r.range(0, 2) as u8));
            }
            s.sub(f, true);
            if g.r.chance(300) {
                let f = g.r.pick(&s.known).clone();
                s.unsub(vec![f], true);
            }
            s.op(Op::Barrier { id: 10 * k, n: 0 });
            s.op(Op::Sleep { ms: g.r.range(0, 60) });
            if g.r.chance(300) {
                s.op(Op::AckAll);
            }
        }
        // publisher waits for the first barrier only
        s.a.ops.retain(|o| !matches!(o, Op::Barrier { id, .. } if *id > 0));
        for o in &mut s.a.ops {
            if let Op::Barrier { n, .. } = o {
                *n = subs + 1;
            }
        }
        if g.r.chance(300) {
            s.op(Op::AckAll);
        }
        g.add(s);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 0, n: subs + 1 });
    for k in 0..g.r.range(8, 45) {
        let x = g.pick_topic(&topics);
        g.publish(&mut p, &x, 0);
        if k % 9 == 8 {
            p.op(Op::WaitAcks);
            p.op(Op::Sleep { ms: g.r.range(0, 30) });
        }
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// More deliveries than there are identifiers, some of them never acknowledged
fn wrap(g: &mut G) {
    g.name("wrap");
    g.env_fast();
    g.spec.cfg.yield_pm = 0;
    g.spec.cfg.rchunk = 0;
    g.spec.cfg.wchunk = 0;
    g.spec.cfg.lat = (0, 1);
    let every = g.r.range(100, 900) as u32;
    // QoS 2 costs twice the packets
    let half = g.r.chance(500);
    // nothing is acknowledged until all are in use, or twice around
    let (never, twice) = (g.n / 80 % 6 == 2, g.n / 80 % 6 == 4);
    let mut s = Script::new("s", if never { Ack::Never } else if half { Ack::Half(every) } else { Ack::Skip(every) });
    s.connect(true, 0);
    let q = if half { 2 } else { g.r.range(1, 2) as u8 };
    s.sub(vec![("w".into(), q)], true);
    s.op(Op::Barrier { id: 1, n: 2 });
    if !never && g.r.chance(500) {
        // with requests of its own whose identifiers are those of deliveries: another matter
        s.op(Op::Sleep { ms: 3000 });
        for k in 0..10 {
            let pid = (k + 1) * every as u16;
            match g.r.below(3) {
                0 => {
                    let uid = g.uid();
                    s.op(Op::Pub { topic: "x".into(), uid: uid + 7_000_000, len: 8, qos: 1, retain: false, dup: false, pid, wait: 1 });
                }
                1 => {
                    s.op(Op::Rel { pid, wait: true });
                }
                _ => {
                    let uid = g.uid();
                    s.op(Op::Pub { topic: "x".into(), uid: uid + 7_000_000, len: 8, qos: 2, retain: false, dup: false, pid, wait: 2 });
                }
            }
            if g.r.chance(300) {
                s.op(Op::Sub { pid, filters: vec![("y".into(), 0)], wait: true });
            }
            if g.r.chance(300) {
                // nothing has this identifier yet
                s.op(Op::Raw { hex: hex(&mqtt::ack(*g.r.pick(&[0x40u8, 0x50, 0x70]), 65_000 + k)) });
            }
        }
    }
    g.add(s);
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: 2 });
    let start = p.a.ops.len() as u32;
    let batch = 50;
    for _ in 0..batch {
        let uid = g.uid();
        p.op(Op::Pub { topic: "w".into(), uid, len: 4, qos: if half { 2 } else { 1 }, retain: false, dup: false, pid: g.r.range(1, 60_000) as u16, wait: 0 });
    }
    // distinct identifiers within the batch
    let mut pid = 0;
    for o in &mut p.a.ops {
        if let Op::Pub { pid: x, .. } = o {
            pid += 1;
            *x = pid;
        }
    }
    p.op(Op::WaitAcks);
    p.op(Op::Sleep { ms: 5 });
    p.op(Op::Repeat { to: start, times: if twice { 133_000 } else { 66_500 } / batch });
    p.op(Op::Ping { wait: true });
    g.spec.cfg.max_ms = 900_000;
    g.add(p);
}

// ---- C07 ----

fn c07(g: &mut G) {
    match g.n % 12 {
        0 | 3 | 6 => resend(g),
        9 => many_open(g),
        _ => retry(g),
    }
}

/// More messages than usual that are received and not released, and then some of them again
fn many_open(g: &mut G) {
    g.name("open");
    g.env_fast();
    let n = match g.r.below(8) {
        0 => 1500,
        1 => 400,
        2 | 3 => g.r.range(64, 200),
        _ => g.r.range(8, 64),
    };
    let clients = if n > 200 { 1 } else { g.r.range(1, 3) as u32 };
    let mut s = Script::new("s", Ack::Auto);
    s.connect(true, 0);
    s.sub(vec![("q/#".into(), g.r.range(0, 2) as u8)], true);
    s.op(Op::Barrier { id: 1, n: clients + 1 });
    g.add(s);
    for i in 0..clients {
        let t = format!("q/{i}");
        let mut p = Script::new(&format!("p{i}"), Ack::Auto);
        p.a.auto_rel = false;
        p.connect(false, 0);
        p.op(Op::Barrier { id: 1, n: clients + 1 });
        let mut pids: Vec<u16> = match g.r.below(4) {
            0 => (1..=n as u16).collect(),
            1 => (0..n as u16).map(|k| u16::MAX - k).collect(),
            2 => (0..n as u16).map(|k| 1 + k * (u16::MAX / n as u16)).collect(),
            _ => {
                let mut v: Vec<u16> = (0..n).map(|_| g.r.range(1, 65_535) as u16).collect();
                v.sort();
                v.dedup();
                v
            }
        };
        g.r.shuffle(&mut pids);
        let mut count = 0;
        let mut pace = |p: &mut Script| {
            count += 1;
            if count % 15 == 0 {
                p.op(Op::WaitAcks);
                p.op(Op::Sleep { ms: 20 });
            }
        };
        let mut open: Vec<(u16, u32)> = vec![];
        for pid in &pids {
            let uid = g.uid();
            open.push((*pid, uid));
            p.op(q2(&t, uid, *pid, false, 0));
            pace(&mut p);
        }
        for _ in 0..g.r.range(1, 3) {
            if g.r.chance(400) {
                p.op(Op::WaitAcks);
                let e = g.end_op();
                p.op(e);
                p.op(Op::Sleep { ms: g.r.range(0, 60) });
                p.connect(false, 0);
            }
            g.r.shuffle(&mut open);
            let again = open.len().min(100);
            for (pid, uid) in &open[..again] {
                let d = g.r.chance(700);
                p.op(q2(&t, *uid, *pid, d, 0));
                pace(&mut p);
            }
            // some released, some of those used for others, the rest once more
            let gone = g.r.below(again + 1);
            for (pid, _) in open.drain(..gone).collect::<Vec<_>>() {
                p.op(Op::Rel { pid, wait: false });
                pace(&mut p);
                if g.r.chance(500) {
                    let uid = g.uid();
                    p.op(q2(&t, uid, pid, false, 0));
                    pace(&mut p);
                    open.push((pid, uid));
                }
            }
        }
        p.op(Op::WaitAcks);
        g.add(p);
    }
}

fn q2(topic: &str, uid: u32, pid: u16, dup: bool, wait: u8) -> Op {
    Op::Pub { topic: topic.into(), uid, len: 16, qos: 2, retain: false, dup, pid, wait }
}

/// Repetitions on one connection
fn resend(g: &mut G) {
    g.name("resend");
    g.env();
    // some messages are empty and known by their topic
    let q2 = |topic: &str, uid: u32, pid: u16, dup: bool, wait: u8| match uid % 8 {
        5 => Op::Pub { topic: format!("{topic}/e{uid}"), uid, len: 0, qos: 2, retain: false, dup, pid, wait },
        _ => q2(topic, uid, pid, dup, wait),
    };
    let clients = g.r.range(1, 3) as u32;
    let mut s = Script::new("s", Ack::Auto);
    s.connect(true, 0);
    s.sub(vec![("q/#".into(), g.r.range(0, 2) as u8)], true);
    s.op(Op::Barrier { id: 1, n: clients + 1 });
    g.add(s);
    for i in 0..clients {
        let mut p = Script::new(&format!("p{i}"), Ack::Auto);
        p.a.auto_rel = false;
        let clean = g.r.chance(500);
        p.connect(clean, 0);
        p.op(Op::Barrier { id: 1, n: clients + 1 });
        // few identifiers, the same for all clients
        let pids: Vec<u16> = match g.r.below(3) {
            0 => vec![1],
            1 => vec![1, 2],
            _ => vec![0x0100, 0x0001, 0xffff],
        };
        let mut open: Vec<(u16, u32)> = vec![];
        for k in 0..g.r.range(4, 30) {
            match g.r.weighted(&[4, 4, 4, 1, 1]) {
                0 => {
                    let pid = *g.r.pick(&pids);
                    if open.iter().all(|o| o.0 != pid) {
                        let uid = g.uid();
                        open.push((pid, uid));
                        let w = g.r.below(2) as u8;
                        p.op(q2(&format!("q/{i}"), uid, pid, false, w));
                    }
                }
                1 => {
                    if !open.is_empty() {
                        let (pid, uid) = *g.r.pick(&open);
                        let d = g.r.chance(600);
                        let w = g.r.below(2) as u8;
                        p.op(q2(&format!("q/{i}"), uid, pid, d, w));
                    }
                }
                2 => {
                    if !open.is_empty() {
                        let at = g.r.below(open.len());
                        let (pid, _) = open.swap_remove(at);
                        for _ in 0..g.r.range(1, 2) {
                            let w = g.r.chance(500);
                            p.op(Op::Rel { pid, wait: w });
                        }
                    }
                }
                3 => p.op(Op::Rel { pid: g.r.range(2, 60_000) as u16, wait: false }),
                _ => {
                    // QoS 1 with the same identifier is another matter
                    let uid = g.uid();
                    let pid = *g.r.pick(&pids);
                    if open.iter().all(|o| o.0 != pid) {
                        p.op(Op::Pub { topic: format!("q/{i}"), uid, len: 16, qos: 1, retain: false, dup: g.r.chance(300), pid, wait: 1 });
                    }
                }
            }
            if g.r.chance(200) {
                p.op(Op::Sleep { ms: g.r.range(0, 20) });
            }
            if k % 10 == 9 {
                p.op(Op::WaitAcks);
            }
        }
        p.op(Op::WaitAcks);
        // unknown identifiers are not in anybody's way: the released set must not hold the open ones
        g.add(p);
    }
    // Rel of a random identifier may release an open one: the oracle knows
}

/// Repetitions after the connection was lost
fn retry(g: &mut G) {
    g.name("retry");
    g.env();
    let clients = g.r.range(1, 3) as u32;
    let mut s = Script::new("s", Ack::Auto);
    s.connect(true, 0);
    s.sub(vec![("q/#".into(), g.r.range(0, 2) as u8)], true);
    s.op(Op::Barrier { id: 1, n: clients + 1 });
    g.add(s);
    for i in 0..clients {
        let mut p = Script::new(&format!("p{i}"), Ack::Auto);
        p.a.auto_rel = false;
        p.connect(false, 0);
        p.op(Op::Barrier { id: 1, n: clients + 1 });
        for k in 0..g.r.range(1, 6) {
            let pid = 1 + (k % 3) as u16;
            let uid = g.uid();
            let t = format!("q/{i}/{k}");
            let w = g.r.below(2) as u8;
            let tries = g.r.range(1, 4);
            for a in 0..tries {
                if a + 1 < tries {
                    match g.r.below(3) {
                        0 => p.op(Op::CutAfter { bytes: g.r.range(0, 45) as u32, reset: g.r.chance(400) }),
                        1 => {}
                        _ => {
                            if g.r.chance(200) {
                                p.op(Op::Partition { ms: g.r.range(10, 800) });
                            }
                        }
                    }
                }
                p.op(q2(&t, uid, pid, a > 0 && g.r.chance(700), w));
                if a + 1 < tries {
                    if g.r.chance(500) {
                        p.op(Op::Sleep { ms: g.r.range(0, 60) });
                    }
                    if g.r.chance(700) {
                        let e = g.end_op();
                        p.op(e);
                    }
                    p.op(Op::Sleep { ms: g.r.range(0, 60) });
                    p.connect(false, 0);
                }
            }
            p.op(Op::WaitAcks);
            // the end of the flow, over another connection now and then
            if g.r.chance(300) {
                if g.r.chance(500) {
                    p.op(Op::CutAfter { bytes: g.r.range(0, 6) as u32, reset: g.r.chance(400) });
                }
                p.op(Op::Rel { pid, wait: false });
                let e = g.end_op();
                p.op(e);
                p.connect(false, 0);
            }
            p.op(Op::Rel { pid, wait: true });
        }
        g.add(p);
    }
}

// ---- C08 ----

fn c08(g: &mut G) {
    match g.n % 8 {
        0 | 1 | 2 | 3 => malformed(g),
        4 => garbage(g),
        5 => deep(g),
        6 => declared(g),
        _ => first_garbage(g),
    }
}

/// Well-behaved clients that must not notice anything
fn bystanders(g: &mut G, rounds: u64, gap: u64) {
    let subs = g.r.range(1, 2) as u32;
    for i in 0..subs {
        let mut s = Script::new(&format!("by{i}"), Ack::Auto);
        let ka = *g.r.pick(&[0u16, 600]);
        s.connect(true, ka);
        if g.r.chance(400) {
            // all that a CONNECT may carry, none of it text
            let w = g.r.chance(500).then(|| Will { topic: "never/w".into(), uid: 0x80ff_0000, len: g.r.range(0, 60) as u32, qos: g.r.range(0, 2) as u8, retain: false });
            if let Some(Op::Connect { user, will, .. }) = s.a.ops.last_mut() {
                *user = true;
                *will = w;
            }
        }
        s.sub(vec![("by/#".into(), g.r.range(0, 2) as u8), ("w/+".into(), 0)], true);
        s.op(Op::Barrier { id: 900, n: subs + 1 });
        g.add(s);
    }
    let mut p = Script::new("byp", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 900, n: subs + 1 });
    for k in 0..rounds {
        let q = g.r.range(0, 2) as u8;
        g.publish_q(&mut p, &format!("by/{k}"), q, 12, 1);
        p.op(Op::Ping { wait: true });
        p.op(Op::Sleep { ms: g.r.range(0, gap) });
    }
    p.op(Op::Sleep { ms: 500 });
    let q = g.r.range(0, 2) as u8;
    g.publish_q(&mut p, "by/last", q, 12, 1);
    p.op(Op::Ping { wait: true });
    g.add(p);
}

fn valid_packet(g: &mut G) -> Vec<u8> {
    let pid = g.r.range(1, 65535) as u16;
    match g.r.below(11) {
        0 => mqtt::subscribe(pid, &[(format!("w/{}", g.level()), 1), ("w/x".into(), 2)]),
        1 => mqtt::unsubscribe(pid, &["w/x".to_string(), "w/y".into()]),
        2..=4 => {
            let uid = g.uid();
            let q = g.r.range(0, 2) as u8;
            mqtt::publish("w/x", pid, q, q > 0 && g.r.chance(300), false, &mqtt::payload(uid, 12))
        }
        5 => mqtt::ack(0x40, pid),
        6 => mqtt::ack(0x50, pid),
        7 => mqtt::ack(0x62, pid),
        8 => mqtt::ack(0x70, pid),
        9 => vec![0xC0, 0],
        _ => mqtt::connect(&mqtt::ConnectArgs { cid: "evil", clean: true, ka: 0, user: g.r.chance(500), will: None }),
    }
}

/// One rule broken, or several
fn broken(g: &mut G) -> Vec<u8> {
    let pid = g.r.range(1, 65535) as u16;
    let s = |b: &[u8]| {
        let mut v = vec![];
        mqtt::put_str(&mut v, b);
        v
    };
    let uid = g.uid();
    let pl = mqtt::payload(uid, 12);
    let cat = |parts: &[&[u8]]| parts.concat();
    let p = pid.to_be_bytes();
    match g.r.below(34) {
        // packet types that a client must not send, and those that are reserved
        0 => mqtt::frame(*g.r.pick(&[0x00u8, 0xF0, 0x20, 0x90, 0xB0, 0xD0]), &p),
        1 => vec![*g.r.pick(&[0x00u8, 0xF0, 0xD0, 0xF3]), 0],
        // flags
        2 => mqtt::frame(*g.r.pick(&[0x80u8, 0x81, 0x83, 0x86, 0x8A, 0x8f]), &cat(&[&p, &s(b"w/x"), &[1]])),
        3 => mqtt::frame(*g.r.pick(&[0xA0u8, 0xA1, 0xA3, 0xAf]), &cat(&[&p, &s(b"w/x")])),
        4 => mqtt::frame(*g.r.pick(&[0x60u8, 0x61, 0x63, 0x66, 0x6f]), &p),
        5 => mqtt::frame(*g.r.pick(&[0x41u8, 0x42, 0x48, 0x51, 0x52, 0x58, 0x71, 0x72]), &p),
        6 => vec![*g.r.pick(&[0xC1u8, 0xC2, 0xC8, 0xE1, 0xE2, 0xEf]), 0],
        7 => mqtt::frame(*g.r.pick(&[0x36u8, 0x37, 0x3E, 0x3F]), &cat(&[&s(b"w/x"), &p, &pl])),
        8 => mqtt::frame(*g.r.pick(&[0x38u8, 0x39]), &cat(&[&s(b"w/x"), &pl])),
        // identifiers
        9 => mqtt::frame(*g.r.pick(&[0x32u8, 0x34]), &cat(&[&s(b"w/x"), &[0, 0], &pl])),
        10 => mqtt::frame(0x82, &cat(&[&[0, 0], &s(b"w/x"), &[1]])),
        11 => mqtt::frame(0xA2, &cat(&[&[0, 0], &s(b"w/x")])),
        12 => mqtt::frame(*g.r.pick(&[0x40u8, 0x50, 0x62, 0x70]), &[0, 0]),
        // too short
        13 => mqtt::frame(*g.r.pick(&[0x40u8, 0x50, 0x62, 0x70]), &p[..g.r.below(2)]),
        14 => mqtt::frame(0x32, &cat(&[&s(b"w/x"), &p[..g.r.below(2)]])),
        15 => mqtt::frame(0x30, &s(b"w/x")[..g.r.below(5)]),
        16 => mqtt::frame(0x30, &cat(&[&[0xff, 0xff], b"w/x", &pl])),
        17 => {
            let full = cat(&[&p, &s(b"w/x"), &[1]]);
            let k = g.r.below(full.len());
            mqtt::frame(0x82, &full[..k])
        }
        18 => {
            let full = cat(&[&p, &s(b"w/x")]);
            let k = g.r.below(full.len());
            mqtt::frame(0xA2, &full[..k])
        }
        // too long
        19 => mqtt::frame(*g.r.pick(&[0x40u8, 0x50, 0x62, 0x70]), &cat(&[&p, &[1]])),
        20 => mqtt::frame(*g.r.pick(&[0xC0u8, 0xE0]), &[0]),
        21 => mqtt::frame(0x82, &cat(&[&p, &s(b"w/x"), &[1], &[0]])),
        22 => mqtt::frame(0xA2, &cat(&[&p, &s(b"w/x"), &[0, 9, 1]])),
        // topics and filters
        23 => mqtt::frame(0x30, &cat(&[&s(*g.r.pick(&[&b"w/+"[..], b"w/#", b"#", b"+", b"a+b", b"w/x#"])), &pl])),
        24 => mqtt::frame(0x30, &cat(&[&s(b""), &pl])),
        25 => {
            let bad: &[u8] = *g.r.pick(&[&b"w/\xff"[..], b"w/\xc0\x80", b"w/\xed\xa0\x80", b"\xf5\x80\x80\x80", b"w/\xe2\x82", b"w/\0x", b"\0"]);
            mqtt::frame(0x30, &cat(&[&s(bad), &pl]))
        }
        26 => {
            let bad: &[u8] = *g.r.pick(&[&b"w/\xff"[..], b"w/\xc0\x80", b"w/\xed\xa0\x80", b"w/\xe2\x82", b"w/\0x"]);
            mqtt::frame(0x82, &cat(&[&p, &s(b"w/x"), &[0], &s(bad), &[1]]))
        }
        27 => {
            let bad: &[u8] = *g.r.pick(&[&b"w/\xff"[..], b"w/\xc0\x80", b"w/\xed\xa0\x80", b"w/\0x"]);
            mqtt::frame(0xA2, &cat(&[&p, &s(b"w/x"), &s(bad)]))
        }
        28 => mqtt::frame(0x82, &cat(&[&p, &s(b"w/x"), &[1], &s(b"w/y"), &[*g.r.pick(&[3u8, 4, 128, 0xff, 0x41])]])),
        29 => mqtt::frame(*g.r.pick(&[0x82u8, 0xA2]), &p),
        // lengths
        30 => vec![*g.r.pick(&[0x30u8, 0x82, 0xC0]), 0xff, 0xff, 0xff, 0xff, *g.r.pick(&[1u8, 0x7f, 0xff])],
        31 => mqtt::frame(0x82, &[]),
        32 => mqtt::frame(0x30, &[]),
        // anything
        _ => {
            let mut v = valid_packet(g);
            for _ in 0..g.r.range(1, 3) {
                let at = g.r.below(v.len());
                // keep lengths in their shortest form
                if at == 1 {
                    continue;
                }
                match g.r.below(3) {
                    0 => v[at] ^= 1 << g.r.below(8),
                    1 => v[at] = g.r.next() as u8,
                    _ => v[at] = *g.r.pick(&[0, 0xff, 0x7f, 0x80, 1]),
                }
            }
            v
        }
    }
}

fn malformed(g: &mut G) {
    g.name("malformed");
    g.env();
    bystanders(g, 6, 40);
    for i in 0..g.r.range(1, 4) {
        let mut s = Script::new(&format!("evil{i}"), Ack::Auto);
        s.op(Op::Barrier { id: 901, n: 1 });
        for _ in 0..g.r.range(1, 5) {
            s.connect(true, 0);
            let mut bytes = vec![];
            for _ in 0..g.r.below(4) {
                let mut v = valid_packet(g);
                if v[0] == 0x10 {
                    v = vec![0xC0, 0];
                }
                bytes.extend(v);
            }
            bytes.extend(broken(g));
            // and something that must not be acted upon
            for _ in 0..g.r.below(4) {
                bytes.extend(valid_packet(g));
            }
            if g.r.chance(300) {
                s.op(Op::Pace { chunk: g.r.range(1, 20) as u32, gap_ms: g.r.range(0, 3) as u32 });
            }
            s.op(Op::Raw { hex: hex(&bytes) });
            s.op(Op::WaitClose { ms: 2500 });
            s.op(Op::Pace { chunk: 0, gap_ms: 0 });
            if g.r.chance(300) {
                let e = g.end_op();
                s.op(e);
            }
        }
        g.add(s);
    }
}

fn garbage(g: &mut G) {
    g.name("garbage");
    g.env();
    bystanders(g, 6, 40);
    for i in 0..g.r.range(1, 4) {
        let mut s = Script::new(&format!("evil{i}"), Ack::Auto);
        for _ in 0..g.r.range(1, 5) {
            if g.r.chance(600) {
                s.connect(true, 0);
            } else {
                s.op(Op::Open);
            }
            let len = *g.r.pick(&[1u64, 2, 5, 20, 100, 1000, 9000]);
            let len = g.r.range(1, len) as usize;
            let style = g.r.below(4);
            let b: Vec<u8> = (0..len)
                .map(|_| match style {
                    0 => g.r.next() as u8,
                    1 => *g.r.pick(&[0u8, 0xff, 0x10, 0x30, 0x82, 1, 2, 0x80, 0x7f]),
                    2 => 0xff,
                    _ => *g.r.pick(&[0x10u8, 0x0c, 0, 4, b'M', b'Q', b'T', b'T', 4, 2, 0, 60]),
                })
                .collect();
            s.op(Op::Raw { hex: hex(&b) });
            s.op(Op::WaitClose { ms: g.r.range(10, 1500) });
            let e = g.end_op();
            s.op(e);
        }
        g.add(s);
    }
}

/// Topics and filters of as many levels as fit: nothing may recurse without bound
fn deep(g: &mut G) {
    g.name("deep");
    g.env_fast();
    bystanders(g, 4, 30);
    for i in 0..g.r.range(1, 2) {
        let mut s = Script::new(&format!("deep{i}"), Ack::Auto);
        s.connect(true, 0);
        for k in 0..g.r.range(1, 6) {
            let d = *g.r.pick(&[101usize, 150, 201, 1000, 5000, 20_000, 65_000]);
            let t = match g.r.below(4) {
                0 => "/".repeat(d.min(65_000)),
                1 => "a/".repeat(d.min(32_000)),
                2 => "+/".repeat(d.min(32_000)),
                _ => format!("{}#", "b/".repeat(d.min(32_000))),
            };
            match g.r.below(3) {
                0 => s.sub(vec![("w/x".into(), 1), (t, 1)], true),
                1 => s.unsub(vec![t], true),
                _ => {
                    let t = "a/".repeat(d.min(32_000));
                    g.publish_q(&mut s, &t, (k % 3) as u8, 8, 1);
                }
            }
        }
        s.op(Op::Ping { wait: true });
        let e = g.end_op();
        s.op(e);
        g.add(s);
    }
}

/// Packets that promise more than ever comes
fn declared(g: &mut G) {
    g.name("declared");
    g.env_fast();
    bystanders(g, 4, 30);
    let n = g.r.range(1, 20) as u32;
    let mut m = Script::new("m", Ack::Auto);
    m.connect(true, 0);
    m.op(Op::Barrier { id: 1, n: n + 1 });
    m.op(Op::Mark { id: MARK_BYTES });
    m.op(Op::Barrier { id: 2, n: n + 1 });
    m.op(Op::Barrier { id: 3, n: n + 1 });
    m.op(Op::Ping { wait: true });
    m.op(Op::Mark { id: MARK_BYTES + 1 });
    m.op(Op::Barrier { id: 4, n: n + 1 });
    g.add(m);
    let mut sent = 0;
    for i in 0..n {
        let mut s = Script::new(&format!("big{i}"), Ack::Auto);
        let with = g.r.chance(600);
        if with {
            s.connect(true, 0);
        } else {
            s.op(Op::Open);
        }
        s.op(Op::Barrier { id: 1, n: n + 1 });
        s.op(Op::Barrier { id: 2, n: n + 1 });
        let len = *g.r.pick(&[1u64 << 20, 50 << 20, 268_435_455]);
        let mut b = vec![*g.r.pick(if with { &[0x30u8, 0x32, 0x82, 0xA2] } else { &[0x10u8] })];
        mqtt::put_len(&mut b, len as usize);
        let part = *g.r.pick(&[0u64, 10, 1000, 20_000]);
        b.extend((0..part).map(|k| if k < 2 { 0 } else { 0x41 + (k % 26) as u8 }));
        sent += b.len() as i64;
        s.op(Op::Raw { hex: hex(&b) });
        s.op(Op::Sleep { ms: 300 });
        s.op(Op::Barrier { id: 3, n: n + 1 });
        s.op(Op::Barrier { id: 4, n: n + 1 });
        let e = g.end_op();
        s.op(e);
        g.add(s);
    }
    g.spec.budget = 8 * sent + n as i64 * (64 << 10) + (256 << 10);
}

fn first_garbage(g: &mut G) {
    g.name("bad-connect");
    g.env();
    bystanders(g, 5, 40);
    for i in 0..g.r.range(1, 4) {
        let mut s = Script::new(&format!("evil{i}"), Ack::Auto);
        for _ in 0..g.r.range(1, 4) {
            s.op(Op::Open);
            let b = bad_connect(g);
            let mut b = if g.r.chance(700) { b } else { broken(g) };
            for _ in 0..g.r.below(3) {
                b.extend(valid_packet(g));
            }
            s.op(Op::Raw { hex: hex(&b) });
            s.op(Op::WaitClose { ms: 2500 });
            let e = g.end_op();
            s.op(e);
        }
        g.add(s);
    }
}

/// CONNECT with one rule broken
fn bad_connect(g: &mut G) -> Vec<u8> {
    let s = |b: &[u8]| {
        let mut v = vec![];
        mqtt::put_str(&mut v, b);
        v
    };
    let cat = |parts: &[&[u8]]| parts.concat();
    let ka = [0, 0];
    match g.r.below(18) {
        15 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 0x06], &ka, &s(b"x"), &s(*g.r.pick(&[&b"w/\xff"[..], b"w/\xc0\x80", b"\xed\xa0\x80", b"w/\0x"])), &s(b"m")])),
        16 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 0xC2], &ka, &s(b"x"), &s(*g.r.pick(&[&b"u\xff"[..], b"\0", b"\xed\xa0\x80"])), &s(b"p")])),
        0 => mqtt::frame(0x10, &cat(&[&s(*g.r.pick(&[&b"MQTTX"[..], b"mqtt", b"MQT", b"MQIsdp", b"", b"HTTP"])), &[4, 2], &ka, &s(b"x")])),
        1 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, *g.r.pick(&[3u8, 1, 0x83])], &ka, &s(b"x"), &s(b"u")])),
        // will QoS 3
        2 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 0x1E], &ka, &s(b"x"), &s(b"w/x"), &s(b"m")])),
        // will QoS or retain without will
        3 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, *g.r.pick(&[0x0Au8, 0x12, 0x22])], &ka, &s(b"x")])),
        // password without user name
        4 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 0x42], &ka, &s(b"x"), &s(b"p")])),
        // fields that are missing
        5 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 0x06], &ka, &s(b"x"), &s(b"w/x")])),
        6 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 0x82], &ka, &s(b"x")])),
        7 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 0xC2], &ka, &s(b"x"), &s(b"u")])),
        8 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 2], &ka])),
        9 => {
            let full = cat(&[&s(b"MQTT"), &[4, 2], &ka, &s(b"xyz")]);
            let k = g.r.below(full.len());
            mqtt::frame(0x10, &full[..k])
        }
        // too much
        10 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 2], &ka, &s(b"x"), &[0]])),
        11 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 2], &ka, &s(b"x"), &s(b"more")])),
        // strings
        12 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 2], &ka, &s(*g.r.pick(&[&b"\xff"[..], b"a\0b", b"\xed\xa0\x80", b"\xc1\x81"]))])),
        13 => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 0x82], &ka, &s(b"x"), &s(b"\xfe")])),
        14 => mqtt::frame(*g.r.pick(&[0x11u8, 0x12, 0x14, 0x18, 0x1f]), &cat(&[&s(b"MQTT"), &[4, 2], &ka, &s(b"x")])),
        _ => mqtt::frame(0x10, &cat(&[&s(b"MQTT"), &[4, 2], &ka, &[0, 9], b"x"])),
    }
}

// ---- C09 ----

fn c09(g: &mut G) {
    match g.n % 5 {
        0 | 1 => first(g),
        2 => second(g),
        3 => silent(g),
        _ => good_connects(g),
    }
}

fn watcher(g: &mut G) {
    let mut s = Script::new("watch", Ack::Auto);
    s.connect(true, 0);
    s.sub(vec![("#".into(), 2)], true);
    s.op(Op::Barrier { id: 800, n: 1 });
    g.add(s);
}

fn first(g: &mut G) {
    g.name("first");
    g.env();
    watcher(g);
    for i in 0..g.r.range(1, 4) {
        let mut s = Script::new(&format!("f{i}"), Ack::Auto);
        s.op(Op::Sleep { ms: 150 });
        for _ in 0..g.r.range(1, 4) {
            s.op(Op::Open);
            let mut b = match g.r.below(5) {
                0 => {
                    // another protocol level
                    let mut v = mqtt::connect(&mqtt::ConnectArgs { cid: "lv", clean: true, ka: 0, user: false, will: None });
                    v[8] = *g.r.pick(&[3u8, 5, 0, 6, 255]);
                    v
                }
                1 => {
                    let will = g.r.chance(400).then(|| ("w", b"w".to_vec(), 1, false));
                    mqtt::connect(&mqtt::ConnectArgs { cid: "", clean: false, ka: *g.r.pick(&[0u16, 60]), user: g.r.chance(400), will })
                }
                2 => bad_connect(g),
                _ => loop {
                    let v = valid_packet(g);
                    if v[0] != 0x10 {
                        break v;
                    }
                },
            };
            for _ in 0..g.r.below(4) {
                b.extend(valid_packet(g));
            }
            if g.r.chance(300) {
                s.op(Op::Pace { chunk: g.r.range(1, 9) as u32, gap_ms: g.r.range(0, 9) as u32 });
            }
            s.op(Op::Raw { hex: hex(&b) });
            s.op(Op::WaitClose { ms: 3000 });
            s.op(Op::Pace { chunk: 0, gap_ms: 0 });
        }
        g.add(s);
    }
}

fn second(g: &mut G) {
    g.name("second");
    g.env();
    watcher(g);
    for i in 0..g.r.range(1, 3) {
        let mut s = Script::new(&format!("x{i}"), Ack::Auto);
        s.op(Op::Sleep { ms: 150 });
        let clean = g.r.chance(500);
        let w = g.r.chance(700);
        s.op(Op::Connect { clean, ka: 0, wait: w, reuse: false, user: false, will: None, cid: None });
        let own = format!("own/{i}");
        if g.r.chance(500) {
            s.sub(vec![(own.clone(), g.r.range(0, 2) as u8)], true);
        }
        for _ in 0..g.r.below(3) {
            let t = g.topic(2);
            g.publish(&mut s, &t, 0);
        }
        // the same or another identifier
        let cid = match g.r.below(4) {
            0 | 1 => None,
            2 => Some(format!("y{i}")),
            _ => Some(if g.r.chance(500) { "watch".into() } else { format!("x{}", i + 1) }),
        };
        s.op(Op::Connect { clean: g.r.chance(500), ka: 0, wait: false, reuse: true, user: false, will: None, cid });
        let t = g.topic(2);
        g.publish(&mut s, &t, 0);
        s.op(Op::WaitClose { ms: 3000 });
        match g.r.below(3) {
            0 => {
                s.connect(true, 0);
                s.sub(vec![("z".into(), 1)], true);
            }
            1 => {
                // what the session was before it still is
                s.connect(clean, 0);
                g.publish(&mut s, &own, 1);
                s.op(Op::Ping { wait: true });
            }
            _ => {}
        }
        g.add(s);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for i in 0..g.r.range(2, 6) {
        p.op(Op::Sleep { ms: g.r.range(0, 300) });
        g.publish(&mut p, &format!("own/{}", i % 3), 1);
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

fn silent(g: &mut G) {
    g.name("silent");
    g.env_fast();
    watcher(g);
    for i in 0..g.r.range(1, 4) {
        let mut s = Script::new(&format!("q{i}"), Ack::Auto);
        s.op(Op::Sleep { ms: g.r.range(0, 300) });
        s.op(Op::Open);
        let c = mqtt::connect(&mqtt::ConnectArgs { cid: "slow", clean: true, ka: 0, user: true, will: None });
        match g.r.below(4) {
            0 => {}
            1 => {
                let k = g.r.range(1, c.len() as u64 - 1) as usize;
                s.op(Op::Raw { hex: hex(&c[..k]) });
            }
            2 => {
                // a byte now and then is no CONNECT either
                s.op(Op::Pace { chunk: 1, gap_ms: g.r.range(2500, 9000) as u32 });
                s.op(Op::Raw { hex: hex(&c) });
            }
            _ => {
                // slow, but in time
                s.op(Op::Pace { chunk: 1, gap_ms: g.r.range(10, 150) as u32 });
                s.connect_with(true, 0, true);
            }
        }
        s.op(Op::WaitClose { ms: 75_000 });
        g.add(s);
    }
    g.spec.cfg.max_ms = 400_000;
}

fn good_connects(g: &mut G) {
    g.name("good");
    g.env();
    watcher(g);
    for i in 0..g.r.range(1, 5) {
        let cid = match g.r.below(5) {
            0 => String::new(),
            1 => format!("{}{i}", "long".repeat(40)),
            2 => format!("ünï-{i}"),
            3 => format!("+/#{i}"),
            _ => format!("n{i}"),
        };
        let mut s = Script::new(&cid, Ack::Auto);
        s.op(Op::Sleep { ms: g.r.range(0, 100) });
        for _ in 0..g.r.range(1, 3) {
            let will = g.r.chance(400).then(|| Will { topic: "never/w".into(), uid: 0, len: g.r.range(0, 200) as u32, qos: g.r.range(0, 2) as u8, retain: g.r.chance(300) });
            let clean = cid.is_empty() || g.r.chance(500);
            let w = g.r.chance(600);
            let ka = *g.r.pick(&[0u16, 600, 65535]);
            let user = g.r.chance(400);
            s.op(Op::Connect { clean, ka, wait: w, reuse: false, user, will, cid: None });
            s.sub(vec![("g/#".into(), 1)], w);
            g.publish(&mut s, "g/1", 0);
            s.op(Op::Ping { wait: true });
            // in an orderly way: whoever sends DISCONNECT leaves no will
            s.op(Op::Disconnect);
            s.op(Op::Sleep { ms: g.r.range(0, 50) });
        }
        g.add(s);
    }
}

// ---- C10 ----

fn c10(g: &mut G) {
    match g.n % 14 {
        0 | 7 => fades(g),
        1 | 2 | 8 | 9 => signs(g),
        3 | 10 => partial(g),
        4 | 11 => stalled(g),
        5 | 12 | 13 => fed(g),
        _ => forever(g),
    }
    g.spec.cfg.max_ms = 4_000_000_000;
}

/// Days of virtual time take seconds: not in every run
fn huge(g: &G) -> bool {
    matches!(g.n % 140, 0 | 1 | 6)
}

fn some_ka(g: &mut G) -> u16 {
    if huge(g) {
        return *g.r.pick(&[3600u16, 10_922, 21_845, 21_846, 32_767, 32_768, 43_690, 43_691, 50_000, 65_534, 65_535]);
    }
    match g.r.below(4) {
        0 => g.r.range(1, 5) as u16,
        1 => g.r.range(3, 30) as u16,
        2 => *g.r.pick(&[10u16, 60, 90, 255, 256]),
        _ => g.r.range(20, 1200) as u16,
    }
}

/// Its first connection, or one that resumes a session which had another keep alive
fn start(g: &mut G, s: &mut Script, clean: bool, ka: u16) {
    if g.r.chance(250) {
        let before = *g.r.pick(&[0u16, 1, 10, 600]);
        s.connect(clean, before);
        let e = g.end_op();
        s.op(e);
        s.op(Op::Sleep { ms: g.r.range(0, 300) });
        s.connect(clean && g.r.chance(500), ka);
    } else {
        s.connect(clean, ka);
    }
}

/// Active for a while, then silent
fn fades(g: &mut G) {
    g.name("fades");
    g.env();
    for i in 0..g.r.range(1, 4) {
        let ka = some_ka(g);
        let mut s = Script::new(&format!("f{i}"), Ack::Auto);
        let clean = g.r.chance(500);
        start(g, &mut s, clean, ka);
        let times = if huge(g) { g.r.below(2) } else { g.r.below(6) };
        for _ in 0..times {
            s.op(Op::Sleep { ms: g.r.range(0, ka as u64 * 1400) });
            sign(g, &mut s, 99);
        }
        s.op(Op::WaitClose { ms: ka as u64 * 1500 + 3000 });
        g.add(s);
    }
}

/// Some packet that shows that the client is alive
fn sign(g: &mut G, s: &mut Script, kind: usize) {
    let kind = if kind > 9 { g.r.below(10) } else { kind };
    match kind {
        0 | 8 => s.op(Op::Ping { wait: false }),
        1 => g.publish_q(s, "k/x", 0, 8, 0),
        2 => g.publish_q(s, "k/x", 1, 8, 0),
        3 => g.publish_q(s, "k/x", 2, 8, 0),
        4 => s.op(Op::Rel { pid: 7, wait: false }),
        5 => s.sub(vec![("z/z".into(), 1)], false),
        6 => s.unsub(vec!["z/z".into()], false),
        9 => s.op(Op::Raw { hex: hex(&mqtt::ack(0x50, 9)) }),
        _ => s.op(Op::Raw { hex: hex(&mqtt::ack(*g.r.pick(&[0x40u8, 0x70]), 9)) }),
    }
}

/// One kind of packet keeps the connection alive for long
fn signs(g: &mut G) {
    g.name("signs");
    g.env();
    for i in 0..g.r.range(1, 3) {
        let ka = some_ka(g).max(2);
        let kind = (g.n as usize / 7 + i as usize * 5) % 10;
        // what is answered automatically is a sign of life as well
        let ack = if kind == 9 || g.r.chance(300) { Ack::Never } else { Ack::Auto };
        let mut s = Script::new(&format!("s{i}"), ack);
        s.a.auto_rel = g.r.chance(500);
        let clean = g.r.chance(500);
        start(g, &mut s, clean, ka);
        let times = if huge(g) { g.r.range(1, 2) } else { g.r.range(3, 8) };
        for _ in 0..times {
            // up to a second and a network delay short of one and a half times
            let most = (ka as u64 * 1500).saturating_sub(1100 + 2 * g.spec.cfg.lat.1 as u64);
            s.op(Op::Sleep { ms: g.r.range(most * 2 / 3, most) });
            sign(g, &mut s, kind);
        }
        s.op(Op::Disconnect);
        g.add(s);
    }
}

/// Bytes that never make up a packet are no sign of life
fn partial(g: &mut G) {
    g.name("partial");
    g.env_fast();
    for i in 0..g.r.range(1, 3) {
        let ka = g.r.range(2, 40) as u16;
        let mut s = Script::new(&format!("p{i}"), Ack::Auto);
        s.connect(true, ka);
        let uid = g.uid();
        let p = mqtt::publish("k/p", 3, 1, false, false, &mqtt::payload(uid, 200));
        s.op(Op::Pace { chunk: 1, gap_ms: (ka as u32 * 1000 / g.r.range(2, 9) as u32).max(200) });
        s.op(Op::Raw { hex: hex(&p) });
        s.op(Op::WaitClose { ms: ka as u64 * 1500 + 4000 });
        g.add(s);
    }
}

/// Does not read either, with more waiting for it than fits
fn stalled(g: &mut G) {
    g.name("stalled");
    g.env_fast();
    g.spec.cfg.cap = g.r.range(300, 3000) as u32;
    g.spec.cfg.lat = (0, 1);
    let ka = g.r.range(2, 30) as u16;
    let mut s = Script::new("s", Ack::Auto);
    s.connect(true, ka);
    s.sub(vec![("k/#".into(), g.r.range(0, 2) as u8)], true);
    s.op(Op::Stall);
    s.op(Op::Barrier { id: 1, n: 2 });
    if g.r.chance(500) {
        // its requests fill the way back as well
        for _ in 0..g.r.range(1, 400) {
            s.op(Op::Ping { wait: false });
        }
    }
    s.op(Op::WaitClose { ms: ka as u64 * 1500 + 8000 });
    g.add(s);
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: 2 });
    for _ in 0..g.r.range(5, 30) {
        let q = g.r.range(0, 2) as u8;
        g.publish_q(&mut p, "k/1", q, 200, 1);
    }
    p.op(Op::Ping { wait: true });
    p.op(Op::Sleep { ms: ka as u64 * 1500 + 8000 });
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// What the broker sends is no sign of life either
fn fed(g: &mut G) {
    g.name("fed");
    g.env();
    let n = g.r.range(1, 3) as u32;
    let ka = some_ka(g).min(200);
    for i in 0..n {
        let never = g.r.chance(500);
        let mut s = Script::new(&format!("f{i}"), if never { Ack::Never } else { Ack::Auto });
        s.connect(g.r.chance(500), ka);
        // without acknowledgements nothing comes from the client
        let q = if never { g.r.range(0, 2) as u8 } else { 0 };
        s.sub(vec![("k/#".into(), q)], true);
        s.op(Op::Barrier { id: 1, n: n + 1 });
        s.op(Op::WaitClose { ms: ka as u64 * 1500 + 4000 });
        g.add(s);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: n + 1 });
    let gap = (ka as u64 * 1500 / g.r.range(2, 9)).max(100);
    let mut t = 0;
    while t < ka as u64 * 2000 {
        let q = g.r.range(0, 2) as u8;
        g.publish_q(&mut p, "k/1", q, 20, 1);
        let ms = g.r.range(gap / 2, gap);
        p.op(Op::Sleep { ms });
        t += ms;
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// Zero turns it off; the longest is more than 18 hours
fn forever(g: &mut G) {
    g.name("forever");
    g.env_fast();
    for i in 0..g.r.range(1, 3) {
        let ka = match g.r.below(5) {
            0 | 1 if huge(g) => *g.r.pick(&[65535u16, 30_000, 44_000]),
            0 | 1 => *g.r.pick(&[300u16, 600, 3000]),
            _ => 0,
        };
        let mut s = Script::new(&format!("z{i}"), Ack::Auto);
        let clean = g.r.chance(500);
        start(g, &mut s, clean, ka);
        if g.r.chance(500) {
            s.sub(vec![("e".into(), 1)], true);
        }
        let h = if ka == 0 { *g.r.pick(&[70_000u64, 200_000, 4_000_000, 70_000_000, if huge(g) { 3_000_000_000 } else { 700_000_000 }, 34_000_000_000]) } else { ka as u64 * 1400 };
        s.op(Op::Sleep { ms: h });
        s.op(Op::Ping { wait: true });
        g.add(s);
    }
}

// ---- C11 ----

fn c11(g: &mut G) {
    match g.n % 4 {
        0 | 1 => endings(g),
        2 => churn(g),
        _ => released(g),
    }
}

/// Connections end in every way at every stage
fn endings(g: &mut G) {
    g.name("endings");
    g.env();
    let pubs = g.r.chance(600);
    for i in 0..g.r.range(1, 5) {
        let ack = g.ack();
        let mut s = Script::new(&format!("e{i}"), ack);
        for _ in 0..g.r.range(1, 5) {
            s.op(Op::Sleep { ms: g.r.range(0, 30) });
            match g.r.below(6) {
                0 => s.op(Op::Open),
                1 => {
                    s.op(Op::Open);
                    let c = mqtt::connect(&mqtt::ConnectArgs { cid: "part", clean: true, ka: 0, user: false, will: None });
                    let k = g.r.range(1, c.len() as u64) as usize;
                    s.op(Op::Raw { hex: hex(&c[..k]) });
                }
                _ => {
                    let w = g.r.chance(700);
                    s.connect_with(g.r.chance(500), 0, w);
                    if g.r.chance(700) {
                        let w = g.r.chance(700);
                        s.sub(vec![("e/#".into(), g.r.range(0, 2) as u8)], w);
                    }
                    if g.r.chance(400) {
                        g.publish(&mut s, "e/1", 0);
                    }
                    if g.r.chance(400) {
                        let v = valid_packet(g);
                        let k = g.r.range(1, v.len() as u64 - 1) as usize;
                        s.op(Op::Raw { hex: hex(&v[..k]) });
                    }
                }
            }
            if g.r.chance(400) {
                s.op(Op::Sleep { ms: g.r.range(0, 80) });
            }
            let e = if g.r.chance(250) { Op::HalfClose } else { g.end_op() };
            let half = e == Op::HalfClose;
            s.op(e);
            if half {
                s.op(Op::WaitClose { ms: 3000 });
            }
        }
        g.add(s);
    }
    if pubs {
        let mut p = Script::new("p", Ack::Auto);
        p.connect(true, 0);
        for _ in 0..g.r.range(5, 30) {
            let len = *g.r.pick(&[8u32, 300, 5000]);
            let q = g.r.range(0, 2) as u8;
            g.publish_q(&mut p, "e/2", q, len, 0);
            p.op(Op::Sleep { ms: g.r.range(0, 12) });
        }
        p.op(Op::Ping { wait: true });
        g.add(p);
    }
}

/// Nothing is kept of connections that have ended
fn released(g: &mut G) {
    g.name("released");
    g.env_fast();
    let n = g.r.range(2, 12) as u32;
    let mut m = Script::new("m", Ack::Auto);
    m.connect(true, 0);
    m.op(Op::Sleep { ms: 50 });
    m.op(Op::Mark { id: MARK_TASKS });
    m.op(Op::Barrier { id: 1, n: n + 1 });
    m.op(Op::Barrier { id: 2, n: n + 1 });
    m.op(Op::Sleep { ms: 1500 });
    m.op(Op::Ping { wait: true });
    m.op(Op::Mark { id: MARK_TASKS + 1 });
    g.add(m);
    for i in 0..n {
        let mut s = Script::new(&format!("r{}", i % 5), Ack::Auto);
        s.op(Op::Barrier { id: 1, n: n + 1 });
        for _ in 0..g.r.range(1, 3) {
            if g.r.chance(200) {
                s.op(Op::Open);
            } else {
                let clean = g.r.chance(500);
                s.connect(clean, 0);
                s.sub(vec![("r/#".into(), 1)], g.r.chance(500));
                g.publish(&mut s, "r/1", 0);
            }
            if g.r.chance(300) {
                s.op(Op::Raw { hex: "32".into() });
            }
            s.op(Op::Sleep { ms: g.r.range(0, 20) });
            if g.r.chance(150) {
                s.op(Op::Stall);
                g.publish(&mut s, "r/1", 0);
                s.op(Op::Sleep { ms: g.r.range(0, 20) });
            }
            let e = g.end_op();
            s.op(e);
        }
        s.op(Op::Barrier { id: 2, n: n + 1 });
        g.add(s);
    }
}

// ---- C12 ----

fn c12(g: &mut G) {
    match g.n % 12 {
        3 if g.n % 24 == 3 => lookalikes(g),
        11 => same_ids(g),
        10 => flashes(g),
        k if k % 3 == 0 => race(g),
        k if k % 3 == 1 => handover(g),
        _ => zombies(g),
    }
}

/// Identifiers that are nearly the same are not the same, and none is like no other
fn lookalikes(g: &mut G) {
    g.name("lookalikes");
    g.env_fast();
    let long = |n: usize, end: &str| format!("{}{end}", "c".repeat(n));
    let mut ids: Vec<String> = vec![];
    let base = g.r.pick(&["c", "sensor-1", "é", "0", "日本"]).to_string();
    for f in ["", " ", "\t", "\n", "  ", "\u{a0}", "\u{200b}", "\u{FEFF}", "0", ".", "/", "#", "+", "$", "-", "_", "\u{301}", "'"] {
        ids.push(format!("{base}{f}"));
        if f.len() > 0 {
            ids.push(format!("{f}{base}"));
            ids.push(f.to_string());
        }
    }
    ids.extend(["ab", "AB", "Ab", "aB", "é", "É", "e\u{301}", "ß", "ss", "1", "01", "1.0", "a\u{308}", "ä", "\u{212b}", "Å", "ﬁ", "fi"].map(String::from));
    for n in [8usize, 15, 16, 22, 23, 24, 31, 32, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 1024, 4095, 10_000] {
        for e in ["", "x", "y", "xy"] {
            ids.push(long(n, e));
        }
    }
    ids.push(long(65_535, ""));
    ids.push(long(65_534, "x"));
    ids.push(long(32_768, ""));
    ids.sort();
    ids.dedup();
    g.r.shuffle(&mut ids);
    ids.truncate(g.r.range(10, 90) as usize);
    for _ in 0..g.r.range(0, 25) {
        ids.push(String::new());
    }
    let n = ids.len() as u32;
    let clean = g.r.chance(600);
    for (i, id) in ids.iter().enumerate() {
        let mut s = Script::new(id, Ack::Auto);
        s.op(Op::Sleep { ms: g.r.range(0, 300) });
        s.connect(clean || id.is_empty(), 0);
        s.sub(vec![(format!("o/{i}"), g.r.range(0, 2) as u8)], true);
        s.op(Op::Barrier { id: 1, n: n + 1 });
        if g.r.chance(150) {
            s.op(Op::Sleep { ms: g.r.range(0, 50) });
            let e = g.end_op();
            s.op(e);
            s.op(Op::Sleep { ms: 200 });
            s.connect(clean || id.is_empty(), 0);
        }
        s.op(Op::Sleep { ms: 1000 });
        s.op(Op::Ping { wait: true });
        g.add(s);
    }
    let mut p = Script::new("the publisher", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: n + 1 });
    for k in 0..2 {
        for i in 0..n {
            g.publish_q(&mut p, &format!("o/{i}"), 1, 20, 0);
        }
        p.op(Op::WaitAcks);
        if k == 0 {
            p.op(Op::Sleep { ms: 600 });
        }
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// The new connection uses the identifiers that the old one is just using
fn same_ids(g: &mut G) {
    g.name("same-ids");
    g.env();
    let ids = g.r.range(1, 12) as u16;
    let rounds = g.r.range(2, 5);
    for i in 0..rounds {
        let mut s = Script::new("same", Ack::Auto);
        s.op(Op::At { ms: 100 + i * 40 });
        // the rest is sent at the moment when the next one comes
        s.connect(true, 0);
        s.a.auto_rel = false;
        for k in 0..g.r.range(1, 3) {
            if k > 0 || g.r.chance(300) {
                s.op(Op::Sleep { ms: g.r.range(0, 38) });
            }
            for pid in 1..=ids {
                let uid = g.uid();
                s.op(q2("o/q", uid, pid, false, 0));
                if g.r.chance(300) {
                    s.op(Op::Pub { topic: "o/q".into(), uid, len: 8, qos: 2, retain: false, dup: true, pid, wait: 0 });
                }
                if g.r.chance(200) {
                    s.op(Op::Ping { wait: true });
                }
            }
            for pid in 1..=ids {
                s.op(Op::Rel { pid, wait: false });
            }
        }
        if g.r.chance(500) {
            s.op(Op::At { ms: 100 + (i + 1) * 40 });
            for pid in 1..=ids {
                if g.r.chance(500) {
                    let uid = g.uid();
                    s.op(q2("o/q", uid, pid, false, 0));
                }
                if g.r.chance(500) {
                    s.op(Op::Rel { pid, wait: false });
                }
            }
        }
        g.add(s);
    }
    let mut w = Script::new("w", Ack::Auto);
    w.connect(true, 0);
    w.sub(vec![("o/#".into(), 2)], true);
    g.add(w);
}

/// New connections that are gone before the old one has noticed
fn flashes(g: &mut G) {
    g.name("flashes");
    g.env();
    let rounds = g.r.range(2, 6);
    let clean = g.r.chance(700);
    for i in 0..rounds {
        let mut s = Script::new("same", Ack::Auto);
        s.op(Op::At { ms: 100 + i * 30 });
        s.connect(clean, 0);
        s.op(Op::At { ms: 120 + i * 30 });
        for k in 0..g.r.range(5, 40) {
            match g.r.below(5) {
                0 => s.op(Op::Rel { pid: 1 + k as u16, wait: false }),
                1 => g.publish_q(&mut s, "x/1", 2, 8, 0),
                2 => s.sub(vec![(format!("o/{k}"), 1)], false),
                3 => s.unsub(vec![format!("o/{k}")], false),
                _ => g.publish_q(&mut s, "x/2", 1, 8, 0),
            }
            if g.r.chance(300) {
                s.op(Op::Sleep { ms: g.r.range(0, 3) });
            }
        }
        g.add(s);
        let mut f = Script::new("same", Ack::Auto);
        f.op(Op::At { ms: 120 + i * 30 + g.r.range(0, 10) });
        let w = g.r.chance(300);
        f.connect_with(clean, 0, w);
        if g.r.chance(300) {
            f.sub(vec![("o/#".into(), 1)], false);
        }
        let e = g.end_op();
        f.op(e);
        g.add(f);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.sub(vec![("x/#".into(), 1)], true);
    for _ in 0..g.r.range(3, 15) {
        g.publish(&mut p, "o/1", 1);
        p.op(Op::Sleep { ms: g.r.range(0, 30) });
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// All at once
fn race(g: &mut G) {
    g.name("race");
    g.env();
    let n = g.r.range(2, 8);
    let mixed = g.r.chance(400);
    for i in 0..n {
        let ack = g.ack();
        let mut s = Script::new("same", ack);
        s.op(Op::Sleep { ms: if g.r.chance(600) { g.r.range(0, 6) } else { g.r.range(0, 200) } });
        let clean = if mixed { g.r.chance(500) } else { true };
        let w = g.r.chance(600);
        s.connect_with(clean, 0, w);
        for _ in 0..g.r.below(4) {
            match g.r.below(3) {
                0 => s.sub(vec![("o/#".into(), 1), (format!("o/{i}"), 2)], g.r.chance(500)),
                1 => g.publish(&mut s, "o/1", 0),
                _ => s.op(Op::Ping { wait: g.r.chance(500) }),
            }
        }
        s.op(Op::WaitClose { ms: 5000 });
        s.op(Op::Ping { wait: true });
        g.add(s);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for _ in 0..g.r.range(2, 12) {
        g.publish(&mut p, "o/2", 1);
        p.op(Op::Sleep { ms: g.r.range(0, 30) });
    }
    p.op(Op::Sleep { ms: 1000 });
    g.publish(&mut p, "o/3", 1);
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// One after the other, with messages all the time
fn handover(g: &mut G) {
    g.name("handover");
    g.env();
    let n = g.r.range(2, 6);
    let usual = g.r.chance(400);
    let mixed = g.r.chance(300);
    for i in 0..n {
        let clean = if mixed { g.r.chance(500) } else { usual };
        let ack = g.ack();
        let mut s = Script::new("same", ack);
        s.op(Op::At { ms: 100 + i * 250 + g.r.range(0, 60) });
        s.connect(clean, 0);
        if clean || i == 0 || g.r.chance(300) {
            s.sub(vec![("o/#".into(), g.r.range(0, 2) as u8)], true);
        }
        for _ in 0..g.r.below(4) {
            g.publish(&mut s, "x/1", 0);
            s.op(Op::Sleep { ms: g.r.range(0, 150) });
        }
        s.op(Op::Ping { wait: true });
        if g.r.chance(300) {
            // the old connection's end comes late
            s.op(Op::Sleep { ms: g.r.range(200, 400) });
            let e = g.end_op();
            s.op(e);
        }
        g.add(s);
    }
    let mut last = Script::new("same", Ack::Auto);
    last.op(Op::At { ms: 100 + n * 250 + 500 });
    last.connect(usual, 0);
    last.sub(vec![("o/#".into(), 1)], true);
    last.op(Op::Barrier { id: 1, n: 2 });
    g.add(last);
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for _ in 0..g.r.range(5, 25) {
        g.publish(&mut p, "o/2", 1);
        p.op(Op::Sleep { ms: g.r.range(0, 100) });
    }
    p.op(Op::Barrier { id: 1, n: 2 });
    for _ in 0..3 {
        g.publish(&mut p, "o/4", 1);
        p.op(Op::Sleep { ms: g.r.range(0, 300) });
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// The old connection is stalled, partitioned, half dead or busy when the new one comes
fn zombies(g: &mut G) {
    g.name("zombies");
    g.env_fast();
    if g.r.chance(500) {
        g.spec.cfg.cap = g.r.range(200, 2000) as u32;
        g.spec.cfg.lat = (0, 1);
    }
    let clean = g.r.chance(500);
    let rounds = g.r.range(1, 4) as u32;
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for k in 0..rounds {
        let mut s = Script::new("same", Ack::Auto);
        if k > 0 {
            s.op(Op::Barrier { id: 10 + k - 1, n: 2 });
        }
        s.connect(clean, 0);
        s.sub(vec![("o/#".into(), g.r.range(0, 2) as u8)], true);
        match g.r.below(4) {
            0 => s.op(Op::Stall),
            1 => s.op(Op::Partition { ms: g.r.range(500, 4000) }),
            2 => {
                // in the middle of a packet
                s.op(Op::Raw { hex: "3264000161".into() });
            }
            _ => {
                for _ in 0..10 {
                    g.publish(&mut s, "x/y", 0);
                }
            }
        }
        s.op(Op::Barrier { id: 100 + k, n: 2 });
        p.op(Op::Barrier { id: 100 + k, n: 2 });
        // sometimes more than can wait
        let full = g.spec.cfg.cap < 2000 && g.r.chance(200);
        for _ in 0..if full { g.r.range(90, 250) } else { g.r.range(1, 12) } {
            let len = *g.r.pick(&[8u32, 200, 900]);
            g.publish_q(&mut p, "o/1", 1, len, if full { 0 } else { 1 });
        }
        p.op(Op::WaitAcks);
        s.op(Op::Barrier { id: 10 + k, n: if k + 1 < rounds { 2 } else { 1 } });
        s.op(Op::WaitClose { ms: 4000 });
        g.add(s);
    }
    let mut last = Script::new("same", Ack::Auto);
    last.op(Op::Sleep { ms: 2000 });
    last.connect(clean, 0);
    last.sub(vec![("o/#".into(), 1)], true);
    last.op(Op::Barrier { id: 200, n: 2 });
    last.op(Op::Sleep { ms: 5000 });
    last.op(Op::Ping { wait: true });
    g.add(last);
    p.op(Op::Barrier { id: 200, n: 2 });
    for _ in 0..4 {
        g.publish(&mut p, "o/5", 1);
        p.op(Op::Sleep { ms: g.r.range(0, 2000) });
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

// ---- C13 ----

fn c13(g: &mut G) {
    match g.n % 16 {
        3 | 7 | 11 => many_sessions(g),
        15 => crowd(g),
        _ => lives(g),
    }
}

/// Many sessions that nobody is connected to, and then all come back
fn crowd(g: &mut G) {
    g.name("crowd");
    g.env_fast();
    let n = match g.n / 16 % 12 {
        0 => {
            if g.thorough {
                1500
            } else {
                400
            }
        }
        1 | 2 => g.r.range(100, 200),
        _ => g.r.range(10, 100),
    };
    let both = n as u32 + 1;
    for i in 0..n {
        let mut s = Script::new(&format!("m{i}"), Ack::Auto);
        let clean = g.r.chance(150);
        s.op(Op::Sleep { ms: g.r.range(0, 50) });
        s.connect(clean, 0);
        s.sub(vec![(format!("o/{i}"), g.r.range(0, 2) as u8)], true);
        if g.r.chance(300) {
            s.sub(vec![("a/+".into(), 1), (format!("o/{}", i + 1), 0)], true);
        }
        if g.r.chance(150) {
            s.unsub(vec![format!("o/{i}")], true);
        }
        if g.r.chance(900) {
            let e = g.end_op();
            s.op(e);
        }
        s.op(Op::Barrier { id: 1, n: both });
        s.op(Op::Sleep { ms: g.r.range(0, 100) });
        let clean = g.r.chance(100);
        s.connect(clean, 0);
        s.op(Op::Barrier { id: 2, n: both });
        g.add(s);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: both });
    p.op(Op::Barrier { id: 2, n: both });
    let mut to: Vec<u64> = (0..n).collect();
    g.r.shuffle(&mut to);
    for i in to.iter().take(60) {
        g.publish(&mut p, &format!("o/{i}"), 1);
        p.op(Op::Sleep { ms: 2 });
    }
    g.publish(&mut p, "a/b", 1);
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// One identifier, many connections; a publisher probes after each change
fn lives(g: &mut G) {
    g.name("lives");
    g.env();
    let topics: Vec<String> = (0..g.r.range(1, 3)).map(|_| g.topic(3)).collect();
    let mut s = Script::new("life", Ack::Auto);
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    let bias = *g.r.pick(&[150u32, 500, 850]);
    if g.r.chance(250) {
        // little fits between the broker and a client
        g.spec.cfg.cap = g.r.range(60, 600) as u32;
        g.spec.cfg.lat = (0, 1);
    }
    let big = &*g.r.pick(&[8u32, 200]);
    let mut k = 0;
    for _ in 0..g.r.range(2, 8) {
        let clean = g.r.chance(bias);
        s.connect(clean, 0);
        for _ in 0..g.r.below(3) {
            if g.r.chance(700) || s.known.is_empty() {
                let f = g.filters(&topics, 3);
                s.sub(f, true);
            } else {
                let mut f = s.known.clone();
                g.r.shuffle(&mut f);
                f.truncate(g.r.range(1, 2) as usize);
                s.unsub(f, true);
            }
        }
        // what else a session remembers
        if g.r.chance(250) {
            s.a.auto_rel = false;
            let many = if g.r.chance(250) { g.r.range(2, 60) as u16 } else { 1 };
            for _ in 0..many {
                let pid = g.r.range(1, 5 * many as u64) as u16 + 60_000;
                let uid = g.uid();
                s.op(Op::Pub { topic: "elsewhere".into(), uid, len: 9, qos: 2, retain: false, dup: false, pid, wait: if many == 1 { 1 } else { 0 } });
                if g.r.chance(300 / many as u32) {
                    s.op(Op::Rel { pid, wait: true });
                }
            }
            if many > 1 {
                s.op(Op::Ping { wait: true });
            }
        }
        if g.r.chance(800) {
            s.op(Op::Barrier { id: 2 * k, n: 2 });
            s.op(Op::Barrier { id: 2 * k + 1, n: 2 });
            p.op(Op::Barrier { id: 2 * k, n: 2 });
            for t in &topics {
                g.publish(&mut p, t, 1);
            }
            p.op(Op::Sleep { ms: 200 });
            p.op(Op::Barrier { id: 2 * k + 1, n: 2 });
            k += 1;
        }
        // messages are left over when it ends
        if g.r.chance(150) {
            s.op(Op::Stall);
            s.op(Op::Barrier { id: 2 * k, n: 2 });
            p.op(Op::Barrier { id: 2 * k, n: 2 });
            for _ in 0..g.r.range(1, 50) {
                let t = g.r.pick(&topics).clone();
                g.publish_q(&mut p, &t, 1, *big, 0);
            }
            p.op(Op::WaitAcks);
            p.op(Op::Barrier { id: 2 * k + 1, n: 2 });
            s.op(Op::Barrier { id: 2 * k + 1, n: 2 });
            k += 1;
        }
        match g.r.below(4) {
            0 => {} // taken over by the next connection
            1 => {
                s.op(Op::Partition { ms: g.r.range(1, 300) });
                let e = g.end_op();
                s.op(e);
            }
            _ => {
                let e = g.end_op();
                s.op(e);
            }
        }
        // while nobody is there
        if g.r.chance(300) {
            s.op(Op::Barrier { id: 2 * k, n: 2 });
            s.op(Op::Barrier { id: 2 * k + 1, n: 2 });
            p.op(Op::Barrier { id: 2 * k, n: 2 });
            p.op(Op::Ping { wait: true });
            p.op(Op::Barrier { id: 2 * k + 1, n: 2 });
            k += 1;
        }
        s.op(Op::Sleep { ms: *g.r.pick(&[0u64, 0, 5, 60, 300, 100_000]) });
    }
    s.connect(g.r.chance(bias), 0);
    s.op(Op::Barrier { id: 2 * k, n: 2 });
    p.op(Op::Barrier { id: 2 * k, n: 2 });
    for t in &topics {
        g.publish(&mut p, t, 1);
    }
    p.op(Op::Ping { wait: true });
    g.spec.cfg.max_ms = 2_000_000;
    g.add(s);
    g.add(p);
}

/// Several identifiers at once: one session's end is not another's
fn many_sessions(g: &mut G) {
    g.name("sessions");
    g.env();
    let topics: Vec<String> = (0..g.r.range(1, 3)).map(|_| g.topic(3)).collect();
    let cids = ["a", "b", "A", "aa", "a/b", "ä"];
    let n = g.r.range(2, 5) as usize;
    for c in cids.iter().take(n) {
        let mut s = Script::new(c, Ack::Auto);
        for _ in 0..g.r.range(1, 5) {
            let clean = g.r.chance(400);
            s.connect(clean, 0);
            for _ in 0..g.r.below(3) {
                let f = g.filters(&topics, 3);
                let w = g.r.chance(700);
                s.sub(f, w);
            }
            s.op(Op::Sleep { ms: g.r.range(0, 120) });
            if g.r.chance(700) {
                let e = g.end_op();
                s.op(e);
            }
            s.op(Op::Sleep { ms: g.r.range(0, 60) });
        }
        s.connect(g.r.chance(400), 0);
        g.add(s);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for _ in 0..g.r.range(10, 40) {
        let t = g.pick_topic(&topics);
        g.publish(&mut p, &t, 1);
        p.op(Op::Sleep { ms: g.r.range(0, 30) });
    }
    p.op(Op::Sleep { ms: 1500 });
    for t in &topics {
        g.publish(&mut p, t, 1);
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

// ---- C14 ----

fn c14(g: &mut G) {
    g.name("slow");
    g.env_fast();
    g.spec.cfg.cap = *g.r.pick(&[3000u32, 8000, 65536]);
    g.spec.cfg.lat = (0, 1);
    g.spec.cfg.yield_pm = g.spec.cfg.yield_pm.min(50);
    g.spec.cfg.wchunk = 0;
    g.spec.cfg.rchunk = 0;
    let healthy = g.r.range(1, 3) as u32;
    let bad = g.r.range(1, 3) as u32;
    let all = healthy + bad + 1;
    for i in 0..healthy {
        let mut s = Script::new(&format!("h{i}"), Ack::Auto);
        s.connect(true, 0);
        s.sub(vec![("s/#".into(), g.r.range(0, 2) as u8)], true);
        s.op(Op::Barrier { id: 1, n: all });
        for _ in 0..g.r.range(2, 10) {
            s.op(Op::Sleep { ms: g.r.range(0, 200) });
            match g.r.below(7) {
                0 => s.op(Op::Ping { wait: true }),
                1 => g.publish_q(&mut s, "s/own", 1, 20, 1),
                2 => s.sub(vec![(format!("u/{i}"), 1)], true),
                5 => s.unsub(vec![format!("u/{i}")], true),
                6 => {
                    // taken over, or resumed
                    let clean = g.r.chance(500);
                    s.connect(clean, 0);
                    s.sub(vec![("s/#".into(), 1)], true);
                }
                3 => {
                    s.op(Op::Disconnect);
                    s.connect(true, 0);
                    s.sub(vec![("s/#".into(), 1)], true);
                }
                _ => g.publish_q(&mut s, "s/own", 2, 20, 2),
            }
        }
        g.add(s);
    }
    for i in 0..bad {
        let kind = g.r.below(5);
        let ack = if kind == 1 { Ack::Never } else { Ack::Auto };
        let mut s = Script::new(&format!("bad{i}"), ack);
        s.connect(g.r.chance(500), 0);
        s.sub(vec![("s/#".into(), g.r.range(0, 2) as u8)], true);
        match kind {
            0 => s.op(Op::Stall),
            1 => {}
            2 => {
                s.op(Op::Pace { chunk: 1, gap_ms: g.r.range(20, 500) as u32 });
            }
            3 => {
                s.op(Op::Stall);
                s.op(Op::Barrier { id: 1, n: all });
                s.op(Op::Sleep { ms: g.r.range(500, 5000) });
                s.op(Op::Resume);
            }
            _ => {
                // keeps asking and never listens
                s.op(Op::Stall);
                for _ in 0..g.r.range(100, 700) {
                    s.op(Op::Ping { wait: false });
                }
            }
        }
        if kind != 3 {
            s.op(Op::Barrier { id: 1, n: all });
        }
        if kind == 2 {
            for _ in 0..5 {
                g.publish_q(&mut s, "s/slow", 1, 20, 0);
            }
            s.op(Op::Sleep { ms: 4000 });
        }
        if g.r.chance(250) {
            s.op(Op::Sleep { ms: 3000 });
            let e = if g.r.chance(500) { Op::Reset } else { Op::Close };
            s.op(e);
        }
        if kind == 1 && g.r.chance(500) {
            s.op(Op::Sleep { ms: 2000 });
            s.op(Op::AckAll);
        }
        g.add(s);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: all });
    let total = if g.r.chance(300) { g.r.range(300, 700) } else { g.r.range(20, 250) };
    let len = *g.r.pick(&[20u32, 20, 200, 800]);
    let load = match g.r.below(6) {
        0 => format!("s/{}", "load/".repeat(g.r.range(2, 60) as usize)),
        1 => format!("s/{}", "l".repeat(g.r.range(100, 400) as usize)),
        _ => "s/load".to_string(),
    };
    for k in 0..total {
        let q = g.r.range(0, 2) as u8;
        g.publish_q(&mut p, &load, q, len, 0);
        if k % 25 == 24 {
            p.op(Op::WaitAcks);
            p.op(Op::Ping { wait: true });
            p.op(Op::Sleep { ms: 20 + g.r.range(0, 20) });
        }
    }
    p.op(Op::Ping { wait: true });
    g.spec.cfg.settle_ms = 30_000;
    g.add(p);
}

// ---- C15 ----

fn any_workload(g: &mut G, lossy: bool) -> &'static str {
    let k = g.r.below(if lossy { 13 } else { 9 });
    match k {
        0 => routing(g, "-"),
        1 => churn(g),
        2 => bursts(g),
        3 => pipeline(g),
        4 => racing_subs(g),
        5 => race(g),
        6 => many_sessions(g),
        7 => handover(g),
        8 => retry(g),
        9 => endings(g),
        10 => zombies(g),
        11 => jam(g),
        _ => malformed(g),
    }
    ["routing", "churn", "bursts", "pipeline", "racing", "race", "sessions", "handover", "retry", "endings", "zombies", "jam", "malformed"][k]
}

fn c15(g: &mut G) {
    let at = match g.r.below(4) {
        0 => g.r.range(0, 20),
        1 => g.r.range(0, 150),
        _ => g.r.range(0, 1500),
    };
    let name = match g.n % 5 {
        0 => {
            shutdown_stalled(g);
            "stalled"
        }
        1 => {
            shutdown_idle(g);
            "idle"
        }
        2 => {
            shutdown_flooded(g, at);
            "flooded"
        }
        _ => any_workload(g, true),
    };
    g.name(&format!("interrupt-{name}"));
    // connections around that very moment
    for i in 0..g.r.below(6) {
        let mut s = Script::new(&format!("late{i}"), Ack::Auto);
        let near = (at as i64 + g.r.range(0, 8) as i64 - 5).max(0) as u64;
        s.op(Op::At { ms: near });
        if g.r.chance(300) {
            s.op(Op::Open);
        } else {
            s.connect(true, 0);
            s.op(Op::Ping { wait: true });
        }
        g.add(s);
    }
    g.spec.faults.push(Fault::SigInt { at });
    if g.r.chance(300) {
        let task = if g.r.chance(400) { u32::MAX } else { g.r.below(6) as u32 };
        g.spec.faults.push(Fault::Stall { task, from: at.saturating_sub(5), until: at + g.r.range(5, 600) });
    }
    if g.r.chance(150) {
        g.spec.faults.push(Fault::AcceptError { from: at.saturating_sub(20), until: at + g.r.range(0, 300) });
    }
    g.spec.cfg.settle_ms = 8_000;
}

fn shutdown_stalled(g: &mut G) {
    g.env_fast();
    g.spec.cfg.cap = g.r.range(200, 3000) as u32;
    g.spec.cfg.lat = (0, 1);
    for i in 0..g.r.range(1, 4) {
        let mut s = Script::new(&format!("st{i}"), Ack::Auto);
        let ka = *g.r.pick(&[0u16, 600]);
        s.connect(g.r.chance(500), ka);
        s.sub(vec![("s/#".into(), g.r.range(0, 2) as u8)], true);
        s.op(Op::Stall);
        for _ in 0..g.r.below(300) {
            s.op(Op::Ping { wait: false });
        }
        g.add(s);
    }
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    for _ in 0..g.r.range(20, 300) {
        let q = g.r.range(0, 2) as u8;
        g.publish_q(&mut p, "s/1", q, 100, 0);
    }
    p.op(Op::Ping { wait: true });
    g.add(p);
}

/// More to do than there is room for, at that very moment
fn shutdown_flooded(g: &mut G, at: u64) {
    g.env_fast();
    g.spec.cfg.yield_pm = 0;
    let mut s = Script::new("s", Ack::Auto);
    s.connect(true, 0);
    if g.r.chance(500) {
        s.sub(vec![("s/#".into(), 0)], true);
    }
    g.add(s);
    for i in 0..g.r.range(1, 5) {
        let mut p = Script::new(&format!("fl{i}"), Ack::Auto);
        p.connect(true, 0);
        let near = (at as i64 + g.r.range(0, 12) as i64 - 10).max(0) as u64;
        p.op(Op::At { ms: near });
        for k in 0..g.r.range(50, 500) {
            match g.r.below(20) {
                0 => g.publish_q(&mut p, "s/1", 1, 20, 0),
                1 => p.op(Op::Ping { wait: false }),
                _ => g.publish_q(&mut p, "s/1", 0, 8, 0),
            }
            if k % 100 == 99 {
                p.op(Op::Sleep { ms: g.r.range(0, 4) });
            }
        }
        g.add(p);
    }
    if g.r.chance(600) {
        // whoever takes the requests is late
        let task = g.r.below(4) as u32;
        g.spec.faults.push(Fault::Stall { task, from: at.saturating_sub(12), until: at + g.r.range(1, 400) });
    }
}

fn shutdown_idle(g: &mut G) {
    g.env();
    let many = g.r.chance(150);
    if many {
        g.spec.cfg.lat = (0, 1);
    }
    for i in 0..g.r.range(0, if many { 200 } else { 6 }) {
        let mut s = Script::new(&format!("i{i}"), Ack::Auto);
        match g.r.below(4) {
            0 => s.op(Op::Open),
            1 => {
                s.op(Op::Open);
                s.op(Op::Raw { hex: "1020".into() });
            }
            2 => {
                s.connect(true, 0);
                s.op(Op::Raw { hex: "32ff".into() });
            }
            _ => {
                let ka = *g.r.pick(&[0u16, 20, 600]);
                s.connect(g.r.chance(500), ka);
                s.sub(vec![("s/#".into(), 1)], true);
            }
        }
        s.op(Op::WaitClose { ms: 2000 });
        g.add(s);
    }
}

// ---- C16 ----

fn c16(g: &mut G) {
    if g.n % 25 == 7 {
        return wear(g);
    }
    let name = match g.n % 5 {
        0 => {
            storm(g);
            "storm"
        }
        _ => any_workload(g, true),
    };
    g.name(&format!("faults-{name}"));
    let mut last = 2000;
    for _ in 0..g.r.range(1, 4) {
        let from = g.r.range(0, 1200);
        match g.r.below(5) {
            0 | 1 => {
                let until = from + *g.r.pick(&[30u64, 150, 1000, 4000]);
                last = last.max(until);
                g.spec.faults.push(Fault::AcceptError { from, until });
            }
            2 => g.spec.faults.push(Fault::AcceptAborted { n: g.r.range(1, 10) as u32 }),
            3 => {
                let until = from + g.r.range(10, 2500);
                last = last.max(until);
                let task = if g.r.chance(200) { u32::MAX } else { g.r.below(8) as u32 };
                g.spec.faults.push(Fault::Stall { task, from, until });
            }
            _ => {
                let ms = *g.r.pick(&[100u64, 3000, 20_000, 7_200_000]);
                g.spec.faults.push(Fault::Leap { at: from, ms });
                last = last.max(from + ms);
            }
        }
    }
    // once they have stopped: fresh clients
    let n = g.r.range(2, 5) as u32;
    for i in 0..n {
        let mut s = Script::new(&format!("fresh{i}"), Ack::Auto);
        s.op(Op::At { ms: last + 3000 + g.r.range(0, 40) });
        s.connect(g.r.chance(500), 0);
        s.sub(vec![("fresh/#".into(), g.r.range(0, 2) as u8)], true);
        s.op(Op::Barrier { id: 7000, n });
        for _ in 0..g.r.range(1, 3) {
            let q = g.r.range(0, 2) as u8;
            g.publish_q(&mut s, &format!("fresh/{i}"), q, 20, 1);
        }
        s.unsub(vec!["nothing".into()], true);
        s.op(Op::Ping { wait: true });
        g.add(s);
    }
    g.spec.cfg.max_ms = last + 300_000;
}

/// Hundreds of connections that come to different ends, one after the other, and then fresh ones
fn wear(g: &mut G) {
    g.name("wear");
    g.env_fast();
    g.spec.cfg.lat = (0, 0);
    g.spec.cfg.yield_pm = 0;
    let total = match g.n / 25 % 8 {
        0 => {
            if g.thorough {
                *g.r.pick(&[12_000, 70_000])
            } else {
                *g.r.pick(&[4500, 12_000])
            }
        }
        1 | 2 => 1300,
        _ => g.r.range(60, 600),
    };
    let wearers = g.r.range(1, 3) as u32;
    let fresh = g.r.range(2, 4) as u32;
    let all = wearers + fresh + 1;
    let one = g.r.chance(300);
    let only = g.r.below(9);
    for i in 0..wearers {
        let mut s = Script::new(&format!("wear{i}"), Ack::Auto);
        let kinds = if one { 1 } else { g.r.range(2, 5) };
        for _ in 0..kinds {
            let mut times = total / wearers as u64 / kinds;
            let start = s.a.ops.len() as u32;
            match if one { only } else { g.r.below(9) } {
                0 => {
                    s.op(Op::Open);
                    s.op(Op::Reset);
                }
                1 => {
                    s.op(Op::Open);
                    s.op(Op::Raw { hex: "c000".into() });
                    s.op(Op::WaitClose { ms: 2000 });
                }
                2 => {
                    s.connect(g.r.chance(500), 0);
                    s.op(Op::Raw { hex: (*g.r.pick(&["ff00", "82020001", "3600", "6000"])).into() });
                    s.op(Op::WaitClose { ms: 2000 });
                }
                3 => {
                    s.connect(g.r.chance(500), 0);
                    s.op(Op::Reset);
                }
                4 => {
                    s.connect(g.r.chance(500), 0);
                    s.sub(vec![("fresh/x".into(), 1)], true);
                    s.op(Op::Disconnect);
                }
                5 => {
                    // refused
                    s.op(Op::Open);
                    s.op(Op::Raw { hex: (*g.r.pick(&["100c00044d5154540400003c0000", "100d00044d5154540502003c000161"])).into() });
                    s.op(Op::WaitClose { ms: 2000 });
                }
                6 => {
                    // two CONNECTs
                    s.connect(true, 0);
                    s.op(Op::Connect { clean: true, ka: 0, wait: false, reuse: true, user: false, will: None, cid: None });
                    s.op(Op::WaitClose { ms: 2000 });
                }
                7 => s.connect(g.r.chance(500), 0), // taken over by the next
                _ => {
                    // too long without a sign of life
                    s.connect(true, 1);
                    s.op(Op::WaitClose { ms: 4000 });
                    times = times.min(6);
                }
            }
            if total > 5000 {
                // not all at one instant
                s.op(Op::Sleep { ms: 1 });
            }
            s.op(Op::Repeat { to: start, times: times as u32 });
        }
        s.op(Op::Barrier { id: 6999, n: all });
        g.add(s);
    }
    let mut stay = Script::new("stay", Ack::Auto);
    stay.connect(true, 0);
    stay.sub(vec![("fresh/#".into(), 2)], true);
    stay.op(Op::Barrier { id: 6999, n: all });
    g.add(stay);
    for i in 0..fresh {
        let mut s = Script::new(&format!("fresh{i}"), Ack::Auto);
        s.op(Op::Barrier { id: 6999, n: all });
        s.op(Op::Sleep { ms: g.r.range(0, 30) });
        s.connect(g.r.chance(500), 0);
        s.sub(vec![("fresh/#".into(), g.r.range(0, 2) as u8)], true);
        s.op(Op::Barrier { id: 7000, n: fresh });
        let q = g.r.range(0, 2) as u8;
        g.publish_q(&mut s, &format!("fresh/{i}"), q, 20, 1);
        s.op(Op::Ping { wait: true });
        g.add(s);
    }
    g.spec.cfg.max_ms = 40_000_000;
}

/// More connections at once than anybody needs
fn storm(g: &mut G) {
    g.env_fast();
    let n = g.r.range(20, if g.thorough { 400 } else { 120 });
    for i in 0..n {
        let mut s = Script::new(&format!("storm{}", i % 40), Ack::Auto);
        s.op(Op::Sleep { ms: g.r.range(0, 300) });
        match g.r.below(5) {
            0 => {
                s.op(Op::Open);
                s.op(Op::Reset);
            }
            1 => s.op(Op::Open),
            2 => {
                s.connect_with(true, 0, false);
                s.op(Op::Reset);
            }
            _ => {
                s.connect(true, 0);
                s.sub(vec![("fresh/x".into(), 1)], true);
                if g.r.chance(500) {
                    let e = g.end_op();
                    s.op(e);
                }
            }
        }
        g.add(s);
    }
}

// ---- C17 ----

fn c17(g: &mut G) {
    g.env_fast();
    g.spec.cfg.yield_pm = 0;
    g.spec.cfg.rchunk = 0;
    g.spec.cfg.wchunk = 0;
    g.spec.cfg.lat = (0, 1);
    match g.n % 8 {
        0 if g.n % 32 == 8 => all_at_once(g),
        6 => {
            declared(g);
            g.name("declared");
        }
        7 => flood(g),
        _ => memory_churn(g),
    }
}

/// Crowds that leave at the same moment, also while the task with the sessions does not run
fn all_at_once(g: &mut G) {
    g.name("all-at-once");
    let n = g.r.range(200, 260);
    // tables may grow once more; what sessions hold if they are not ended is three times as much
    g.spec.budget = 200 << 10;
    // once to find out how much there is, then in earnest
    let times = [1000u64, 5000, 9000, 13_000];
    for t in &times[2..] {
        g.spec.faults.push(Fault::Stall { task: 0, from: t + 450, until: t + 900 });
    }
    let ends = [g.end_op(), g.end_op()];
    for i in 0..n {
        let mut s = Script::new(&format!("crowd{i}"), Ack::Auto);
        for (k, t) in times.iter().enumerate() {
            s.op(Op::At { ms: *t });
            s.op(Op::Connect { clean: true, ka: 0, wait: true, reuse: false, user: false, will: None, cid: Some(format!("crowd{k}x{i}")) });
            s.sub(vec![(format!("m/{k}/{i}"), 1)], true);
            s.op(Op::At { ms: t + 500 });
            let e = ends[g.r.below(2)].clone();
            s.op(e);
        }
        g.add(s);
    }
    let mut o = Script::new("other", Ack::Auto);
    o.connect(true, 0);
    o.op(Op::At { ms: times[2] - 1000 });
    o.op(Op::Mark { id: MARK_CHURN });
    o.op(Op::At { ms: times[3] + 3000 });
    o.op(Op::Mark { id: MARK_CHURN + 1 });
    g.add(o);
}

/// The same things again and again: what is alive at the two marks is the same
fn memory_churn(g: &mut G) {
    let kind = g.n % 8;
    let scale = if g.thorough { 4 } else { 1 };
    let rounds: u32 = 500 * scale;
    let mut c = Script::new("churn", if kind == 0 && g.r.chance(400) { Ack::Never } else { Ack::Auto });
    let mut o = Script::new("other", Ack::Auto);
    o.connect(true, 0);
    o.sub(vec![("m/#".into(), g.r.range(0, 2) as u8)], true);
    o.op(Op::Barrier { id: 5, n: 2 });
    g.add(o);
    c.op(Op::Barrier { id: 5, n: 2 });
    // other names each time, or always the same
    let i = if g.r.chance(600) { "{i}" } else { "" };
    let cid = if g.r.chance(600) { Some(format!("churn{i}")) } else { None };
    let conn = |c: &mut Script, clean: bool| c.op(Op::Connect { clean, ka: 0, wait: true, reuse: false, user: false, will: None, cid: cid.clone() });
    let loop_ops = |g: &mut G, c: &mut Script| match kind {
        0 => {
            // connections with clean session, ended in different ways
            let e = g.end_op();
            conn(c, true);
            c.sub(vec![(format!("m/churn{i}/x"), 1), ("m/+".into(), g.r.range(0, 2) as u8)], true);
            for pid in 0..g.r.range(1, 5) as u16 {
                let qos = g.r.range(1, 2) as u8;
                c.op(Op::Pub { topic: format!("m/1{i}"), uid: 5_000_000, len: 30, qos, retain: false, dup: false, pid: 9 + pid, wait: 0 });
            }
            c.op(Op::WaitAcks);
            if g.r.chance(300) {
                c.op(Op::Ping { wait: true });
            }
            c.op(e);
        }
        1 => {
            // subscriptions that come and go
            let deep = format!("m/{}x{i}", "d/".repeat(g.r.range(0, 20) as usize));
            c.sub(vec![(deep.clone(), 1), (format!("+/y{i}/#"), 2), ("m/#".into(), 0), (format!("n{i}"), 0)], true);
            c.sub(vec![(deep.clone(), 2)], true);
            c.unsub(vec![deep, format!("+/y{i}/#"), "m/#".into(), format!("n{i}"), format!("never{i}/x")], true);
        }
        2 => {
            // messages of all kinds
            for q in 0..3u8 {
                c.op(Op::Pub { topic: format!("m/{q}{i}"), uid: 5_000_000 + q as u32, len: 200, qos: q, retain: false, dup: false, pid: 20 + q as u16, wait: q });
            }
            c.op(Op::Ping { wait: true });
        }
        3 => {
            // connections that never get anywhere
            c.op(Op::Open);
            c.op(Op::Raw { hex: (*g.r.pick(&["10", "300500", "101000044d51545404", "c000"])).into() });
            c.op(Op::Sleep { ms: 2 });
            c.op(Op::Reset);
        }
        4 => {
            // taken over again and again
            c.connect(true, 0);
            c.sub(vec![(format!("m/t{i}/#"), 1)], true);
        }
        _ => {
            // persistent sessions that end up clean
            conn(c, false);
            c.sub(vec![(format!("m/p{i}/#"), 1), (format!("m{i}/q"), 0)], true);
            c.op(Op::Close);
            conn(c, true);
            c.op(Op::Disconnect);
        }
    };
    let names = ["connections", "subscriptions", "messages", "never", "takeovers", "persistent"];
    g.name(&format!("churn-{}", names[kind as usize % 6]));
    if kind == 1 || kind == 2 {
        c.connect(true, 0);
    }
    // first a part, so that tables have the size they need, then all of it
    for (id, times) in [(MARK_CHURN, rounds / 5), (MARK_CHURN + 1, rounds)] {
        let start = c.a.ops.len() as u32;
        let from = c.pid;
        loop_ops(g, &mut c);
        c.pid = from;
        c.op(Op::Repeat { to: start, times });
        if kind != 1 && kind != 2 {
            c.op(Op::Close);
        }
        c.op(Op::Sleep { ms: 1200 });
        c.op(Op::Mark { id });
    }
    g.spec.cfg.max_ms = 3_000_000;
    g.add(c);
}

/// Far more messages than a client takes
fn flood(g: &mut G) {
    g.name("flood");
    g.spec.cfg.cap = 8000;
    let kind = g.r.below(3);
    let mut s = Script::new("s", if kind == 1 { Ack::Never } else { Ack::Auto });
    s.connect(kind != 2, 0);
    s.sub(vec![("m/#".into(), g.r.range(0, 2) as u8)], true);
    s.op(Op::Barrier { id: 1, n: 2 });
    match kind {
        0 => s.op(Op::Stall),
        1 => {}
        // gone, but its session is not
        _ => s.op(Op::Close),
    }
    s.op(Op::Barrier { id: 2, n: 2 });
    g.add(s);
    let mut p = Script::new("p", Ack::Auto);
    p.connect(true, 0);
    p.op(Op::Barrier { id: 1, n: 2 });
    p.op(Op::Barrier { id: 2, n: 2 });
    p.op(Op::Sleep { ms: 50 });
    p.op(Op::Mark { id: MARK_QUEUE });
    let start = p.a.ops.len() as u32;
    let len = 1500;
    for k in 0..20u32 {
        p.op(Op::Pub { topic: "m/f".into(), uid: 5_000_000 + k, len, qos: 1, retain: false, dup: false, pid: 100 + k as u16, wait: 0 });
    }
    p.op(Op::WaitAcks);
    p.op(Op::Repeat { to: start, times: if g.thorough { 1500 } else { 300 } });
    p.op(Op::Ping { wait: true });
    p.op(Op::Mark { id: MARK_QUEUE + 1 });
    // a thousand messages, and room for what is on its way
    g.spec.budget = 1000 * (len as i64 + 200) + (1 << 20);
    g.spec.cfg.max_ms = 3_000_000;
    g.add(p);
}
