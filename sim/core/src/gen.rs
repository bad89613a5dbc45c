//! What the generators of `props` are made of.
use crate::{
    rng::Rng,
    spec::{Ack, Actor, Cfg, Op, Policy, Spec},
};

pub struct G {
    pub r: Rng,
    pub n: u64,
    pub thorough: bool,
    pub spec: Spec,
    next_uid: u32,
}

pub struct Script {
    pub a: Actor,
    pub pid: u16,
    /// filters it may be subscribed to
    pub known: Vec<String>,
}

impl Script {
    pub fn new(cid: &str, ack: Ack) -> Self {
        Script { a: Actor { cid: cid.into(), ack, auto_rel: true, ops: vec![] }, pid: 0, known: vec![] }
    }
    pub fn op(&mut self, o: Op) {
        self.a.ops.push(o);
    }
    /// right after the first CONNECT
    pub fn front(&mut self, o: Op) {
        let at = self.a.ops.iter().position(|o| matches!(o, Op::Connect { .. })).map_or(0, |i| i + 1);
        self.a.ops.insert(at, o);
    }
    pub fn next_pid(&mut self) -> u16 {
        self.pid = self.pid % 60_000 + 1;
        self.pid
    }
    pub fn connect(&mut self, clean: bool, ka: u16) {
        self.connect_with(clean, ka, true);
    }
    pub fn connect_with(&mut self, clean: bool, ka: u16, wait: bool) {
        if clean {
            self.known.clear();
        }
        self.op(Op::Connect { clean, ka, wait, reuse: false, user: false, will: None, cid: None });
    }
    pub fn sub(&mut self, filters: Vec<(String, u8)>, wait: bool) {
        for (f, _) in &filters {
            if crate::mqtt::valid_filter(f) && !self.known.contains(f) {
                self.known.push(f.clone());
            }
        }
        let pid = self.next_pid();
        self.op(Op::Sub { pid, filters, wait });
    }
    pub fn unsub(&mut self, filters: Vec<String>, wait: bool) {
        self.known.retain(|k| !filters.contains(k));
        let pid = self.next_pid();
        self.op(Op::Unsub { pid, filters, wait });
    }
}

const LEVELS: &[(&str, u32)] = &[
    ("a", 10),
    ("b", 8),
    ("c", 3),
    ("", 6),
    ("A", 2),
    ("aa", 2),
    ("é", 2),
    ("e\u{301}", 1),
    ("日本", 1),
    ("x y", 1),
    ("$a", 1),
    ("sensor-1", 1),
    (".", 1),
    ("0", 1),
    ("\u{1F600}", 1),
    ("$shared", 1),
    ("a ", 1),
    ("a\u{200B}", 1),
    (" a", 1),
    ("\u{FEFF}a", 1),
    ("*", 1),
    ("a\\b", 1),
    ("%2F", 1),
];

impl G {
    pub fn new(p: &str, seed: u64, thorough: bool, n: u64) -> Self {
        G {
            r: Rng::derive(seed, 77),
            n,
            thorough,
            spec: Spec {
                property: p.into(),
                scenario: String::new(),
                seed,
                cfg: Cfg { policy: Policy::Random, yield_pm: 0, lat: (0, 1), rchunk: 0, wchunk: 0, cap: 1 << 20, settle_ms: 20_000, max_ms: 240_000 },
                actors: vec![],
                faults: vec![],
                budget: 0,
            },
            next_uid: 0,
        }
    }
    pub fn done(mut self) -> Spec {
        self.dress();
        self.spec
    }
    /// The same run with other names: identifiers and topics that are longer, or not ASCII, or no
    /// identifier at all
    fn dress(&mut self) {
        let r = &mut self.r;
        let s = &mut self.spec;
        if s.property == "C17" || ["sizes", "bigsub", "wrap", "declared", "lookalikes"].contains(&s.scenario.as_str()) {
            return;
        }
        let has = |f: &dyn Fn(&Op) -> bool| s.actors.iter().any(|a| a.ops.iter().any(f));
        let slow = has(&|o| matches!(o, Op::Pace { chunk: 1.., .. } | Op::CutAfter { .. }));
        let raw = has(&|o| matches!(o, Op::Raw { .. }));
        let unit = *r.pick(&["é", "日本", "x", "\u{1F600}", "aé", "-"]);
        let cids = r.chance(300).then(|| {
            let n = if slow { r.range(1, 3) } else { *r.pick(&[1u64, 5, 20, 40, 100]) };
            let lead = "a".repeat(r.below(4));
            lead + &unit.repeat(r.range(1, n) as usize)
        });
        let topics = (r.chance(250) && !raw).then(|| unit.repeat(r.range(1, 3) as usize));
        let anonymous = r.chance(120);
        let named = r.chance(120);
        let mut nameless = vec![];
        for (k, a) in s.actors.iter().enumerate() {
            let alone = s.actors.iter().filter(|b| b.cid == a.cid).count() == 1;
            let clean = a.ops.iter().all(|o| !matches!(o, Op::Connect { clean: false, .. } | Op::Connect { cid: Some(_), .. }));
            if anonymous && alone && clean && r.chance(700) {
                nameless.push(k);
            }
        }
        // from one name to another, and no two to the same
        let name = |c: &mut String| {
            if let (Some(x), false) = (&cids, c.is_empty()) {
                *c = format!("{c}{x}");
            }
        };
        let long: usize = s.actors.iter().flat_map(|a| &a.ops).map(|o| match o {
            Op::Sub { filters, .. } => filters.iter().map(|f| f.0.len()).max().unwrap_or(0),
            Op::Unsub { filters, .. } => filters.iter().map(|f| f.len()).max().unwrap_or(0),
            Op::Pub { topic, .. } => topic.len(),
            _ => 0,
        }).max().unwrap_or(0);
        let topics = topics.filter(|_| long < 4000);
        let dress = |t: &mut String| {
            if let Some(x) = &topics {
                let v: Vec<String> = t
                    .split('/')
                    .map(|l| if l.is_empty() || l.starts_with('$') || l.contains(['+', '#']) { l.to_string() } else { format!("{l}{x}") })
                    .collect();
                *t = v.join("/");
            }
        };
        for (k, a) in s.actors.iter_mut().enumerate() {
            if named && k % 2 == 0 {
                for o in &mut a.ops {
                    if let Op::Connect { user, .. } = o {
                        *user = true;
                    }
                }
            }
            name(&mut a.cid);
            if nameless.contains(&k) {
                a.cid.clear();
            }
            for o in &mut a.ops {
                match o {
                    Op::Connect { will, cid, .. } => {
                        if let Some(c) = cid {
                            name(c);
                        }
                        if let Some(w) = will {
                            dress(&mut w.topic);
                        }
                    }
                    Op::Sub { filters, .. } => filters.iter_mut().for_each(|f| dress(&mut f.0)),
                    Op::Unsub { filters, .. } => filters.iter_mut().for_each(dress),
                    Op::Pub { topic, .. } => dress(topic),
                    _ => {}
                }
            }
        }
    }
    pub fn name(&mut self, s: &str) {
        self.spec.scenario = s.into();
    }
    pub fn add(&mut self, s: Script) {
        self.spec.actors.push(s.a);
    }
    pub fn uid(&mut self) -> u32 {
        self.next_uid += 1;
        self.next_uid
    }

    fn policy(&mut self) -> Policy {
        match self.r.weighted(&[4, 1, 1, 3, 3]) {
            0 => Policy::Random,
            1 => Policy::Fifo,
            2 => Policy::Lifo,
            3 => Policy::Skewed,
            _ => Policy::Pct(self.r.range(1, 6) as u32),
        }
    }

    /// The environment: schedule, delays, segmentation, room
    pub fn env(&mut self) {
        self.env_fast();
        let c = &mut self.spec.cfg;
        c.lat = *self.r.pick(&[(0, 0), (0, 1), (0, 3), (1, 10), (0, 40), (20, 25)]);
        if self.r.chance(350) {
            let k = *self.r.pick(&[3u64, 20, 200, 4000]);
            self.chunks(1);
            self.spec.cfg.rchunk = self.r.range(1, k) as u32;
        }
        if self.spec.cfg.lat.1 <= 1 && self.r.chance(150) {
            self.spec.cfg.cap = self.r.range(256, 5000) as u32;
        }
    }
    /// one in which much can happen in little time
    pub fn env_fast(&mut self) {
        let p = self.policy();
        let c = &mut self.spec.cfg;
        c.policy = p;
        c.yield_pm = *self.r.pick(&[0, 0, 10, 60, 250]);
        c.lat = *self.r.pick(&[(0, 0), (0, 1), (1, 2)]);
    }
    /// short reads and writes
    pub fn chunks(&mut self, lo: u32) {
        let c = &mut self.spec.cfg;
        let lo = lo.max(1);
        for x in [&mut c.rchunk, &mut c.wchunk] {
            *x = match self.r.below(4) {
                0 => 0,
                1 => lo * self.r.range(1, 3) as u32,
                2 => lo * self.r.range(1, 20) as u32,
                _ => lo * self.r.range(1, 400) as u32,
            };
        }
    }

    pub fn ack(&mut self) -> Ack {
        match self.r.weighted(&[6, 2, 1, 1]) {
            0 => Ack::Auto,
            1 => Ack::Delay(0, self.r.range(1, 150) as u32),
            2 => Ack::Skip(self.r.range(2, 6) as u32),
            _ => Ack::Never,
        }
    }
    pub fn end_op(&mut self) -> Op {
        match self.r.below(3) {
            0 => Op::Disconnect,
            1 => Op::Close,
            _ => Op::Reset,
        }
    }

    // ---- topics ----

    pub fn level(&mut self) -> String {
        let w: Vec<u32> = LEVELS.iter().map(|l| l.1).collect();
        LEVELS[self.r.weighted(&w)].0.to_string()
    }
    pub fn topic(&mut self, depth: usize) -> String {
        let d = self.r.range(1, depth as u64);
        let v: Vec<String> = (0..d).map(|_| self.level()).collect();
        let t = v.join("/");
        if t.is_empty() {
            "a".into()
        } else {
            t
        }
    }
    pub fn pick_topic(&mut self, topics: &[String]) -> String {
        if self.r.chance(900) {
            self.r.pick(topics).clone()
        } else {
            self.topic(4)
        }
    }
    /// A filter that matches the topic, mostly
    pub fn wild(&mut self, topic: &str) -> String {
        let mut l: Vec<String> = topic.split('/').map(|s| s.to_string()).collect();
        for x in l.iter_mut() {
            if self.r.chance(280) {
                *x = "+".into();
            }
        }
        if self.r.chance(280) {
            let k = self.r.below(l.len() + 1);
            l.truncate(k);
            l.push("#".into());
        }
        l.join("/")
    }
    pub fn filter(&mut self, topics: &[String]) -> String {
        let t = self.r.pick(topics).clone();
        let f = match self.r.weighted(&[3, 8, 1, 1, 1, 1]) {
            0 => t,
            1 => self.wild(&t),
            2 => {
                let mut w = self.wild(&t);
                if !w.ends_with('#') {
                    w.push('/');
                    w += &self.level();
                }
                w
            }
            3 => self.wild(&format!("/{t}")),
            4 => self.r.pick(&["#", "+", "+/+", "+/#", "/#", "/+", "+/", "$a/#", "a/#", "+/+/+", "$shared/#", "$shared/+"]).to_string(),
            _ => {
                let t = self.topic(4);
                self.wild(&t)
            }
        };
        if f.is_empty() || f == "$share" || f.starts_with("$share/") {
            "#".into()
        } else {
            f
        }
    }
    pub fn filters(&mut self, topics: &[String], max: u64) -> Vec<(String, u8)> {
        let n = self.r.range(1, max);
        (0..n).map(|_| (self.filter(topics), self.r.range(0, 2) as u8)).collect()
    }
    pub fn bad_filter(&mut self) -> String {
        self.r.pick(&["a+", "+a", "a/b+", "#/a", "a/#/b", "a#", "##", "++", "", "a/+b/c", "#/", "a/#b", "/#/"]).to_string()
    }

    // ---- messages ----

    pub fn publish(&mut self, s: &mut Script, topic: &str, wait: u8) {
        let q = self.r.range(0, 2) as u8;
        let mut len = *self.r.pick(&[4u32, 8, 20, 60, 300]);
        if self.r.chance(25) {
            // too short to be told from others: only its number counts
            len = self.r.below(4) as u32;
        }
        self.publish_q(s, topic, q, len, wait);
    }
    pub fn publish_q(&mut self, s: &mut Script, topic: &str, qos: u8, len: u32, wait: u8) {
        let uid = self.uid();
        let pid = s.next_pid();
        let retain = self.r.chance(80);
        s.op(Op::Pub { topic: topic.into(), uid, len: if retain && self.r.chance(150) { 0 } else { len }, qos, retain, dup: qos > 0 && self.r.chance(20), pid, wait });
    }
}
