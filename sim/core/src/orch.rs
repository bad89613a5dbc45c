//! Runs simulations, one process each, and reports.
use crate::{
    alloc::Owner,
    hist, mqtt, net,
    oracle::{View, Violation},
    props, run, sched, shrink,
    spec::Spec,
    sys,
};
use serde::{Deserialize, Serialize};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    future::Future,
    io::{BufRead, BufReader, Read, Write},
    os::fd::FromRawFd,
};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub counts: BTreeMap<String, u64>,
    pub schedule: u64,
    pub history: u64,
    pub virtual_ms: u64,
    pub nontrivial: bool,
    #[serde(default)]
    pub log: Vec<String>,
    #[serde(default)]
    pub internal: Vec<String>,
}

thread_local! {
    static CHILD: RefCell<Option<(Spec, i32, bool)>> = const { RefCell::new(None) };
}

/// What became of a run
pub enum Done {
    /// this process is the run: go on and be the broker
    Child,
    Outcome(Report),
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, name: &str) -> Option<&str> {
        let i = self.0.iter().position(|a| a == name)?;
        self.0.get(i + 1).map(|s| s.as_str())
    }
    fn num(&self, name: &str, default: u64) -> u64 {
        self.get(name).and_then(|s| s.parse().ok()).unwrap_or(default)
    }
    fn has(&self, name: &str) -> bool {
        self.0.iter().any(|a| a == name)
    }
}

/// Wait for the report. A run never sleeps: all its time is virtual. One that uses no processor time and is
/// not even ready to run is blocked, on a lock say, and stays so.
fn wait_or_blocked(fd: i32, pid: i32) -> bool {
    let look = || -> Option<(char, u64)> {
        let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
        let rest = &stat[stat.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        Some((f[0].chars().next()?, f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?))
    };
    let mut same = 0;
    let mut last = None;
    loop {
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, 1000) };
        if n > 0 {
            return false;
        }
        let now = look();
        same = if n == 0 && now.is_some_and(|x| x.0 == 'S') && now == last { same + 1 } else { 0 };
        last = now;
        if same >= 6 {
            return true;
        }
    }
}

/// Fork a process for the run. The caller must return up to `take_over` at once if this says `Child`.
pub fn fork_run(spec: &Spec, verbose: bool) -> Done {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            if !verbose {
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
                libc::close(null);
            }
            let set = |what, soft: u64, hard: u64| {
                let l = libc::rlimit { rlim_cur: soft, rlim_max: hard };
                libc::setrlimit(what, &l);
            };
            // as much stack as the broker's worker threads have
            set(libc::RLIMIT_STACK, 2 << 20, libc::RLIM_INFINITY);
            set(libc::RLIMIT_CPU, 60, libc::RLIM_INFINITY);
            set(libc::RLIMIT_CORE, 0, 0);
            set(libc::RLIMIT_AS, 6 << 30, 6 << 30);
            libc::alarm(150);
            CHILD.with(|c| *c.borrow_mut() = Some((spec.clone(), fds[1], verbose)));
            run::prepare(spec);
            return Done::Child;
        }
        libc::close(fds[1]);
        let mut buf = vec![];
        let blocked = wait_or_blocked(fds[0], pid);
        if blocked {
            libc::kill(pid, libc::SIGKILL);
        }
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut buf);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let mut report: Report = match serde_json::from_slice(&buf) {
            Ok(r) => r,
            Err(_) => {
                let mut r = Report { nontrivial: true, ..Default::default() };
                if blocked {
                    r.violations.push(Violation {
                        class: "hang".into(),
                        msg: "the broker hangs: a thread blocks for ever inside a task".into(),
                    });
                } else if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == ORACLE_LATE {
                    r.internal.push("the oracle takes too long".into());
                } else if libc::WIFSIGNALED(status) {
                    let sig = libc::WTERMSIG(status);
                    let (class, msg) = match sig {
                        libc::SIGALRM => ("hang", "the broker hangs: it neither waits for anything nor comes to an end"),
                        libc::SIGXCPU => ("hang", "the broker runs without end"),
                        libc::SIGSEGV => ("crash", "the broker crashes: stack overflow or bad memory access"),
                        libc::SIGABRT => ("crash", "the broker aborts: stack overflow, out of memory, or a panic that cannot unwind"),
                        _ => ("crash", "the broker is killed by a signal"),
                    };
                    if sig == libc::SIGKILL || sig == libc::SIGTERM {
                        // not by itself: from outside
                        r.internal.push(format!("the run was ended by signal {sig}"));
                    } else {
                        r.violations.push(Violation { class: class.into(), msg: format!("{msg} (signal {sig})") });
                    }
                } else {
                    r.violations.push(Violation {
                        class: "exit".into(),
                        msg: format!("the process ends by itself with status {}", libc::WEXITSTATUS(status)),
                    });
                }
                r
            }
        };
        if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) != 0 && report.violations.is_empty() && report.internal.is_empty() {
            report.violations.push(Violation {
                class: "shutdown".into(),
                msg: format!("after the interrupt the broker exits with status {}", libc::WEXITSTATUS(status)),
            });
        }
        Done::Outcome(report)
    }
}

/// Called in the broker's main, through `tokio::runtime::Builder::build`
pub fn take_over() {
    let args = Args(std::env::args().skip(1).collect());
    match args.0.first().map(|s| s.as_str()) {
        Some("check") => {
            if let Some(code) = check(&args) {
                std::process::exit(code);
            }
        }
        Some("replay") | Some("run") => {
            if let Some(code) = one(&args) {
                std::process::exit(code);
            }
        }
        Some("selftest") => {
            if let Some(code) = selftest(&args) {
                std::process::exit(code);
            }
        }
        _ => {
            eprintln!("usage: broker-sim check|run|replay|selftest ...");
            std::process::exit(2);
        }
    }
}

/// Called in the broker's main, through `Runtime::block_on`
pub fn run_main<F: Future>(f: F) -> F::Output {
    let (spec, fd, verbose) = {
        let _own = Owner::sim();
        CHILD.with(|c| c.borrow().clone()).expect("no run")
    };
    let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run::simulate(f)));
    let _own = Owner::sim();
    let (out, main_panic) = match out {
        Ok(o) => (o, false),
        Err(_) => (None, true),
    };
    // from here on it is the oracle's own time
    unsafe {
        let l = libc::rlimit { rlim_cur: 360, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        libc::alarm(600);
        for s in [libc::SIGXCPU, libc::SIGALRM] {
            libc::signal(s, oracle_late as extern "C" fn(i32) as usize);
        }
    }
    let report = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge(&spec, verbose, main_panic))) {
        Ok(r) => r,
        Err(_) => {
            let what = hist::take().iter().rev().map(hist::show).find(|l| l.contains("Panic")).unwrap_or_default();
            Report { nontrivial: true, internal: vec![format!("the oracle panics: {what}")], ..Default::default() }
        }
    };
    let json = serde_json::to_vec(&report).unwrap_or_default();
    unsafe {
        let mut f = std::fs::File::from_raw_fd(fd);
        let _ = f.write_all(&json);
        drop(f);
        match out {
            Some(o) => o,
            None => libc::_exit(0),
        }
    }
}

const ORACLE_LATE: i32 = 99;

extern "C" fn oracle_late(_: i32) {
    unsafe { libc::_exit(ORACLE_LATE) }
}


fn judge(spec: &Spec, verbose: bool, main_panic: bool) -> Report {
    let hist = hist::take();
    let aborted = sched::aborted();
    let st = sched::stats();
    let virtual_ms = sched::now_ms().max(hist.last().map_or(0, |e| e.t));
    let (sent, ns) = net::with(|n| {
        let sent: Vec<Vec<u8>> = n.conns.iter_mut().map(|c| std::mem::take(&mut c.sent_bytes)).collect();
        let s = &n.stats;
        let ns: Vec<(&str, u64)> = vec![
            ("segments", s.segments),
            ("short_reads", s.short_reads),
            ("short_writes", s.short_writes),
            ("backpressure", s.backpressure),
            ("resets", s.resets),
            ("fins", s.fins),
            ("partitions", s.holds),
            ("accept_errors", s.accept_errors),
            ("write_errors", s.write_errors),
            ("bytes_in", s.bytes_in),
            ("bytes_out", s.bytes_out),
        ];
        (sent, ns)
    });
    let mut counts: BTreeMap<String, u64> = ns.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    counts.insert("steps".into(), st.steps);
    counts.insert("choices".into(), st.choices);
    counts.insert("spurious_not_ready".into(), st.yields);
    counts.insert("task_stalls".into(), st.stalls);
    let mut internal = vec![];
    let mut n_recv = 0;
    let mut h: u64 = 0;
    for e in &hist {
        let line = hist::show(e);
        h = h.rotate_left(7) ^ mqtt::fnv(line.as_bytes());
        let name = match &e.ev {
            hist::Ev::Open { .. } => "connections",
            hist::Ev::Recv { pkt: mqtt::Pkt::Publish { .. }, .. } => {
                n_recv += 1;
                "deliveries"
            }
            hist::Ev::Recv { .. } => "answers",
            hist::Ev::ClientClose { reset: true, .. } => "client_resets",
            hist::Ev::ClientClose { .. } => "client_closes",
            hist::Ev::HalfClose { .. } => "half_closes",
            hist::Ev::Stall { on: true, .. } => "client_stalls",
            hist::Ev::Leap { .. } => "clock_leaps",
            hist::Ev::WallSet { .. } => "wall_clock_steps",
            hist::Ev::Sig { .. } => "interrupts",
            hist::Ev::Timeout { .. } => "client_timeouts",
            hist::Ev::Panic { task, msg } => {
                if task != "broker" {
                    internal.push(format!("simulator panic: {msg}"));
                }
                "panics"
            }
            _ => continue,
        };
        *counts.entry(name.to_string()).or_default() += 1;
    }
    let mut v = View::new(spec, &hist, sent);
    v.check_process(aborted);
    if main_panic && v.out.is_empty() {
        v.fail("exit", "the broker's main panics".into());
    }
    props::check(&mut v);
    if v.settled == crate::oracle::INF && v.out.is_empty() && internal.is_empty() {
        internal.push("the run did not come to its end".into());
    }
    counts.insert("messages".into(), v.msgs.len() as u64);
    counts.insert("requests".into(), v.conns.iter().map(|c| c.reqs.len() as u64).sum());
    let violations = v.out.clone();
    let nontrivial = n_recv > 0 || v.conns.iter().any(|c| c.reqs.iter().any(|r| r.ans != crate::oracle::INF)) || v.conns.iter().any(|c| c.must.is_some());
    Report {
        violations,
        counts,
        schedule: st.hash,
        history: h,
        virtual_ms,
        nontrivial,
        log: if verbose { hist.iter().map(hist::show).collect() } else { vec![] },
        internal,
    }
}

fn seed_of(base: u64, property: &str, n: u64) -> u64 {
    mqtt::fnv(format!("{base}/{property}/{n}").as_bytes()) >> 1
}

fn one(args: &Args) -> Option<i32> {
    let verbose = args.has("-v");
    let (spec, want): (Spec, Vec<Violation>) = if args.0[0] == "replay" {
        let text = std::fs::read_to_string(args.0.get(1).cloned().unwrap_or_default()).unwrap_or_default();
        let v: serde_json::Value = match serde_json::from_str(&text) {
            Ok(v) => v,
            Err(e) => {
                eprintln!("cannot read the replay file: {e}");
                return Some(2);
            }
        };
        let spec = serde_json::from_value(v["spec"].clone()).expect("replay: spec");
        (spec, serde_json::from_value(v["violations"].clone()).unwrap_or_default())
    } else {
        let p = args.get("--property").unwrap_or("C01").to_string();
        let thorough = args.get("--tier") == Some("thorough");
        let seed = match args.get("--raw-seed") {
            Some(s) => s.parse().expect("seed"),
            None => seed_of(args.num("--seed", 1), &p, args.num("--n", 0)),
        };
        (props::generate(&p, seed, thorough, args.num("--n", 0)), vec![])
    };
    match fork_run(&spec, true) {
        Done::Child => None,
        Done::Outcome(r) => {
            if args.has("--spec") {
                println!("{}", serde_json::to_string(&spec).unwrap());
            }
            if verbose {
                for l in &r.log {
                    println!("{l}");
                }
            }
            println!("scenario {} seed {} schedule {:x} history {:x} virtual {} ms {:?}", spec.scenario, spec.seed, r.schedule, r.history, r.virtual_ms, r.counts);
            for i in &r.internal {
                println!("INTERNAL {i}");
            }
            for v in &r.violations {
                println!("  [{}] {}", v.class, v.msg);
            }
            if r.violations.is_empty() {
                println!("no violation");
                return Some(if want.is_empty() { 0 } else { 3 });
            }
            if !want.is_empty() {
                println!("{}", if want == r.violations { "reproduced exactly" } else { "a different violation" });
            }
            let path = args.0.get(1).cloned().unwrap_or_default();
            if args.0[0] == "replay" {
                println!("VIOLATION property={} replay={}", spec.property, path);
            }
            Some(1)
        }
    }
}

fn selftest(args: &Args) -> Option<i32> {
    let base = args.num("--seed", 1);
    let n = args.num("--runs", 20);
    let mut bad = 0;
    for p in props::ALL {
        if args.get("--property").is_some_and(|x| x != *p) {
            continue;
        }
        for i in 0..n {
            let spec = props::generate(p, seed_of(base, p, i), false, i);
            let mut rs = vec![];
            for _ in 0..2 {
                match fork_run(&spec, false) {
                    Done::Child => return None,
                    Done::Outcome(r) => rs.push(r),
                }
            }
            if rs[0].history != rs[1].history || rs[0].schedule != rs[1].schedule || rs[0].counts != rs[1].counts {
                println!("NOT DETERMINISTIC: {p} n {i} scenario {}", spec.scenario);
                bad += 1;
            }
        }
        println!("{p}: {n} seeds run twice");
    }
    Some(if bad > 0 { 1 } else { 0 })
}

#[derive(Default, Serialize, Deserialize)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    schedules: Vec<u64>,
    histories: Vec<u64>,
    virtual_ms: u64,
    counts: BTreeMap<String, u64>,
    /// runs in which each kind of event happened at least once
    in_runs: BTreeMap<String, u64>,
    scenarios: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    internal: Vec<String>,
    unjudged: u64,
}

#[derive(Serialize, Deserialize)]
enum Line {
    Found { n: u64, spec: Spec, violations: Vec<Violation> },
    Totals(Totals),
}

struct Known {
    property: String,
    class: String,
    scenario: String,
    text: String,
}

fn known(path: Option<&str>) -> Vec<Known> {
    let Some(p) = path else { return vec![] };
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let mut it = l.splitn(4, ' ');
            let f = |s: Option<&str>, k: &str| s.and_then(|s| s.strip_prefix(k)).map(|s| s.to_string());
            Some(Known {
                property: f(it.next(), "property=")?,
                class: f(it.next(), "class=")?,
                scenario: f(it.next(), "scenario=")?,
                text: it.next().unwrap_or("").to_string(),
            })
        })
        .collect()
}

fn check(args: &Args) -> Option<i32> {
    let p = args.get("--property").expect("--property").to_string();
    let tier = args.get("--tier").unwrap_or("quick").to_string();
    let thorough = tier == "thorough";
    let base = args.num("--seed", 1);
    let runs = args.num("--runs", 200);
    let seconds = args.num("--seconds", 600) as f64;
    let workers = args.num("--workers", 8);
    let out_dir = args.get("--replays").unwrap_or("replays").to_string();
    let evidence = args.get("--evidence").map(|s| s.to_string());
    let known = known(args.get("--known"));
    let t0 = sys::real_time();
    let max_found = args.num("--max-found", 1);

    // set to have the workers stop
    // whether to stop, and the next run to be taken
    let (stop, next) = unsafe {
        let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(m != libc::MAP_FAILED, "mmap");
        (&*(m as *const std::sync::atomic::AtomicBool), &*(m.add(64) as *const std::sync::atomic::AtomicU64))
    };
    let mut readers = vec![];
    let mut pids = vec![];
    for _ in 0..workers {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::close(fds[0]);
                libc::setpgid(0, 0);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut out = std::fs::File::from_raw_fd(fds[1]);
                let mut t = Totals::default();
                loop {
                    let n = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if n >= runs || sys::real_time() - t0 >= seconds || stop.load(std::sync::atomic::Ordering::Relaxed) {
                        break;
                    }
                    let spec = props::generate(&p, seed_of(base, &p, n), thorough, n);
                    match fork_run(&spec, false) {
                        Done::Child => return None,
                        Done::Outcome(r) => {
                            t.runs += 1;
                            *t.scenarios.entry(spec.scenario.clone()).or_default() += 1;
                            t.virtual_ms += r.virtual_ms;
                            if r.nontrivial {
                                t.nontrivial += 1;
                                t.histories.push(r.history);
                            }
                            t.schedules.push(r.schedule);
                            for (k, v) in &r.counts {
                                *t.counts.entry(k.clone()).or_default() += v;
                                if *v > 0 {
                                    *t.in_runs.entry(k.clone()).or_default() += 1;
                                }
                            }
                            if n < 2 {
                                let mut s = serde_json::to_string(&spec).unwrap_or_default();
                                if s.len() > 6000 {
                                    let mut cut = 6000;
                                    while !s.is_char_boundary(cut) {
                                        cut -= 1;
                                    }
                                    s.truncate(cut);
                                }
                                t.samples.push(s);
                            }
                            if !r.internal.is_empty() {
                                t.unjudged += 1;
                            }
                            for i in r.internal {
                                if t.internal.len() < 3 {
                                    t.internal.push(format!("run {n} ({}): {i}", spec.scenario));
                                }
                            }
                            let mut fresh = vec![];
                            for v in r.violations {
                                match known.iter().find(|k| k.property == p && k.class == v.class && (k.scenario == "*" || k.scenario == spec.scenario)) {
                                    Some(k) => *t.known.entry(k.text.clone()).or_default() += 1,
                                    None => fresh.push(v),
                                }
                            }
                            if !fresh.is_empty() {
                                let _ = out.write_all(format!("{}\n", serde_json::to_string(&Line::Found { n, spec, violations: fresh }).unwrap()).as_bytes());
                            }
                        }
                    }
                }
                let _ = out.write_all(format!("{}\n", serde_json::to_string(&Line::Totals(t)).unwrap()).as_bytes());
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pids.push(pid);
            readers.push((fds[0], BufReader::new(std::fs::File::from_raw_fd(fds[0]))));
        }
    }

    let mut total = Totals::default();
    let mut found: Vec<(u64, Spec, Vec<Violation>)> = vec![];
    let mut open: Vec<bool> = readers.iter().map(|_| true).collect();
    let mut stopped = false;
    let mut kill_at = f64::INFINITY;
    while open.iter().any(|o| *o) {
        let mut fds: Vec<libc::pollfd> = readers
            .iter()
            .zip(&open)
            .map(|((fd, _), o)| libc::pollfd { fd: if *o { *fd } else { -1 }, events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as u64, 1000) };
        for i in 0..fds.len() {
            if fds[i].revents == 0 {
                continue;
            }
            let mut line = String::new();
            let n = readers[i].1.read_line(&mut line).unwrap_or(0);
            if n == 0 {
                open[i] = false;
                continue;
            }
            match serde_json::from_str::<Line>(&line) {
                Ok(Line::Found { n, spec, violations }) => {
                    found.push((n, spec, violations));
                }
                Ok(Line::Totals(t)) => {
                    total.runs += t.runs;
                    total.nontrivial += t.nontrivial;
                    total.virtual_ms += t.virtual_ms;
                    total.unjudged += t.unjudged;
                    total.schedules.extend(t.schedules);
                    total.histories.extend(t.histories);
                    total.samples.extend(t.samples);
                    total.internal.extend(t.internal);
                    for (a, b) in [
                        (&mut total.counts, t.counts),
                        (&mut total.in_runs, t.in_runs),
                        (&mut total.scenarios, t.scenarios),
                        (&mut total.known, t.known),
                    ] {
                        for (k, v) in b {
                            *a.entry(k).or_default() += v;
                        }
                    }
                    open[i] = false;
                }
                Err(e) => total.internal.push(format!("worker said {e}")),
            }
            if found.len() as u64 >= max_found && !stopped {
                stopped = true;
                stop.store(true, std::sync::atomic::Ordering::Relaxed);
                kill_at = sys::real_time() + 15.0;
            }
        }
        if stopped && sys::real_time() > kill_at {
            // busy with a run that has no end
            kill_at = f64::INFINITY;
            for pid in &pids {
                unsafe { libc::kill(-*pid, libc::SIGKILL) };
            }
        }
        // a line may be buffered already
        for i in 0..readers.len() {
            while open[i] && !readers[i].1.buffer().is_empty() && readers[i].1.buffer().contains(&b'\n') {
                let mut line = String::new();
                let _ = readers[i].1.read_line(&mut line);
                if let Ok(Line::Found { n, spec, violations }) = serde_json::from_str::<Line>(&line) {
                    found.push((n, spec, violations));
                } else if let Ok(Line::Totals(t)) = serde_json::from_str::<Line>(&line) {
                    total.runs += t.runs;
                    total.nontrivial += t.nontrivial;
                    total.virtual_ms += t.virtual_ms;
                    total.schedules.extend(t.schedules);
                    total.histories.extend(t.histories);
                    total.samples.extend(t.samples);
                    total.internal.extend(t.internal);
                    for (a, b) in [
                        (&mut total.counts, t.counts),
                        (&mut total.in_runs, t.in_runs),
                        (&mut total.scenarios, t.scenarios),
                        (&mut total.known, t.known),
                    ] {
                        for (k, v) in b {
                            *a.entry(k).or_default() += v;
                        }
                    }
                    open[i] = false;
                }
            }
        }
    }
    for pid in pids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if !stopped && !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            total.internal.push(format!("a worker ended with status {st}"));
        }
    }
    let explored = sys::real_time() - t0;
    let mut code = 0;
    for (k, n) in &total.known {
        println!("KNOWN-FINDING: property={p} {k} ({n} runs)");
    }
    found.sort_by_key(|f| f.0);
    let mut paths = vec![];
    for (n, spec, violations) in found.iter().take(args.num("--shrink", 1) as usize) {
        println!("run {n} (scenario {}, seed {}):", spec.scenario, spec.seed);
        for v in violations {
            println!("  [{}] {}", v.class, v.msg);
        }
        let small = match shrink::shrink(spec, &violations[0].class, args.num("--shrink-seconds", 45) as f64) {
            None => return None,
            Some(s) => s,
        };
        let r = match fork_run(&small, true) {
            Done::Child => return None,
            Done::Outcome(r) => r,
        };
        let again = match fork_run(&small, false) {
            Done::Child => return None,
            Done::Outcome(r) => r,
        };
        if again.violations != r.violations {
            println!("INTERNAL: the minimised run is not repeatable");
        }
        std::fs::create_dir_all(&out_dir).ok();
        let path = format!("{out_dir}/{p}-{n}.json");
        let doc = serde_json::json!({
            "property": p, "run": n, "base_seed": base,
            "violations": r.violations, "original_violations": violations,
            "spec": small, "history": r.log, "original_spec": spec,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        for v in &r.violations {
            println!("  minimised: [{}] {}", v.class, v.msg);
        }
        paths.push(path.clone());
        println!("VIOLATION property={p} replay={path}");
        code = 1;
    }
    if !total.internal.is_empty() {
        for i in total.internal.iter().take(5) {
            println!("INTERNAL {i}");
        }
        // a few runs that could not be judged are no reason to leave the question open
        if code == 0 && total.unjudged > 3.max(total.runs / 200) {
            code = 2;
        }
    }
    if total.runs == 0 && code == 0 {
        println!("INTERNAL nothing was run");
        code = 2;
    }
    let wall = sys::real_time() - t0;
    let schedules: HashSet<u64> = total.schedules.iter().copied().collect();
    let histories: HashSet<u64> = total.histories.iter().copied().collect();
    let per_hour = total.runs as f64 / explored.max(0.001) * 3600.0;
    println!(
        "{p} {tier}: {} runs ({} non-trivial, {} distinct histories, {} distinct schedules), {:.0} virtual s, {:.1} s, {} violations",
        total.runs,
        total.nontrivial,
        histories.len(),
        schedules.len(),
        total.virtual_ms as f64 / 1000.0,
        wall,
        found.len()
    );
    if let Some(path) = evidence {
        let fault_keys = [
            "short_reads", "short_writes", "backpressure", "resets", "fins", "partitions", "accept_errors", "write_errors", "task_stalls",
            "spurious_not_ready", "client_resets", "client_closes", "half_closes", "client_stalls", "clock_leaps", "wall_clock_steps", "interrupts",
        ];
        let faults: BTreeMap<&str, serde_json::Value> = fault_keys
            .iter()
            .filter(|k| total.counts.get(**k).copied().unwrap_or(0) > 0)
            .map(|k| (*k, serde_json::json!({"times": total.counts[*k], "runs": total.in_runs[*k]})))
            .collect();
        let work: BTreeMap<&String, &u64> = total.counts.iter().filter(|(k, _)| !fault_keys.contains(&k.as_str())).collect();
        let doc = serde_json::json!({
            "property": p, "tier": tier, "seed": base, "level": "exploration",
            "coverage": {
                "evaluations": total.runs,
                "distinct_nontrivial": histories.len(),
                "rule": props::rule(&p),
                "samples": total.samples,
                "runs_per_hour_each_with_its_own_seed": per_hour.round(),
                "runs_not_judged": total.unjudged,
                "simulated_seconds": total.virtual_ms as f64 / 1000.0,
                "distinct_schedules": schedules.len(),
                "schedule_measure": "hash of the sequence of (task kind, task number) picked wherever two or more tasks were ready",
                "history_measure": "hash of the full client-visible history: every event with its virtual time",
                "scenarios": total.scenarios,
                "faults_injected": faults,
                "work": work,
                "real_code": ["all of /repo/src, main included, unmodified", "tokio 1.37 sync, time, io and task internals (current-thread runtime, paused clock)", "tokio-util CancellationToken and TaskTracker", "dashmap, bytes, uuid, log, env_logger"],
                "stubs": ["tokio::net TCP listener and streams (simulated network)", "tokio::signal::ctrl_c (simulated signal)", "tokio multi-thread runtime (seeded one-at-a-time scheduler over the current-thread runtime)", "getrandom and clock_gettime (seeded, virtual)", "clients (scripted MQTT 3.1.1 clients with their own codec)"],
                "known_findings_seen": total.known,
                "replays": paths,
            },
            "assumptions": props::ASSUMPTIONS,
            "wall_s": wall,
            "violations": found.len(),
        });
        let _ = std::fs::create_dir_all(std::path::Path::new(&path).parent().unwrap_or(std::path::Path::new(".")));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    }
    Some(code)
}
