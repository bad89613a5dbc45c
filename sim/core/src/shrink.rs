//! Makes a failing run smaller while it fails in the same way.
use crate::{
    orch::{fork_run, Done},
    spec::{Actor, Fault, Op, Policy, Spec},
    sys,
};

fn fix_barriers(spec: &mut Spec) {
    // a barrier is for whoever still comes to it
    let mut n: std::collections::BTreeMap<u32, u32> = Default::default();
    for a in &spec.actors {
        for o in &a.ops {
            if let Op::Barrier { id, .. } = o {
                *n.entry(*id).or_default() += 1;
            }
        }
    }
    for a in &mut spec.actors {
        for o in &mut a.ops {
            if let Op::Barrier { id, n: k } = o {
                *k = n[id];
            }
        }
    }
}

struct Shrinker {
    class: String,
    until: f64,
    child: bool,
}

impl Shrinker {
    /// does it still fail; None: this process is the run
    fn fails(&mut self, s: &Spec) -> bool {
        if self.child || sys::real_time() > self.until {
            return false;
        }
        match fork_run(s, false) {
            Done::Child => {
                self.child = true;
                false
            }
            Done::Outcome(r) => r.violations.iter().any(|v| v.class == self.class),
        }
    }

    fn try_step(&mut self, cur: &mut Spec, f: impl FnOnce(&mut Spec)) -> bool {
        let mut s = cur.clone();
        f(&mut s);
        fix_barriers(&mut s);
        if s == *cur {
            return false;
        }
        if self.fails(&s) {
            *cur = s;
            return true;
        }
        false
    }
}

fn has_repeat(a: &Actor) -> bool {
    a.ops.iter().any(|o| matches!(o, Op::Repeat { .. }))
}

/// None: this process has become a run
pub fn shrink(spec: &Spec, class: &str, seconds: f64) -> Option<Spec> {
    let mut sh = Shrinker { class: class.into(), until: sys::real_time() + seconds, child: false };
    let mut cur = spec.clone();
    macro_rules! step {
        ($f:expr) => {{
            let r = sh.try_step(&mut cur, $f);
            if sh.child {
                return None;
            }
            r
        }};
    }
    for _round in 0..3 {
        let before = cur.clone();
        // actors
        let mut i = cur.actors.len();
        while i > 0 {
            i -= 1;
            if cur.actors.len() > 1 && i < cur.actors.len() {
                step!(|s: &mut Spec| {
                    s.actors.remove(i);
                });
            }
        }
        // faults
        let mut i = cur.faults.len();
        while i > 0 {
            i -= 1;
            step!(|s: &mut Spec| {
                s.faults.remove(i);
            });
        }
        // the environment
        step!(|s: &mut Spec| s.cfg.yield_pm = 0);
        step!(|s: &mut Spec| s.cfg.lat = (0, 0));
        step!(|s: &mut Spec| s.cfg.rchunk = 0);
        step!(|s: &mut Spec| s.cfg.wchunk = 0);
        step!(|s: &mut Spec| s.cfg.cap = 1 << 20);
        step!(|s: &mut Spec| s.cfg.policy = Policy::Fifo);
        // ops, in halving chunks
        for a in 0..cur.actors.len() {
            if has_repeat(&cur.actors[a]) {
                // only shorten the loops
                for k in 0..cur.actors[a].ops.len() {
                    loop {
                        let Op::Repeat { times, .. } = cur.actors[a].ops[k] else { break };
                        if times == 0 {
                            break;
                        }
                        let ok = step!(|s: &mut Spec| {
                            if let Op::Repeat { times, .. } = &mut s.actors[a].ops[k] {
                                *times /= 2;
                            }
                        });
                        if !ok {
                            break;
                        }
                    }
                }
                continue;
            }
            let mut size = (cur.actors[a].ops.len() / 2).max(1);
            loop {
                let mut at = cur.actors[a].ops.len();
                while at > 0 {
                    let from = at.saturating_sub(size);
                    if from < cur.actors[a].ops.len() {
                        let to = at.min(cur.actors[a].ops.len());
                        step!(|s: &mut Spec| {
                            s.actors[a].ops.drain(from..to);
                        });
                    }
                    at = from;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        // details
        for a in 0..cur.actors.len() {
            for k in 0..cur.actors[a].ops.len() {
                match cur.actors[a].ops[k].clone() {
                    Op::Sub { filters, .. } if filters.len() > 1 => {
                        for f in (0..filters.len()).rev() {
                            step!(|s: &mut Spec| {
                                if let Op::Sub { filters, .. } = &mut s.actors[a].ops[k] {
                                    if filters.len() > 1 && f < filters.len() {
                                        filters.remove(f);
                                    }
                                }
                            });
                        }
                    }
                    Op::Unsub { filters, .. } if filters.len() > 1 => {
                        for f in (0..filters.len()).rev() {
                            step!(|s: &mut Spec| {
                                if let Op::Unsub { filters, .. } = &mut s.actors[a].ops[k] {
                                    if filters.len() > 1 && f < filters.len() {
                                        filters.remove(f);
                                    }
                                }
                            });
                        }
                    }
                    Op::Pub { len, .. } if len > 8 => {
                        for new in [8, len / 16, len / 2] {
                            if new < len
                                && step!(|s: &mut Spec| {
                                    if let Op::Pub { len, .. } = &mut s.actors[a].ops[k] {
                                        *len = new.max(4);
                                    }
                                })
                            {
                                break;
                            }
                        }
                    }
                    Op::Sleep { ms } if ms > 1 => {
                        step!(|s: &mut Spec| s.actors[a].ops[k] = Op::Sleep { ms: 1 });
                    }
                    _ => {}
                }
            }
        }
        for f in 0..cur.faults.len() {
            if let Fault::Stall { task, from, until } = cur.faults[f].clone() {
                step!(|s: &mut Spec| s.faults[f] = Fault::Stall { task, from, until: from + (until - from) / 4 });
            }
        }
        if cur == before {
            break;
        }
    }
    Some(cur)
}
