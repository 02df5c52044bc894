//! S02, S03, S04, S06, S07: joint evaluation by simulated parties.

use crate::core::*;
use crate::fields;
use crate::mpc::*;
use crate::{ev, fail};
use num_bigint::BigUint;

pub struct Parties(pub &'static str);

pub fn network(plan: &Plan) -> Network {
    let mut net = Network::quiet();
    net.max_delay = plan.clamp("delay", 0, 1000) as u64;
    net.loss = plan.clamp("loss", 0, 60) as u64;
    net.dup = plan.clamp("dup", 0, 60) as u64;
    net.wake_delay = plan.clamp("wake_delay", 0, 1000) as u64;
    net.spurious = plan.clamp("spurious", 0, 60) as u64;
    net.yields = plan.clamp("yields", 0, 60) as u64;
    for st in &plan.steps {
        let from = st.arg(2).max(0) as u64;
        let until = from + st.arg(3).max(0).min(5000) as u64;
        match st.op.as_str() {
            "partition" => net.partitions.push((st.arg(0).unsigned_abs(), from, until)),
            "stall" => net.stalls.push((st.arg(0).unsigned_abs() as usize, st.arg(1).unsigned_abs() as usize, from, until)),
            "slow" => net.slow.push((
                st.arg(0).unsigned_abs() as usize,
                st.arg(1).unsigned_abs() as usize,
                st.arg(2).max(0).min(5000) as u64,
            )),
            _ => {}
        }
    }
    net
}

pub fn is_fault(op: &str) -> bool {
    ["partition", "stall", "slow", "crash"].contains(&op)
}

pub fn session_cfg(plan: &Plan) -> SessionCfg {
    let field = plan.clamp("field", 0, fields::NAMES.len() as i64 - 1) as usize;
    let p = fields::order(field);
    let limit = if p.bits() <= 16 { p.to_string().parse::<i64>().unwrap() - 1 } else { 64 };
    let n = plan.clamp("n", 2, limit.min(64)) as usize;
    SessionCfg {
        field,
        n,
        t: plan.clamp("t", 2, n as i64) as usize,
        first_t: plan.get("first_t") > 0,
        lazy: plan.get("lazy") > 0,
        direct: 0,
        seed: plan.seed,
    }
}

pub fn summary(s: usize) {
    with(|w| {
        let sess = &w.sessions[s];
        count("work:joint-operations", sess.ops.len() as u64);
        count("work:steps", sess.steps.len() as u64);
        if sess.cfg.t < sess.cfg.n {
            count("probe:degree-checkable", 1);
        }
    });
}

/// S02 and S04: run the program once under the tape's schedule.
fn evaluate(plan: &Plan) {
    let cfg = session_cfg(plan);
    let program: Vec<Step> = plan.steps.iter().filter(|s| !is_fault(&s.op)).cloned().collect();
    let mut ex = reset(network(plan));
    for st in &plan.steps {
        if st.op == "crash" && plan.get("first_t") > 0 {
            ex.fates.push(Fate::Crash {
                s: 0,
                me: st.idx(0, cfg.n),
                after: 1 + st.arg(1).unsigned_abs(),
            });
        }
    }
    ev!(
        "{} of {} parties over {}, {} steps",
        cfg.t,
        cfg.n,
        fields::NAMES[cfg.field],
        program.len()
    );
    let s = ex.session(cfg, program);
    ex.run_to_completion();
    verify(s);
    verify_openings(s);
    summary(s);
    let crashes = with(|w| w.sessions[s].crashed.iter().filter(|c| **c).count());
    if with(|w| !w.sessions[s].ops.is_empty()) {
        nontrivial();
    }
    if crashes > 0 {
        count("probe:runs-with-crashes", 1);
    }
    with(|w| {
        for sess in &w.sessions {
            let dead = sess.crashed.iter().filter(|c| **c).count();
            if sess.cfg.n - dead == sess.cfg.t {
                count("probe:exactly-t-left", 1);
            }
        }
    });
    ev!("end of run");
}

/// What the outside sees of a session: the operations and the values opened.
fn transcript(s: usize) -> Vec<(Kind, Option<BigUint>)> {
    with(|w| {
        (0..w.sessions[s].ops.len())
            .map(|o| {
                let kind = w.sessions[s].ops[o].kind;
                let v = match kind {
                    Kind::Reveal => w.opening(s, o),
                    Kind::Distribute => w.contributed(s, o),
                    _ => None,
                };
                (kind, v)
            })
            .collect()
    })
}

/// S03: the same program with the same randomness under two different schedules.
fn compare_schedules(plan: &Plan) {
    let cfg = session_cfg(plan);
    let program: Vec<Step> = plan.steps.iter().filter(|s| !is_fault(&s.op)).cloned().collect();
    // reference schedule: everything arrives at once, in the order sent
    mute_choices(true);
    let mut ex = reset(Network::quiet());
    let s = ex.session(cfg.clone(), program.clone());
    ex.run_to_completion();
    mute_choices(false);
    verify_openings(s);
    let reference = transcript(s);
    let order_a: Vec<usize> = with(|w| w.sessions[s].party_ops.clone());
    let ranges_a = ranges(s);
    ev!("reference schedule: {} joint operations", reference.len());
    for o in &order_a {
        if *o != reference.len() {
            fail!("operation-count", "parties issue {:?} joint operations in the same program", order_a);
        }
    }

    if plan.get("vary") > 0 {
        other_randomness(plan, &cfg, &program, &reference, &ranges_a);
    }

    let mut ex = reset(network(plan));
    let s = ex.session(cfg, program.clone());
    ex.run_to_completion();
    verify_openings(s);
    let other = transcript(s);
    let order_b: Vec<usize> = with(|w| w.sessions[s].party_ops.clone());
    let ranges_b = ranges(s);
    check_done(3);
    for o in &order_b {
        if *o != other.len() {
            fail!("operation-count", "parties issue {:?} joint operations in the same program", order_b);
        }
    }
    if reference.len() != other.len() {
        fail!(
            "schedule-dependent-operations",
            "{} joint operations under one schedule and {} under another",
            reference.len(),
            other.len()
        );
    }
    if ranges_a != ranges_b {
        fail!("schedule-dependent-operations", "the operations are divided differently among the steps under two schedules");
    }
    for (i, (a, b)) in reference.iter().zip(&other).enumerate() {
        check_done(2);
        if a.0 != b.0 {
            fail!(
                "schedule-dependent-operations",
                "joint operation {} is {:?} under one schedule and {:?} under another",
                i,
                a.0,
                b.0
            );
        }
        if a.1 != b.1 {
            fail!(
                "schedule-dependent-value",
                "joint operation {} ({:?}) carries {:?} under one schedule and {:?} under another",
                i,
                a.0,
                a.1,
                b.1
            );
        }
    }
    // what the parties themselves saw agrees as well
    verify(s);
    if !other.is_empty() {
        nontrivial();
    }
    summary(s);
    ev!("end of run");
}

/// S10: the same program with the same randomness by parties that go through their delegates, by parties that name the
/// implementing types, and by both kinds together under a seeded schedule.
fn compare_delegates(plan: &Plan) {
    let program: Vec<Step> = plan.steps.iter().filter(|s| !is_fault(&s.op)).cloned().collect();
    let everyone = u64::MAX;
    let mut seen = vec![];
    for (direct, quiet) in [(0, true), (everyone, true), (plan.get("direct") as u64, false)] {
        let mut cfg = session_cfg(plan);
        cfg.direct = direct;
        if quiet {
            mute_choices(true);
        }
        let mut ex = reset(if quiet { Network::quiet() } else { network(plan) });
        let s = ex.session(cfg, program.clone());
        ex.run_to_completion();
        if quiet {
            mute_choices(false);
        }
        verify(s);
        verify_openings(s);
        let held: Vec<Vec<(Vec<Point>, Vec<BigUint>, Vec<u64>)>> = with(|w| {
            w.sessions[s]
                .outcomes
                .iter()
                .map(|o| o.values().map(|o| (o.shares.clone(), o.opened.clone(), o.calls.iter().map(|c| c.2).collect())).collect())
                .collect()
        });
        ev!("direct calls by {:x}: {} joint operations", direct, transcript(s).len());
        if !quiet {
            summary(s);
            if !transcript(s).is_empty() {
                nontrivial();
            }
        }
        seen.push((transcript(s), ranges(s), held));
    }
    let kinds = ["through delegates", "by direct calls", "by both together"];
    for (i, other) in seen.iter().enumerate().skip(1) {
        check_done(4);
        let a = &seen[0];
        if a.0.len() != other.0.len() || a.1 != other.1 {
            fail!(
                "delegate-differs",
                "the same program issues {} joint operations {} and {} {}",
                a.0.len(),
                kinds[0],
                other.0.len(),
                kinds[i]
            );
        }
        for (k, (x, y)) in a.0.iter().zip(&other.0).enumerate() {
            check_done(1);
            if x != y {
                fail!("delegate-differs", "joint operation {} is {:?} {} and {:?} {}", k, x, kinds[0], y, kinds[i]);
            }
        }
        for (party, (x, y)) in a.2.iter().zip(&other.2).enumerate() {
            check_done(1);
            if x != y {
                let step = x.iter().zip(y).position(|(x, y)| x != y);
                fail!(
                    "delegate-differs",
                    "party {} holds, opens or draws something else in step {:?} {} than {}",
                    party,
                    step,
                    kinds[0],
                    kinds[i]
                );
            }
        }
    }
    ev!("end of run");
}

/// S03: the same program on other inputs and with other randomness issues the same operations.
fn other_randomness(plan: &Plan, cfg: &SessionCfg, program: &[Step], reference: &[(Kind, Option<BigUint>)], divided: &[(usize, usize)]) {
    let mut cfg = cfg.clone();
    cfg.seed = mix(plan.seed, 0x0743);
    let mut program = program.to_vec();
    for st in program.iter_mut() {
        match st.op.as_str() {
            "in" => st.a = vec![st.arg(0) + 1],
            "bit" => st.a = vec![1 - (st.arg(0) & 1)],
            _ => {}
        }
    }
    mute_choices(true);
    let mut ex = reset(Network::quiet());
    let s = ex.session(cfg, program);
    ex.run_to_completion();
    mute_choices(false);
    let kinds: Vec<Kind> = transcript(s).into_iter().map(|e| e.0).collect();
    count("probe:other-randomness", 1);
    check_done(2);
    ev!("other inputs and randomness: {} joint operations", kinds.len());
    if ranges(s) != divided || kinds != reference.iter().map(|e| e.0).collect::<Vec<_>>() {
        fail!(
            "data-dependent-operations",
            "the same program issues {} joint operations with one randomness and {} others with another",
            reference.len(),
            kinds.len()
        );
    }
}

/// Joint operations of every step, which must be the same for all parties.
fn ranges(s: usize) -> Vec<(usize, usize)> {
    with(|w| {
        let sess = &w.sessions[s];
        let of = |i: usize| -> Vec<(usize, usize)> { sess.outcomes[i].values().map(|o| o.ops).collect() };
        let first = of(0);
        for i in 1..sess.cfg.n {
            check_done(1);
            if of(i) != first {
                fail!(
                    "operation-mismatch",
                    "party {} issues the joint operations {:?} in its steps where party 0 issues {:?}",
                    i,
                    of(i),
                    first
                );
            }
        }
        first
    })
}

/// S06: communication rounds of an operation over `k` inputs, every message taking exactly one round.
fn rounds(plan: &Plan, op: &str, k: usize, field: i64) -> u64 {
    let mut pl = plan.clone();
    pl.set("field", field);
    let cfg = session_cfg(&pl);
    let mut steps = vec![];
    let width = if op == "umul" { 2 * k } else { k };
    for i in 0..width {
        steps.push(match op {
            "uor" => Step::new("bit", &[(i % 3 == 1) as i64]),
            _ => Step::new("unit", &[4 + i as i64]),
        });
    }
    let args: Vec<i64> = (0..width as i64).collect();
    steps.push(Step::new(op, &args));
    mute_choices(true);
    let mut net = Network::quiet();
    net.fixed = 1000;
    let mut ex = reset(net);
    let s = ex.session(cfg, steps);
    ex.run_to_completion();
    mute_choices(false);
    verify(s);
    count("probe:rounds-measured", 1);
    let t = with(|w| w.now);
    (t + 999) / 1000
}

fn measure_rounds(plan: &Plan) {
    let op = ["umul", "uinv", "uor"][plan.clamp("rounds", 1, 3) as usize - 1];
    let k = plan.clamp("inputs", 2, 1100) as usize;
    let k = if op == "uor" { k.min(70) } else { k };
    let field = plan.clamp("field", 0, fields::NAMES.len() as i64 - 1);
    if BigUint::from(k + 2) >= fields::order(field as usize) {
        return;
    }
    let two = rounds(plan, op, 2, field);
    let many = rounds(plan, op, k, field);
    let one = rounds(plan, op, 1, field);
    check_done(2);
    nontrivial();
    sig(mix(plan.seed, 77));
    ev!("{}: {} rounds for one input, {} for two, {} for {}", op, one, two, many, k);
    if many > two || one > two {
        fail!(
            "rounds-grow",
            "{} takes {} communication rounds for {} inputs, {} for two and {} for one",
            op,
            many,
            k,
            two,
            one
        );
    }
}

/// S07: concurrent and cancelled sessions in one process, then fresh ones.
fn sessions(plan: &Plan) {
    let mut ex = reset(network(plan));
    let mut all = vec![];
    let mut later = vec![];
    for (i, st) in plan.steps.iter().enumerate() {
        // field parties threshold pattern bits phase
        if st.op != "session" {
            continue;
        }
        let field = st.idx(0, fields::NAMES.len());
        let p = fields::order(field);
        let small = if p.bits() <= 16 { p.to_string().parse::<i64>().unwrap() } else { 1000 };
        let n = st.arg(1).max(2).min(small - 1).min(7) as usize;
        let t = st.arg(2).max(2).min(n as i64) as usize;
        let bits = st.arg(4).max(1).min(small - 2).min(12);
        let mut steps = vec![];
        for b in 0..bits {
            steps.push(Step::new("bit", &[(st.arg(3) >> b) & 1]));
        }
        let args: Vec<i64> = (0..bits).collect();
        steps.push(Step::new("uor", &args));
        steps.push(Step::new("open", &[0, bits]));
        let cfg = SessionCfg {
            field,
            n,
            t,
            first_t: false,
            lazy: st.arg(6) > 0,
            direct: 0,
            seed: mix(plan.seed, 4000 + i as u64),
        };
        if st.arg(5) > 0 {
            later.push((cfg, steps));
        } else {
            all.push((cfg, steps));
        }
    }
    let first = all.len();
    if first == 0 && later.is_empty() {
        return;
    }
    for (cfg, steps) in all {
        ex.session(cfg, steps);
    }
    for st in &plan.steps {
        if st.op == "cancel" && first > 0 {
            let s = st.idx(0, first);
            let n = with(|w| w.sessions[s].cfg.n);
            ex.fates.push(Fate::Cancel {
                s,
                me: st.idx(1, n),
                after: 1 + st.arg(2).unsigned_abs(),
            });
        }
    }
    ev!("{} concurrent sessions", first);
    ex.run_to_completion();
    let done = |from: usize| {
        let total = with(|w| w.sessions.len());
        for s in from..total {
            if with(|w| !w.sessions[s].cancelled) {
                verify(s);
                summary(s);
            } else {
                count("probe:cancelled-sessions", 1);
            }
        }
        total
    };
    let total = done(0);
    if total > 1 {
        nontrivial();
    }
    // afterwards the process still works
    ev!("fresh sessions");
    for (cfg, steps) in later {
        ex.session(cfg, steps);
    }
    ex.run_to_completion();
    done(total);
    ev!("end of run");
}

// ---------------------------------------------------------------------------------------------------------------
// Workloads

/// Writes a program whose operands mostly meet the preconditions of the operations.
struct Writer<'a> {
    r: &'a mut Rng,
    p: &'a mut Plan,
    any: Vec<i64>,
    units: Vec<i64>,
    bits: Vec<i64>,
    slots: i64,
}

impl<'a> Writer<'a> {
    fn new(r: &'a mut Rng, p: &'a mut Plan) -> Self {
        Writer {
            r,
            p,
            any: vec![],
            units: vec![],
            bits: vec![],
            slots: 0,
        }
    }

    fn slot(&mut self, unit: bool, bit: bool) {
        self.any.push(self.slots);
        if unit {
            self.units.push(self.slots);
        }
        if bit {
            self.bits.push(self.slots);
        }
        self.slots += 1;
    }

    fn one(&mut self, kind: u8) -> i64 {
        let v = match kind {
            0 => &self.any,
            1 => &self.units,
            _ => &self.bits,
        };
        // recent results are used more often
        if self.r.chance(1, 2) {
            v[v.len() - 1 - self.r.below(v.len().min(4) as u64) as usize]
        } else {
            v[self.r.below(v.len() as u64) as usize]
        }
    }

    fn inputs(&mut self) {
        for _ in 0..self.r.range(1, 3) {
            let k = self.r.range(0, 6);
            self.p.step("in", &[k]);
            self.slot(false, false);
        }
        for _ in 0..self.r.range(1, 3) {
            let k = self.r.range(1, 6);
            self.p.step("unit", &[k]);
            self.slot(true, false);
        }
        for _ in 0..self.r.range(1, 3) {
            let b = self.r.range(0, 1);
            self.p.step("bit", &[b]);
            self.slot(false, true);
        }
    }

    fn linear(&mut self) {
        let (a, b, k) = (self.one(0), self.one(0), self.r.range(0, 6));
        match self.r.below(6) {
            0 => self.p.step("add", &[a, b]),
            1 => self.p.step("sub", &[a, b]),
            2 => self.p.step("adds", &[a, k]),
            3 => self.p.step("subs", &[a, k]),
            4 => self.p.step("muls", &[a, k]),
            _ => {
                let l: Vec<i64> = (0..self.r.range(1, 6)).map(|_| self.one(0)).collect();
                self.p.step("sum", &l);
            }
        }
        self.slot(false, false);
    }

    /// one operation on many inputs
    fn huge(&mut self, crashing: bool) {
        match self.r.below(if crashing { 1 } else { 3 }) {
            0 => {
                let m = *self.r.pick(&[50i64, 64, 65, 100, 128, 129, 200, 256, 257, 300, 512, 513, 1025]);
                let l: Vec<i64> = (0..2 * m).map(|_| self.one(0)).collect();
                self.p.step("umul", &l);
                for _ in 0..m {
                    self.slot(false, false);
                }
            }
            1 => {
                let m = *self.r.pick(&[50i64, 64, 65, 100, 128, 129, 200, 256, 257, 300, 512, 513, 1025]);
                let l: Vec<i64> = (0..m).map(|_| self.one(1)).collect();
                self.p.step("uinv", &l);
                for _ in 0..m {
                    self.slot(true, false);
                }
            }
            _ => {
                let m = *self.r.pick(&[11i64, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 70]);
                // mostly zeros, or mostly ones
                self.p.step("bit", &[0]);
                self.slot(false, true);
                self.p.step("bit", &[1]);
                self.slot(false, true);
                let zero = self.slots - 2;
                let ones = *self.r.pick(&[0i64, 0, 1, 1, m / 2, m - 1, m]);
                let mut l: Vec<i64> = (0..m).map(|i| if i < ones { zero + 1 } else { zero }).collect();
                self.r.shuffle(&mut l);
                self.p.step("uor", &l);
                self.slot(false, true);
            }
        }
    }

    /// `max` bounds the inputs of one operation, `or` whether OR is affordable
    fn joint(&mut self, max: i64, crashing: bool, or: bool) {
        match self.r.below(if crashing { 7 } else { 14 }) {
            0 => {
                let bitwise = self.r.chance(1, 3);
                let unit = !bitwise && self.r.chance(1, 2);
                let k = if bitwise { 2 } else { unit as u8 };
                let (a, b) = (self.one(k), self.one(k));
                self.p.step("mul", &[a, b]);
                self.slot(unit, bitwise);
            }
            1 | 2 => {
                let least = i64::from(!self.r.chance(1, 20));
                let m = self.r.range(least, max);
                let l: Vec<i64> = (0..2 * m).map(|_| self.one(0)).collect();
                self.p.step("umul", &l);
                for _ in 0..m {
                    self.slot(false, false);
                }
            }
            3 => {
                let bitwise = self.r.chance(1, 3);
                let c = self.one(2);
                let k = if bitwise { 2 } else { 0 };
                let (a, b) = (self.one(k), self.one(k));
                self.p.step("sel", &[c, a, b]);
                self.slot(false, bitwise);
            }
            4 | 5 => {
                let m = self.r.range(1, max.min(6));
                let mut l = vec![self.r.range(0, 2)];
                l.extend((0..m).map(|_| self.one(0)));
                self.p.step("open", &l);
            }
            6 => {
                let (a, b, c) = (self.one(0), self.one(0), self.one(0));
                self.p.step("openmul", &[a, b, c]);
                self.slot(false, false);
            }
            7 => {
                let a = self.one(1);
                self.p.step("inv", &[a]);
                self.slot(true, false);
            }
            8 | 9 => {
                let least = i64::from(!self.r.chance(1, 20));
                let m = self.r.range(least, max);
                let l: Vec<i64> = (0..m).map(|_| self.one(1)).collect();
                self.p.step("uinv", &l);
                for _ in 0..m {
                    self.slot(true, false);
                }
            }
            10 if or => {
                let a = self.one(2);
                self.p.step("or", &[a]);
                self.slot(false, true);
            }
            11 if or => {
                let m = self.r.range(1, max.min(10));
                let l: Vec<i64> = (0..m).map(|_| self.one(2)).collect();
                self.p.step("uor", &l);
                self.slot(false, true);
            }
            12 => {
                let (m, how) = (self.r.range(0, 4), self.r.range(0, 2));
                self.p.step("rnd", &[m, how]);
                for _ in 0..=m {
                    self.slot(false, false);
                }
            }
            13 => {
                let (m, a, b) = (self.r.range(0, 3), self.one(0), self.one(0));
                self.p.step("rndmul", &[m, a, b]);
                for _ in 0..m + 2 {
                    self.slot(false, false);
                }
            }
            _ => self.linear(),
        }
    }
}

fn pick_field(r: &mut Rng) -> i64 {
    match r.below(100) {
        0 => r.range(11, 13),
        50..=99 => *r.pick(&[3i64, 4, 5, 6, 7, 18, 19, 20, 21, 22, 23]),
        1..=9 => *r.pick(&[1i64, 2, 14, 15, 16, 17]),
        10..=29 => *r.pick(&[3i64, 4, 5, 18, 19, 20, 21]),
        _ => *r.pick(&[6i64, 7, 8, 9, 10, 22, 23, 24]),
    }
}

pub fn pick_parties(r: &mut Rng, p: &mut Plan, at_least_spare: bool) {
    let n = match r.below(10) {
        0 | 1 => 2,
        2..=4 => 3,
        5..=7 => r.range(3, 6),
        _ => r.range(4, 9),
    };
    let n = if at_least_spare { n.max(3) } else { n };
    let t = match r.below(4) {
        0 => 2,
        1 => n / 2 + 1,
        2 => n,
        _ => r.range(2, n),
    };
    let t = if at_least_spare { t.min(n - 1) } else { t };
    p.set("n", n);
    p.set("t", t.max(2));
}

pub fn pick_weather(r: &mut Rng, p: &mut Plan) {
    p.set("delay", *r.pick(&[0i64, 1, 3, 10, 30, 100]));
    p.set("lazy", r.range(0, 1));
    p.set("loss", *r.pick(&[0i64, 0, 0, 10, 30]));
    p.set("dup", *r.pick(&[0i64, 0, 10, 40]));
    p.set("wake_delay", *r.pick(&[0i64, 0, 0, 3, 20]));
    p.set("spurious", *r.pick(&[0i64, 0, 0, 5, 25]));
    p.set("yields", *r.pick(&[0i64, 0, 0, 3, 10]));
    let n = p.get("n");
    for _ in 0..r.below(3) {
        let (a, l) = (r.range(0, 100), r.range(1, 300));
        match r.below(3) {
            0 => p.step("partition", &[r.range(1, (1 << n) - 1), 0, a, l]),
            1 => p.step("stall", &[0, r.range(0, n - 1), a, l]),
            _ => p.step("slow", &[r.range(0, n - 1), r.range(0, n - 1), l]),
        }
    }
}

impl Scenario for Parties {
    fn id(&self) -> &'static str {
        self.0
    }

    fn meta(&self) -> Meta {
        let faults: &'static [&'static str] = match self.0 {
            "S04" => &[
                "crash", "torn-broadcast", "reorder", "duplicate", "loss", "partition", "stall", "slow-link", "late-wake", "spurious-wake",
            ],
            "S07" => &["cancel", "lock-preemption", "reorder", "duplicate", "loss", "late-wake", "spurious-wake"],
            _ => &[
                "reorder", "duplicate", "loss", "partition", "stall", "slow-link", "late-wake", "spurious-wake", "lock-preemption",
            ],
        };
        Meta {
            rule: match self.0 {
                "S02" => "one run = a random program of up to 12 joint and linear steps evaluated by 2 to 9 parties over one of 25 fields under one seeded \
                          schedule, then compared step by step with plain evaluation; non-trivial if it contains a joint operation",
                "S03" => "one run = one program with fixed randomness evaluated under a first-come schedule and under a seeded one, comparing the \
                          sequences of joint operations and every opened value, and half the time with other randomness and inputs, comparing \
                          the operations; non-trivial if it contains a joint operation",
                "S10" => "one run = one program with fixed randomness evaluated by parties going through their delegates, by parties calling the \
                          implementing types, and by both together under a seeded schedule, comparing every joint operation, opened value, share \
                          and number of draws; non-trivial if it contains a joint operation",
                "S04" => "one run = a program evaluated with openings from the first t contributions while up to n-t parties crash at seeded points, \
                          or one without crashes; every result checked to be shared t of n; non-trivial if it contains a joint operation",
                "S06" => "one run = a program under seeded faults that all end, which must finish, or a measurement of the communication rounds of one \
                          unbounded operation for 1, 2 and up to 200 inputs; non-trivial if it contains a joint operation",
                _ => "one run = up to 5 concurrent OR sessions over different fields and bit counts with preemption at the shared cache's locks, some \
                      cancelled at seeded points, followed by fresh sessions; non-trivial with more than one concurrent session",
            },
            sig_measure: "hash of the sequence of deliveries (session, operation, sender, receiver) and task polls",
            real: &[
                "jester_sharing: Beaver multiplication, inversion, OR, conditional selection, random numbers, Shamir scheme, delegation macros",
                "jester_maths fields",
            ],
            stubs: &[
                "executor and wakers", "network and transport (retransmission, reordering buffer)", "dealer of inputs and Beaver triples", "virtual clock",
            ],
            faults,
            assumptions: &[
                "messages are eventually delivered (the transport retransmits) unless a party crashes",
                "joint random masks that are zero, which documentedly yield garbage, are excused in fields below 2^40",
            ],
            time_unit: "network ticks",
        }
    }

    fn runs(&self, tier: Tier) -> u64 {
        let quick = match self.0 {
            "S02" => 40_000,
            "S03" => 15_000,
            "S04" => 40_000,
            "S06" => 12_000,
            "S10" => 10_000,
            _ => 16_000,
        };
        match tier {
            Tier::Quick => quick,
            Tier::Thorough => quick * 30,
        }
    }

    fn wall_limit(&self, _plan: &Plan) -> u64 {
        60
    }

    fn pinned(&self) -> &'static [&'static str] {
        &["field", "rounds", "first_t"]
    }

    fn generate(&self, r: &mut Rng, index: u64, _tier: Tier, p: &mut Plan) {
        if self.0 == "S07" {
            p.set("delay", *r.pick(&[0i64, 1, 3, 10]));
            p.set("wake_delay", *r.pick(&[0i64, 0, 3]));
            p.set("loss", *r.pick(&[0i64, 0, 20]));
            p.set("dup", *r.pick(&[0i64, 0, 20]));
            p.set("spurious", *r.pick(&[0i64, 0, 10]));
            let yields = *r.pick(&[0i64, 2, 5, 15, 30]);
            p.set("yields", yields);
            let max_bits = if yields > 5 { 4 } else if yields > 0 { 6 } else { 12 };
            let fields: &[i64] = &[1, 2, 3, 6, 7, 10, 14, 15, 16, 17, 18, 21, 24];
            let same = if r.chance(1, 3) { Some(*r.pick(fields)) } else { None };
            let count = r.range(1, 5);
            for i in 0..count + r.range(1, 3) {
                let n = r.range(2, 4);
                let f = same.unwrap_or_else(|| *r.pick(fields));
                let pattern = if r.chance(1, 3) { 0 } else { r.range(0, 4095) };
                p.step("session", &[f, n, r.range(2, n), pattern, r.range(1, max_bits), (i >= count) as i64, r.range(0, 1)]);
            }
            for _ in 0..r.below(count as u64 + 1) {
                let until = *r.pick(&[3i64, 20, 60]);
                p.step("cancel", &[r.range(0, 4), r.range(0, 3), r.range(0, until)]);
            }
            return;
        }
        if self.0 == "S06" && index % 5 == 1 {
            p.set("rounds", r.range(1, 3));
            p.set("field", *r.pick(&[3i64, 6, 7, 10, 17, 18, 21, 23, 24]));
            p.set("inputs", *r.pick(&[3i64, 4, 5, 8, 9, 16, 17, 31, 33, 65, 100, 130, 257, 520]));
            pick_parties(r, p, false);
            if p.get("inputs") > 40 {
                p.set("n", p.get("n").min(4));
                p.set("t", p.get("t").min(4));
            }
            p.set("lazy", r.range(0, 1));
            return;
        }
        let crashing = self.0 == "S04" && r.chance(3, 4);
        let mut f = pick_field(r);
        let big = (11..=13).contains(&f);
        if crashing && f == 1 {
            f = 6;
        }
        p.set("field", f);
        let spare = crashing || (self.0 != "S06" && r.chance(2, 3));
        pick_parties(r, p, spare);
        if big {
            p.set("n", 2 + (crashing as i64));
            p.set("t", 2);
        }
        pick_weather(r, p);
        if crashing {
            p.set("first_t", 1);
            let n = p.get("n");
            for _ in 0..r.range(1, n - p.get("t") + 1) {
                p.step("crash", &[r.range(0, n - 1), r.range(0, 25)]);
            }
        } else if r.chance(1, 4) {
            p.set("first_t", 1);
        }
        if self.0 == "S10" {
            p.set("direct", r.range(1, (1 << 25) - 2));
        }
        if self.0 == "S03" && r.chance(1, 2) {
            p.set("vary", 1);
        }
        let len = if big { 3 } else { *r.pick(&[1i64, 2, 4, 8, 12]) };
        let max = if big { 2 } else { *r.pick(&[2i64, 4, 8]) };
        let preempted = p.get("yields") > 0;
        let max = if preempted { max.min(4) } else { max };
        let crowd = index % 107 == 40;
        let wide = index % 97 == 5 && !big && !crowd;
        // far more inputs at once, or far more parties
        let huge = index % 53 == 20 && !big && !preempted && p.get("field") > 2;
        if huge && p.get("n") > 4 {
            p.set("n", 4);
            p.set("t", p.get("t").min(3));
        }
        if crowd && !big && !preempted && !huge && ![0, 1, 2, 14, 15, 16, 17].contains(&p.get("field")) {
            let n = *r.pick(&[12i64, 16, 17, 20, 25, 33, 40]);
            p.set("n", n);
            p.set("t", *r.pick(&[2, 3, 8, n / 2 + 1, n - 1]));
        }
        let crowd = p.get("n") > 25;
        let len = if crowd { len.min(2) } else { len };
        let mut w = Writer::new(r, p);
        w.inputs();
        for _ in 0..len {
            if w.r.chance(1, 4) {
                w.linear();
            } else {
                w.joint(max, crashing, !big && !crowd);
            }
        }
        if wide {
            w.joint(40, crashing, false);
        }
        if huge {
            w.huge(crashing);
        }
        if self.0 == "S10" {
            // every scheme once, in any order
            let mut ops = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
            w.r.shuffle(&mut ops);
            for op in &ops[..w.r.range(2, if big { 3 } else { 6 }) as usize] {
                let (a, b, u, c) = (w.one(0), w.one(0), w.one(1), w.one(2));
                match op {
                    0 => w.p.step("mul", &[a, b]),
                    1 => w.p.step("umul", &[a, b]),
                    2 => w.p.step("inv", &[u]),
                    3 => w.p.step("uinv", &[u]),
                    4 if big || crowd => w.p.step("rbit", &[]),
                    4 => w.p.step("or", &[c]),
                    5 if big || crowd => w.p.step("rbit", &[]),
                    5 => w.p.step("uor", &[c]),
                    6 => w.p.step("sel", &[c, a, b]),
                    7 => w.p.step("rnd", &[0, 0]),
                    8 => {
                        let method = w.r.range(0, 4);
                        let (d, e) = (w.one(0), w.one(0));
                        w.p.step("weigh", &[method, a, b, d, e])
                    }
                    _ => w.p.step("rbit", &[]),
                }
                w.slot(false, false);
            }
        }
        // use the last results once more and open them
        if w.r.chance(1, 2) {
            let (a, b) = (w.one(0), w.one(0));
            w.p.step("mul", &[a, b]);
            w.slot(false, false);
        }
        let (a, b) = (w.one(0), w.slots - 1);
        w.p.step("open", &[0, a, b]);
    }

    fn execute(&self, plan: &Plan) {
        match self.0 {
            "S03" => compare_schedules(plan),
            "S10" => compare_delegates(plan),
            "S06" if plan.get("rounds") > 0 => measure_rounds(plan),
            "S07" => sessions(plan),
            _ => evaluate(plan),
        }
    }
}
