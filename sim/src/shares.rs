//! S01: Shamir shares kept by crashing holders, worked on share-wise and reconstructed by readers from whichever shares
//! arrive first.

use crate::core::*;
use crate::fields::{self, Fld, Job};
use crate::{ev, fail};
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::{LinearSharingScheme, ThresholdSecretSharingScheme};
use num_bigint::BigUint;
use std::cmp::Reverse;
use std::collections::{BinaryHeap, BTreeMap};
use std::marker::PhantomData;

pub struct Plain<F>(PhantomData<F>);

impl<F: Fld> ShamirSecretSharingScheme<F> for Plain<F> {}

#[derive(Clone)]
enum Command {
    Deal,
    Add(usize, usize),
    Sub(usize, usize),
    AddScalar(usize, BigUint),
    SubScalar(usize, BigUint),
    MulScalar(usize, BigUint),
    Sum(Vec<usize>),
}

enum Ev {
    /// a dealt share reaches its holder
    Share { slot: usize, holder: usize },
    /// a holder works on its next commands
    Work { holder: usize },
    Restart { holder: usize },
    /// a request of a reader reaches a holder
    Ask { reader: usize, holder: usize },
    /// an answer reaches the reader
    Answer { reader: usize, holder: usize, attempt: u32 },
}

struct Holder<F> {
    up: bool,
    dead: bool,
    /// durable state: survives crashes
    disk: BTreeMap<usize, (usize, F)>,
    /// volatile state: results not yet written
    memory: BTreeMap<usize, (usize, F)>,
    working: bool,
    requests: Vec<usize>,
    epoch: u32,
}

struct Reader<F> {
    slot: usize,
    wanted: usize,
    got: Vec<(usize, (usize, F))>,
    done: bool,
    patience: u32,
}

struct Run<'a> {
    plan: &'a Plan,
    field: usize,
}

fn value(kind: i64, seed: u64, p: &BigUint) -> BigUint {
    match kind {
        0 => BigUint::from(0u32),
        1 => BigUint::from(1u32),
        2 => p - 1u32,
        _ => fields::random_below(&mut Rng::new(seed), p),
    }
}

impl<'a> Job for Run<'a> {
    type Out = ();

    fn go<F: Fld>(self) {
        let plan = self.plan;
        let p = fields::order(self.field);
        let small = p.bits() <= 16;
        let limit: usize = if small { p.to_string().parse::<usize>().unwrap() - 1 } else { 2000 };
        let n = plan.clamp("n", 2, limit.min(2000) as i64) as usize;
        let t = plan.clamp("t", 2, n as i64) as usize;
        let mut rng = SimRng::new(mix(plan.seed, 0xD));
        let field = |v: &BigUint| -> F { F::from(v.clone()) };
        let add = |a: &BigUint, b: &BigUint| (a + b) % &p;
        let sub = |a: &BigUint, b: &BigUint| (a + &p - b) % &p;

        ev!("{} of {} over {}", t, n, fields::NAMES[self.field]);
        let mut now = 0u64;
        let mut seq = 0u64;
        let mut queue: BinaryHeap<Reverse<(u64, u64, usize)>> = BinaryHeap::new();
        let mut events: Vec<Option<Ev>> = vec![];
        let mut holders: Vec<Holder<F>> = (0..n)
            .map(|_| Holder {
                up: true,
                dead: false,
                disk: BTreeMap::new(),
                memory: BTreeMap::new(),
                working: false,
                requests: vec![],
                epoch: 0,
            })
            .collect();
        let mut commands: Vec<Command> = vec![];
        let mut values: Vec<BigUint> = vec![];
        let mut dealt: BTreeMap<usize, Vec<(usize, F)>> = BTreeMap::new();
        let mut readers: Vec<Reader<F>> = vec![];
        let mut dead = 0usize;
        let max_delay = plan.clamp("delay", 0, 1000) as u64;
        let mut net = Rng::new(mix(plan.seed, 0x4e37));
        macro_rules! at {
            ($t:expr, $e:expr) => {{
                seq += 1;
                events.push(Some($e));
                queue.push(Reverse(($t, seq, events.len() - 1)));
            }};
        }
        macro_rules! delay {
            () => {
                net.below(max_delay + 1)
            };
        }
        let mut step = 0;
        let mut fuel = 400_000u32;
        loop {
            let due = queue.peek().map(|Reverse((t, _, _))| *t);
            if step < plan.steps.len() && due.map(|d| d > now).unwrap_or(true) {
                let st = &plan.steps[step];
                step += 1;
                now += st.arg(0).max(0).min(1000) as u64;
                set_vtime(now);
                let k = values.len();
                let pick = |i: usize| st.idx(i, k.max(1));
                let scalar = value(st.arg(2), mix(plan.seed, 31 * step as u64), &p);
                let command = match st.op.as_str() {
                    // gap kind
                    "deal" => {
                        let v = value(st.arg(1), mix(plan.seed, 77 * step as u64), &p);
                        let shares = Plain::<F>::generate_shares(&mut rng, &field(&v), n, t);
                        check_done(1);
                        if shares.len() != n {
                            fail!("share-count", "{} shares were generated instead of {}", shares.len(), n);
                        }
                        for h in 0..n {
                            at!(now + delay!(), Ev::Share { slot: k, holder: h });
                        }
                        dealt.insert(k, shares);
                        values.push(v);
                        Some(Command::Deal)
                    }
                    "add" if k > 0 => {
                        values.push(add(&values[pick(1)], &values[pick(2)]));
                        Some(Command::Add(pick(1), pick(2)))
                    }
                    "sub" if k > 0 => {
                        values.push(sub(&values[pick(1)], &values[pick(2)]));
                        Some(Command::Sub(pick(1), pick(2)))
                    }
                    "adds" if k > 0 => {
                        values.push(add(&values[pick(1)], &scalar));
                        Some(Command::AddScalar(pick(1), scalar))
                    }
                    "subs" if k > 0 => {
                        values.push(sub(&values[pick(1)], &scalar));
                        Some(Command::SubScalar(pick(1), scalar))
                    }
                    "muls" if k > 0 => {
                        values.push(&values[pick(1)] * &scalar % &p);
                        Some(Command::MulScalar(pick(1), scalar))
                    }
                    "sum" if k > 0 => {
                        let which: Vec<usize> = (1..st.a.len().max(2)).map(|i| pick(i)).collect();
                        values.push(which.iter().fold(BigUint::from(0u32), |a, i| add(&a, &values[*i])));
                        Some(Command::Sum(which))
                    }
                    // gap parties threshold kind: many holders, of whom only a few are ever heard of
                    "vast" if !small => {
                        let n = st.arg(1).clamp(2, 200_000) as usize;
                        let t = st.arg(2).clamp(2, 60.min(n as i64)) as usize;
                        let secret = value(st.arg(3), mix(plan.seed, 99 * step as u64), &p);
                        let shares = Plain::<F>::generate_shares(&mut rng, &field(&secret), n, t);
                        check_done(2);
                        if shares.len() != n {
                            fail!("share-count", "{} shares were generated instead of {}", shares.len(), n);
                        }
                        count("probe:many-holders", 1);
                        for round in 0..6 {
                            let mut live: Vec<usize> = vec![];
                            while live.len() < t {
                                let h = match net.below(3) {
                                    0 => n - 1 - net.below(n.min(300) as u64) as usize,
                                    1 => net.below(n.min(300) as u64) as usize,
                                    _ => net.below(n as u64) as usize,
                                };
                                if !live.contains(&h) {
                                    live.push(h);
                                }
                            }
                            let part: Vec<_> = live
                                .iter()
                                .map(|h| {
                                    let s = &shares[*h];
                                    match round {
                                        0 => s.clone(),
                                        1 => Plain::<F>::add_shares(s, s),
                                        2 => Plain::<F>::sub_shares(s, s),
                                        3 => Plain::<F>::add_scalar(s, &field(&secret)),
                                        4 => Plain::<F>::multiply_scalar(s, &field(&secret)),
                                        _ => match Plain::<F>::sum_shares(&vec![s.clone(); 3]) {
                                            Some(s) => s,
                                            None => fail!("no-sum", "the sum of 3 shares is nothing"),
                                        },
                                    }
                                })
                                .collect();
                            let want = match round {
                                0 => secret.clone(),
                                1 | 3 => add(&secret, &secret),
                                2 => BigUint::from(0u32),
                                4 => &secret * &secret % &p,
                                _ => &secret * 3u32 % &p,
                            };
                            let got = Plain::<F>::reconstruct_secret(&part, t).as_uint();
                            nontrivial();
                            if got != want {
                                fail!(
                                    "wrong-value",
                                    "of {} holders with threshold {}, holders {:?} reconstruct {} instead of {}",
                                    n,
                                    t,
                                    live,
                                    got,
                                    want
                                );
                            }
                        }
                        ev!("{} holders, threshold {}", n, t);
                        None
                    }
                    // gap slot shares-wanted
                    "read" if k > 0 => {
                        let wanted = t + st.idx(2, n - t + 1);
                        readers.push(Reader {
                            slot: pick(1),
                            wanted,
                            got: vec![],
                            done: false,
                            patience: 0,
                        });
                        for h in 0..n {
                            at!(
                                now + delay!(),
                                Ev::Ask {
                                    reader: readers.len() - 1,
                                    holder: h
                                }
                            );
                        }
                        None
                    }
                    // gap holder downtime (0: for good, if enough holders remain)
                    "crash" => {
                        let h = st.idx(1, n);
                        let forever = st.arg(2) <= 0;
                        if holders[h].dead || !holders[h].up || (forever && dead >= n - t) {
                            None
                        } else {
                            holders[h].up = false;
                            holders[h].epoch += 1;
                            if !holders[h].memory.is_empty() {
                                count("probe:unwritten-results-lost", 1);
                            }
                            holders[h].memory.clear();
                            holders[h].working = false;
                            if forever {
                                holders[h].dead = true;
                                dead += 1;
                                count("fault:permanent-loss", 1);
                                ev!("holder {} is lost for good", h);
                            } else {
                                count("fault:crash-restart", 1);
                                ev!("holder {} crashes", h);
                                at!(now + st.arg(2) as u64, Ev::Restart { holder: h });
                            }
                            None
                        }
                    }
                    _ => None,
                };
                if let Some(c) = command {
                    commands.push(c);
                    for h in 0..n {
                        if !holders[h].dead && !holders[h].working {
                            holders[h].working = true;
                            at!(now + delay!(), Ev::Work { holder: h });
                        }
                    }
                }
                continue;
            }
            let i = match queue.pop() {
                Some(Reverse((t, _, i))) => {
                    now = now.max(t);
                    i
                }
                None => break,
            };
            fuel -= 1;
            if fuel == 0 {
                harness_bug_fuel();
            }
            set_vtime(now);
            match events[i].take().unwrap() {
                Ev::Share { slot, holder } => {
                    let h = &mut holders[holder];
                    if h.dead {
                        continue;
                    }
                    if !h.up {
                        // the dealer sends it again later
                        count("fault:resend", 1);
                        at!(now + 1 + delay!(), Ev::Share { slot, holder });
                        continue;
                    }
                    h.disk.insert(slot, dealt[&slot][holder].clone());
                    if !h.working {
                        h.working = true;
                        at!(now + delay!(), Ev::Work { holder });
                    }
                }
                Ev::Work { holder } => {
                    let h = &mut holders[holder];
                    if !h.up {
                        continue;
                    }
                    h.working = false;
                    // results become durable with a delay, so a crash loses some of them
                    let m = std::mem::take(&mut h.memory);
                    h.disk.extend(m);
                    let mut more = false;
                    for (k, c) in commands.iter().enumerate() {
                        if h.disk.contains_key(&k) {
                            continue;
                        }
                        let d = &h.disk;
                        let r = match c {
                            Command::Deal => None,
                            Command::Add(a, b) => {
                                d.get(a).and_then(|a| d.get(b).map(|b| Plain::<F>::add_shares(a, b)))
                            }
                            Command::Sub(a, b) => {
                                d.get(a).and_then(|a| d.get(b).map(|b| Plain::<F>::sub_shares(a, b)))
                            }
                            Command::AddScalar(a, s) => d.get(a).map(|a| Plain::<F>::add_scalar(a, &field(s))),
                            Command::SubScalar(a, s) => d.get(a).map(|a| Plain::<F>::sub_scalar(a, &field(s))),
                            Command::MulScalar(a, s) => d.get(a).map(|a| Plain::<F>::multiply_scalar(a, &field(s))),
                            Command::Sum(v) => {
                                let shares: Option<Vec<_>> = v.iter().map(|i| d.get(i).cloned()).collect();
                                shares.map(|s| match Plain::<F>::sum_shares(&s) {
                                    Some(s) => s,
                                    None => fail!("no-sum", "the sum of {} shares is nothing", v.len()),
                                })
                            }
                        };
                        if let Some(r) = r {
                            h.memory.insert(k, r);
                            more = true;
                            count("work:share-operations", 1);
                        }
                    }
                    if more {
                        h.working = true;
                        at!(now + 1 + delay!(), Ev::Work { holder });
                    }
                    if !h.requests.is_empty() {
                        let pending = std::mem::take(&mut h.requests);
                        for r in pending {
                            at!(now, Ev::Ask { reader: r, holder });
                        }
                    }
                }
                Ev::Restart { holder } => {
                    let h = &mut holders[holder];
                    h.up = true;
                    h.working = true;
                    ev!("holder {} restarts with {} shares", holder, h.disk.len());
                    at!(now + delay!(), Ev::Work { holder });
                }
                Ev::Ask { reader, holder } => {
                    let slot = readers[reader].slot;
                    let h = &mut holders[holder];
                    if h.dead || readers[reader].done {
                        continue;
                    }
                    if !h.up {
                        at!(now + 1 + delay!(), Ev::Ask { reader, holder });
                        continue;
                    }
                    if h.disk.contains_key(&slot) {
                        at!(
                            now + delay!(),
                            Ev::Answer {
                                reader,
                                holder,
                                attempt: 0
                            }
                        );
                        if net.chance(1, 10) {
                            at!(
                                now + delay!(),
                                Ev::Answer {
                                    reader,
                                    holder,
                                    attempt: 1
                                }
                            );
                        }
                    } else if !h.requests.contains(&reader) {
                        h.requests.push(reader);
                    }
                }
                Ev::Answer {
                    reader,
                    holder,
                    attempt,
                } => {
                    let slot = readers[reader].slot;
                    // an answer under way survives the crash of its sender
                    let share = match holders[holder].disk.get(&slot) {
                        Some(s) => s.clone(),
                        None => continue,
                    };
                    let r = &mut readers[reader];
                    if r.done || r.got.iter().any(|g| g.0 == holder) {
                        if attempt > 0 {
                            count("fault:duplicate", 1);
                        }
                        continue;
                    }
                    if r.got.last().map(|g| g.0 > holder).unwrap_or(false) {
                        count("fault:reorder", 1);
                    }
                    r.got.push((holder, share));
                    sig(mix(reader as u64, holder as u64));
                    if r.got.len() == r.wanted {
                        r.done = true;
                        reconstruct::<F>(r, reader, t, n, &values, false);
                    }
                }
            }
        }
        // readers that wanted more shares than survive make do with those they have
        for (i, r) in readers.iter_mut().enumerate() {
            if !r.done {
                if r.got.len() < t {
                    crate::harness_bug!("reader {} has {} of {} shares", i, r.got.len(), t);
                }
                r.done = true;
                r.patience = 1;
                reconstruct::<F>(r, i, t, n, &values, true);
            }
        }
        // finally every subset tried at random gives every value
        let mut r = Rng::new(mix(plan.seed, 0xF1));
        for (k, v) in values.iter().enumerate() {
            let mut s: Vec<_> = holders
                .iter()
                .filter(|h| !h.dead)
                .map(|h| match h.disk.get(&k) {
                    Some(s) => s.clone(),
                    None => crate::harness_bug!("a live holder has no share of value {}", k),
                })
                .collect();
            r.shuffle(&mut s);
            let m = t + r.below((s.len() - t + 1) as u64) as usize;
            let got = Plain::<F>::reconstruct_secret(&s[..m], t).as_uint();
            check_done(1);
            if got != *v {
                fail!(
                    "wrong-value",
                    "value {} is reconstructed as {} instead of {} from {} shares with threshold {} of {}",
                    k,
                    got,
                    v,
                    m,
                    t,
                    n
                );
            }
        }
        count("work:values", values.len() as u64);
        ev!("end of run");
    }
}

fn harness_bug_fuel() -> ! {
    crate::harness_bug!("the holders do not come to rest")
}

fn reconstruct<F: Fld>(r: &Reader<F>, i: usize, t: usize, n: usize, values: &[BigUint], late: bool) {
    let shares: Vec<(usize, F)> = r.got.iter().map(|g| g.1.clone()).collect();
    let got = Plain::<F>::reconstruct_secret(&shares, t).as_uint();
    check_done(1);
    if shares.len() < n {
        nontrivial();
    }
    if shares.len() > t {
        count("probe:more-shares-than-needed", 1);
    }
    if late {
        count("probe:reader-with-fewer-shares-than-wanted", 1);
    }
    if got != values[r.slot] {
        fail!(
            "wrong-value",
            "reader {} reconstructs value {} as {} instead of {} from the shares of holders {:?} with threshold {} of {}",
            i,
            r.slot,
            got,
            values[r.slot],
            r.got.iter().map(|g| g.0).collect::<Vec<_>>(),
            t,
            n
        );
    }
    ev!(
        "reader {} gets value {} from holders {:?}: {}",
        i,
        r.slot,
        r.got.iter().map(|g| g.0).collect::<Vec<_>>(),
        got
    );
}

pub struct Storage;

impl Scenario for Storage {
    fn id(&self) -> &'static str {
        "S01"
    }

    fn meta(&self) -> Meta {
        Meta {
            rule: "one run = secrets dealt t-of-n to holders that apply a log of linear operations at their own pace and crash, restart or \
                   vanish (at most n-t), with readers reconstructing from the first m >= t answers; non-trivial if a reader used fewer than all shares",
            sig_measure: "hash of the sequence of (reader, holder) over all answers used",
            real: &["jester_sharing Shamir scheme and share-wise linear operations", "jester_maths fields"],
            stubs: &["network: discrete-event queue with virtual time", "holder storage: durable and volatile maps"],
            faults: &["permanent-loss", "crash-restart", "reorder", "duplicate", "resend"],
            assumptions: &["readers hand distinct shares to reconstruction"],
            time_unit: "network ticks",
        }
    }

    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 40_000,
            Tier::Thorough => 1_500_000,
        }
    }

    fn wall_limit(&self, _plan: &Plan) -> u64 {
        60
    }

    fn pinned(&self) -> &'static [&'static str] {
        &["field"]
    }

    fn generate(&self, r: &mut Rng, index: u64, _tier: Tier, p: &mut Plan) {
        let mut f = r.range(0, fields::NAMES.len() as i64 - 1);
        if (11..=13).contains(&f) && !r.chance(1, 10) {
            f = r.range(3, 10);
        }
        let wide = index % 211 == 5;
        let n = match r.below(10) {
            0 => 2,
            1 | 2 => r.range(2, 5),
            3 | 4 | 5 => r.range(3, 9),
            6 | 7 => r.range(5, 17),
            8 => r.range(10, 24),
            _ => r.range(16, 42),
        };
        let n = if wide && ![0, 1, 2].contains(&f) { *r.pick(&[64i64, 100, 250, 300, 1000]) } else { n };
        let n = if wide && (11..=13).contains(&f) { 64 } else { n };
        let t = match r.below(5) {
            0 => 2,
            1 => n,
            2 => n / 2 + 1,
            _ => r.range(2, n),
        };
        let t = if wide { *r.pick(&[2, 3, 8, 20, 40]) } else { t.max(2) };
        p.set("field", f);
        p.set("n", n);
        p.set("t", t);
        p.set("delay", *r.pick(&[0i64, 3, 20, 100]));
        let len = if wide { 4 } else { *r.pick(&[2i64, 5, 10, 20, 40]) };
        let faulty = *r.pick(&[0u64, 10, 30]);
        let gap = *r.pick(&[0i64, 3, 30]);
        p.step("deal", &[0, r.range(0, 6)]);
        for _ in 0..len {
            let g = r.range(0, gap);
            if r.chance(faulty, 100) {
                p.step("crash", &[g, r.range(0, n - 1), if r.chance(1, 2) { 0 } else { r.range(1, 60) }]);
                continue;
            }
            let (a, b, s) = (r.range(0, 50), r.range(0, 50), r.range(0, 6));
            match r.below(9) {
                0 | 1 => p.step("deal", &[g, s]),
                2 => p.step("add", &[g, a, b]),
                3 => p.step("sub", &[g, a, b]),
                4 => p.step("adds", &[g, a, s]),
                5 => p.step("subs", &[g, a, s]),
                6 => p.step("muls", &[g, a, s]),
                7 => {
                    let mut v = vec![g];
                    let many = *r.pick(&[0i64, 0, 0, 0, 0, 0, 0, 15, 16, 17, 32, 64, 100, 257]);
                    for _ in 0..r.range(1, 6) + many {
                        v.push(r.range(0, 50));
                    }
                    p.step("sum", &v)
                }
                _ => p.step("read", &[g, a, r.range(0, n)]),
            }
        }
        if index % 1009 == 8 && ![0, 1, 2].contains(&f) {
            let n = *r.pick(&[250i64, 256, 257, 1000, 4097, 10_000, 32_769, 65_535, 65_536, 65_537, 70_000]);
            let n = if (11..=13).contains(&f) { n.min(2000) } else { n };
            p.step("vast", &[0, n, r.range(2, 5), r.range(0, 6)]);
        }
        for _ in 0..r.range(1, 3) {
            p.step("read", &[r.range(0, gap), r.range(0, 50), r.range(0, n)]);
        }
    }

    fn execute(&self, plan: &Plan) {
        let field = plan.clamp("field", 0, fields::NAMES.len() as i64 - 1) as usize;
        fields::dispatch(field, Run { plan, field });
    }
}
