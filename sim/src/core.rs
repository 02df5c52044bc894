//! Simulation core: the seeded PRNG, the plan (configuration, steps and schedule tape) that determines a run
//! completely, and the per-run environment (virtual time, event trace, counters, violations).

use std::cell::RefCell;
use std::collections::BTreeMap;

// ---------------------------------------------------------------------------------------------------------------
// PRNG

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) ^ 0xD1B5_4A32_D192_ED03;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(init: u64, bytes: &[u8]) -> u64 {
    let mut h = init ^ 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    mix(h, bytes.len() as u64)
}

/// xoshiro256** seeded through splitmix64.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

/// `n` bytes of a given style: random, constant, or with zeros at either end.
pub fn styled(r: &mut Rng, n: usize, style: i64) -> Vec<u8> {
    let mut v = r.bytes(n);
    match style {
        1 => v.iter_mut().for_each(|b| *b = 0),
        2 => v.iter_mut().for_each(|b| *b = 0xff),
        3 => {
            let k = r.below(n as u64 + 1) as usize;
            v[k..].iter_mut().for_each(|b| *b = 0)
        }
        4 => {
            let k = r.below(n as u64 + 1) as usize;
            v[..k].iter_mut().for_each(|b| *b = 0)
        }
        5 => {
            let c = *r.pick(&[0x36u8, 0x5c, 0x80, 1, 0x0a, 0x20]);
            v.iter_mut().for_each(|b| *b = c)
        }
        6 => v.iter_mut().for_each(|b| *b &= 0x81),
        _ => {}
    }
    v
}

/// Styles for `styled`, mostly random bytes.
pub fn pick_style(r: &mut Rng) -> i64 {
    if r.chance(2, 3) {
        0
    } else {
        r.range(1, 6)
    }
}

/// A length next to a limit an implementation may have.
pub fn odd_len(r: &mut Rng, max: i64) -> i64 {
    (*r.pick(&[255i64, 256, 511, 512, 1000, 1024, 2048, 4096, 8192, 16_384, 32_768, 65_535, 65_536]) + r.range(-1, 2)).min(max)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0u64; 4];
        let mut x = seed;
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *v = mix(x, 0x5eed);
        }
        if s == [0; 4] {
            s[0] = 1;
        }
        Rng { s }
    }

    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in `0..n` (`n > 0`).
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
    }

    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n + 8);
        while out.len() < n {
            out.extend_from_slice(&self.next().to_le_bytes());
        }
        out.truncate(n);
        out
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

/// The random number generator handed to the code under test: every draw comes from the simulator's PRNG and is
/// recorded, so that a scheme can tell whether the generator it is given is the supplied one.
pub struct SimRng {
    pub rng: Rng,
}

impl SimRng {
    pub fn new(seed: u64) -> Self {
        SimRng { rng: Rng::new(seed) }
    }
}

thread_local! {
    static DRAWS: std::cell::Cell<(u64, u64)> = std::cell::Cell::new((0, 0));
}

/// Number of 64-bit draws made from any `SimRng` so far, and the last value drawn.
pub fn sim_rng_draws() -> (u64, u64) {
    DRAWS.with(|d| d.get())
}

impl rand::RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }

    fn next_u64(&mut self) -> u64 {
        let v = self.rng.next();
        DRAWS.with(|d| d.set((d.get().0 + 1, v)));
        v
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            chunk.copy_from_slice(&v[..chunk.len()]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl rand::CryptoRng for SimRng {}

// ---------------------------------------------------------------------------------------------------------------
// Plans

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub op: String,
    pub a: Vec<i64>,
}

impl Step {
    pub fn new(op: &str, a: &[i64]) -> Self {
        Step {
            op: op.to_string(),
            a: a.to_vec(),
        }
    }

    /// Argument `i`, zero if absent.
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }

    /// Argument `i` reduced into `0..n`.
    pub fn idx(&self, i: usize, n: usize) -> usize {
        (self.arg(i).unsigned_abs() % n.max(1) as u64) as usize
    }
}

/// Everything that determines a run: configuration, steps (workload and faults) and the tape of scheduling decisions.
/// Interpretation is total: any plan can be executed, which lets the minimiser drop and shrink freely.
#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, i64>,
    pub steps: Vec<Step>,
    pub tape: Vec<u32>,
    /// whether decisions beyond the tape's end are drawn from the PRNG (original run) or are zero (replays)
    pub open_ended: bool,
}

impl Plan {
    pub fn new(prop: &str, seed: u64) -> Self {
        Plan {
            prop: prop.to_string(),
            seed,
            cfg: BTreeMap::new(),
            steps: vec![],
            tape: vec![],
            open_ended: true,
        }
    }

    pub fn set(&mut self, key: &str, v: i64) {
        self.cfg.insert(key.to_string(), v);
    }

    pub fn get(&self, key: &str) -> i64 {
        self.cfg.get(key).copied().unwrap_or(0)
    }

    /// Configuration value clamped into `lo..=hi`.
    pub fn clamp(&self, key: &str, lo: i64, hi: i64) -> i64 {
        self.get(key).max(lo).min(hi)
    }

    pub fn step(&mut self, op: &str, a: &[i64]) {
        self.steps.push(Step::new(op, a));
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!("property={}\nseed={}\n", self.prop, self.seed));
        for (k, v) in &self.cfg {
            s.push_str(&format!("cfg {} {}\n", k, v));
        }
        for st in &self.steps {
            s.push_str(&format!(
                "step {}{}\n",
                st.op,
                st.a.iter().map(|v| format!(" {}", v)).collect::<String>()
            ));
        }
        if !self.tape.is_empty() {
            for chunk in self.tape.chunks(32) {
                s.push_str(&format!(
                    "tape{}\n",
                    chunk.iter().map(|v| format!(" {}", v)).collect::<String>()
                ));
            }
        }
        if self.open_ended {
            s.push_str("open_ended\n");
        }
        s
    }

    pub fn from_text(text: &str) -> Result<(Plan, BTreeMap<String, String>), String> {
        let mut p = Plan::new("", 0);
        p.open_ended = false;
        let mut expect = BTreeMap::new();
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            if let Some(v) = line.strip_prefix("property=") {
                p.prop = v.to_string();
            } else if let Some(v) = line.strip_prefix("seed=") {
                p.seed = v.parse().map_err(|_| "bad seed".to_string())?;
            } else if line == "open_ended" {
                p.open_ended = true;
            } else if let Some(v) = line.strip_prefix("expect ") {
                if let Some((a, b)) = v.split_once('=') {
                    expect.insert(a.to_string(), b.to_string());
                }
            } else {
                let mut it = line.split_whitespace();
                match it.next() {
                    Some("cfg") => {
                        let k = it.next().ok_or("cfg key")?.to_string();
                        let v = it.next().and_then(|v| v.parse().ok()).ok_or("cfg value")?;
                        p.cfg.insert(k, v);
                    }
                    Some("step") => {
                        let op = it.next().ok_or("step op")?;
                        let a: Result<Vec<i64>, _> = it.map(|v| v.parse()).collect();
                        p.steps.push(Step::new(op, &a.map_err(|_| "step arg".to_string())?));
                    }
                    Some("tape") => {
                        for v in it {
                            p.tape.push(v.parse().map_err(|_| "tape value".to_string())?);
                        }
                    }
                    _ => return Err(format!("cannot read line: {}", line)),
                }
            }
        }
        Ok((p, expect))
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Environment of the run

/// Payload of the panic that ends a run on a violation.
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub struct Env {
    pub verbose: bool,
    pub log: Vec<String>,
    pub trace: u64,
    pub sig: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub vtime: u64,
    pub checks: u64,
    pub nontrivial: bool,
    tape: Vec<u32>,
    tape_pos: usize,
    tape_rng: Option<Rng>,
    muted: u32,
}

impl Env {
    fn empty() -> Self {
        Env {
            verbose: false,
            log: vec![],
            trace: 0,
            sig: 0,
            counters: BTreeMap::new(),
            vtime: 0,
            checks: 0,
            nontrivial: false,
            tape: vec![],
            tape_pos: 0,
            tape_rng: None,
            muted: 0,
        }
    }
}

thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env::empty());
}

pub fn env_reset(plan: &Plan, verbose: bool) {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        *e = Env::empty();
        e.verbose = verbose;
        e.tape = plan.tape.clone();
        if plan.open_ended {
            e.tape_rng = Some(Rng::new(mix(plan.seed, 0x7a9e)));
        }
    });
}

pub fn env_take() -> Env {
    ENV.with(|e| std::mem::replace(&mut *e.borrow_mut(), Env::empty()))
}

/// Scheduling decision in `0..n`, where 0 is the unremarkable choice.
pub fn choose(n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        if e.muted > 0 {
            return 0;
        }
        let pos = e.tape_pos;
        e.tape_pos += 1;
        if pos >= e.tape.len() {
            let v = match e.tape_rng.as_mut() {
                Some(r) => r.next() as u32,
                None => 0,
            };
            if e.tape_rng.is_some() {
                e.tape.push(v);
            } else {
                return 0;
            }
        }
        u64::from(e.tape[pos]) % n
    })
}

/// While muted, every scheduling decision is 0 and the tape is not consumed.
pub fn mute_choices(on: bool) {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        if on {
            e.muted += 1
        } else {
            e.muted -= 1
        }
    })
}

pub fn tape_recorded(env: &Env) -> Vec<u32> {
    env.tape.clone()
}

pub fn log_event(text: std::fmt::Arguments<'_>) {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        let t = e.vtime;
        let s = format!("t={} {}", t, text);
        e.trace = hash_bytes(e.trace, s.as_bytes());
        if e.verbose {
            e.log.push(s);
        }
    })
}

#[macro_export]
macro_rules! ev {
    ($($arg:tt)*) => { $crate::core::log_event(format_args!($($arg)*)) }
}

/// Feed a scheduling event into the signature that tells distinct interleavings apart.
pub fn sig(v: u64) {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        e.sig = mix(e.sig.rotate_left(5), v);
    })
}

pub fn count(key: &'static str, n: u64) {
    ENV.with(|e| *e.borrow_mut().counters.entry(key).or_insert(0) += n)
}

pub fn check_done(n: u64) {
    ENV.with(|e| e.borrow_mut().checks += n)
}

pub fn nontrivial() {
    ENV.with(|e| e.borrow_mut().nontrivial = true)
}

pub fn set_vtime(t: u64) {
    ENV.with(|e| e.borrow_mut().vtime = t)
}

pub fn add_vtime(t: u64) {
    count("virtual_ticks", t)
}

pub fn fail(class: &str, msg: String) -> ! {
    log_event(format_args!("VIOLATION [{}] {}", class, msg));
    std::panic::panic_any(Violation {
        class: class.to_string(),
        msg,
    })
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => { $crate::core::fail($class, format!($($arg)*)) }
}

#[macro_export]
macro_rules! harness_bug {
    ($($arg:tt)*) => { panic!("HARNESS: {}", format!($($arg)*)) }
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len();
    let mut s: String = b.iter().take(48).map(|v| format!("{:02x}", v)).collect();
    if n > 48 {
        s.push_str(&format!("..({} bytes)", n));
    }
    s
}

// ---------------------------------------------------------------------------------------------------------------
// Scenarios

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Meta {
    pub rule: &'static str,
    pub sig_measure: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub faults: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub time_unit: &'static str,
}

pub trait Scenario: Sync {
    fn id(&self) -> &'static str;
    fn meta(&self) -> Meta;
    /// number of runs of a tier; fixed, so that a seed and a tier denote one exactly repeatable exploration
    fn runs(&self, tier: Tier) -> u64;
    /// generate the plan of run `index`
    fn generate(&self, rng: &mut Rng, index: u64, tier: Tier, plan: &mut Plan);
    /// execute a plan against the real code; violations leave through `fail!`
    fn execute(&self, plan: &Plan);
    /// configuration keys the minimiser must not touch
    fn pinned(&self) -> &'static [&'static str] {
        &[]
    }
    /// wall-clock limit of one run in seconds, only there to catch code that really hangs
    fn wall_limit(&self, _plan: &Plan) -> u64 {
        60
    }
}

/// Scheduling decisions taken so far in this run.
pub fn tape_len() -> usize {
    ENV.with(|e| e.borrow().tape_pos)
}
