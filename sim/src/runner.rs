//! Supervisor: forks worker processes which fork one process per run, gathers results, minimises the first violation,
//! writes the replay file and the evidence file.

use crate::core::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

// ---------------------------------------------------------------------------------------------------------------
// Seam: operating system randomness (hash map seeds) comes from the run's seed

static OS_RANDOM_STATE: AtomicU64 = AtomicU64::new(0x1234_5678);

pub fn seed_os_random(seed: u64) {
    OS_RANDOM_STATE.store(seed, Ordering::SeqCst);
}

/// Takes the place of libc's `getrandom`.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let s = OS_RANDOM_STATE.fetch_add(1, Ordering::SeqCst);
        unsafe { *buf.add(i) = mix(s, 0x05_0517) as u8 };
    }
    len as isize
}

// ---------------------------------------------------------------------------------------------------------------
// One run in a process of its own

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Ok,
    Violation { class: String, msg: String },
    Harness(String),
}

#[derive(Clone, Debug)]
pub struct RunResult {
    pub status: Status,
    pub trace: u64,
    pub sig: u64,
    pub vtime: u64,
    pub checks: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<String, u64>,
    pub tape: Vec<u32>,
    pub log: Vec<String>,
}

fn put(out: &mut String, key: &str, val: &str) {
    out.push_str(key);
    out.push('=');
    out.push_str(&val.replace('\\', "\\\\").replace('\n', "\\n"));
    out.push('\n');
}

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some(c) => out.push(c),
                None => {}
            }
        } else {
            out.push(c)
        }
    }
    out
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

fn child_main(scn: &dyn Scenario, plan: &Plan, verbose: bool, fd: i32, limit: u64) -> ! {
    unsafe {
        let cpu = libc::rlimit {
            rlim_cur: limit,
            rlim_max: limit + 5,
        };
        libc::setrlimit(libc::RLIMIT_CPU, &cpu);
        let mem = libc::rlimit {
            rlim_cur: 3 << 30,
            rlim_max: 3 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &mem);
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    seed_os_random(mix(plan.seed, 0x6e7));
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
    env_reset(plan, verbose);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scn.execute(plan)));
    let status = match r {
        Ok(()) => Status::Ok,
        Err(p) => {
            if let Some(v) = p.downcast_ref::<Violation>() {
                Status::Violation {
                    class: v.class.clone(),
                    msg: v.msg.clone(),
                }
            } else {
                let text = LAST_PANIC.with(|p| p.borrow().clone());
                if text.starts_with("HARNESS:") {
                    Status::Harness(text)
                } else {
                    log_event(format_args!("PANIC {}", text));
                    Status::Violation {
                        class: "panic".to_string(),
                        msg: format!("panicked: {}", text),
                    }
                }
            }
        }
    };
    let env = env_take();
    let mut out = String::new();
    match &status {
        Status::Ok => put(&mut out, "status", "ok"),
        Status::Violation { class, msg } => {
            put(&mut out, "status", "violation");
            put(&mut out, "class", class);
            put(&mut out, "msg", msg);
        }
        Status::Harness(m) => {
            put(&mut out, "status", "harness");
            put(&mut out, "msg", m);
        }
    }
    put(&mut out, "trace", &env.trace.to_string());
    put(&mut out, "sig", &env.sig.to_string());
    put(&mut out, "vtime", &env.vtime.to_string());
    put(&mut out, "checks", &env.checks.to_string());
    put(&mut out, "nontrivial", if env.nontrivial { "1" } else { "0" });
    for (k, v) in &env.counters {
        put(&mut out, "c", &format!("{} {}", k, v));
    }
    if status != Status::Ok {
        let t: Vec<String> = tape_recorded(&env).iter().map(|v| v.to_string()).collect();
        put(&mut out, "tape", &t.join(" "));
    }
    if verbose {
        for l in &env.log {
            put(&mut out, "log", l);
        }
    }
    put(&mut out, "end", "1");
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let _ = f.write_all(out.as_bytes());
    drop(f);
    unsafe { libc::_exit(0) }
}

/// Seconds that a process waits without any use of the processor before it counts as blocked for good: nothing in a
/// simulated run ever waits for real.
const BLOCKED: u64 = 20;

/// Processor time used by our child so far, and whether it sleeps.
fn progress_of(pid: i32) -> Option<(u64, bool)> {
    let text = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest: Vec<&str> = text[text.rfind(')')? + 1..].split_whitespace().collect();
    Some((rest.get(11)?.parse::<u64>().ok()? + rest.get(12)?.parse::<u64>().ok()?, *rest.first()? == "S"))
}

/// Read until end of file; `None` once the child is blocked, or at the deadline.
fn read_all_timeout(fd: i32, secs: u64, pid: i32) -> Option<Vec<u8>> {
    let start = Instant::now();
    let (mut used, mut since) = (0, Instant::now());
    let mut data = vec![];
    let mut buf = vec![0u8; 65536];
    loop {
        let left = (secs * 1000).saturating_sub(start.elapsed().as_millis() as u64);
        if left == 0 {
            return None;
        }
        let mut p = libc::pollfd {
            fd,
            events: libc::POLLIN,
            revents: 0,
        };
        let r = unsafe { libc::poll(&mut p, 1, left.min(1_000) as i32) };
        if r == 0 {
            match progress_of(pid) {
                Some((time, true)) if time == used => {
                    if since.elapsed().as_secs() >= BLOCKED {
                        return None;
                    }
                }
                Some((time, _)) => {
                    used = time;
                    since = Instant::now();
                }
                None => since = Instant::now(),
            }
            continue;
        }
        if r < 0 {
            continue;
        }
        let n = unsafe { libc::read(fd, buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
        if n <= 0 {
            return Some(data);
        }
        data.extend_from_slice(&buf[..n as usize]);
    }
}

pub fn run_child(scn: &dyn Scenario, plan: &Plan, verbose: bool) -> RunResult {
    run_child_limited(scn, plan, verbose, scn.wall_limit(plan))
}

/// `limit` bounds the processor time in seconds.
fn run_child_limited(scn: &dyn Scenario, plan: &Plan, verbose: bool, limit: u64) -> RunResult {
    let mut fds = [0i32; 2];
    if unsafe { libc::pipe(fds.as_mut_ptr()) } != 0 {
        panic!("HARNESS: pipe failed");
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        panic!("HARNESS: fork failed");
    }
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        child_main(scn, plan, verbose, fds[1], limit);
    }
    unsafe { libc::close(fds[1]) };
    let data = read_all_timeout(fds[0], 4 * limit + 60, pid);
    let timed_out = data.is_none();
    if timed_out {
        unsafe { libc::kill(pid, libc::SIGKILL) };
    }
    unsafe { libc::close(fds[0]) };
    let mut st = 0i32;
    unsafe { libc::waitpid(pid, &mut st, 0) };

    let mut r = RunResult {
        status: Status::Ok,
        trace: 0,
        sig: 0,
        vtime: 0,
        checks: 0,
        nontrivial: false,
        counters: BTreeMap::new(),
        tape: plan.tape.clone(),
        log: vec![],
    };
    let text = String::from_utf8_lossy(&data.unwrap_or_default()).to_string();
    let (mut status, mut class, mut msg, mut ended) = (String::new(), String::new(), String::new(), false);
    for line in text.lines() {
        if let Some((k, v)) = line.split_once('=') {
            let v = unescape(v);
            match k {
                "status" => status = v,
                "class" => class = v,
                "msg" => msg = v,
                "trace" => r.trace = v.parse().unwrap_or(0),
                "sig" => r.sig = v.parse().unwrap_or(0),
                "vtime" => r.vtime = v.parse().unwrap_or(0),
                "checks" => r.checks = v.parse().unwrap_or(0),
                "nontrivial" => r.nontrivial = v == "1",
                "c" => {
                    if let Some((a, b)) = v.rsplit_once(' ') {
                        r.counters.insert(a.to_string(), b.parse().unwrap_or(0));
                    }
                }
                "tape" => r.tape = v.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect(),
                "log" => r.log.push(v),
                "end" => ended = true,
                _ => {}
            }
        }
    }
    r.status = if !ended {
        let (class, what) = if timed_out {
            ("hang", "the run never ended (blocked)".to_string())
        } else if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            if s == libc::SIGXCPU || s == libc::SIGKILL {
                ("hang", "the run never ended (processor time exhausted)".to_string())
            } else {
                ("crash", format!("the process died by signal {}", s))
            }
        } else {
            ("crash", format!("the process exited with status {}", st))
        };
        Status::Violation {
            class: class.to_string(),
            msg: what,
        }
    } else {
        match status.as_str() {
            "ok" => Status::Ok,
            "violation" => Status::Violation { class, msg },
            _ => Status::Harness(msg),
        }
    };
    r
}

// ---------------------------------------------------------------------------------------------------------------
// Batches

fn prop_hash(id: &str) -> u64 {
    hash_bytes(0, id.as_bytes())
}

pub fn plan_for(scn: &dyn Scenario, seed: u64, index: u64, tier: Tier) -> Plan {
    let run_seed = mix(mix(seed, prop_hash(scn.id())), index);
    let mut plan = Plan::new(scn.id(), run_seed);
    let mut rng = Rng::new(mix(run_seed, 0x9e4));
    scn.generate(&mut rng, index, tier, &mut plan);
    plan
}

#[derive(Default)]
pub struct Agg {
    pub runs: u64,
    pub checks: u64,
    pub vtime: u64,
    pub nontrivial: u64,
    pub counters: BTreeMap<String, u64>,
    pub sigs: BTreeSet<u64>,
    pub nontrivial_sigs: BTreeSet<u64>,
    pub violation: Option<(u64, String, String, Vec<u32>)>,
    pub known: BTreeMap<String, u64>,
    pub harness: Option<String>,
    pub traces: Vec<(u64, u64)>,
}

pub struct Known {
    pub prop: String,
    pub class: String,
    pub contains: String,
    pub text: String,
}

/// `finding: property=<id> class=<class> contains=<text> :: <description>`; `fixed:` lines suppress nothing.
pub fn load_known(path: &str) -> Vec<Known> {
    let mut out = vec![];
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            let (head, text) = rest.split_once(" :: ").unwrap_or((rest, ""));
            let field = |name: &str| -> String {
                head.split_whitespace()
                    .find_map(|w| w.strip_prefix(name).map(|v| v.to_string()))
                    .unwrap_or_default()
            };
            out.push(Known {
                prop: field("property="),
                class: field("class="),
                contains: field("contains="),
                text: text.to_string(),
            });
        }
    }
    out
}

fn is_known<'a>(known: &'a [Known], prop: &str, class: &str, msg: &str) -> Option<&'a Known> {
    known
        .iter()
        .find(|k| k.prop == prop && k.class == class && msg.contains(k.contains.as_str()))
}

fn worker(
    scn: &dyn Scenario,
    seed: u64,
    tier: Tier,
    to: u64,
    next: &AtomicU64,
    min_bad: &AtomicU64,
    known: &[Known],
    fd: i32,
    keep_traces: bool,
) -> ! {
    let mut a = Agg::default();
    let slow = std::env::var("DST_SLOW").ok().and_then(|v| v.parse::<u128>().ok());
    loop {
        // runs are handed out in ascending order, so every run before a violation is completed
        let i = next.fetch_add(1, Ordering::SeqCst);
        if i >= to || i > min_bad.load(Ordering::SeqCst) {
            break;
        }
        let plan = plan_for(scn, seed, i, tier);
        let began = Instant::now();
        let mut r = run_child(scn, &plan, false);
        if matches!(&r.status, Status::Violation { class, .. } if class == "hang") {
            // only slow on a busy machine?
            r = run_child_limited(scn, &plan, false, 2 * scn.wall_limit(&plan));
        }
        if slow.map(|s| began.elapsed().as_millis() > s).unwrap_or(false) {
            eprintln!("run {} took {} ms", i, began.elapsed().as_millis());
        }
        a.runs += 1;
        a.checks += r.checks;
        a.vtime += r.vtime;
        for (k, v) in &r.counters {
            *a.counters.entry(k.clone()).or_insert(0) += v;
        }
        a.sigs.insert(r.sig);
        if r.nontrivial {
            a.nontrivial += 1;
            a.nontrivial_sigs.insert(r.sig);
        }
        if keep_traces {
            a.traces.push((i, r.trace));
        }
        match r.status {
            Status::Ok => {}
            Status::Violation { class, msg } => {
                if let Some(k) = is_known(known, scn.id(), &class, &msg) {
                    *a.known.entry(k.text.clone()).or_insert(0) += 1;
                } else {
                    min_bad.fetch_min(i, Ordering::SeqCst);
                    a.violation = Some((i, class, msg, r.tape));
                    break;
                }
            }
            Status::Harness(m) => {
                a.harness = Some(format!("run {}: {}", i, m));
                min_bad.fetch_min(i, Ordering::SeqCst);
                break;
            }
        }
    }
    let mut out = String::new();
    put(&mut out, "runs", &a.runs.to_string());
    put(&mut out, "checks", &a.checks.to_string());
    put(&mut out, "vtime", &a.vtime.to_string());
    put(&mut out, "nontrivial", &a.nontrivial.to_string());
    for (k, v) in &a.counters {
        put(&mut out, "c", &format!("{} {}", k, v));
    }
    for s in &a.sigs {
        put(&mut out, "s", &format!("{} {}", s, a.nontrivial_sigs.contains(s) as u8));
    }
    for (k, v) in &a.known {
        put(&mut out, "known", &format!("{} {}", v, k));
    }
    for (i, t) in &a.traces {
        put(&mut out, "t", &format!("{} {}", i, t));
    }
    if let Some((i, class, msg, tape)) = &a.violation {
        put(&mut out, "vi", &i.to_string());
        put(&mut out, "vc", class);
        put(&mut out, "vm", msg);
        let t: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
        put(&mut out, "vt", &t.join(" "));
    }
    if let Some(h) = &a.harness {
        put(&mut out, "harness", h);
    }
    put(&mut out, "end", "1");
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let _ = f.write_all(out.as_bytes());
    drop(f);
    unsafe { libc::_exit(0) }
}

pub fn workers() -> u64 {
    std::env::var("DST_WORKERS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4))
        .max(1)
}

pub fn batch(
    scn: &dyn Scenario,
    seed: u64,
    tier: Tier,
    from: u64,
    to: u64,
    known: &[Known],
    keep_traces: bool,
) -> Agg {
    let n = workers();
    let shared = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        )
    };
    if shared == libc::MAP_FAILED {
        panic!("HARNESS: mmap failed");
    }
    let min_bad: &AtomicU64 = unsafe { &*(shared as *const AtomicU64) };
    min_bad.store(u64::MAX, Ordering::SeqCst);
    let next: &AtomicU64 = unsafe { &*((shared as *const AtomicU64).add(8)) };
    next.store(from, Ordering::SeqCst);
    let mut handles = vec![];
    for _ in 0..n {
        let mut fds = [0i32; 2];
        if unsafe { libc::pipe(fds.as_mut_ptr()) } != 0 {
            panic!("HARNESS: pipe failed");
        }
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            panic!("HARNESS: fork failed");
        }
        if pid == 0 {
            unsafe { libc::close(fds[0]) };
            worker(scn, seed, tier, to, next, min_bad, known, fds[1], keep_traces);
        }
        unsafe { libc::close(fds[1]) };
        handles.push((pid, fds[0]));
    }
    let mut a = Agg::default();
    for (pid, fd) in handles {
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let mut data = vec![];
        let _ = f.read_to_end(&mut data);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let mut ended = false;
        let mut viol: (u64, String, String, Vec<u32>) = (u64::MAX, String::new(), String::new(), vec![]);
        for line in String::from_utf8_lossy(&data).lines() {
            if let Some((k, v)) = line.split_once('=') {
                let v = unescape(v);
                let two = |v: &str| -> (String, u64) {
                    v.rsplit_once(' ')
                        .map(|(a, b)| (a.to_string(), b.parse().unwrap_or(0)))
                        .unwrap_or_default()
                };
                match k {
                    "runs" => a.runs += v.parse::<u64>().unwrap_or(0),
                    "checks" => a.checks += v.parse::<u64>().unwrap_or(0),
                    "vtime" => a.vtime += v.parse::<u64>().unwrap_or(0),
                    "nontrivial" => a.nontrivial += v.parse::<u64>().unwrap_or(0),
                    "c" => {
                        let (x, y) = two(&v);
                        *a.counters.entry(x).or_insert(0) += y;
                    }
                    "s" => {
                        let (x, y) = two(&v);
                        let s = x.parse().unwrap_or(0);
                        a.sigs.insert(s);
                        if y == 1 {
                            a.nontrivial_sigs.insert(s);
                        }
                    }
                    "t" => {
                        let (x, y) = two(&v);
                        a.traces.push((x.parse().unwrap_or(0), y));
                    }
                    "known" => {
                        if let Some((x, y)) = v.split_once(' ') {
                            *a.known.entry(y.to_string()).or_insert(0) += x.parse::<u64>().unwrap_or(0);
                        }
                    }
                    "vi" => viol.0 = v.parse().unwrap_or(0),
                    "vc" => viol.1 = v,
                    "vm" => viol.2 = v,
                    "vt" => viol.3 = v.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect(),
                    "harness" => a.harness = Some(v),
                    "end" => ended = true,
                    _ => {}
                }
            }
        }
        if !ended {
            a.harness = Some("a worker process died".to_string());
        }
        if viol.0 != u64::MAX && a.violation.as_ref().map(|b| viol.0 < b.0).unwrap_or(true) {
            a.violation = Some(viol);
        }
    }
    unsafe { libc::munmap(shared, 4096) };
    a.traces.sort();
    a
}

// ---------------------------------------------------------------------------------------------------------------
// Minimisation

struct Mini<'a> {
    scn: &'a dyn Scenario,
    class: String,
    tries: u32,
    limit: u32,
    start: Instant,
}

impl<'a> Mini<'a> {
    fn fails(&mut self, p: &Plan) -> bool {
        if self.spent() {
            return false;
        }
        self.tries += 1;
        matches!(run_child(self.scn, p, false).status, Status::Violation { ref class, .. } if *class == self.class)
    }

    fn spent(&self) -> bool {
        self.tries >= self.limit || self.start.elapsed().as_secs() > 90
    }
}

fn minimise(scn: &dyn Scenario, plan: &Plan, class: &str) -> (Plan, u32) {
    let mut m = Mini {
        scn,
        class: class.to_string(),
        tries: 0,
        limit: 4000,
        start: Instant::now(),
    };
    let mut best = plan.clone();
    loop {
        let before = best.to_text();
        // steps, in chunks of decreasing size
        let mut size = (best.steps.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.steps.len() {
                let mut c = best.clone();
                let end = (at + size).min(c.steps.len());
                c.steps.drain(at..end);
                if m.fails(&c) {
                    best = c;
                } else {
                    at += size;
                }
            }
            if size == 1 || m.spent() {
                break;
            }
            size /= 2;
        }
        // tape: empty, shorter, zeroed
        if !best.tape.is_empty() {
            let mut c = best.clone();
            c.tape.clear();
            if m.fails(&c) {
                best = c;
            }
        }
        let mut cut = best.tape.len() / 2;
        while cut > 0 && !m.spent() {
            if best.tape.len() > cut {
                let mut c = best.clone();
                c.tape.truncate(best.tape.len() - cut);
                if m.fails(&c) {
                    best = c;
                    continue;
                }
            }
            cut /= 2;
        }
        let mut size = best.tape.len().max(1) / 2;
        while size > 0 && !m.spent() {
            let mut at = 0;
            while at < best.tape.len() {
                let end = (at + size).min(best.tape.len());
                if best.tape[at..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c.tape[at..end] {
                        *v = 0;
                    }
                    if m.fails(&c) {
                        best = c;
                    }
                }
                at += size;
            }
            size /= 2;
        }
        while best.tape.last() == Some(&0) {
            best.tape.pop();
        }
        // configuration
        let keys: Vec<String> = best.cfg.keys().cloned().collect();
        for k in keys {
            if scn.pinned().contains(&k.as_str()) {
                continue;
            }
            loop {
                let v = best.get(&k);
                let mut done = true;
                for cand in [0, 1, v / 2, v - 1] {
                    if cand >= v || cand < 0 || m.spent() {
                        continue;
                    }
                    let mut c = best.clone();
                    c.set(&k, cand);
                    if m.fails(&c) {
                        best = c;
                        done = false;
                        break;
                    }
                }
                if done {
                    break;
                }
            }
        }
        // step arguments
        for i in 0..best.steps.len() {
            for j in 0..best.steps[i].a.len() {
                loop {
                    let v = best.steps[i].a[j];
                    let mut done = true;
                    for cand in [0, 1, v / 2, v - 1] {
                        if cand >= v || cand < 0 || m.spent() {
                            continue;
                        }
                        let mut c = best.clone();
                        c.steps[i].a[j] = cand;
                        if m.fails(&c) {
                            best = c;
                            done = false;
                            break;
                        }
                    }
                    if done {
                        break;
                    }
                }
            }
        }
        if m.spent() || best.to_text() == before {
            break;
        }
    }
    (best, m.tries)
}

// ---------------------------------------------------------------------------------------------------------------
// Commands

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_list(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}

fn json_map(v: &BTreeMap<String, u64>, prefix: &str) -> String {
    let items: Vec<String> = v
        .iter()
        .filter(|(k, _)| k.starts_with(prefix))
        .map(|(k, n)| format!("{}: {}", json_str(&k[prefix.len()..]), n))
        .collect();
    format!("{{{}}}", items.join(", "))
}

fn write_replay(path: &str, plan: &Plan, r: &RunResult, header: &str) {
    let (class, msg) = match &r.status {
        Status::Violation { class, msg } => (class.clone(), msg.clone()),
        _ => (String::new(), String::new()),
    };
    let mut s = String::from("# jester_dst replay file, run with: /verif/check.sh --replay <this file>\n");
    s.push_str(header);
    s.push_str(&plan.to_text());
    s.push_str(&format!("expect class={}\nexpect trace={}\n", class, r.trace));
    s.push_str(&format!("# violation: {}\n# trace of the run:\n", msg.replace('\n', " ")));
    let skip = r.log.len().saturating_sub(400);
    if skip > 0 {
        s.push_str(&format!("#   ... {} earlier events left out\n", skip));
    }
    for l in &r.log[skip..] {
        s.push_str(&format!("#   {}\n", l.replace('\n', " ")));
    }
    let _ = std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap());
    if std::fs::write(path, s).is_err() {
        panic!("HARNESS: cannot write {}", path);
    }
}

/// Replay a file; returns the process exit status.
pub fn replay(scns: &[Box<dyn Scenario>], path: &str, quiet: bool) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let (plan, expect) = match Plan::from_text(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let scn = match scns.iter().find(|s| s.id() == plan.prop) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", plan.prop);
            return 2;
        }
    };
    let r = run_child(scn.as_ref(), &plan, true);
    if !quiet {
        for l in &r.log {
            println!("  {}", l);
        }
    }
    match &r.status {
        Status::Ok => {
            println!("replay {}: the property held", path);
            0
        }
        Status::Violation { class, msg } => {
            let same_class = expect.get("class").map(|c| c == class).unwrap_or(true);
            let same_trace = expect.get("trace").map(|t| *t == r.trace.to_string()).unwrap_or(true);
            println!(
                "replay {}: violation class={} ({}), trace {}",
                path,
                class,
                if same_class { "as recorded" } else { "OTHER than recorded" },
                if same_trace { "identical" } else { "different" }
            );
            println!("  {}", msg);
            println!("VIOLATION property={} replay={}", plan.prop, path);
            if same_class && same_trace {
                1
            } else {
                3
            }
        }
        Status::Harness(m) => {
            eprintln!("{}", m);
            2
        }
    }
}

pub fn traces(scn: &dyn Scenario, seed: u64, tier: Tier, from: u64, to: u64) -> i32 {
    let a = batch(scn, seed, tier, from, to, &[], true);
    for (i, t) in &a.traces {
        println!("{} {} {:016x}", scn.id(), i, t);
    }
    if let Some(h) = &a.harness {
        eprintln!("harness error: {}", h);
        return 2;
    }
    if let Some((i, c, m, _)) = &a.violation {
        println!("violation at {}: {} {}", i, c, m);
    }
    0
}

pub fn check(scn: &dyn Scenario, seed: u64, tier: Tier, verif: &str) -> i32 {
    let start = Instant::now();
    let known = load_known(&format!("{}/known_findings.txt", verif));
    let total = std::env::var("DST_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| scn.runs(tier));
    println!(
        "{}: seed {} tier {} runs {} workers {}",
        scn.id(),
        seed,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        total,
        workers()
    );
    let a = batch(scn, seed, tier, 0, total, &known, false);
    let search_s = start.elapsed().as_secs_f64();
    if let Some(h) = &a.harness {
        eprintln!("harness error: {}", h);
        return 2;
    }
    let mut violations = 0;
    let mut code = 0;
    let mut replay_path = String::new();
    if let Some((index, class, msg, tape)) = &a.violation {
        violations = 1;
        let mut plan = plan_for(scn, seed, *index, tier);
        plan.tape = tape.clone();
        plan.open_ended = false;
        replay_path = format!("{}/replays/{}-seed{}-run{}.replay", verif, scn.id(), seed, index);
        println!("violation in run {} (class {}): {}", index, class, msg);
        let original = run_child(scn, &plan, true);
        let same = |r: &RunResult| matches!(&r.status, Status::Violation { class: c, .. } if c == class);
        if !same(&original) {
            // a hang or crash leaves no tape: fall back to the open-ended plan
            plan = plan_for(scn, seed, *index, tier);
        }
        let (mini, tries) = minimise(scn, &plan, class);
        let mut chosen = mini;
        let mut r = run_child(scn, &chosen, true);
        if !same(&r) {
            chosen = plan.clone();
            r = run_child(scn, &chosen, true);
        }
        if !same(&r) {
            eprintln!("harness error: the violation of run {} does not reproduce", index);
            return 2;
        }
        let header = format!(
            "# found by: VERIF_SEED={} run {} of {}; minimised from {} steps and {} scheduling decisions to {} and {} in {} runs\n",
            seed, index, total, plan.steps.len(), plan.tape.len(), chosen.steps.len(), chosen.tape.len(), tries
        );
        write_replay(&replay_path, &chosen, &r, &header);
        // prove that the file reproduces the violation in a fresh process
        let exe = std::env::current_exe().unwrap();
        let st = std::process::Command::new(exe)
            .args(["replay", &replay_path, "--quiet"])
            .output();
        match st {
            Ok(o) if o.status.code() == Some(1) => {}
            other => {
                eprintln!(
                    "harness error: replaying {} in a fresh process does not reproduce: {:?}",
                    replay_path,
                    other.map(|o| (o.status.code(), String::from_utf8_lossy(&o.stdout).to_string()))
                );
                return 2;
            }
        }
        if let Status::Violation { class, msg } = &r.status {
            println!("minimised: class {}: {}", class, msg);
        }
        code = 1;
    }
    for k in &known {
        if k.prop == scn.id() {
            println!("KNOWN-FINDING: property={} {}", scn.id(), k.text);
        }
    }
    // evidence
    let meta = scn.meta();
    let mut samples = vec![];
    for i in 0..total.min(2) {
        let plan = plan_for(scn, seed, i, tier);
        let mut r = run_child(scn, &plan, true);
        let mut text = plan.to_text();
        if text.len() > 2500 {
            let mut cut = 2500;
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            text.truncate(cut);
            text.push_str("...");
        }
        r.log.truncate(25);
        for l in r.log.iter_mut() {
            if l.len() > 200 {
                let mut cut = 200;
                while !l.is_char_boundary(cut) {
                    cut -= 1;
                }
                l.truncate(cut);
            }
        }
        samples.push(format!(
            "{{\"run\": {}, \"plan\": {}, \"first_events\": [{}]}}",
            i,
            json_str(&text),
            r.log.iter().map(|l| json_str(l)).collect::<Vec<_>>().join(", ")
        ));
    }
    let wall = start.elapsed().as_secs_f64();
    let virtual_ticks = a.vtime + a.counters.get("virtual_ticks").copied().unwrap_or(0);
    let unfired: Vec<String> = meta
        .faults
        .iter()
        .filter(|f| a.counters.get(&format!("fault:{}", f)).copied().unwrap_or(0) == 0)
        .map(|f| json_str(f))
        .collect();
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \
         \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"simulated_runs_and_seeds_per_hour\": {:.0},\n    \
         \"oracle_checks\": {},\n    \"nontrivial_runs\": {},\n    \"simulated_time\": {},\n    \
         \"simulated_time_unit\": {},\n    \"faults_injected\": {},\n    \"fault_kinds_that_never_fired\": [{}],\n    \
         \"probes\": {},\n    \"work\": {},\n    \"distinct_interleavings\": {},\n    \"interleaving_measure\": {},\n    \
         \"components_real\": {},\n    \"components_stubbed\": {},\n    \"workers\": {},\n    \"known_findings_hit\": {},\n    \
         \"samples\": [{}]\n  }},\n  \"assumptions\": {},\n  \"wall_s\": {:.2},\n  \"violations\": {}{}\n}}\n",
        json_str(scn.id()),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        a.runs,
        a.nontrivial_sigs.len(),
        json_str(meta.rule),
        a.runs as f64 / search_s.max(0.001) * 3600.0,
        a.checks,
        a.nontrivial,
        virtual_ticks,
        json_str(meta.time_unit),
        json_map(&a.counters, "fault:"),
        unfired.join(", "),
        json_map(&a.counters, "probe:"),
        json_map(&a.counters, "work:"),
        a.sigs.len(),
        json_str(meta.sig_measure),
        json_list(meta.real),
        json_list(meta.stubs),
        workers(),
        a.known.values().sum::<u64>(),
        samples.join(", "),
        json_list(meta.assumptions),
        wall,
        violations,
        if replay_path.is_empty() {
            String::new()
        } else {
            format!(",\n  \"replay\": {}", json_str(&replay_path))
        }
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    if std::fs::write(format!("{}/evidence/{}.json", verif, scn.id()), ev).is_err() {
        eprintln!("harness error: cannot write the evidence file");
        return 2;
    }
    println!(
        "{}: {} runs, {} oracle checks, {} distinct interleavings, {:.1} s",
        scn.id(),
        a.runs,
        a.checks,
        a.sigs.len(),
        wall
    );
    if code == 1 {
        println!("VIOLATION property={} replay={}", scn.id(), replay_path);
    }
    code
}
