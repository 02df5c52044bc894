//! H01: streaming sessions of the real hash functions, fed piece by piece by interleaved clients.
//! H02: a link authenticated with the real HMAC against a reference peer, with a corrupting network in between.

use crate::core::*;
use crate::realhash::*;
use crate::refcrypto::{self, Alg, Hasher};
use crate::{ev, fail};
use std::cmp::Reverse;
use std::collections::BinaryHeap;

fn pick_len(r: &mut Rng, pos: u64, block: u64) -> i64 {
    // pieces around block boundaries, relative to what the session has been fed already
    let to_edge = (block - pos % block) as i64;
    (match r.below(12) {
        0 => 0,
        1 => 1,
        2 => to_edge,
        3 => to_edge - 1,
        4 => to_edge + 1,
        5 => to_edge + block as i64 * r.range(0, 3),
        6 => to_edge + block as i64 * r.range(0, 3) + r.range(-9, 9),
        7 => block as i64,
        8 => block as i64 * r.range(1, 9),
        9 => r.range(0, 12),
        10 => r.range(0, 3 * block as i64),
        _ => r.range(0, block as i64),
    })
    .max(0)
}

fn pick_alg(r: &mut Rng) -> (i64, i64, i64) {
    let w = r.range(0, 3);
    let top = if w == 2 { 64 } else { 32 };
    let out = match r.below(4) {
        0 => top,
        1 => 1,
        _ => r.range(1, top),
    };
    let key = match r.below(4) {
        0 | 1 => 0,
        2 => top,
        _ => r.range(1, top),
    };
    (w, out, key)
}

// ---------------------------------------------------------------------------------------------------------------

pub struct Streams;

struct Session {
    alg: Alg,
    real: Stream,
    reference: Hasher,
    rng: Rng,
    style: i64,
    pos: u64,
    pieces: u64,
    whole: Option<Vec<u8>>,
    last_turn: u64,
}

impl Scenario for Streams {
    fn id(&self) -> &'static str {
        "H01"
    }

    fn meta(&self) -> Meta {
        Meta {
            rule: "one run = up to 8 hash computations in progress at once, fed piece by piece in an interleaving the seed decides, \
                   some abandoned; non-trivial if a computation was fed in more than one piece and other ones advanced in between",
            sig_measure: "hash of the sequence of (session, piece length, position in block) over all pieces",
            real: &["jester_hashes md5, sha1, blake2b, blake2s (streaming and one-shot interfaces)"],
            stubs: &["data sources: simulator PRNG"],
            faults: &["short-piece", "empty-piece", "abandoned", "long-stream"],
            assumptions: &["the reference implementations agree with the standards (tools/selftest.py compares them with hashlib)"],
            time_unit: "pieces fed",
        }
    }

    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 2_000_000,
        }
    }

    fn wall_limit(&self, plan: &Plan) -> u64 {
        if plan.steps.iter().any(|s| s.op == "long") {
            200
        } else {
            30
        }
    }

    fn generate(&self, r: &mut Rng, index: u64, tier: Tier, p: &mut Plan) {
        if index < 8 || (tier == Tier::Thorough && index < 60) {
            // streams beyond 2^32 bits and beyond 2^32 bytes
            let w = (index % 4) as i64;
            let (out, key) = if w == 2 { (r.range(1, 64), r.range(0, 64)) } else { (r.range(1, 32), r.range(0, 32)) };
            let edge: i64 = if index % 12 < 4 { 1 << 29 } else { 1 << 32 };
            let total = match index % 12 / 4 {
                2 => edge - r.range(0, 200),
                _ => edge + r.range(-100, 40_000_000),
            };
            p.step("long", &[w, out, key, r.range(0, 1 << 30), total, r.range(1 << 20, 40 << 20)]);
            return;
        }
        let n = r.range(1, 5);
        let mut open: Vec<(usize, u64, u64)> = vec![];
        let mut next = 0;
        let total = *r.pick(&[4i64, 12, 30, 80]);
        for _ in 0..total {
            if open.is_empty() || ((open.len() as i64) < n && r.chance(1, 4)) {
                let (w, out, key) = pick_alg(r);
                p.step("open", &[w, out, key, r.range(0, 1 << 40), pick_style(r)]);
                open.push((next, 0, if w == 2 { 128 } else { 64 }));
                next += 1;
                continue;
            }
            let i = r.below(open.len() as u64) as usize;
            if r.chance(1, 12) {
                p.step(if r.chance(1, 4) { "abandon" } else { "finish" }, &[open[i].0 as i64]);
                open.remove(i);
                continue;
            }
            let len = if r.chance(1, 150) { odd_len(r, 1 << 17) } else { pick_len(r, open[i].1, open[i].2) };
            p.step("feed", &[open[i].0 as i64, len, if r.chance(1, 2) { 0 } else { r.range(1, 15) }]);
            open[i].1 += len as u64;
        }
    }

    fn execute(&self, plan: &Plan) {
        let mut sessions: Vec<Option<Session>> = vec![];
        let mut turn = 0u64;
        let finish = |i: usize, s: Session| {
            let got = s.real.finish();
            let want = s.reference.finish();
            check_done(1);
            if got != want {
                fail!(
                    "wrong-digest",
                    "{} of {} bytes fed to session {} in {} pieces is {} instead of {}",
                    s.alg.text(),
                    s.pos,
                    i,
                    s.pieces,
                    hex(&got),
                    hex(&want)
                );
            }
            if let Some(w) = s.whole {
                let one = digest(&s.alg, &w);
                check_done(1);
                if one != want {
                    fail!(
                        "wrong-one-shot-digest",
                        "{} of {} bytes digested at once is {} instead of {}",
                        s.alg.text(),
                        s.pos,
                        hex(&one),
                        hex(&want)
                    );
                }
            }
            ev!("session {} ends after {} bytes: {}", i, s.pos, hex(&want));
        };
        for st in &plan.steps {
            turn += 1;
            set_vtime(turn);
            match st.op.as_str() {
                // alg outlen keylen dataseed style
                "open" => {
                    let alg = choose_alg(st.idx(0, 4), st.arg(1), st.arg(2), st.arg(3) as u64, 1);
                    ev!("session {} starts: {}", sessions.len(), alg.text());
                    sessions.push(Some(Session {
                        real: Stream::new(&alg),
                        reference: Hasher::new(&alg),
                        rng: Rng::new(mix(plan.seed, st.arg(3) as u64)),
                        alg,
                        style: st.arg(4),
                        pos: 0,
                        pieces: 0,
                        whole: Some(vec![]),
                        last_turn: turn,
                    }));
                }
                // session length offset-in-memory
                "feed" => {
                    let n = sessions.len();
                    let i = st.idx(0, n.max(1));
                    if let Some(Some(s)) = sessions.get_mut(i) {
                        let len = st.arg(1).max(0).min(1 << 20) as usize;
                        // the piece starts anywhere in memory
                        let off = st.arg(2).max(0).min(64) as usize;
                        let mut buffer = vec![0xA5; off];
                        buffer.extend(styled(&mut s.rng, len, s.style));
                        let data = &buffer[off..];
                        s.real.update(data);
                        s.reference.update(data);
                        if let Some(w) = s.whole.as_mut() {
                            w.extend_from_slice(data);
                        }
                        let block = s.alg.block() as u64;
                        sig(mix(i as u64 + 1, mix(len as u64, s.pos % block)));
                        if (s.pos + len as u64) % block == 0 {
                            count("probe:piece-ends-on-block-boundary", 1);
                        }
                        if len == 0 {
                            count("fault:empty-piece", 1);
                        } else if (len as u64) < block {
                            count("fault:short-piece", 1);
                        }
                        if s.pieces > 0 && s.last_turn + 1 < turn {
                            nontrivial();
                        }
                        s.pos += len as u64;
                        s.pieces += 1;
                        s.last_turn = turn;
                        count("work:bytes", len as u64);
                        ev!("session {} is fed {} bytes", i, len);
                    }
                }
                "finish" => {
                    let n = sessions.len();
                    let i = st.idx(0, n.max(1));
                    if let Some(s) = sessions.get_mut(i).and_then(|s| s.take()) {
                        finish(i, s);
                    }
                }
                "abandon" => {
                    let n = sessions.len();
                    let i = st.idx(0, n.max(1));
                    if let Some(s) = sessions.get_mut(i) {
                        *s = None;
                        count("fault:abandoned", 1);
                        ev!("session {} is abandoned", i);
                    }
                }
                // alg outlen keylen seed total chunk
                "long" => {
                    let alg = choose_alg(st.idx(0, 4), st.arg(1), st.arg(2), st.arg(3) as u64, 1);
                    let total = st.arg(4).max(0).min(1 << 33) as u64;
                    let chunk = st.arg(5).max(4096).min(64 << 20) as usize;
                    let mut r = Rng::new(mix(plan.seed, st.arg(3) as u64));
                    let data = r.bytes(chunk);
                    let mut real = Stream::new(&alg);
                    let mut reference = Hasher::new(&alg);
                    let mut pos = 0u64;
                    let mut pieces = 0;
                    while pos < total {
                        // the pieces start at changing offsets of one buffer, so the stream does not repeat
                        let off = r.below(chunk as u64 / 2) as usize;
                        let n = ((chunk - off) as u64).min(total - pos) as usize;
                        real.update(&data[off..off + n]);
                        reference.update(&data[off..off + n]);
                        pos += n as u64;
                        pieces += 1;
                    }
                    count("fault:long-stream", 1);
                    count("work:bytes", pos);
                    if pos * 8 >= 1 << 32 {
                        count("probe:beyond-2^32-bits", 1);
                    }
                    if pos >= 1 << 32 {
                        count("probe:beyond-2^32-bytes", 1);
                    }
                    ev!("{} of {} bytes", alg.text(), pos);
                    sig(mix(pos, 5));
                    let (got, want) = (real.finish(), reference.finish());
                    check_done(1);
                    nontrivial();
                    if got != want {
                        fail!(
                            "wrong-long-digest",
                            "{} of {} bytes fed in {} pieces is {} instead of {}",
                            alg.text(),
                            pos,
                            pieces,
                            hex(&got),
                            hex(&want)
                        );
                    }
                }
                _ => {}
            }
        }
        for i in 0..sessions.len() {
            if let Some(s) = sessions[i].take() {
                finish(i, s);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------

pub struct Link;

struct Packet {
    link: usize,
    body: Vec<u8>,
    tag: Vec<u8>,
    /// key the receiver uses
    key: Vec<u8>,
    altered: &'static str,
    to_real: bool,
    sent: usize,
}

impl Scenario for Link {
    fn id(&self) -> &'static str {
        "H02"
    }

    fn meta(&self) -> Meta {
        Meta {
            rule: "one run = up to 4 authenticated links (one hash function and key each) with the real HMAC at one end and the reference \
                   at the other, over a network that delays, duplicates, reorders and alters; non-trivial if an altered message was delivered",
            sig_measure: "hash of the sequence of (link, direction, alteration, body and key length classes) over all deliveries",
            real: &["jester_hashes hmac over md5, sha1, blake2b, blake2s"],
            stubs: &["network: discrete-event queue with virtual time", "peer: reference HMAC"],
            faults: &[
                "bit-flip-body",
                "bit-flip-code",
                "truncation",
                "extension",
                "splice",
                "code-truncation",
                "other-key",
                "duplicate",
                "reorder",
            ],
            assumptions: &[
                "the reference HMAC agrees with RFC 2104 (tools/selftest.py compares it with Python's)",
                "two keys that RFC 2104 maps to the same padded key authenticate alike",
            ],
            time_unit: "network ticks",
        }
    }

    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 60_000,
            Tier::Thorough => 3_000_000,
        }
    }

    fn generate(&self, r: &mut Rng, _index: u64, _tier: Tier, p: &mut Plan) {
        let links = r.range(1, 4);
        for _ in 0..links {
            let (w, out, key) = pick_alg(r);
            let block = if w == 2 { 128 } else { 64 };
            let k = match r.below(10) {
                0 => 0,
                1 => block,
                2 => block - 1,
                3 => block + 1,
                4 => *r.pick(&[8i64, 16, 20, 32, 64]),
                5 if r.chance(1, 6) => odd_len(r, 1 << 17),
                5 => block * r.range(2, 4) + r.range(-1, 1),
                6 => r.range(1, 16),
                7 => r.range(block, 4 * block),
                _ => r.range(1, block),
            };
            p.step("link", &[w, out, key, k, r.range(0, 1 << 40), pick_style(r)]);
        }
        let faulty = *r.pick(&[0u64, 20, 50, 80]);
        for _ in 0..*r.pick(&[4i64, 12, 30]) {
            let block = 64 * r.range(1, 2);
            let len = match r.below(8) {
                0 => 0,
                1 => block + r.range(-10, 2),
                2 => 2 * block + r.range(-10, 2),
                3 => block,
                4 => r.range(1, 10),
                5 if r.chance(1, 20) => odd_len(r, 1 << 17),
                _ => r.range(0, 300),
            };
            let fault = if r.chance(faulty, 100) { r.range(1, 7) } else { 0 };
            let dup = if r.chance(1, 6) { r.range(1, 30) } else { 0 };
            p.step(
                "send",
                &[
                    r.range(0, links - 1),
                    r.range(0, 1),
                    len,
                    r.range(0, 25),
                    fault,
                    r.range(0, 1 << 30),
                    dup,
                    pick_style(r),
                ],
            );
        }
    }

    fn execute(&self, plan: &Plan) {
        let mut links: Vec<(Alg, Vec<u8>)> = vec![];
        let mut queue: BinaryHeap<Reverse<(u64, u64, usize)>> = BinaryHeap::new();
        let mut packets: Vec<Packet> = vec![];
        let mut previous: Vec<Vec<u8>> = vec![];
        let mut now = 0u64;
        let mut seq = 0u64;
        for st in &plan.steps {
            match st.op.as_str() {
                // alg outlen hashkeylen keylen seed style
                "link" => {
                    // short codes collide by chance: at least 8 bytes
                    let alg = choose_alg(st.idx(0, 4), st.arg(1), st.arg(2), st.arg(4) as u64, 8);
                    let mut r = Rng::new(mix(plan.seed, st.arg(4) as u64));
                    let key = styled(&mut r, st.arg(3).max(0).min(1 << 17) as usize, st.arg(5));
                    ev!("link {}: {} with a key of {} bytes", links.len(), alg.text(), key.len());
                    check_done(1);
                    let (b, o) = sizes(&alg);
                    if b != alg.block() || o != alg.out() {
                        fail!(
                            "wrong-sizes",
                            "{} states block size {} and output size {} instead of {} and {}",
                            alg.text(),
                            b,
                            o,
                            alg.block(),
                            alg.out()
                        );
                    }
                    links.push((alg, key));
                    previous.push(vec![]);
                }
                // link direction length delay fault faultarg dupdelay style
                "send" => {
                    if links.is_empty() {
                        continue;
                    }
                    now += 1;
                    let l = st.idx(0, links.len());
                    let (alg, key) = &links[l];
                    let to_real = st.arg(1) % 2 == 0;
                    let mut r = Rng::new(mix(plan.seed, mix(0x77, seq)));
                    let body = styled(&mut r, st.arg(2).max(0).min(1 << 17) as usize, st.arg(7));
                    let tag = if to_real { refcrypto::hmac(alg, key, &body) } else { mac(alg, key, &body) };
                    let mut p = Packet {
                        link: l,
                        body: body.clone(),
                        tag,
                        key: key.clone(),
                        altered: "",
                        to_real,
                        sent: seq as usize,
                    };
                    let mut f = Rng::new(st.arg(5) as u64);
                    let flip = |v: &mut Vec<u8>, f: &mut Rng| {
                        if !v.is_empty() {
                            let i = f.below(v.len() as u64) as usize;
                            v[i] ^= 1 << f.below(8);
                            true
                        } else {
                            false
                        }
                    };
                    match st.arg(4) {
                        1 if flip(&mut p.body, &mut f) => p.altered = "bit-flip-body",
                        2 if flip(&mut p.tag, &mut f) => p.altered = "bit-flip-code",
                        3 if !p.body.is_empty() => {
                            let n = p.body.len() as u64;
                            let cut = *f.pick(&[1, 1 + f.clone().below(n), n]);
                            p.body.truncate((n - cut) as usize);
                            p.altered = "truncation";
                        }
                        4 => {
                            let n = 1 + f.below(70) as usize;
                            let zero = f.chance(1, 2);
                            let more = if zero { vec![0; n] } else { f.bytes(n) };
                            p.body.extend(more);
                            p.altered = "extension";
                        }
                        5 if previous[l] != p.body => {
                            p.body = previous[l].clone();
                            p.altered = "splice";
                        }
                        6 => {
                            let n = f.below(p.tag.len() as u64) as usize;
                            p.tag.truncate(n);
                            p.altered = "code-truncation";
                        }
                        7 => {
                            match f.below(4) {
                                0 => {
                                    p.key.push(f.next() as u8);
                                }
                                1 => {
                                    p.key.pop();
                                }
                                2 => {
                                    flip(&mut p.key, &mut f);
                                }
                                _ => {
                                    // only the end of a long key differs
                                    if let Some(b) = p.key.last_mut() {
                                        *b ^= 0x80;
                                    }
                                }
                            }
                            p.altered = "other-key";
                        }
                        _ => {}
                    }
                    previous[l] = body;
                    seq += 1;
                    packets.push(p);
                    let delay = st.arg(3).max(0) as u64;
                    queue.push(Reverse((now + delay, seq, packets.len() - 1)));
                    if st.arg(6) > 0 {
                        queue.push(Reverse((now + delay + st.arg(6) as u64, seq, packets.len() - 1)));
                        count("fault:duplicate", 1);
                    }
                }
                _ => {}
            }
        }
        let mut last = vec![0usize; links.len()];
        while let Some(Reverse((t, _, i))) = queue.pop() {
            set_vtime(t);
            let p = &packets[i];
            let (alg, _) = &links[p.link];
            if p.sent < last[p.link] {
                count("fault:reorder", 1);
            }
            last[p.link] = p.sent;
            let expected = refcrypto::hmac(alg, &p.key, &p.body) == p.tag;
            let accepted = if p.to_real { mac(alg, &p.key, &p.body) == p.tag } else { expected };
            let class = |n: usize| -> u64 {
                let b = alg.block();
                (n / b) as u64 * 4 + if n % b == 0 { 0 } else if n % b < b - 8 { 1 } else { 2 }
            };
            sig(mix(
                hash_bytes(p.link as u64, p.altered.as_bytes()),
                mix(class(p.body.len()), class(p.key.len())) + u64::from(p.to_real),
            ));
            check_done(1);
            ev!(
                "link {} message {} ({} bytes{}{}) is {}",
                p.link,
                p.sent,
                p.body.len(),
                if p.altered.is_empty() { "" } else { ", altered: " },
                p.altered,
                if accepted { "accepted" } else { "rejected" }
            );
            if !p.altered.is_empty() {
                count_fault(p.altered);
                nontrivial();
            }
            let what = format!(
                "a message of {} bytes under a key of {} bytes with {}{}{}",
                p.body.len(),
                p.key.len(),
                alg.text(),
                if p.altered.is_empty() { "" } else { ", altered in transit: " },
                p.altered
            );
            if p.to_real {
                if expected && !accepted {
                    fail!("good-message-rejected", "the receiver rejected {}", what);
                }
                if !expected && accepted {
                    fail!("bad-message-accepted", "the receiver accepted {}", what);
                }
            } else if p.altered.is_empty() && !accepted {
                fail!("wrong-code", "an independent receiver rejected {}", what);
            } else if !p.altered.is_empty() && p.altered != "other-key" && accepted {
                fail!("weak-code", "an independent receiver accepted {}", what);
            }
        }
    }
}

fn count_fault(name: &str) {
    let key = match name {
        "bit-flip-body" => "fault:bit-flip-body",
        "bit-flip-code" => "fault:bit-flip-code",
        "truncation" => "fault:truncation",
        "extension" => "fault:extension",
        "splice" => "fault:splice",
        "code-truncation" => "fault:code-truncation",
        _ => "fault:other-key",
    };
    count(key, 1)
}
