//! R07: the double ratchet over the library's own Diffie-Hellman, HKDF, HMAC and hashes, compared key by key with a
//! reference key schedule.

use crate::core::*;
use crate::fields::{self, Fld, Job};
use crate::refcrypto::{self, Alg};
use crate::{ev, fail, realhash};
use jester_double_ratchet::{
    state, ConstantInputKeyRatchet, DecryptionException, DoubleRatchetAlgorithmMessage, DoubleRatchetProtocol,
    KeyDerivationFunction,
};
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::SymmetricalEncryptionScheme;
use num_bigint::BigUint;
use rand::{CryptoRng, RngCore};
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::marker::PhantomData;

struct Conf {
    alg: Alg,
    order: BigUint,
    root_len: usize,
    chain_len: usize,
    key_len: usize,
    root_info: Vec<u8>,
    message_info: Vec<u8>,
    salt: Vec<u8>,
    /// message chains by HMAC with constants, as the specification recommends, or by HKDF
    by_hmac: bool,
    generator: BigUint,
}

struct World {
    conf: Conf,
    current: usize,
    /// (private, public) in the order of generation
    pairs: [Vec<(BigUint, BigUint)>; 2],
    repeated_public: bool,
    /// key of the last encryption or decryption
    last_key: Option<Vec<u8>>,
    derivations: u64,
}

thread_local! {
    static W: RefCell<Option<World>> = RefCell::new(None);
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(w.borrow_mut().as_mut().expect("HARNESS: no world")))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct RealDh<F>(PhantomData<F>);

impl<F: Fld> DiffieHellmanKeyExchangeScheme for RealDh<F> {
    type PublicKey = F;
    type PrivateKey = F;
    type SharedKey = F;

    fn generate_asymmetrical_key_pair<R>(rng: &mut R, generator: &F) -> (F, F)
    where
        R: RngCore + CryptoRng,
    {
        let (private, public) = <F as DiffieHellmanKeyExchangeScheme>::generate_asymmetrical_key_pair(rng, generator);
        let (a, p) = (private.as_uint(), public.as_uint());
        let bad = with(|w| {
            let c = w.current;
            if w.pairs.iter().flatten().any(|q| q.1 == p) {
                w.repeated_public = true;
            }
            w.pairs[c].push((a.clone(), p.clone()));
            let want = fields::power(&w.conf.generator, &a, &w.conf.order);
            generator.as_uint() != w.conf.generator || p != want
        });
        check_done(1);
        if bad {
            fail!("wrong-public-key", "the public key of private key {} is {}, not generator^private", a, p);
        }
        (private, public)
    }

    fn generate_shared_secret(private: &F, partner: &F) -> F {
        let s = <F as DiffieHellmanKeyExchangeScheme>::generate_shared_secret(private, partner);
        let want = with(|w| fields::power(&partner.as_uint(), &private.as_uint(), &w.conf.order));
        check_done(1);
        if s.as_uint() != want {
            fail!("wrong-shared-secret", "the shared secret is {} instead of {}", s.as_uint(), want);
        }
        s
    }
}

/// HKDF of the library, its result checked for length and value.
fn checked_kdf(salt: &[u8], ikm: &[u8], len: usize, info: &[u8]) -> Vec<u8> {
    let alg = with(|w| {
        w.derivations += 1;
        w.conf.alg.clone()
    });
    let got = realhash::kdf(&alg, salt, ikm, len, info);
    compare_kdf(&alg, &got, salt, ikm, len, info);
    got
}

fn compare_kdf(alg: &Alg, got: &[u8], salt: &[u8], ikm: &[u8], len: usize, info: &[u8]) {
    check_done(1);
    let what = || {
        format!(
            "HKDF with {} (salt of {}, input of {}, info of {} bytes)",
            alg.text(),
            salt.len(),
            ikm.len(),
            info.len()
        )
    };
    if got.len() != len {
        fail!("wrong-length", "{} gave {} bytes when asked for {}", what(), got.len(), len);
    }
    let want = refcrypto::hkdf(alg, salt, ikm, len, info);
    if got != want.as_slice() {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
        fail!("wrong-derived-key", "{} differs from RFC 5869 from byte {} of {} on", what(), at, len);
    }
}

fn checked_mac(key: &[u8], msg: &[u8]) -> Vec<u8> {
    let alg = with(|w| {
        w.derivations += 1;
        w.conf.alg.clone()
    });
    let got = realhash::mac(&alg, key, msg);
    check_done(1);
    if got != refcrypto::hmac(&alg, key, msg) {
        fail!(
            "wrong-mac",
            "HMAC with {} under a key of {} bytes differs from RFC 2104",
            alg.text(),
            key.len()
        );
    }
    got
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct RootKdf<F>(PhantomData<F>);

impl<F: Fld> KeyDerivationFunction for RootKdf<F> {
    type ChainKey = Vec<u8>;
    type Input = F;
    type OutputKey = Vec<u8>;

    fn derive_key(chain_key: Vec<u8>, input: F) -> (Vec<u8>, Vec<u8>) {
        let (r, c, info) = with(|w| (w.conf.root_len, w.conf.chain_len, w.conf.root_info.clone()));
        let mut out = checked_kdf(&chain_key, &input.as_uint().to_bytes_be(), r + c, &info);
        let chain = out.split_off(r);
        (out, chain)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct MessageKdf;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Nothing;

impl KeyDerivationFunction for MessageKdf {
    type ChainKey = Vec<u8>;
    type Input = Nothing;
    type OutputKey = Vec<u8>;

    fn derive_key(chain_key: Vec<u8>, _input: Nothing) -> (Vec<u8>, Vec<u8>) {
        let (by_hmac, c, k, info, salt) = with(|w| {
            (
                w.conf.by_hmac,
                w.conf.chain_len,
                w.conf.key_len,
                w.conf.message_info.clone(),
                w.conf.salt.clone(),
            )
        });
        if by_hmac {
            (checked_mac(&chain_key, &[2]), checked_mac(&chain_key, &[1]))
        } else {
            let mut out = checked_kdf(&salt, &chain_key, c + k, &info);
            let key = out.split_off(c);
            (out, key)
        }
    }
}

impl ConstantInputKeyRatchet for MessageKdf {
    const INPUT: Nothing = Nothing;
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Enc;

impl SymmetricalEncryptionScheme for Enc {
    type Key = Vec<u8>;

    fn generate_key<R>(rng: &mut R) -> Vec<u8>
    where
        R: RngCore + CryptoRng,
    {
        rng.next_u64().to_be_bytes().to_vec()
    }

    fn encrypt_message(key: &Vec<u8>, message: &[u8]) -> Vec<u8> {
        with(|w| w.last_key = Some(key.clone()));
        let ks = Rng::new(hash_bytes(3, key)).bytes(message.len());
        message.iter().zip(ks).map(|(a, b)| a ^ b).collect()
    }

    fn decrypt_message(key: &Vec<u8>, message: &[u8]) -> Vec<u8> {
        Self::encrypt_message(key, message)
    }
}

type Proto<F, S> =
    DoubleRatchetProtocol<RealDh<F>, Enc, RootKdf<F>, MessageKdf, F, F, F, Vec<u8>, Vec<u8>, Vec<u8>, S>;
type Init<F> = Proto<F, state::Initiator>;
type Est<F> = Proto<F, state::Established>;

enum Party<F: Fld> {
    Waiting,
    Initiating(Init<F>),
    Established(Est<F>),
}

/// The key schedule the specification prescribes. The sending chains of both parties alternate: chain 0 is the
/// responder's first, chain 1 the initiator's first, and so on.
struct Schedule {
    root: Vec<u8>,
    chains: Vec<(Vec<u8>, Vec<Vec<u8>>)>,
}

impl Schedule {
    fn key(&mut self, chain: usize, number: usize) -> Vec<u8> {
        while self.chains.len() <= chain {
            let k = self.chains.len();
            // the initiator's key pair changes with odd chains, the responder's with even ones
            let (ia, ib) = ((k + 1) / 2, k / 2);
            let out = with(|w| {
                let (a, b) = match (w.pairs[0].get(ia), w.pairs[1].get(ib)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => crate::fail!(
                        "missing-key-pair",
                        "chain {} is in use but its key pairs were not generated",
                        k
                    ),
                };
                let p = &w.conf.order;
                let base = fields::power(&w.conf.generator, &a.0, p);
                let dh = fields::power(&base, &b.0, p).to_bytes_be();
                let c = &w.conf;
                refcrypto::hkdf(&c.alg, &self.root, &dh, c.root_len + c.chain_len, &c.root_info)
            });
            let r = with(|w| w.conf.root_len);
            self.root = out[..r].to_vec();
            self.chains.push((out[r..].to_vec(), vec![]));
        }
        while self.chains[chain].1.len() <= number {
            let ck = self.chains[chain].0.clone();
            let (next, key) = with(|w| {
                let c = &w.conf;
                if c.by_hmac {
                    (
                        refcrypto::hmac(&c.alg, &ck, &[2]),
                        refcrypto::hmac(&c.alg, &ck, &[1]),
                    )
                } else {
                    let out = refcrypto::hkdf(&c.alg, &c.salt, &ck, c.chain_len + c.key_len, &c.message_info);
                    (out[..c.chain_len].to_vec(), out[c.chain_len..].to_vec())
                }
            });
            self.chains[chain].0 = next;
            self.chains[chain].1.push(key);
        }
        self.chains[chain].1[number].clone()
    }
}

struct Sent<F> {
    sender: usize,
    chain: usize,
    number: usize,
    plain: Vec<u8>,
    msg: DoubleRatchetAlgorithmMessage<F, Vec<u8>>,
    processed: bool,
}

struct Run<'a> {
    plan: &'a Plan,
    field: usize,
}

impl<'a> Job for Run<'a> {
    type Out = ();

    fn go<F: Fld>(self) {
        let plan = self.plan;
        let order = fields::order(self.field);
        if F::field_prime().as_uint() != order {
            fail!("wrong-order", "the order of {} is not the published one", fields::NAMES[self.field]);
        }
        let mut r = Rng::new(mix(plan.seed, 0xC0));
        let generator = match plan.get("generator") {
            0 => BigUint::from(3u32),
            1 => BigUint::from(7u32),
            _ => fields::random_below(&mut r, &order),
        };
        let alg = realhash::choose_alg(
            plan.clamp("alg", 0, 3) as usize,
            plan.get("alg_out"),
            plan.get("alg_key"),
            plan.seed,
            1,
        );
        let top = 255 * alg.out();
        let fit = |key: &str| plan.clamp(key, 1, top as i64 / 2) as usize;
        let conf = Conf {
            order: order.clone(),
            root_len: fit("root_len"),
            chain_len: fit("chain_len"),
            key_len: fit("key_len"),
            root_info: r.bytes(plan.clamp("info", 0, 500) as usize),
            message_info: r.bytes(plan.clamp("info2", 0, 500) as usize),
            salt: r.bytes(plan.clamp("salt", 0, 500) as usize),
            by_hmac: plan.get("by_hmac") > 0,
            generator: generator.clone(),
            alg: alg.clone(),
        };
        let initial_root = r.bytes(plan.clamp("initial_root", 0, 600) as usize);
        ev!(
            "{} over {}, root keys of {}, chain keys of {} bytes",
            alg.text(),
            fields::NAMES[self.field],
            conf.root_len,
            conf.chain_len
        );
        W.with(|w| {
            *w.borrow_mut() = Some(World {
                conf,
                current: 0,
                pairs: [vec![], vec![]],
                repeated_public: false,
                last_key: None,
                derivations: 0,
            })
        });
        let mut schedule = Schedule {
            root: initial_root.clone(),
            chains: vec![],
        };
        let mut rngs = [SimRng::new(mix(plan.seed, 0xA)), SimRng::new(mix(plan.seed, 0xB))];
        let g: F = generator.into();

        let (first, _handshake) = Init::<F>::initialize_sending(&mut rngs[0], g.clone(), initial_root.clone());
        let mut parties: [Party<F>; 2] = [Party::Initiating(first), Party::Waiting];
        let a0 = with(|w| w.pairs[0].last().map(|p| p.1.clone()));
        let a0: F = match a0 {
            Some(p) => p.into(),
            None => fail!("no-key-pair", "the initiator generated no key pair"),
        };
        with(|w| w.current = 1);
        parties[1] = Party::Established(Est::<F>::initialize_receiving(&mut rngs[1], g, a0, initial_root));

        let mut sent: Vec<Sent<F>> = vec![];
        let mut queue: BinaryHeap<Reverse<(u64, usize, usize)>> = BinaryHeap::new();
        let mut now = 0u64;
        let mut waiting: Vec<(u64, bool)> = vec![];
        let mut seq = 0;
        let steps = plan.steps.len();
        let mut step = 0;
        loop {
            // the next event: the next step or, once due, a delivery
            let mut sends: Vec<(usize, u64, bool)> = vec![];
            let mut flush = false;
            let due = queue.peek().map(|Reverse((t, _, _))| *t);
            if step < steps && due.map(|t| t > now).unwrap_or(true) {
                let st = &plan.steps[step];
                step += 1;
                now += st.arg(1).max(0).min(1000) as u64;
                match st.op.as_str() {
                    "send" => sends.push((st.idx(0, 2), st.arg(2).max(0) as u64, st.arg(3) > 0)),
                    // salt ikm len info style
                    "kdf" => {
                        let mut r = Rng::new(mix(plan.seed, 900 + step as u64));
                        let n = |i: usize| st.arg(i).max(0).min(1 << 17) as usize;
                        let (salt, ikm) = (styled(&mut r, n(2), st.arg(6) % 10), styled(&mut r, n(3), st.arg(6) / 10));
                        let info = r.bytes(n(5));
                        let len = (st.arg(4).max(0) as usize).min(top);
                        let got = realhash::kdf(&alg, &salt, &ikm, len, &info);
                        compare_kdf(&alg, &got, &salt, &ikm, len, &info);
                        if len == top {
                            count("probe:longest-output", 1);
                        }
                        if len % alg.out() != 0 {
                            count("probe:partial-block-output", 1);
                        }
                        ev!("HKDF of {} bytes", len);
                        nontrivial();
                        continue;
                    }
                    _ => continue,
                }
            } else if let Some(Reverse((t, _, i))) = queue.pop() {
                now = now.max(t);
                set_vtime(now);
                let (from, to) = (sent[i].sender, 1 - sent[i].sender);
                with(|w| {
                    w.current = to;
                    w.last_key = None;
                });
                let msg = sent[i].msg.clone();
                let state = std::mem::replace(&mut parties[to], Party::Waiting);
                let (next, plain) = match state {
                    Party::Initiating(p) => {
                        let (p, b) = p.decrypt_first_message(&mut rngs[to], msg);
                        flush = true;
                        (Party::Established(p), Some(b))
                    }
                    Party::Established(mut p) => {
                        let b = match p.decrypt_message(&mut rngs[to], msg) {
                            Ok(b) => Some(b),
                            Err(DecryptionException::OutOfOrderMessage { decrypted_message }) => {
                                Some(decrypted_message)
                            }
                            Err(_) => None,
                        };
                        (Party::Established(p), b)
                    }
                    Party::Waiting => (Party::Waiting, None),
                };
                parties[to] = next;
                if sent[i].processed {
                    count("fault:duplicate", 1);
                } else {
                    sent[i].processed = true;
                    let want = schedule.key(sent[i].chain, sent[i].number);
                    let used = with(|w| w.last_key.clone());
                    check_done(1);
                    nontrivial();
                    sig(mix(from as u64, mix(sent[i].chain as u64, sent[i].number as u64)));
                    let id = format!(
                        "message {} (chain {} number {})",
                        i, sent[i].chain, sent[i].number
                    );
                    match used {
                        Some(k) if k == want => {}
                        Some(_) => fail!("wrong-receiving-key", "{} is decrypted under a key the schedule does not prescribe", id),
                        None => fail!("not-decrypted", "{} is not decrypted", id),
                    }
                    if plain.as_ref() != Some(&sent[i].plain) {
                        fail!("wrong-plaintext", "{} is not decrypted to what was sent", id);
                    }
                    ev!("{} gets {}: {}", if to == 0 { "A" } else { "B" }, id, hex(&want));
                }
                if flush {
                    for (d, lost) in waiting.drain(..) {
                        sends.push((0, d, lost));
                    }
                }
            } else {
                break;
            }
            for (who, delay, lost) in sends {
                if !matches!(parties[who], Party::Established(_)) {
                    waiting.push((delay, lost));
                    continue;
                }
                let i = sent.len();
                let plain = Rng::new(mix(plan.seed, 1000 + i as u64)).bytes(4 + i % 60);
                with(|w| {
                    w.current = who;
                    w.last_key = None;
                });
                let msg = match &mut parties[who] {
                    Party::Established(p) => p.encrypt_message(&plain),
                    _ => unreachable!(),
                };
                let pairs = with(|w| w.pairs[who].len());
                let chain = if who == 0 { (2 * pairs).saturating_sub(3) } else { 2 * (pairs - 1) };
                let number = sent.iter().filter(|m| m.sender == who && m.chain == chain).count();
                let want = schedule.key(chain, number);
                check_done(1);
                if with(|w| w.last_key.clone()) != Some(want) {
                    fail!(
                        "wrong-sending-key",
                        "message {} (chain {} number {}) is encrypted under a key the schedule does not prescribe",
                        i,
                        chain,
                        number
                    );
                }
                ev!(
                    "{} sends message {} (chain {} number {}){}",
                    if who == 0 { "A" } else { "B" },
                    i,
                    chain,
                    number,
                    if lost { ", lost" } else { "" }
                );
                sent.push(Sent {
                    sender: who,
                    chain,
                    number,
                    plain,
                    msg,
                    processed: false,
                });
                seq += 1;
                if lost {
                    count("fault:loss", 1);
                } else {
                    if delay > 0 {
                        count("fault:delay", 1);
                    }
                    queue.push(Reverse((now + delay, seq, i)));
                }
            }
            if with(|w| w.repeated_public) {
                // in a small field a public key can repeat, after which the protocol cannot tell chains apart
                count("probe:public-key-repeated", 1);
                ev!("a public key repeats: end of run");
                break;
            }
        }
        count("work:messages", sent.len() as u64);
        count("work:derivations", with(|w| w.derivations));
        count("work:ratchet-steps", schedule.chains.len() as u64);
        ev!("end of run");
    }
}

pub struct KeySchedule;

const CHOICES: &[usize] = &[3, 4, 5, 6, 7, 8, 9, 10, 21, 22, 23, 24];

impl Scenario for KeySchedule {
    fn id(&self) -> &'static str {
        "R07"
    }

    fn meta(&self) -> Meta {
        Meta {
            rule: "one run = one history of sends, delays and losses between two ratchet parties over one field, hash function and choice \
                   of key, info and salt lengths, or direct derivations; non-trivial if a message was delivered or a direct derivation compared",
            sig_measure: "hash of the sequence of (sender, chain, number) over all first deliveries",
            real: &[
                "jester_double_ratchet",
                "jester_encryption Diffie-Hellman over jester_maths fields",
                "jester_hashes hkdf, hmac, md5, sha1, blake2b, blake2s",
            ],
            stubs: &["network: discrete-event queue with virtual time", "symmetric cipher: PRNG keystream (the library provides none)"],
            faults: &["loss", "delay"],
            assumptions: &[
                "runs end when a small field makes a public key repeat",
                "the reference hash functions, HMAC and HKDF agree with the standards (tools/selftest.py)",
            ],
            time_unit: "network ticks",
        }
    }

    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 24_000,
            Tier::Thorough => 1_000_000,
        }
    }

    fn generate(&self, r: &mut Rng, index: u64, _tier: Tier, p: &mut Plan) {
        let big = index % 397 == 7;
        let field = if big { 11 + (index / 397 % 3) as i64 } else { *r.pick(CHOICES) as i64 };
        p.set("field", field);
        p.set("generator", r.range(0, 2));
        p.set("alg", r.range(0, 3));
        p.set("alg_out", *r.pick(&[64, 32, 20, 16, 1, 7, 33]));
        p.set("alg_key", *r.pick(&[0, 0, 0, 1, 16, 32, 64]));
        let len = |r: &mut Rng| -> i64 {
            match r.below(8) {
                0 => *r.pick(&[16i64, 20, 32, 64]),
                1 => *r.pick(&[15i64, 17, 31, 33, 63, 65, 127, 128, 129]),
                2 => r.range(1, 20),
                3 => r.range(60, 300),
                _ => 32,
            }
        };
        for k in ["root_len", "chain_len", "key_len"] {
            let v = len(r);
            p.set(k, v);
        }
        let v = len(r);
        p.set("initial_root", if r.chance(1, 10) { 0 } else { v });
        p.set("info", r.range(0, 40));
        p.set("info2", *r.pick(&[0, 1, 20, 100]));
        p.set("salt", *r.pick(&[0, 0, 16, 64, 65, 128, 129, 200]));
        p.set("by_hmac", r.range(0, 1));
        if r.chance(1, 4) {
            for _ in 0..r.range(1, 6) {
                let top = *r.pick(&[255 * 16i64, 255 * 20, 255 * 32, 255 * 64, 255 * 7]);
                let out = match r.below(6) {
                    0 => top,
                    1 => r.range(0, top),
                    2 => 0,
                    3 => 16 * r.range(1, 40) + r.range(-1, 1),
                    _ => r.range(1, 100),
                };
                let l = |r: &mut Rng| *r.pick(&[0i64, 1, 20, 63, 64, 65, 127, 128, 129, 300]);
                let (mut s, mut i, mut n) = (l(r), l(r), r.range(0, 80));
                let mut out = out;
                if r.chance(1, 12) {
                    let long = odd_len(r, 1 << 17);
                    match r.below(3) {
                        0 => s = long,
                        1 => i = long,
                        _ => n = long,
                    }
                    out = out.min(200);
                }
                p.step("kdf", &[0, 0, s, i, out, n, pick_style(r) + 10 * pick_style(r)]);
            }
        }
        let n = if big { 5 } else { *r.pick(&[2i64, 6, 12, 24]) };
        let jitter = *r.pick(&[0i64, 4, 15, 60]);
        let loss = *r.pick(&[0u64, 5, 25]);
        let stick = *r.pick(&[30u64, 60, 80]);
        let mut who = 1;
        for i in 0..n {
            if i > 1 && r.chance(100 - stick, 100) {
                who = 1 - who;
            }
            p.step(
                "send",
                &[who, r.range(0, 8), r.range(0, jitter), r.chance(loss, 100) as i64],
            );
        }
    }

    fn execute(&self, plan: &Plan) {
        let field = plan.clamp("field", 0, fields::NAMES.len() as i64 - 1) as usize;
        fields::dispatch(field, Run { plan, field });
    }
}
