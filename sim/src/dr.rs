//! R01-R06: two parties of the real double ratchet over symbolic cryptography, connected by a simulated network.

use crate::core::*;
use crate::symbolic::*;
use crate::{ev, fail};
use jester_double_ratchet::{
    state, DecryptionException, DoubleRatchetAlgorithmMessage, DoubleRatchetProtocol,
};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};

type Est = DoubleRatchetProtocol<
    SymDH,
    SymEnc,
    SymRoot,
    SymMsg,
    SPub,
    SPriv,
    SShared,
    SRoot,
    SChain,
    SKey,
    state::Established,
>;
type Init = DoubleRatchetProtocol<
    SymDH,
    SymEnc,
    SymRoot,
    SymMsg,
    SPub,
    SPriv,
    SShared,
    SRoot,
    SChain,
    SKey,
    state::Initiator,
>;
type Msg = DoubleRatchetAlgorithmMessage<SPub, Vec<u8>>;

enum Party {
    Waiting,
    Initiating(Init),
    Established(Est),
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Plain(Vec<u8>),
    Late(Vec<u8>),
    InvalidHeader,
    UnknownHeader,
}

impl Outcome {
    fn bytes(&self) -> Option<&Vec<u8>> {
        match self {
            Outcome::Plain(b) | Outcome::Late(b) => Some(b),
            _ => None,
        }
    }

    fn text(&self) -> String {
        match self {
            Outcome::Plain(b) => format!("plaintext {}", hex(b)),
            Outcome::Late(b) => format!("out-of-order plaintext {}", hex(b)),
            Outcome::InvalidHeader => "InvalidMessageHeader".into(),
            Outcome::UnknownHeader => "UnknownMessageHeader".into(),
        }
    }
}

struct Sent {
    sender: usize,
    /// position in the sender's sequence of messages
    order: usize,
    /// number of key pairs the sender had generated, which tells its sending chains apart
    chain: usize,
    /// position in its chain
    number: usize,
    plain: Vec<u8>,
    key: usize,
    msg: Msg,
    /// first processed at the recipient, intact or not
    processed: bool,
    /// the first copy processed was corrupted
    tainted: bool,
    outcome: Option<Outcome>,
    late_expected: bool,
    copies_delivered: u32,
}

#[derive(Clone, Copy)]
enum Copy {
    Intact,
    Corrupt(u64),
}

enum Ev {
    Handshake,
    Deliver(usize, Copy),
    Stray { to: usize, k: usize },
}

struct Compromise {
    party: usize,
    at_op: usize,
    known: BTreeSet<usize>,
    /// messages the party had encrypted or correctly decrypted
    past: Vec<usize>,
    sent_so_far: usize,
    pairs_generated: usize,
    /// number of the party's messages when it had next generated a key pair
    recovered_at_order: Option<usize>,
    /// number of the peer's messages when it had first heard the new key
    peer_heard_at_order: Option<usize>,
}

/// Which faults take part and what is checked.
#[derive(Clone, Copy, Default)]
struct Mode {
    dups: bool,
    corrupt: bool,
    strays: bool,
    loss: bool,
    check_outcomes: bool,
    check_dups: bool,
    check_lifetimes: bool,
    check_recovery: bool,
    check_strays: bool,
    /// the reference run of a comparison: the same deliveries, but repeats are swallowed by the network, corrupted
    /// messages arrive intact and stray ones not at all
    twin: bool,
    main: bool,
}

struct Sim<'a> {
    plan: &'a Plan,
    mode: Mode,
    now: u64,
    seq: u64,
    queue: BinaryHeap<Reverse<(u64, u64, usize)>>,
    events: Vec<Option<Ev>>,
    parties: [Party; 2],
    rngs: [SimRng; 2],
    sent: Vec<Sent>,
    waiting_sends: [Vec<(u64, Vec<u64>, bool, u64)>; 2],
    orders: [usize; 2],
    /// highest order processed at the recipient, per sender
    seen_order: [Option<usize>; 2],
    /// messages by sender and order
    by_order: [Vec<usize>; 2],
    /// keys of the messages that were overtaken by processed ones, per sender
    overtaken: [BTreeMap<usize, usize>; 2],
    /// messages sent per (sender, chain)
    sent_in_chain: BTreeMap<(usize, usize), usize>,
    /// messages processed per (sender, chain)
    seen_chains: BTreeMap<(usize, usize), usize>,
    heard_chains: [BTreeSet<usize>; 2],
    generator: SPub,
    handshake_pk: Option<SPub>,
    compromises: Vec<Compromise>,
    ops: usize,
    partitions: Vec<(u64, u64, usize, bool)>,
    established_number: Option<usize>,
    strays_refused: u64,
    max_skip: usize,
}

fn pairs_of(party: usize) -> usize {
    with(|w| w.pairs.iter().filter(|p| p.owner == party).count())
}

impl<'a> Sim<'a> {
    fn new(plan: &'a Plan, mode: Mode) -> Self {
        reset();
        Sim {
            plan,
            mode,
            now: 0,
            seq: 0,
            queue: BinaryHeap::new(),
            events: vec![],
            parties: [Party::Waiting, Party::Waiting],
            rngs: [
                SimRng::new(mix(plan.seed, 0xA)),
                SimRng::new(mix(plan.seed, 0xB)),
            ],
            sent: vec![],
            waiting_sends: [vec![], vec![]],
            orders: [0, 0],
            seen_order: [None, None],
            by_order: [vec![], vec![]],
            overtaken: [BTreeMap::new(), BTreeMap::new()],
            sent_in_chain: BTreeMap::new(),
            seen_chains: BTreeMap::new(),
            heard_chains: [BTreeSet::new(), BTreeSet::new()],
            generator: SPub::generator(7),
            handshake_pk: None,
            compromises: vec![],
            ops: 0,
            partitions: vec![],
            established_number: None,
            strays_refused: 0,
            max_skip: 0,
        }
    }

    fn main(&self) -> bool {
        self.mode.main
    }

    fn tell(&self, f: std::fmt::Arguments<'_>) {
        if self.main() {
            log_event(f)
        }
    }

    fn count(&self, key: &'static str, n: u64) {
        if self.main() {
            count(key, n)
        }
    }

    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.events.push(Some(e));
        self.queue.push(Reverse((t, self.seq, self.events.len() - 1)));
    }

    /// Process all events up to time `t`.
    fn run_until(&mut self, t: u64) {
        while let Some(Reverse((at, _, _))) = self.queue.peek() {
            if *at > t {
                break;
            }
            let Reverse((at, _, i)) = self.queue.pop().unwrap();
            self.now = at;
            if self.main() {
                set_vtime(at);
            }
            let e = self.events[i].take().unwrap();
            self.handle(e);
        }
        if t < u64::MAX / 4 {
            self.now = self.now.max(t);
            if self.main() {
                set_vtime(self.now);
            }
        }
    }

    fn start(&mut self) {
        set_current(0);
        let root = SRoot(Tracked::new(Term::RootInit(1), Kind::Root));
        let (p, _message) = Init::initialize_sending(&mut self.rngs[0], self.generator.clone(), root);
        self.parties[0] = Party::Initiating(p);
        // the public key of the handshake message is read off the key pair generated for it
        let pair = with(|w| w.pairs.iter().rposition(|p| p.owner == 0));
        let pair = match pair {
            Some(p) => p,
            None => fail!("no-key-pair", "the initiator generated no key pair"),
        };
        self.handshake_pk = Some(SPub::power(pair, 7));
        self.after_op(0);
        let delay = self.plan.clamp("handshake_delay", 0, 10_000) as u64;
        self.at(delay, Ev::Handshake);
    }

    fn handle(&mut self, e: Ev) {
        match e {
            Ev::Handshake => {
                set_current(1);
                let root = SRoot(Tracked::new(Term::RootInit(1), Kind::Root));
                let pk = self.handshake_pk.clone().unwrap();
                let p = Est::initialize_receiving(&mut self.rngs[1], self.generator.clone(), pk, root);
                self.tell(format_args!("B starts from the handshake"));
                self.parties[1] = Party::Established(p);
                self.after_op(1);
                self.flush(1);
            }
            Ev::Deliver(i, copy) => {
                let to = 1 - self.sent[i].sender;
                // partitions hold messages that arrive while they last, or lose them
                let mut hold = None;
                for (from, until, dir, lossy) in &self.partitions {
                    if *dir == self.sent[i].sender && self.now >= *from && self.now < *until {
                        hold = Some((*until, *lossy));
                    }
                }
                if let Some((until, lossy)) = hold {
                    if lossy && self.mode.loss {
                        self.count("fault:partition-loss", 1);
                        self.tell(format_args!("m{} lost in the partition", i));
                    } else {
                        self.count("fault:partition-hold", 1);
                        self.at(until, Ev::Deliver(i, copy));
                    }
                    return;
                }
                self.deliver(i, to, copy);
            }
            Ev::Stray { to, k } => self.stray(to, k),
        }
    }

    fn flush(&mut self, who: usize) {
        let w = std::mem::replace(&mut self.waiting_sends[who], vec![]);
        for (delay, dups, drop, corrupt) in w {
            self.send(who, delay, &dups, drop, corrupt);
        }
    }

    fn send(&mut self, who: usize, delay: u64, dups: &[u64], drop: bool, corrupt: u64) {
        if !matches!(self.parties[who], Party::Established(_)) {
            self.waiting_sends[who].push((delay, dups.to_vec(), drop, corrupt));
            return;
        }
        let i = self.sent.len();
        let mut r = Rng::new(mix(self.plan.seed, 1000 + i as u64));
        let len = match r.below(8) {
            0 => 1 + r.below(3) as usize,
            1 => 64 + r.below(100) as usize,
            2 if r.chance(1, 40) => 5000,
            _ => 16 + r.below(8) as usize,
        };
        // the plaintext mostly starts with an identifier of its own, so that hardly any two are equal
        let mut plain = (i as u32).to_be_bytes().to_vec();
        plain.extend(r.bytes(len + 8));
        match r.below(60) {
            0 => plain.clear(),
            1 => plain = vec![0; 1 + r.below(20) as usize],
            _ => {}
        }
        set_current(who);
        let before = with(|w| w.encryptions.len());
        let msg = match &mut self.parties[who] {
            Party::Established(p) => p.encrypt_message(&plain),
            _ => unreachable!(),
        };
        let keys: Vec<usize> = with(|w| w.encryptions[before..].iter().map(|e| e.1).collect());
        let key = match keys.last() {
            Some(k) => *k,
            None => fail!("not-encrypted", "message m{} was not passed to the encryption scheme", i),
        };
        let chain = pairs_of(who);
        let in_chain = self.sent_in_chain.entry((who, chain)).or_insert(0);
        let number = *in_chain;
        *in_chain += 1;
        let order = self.orders[who];
        self.orders[who] += 1;
        self.by_order[who].push(i);
        self.tell(format_args!(
            "{} sends m{} (chain {} number {}){}",
            name(who),
            i,
            chain,
            number,
            if drop && self.mode.loss { ", lost" } else { "" }
        ));
        self.sent.push(Sent {
            sender: who,
            order,
            chain,
            number,
            plain,
            key,
            msg,
            processed: false,
            tainted: false,
            outcome: None,
            late_expected: false,
            copies_delivered: 0,
        });
        self.after_op(who);
        if drop && self.mode.loss {
            self.count("fault:loss", 1);
        } else {
            let c = if corrupt > 0 && self.mode.corrupt {
                Copy::Corrupt(corrupt)
            } else {
                Copy::Intact
            };
            self.at(self.now + delay, Ev::Deliver(i, c));
            for d in dups {
                if self.mode.dups {
                    self.at(self.now + d, Ev::Deliver(i, Copy::Intact));
                }
            }
        }
    }

    fn deliver(&mut self, i: usize, to: usize, copy: Copy) {
        let from = 1 - to;
        if matches!(self.parties[to], Party::Waiting) {
            // the responder does not exist yet: cannot happen, the initiator sends after it
            return;
        }
        if self.mode.twin && self.sent[i].processed {
            return;
        }
        let msg = self.sent[i].msg.clone();
        set_current(to);
        let corrupted = match copy {
            Copy::Corrupt(_) if self.mode.twin => false,
            Copy::Corrupt(c) => {
                with(|w| w.corrupt = Some(c));
                true
            }
            Copy::Intact => false,
        };
        let pairs_before = pairs_of(to);
        let all_pairs_before = with(|w| w.pairs.len());
        let inputs_before = with(|w| w.root_inputs.len());
        let first_hearing = !self.heard_chains[from].contains(&self.sent[i].chain);
        let repeat = self.sent[i].processed;
        if self.main() {
            sig(hash_bytes(
                1,
                &[to as u8, repeat as u8, corrupted as u8, first_hearing as u8],
            ));
            sig(self.sent[i].order as u64);
        }
        let state = std::mem::replace(&mut self.parties[to], Party::Waiting);
        let (next, outcome) = match state {
            Party::Initiating(p) => {
                let (p, plain) = p.decrypt_first_message(&mut self.rngs[to], msg);
                self.established_number = Some(self.sent[i].number);
                self.tell(format_args!("A establishes the session from m{}", i));
                (Party::Established(p), Outcome::Plain(plain))
            }
            Party::Established(mut p) => {
                let r = match p.decrypt_message(&mut self.rngs[to], msg) {
                    Ok(b) => Outcome::Plain(b),
                    Err(DecryptionException::OutOfOrderMessage { decrypted_message }) => {
                        Outcome::Late(decrypted_message)
                    }
                    Err(DecryptionException::InvalidMessageHeader {}) => Outcome::InvalidHeader,
                    Err(DecryptionException::UnknownMessageHeader {}) => Outcome::UnknownHeader,
                };
                (Party::Established(p), r)
            }
            Party::Waiting => unreachable!(),
        };
        with(|w| w.corrupt = None);
        self.parties[to] = next;
        self.ops += 1;
        self.tell(format_args!(
            "{} gets m{}{}{}: {}",
            name(to),
            i,
            if repeat { " again" } else { "" },
            if corrupted { " (corrupted)" } else { "" },
            outcome.text()
        ));

        self.sent[i].copies_delivered += 1;
        if repeat {
            self.count("fault:duplicate", 1);
            if self.heard_chains[from].iter().next_back() > Some(&self.sent[i].chain) {
                self.count("probe:duplicate-of-an-older-chain", 1);
            }
            let decrypted = self.sent[i].outcome.as_ref().and_then(|o| o.bytes()) == Some(&self.sent[i].plain);
            if self.mode.check_dups && decrypted && !self.sent[i].tainted {
                check_done(1);
                nontrivial();
                if outcome.bytes().is_some() {
                    fail!(
                        "duplicate-accepted",
                        "delivering m{} (chain {} number {}) of {} again gave {}",
                        i,
                        self.sent[i].chain,
                        self.sent[i].number,
                        name(from),
                        outcome.text()
                    );
                }
            }
        } else {
            let late = self.seen_order[from].map(|o| o > self.sent[i].order).unwrap_or(false);
            if corrupted {
                self.count("fault:corruption", 1);
                self.sent[i].tainted = true;
            }
            if late {
                self.count("fault:reorder", 1);
                if !self.heard_chains[from].contains(&self.sent[i].chain)
                    || self.heard_chains[from].iter().next_back() > Some(&self.sent[i].chain)
                {
                    self.count("probe:late-from-an-older-chain", 1);
                }
                if self.main() {
                    nontrivial();
                }
            }
            if first_hearing {
                self.count("probe:ratchet-step", 1);
                if self.sent[i].number > 0 {
                    self.count("probe:new-chain-heard-out-of-order", 1);
                }
            }
            let n = self.seen_chains.entry((from, self.sent[i].chain)).or_insert(0);
            *n += 1;
            let unseen = (self.sent[i].order + 1)
                .saturating_sub(self.seen_order[from].map(|o| o + 1).unwrap_or(0))
                .saturating_sub(1);
            if unseen > self.max_skip {
                self.max_skip = unseen;
            }
            self.sent[i].late_expected = late;
            self.sent[i].processed = true;
            self.sent[i].outcome = Some(outcome.clone());
            let order = self.sent[i].order;
            if self.seen_order[from].map(|o| o < order).unwrap_or(true) {
                for o in self.seen_order[from].map(|o| o + 1).unwrap_or(0)..order {
                    let k = self.sent[self.by_order[from][o]].key;
                    *self.overtaken[from].entry(k).or_insert(0) += 1;
                }
                self.seen_order[from] = Some(order);
            } else if let Some(n) = self.overtaken[from].get_mut(&self.sent[i].key) {
                *n -= 1;
            }
            self.heard_chains[from].insert(self.sent[i].chain);
            if self.mode.check_outcomes && !corrupted {
                check_done(1);
                self.check_first(i, &outcome, late);
            }
        }

        if self.mode.check_recovery {
            self.check_step(i, to, first_hearing && !repeat, pairs_before, all_pairs_before, inputs_before);
        }
        for c in self.compromises.iter_mut() {
            if c.party == to && c.recovered_at_order.is_none() && pairs_of(to) > c.pairs_generated {
                c.recovered_at_order = Some(self.orders[to]);
            }
            if c.party == from && c.peer_heard_at_order.is_none() {
                if let Some(o) = c.recovered_at_order {
                    if !repeat && self.sent[i].order >= o {
                        c.peer_heard_at_order = Some(self.orders[to]);
                    }
                }
            }
        }
        self.after_op(to);
        self.flush(to);
    }

    fn check_first(&self, i: usize, outcome: &Outcome, late: bool) {
        let m = &self.sent[i];
        let what = format!(
            "m{} (chain {} number {} of {}, {})",
            i,
            m.chain,
            m.number,
            name(m.sender),
            if late { "arriving late" } else { "arriving in sequence or ahead" }
        );
        match outcome.bytes() {
            None => fail!("unreadable", "{} is unreadable: {}", what, outcome.text()),
            Some(b) if *b != m.plain => fail!(
                "wrong-plaintext",
                "{} was decrypted to {} instead of {}",
                what,
                hex(b),
                hex(&m.plain)
            ),
            _ => {}
        }
        match (outcome, late) {
            (Outcome::Plain(_), true) => fail!("late-not-flagged", "{} was not flagged as out of order", what),
            (Outcome::Late(_), false) => fail!("flagged-not-late", "{} was flagged as out of order", what),
            _ => {}
        }
    }

    /// R05: what has to happen when a new ratchet key is heard.
    fn check_step(
        &self,
        i: usize,
        to: usize,
        first: bool,
        pairs_before: usize,
        all_pairs_before: usize,
        inputs_before: usize,
    ) {
        check_done(1);
        let generated = pairs_of(to) - pairs_before;
        if first {
            nontrivial();
            if generated == 0 {
                fail!(
                    "no-new-key-pair",
                    "{} heard a new ratchet key with m{} and generated no key pair",
                    name(to),
                    i
                );
            }
            let bad = with(|w| w.pairs[all_pairs_before..].iter().any(|p| !p.from_supplied_rng));
            if bad {
                fail!(
                    "foreign-randomness",
                    "{} generated a key pair from something else than the supplied generator",
                    name(to)
                );
            }
            let repeated = with(|w| {
                let n = w.pairs.len();
                (all_pairs_before..n).any(|a| w.pairs[..a].iter().any(|p| p.value == w.pairs[a].value))
            });
            if repeated {
                fail!("repeated-key-pair", "{} generated a key pair that existed before", name(to));
            }
        }
        let dup = with(|w| {
            let n = w.root_inputs.len();
            (inputs_before..n).find_map(|a| {
                let (p, _, s) = w.root_inputs[a];
                w.root_inputs[..a]
                    .iter()
                    .any(|(q, _, t)| *q == p && *t == s)
                    .then(|| {
                        let e = match w.terms[s] {
                            Term::Shared(e) => w.elems[e].1.clone(),
                            _ => vec![],
                        };
                        (p, e)
                    })
            })
        });
        if let Some((p, t)) = dup {
            fail!(
                "secret-reused",
                "{} put the Diffie-Hellman secret of the key pairs {:?} into its root chain twice",
                name(p),
                t
            );
        }
    }

    /// Key lifetime checks, after every operation of a party.
    fn after_op(&mut self, who: usize) {
        if self.mode.check_lifetimes {
            check_done(1);
            let (r, c, p, m) = with(|w| {
                (
                    w.live_of(who, Kind::Root).len(),
                    w.live_of(who, Kind::Chain).len(),
                    w.live_of(who, Kind::Private).len(),
                    w.live_of(who, Kind::Message),
                )
            });
            for (n, max, what) in [(r, 1, "root keys"), (c, 2, "chain keys"), (p, 1, "private keys")] {
                if n > max {
                    fail!("key-retained", "{} holds {} {} after an operation", name(who), n, what);
                }
            }
            // one key for every message of the peer that was overtaken and has not arrived
            let overtaken = &self.overtaken[1 - who];
            for (j, k) in m.iter().copied().enumerate() {
                let copies = m[..j].iter().rev().take_while(|x| **x == k).count();
                match overtaken.get(&k) {
                    Some(n) if *n > copies => {}
                    _ => {
                        let of = self.sent.iter().position(|s| s.key == k);
                        fail!(
                            "message-key-retained",
                            "{} holds a message key {} after an operation",
                            name(who),
                            match of {
                                Some(i) => format!("of m{}, which it has no use for", i),
                                None => "that belongs to no message".to_string(),
                            }
                        )
                    }
                }
            }
            // single use
            let reuse = with(|w| {
                w.key_reuse
            });
            if let Some((enc, p)) = reuse {
                fail!(
                    "message-key-reused",
                    "{} used one message key for two {}",
                    name(p),
                    if enc { "encryptions" } else { "decryptions" }
                );
            }
        }
        if self.mode.check_recovery {
            // every message is sent on a chain made with the sender's newest key pair
            if let Some(m) = self.sent.last().filter(|m| m.sender == who) {
                let ok = with(|w| {
                    let newest = w.pairs.iter().rposition(|p| p.owner == who);
                    match w.chain_origin(m.key).map(|(_, s)| w.terms[s]) {
                        Some(Term::Shared(e)) => newest.map(|n| w.elems[e].1.contains(&n)).unwrap_or(false),
                        _ => false,
                    }
                });
                if !ok && m.chain == pairs_of(who) {
                    fail!(
                        "stale-sending-chain",
                        "{} sent a message on a chain that is not derived from its newest key pair",
                        name(who)
                    );
                }
            }
        }
    }

    fn compromise(&mut self, who: usize) {
        if matches!(self.parties[who], Party::Waiting) {
            return;
        }
        let known = with(|w| w.all_live_of(who));
        let past: Vec<usize> = self
            .sent
            .iter()
            .enumerate()
            .filter(|(_, m)| {
                m.sender == who
                    || (m.sender == 1 - who
                        && m.processed
                        && m.outcome.as_ref().and_then(|o| o.bytes()) == Some(&m.plain))
            })
            .map(|(i, _)| i)
            .collect();
        self.count("fault:compromise", 1);
        if past.len() > 2 {
            self.count("probe:compromise-with-history", 1);
        }
        self.tell(format_args!("the state of {} is copied by the attacker", name(who)));
        if self.main() {
            sig(77 + who as u64);
        }
        self.compromises.push(Compromise {
            party: who,
            at_op: self.ops,
            known,
            past,
            sent_so_far: self.orders[who],
            pairs_generated: pairs_of(who),
            recovered_at_order: None,
            peer_heard_at_order: None,
        });
    }

    fn check_compromises(&self) {
        for c in &self.compromises {
            let derivable = with(|w| w.closure(&c.known));
            if self.mode.check_lifetimes {
                for i in &c.past {
                    check_done(1);
                    nontrivial();
                    if derivable[self.sent[*i].key] {
                        fail!(
                            "past-message-exposed",
                            "the state of {} after operation {} gives away the key of m{}, which it had already {}",
                            name(c.party),
                            c.at_op,
                            i,
                            if self.sent[*i].sender == c.party { "encrypted" } else { "decrypted" }
                        );
                    }
                }
            }
            if self.mode.check_recovery {
                for (i, m) in self.sent.iter().enumerate() {
                    let safe = if m.sender == c.party {
                        c.recovered_at_order.map(|o| m.order >= o).unwrap_or(false)
                    } else {
                        c.peer_heard_at_order.map(|o| m.order >= o).unwrap_or(false)
                    };
                    if !safe {
                        continue;
                    }
                    check_done(1);
                    count("probe:message-after-recovery", 1);
                    nontrivial();
                    if derivable[m.key] {
                        fail!(
                            "no-recovery",
                            "m{} of {} can be read with the state of {} copied after operation {}, although {} has since \
                             generated a new key pair (sent before the copy: {})",
                            i,
                            name(m.sender),
                            name(c.party),
                            c.at_op,
                            name(c.party),
                            c.sent_so_far
                        );
                    }
                }
            }
        }
    }

    /// A message of an unrelated session, in whose previous chain `k` messages were sent.
    fn stray(&mut self, to: usize, k: usize) {
        if !self.mode.strays || !matches!(self.parties[to], Party::Established(_)) {
            return;
        }
        let from = 1 - to;
        let current = match self.heard_chains[from].iter().next_back() {
            Some(c) => *c,
            None => return,
        };
        let received = self.seen_chains.get(&(from, current)).copied().unwrap_or(0);
        if k >= received {
            return;
        }
        let number = (self.seq % 3) as usize;
        // owner 2 and 3 are the parties of the other session
        let mut rng = SimRng::new(mix(self.plan.seed, 5000 + self.seq));
        set_current(2);
        let root = SRoot(Tracked::new(Term::RootInit(2), Kind::Root));
        let (c, _) = Init::initialize_sending(&mut rng, self.generator.clone(), root);
        let pair = with(|w| w.pairs.len() - 1);
        set_current(3);
        let root = SRoot(Tracked::new(Term::RootInit(2), Kind::Root));
        let mut d = Est::initialize_receiving(
            &mut rng,
            self.generator.clone(),
            SPub::power(pair, 7),
            root,
        );
        let hello = d.encrypt_message(b"hello");
        set_current(2);
        let (mut c, _) = c.decrypt_first_message(&mut rng, hello);
        // c sends k messages, hears a new key, and starts another chain
        let mut reply = None;
        for j in 0..k.max(1) {
            set_current(2);
            let m = c.encrypt_message(b"x");
            if j == 0 {
                set_current(3);
                let _ = d.decrypt_message(&mut rng, m);
                reply = Some(d.encrypt_message(b"y"));
            }
        }
        if k > 0 {
            set_current(2);
            if let Some(r) = reply {
                let _ = c.decrypt_message(&mut rng, r);
            }
        } else {
            // with k = 0 the chain before is the one that never existed: a fresh session's first chain
            set_current(2);
            let root = SRoot(Tracked::new(Term::RootInit(3), Kind::Root));
            let (c2, _) = Init::initialize_sending(&mut rng, self.generator.clone(), root);
            let pair = with(|w| w.pairs.len() - 1);
            set_current(3);
            let root = SRoot(Tracked::new(Term::RootInit(3), Kind::Root));
            let mut d2 = Est::initialize_receiving(
                &mut rng,
                self.generator.clone(),
                SPub::power(pair, 7),
                root,
            );
            let hello = d2.encrypt_message(b"hello");
            set_current(2);
            let (c2, _) = c2.decrypt_first_message(&mut rng, hello);
            c = c2;
        }
        set_current(2);
        let mut m = c.encrypt_message(b"stray");
        for _ in 0..number {
            m = c.encrypt_message(b"stray");
        }
        set_current(to);
        let r = match &mut self.parties[to] {
            Party::Established(p) => p.decrypt_message(&mut self.rngs[to], m),
            _ => unreachable!(),
        };
        self.count("fault:stray", 1);
        if self.main() {
            sig(99 + k as u64);
        }
        let text = match &r {
            Ok(_) => "a plaintext",
            Err(DecryptionException::OutOfOrderMessage { .. }) => "an out-of-order plaintext",
            Err(DecryptionException::UnknownMessageHeader {}) => "UnknownMessageHeader",
            Err(DecryptionException::InvalidMessageHeader {}) => "InvalidMessageHeader",
        };
        self.tell(format_args!(
            "{} gets a stray message (previous chain {}, number {}): {}",
            name(to),
            k,
            number,
            text
        ));
        if self.mode.check_strays {
            check_done(1);
            nontrivial();
            if !matches!(r, Err(DecryptionException::InvalidMessageHeader {})) {
                fail!(
                    "stray-not-refused",
                    "a message of another session claiming {} messages in the previous chain was answered with {} by {}, \
                     who has received {} from the current chain",
                    k,
                    text,
                    name(to),
                    received
                );
            }
        }
        self.strays_refused += 1;
    }

    fn run(mut self) -> Vec<Sent> {
        self.start();
        for st in &self.plan.steps {
            let gap = st.arg(1).max(0) as u64;
            let t = self.now + gap.min(100_000);
            self.run_until(t);
            match st.op.as_str() {
                // who gap delay loss corrupt dup-delay dup-delay ...
                "send" => {
                    let who = st.idx(0, 2);
                    let dups: Vec<u64> = st
                        .a
                        .iter()
                        .skip(5)
                        .filter(|d| **d > 0)
                        .map(|d| *d as u64)
                        .collect();
                    self.send(who, st.arg(2).max(0) as u64, &dups, st.arg(3) > 0, st.arg(4).max(0) as u64);
                }
                // who gap count keep-every delay reverse repeat-after
                "burst" => {
                    let who = st.idx(0, 2);
                    let n = st.arg(2).max(0).min(80_000) as u64;
                    let keep = st.arg(3).max(0) as u64;
                    for j in 0..n {
                        let lost = keep == 0 || j % keep != keep - 1;
                        let delay = st.arg(4).max(0) as u64 + if st.arg(5) > 0 { n - j } else { j };
                        let again = st.arg(6).max(0).min(100_000) as u64;
                        let dups = [delay + again];
                        self.send(who, delay, if again > 0 { &dups } else { &[] }, lost, 0);
                    }
                    self.count("probe:burst", 1);
                }
                // who gap count late-every repeat-every: the parties take turns `count` times; every so often a message
                // arrives, or is repeated, only after all of that
                "pingpong" => {
                    let mut who = st.idx(0, 2);
                    let n = st.arg(2).max(0).min(20_000) as u64;
                    let (late, again) = (st.arg(3).max(0) as u64, st.arg(4).max(0) as u64);
                    for j in 0..n {
                        let end = 2 * (n - j) + 10;
                        let dups = [end + j % 7];
                        let repeated = again > 0 && j % again == again - 1;
                        if late > 0 && j % late == late - 1 {
                            self.send(who, end + j % 5, &[], false, 0);
                        }
                        self.send(who, 0, if repeated { &dups } else { &[] }, false, 0);
                        self.run_until(self.now + 1);
                        who = 1 - who;
                    }
                    self.count("probe:pingpong", 1);
                }
                // sender gap length lossy
                "partition" => {
                    let len = st.arg(2).max(0) as u64;
                    let p = (self.now, self.now + len, st.idx(0, 2), st.arg(3) > 0);
                    self.tell(format_args!(
                        "partition: messages of {} do not pass for {} ticks",
                        name(p.2),
                        len
                    ));
                    self.partitions.push(p);
                    self.count("fault:partition", 1);
                }
                // who gap
                "compromise" => self.compromise(st.idx(0, 2)),
                // to gap k delay
                "stray" => {
                    let (to, k) = (st.idx(0, 2), st.arg(2).max(0) as usize % 8);
                    self.at(self.now + st.arg(3).max(0) as u64, Ev::Stray { to, k });
                }
                _ => {}
            }
        }
        // the network quiesces
        self.run_until(u64::MAX / 4);
        let end = self.sent.len();
        self.count("work:messages", end as u64);
        self.count(
            "work:deliveries",
            self.sent.iter().map(|m| u64::from(m.copies_delivered)).sum(),
        );
        if self.max_skip >= 100 {
            self.count("probe:gap-of-100-or-more", 1);
        }
        if self.max_skip >= 1000 {
            self.count("probe:gap-of-1000-or-more", 1);
        }
        if self.established_number.map(|n| n > 0).unwrap_or(false) {
            self.count("probe:established-from-a-later-response", 1);
        }
        self.check_compromises();
        self.sent
    }
}

fn name(p: usize) -> &'static str {
    match p {
        0 => "A",
        1 => "B",
        _ => "?",
    }
}

// ---------------------------------------------------------------------------------------------------------------

pub struct Ratchet(pub &'static str);

impl Ratchet {
    fn mode(&self) -> Mode {
        let base = Mode {
            loss: true,
            main: true,
            ..Mode::default()
        };
        match self.0 {
            "R01" | "R03" => Mode {
                check_outcomes: true,
                ..base
            },
            "R02" => Mode {
                dups: true,
                check_dups: true,
                ..base
            },
            "R04" => Mode {
                dups: true,
                check_lifetimes: true,
                ..base
            },
            "R05" => Mode {
                dups: true,
                check_recovery: true,
                ..base
            },
            _ => Mode {
                corrupt: true,
                strays: true,
                dups: true,
                check_strays: true,
                ..base
            },
        }
    }
}

impl Scenario for Ratchet {
    fn id(&self) -> &'static str {
        self.0
    }

    fn meta(&self) -> Meta {
        Meta {
            rule: "one run = one history of sends, delays, losses and property-specific faults between two ratchet parties; \
                   non-trivial if a message arrived out of order (R01, R03), a duplicate reached an established session (R02), \
                   key material was inspected after a state copy or a ratchet step (R04, R05), or a corrupted or stray message was \
                   delivered (R06)",
            sig_measure: "hash of the sequence of (recipient, sender order, repeated, corrupted, first of its chain) over all deliveries",
            real: &["jester_double_ratchet (all of it)"],
            stubs: &[
                "Diffie-Hellman, key derivation and encryption are symbolic terms (R07 runs the real ones)",
                "network: discrete-event queue with virtual time",
                "operating system randomness (hash seeds): simulator PRNG",
            ],
            faults: match self.0 {
                "R01" | "R03" => &["reorder", "loss", "partition", "partition-hold", "partition-loss"],
                "R02" => &["reorder", "loss", "duplicate", "partition"],
                "R04" | "R05" => &["reorder", "loss", "duplicate", "compromise", "partition"],
                _ => &["reorder", "loss", "duplicate", "corruption", "stray", "partition"],
            },
            assumptions: &[
                "symbolic cryptography: distinct derivations give distinct keys, nothing else is derivable",
                "corruption hits ciphertext bodies; headers arrive as sent or belong to another session (headers carry no authentication of their own)",
            ],
            time_unit: "network ticks",
        }
    }

    fn runs(&self, tier: Tier) -> u64 {
        let q = match self.0 {
            "R02" | "R06" => 30_000,
            _ => 40_000,
        };
        match tier {
            Tier::Quick => q,
            Tier::Thorough => q * 40,
        }
    }

    fn wall_limit(&self, _plan: &Plan) -> u64 {
        20
    }

    fn generate(&self, r: &mut Rng, index: u64, _tier: Tier, p: &mut Plan) {
        let m = self.mode();
        p.set("handshake_delay", *r.pick(&[0, 3, 20]));
        // swarm: sizes, latencies, loss and fault rates vary from run to run
        let n = *r.pick(&[3usize, 6, 10, 16, 30, 60]);
        let n = if index % 97 == 96 { 250 } else { n };
        // many changes of direction
        let base = *r.pick(&[0i64, 1, 5]);
        let jitter = *r.pick(&[0i64, 4, 15, 40]);
        let tail = *r.pick(&[0i64, 60, 300, 2000]);
        let loss = *r.pick(&[0u64, 0, 5, 15, 40]);
        let stick = *r.pick(&[20u64, 50, 70, 90]);
        let gap = *r.pick(&[0i64, 2, 8, 30]);
        let dup = if m.dups { *r.pick(&[0u64, 10, 30]) } else { 0 };
        let dup = if self.0 == "R02" { dup.max(10) } else { dup };
        let corrupt = if m.corrupt { *r.pick(&[0u64, 10, 30]) } else { 0 };
        let stray = if m.strays { *r.pick(&[0u64, 10, 25]) } else { 0 };
        let comp = if m.check_lifetimes || m.check_recovery { 15 } else { 0 };
        let part = *r.pick(&[0u64, 0, 3, 8]);
        let mut who = r.below(2) as i64;
        let early = if self.0 == "R03" { r.range(2, 12) } else { r.range(0, 4) };
        for i in 0..n as i64 {
            if r.chance(100 - stick, 100) {
                who = 1 - who;
            }
            let w = if i < early { 1 } else { who };
            let g = if i < early { r.range(0, 1) } else { r.range(0, gap) };
            let mut delay = base + r.range(0, jitter);
            if i < early && self.0 == "R03" {
                delay += r.range(0, 25);
            }
            if tail > 0 && r.chance(1, 6) {
                delay += r.range(0, tail);
            }
            let mut a = vec![
                w,
                g,
                delay,
                r.chance(loss, 100) as i64,
                if r.chance(corrupt, 100) { r.range(1, 1 << 14) } else { 0 },
            ];
            if r.chance(dup, 100) {
                for _ in 0..r.range(1, 3) {
                    let d = match r.below(3) {
                        0 => delay + 1,
                        1 => 1 + delay + r.range(0, 30),
                        _ => 1 + delay + r.range(0, 1500),
                    };
                    a.push(d);
                }
            }
            p.step("send", &a);
            if r.chance(part, 100) {
                p.step("partition", &[r.range(0, 1), 0, r.range(1, 80), r.range(0, 1)]);
            }
            if r.chance(comp, 100) {
                p.step("compromise", &[r.range(0, 1), r.range(0, gap)]);
            }
            if r.chance(stray, 100) {
                p.step("stray", &[r.range(0, 1), 0, r.range(0, 3), r.range(0, 20)]);
            }
            if r.chance(1, 60) {
                let n = *r.pick(&[5i64, 20, 70, 150]);
                let again = if dup > 0 && r.chance(1, 2) { *r.pick(&[1i64, 10, 200, 3000]) } else { 0 };
                p.step("burst", &[who, g, n, *r.pick(&[0i64, 1, 7, 10_000]), base, r.range(0, 1), again]);
            }
        }
        if index % 61 == 60 {
            let n = *r.pick(&[300i64, 300, 700, 1200, 2500]);
            let at = r.below(p.steps.len() as u64 + 1) as usize;
            p.steps.insert(
                at,
                Step::new(
                    "burst",
                    &[r.range(0, 1), 1, n, *r.pick(&[0i64, 1, n, n / 2, 13]), base, r.range(0, 1), if dup > 0 { r.range(0, 1) * 500 } else { 0 }],
                ),
            );
        }
        // many changes of direction
        if index % 1009 == 500 || index % 9001 == 3000 {
            let n = if index % 1009 == 500 || m.check_lifetimes { *r.pick(&[300i64, 600, 1100, 1100, 2300]) } else { 9_000 };
            let at = r.below(p.steps.len() as u64 + 1) as usize;
            let late = *r.pick(&[0i64, 1, 7, 100]);
            let again = if dup > 0 { *r.pick(&[1i64, 5, 50]) } else { 0 };
            p.steps.insert(at, Step::new("pingpong", &[r.range(0, 1), 1, n, late, again]));
        }
        // chains with more messages than fit into 16 bits
        if index % 4003 == 2000 && !m.check_lifetimes {
            let n = r.range(65_530, 70_000);
            let at = r.below(p.steps.len() as u64 + 1) as usize;
            let keep = *r.pick(&[0i64, 1, 1, n / 2, 1013]);
            p.steps.insert(at, Step::new("burst", &[r.range(0, 1), 1, n, keep, base, r.range(0, 1)]));
        }
    }

    fn execute(&self, plan: &Plan) {
        let mode = self.mode();
        let sent = Sim::new(plan, mode).run();
        if self.0 == "R02" || self.0 == "R06" {
            // twin run without the faults in question: only the affected messages may differ
            let twin = Sim::new(
                plan,
                Mode {
                    main: false,
                    twin: true,
                    loss: mode.loss,
                    dups: mode.dups,
                    corrupt: mode.corrupt,
                    ..Mode::default()
                },
            )
            .run();
            for (i, m) in sent.iter().enumerate() {
                let t = match twin.get(i) {
                    Some(t) => t,
                    None => fail!(
                        "message-missing",
                        "m{} is not sent when the faults are left out, so the faults changed who can send",
                        i
                    ),
                };
                if m.tainted || t.outcome.is_none() {
                    continue;
                }
                check_done(1);
                let right = t.outcome.as_ref().and_then(|o| o.bytes()) == Some(&t.plain);
                if !right {
                    continue;
                }
                let ok = if self.0 == "R02" {
                    m.outcome == t.outcome
                } else {
                    m.outcome.as_ref().and_then(|o| o.bytes()) == Some(&m.plain)
                };
                if !ok {
                    fail!(
                        "session-disturbed",
                        "m{} (chain {} number {} of {}) gave {} but {} without the {}",
                        i,
                        m.chain,
                        m.number,
                        name(m.sender),
                        m.outcome.as_ref().map(|o| o.text()).unwrap_or_else(|| "nothing".into()),
                        t.outcome.as_ref().map(|o| o.text()).unwrap_or_else(|| "nothing".into()),
                        if self.0 == "R02" {
                            "duplicates"
                        } else {
                            "corrupted and stray messages"
                        }
                    );
                }
            }
            if sent.len() != twin.len() {
                fail!("message-missing", "{} messages were sent but {} without the faults", sent.len(), twin.len());
            }
            if self.0 == "R06" && sent.iter().any(|m| m.tainted) {
                nontrivial();
            }
        }
        ev!("end of run: {} messages", sent.len());
    }
}
