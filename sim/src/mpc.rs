//! Multi-party engine: n real parties per session run the library's protocols on a simulated executor and network. The
//! communication traits are implemented by `Node`; everything else a party executes is the library's code.

use crate::core::*;
use crate::fields::{self, Fld, Job};
use crate::{ev, fail};
use jester_sharing::conditional_selection::joint_conditional_selection::JointConditionalSelection;
use jester_sharing::inversion::unbounded_inversion::JointUnboundedInversion;
use jester_sharing::multiplication::beaver_randomization_multiplication::{
    BeaverCommunicationScheme, BeaverRerandomizationMultiplication,
};
use jester_sharing::random_number_generation::sum_random_number_generation::SumRandomNumberGeneration;
use jester_sharing::shamir_secret_sharing::ShamirSecretSharingScheme;
use jester_sharing::shared_or_function::joint_unbounded_or::JointUnboundedOrFunction;
use jester_sharing::*;
use num_bigint::BigUint;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

// ---------------------------------------------------------------------------------------------------------------
// Plain arithmetic and polynomials, independent of the library

pub type Point = (usize, BigUint);

pub fn add(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    (a + b) % p
}

pub fn sub(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    (a + p - b) % p
}

pub fn inverse(a: &BigUint, p: &BigUint) -> BigUint {
    fields::power(a, &(p - 2u32), p)
}

thread_local! {
    static WEIGHTS: RefCell<BTreeMap<(BigUint, usize, Vec<usize>), Rc<Vec<BigUint>>>> = RefCell::new(BTreeMap::new());
}

/// Lagrange coefficients for evaluating at `x` what goes through the points with the given abscissae.
fn weights(xs: Vec<usize>, x: usize, p: &BigUint) -> Rc<Vec<BigUint>> {
    let key = (p.clone(), x, xs);
    if let Some(w) = WEIGHTS.with(|c| c.borrow().get(&key).cloned()) {
        return w;
    }
    let num = |v: usize| BigUint::from(v) % p;
    let xs = &key.2;
    let w: Vec<BigUint> = xs
        .iter()
        .enumerate()
        .map(|(i, xi)| {
            let mut up = BigUint::from(1u32);
            let mut down = BigUint::from(1u32);
            for (j, xj) in xs.iter().enumerate() {
                if i != j {
                    up = up * sub(&num(x), &num(*xj), p) % p;
                    down = down * sub(&num(*xi), &num(*xj), p) % p;
                }
            }
            up * inverse(&down, p) % p
        })
        .collect();
    let w = Rc::new(w);
    WEIGHTS.with(|c| c.borrow_mut().insert(key, w.clone()));
    w
}

/// Value at `x` of the polynomial through the given points.
pub fn interpolate(points: &[Point], x: usize, p: &BigUint) -> BigUint {
    let w = weights(points.iter().map(|q| q.0).collect(), x, p);
    let mut acc = BigUint::from(0u32);
    for ((_, y), w) in points.iter().zip(w.iter()) {
        acc += y * w;
    }
    acc % p
}

/// Points `1..=n` of a random polynomial of degree below `t` with the given constant.
pub fn deal(secret: &BigUint, n: usize, t: usize, p: &BigUint, r: &mut Rng) -> Vec<BigUint> {
    let coefficients: Vec<BigUint> = (1..t).map(|_| fields::random_below(r, p)).collect();
    (1..=n)
        .map(|x| {
            let mut acc = BigUint::from(0u32);
            for c in coefficients.iter().rev() {
                acc = (acc + c) * x % p;
            }
            (acc + secret) % p
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------------------------
// The world

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Reveal,
    Distribute,
    Triples(usize),
}

pub struct Op {
    pub kind: Kind,
    pub called: Vec<bool>,
    sent: Vec<bool>,
    /// shares revealed by each party
    pub shares: Vec<Option<Point>>,
    /// secrets distributed by each party and what each other party gets
    pub secrets: Vec<Option<BigUint>>,
    parts: Vec<Vec<Point>>,
    /// dealt triples, each as the shares of all parties
    triples: Vec<[Vec<BigUint>; 3]>,
    /// per receiver, the senders in order of arrival
    arrived: Vec<Vec<usize>>,
    wakers: Vec<Option<Waker>>,
}

#[derive(Clone)]
pub struct SessionCfg {
    pub field: usize,
    pub n: usize,
    pub t: usize,
    /// an opening completes with the first t contributions instead of all
    pub first_t: bool,
    /// contributions leave at the first poll instead of at the call
    pub lazy: bool,
    /// parties (as bits) that name the implementing type of every scheme instead of going through their delegate
    pub direct: u64,
    pub seed: u64,
}

#[derive(Clone)]
pub struct Outcome {
    pub ops: (usize, usize),
    pub shares: Vec<Point>,
    pub opened: Vec<BigUint>,
    /// op ranges and generator draws of the individual random numbers requested
    pub calls: Vec<(usize, usize, u64)>,
    pub time: u64,
}

pub struct Session {
    pub cfg: SessionCfg,
    pub p: BigUint,
    pub ops: Vec<Op>,
    pub steps: Rc<Vec<Step>>,
    /// per party, per step
    pub outcomes: Vec<BTreeMap<usize, Outcome>>,
    pub crashed: Vec<bool>,
    pub cancelled: bool,
    pub party_ops: Vec<usize>,
}

enum Event {
    Contribution { s: usize, op: usize, from: usize, to: usize, copy: bool },
    Triples { s: usize, op: usize, to: usize },
    Wake { task: usize },
}

pub struct Network {
    pub max_delay: u64,
    /// every message takes exactly this long, if not zero
    pub fixed: u64,
    pub loss: u64,
    pub dup: u64,
    pub wake_delay: u64,
    pub spurious: u64,
    pub yields: u64,
    /// (party set as bit mask, from, until)
    pub partitions: Vec<(u64, u64, u64)>,
    /// (session, party, from, until)
    pub stalls: Vec<(usize, usize, u64, u64)>,
    /// (from, to, extra delay)
    pub slow: Vec<(usize, usize, u64)>,
}

impl Network {
    pub fn quiet() -> Self {
        Network {
            max_delay: 0,
            fixed: 0,
            loss: 0,
            dup: 0,
            wake_delay: 0,
            spurious: 0,
            yields: 0,
            partitions: vec![],
            stalls: vec![],
            slow: vec![],
        }
    }
}

pub struct World {
    pub sessions: Vec<Session>,
    pub now: u64,
    seq: u64,
    queue: BTreeMap<(u64, u64), Event>,
    pub net: Network,
    /// operations called, contributions arrived and operations completed
    progress: u64,
}

impl World {
    fn empty() -> Self {
        World {
            sessions: vec![],
            now: 0,
            seq: 0,
            queue: BTreeMap::new(),
            net: Network::quiet(),
            progress: 0,
        }
    }

    fn post(&mut self, at: u64, e: Event) {
        self.seq += 1;
        self.queue.insert((at, self.seq), e);
    }

    fn message_delay(&mut self, from: usize, to: usize) -> u64 {
        let net = &self.net;
        if net.fixed > 0 {
            return net.fixed;
        }
        let mut d = choose(net.max_delay + 1);
        for (a, b, extra) in &net.slow {
            if *a == from && *b == to {
                d += extra;
                count("fault:slow-link", 1);
            }
        }
        if net.loss > 0 {
            while choose(100) >= 100 - net.loss {
                d += 1 + 2 * net.max_delay;
                count("fault:loss", 1);
            }
        }
        let mut at = self.now + d;
        for (mask, start, end) in &net.partitions {
            let cut = (mask >> (from % 64)) & 1 != (mask >> (to % 64)) & 1;
            if cut && *start <= at && at < *end {
                at = *end + choose(3);
                count("fault:partition", 1);
            }
        }
        at - self.now
    }

    fn op(&mut self, s: usize, me: usize, op: usize, kind: Kind) {
        let sess = &mut self.sessions[s];
        let n = sess.cfg.n;
        if op == sess.ops.len() {
            sess.ops.push(Op {
                kind,
                called: vec![false; n],
                sent: vec![false; n],
                shares: vec![None; n],
                secrets: vec![None; n],
                parts: vec![vec![]; n],
                triples: vec![],
                arrived: vec![vec![]; n],
                wakers: vec![None; n],
            });
        }
        check_done(1);
        if sess.ops[op].kind != kind {
            fail!(
                "operation-mismatch",
                "party {} of session {} issues {:?} as its joint operation {} where another party issued {:?}",
                me,
                s,
                kind,
                op,
                sess.ops[op].kind
            );
        }
        sess.ops[op].called[me] = true;
        self.progress += 1;
    }

    /// A party's contribution leaves for everyone.
    fn send(&mut self, s: usize, op: usize, me: usize) {
        if std::mem::replace(&mut self.sessions[s].ops[op].sent[me], true) {
            return;
        }
        if let Kind::Triples(_) = self.sessions[s].ops[op].kind {
            let d = self.message_delay(63, me);
            self.post(self.now + d, Event::Triples { s, op, to: me });
            return;
        }
        for to in 0..self.sessions[s].cfg.n {
            if to == me {
                self.sessions[s].ops[op].arrived[me].push(me);
                continue;
            }
            let d = self.message_delay(me, to);
            let at = self.now + d;
            self.post(at, Event::Contribution { s, op, from: me, to, copy: false });
            if self.net.dup > 0 && choose(100) >= 100 - self.net.dup {
                let d = choose(self.net.max_delay * 2 + 2);
                self.post(at + d, Event::Contribution { s, op, from: me, to, copy: true });
            }
        }
    }

    fn needed(&self, s: usize, op: usize) -> usize {
        let sess = &self.sessions[s];
        match sess.ops[op].kind {
            Kind::Reveal if sess.cfg.first_t => sess.cfg.t,
            Kind::Reveal | Kind::Distribute => sess.cfg.n,
            Kind::Triples(_) => 1,
        }
    }

    fn handle(&mut self, e: Event) -> Option<Waker> {
        match e {
            Event::Contribution { s, op, from, to, copy } => {
                if self.sessions[s].crashed[to] {
                    return None;
                }
                if copy {
                    count("fault:duplicate", 1);
                }
                // a contribution to an operation the receiver has not reached yet is kept until it gets there
                let o = &mut self.sessions[s].ops[op];
                if !o.called[to] {
                    count("probe:early-contribution", 1);
                }
                if o.arrived[to].contains(&from) {
                    return None;
                }
                if let Some(last) = o.arrived[to].last() {
                    if *last != to && from < *last {
                        count("fault:reorder", 1);
                    }
                }
                o.arrived[to].push(from);
                self.progress += 1;
                sig(mix(mix(s as u64, op as u64), mix(from as u64, to as u64)));
                ev!("session {} operation {}: contribution of {} reaches {}", s, op, from, to);
                if o.arrived[to].len() >= self.needed(s, op) {
                    return self.sessions[s].ops[op].wakers[to].take();
                }
                None
            }
            Event::Triples { s, op, to } => {
                if self.sessions[s].crashed[to] {
                    return None;
                }
                let o = &mut self.sessions[s].ops[op];
                o.arrived[to].push(to);
                self.progress += 1;
                sig(mix(mix(s as u64, op as u64), mix(7777, to as u64)));
                ev!("session {} operation {}: triples reach {}", s, op, to);
                o.wakers[to].take()
            }
            Event::Wake { .. } => unreachable!(),
        }
    }

    /// Value of an opening according to the shares contributed to it, or `None` if too few were.
    pub fn opening(&self, s: usize, op: usize) -> Option<BigUint> {
        let sess = &self.sessions[s];
        let pts: Vec<Point> = sess.ops[op].shares.iter().flatten().cloned().collect();
        if pts.len() < sess.cfg.t {
            return None;
        }
        Some(interpolate(&pts[..sess.cfg.t], 0, &sess.p))
    }

    /// Sum of the contributions to a distribution, or `None` if some are missing.
    pub fn contributed(&self, s: usize, op: usize) -> Option<BigUint> {
        let sess = &self.sessions[s];
        let mut acc = BigUint::from(0u32);
        for v in &sess.ops[op].secrets {
            acc = add(&acc, v.as_ref()?, &sess.p);
        }
        Some(acc)
    }
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World::empty());
    static WOKEN: RefCell<VecDeque<usize>> = RefCell::new(VecDeque::new());
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

struct TaskWaker(usize);

impl std::task::Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }

    fn wake_by_ref(self: &Arc<Self>) {
        WOKEN.with(|w| w.borrow_mut().push_back(self.0))
    }
}

// ---------------------------------------------------------------------------------------------------------------
// A party's view of the network: the communication traits

pub type Share<F> = (usize, F);

pub struct Node<F> {
    s: usize,
    me: usize,
    next: usize,
    field: PhantomData<fn() -> F>,
}

impl<F: Fld> Node<F> {
    pub fn new(s: usize, me: usize) -> Self {
        Node {
            s,
            me,
            next: 0,
            field: PhantomData,
        }
    }

    fn issue(&mut self, kind: Kind) -> usize {
        let op = self.next;
        self.next += 1;
        with(|w| {
            w.op(self.s, self.me, op, kind);
            w.sessions[self.s].party_ops[self.me] = self.next;
        });
        op
    }
}

/// A generator that is not counted as the party's own.
struct QuietRng(Rng);

impl rand::RngCore for QuietRng {
    fn next_u32(&mut self) -> u32 {
        self.0.next() as u32
    }

    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for chunk in dest.chunks_mut(8) {
            let v = self.0.next().to_le_bytes();
            chunk.copy_from_slice(&v[..chunk.len()]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl rand::CryptoRng for QuietRng {}

/// The random number generator of a party.
pub struct PartyRng {
    rng: SimRng,
    draws: Arc<AtomicU64>,
}

impl rand::RngCore for PartyRng {
    fn next_u32(&mut self) -> u32 {
        self.draws.fetch_add(1, Ordering::SeqCst);
        self.rng.next_u32()
    }

    fn next_u64(&mut self) -> u64 {
        self.draws.fetch_add(1, Ordering::SeqCst);
        self.rng.next_u64()
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.draws.fetch_add(1, Ordering::SeqCst);
        self.rng.fill_bytes(dest)
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl rand::CryptoRng for PartyRng {}

/// Waits for the contributions to an operation and combines them.
struct OpFuture<O> {
    s: usize,
    op: usize,
    me: usize,
    done: bool,
    combine: fn(usize, usize, usize) -> O,
}

impl<O> Future for OpFuture<O> {
    type Output = O;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<O> {
        let (s, op, me) = (self.s, self.op, self.me);
        if self.done {
            crate::fail!("polled-again", "a completed operation is polled again");
        }
        let ready = with(|w| {
            w.send(s, op, me);
            if w.sessions[s].ops[op].arrived[me].len() >= w.needed(s, op) {
                true
            } else {
                w.sessions[s].ops[op].wakers[me] = Some(cx.waker().clone());
                false
            }
        });
        if ready {
            self.done = true;
            Poll::Ready((self.combine)(s, op, me))
        } else {
            Poll::Pending
        }
    }
}

fn to_field<F: Fld>(v: &BigUint) -> F {
    v.clone().into()
}

fn combine_reveal<F: Fld>(s: usize, op: usize, me: usize) -> F {
    let (shares, t) = with(|w| {
        let need = w.needed(s, op);
        let sess = &w.sessions[s];
        let o = &sess.ops[op];
        let v: Vec<Share<F>> = o.arrived[me][..need]
            .iter()
            .map(|f| o.shares[*f].as_ref().map(|(x, y)| (*x, to_field::<F>(y))).unwrap())
            .collect();
        (v, sess.cfg.t)
    });
    Node::<F>::reconstruct_secret(&shares, t)
}

fn combine_distribute<F: Fld>(s: usize, op: usize, me: usize) -> Vec<Share<F>> {
    with(|w| {
        let o = &w.sessions[s].ops[op];
        o.arrived[me]
            .iter()
            .map(|f| (o.parts[*f][me].0, to_field::<F>(&o.parts[*f][me].1)))
            .collect()
    })
}

fn combine_triples<F: Fld>(s: usize, op: usize, me: usize) -> Vec<(Share<F>, Share<F>, Share<F>)> {
    let shares = with(|w| {
        let sess = &mut w.sessions[s];
        let k = match sess.ops[op].kind {
            Kind::Triples(k) => k,
            _ => unreachable!(),
        };
        if sess.ops[op].triples.is_empty() {
            for i in 0..k {
                let mut r = Rng::new(mix(mix(sess.cfg.seed, 0x7219), mix(op as u64, i as u64)));
                let a = fields::random_below(&mut r, &sess.p);
                let b = fields::random_below(&mut r, &sess.p);
                let c = &a * &b % &sess.p;
                let mut part = |v: &BigUint| deal(v, sess.cfg.n, sess.cfg.t, &sess.p, &mut r);
                let triple = [part(&a), part(&b), part(&c)];
                sess.ops[op].triples.push(triple);
            }
        }
        sess.ops[op]
            .triples
            .iter()
            .map(|t| [t[0][me].clone(), t[1][me].clone(), t[2][me].clone()])
            .collect::<Vec<_>>()
    });
    shares
        .iter()
        .map(|t| {
            (
                (me + 1, to_field::<F>(&t[0])),
                (me + 1, to_field::<F>(&t[1])),
                (me + 1, to_field::<F>(&t[2])),
            )
        })
        .collect()
}

impl<F: Fld> ShamirSecretSharingScheme<F> for Node<F> {}

impl<F: Fld> CliqueCommunicationScheme<F, Share<F>> for Node<F> {
    fn reveal_shares(&mut self, share: Share<F>) -> Pin<Box<dyn Future<Output = F> + Send>> {
        let op = self.issue(Kind::Reveal);
        let (s, me) = (self.s, self.me);
        with(|w| {
            let y = share.1.as_uint();
            w.sessions[s].ops[op].shares[me] = Some((share.0, y));
            if !w.sessions[s].cfg.lazy {
                w.send(s, op, me);
            }
        });
        Box::pin(OpFuture {
            s,
            op,
            me,
            done: false,
            combine: combine_reveal::<F>,
        })
    }

    fn distribute_secret(&mut self, secret: F) -> Pin<Box<dyn Future<Output = Vec<Share<F>>> + Send>> {
        let op = self.issue(Kind::Distribute);
        let (s, me) = (self.s, self.me);
        let cfg = with(|w| w.sessions[s].cfg.clone());
        let mut rng = QuietRng(Rng::new(mix(mix(cfg.seed, 0xd157), mix(op as u64, me as u64))));
        let parts: Vec<Point> = Node::<F>::generate_shares(&mut rng, &secret, cfg.n, cfg.t)
            .into_iter()
            .map(|(x, y)| (x, y.as_uint()))
            .collect();
        if parts.len() != cfg.n {
            fail!("share-count", "{} shares were generated instead of {}", parts.len(), cfg.n);
        }
        with(|w| {
            let o = &mut w.sessions[s].ops[op];
            o.secrets[me] = Some(secret.as_uint());
            o.parts[me] = parts;
            if !cfg.lazy {
                w.send(s, op, me);
            }
        });
        Box::pin(OpFuture {
            s,
            op,
            me,
            done: false,
            combine: combine_distribute::<F>,
        })
    }
}

impl<F: Fld> BeaverCommunicationScheme<Share<F>> for Node<F> {
    fn get_reconstruction_threshold(&self) -> usize {
        with(|w| w.sessions[self.s].cfg.t)
    }

    fn obtain_beaver_triples<'a>(
        &'a mut self,
        k: usize,
    ) -> Pin<Box<dyn Future<Output = Vec<(Share<F>, Share<F>, Share<F>)>> + Send + 'a>> {
        let op = self.issue(Kind::Triples(k));
        let (s, me) = (self.s, self.me);
        count("work:triples", k as u64);
        with(|w| {
            if !w.sessions[s].cfg.lazy {
                w.send(s, op, me);
            }
        });
        Box::pin(OpFuture {
            s,
            op,
            me,
            done: false,
            combine: combine_triples::<F>,
        })
    }
}

// Implemented for the concrete types only, so that no bound of the library's protocols has to be repeated here.
macro_rules! delegates {
    ($($marker:ident $delegate:ident $to:ident;)*) => {$(
        impl<F> $marker for Node<F> {
            type Marker = Delegate;
        }
        impl<F: Fld> $delegate<F, Share<F>, Node<F>> for Node<F> {
            type Delegate = $to<F, Share<F>, Node<F>>;
        }
    )*};
}

delegates! {
    RandomNumberGenerationSchemeMarker RandomNumberGenerationSchemeDelegate SumRandomNumberGeneration;
    MultiplicationSchemeMarker MultiplicationSchemeDelegate BeaverRerandomizationMultiplication;
    UnboundedMultiplicationSchemeMarker UnboundedMultiplicationSchemeDelegate BeaverRerandomizationMultiplication;
    InversionSchemeMarker InversionSchemeDelegate JointUnboundedInversion;
    UnboundedInversionSchemeMarker UnboundedInversionSchemeDelegate JointUnboundedInversion;
    OrFunctionSchemeMarker OrFunctionSchemeDelegate JointUnboundedOrFunction;
    UnboundedOrFunctionSchemeMarker UnboundedOrFunctionSchemeDelegate JointUnboundedOrFunction;
    ConditionalSelectionSchemeMarker ConditionalSelectionSchemeDelegate JointConditionalSelection;
    RandomBitGenerationSchemeMarker RandomBitGenerationSchemeDelegate OwnBits;
    WeighingSchemeMarker WeighingSchemeDelegate Weights;
}

/// The library's own generator of random bits is unfinished, so the delegate of that scheme is one made here: it shares
/// any random number.
pub struct OwnBits<T, S, P>(PhantomData<(T, S, P)>);

impl<F: Fld> RandomBitGenerationScheme<F, Share<F>, Node<F>> for OwnBits<F, Share<F>, Node<F>> {
    fn generate_random_bit<'a, R>(rng: &mut R, protocol: &'a mut Node<F>) -> Pin<Box<dyn Future<Output = Share<F>> + Send + 'a>>
    where
        R: RngCore + CryptoRng,
    {
        let mine = F::generate_random_member(rng);
        let all = protocol.distribute_secret(mine);
        Box::pin(async move { Node::<F>::sum_shares(&all.await).unwrap() })
    }
}

/// A scheme of a user's own: more methods and more parameters of one type than the library's schemes have, generic
/// methods and such without the protocol.
#[jester_sharing_proc::delegatable_protocol]
pub trait WeighingScheme<T, S, P>
where
    P: Send + Sync,
    T: Send + Sync,
    S: Send + Sync,
{
    fn weigh<'a>(protocol: &'a mut P, a: &S, b: &S, c: &S, d: &S) -> Pin<Box<dyn Future<Output = S> + Send + 'a>>;

    fn weigh_back<'a>(protocol: &'a mut P, a: &S, b: &S, c: &S, d: &S) -> Pin<Box<dyn Future<Output = S> + Send + 'a>>;

    fn weigh_two(a: S, b: S) -> S;

    fn weigh_three<R>(a: &S, b: &S, rng: &mut R, c: &S) -> S
    where
        R: RngCore + CryptoRng;

    fn digits(a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> u64;
}

pub struct Weights<T, S, P>(PhantomData<(T, S, P)>);

fn weighted<F: Fld>(of: &[&Share<F>]) -> Share<F> {
    let terms: Vec<Share<F>> =
        of.iter().enumerate().map(|(i, s)| Node::<F>::multiply_scalar(s, &BigUint::from(i + 1).into())).collect();
    Node::<F>::sum_shares(&terms).unwrap()
}

impl<F: Fld> WeighingScheme<F, Share<F>, Node<F>> for Weights<F, Share<F>, Node<F>> {
    fn weigh<'a>(
        _: &'a mut Node<F>,
        a: &Share<F>,
        b: &Share<F>,
        c: &Share<F>,
        d: &Share<F>,
    ) -> Pin<Box<dyn Future<Output = Share<F>> + Send + 'a>> {
        let v = weighted(&[a, b, c, d]);
        Box::pin(async move { v })
    }

    fn weigh_back<'a>(
        _: &'a mut Node<F>,
        a: &Share<F>,
        b: &Share<F>,
        c: &Share<F>,
        d: &Share<F>,
    ) -> Pin<Box<dyn Future<Output = Share<F>> + Send + 'a>> {
        let v = weighted(&[d, c, b, a]);
        Box::pin(async move { v })
    }

    fn weigh_two(a: Share<F>, b: Share<F>) -> Share<F> {
        weighted(&[&a, &b])
    }

    fn weigh_three<R>(a: &Share<F>, b: &Share<F>, rng: &mut R, c: &Share<F>) -> Share<F>
    where
        R: RngCore + CryptoRng,
    {
        rng.next_u32();
        weighted(&[a, b, c])
    }

    fn digits(a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> u64 {
        ((((a * 7 + b) * 7 + c) * 7 + d) * 7 + e) * 7 + f
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Programs

#[derive(Clone, Debug)]
pub enum Action {
    Nop,
    Input(BigUint),
    Add(usize, usize),
    Sub(usize, usize),
    AddScalar(usize, BigUint),
    SubScalar(usize, BigUint),
    MulScalar(usize, BigUint),
    Sum(Vec<usize>),
    Mul(usize, usize),
    UMul(Vec<(usize, usize)>),
    Inv(usize),
    UInv(Vec<usize>),
    Or(usize),
    UOr(Vec<usize>),
    Sel(usize, usize, usize),
    /// joint random numbers requested at once; how they are awaited
    Rnd(usize, i64),
    /// openings requested at once; how they are awaited
    Open(i64, Vec<usize>),
    /// random numbers requested, a product computed meanwhile
    RndMul(usize, usize, usize),
    /// an opening started, a product computed meanwhile
    OpenMul(usize, usize, usize),
    /// a random number to which only this party contributes honestly, the others a chosen constant
    Biased(usize, usize, BigUint),
    /// a random bit of the delegate's making
    Bit,
    /// a method of the scheme made here
    Weigh(usize, [usize; 4]),
}

pub fn scalar(kind: i64, seed: u64, p: &BigUint) -> BigUint {
    match kind {
        0 => BigUint::from(0u32),
        1 => BigUint::from(1u32),
        2 => p - 1u32,
        3 => BigUint::from(2u32) % p,
        _ => fields::random_below(&mut Rng::new(seed), p),
    }
}

/// Like `scalar`, but never zero.
pub fn unit(kind: i64, seed: u64, p: &BigUint) -> BigUint {
    let v = scalar(kind, seed, p);
    if v == BigUint::from(0u32) {
        BigUint::from(1u32)
    } else {
        v
    }
}

/// Decode a step, given how many values there are so far.
pub fn decode(st: &Step, k: usize, slots: usize, seed: u64, p: &BigUint) -> Action {
    let sc = |i: usize| scalar(st.arg(i), mix(seed, 1000 + k as u64), p);
    let slot = |i: usize| st.idx(i, slots);
    let list = |from: usize, max: usize| -> Vec<usize> {
        st.a.iter().skip(from).take(max).map(|v| (v.unsigned_abs() % slots.max(1) as u64) as usize).collect()
    };
    match st.op.as_str() {
        "in" => return Action::Input(sc(0)),
        "unit" => return Action::Input(unit(st.arg(0), mix(seed, 1000 + k as u64), p)),
        "bit" => return Action::Input(BigUint::from((st.arg(0) & 1) as u32)),
        "rnd" => return Action::Rnd(1 + st.idx(0, 12), st.arg(1)),
        "rbit" => return Action::Bit,
        "biased" => return Action::Biased(1 + st.idx(0, 12), st.arg(1).unsigned_abs() as usize, sc(2)),
        _ => {}
    }
    if slots == 0 {
        return Action::Nop;
    }
    match st.op.as_str() {
        "add" => Action::Add(slot(0), slot(1)),
        "sub" => Action::Sub(slot(0), slot(1)),
        "adds" => Action::AddScalar(slot(0), sc(1)),
        "subs" => Action::SubScalar(slot(0), sc(1)),
        "muls" => Action::MulScalar(slot(0), sc(1)),
        "mulu" => Action::MulScalar(slot(0), unit(st.arg(1), mix(seed, 1000 + k as u64), p)),
        "sum" => {
            let l = list(0, 1200);
            Action::Sum(if l.is_empty() { vec![0] } else { l })
        }
        "mul" => Action::Mul(slot(0), slot(1)),
        "umul" => Action::UMul(list(0, 2400).chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect()),
        "inv" => Action::Inv(slot(0)),
        "uinv" => Action::UInv(list(0, 1200)),
        "or" => Action::Or(slot(0)),
        "uor" => {
            let l = list(0, 72);
            let max = if p.bits() < 8 { p.to_string().parse::<usize>().unwrap().saturating_sub(2) } else { 72 };
            let mut l = if l.is_empty() { vec![0] } else { l };
            l.truncate(max.max(1));
            Action::UOr(l)
        }
        "sel" => Action::Sel(slot(0), slot(1), slot(2)),
        "weigh" => Action::Weigh(st.idx(0, 5), [slot(1), slot(2), slot(3), slot(4)]),
        "open" => {
            let l = list(1, 40);
            Action::Open(st.arg(0), if l.is_empty() { vec![slots - 1] } else { l })
        }
        "rndmul" => Action::RndMul(1 + st.idx(0, 4), slot(1), slot(2)),
        "openmul" => Action::OpenMul(slot(0), slot(1), slot(2)),
        _ => Action::Nop,
    }
}

/// Polls all of its futures each time it is polled.
struct JoinAll<T>(Vec<(Option<Pin<Box<dyn Future<Output = T> + Send>>>, Option<T>)>);

impl<T: Unpin> Future for JoinAll<T> {
    type Output = Vec<T>;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Vec<T>> {
        let mut done = true;
        for (f, v) in self.0.iter_mut() {
            if let Some(fut) = f {
                match fut.as_mut().poll(cx) {
                    Poll::Ready(r) => {
                        *v = Some(r);
                        *f = None;
                    }
                    Poll::Pending => done = false,
                }
            }
        }
        if done {
            Poll::Ready(self.0.iter_mut().map(|e| e.1.take().unwrap()).collect())
        } else {
            Poll::Pending
        }
    }
}

/// Await several futures in an order of the caller's choosing.
async fn gather<T: Unpin>(futures: Vec<Pin<Box<dyn Future<Output = T> + Send>>>, how: i64) -> Vec<T> {
    match how {
        1 => {
            let mut out = vec![];
            for f in futures {
                out.push(f.await);
            }
            out
        }
        2 => {
            let mut out = vec![];
            for f in futures.into_iter().rev() {
                out.push(f.await);
            }
            out.reverse();
            out
        }
        _ => JoinAll(futures.into_iter().map(|f| (Some(f), None)).collect()).await,
    }
}

async fn party<F: Fld>(s: usize, me: usize, steps: Rc<Vec<Step>>) {
    type N<F> = Node<F>;
    let (cfg, p) = with(|w| (w.sessions[s].cfg.clone(), w.sessions[s].p.clone()));
    let mut node = Node::<F>::new(s, me);
    let draws = Arc::new(AtomicU64::new(0));
    let mut rng = PartyRng {
        rng: SimRng::new(mix(mix(cfg.seed, 0xba5e), me as u64)),
        draws: draws.clone(),
    };
    let mut slots: Vec<Share<F>> = vec![];
    for (k, st) in steps.iter().enumerate() {
        let start = node.next;
        let before = slots.len();
        let mut opened: Vec<F> = vec![];
        let mut calls = vec![];
        let f = |v: &BigUint| -> F { v.clone().into() };
        let direct = cfg.direct >> me & 1 == 1;
        macro_rules! via {
            ($scheme:ident $delegate:ident $method:ident $args:tt) => {
                if direct {
                    <$delegate<F, Share<F>, N<F>> as $scheme<F, Share<F>, N<F>>>::$method $args
                } else {
                    <N<F> as $scheme<F, Share<F>, N<F>>>::$method $args
                }
            };
        }
        macro_rules! random {
            () => {{
                let (a, d) = (node.next, draws.load(Ordering::SeqCst));
                let fut = via!(RandomNumberGenerationScheme SumRandomNumberGeneration generate_random_number_sharing(&mut rng, &mut node));
                calls.push((a, node.next, draws.load(Ordering::SeqCst) - d));
                fut
            }};
        }
        match decode(st, k, before, cfg.seed, &p) {
            Action::Nop => {}
            Action::Input(v) => {
                let mut r = Rng::new(mix(mix(cfg.seed, 0x1290), k as u64));
                slots.push((me + 1, f(&deal(&v, cfg.n, cfg.t, &p, &mut r)[me])));
            }
            Action::Add(a, b) => slots.push(N::<F>::add_shares(&slots[a], &slots[b])),
            Action::Sub(a, b) => slots.push(N::<F>::sub_shares(&slots[a], &slots[b])),
            Action::AddScalar(a, v) => slots.push(N::<F>::add_scalar(&slots[a], &f(&v))),
            Action::SubScalar(a, v) => slots.push(N::<F>::sub_scalar(&slots[a], &f(&v))),
            Action::MulScalar(a, v) => slots.push(N::<F>::multiply_scalar(&slots[a], &f(&v))),
            Action::Sum(l) => {
                let shares: Vec<_> = l.iter().map(|i| slots[*i].clone()).collect();
                match N::<F>::sum_shares(&shares) {
                    Some(v) => slots.push(v),
                    None => fail!("no-sum", "the sum of {} shares is nothing", l.len()),
                }
            }
            Action::Mul(a, b) => {
                let (a, b) = (slots[a].clone(), slots[b].clone());
                let v = via!(MultiplicationScheme BeaverRerandomizationMultiplication multiply(&mut node, &a, &b)).await;
                slots.push(v);
            }
            Action::UMul(l) => {
                let pairs: Vec<_> = l.iter().map(|(a, b)| (slots[*a].clone(), slots[*b].clone())).collect();
                let v = via!(UnboundedMultiplicationScheme BeaverRerandomizationMultiplication unbounded_multiply(&mut node, &pairs)).await;
                if v.len() != pairs.len() {
                    fail!("result-count", "{} products for {} pairs", v.len(), pairs.len());
                }
                slots.extend(v);
            }
            Action::Inv(a) => {
                let a = slots[a].clone();
                let v = via!(InversionScheme JointUnboundedInversion inverse(&mut rng, &mut node, &a)).await;
                slots.push(v);
            }
            Action::UInv(l) => {
                let l: Vec<_> = l.iter().map(|a| slots[*a].clone()).collect();
                let v = via!(UnboundedInversionScheme JointUnboundedInversion unbounded_inverse(&mut rng, &mut node, &l)).await;
                if v.len() != l.len() {
                    fail!("result-count", "{} inverses for {} elements", v.len(), l.len());
                }
                slots.extend(v);
            }
            Action::Or(a) => {
                let a = slots[a].clone();
                let v = via!(OrFunctionScheme JointUnboundedOrFunction shared_or(&mut rng, &mut node, &a)).await;
                slots.push(v);
            }
            Action::UOr(l) => {
                let l: Vec<_> = l.iter().map(|a| slots[*a].clone()).collect();
                let v = via!(UnboundedOrFunctionScheme JointUnboundedOrFunction unbounded_shared_or(&mut rng, &mut node, &l)).await;
                slots.push(v);
            }
            Action::Sel(c, l, r) => {
                let (c, l, r) = (slots[c].clone(), slots[l].clone(), slots[r].clone());
                let v = via!(ConditionalSelectionScheme JointConditionalSelection joint_conditional_selection(&mut node, &c, &l, &r)).await;
                slots.push(v);
            }
            Action::Rnd(m, how) => {
                let futures = (0..m).map(|_| random!()).collect();
                slots.extend(gather(futures, how).await);
            }
            Action::Biased(m, honest, v) => {
                let mut futures: Vec<Pin<Box<dyn Future<Output = Share<F>> + Send>>> = vec![];
                for i in 0..m {
                    if honest % cfg.n == me {
                        futures.push(random!());
                    } else {
                        let mine = node.distribute_secret(f(&((&v + i) % &p)));
                        futures.push(Box::pin(async move { N::<F>::sum_shares(&mine.await).unwrap() }));
                    }
                }
                slots.extend(gather(futures, 0).await);
            }
            Action::Open(how, l) => {
                let futures = l.iter().map(|a| node.reveal_shares(slots[*a].clone())).collect();
                opened = gather(futures, how).await;
            }
            Action::Bit => {
                let v = via!(RandomBitGenerationScheme OwnBits generate_random_bit(&mut rng, &mut node)).await;
                slots.push(v);
            }
            Action::Weigh(method, l) => {
                let [a, b, c, d] = l.map(|a| slots[a].clone());
                let v = match method {
                    0 => via!(WeighingScheme Weights weigh(&mut node, &a, &b, &c, &d)).await,
                    1 => via!(WeighingScheme Weights weigh_back(&mut node, &a, &b, &c, &d)).await,
                    2 => via!(WeighingScheme Weights weigh_two(a, b)),
                    3 => via!(WeighingScheme Weights weigh_three(&a, &b, &mut rng, &c)),
                    _ => {
                        let v = via!(WeighingScheme Weights digits(1, 2, 3, 4, 5, 6));
                        N::<F>::multiply_scalar(&a, &BigUint::from(v).into())
                    }
                };
                slots.push(v);
            }
            Action::RndMul(m, a, b) => {
                let (a, b) = (slots[a].clone(), slots[b].clone());
                let futures = (0..m).map(|_| random!()).collect();
                let v = via!(MultiplicationScheme BeaverRerandomizationMultiplication multiply(&mut node, &a, &b)).await;
                slots.push(v);
                slots.extend(gather(futures, 0).await);
            }
            Action::OpenMul(a, b, c) => {
                let (b, c) = (slots[b].clone(), slots[c].clone());
                let fut = node.reveal_shares(slots[a].clone());
                let v = via!(MultiplicationScheme BeaverRerandomizationMultiplication multiply(&mut node, &b, &c)).await;
                slots.push(v);
                opened.push(fut.await);
            }
        }
        let outcome = Outcome {
            ops: (start, node.next),
            shares: slots[before..].iter().map(|(x, y)| (*x, y.as_uint())).collect(),
            opened: opened.iter().map(|v| v.as_uint()).collect(),
            calls,
            time: with(|w| w.now),
        };
        ev!("session {} party {} has finished step {} ({})", s, me, k, st.op);
        with(|w| w.sessions[s].outcomes[me].insert(k, outcome));
    }
}

// ---------------------------------------------------------------------------------------------------------------
// The executor

pub struct Task {
    pub s: usize,
    pub me: usize,
    future: Option<Pin<Box<dyn Future<Output = ()>>>>,
    waker: Waker,
    queued: bool,
    pub polls: u64,
    wake_scheduled: bool,
}

#[derive(Clone, Copy)]
pub enum Fate {
    /// the party stops for good once its task was suspended this often
    Crash { s: usize, me: usize, after: u64 },
    /// the session is abandoned once this party's task was suspended this often
    Cancel { s: usize, me: usize, after: u64 },
}

pub struct Executor {
    pub tasks: Vec<Task>,
    ready: VecDeque<usize>,
    pub fates: Vec<Fate>,
    fuel: u64,
    /// progress of the world when last looked at, and the number of decisions then
    progress: u64,
    decided: usize,
}

/// Steps and decisions without any progress, far above what a run needs between two arrivals: no progress will follow.
const FUEL: u64 = 300_000;
const DECISIONS: usize = 2_000_000;

fn yield_decision() -> bool {
    let y = WORLD.with(|w| match w.try_borrow() {
        Ok(w) => w.net.yields,
        Err(_) => 0,
    });
    if y == 0 {
        return false;
    }
    let r = choose(100) >= 100 - y;
    if r {
        count("fault:lock-preemption", 1);
    }
    r
}

/// Start over with an empty world.
pub fn reset(net: Network) -> Executor {
    WOKEN.with(|w| w.borrow_mut().clear());
    with(|w| {
        *w = World::empty();
        w.net = net;
        for i in 0..w.net.stalls.len() {
            let until = w.net.stalls[i].3;
            // make sure that time gets past every stall
            w.post(until, Event::Wake { task: usize::MAX });
        }
    });
    jester_sharing::sim_hooks::set_yield_decision(yield_decision);
    Executor {
        tasks: vec![],
        ready: VecDeque::new(),
        fates: vec![],
        fuel: FUEL,
        progress: 0,
        decided: 0,
    }
}

struct Spawn<'a> {
    ex: &'a mut Executor,
    s: usize,
}

impl<'a> Job for Spawn<'a> {
    type Out = ();

    fn go<F: Fld>(self) {
        let (n, steps) = with(|w| (w.sessions[self.s].cfg.n, w.sessions[self.s].steps.clone()));
        for me in 0..n {
            let id = self.ex.tasks.len();
            self.ex.tasks.push(Task {
                s: self.s,
                me,
                future: Some(Box::pin(party::<F>(self.s, me, steps.clone()))),
                waker: Arc::new(TaskWaker(id)).into(),
                queued: true,
                polls: 0,
                wake_scheduled: false,
            });
            self.ex.ready.push_back(id);
        }
    }
}

impl Executor {
    pub fn session(&mut self, cfg: SessionCfg, steps: Vec<Step>) -> usize {
        let s = with(|w| {
            let n = cfg.n;
            w.sessions.push(Session {
                p: fields::order(cfg.field),
                cfg: cfg.clone(),
                ops: vec![],
                steps: Rc::new(steps),
                outcomes: vec![BTreeMap::new(); n],
                crashed: vec![false; n],
                cancelled: false,
                party_ops: vec![0; n],
            });
            w.sessions.len() - 1
        });
        fields::dispatch(cfg.field, Spawn { ex: self, s });
        s
    }

    fn stalled(&self, task: usize) -> Option<u64> {
        let (s, me) = (self.tasks[task].s, self.tasks[task].me);
        with(|w| {
            w.net
                .stalls
                .iter()
                .find(|(a, b, from, until)| *a == s && *b == me && *from <= w.now && w.now < *until)
                .map(|v| v.3)
        })
    }

    fn drain_wakes(&mut self) {
        while let Some(id) = WOKEN.with(|w| w.borrow_mut().pop_front()) {
            if self.tasks[id].future.is_none() || self.tasks[id].queued || self.tasks[id].wake_scheduled {
                continue;
            }
            let wake_delay = with(|w| w.net.wake_delay);
            let d = if wake_delay > 0 { choose(wake_delay + 1) } else { 0 };
            if d > 0 {
                count("fault:late-wake", 1);
                self.tasks[id].wake_scheduled = true;
                with(|w| w.post(w.now + d, Event::Wake { task: id }));
            } else {
                self.tasks[id].queued = true;
                self.ready.push_back(id);
            }
        }
    }

    fn poll(&mut self, id: usize) {
        self.tasks[id].queued = false;
        let mut future = match self.tasks[id].future.take() {
            Some(f) => f,
            None => return,
        };
        let (s, me) = (self.tasks[id].s, self.tasks[id].me);
        sig(mix(mix(s as u64, 5555), me as u64));
        let waker = self.tasks[id].waker.clone();
        let mut cx = Context::from_waker(&waker);
        self.tasks[id].polls += 1;
        let done = future.as_mut().poll(&mut cx).is_ready();
        if done {
            ev!("session {} party {} is done", s, me);
            return;
        }
        self.tasks[id].future = Some(future);
        let polls = self.tasks[id].polls;
        for i in 0..self.fates.len() {
            match self.fates[i] {
                Fate::Crash { s: a, me: b, after } if a == s && b == me && polls == after => self.crash(id),
                Fate::Cancel { s: a, me: b, after } if a == s && b == me && polls == after => self.cancel(s),
                _ => {}
            }
        }
    }

    fn crash(&mut self, id: usize) {
        let (s, me) = (self.tasks[id].s, self.tasks[id].me);
        let allowed = with(|w| {
            let sess = &w.sessions[s];
            sess.crashed.iter().filter(|c| **c).count() < sess.cfg.n - sess.cfg.t
        });
        if !allowed {
            return;
        }
        count("fault:crash", 1);
        ev!("session {} party {} crashes", s, me);
        self.tasks[id].future = None;
        with(|w| {
            w.sessions[s].crashed[me] = true;
            // of the messages it was sending some leave and some do not
            let own: Vec<(u64, u64)> = w
                .queue
                .iter()
                .filter(|(_, e)| matches!(e, Event::Contribution { s: a, from, .. } if *a == s && *from == me))
                .map(|(k, _)| *k)
                .collect();
            for k in own {
                if choose(3) == 1 {
                    count("fault:torn-broadcast", 1);
                    w.queue.remove(&k);
                }
            }
        });
    }

    fn cancel(&mut self, s: usize) {
        count("fault:cancel", 1);
        ev!("session {} is cancelled", s);
        with(|w| w.sessions[s].cancelled = true);
        let ids: Vec<usize> = (0..self.tasks.len()).filter(|i| self.tasks[*i].s == s).collect();
        // the parties' computations are dropped one after another, or stay suspended until the end
        for id in ids {
            if choose(4) != 1 {
                let f = self.tasks[id].future.take();
                drop(f);
            } else if self.tasks[id].future.is_some() {
                count("probe:left-suspended", 1);
            }
        }
    }

    pub fn unfinished(&self) -> Vec<(usize, usize)> {
        self.tasks
            .iter()
            .filter(|t| t.future.is_some() && !with(|w| w.sessions[t.s].cancelled))
            .map(|t| (t.s, t.me))
            .collect()
    }

    /// Run until nothing is left to do. Every choice among what could happen next is a scheduling decision.
    pub fn run(&mut self) {
        loop {
            self.drain_wakes();
            let progress = with(|w| w.progress);
            if progress != self.progress {
                self.progress = progress;
                self.fuel = FUEL;
                self.decided = crate::core::tape_len();
            }
            self.fuel -= 1;
            if self.fuel == 0 || crate::core::tape_len() > self.decided + DECISIONS {
                fail!("livelock", "the parties keep running without finishing");
            }
            // tasks of stalled parties wait
            let now = with(|w| w.now);
            let mut runnable: Vec<usize> = vec![];
            let mut earliest_stall: Option<u64> = None;
            for (i, id) in self.ready.iter().enumerate() {
                match self.stalled(*id) {
                    None => runnable.push(i),
                    Some(t) => earliest_stall = Some(earliest_stall.map_or(t, |e: u64| e.min(t))),
                }
                if runnable.len() >= 12 {
                    break;
                }
            }
            if earliest_stall.is_some() {
                count("fault:stall", 1);
            }
            let due: Vec<(u64, u64)> = with(|w| w.queue.range(..=(now, u64::MAX)).take(6).map(|(k, _)| *k).collect());
            let options = due.len() + runnable.len();
            if options == 0 {
                let next = with(|w| w.queue.keys().next().map(|k| k.0));
                match next {
                    Some(t) => {
                        with(|w| w.now = t);
                        set_vtime(t);
                        continue;
                    }
                    None => {
                        if let Some(t) = earliest_stall {
                            with(|w| w.now = t);
                            set_vtime(t);
                            continue;
                        }
                        break;
                    }
                }
            }
            let c = choose(options as u64) as usize;
            if c < due.len() {
                let e = with(|w| w.queue.remove(&due[c])).unwrap();
                if let Event::Wake { task } = e {
                    if task != usize::MAX && self.tasks[task].wake_scheduled {
                        self.tasks[task].wake_scheduled = false;
                        if self.tasks[task].future.is_some() && !self.tasks[task].queued {
                            self.tasks[task].queued = true;
                            self.ready.push_back(task);
                        }
                    }
                } else {
                    let waker = with(|w| w.handle(e));
                    if let Some(w) = waker {
                        w.wake();
                    }
                }
            } else {
                let id = self.ready.remove(runnable[c - due.len()]).unwrap();
                self.poll(id);
            }
            let spurious = with(|w| w.net.spurious);
            if spurious > 0 && choose(100) >= 100 - spurious {
                let id = choose(self.tasks.len() as u64) as usize;
                if self.tasks[id].future.is_some() && !self.tasks[id].queued && self.stalled(id).is_none() {
                    count("fault:spurious-wake", 1);
                    self.poll(id);
                }
            }
        }
    }

    /// `run`, then everyone still alive must have finished.
    pub fn run_to_completion(&mut self) {
        self.run();
        check_done(1);
        let left = self.unfinished();
        if let Some((s, me)) = left.first() {
            let (k, ops) = with(|w| (w.sessions[*s].outcomes[*me].len(), w.sessions[*s].party_ops[*me]));
            let name = with(|w| w.sessions[*s].steps.get(k).map(|st| st.op.clone()).unwrap_or_default());
            fail!(
                "no-progress",
                "{} parties wait forever although everything was delivered: party {} of session {} in step {} ({}) after issuing {} joint operations",
                left.len(),
                me,
                s,
                k,
                name,
                ops
            );
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Oracles

fn is_zero(v: &BigUint) -> bool {
    *v == BigUint::from(0u32)
}

/// Compare everything the parties of a session hold and opened with the program evaluated on plain values.
pub fn verify(s: usize) {
    with(|w| {
        let sess = &w.sessions[s];
        let (n, t, p) = (sess.cfg.n, sess.cfg.t, &sess.p);
        let name = fields::NAMES[sess.cfg.field];
        let mut values: Vec<Option<BigUint>> = vec![];
        let one = BigUint::from(1u32);
        // whether a joint random number used in this range of operations happened to be zero, in which case the
        // documented result of an inversion or OR is garbage; in large fields that does not happen by chance
        let unlucky = |from: usize, to: usize| -> bool {
            (from..to).any(|o| {
                sess.ops[o].kind == Kind::Distribute
                    && p.bits() <= 40
                    && w.contributed(s, o).map(|v| is_zero(&v)).unwrap_or(true)
            })
        };
        for (k, st) in sess.steps.iter().enumerate() {
            let action = decode(st, k, values.len(), sess.cfg.seed, p);
            let held: Vec<(usize, &Outcome)> =
                (0..n).filter_map(|i| sess.outcomes[i].get(&k).map(|o| (i, o))).collect();
            if held.is_empty() {
                break;
            }
            let width = held[0].1.shares.len();
            for (i, o) in &held {
                check_done(1);
                if o.shares.len() != width {
                    fail!("result-count", "parties disagree on the number of results of step {} ({})", k, st.op);
                }
                for (x, _) in &o.shares {
                    if *x != i + 1 {
                        fail!(
                            "wrong-index",
                            "the result share of party {} for step {} ({}) carries index {} instead of {}",
                            i,
                            k,
                            st.op,
                            x,
                            i + 1
                        );
                    }
                }
            }
            // everything shared lies on polynomials of degree below t
            let mut results: Vec<Option<BigUint>> = vec![];
            for j in 0..width {
                let points: Vec<Point> = held.iter().map(|(_, o)| o.shares[j].clone()).collect();
                if points.len() < t {
                    results.push(None);
                    continue;
                }
                for q in &points[t..] {
                    check_done(1);
                    if interpolate(&points[..t], q.0, p) != q.1 {
                        fail!(
                            "not-shared",
                            "result {} of step {} ({}) is not shared {} of {}: the shares of the parties over {} do not lie on a polynomial of degree below {}",
                            j,
                            k,
                            st.op,
                            t,
                            n,
                            name,
                            t
                        );
                    }
                }
                results.push(Some(interpolate(&points[..t], 0, p)));
            }
            let get = |i: usize| -> Option<BigUint> { values[i].clone() };
            let two = |a: usize, b: usize, f: &dyn Fn(&BigUint, &BigUint) -> BigUint| -> Option<BigUint> {
                Some(f(&get(a)?, &get(b)?))
            };
            let mulv = |a: &BigUint, b: &BigUint| a * b % p;
            let (from, to) = held[0].1.ops;
            let bad_luck = unlucky(from, to);
            let inv = |a: usize| -> Option<BigUint> {
                let v = get(a)?;
                if is_zero(&v) || bad_luck {
                    None
                } else {
                    Some(inverse(&v, p))
                }
            };
            let or = |l: &[usize]| -> Option<BigUint> {
                let mut acc = BigUint::from(0u32);
                for a in l {
                    let v = get(*a)?;
                    if v > one {
                        return None;
                    }
                    if v == one {
                        acc = one.clone();
                    }
                }
                if bad_luck || BigUint::from(l.len() + 1) >= *p {
                    return None;
                }
                Some(acc)
            };
            let expected: Vec<Option<BigUint>> = match &action {
                Action::Nop => vec![],
                Action::Input(v) => vec![Some(v.clone())],
                Action::Add(a, b) => vec![two(*a, *b, &|a, b| add(a, b, p))],
                Action::Sub(a, b) => vec![two(*a, *b, &|a, b| sub(a, b, p))],
                Action::AddScalar(a, v) => vec![get(*a).map(|a| add(&a, v, p))],
                Action::SubScalar(a, v) => vec![get(*a).map(|a| sub(&a, v, p))],
                Action::MulScalar(a, v) => vec![get(*a).map(|a| a * v % p)],
                Action::Sum(l) => {
                    let l: Option<Vec<BigUint>> = l.iter().map(|a| get(*a)).collect();
                    vec![l.map(|l| l.iter().fold(BigUint::from(0u32), |a, b| add(&a, b, p)))]
                }
                Action::Mul(a, b) => vec![two(*a, *b, &mulv)],
                Action::UMul(l) => l.iter().map(|(a, b)| two(*a, *b, &mulv)).collect(),
                Action::Inv(a) => vec![inv(*a)],
                Action::UInv(l) => l.iter().map(|a| inv(*a)).collect(),
                Action::Or(a) => vec![or(&[*a])],
                Action::UOr(l) => vec![or(l)],
                Action::Sel(c, a, b) => vec![(|| {
                    let c = get(*c)?;
                    if c > one {
                        return None;
                    }
                    get(if c == one { *a } else { *b })
                })()],
                Action::Rnd(m, _) => vec![None; *m],
                Action::Biased(m, _, _) => vec![None; *m],
                Action::Bit => vec![None],
                Action::Weigh(method, l) => {
                    let weights: &[u64] = [&[1, 2, 3, 4][..], &[4, 3, 2, 1], &[1, 2], &[1, 2, 3], &[22875]][*method];
                    let terms: Option<Vec<BigUint>> = weights.iter().zip(l).map(|(w, a)| get(*a).map(|a| a * w)).collect();
                    vec![terms.map(|l| l.iter().sum::<BigUint>() % p)]
                }
                Action::Open(_, _) => vec![],
                Action::RndMul(m, a, b) => {
                    let mut v = vec![two(*a, *b, &mulv)];
                    v.extend(vec![None; *m]);
                    v
                }
                Action::OpenMul(_, b, c) => vec![two(*b, *c, &mulv)],
            };
            check_done(1);
            if expected.len() != width {
                fail!("result-count", "step {} ({}) has {} results instead of {}", k, st.op, width, expected.len());
            }
            for (j, (got, want)) in results.iter().zip(&expected).enumerate() {
                match (got, want) {
                    (Some(g), Some(v)) => {
                        check_done(1);
                        if g != v {
                            fail!(
                                "wrong-value",
                                "result {} of step {} ({:?}) over {} with {} of {} parties is {} instead of {}",
                                j,
                                k,
                                action,
                                name,
                                t,
                                n,
                                g,
                                v
                            );
                        }
                    }
                    (_, None) if !matches!(action, Action::Rnd(..) | Action::RndMul(..) | Action::Biased(..) | Action::Bit) => {
                        count(if bad_luck { "probe:zero-mask-excused" } else { "probe:undefined-by-input" }, 1)
                    }
                    _ => {}
                }
            }
            // joint random numbers are the sum of what everyone contributed to them
            let random_from = match &action {
                Action::Rnd(..) | Action::Biased(..) | Action::Bit => Some(0),
                Action::RndMul(..) => Some(1),
                _ => None,
            };
            let mut values_of_step = expected;
            if let Some(base) = random_from {
                for j in base..width {
                    values_of_step[j] = results[j].clone();
                }
            }
            // openings
            let opened_slots: Vec<usize> = match &action {
                Action::Open(_, l) => l.clone(),
                Action::OpenMul(a, _, _) => vec![*a],
                _ => vec![],
            };
            for (i, o) in &held {
                for (j, slot) in opened_slots.iter().enumerate() {
                    check_done(1);
                    if o.opened[j] != held[0].1.opened[j] {
                        fail!(
                            "disagreement",
                            "party {} opens {} where party {} opens {} in step {}",
                            i,
                            o.opened[j],
                            held[0].0,
                            held[0].1.opened[j],
                            k
                        );
                    }
                    if let Some(v) = &values[*slot] {
                        if o.opened[j] != *v {
                            fail!("wrong-value", "party {} opens {} instead of {} in step {}", i, o.opened[j], v, k);
                        }
                    }
                }
            }
            // later steps work with the values that are defined
            values.extend(values_of_step);
        }
    })
}

/// Every contribution to an opening lies with the others on one polynomial of degree below t.
pub fn verify_openings(s: usize) {
    with(|w| {
        let sess = &w.sessions[s];
        let t = sess.cfg.t;
        for (o, op) in sess.ops.iter().enumerate() {
            if op.kind != Kind::Reveal {
                continue;
            }
            let pts: Vec<Point> = op.shares.iter().flatten().cloned().collect();
            if pts.len() <= t {
                continue;
            }
            for q in &pts[t..] {
                check_done(1);
                if interpolate(&pts[..t], q.0, &sess.p) != q.1 {
                    fail!(
                        "mixed-contributions",
                        "the contributions of the parties to joint operation {} do not belong to one shared value",
                        o
                    );
                }
            }
        }
    })
}
