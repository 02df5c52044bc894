//! E01: group key agreement by passing partial Diffie-Hellman results around.

use crate::core::*;
use crate::fields::{self, Fld, Job};
use crate::{ev, fail, statistics};
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use num_bigint::BigUint;
use std::cmp::Reverse;
use std::collections::{BTreeSet, BinaryHeap};

struct Party<F> {
    private: F,
    public: F,
    /// tokens (target) this party has already put its key into, with the result, for retransmissions
    applied: BTreeSet<usize>,
    secret: Option<F>,
}

struct Group<F> {
    n: usize,
    generator: BigUint,
    parties: Vec<Party<F>>,
    expected: BigUint,
    /// for every target the order in which the others apply their keys
    routes: Vec<Vec<usize>>,
}

struct Token<F> {
    group: usize,
    target: usize,
    hop: usize,
    value: F,
    copy: bool,
}

struct Run<'a> {
    plan: &'a Plan,
    field: usize,
}

impl<'a> Run<'a> {
    fn agreement<F: Fld>(&self) {
        let plan = self.plan;
        let p = fields::order(self.field);
        let mut net = Rng::new(mix(plan.seed, 0x6e));
        let mut groups: Vec<Group<F>> = vec![];
        let mut queue: BinaryHeap<Reverse<(u64, u64, usize)>> = BinaryHeap::new();
        let mut tokens: Vec<Option<Token<F>>> = vec![];
        let mut down: Vec<(usize, usize, u64, u64)> = vec![];
        let mut seq = 0u64;
        let mut now = 0u64;
        let max_delay = plan.clamp("delay", 0, 1000) as u64;
        let loss = plan.clamp("loss", 0, 60) as u64;
        let dup = plan.clamp("dup", 0, 60) as u64;
        let max_parties = plan.clamp("max_parties", 2, 40) as usize;
        macro_rules! post {
            ($t:expr, $tok:expr) => {{
                seq += 1;
                tokens.push(Some($tok));
                queue.push(Reverse(($t, seq, tokens.len() - 1)));
            }};
        }
        for (s, st) in plan.steps.iter().enumerate() {
            match st.op.as_str() {
                // gap parties generator
                "group" => {
                    now += st.arg(0).max(0).min(1000) as u64;
                    let n = 2 + st.idx(1, max_parties - 1);
                    let mut r = Rng::new(mix(plan.seed, 50 + s as u64));
                    let generator = match st.arg(2) {
                        0 => BigUint::from(2u32) % &p,
                        1 => BigUint::from(3u32) % &p,
                        2 => &p - 1u32,
                        _ => fields::random_below(&mut r, &p),
                    };
                    let g: F = generator.clone().into();
                    let mut parties = vec![];
                    for i in 0..n {
                        let mut rng = SimRng::new(mix(mix(plan.seed, s as u64), 900 + i as u64));
                        let before = sim_rng_draws().0;
                        let (private, public) = F::generate_asymmetrical_key_pair(&mut rng, &g);
                        check_done(1);
                        if sim_rng_draws().0 == before {
                            fail!("no-randomness", "a key pair was generated without drawing from the supplied generator");
                        }
                        if private.as_uint() >= p {
                            fail!("private-key-range", "a private key is not below the field's order");
                        }
                        let want = fields::power(&generator, &private.as_uint(), &p);
                        if public.as_uint() != want {
                            fail!(
                                "wrong-public-key",
                                "the public key of {} with generator {} is {} instead of {}",
                                private.as_uint(),
                                generator,
                                public.as_uint(),
                                want
                            );
                        }
                        parties.push(Party {
                            private,
                            public,
                            applied: BTreeSet::new(),
                            secret: None,
                        });
                    }
                    if p.bits() > 80 {
                        for i in 0..n {
                            for j in 0..i {
                                if parties[i].private == parties[j].private {
                                    fail!("equal-private-keys", "two parties drew the same private key");
                                }
                            }
                        }
                    }
                    let expected = parties
                        .iter()
                        .fold(generator.clone(), |v, q| fields::power(&v, &q.private.as_uint(), &p));
                    let routes = (0..n)
                        .map(|t| {
                            let mut others: Vec<usize> = (0..n).filter(|i| *i != t).collect();
                            r.shuffle(&mut others);
                            others
                        })
                        .collect();
                    ev!("group {} of {} parties with generator {}", groups.len(), n, hex(&generator.to_bytes_be()));
                    groups.push(Group {
                        n,
                        generator,
                        parties,
                        expected,
                        routes,
                    });
                    let gi = groups.len() - 1;
                    // the first party on every route sends its public key
                    for t in 0..n {
                        let first = groups[gi].routes[t][0];
                        let value = groups[gi].parties[first].public.clone();
                        post!(
                            now + net.below(max_delay + 1),
                            Token {
                                group: gi,
                                target: t,
                                hop: 1,
                                value,
                                copy: false
                            }
                        );
                    }
                }
                // group party from length
                "stall" => {
                    down.push((
                        st.arg(0).unsigned_abs() as usize,
                        st.arg(1).unsigned_abs() as usize,
                        st.arg(2).max(0) as u64,
                        st.arg(2).max(0) as u64 + st.arg(3).max(0).min(2000) as u64,
                    ));
                }
                _ => {}
            }
        }
        let mut applied_total = 0u64;
        while let Some(Reverse((t, _, i))) = queue.pop() {
            now = t;
            set_vtime(now);
            let tok = tokens[i].take().unwrap();
            let gi = tok.group;
            let n = groups[gi].n;
            let to = if tok.hop < n - 1 { groups[gi].routes[tok.target][tok.hop] } else { tok.target };
            // stalled parties get to their messages later
            let stalled = down
                .iter()
                .find(|d| d.0 % groups.len() == gi && d.1 % n == to && d.2 <= now && now < d.3)
                .map(|d| d.3);
            if let Some(until) = stalled {
                count("fault:stall", 1);
                post!(until, tok);
                continue;
            }
            // a lost transmission is repeated by its sender
            if !tok.copy && net.chance(loss, 100) {
                count("fault:loss", 1);
                post!(now + 1 + net.below(max_delay + 10), tok);
                continue;
            }
            if !tok.copy && net.chance(dup, 100) {
                post!(
                    now + net.below(max_delay + 1),
                    Token {
                        value: tok.value.clone(),
                        copy: true,
                        ..tok
                    }
                );
            }
            let party = &mut groups[gi].parties[to];
            if !party.applied.insert(tok.target) {
                count("fault:duplicate", 1);
                continue;
            }
            let v = F::generate_shared_secret(&party.private, &tok.value);
            applied_total += 1;
            sig(mix(gi as u64, mix(tok.target as u64, to as u64)));
            if tok.hop < n - 1 {
                post!(
                    now + net.below(max_delay + 1),
                    Token {
                        group: gi,
                        target: tok.target,
                        hop: tok.hop + 1,
                        value: v,
                        copy: false
                    }
                );
            } else {
                ev!("group {} party {} has the secret", gi, to);
                check_done(1);
                if v.as_uint() != groups[gi].expected {
                    fail!(
                        "wrong-secret",
                        "party {} of group {} ({} parties over {}, generator {}) obtains {} instead of {} after the keys were applied in the order {:?}",
                        to,
                        gi,
                        n,
                        fields::NAMES[self.field],
                        groups[gi].generator,
                        v.as_uint(),
                        groups[gi].expected,
                        groups[gi].routes[tok.target]
                    );
                }
                groups[gi].parties[to].secret = Some(v);
            }
        }
        for (gi, g) in groups.iter().enumerate() {
            check_done(1);
            if n_secrets(g) != g.n {
                crate::harness_bug!("group {} ended with {} of {} secrets", gi, n_secrets(g), g.n);
            }
            if g.n > 2 {
                nontrivial();
            }
        }
        count("work:exponentiations", applied_total);
        count("work:groups", groups.len() as u64);
        ev!("end of run");
    }

    /// Key pairs drawn one after another from one generator: uniform and independent.
    fn distribution<F: Fld>(&self) {
        let plan = self.plan;
        let p = fields::order(self.field);
        let q: usize = p.to_string().parse().unwrap_or(0);
        let samples = plan.clamp("samples", 100, 400_000) as usize;
        let mut rng = SimRng::new(mix(plan.seed, 0x57));
        let g: F = BigUint::from(3u32).into();
        if q == 0 || q > 40 {
            let rows = (0..samples).map(|_| vec![F::generate_asymmetrical_key_pair(&mut rng, &g).0.as_uint()]).collect();
            count("work:key-pairs", samples as u64);
            count("probe:distribution-test", 1);
            sig(mix(plan.seed, 3));
            nontrivial();
            let sample = crate::leaks::Sample {
                what: "private keys".into(),
                field: self.field,
                rows,
            };
            sample.uniform(false, 1, &mut Rng::new(1));
            sample.successive(false);
            sample.independent(6, &mut Rng::new(2));
            ev!("distribution test passed");
            return;
        }
        let mut singles = vec![0u64; q];
        let mut pairs = vec![0u64; q * q];
        let mut last = None;
        for _ in 0..samples {
            let (a, _) = F::generate_asymmetrical_key_pair(&mut rng, &g);
            let v: usize = a.as_uint().to_string().parse().unwrap();
            if v >= q {
                fail!("private-key-range", "a private key is not below the field's order");
            }
            singles[v] += 1;
            match last.take() {
                None => last = Some(v),
                Some(l) => pairs[l * q + v] += 1,
            }
        }
        count("work:key-pairs", samples as u64);
        count("probe:distribution-test", 2);
        sig(mix(plan.seed, 3));
        for (what, c) in [("private keys are", &singles), ("successive private keys are jointly", &pairs)] {
            check_done(1);
            nontrivial();
            let pv = statistics::uniform(c);
            if pv < statistics::ALARM {
                fail!(
                    "not-uniform",
                    "{} not uniform over {} (chance {:.1e} in {} samples)",
                    what,
                    fields::NAMES[self.field],
                    pv,
                    samples
                );
            }
        }
        ev!("distribution test passed");
    }
}

fn n_secrets<F>(g: &Group<F>) -> usize {
    g.parties.iter().filter(|q| q.secret.is_some()).count()
}

impl<'a> Job for Run<'a> {
    type Out = ();

    fn go<F: Fld>(self) {
        if F::field_prime().as_uint() != fields::order(self.field) {
            fail!("wrong-order", "the order of {} is not the published one", fields::NAMES[self.field]);
        }
        if self.plan.get("samples") > 0 {
            self.distribution::<F>()
        } else {
            self.agreement::<F>()
        }
    }
}

pub struct Agreement;

impl Scenario for Agreement {
    fn id(&self) -> &'static str {
        "E01"
    }

    fn meta(&self) -> Meta {
        Meta {
            rule: "one run = up to 6 concurrent agreements of 2 to 40 parties over one field, every party's token travelling through all others \
                   in an order the seed decides, or one test of the distribution of key pairs; non-trivial if a group had more than two parties",
            sig_measure: "hash of the sequence of (group, target, party) over all key applications",
            real: &["jester_encryption Diffie-Hellman over jester_maths fields"],
            stubs: &["network: discrete-event queue with virtual time"],
            faults: &["loss", "duplicate", "stall"],
            assumptions: &["a party puts its key into one token once, as the property requires"],
            time_unit: "network ticks",
        }
    }

    fn runs(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => 30_000,
            Tier::Thorough => 1_000_000,
        }
    }

    fn pinned(&self) -> &'static [&'static str] {
        &["field", "samples"]
    }

    fn generate(&self, r: &mut Rng, index: u64, _tier: Tier, p: &mut Plan) {
        if index % 751 == 3 {
            p.set("field", *r.pick(&[2i64, 1, 15, 17, 16]));
            p.set("samples", 60_000);
            return;
        }
        if index % 751 == 377 {
            let f = r.range(3, fields::NAMES.len() as i64 - 1);
            p.set("field", f);
            p.set("samples", if (11..=13).contains(&f) { 150 } else { 4_000 });
            return;
        }
        let big = index % 301 == 7;
        let f = if big { r.range(11, 13) } else { *r.pick(&[0i64, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15, 17, 19, 21, 22, 23, 24]) };
        p.set("field", f);
        let max = if big { 4 } else { *r.pick(&[3i64, 5, 9, 9, 20, 40]) };
        p.set("max_parties", max);
        p.set("delay", *r.pick(&[0i64, 3, 30, 300]));
        p.set("loss", *r.pick(&[0i64, 10, 40]));
        p.set("dup", *r.pick(&[0i64, 10, 40]));
        for _ in 0..(if big || max > 9 { 1 } else { r.range(1, 6) }) {
            p.step("group", &[r.range(0, 30), r.range(0, max - 2), r.range(0, 6)]);
        }
        for _ in 0..r.range(0, 3) {
            p.step("stall", &[r.range(0, 5), r.range(0, 8), r.range(0, 60), r.range(1, 300)]);
        }
    }

    fn execute(&self, plan: &Plan) {
        let field = plan.clamp("field", 0, fields::NAMES.len() as i64 - 1) as usize;
        fields::dispatch(field, Run { plan, field });
    }
}
