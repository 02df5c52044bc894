//! S05 and S08: what is opened and what coalitions hold, tested statistically over many simulated executions; joint
//! random numbers under schedules.

use crate::core::*;
use crate::fields::{self, Fld, Job};
use crate::mpc::*;
use crate::parties;
use crate::shares::Plain;
use crate::statistics;
use crate::{ev, fail};
use jester_sharing::ThresholdSecretSharingScheme;
use num_bigint::BigUint;
use std::collections::BTreeMap;

// ---------------------------------------------------------------------------------------------------------------
// Classifying field elements

/// A partition of the field into classes with the exact probability of each.
struct Classes {
    p: BigUint,
    kind: Cut,
    /// zero left out
    nonzero: bool,
    probabilities: Vec<f64>,
    name: String,
}

#[derive(Clone, Copy, PartialEq)]
enum Cut {
    Value,
    High(u32),
    Low(u32),
}

fn to_f64(v: &BigUint) -> f64 {
    v.to_bytes_be().iter().fold(0.0, |a, b| a * 256.0 + f64::from(*b))
}

fn small(v: &BigUint) -> usize {
    v.to_bytes_be().iter().fold(0usize, |a, b| a * 256 + *b as usize)
}

impl Classes {
    fn new(p: &BigUint, kind: Cut, nonzero: bool) -> Self {
        let cells = match kind {
            Cut::Value => small(p),
            Cut::High(b) | Cut::Low(b) => b as usize,
        };
        let mut c = Classes {
            p: p.clone(),
            kind,
            nonzero,
            probabilities: vec![1.0 / cells as f64; cells],
            name: match kind {
                Cut::Value => "values".into(),
                Cut::High(b) => format!("{} ranges", b),
                Cut::Low(b) => format!("remainders modulo {}", b),
            },
        };
        if p.bits() <= 17 {
            let mut n = vec![0u64; cells];
            let q = small(p);
            for v in nonzero as usize..q {
                n[c.class(&BigUint::from(v))] += 1;
            }
            c.probabilities = n.iter().map(|k| *k as f64 / (q - nonzero as usize) as f64).collect();
        }
        c
    }

    fn class(&self, v: &BigUint) -> usize {
        match self.kind {
            Cut::Value => small(v),
            Cut::High(b) => {
                let shift = self.p.bits().saturating_sub(50);
                ((to_f64(&(v >> shift)) * f64::from(b) / to_f64(&(&self.p >> shift))) as usize).min(b as usize - 1)
            }
            Cut::Low(b) => small(&(v % b)),
        }
    }

    fn of(p: &BigUint, nonzero: bool) -> Vec<Classes> {
        if p.bits() <= 4 {
            vec![Classes::new(p, Cut::Value, nonzero)]
        } else {
            vec![Classes::new(p, Cut::High(8), nonzero), Classes::new(p, Cut::Low(7), nonzero)]
        }
    }
}

fn chi(counts: &[u64], probabilities: &[f64]) -> f64 {
    let cells: Vec<(u64, f64)> = counts.iter().cloned().zip(probabilities.iter().cloned()).filter(|c| c.1 > 0.0).collect();
    if cells.len() < 2 {
        return 1.0;
    }
    let c: Vec<u64> = cells.iter().map(|c| c.0).collect();
    let q: Vec<f64> = cells.iter().map(|c| c.1).collect();
    statistics::expected(&c, &q)
}

/// Samples of vectors of field elements, one vector per execution.
pub struct Sample {
    pub what: String,
    pub field: usize,
    pub rows: Vec<Vec<BigUint>>,
}

impl Sample {
    fn width(&self) -> usize {
        self.rows.iter().map(|r| r.len()).min().unwrap_or(0)
    }

    fn report(&self, what: &str, pv: f64, classes: &str) {
        check_done(1);
        count("probe:statistical-tests", 1);
        // calibration: about one test in a thousand, ten thousand, ... gets this far by chance
        for (limit, name) in [
            (1e-3, "probe:tests-below-1e-3"),
            (1e-4, "probe:tests-below-1e-4"),
            (1e-5, "probe:tests-below-1e-5"),
            (1e-7, "probe:tests-below-1e-7"),
        ] {
            if pv < limit {
                count(name, 1);
            }
        }
        if pv < statistics::ALARM {
            fail!(
                "leak",
                "{}: {} over {} (by {}, {} samples) would happen by chance with probability {:.1e}",
                self.what,
                what,
                fields::NAMES[self.field],
                classes,
                self.rows.len(),
                pv
            );
        }
    }

    /// Every coordinate and pairs of coordinates are uniform.
    pub fn uniform(&self, nonzero: bool, pairs: usize, r: &mut Rng) {
        let p = fields::order(self.field);
        let zero = BigUint::from(0u32);
        let w = self.width();
        let skip = |v: &BigUint| nonzero && *v == zero;
        for c in Classes::of(&p, nonzero) {
            let k = c.probabilities.len();
            for i in 0..w {
                let mut n = vec![0u64; k];
                for row in &self.rows {
                    if !skip(&row[i]) {
                        n[c.class(&row[i])] += 1;
                    }
                }
                self.report(&format!("the distribution of value {}", i), chi(&n, &c.probabilities), &c.name);
            }
            let mut all: Vec<(usize, usize)> = (0..w).flat_map(|i| (0..i).map(move |j| (j, i))).collect();
            r.shuffle(&mut all);
            all.truncate(pairs);
            let prob: Vec<f64> = c
                .probabilities
                .iter()
                .flat_map(|a| c.probabilities.iter().map(move |b| a * b))
                .collect();
            for (i, j) in all {
                let mut n = vec![0u64; k * k];
                for row in &self.rows {
                    if !skip(&row[i]) && !skip(&row[j]) {
                        n[c.class(&row[i]) * k + c.class(&row[j])] += 1;
                    }
                }
                self.report(&format!("the joint distribution of values {} and {}", i, j), chi(&n, &prob), &c.name);
            }
        }
    }

    /// Successive executions are independent of each other.
    pub fn successive(&self, nonzero: bool) {
        let w = self.width();
        if w == 0 {
            return;
        }
        let s = Sample {
            what: format!("{}, successive executions", self.what),
            field: self.field,
            rows: self
                .rows
                .chunks(2)
                .filter(|c| c.len() == 2)
                .map(|c| {
                    let mut v = vec![c[0][0].clone(), c[1][0].clone()];
                    if w > 1 {
                        v.extend([c[0][w - 1].clone(), c[1][w - 1].clone()]);
                    }
                    v
                })
                .collect(),
        };
        s.uniform(nonzero, 6, &mut Rng::new(1));
    }

    /// Two samples drawn for different inputs have the same distribution.
    fn same_as(&self, other: &Sample, pairs: usize, r: &mut Rng) {
        let p = fields::order(self.field);
        let (w, v) = (self.width(), other.width());
        if w != v {
            fail!("leak", "{}: {} values are opened for one input and {} for another", self.what, w, v);
        }
        for c in Classes::of(&p, false) {
            let k = c.probabilities.len();
            let mut all: Vec<(usize, usize)> = (0..w).flat_map(|i| (0..=i).map(move |j| (j, i))).collect();
            r.shuffle(&mut all);
            all.truncate(pairs);
            for (i, j) in all {
                let tally = |s: &Sample| {
                    let mut n = vec![0u64; k * k];
                    for row in &s.rows {
                        n[c.class(&row[i]) * k + c.class(&row[j])] += 1;
                    }
                    n
                };
                let pv = statistics::homogeneous(&tally(self), &tally(other));
                self.report(&format!("the difference that the inputs make to values {} and {}", i, j), pv, &c.name);
            }
        }
    }

    /// Values opened at once, every two of them at the same distance: for independent uniform values the differences
    /// (quotients) along each distance are independent and uniform as well.
    fn at_distance(&self, nonzero: bool) {
        let p = fields::order(self.field);
        let q = small(&p);
        let w = self.width();
        let rows: Vec<Vec<usize>> = self.rows.iter().map(|r| r.iter().map(small).collect()).collect();
        let inverse: Vec<usize> = if nonzero {
            (0..q).map(|v| small(&BigUint::from(v).modpow(&(&p - 2u32), &p))).collect()
        } else {
            vec![]
        };
        let name = format!("all {} values", q);
        let from = nonzero as usize;
        let mut pooled = vec![0u64; q];
        rows.iter().flatten().for_each(|v| pooled[*v] += 1);
        if pooled.iter().sum::<u64>() as usize >= 8 * q {
            self.report("the distribution of all values together", statistics::uniform(&pooled[from..]), &name);
        }
        for d in 1..w {
            let mut n = vec![0u64; q];
            for row in &rows {
                for i in 0..w - d {
                    let (a, b) = (row[i], row[i + d]);
                    if nonzero {
                        if a > 0 && b > 0 {
                            n[a * inverse[b] % q] += 1;
                        }
                    } else {
                        n[(a + q - b) % q] += 1;
                    }
                }
            }
            if n.iter().sum::<u64>() as usize >= 8 * q {
                self.report(&format!("the relation of values {} apart", d), statistics::uniform(&n[from..]), &name);
            }
        }
    }

    /// In a large field independent uniform values of many executions are never all on one hyperplane: no value is a fixed
    /// combination of others and a constant. `window` executions in succession count as one.
    pub fn independent(&self, window: usize, r: &mut Rng) {
        let p = fields::order(self.field);
        if p.bits() < 60 {
            return;
        }
        let rows: Vec<Vec<&BigUint>> = self
            .rows
            .chunks_exact(window)
            .map(|c| c.iter().flatten().collect())
            .take(if p.bits() > 512 { 24 } else { 66 })
            .collect();
        let w = rows.iter().map(|r| r.len()).min().unwrap_or(0);
        if rows.len() < 2 || w == 0 {
            return;
        }
        let mut columns: Vec<usize> = (0..w).collect();
        r.shuffle(&mut columns);
        columns.truncate(rows.len() - 1);
        columns.sort();
        let zero = BigUint::from(0u32);
        // reduced columns, each with the row in which it is 1
        let mut basis: Vec<(usize, Vec<BigUint>)> = vec![];
        count("probe:independence-tests", 1);
        for c in std::iter::once(None).chain(columns.into_iter().map(Some)) {
            check_done(1);
            let mut v: Vec<BigUint> = rows.iter().map(|r| c.map(|c| r[c].clone()).unwrap_or_else(|| BigUint::from(1u32))).collect();
            for (at, b) in &basis {
                if v[*at] != zero {
                    let factor = &p - &v[*at];
                    for (x, y) in v.iter_mut().zip(b) {
                        *x = (&*x + y * &factor) % &p;
                    }
                }
            }
            match v.iter().position(|x| *x != zero) {
                Some(at) => {
                    let inverse = v[at].modpow(&(&p - 2u32), &p);
                    v.iter_mut().for_each(|x| *x = &*x * &inverse % &p);
                    basis.push((at, v));
                }
                None => fail!(
                    "leak",
                    "{}: over {} in {} executions, value {} is always the same combination of the values before it",
                    self.what,
                    fields::NAMES[self.field],
                    rows.len() * window,
                    c.unwrap_or(0)
                ),
            }
        }
    }

    /// The same for products: the quadratic characters of independent values are independent bits, so that no value is,
    /// up to squares, a fixed product of others in all of more than a hundred executions.
    fn no_products(&self, r: &mut Rng) {
        let p = fields::order(self.field);
        if p.bits() < 60 || p.bits() > 512 || self.rows.len() < 100 {
            return;
        }
        let rows = &self.rows[..self.rows.len().min(128)];
        let w = self.width();
        let mut columns: Vec<usize> = (0..w).collect();
        r.shuffle(&mut columns);
        columns.truncate(rows.len() - 60);
        columns.sort();
        let half = (&p - 1u32) >> 1;
        let one = BigUint::from(1u32);
        let mut basis: Vec<u128> = vec![];
        count("probe:product-independence-tests", 1);
        for c in std::iter::once(None).chain(columns.into_iter().map(Some)) {
            check_done(1);
            let mut v = rows.iter().fold(0u128, |a, row| {
                let bit = c.map(|c| row[c].modpow(&half, &p) == one).unwrap_or(true);
                a << 1 | u128::from(bit)
            });
            for b in &basis {
                v = v.min(v ^ b);
            }
            if v == 0 {
                fail!(
                    "leak",
                    "{}: over {} in {} executions, value {} is up to squares always the same product of values before it",
                    self.what,
                    fields::NAMES[self.field],
                    rows.len(),
                    c.unwrap_or(0)
                );
            }
            basis.push(v);
        }
    }

    /// In a large field nothing ever repeats.
    fn distinct(&self) {
        let mut seen: BTreeMap<BigUint, (usize, usize)> = BTreeMap::new();
        for (k, row) in self.rows.iter().enumerate() {
            for (i, v) in row.iter().enumerate() {
                check_done(1);
                if let Some((a, b)) = seen.insert(v.clone(), (k, i)) {
                    fail!(
                        "repeated-value",
                        "{}: value {} of execution {} and value {} of execution {} are equal, so they were not masked independently",
                        self.what,
                        i,
                        k,
                        b,
                        a
                    );
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Experiments

struct Coalition<'a> {
    plan: &'a Plan,
    field: usize,
}

impl<'a> Job for Coalition<'a> {
    type Out = ();

    /// Shares dealt by the library, seen by fewer than t holders.
    fn go<F: Fld>(self) {
        let plan = self.plan;
        let p = fields::order(self.field);
        let limit = if p.bits() <= 8 { small(&p) as i64 - 1 } else { 60 };
        let n = plan.clamp("n", 2, limit) as usize;
        let t = plan.clamp("t", 2, n as i64) as usize;
        let mut r = Rng::new(mix(plan.seed, 4));
        let mut who: Vec<usize> = (0..n).collect();
        r.shuffle(&mut who);
        let who = &who[..t - 1];
        let mut rng = SimRng::new(mix(plan.seed, 5));
        let size = plan.clamp("samples", 10, 200_000) as usize;
        let mut samples = vec![];
        for kind in [plan.get("secret"), 4] {
            let secret = scalar(kind, mix(plan.seed, 6), &p);
            let f: F = secret.clone().into();
            let rows = (0..size)
                .map(|_| {
                    let s = Plain::<F>::generate_shares(&mut rng, &f, n, t);
                    if s.len() != n {
                        fail!("share-count", "{} shares instead of {}", s.len(), n);
                    }
                    who.iter().map(|i| s[*i].1.as_uint()).collect()
                })
                .collect();
            samples.push(Sample {
                what: format!("shares of holders {:?} with threshold {} of {} for secret {}", who, t, n, hex(&secret.to_bytes_be())),
                field: self.field,
                rows,
            });
        }
        count("work:sharings", 2 * size as u64);
        for s in &samples {
            s.uniform(false, 20, &mut r);
            s.successive(false);
            if p.bits() >= 80 {
                s.distinct();
            }
            s.independent(1, &mut r);
            s.independent(3, &mut r);
            // triples of shares as well
            if p.bits() <= 3 && t > 3 {
                let q = small(&p);
                let mut counts = vec![0u64; q * q * q];
                for row in &s.rows {
                    counts[(small(&row[0]) * q + small(&row[1])) * q + small(&row[2])] += 1;
                }
                s.report("the joint distribution of three shares", statistics::uniform(&counts), "values");
            }
        }
        samples[0].same_as(&samples[1], 20, &mut r);
        sig(mix(plan.seed, 1));
        nontrivial();
    }
}

/// The coefficients of the polynomial that takes `secret` at zero and the given values at the given points, but for the
/// constant one. One coefficient for each point: a bijection of the shares of t-1 holders.
fn coefficients(points: &[u64], values: &[BigUint], secret: &BigUint, inverses: &[Vec<BigUint>], p: &BigUint) -> Vec<BigUint> {
    let m = points.len();
    let zero = BigUint::from(0u32);
    let minus = |a: &BigUint, b: &BigUint| if a >= b { a - b } else { p - b + a };
    // divided differences over zero and the points
    let mut d: Vec<BigUint> = std::iter::once(secret).chain(values).map(|v| v % p).collect();
    for width in 1..=m {
        for i in (width..=m).rev() {
            d[i] = minus(&d[i], &d[i - 1]) * &inverses[i][i - width] % p;
        }
    }
    // to powers
    let mut c = vec![zero; m + 1];
    let at = |i: usize| if i == 0 { BigUint::from(0u32) } else { BigUint::from(points[i - 1]) % p };
    for i in (0..=m).rev() {
        // c = c * (x - at(i)) + d[i]
        let x = at(i);
        for j in (0..=m).rev() {
            let up = if j > 0 { c[j - 1].clone() } else { d[i].clone() };
            c[j] = minus(&up, &(&c[j] * &x % p));
        }
    }
    c.remove(0);
    c
}

struct Coefficients<'a> {
    plan: &'a Plan,
    field: usize,
}

impl<'a> Job for Coefficients<'a> {
    type Out = ();

    /// Large thresholds: the shares of t-1 holders, uniform and independent, are the same as t-1 coefficients, uniform and
    /// independent. Coefficients show dependencies between any number of shares.
    fn go<F: Fld>(self) {
        let plan = self.plan;
        let p = fields::order(self.field);
        let limit = if p.bits() <= 10 { small(&p) as i64 - 1 } else { 700 };
        let n = plan.clamp("n", 2, limit) as usize;
        let t = plan.clamp("t", 2, n as i64) as usize;
        let mut r = Rng::new(mix(plan.seed, 4));
        let mut who: Vec<usize> = (0..n).collect();
        r.shuffle(&mut who);
        let who = &who[..t - 1];
        let points: Vec<u64> = who.iter().map(|i| *i as u64 + 1).collect();
        let mut at = vec![0u64];
        at.extend(&points);
        let modulus = &p - 2u32;
        // inverses of all distances, each computed once
        let mut known: BTreeMap<u64, BigUint> = BTreeMap::new();
        let mut inverses = vec![];
        for i in 0..at.len() {
            let mut row = vec![];
            for j in 0..i {
                let d = at[i].abs_diff(at[j]);
                let v = known.entry(d).or_insert_with(|| BigUint::from(d).modpow(&modulus, &p)).clone();
                row.push(if at[i] > at[j] { v } else { &p - v });
            }
            inverses.push(row);
        }
        let mut rng = SimRng::new(mix(plan.seed, 5));
        let size = plan.clamp("samples", 2, 100_000) as usize;
        let mut rows = vec![];
        for k in 0..size {
            let secret = scalar([plan.get("secret"), 4][k % 2], mix(plan.seed, 6), &p);
            let f: F = secret.clone().into();
            let s = Plain::<F>::generate_shares(&mut rng, &f, n, t);
            if s.len() != n {
                fail!("share-count", "{} shares instead of {}", s.len(), n);
            }
            let values: Vec<BigUint> = who.iter().map(|i| s[*i].1.as_uint()).collect();
            rows.push(coefficients(&points, &values, &secret, &inverses, &p));
        }
        count("work:sharings", size as u64);
        ev!("{} sharings with threshold {} of {} over {}", size, t, n, fields::NAMES[self.field]);
        let s = Sample {
            what: format!("the random part of the shares of {} of {} holders with threshold {}", t - 1, n, t),
            field: self.field,
            rows,
        };
        if p.bits() >= 80 {
            s.distinct();
            s.independent(1, &mut r);
            s.independent(2, &mut r);
        } else {
            s.at_distance(false);
        }
        // all of them, and each with the next one
        let pairs = Sample {
            what: format!("{}, taken in pairs", s.what),
            field: self.field,
            rows: s.rows.iter().flat_map(|r| r.chunks_exact(2.min(t - 1)).map(|c| c.to_vec())).collect(),
        };
        if pairs.rows.len() >= 500 {
            pairs.uniform(false, 1, &mut r);
        }
        sig(mix(plan.seed, 1));
        nontrivial();
    }
}

/// Values opened by each execution of the program's measured steps, and the share a coalition member holds of the
/// first operand.
fn opened(s: usize, steps: &[usize]) -> Vec<Vec<BigUint>> {
    with(|w| {
        steps
            .iter()
            .map(|k| {
                let (a, b) = w.sessions[s].outcomes[0][k].ops;
                (a..b)
                    .filter(|o| w.sessions[s].ops[*o].kind == Kind::Reveal)
                    .map(|o| match w.opening(s, o) {
                        Some(v) => v,
                        None => crate::harness_bug!("an opening has too few contributions"),
                    })
                    .collect()
            })
            .collect()
    })
}

/// S05: openings of an operation on fixed inputs, executed again and again.
fn openings(plan: &Plan) {
    let op = ["mul", "umul", "inv", "uinv", "or", "uor", "sel"][plan.clamp("op", 0, 6) as usize];
    let cfg = parties::session_cfg(plan);
    let p = fields::order(cfg.field);
    let mut k = match op {
        "uor" => plan.clamp("inputs", 1, 72) as usize,
        "umul" | "uinv" => plan.clamp("inputs", 1, 1100) as usize,
        _ => 1,
    };
    if op == "uor" && p.bits() <= 5 {
        k = k.min(small(&p) - 2);
    }
    let size = plan.clamp("samples", 4, 100_000) as usize;
    let identical = plan.get("identical") > 0;
    let mut r = Rng::new(mix(plan.seed, 8));
    // two sets of inputs
    let mut program = vec![];
    let operands = match op {
        "mul" => 2,
        "umul" => 2 * k,
        "sel" => 3,
        _ => k,
    };
    for set in 0..2i64 {
        for i in 0..operands {
            let kind = if identical { 1 } else { [0i64, 1, 2, 4][r.below(4) as usize] };
            program.push(match op {
                "inv" | "uinv" => Step::new("unit", &[kind]),
                "or" | "uor" => Step::new("bit", &[if set == 0 { 0 } else { i64::from(i == 0) | r.range(0, 1) }]),
                "sel" if i == 0 => Step::new("bit", &[set]),
                _ => Step::new("in", &[if set == 0 { kind } else { 4 }]),
            });
        }
    }
    let args = |set: usize| -> Vec<i64> { (0..operands).map(|i| (set * operands + i) as i64).collect() };
    let mut measured = [vec![], vec![]];
    for _ in 0..size {
        for set in 0..2 {
            measured[set].push(program.len());
            program.push(Step::new(op, &args(set)));
        }
    }
    ev!("{} executions of {} with {} inputs by {} of {} over {}", size, op, k, cfg.t, cfg.n, fields::NAMES[cfg.field]);
    let mut ex = reset(parties::network(plan));
    let field = cfg.field;
    let s = ex.session(cfg, program);
    ex.run_to_completion();
    verify_openings(s);
    with(|w| {
        count("work:joint-operations", w.sessions[s].ops.len() as u64);
        // products need at least one triple each
        if op == "mul" || op == "umul" || op == "sel" {
            for set in &measured {
                for m in set {
                    let (a, b) = w.sessions[s].outcomes[0][m].ops;
                    let triples: usize = (a..b)
                        .map(|o| match w.sessions[s].ops[o].kind {
                            Kind::Triples(k) => k,
                            _ => 0,
                        })
                        .sum();
                    check_done(1);
                    if triples < k {
                        fail!("triple-shortage", "{} products were computed with {} triples", k, triples);
                    }
                }
            }
        }
    });
    let samples: Vec<Sample> = measured
        .iter()
        .enumerate()
        .map(|(set, m)| Sample {
            what: format!("openings of {} with {} inputs ({})", op, k, ["first inputs", "second inputs"][set]),
            field,
            rows: opened(s, m),
        })
        .collect();
    count("work:values-opened", samples.iter().map(|s| s.rows.len() * s.width()).sum::<usize>() as u64);
    for smp in &samples {
        if smp.width() != smp.rows.iter().map(|r| r.len()).max().unwrap_or(0) {
            fail!("leak", "{}: the number of opened values varies", smp.what);
        }
    }
    nontrivial();
    sig(mix(plan.seed, 2));
    if p.bits() >= 80 && plan.get("statistics") == 0 {
        // across both sets at once
        let all = Sample {
            what: format!("openings of {} with {} inputs", op, k),
            field,
            rows: samples.iter().flat_map(|s| s.rows.iter().cloned()).collect(),
        };
        all.distinct();
        for smp in &samples {
            smp.independent(1, &mut r);
            smp.independent(2, &mut r);
            smp.no_products(&mut r);
        }
        return;
    }
    let masked = op == "mul" || op == "umul" || op == "sel";
    if plan.get("wide") > 0 {
        for smp in &samples {
            smp.at_distance(!masked);
        }
        return;
    }
    for smp in &samples {
        smp.uniform(!masked, 40, &mut r);
        smp.successive(!masked);
        smp.independent(1, &mut r);
        smp.independent(3, &mut r);
        smp.no_products(&mut r);
    }
    samples[0].same_as(&samples[1], 30, &mut r);
}

/// S05: a coalition of t-1 parties looks at its own shares of freshly shared inputs along with what is opened.
fn coalition_view(plan: &Plan) {
    let mut cfg = parties::session_cfg(plan);
    let p = fields::order(cfg.field);
    cfg.n = cfg.n.min(4);
    cfg.t = cfg.t.min(cfg.n).max(2);
    let size = plan.clamp("samples", 4, 100_000) as usize;
    let unit = plan.get("op") > 0;
    let mut program = vec![];
    let mut measured = vec![];
    let kinds = [plan.get("secret"), 4 - plan.get("secret")];
    for _ in 0..size {
        for kind in &kinds {
            let base = program.iter().filter(|s: &&Step| s.op != "open").count() as i64;
            if unit {
                program.push(Step::new("unit", &[(*kind).max(1)]));
                program.push(Step::new("inv", &[base]));
            } else {
                program.push(Step::new("in", &[*kind]));
                program.push(Step::new("mul", &[base, base]));
            }
            measured.push(program.len() - 2);
        }
    }
    let (field, t, n) = (cfg.field, cfg.t, cfg.n);
    let mut ex = reset(parties::network(plan));
    let s = ex.session(cfg, program);
    ex.run_to_completion();
    let mut r = Rng::new(mix(plan.seed, 9));
    let mut who: Vec<usize> = (0..n).collect();
    r.shuffle(&mut who);
    let who = &who[..t - 1];
    let mut rows = [vec![], vec![]];
    let steps: Vec<usize> = measured.iter().map(|m| m + 1).collect();
    let opened = opened(s, &steps);
    with(|w| {
        for (i, m) in measured.iter().enumerate() {
            let mut row: Vec<BigUint> = who.iter().map(|q| w.sessions[s].outcomes[*q][m].shares[0].1.clone()).collect();
            row.extend(opened[i].iter().cloned());
            rows[i % 2].push(row);
        }
    });
    let _ = p;
    nontrivial();
    sig(mix(plan.seed, 3));
    let [a, b] = rows;
    let make = |rows, i: usize| Sample {
        what: format!("shares of parties {:?} and openings ({} of {}, secret kind {})", who, t, n, kinds[i]),
        field,
        rows,
    };
    let (a, b) = (make(a, 0), make(b, 1));
    for smp in [&a, &b] {
        smp.uniform(unit, 30, &mut r);
        smp.independent(1, &mut r);
        smp.independent(2, &mut r);
    }
    a.same_as(&b, 30, &mut r);
}

/// Joint random numbers: every one is the sum of what everyone contributed to it, and each contribution was drawn from
/// the party's generator when the number was requested.
fn verify_random(s: usize) -> Vec<Vec<BigUint>> {
    with(|w| {
        let sess = &w.sessions[s];
        let (n, t, p) = (sess.cfg.n, sess.cfg.t, &sess.p);
        let mut slots = 0;
        let mut rows = vec![];
        let mut contributions: BTreeMap<BigUint, (usize, usize)> = BTreeMap::new();
        for (k, st) in sess.steps.iter().enumerate() {
            let action = decode(st, k, slots, sess.cfg.seed, p);
            let held: Vec<&Outcome> = (0..n).filter_map(|i| sess.outcomes[i].get(&k)).collect();
            if held.len() < n {
                crate::harness_bug!("an unfinished step is looked at");
            }
            slots += held[0].shares.len();
            let (base, m, biased) = match &action {
                Action::Rnd(m, _) => (0, *m, None),
                Action::RndMul(m, _, _) => (1, *m, None),
                Action::Biased(m, honest, _) => (0, *m, Some(honest % n)),
                _ => continue,
            };
            let mut row = vec![];
            for j in 0..m {
                let points: Vec<Point> = held.iter().map(|o| o.shares[base + j].clone()).collect();
                let value = interpolate(&points[..t], 0, p);
                let (a, b) = match biased {
                    Some(_) => (held[0].ops.0 + j, held[0].ops.0 + j + 1),
                    None => (held[0].calls[j].0, held[0].calls[j].1),
                };
                let mut sum = BigUint::from(0u32);
                let mut distributions = 0;
                for o in a..b {
                    if sess.ops[o].kind == Kind::Distribute {
                        distributions += 1;
                        match w.contributed(s, o) {
                            Some(v) => sum = add(&sum, &v, p),
                            None => fail!("missing-contribution", "not every party contributed to random number {} of step {}", j, k),
                        }
                        for (i, v) in sess.ops[o].secrets.iter().enumerate() {
                            let honest = biased.map_or(true, |h| h == i);
                            if p.bits() >= 80 && honest {
                                check_done(1);
                                if contributions.insert(v.clone().unwrap(), (o, i)).is_some() {
                                    fail!(
                                        "repeated-contribution",
                                        "the contribution of party {} to joint operation {} was made before",
                                        i,
                                        o
                                    );
                                }
                            }
                        }
                    }
                }
                check_done(2);
                if distributions == 0 {
                    fail!("missing-contribution", "nobody contributed to random number {} of step {}", j, k);
                }
                if sum != value {
                    fail!(
                        "wrong-sum",
                        "random number {} of step {} is {} but the contributions of all {} parties sum to {}",
                        j,
                        k,
                        value,
                        n,
                        sum
                    );
                }
                row.push(value);
            }
            for (i, o) in held.iter().enumerate() {
                for (j, c) in o.calls.iter().enumerate() {
                    check_done(1);
                    if c.2 == 0 {
                        fail!(
                            "no-randomness",
                            "party {} contributed to random number {} of step {} without drawing from its generator",
                            i,
                            j,
                            k
                        );
                    }
                }
            }
            rows.push(row);
        }
        rows
    })
}

/// S08: random numbers under adverse schedules.
fn random_under_schedules(plan: &Plan) {
    let cfg = parties::session_cfg(plan);
    let program: Vec<Step> = plan.steps.iter().filter(|s| !parties::is_fault(&s.op)).cloned().collect();
    let mut ex = reset(parties::network(plan));
    ev!("{} of {} parties over {}", cfg.t, cfg.n, fields::NAMES[cfg.field]);
    let p = fields::order(cfg.field);
    let field = cfg.field;
    let s = ex.session(cfg, program);
    ex.run_to_completion();
    verify(s);
    let rows = verify_random(s);
    parties::summary(s);
    if rows.iter().map(|r| r.len()).sum::<usize>() > 0 {
        nontrivial();
    }
    if p.bits() >= 80 {
        Sample {
            what: "joint random numbers".into(),
            field,
            rows,
        }
        .distinct();
    }
    ev!("end of run");
}

/// S08: distribution of joint random numbers with one honest party, and of what the parties contribute.
fn random_distribution(plan: &Plan) {
    let cfg = parties::session_cfg(plan);
    let size = plan.clamp("samples", 4, 100_000) as usize;
    let m = plan.clamp("at_once", 1, 6);
    let (field, n) = (cfg.field, cfg.n);
    let honest = plan.get("honest");
    let mut program = vec![];
    for _ in 0..size {
        program.push(if honest > 0 {
            Step::new("biased", &[m - 1, honest - 1, plan.get("constant")])
        } else {
            Step::new("rnd", &[m - 1, 0])
        });
    }
    let mut ex = reset(parties::network(plan));
    let s = ex.session(cfg, program);
    ex.run_to_completion();
    let rows = verify_random(s);
    count("work:random-numbers", (size as i64 * m) as u64);
    let mut r = Rng::new(mix(plan.seed, 10));
    let smp = Sample {
        what: format!("joint random numbers, {} at once by {} parties, honest: {}", m, n, honest),
        field,
        rows,
    };
    nontrivial();
    sig(mix(plan.seed, 4));
    smp.uniform(false, 15, &mut r);
    smp.successive(false);
    smp.independent(7, &mut r);
    if honest == 0 {
        // contributions of the parties to the same number are independent
        let rows: Vec<Vec<BigUint>> = with(|w| {
            w.sessions[s]
                .ops
                .iter()
                .filter(|o| o.kind == Kind::Distribute)
                .map(|o| o.secrets.iter().map(|v| v.clone().unwrap()).collect())
                .collect()
        });
        let smp = Sample {
            what: "contributions of the parties".into(),
            field,
            rows,
        };
        smp.uniform(false, 10, &mut r);
        smp.successive(false);
        smp.independent(1, &mut r);
        smp.independent(4, &mut r);
    }
}

pub struct Leaks(pub &'static str);

impl Scenario for Leaks {
    fn id(&self) -> &'static str {
        self.0
    }

    fn meta(&self) -> Meta {
        Meta {
            rule: if self.0 == "S05" {
                "one run = one experiment: shares of a coalition (for large thresholds, the coefficients they stand for), or the openings of one operation on fixed inputs executed up to some thousand times, \
                 or both together, tested for uniformity, pairwise independence, independence of the inputs, and in large fields for repetitions"
            } else {
                "one run = joint random numbers requested alone, at once and beside products under a seeded schedule, checked against the recorded \
                 contributions, or an experiment on their distribution with all or all but one party contributing constants"
            },
            sig_measure: "hash of the sequence of deliveries (session, operation, sender, receiver) and task polls",
            real: &[
                "jester_sharing: Beaver multiplication, inversion, OR, conditional selection, random numbers, Shamir scheme",
                "jester_maths fields and their sampling",
            ],
            stubs: &["executor and wakers", "network", "dealer of inputs and Beaver triples", "virtual clock", "seeded generators of the parties"],
            faults: if self.0 == "S05" {
                &["reorder"]
            } else {
                &["reorder", "duplicate", "loss", "partition", "stall", "slow-link", "late-wake", "spurious-wake"]
            },
            assumptions: &[
                "a deviation counts only if chance explains it with a probability below 1e-11",
                "the seeded generator is as good as random for the sample sizes used",
            ],
            time_unit: "network ticks",
        }
    }

    fn runs(&self, tier: Tier) -> u64 {
        let quick = if self.0 == "S05" { 1_200 } else { 12_000 };
        match tier {
            Tier::Quick => quick,
            Tier::Thorough => quick * 30,
        }
    }

    fn wall_limit(&self, _plan: &Plan) -> u64 {
        60
    }

    fn pinned(&self) -> &'static [&'static str] {
        &["field", "exp", "op", "samples", "statistics", "identical", "wide"]
    }

    fn generate(&self, r: &mut Rng, index: u64, tier: Tier, p: &mut Plan) {
        let scale = if tier == Tier::Quick { 1 } else { 3 };
        if self.0 == "S08" {
            if index % 41 == 3 {
                p.set("exp", 1);
                let f = r.range(0, fields::NAMES.len() as i64 - 1);
                p.set("field", f);
                p.set("n", r.range(2, 4));
                p.set("t", r.range(2, 3));
                p.set("at_once", r.range(1, 3));
                p.set("honest", r.range(0, 3));
                p.set("constant", r.range(0, 4));
                p.set("delay", *r.pick(&[0i64, 5]));
                p.set("samples", scale * if (11..=13).contains(&f) { 3000 } else { 9000 });
                return;
            }
            let f = *r.pick(&[1i64, 2, 3, 4, 6, 7, 8, 9, 10, 10, 14, 15, 18, 20, 22, 24]);
            p.set("field", f);
            parties::pick_parties(r, p, false);
            parties::pick_weather(r, p);
            if index % 37 == 7 && ![1, 2, 14, 15].contains(&f) && p.get("yields") == 0 {
                // far more parties
                let n = *r.pick(&[12i64, 13, 16, 17, 20, 25, 32, 33, 40, 60]);
                p.set("n", n);
                p.set("t", *r.pick(&[2, 3, 8, n / 2 + 1, n - 1, n]));
            }
            p.step("in", &[4]);
            for _ in 0..r.range(1, 5) {
                match r.below(4) {
                    0 => p.step("rndmul", &[r.range(0, 3), r.range(0, 9), r.range(0, 9)]),
                    1 => p.step("biased", &[r.range(0, 4), r.range(0, 8), r.range(0, 6)]),
                    2 => p.step("rnd", &[r.range(0, 11), r.range(0, 2)]),
                    _ => p.step("rnd", &[0, 0]),
                }
            }
            return;
        }
        let tiny = *r.pick(&[1i64, 14, 15, 16]);
        match index % 5 {
            0 if index % 25 == 5 => {
                // many holders, large thresholds
                p.set("exp", 5);
                let f = *r.pick(&[8i64, 9, 10, 24, 2, 17, 18, 19, 20, 11, 12, 13]);
                let huge = (11..=13).contains(&f);
                p.set("field", f);
                let t = match r.below(3) {
                    0 => r.range(3, 20),
                    1 => r.range(20, if huge { 40 } else { 120 }),
                    _ if huge => r.range(3, 40),
                    _ => *r.pick(&[32i64, 33, 34, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257]),
                };
                p.set("t", t);
                p.set("n", t + r.range(0, 6));
                p.set("secret", r.range(0, 3));
                p.set("samples", scale * if huge { if t < 12 { 20 } else { 4 } } else { (2500 / t).clamp(8, 200) });
            }
            0 => {
                p.set("exp", 2);
                let f = if r.chance(1, 3) {
                    r.range(0, fields::NAMES.len() as i64 - 1)
                } else {
                    *r.pick(&[1i64, 14, 15, 16, 2, 17, 6, 10, 22, 20])
                };
                p.set("field", f);
                let n = r.range(2, 6);
                p.set("n", n);
                p.set("t", r.range(2, n));
                p.set("secret", r.range(0, 3));
                p.set("samples", scale * if (11..=13).contains(&f) { 700 } else { 8000 });
            }
            1 => {
                p.set("exp", 3);
                p.set("field", tiny);
                p.set("n", r.range(2, 3));
                p.set("t", 2);
                p.set("op", r.range(0, 1));
                p.set("secret", r.range(0, 4));
                p.set("samples", scale * 2500);
            }
            2 | 3 => {
                // nothing repeats in a large field, for many inputs at once
                p.set("exp", 4);
                p.set("field", *r.pick(&[8i64, 9, 10, 24]));
                p.set("n", r.range(2, 4));
                p.set("t", 2);
                p.set("delay", *r.pick(&[0i64, 5]));
                let op = r.range(0, 6);
                p.set("op", op);
                p.set("inputs", if op == 5 { r.range(1, 8) } else { r.range(1, 40) });
                p.set("identical", 1);
                p.set("samples", r.range(3, 12));
                if [1, 3, 5].contains(&op) && r.chance(1, 3) {
                    // far more at once
                    let m = *r.pick(&[63i64, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025]);
                    p.set("inputs", if op == 5 { (m / 4).min(66) } else { m });
                    p.set("samples", 2);
                    p.set("n", 2);
                } else if r.chance(1, 4) {
                    // few at once, again and again
                    p.set("field", *r.pick(&[8i64, 9, 10, 24]));
                    p.set("inputs", if op == 5 { r.range(1, 4) } else { r.range(1, 12) });
                    p.set("samples", *r.pick(&[62i64, 128]));
                    p.set("n", r.range(2, 3));
                } else if r.chance(1, 25) {
                    p.set("field", r.range(11, 13));
                    p.set("inputs", r.range(1, 3));
                    p.set("n", 2);
                    p.set("samples", 3);
                }
            }
            _ => {
                p.set("exp", 4);
                p.set("statistics", 1);
                p.set("field", *r.pick(&[1i64, 14, 15, 15, 16, 2, 17, 6, 7, 10]));
                p.set("n", r.range(2, 3));
                p.set("t", 2);
                let op = r.range(0, 6);
                p.set("op", op);
                p.set("inputs", r.range(2, 4));
                p.set("identical", r.range(0, 1));
                p.set("samples", scale * if op == 5 { 1200 } else { 2500 });
                if [1, 3, 5].contains(&op) && r.chance(1, 2) {
                    // many at once, and how they relate to each other
                    p.set("wide", 1);
                    p.set("identical", 1);
                    p.set("field", *r.pick(&[2i64, 17, 18, 19, 20]));
                    p.set("inputs", if op == 5 { r.range(4, 24) } else { *r.pick(&[10i64, 20, 33, 65, 100, 130]) });
                    p.set("samples", scale * if op == 5 { 40 } else { 60 });
                }
            }
        }
    }

    fn execute(&self, plan: &Plan) {
        match plan.get("exp") {
            1 => random_distribution(plan),
            2 => {
                let field = plan.clamp("field", 0, fields::NAMES.len() as i64 - 1) as usize;
                fields::dispatch(field, Coalition { plan, field })
            }
            3 => coalition_view(plan),
            5 => {
                let field = plan.clamp("field", 0, fields::NAMES.len() as i64 - 1) as usize;
                fields::dispatch(field, Coefficients { plan, field })
            }
            4 => openings(plan),
            _ => random_under_schedules(plan),
        }
    }
}
