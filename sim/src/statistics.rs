//! Chi-square tests for the statistical experiments.

fn ln_gamma(x: f64) -> f64 {
    // Lanczos approximation
    const C: [f64; 8] = [
        676.5203681218851,
        -1259.1392167224028,
        771.32342877765313,
        -176.61502916214059,
        12.507343278686905,
        -0.13857109526572012,
        9.9843695780195716e-6,
        1.5056327351493116e-7,
    ];
    let x = x - 1.0;
    let t = x + 7.5;
    let mut a = 0.99999999999980993;
    for (i, c) in C.iter().enumerate() {
        a += c / (x + i as f64 + 1.0);
    }
    0.5 * (2.0 * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

/// Upper tail of the regularised incomplete gamma function.
fn gamma_q(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 1.0;
    }
    if x < a + 1.0 {
        let mut sum = 1.0 / a;
        let mut term = sum;
        let mut n = a;
        for _ in 0..100_000 {
            n += 1.0;
            term *= x / n;
            sum += term;
            if term < sum * 1e-16 {
                break;
            }
        }
        1.0 - sum * (-x + a * x.ln() - ln_gamma(a)).exp()
    } else {
        let mut b = x + 1.0 - a;
        let mut c = 1e300;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..100_000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < 1e-300 {
                d = 1e-300;
            }
            c = b + an / c;
            if c.abs() < 1e-300 {
                c = 1e-300;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            if (del - 1.0).abs() < 1e-15 {
                break;
            }
        }
        (-x + a * x.ln() - ln_gamma(a)).exp() * h
    }
}

/// Probability that a chi-square variable with `dof` degrees of freedom exceeds `chi2`.
pub fn p_value(chi2: f64, dof: usize) -> f64 {
    gamma_q(dof as f64 / 2.0, chi2 / 2.0)
}

/// Chi-square statistic of `counts` against the uniform distribution.
pub fn uniform(counts: &[u64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let e = n as f64 / counts.len() as f64;
    let chi2 = counts.iter().map(|c| (*c as f64 - e) * (*c as f64 - e) / e).sum();
    p_value(chi2, counts.len() - 1)
}

/// Chi-square statistic of a sample in `cells` classes against given expected probabilities.
pub fn expected(counts: &[u64], probabilities: &[f64]) -> f64 {
    let n: u64 = counts.iter().sum();
    let chi2 = counts
        .iter()
        .zip(probabilities)
        .map(|(c, p)| {
            let e = n as f64 * p;
            (*c as f64 - e) * (*c as f64 - e) / e
        })
        .sum();
    p_value(chi2, counts.len() - 1)
}

/// Whether two samples over the same classes come from one distribution.
pub fn homogeneous(a: &[u64], b: &[u64]) -> f64 {
    let (na, nb): (u64, u64) = (a.iter().sum(), b.iter().sum());
    let mut chi2 = 0.0;
    let mut dof = 0usize;
    for (x, y) in a.iter().zip(b) {
        let t = (x + y) as f64;
        if t == 0.0 {
            continue;
        }
        dof += 1;
        let ea = t * na as f64 / (na + nb) as f64;
        let eb = t * nb as f64 / (na + nb) as f64;
        chi2 += (*x as f64 - ea).powi(2) / ea + (*y as f64 - eb).powi(2) / eb;
    }
    if dof < 2 {
        return 1.0;
    }
    p_value(chi2, dof - 1)
}

/// Below this a deviation counts as a violation. The checks make some thousands of tests per run, so that the chance of
/// a false alarm stays below one in ten million.
pub const ALARM: f64 = 1e-11;
