//! Tests with explicit, tiny false-alarm probabilities.

/// Chernoff exponent of observing `n` events when the compensator (expected number) is `lam`:
/// P <= exp(-result) on either side.
pub fn poisson_dev(n: f64, lam: f64) -> f64 {
    if lam <= 0.0 {
        return if n > 0.0 { f64::INFINITY } else { 0.0 };
    }
    if n == 0.0 {
        return lam;
    }
    n * (n / lam).ln() - n + lam
}

/// sqrt(n) * Kolmogorov-Smirnov distance of `v` from the unit exponential (v is sorted in place)
pub fn ks_exp(v: &mut [f64]) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ks_sorted(v, |x| 1.0 - (-x).exp())
}
/// sqrt(n) * Kolmogorov-Smirnov distance from U(0,1)
pub fn ks_uniform(v: &mut [f64]) -> f64 {
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ks_sorted(v, |x| x.clamp(0.0, 1.0))
}
fn ks_sorted(v: &[f64], cdf: impl Fn(f64) -> f64) -> f64 {
    let n = v.len() as f64;
    let mut d: f64 = 0.0;
    for (i, &x) in v.iter().enumerate() {
        let f = cdf(x);
        d = d.max((f - i as f64 / n).abs()).max(((i as f64 + 1.0) / n - f).abs());
    }
    d * n.sqrt()
}

/// Chernoff exponent for a binomial count: n trials, k successes, probability p
pub fn binom_dev(k: f64, n: f64, p: f64) -> f64 {
    if n == 0.0 {
        return 0.0;
    }
    let t = |a: f64, b: f64| if a == 0.0 { 0.0 } else { a * (a / b).ln() };
    if (p <= 0.0 && k > 0.0) || (p >= 1.0 && k < n) {
        return f64::INFINITY;
    }
    t(k, n * p) + t(n - k, n * (1.0 - p))
}

/// Correlation coefficient times sqrt(n): approximately standard normal under independence.
pub fn corr_z(a: &[f64], b: &[f64]) -> f64 {
    let n = a.len().min(b.len());
    if n < 10 {
        return 0.0;
    }
    let (ma, mb) = (mean(&a[..n]), mean(&b[..n]));
    let (mut sa, mut sb, mut sab) = (0.0, 0.0, 0.0);
    for i in 0..n {
        sa += (a[i] - ma) * (a[i] - ma);
        sb += (b[i] - mb) * (b[i] - mb);
        sab += (a[i] - ma) * (b[i] - mb);
    }
    if sa == 0.0 || sb == 0.0 {
        return 0.0;
    }
    sab / (sa * sb).sqrt() * (n as f64).sqrt()
}
pub fn mean(v: &[f64]) -> f64 {
    v.iter().sum::<f64>() / v.len() as f64
}

/// ln Gamma (Lanczos), independent of statrs
pub fn ln_gamma(x: f64) -> f64 {
    const G: f64 = 7.0;
    const C: [f64; 9] = [
        0.99999999999980993,
        676.5203681218851,
        -1259.1392167224028,
        771.32342877765313,
        -176.61502916214059,
        12.507343278686905,
        -0.13857109526572012,
        9.9843695780195716e-6,
        1.5056327351493116e-7,
    ];
    if x < 0.5 {
        return (std::f64::consts::PI / ((std::f64::consts::PI * x).sin().abs())).ln() - ln_gamma(1.0 - x);
    }
    let x = x - 1.0;
    let mut a = C[0];
    let t = x + G + 0.5;
    for (i, c) in C.iter().enumerate().skip(1) {
        a += c / (x + i as f64);
    }
    0.5 * (2.0 * std::f64::consts::PI).ln() + (x + 0.5) * t.ln() - t + a.ln()
}

/// regularised lower incomplete gamma P(a, x)
pub fn gamma_p(a: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if x.is_infinite() {
        return 1.0;
    }
    if x < a + 1.0 {
        let mut s = 1.0 / a;
        let mut t = s;
        let mut n = a;
        for _ in 0..10000 {
            n += 1.0;
            t *= x / n;
            s += t;
            if t.abs() < s.abs() * 1e-17 {
                break;
            }
        }
        s * (-x + a * x.ln() - ln_gamma(a)).exp()
    } else {
        let tiny = 1e-300;
        let mut b = x + 1.0 - a;
        let mut c = 1.0 / tiny;
        let mut d = 1.0 / b;
        let mut h = d;
        for i in 1..10000 {
            let an = -(i as f64) * (i as f64 - a);
            b += 2.0;
            d = an * d + b;
            if d.abs() < tiny {
                d = tiny;
            }
            c = b + an / c;
            if c.abs() < tiny {
                c = tiny;
            }
            d = 1.0 / d;
            let del = d * c;
            h *= del;
            if (del - 1.0).abs() < 1e-16 {
                break;
            }
        }
        1.0 - (-x + a * x.ln() - ln_gamma(a)).exp() * h
    }
}
pub fn chi2_cdf(k: f64, x: f64) -> f64 {
    gamma_p(k / 2.0, x / 2.0)
}

/// regularised incomplete beta I_x(a, b)
pub fn beta_inc(a: f64, b: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    if x >= 1.0 {
        return 1.0;
    }
    let bt = (ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (1.0 - x).ln()).exp();
    if x < (a + 1.0) / (a + b + 2.0) {
        bt * beta_cf(a, b, x) / a
    } else {
        1.0 - bt * beta_cf(b, a, 1.0 - x) / b
    }
}
fn beta_cf(a: f64, b: f64, x: f64) -> f64 {
    let tiny = 1e-300;
    let (qab, qap, qam) = (a + b, a + 1.0, a - 1.0);
    let mut c = 1.0;
    let mut d = 1.0 - qab * x / qap;
    if d.abs() < tiny {
        d = tiny;
    }
    d = 1.0 / d;
    let mut h = d;
    for m in 1..20000 {
        let m = m as f64;
        let aa = m * (b - m) * x / ((qam + 2.0 * m) * (a + 2.0 * m));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        h *= d * c;
        let aa = -(a + m) * (qab + m) * x / ((a + 2.0 * m) * (qap + 2.0 * m));
        d = 1.0 + aa * d;
        if d.abs() < tiny {
            d = tiny;
        }
        c = 1.0 + aa / c;
        if c.abs() < tiny {
            c = tiny;
        }
        d = 1.0 / d;
        let del = d * c;
        h *= del;
        if (del - 1.0).abs() < 1e-16 {
            break;
        }
    }
    h
}
pub fn f_cdf(d1: f64, d2: f64, x: f64) -> f64 {
    if x <= 0.0 {
        return 0.0;
    }
    beta_inc(d1 / 2.0, d2 / 2.0, d1 * x / (d1 * x + d2))
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn known_values() {
        assert!((ln_gamma(10.0) - 362880f64.ln()).abs() < 1e-12);
        assert!((chi2_cdf(2.0, 2.0) - (1.0 - (-1f64).exp())).abs() < 1e-13);
        assert!((f_cdf(5.0, 7.0, 1.0) - 0.5193).abs() < 0.02);
        assert!((f_cdf(2.0, 2.0, 3.0) - 0.75).abs() < 1e-12);
        assert!((beta_inc(3.0, 3.0, 0.5) - 0.5).abs() < 1e-12);
    }
}
