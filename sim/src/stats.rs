//! Statistical judgement. Thresholds are set so that a sound implementation trips one with probability
//! below about 1e-11 per test; for a fixed VERIF_SEED the outcome is deterministic anyway.
use crate::core::R;

extern "C" {
    fn erfc(x: f64) -> f64;
}
/// Gaussian tail probability.
pub fn q(x: f64) -> f64 {
    0.5 * unsafe { erfc(x / std::f64::consts::SQRT_2) }
}
const Z: f64 = 7.0;

/// Is z an independent standard Gaussian sequence, as far as its length can tell?
pub fn gaussian(what: &str, z: &[f64], lags: usize) -> R {
    let n = z.len();
    if let Some(i) = z.iter().position(|v| !v.is_finite()) {
        vio!("nonfinite", "{what}: noise sample {i} is {}", z[i]);
    }
    if n < 200 {
        return Ok(());
    }
    let nf = n as f64;
    moments(what, z, 0)?;
    // pieces of the stream
    if n >= 6400 {
        for (i, seg) in z.chunks_exact(n / 16).enumerate() {
            moments(what, seg, i * (n / 16))?;
        }
    }
    // tails: neither clipped nor heavy
    let max = z.iter().fold(0.0f64, |a, v| a.max(v.abs()));
    if 2.0 * q(max) * nf < 1e-11 {
        vio!("tails", "{what}: a sample of {max} standard deviations among {n}");
    }
    for t in [1.0, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5] {
        let p = q(t);
        for (side, cnt) in [("above", z.iter().filter(|&&v| v > t).count()), ("below minus", z.iter().filter(|&&v| v < -t).count())] {
            let mu = nf * p;
            let d = cnt as f64 - mu;
            // Poisson-safe bound
            if d.abs() > Z * (mu * (1.0 - p)).sqrt() + 14.0 {
                vio!("tails", "{what}: {cnt} of {n} samples {side} {t} standard deviations, expected {mu:.1}");
            }
        }
    }
    // distribution
    if n >= 1000 {
        let mut s = z.to_vec();
        s.sort_unstable_by(f64::total_cmp);
        let mut d = 0.0f64;
        for (i, &v) in s.iter().enumerate() {
            let f = 1.0 - q(v);
            d = d.max((f - i as f64 / nf).abs()).max(((i + 1) as f64 / nf - f).abs());
        }
        if d * nf.sqrt() > 3.6 {
            vio!("distribution", "{what}: distribution of {n} samples is {d:.5} away from Gaussian");
        }
        let dup = s.windows(2).filter(|w| w[0] == w[1]).count();
        if dup as f64 > 3.0 + nf * nf / 1e13 {
            vio!("repeats", "{what}: {dup} of {n} values occur twice");
        }
    }
    // independence in time
    for lag in 1..=lags.min(n / 8) {
        correlate(what, z, &z[lag..], || format!("lag {lag}"))?;
        if lag <= 4 {
            let a: Vec<f64> = z.iter().map(|v| v * v - 1.0).collect();
            squares(what, &a, &a[lag..], || format!("squares at lag {lag}"))?;
        }
    }
    Ok(())
}

fn moments(what: &str, z: &[f64], at: usize) -> R {
    let n = z.len() as f64;
    let m = z.iter().sum::<f64>() / n;
    if m.abs() * n.sqrt() > Z {
        vio!("mean", "{what}: mean {m:.6} standard deviations over {n} samples from {at}");
    }
    let v = z.iter().map(|v| v * v).sum::<f64>() / n;
    // chi-square: normal approximation with its skew allowed for
    let d = (v - 1.0) * (n / 2.0).sqrt();
    if d > Z + 20.0 / n.sqrt() || d < -Z {
        vio!("variance", "{what}: variance {v:.6} of the requested over {n} samples from {at}");
    }
    if n >= 20_000.0 {
        let s = z.iter().map(|v| v * v * v).sum::<f64>() / n;
        if s.abs() * (n / 15.0).sqrt() > 8.5 {
            vio!("skew", "{what}: third moment {s:.5} over {n} samples from {at}");
        }
        let k = z.iter().map(|v| v * v * v * v).sum::<f64>() / n - 3.0;
        if k.abs() * (n / 96.0).sqrt() > 10.0 {
            vio!("kurtosis", "{what}: fourth moment off by {k:.5} over {n} samples from {at}");
        }
    }
    Ok(())
}

/// Two unit-variance sequences must be uncorrelated (compared over the shorter one).
pub fn correlate(what: &str, a: &[f64], b: &[f64], at: impl Fn() -> String) -> R {
    let n = a.len().min(b.len());
    if n < 50 {
        return Ok(());
    }
    let c: f64 = a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>() / (n as f64).sqrt();
    if c.abs() > Z + 6.0 / (n as f64).powf(0.25) {
        vio!("correlation", "{what}: correlation {:.5} over {n} samples ({})", c / (n as f64).sqrt(), at());
    }
    Ok(())
}
/// As `correlate` for z^2-1 sequences (variance 2, heavy tails).
pub fn squares(what: &str, a: &[f64], b: &[f64], at: impl Fn() -> String) -> R {
    let n = a.len().min(b.len());
    if n < 2000 {
        return Ok(());
    }
    let c: f64 = a.iter().zip(b).map(|(x, y)| x * y).sum::<f64>() / 2.0 / (n as f64).sqrt();
    if c.abs() > 10.0 + 200.0 / (n as f64).sqrt() {
        vio!("dependence", "{what}: dependence {:.5} over {n} samples ({})", c / (n as f64).sqrt(), at());
    }
    Ok(())
}

// ---- every lag at once -----------------------------------------------------------------------
/// In-place radix-2 FFT.
fn fft(x: &mut [(f64, f64)]) {
    let n = x.len();
    let bits = n.trailing_zeros();
    for i in 0..n {
        let j = i.reverse_bits() >> (usize::BITS - bits);
        if i < j {
            x.swap(i, j);
        }
    }
    let tw: Vec<(f64, f64)> = (0..n / 2).map(|i| (-2.0 * std::f64::consts::PI * i as f64 / n as f64).sin_cos()).map(|(s, c)| (c, s)).collect();
    let mut len = 2;
    while len <= n {
        let step = n / len;
        for blk in x.chunks_exact_mut(len) {
            let (a, b) = blk.split_at_mut(len / 2);
            for (k, (p, q)) in a.iter_mut().zip(b).enumerate() {
                let w = tw[k * step];
                let t = (q.0 * w.0 - q.1 * w.1, q.0 * w.1 + q.1 * w.0);
                *q = (p.0 - t.0, p.1 - t.1);
                *p = (p.0 + t.0, p.1 + t.1);
            }
        }
        len *= 2;
    }
}

/// Correlations of two standard sequences at every lag of either sign, and (for one sequence, `b`
/// None) its periodogram. `limit` caps the length looked at.
pub fn all_lags(what: &str, a: &[f64], b: Option<&[f64]>, limit: usize) -> R {
    let n = a.len().min(b.map_or(usize::MAX, |b| b.len())).min(limit);
    if n < 4096 {
        return Ok(());
    }
    let size = (2 * n).next_power_of_two();
    // both sequences in one complex transform
    let mut x: Vec<(f64, f64)> = (0..size).map(|i| if i < n { (a[i], b.map_or(0.0, |b| b[i])) } else { (0.0, 0.0) }).collect();
    fft(&mut x);
    // spectra of a and b, and their product A * conj(B)
    let mut p = vec![(0.0, 0.0); size];
    let mut peak = (0.0f64, 0);
    for k in 0..size {
        let (u, v) = (x[k], x[(size - k) % size]);
        let fa = ((u.0 + v.0) / 2.0, (u.1 - v.1) / 2.0);
        let fb = if b.is_some() { ((u.1 + v.1) / 2.0, (v.0 - u.0) / 2.0) } else { fa };
        p[k] = (fa.0 * fb.0 + fa.1 * fb.1, fa.1 * fb.0 - fa.0 * fb.1);
        if b.is_none() {
            // real-valued frequencies 0 and 1/2 have one degree of freedom
            let e = p[k].0 / n as f64 / if k == 0 || 2 * k == size { 2.0 } else { 1.0 };
            if e > peak.0 {
                peak = (e, k);
            }
        }
    }
    if peak.0 > (size as f64).ln() + 28.0 {
        vio!("spectrum", "{what}: {:.0} times the expected power at frequency {:.7} over {n} samples", peak.0, peak.1 as f64 / size as f64);
    }
    fft(&mut p); // forward transform of the product: lags in reverse order
    for k in 0..size {
        let lag = if k < size / 2 { k as i64 } else { k as i64 - size as i64 };
        if lag.unsigned_abs() as usize >= n - 2000 || (b.is_none() && lag == 0) {
            continue;
        }
        let m = n as f64 - lag.abs() as f64;
        let c = p[k].0 / size as f64 / m.sqrt();
        if c.abs() > 8.5 + 20.0 / m.powf(0.25) {
            vio!("correlation", "{what}: correlation {:.5} over {m} samples (lag {lag})", c / m.sqrt());
        }
    }
    Ok(())
}
