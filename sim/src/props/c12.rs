//! C12: the noise channel adds zero-mean white Gaussian noise of the requested strength.
use super::{Budget, Prop};
use crate::core::{guard, Caught, Ctx, R};
use crate::env::{End, Src};
use crate::json::V;
use crate::py;
use crate::rng::Rng;
use crate::schemes::C;
use crate::stats;
use std::sync::Arc;

pub struct P;

/// Input samples of a stream.
fn input(v: &V, n: usize) -> Vec<C> {
    let mut r = Rng::new(v.get("seed").u64());
    let a = v.get("a").f();
    let kind = v.get("k").s();
    (0..n)
        .map(|i| match kind {
            "const" => C::new(a, -a),
            "tone" => C::new(a * (0.7 * i as f64).cos(), a * (0.7 * i as f64).sin()),
            "ramp" => C::new(a * (i as f64 / n as f64 * 2.0 - 1.0), a * 0.5),
            "noise" => C::new(a * r.gauss(), a * r.gauss()),
            "bits" => C::new(if r.bit() { a } else { -a }, if r.bit() { a } else { -a }),
            "pulses" => if r.chance(0.1) { C::new(a, a) } else { C::new(0.0, 0.0) },
            _ => C::new(0.0, 0.0),
        })
        .collect()
}

/// Many short requests, one after another: the noise of each is independent of its place in the
/// request and of the rest of it.
fn shorts(plan: &V, ctx: &Ctx) -> R {
    let (kind, m, count, sigma, level) = (plan.get("k").s(), plan.get("m").u(), plan.get("count").u(), plan.get("sigma").f(), plan.get("level").f());
    need!(m >= 1 && m <= 4096 && count <= 1 << 20 && m * count <= 1 << 22 && sigma > 0.0 && sigma.is_finite() && level.abs() <= 1e5 * sigma);
    let parts = if kind == "complex" { 2 } else { 1 };
    let what = format!("{kind} noise of strength {sigma}, {count} requests for {m} samples");
    // one row per request: all real parts, then all imaginary parts
    let mut z: Vec<Vec<f64>> = vec![Vec::with_capacity(m * count); parts];
    for i in 0..count {
        let got = guard(|| -> Vec<C> {
            match kind {
                "complex" => komunikilo::awgn_complex(std::iter::repeat(C::new(level, -level)).take(m), sigma).map(|v| v - C::new(level, -level)).collect(),
                "real" => komunikilo::awgn(std::iter::repeat(level).take(m), sigma).map(|v| C::new(v - level, 0.0)).collect(),
                "py" => py::call_floats("awgn", (vec![level; m], sigma)).into_iter().map(|v| C::new(v - level, 0.0)).collect(),
                _ => py::call_floats("pure_awgn", (m, sigma)).into_iter().map(|v| C::new(v, 0.0)).collect(),
            }
        });
        match got {
            Ok(v) if v.len() == m => {
                for c in v {
                    z[0].push(c.re / sigma);
                    if parts == 2 {
                        z[1].push(c.im / sigma);
                    }
                }
            }
            Ok(v) => vio!("length", "{what}: request {i} gave {} samples", v.len()),
            Err(e) => vio!("panic", "{what}: request {i}: {e:?}"),
        }
    }
    ctx.fault("short_requests", count as u64);
    ctx.items(m * count * parts);
    ctx.time((m * count) as f64 * 1e-6);
    for (p, z) in z.iter().enumerate() {
        let what = if p == 0 { what.clone() } else { format!("{what}, imaginary part") };
        ctx.logs(z.iter().map(|v| v.to_bits()));
        stats::gaussian(&what, z, 24)?;
        stats::all_lags(&what, z, None, 1 << 20)?;
        // each place in the request
        for j in (0..m.min(24)).chain(if m > 48 { m - 24..m } else { 0..0 }) {
            let col: Vec<f64> = z.iter().skip(j).step_by(m).copied().collect();
            stats::gaussian(&format!("{what}, sample {j} of each"), &col, 4)?;
            for k in j + 1..m.min(j + 12) {
                let other: Vec<f64> = z.iter().skip(k).step_by(m).copied().collect();
                stats::correlate(&what, &col, &other, || format!("samples {j} and {k} of each"))?;
            }
        }
        // sums and energies over each request
        let rt = (m as f64).sqrt();
        let sums: Vec<f64> = z.chunks_exact(m).map(|c| c.iter().sum::<f64>() / rt).collect();
        stats::gaussian(&format!("{what}, sums of each"), &sums, 4)?;
        let alt: Vec<f64> = z.chunks_exact(m).map(|c| c.iter().enumerate().map(|(i, v)| if i % 2 == 0 { *v } else { -v }).sum::<f64>() / rt).collect();
        stats::gaussian(&format!("{what}, alternating sums of each"), &alt, 4)?;
        if count >= 500 {
            let w: Vec<f64> = z.chunks_exact(m).map(|c| (c.iter().map(|v| v * v).sum::<f64>() - m as f64) / (2.0 * m as f64).sqrt()).collect();
            let var = w.iter().map(|v| v * v).sum::<f64>() / count as f64;
            let sd = ((2.0 + 12.0 / m as f64 + 60.0 / (m * m) as f64) / count as f64).sqrt();
            if (var - 1.0) / sd < -7.5 || (var - 1.0) / sd > 9.0 + 60.0 / (count as f64).sqrt() {
                vio!("dependence", "{what}: the energy of a request varies {var:.4} times as much as it should");
            }
        }
    }
    if parts == 2 {
        stats::correlate(&what, &z[0], &z[1], || "real and imaginary".into())?;
        stats::all_lags(&what, &z[0], Some(&z[1]), 1 << 20)?;
    }
    ctx.sig(m as u64 ^ (count as u64) << 20);
    Ok(())
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 2400, thorough: 24_000, batch: 75 }
    }
    fn python(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "one to four noise streams (real, complex, Python) of random strength over random inputs, drawn from simulated entropy, read in interleaved bursts, some ending or failing early, some with strength zero; every eighth run draws hundreds to tens of thousands of short requests instead and judges each place in the request, sums and energies; non-trivial: at least one stream was long enough to judge or was interrupted"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("awgn, awgn_complex, Python awgn and pure_awgn, rand, rand_distr", "real"), ("operating-system entropy", "simulated"), ("signal sources, reader", "simulated"), ("CPython", "real, embedded")]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["statistical thresholds at seven standard deviations or more: deviations too small for the sample length are not seen"]
    }
    fn gen(&self, r: &mut Rng, k: u64, th: bool) -> V {
        if k % 8 == 5 {
            let kind = *r.pick(&["real", "complex", "py", "pure"]);
            let m = match r.below(4) { 0 => r.us(1, 8), 1 => r.us(100, 2000), _ => r.logus(1, 130) };
            let count = r.us(20_000, if th { 400_000 } else { 120_000 }) / m;
            let sigma = if r.bit() { 1.0 } else { 10f64.powf(r.uf(-9.0, 9.0)) };
            let level = if r.bit() { 0.0 } else { sigma * r.uf(-20.0, 20.0) };
            return obj! {"shorts" => true, "k" => kind, "m" => m, "count" => count.max(300), "sigma" => sigma, "level" => level};
        }
        let big = k % 40 == 0;
        let ns = if big { 1 } else { r.us(1, 4) };
        let kinds = ["real", "complex", "real", "complex", "py", "pure"];
        let streams: Vec<V> = (0..ns)
            .map(|i| {
                let kind = if big { kinds[(k / 40 % 6) as usize] } else { *r.pick(&kinds) };
                let sigma = match r.below(10) {
                    0 if !big => 0.0,
                    1 => 1.0,
                    2 => 10f64.powf(r.uf(-9.0, 9.0) * if r.chance(0.3) { 20.0 } else { 1.0 }),
                    _ => r.uf(0.05, 20.0),
                };
                let n = if big { if th { 8_000_000 } else { 3_000_000 } } else { match r.below(6) { 0 => r.logus(1, 300) - 1, 1 => r.us(60_000, 200_000), _ => r.logus(200, 30_000) } };
                let n = if kind.starts_with('p') { n.min(1_000_000) } else { n };
                let ik = *r.pick(&["zero", "const", "tone", "ramp", "noise", "bits", "pulses"]);
                let a = if ik == "zero" { 0.0 } else { 10f64.powf(r.uf(-3.0, 3.0)) * if sigma > 0.0 { sigma } else { 1.0 } };
                let mut v = obj! {"k" => kind, "sigma" => sigma, "n" => n, "in" => obj!{"k" => ik, "a" => a, "seed" => r.below(1 << 40)}, "burst" => r.logus(1, 2000)};
                if !big && i == 0 && r.chance(0.15) {
                    v.set("fail", r.us(0, n));
                }
                v
            })
            .collect();
        obj! {"streams" => streams, "order" => r.below(1 << 50)}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        if plan.has("shorts") {
            return shorts(plan, ctx);
        }
        let streams = plan.get("streams").a();
        need!(streams.len() <= 8);
        struct St {
            x: Arc<Vec<C>>,
            out: Vec<C>,
            sigma: f64,
            complex: bool,
            it: Option<Box<dyn Iterator<Item = C>>>,
            burst: usize,
            len: usize,
            fail: bool,
            name: String,
        }
        let mut sts: Vec<St> = vec![];
        for s in streams {
            let (n, sigma) = (s.get("n").u(), s.get("sigma").f());
            need!(n <= 1 << 25 && sigma >= 0.0 && sigma.is_finite());
            let kind = s.get("k").s();
            let complex = kind == "complex";
            let mut x = if kind == "pure" { vec![C::new(0.0, 0.0); n] } else { input(s.get("in"), n) };
            if !complex {
                for v in &mut x {
                    v.im = 0.0;
                }
            }
            // the noise must survive the subtraction
            need!(sigma == 0.0 || x.iter().all(|v| v.norm() <= 1e5 * sigma));
            let x = Arc::new(x);
            let fail = s.has("fail") && !kind.starts_with('p');
            let len = if fail { s.get("fail").u().min(n) } else { n };
            let end = if fail { End::Panic } else { End::Eof };
            let (src, _) = Src::new(x.clone(), len, end);
            let mut out = vec![];
            let made = guard(|| -> Option<Box<dyn Iterator<Item = C>>> {
                match kind {
                    "complex" => Some(Box::new(komunikilo::awgn_complex(src, sigma))),
                    "real" => Some(Box::new(komunikilo::awgn(src.map(|c| c.re), sigma).map(|v| C::new(v, 0.0)))),
                    "py" => {
                        let a: Vec<f64> = x.iter().map(|c| c.re).collect();
                        out = py::call_floats("awgn", (a, sigma)).into_iter().map(|v| C::new(v, 0.0)).collect();
                        None
                    }
                    _ => {
                        out = py::call_floats("pure_awgn", (n, sigma)).into_iter().map(|v| C::new(v, 0.0)).collect();
                        None
                    }
                }
            });
            let it = match made {
                Ok(v) => v,
                Err(e) => vio!("panic", "{kind} noise of strength {sigma}: {e:?}"),
            };
            if n >= 200 && sigma > 0.0 {
                ctx.fault("noise_drawn", n as u64);
            }
            ctx.items(n);
            ctx.time(n as f64 * 1e-6);
            sts.push(St { x, out, sigma, complex, it, burst: s.get("burst").u().max(1), len, fail, name: format!("{kind} noise of strength {sigma}") });
        }
        // interleaved reading
        let mut r = Rng::new(plan.get("order").u64());
        loop {
            let live: Vec<usize> = (0..sts.len()).filter(|&i| sts[i].it.is_some()).collect();
            if live.is_empty() {
                break;
            }
            let s = &mut sts[*r.pick(&live)];
            let cap = s.len + 2;
            for _ in 0..s.burst {
                if s.out.len() >= cap {
                    s.it = None;
                    break;
                }
                let it = s.it.as_mut().unwrap();
                match guard(|| it.next()) {
                    Ok(Some(v)) => s.out.push(v),
                    Ok(None) => {
                        if s.fail {
                            vio!("length", "{}: ended although its source failed", s.name);
                        }
                        s.it = None;
                        break;
                    }
                    Err(Caught::Injected) => {
                        ctx.fault("source_failure", s.out.len() as u64);
                        s.it = None;
                        break;
                    }
                    Err(Caught::Panic(m)) => vio!("panic", "{}: {m}", s.name),
                }
            }
        }
        let mut zs: Vec<(String, Vec<f64>, usize)> = vec![];
        for (i, s) in sts.iter().enumerate() {
            ctx.logs(s.out.iter().flat_map(|c| [c.re.to_bits(), c.im.to_bits()]));
            if s.out.len() != s.len {
                vio!("length", "{}: {} samples in, {} out", s.name, s.len, s.out.len());
            }
            if s.sigma == 0.0 {
                ctx.probe("zero_strength");
                if let Some(j) = (0..s.len).find(|&j| s.out[j] != s.x[j]) {
                    vio!("identity", "{}: sample {j} went from {} to {}", s.name, s.x[j], s.out[j]);
                }
                continue;
            }
            let re: Vec<f64> = s.out.iter().zip(s.x.iter()).map(|(o, x)| (o.re - x.re) / s.sigma).collect();
            let im: Vec<f64> = if s.complex { s.out.iter().zip(s.x.iter()).map(|(o, x)| (o.im - x.im) / s.sigma).collect() } else { vec![] };
            if !s.complex {
                if let Some(j) = s.out.iter().position(|o| o.im != 0.0) {
                    vio!("length", "{}: imaginary sample at {j}", s.name);
                }
            }
            zs.push((s.name.clone() + if s.complex { ", real part" } else { "" }, re, i));
            if s.complex {
                zs.push((s.name.clone() + ", imaginary part", im, i));
            }
        }
        for (name, z, i) in &zs {
            stats::gaussian(name, z, 24)?;
            let limit = if z.len() >= 1 << 19 { 1 << 20 } else { 1 << 17 };
            stats::all_lags(name, z, None, limit)?;
            // strength in step with what came earlier
            let w: Vec<f64> = z.iter().map(|v| (v.abs() - 0.797_884_560_802_865_4) / 0.602_810_274_989_086_9).collect();
            stats::all_lags(&format!("{name}, magnitudes"), &w, None, limit)?;
            // does the noise depend on the input?
            let x = &sts[*i].x;
            let n = z.len();
            if n >= 2000 {
                for part in 0..2 {
                    let xs: Vec<f64> = x[..n].iter().map(|c| if part == 0 { c.re } else { c.im }).collect();
                    let m = xs.iter().sum::<f64>() / n as f64;
                    let var = xs.iter().map(|v| (v - m) * (v - m)).sum::<f64>() / n as f64;
                    if var > 1e-18 * (1.0 + m * m) && var > 0.0 {
                        let u: Vec<f64> = xs.iter().map(|v| (v - m) / var.sqrt()).collect();
                        stats::correlate(name, &u, z, || "with the input".into())?;
                        // strength where the input is large and where it is small
                        let mut a: Vec<f64> = u.iter().map(|v| v.abs()).collect();
                        a.sort_unstable_by(f64::total_cmp);
                        let med = a[n / 2];
                        for (side, hi) in [("large", true), ("small", false)] {
                            let zz: Vec<f64> = u.iter().zip(z).filter(|(v, _)| (v.abs() > med) == hi).map(|(_, z)| z * z - 1.0).collect();
                            if zz.len() >= 500 {
                                let d = zz.iter().sum::<f64>() / (2.0 * zz.len() as f64).sqrt();
                                if d.abs() > 7.5 + 20.0 / (zz.len() as f64).sqrt() {
                                    vio!("dependence", "{name}: strength off by {:.4} where the input is {side}", d * (2.0 / zz.len() as f64).sqrt());
                                }
                            }
                        }
                        for pos in [true, false] {
                            let zz: Vec<f64> = u.iter().zip(z).filter(|(v, _)| (**v > 0.0) == pos).map(|(_, z)| *z).collect();
                            if zz.len() >= 500 {
                                let d = zz.iter().sum::<f64>() / (zz.len() as f64).sqrt();
                                if d.abs() > 7.0 {
                                    vio!("dependence", "{name}: mean {:.4} where the input is {}", d / (zz.len() as f64).sqrt(), if pos { "above its mean" } else { "below its mean" });
                                }
                            }
                        }
                    }
                }
            }
        }
        // no two streams (or parts) are related
        for a in 0..zs.len() {
            for b in a + 1..zs.len() {
                let what = format!("{} and {}", zs[a].0, zs[b].0);
                for lag in 0..6usize {
                    if zs[a].1.len() > lag && zs[b].1.len() > lag {
                        stats::correlate(&what, &zs[a].1[lag..], &zs[b].1, || format!("lag {lag}"))?;
                        stats::correlate(&what, &zs[a].1, &zs[b].1[lag..], || format!("lag -{lag}"))?;
                    }
                }
                stats::all_lags(&what, &zs[a].1, Some(&zs[b].1), 1 << 20)?;
                let sq = |z: &[f64]| z.iter().map(|v| v * v - 1.0).collect::<Vec<f64>>();
                stats::squares(&what, &sq(&zs[a].1), &sq(&zs[b].1), || "squares".into())?;
            }
        }
        ctx.sig(plan.get("order").u64());
        Ok(())
    }
}
