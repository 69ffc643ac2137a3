//! C14: simulated bit error rates agree with theory.
use super::{Budget, Prop};
use crate::core::{guard, Caught, Ctx, Fail, Injected, R};
use crate::json::V;
use crate::py;
use crate::rng::Rng;
use crate::schemes::{gen, Carrier, Sc, C};
use crate::sched;
use crate::stats::q;
use std::f64::consts::PI;
use std::sync::{Arc, Mutex};

pub struct P;

const KINDS: &[&str] = &["bpsk_bb", "bpsk", "qpsk_bb", "qpsk", "cdma_bpsk", "cdma_qpsk", "ofdm_bb", "ofdm_qpsk"];

fn carrier(kind: &str) -> Carrier {
    match kind {
        "qpsk" | "ofdm_qpsk" => Carrier::Quad,
        "cdma_qpsk" => Carrier::ChipQuad,
        _ => Carrier::Any,
    }
}

/// Noise-free correlator output over the correlator's noise gain, for every bit of `n`, at noise
/// strength 1: the square root of the bit's energy.
fn amplitudes(sc: &Sc, n: usize) -> Vec<f64> {
    let (fs, sps) = (sc.fs() as f64, sc.sps);
    let w = |i: usize| 2.0 * PI * sc.fc * (i as f64 / fs);
    match sc.k.as_str() {
        "bpsk_bb" => vec![1.0; n],
        "qpsk_bb" => vec![2f64.sqrt(); n],
        "bpsk" | "cdma_bpsk" => (0..n).map(|s| (0..sps).map(|j| w(s * sps + j).cos().powi(2)).sum::<f64>().sqrt()).collect(),
        "qpsk" | "cdma_qpsk" => (0..n)
            .map(|b| {
                let s = b / 2;
                (0..sps).map(|j| if b % 2 == 0 { w(s * sps + j).cos().powi(2) } else { w(s * sps + j).sin().powi(2) }).sum::<f64>().sqrt()
            })
            .collect(),
        "ofdm_bb" => vec![(2.0 / sc.sub as f64).sqrt(); n],
        _ => vec![(2.0 / sc.sub as f64 * sps as f64 / 2.0).sqrt(); n],
    }
}

fn message(v: &V, n: usize) -> Vec<bool> {
    let mut r = Rng::new(v.get("seed").u64());
    match v.get("m").s() {
        "ones" => vec![true; n],
        "zeros" => vec![false; n],
        "alt" => (0..n).map(|i| i % 2 == 0).collect(),
        "rare" => (0..n).map(|_| r.chance(0.1)).collect(),
        _ => (0..n).map(|_| r.bit()).collect(),
    }
}

/// One experiment: bits sent, bits received (fewer if the sender failed).
fn link(sc: &Sc, l: &V, bits: &[bool], at: Option<usize>, every: usize) -> Result<Vec<bool>, Caught> {
    let sigma = l.get("sigma").f();
    let n = bits.len();
    let msg = bits.to_vec();
    let src = msg.into_iter().enumerate().map(move |(i, b)| {
        if i % every == 0 {
            sched::step_here();
        }
        if Some(i) == at {
            std::panic::panic_any(Injected);
        }
        b
    });
    let (kind, real) = (sc.k.clone(), sc.real());
    let ch = l.get("ch").s().to_string();
    let mut got = vec![];
    let r = guard(|| {
        let sig = sc.tx(Box::new(src));
        let noisy: crate::schemes::Sig = if real {
            match ch.as_str() {
                "py" => {
                    let v: Vec<f64> = sig.map(|c| c.re).collect();
                    Box::new(py::call_floats("awgn", (v, sigma)).into_iter().map(|x| C::new(x, 0.0)))
                }
                "pure" => {
                    let v: Vec<f64> = sig.map(|c| c.re).collect();
                    let w = py::call_floats("pure_awgn", (v.len(), sigma));
                    Box::new(v.into_iter().zip(w).map(|(a, b)| C::new(a + b, 0.0)))
                }
                _ => Box::new(komunikilo::awgn(sig.map(|c| c.re), sigma).map(|x| C::new(x, 0.0))),
            }
        } else if ch == "parts" {
            // two real channels
            let v: Vec<C> = sig.collect();
            let re = komunikilo::awgn(v.clone().into_iter().map(|c| c.re), sigma);
            let im = komunikilo::awgn(v.into_iter().map(|c| c.im), sigma);
            Box::new(re.zip(im).map(|(a, b)| C::new(a, b)))
        } else {
            Box::new(komunikilo::awgn_complex(sig, sigma))
        };
        let mut rx = sc.rx(noisy);
        while got.len() < n + 8 * sc.unit_in() {
            match rx.next() {
                Some(b) => got.push(b),
                None => break,
            }
        }
    });
    match r {
        Ok(()) => Ok(got),
        Err(Caught::Injected) if at.is_some() => Ok(got),
        Err(Caught::Injected) => Err(Caught::Panic(format!("{kind}: injected?"))),
        Err(e) => Err(e),
    }
}

/// e: errors; p: their probabilities; sel: which bits count.
fn count(what: &str, group: &str, e: &[bool], p: &[f64], sel: impl Fn(usize) -> bool) -> R {
    let (mut n, mut err, mut mu, mut var) = (0usize, 0.0, 0.0, 0.0);
    for i in 0..e.len() {
        if sel(i) && p[i] <= 0.5 && p[i] >= 0.0 {
            n += 1;
            err += e[i] as u8 as f64;
            mu += p[i];
            var += p[i] * (1.0 - p[i]);
        }
    }
    if n > 0 && (err - mu).abs() > 7.0 * var.sqrt() + 14.0 {
        vio!("rate", "{what}: {err} errors in {n} bits ({group}), theory says {mu:.1} (rate {:.5} instead of {:.5})", err / n as f64, mu / n as f64);
    }
    Ok(())
}

fn judge(sc: &Sc, l: &V, bits: &[bool], got: &[bool], cut: bool, ctx: &Ctx) -> R {
    let sigma = l.get("sigma").f();
    let what = format!("{} at noise strength {sigma}", sc.k);
    let n = if cut { bits.len().min(got.len()) } else { bits.len() };
    if !cut && got.len() < n {
        vio!("length", "{what}: {n} bits sent, {} received", got.len());
    }
    let e: Vec<bool> = (0..n).map(|i| bits[i] != got[i]).collect();
    let total = e.iter().filter(|&&b| b).count();
    // the meter
    let meter = [(n, n), (n, got.len()), (bits.len(), n), (n - n / 3, n), (n, n / 2)];
    for (a, b) in meter {
        let m = a.min(b);
        if m == 0 {
            continue;
        }
        let want = e[..m].iter().filter(|&&b| b).count() as f64 / m as f64;
        let have = match guard(|| komunikilo::ber(&bits[..a], &got[..b])) {
            Ok(v) => v,
            Err(e) => vio!("panic", "ber of {a} and {b} bits: {e:?}"),
        };
        if have != want {
            vio!("meter", "ber of {a} and {b} bits of {what} is {have}, {want} of them differ");
        }
    }
    let amp = amplitudes(sc, n);
    let p: Vec<f64> = amp.iter().map(|&a| if a < 1e-6 { f64::NAN } else { q(a / sigma) }).collect();
    ctx.log(total as u64);
    ctx.items(n);
    count(&what, "all", &e, &p, |_| true)?;
    count(&what, "ones", &e, &p, |i| bits[i])?;
    count(&what, "zeros", &e, &p, |i| !bits[i])?;
    count(&what, "first half", &e, &p, |i| i < n / 2)?;
    count(&what, "second half", &e, &p, |i| i >= n / 2)?;
    if sc.unit_in() % 2 == 0 {
        for arm in 0..2 {
            count(&what, if arm == 0 { "in-phase" } else { "quadrature" }, &e, &p, |i| i % 2 == arm)?;
        }
    }
    if n >= 4000 {
        for k in 0..8 {
            count(&what, &format!("eighth {}", k + 1), &e, &p, |i| i * 8 / n == k)?;
        }
    }
    // independence from bit to bit, and from the message
    let dev: Vec<f64> = (0..n).map(|i| if p[i] <= 0.5 { e[i] as u8 as f64 - p[i] } else { 0.0 }).collect();
    let pv: Vec<f64> = (0..n).map(|i| if p[i] <= 0.5 { p[i] * (1.0 - p[i]) } else { 0.0 }).collect();
    let mut lags: Vec<usize> = (1..=8).collect();
    for d in [sc.unit_in(), 2 * sc.unit_in(), 64] {
        if !lags.contains(&d) {
            lags.push(d);
        }
    }
    for lag in lags {
        if lag < n {
            let s: f64 = (lag..n).map(|i| dev[i] * dev[i - lag]).sum();
            let v: f64 = (lag..n).map(|i| pv[i] * pv[i - lag]).sum();
            if s.abs() > 7.0 * v.sqrt() + 14.0 {
                vio!("dependence", "{what}: errors {lag} bits apart are related ({s:.1} over {n} bits, expected 0 ± {:.1})", v.sqrt());
            }
        }
    }
    Ok(())
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 960, thorough: 20_000, batch: 20 }
    }
    fn python(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "one to four Monte-Carlo experiments on threads under the seeded scheduler, each over its own link, noise strength, message and channel function (Rust or Python), some failing half-way; error counts are compared with the Q function per bit, per value, per arm and per stretch of the run; non-trivial: experiments interleaved or one failed"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![
            ("modulators, noise channel, receivers, ber, rand", "real"),
            ("operating-system entropy, clock, thread schedule, bit sources", "simulated"),
            ("bit error theory", "Q function of the closed-form bit energy"),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["thresholds at seven standard deviations plus 14 errors: rate deviations a run is too short to show are not seen", "carriers keep the two arms of QPSK orthogonal"]
    }
    fn gen(&self, r: &mut Rng, k: u64, th: bool) -> V {
        let big = k % 30 == 0;
        let nl = if big { 1 } else { r.us(1, 4) };
        let links: Vec<V> = (0..nl)
            .map(|i| {
                let kind = if i == 0 { KINDS[((k + k / 30) % KINDS.len() as u64) as usize] } else { *r.pick(KINDS) };
                let (sc, scv) = loop {
                    let scv = gen(r, kind, carrier(kind));
                    let sc = Sc::parse(&scv).expect("generator");
                    if !sc.is_ofdm() || !sc.data_carriers().is_empty() {
                        break (sc, scv);
                    }
                };
                let samples = if big { if th { 12_000_000 } else { 4_000_000 } } else { r.logus(3000, 300_000) };
                let units = (samples / sc.unit_out().max(1)).clamp(1, 1_500_000);
                let n = units * sc.unit_in();
                let amp = amplitudes(&sc, 64.min(n));
                let a = (amp.iter().map(|a| a * a).sum::<f64>() / amp.len() as f64).sqrt();
                let snr = match r.below(8) {
                    0 => r.uf(2.5, 4.5),
                    1 => r.uf(0.02, 0.3),
                    _ => r.uf(0.3, 2.5),
                };
                let sigma = (a / snr).max(1e-6);
                let ch = if sc.real() { *r.pick(&["", "", "", "py", "pure"]) } else { *r.pick(&["", "", "parts"]) };
                let mut v = obj! {"sc" => scv, "n" => n, "sigma" => sigma, "m" => *r.pick(&["random", "random", "random", "rare", "alt", "ones", "zeros"]), "seed" => r.below(1 << 40), "ch" => ch, "every" => *r.pick(&[1usize, 7, 64, 500])};
                if !big && r.chance(0.12) {
                    v.set("fail", r.us(0, n.saturating_sub(1)));
                }
                v
            })
            .collect();
        obj! {"links" => links, "sched" => obj!{"seed" => r.below(1 << 50), "burst" => *r.pick(&[0.0, 2.0, 20.0, 200.0])}}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let links = plan.get("links").a();
        need!(!links.is_empty() && links.len() <= 8);
        let out: Arc<Mutex<Vec<(usize, Result<Vec<bool>, Caught>)>>> = Arc::new(Mutex::new(vec![]));
        let mut tasks: Vec<sched::Task> = vec![];
        let mut jobs = vec![];
        for (i, l) in links.iter().enumerate() {
            let sc = Sc::parse(l.get("sc"))?;
            let n = l.get("n").u();
            need!(KINDS.contains(&sc.k.as_str()) && n <= 1 << 24 && n / sc.unit_in() * sc.unit_out() <= 1 << 25 && n % sc.unit_in() == 0 && n > 0);
            need!(l.get("sigma").f() > 0.0 && l.get("sigma").f() < 1e9);
            if matches!(carrier(&sc.k), Carrier::Quad | Carrier::ChipQuad) {
                let len = sc.sps / if sc.is_cdma() { sc.key.len() } else { 1 };
                let m = 2.0 * sc.fc * len as f64 / sc.fs() as f64;
                need!(len >= 3 && (m - m.round()).abs() < 1e-9 && m.round() >= 1.0 && m.round() as usize % len != 0);
            }
            let bits = message(l, n);
            let at = if l.has("fail") { Some(l.get("fail").u()) } else { None };
            let every = l.get("every").u().max(1);
            jobs.push((sc.clone(), bits.clone(), at));
            let (out, l) = (out.clone(), l.clone());
            tasks.push(Box::new(move |_| {
                let r = link(&sc, &l, &bits, at, every);
                out.lock().unwrap_or_else(|e| e.into_inner()).push((i, r));
            }));
        }
        let n = tasks.len() as u64;
        let o = sched::run(ctx, plan.get("sched"), 50_000_000, tasks);
        if n > 1 {
            ctx.fault("experiments_interleaved", n);
        }
        for p in o.panics.iter().flatten() {
            vio!("panic", "experiment: {p}");
        }
        if let Some(d) = o.dead {
            vio!("stuck", "{d}");
        }
        let mut rs = std::mem::take(&mut *out.lock().unwrap_or_else(|e| e.into_inner()));
        rs.sort_by_key(|r| r.0);
        let mut worst: R = Ok(());
        for ((i, r), (sc, bits, at)) in rs.into_iter().zip(&jobs) {
            let got = match r {
                Ok(v) => v,
                Err(Caught::Panic(m)) => vio!("panic", "{} experiment: {m}", sc.k),
                Err(Caught::Injected) => vio!("panic", "{}: unexpected", sc.k),
            };
            if let Some(a) = at {
                ctx.fault("experiment_failed", *a as u64);
            }
            ctx.fault("noise_drawn", (bits.len() / sc.unit_in() * sc.unit_out()) as u64);
            ctx.time((bits.len() / sc.unit_in() * sc.unit_out()) as f64 / sc.rate());
            ctx.logb(&got);
            if let Err(f) = judge(sc, &links[i], bits, &got, at.is_some(), ctx) {
                if let Fail::Invalid(_) = f {
                    return Err(f);
                }
                if worst.is_ok() {
                    worst = Err(f);
                }
            }
        }
        ctx.sig(n);
        worst
    }
}
