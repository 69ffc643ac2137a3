//! C01: an interrupted transmission is an exact prefix of the scheme's waveform.
use super::{Budget, Prop};
use crate::core::{guard, Caught, Ctx, R};
use crate::env::{close, drain, read_pattern, take, take_box, End, Src, Strm};
use crate::json::{bits_of, gen_bits, V};
use crate::rng::Rng;
use crate::schemes::{gen, Carrier, Sc, C, TX_KINDS};
use std::sync::Arc;

pub struct P;

/// Finds the hop of every symbol of a hopping transmission: the candidate whose symbol fits best.
pub fn infer_hops(sc: &Sc, bits: &[bool], x: &[C]) -> Vec<Option<usize>> {
    let set = sc.hop_set();
    let sps = sc.sps;
    let nsym = bits.len().min(x.len().div_ceil(sps.max(1)));
    (0..nsym)
        .map(|s| {
            let seg = &x[s * sps..((s + 1) * sps).min(x.len())];
            let mut best: Option<(usize, f64)> = None;
            for (i, &f) in set.iter().enumerate() {
                let mut worst: f64 = 0.0;
                let lim = best.map_or(1e-6, |b| b.1);
                if sc.k == "fh_bpsk" {
                    let a = if bits[s] { 1.0 } else { -1.0 };
                    for (j, v) in seg.iter().enumerate() {
                        let m = a * (2.0 * std::f64::consts::PI * f * j as f64 / sc.fs() as f64).cos();
                        worst = worst.max((v.re - m).abs());
                        if worst >= lim {
                            break;
                        }
                    }
                } else {
                    for (v, m) in seg.iter().zip(sc.css_iter(bits[s], f)) {
                        worst = worst.max((v.re - m.re).abs());
                        if worst >= lim {
                            break;
                        }
                    }
                }
                if worst < lim {
                    best = Some((i, worst));
                }
            }
            best.map(|b| b.0)
        })
        .collect()
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 100_000, thorough: 400_000, batch: 250 }
    }
    fn rule(&self) -> &'static str {
        "one transmitter (or chirp) with random valid parameters and a random message, whose source ends, panics or whose reader drops it at a random (boundary-biased) item, read with a random polling pattern; non-trivial: the interruption fell before the natural end or inside a symbol"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("transmitters", "real"), ("bit source, reader", "simulated"), ("waveform oracle", "independent closed-form model")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        if k % 25 == 7 {
            let rate = r.logus(1, 1000);
            let n = r.logus(1, 3000);
            let fs = rate * n;
            let kind = *r.pick(&["chirp", "up", "down"]);
            let f0 = r.uf(0.0, fs as f64 / 2.0);
            let f1 = r.uf(0.0, fs as f64 / 2.0);
            return obj! {"chirp" => kind, "rate" => rate, "n" => n, "f0" => f0.min(f1), "f1" => f0.max(f1), "rev" => r.bit(), "drop" => r.us(0, n + 2), "end" => *r.pick(&["eof", "drop"])};
        }
        let kind = TX_KINDS[(k as usize) % TX_KINDS.len()];
        let scv = gen(r, kind, Carrier::Any);
        let sc = Sc::parse(&scv).expect("generator");
        let (ui, uo) = (sc.unit_in(), sc.unit_out());
        let soak = r.chance(0.012);
        let target = if soak { r.logus(1 << 17, 1 << 21) } else { r.logus(1, 6000) };
        let units = match r.below(10) {
            0 => r.us(0, 2),
            _ => (target / uo.max(1)).clamp(1, if soak { 1 << 21 } else { 3000 }),
        };
        let mut n = units * ui;
        if r.chance(0.5) {
            n += r.us(0, ui);
        }
        let n = if r.chance(0.2) { n.saturating_sub(1) } else { n };
        let end = *r.pick(&["eof", "eof", "panic", "drop"]);
        let at = if end == "panic" || r.chance(0.3) {
            match r.below(3) {
                0 => (r.us(0, n / ui.max(1)) * ui).min(n),
                1 => r.us(0, n),
                _ => n,
            }
        } else {
            n
        };
        let samples = (at.div_ceil(ui) + 1) * uo;
        let pat: Vec<i64> = match r.below(5) {
            0 | 1 => vec![1],
            2 => vec![0, 1],
            _ => (0..r.us(1, 6)).map(|_| match r.below(4) { 0 => 0, 1 => -(r.logus(1, 2 * uo + 2) as i64), _ => r.logus(1, 50) as i64 }).collect(),
        };
        obj! {"sc" => scv, "bits" => gen_bits(r, n), "at" => at, "end" => end, "drop" => if end == "drop" { r.us(0, samples) } else { 0 }, "poll" => pat, "hint" => r.us(0, 3)}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        if plan.has("chirp") {
            return run_chirp(plan, ctx);
        }
        let sc = Sc::parse(plan.get("sc"))?;
        let bits = bits_of(plan.get("bits"));
        let at = plan.get("at").u();
        need!(at <= bits.len());
        let (ui, uo) = (sc.unit_in(), sc.unit_out());
        need!(bits.len().saturating_mul(uo.max(1)) / ui.max(1) <= 1 << 23);
        let end = if plan.get("end").s() == "panic" { End::Panic } else { End::Eof };
        let drop_at = if plan.get("end").s() == "drop" { Some(plan.get("drop").u()) } else { None };
        let pat: Vec<i64> = plan.get("poll").a().iter().map(|v| v.i()).collect();
        let used = &bits[..at];
        let (src, probe) = Src::new(Arc::new(bits.clone()), at, end);
        let src = src.hinted(plan.get("hint").u64());
        let mut it = match guard(|| sc.tx(Box::new(src))) {
            Ok(x) => x,
            Err(e) => vio!("panic", "{}: creating the transmitter panicked: {e:?}", sc.k),
        };
        let full_units = at / ui;
        let max_len = if sc.is_fhod() { (full_units + 2) * uo } else { (at.div_ceil(ui) + 1) * uo };
        let cap = drop_at.unwrap_or(usize::MAX).min(max_len + 8);
        let mut got: Vec<(usize, C)> = vec![];
        let fold = crate::env::reader();
        let (res, it) = match fold {
            None => (guard(|| read_pattern(&mut *it, &pat, cap, &mut |i, x| got.push((i, x)))), Some(it)),
            Some(one) => {
                let mut i = 0;
                let r = guard(|| {
                    drain(it, one, cap, &mut |x| {
                        got.push((i, x));
                        i += 1;
                    })
                });
                (r.map(|ended| (got.len(), ended, vec![])), None)
            }
        };
        let pulled = probe.pulled.get();
        let (n_read, ended, hints) = match res {
            Ok(x) => x,
            Err(Caught::Injected) => {
                ctx.fault("source_panic", at as u64);
                (got.last().map_or(0, |g| g.0 + 1), false, vec![])
            }
            Err(Caught::Panic(p)) => vio!("panic", "{}: panicked while being read: {p}", sc.k),
        };
        if guard(|| drop(it)).is_err() {
            vio!("panic", "{}: dropping the transmitter panicked", sc.k);
        }
        if drop_at.is_some() {
            ctx.fault("reader_drop", n_read as u64);
        } else if end == End::Eof {
            ctx.fault(if at < bits.len() { "early_eof" } else { "eof" }, at as u64);
        }
        ctx.items(got.len());
        ctx.time(got.len() as f64 / sc.rate());
        ctx.logf(&got.iter().map(|g| g.1).collect::<Vec<_>>());
        ctx.log(n_read as u64);
        ctx.sig(sc.k.len() as u64 ^ (ui as u64) << 8 ^ (uo as u64) << 24 ^ (at as u64) << 40);
        if at % ui != 0 || drop_at.map_or(false, |d| uo > 0 && d % uo != 0) {
            ctx.probe("interrupted_inside_a_unit");
        }

        // ---- oracle -----------------------------------------------------------------------
        let with_eof = end == End::Eof;
        let model: Vec<C> = if sc.is_fhod() {
            // The block waveform is decided by C10; here: the stream for these bits is the prefix of
            // the stream of a longer message with the same bits.
            let mut longer = used[..full_units * ui].to_vec();
            longer.extend(std::iter::repeat(true).take(3 * ui));
            let (s2, _) = Src::new(Arc::new(longer.clone()), longer.len(), End::Eof);
            match guard(|| take_box(sc.tx(Box::new(s2)), full_units * uo)) {
                Ok(v) => v,
                Err(_) => vio!("panic", "{}: reference transmission panicked", sc.k),
            }
        } else if matches!(sc.k.as_str(), "fh_bpsk" | "fh_css") {
            // hop order: inferred from an undisturbed transmission of the same message
            let (s2, _) = Src::new(Arc::new(used.to_vec()), at, End::Eof);
            let base = match guard(|| take_box(sc.tx(Box::new(s2)), at * uo + 1)) {
                Ok(v) => v,
                Err(e) => vio!("panic", "{}: undisturbed transmission panicked: {e:?}", sc.k),
            };
            if base.len() != at * uo {
                vio!("length", "{}: {} bits gave {} samples, expected {}", sc.k, at, base.len(), at * uo);
            }
            let hops = infer_hops(&sc, used, &base);
            if let Some(s) = hops.iter().position(|h| h.is_none()) {
                vio!("waveform", "{}: symbol {s} (bit {}) is no hop of the hop set", sc.k, used[s]);
            }
            let set = sc.hop_set();
            let h: Vec<f64> = hops.iter().map(|h| set[h.unwrap()]).collect();
            sc.model(used, Some(&h))
        } else if with_eof {
            sc.model(used, None)
        } else {
            sc.model(&used[..full_units * ui], None)
        };
        // Was every delivered sample the model's?
        for &(i, x) in &got {
            if i >= model.len() {
                if sc.is_fhod() && with_eof && i < (full_units + 1) * uo {
                    continue; // padding block
                }
                vio!("extra", "{}: sample {i} delivered, but {} consumed bits determine only {}", sc.k, pulled, model.len());
            }
            let m = model[i];
            let same = close(x, m, 1e-6) || (x.re.to_bits() == m.re.to_bits() && x.im.to_bits() == m.im.to_bits()) || (sc.is_fhod() && !m.re.is_finite() && !x.re.is_finite());
            if !same {
                vio!("waveform", "{}: sample {i} is {x}, expected {m} (source ended at bit {at}, {} read so far)", sc.k, got.len());
            }
        }
        if n_read != usize::MAX {
            if ended {
                let (lo, hi) = if sc.is_fhod() { (at.div_ceil(ui) * uo, (full_units + 1) * uo) } else { (model.len(), model.len()) };
                if n_read < lo || n_read > hi {
                    vio!("length", "{}: {at} bits then end of input gave {n_read} samples, expected {lo}", sc.k);
                }
            } else if end == End::Panic && drop_at.is_none() && (fold.is_some() || !pat.iter().any(|&p| p < 0)) {
                let lo = full_units.saturating_sub(1) * uo;
                if n_read < lo {
                    vio!("lost", "{}: source failed after {at} bits; only {n_read} samples had been delivered, {lo} expected", sc.k);
                }
            }
        }
        if end == End::Eof {
            let total = if sc.is_fhod() { (full_units + 1) * uo } else { model.len() };
            let min_total = if sc.is_fhod() { at.div_ceil(ui) * uo } else { total };
            for (i, a, b) in hints {
                if i + a > total || b.map_or(false, |b| i + b < min_total) {
                    vio!("size_hint", "{}: size_hint ({a}, {b:?}) at sample {i}, but {total} in all", sc.k);
                }
            }
        }
        Ok(())
    }
}

fn run_chirp(plan: &V, ctx: &Ctx) -> R {
    use komunikilo::fh_css::*;
    let (rate, n) = (plan.get("rate").u(), plan.get("n").u());
    need!(rate >= 1 && n >= 1 && n <= 1 << 20);
    let fs = rate * n;
    let (mut f0, mut f1) = (plan.get("f0").f(), plan.get("f1").f());
    need!(f0 >= 0.0 && f1 >= f0 && f1 <= fs as f64 / 2.0);
    let kind = plan.get("chirp").s();
    let rev = plan.get("rev").b();
    let it: Box<dyn Strm<Item = f64>> = match kind {
        "chirp" => {
            if rev {
                std::mem::swap(&mut f0, &mut f1);
            }
            Box::new(linear_chirp(rate as f64, fs, f0, f1))
        }
        "up" => Box::new(linear_upchirp_centered(rate as f64, (f0 + f1) / 2.0, f1 - f0, fs)),
        "down" => {
            let it = linear_downchirp_centered(rate as f64, (f0 + f1) / 2.0, f1 - f0, fs);
            std::mem::swap(&mut f0, &mut f1);
            Box::new(it)
        }
        _ => invalid!("chirp kind"),
    };
    let cap = if plan.get("end").s() == "drop" { plan.get("drop").u() } else { n + 8 };
    let got = match guard(|| take_box(it, cap)) {
        Ok(v) => v,
        Err(e) => vio!("panic", "chirp panicked: {e:?}"),
    };
    ctx.fault(if cap < n { "reader_drop" } else { "eof" }, got.len() as u64);
    ctx.items(got.len());
    ctx.time(got.len() as f64 / fs as f64);
    ctx.logs(got.iter().map(|x| x.to_bits()));
    if got.len() != n.min(cap) {
        vio!("length", "{kind}: {} samples, expected {}", got.len(), n.min(cap));
    }
    let k = (f1 - f0) * rate as f64;
    for (i, &x) in got.iter().enumerate() {
        let t = i as f64 / fs as f64;
        let m = (2.0 * std::f64::consts::PI * (f0 * t + k * t * t / 2.0)).cos();
        if (x - m).abs() > 1e-6 {
            vio!("waveform", "{kind} chirp {f0}->{f1}: sample {i} is {x}, expected {m}");
        }
    }
    Ok(())
}
