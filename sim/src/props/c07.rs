//! C07: OFDM recovers through cyclic-prefix faults and contains damage to its symbol.
use super::{Budget, Prop};
use crate::core::{guard, Ctx, R};
use crate::env::{apply_faults, gen_fault, take, take_box, End, Src};
use crate::json::{bits_of, gen_bits, V};
use crate::rng::Rng;
use crate::schemes::{gen, Carrier, Sc, C};
use std::f64::consts::PI;
use std::sync::Arc;

pub struct P;

/// Message symbols of a plan: {"n":…, "seed":…, "mag":decades}.
fn symbols(v: &V) -> Vec<C> {
    let mut r = Rng::new(v.get("seed").u64());
    let mag = v.get("mag").f().clamp(-6.0, 6.0);
    (0..v.get("n").u())
        .map(|_| match r.below(12) {
            0 => C::new(0.0, 0.0),
            1 => C::new(r.uf(-1.0, 1.0), 0.0),
            2 => C::new(0.0, r.uf(-1.0, 1.0)),
            _ => C::new(r.uf(-1.0, 1.0), r.uf(-1.0, 1.0)),
        } * 10f64.powf(mag * r.f()))
        .collect()
}

/// Corrupts cyclic prefixes: entries [symbol, first sample, samples, kind, seed]; `usable` samples of each prefix are free.
pub fn corrupt_cp(ctx: &Ctx, list: &[V], x: &mut [C], unit: usize, usable: usize, off: usize, real: bool) {
    for f in list {
        let f = f.a();
        if f.len() < 5 || usable == 0 {
            continue;
        }
        let s = f[0].u();
        let at = f[1].u() % usable;
        let n = f[2].u().min(usable - at);
        let mut r = Rng::new(f[4].u64());
        let base = match s.checked_mul(unit) {
            Some(b) => b + off,
            None => continue,
        };
        if base + at >= x.len() {
            continue;
        }
        ctx.fault("prefix_corruption", (base + at) as u64);
        for i in base + at..(base + at + n).min(x.len()) {
            let v = match f[3].u() {
                0 => C::new(0.0, 0.0),
                1 => C::new(r.gauss() * 1e3, r.gauss() * 1e3),
                2 => C::new(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), 0.0),
                3 => -x[i] * 1e6,
                _ => C::new(1e300, -1e300),
            };
            x[i] = if real { C::new(v.re, 0.0) } else { v };
        }
    }
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 160_000, thorough: 1_600_000, batch: 1000 }
    }
    fn rule(&self) -> &'static str {
        "an OFDM link (baseband with arbitrary complex symbols, or OFDM-QPSK on a carrier) of random size through a random mixture of prefix corruption, an echo or early timing, a subcarrier jammer, symbol damage and loss of signal; non-trivial: a fault happened"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("OFDM and OFDM-QPSK transmitters and receivers, rustfft", "real"), ("channel (echo, jammer, damage, loss)", "simulated")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let pass = k % 3 == 2;
        let mut scv = gen(r, if pass { "ofdm_qpsk" } else { "ofdm_bb" }, Carrier::Quad);
        if !pass && r.chance(0.05) {
            let sub = r.logus(2, 1500);
            scv.set("sub", sub);
            scv.set("pil", r.us(1, sub - 1));
        }
        let (sub, pil) = (scv.get("sub").u(), scv.get("pil").u());
        let sps = if pass { scv.get("sps").u() } else { 1 };
        let cp = sub / 4;
        let nd = (sub - pil).max(1);
        let unit = (sub + cp) * sps;
        let maxs = if k % 10_000 == 5001 { (2_000_000 / unit).clamp(1, 100_000) } else { (20_000 / unit).clamp(1, 300) };
        let ns = if k % 10_000 == 5001 || r.chance(0.05) { maxs } else { r.logus(1, maxs.min(12)) };
        let n = ((ns - 1) * nd + r.us(1, nd)).min(1 << 20);
        let mut p = obj! {"sc" => scv};
        if pass {
            p.set("bits", gen_bits(r, n * 2));
        } else {
            p.set("syms", obj! {"n" => n, "seed" => r.below(1 << 50), "mag" => if r.chance(0.2) { r.uf(-6.0, 6.0).round() } else { 0.0 }});
        }
        if r.chance(0.6) {
            let m = r.us(1, 6);
            p.set("cp", (0..m).map(|_| V::from(vec![r.us(0, ns - 1) as i64, r.us(0, 1 << 16) as i64, r.logus(1, (cp * sps).max(1)) as i64, r.below(5) as i64, r.below(1 << 40) as i64])).collect::<Vec<V>>());
        }
        if !pass {
            match r.below(4) {
                0 if cp > 0 => {
                    // echo: [delay, re, im]
                    let m = r.us(1, 4);
                    p.set("echo", (0..m).map(|i| V::from(vec![if i == 0 && r.bit() { 0.0 } else { r.us(0, cp) as f64 }, r.uf(-1.0, 1.0), r.uf(-1.0, 1.0)])).collect::<Vec<V>>());
                }
                1 => p.set("early", r.us(0, cp)),
                _ => {}
            }
            if r.chance(0.3) {
                p.set("tone", obj! {"c" => r.us(0, sub - 1), "a" => 10f64.powf(r.uf(-2.0, 4.0)), "ph" => r.uf(-PI, PI)});
            }
            if r.chance(0.25) {
                let d = *r.pick(&[3.0, 12.0, 100.0]);
                p.set("gain", 10f64.powf(r.uf(-d, d)));
                p.set("turn", r.uf(-PI, PI));
            }
        } else if r.chance(0.3) {
            let d = *r.pick(&[8.0, 30.0, 100.0]);
            p.set("gain", 10f64.powf(r.uf(-d, d)));
        }
        if r.chance(0.5) {
            let m = r.us(1, 3);
            p.set("faults", (0..m).map(|_| gen_fault(r, ns * unit, unit, &["burst", "erase", "dc", "spike", "inf", "flip", "clip", "tone"])).collect::<Vec<V>>());
        }
        p.set("cut", match r.below(5) { 0 => r.us(0, ns * unit + 3), 1 => (r.us(0, ns) * unit).saturating_sub(r.us(0, 1)), _ => ns * unit + cp * sps });
        p
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let sc = Sc::parse(plan.get("sc"))?;
        need!(sc.is_ofdm());
        if sc.k == "ofdm_qpsk" {
            return passband(&sc, plan, ctx);
        }
        let (sub, pil) = (sc.sub, sc.pil);
        let cp = sub / 4;
        let unit = sub + cp;
        let msg = symbols(plan.get("syms"));
        let carriers = sc.data_carriers();
        let nd = carriers.len();
        need!(nd >= 1 && msg.len() <= 1 << 20);
        let ns = msg.len().div_ceil(nd);
        need!(ns * unit <= 1 << 22);
        let m2 = msg.clone();
        let tx: Vec<C> = match guard(|| take(komunikilo::ofdm::tx_baseband_ofdm_signal(m2.into_iter(), sub, pil), ns * unit + 2)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "transmitter ({sub} subcarriers, {pil} pilots): {e:?}"),
        };
        if tx.len() != ns * unit {
            vio!("length", "{} symbols on {nd} carriers gave {} samples, expected {ns} OFDM symbols of {unit}", msg.len(), tx.len());
        }
        let mut x = tx.clone();
        let mut h = vec![C::new(1.0, 0.0); sub];
        let freq = |c: usize| c as f64 - (sub / 2) as f64;
        let mut early = 0;
        if plan.has("echo") {
            let taps: Vec<(usize, C)> = plan.get("echo").a().iter().map(|t| (t.a().first().map_or(0, |v| v.u()), C::new(t.a().get(1).map_or(0.0, |v| v.f()), t.a().get(2).map_or(0.0, |v| v.f())))).collect();
            need!(taps.iter().all(|t| t.0 <= cp && t.1.norm() < 100.0));
            ctx.fault("echo", taps.iter().map(|t| t.0).max().unwrap_or(0) as u64);
            for (i, v) in x.iter_mut().enumerate() {
                *v = taps.iter().filter(|t| t.0 <= i).map(|t| tx[i - t.0] * t.1).sum();
            }
            for (c, hc) in h.iter_mut().enumerate() {
                *hc = taps.iter().map(|t| t.1 * C::from_polar(1.0, -2.0 * PI * (freq(c) * t.0 as f64 / sub as f64).fract())).sum();
            }
        } else if plan.get("early").u() > 0 {
            early = plan.get("early").u();
            need!(early <= cp);
            ctx.fault("early_timing", early as u64);
            let mut r = Rng::new(early as u64 ^ 77);
            let mut y: Vec<C> = (0..early).map(|_| C::new(r.gauss(), r.gauss())).collect();
            y.extend(x);
            x = y;
            for (c, hc) in h.iter_mut().enumerate() {
                *hc = C::from_polar(1.0, -2.0 * PI * (freq(c) * early as f64 / sub as f64).fract());
            }
        }
        let (mut jam, mut gain) = (None, 1.0);
        // the size of rounding errors, OFDM symbol by OFDM symbol
        let mut scale: Vec<f64> = tx.chunks(unit).map(|u| u.iter().map(|v| v.norm()).fold(0.0, f64::max) * sub as f64 * 4.0).collect();
        if plan.has("tone") {
            let t = plan.get("tone");
            let (c, a) = (t.get("c").u(), t.get("a").f());
            need!(c < sub && a.is_finite() && a <= 1e6);
            ctx.fault("subcarrier_jammer", c as u64);
            for (i, v) in x.iter_mut().enumerate() {
                *v += C::from_polar(a, 2.0 * PI * (freq(c) * i as f64 / sub as f64).fract() + t.get("ph").f());
            }
            scale.iter_mut().for_each(|s| *s += a * sub as f64);
            jam = Some(c);
        }
        if plan.has("gain") {
            let g = C::from_polar(plan.get("gain").f(), plan.get("turn").f());
            need!(g.norm() > 1e-110 && g.norm() < 1e110);
            ctx.fault("gain", 0);
            x.iter_mut().for_each(|v| *v *= g);
            h.iter_mut().for_each(|v| *v *= g);
            scale.iter_mut().for_each(|s| *s *= g.norm());
            gain = g.norm();
        }
        corrupt_cp(ctx, plan.get("cp").a(), &mut x, unit, cp - early, 0, false);
        // the receiver's blocks start at sample 0
        let touched = apply_faults(ctx, plan.get("faults").a(), &mut x, true);
        let cut = plan.get("cut").u().min(x.len());
        if cut < x.len() {
            ctx.fault("signal_lost", cut as u64);
            x.truncate(cut);
        }
        let whole = cut / unit;
        let (src, _) = Src::new(Arc::new(x.clone()), cut, End::Eof);
        let rx: Vec<C> = match guard(|| take(komunikilo::ofdm::rx_baseband_ofdm_signal(src, sub, pil), whole * nd + 4)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "receiver ({sub} subcarriers, {pil} pilots, {cut} samples): {e:?}"),
        };
        ctx.items(x.len());
        ctx.time(x.len() as f64 * 1e-6);
        ctx.logf(&rx);
        ctx.sig((sub as u64) << 40 ^ (pil as u64) << 20 ^ cut as u64);
        if rx.len() != whole * nd {
            vio!("length", "{cut} samples ({whole} whole OFDM symbols of {unit}, {nd} data carriers) gave {} symbols", rx.len());
        }
        // (the echo can be stronger than the direct path)
        let hmax = h.iter().map(|v| v.norm() / gain).fold(1.0, f64::max);
        for s in 0..whole {
            if touched[s * unit + (cp - early.min(cp))..(s + 1) * unit].iter().any(|&t| t) {
                continue;
            }
            for (j, &c) in carriers.iter().enumerate() {
                if jam == Some(c) {
                    continue;
                }
                let want = msg.get(s * nd + j).copied().unwrap_or(C::new(0.0, 0.0)) * h[c];
                let got = rx[s * nd + j];
                if !((got - want).norm() <= 1e-9 * scale.get(s).copied().unwrap_or(0.0) * hmax + 1e-200) {
                    vio!("recovery", "{sub} subcarriers, {pil} pilots: OFDM symbol {s} carrier {c} gave {got}, sent {want} (with its channel gain)");
                }
            }
        }
        Ok(())
    }
}

fn passband(sc: &Sc, plan: &V, ctx: &Ctx) -> R {
    need!(super::c03::is_quad(sc));
    let bits = bits_of(plan.get("bits"));
    let unit = sc.unit_out();
    let per = sc.unit_in();
    need!(per >= 2);
    let ns = (bits.len() / 2 * 2).div_ceil(per);
    need!(ns * unit <= 1 << 22);
    let b2 = bits.clone();
    let tx = match guard(|| take_box(sc.tx(Box::new(b2.into_iter())), ns * unit + 2)) {
        Ok(v) => v,
        Err(e) => vio!("panic", "OFDM-QPSK transmitter: {e:?}"),
    };
    if tx.len() != ns * unit {
        vio!("length", "{} bits gave {} samples, expected {ns} OFDM symbols of {unit}", bits.len(), tx.len());
    }
    let gain = if plan.has("gain") { plan.get("gain").f() } else { 1.0 };
    need!(gain > 1e-110 && gain < 1e110);
    let mut x: Vec<C> = tx.iter().map(|v| v * gain).collect();
    if gain != 1.0 {
        ctx.fault("gain", 0);
    }
    let cpn = sc.sub / 4 * sc.sps;
    corrupt_cp(ctx, plan.get("cp").a(), &mut x, unit, cpn, 0, true);
    let touched = apply_faults(ctx, plan.get("faults").a(), &mut x, false);
    let cut = plan.get("cut").u().min(x.len());
    if cut < x.len() {
        ctx.fault("signal_lost", cut as u64);
        x.truncate(cut);
    }
    let whole = cut / unit;
    let xs = x.clone();
    let rx = match guard(|| take_box(sc.rx(Box::new(xs.into_iter())), whole * per + 8)) {
        Ok(v) => v,
        Err(e) => vio!("panic", "OFDM-QPSK receiver ({cut} samples): {e:?}"),
    };
    ctx.items(x.len());
    ctx.time(x.len() as f64 / sc.rate());
    ctx.logb(&rx);
    ctx.sig((sc.sub as u64) << 40 ^ (sc.sps as u64) << 32 ^ cut as u64);
    if rx.len() != whole * per {
        vio!("length", "OFDM-QPSK: {cut} samples ({whole} whole OFDM symbols of {unit}) gave {} bits, expected {per} each", rx.len());
    }
    for s in 0..whole {
        if touched[s * unit + cpn..(s + 1) * unit].iter().any(|&t| t) {
            continue;
        }
        for i in s * per..(s + 1) * per {
            if i < bits.len() / 2 * 2 && rx[i] != bits[i] {
                vio!("recovery", "OFDM-QPSK, {} subcarriers, {} pilots, {} samples per symbol: bit {i} (OFDM symbol {s}) received as {}", sc.sub, sc.pil, sc.sps, rx[i]);
            }
        }
    }
    Ok(())
}
