//! C09: noncoherent FSK reception.
use super::{Budget, Prop};
use crate::core::{guard, Ctx, R};
use crate::env::{apply_faults, gain_edges, gen_fault, take, take_box};
use crate::json::{bits_of, gen_bits, V};
use crate::rng::Rng;
use crate::schemes::{Sc, C};
use std::f64::consts::PI;

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 80_000, thorough: 600_000, batch: 250 }
    }
    fn rule(&self) -> &'static str {
        "a noncoherent FSK link at random rates, per-stretch gains of either sign, channel faults on other symbols and a cut anywhere; non-trivial: a gain change, fault or cut happened"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("FSK modem", "real"), ("channel", "simulated"), ("oracle", "tone energies of the symbol's own samples")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let orth = r.chance(0.8);
        let m = r.us(1, 5);
        let sps = 42 * m + r.logus(1, 100);
        let sr = if r.bit() { r.logus(1, 20_000) } else { *r.pick(&[1usize, 100, 900, 1000, 4800]) };
        let fc = if orth { (20 * m * sr) as f64 } else { r.uf(0.0, 0.48) * (sr * sps) as f64 };
        let n = if k % 4000 == 3999 { (4_000_000 / sps).min(70_000) } else if r.chance(0.02) { r.logus(500, 4000) } else { r.logus(1, 60) };
        let len = n * sps;
        let faults: Vec<V> = (0..r.us(0, 5)).map(|_| gen_fault(r, len, sps, &["burst", "erase", "spike", "inf", "flip", "gain", "flipgain", "dc"])).map(|mut f| {
            if f.get("t").s() == "flipgain" {
                // a gain of negative sign over whole symbols
                let at = f.get("at").u() / sps * sps;
                let n = f.get("n").u().div_ceil(sps) * sps;
                f = obj! {"t" => "gain", "at" => at, "n" => n, "a" => -(10f64.powf(f.get("a").f().abs().log10().clamp(-6.0, 6.0)))};
            }
            f
        }).collect();
        let cut = if r.chance(0.3) { r.us(0, len) } else { len };
        obj! {"sc" => obj! {"k" => "fmfsk", "sr" => sr, "sps" => sps, "fc" => fc}, "orth" => if orth { m } else { 0 }, "bits" => gen_bits(r, n), "faults" => faults, "cut" => cut, "level" => match r.below(6) { 0 => 10f64.powf(if r.bit() { r.uf(-151.5, 140.0) } else { -151.5 }), 1 => 10f64.powf(r.uf(-9.0, 9.0)), _ => 1.0 }}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let sc = Sc::parse(plan.get("sc"))?;
        need!(sc.k == "fmfsk" && sc.sps >= 2);
        let bits = bits_of(plan.get("bits"));
        let sps = sc.sps;
        need!(bits.len() * sps <= 1 << 22);
        let m = plan.get("orth").u();
        let orth = m >= 1;
        if orth {
            need!(sc.fc == (20 * m * sc.sr) as f64 && sps >= 42 * m);
        }
        let tx: Vec<C> = match guard(|| take_box(sc.tx(Box::new(bits.clone().into_iter())), bits.len() * sps + 2)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "fsk transmitter: {e:?}"),
        };
        let n = tx.len() / sps;
        // how loud the whole reception is
        let level = if plan.has("level") { plan.get("level").f() } else { 1.0 };
        need!(level > 1e-152 && level < 1e141);
        if level != 1.0 {
            ctx.fault("level", 0);
        }
        let mut x: Vec<C> = tx.iter().map(|v| v * level).collect();
        let mut touched = apply_faults(ctx, plan.get("faults").a(), &mut x, false);
        need!(plan.get("faults").a().iter().all(|f| f.get("t").s() != "gain" || f.get("a").f() != 0.0));
        gain_edges(plan.get("faults").a(), sps, &mut touched);
        let cut = plan.get("cut").u().min(x.len());
        if cut < x.len() {
            ctx.fault("signal_lost", cut as u64);
            x.truncate(cut);
        }
        let nsym = cut / sps;
        let xs = x.clone();
        let rx = match guard(|| take_box(sc.rx(Box::new(xs.into_iter())), nsym + 8)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "fsk receiver: {e:?}"),
        };
        ctx.items(x.len());
        ctx.time(x.len() as f64 / sc.rate());
        ctx.logb(&rx[..nsym.min(rx.len())]);
        ctx.sig((sps as u64) << 10 ^ (cut as u64) << 30 ^ n as u64);
        if rx.len() < nsym || rx.len() > nsym + (cut % sps != 0) as usize {
            vio!("length", "fsk: {cut} samples of {sps} per symbol gave {} bits", rx.len());
        }
        for s in 0..nsym {
            let own = &x[s * sps..(s + 1) * sps];
            let e = |f: f64| {
                let z: C = own.iter().enumerate().map(|(j, v)| v * C::from_polar(1.0, -2.0 * PI * f * (j as f64 / sc.fs() as f64))).sum();
                z.norm_sqr()
            };
            let (e1, e0) = (e(sc.tone(true)), e(sc.tone(false)));
            let tot: f64 = own.iter().map(|v| v.norm()).sum::<f64>().powi(2);
            if e1.is_finite() && e0.is_finite() && (e1 - e0).abs() > 1e-9 * tot && tot > 1e-300 && tot.is_finite() {
                if rx[s] != (e1 > e0) {
                    vio!("decision", "fsk: symbol {s} decided {}, its tone energies are {e1} (one) and {e0} (zero)", rx[s]);
                }
            } else {
                ctx.probe("ambiguous_symbol");
            }
            let clean = !touched[s * sps..(s + 1) * sps].iter().any(|&t| t);
            if clean && orth && tot > 1e-300 && rx[s] != bits[s] {
                vio!("intact", "fsk: intact symbol {s} received as {}, sent {}", rx[s], bits[s]);
            }
        }
        Ok(())
    }
}
