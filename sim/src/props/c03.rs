//! C03: BPSK and QPSK receivers decide each symbol from its own samples only.
use super::{Budget, Prop};
use crate::core::{guard, Ctx, R};
use crate::env::{apply_faults, gain_edges, gen_fault, take, take_box};
use crate::json::{bits_of, gen_bits, V};
use crate::rng::Rng;
use crate::schemes::{gen, Carrier, Sc, C};
use std::f64::consts::PI;

pub struct P;
const KINDS: &[&str] = &["bpsk_bb", "bpsk", "qpsk_bb", "qpsk"];
pub const FAULTS: &[&str] = &["burst", "erase", "dc", "clip", "spike", "inf", "flip", "gain", "tone"];

/// Correlations of symbol `s`'s own samples: (value, what rounding may make of zero) per bit. The
/// bound allows for any order of operations, the carrier's phase included.
pub fn correlate(sc: &Sc, x: &[C], s: usize) -> Vec<(f64, f64)> {
    let (ui, sps) = (sc.unit_in(), sc.unit_out());
    let mut out = vec![(0.0, 0.0); ui];
    let mut phase_err = 0.0;
    for j in 0..sps {
        let i = s * sps + j;
        let v = x[i];
        let terms: [f64; 2] = match sc.k.as_str() {
            "bpsk_bb" | "qpsk_bb" => [v.re, v.im],
            _ => {
                let w = 2.0 * PI * sc.fc * (i as f64 / sc.fs() as f64);
                phase_err = 1e-13 + 4e-15 * w.abs();
                [v.re * w.cos(), -v.re * w.sin()]
            }
        };
        for b in 0..ui {
            out[b].0 += terms[b];
            out[b].1 += 1e-9 * terms[b].abs() + phase_err * v.re.abs();
        }
    }
    out
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 240_000, thorough: 1_600_000, batch: 600 }
    }
    fn rule(&self) -> &'static str {
        "one BPSK/QPSK link (baseband or passband, random rates and carrier) under a random sequence of channel faults aimed at symbols, their boundaries and stretches, then cut at a random sample; non-trivial: at least one fault hit the signal or it was cut"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("transmitters, receivers", "real"), ("channel", "simulated"), ("oracle", "per-symbol correlation")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let kind = KINDS[(k % 4) as usize];
        let quad = r.chance(0.6);
        let scv = gen(r, kind, if quad { Carrier::Quad } else { Carrier::Any });
        let sc = Sc::parse(&scv).expect("generator");
        let soak = r.chance(0.01);
        let syms = if soak { r.logus(3000, 200_000) } else { r.logus(1, 150) }.min(2_000_000 / sc.unit_out() / 4 + 1);
        let n = syms * sc.unit_in();
        let len = syms * sc.unit_out();
        let nf = match r.below(5) { 0 => 0, 1 => 1, _ => r.us(1, 5) };
        let faults: Vec<V> = (0..nf).map(|_| gen_fault(r, len, sc.unit_out(), FAULTS)).collect();
        let cut = match r.below(4) {
            0 => r.us(0, len),
            1 => (r.us(0, syms) * sc.unit_out()).min(len),
            _ => len,
        };
        obj! {"sc" => scv, "bits" => gen_bits(r, n), "faults" => faults, "cut" => cut, "gain" => match r.below(10) { 0 => 10f64.powf(r.uf(-265.0, 265.0)), 1..=3 => 10f64.powf(r.uf(-8.0, 8.0)), _ => 1.0 }}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let sc = Sc::parse(plan.get("sc"))?;
        need!(KINDS.contains(&sc.k.as_str()));
        let bits = bits_of(plan.get("bits"));
        let (ui, sps) = (sc.unit_in(), sc.unit_out());
        need!(sps >= 1 && bits.len() * sps <= 1 << 23);
        let gain = plan.get("gain").f();
        need!(gain > 0.0 && gain.is_finite());
        let tx: Vec<C> = match guard(|| take_box(sc.tx(Box::new(bits.clone().into_iter())), bits.len() * sps + 2)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "{}: transmitter: {e:?}", sc.k),
        };
        let mut x: Vec<C> = tx.iter().map(|v| v * gain).collect();
        let complex = !sc.real();
        let mut touched = apply_faults(ctx, plan.get("faults").a(), &mut x, complex);
        gain_edges(plan.get("faults").a(), sps, &mut touched);
        need!(plan.get("faults").a().iter().all(|f| f.get("t").s() != "gain" || f.get("a").f() > 0.0));
        let cut = plan.get("cut").u().min(x.len());
        if cut < x.len() {
            ctx.fault("signal_lost", cut as u64);
            x.truncate(cut);
        }
        let nsym = cut / sps;
        let xs = x.clone();
        let rx: Vec<bool> = match guard(|| take_box(sc.rx(Box::new(xs.into_iter())), nsym * ui + 8)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "{}: receiver: {e:?}", sc.k),
        };
        ctx.items(x.len());
        ctx.time(x.len() as f64 / sc.rate());
        ctx.logb(&rx);
        ctx.sig(sc.k.len() as u64 ^ (sps as u64) << 10 ^ (cut as u64) << 30);
        if rx.len() != nsym * ui {
            vio!("length", "{}: {} samples ({} symbols of {sps}) gave {} bits", sc.k, cut, nsym, rx.len());
        }
        let quad = sc.k != "qpsk" || is_quad(&sc);
        // faults that inverted whole symbols
        for s in 0..nsym {
            let c = correlate(&sc, &x, s);
            let clean = (s * sps..(s + 1) * sps).all(|i| !touched[i]);
            for b in 0..ui {
                let got = rx[s * ui + b];
                let (v, a) = c[b];
                // what symbol s would look like untouched
                if v.is_finite() && v.abs() > a {
                    if got != (v > 0.0) {
                        vio!("decision", "{}: symbol {s} bit {b} decided {got}, its own samples correlate to {v}", sc.k);
                    }
                } else {
                    ctx.probe("ambiguous_symbol");
                }
                let sent = bits.get(s * ui + b).copied();
                if clean && quad && v.abs() > a {
                    if Some(got) != sent {
                        vio!("intact", "{}: intact symbol {s} bit {b} received as {got}, sent {sent:?}", sc.k);
                    }
                }
            }
        }
        // an inverted symbol flips exactly its own bits
        if quad && plan.get("faults").a().is_empty() && nsym > 0 {
            let s = (plan.get("_ent").u64() % nsym as u64) as usize;
            let mut y = x.clone();
            for v in &mut y[s * sps..(s + 1) * sps] {
                *v = -*v;
            }
            ctx.fault("inversion", (s * sps) as u64);
            let ys = y.clone();
            let rx2: Vec<bool> = match guard(|| take_box(sc.rx(Box::new(ys.into_iter())), nsym * ui + 8)) {
                Ok(v) => v,
                Err(e) => vio!("panic", "{}: receiver: {e:?}", sc.k),
            };
            let c = correlate(&sc, &y, s);
            for i in 0..nsym * ui {
                let own = i / ui == s;
                if own && !(c[i % ui].0.abs() > c[i % ui].1) {
                    continue;
                }
                if rx2.get(i).copied() != Some(rx[i] ^ own) {
                    vio!("inversion", "{}: symbol {s} inverted; bit {i} (symbol {}) went from {} to {:?}", sc.k, i / ui, rx[i], rx2.get(i));
                }
            }
        }
        Ok(())
    }
}

/// Do sin and cos have energy and no cross-talk over every symbol?
pub fn is_quad(sc: &Sc) -> bool {
    let m = 2.0 * sc.fc * sc.sps as f64 / sc.fs() as f64;
    sc.sps >= 3 && (m - m.round()).abs() < 1e-9 && (m.round() as i64).rem_euclid(sc.sps as i64) != 0
}
