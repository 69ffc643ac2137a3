//! C08: chaotic keying survives gain, inversion and symbol faults.
use super::{Budget, Prop};
use crate::core::{guard, Ctx, R};
use crate::env::{apply_faults, gen_fault, take, take_box};
use crate::json::{bits_of, gen_bits, V};
use crate::rng::Rng;
use crate::schemes::{Sc, C};

pub struct P;

fn send(k: &str, bits: &[bool], cap: usize) -> Result<Vec<f64>, crate::core::Caught> {
    let b = bits.to_vec();
    guard(|| match k {
        "dcsk" => take(komunikilo::dcsk::tx_baseband_dcsk(b.into_iter()), cap),
        _ => take(komunikilo::csk::tx_baseband_csk(b.into_iter()), cap),
    })
}

/// The two chaos streams CSK selects from, as its own transmissions of all ones and all zeros show them.
pub fn csk_streams(n: usize) -> R<(Vec<f64>, Vec<f64>)> {
    let mut out = vec![];
    for (bit, x0) in [(true, 0.1f64), (false, 0.15)] {
        let v = match send("csk", &vec![bit; n], n + 2) {
            Ok(v) => v,
            Err(e) => vio!("panic", "csk: {e:?}"),
        };
        if v.len() != n {
            vio!("length", "csk: {n} bits gave {} samples", v.len());
        }
        chaos_law("csk", &v, x0)?;
        out.push(v);
    }
    let b = out.pop().unwrap();
    Ok((out.pop().unwrap(), b))
}
pub fn dcsk_refs(n: usize) -> R<Vec<f64>> {
    let v = match send("dcsk", &vec![true; n], 2 * n + 2) {
        Ok(v) => v,
        Err(e) => vio!("panic", "dcsk: {e:?}"),
    };
    if v.len() != 2 * n {
        vio!("length", "dcsk: {n} bits gave {} samples", v.len());
    }
    let r: Vec<f64> = v.iter().step_by(2).cloned().collect();
    chaos_law("dcsk", &r, 0.1)?;
    Ok(r)
}
fn chaos_law(name: &str, v: &[f64], x0: f64) -> R {
    let f = |x: f64| 3.9 * x * (1.0 - x);
    let mut prev = x0;
    for (i, &x) in v.iter().enumerate() {
        if !((x - f(prev)).abs() < 1e-9) {
            vio!("chaos", "{name}: value {i} is {x}, the logistic map of {prev} is {}", f(prev));
        }
        prev = x;
    }
    // and it is the public map with those parameters
    for (i, (x, y)) in v.iter().zip(komunikilo::chaos::LogisticMap::new(3.9, x0)).take(30).enumerate() {
        if !((x - y).abs() < 1e-6) {
            vio!("chaos", "{name}: value {i} is {x}, LogisticMap gives {y}");
        }
    }
    Ok(())
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 160_000, thorough: 1_200_000, batch: 600 }
    }
    fn rule(&self) -> &'static str {
        "a DCSK link with per-symbol gains of random size and sign, or a CSK transmission followed by a regenerating receiver, with random symbol faults and cuts; non-trivial: a gain change, fault or cut happened"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("CSK and DCSK modems, logistic map", "real"), ("channel, regenerating CSK receiver", "simulated")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let kind = if k % 3 == 2 { "csk" } else { "dcsk" };
        let n = if r.chance(0.0012) { r.us(200_000, 1_200_000) } else if r.chance(0.02) { r.logus(5000, 200_000) } else { r.logus(1, 400) };
        let unit = if kind == "csk" { 1 } else { 2 };
        let ng = r.us(0, 4);
        let gains: Vec<V> = (0..ng)
            .map(|_| {
                let at = r.us(0, n - 1);
                obj! {"at" => at, "n" => if r.bit() { 1 } else { r.logus(1, n) }, "e" => r.uf(-100.0, 100.0).round(), "neg" => r.bit()}
            })
            .collect();
        let nf = r.us(0, 4);
        let faults: Vec<V> = (0..nf).map(|_| gen_fault(r, n * unit, unit, &["burst", "erase", "dc", "spike", "inf", "flip"])).collect();
        let cut = if r.chance(0.3) { r.us(0, n * unit) } else { n * unit };
        obj! {"k" => kind, "bits" => gen_bits(r, n), "gains" => gains, "faults" => faults, "cut" => cut}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let kind = plan.get("k").s();
        let bits = bits_of(plan.get("bits"));
        need!(bits.len() <= 1 << 21 && !bits.is_empty());
        let n = bits.len();
        let unit = if kind == "csk" { 1 } else { 2 };
        let tx = match send(kind, &bits, n * unit + 2) {
            Ok(v) => v,
            Err(e) => vio!("panic", "{kind}: {e:?}"),
        };
        if tx.len() != n * unit {
            vio!("length", "{kind}: {n} bits gave {} samples", tx.len());
        }
        ctx.items(tx.len());
        ctx.time(tx.len() as f64 * 1e-6);
        let mut x: Vec<C> = tx.iter().map(|&v| C::new(v, 0.0)).collect();
        let mut dead = vec![false; n];
        if kind == "dcsk" {
            for g in plan.get("gains").a() {
                let at = g.get("at").u().min(n);
                let m = g.get("n").u().min(n - at);
                let e = g.get("e").f();
                need!(e.abs() <= 100.0);
                let a = 10f64.powf(e) * if g.get("neg").b() { -1.0 } else { 1.0 };
                if m > 0 {
                    ctx.fault("gain", at as u64);
                }
                // gains do not pile up beyond the representable range
                for s in at..at + m {
                    x[2 * s] = C::new(tx[2 * s] * a, 0.0);
                    x[2 * s + 1] = C::new(tx[2 * s + 1] * a, 0.0);
                }
            }
        }
        let touched = apply_faults(ctx, plan.get("faults").a(), &mut x, false);
        for (i, t) in touched.iter().enumerate() {
            dead[i / unit] |= t;
        }
        let cut = plan.get("cut").u().min(x.len());
        if cut < x.len() {
            ctx.fault("signal_lost", cut as u64);
        }
        ctx.sig(cut as u64 ^ (n as u64) << 24 ^ unit as u64);
        let x: Vec<f64> = x[..cut].iter().map(|c| c.re).collect();
        if kind == "csk" {
            let (one, zero) = csk_streams(n)?;
            for (i, &v) in tx.iter().enumerate() {
                let want = if bits[i] { one[i] } else { zero[i] };
                if !((v - want).abs() < 1e-9) {
                    vio!("selection", "csk: sample {i} (bit {}) is {v}, its stream's value is {want}", bits[i]);
                }
            }
            // a regenerating receiver
            for (i, &v) in x.iter().enumerate() {
                let got = (v - one[i]).abs() < (v - zero[i]).abs();
                ctx.log(got as u64);
                if !dead[i] && (one[i] - zero[i]).abs() > 1e-6 && got != bits[i] {
                    vio!("intact", "csk: intact symbol {i} reads {got}, sent {}", bits[i]);
                }
            }
            return Ok(());
        }
        let refs = dcsk_refs(n)?;
        for (i, &v) in tx.iter().enumerate() {
            let want = if i % 2 == 0 || bits[i / 2] { refs[i / 2] } else { -refs[i / 2] };
            if !((v - want).abs() < 1e-9) {
                vio!("waveform", "dcsk: sample {i} is {v}, expected {want}");
            }
        }
        let sc = Sc::parse(&obj! {"k" => "dcsk"})?;
        let xs: Vec<C> = x.iter().map(|&v| C::new(v, 0.0)).collect();
        let rx = match guard(|| take_box(sc.rx(Box::new(xs.into_iter())), cut / 2 + 4)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "dcsk receiver: {e:?}"),
        };
        ctx.logb(&rx);
        if rx.len() != cut / 2 {
            vio!("length", "dcsk: {cut} samples gave {} bits", rx.len());
        }
        for (i, &b) in rx.iter().enumerate() {
            if !dead[i] && b != bits[i] {
                vio!("intact", "dcsk: symbol {i} ({}, {}) reads {b}, sent {}", x[2 * i], x[2 * i + 1], bits[i]);
            }
            if dead[i] {
                let p = x[2 * i] * x[2 * i + 1];
                if p.is_finite() && p != 0.0 && b != (p > 0.0) {
                    vio!("decision", "dcsk: symbol {i} ({}, {}) reads {b}", x[2 * i], x[2 * i + 1]);
                }
            }
        }
        Ok(())
    }
}
