//! C16: the block band-pass filter removes out-of-band jammers block by block.
use super::{Budget, Prop};
use crate::core::{guard, Ctx, R};
use crate::env::{apply_faults, gen_fault, drain, read_pattern, Src, End};
use crate::json::V;
use crate::rng::Rng;
use crate::schemes::C;
use std::f64::consts::PI;
use std::sync::Arc;

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 200_000, thorough: 1_600_000, batch: 300 }
    }
    fn rule(&self) -> &'static str {
        "a stream of whole blocks of noise and tones through the band-pass filter, with jammers switched on in some blocks, bursts and outages, judged against a direct DFT of each block; non-trivial: a jammer or fault was on"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("FFT band-pass filter, realfft", "real"), ("signal source, jammers", "simulated")]
    }
    fn gen(&self, r: &mut Rng, _k: u64, _th: bool) -> V {
        let len = match r.below(12) {
            0 => *r.pick(&[1usize, 2, 3, 4]),
            1 => *r.pick(&[127usize, 255, 243, 125]),
            2 => 1 << r.us(1, 9),
            3 if r.chance(0.02) => 8192,
            _ => r.logus(2, 160),
        };
        let fs = match r.below(6) { 0 => 10_000, 1 => len, 2 => len * r.us(1, 50), 3 => len * r.logus(1, 1 << 30), 4 => r.logus(1 << 16, 1 << 40), _ => r.us(1, 100_000) };
        let half = fs as f64 / 2.0;
        // an edge exactly on a bin only where bin frequencies are exact however computed
        let exact = fs % len == 0 && len.is_power_of_two();
        let off = if exact { 0.0 } else { 0.5 };
        let bin = |r: &mut Rng| (r.us(0, len / 2) as f64 + off) * fs as f64 / len as f64;
        let mut e = || if r.bit() { bin(r) } else { r.uf(-0.05, 1.1) * half };
        let (a, b) = (e(), e());
        let (lo, hi) = if r.chance(0.03) { (a.max(b), a.min(b)) } else { (a.min(b), a.max(b)) };
        let nb = if len > 1000 { 2 } else { r.logus(1, 12) };
        let tones: Vec<V> = (0..r.us(0, 5)).map(|_| V::from(vec![r.us(0, len / 2) as f64, 10f64.powf(r.uf(-3.0, 6.0)), r.uf(-PI, PI), r.us(0, nb - 1) as f64, r.logus(1, nb) as f64])).collect();
        let rare = r.chance(0.1);
        let faults: Vec<V> = (0..r.us(rare as usize, 2)).map(|_| gen_fault(r, nb * len, len, if rare { &["inf"] } else { &["burst", "erase", "dc", "spike", "flip", "gain"] })).collect();
        let pat: Vec<i64> = (0..r.us(0, 3)).map(|_| match r.below(3) { 0 => 0, 1 => -(r.logus(1, len) as i64), _ => r.logus(1, 50) as i64 }).collect();
        obj! {"len" => len, "fs" => fs, "lo" => lo, "hi" => hi, "blocks" => nb, "noise" => if r.bit() { 1.0 } else { 0.0 }, "tones" => tones, "faults" => faults, "seed" => r.below(1 << 50), "pat" => pat, "scale" => if r.chance(0.2) { 10f64.powf(r.uf(-120.0, 120.0)) } else { 1.0 }}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let (len, fs, nb) = (plan.get("len").u(), plan.get("fs").u(), plan.get("blocks").u());
        need!(len >= 1 && len <= 1 << 14 && fs >= 1 && nb <= 64);
        let (lo, hi) = (plan.get("lo").f(), plan.get("hi").f());
        let mut r = Rng::new(plan.get("seed").u64());
        let noise = plan.get("noise").f();
        let total = len * nb;
        let mut x: Vec<C> = (0..total).map(|_| C::new(if noise != 0.0 { noise * r.gauss() } else { 0.0 }, 0.0)).collect();
        for t in plan.get("tones").a() {
            // [bin, amplitude, phase, first block, blocks]
            let t: Vec<f64> = t.a().iter().map(|v| v.f()).collect();
            need!(t.len() == 5 && t.iter().all(|v| v.is_finite()) && t[1].abs() <= 1e9);
            let b0 = t[3].max(0.0) as usize;
            let b1 = (b0 + t[4].max(0.0) as usize).min(nb);
            let f = t[0] * fs as f64 / len as f64;
            ctx.fault(if f < lo || f > hi { "out_of_band_jammer" } else { "in_band_tone" }, (b0 * len) as u64);
            for i in b0.min(nb) * len..b1 * len {
                let ph = 2.0 * PI * ((t[0] as usize * (i % len)) % len) as f64 / len as f64 + t[2];
                x[i] += C::new(t[1] * ph.cos(), 0.0);
            }
        }
        apply_faults(ctx, plan.get("faults").a(), &mut x, false);
        let level = plan.get("scale").f();
        need!(level > 1e-130 && level < 1e130);
        let x: Vec<f64> = x.iter().map(|c| c.re).collect();
        need!(x.iter().all(|v| !v.is_finite() || v.abs() < 1e30));
        let x: Vec<f64> = x.iter().map(|v| v * level).collect();
        let pat: Vec<i64> = plan.get("pat").a().iter().map(|v| v.i()).collect();
        let mut out: Vec<Option<f64>> = vec![None; total + 1];
        let (src, _p) = Src::new(Arc::new(x.clone()), total, End::Eof);
        let done = guard(|| {
            let mut it = komunikilo::bpf::bandpass(lo, hi, src, fs, len);
            let o = &mut out;
            if let Some(one) = crate::env::reader() {
                let mut n = 0;
                let end = drain(Box::new(it), one, total + 1, &mut |v| {
                    o[n.min(total)] = Some(v);
                    n += 1;
                });
                return (n, end);
            }
            let (n, end, _) = read_pattern(&mut it, &pat, total + 1, &mut |i, v| o[i.min(total)] = Some(v));
            (n, end)
        });
        let (n, end) = match done {
            Ok(v) => v,
            Err(e) => vio!("panic", "band-pass ({len}-sample blocks): {e:?}"),
        };
        if out[total].is_some() || (end && n != usize::MAX && n != total) || !end {
            vio!("length", "{total} samples in, {n} out (ended: {end})");
        }
        ctx.items(total);
        ctx.time(total as f64 / fs as f64);
        ctx.logs(out.iter().map(|v| v.map_or(1, |v| v.to_bits())));
        ctx.sig((len as u64) << 32 ^ fs as u64);
        // frequencies of the bins, and whether the edges sit too close to one to tell
        let hz: Vec<f64> = (0..=len / 2).map(|k| (k * fs) as f64 / len as f64).collect();
        let near = |e: f64| hz.iter().any(|&h| (h != e || fs % len != 0 || !len.is_power_of_two()) && (h - e).abs() <= 1e-9 * (1.0 + h));
        need!(!near(lo) && !near(hi));
        let kept: Vec<bool> = hz.iter().map(|&h| h >= lo && h <= hi).collect();
        let tw: Vec<C> = (0..len).map(|i| C::from_polar(1.0, -2.0 * PI * i as f64 / len as f64)).collect();
        for b in 0..nb {
            let blk = &x[b * len..(b + 1) * len];
            if blk.iter().any(|v| !v.is_finite()) {
                // nothing to expect of this block; the others owe it nothing
                ctx.probe("block_with_nonfinite_sample");
                continue;
            }
            let scale: f64 = blk.iter().map(|v| v.abs()).fold(0.0, f64::max) * (len as f64).sqrt() + 1e-300;
            // project onto the kept (or, if fewer, the removed) bins
            let nk = kept.iter().filter(|&&k| k).count();
            let inv = nk * 2 > kept.len();
            let mut want = if inv { blk.to_vec() } else { vec![0.0; len] };
            for (k, &keep) in kept.iter().enumerate() {
                if keep == inv {
                    continue;
                }
                let s: C = blk.iter().enumerate().map(|(i, &v)| tw[k * i % len] * v).sum();
                let w = if k == 0 || 2 * k == len { 1.0 } else { 2.0 } / len as f64;
                for (i, o) in want.iter_mut().enumerate() {
                    let c = (s * tw[k * i % len].conj()).re * w;
                    *o += if inv { -c } else { c };
                }
            }
            for (i, &w) in want.iter().enumerate() {
                if let Some(g) = out[b * len + i] {
                    if !((g - w).abs() <= 1e-9 * scale) {
                        vio!("band", "blocks of {len} at {fs}, band {lo}..{hi}: sample {i} of block {b} is {g}, its in-band content is {w}");
                    }
                }
            }
        }
        Ok(())
    }
}
