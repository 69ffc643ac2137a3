//! C10: FH-OFDM-DCSK output stays finite and its receiver recovers the message.
use super::c07::corrupt_cp;
use super::{Budget, Prop};
use crate::core::{guard, Ctx, R};
use crate::env::{apply_faults, gen_fault, take, take_box, End, Src};
use crate::json::{bits_of, gen_bits, V};
use crate::rng::Rng;
use crate::schemes::{gen, Carrier, Sc, C};
use std::f64::consts::PI;
use std::sync::Arc;

pub struct P;
const UNIT: usize = 10;
const PER: usize = 7;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 200_000, thorough: 2_400_000, batch: 1000 }
    }
    fn rule(&self) -> &'static str {
        "an FH-OFDM-DCSK link of random length with random per-block complex gains, prefix corruption, block damage and loss of signal, or one of the two passband forms compared with the baseband blocks; non-trivial: a fault happened or the passband form was compared"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("FH-OFDM-DCSK transmitters and receiver, hop table, Chebyshev map, rustfft", "real"), ("channel", "simulated")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let kind = match k % 5 { 3 => "fhod1", 4 => "fhod2", _ => "fhod_bb" };
        let scv = gen(r, kind, Carrier::Any);
        let sps = scv.get("sps").u().max(1);
        let n = if k % 10_000 == 9990 { r.us(460_000, 500_000) } else if r.chance(0.01) { r.logus(2000, 100_000 / sps) } else { r.logus(1, 200) - 1 };
        let mut p = obj! {"sc" => scv, "bits" => gen_bits(r, n)};
        if kind != "fhod_bb" {
            return p;
        }
        let nb = n.div_ceil(PER).max(1);
        let len = nb * UNIT;
        if r.bit() {
            p.set("gains", (0..r.us(1, 4)).map(|_| {
                let at = r.us(0, nb - 1);
                V::from(vec![at as f64, if r.bit() { 1.0 } else { r.logus(1, nb) as f64 }, r.uf(-100.0, 100.0).round(), r.uf(-PI, PI)])
            }).collect::<Vec<V>>());
        }
        if r.bit() {
            p.set("cp", (0..r.us(1, 6)).map(|_| V::from(vec![r.us(0, nb - 1) as i64, r.us(0, 1) as i64, r.us(1, 2) as i64, r.below(5) as i64, r.below(1 << 40) as i64])).collect::<Vec<V>>());
        }
        if r.bit() {
            p.set("faults", (0..r.us(1, 4)).map(|_| gen_fault(r, len, UNIT, &["burst", "erase", "dc", "spike", "inf", "flip", "clip", "tone"])).collect::<Vec<V>>());
        }
        p.set("cut", if r.chance(0.4) { r.us(0, len) } else { len + UNIT });
        p
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let sc = Sc::parse(plan.get("sc"))?;
        need!(sc.is_fhod());
        let bits = bits_of(plan.get("bits"));
        let n = bits.len();
        need!(n <= 1 << 20);
        let nb = n.div_ceil(PER);
        let cap = (nb + 2) * UNIT;
        let b2 = bits.clone();
        let tx: Vec<C> = match guard(|| take(komunikilo::fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal(b2.into_iter()), cap)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "transmitter: {e:?}"),
        };
        // a block of padding may follow
        if tx.len() % UNIT != 0 || tx.len() < nb * UNIT || tx.len() > (nb + 1) * UNIT {
            vio!("length", "{n} bits gave {} samples", tx.len());
        }
        ctx.items(tx.len());
        for (i, v) in tx.iter().enumerate() {
            if !(v.norm() <= 4.0) {
                vio!("bounded", "sample {i} (block {}) is {v}", i / UNIT);
            }
        }
        if sc.k != "fhod_bb" {
            return passband(&sc, &bits, &tx, ctx);
        }
        let mut x = tx.clone();
        for g in plan.get("gains").a() {
            let g = g.a();
            if g.len() < 4 {
                continue;
            }
            let (at, m) = (g[0].u(), g[1].u());
            let e = g[2].f();
            need!(e.abs() <= 100.0);
            for b in at..at.saturating_add(m).min(tx.len() / UNIT) {
                if b == at {
                    ctx.fault("complex_gain", b as u64);
                }
                for i in b * UNIT..(b + 1) * UNIT {
                    // gains do not pile up beyond the representable range
                    x[i] = tx[i] * C::from_polar(10f64.powf(e), g[3].f());
                }
            }
        }
        corrupt_cp(ctx, plan.get("cp").a(), &mut x, UNIT, UNIT - 8, 0, false);
        let touched = apply_faults(ctx, plan.get("faults").a(), &mut x, true);
        let cut = plan.get("cut").u().min(x.len());
        if cut < x.len() {
            ctx.fault("signal_lost", cut as u64);
            x.truncate(cut);
        }
        let whole = cut / UNIT;
        let (src, _) = Src::new(Arc::new(x.clone()), cut, End::Eof);
        let rx: Vec<bool> = match guard(|| take(komunikilo::fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal(src), whole * PER + 8)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "receiver ({cut} samples): {e:?}"),
        };
        ctx.logb(&rx);
        ctx.time(x.len() as f64 * 1e-6);
        ctx.sig((n as u64) << 24 ^ cut as u64);
        if rx.len() != whole * PER {
            vio!("length", "{cut} samples ({whole} whole blocks) gave {} bits", rx.len());
        }
        for b in 0..whole {
            if touched[b * UNIT + 2..(b + 1) * UNIT].iter().any(|&t| t) {
                continue;
            }
            for i in b * PER..(b + 1) * PER {
                if i < n && rx[i] != bits[i] {
                    vio!("recovery", "bit {i} (block {b}) received as {}, sent {}", rx[i], bits[i]);
                }
            }
        }
        Ok(())
    }
}

fn passband(sc: &Sc, bits: &[bool], bb: &[C], ctx: &Ctx) -> R {
    let sps = sc.sps;
    need!(bb.len() * sps <= 1 << 22);
    let b2 = bits.to_vec();
    let x: Vec<C> = match guard(|| take_box(sc.tx(Box::new(b2.into_iter())), (bb.len() + 2) * sps)) {
        Ok(v) => v,
        Err(e) => vio!("panic", "{}: {e:?}", sc.k),
    };
    ctx.logf(&x);
    ctx.items(x.len());
    ctx.time(x.len() as f64 / sc.rate());
    ctx.fault("carrier", sc.fc as u64 ^ (sps as u64) << 40);
    if x.len() != bb.len() * sps {
        vio!("length", "{}: {} block samples at {sps} samples each gave {}", sc.k, bb.len(), x.len());
    }
    let set = if sc.k == "fhod1" { sc.hop_set() } else { vec![sc.fc] };
    let fs = sc.fs() as f64;
    let mut last = 0;
    for (s, &v) in bb.iter().enumerate() {
        let fits = |f: f64| {
            (s * sps..(s + 1) * sps).all(|i| {
                // reduce the phase as the library does: time first
                let p = -2.0 * PI * f * (i as f64 / fs);
                let m = v.re * p.cos() - v.im * p.sin();
                (x[i].re - m).abs() <= 1e-9 * (1.0 + p.abs() * 1e-6)
            })
        };
        let m = set.len();
        match (0..m).map(|i| (i + last) % m).find(|&i| fits(set[i])) {
            Some(i) => last = i + 1,
            None => vio!("carrier", "{}: samples {}..{} are not block sample {s} ({v}) on {}", sc.k, s * sps, (s + 1) * sps, if sc.k == "fhod1" { "any of its hop frequencies" } else { "its carrier" }),
        }
    }
    Ok(())
}
