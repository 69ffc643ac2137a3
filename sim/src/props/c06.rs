//! C06: frequency hoppers stay in lock and visit every channel once per cycle.
use super::c01::infer_hops;
use super::{Budget, Prop};
use crate::core::{guard, Ctx, R};
use crate::env::{apply_faults, gain_edges, gen_fault, take, take_box};
use crate::json::{bits_of, gen_bits, V};
use crate::rng::Rng;
use crate::schemes::{gen, Carrier, Sc, C};

pub struct P;

/// Smallest distance between any two hop waveforms (to tell hops apart), exact only below 1e-3.
fn separation(sc: &Sc) -> f64 {
    let set = sc.hop_set();
    let wave = |f: f64, b: bool| -> Vec<f64> {
        if sc.k == "fh_css" {
            sc.css_symbol(b, f).iter().map(|c| c.re).collect()
        } else {
            (0..sc.sps).map(|j| (2.0 * std::f64::consts::PI * f * j as f64 / sc.fs() as f64).cos()).collect()
        }
    };
    let mut best = f64::INFINITY;
    for b in [true, false] {
        let ws: Vec<Vec<f64>> = set.iter().map(|&f| wave(f, b)).collect();
        for i in 0..ws.len() {
            for j in 0..i {
                let mut d = 0.0f64;
                for (a, b) in ws[i].iter().zip(&ws[j]) {
                    d = d.max((a - b).abs());
                    if d >= best.min(1e-3) {
                        break;
                    }
                }
                best = best.min(d);
            }
        }
        if sc.k != "fh_css" {
            break;
        }
    }
    best
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 60_000, thorough: 400_000, batch: 200 }
    }
    fn rule(&self) -> &'static str {
        "one hopping link (FH-BPSK), or two hopping transmissions (FH-BPSK or FH-CSS) with the same settings read in turns, over random bands, hop counts, rates and lengths, with channel faults on symbols; hops are inferred from the waveform; non-trivial: a fault hit a symbol, or the two transmissions were interleaved"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("FH-BPSK and FH-CSS modems", "real"), ("channel, reader", "simulated"), ("oracle", "waveform matching against the hop set")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let link = k % 2 == 0;
        let kind = if link || k % 4 == 1 { "fh_bpsk" } else { "fh_css" };
        loop {
            let mut scv = gen(r, kind, Carrier::Any);
            if r.chance(0.1) {
                scv.set("nf", 1);
            }
            let sc = Sc::parse(&scv).expect("generator");
            // now and then more frequencies than a byte counts, or very many cycles of a few
            let crowd = !link && k % 400 == 201;
            let cycles = !link && k % 20 == 11;
            if crowd {
                scv.set("k", "fh_bpsk");
                scv.set("nf", r.us(200, 600));
                scv.set("sps", r.us(1300, 2600));
                scv.set("sr", 1000);
                scv.set("lo", r.us(0, 100) * 1000);
                scv.set("hi", 650_000);
            }
            if cycles {
                scv.set("nf", r.us(2, 20));
            }
            let sc = if crowd || cycles { match Sc::parse(&scv) { Ok(s) => s, Err(_) => continue } } else { sc };
            if crowd && separation(&sc) < 1e-3 {
                continue;
            }
            if !link && !crowd && (sc.sps < 8 || sc.nf > 40 || separation(&sc) < 1e-3) {
                continue;
            }
            let long = link && k % 1000 == 500;
            if long && sc.sps > 20 {
                continue;
            }
            let n = match r.below(4) {
                _ if long => r.us(66_000, 140_000),
                _ if crowd => sc.nf * r.us(1, 2) + r.us(0, sc.nf),
                _ if cycles => sc.nf * r.us(60, 400),
                0 => r.us(1, 3 * sc.nf + 1),
                1 if link => r.logus(1, 4000),
                _ => (sc.nf * r.us(1, 8) + r.us(0, sc.nf)).max(1),
            }
            .min(if long || crowd || cycles { 3_000_000 } else { 400_000 } / sc.sps + 1);
            let len = n * sc.sps;
            let mut plan = obj! {"sc" => scv, "bits" => gen_bits(r, n), "link" => link};
            if link {
                let fl: Vec<V> = (0..r.us(0, 5)).map(|_| gen_fault(r, len, sc.sps, &["burst", "erase", "spike", "inf", "flip", "gain", "tone", "dc"])).collect();
                plan.set("faults", fl);
                if r.chance(0.3) {
                    plan.set("cut", r.us(0, len));
                }
                if r.chance(0.15) {
                    plan.set("level", r.uf(-140.0, 140.0));
                }
            } else {
                plan.set("bits2", gen_bits(r, n));
                plan.set("turns", (0..r.us(1, 4)).map(|_| r.logus(1, 3 * sc.sps)).collect::<Vec<usize>>());
            }
            return plan;
        }
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let sc = Sc::parse(plan.get("sc"))?;
        need!(matches!(sc.k.as_str(), "fh_bpsk" | "fh_css"));
        let bits = bits_of(plan.get("bits"));
        let sps = sc.sps;
        need!(bits.len() * sps <= 1 << 22);
        ctx.sig((sc.nf as u64) << 8 ^ (bits.len() as u64) << 20 ^ sps as u64);
        ctx.time((bits.len() * sps) as f64 / sc.rate());
        ctx.items(bits.len() * sps);
        if plan.get("link").b() {
            return link(plan, &sc, &bits, ctx);
        }
        need!(sps >= 4 && sc.nf <= 700 && (sc.nf == 1 || separation(&sc) >= 1e-3));
        let bits2 = bits_of(plan.get("bits2"));
        // two transmissions with the same settings, read in turns
        let turns: Vec<usize> = plan.get("turns").a().iter().map(|v| v.u().max(1)).collect();
        need!(!turns.is_empty());
        let r = guard(|| {
            let mut a = sc.tx(Box::new(bits.clone().into_iter()));
            let mut b = sc.tx(Box::new(bits2.clone().into_iter()));
            let (mut xa, mut xb) = (vec![], vec![]);
            let (la, lb) = (bits.len() * sps, bits2.len() * sps);
            let mut i = 0;
            while xa.len() < la || xb.len() < lb {
                let n = turns[i % turns.len()];
                let (x, it, l) = if i % 2 == 0 { (&mut xa, &mut a, la) } else { (&mut xb, &mut b, lb) };
                for _ in 0..n.min(l - x.len()) {
                    match it.next() {
                        Some(v) => x.push(v),
                        None => return (xa, xb),
                    }
                }
                i += 1;
            }
            (xa, xb)
        });
        let (xa, xb) = match r {
            Ok(v) => v,
            Err(e) => vio!("panic", "{} with {} frequencies: {e:?}", sc.k, sc.nf),
        };
        ctx.fault("interleaved", (turns[0] + turns.len() * 1000) as u64);
        ctx.logf(&xa);
        let mut pats: Vec<Vec<usize>> = vec![];
        for (x, b) in [(&xa, &bits), (&xb, &bits2)] {
            if x.len() != b.len() * sps {
                vio!("length", "{}: {} bits gave {} samples", sc.k, b.len(), x.len());
            }
            let h = infer_hops(&sc, b, x);
            if let Some(s) = h.iter().position(|h| h.is_none()) {
                vio!("hop-set", "{}: symbol {s} is on none of the {} frequencies of the band", sc.k, sc.nf);
            }
            pats.push(h.into_iter().map(|h| h.unwrap()).collect());
        }
        let common = pats[0].len().min(pats[1].len());
        if let Some(s) = (0..common).find(|&s| pats[0][s] != pats[1][s]) {
            vio!("pattern", "{}: two transmissions with the same settings differ in the hop of symbol {s}", sc.k);
        }
        let p = if pats[0].len() >= pats[1].len() { &pats[0] } else { &pats[1] };
        let cycles: Vec<&[usize]> = p.chunks_exact(sc.nf).collect();
        for (c, cyc) in p.chunks(sc.nf).enumerate() {
            let mut seen = vec![false; sc.nf];
            for &h in cyc {
                if seen[h] {
                    vio!("cycle", "{}: cycle {c} of {} hops uses frequency {h} twice", sc.k, sc.nf);
                }
                seen[h] = true;
            }
        }
        // the same order so often in a row that no reshuffling explains it
        let orders: f64 = (2..=sc.nf).map(|n| n as f64).product();
        let mut row = 1;
        for c in 1..cycles.len() {
            row = if cycles[c] == cycles[c - 1] { row + 1 } else { 1 };
            if sc.nf >= 2 && orders.powi(1 - row) * (cycles.len() as f64) < 1e-13 {
                vio!("reshuffle", "{}: {row} cycles of {} hops in a row in the same order, up to cycle {c}", sc.k, sc.nf);
            }
        }
        if sc.nf >= 8 && cycles.len() >= 4 {
            ctx.probe("reshuffle_judged");
            if cycles.windows(2).all(|w| w[0] == w[1]) {
                vio!("reshuffle", "{}: {} cycles of {} hops all in the same order", sc.k, cycles.len(), sc.nf);
            }
        }
        if sc.nf >= 12 && cycles.len() >= 2 {
            if let Some(c) = (1..cycles.len()).find(|&c| cycles[c] == cycles[c - 1]) {
                vio!("reshuffle", "{}: cycle {c} of {} hops repeats the previous order", sc.k, sc.nf);
            }
        }
        Ok(())
    }
}

fn link(plan: &V, sc: &Sc, bits: &[bool], ctx: &Ctx) -> R {
    need!(sc.k == "fh_bpsk");
    let sps = sc.sps;
    let mut x: Vec<C> = match guard(|| take_box(sc.tx(Box::new(bits.to_vec().into_iter())), bits.len() * sps + 2)) {
        Ok(v) => v,
        Err(e) => vio!("panic", "fh_bpsk transmitter with {} frequencies: {e:?}", sc.nf),
    };
    if x.len() != bits.len() * sps {
        vio!("length", "{} bits gave {} samples", bits.len(), x.len());
    }
    let mut touched = apply_faults(ctx, plan.get("faults").a(), &mut x, false);
    gain_edges(plan.get("faults").a(), sps, &mut touched);
    need!(plan.get("faults").a().iter().all(|f| f.get("t").s() != "gain" || f.get("a").f() > 0.0));
    if plan.has("cut") {
        let c = plan.get("cut").u().min(x.len());
        if c < x.len() {
            ctx.fault("signal_lost", c as u64);
            x.truncate(c);
        }
    }
    crate::env::level(ctx, plan, &mut x)?;
    let nsym = x.len() / sps;
    let xs = x.clone();
    let rx = match guard(|| take_box(sc.rx(Box::new(xs.into_iter())), nsym + 8)) {
        Ok(v) => v,
        Err(e) => vio!("panic", "fh_bpsk receiver with {} frequencies: {e:?}", sc.nf),
    };
    ctx.logb(&rx);
    if rx.len() != nsym {
        vio!("length", "{} samples of {sps} per symbol gave {} bits", x.len(), rx.len());
    }
    for s in 0..nsym {
        if !touched[s * sps..(s + 1) * sps].iter().any(|&t| t) && rx[s] != bits[s] {
            vio!("lock", "untouched symbol {s} of {nsym} received as {}, sent {} ({} frequencies)", rx[s], bits[s], sc.nf);
        }
    }
    Ok(())
}
