//! C05: the coded CDMA link corrects two corrupted bytes per frame and contains the rest.
use super::{Budget, Prop};
use crate::core::{guard, Ctx, R};
use crate::env::{apply_faults, gain_edges, gen_fault, take, take_box};
use crate::json::{bits_of, gen_bits, V};
use crate::rng::Rng;
use crate::schemes::{coded_bits, gen, Carrier, Sc, C};

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 160_000, thorough: 1_200_000, batch: 300 }
    }
    fn rule(&self) -> &'static str {
        "one coded CDMA link, a message of random length, byte corruptions placed frame by frame (up to and beyond two bytes, check bytes and the shortened last frame included), analog bursts, and a loss of signal at a random sample; non-trivial: something was corrupted or cut"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("coded CDMA modem, Reed-Solomon coder", "real"), ("channel", "simulated"), ("oracle", "independent Reed-Solomon encoder and corrupted-byte count")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let mut scv;
        loop {
            scv = gen(r, "coded", Carrier::Chip);
            let spc = scv.get("sps").u() / scv.get("key").s().len().max(1);
            if spc >= 2 && scv.get("sps").u() <= if k % 1999 == 1998 { 8 } else { 40 } {
                break;
            }
        }
        let n = match r.below(6) { _ if k % 1999 == 1998 => r.logus(257, 3000) * 56 + r.us(0, 55), 0 => r.us(0, 9), 1 => 56 * r.us(1, 6), _ => r.logus(1, 700) };
        let frames = n.div_ceil(56);
        // [frame, byte, xor]
        let mut hits: Vec<V> = vec![];
        for f in 0..frames {
            let flen = if f + 1 < frames { 12 } else { (n - 56 * f).div_ceil(8) + 5 };
            let m = match r.below(8) { 0 | 1 => 0, 2..=5 => 2, 6 => 1, _ => r.us(3, flen) };
            let mut pos: Vec<usize> = (0..flen).collect();
            r.shuffle(&mut pos);
            if r.chance(0.2) {
                pos.reverse();
            }
            for &p in pos.iter().take(m) {
                hits.push(V::from(vec![f as i64, p as i64, r.range(1, 255)]));
            }
        }
        let air = (frames * 12) * 8 * scv.get("sps").u();
        let faults: Vec<V> = if r.chance(0.25) { (0..r.us(1, 3)).map(|_| gen_fault(r, air.max(1), scv.get("sps").u() * 8, &["burst", "erase", "spike", "inf", "flip", "gain"])).collect() } else { vec![] };
        let mut bits = gen_bits(r, n);
        if frames > 1 && n <= 20_000 && r.chance(0.15) {
            // few different frames, close to one another, and hits that make one look like another
            let kinds: Vec<String> = {
                let a: Vec<u8> = (0..7).map(|_| r.below(256) as u8).collect();
                (0..r.us(1, 3)).map(|_| {
                    let mut b = a.clone();
                    for _ in 0..r.us(0, 2) {
                        let i = r.us(0, 6);
                        b[i] ^= 1 << r.below(8);
                    }
                    b.iter().flat_map(|v| (0..8).map(move |i| if v >> i & 1 == 1 { '1' } else { '0' })).collect()
                }).collect()
            };
            let pick: Vec<usize> = (0..frames).map(|_| r.us(0, kinds.len() - 1)).collect();
            bits = V::from(pick.iter().map(|&i| kinds[i].as_str()).collect::<String>()[..n].to_string());
            hits.clear();
            for f in 0..frames - 1 {
                let (own, other) = (&kinds[pick[f]], r.pick(&kinds));
                if r.chance(0.6) {
                    for p in 0..7 {
                        let x: i64 = (0..8).map(|i| ((own.as_bytes()[p * 8 + i] != other.as_bytes()[p * 8 + i]) as i64) << i).sum();
                        if x != 0 {
                            hits.push(V::from(vec![f as i64, p as i64, x]));
                        }
                    }
                } else if r.bit() {
                    hits.push(V::from(vec![f as i64, r.range(0, 11), 1i64 << r.below(8)]));
                }
            }
        }
        let mut plan = obj! {"sc" => scv, "bits" => bits, "hits" => hits, "faults" => faults};
        if r.chance(0.35) {
            plan.set("cut", match r.below(3) { 0 => r.us(0, air), 1 => r.us(0, frames * 12) * 8 * plan.get("sc").get("sps").u(), _ => r.us(0, frames * 96) * plan.get("sc").get("sps").u() });
        }
        if r.chance(0.1) {
            plan.set("level", r.uf(-140.0, 140.0));
        }
        plan
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let sc = Sc::parse(plan.get("sc"))?;
        need!(sc.k == "coded");
        let spc = sc.sps / sc.key.len();
        let m = 2.0 * sc.fc * spc as f64 / sc.fs() as f64;
        need!((m - m.round()).abs() < 1e-9 && spc >= 2);
        let bits = bits_of(plan.get("bits"));
        let sps = sc.sps;
        let n = bits.len();
        need!(n * sps <= 1 << 20);
        let air_bits = coded_bits(&bits);
        let tx: Vec<C> = match guard(|| take_box(sc.tx(Box::new(bits.clone().into_iter())), air_bits.len() * sps + 2)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "coded transmitter: {e:?}"),
        };
        if tx.len() != air_bits.len() * sps {
            vio!("frames", "{n} bits went out as {} samples, expected {} ({} frames of 7+5 bytes)", tx.len(), air_bits.len() * sps, n.div_ceil(56));
        }
        let mut x = tx.clone();
        let mut bad: Vec<bool> = vec![false; air_bits.len() / 8]; // corrupted bytes on the air
        for h in plan.get("hits").a() {
            let h = h.a();
            need!(h.len() == 3);
            let byte = h[0].u() * 12 + h[1].u();
            if byte >= bad.len() || h[1].u() >= 12 {
                continue;
            }
            let xor = h[2].u();
            for b in 0..8 {
                if xor >> b & 1 == 1 {
                    for v in &mut x[(byte * 8 + b) * sps..(byte * 8 + b + 1) * sps] {
                        *v = -*v;
                    }
                }
            }
            if xor & 255 != 0 {
                bad[byte] = true;
                ctx.fault("byte_corruption", byte as u64);
            }
        }
        let mut touched = apply_faults(ctx, plan.get("faults").a(), &mut x, false);
        need!(plan.get("faults").a().iter().all(|f| f.get("t").s() != "gain" || f.get("a").f() > 0.0));
        gain_edges(plan.get("faults").a(), sps, &mut touched);
        for (i, t) in touched.iter().enumerate() {
            if *t {
                bad[i / sps / 8] = true;
            }
        }
        let cut = if plan.has("cut") { plan.get("cut").u().min(x.len()) } else { x.len() };
        if cut < x.len() {
            ctx.fault("signal_lost", cut as u64);
            x.truncate(cut);
        }
        crate::env::level(ctx, plan, &mut x)?;
        let xs = x.clone();
        let rx = match guard(|| take_box(sc.rx(Box::new(xs.into_iter())), n + 200)) {
            Ok(v) => v,
            Err(e) => vio!("panic", "coded receiver, {n} bits sent, cut after {cut} of {} samples: {e:?}", tx.len()),
        };
        ctx.items(x.len());
        ctx.time(x.len() as f64 / sc.rate());
        ctx.logb(&rx);
        ctx.sig(n as u64 ^ (cut as u64) << 24);
        let nb = n.div_ceil(8); // data bytes
        let mut data = bits.clone();
        data.resize(nb * 8, false);
        let frames = nb.div_ceil(7);
        if cut == tx.len() && rx.len() != nb * 8 {
            vio!("length", "{n} bits sent, {} received, expected {}", rx.len(), nb * 8);
        }
        if rx.len() > nb * 8 {
            vio!("length", "{n} bits sent, {} received", rx.len());
        }
        for f in 0..frames {
            let dl = (nb - 7 * f).min(7);
            let end_sample = (12 * f + dl + 5) * 8 * sps;
            if end_sample > cut {
                break;
            }
            let hurt = bad[12 * f..12 * f + dl + 5].iter().filter(|&&b| b).count();
            let want = &data[56 * f..56 * f + 8 * dl];
            let got = rx.get(56 * f..56 * f + 8 * dl);
            if got.is_none() {
                vio!("lost", "frame {f} was received whole, but only {} bits came out", rx.len());
            }
            if hurt <= 2 {
                if hurt == 2 {
                    ctx.probe("two_bytes_corrected");
                }
                if got.unwrap() != want {
                    vio!("frame", "frame {f} ({dl} data bytes) with {hurt} corrupted bytes did not arrive intact");
                }
            } else {
                ctx.probe("frame_beyond_repair");
            }
        }
        Ok(())
    }
}
