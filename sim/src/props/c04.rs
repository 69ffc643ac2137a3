//! C04: CDMA despreading tolerates chip errors and separates synchronous users.
use super::{Budget, Prop};
use crate::core::{guard, Ctx, R};
use crate::env::{take, take_box, Strm};
use crate::json::{bits_of, gen_bits, V};
use crate::rng::Rng;
use crate::sched::{self, Tc};
use crate::schemes::gen_key;
use komunikilo::cdma::*;
use komunikilo::hadamard::HadamardMatrix;
use std::sync::{Arc, Mutex};

pub struct P;

impl Prop for P {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 60_000, thorough: 400_000, batch: 200 }
    }
    fn rule(&self) -> &'static str {
        "either one baseband CDMA link with random chip flips, or several user tasks of one Walsh set, each transmitting through one shared medium under a random schedule, joining, leaving, fading and failing at random bit boundaries, with a receiver task per user; non-trivial: chips flipped, or more than one user on the air"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("CDMA modems, Walsh code sets", "real"), ("users' tasks and schedule", "simulated"), ("medium", "simulated (superposition)")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        if k % 3 == 0 {
            let kl = if r.chance(0.1) { r.logus(60, 1500) } else { r.logus(1, 70) };
            let n = if r.chance(0.02) { r.logus(60, 70_000 / kl + 60) } else { r.logus(1, 60) };
            // flips: list of [bit, seed, count]
            let nf = r.us(0, n.min(12));
            let flips: Vec<V> = (0..nf)
                .map(|_| {
                    let c = match r.below(4) { 0 => (kl - 1) / 2, 1 => r.us(0, kl), _ => r.us(0, (kl - 1) / 2) };
                    // where: anywhere, in one piece, at the start, at the end
                    V::from(vec![r.us(0, n - 1) as i64, r.below(1 << 30) as i64, c as i64, match r.below(6) { 0 => 1, 1 => 2, 2 => 3, _ => 0 }])
                })
                .collect();
            let cut = if r.chance(0.3) { r.us(0, n * kl) } else { n * kl };
            return obj! {"key" => gen_key(r, kl), "bits" => gen_bits(r, n), "flips" => flips, "cut" => cut};
        }
        if k % 3 == 1 && k % 9 == 1 {
            return obj! {"size" => 1usize << if r.chance(0.1) { r.us(9, 11) } else { r.us(1, 8) }, "from" => if r.chance(0.1) { r.u64() >> 2 } else { r.logus(1, 100_000) as u64 - 1 }};
        }
        let big = r.chance(0.1);
        let size = 1usize << r.us(1, if big { 8 } else { 4 });
        let mixed = r.bit();
        let spc = r.logus(if mixed { 3 } else { 1 }, 8).max(2);
        let half = if mixed { r.us(1, spc - 1) } else { r.us(0, spc) };
        let sr = *r.pick(&[1usize, 100, 1000, 9600]);
        let most = if r.chance(0.05) { 40 } else { 8 };
        // now and then a transmission of very many symbols
        let long = size <= 16 && r.chance(0.006);
        let users = r.us(1, (size - 1).min(if long { 2 } else { most }));
        let first = r.logus(1, 1000) - 1;
        let mut nums: Vec<usize> = (0..size - 1).map(|i| first + i).collect();
        r.shuffle(&mut nums);
        // users right next to the receiver and users at the edge of its reach
        let near_far = r.chance(0.3);
        let us: Vec<V> = (0..users)
            .map(|u| {
                let join = if r.bit() { 0 } else { r.us(0, 8) };
                let n = if long { (r.us(66_000, 160_000) / (spc * size)).clamp(20, 20_000) } else { r.logus(1, 20) };
                let fades: Vec<V> = (0..r.us(0, 3)).map(|_| V::from(vec![r.us(0, 20) as f64, r.uf(-4.0, 4.0)])).collect();
                let q = mixed && r.bit();
                let mut v = obj! {"num" => nums[u], "join" => join, "bits" => gen_bits(r, n * if q { 2 } else { 1 }), "q" => q, "amp" => if near_far { *r.pick(&[-4.0, -3.0, 3.0, 4.0]) } else if r.bit() { 0.0 } else { r.uf(-4.0, 4.0).round() }, "fades" => fades};
                if r.chance(0.2) {
                    v.set("crash", r.us(0, n)); // the user's source fails at this symbol
                }
                v
            })
            .collect();
        obj! {"size" => size, "spc" => spc, "half" => half, "sr" => sr, "users" => us, "sched" => obj! {"seed" => r.below(1 << 40), "burst" => *r.pick(&[0.0, 0.5, 3.0, 30.0])}}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        if plan.has("key") {
            return baseband(plan, ctx);
        }
        let size = plan.get("size").u();
        need!(size.is_power_of_two() && (2..=4096).contains(&size));
        if plan.has("from") {
            return keys(size, plan.get("from").u(), ctx);
        }
        multi(plan, size, ctx)
    }
}

fn keys(size: usize, from: usize, ctx: &Ctx) -> R {
    let m = match guard(|| HadamardMatrix::new(size)) {
        Ok(m) => m,
        Err(e) => vio!("panic", "HadamardMatrix::new({size}): {e:?}"),
    };
    let mut ks: Vec<Vec<bool>> = vec![];
    for i in 0..size - 1 {
        let n = from + i;
        match guard(|| m.key(n).clone()) {
            Ok(k) => ks.push(k),
            Err(e) => vio!("panic", "key({n}) of a code set of size {size}: {e:?}"),
        }
    }
    ctx.fault("user_number", from as u64);
    ctx.sig(size as u64);
    ctx.items(size * size);
    let packed: Vec<Vec<u64>> = ks.iter().map(|k| k.chunks(64).map(|c| c.iter().fold(0u64, |a, &b| a << 1 | b as u64)).collect()).collect();
    for (i, a) in ks.iter().enumerate() {
        if size <= 256 {
            ctx.logb(a);
        } else {
            ctx.logs(packed[i].iter().copied());
        }
        if a.len() != size {
            vio!("key", "key({}) of size {size} has {} chips", from + i, a.len());
        }
    }
    for (i, a) in packed.iter().enumerate() {
        for (j, b) in packed.iter().enumerate().skip(i + 1) {
            let agree = size - a.iter().zip(b).map(|(x, y)| (x ^ y).count_ones() as usize).sum::<usize>();
            if agree * 2 != size {
                vio!("key", "keys {} and {} of size {size} agree in {agree} chips: not orthogonal", from + i, from + j);
            }
        }
    }
    Ok(())
}

fn baseband(plan: &V, ctx: &Ctx) -> R {
    let key: &'static [bool] = Box::leak(bits_of(plan.get("key")).into_boxed_slice());
    let bits = bits_of(plan.get("bits"));
    let kl = key.len();
    need!(kl >= 1 && bits.len() * kl <= 1 << 20);
    let b2 = bits.clone();
    let mut x = match guard(|| take(tx_baseband_cdma(b2.into_iter(), key), bits.len() * kl + 2)) {
        Ok(v) => v,
        Err(e) => vio!("panic", "baseband CDMA transmitter: {e:?}"),
    };
    if x.len() != bits.len() * kl {
        vio!("length", "{} bits gave {} chips of {kl}", bits.len(), x.len());
    }
    let mut flipped = vec![vec![false; kl]; bits.len()];
    for f in plan.get("flips").a() {
        let f = f.a();
        need!(f.len() == 3 || f.len() == 4);
        let (b, c) = (f[0].u(), f[2].u().min(kl));
        need!(b < bits.len());
        let mut r = Rng::new(f[1].u64());
        let mut pos: Vec<usize> = (0..kl).collect();
        match f.get(3).map_or(0, |v| v.u()) {
            0 => r.shuffle(&mut pos),
            1 => pos.rotate_left(r.us(0, kl - c)),
            2 => {}
            _ => pos.reverse(),
        }
        for &p in &pos[..c] {
            flipped[b][p] = true;
        }
        if c > 0 {
            ctx.fault("chip_flips", b as u64);
        }
    }
    for (b, f) in flipped.iter().enumerate() {
        for (p, &y) in f.iter().enumerate() {
            x[b * kl + p] ^= y;
        }
    }
    let cut = plan.get("cut").u().min(x.len());
    if cut < x.len() {
        ctx.fault("signal_lost", cut as u64);
        x.truncate(cut);
    }
    let xs = x.clone();
    let rx = match guard(|| take(rx_baseband_cdma(xs.into_iter(), key), bits.len() + 4)) {
        Ok(v) => v,
        Err(e) => vio!("panic", "baseband CDMA receiver: {e:?}"),
    };
    ctx.items(x.len());
    ctx.logb(&rx[..rx.len().min(cut / kl)]);
    ctx.sig(kl as u64 ^ (cut as u64) << 20);
    let whole = cut / kl;
    if rx.len() < whole || rx.len() > whole + (cut % kl != 0) as usize {
        vio!("length", "{cut} chips of {kl} per bit gave {} bits", rx.len());
    }
    for b in 0..whole {
        let n = flipped[b].iter().filter(|&&y| y).count();
        if 2 * n < kl && rx[b] != bits[b] {
            vio!("chip-errors", "bit {b} with {n} of {kl} chips flipped received as {}, sent {}", rx[b], bits[b]);
        }
        if 2 * n > kl && rx[b] == bits[b] {
            vio!("majority", "bit {b} with {n} of {kl} chips flipped still received as sent");
        }
    }
    Ok(())
}

struct User {
    key: &'static [bool],
    join: usize,
    bits: Vec<bool>,
    q: bool,
    amp: f64,
    fades: Vec<(usize, f64)>,
    /// symbols actually transmitted
    n: usize,
    crash: bool,
}

struct Medium {
    slots: Vec<(Vec<f64>, usize)>,
}

fn multi(plan: &V, size: usize, ctx: &Ctx) -> R {
    let (spc, half, sr) = (plan.get("spc").u(), plan.get("half").u(), plan.get("sr").u());
    need!(spc >= 2 && spc <= 64 && sr >= 1 && half <= spc);
    let sps = spc * size;
    let fs = sps * sr;
    let fc = half as f64 * fs as f64 / (2 * spc) as f64;
    let m = match guard(|| HadamardMatrix::new(size)) {
        Ok(m) => m,
        Err(e) => vio!("panic", "HadamardMatrix::new({size}): {e:?}"),
    };
    let mut users: Vec<User> = vec![];
    let mut nums = vec![];
    for u in plan.get("users").a() {
        let num = u.get("num").u();
        nums.push(num);
        let key = match guard(|| m.key(num).clone()) {
            Ok(k) => k,
            Err(e) => vio!("panic", "key({num}) of a code set of size {size}: {e:?}"),
        };
        if key.len() != size {
            vio!("key", "key({num}) of size {size} has {} chips", key.len());
        }
        let q = u.get("q").b();
        if q {
            need!(spc >= 3 && half >= 1 && half < spc);
        }
        let bits = bits_of(u.get("bits"));
        let per = if q { 2 } else { 1 };
        need!(bits.len() <= 40_000 && bits.len() % per == 0);
        let n = bits.len() / per;
        let (n, crash) = if u.has("crash") { (n.min(u.get("crash").u()), u.get("crash").u() < n) } else { (n, false) };
        let fades = u.get("fades").a().iter().map(|f| (f.a().first().map_or(0, |v| v.u()), f.a().get(1).map_or(0.0, |v| v.f()))).collect();
        let amp = u.get("amp").f();
        need!((-4.0..=4.0).contains(&amp));
        users.push(User { key: Box::leak(key.into_boxed_slice()), join: u.get("join").u(), bits, q, amp, fades, n, crash });
    }
    need!(!users.is_empty() && users.len() < size.max(2) && users.len() <= 64);
    // distinct user numbers within one run of n-1 consecutive ones
    let (lo, hi) = (*nums.iter().min().unwrap(), *nums.iter().max().unwrap());
    need!(hi - lo < size - 1);
    {
        let mut s = nums.clone();
        s.sort();
        s.dedup();
        need!(s.len() == nums.len());
    }
    let total = users.iter().map(|u| u.join + u.n).max().unwrap();
    need!(total <= 20_100 && total * sps <= 400_000);
    if total * sps > 65_000 {
        ctx.probe("long_transmission");
    }
    let med = Arc::new(Mutex::new(Medium {
        slots: (0..total).map(|s| (vec![0.0; sps], users.iter().filter(|u| u.join <= s && s < u.join + u.n).count())).collect(),
    }));
    if users.len() > 1 {
        ctx.fault("users_on_air", users.len() as u64 ^ (total as u64) << 10);
    }
    let users = Arc::new(users);
    let results: Arc<Mutex<Vec<Option<Vec<bool>>>>> = Arc::new(Mutex::new(vec![None; users.len()]));
    let mut tasks: Vec<sched::Task> = vec![];
    for ui in 0..users.len() {
        let (users, med, ctx2) = (users.clone(), med.clone(), ctx.clone());
        tasks.push(Box::new(move |tc: Tc| {
            let u = &users[ui];
            let per = if u.q { 2 } else { 1 };
            let src = u.bits.clone().into_iter().take(u.n * per);
            let (src, _) = crate::env::Src::new(Arc::new(src.collect::<Vec<bool>>()), u.n * per, if u.crash { crate::env::End::Panic } else { crate::env::End::Eof });
            let mut it: Box<dyn Iterator<Item = f64>> =
                if u.q { Box::new(tx_cdma_qpsk_signal(src, fs, sr, fc, u.key)) } else { Box::new(tx_cdma_bpsk_signal(src, fs, sr, fc, u.key)) };
            for s in 0..u.n {
                let e = u.amp + u.fades.iter().filter(|f| f.0 == s).map(|f| f.1).sum::<f64>();
                let g = 10f64.powf(e.clamp(-4.0, 4.0));
                let mut buf = Vec::with_capacity(sps);
                while buf.len() < sps {
                    match it.next() {
                        Some(v) => buf.push(v * g),
                        None => std::panic::panic_any(format!("transmitter of user {ui} ended after {} of {} symbols", s, u.n)),
                    }
                }
                {
                    let mut m = med.lock().unwrap_or_else(|e| e.into_inner());
                    let slot = &mut m.slots[u.join + s];
                    slot.0.iter_mut().zip(&buf).for_each(|(a, b)| *a += b);
                    slot.1 -= 1;
                }
                tc.wake();
                if !tc.step() {
                    return;
                }
            }
            if u.crash {
                ctx2.fault("user_crash", (ui as u64) << 20 | u.n as u64);
                // the source fails: whatever unwinds must not reach anyone else
                let _ = guard(|| {
                    let mut n = 0;
                    while n < 4 * sps && it.next().is_some() {
                        n += 1;
                    }
                });
            } else {
                ctx2.fault("user_leaves", (ui as u64) << 20 | u.n as u64);
            }
        }));
    }
    for ui in 0..users.len() {
        let (users, med, results) = (users.clone(), med.clone(), results.clone());
        tasks.push(Box::new(move |tc: Tc| {
            let u = &users[ui];
            let (from, to) = (u.join, u.join + u.n);
            let tc2 = tc.clone();
            let mut slot = from;
            let mut buf: std::vec::IntoIter<f64> = vec![].into_iter();
            let src = std::iter::from_fn(move || loop {
                if let Some(v) = buf.next() {
                    return Some(v);
                }
                if slot == to {
                    return None;
                }
                loop {
                    let ready = {
                        let m = med.lock().unwrap_or_else(|e| e.into_inner());
                        if m.slots[slot].1 == 0 { Some(m.slots[slot].0.clone()) } else { None }
                    };
                    match ready {
                        Some(v) => {
                            buf = v.into_iter();
                            break;
                        }
                        None => {
                            if !tc2.block() {
                                return None;
                            }
                        }
                    }
                }
                slot += 1;
                if !tc2.step() {
                    return None;
                }
            });
            let it: Box<dyn Strm<Item = bool>> =
                if u.q { Box::new(rx_cdma_qpsk_signal(src, fs, sr, fc, u.key)) } else { Box::new(rx_cdma_bpsk_signal(src, fs, sr, fc, u.key)) };
            let v = take_box(it, u.bits.len() + 8);
            results.lock().unwrap_or_else(|e| e.into_inner())[ui] = Some(v);
        }));
    }
    let n = users.len();
    let out = sched::run(ctx, plan.get("sched"), 2_000_000, tasks);
    ctx.items(total * sps * n);
    ctx.time(total as f64 / sr as f64);
    for (i, p) in out.panics.iter().enumerate() {
        if let Some(p) = p {
            vio!("panic", "{} of user {}: {p}", if i < n { "transmitter" } else { "receiver" }, i % n);
        }
    }
    if let Some(d) = out.dead {
        vio!("stuck", "the users never finished: {d}");
    }
    let res = results.lock().unwrap_or_else(|e| e.into_inner());
    for (i, u) in users.iter().enumerate() {
        let got = match &res[i] {
            Some(g) => g,
            None => vio!("stuck", "receiver {i} gave no result"),
        };
        ctx.logb(got);
        let want = &u.bits[..u.n * if u.q { 2 } else { 1 }];
        if got.len() != want.len() {
            vio!("length", "user {i}: {} bits received, {} sent", got.len(), want.len());
        }
        if let Some(b) = (0..want.len()).find(|&b| got[b] != want[b]) {
            vio!("separation", "user {i} (number {}): bit {b} received as {}, with {} users sharing the medium", nums[i], got[b], n);
        }
    }
    Ok(())
}
