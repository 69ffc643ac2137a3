//! C02: bounded look-ahead and bounded memory of every stream while its input stalls.
use super::{Budget, Prop};
use crate::comb::{Cb, COMBS};
use crate::core::{guard, live_bytes, Caught, Ctx, Injected, R};
use crate::json::V;
use crate::rng::{mix, Rng};
use crate::schemes::{gen, Carrier, Sc, C, RX_KINDS, TX_KINDS};
use std::cell::Cell;
use std::rc::Rc;

pub struct P;

/// Deterministic endless input that counts pulls and stalls for ever (unwinds) after `limit` items.
struct Feed {
    i: usize,
    limit: usize,
    eof: bool,
    seed: u64,
    hint: u64,
    pulled: Rc<Cell<usize>>,
}
impl Feed {
    /// The source had more to come when it stalled.
    fn left(&self) -> (usize, Option<usize>) {
        crate::env::hint(self.hint, self.limit - self.i + 50)
    }
    fn raw(&mut self) -> Option<u64> {
        if self.i >= self.limit {
            if self.eof {
                return None;
            }
            std::panic::panic_any(Injected);
        }
        let v = mix(self.seed ^ self.i as u64);
        self.i += 1;
        self.pulled.set(self.i);
        Some(v)
    }
}
fn unit(v: u64) -> f64 {
    (v >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}
struct Bf(Feed);
impl Iterator for Bf {
    type Item = bool;
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.left()
    }
    fn next(&mut self) -> Option<bool> {
        self.0.raw().map(|v| v & 1 == 1)
    }
}
struct Ff(Feed);
impl Iterator for Ff {
    type Item = f64;
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.left()
    }
    fn next(&mut self) -> Option<f64> {
        self.0.raw().map(unit)
    }
}
struct Cf(Feed);
impl Iterator for Cf {
    type Item = C;
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.left()
    }
    fn next(&mut self) -> Option<C> {
        self.0.raw().map(|v| C::new(unit(v), unit(mix(v))))
    }
}

struct Thing {
    it: Box<dyn Iterator<Item = ()>>,
    ui: usize,
    uo: usize,
}

fn build(plan: &V, f: Feed) -> R<Thing> {
    Ok(match plan.get("what").s() {
        "tx" => {
            let sc = Sc::parse(plan.get("sc"))?;
            let (ui, uo) = (sc.unit_in(), sc.unit_out());
            Thing { it: Box::new(sc.tx(Box::new(Bf(f))).map(|_| ())), ui, uo }
        }
        "rx" => {
            let sc = Sc::parse(plan.get("sc"))?;
            need!(sc.has_rx());
            let (ui, uo) = (sc.unit_in(), sc.unit_out());
            Thing { it: Box::new(sc.rx(Box::new(Cf(f))).map(|_| ())), ui: uo, uo: ui }
        }
        "link" => {
            // transmitter, noisy channel and receiver in one chain
            let sc = Sc::parse(plan.get("sc"))?;
            need!(sc.has_rx());
            let ui = sc.unit_in();
            let sig = sc.tx(Box::new(Bf(f)));
            let real = sc.real();
            let noisy: crate::schemes::Sig = if real {
                Box::new(komunikilo::awgn(sig.map(|c| c.re), 0.5).map(|x| C::new(x, 0.0)))
            } else {
                Box::new(komunikilo::awgn_complex(sig, 0.5))
            };
            Thing { it: Box::new(sc.rx(noisy).map(|_| ())), ui, uo: ui }
        }
        "comb" => {
            let cb = Cb::parse(plan.get("cb"))?;
            need!(!(cb.k == "inflate" && cb.n == 0));
            let (ui, uo) = cb.units();
            Thing { it: Box::new(cb.build(Box::new(Ff(f))).map(|_| ())), ui, uo }
        }
        "awgn" => Thing { it: Box::new(komunikilo::awgn(Ff(f), plan.get("sigma").f()).map(|_| ())), ui: 1, uo: 1 },
        "awgnc" => Thing { it: Box::new(komunikilo::awgn_complex(Cf(f), plan.get("sigma").f()).map(|_| ())), ui: 1, uo: 1 },
        "bpf" => {
            let n = plan.get("n").u();
            need!(n >= 1 && n <= 1 << 14);
            Thing { it: Box::new(komunikilo::bpf::bandpass(10.0, 100.0, Ff(f), 1000, n).map(|_| ())), ui: n, uo: n }
        }
        _ => invalid!("what"),
    })
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 40_000, thorough: 400_000, batch: 300 }
    }
    fn rule(&self) -> &'static str {
        "one stream (transmitter, receiver, link, combinator, noise adapter or filter) whose endless source stalls for good after a random number of items, the reader taking everything it can; a sixth of the runs are long streams with live-heap accounting; non-trivial: the source stalled"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("streams", "real"), ("source (stalling)", "simulated"), ("allocator", "real, counting"), ("entropy", "simulated")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let mem = r.chance(0.16);
        let what = ["tx", "rx", "tx", "rx", "comb", "link", "comb", "awgn", "awgnc", "bpf"][(k % 10) as usize];
        let mut plan = obj! {"what" => what, "seed" => r.below(1 << 40), "mem" => mem, "hint" => if r.bit() { 0 } else { r.us(1, 4) }};
        let (ui, uo);
        match what {
            "tx" | "rx" | "link" => {
                let kinds = if what == "tx" { TX_KINDS } else { RX_KINDS };
                let kind = kinds[((k / 10) as usize) % kinds.len()];
                loop {
                    let v = gen(r, kind, Carrier::Any);
                    let sc = Sc::parse(&v).expect("generator");
                    let (a, b) = (sc.unit_in(), sc.unit_out());
                    if mem && b > 320.max(96 * 4) {
                        continue;
                    }
                    if a == 0 || b == 0 {
                        continue;
                    }
                    (ui, uo) = if what == "rx" { (b, a) } else { (a, b) };
                    plan.set("sc", v);
                    break;
                }
            }
            "comb" => {
                let kk = COMBS[((k / 10) as usize) % COMBS.len()];
                loop {
                    let v = Cb::gen(r, kk, 40);
                    let cb = Cb::parse(&v).expect("generator");
                    if cb.k == "inflate" && cb.n == 0 {
                        continue;
                    }
                    (ui, uo) = cb.units();
                    plan.set("cb", v);
                    break;
                }
            }
            "bpf" => {
                let n = if mem { r.logus(4, 256) } else { r.logus(4, 2048) };
                plan.set("n", n);
                (ui, uo) = (n, n);
            }
            _ => {
                plan.set("sigma", r.uf(0.0, 3.0));
                (ui, uo) = (1, 1);
            }
        }
        let units = if mem { r.logus(9000, (1_500_000 / ui.max(uo)).clamp(9000, 150_000)) } else { r.logus(1, 60).min(1 + 40_000 / ui.max(uo)) };
        let mut stall = units * ui;
        if !mem {
            stall += r.us(0, ui);
            if r.chance(0.1) {
                stall = r.us(0, ui);
            }
        }
        plan.set("stall", stall);
        plan
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let stall = plan.get("stall").u();
        need!(stall <= 8_000_000);
        let mem = plan.get("mem").b();
        let what = plan.get("what").s();
        let pulled = Rc::new(Cell::new(0usize));
        let feed = Feed { i: 0, limit: stall, eof: false, seed: plan.get("seed").u64(), hint: plan.get("hint").u64(), pulled: pulled.clone() };
        let name = format!("{what} {}{}", plan.get("sc").get("k").s(), plan.get("cb").get("k").s());
        let t = match guard(|| build(plan, feed)) {
            Ok(t) => t?,
            Err(e) => vio!("panic", "{name}: creating the stream: {e:?}"),
        };
        need!(t.ui >= 1 && t.uo >= 1);
        if pulled.get() != 0 {
            vio!("eager", "{name}: {} items consumed before the first read", pulled.get());
        }
        let (ui, uo) = (t.ui, t.uo);
        let mut it = t.it;
        let mut n = 0usize;
        let mut worst: Option<(usize, usize)> = None;
        let cap = (stall / ui + 4) * uo + 4;
        let total_units = stall / ui;
        let marks = [total_units / 8 * uo, (total_units - total_units / 64).saturating_sub(2) * uo];
        let mut live = [0i64; 2];
        let res = guard(|| {
            while n < cap {
                let Some(()) = it.next() else { return true };
                let bound = (n / uo + 2) * ui;
                if pulled.get() > bound && worst.is_none() {
                    worst = Some((n, pulled.get()));
                    return false;
                }
                n += 1;
                if mem {
                    for (m, l) in marks.iter().zip(live.iter_mut()) {
                        if n == *m {
                            *l = live_bytes();
                        }
                    }
                }
            }
            false
        });
        if let Some((i, p)) = worst {
            vio!("look-ahead", "{name}: output {i} came only after {p} input items; one unit is {ui} in, {uo} out");
        }
        match res {
            Err(Caught::Injected) => ctx.fault("source_stall", stall as u64),
            Err(Caught::Panic(p)) => vio!("panic", "{name}: {p}"),
            Ok(true) => vio!("ended", "{name}: ended after {n} outputs although the source had only stalled"),
            Ok(false) => vio!("endless", "{name}: {n} outputs out of {stall} items"),
        }
        ctx.items(n);
        ctx.time(n as f64 / uo as f64 * 1e-3);
        ctx.log(n as u64);
        ctx.sig(mix(ui as u64) ^ uo as u64 ^ (stall as u64) << 20);
        // Everything the delivered input determines, but for the last unit, must have come out.
        let lo = (stall / ui).saturating_sub(1) * uo;
        if n < lo {
            vio!("withheld", "{name}: source stalled after {stall} items; only {n} outputs had been readable, at least {lo} expected");
        }
        let hi = if what == "comb" && plan.get("cb").get("k").s() == "take" { stall.div_ceil(ui) * uo } else { stall.div_ceil(ui) * uo };
        if n > hi {
            vio!("invented", "{name}: {n} outputs readable from {stall} items");
        }
        if mem {
            // measured when an eighth of the stream had passed, and almost at its end
            drop(it);
            ctx.probe("long_stream");
            let grow = live[1] - live[0];
            if grow > 16 * 1024 {
                vio!("memory", "{name}: {grow} more bytes held after {} units than after {}", marks[1] / uo, marks[0] / uo);
            }
        }
        Ok(())
    }
}
