//! C15: combinators equal their list definitions wherever the stream is cut.
use super::{Budget, Prop};
use crate::comb::{Cb, Fs, COMBS};
use crate::core::{guard, Caught, Ctx, R};
use crate::env::{drain, End, Src};
use crate::json::V;
use crate::rng::Rng;
use std::sync::Arc;

pub struct P;

fn near(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| tol == f64::INFINITY || (x - y).abs() <= tol || x == y || (x.is_nan() && y.is_nan()))
}
const WILD: [f64; 8] = [1e16, -1e16, 1e200, -1e200, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-300];

impl Prop for P {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 300_000, thorough: 2_000_000, batch: 1500 }
    }
    fn rule(&self) -> &'static str {
        "one combinator, or a chain of up to three, or the energy meters, over a random list whose source ends, fails or is abandoned at a random item, read with a random polling pattern; non-trivial: the source ended or failed, or the reader left"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("combinators and meters", "real"), ("source, reader", "simulated"), ("oracle", "list definitions")]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        // now and then a stream longer than any 16-bit count
        let long = k % 601 == 600;
        let len = match r.below(8) {
            _ if long => r.us(1, 200),
            0 => 0,
            1 => 1,
            2 => r.us(2, 5),
            3 => r.logus(50, 3000),
            _ => r.logus(1, 120),
        };
        let ints = r.bit();
        let x: Vec<f64> = (0..len).map(|_| if ints { r.range(-20, 20) as f64 } else { (r.uf(-50.0, 50.0) * 1000.0).round() / 1000.0 }).collect();
        if k % 12 == 11 {
            let level = if r.chance(0.2) { 10f64.powf(r.uf(-100.0, 100.0)) } else { 1.0 };
            let mut v = obj! {"level" => level, "meter" => *r.pick(&["energy", "power", "avg_energy"]), "x" => if x.is_empty() { vec![0.5] } else { x }, "fs" => *r.pick(&[1.0, 44100.0, 0.5, 1e6]), "hint" => r.us(0, 3)};
            if r.chance(0.02) {
                v.set("long", r.us(60_000, 200_000));
            }
            return v;
        }
        let n = if r.chance(0.25) { r.us(2, 3) } else { 1 };
        let mut chain = vec![];
        for i in 0..n {
            let kk = if long { COMBS[(k / 601) as usize % COMBS.len()] } else if i == 0 { COMBS[(k as usize) % COMBS.len()] } else { *r.pick(COMBS) };
            chain.push(Cb::gen(r, kk, if i == 0 { 60 } else { 7 }));
        }
        if k % 61 == 60 && !long {
            // sizes far beyond the usual ones
            let c = &mut chain[0];
            let kk = c.get("k").s().to_string();
            if kk == "conv" || kk == "nonv" {
                let l = r.logus(60, 1200);
                c.set("filt", if r.bit() { vec![1.0 / l as f64; l] } else { (0..l).map(|_| (r.uf(-4.0, 4.0) * 8.0).round() / 8.0).collect::<Vec<f64>>() });
            } else if kk != "scale" && kk != "inflate" {
                c.set("n", r.logus(60, 5000));
            } else if kk == "inflate" {
                c.set("n", r.logus(60, 2000) / len.max(1) + 7);
            }
        }
        let mut len = if long { r.us(60_000, if n > 1 { 72_000 } else { 200_000 }) } else { len };
        if long {
            chain.truncate(1);
            let kk = chain[0].get("k").s().to_string();
            if kk == "inflate" {
                // many copies of few items, or few of many
                if r.bit() {
                    chain[0].set("n", r.us(1, 2));
                } else {
                    chain[0].set("n", *r.pick(&[255usize, 256, 257, 32_768, 65_535, 65_536, 65_537, 70_000]));
                    len = r.us(1, 3);
                }
            } else if matches!(kk.as_str(), "conv" | "nonv") {
                len = r.us(1, 70_000);
            } else if kk != "conv" && kk != "nonv" && kk != "scale" && r.chance(0.4) {
                chain[0].set("n", *r.pick(&[255usize, 256, 257, 65_535, 65_536, 65_537, 66_000]));
            }
        }
        let zero = chain.iter().any(|c: &V| c.get("k").s() == "inflate" && c.get("n").i() == 0);
        let end = if zero { "eof" } else { *r.pick(&["eof", "eof", "panic", "drop"]) };
        let at = if r.chance(0.4) { r.us(0, len) } else { len };
        let mut v = obj! {"cbs" => chain, "x" => x, "at" => at, "end" => end, "drop" => r.us(0, len + 3), "again" => r.us(0, 3), "nth" => 0};
        if r.bit() {
            v.set("hint", r.us(1, 3));
        }
        if r.chance(0.1) {
            // take some, then ask only how many are left, or for the last
            v.set("tail", V::from(vec![r.us(0, 1), if r.bit() { 0 } else { r.logus(1, 40) }]));
        } else if r.chance(0.3) {
            // read in a mixed rhythm: n > 0 reads n, n < 0 skips -n items at once and reads the next
            let m = r.us(1, 5);
            v.set("nth", (0..m).map(|_| if r.bit() { r.range(1, 4) } else { -(r.logus(1, if long { 3000 } else { 40 }) as i64) }).collect::<Vec<i64>>());
        }
        if long {
            v.set("long", len);
        } else if n == 1 {
            // one combinator: outputs are judged by their own items alone, next to which others may be enormous
            if r.chance(0.2) {
                v.set("level", 10f64.powf(r.uf(-100.0, 100.0)));
            }
            if r.chance(0.2) && len > 0 {
                let wmax = if r.bit() { 3 } else { 7 };
                v.set("wild", (0..r.us(1, 4)).map(|_| V::from(vec![r.us(0, len - 1), r.us(0, wmax)])).collect::<Vec<V>>());
            }
        }
        v
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let mut x: Vec<f64> = plan.get("x").a().iter().map(|v| v.f()).collect();
        if plan.has("long") {
            need!(!x.is_empty() && plan.get("long").u() <= 1 << 18);
            x = x.into_iter().cycle().take(plan.get("long").u()).collect();
            ctx.probe("long_stream");
        }
        need!(x.len() <= 1 << 18);
        if plan.has("level") {
            let l = plan.get("level").f();
            need!(l > 1e-110 && l < 1e110);
            x.iter_mut().for_each(|v| *v *= l);
        }
        for w in plan.get("wild").a() {
            need!(w.a().len() == 2);
            if let (Some(v), Some(&t)) = (x.get_mut(w.a()[0].u()), WILD.get(w.a()[1].u())) {
                *v = t;
                ctx.probe(if t.is_finite() { "huge_item" } else { "nonfinite_item" });
            }
        }
        if plan.has("meter") {
            need!(x.iter().all(|v| v.abs() < 1e140));
            return meter(plan, &x, ctx);
        }
        let mut cbs = vec![];
        for c in plan.get("cbs").a() {
            cbs.push(Cb::parse(c)?);
        }
        need!(!cbs.is_empty() && cbs.len() <= 4);
        need!(cbs.len() == 1 || !(plan.has("wild") || plan.has("level")));
        let at = plan.get("at").u().min(x.len());
        let used = &x[..at];
        let end = if plan.get("end").s() == "panic" { End::Panic } else { End::Eof };
        // repeating zero times never polls its source, so a failure behind it is not seen
        need!(end == End::Eof || cbs.iter().all(|c| c.k != "inflate" || c.n > 0));
        // model, stage by stage; the stages' outputs are flattened in between
        let ended = end == End::Eof;
        let model_of = |ended: bool, extra: bool| -> (Vec<Vec<f64>>, f64) {
            let mut cur: Vec<Vec<f64>> = used.iter().map(|&v| vec![v]).collect();
            let mut scale: f64 = 0.0;
            for c in &cbs {
                let flat: Vec<f64> = cur.concat();
                if flat.len() > 1 << 18 {
                    return (vec![], f64::NAN);
                }
                cur = c.model(&flat, ended);
                if extra && c.pad_block() && ended && flat.len() % c.n == 0 {
                    cur.push(vec![0.0; c.n]);
                }
                let s: f64 = flat.iter().map(|v| v.abs()).sum::<f64>() * (1.0 + c.filt.iter().map(|v| v.abs()).sum::<f64>());
                scale = scale.max(s);
            }
            (cur, scale)
        };
        let (model, scale) = model_of(ended, false);
        need!(!scale.is_nan());
        // wchunks may add one block of padding when the source ends on a block boundary; accepted only
        // as the all-zero block (or what the later stages make of it).
        let (alt, scale2) = model_of(ended, true);
        need!(!scale2.is_nan());
        let scale = scale.max(scale2);
        let (src, probe) = Src::new(Arc::new(x.clone()), at, end);
        let src = src.hinted(plan.get("hint").u64());
        let fold = crate::env::reader();
        let pat: Vec<i64> = plan.get("nth").a().iter().map(|v| v.i()).filter(|&p| p != 0 && p.abs() < 1 << 20).collect();
        let pat = if fold.is_some() { vec![] } else { pat };
        let nth = pat.iter().map(|&p| if p < 0 { -p as usize } else { 0 }).max().unwrap_or(0);
        let mut turn = 0usize;
        let mut plain = 0i64;
        let tail: Vec<usize> = plan.get("tail").a().iter().map(|v| v.u()).collect();
        need!(tail.is_empty() || (tail.len() == 2 && tail[0] <= 1));
        let mut left: Option<usize> = None;
        let mut last: Option<Option<Vec<f64>>> = None;
        let drop_at = if plan.get("end").s() == "drop" { plan.get("drop").u() } else { usize::MAX };
        let cap = drop_at.min(model.len().max(alt.len()) + 4);
        let mut got: Vec<(usize, Vec<f64>)> = vec![];
        let mut i = 0usize;
        let mut over = false;
        let names: Vec<&str> = cbs.iter().map(|c| c.k.as_str()).collect();
        let res = guard(|| {
            let mut s: Fs = Box::new(src);
            for c in &cbs[..cbs.len() - 1] {
                s = Box::new(c.build(s).flatten());
            }
            let mut it = cbs[cbs.len() - 1].build(s);
            if let [how, one] = tail[..] {
                for _ in 0..one {
                    match it.next() {
                        Some(v) => {
                            got.push((i, v));
                            i += 1;
                        }
                        None => break,
                    }
                }
                if how == 0 {
                    left = Some(it.count_of());
                } else {
                    last = Some(it.last_of());
                }
                return 0;
            }
            if let Some(one) = fold {
                over = drain(it, one, cap, &mut |v| {
                    got.push((i, v));
                    i += 1;
                });
                return 0;
            }
            while i < cap {
                let mut skip = 0;
                if plain > 0 {
                    plain -= 1;
                } else if !pat.is_empty() {
                    let p = pat[turn % pat.len()];
                    turn += 1;
                    if p > 0 {
                        plain = p - 1;
                    } else if i + (-p as usize) < cap {
                        skip = -p as usize;
                    }
                }
                let v = if skip > 0 { it.nth(skip) } else { it.next() };
                match v {
                    Some(v) => {
                        got.push((i + skip, v));
                        i += skip + 1;
                    }
                    None => {
                        over = true;
                        break;
                    }
                }
            }
            // a finished stream stays finished
            let mut revived = 0;
            if over && probe.ended.get() {
                for _ in 0..plan.get("again").u() {
                    if it.next().is_some() {
                        revived += 1;
                    }
                }
            }
            revived
        });
        let mut failed = false;
        match res {
            Ok(rev) => {
                if rev > 0 {
                    vio!("revived", "{names:?}: {rev} items after the end");
                }
            }
            Err(Caught::Injected) => {
                failed = true;
                ctx.fault("source_panic", at as u64);
            }
            Err(Caught::Panic(p)) => vio!("panic", "{names:?}: {p}"),
        }
        if !failed {
            ctx.fault(if drop_at < model.len() { "reader_drop" } else if at < x.len() { "early_eof" } else { "eof" }, i as u64);
        }
        ctx.items(at);
        for (j, v) in &got {
            ctx.log(*j as u64);
            ctx.logs(v.iter().map(|x| x.to_bits()));
        }
        ctx.sig(at as u64 ^ (x.len() as u64) << 20 ^ (cbs[0].n as u64) << 40 ^ crate::rng::mix(names.concat().len() as u64));
        let own = if cbs.len() == 1 { cbs[0].tolerance(used, ended) } else { vec![] };
        let judge = |m: &[Vec<f64>]| -> Option<String> {
            for (j, v) in &got {
                let tol = if cbs.len() == 1 { own.get(*j).copied().unwrap_or(0.0) } else { 1e-9 * (1.0 + scale) };
                match m.get(*j) {
                    None => return Some(format!("output {j} is {v:?}, but the definition gives only {} outputs", m.len())),
                    Some(w) if !near(v, w, tol) => return Some(format!("output {j} is {v:?}, expected {w:?}")),
                    _ => {}
                }
            }
            if let Some(l) = left {
                if i + l != m.len() {
                    return Some(format!("after {i} outputs {l} more are counted, expected {} in all", m.len()));
                }
            }
            if let Some(l) = &last {
                let tol = if cbs.len() == 1 { own.get(m.len().wrapping_sub(1)).copied().unwrap_or(0.0) } else { 1e-9 * (1.0 + scale) };
                let ok = match (l, m.last()) {
                    (Some(v), Some(w)) => i < m.len() && near(v, w, tol),
                    (None, _) => i == m.len(),
                    _ => false,
                };
                if !ok {
                    return Some(format!("after {i} outputs the last one is {l:?}, expected {:?} of {} in all", m.last(), m.len()));
                }
            }
            if over && nth == 0 && i != m.len() {
                return Some(format!("{i} outputs, expected {}", m.len()));
            }
            if over && nth > 0 && (i > m.len() || m.len() > i + nth) {
                return Some(format!("ended after output {i} (+{nth}), expected {} outputs", m.len()));
            }
            None
        };
        if let Some(e) = judge(&model) {
            if judge(&alt).is_some() {
                vio!("definition", "{names:?} of {} items ({}): {e}", at, if ended { "then the end" } else { "then a failure" });
            }
        }
        if failed {
            // nothing the items determine may have been withheld (one unit of slack per stage)
            let slack: usize = 2 * cbs.len() + cbs.iter().map(|c| c.units().1).sum::<usize>();
            if cbs.len() == 1 && nth == 0 && tail.is_empty() && i + slack < model.len() {
                vio!("withheld", "{names:?}: source failed after {at} items; {i} outputs delivered, {} determined", model.len());
            }
        }
        Ok(())
    }
}

fn meter(plan: &V, x: &[f64], ctx: &Ctx) -> R {
    let fs = plan.get("fs").f();
    need!(fs > 0.0 && fs.is_finite());
    need!(!x.is_empty());
    let sq: f64 = x.iter().map(|v| v * v).sum();
    let n = x.len() as f64;
    let kind = plan.get("meter").s();
    let (src, _) = Src::new(Arc::new(x.to_vec()), x.len(), End::Eof);
    let src = src.hinted(plan.get("hint").u64());
    let (got, want) = match kind {
        "energy" => (guard(|| komunikilo::energy(src, fs)), sq / fs),
        "power" => (guard(|| komunikilo::power(src, fs)), sq / n / fs),
        "avg_energy" => (guard(|| komunikilo::avg_energy(x)), sq / n),
        _ => invalid!("meter"),
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => vio!("panic", "{kind} of {} samples: {e:?}", x.len()),
    };
    ctx.fault("eof", x.len() as u64);
    ctx.items(x.len());
    ctx.log(got.to_bits());
    if !((got - want).abs() <= 1e-9 * want.abs() + 1e-300) {
        vio!("meter", "{kind} of {} samples is {got}, expected {want}", x.len());
    }
    Ok(())
}
