//! C13: noise and random data never repeat.
use super::{Budget, Prop};
use crate::core::{enter_sim, guard, sim_clock_set, Caught, Ctx, Fail, R};
use crate::json::V;
use crate::procs::{forked, in_copy};
use crate::py;
use crate::rng::Rng;
use crate::sched;
use getrandom::FailPlan;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub struct P;

/// One stream's values: quantised unit-strength noise, or packed bits (kind 1).
#[derive(Clone)]
struct Stream {
    name: String,
    bits: bool,
    v: Vec<i64>,
}
type Coll = Vec<Stream>;

fn enc(c: &Coll) -> Vec<u8> {
    let mut o = vec![];
    for s in c {
        o.extend((s.name.len() as u64).to_le_bytes());
        o.extend(s.name.as_bytes());
        o.push(s.bits as u8);
        o.extend((s.v.len() as u64).to_le_bytes());
        for x in &s.v {
            o.extend(x.to_le_bytes());
        }
    }
    o
}
fn dec(b: &[u8]) -> Coll {
    let mut i = 0;
    let u = |i: &mut usize| {
        let v = u64::from_le_bytes(b[*i..*i + 8].try_into().unwrap());
        *i += 8;
        v
    };
    let mut out = vec![];
    while i < b.len() {
        let n = u(&mut i) as usize;
        let name = String::from_utf8_lossy(&b[i..i + n]).to_string();
        i += n;
        let bits = b[i] == 1;
        i += 1;
        let n = u(&mut i) as usize;
        let v = (0..n).map(|_| u(&mut i) as i64).collect();
        out.push(Stream { name, bits, v });
    }
    out
}

fn quant(x: f64, sigma: f64) -> i64 {
    let z = x / sigma;
    if z.is_finite() { (z * 1e9).round() as i64 } else { i64::MIN }
}

const KINDS: &[&str] = &["awgn", "complex", "py_awgn", "py_pure", "data"];

/// Draws one stream. An entropy failure is allowed to surface as a failure, never as bad noise.
fn draw(ctx: &Ctx, who: &str, a: &V, step: &mut dyn FnMut()) -> R<Vec<Stream>> {
    let kind = a.get("k").s().to_string();
    let n = a.get("n").u();
    let sigma = a.get("s").f();
    need!(KINDS.contains(&kind.as_str()) && n <= 1 << 20 && sigma > 1e-6 && sigma < 1e6);
    let every = a.get("every").u().max(1);
    let before = ctx.entropy.lock().unwrap_or_else(|e| e.into_inner()).failures;
    let name = format!("{who}: {kind}");
    let r = guard(|| match kind.as_str() {
        "awgn" => {
            let mut it = komunikilo::awgn(std::iter::repeat(0.5).take(n), sigma);
            let mut v = vec![];
            for i in 0.. {
                match it.next() {
                    Some(x) => v.push(quant(x - 0.5, sigma)),
                    None => break,
                }
                if i % every == 0 {
                    step();
                }
            }
            vec![Stream { name: name.clone(), bits: false, v }]
        }
        "complex" => {
            let mut it = komunikilo::awgn_complex(std::iter::repeat(num_complex::Complex::new(0.0, 1.0)).take(n), sigma);
            let (mut re, mut im) = (vec![], vec![]);
            for i in 0.. {
                match it.next() {
                    Some(x) => {
                        re.push(quant(x.re, sigma));
                        im.push(quant(x.im - 1.0, sigma));
                    }
                    None => break,
                }
                if i % every == 0 {
                    step();
                }
            }
            vec![Stream { name: format!("{name} (real)"), bits: false, v: re }, Stream { name: format!("{name} (imaginary)"), bits: false, v: im }]
        }
        "py_awgn" => {
            let v = py::call_floats("awgn", (vec![0.0f64; n], sigma));
            vec![Stream { name: name.clone(), bits: false, v: v.into_iter().map(|x| quant(x, sigma)).collect() }]
        }
        "py_pure" => {
            let v = py::call_floats("pure_awgn", (n, sigma));
            vec![Stream { name: name.clone(), bits: false, v: v.into_iter().map(|x| quant(x, sigma)).collect() }]
        }
        _ => {
            let v = py::call_bits("random_data", (n,));
            vec![Stream { name: name.clone(), bits: true, v: v.into_iter().map(|b| b as i64).collect() }]
        }
    });
    let e = ctx.entropy.lock().unwrap_or_else(|e| e.into_inner());
    let after = e.failures;
    drop(e);
    match r {
        Ok(v) => {
            if v.iter().any(|s| s.v.len() != n) {
                vio!("missing", "{name}: {n} values requested, {} delivered", v[0].v.len());
            }
            if after > before {
                ctx.probe("entropy_failed_unnoticed");
            }
            Ok(v)
        }
        Err(Caught::Injected) => Ok(vec![]),
        Err(Caught::Panic(m)) => {
            if after > before {
                // a visible failure
                ctx.probe("entropy_failure_visible");
                return Ok(vec![]);
            }
            vio!("panic", "{name}: {m} (no entropy failure)");
        }
    }
}

/// Runs a simulated process: its draws, threads and forks in order.
fn process(ctx: &Ctx, path: u64, name: &str, plan: &V, depth: usize) -> R<Coll> {
    let mut all: Coll = vec![];
    let mut kids = 0u64;
    for (i, a) in plan.get("acts").a().iter().enumerate() {
        match a.get("do").s() {
            "draw" => {
                all.extend(draw(ctx, &format!("{name} step {i}"), a, &mut || ())?);
                ctx.items(a.get("n").u());
            }
            "threads" => {
                let ts = a.get("t").a();
                need!(ts.len() <= 8);
                let out: Arc<Mutex<Vec<(usize, R<Coll>)>>> = Arc::new(Mutex::new(vec![]));
                let mut tasks: Vec<sched::Task> = vec![];
                for (t, acts) in ts.iter().enumerate() {
                    let (acts, out, c, nm) = (acts.a().to_vec(), out.clone(), ctx.clone(), format!("{name} step {i} thread {t}"));
                    tasks.push(Box::new(move |tc| {
                        for (j, a) in acts.iter().enumerate() {
                            let t2 = tc.clone();
                            let r = draw(&c, &format!("{nm} draw {j}"), a, &mut || {
                                t2.step();
                            });
                            out.lock().unwrap_or_else(|e| e.into_inner()).push((t, r));
                            tc.step();
                        }
                    }));
                }
                let n = tasks.len();
                let o = sched::run(ctx, a.get("sched"), 4_000_000, tasks);
                for p in o.panics.iter().flatten() {
                    vio!("panic", "{name}: thread: {p}");
                }
                if let Some(d) = o.dead {
                    vio!("stuck", "{name}: {d}");
                }
                ctx.fault("threads", n as u64);
                let mut v = std::mem::take(&mut *out.lock().unwrap_or_else(|e| e.into_inner()));
                v.sort_by_key(|x| x.0);
                for (_, r) in v {
                    all.extend(r?);
                }
            }
            "fork" => {
                need!(depth < 3);
                kids += 1;
                let p = path * 16 + kids;
                let nm = format!("{name}/{kids}");
                let sub = a.get("p").clone();
                ctx.fault("fork", p);
                let r = forked(ctx, p, |c| match process(c, p, &nm, &sub, depth + 1) {
                    Ok(v) => {
                        let mut o = vec![0u8];
                        o.extend(enc(&v));
                        o
                    }
                    Err(Fail::Violation { class, msg }) => {
                        let mut o = vec![1u8];
                        o.extend(format!("{class}\0{msg}").into_bytes());
                        o
                    }
                    Err(Fail::Invalid(m)) => {
                        let mut o = vec![2u8];
                        o.extend(m.into_bytes());
                        o
                    }
                });
                match r {
                    Ok(b) if b[0] == 0 => all.extend(dec(&b[1..])),
                    Ok(b) if b[0] == 1 => {
                        let s = String::from_utf8_lossy(&b[1..]).to_string();
                        let (c, m) = s.split_once('\0').unwrap_or(("panic", &s));
                        vio!(c, "{m}");
                    }
                    Ok(b) => invalid!("{}", String::from_utf8_lossy(&b[1..])),
                    Err(e) => vio!("abort", "forked worker {nm}: {e}"),
                }
            }
            "many" => {
                // very many short streams: two from the same generator state would begin alike
                let n = a.get("n").u();
                need!(n <= 300_000);
                let kind = a.get("k").s();
                // values per request
                let w = if a.has("w") { a.get("w").u() } else if kind == "data" { 128 } else { 2 };
                need!(w >= 1 && w <= 128);
                let mut seen: HashMap<[u64; 2], usize> = HashMap::with_capacity(2 * n);
                let before = ctx.entropy.lock().unwrap_or_else(|e| e.into_inner()).failures;
                // short messages must coincide, by chance
                let chance = if kind == "data" { 0.5 * (n as f64) * (n as f64 - 1.0) * 0.5f64.powi(w as i32) } else { 0.0 };
                let most = if chance > 1e-9 { chance + 7.0 * chance.sqrt() + 12.0 } else { 0.0 };
                let mut pairs = 0.0;
                let mut times: HashMap<[u64; 2], u32> = HashMap::new();
                for j in 0..n {
                    let ends = |v: &[f64]| [v[0].to_bits(), v[v.len() - 1].to_bits()];
                    let got = guard(|| -> Vec<[u64; 2]> {
                        match kind {
                            "awgn" => vec![ends(&komunikilo::awgn(std::iter::repeat(0.0).take(w), 1.0).collect::<Vec<f64>>())],
                            "complex" => {
                                let v: Vec<num_complex::Complex<f64>> = komunikilo::awgn_complex(std::iter::repeat(num_complex::Complex::new(0.0, 0.0)).take(w), 1.0).collect();
                                vec![[v[0].re.to_bits(), 1], [v[0].im.to_bits(), 1]]
                            }
                            "py_pure" => vec![ends(&py::call_floats("pure_awgn", (w, 1.0)))],
                            "py_awgn" => vec![ends(&py::call_floats("awgn", (vec![0.0; w], 1.0)))],
                            _ => {
                                let v = py::call_bits("random_data", (w,));
                                let p = |c: &[bool]| c.iter().fold(0u64, |a, &b| a << 1 | b as u64);
                                let h = v.len().min(64);
                                vec![[p(&v[..h]), p(&v[h..])]]
                            }
                        }
                    });
                    match got {
                        Ok(ws) => {
                            for w in ws {
                                if most > 0.0 {
                                    let t = times.entry(w).or_insert(0);
                                    pairs += *t as f64;
                                    *t += 1;
                                } else if let Some(o) = seen.insert(w, j) {
                                    vio!("repeat", "{name}: {kind} stream {j} of {n} begins like stream {o}");
                                }
                            }
                        }
                        Err(Caught::Panic(m)) => {
                            let e = ctx.entropy.lock().unwrap_or_else(|e| e.into_inner());
                            if e.failures == before {
                                drop(e);
                                vio!("panic", "{name}: {kind} stream {j}: {m}");
                            }
                        }
                        Err(_) => {}
                    }
                }
                if pairs > most {
                    vio!("repeat", "{name}: of {n} random messages of {w} bits {pairs} pairs are equal, {chance:.1} are expected");
                }
                ctx.probe("many_streams");
                ctx.items(n);
            }
            "fail" => {
                // the next requests to the entropy source fail
                let mut e = ctx.entropy.lock().unwrap_or_else(|e| e.into_inner());
                let at = e.requests() + a.get("skip").u64();
                e.fail = FailPlan::Ranges(vec![(at, at + a.get("n").u64())]);
                drop(e);
                ctx.fault("entropy_failure", i as u64);
            }
            "heal" => {
                ctx.entropy.lock().unwrap_or_else(|e| e.into_inner()).fail = FailPlan::Never;
            }
            _ => invalid!("action"),
        }
    }
    Ok(all)
}

fn has(plan: &V, what: &str) -> bool {
    plan.get("acts").a().iter().any(|a| a.get("do").s() == what || (a.has("p") && has(a.get("p"), what)))
}

fn gen_draw(r: &mut Rng, long: bool) -> V {
    let k = *r.pick(KINDS);
    let n = match r.below(5) {
        0 => r.logus(1, 40),
        1 if long => r.us(5000, 30_000),
        _ => r.logus(20, 600),
    };
    // messages are judged 72 bits at a time
    let n = if k == "data" { (n * 4).min(20_000) } else { n };
    obj! {"do" => "draw", "k" => k, "n" => n, "s" => *r.pick(&[1.0, 1.0, 0.5, 3.0]), "every" => *r.pick(&[1usize, 5, 50])}
}
fn gen_threads(r: &mut Rng) -> V {
    let n = r.us(1, 4);
    let t: Vec<V> = (0..n).map(|_| V::Arr((0..r.us(1, 3)).map(|_| gen_draw(r, false)).collect())).collect();
    obj! {"do" => "threads", "t" => t, "sched" => obj!{"seed" => r.below(1 << 50), "burst" => *r.pick(&[0.0, 2.0, 20.0])}}
}
fn gen_proc(r: &mut Rng, depth: usize, forks: bool, fails: bool) -> V {
    let n = r.us(1, if depth == 0 { 8 } else { 3 });
    let acts: Vec<V> = (0..n)
        .map(|_| match r.below(10) {
            0..=2 if forks && depth < 2 => obj! {"do" => "fork", "p" => gen_proc(r, depth + 1, forks, false)},
            3..=4 => gen_threads(r),
            5 if fails => obj! {"do" => "fail", "skip" => r.us(0, 3), "n" => r.logus(1, 20)},
            6 if fails => obj! {"do" => "heal"},
            _ => gen_draw(r, true),
        })
        .collect();
    obj! {"acts" => acts}
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 12_000, thorough: 120_000, batch: 150 }
    }
    fn python(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "a tree of processes and threads drawing noise and random messages in Rust and Python under the seeded scheduler, with forks at random points or entropy failures, a clock that stands still, and every stretch of two values (72 bits for messages) compared with every other; non-trivial: threads, a fork or an entropy failure happened"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![
            ("awgn, awgn_complex, Python awgn, pure_awgn and random_data, rand", "real"),
            ("operating-system entropy, clock, thread schedule", "simulated"),
            ("fork", "real system call, placed by the simulator"),
            ("CPython, numpy", "real, embedded"),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["entropy failures and forks are not combined in one run", "streams are started after the fork that separates them"]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let mode = k % 3;
        let mut p = gen_proc(r, 0, mode == 1, mode == 2);
        if k % 75 == 74 {
            let kind = KINDS[(k / 75) as usize % KINDS.len()];
            let w = if kind == "data" { if r.bit() { r.us(1, 64) } else { 128 } } else if r.bit() { 2 } else { r.us(1, 12) };
            let n = if kind == "awgn" || kind == "complex" { r.us(50_000, 250_000) } else { r.us(20_000, 60_000) };
            p = obj! {"acts" => vec![obj! {"do" => "many", "k" => kind, "n" => n / w.max(8) * 8, "w" => w}, gen_threads(r), obj! {"do" => "many", "k" => kind, "n" => 300}]};
        }
        p.set("now", r.below(1 << 40));
        p
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        if !has(plan, "fork") {
            return one(plan, ctx);
        }
        in_copy(ctx, |c| one(plan, c))
    }
}

fn one(plan: &V, ctx: &Ctx) -> R {
        need!(!(has(plan, "fork") && has(plan, "fail")));
        // The clock stands still: nothing may lean on it.
        sim_clock_set(Some(plan.get("now").u64()));
        let all = process(ctx, 1, "process", plan, 0)?;
        enter_sim(ctx);
        let mut total = 0;
        let mut seen: HashMap<(bool, [i64; 2]), (u32, u32)> = HashMap::new();
        for (si, s) in all.iter().enumerate() {
            ctx.logs(s.v.iter().map(|&x| x as u64));
            total += s.v.len();
            let mut put = |i: usize, w: [i64; 2]| -> R {
                if let Some(&(sj, j)) = seen.get(&(s.bits, w)) {
                    let o = &all[sj as usize];
                    if sj as usize == si {
                        vio!("repeat", "{}: values at {j} come again at {i}", s.name);
                    }
                    vio!("repeat", "{} from value {i} repeats {} from value {j}", s.name, o.name);
                }
                seen.insert((s.bits, w), (si as u32, i as u32));
                Ok(())
            };
            if s.bits {
                if s.v.len() >= 72 {
                    let pack = |c: &[i64]| c.iter().fold(0i64, |a, &b| a << 1 | b);
                    for i in 0..=s.v.len() - 72 {
                        let w = &s.v[i..i + 72];
                        put(i, [pack(&w[..36]), pack(&w[36..])])?;
                    }
                }
            } else {
                for (i, w) in s.v.windows(2).enumerate() {
                    put(i, [w[0], w[1]])?;
                }
            }
        }
        ctx.time(total as f64 * 1e-6);
        ctx.sig(all.len() as u64 ^ (total as u64) << 20);
        Ok(())
}
