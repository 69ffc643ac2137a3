//! C11: streams never affect one another, under any interleaving, thread or crash.
use super::{Budget, Prop};
use crate::comb::{Cb, COMBS};
use crate::core::{guard, sim_clock_set, Caught, Ctx, Injected, R};
use crate::env::{End, Src};
use crate::json::{bits_of, gen_bits, V};
use crate::procs::{forked, isolated};
use crate::rng::Rng;
use crate::sched::{self, Mv};
use komunikilo::iter::Iter;
use crate::schemes::{gen, gen_key, Carrier, Sc, C, RX_KINDS, TX_KINDS};
use std::sync::{Arc, Mutex};

pub struct P;

type Out = [u64; 2];
type St = Box<dyn Iterator<Item = Out>>;

fn oc(c: C) -> Out {
    [c.re.to_bits(), c.im.to_bits()]
}
fn of(x: f64) -> Out {
    [x.to_bits(), 0]
}
fn sig(seed: u64, n: usize) -> Vec<C> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| C::new(r.uf(-2.0, 2.0), r.uf(-2.0, 2.0))).collect()
}
const CAP: usize = 1 << 16;

fn check_op(o: &V) -> R {
    match o.get("t").s() {
        "tx" | "link" | "rx" => {
            let sc = Sc::parse(o.get("sc"))?;
            let n = if o.get("t").s() == "rx" { o.get("n").u() } else { (bits_of(o.get("bits")).len() / sc.unit_in().max(1) + 1) * sc.unit_out() };
            need!(n <= CAP);
            if o.get("t").s() != "tx" {
                need!(RX_KINDS.contains(&sc.k.as_str()));
            }
        }
        "comb" => {
            let c = Cb::parse(o.get("cb"))?;
            need!(o.get("n").u() * c.units().1 <= CAP);
        }
        "bpf" => need!(o.get("len").u() >= 1 && o.get("len").u() * o.get("blocks").u() <= CAP && o.get("fs").u() >= 1),
        "butter" => need!(o.get("n").u() >= 1000 && o.get("n").u() <= 5000 && o.get("lo").f() >= 10.0 && o.get("hi").f() >= o.get("lo").f() + 10.0 && o.get("fs").f() >= 2.1 * o.get("hi").f()),
        "keys" => need!(o.get("size").u().is_power_of_two() && o.get("size").u() >= 2 && o.get("size").u() <= 2048 && o.get("n").u() <= 200),
        "chirp" => need!(o.get("fs").u() >= 1 && o.get("rate").f() > 0.0 && o.get("fs").f() / o.get("rate").f() <= 1e4),
        "chaos" => need!(o.get("n").u() <= CAP && (0.0..=1.0).contains(&o.get("x0").f()) && (0.0..=4.0).contains(&o.get("mu").f())),
        // deliberately bad arguments or input: may fail, but only here
        "bad" => need!(o.get("n").u() <= 4096),
        "crowd" => {
            check_op(o.get("of"))?;
            need!(o.get("of").get("t").s() != "crowd" && o.get("n").u() <= 600);
        }
        "ssca" => need!(o.get("np").u() >= 2 && o.get("n").u() > o.get("np").u() && o.get("n").u() <= 512 && o.get("n").u() % 2 == 0 && o.get("np").u() % 2 == 0),
        "chain" => {
            let of = o.get("of").a();
            need!(of.len() >= 2 && of.len() <= 4);
            for (i, op) in of.iter().enumerate() {
                let t = op.get("t").s();
                need!(matches!(t, "tx" | "rx" | "link" | "comb" | "bpf" | "butter") || (i == 0 && matches!(t, "chaos" | "chirp" | "keys")));
                check_op(op)?;
                need!(i == 0 || (feed_cap(op) >= 1 && feed_cap(op) <= 4096));
            }
        }
        "meter" => need!(o.get("n").u() >= 1 && o.get("n").u() <= CAP),
        _ => invalid!("operation"),
    }
    Ok(())
}

/// How many items of another stream a chained operation takes in.
fn feed_cap(o: &V) -> usize {
    match o.get("t").s() {
        "tx" | "rx" | "link" => Sc::parse(o.get("sc")).map_or(0, |sc| {
            let (ui, uo) = (sc.unit_in().max(1), sc.unit_out().max(1));
            if o.get("t").s() == "rx" { 3000 } else { ((2500 / uo).max(1) * ui).min(2000) }
        }),
        "comb" => Cb::parse(o.get("cb")).map_or(0, |c| (3000 / c.units().1.max(1)).max(1)),
        "bpf" => o.get("len").u() * o.get("blocks").u().max(1),
        _ => 1200,
    }
}
/// What one stream's outputs are to the next stream of a chain: plain values where they are that.
fn handed(o: Out) -> C {
    let f = |b: u64| {
        let x = f64::from_bits(b);
        if x == 0.0 || (x.abs() > 1e-9 && x.abs() < 1e6) { x } else { (b >> 11) as f64 / (1u64 << 53) as f64 * 4.0 - 2.0 }
    };
    if o[1] == 2 { C::new(if o[0] == 1 { 1.0 } else { -1.0 }, 0.0) } else { C::new(f(o[0]), f(o[1])) }
}

/// Builds the stream an operation describes (creation itself runs code under test).
fn build(o: &V) -> St {
    if o.get("t").s() == "chain" {
        let of = o.get("of").a();
        let mut st = build_on(&of[0], None);
        for op in &of[1..] {
            st = build_on(op, Some(Box::new(st.map(handed).take(feed_cap(op)))));
        }
        return st;
    }
    build_on(o, None)
}
fn build_on(o: &V, feed: Option<crate::schemes::Sig>) -> St {
    let feed = std::cell::Cell::new(feed);
    let end = if o.get("end").s() == "panic" { End::Panic } else { End::Eof };
    let stop = if o.has("stop") { o.get("stop").u() } else { usize::MAX };
    let csrc = |seed: u64, n: usize| -> crate::schemes::Sig {
        if let Some(f) = feed.take() {
            return f;
        }
        let v = sig(seed, n);
        let m = n.min(stop);
        Box::new(Src::new(Arc::new(v), m, end).0.stepping())
    };
    let fsrc = |seed: u64, n: usize| -> Box<dyn crate::env::Strm<Item = f64>> {
        if let Some(f) = feed.take() {
            return Box::new(f.map(|c| c.re));
        }
        let v: Vec<f64> = sig(seed, n).iter().map(|c| c.re).collect();
        let n = v.len().min(stop);
        Box::new(Src::new(Arc::new(v), n, end).0.stepping())
    };
    let bsrc = |b: Vec<bool>| -> crate::schemes::Bits {
        if let Some(f) = feed.take() {
            return Box::new(f.map(|c| c.re > 0.0));
        }
        let n = b.len().min(stop);
        Box::new(Src::new(Arc::new(b), n, end).0.stepping())
    };
    let (n, seed) = (o.get("n").u(), o.get("seed").u64());
    match o.get("t").s() {
        "tx" => {
            let sc = Sc::parse(o.get("sc")).ok().unwrap();
            Box::new(sc.tx(bsrc(bits_of(o.get("bits")))).map(oc))
        }
        "link" => {
            let sc = Sc::parse(o.get("sc")).ok().unwrap();
            Box::new(sc.rx(sc.tx(bsrc(bits_of(o.get("bits"))))).map(|b| [b as u64, 2]))
        }
        "rx" => {
            let sc = Sc::parse(o.get("sc")).ok().unwrap();
            Box::new(sc.rx(csrc(seed, n)).map(|b| [b as u64, 2]))
        }
        "comb" => {
            let c = Cb::parse(o.get("cb")).ok().unwrap();
            Box::new(c.build(fsrc(seed, n)).map(|v| [v.iter().fold(v.len() as u64, |a, x| (a ^ x.to_bits()).wrapping_mul(0x100000001b3).rotate_left(23)), v.len() as u64]))
        }
        "bpf" => {
            let (len, nb) = (o.get("len").u(), o.get("blocks").u());
            Box::new(komunikilo::bpf::bandpass(o.get("lo").f(), o.get("hi").f(), fsrc(seed, len * nb), o.get("fs").u(), len).map(of))
        }
        "butter" => Box::new(komunikilo::bpf::butterpass(o.get("lo").f(), o.get("hi").f(), fsrc(seed, n), o.get("fs").u()).map(of)),
        "keys" => {
            let h = komunikilo::hadamard::HadamardMatrix::new(o.get("size").u());
            let from = o.get("from").u();
            Box::new((0..n).map(move |i| {
                sched::step_here();
                let k = h.key(from + i);
                [k.iter().fold(7u64, |a, &b| (a.rotate_left(1) ^ b as u64).wrapping_mul(0x9E3779B97F4A7C15)), k.len() as u64]
            }))
        }
        "chirp" => {
            let it = match o.get("w").u() {
                0 => Box::new(komunikilo::fh_css::linear_chirp(o.get("rate").f(), o.get("fs").u(), o.get("lo").f(), o.get("hi").f())) as Box<dyn Iterator<Item = f64>>,
                1 => Box::new(komunikilo::fh_css::linear_upchirp_centered(o.get("rate").f(), o.get("hi").f(), o.get("lo").f(), o.get("fs").u())),
                _ => Box::new(komunikilo::fh_css::linear_downchirp_centered(o.get("rate").f(), o.get("hi").f(), o.get("lo").f(), o.get("fs").u())),
            };
            Box::new(it.map(|x| {
                sched::step_here();
                of(x)
            }))
        }
        "chaos" => {
            let x0 = o.get("x0").f();
            let it: Box<dyn Iterator<Item = f64>> = if o.get("w").u() == 0 { Box::new(komunikilo::chaos::LogisticMap::new(o.get("mu").f(), x0)) } else { Box::new(komunikilo::chaos::Chebyshev::new(x0)) };
            Box::new(it.take(n).map(|x| {
                sched::step_here();
                of(x)
            }))
        }
        "bad" => {
            let n = n.max(1);
            let odd = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 0.0];
            let mut v: Vec<C> = sig(seed, n);
            for (i, c) in v.iter_mut().enumerate() {
                if i % 3 == 1 {
                    c.re = odd[(seed as usize + i / 3) % 5];
                }
            }
            let src = Src::new(Arc::new(v), n, end).0.stepping();
            use komunikilo::*;
            let (a, b) = (o.get("a").u(), o.get("b").u());
            match o.get("w").u() {
                0 => Box::new(ofdm::tx_baseband_ofdm_signal(src, a + 2, b % (a + 4)).map(oc)),
                1 => Box::new(ofdm::rx_baseband_ofdm_signal(src, a + 2, b % (a + 4)).map(oc)),
                2 => Box::new(bpf::bandpass(10.0, 100.0, src.map(|c| c.re), 1000, a + 1).map(of)),
                3 => Box::new(bpsk::tx_bpsk_signal(src.map(|c| c.re > 0.0), 1000 + a, 1 + b, 100.0).map(of)),
                4 => Box::new(qpsk::rx_qpsk_signal(src.map(|c| c.re), 1000 + a, 1 + b, 10_000.0).map(|b| [b as u64, 2])),
                5 => Box::new(fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal(src).map(|b| [b as u64, 2])),
                6 => {
                    let key: &'static [bool] = Box::leak(vec![true; a % 7].into_boxed_slice());
                    Box::new(cdma::tx_cdma_bpsk_signal(src.map(|c| c.re > 0.0), 1200, 100, 100.0, key).map(of))
                }
                7 => {
                    let h = hadamard::HadamardMatrix::new(a);
                    Box::new((0..n).map(move |i| [h.key(i + b).len() as u64, 0]))
                }
                8 => Box::new(fh::tx_fh_bpsk_signal(src.map(|c| c.re > 0.0), 100.0, 400.0, b % 3, 1000, 1 + a).map(of)),
                9 => Box::new(chaos::Chebyshev::new(odd[b % 5]).take(n).map(of)),
                10 => Box::new(awgn_complex(src, -1.0 - a as f64).map(|_| [0, 0])),
                11 => Box::new(fm::tx_fm(src.map(|c| c.re), 1000 + a, 1 + b, 10.0).map(of)),
                12 => Box::new(src.chunks(a % 3).map(|v| [v.len() as u64, 0])),
                _ => Box::new(dcsk::rx_baseband_dcsk(src.map(|c| c.re)).map(|b| [b as u64, 2])),
            }
        }
        "crowd" => {
            // many more streams come and go; some are read a little
            let of = o.get("of").clone();
            let mut hold: Vec<St> = vec![];
            let keep = o.get("keep").u();
            let mut i = 0u64;
            Box::new(std::iter::from_fn(move || {
                if i as usize >= n {
                    return None;
                }
                sched::step_here();
                let mut op = of.clone();
                if i % 2 == 1 && op.has("mu") {
                    op.set("mu", 3.0 + (i % 97) as f64 / 97.0);
                }
                let mut st = build(&op);
                let mut h = 0u64;
                for _ in 0..i % 3 {
                    h ^= st.next().map_or(3, |x| x[0] ^ x[1]);
                }
                if hold.len() < keep {
                    hold.push(st);
                }
                i += 1;
                Some([h, i])
            }))
        }
        "ssca" => {
            let (n, np) = (o.get("n").u(), o.get("np").u());
            let s: Vec<f64> = sig(seed, n + np).iter().map(|c| c.re).collect();
            let m = if o.get("w").u() == 0 { komunikilo::ssca::ssca_base(s, n, np) } else { komunikilo::ssca::ssca_mapped(s, n, np) };
            Box::new(m.into_iter().map(oc))
        }
        _ => {
            // meters
            let v: Vec<f64> = sig(seed, n).iter().map(|c| c.re).collect();
            let b = [komunikilo::avg_energy(&v), komunikilo::energy(v.iter().cloned(), 100.0), komunikilo::power(v.iter().cloned(), 100.0), komunikilo::erfc(v[0])];
            Box::new(b.into_iter().map(of))
        }
    }
}

/// (outputs, ending): 0 ended, 1 the injected failure, 2 some other panic, 3 still going.
type Done = (Vec<Out>, u8, String);

fn solo(o: &V) -> Done {
    solo_of(|| build(o))
}
/// The same operation by itself, and a chain stage by stage: each stage runs to its end before the next
/// one starts.
fn alone(o: &V) -> Done {
    if o.get("t").s() != "chain" {
        return solo(o);
    }
    let of = o.get("of").a();
    let mut cur = (vec![], 0, String::new());
    let mut born = false;
    for (i, op) in of.iter().enumerate() {
        if i == 0 {
            cur = solo_of(|| {
                let st = build(op);
                born = true;
                st
            });
            if !born {
                return cur;
            }
            continue;
        }
        let items: Vec<C> = cur.0.iter().take(feed_cap(op)).map(|&o| handed(o)).collect();
        let full = items.len() == feed_cap(op);
        let n = items.len();
        let (how, msg) = (cur.1, cur.2.clone());
        let end = if !full && how != 0 { End::Panic } else { End::Eof };
        let mut made = false;
        cur = solo_of(|| {
            let st = build_on(op, Some(Box::new(Src::new(Arc::new(items.clone()), n, end).0)));
            made = true;
            st
        });
        if cur.1 == 1 && how == 2 {
            cur.1 = 2;
            cur.2 = msg;
        }
        if !made {
            return cur;
        }
    }
    cur
}
fn solo_of(mk: impl FnOnce() -> St) -> Done {
    let mut out = vec![];
    let r = guard(|| {
        let mut it = mk();
        while out.len() < CAP {
            match it.next() {
                Some(x) => out.push(x),
                None => return true,
            }
        }
        false
    });
    match r {
        Ok(true) => (out, 0, String::new()),
        Ok(false) => (out, 3, String::new()),
        Err(Caught::Injected) => (out, 1, String::new()),
        Err(Caught::Panic(m)) => (out, 2, m),
    }
}
fn enc(d: &Done) -> Vec<u8> {
    let mut v = vec![d.1];
    for o in &d.0 {
        v.extend_from_slice(&o[0].to_le_bytes());
        v.extend_from_slice(&o[1].to_le_bytes());
    }
    v
}
fn dec(b: &[u8]) -> Done {
    let w = |c: &[u8]| u64::from_le_bytes(c.try_into().unwrap());
    (b[1..].chunks_exact(16).map(|c| [w(&c[..8]), w(&c[8..])]).collect(), b[0], String::new())
}
fn show(o: &Out) -> String {
    if o[1] == 2 { format!("{}", o[0]) } else { format!("({:e}, {:e})", f64::from_bits(o[0]), f64::from_bits(o[1])) }
}
/// Compares what a stream gave with what it gives alone.
fn compare(name: &str, op: &V, got: &Done, want: &Done) -> R {
    let what = || format!("{} {}", op.get("t").s(), if op.has("sc") { op.get("sc").dump() } else { op.dump() });
    if let Some(i) = (0..got.0.len().min(want.0.len())).find(|&i| got.0[i] != want.0[i]) {
        vio!("differs", "{name} stream ({}): output {i} is {}, alone it is {}", what(), show(&got.0[i]), show(&want.0[i]));
    }
    if got.0.len() > want.0.len() {
        vio!("differs", "{name} stream ({}): gave {} outputs, alone it gives {}", what(), got.0.len(), want.0.len());
    }
    if got.1 == 2 && want.1 != 2 {
        vio!("panic", "{name} stream ({}): panicked after {} outputs ({}), alone it does not", what(), got.0.len(), got.2);
    }
    if got.1 != 3 && (got.1 != want.1 || got.0.len() != want.0.len()) {
        vio!("differs", "{name} stream ({}): ended (how: {}) after {} outputs, alone it ends (how: {}) after {}", what(), got.1, got.0.len(), want.1, want.0.len());
    }
    Ok(())
}

fn gen_op(r: &mut Rng, base: &V) -> V {
    // a variation of the base operation, or a new one
    if base.has("t") && r.chance(0.6) {
        let mut o = base.clone();
        if o.has("sc") && r.chance(0.8) {
            let kind = o.get("sc").get("k").s().to_string();
            let other = gen(r, &kind, Carrier::Any);
            let mut sc = o.get("sc").clone();
            for f in ["sr", "sps", "fc", "key", "sub", "pil", "lo", "hi", "nf"] {
                if other.has(f) && r.chance(0.4) {
                    sc.set(f, other.get(f).clone());
                }
            }
            if let Ok(p) = Sc::parse(&sc) {
                if p.unit_in() >= 1 && p.unit_out() >= 1 {
                    o.set("sc", sc);
                }
            }
        }
        // a near-copy: one setting a little different
        if o.has("sc") && r.chance(0.3) {
            let mut sc = o.get("sc").clone();
            let f = *r.pick(&["fc", "lo", "hi"]);
            if sc.has(f) {
                let d = *r.pick(&[0.001, 0.3, 0.5, 1.0]);
                sc.set(f, sc.get(f).f() + if r.bit() { d } else { -d });
            }
            if Sc::parse(&sc).is_ok() {
                o.set("sc", sc);
            }
        }
        if o.has("mu") && r.bit() {
            o.set("mu", r.uf(2.5, 4.0));
        }
        if o.has("seed") && r.bit() {
            o.set("seed", r.below(1 << 40));
        }
        if o.get("t").s() != "rx" && o.has("sc") {
            fill_bits(r, &mut o);
        }
        if matches!(o.get("t").s(), "bpf" | "chirp" | "butter") {
            // one parameter of the near-copy differs, or several
            let which = r.below(4);
            let butter = o.get("t").s() == "butter";
            if which == 0 || which == 3 {
                o.set("lo", r.uf(if butter { 10.0 } else { 0.0 }, 2000.0).round());
            }
            if which == 1 || which == 3 {
                o.set("hi", r.uf(2010.0, 6000.0).round());
            }
            // edges that differ by less than anyone would write down
            if r.chance(0.25) {
                let f = *r.pick(&["lo", "hi"]);
                o.set(f, o.get(f).f() + *r.pick(&[0.25, 0.5, 1e-3, 1e-6]));
            }
            if which == 2 && o.has("fs") {
                o.set("fs", if butter { *r.pick(&[16_000usize, 44_100, 48_000, 96_000]) } else { o.get("fs").u() + r.us(1, 900) });
            }
        }
        if o.get("t").s() == "keys" && r.bit() {
            o.set("size", 1usize << if r.chance(0.15) { r.us(7, 10) } else { r.us(1, 6) });
        }
        if o.get("t").s() == "bpf" && r.bit() {
            o.set("len", o.get("len").u() + *r.pick(&[1usize, 64, 255, 256, 512]));
            o.set("blocks", r.us(1, 3));
        }
        // sizes that look alike in their low bits
        if r.chance(0.12) {
            let d = 256 * r.us(1, 3);
            if o.has("sc") {
                let mut sc = o.get("sc").clone();
                match *r.pick(&["sub", "sps", "nf", "key"]) {
                    "key" if sc.has("key") && sc.get("k").s() == "cdma_bb" => sc.set("key", gen_key(r, bits_of(sc.get("key")).len() + d)),
                    f if f != "key" && sc.has(f) => sc.set(f, sc.get(f).u() + d),
                    _ => {}
                }
                if Sc::parse(&sc).is_ok() {
                    o.set("sc", sc);
                    if o.get("t").s() != "rx" {
                        fill_bits(r, &mut o);
                    } else {
                        o.set("n", o.get("n").u().max(2 * Sc::parse(o.get("sc")).map_or(1, |s| s.unit_out()).min(4000)));
                    }
                }
            } else if o.get("t").s() == "comb" && o.get("cb").get("n").u() > 0 {
                let mut c = o.get("cb").clone();
                c.set("n", c.get("n").u() + d);
                o.set("cb", c);
            }
        }
        if check_op(&o).is_ok() {
            return o;
        }
    }
    if r.chance(0.12) {
        // streams feeding one another, often of one kind
        let mut of: Vec<V> = vec![];
        for _ in 0..r.us(2, 3) {
            for _ in 0..30 {
                let b = if of.is_empty() { base.clone() } else if r.chance(0.6) { of[of.len() - 1].clone() } else { V::Null };
                let op = gen_op(r, &if b.get("t").s() == "chain" { V::Null } else { b });
                let t = op.get("t").s().to_string();
                if matches!(t.as_str(), "tx" | "rx" | "link" | "comb" | "bpf" | "butter") || (of.is_empty() && matches!(t.as_str(), "chaos" | "chirp" | "keys")) {
                    of.push(op);
                    break;
                }
            }
        }
        let o = obj! {"t" => "chain", "of" => of};
        if check_op(&o).is_ok() {
            return o;
        }
    }
    for _ in 0..20 {
        let mut o = match r.below(16) {
            14 => obj! {"t" => "bad", "w" => r.us(0, 13), "a" => r.us(0, 20), "b" => r.us(0, 30), "seed" => r.below(1 << 40), "n" => r.logus(1, 200)},
            15 if r.chance(0.3) => {
                let of = if base.has("t") && base.get("t").s() != "crowd" { base.clone() } else { gen_op(r, &V::Null) };
                // filter design is slow, and so are big code sets
                let slow = of.get("t").s() == "butter" || of.get("t").s() == "keys" && of.get("size").u() > 256 || of.get("t").s() == "chain" && of.get("of").a().iter().any(|x| x.get("t").s() == "butter");
                obj! {"t" => "crowd", "of" => of, "n" => if slow { r.us(2, 12) } else { r.logus(10, 400) }, "keep" => if r.bit() { 0 } else { r.us(1, 300) }}
            }
            0..=4 => {
                let k = *r.pick(TX_KINDS);
                let mut o = obj! {"t" => "tx", "sc" => gen(r, k, Carrier::Any)};
                fill_bits(r, &mut o);
                o
            }
            5..=6 => {
                let k = *r.pick(RX_KINDS);
                let mut o = obj! {"t" => "link", "sc" => gen(r, k, Carrier::Any)};
                fill_bits(r, &mut o);
                o
            }
            7..=8 => {
                let k = *r.pick(RX_KINDS);
                obj! {"t" => "rx", "sc" => gen(r, k, Carrier::Any), "seed" => r.below(1 << 40), "n" => r.logus(1, 3000)}
            }
            9..=10 => {
                let k = *r.pick(COMBS);
                obj! {"t" => "comb", "cb" => Cb::gen(r, k, 40), "seed" => r.below(1 << 40), "n" => r.logus(1, 300)}
            }
            11 => match r.below(30) {
                0 | 4 | 5 => obj! {"t" => "butter", "lo" => r.uf(10.0, 2000.0).round(), "hi" => r.uf(2010.0, 6000.0).round(), "fs" => *r.pick(&[16_000usize, 44_100, 48_000, 96_000]), "seed" => r.below(1 << 40), "n" => r.us(1000, 1500)},
                1..=3 => {
                    let np = 2 * r.us(1, 8);
                    obj! {"t" => "ssca", "n" => np * r.us(2, 6), "np" => np, "seed" => r.below(1 << 40), "w" => r.us(0, 1)}
                }
                _ => {
                    let len = r.logus(1, 256);
                    obj! {"t" => "bpf", "len" => len, "blocks" => r.us(1, 6), "fs" => 10_000, "lo" => r.uf(0.0, 2000.0).round(), "hi" => r.uf(2000.0, 6000.0).round(), "seed" => r.below(1 << 40)}
                }
            },
            12 | 13 if r.chance(0.8) => match r.below(3) {
                0 => obj! {"t" => "keys", "size" => 1usize << if r.chance(0.1) { r.us(7, 10) } else { r.us(1, 6) }, "from" => r.us(0, 70), "n" => r.us(1, 40)},
                1 => obj! {"t" => "chirp", "w" => r.us(0, 2), "rate" => r.logus(1, 50), "fs" => r.logus(100, 5000), "lo" => r.uf(0.0, 500.0), "hi" => r.uf(100.0, 1500.0)},
                _ => obj! {"t" => "chaos", "w" => r.us(0, 1), "mu" => if r.bit() { 3.9 } else { r.uf(2.5, 4.0) }, "x0" => r.uf(0.01, 0.99), "n" => r.logus(1, 300)},
            },
            _ => obj! {"t" => "meter", "seed" => r.below(1 << 40), "n" => r.logus(1, 500)},
        };
        if matches!(o.get("t").s(), "tx" | "link" | "rx" | "comb") && r.chance(0.25) {
            o.set("stop", r.logus(1, 200) - 1);
            if r.bit() {
                o.set("end", "panic");
            }
        }
        if check_op(&o).is_ok() {
            return o;
        }
    }
    obj! {"t" => "meter", "seed" => 1, "n" => 5}
}
fn fill_bits(r: &mut Rng, o: &mut V) {
    if let Ok(sc) = Sc::parse(o.get("sc")) {
        let (ui, uo) = (sc.unit_in().max(1), sc.unit_out().max(1));
        let max = (2500 / uo).max(1) * ui;
        let n = r.logus(1, max.clamp(1, 400) + ui);
        o.set("bits", gen_bits(r, n));
    }
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 28_000, thorough: 400_000, batch: 200 }
    }
    fn rule(&self) -> &'static str {
        "two to seven streams (transmitters, receivers, whole links, combinators, filters, code sets, maps, estimators, chains of streams feeding one another; often near-copies of one another) created, advanced, handed over, dropped and crashed by one to four threads under the seeded scheduler, with noise streams alongside; non-trivial: at least two streams were live together"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![
            ("all transmitters, receivers, combinators, filters, code sets, chaos maps, SSCA, noise adapters", "real"),
            ("thread scheduling, sources, crashes, entropy, clock", "simulated"),
            ("solo reference runs", "real code, each in a freshly forked process"),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["bit-exact comparison: a stream's floating-point operations must not depend on what else runs"]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let ns = r.us(2, 7);
        let mut ops: Vec<V> = vec![];
        // some runs: many streams come and go around near-copies of them
        if k % 12 == 5 {
            let a = loop {
                let a = gen_op(r, &V::Null);
                if !matches!(a.get("t").s(), "crowd" | "chain" | "butter" | "ssca" | "meter") && (k % 24 == 5 || a.get("t").s() != "bad") {
                    break a;
                }
            };
            let near = |r: &mut Rng| loop {
                let b = gen_op(r, &a);
                if b.get("t").s() == a.get("t").s() {
                    return b;
                }
            };
            let of = near(r);
            let big = of.get("t").s() == "keys" && of.get("size").u() > 256;
            let most = if big { 70 } else { 600 };
            let c = obj! {"t" => "crowd", "of" => of, "n" => r.logus(60, most), "keep" => if r.bit() { 0 } else { r.us(1, most) }};
            if check_op(&c).is_ok() {
                ops.push(c);
                ops.push(near(r));
            }
            ops.push(a.clone());
        }
        for i in ops.len()..ns.max(ops.len()) {
            let base = if i == 0 { V::Null } else { ops[r.us(0, i - 1)].clone() };
            ops.push(gen_op(r, &base));
        }
        let nt = match r.below(4) { 0 => 1, 1 => 2, _ => r.us(2, 4) };
        let ns = ops.len();
        let threads: Vec<V> = (0..nt)
            .map(|_| {
                let m = r.logus(2, 40);
                V::Arr(
                    (0..m)
                        .map(|_| {
                            let s = r.us(0, ns - 1) as i64;
                            let n = r.logus(1, 300) as i64;
                            // 0 pull, 1 drop, 2 crash while pulling, 3 noise alongside, 4 sleep, 5 drain
                            let op = match r.below(20) { 0 => 1, 1 => 2, 2 => 3, 3 => 4, 4 => 5, _ => 0 };
                            V::from(vec![s, op, n])
                        })
                        .collect(),
                )
            })
            .collect();
        obj! {"ops" => ops, "threads" => threads, "sched" => obj!{"seed" => r.below(1 << 50), "burst" => *r.pick(&[0.0, 1.0, 5.0, 40.0])}, "now" => r.below(1 << 40)}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let ops: Vec<V> = plan.get("ops").a().to_vec();
        need!(!ops.is_empty() && ops.len() <= 16);
        for o in &ops {
            check_op(o)?;
        }
        // alone, each in a process of its own
        let mut refs: Vec<Done> = vec![];
        for (i, o) in ops.iter().enumerate() {
            match forked(ctx, 100 + i as u64, |_| enc(&alone(o))) {
                Ok(b) => refs.push(dec(&b)),
                Err(e) => vio!("abort", "{} alone: {e}", o.dump()),
            }
        }
        let p2 = plan.clone();
        let refs = Arc::new(refs);
        let ops = Arc::new(ops);
        let v = isolated(ctx, move |c| match scenario(&p2, c, &ops, &refs) {
            Ok(()) => obj! {"r" => "ok"},
            Err(crate::core::Fail::Violation { class, msg }) => obj! {"r" => "bad", "class" => class, "msg" => msg},
            Err(crate::core::Fail::Invalid(m)) => obj! {"r" => "invalid", "msg" => m},
        });
        match v {
            Ok(v) if v.get("r").s() == "ok" => Ok(()),
            Ok(v) if v.get("r").s() == "bad" => Err(crate::core::Fail::Violation { class: v.get("class").s().to_string(), msg: v.get("msg").s().to_string() }),
            Ok(v) => invalid!("{}", v.get("msg").s()),
            Err(e) => vio!("abort", "the process running the streams: {e}"),
        }
    }
}

enum Slot {
    New,
    Live(Mv<St>, Vec<Out>),
    Busy,
    Done(Done),
}

fn scenario(plan: &V, ctx: &Ctx, ops: &Arc<Vec<V>>, refs: &Arc<Vec<Done>>) -> R {
    let slots: Arc<Mutex<Vec<Slot>>> = Arc::new(Mutex::new((0..ops.len()).map(|_| Slot::New).collect()));
    let mut tasks: Vec<sched::Task> = vec![];
    for t in plan.get("threads").a() {
        let acts: Vec<(usize, i64, usize)> = t.a().iter().filter(|a| a.a().len() >= 3).map(|a| (a.a()[0].u(), a.a()[1].i(), a.a()[2].u().min(CAP))).collect();
        let (slots, ops, ctx) = (slots.clone(), ops.clone(), ctx.clone());
        tasks.push(Box::new(move |tc| {
            let mut noise: Option<Box<dyn Iterator<Item = f64>>> = None;
            for (s, op, n) in acts {
                if s >= ops.len() || !tc.step() {
                    continue;
                }
                match op {
                    3 => {
                        ctx.fault("noise_alongside", s as u64);
                        let it = noise.get_or_insert_with(|| Box::new(komunikilo::awgn(std::iter::repeat(0.0), 1.0)));
                        for _ in 0..n {
                            it.next();
                        }
                        continue;
                    }
                    4 => {
                        ctx.fault("clock_advance", n as u64);
                        tc.sleep(n as u64 * 1_000_003);
                        continue;
                    }
                    _ => {}
                }
                let cur = {
                    let mut g = slots.lock().unwrap_or_else(|e| e.into_inner());
                    match &g[s] {
                        Slot::Busy | Slot::Done(_) => continue,
                        _ => std::mem::replace(&mut g[s], Slot::Busy),
                    }
                };
                let put = |v: Slot| slots.lock().unwrap_or_else(|e| e.into_inner())[s] = v;
                let (mut st, mut out) = match cur {
                    Slot::New => match guard(|| build(&ops[s])) {
                        Ok(st) => (st, vec![]),
                        Err(Caught::Injected) => {
                            put(Slot::Done((vec![], 1, String::new())));
                            continue;
                        }
                        Err(Caught::Panic(m)) => {
                            put(Slot::Done((vec![], 2, m)));
                            continue;
                        }
                    },
                    Slot::Live(st, out) => (st.take(), out),
                    _ => unreachable!(),
                };
                if op == 1 {
                    ctx.fault("stream_dropped", s as u64);
                    drop(st);
                    put(Slot::Done((out, 3, String::new())));
                    continue;
                }
                let n = if op == 5 { CAP } else { n };
                let crash = op == 2;
                let r = guard(|| {
                    for _ in 0..n {
                        if out.len() >= CAP {
                            return None;
                        }
                        match st.next() {
                            Some(x) => out.push(x),
                            None => return Some(false),
                        }
                        if !tc.step() {
                            return None;
                        }
                    }
                    if crash {
                        return Some(true);
                    }
                    None
                });
                match r {
                    Ok(None) => put(Slot::Live(Mv(st), out)),
                    Ok(Some(false)) => put(Slot::Done((out, 0, String::new()))),
                    Ok(Some(true)) => {
                        ctx.fault("thread_crash", s as u64);
                        put(Slot::Done((out, 3, String::new())));
                        // the stream dies with its thread
                        let _held = st;
                        std::panic::panic_any(Injected);
                    }
                    Err(Caught::Injected) => {
                        ctx.fault("source_failure", s as u64);
                        drop(st);
                        put(Slot::Done((out, 1, String::new())));
                    }
                    Err(Caught::Panic(m)) => {
                        drop(st);
                        put(Slot::Done((out, 2, m)));
                    }
                }
            }
        }));
    }
    sim_clock_set(Some(plan.get("now").u64()));
    let out = sched::run(ctx, plan.get("sched"), 3_000_000, tasks);
    if let Some(d) = out.dead {
        vio!("stuck", "the streams never finished: {d}");
    }
    for p in out.panics.iter().flatten() {
        if p != "injected" {
            vio!("panic", "a thread panicked: {p}");
        }
    }
    let mut g = slots.lock().unwrap_or_else(|e| e.into_inner());
    let mut live = 0;
    for s in 0..ops.len() {
        let d = match std::mem::replace(&mut g[s], Slot::New) {
            Slot::New => continue,
            Slot::Done(d) => d,
            Slot::Live(_, out) => (out, 3, String::new()),
            Slot::Busy => (vec![], 3, String::new()),
        };
        live += 1;
        ctx.items(d.0.len());
        ctx.logs(d.0.iter().map(|o| o[0] ^ o[1].rotate_left(7)));
        compare("an interleaved", &ops[s], &d, &refs[s])?;
    }
    if live >= 2 {
        ctx.fault("interleaved", live);
    }
    if ops.iter().any(|o| o.get("t").s() == "chain") {
        ctx.probe("streams_feeding_streams");
    }
    // and repeated later in the same process
    for s in (0..ops.len()).rev() {
        let d = solo(&ops[s]);
        compare("a repeated", &ops[s], &d, &refs[s])?;
    }
    Ok(())
}
