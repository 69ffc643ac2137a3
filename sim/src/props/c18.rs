//! C18: the Python reference modems and the Rust modems understand each other.
use super::{Budget, Prop};
use crate::core::{guard, Ctx, R};
use crate::env::{apply_faults, gain_edges, gen_fault};
use crate::json::{bits_of, gen_bits, V};
use crate::rng::Rng;
use crate::schemes::{gen, Carrier, Sc, C};
use pyo3::prelude::*;
use pyo3::types::{PyComplex, PyList, PyTuple};

pub struct P;

const KINDS: &[&str] = &["bpsk", "qpsk", "cdma_bpsk", "bpsk_bb", "qpsk_bb"];
const FAULTS: &[&str] = &["burst", "erase", "flip", "spike", "inf", "gain", "dc", "clip"];

fn names(k: &str) -> (&'static str, &'static str, &'static str) {
    match k {
        "bpsk" => ("psk", "tx_bpsk", "rx_bpsk"),
        "qpsk" => ("psk", "tx_qpsk", "rx_qpsk"),
        "cdma_bpsk" => ("cdma", "tx_bpsk_cdma", "rx_bpsk_cdma"),
        "bpsk_bb" => ("psk", "tx_baseband_bpsk", "rx_baseband_bpsk"),
        _ => ("psk", "tx_baseband_qpsk", "rx_baseband_qpsk"),
    }
}
fn carrier(k: &str) -> Carrier {
    match k {
        "qpsk" => Carrier::Quad,
        _ => Carrier::Chip,
    }
}

/// Calls a function of the reference code; exceptions come back as text.
fn py_call<T>(sc: &Sc, rx: bool, arg: impl FnOnce(Python<'_>) -> PyObject, read: impl FnOnce(&Bound<'_, PyAny>) -> PyResult<T>) -> Result<T, String> {
    let (m, tx, rxf) = names(&sc.k);
    Python::with_gil(|py| {
        let f = py.import_bound(m)?.getattr(if rx { rxf } else { tx })?;
        let a = arg(py).into_bound(py);
        let args = if sc.real() { PyTuple::new_bound(py, [a, sc.fs().to_object(py).into_bound(py), sc.sr.to_object(py).into_bound(py), sc.fc.to_object(py).into_bound(py)]) } else { PyTuple::new_bound(py, [a]) };
        read(&f.call1(args)?)
    })
    .map_err(|e: PyErr| format!("{m}.{} raised {e}", if rx { rxf } else { tx }))
}
fn as_np(py: Python<'_>, l: Bound<'_, PyList>, np: bool) -> PyObject {
    if np {
        py.import_bound("numpy").and_then(|n| n.call_method1("array", (l,))).expect("numpy").unbind()
    } else {
        l.into_any().unbind()
    }
}
fn py_tx(sc: &Sc, bits: &[bool], np: bool) -> Result<Vec<C>, String> {
    let real = sc.real();
    py_call(sc, false, |py| as_np(py, PyList::new_bound(py, bits), np), |r| if real { Ok(r.extract::<Vec<f64>>()?.into_iter().map(|x| C::new(x, 0.0)).collect()) } else { r.extract::<Vec<C>>() })
}
fn py_rx(sc: &Sc, x: &[C], np: bool) -> Result<Vec<bool>, String> {
    let real = sc.real();
    py_call(
        sc,
        true,
        |py| as_np(py, if real { PyList::new_bound(py, x.iter().map(|c| c.re)) } else { PyList::new_bound(py, x.iter().map(|c| PyComplex::from_complex_bound(py, *c))) }, np),
        |r| r.extract::<Vec<bool>>(),
    )
}
fn scheme(p: &V) -> R<Sc> {
    let mut v = p.get("sc").clone();
    if v.get("k").s() == "cdma_bpsk" {
        // both ends use the reference code's key
        let key = Python::with_gil(|py| py.import_bound("cdma")?.getattr("KEY")?.call_method0("tolist")?.extract::<Vec<f64>>());
        match key {
            Ok(k) => v.set("key", k.iter().map(|&c| if c > 0.0 { '1' } else { '0' }).collect::<String>()),
            Err(e) => vio!("raised", "cdma.KEY: {e}"),
        }
    }
    Sc::parse(&v)
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 16_000, thorough: 120_000, batch: 50 }
    }
    fn python(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "one to four packets, each sent by the Python or the Rust transmitter over a simulated channel with bursts, erasures, inversions, spikes, non-finite samples and cuts, and heard by both receivers; non-trivial: a fault hit the channel or sender and receiver differ"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![("kom_py psk and cdma modules, CPython, numpy", "real, embedded"), ("Rust BPSK, QPSK, CDMA modems", "real"), ("channel, schedule of packets", "simulated")]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a reception has at least one sample (numpy rejects empty convolutions)", "carriers keep the arms of QPSK orthogonal; symbols to which the carrier gives less than a ten-thousandth of full energy are not judged"]
    }
    fn gen(&self, r: &mut Rng, _k: u64, _th: bool) -> V {
        let packets: Vec<V> = (0..r.us(1, 4))
            .map(|_| {
                let long = r.chance(0.004);
                let k = if long && r.chance(0.7) { *r.pick(&["bpsk", "cdma_bpsk"]) } else { *r.pick(KINDS) };
                let any = k != "qpsk" && r.chance(if long { 0.7 } else { 0.3 });
                let mut sc = gen(r, k, if any { Carrier::Any } else { carrier(k) });
                if k == "cdma_bpsk" {
                    let spc = r.us(2, 5);
                    let sr = sc.get("sr").u().clamp(1, 1 << 20);
                    sc.set("key", "1100110011001100");
                    sc.set("sps", 16 * spc);
                    sc.set("sr", sr);
                    let m = r.us(0, spc);
                    if !any {
                        sc.set("fc", m as f64 * (sr * 16) as f64 / 2.0);
                    } else {
                        sc.set("fc", r.uf(0.0, (sr * 16 * spc / 2) as f64));
                    }
                }
                if long && any && k == "bpsk" && r.chance(0.7) {
                    // many symbols, and a carrier that turns fast
                    let sps = if r.chance(0.7) { 1 } else { r.us(2, 3) };
                    sc.set("sps", sps);
                    sc.set("fc", (r.uf(0.4, 1.0) * (sps * sc.get("sr").u() / 2) as f64).floor());
                }
                let p = match Sc::parse(&sc) {
                    Ok(p) => p,
                    Err(_) => panic!("generator: {}", sc.dump()),
                };
                let (ui, uo) = (p.unit_in(), p.unit_out());
                let n = (r.logus(1, 120) * ui + if r.chance(0.3) { r.us(0, ui - 1) } else { 0 }).min((1500 / uo).max(2) * ui);
                // now and then a very long message
                let n = if long { (r.us(50_000, 400_000) / uo).max(1) * ui } else { n };
                let len = n.div_ceil(ui) * uo;
                let faults: Vec<V> = (0..if r.chance(0.3) { 0 } else { r.us(1, 3) }).map(|_| gen_fault(r, len, uo, FAULTS)).collect();
                let mut v = obj! {"sc" => sc, "bits" => gen_bits(r, n), "py" => r.bit(), "np" => r.bit(), "faults" => faults};
                if r.chance(0.15) {
                    v.set("level", r.uf(-140.0, 140.0));
                }
                if r.chance(0.35) {
                    v.set("cut", match r.below(3) { 0 => r.us(1, len), 1 => (r.us(1, len.div_ceil(uo)) * uo).min(len), _ => len.saturating_sub(r.us(0, 3)).max(1) });
                }
                v
            })
            .collect();
        obj! {"packets" => packets}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        let ps = plan.get("packets").a();
        need!(!ps.is_empty() && ps.len() <= 16);
        for (pi, p) in ps.iter().enumerate() {
            let sc = scheme(p)?;
            need!(KINDS.contains(&sc.k.as_str()));
            let bits = bits_of(p.get("bits"));
            let (ui, uo) = (sc.unit_in(), sc.unit_out());
            need!(!bits.is_empty() && bits.len().div_ceil(ui) * uo <= 500_000);
            // symbols the carrier gives no energy to speak of cannot be told apart
            let mut dark = vec![];
            if sc.real() {
                let chip = sc.sps / if sc.is_cdma() { sc.key.len() } else { 1 };
                let m = 2.0 * sc.fc * chip as f64 / sc.fs() as f64;
                need!(sc.fc <= sc.fs() as f64 / 2.0);
                need!(sc.k != "qpsk" || ((m - m.round()).abs() < 1e-9 && chip >= 3 && m.round() >= 1.0 && m.round() as usize % chip != 0));
                if (m - m.round()).abs() >= 1e-9 {
                    let w = 2.0 * std::f64::consts::PI * sc.fc / sc.fs() as f64;
                    dark = (0..bits.len()).map(|s| (s * uo..(s + 1) * uo).map(|i| (w * i as f64).cos().powi(2)).sum::<f64>() < 1e-4 * uo as f64).collect();
                }
            }
            if bits.len().div_ceil(ui) * uo > 20_000 {
                ctx.probe("long_packet");
            }
            let from_py = p.get("py").b();
            let np = p.get("np").b();
            let what = format!("packet {pi}: {} sent by {}", sc.k, if from_py { "Python" } else { "Rust" });
            // A last half symbol may be sent padded or not at all.
            let whole = bits.len() / ui;
            let sent = if from_py {
                match py_tx(&sc, &bits, np) {
                    Ok(v) => v,
                    Err(e) => vio!("raised", "{what}: {e}"),
                }
            } else {
                match guard(|| sc.tx(Box::new(bits.clone().into_iter())).collect::<Vec<C>>()) {
                    Ok(v) => v,
                    Err(e) => vio!("panic", "{what}: transmitter: {e:?}"),
                }
            };
            if sent.len() < whole * uo || sent.len() > bits.len().div_ceil(ui) * uo {
                vio!("length", "{what}: {} bits sent as {} samples, expected {}", bits.len(), sent.len(), whole * uo);
            }
            let mut x = sent.clone();
            let faults = p.get("faults").a();
            let mut touched = apply_faults(ctx, faults, &mut x, !sc.real());
            gain_edges(faults, uo, &mut touched);
            crate::env::level(ctx, p, &mut x)?;
            if p.has("cut") {
                let c = p.get("cut").u().clamp(1, x.len().max(1));
                if c < x.len() {
                    ctx.fault("cut", c as u64);
                }
                x.truncate(c);
            }
            if x.is_empty() {
                continue;
            }
            ctx.logf(&x);
            ctx.time(x.len() as f64 / sc.rate());
            ctx.items(x.len());
            if !from_py {
                ctx.fault("rust_to_python", pi as u64);
            } else {
                ctx.fault("python_to_rust", pi as u64);
            }
            let syms = x.len() / uo;
            // Whole symbols turned upside down say the opposite.
            let one = |f: &V| f.get("t").s() == "flip" && f.get("at").u() % uo == 0 && f.get("n").u() % uo == 0;
            let inverted = faults.len() == 1 && one(&faults[0]);
            let (fa, fe) = if inverted { (faults[0].get("at").u(), faults[0].get("at").u() + faults[0].get("n").u()) } else { (0, 0) };
            for to_py in [true, false] {
                let end = format!("{what}, received by {}", if to_py { "Python" } else { "Rust" });
                let got = if to_py {
                    match py_rx(&sc, &x, np) {
                        Ok(v) => v,
                        Err(e) => vio!("raised", "{end}: {e}"),
                    }
                } else {
                    match guard(|| sc.rx(Box::new(x.clone().into_iter())).collect::<Vec<bool>>()) {
                        Ok(v) => v,
                        Err(e) => vio!("panic", "{end}: {e:?}"),
                    }
                };
                ctx.logb(&got);
                if got.len() != syms * ui {
                    vio!("length", "{end}: {} samples hold {syms} symbols, but {} bits came out", x.len(), got.len());
                }
                for (i, &b) in got.iter().enumerate() {
                    let s = i / ui;
                    if i >= bits.len() {
                        break;
                    }
                    if dark.get(s) == Some(&true) {
                        continue;
                    }
                    let flip = inverted && s * uo >= fa && (s + 1) * uo <= fe;
                    if flip {
                        if b == bits[i] {
                            vio!("bit", "{end}: bit {i} of an inverted symbol is {b}, sent {}", bits[i]);
                        }
                    } else if !touched[s * uo..(s + 1) * uo].iter().any(|&t| t) && b != bits[i] {
                        vio!("bit", "{end}: bit {i} is {b}, sent {} (its symbol is intact)", bits[i]);
                    }
                }
            }
        }
        Ok(())
    }
}
