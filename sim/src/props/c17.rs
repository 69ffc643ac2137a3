//! C17: Python calls return the library's results whatever calls came before.
use super::{Budget, Prop};
use crate::core::{guard, Caught, Ctx, Fail, R};
use crate::json::V;
use crate::procs::{aside, forked};
use crate::rng::Rng;
use crate::sched;
use crate::schemes::{gen, Carrier, Sc, C};
use numpy::{PyArray2, PyArrayMethods};
use pyo3::exceptions::{PyKeyboardInterrupt, PyMemoryError, PyValueError};
use pyo3::prelude::*;
use pyo3::types::{PyBool, PyCFunction, PyComplex, PyDict, PyFloat, PyList, PyTuple};
use std::collections::HashMap;
use std::f64::consts::PI;
use std::sync::{Arc, Mutex};

pub struct P;

/// A result, whatever its container.
#[derive(Clone, Debug, PartialEq)]
enum Val {
    Reals(Vec<f64>),
    Cplx(Vec<C>),
    Bits(Vec<bool>),
    Num(f64),
    Grid(usize, usize, Vec<C>),
}

/// What a call must give.
enum Want {
    Exactly(Val, f64),
    /// Cells that several source cells map to may hold any of them.
    Grid(usize, usize, Vec<Vec<C>>, f64),
    /// Random output: only type and length.
    Shape(usize, bool),
}

// ---- calls --------------------------------------------------------------------------------
const TX: &[(&str, &str)] = &[
    ("tx_baseband_bpsk", "bpsk_bb"), ("tx_bpsk", "bpsk"), ("tx_qpsk", "qpsk"), ("tx_cdma_bpsk", "cdma_bpsk"), ("tx_ofdm", "ofdm_qpsk"),
    ("tx_csk", "csk"), ("tx_dcsk", "dcsk"), ("tx_bfsk", "bfsk"), ("tx_fh_css", "fh_css"), ("tx_fh_ofdm_dcsk", "fhod2"),
];
const RX: &[(&str, &str)] = &[("rx_bpsk", "bpsk"), ("rx_qpsk", "qpsk"), ("rx_ofdm", "ofdm_qpsk")];
const NUM: &[&str] = &["energy_detector", "avg_energy", "chirp", "max_cut_detector_sxf", "dcs_detector_sxf"];
const SLOW: &[&str] = &["ssca", "max_cut_detector", "dcs_detector"];
const RANDOM: &[&str] = &["random_data", "awgn", "pure_awgn"];

fn kind_of(f: &str) -> Option<&'static str> {
    TX.iter().chain(RX).find(|x| x.0 == f).map(|x| x.1)
}
fn params(f: &str) -> &'static [&'static str] {
    match f {
        "tx_baseband_bpsk" => &["message"],
        "tx_bpsk" | "tx_qpsk" | "tx_cdma_bpsk" | "tx_fh_ofdm_dcsk" => &["message", "sample_rate", "symbol_rate", "carrier_freq"],
        "rx_bpsk" | "rx_qpsk" => &["signal", "sample_rate", "symbol_rate", "carrier_freq"],
        "tx_ofdm" => &["message", "subcarriers", "pilots", "sample_rate", "symbol_rate", "carrier_freq"],
        "rx_ofdm" => &["signal", "subcarriers", "pilots", "sample_rate", "symbol_rate", "carrier_freq"],
        "tx_csk" | "tx_dcsk" => &["message", "sample_rate", "symbol_rate"],
        "tx_bfsk" => &["message", "sample_rate", "symbol_rate", "freq_low", "freq_high"],
        "tx_fh_css" => &["message", "sample_rate", "symbol_rate", "freq_low", "freq_high", "num_freqs"],
        "random_data" => &["num_bits"],
        "awgn" => &["signal", "sigma"],
        "pure_awgn" => &["size", "sigma"],
        "chirp" => &["chirp_rate", "sample_rate", "f0", "f1"],
        "ssca" => &["s", "n", "np", "map_output"],
        "max_cut_detector_sxf" | "dcs_detector_sxf" => &["sxf"],
        _ => &["signal"],
    }
}
fn is_int_param(p: &str) -> bool {
    matches!(p, "sample_rate" | "symbol_rate" | "subcarriers" | "pilots" | "num_freqs" | "num_bits" | "size" | "n" | "np")
}
fn is_seq_param(p: &str) -> bool {
    matches!(p, "message" | "signal" | "s")
}

/// Scheme of a call, with the rates the Python functions take.
fn scheme(c: &V) -> R<Sc> {
    let sc = Sc::parse(c.get("sc"))?;
    need!(sc.sr >= 1 && sc.sps >= 1 && sc.fs() <= 1 << 40);
    Ok(sc)
}
fn message(c: &V) -> Vec<bool> {
    let mut r = Rng::new(c.get("seed").u64());
    (0..c.get("n").u()).map(|_| r.bit()).collect()
}
fn signal(c: &V) -> Vec<f64> {
    let mut r = Rng::new(c.get("seed").u64());
    let a = if c.has("amp") { c.get("amp").f() } else { 1.0 };
    (0..c.get("n").u()).map(|_| a * r.uf(-1.5, 1.5)).collect()
}
fn grid(c: &V) -> (usize, usize, Vec<C>) {
    let mut r = Rng::new(c.get("seed").u64());
    let (a, b) = (c.get("rows").u(), c.get("cols").u());
    (a, b, (0..a * b).map(|_| C::new(r.gauss(), r.gauss())).collect())
}
fn ssca_dims(c: &V) -> (usize, usize, bool) {
    match c.get("f").s() {
        "ssca" if c.has("snp") => (c.get("sn").u(), c.get("snp").u(), c.get("map").b()),
        "ssca" => (4096, 64, c.get("map").b()),
        _ => (4096, 64, false),
    }
}

/// Rate, sample rate and length of a chirp.
fn chirp_dims(c: &V) -> (f64, usize, usize) {
    let rate = c.get("rate").f();
    if c.has("fs") {
        let fs = c.get("fs").u();
        return (rate, fs, (fs as f64 / rate) as usize);
    }
    (rate, c.get("rate").u() * c.get("len").u(), c.get("len").u())
}
/// The same call with one number a little different.
fn nudge(r: &mut Rng, c: &mut V) {
    let by = |r: &mut Rng, v: f64| match r.below(4) {
        0 => v * (1.0 + 10f64.powf(r.uf(-6.0, -1.0))),
        1 => v * (1.0 - 10f64.powf(r.uf(-6.0, -1.0))),
        2 => v + *r.pick(&[0.001, 0.25, 1.0]),
        _ => v - *r.pick(&[0.001, 0.25, 1.0]),
    };
    let old = c.clone();
    if c.get("f").s() == "chirp" {
        match *r.pick(&["rate", "f0", "f1"]) {
            "rate" => {
                let (rate, fs, _) = chirp_dims(c);
                c.set("fs", fs);
                c.set("rate", by(r, rate));
            }
            f => c.set(f, by(r, old.get(f).f())),
        }
    } else if c.has("sc") {
        let mut sc = c.get("sc").clone();
        match *r.pick(&["fc", "lo", "hi", "nf", "pil"]) {
            f @ ("nf" | "pil") if sc.has(f) => sc.set(f, sc.get(f).u() + 1),
            f if sc.has(f) => sc.set(f, by(r, sc.get(f).f())),
            _ => {}
        }
        c.set("sc", sc);
        if !matches!(Sc::parse(c.get("sc")), Ok(s) if !s.is_ofdm() || !s.data_carriers().is_empty()) {
            *c = old.clone();
        }
    } else if c.has("amp") {
        let v = by(r, c.get("amp").f());
        c.set("amp", v);
    }
    if valid(c).is_err() {
        *c = old;
    }
}

fn valid(c: &V) -> R {
    let f = c.get("f").s();
    let n = c.get("n").u();
    need!(n <= 20_000);
    if let Some(k) = kind_of(f) {
        need!(c.get("sc").get("k").s() == k);
        let sc = scheme(c)?;
        need!(f == "tx_baseband_bpsk" || n / sc.unit_in().max(1) * sc.unit_out().max(1) <= 40_000 || RX.iter().any(|x| x.0 == f));
        if f == "tx_csk" || f == "tx_dcsk" {
            need!(n * sc.sps <= 40_000);
        }
    } else if f == "chirp" {
        let (rate, fs, len) = chirp_dims(c);
        need!(rate > 0.0 && rate < 1e9 && fs <= 1 << 40 && len >= 1 && len <= 5000);
        let q = fs as f64 / rate;
        need!(!c.has("fs") || (q - q.round()).abs() > 1e-6);
        need!(c.get("f0").f().abs() < 1e9 && c.get("f1").f().abs() < 1e9);
    } else if f == "ssca" || f == "max_cut_detector" || f == "dcs_detector" {
        let (a, b, _) = ssca_dims(c);
        need!(a.is_power_of_two() && b.is_power_of_two() && b >= 2 && a > b && a <= 4096);
        need!(bad(c).starts_with("short") || n >= a + b);
    } else if f.ends_with("_sxf") {
        need!(c.get("rows").u() >= 1 && c.get("cols").u() >= 1 && c.get("rows").u() * c.get("cols").u() <= 10_000);
    } else if NUM.contains(&f) {
        need!(n >= 1);
    } else {
        need!(RANDOM.contains(&f));
        need!(f == "random_data" || c.get("sigma").f() >= 0.0);
    }
    if c.has("re") {
        need!(!c.get("re").has("re"));
        valid(c.get("re"))?;
    }
    Ok(())
}
fn bad(c: &V) -> &str {
    c.get("bad").s()
}

// ---- oracles ------------------------------------------------------------------------------
fn fft(x: &mut Vec<C>) {
    let n = x.len();
    if n <= 1 {
        return;
    }
    let mut e: Vec<C> = x.iter().step_by(2).cloned().collect();
    let mut o: Vec<C> = x.iter().skip(1).step_by(2).cloned().collect();
    fft(&mut e);
    fft(&mut o);
    for k in 0..n / 2 {
        let t = C::from_polar(1.0, -2.0 * PI * k as f64 / n as f64) * o[k];
        x[k] = e[k] + t;
        x[k + n / 2] = e[k] - t;
    }
}
/// Strip spectral correlation analysis from its definition: n cycle rows by np frequency columns.
fn ssca(s: &[f64], n: usize, np: usize) -> (Vec<C>, f64) {
    let win = |l: usize| -> Vec<f64> { (0..l).map(|i| 0.54 - 0.46 * (2.0 * PI * i as f64 / l as f64).cos()).collect() };
    let (a, g) = (win(np), win(n));
    let mut cols: Vec<Vec<C>> = vec![vec![]; np];
    for i in 0..n {
        let mut x: Vec<C> = (0..np).map(|m| C::new(a[m] * s[i + m], 0.0)).collect();
        fft(&mut x);
        for (k, col) in cols.iter_mut().enumerate() {
            let xk = x[(k + np / 2) % np];
            let e = C::from_polar(1.0, -2.0 * PI * (((k as i64 - np as i64 / 2) * i as i64).rem_euclid(np as i64)) as f64 / np as f64);
            col.push(xk * e * s[np / 2 + i] * g[i]);
        }
    }
    let mut out = vec![C::new(0.0, 0.0); n * np];
    let mut scale = 0.0f64;
    for (k, mut col) in cols.into_iter().enumerate() {
        scale = scale.max(col.iter().map(|c| c.norm()).sum());
        fft(&mut col);
        for q in 0..n {
            out[q * np + k] = col[(q + n / 2) % n];
        }
    }
    (out, scale)
}
fn max_cut(x: &[C]) -> f64 {
    10.0 * x.iter().map(|c| c.norm_sqr()).fold(0.0, f64::max).log10()
}
fn dcs(x: &[C], cols: usize) -> f64 {
    let mut best = 0.0f64;
    for k in 0..cols {
        let top: f64 = x.iter().skip(k).step_by(cols).map(|c| c.norm_sqr()).sum();
        best = best.max(top / x[k].norm_sqr());
    }
    10.0 * best.log10()
}

/// The library's own result for a modem call, computed in a copy of the process made for it alone.
fn lib(ctx: &Ctx, c: &V) -> R<Val> {
    let sc = scheme(c)?;
    let f = c.get("f").s();
    let rx = f.starts_with("rx");
    let work = || -> Vec<u8> {
        let mut o = vec![];
        if rx {
            let x = signal(c);
            let got: Vec<bool> = sc.rx(Box::new(x.into_iter().map(|v| C::new(v, 0.0)))).collect();
            o.extend(got.iter().map(|&b| b as u8));
        } else {
            let sc = if f == "tx_cdma_bpsk" {
                let key = komunikilo::hadamard::HadamardMatrix::new(16).key(0).clone();
                Sc { key: Box::leak(key.into_boxed_slice()), ..sc.clone() }
            } else {
                sc.clone()
            };
            let rep = if f == "tx_csk" || f == "tx_dcsk" { sc.sps } else { 1 };
            for v in sc.tx(Box::new(message(c).into_iter())) {
                for _ in 0..rep {
                    o.extend(v.re.to_le_bytes());
                    o.extend(v.im.to_le_bytes());
                }
            }
        }
        o
    };
    let b = match aside(ctx, |_| match guard(work) {
        Ok(v) => [vec![0u8], v].concat(),
        Err(Caught::Panic(m)) => [vec![1u8], m.into_bytes()].concat(),
        Err(_) => vec![1u8],
    }) {
        Ok(b) => b,
        Err(e) => vio!("abort", "{f}: the library function alone: {e}"),
    };
    if b[0] != 0 {
        vio!("panic", "{f}: the library function panics: {}", String::from_utf8_lossy(&b[1..]));
    }
    if rx {
        return Ok(Val::Bits(b[1..].iter().map(|&x| x == 1).collect()));
    }
    let d: Vec<f64> = b[1..].chunks_exact(8).map(|x| f64::from_le_bytes(x.try_into().unwrap())).collect();
    let d: Vec<C> = d.chunks_exact(2).map(|x| C::new(x[0], x[1])).collect();
    Ok(if f == "tx_baseband_bpsk" { Val::Cplx(d) } else { Val::Reals(d.iter().map(|c| c.re).collect()) })
}

fn want(ctx: &Ctx, c: &V) -> R<Want> {
    let f = c.get("f").s();
    let n = c.get("n").u();
    Ok(match f {
        _ if kind_of(f).is_some() => {
            let v = lib(ctx, c)?;
            let sc = scheme(c)?;
            // the library against the waveform's closed form
            if let (true, Val::Reals(x)) = (sc.modelled() && !matches!(f, "tx_fh_css" | "tx_csk" | "tx_dcsk" | "tx_cdma_bpsk"), &v) {
                let m = sc.model(&message(c), None);
                if m.len() != x.len() || m.iter().zip(x).any(|(a, b)| (a.re - b).abs() > 1e-6 * (1.0 + a.norm())) {
                    vio!("library", "{f}: the library's waveform is not the scheme's");
                }
            }
            Want::Exactly(v, 1e-9)
        }
        "energy_detector" => Want::Exactly(Val::Num(10.0 * signal(c).iter().map(|x| x * x).sum::<f64>().log10()), 1e-9),
        "avg_energy" => Want::Exactly(Val::Num(signal(c).iter().map(|x| x * x).sum::<f64>() / n as f64), 1e-9),
        "chirp" => {
            let (rate, _, len) = chirp_dims(c);
            let fs = rate * len as f64;
            let (f0, f1) = (c.get("f0").f(), c.get("f1").f());
            let k = (f1 - f0) * rate;
            Want::Exactly(Val::Reals((0..len).map(|i| { let t = i as f64 / fs; (2.0 * PI * (f0 + k * t / 2.0) * t).cos() }).collect()), 1e-6)
        }
        "max_cut_detector_sxf" => Want::Exactly(Val::Num(max_cut(&grid(c).2)), 1e-9),
        "dcs_detector_sxf" => Want::Exactly(Val::Num(dcs(&grid(c).2, grid(c).1)), 1e-9),
        "ssca" | "max_cut_detector" | "dcs_detector" => {
            let (a, b, map) = ssca_dims(c);
            let (x, scale) = ssca(&signal(c), a, b);
            match f {
                "max_cut_detector" => Want::Exactly(Val::Num(max_cut(&x)), 1e-7),
                "dcs_detector" => Want::Exactly(Val::Num(dcs(&x, b)), 1e-4),
                _ if map => {
                    let (rows, cols) = (b + 1, 2 * a + 1);
                    let mut cells: Vec<Vec<C>> = vec![vec![]; rows * cols];
                    for q in 0..a {
                        for k in 0..b {
                            // np (k/(2np) - q/(2n) + 1/2) and n (k/np + q/n)
                            let row = (k * a + b * a - q * b) / (2 * a);
                            let col = k * a / b + q;
                            cells[row * cols + col].push(x[q * b + k]);
                        }
                    }
                    Want::Grid(rows, cols, cells, 1e-10 * scale)
                }
                _ => Want::Grid(a, b, x.into_iter().map(|v| vec![v]).collect(), 1e-10 * scale),
            }
        }
        "awgn" | "pure_awgn" if c.get("sigma").f() == 0.0 => Want::Exactly(Val::Reals(if f == "awgn" { signal(c) } else { vec![0.0; n] }), 0.0),
        _ => Want::Shape(n, f == "random_data"),
    })
}

fn check(c: &V, got: &Val, want: &Want) -> R {
    let f = c.get("f").s();
    let near = |a: f64, b: f64, tol: f64| (a - b).abs() <= tol * (1.0 + b.abs()) || a == b || (a.is_nan() && b.is_nan());
    match want {
        Want::Exactly(w, tol) => {
            let ok = match (got, w) {
                (Val::Reals(a), Val::Reals(b)) => {
                    if a.len() != b.len() {
                        vio!("length", "{f}: {} values, the library gives {}", a.len(), b.len());
                    }
                    if let Some(i) = (0..a.len()).find(|&i| !near(a[i], b[i], *tol)) {
                        vio!("value", "{f}: value {i} is {:e}, the library gives {:e}", a[i], b[i]);
                    }
                    true
                }
                (Val::Cplx(a), Val::Cplx(b)) => {
                    if a.len() != b.len() {
                        vio!("length", "{f}: {} values, the library gives {}", a.len(), b.len());
                    }
                    if let Some(i) = (0..a.len()).find(|&i| !near(a[i].re, b[i].re, *tol) || !near(a[i].im, b[i].im, *tol)) {
                        vio!("value", "{f}: value {i} is {}, the library gives {}", a[i], b[i]);
                    }
                    true
                }
                (Val::Bits(a), Val::Bits(b)) => {
                    if a.len() != b.len() {
                        vio!("length", "{f}: {} bits, the library gives {}", a.len(), b.len());
                    }
                    if let Some(i) = (0..a.len()).find(|&i| a[i] != b[i]) {
                        vio!("value", "{f}: bit {i} is {}, the library gives {}", a[i], b[i]);
                    }
                    true
                }
                // An empty list has no element type.
                (Val::Reals(a), Val::Bits(b)) => a.is_empty() && b.is_empty(),
                (Val::Reals(a), Val::Cplx(b)) => a.is_empty() && b.is_empty(),
                (Val::Num(a), Val::Num(b)) => {
                    if !near(*a, *b, *tol) {
                        vio!("value", "{f}: {a}, by definition {b}");
                    }
                    true
                }
                _ => false,
            };
            if !ok {
                vio!("type", "{f}: result of the wrong type");
            }
        }
        Want::Grid(r, k, cells, tol) => match got {
            Val::Grid(a, b, x) => {
                if (a, b) != (r, k) {
                    vio!("length", "{f}: a {a} by {b} array, expected {r} by {k}");
                }
                for (i, v) in x.iter().enumerate() {
                    let ok = if cells[i].is_empty() { v.norm() <= *tol } else { cells[i].iter().any(|w| (w - v).norm() <= *tol) };
                    if !ok {
                        vio!("value", "{f}: cell ({}, {}) is {v}, by definition {:?}", i / k, i % k, cells[i].iter().map(|c| c.to_string()).collect::<Vec<_>>());
                    }
                }
            }
            _ => vio!("type", "{f}: result of the wrong type"),
        },
        Want::Shape(n, bits) => {
            let l = match (got, bits) {
                (Val::Bits(v), true) => v.len(),
                (Val::Reals(v), false) => {
                    if let Some(i) = v.iter().position(|x| !x.is_finite()) {
                        vio!("value", "{f}: value {i} is {}", v[i]);
                    }
                    v.len()
                }
                (Val::Reals(v), true) if v.is_empty() => 0,
                _ => vio!("type", "{f}: result of the wrong type"),
            };
            if l != *n {
                vio!("length", "{f}: {l} values, {n} requested");
            }
        }
    }
    Ok(())
}

// ---- the interpreter ----------------------------------------------------------------------
const CLASSES: &str = r#"
class Seq:
    def __init__(self, items, hook):
        self.items = items
        self.hook = hook
    def __len__(self):
        return len(self.items)
    def __getitem__(self, i):
        if i >= len(self.items):
            raise IndexError(i)
        self.hook(i)
        return self.items[i]
def run(f, args, kw):
    try:
        return True, f(*args, **kw)
    except BaseException as e:
        return False, type(e).__name__ + ': ' + str(e)
"#;

struct Sess {
    ctx: Ctx,
    /// Reference results by call text.
    refs: HashMap<String, Want>,
    fail: Mutex<Option<Fail>>,
    kept: Mutex<Vec<(V, Py<PyAny>, Val)>>,
}

fn read(f: &str, r: &Bound<'_, PyAny>) -> Result<Val, Fail> {
    let typ = |r: &Bound<'_, PyAny>| r.get_type().name().map(|s| s.to_string()).unwrap_or_default();
    let bad = |w: &str| Fail::Violation { class: "type".into(), msg: format!("{f}: {w}") };
    if r.is_exact_instance_of::<PyFloat>() {
        return Ok(Val::Num(r.extract().unwrap()));
    }
    let r = if r.hasattr("tolist").unwrap_or(false) {
        let nd: usize = r.getattr("ndim").and_then(|x| x.extract()).unwrap_or(1);
        let l = r.call_method0("tolist").map_err(|e| bad(&format!("{e}")))?;
        if nd == 2 {
            let (a, b): (usize, usize) = r.getattr("shape").and_then(|s| s.extract()).map_err(|e| bad(&format!("{e}")))?;
            let rows: Vec<Vec<C>> = l.extract().map_err(|e| bad(&format!("{e}")))?;
            if r.getattr("dtype").and_then(|d| d.getattr("kind")).and_then(|k| k.extract::<String>()).map(|k| k != "c").unwrap_or(true) {
                return Err(bad("array of something other than complex numbers"));
            }
            return Ok(Val::Grid(a, b, rows.concat()));
        }
        l
    } else {
        r.clone()
    };
    let l = r.downcast::<PyList>().map_err(|_| bad(&format!("a {} instead of a list, array or number", typ(&r))))?;
    if l.is_empty() {
        return Ok(Val::Reals(vec![]));
    }
    let first = l.get_item(0).unwrap();
    let all = |p: &dyn Fn(&Bound<'_, PyAny>) -> bool| l.iter().find(|x| !p(x)).map(|x| typ(&x));
    let (v, odd) = if first.is_exact_instance_of::<PyBool>() {
        (l.extract().map(Val::Bits), all(&|x| x.is_exact_instance_of::<PyBool>()))
    } else if first.is_exact_instance_of::<PyComplex>() {
        (l.extract().map(Val::Cplx), all(&|x| x.is_exact_instance_of::<PyComplex>()))
    } else {
        (l.extract().map(Val::Reals), all(&|x| x.is_exact_instance_of::<PyFloat>()))
    };
    if let Some(t) = odd {
        return Err(bad(&format!("a list holding a {t}")));
    }
    v.map_err(|e| bad(&format!("{e}")))
}

fn py_seq<'py>(py: Python<'py>, s: &Arc<Sess>, c: &V, items: Bound<'py, PyList>) -> PyResult<Bound<'py, PyAny>> {
    let f = c.get("f").s();
    let how = c.get("as").s();
    let b = bad(c);
    if let Some(j) = b.strip_prefix("elem:") {
        let j = j.parse::<usize>().unwrap_or(0).min(items.len().saturating_sub(1));
        items.set_item(j, "x")?;
        return Ok(items.into_any());
    }
    if how == "seq" || b.starts_with("raise:") || c.has("re") {
        let raise = b.strip_prefix("raise:").and_then(|j| j.parse::<usize>().ok()).map(|j| j.min(items.len().saturating_sub(1)));
        let every = c.get("yield").u();
        let re = if c.has("re") { Some(c.get("re").clone()) } else { None };
        let at = c.get("re_at").u().min(items.len().saturating_sub(1));
        let kind = c.get("seed").u64() % 3;
        let s2 = s.clone();
        let hook = PyCFunction::new_closure_bound(py, None, None, move |args: &Bound<'_, PyTuple>, _kw: Option<&Bound<'_, PyDict>>| -> PyResult<()> {
            let py = args.py();
            let i: usize = args.get_item(0)?.extract()?;
            if every > 0 && i % every == 0 {
                py.allow_threads(sched::step_here);
            }
            if i == at {
                if let Some(re) = &re {
                    if let Err(f) = call(py, &s2, re) {
                        s2.fail.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(f);
                    }
                    s2.ctx.fault("nested_call", i as u64);
                }
            }
            if raise == Some(i) {
                return Err(match kind {
                    0 => PyValueError::new_err("simulated"),
                    1 => PyKeyboardInterrupt::new_err("simulated"),
                    _ => PyMemoryError::new_err("simulated"),
                });
            }
            Ok(())
        })?;
        let m = py.import_bound("ksim_session")?;
        return m.getattr("Seq")?.call1((items, hook));
    }
    match how {
        "tuple" => Ok(PyTuple::new_bound(py, items.iter()).into_any()),
        "np" => {
            let np = py.import_bound("numpy")?;
            let kw = PyDict::new_bound(py);
            kw.set_item("dtype", if f.starts_with("tx") { "bool" } else { "float64" })?;
            np.getattr("array")?.call((items,), Some(&kw))
        }
        _ => Ok(items.into_any()),
    }
}

fn args<'py>(py: Python<'py>, s: &Arc<Sess>, c: &V) -> PyResult<Vec<(&'static str, Bound<'py, PyAny>)>> {
    let f = c.get("f").s();
    let sc = if kind_of(f).is_some() { Sc::parse(c.get("sc")).ok() } else { None };
    let b = bad(c);
    let mut out: Vec<(&'static str, Bound<'py, PyAny>)> = vec![];
    for &p in params(f) {
        let int = |v: usize| v.to_object(py).into_bound(py);
        let fl = |v: f64| v.to_object(py).into_bound(py);
        let v = match p {
            "message" => py_seq(py, s, c, PyList::new_bound(py, message(c)))?,
            "signal" | "s" => py_seq(py, s, c, PyList::new_bound(py, signal(c)))?,
            "sample_rate" if f == "chirp" => int(chirp_dims(c).1),
            "sample_rate" => int(sc.as_ref().unwrap().fs() + if b == "assert:ratio" { 1 } else { 0 }),
            "symbol_rate" => int(if b == "assert:zero" { 0 } else { sc.as_ref().unwrap().sr }),
            "carrier_freq" => fl(if b == "assert:fc" { sc.as_ref().unwrap().fs() as f64 } else { sc.as_ref().unwrap().fc }),
            "freq_low" => fl(sc.as_ref().unwrap().lo),
            "freq_high" => fl(if b == "assert:fc" { sc.as_ref().unwrap().fs() as f64 } else { sc.as_ref().unwrap().hi }),
            "num_freqs" => int(sc.as_ref().unwrap().nf),
            "subcarriers" => int(sc.as_ref().unwrap().sub),
            "pilots" => int(sc.as_ref().unwrap().pil),
            "num_bits" | "size" => int(c.get("n").u()),
            "sigma" => fl(match b { "assert:nan" => f64::NAN, "assert:inf" => f64::INFINITY, _ => c.get("sigma").f() }),
            "chirp_rate" => fl(c.get("rate").f()),
            "f0" => fl(c.get("f0").f()),
            "f1" => fl(c.get("f1").f()),
            "n" | "np" if !c.has("snp") => continue,
            "n" => int(if b == "assert:dims" { c.get("snp").u() } else { c.get("sn").u() }),
            "np" => int(c.get("snp").u()),
            "map_output" if !c.get("map").b() && c.get("seed").u64() % 2 == 0 => continue,
            "map_output" => c.get("map").b().to_object(py).into_bound(py),
            "sxf" => {
                let (a, k, x) = grid(c);
                let np = py.import_bound("numpy")?;
                let lay = c.get("as").s();
                let flat = np.getattr("array")?.call1((PyList::new_bound(py, x.iter().map(|v| PyComplex::from_complex_bound(py, *v))),))?;
                let base = flat.call_method1("reshape", (a, k))?;
                match (b, lay) {
                    ("assert:dtype", _) => base.getattr("real")?.call_method0("copy")?,
                    ("assert:ndim", _) => flat,
                    (_, "fortran") => np.call_method1("asfortranarray", (base,))?,
                    (_, "strided") => {
                        // every second column of a wider array
                        let big = np.call_method1("repeat", (base, 2, 1))?;
                        let sl = py.eval_bound("(slice(None), slice(None, None, 2))", None, None)?;
                        big.get_item(sl)?
                    }
                    (_, "reversed") => {
                        let sl = py.eval_bound("(slice(None, None, -1), slice(None, None, -1))", None, None)?;
                        base.get_item(&sl)?.call_method0("copy")?.get_item(&sl)?
                    }
                    _ => base,
                }
            }
            _ => unreachable!(),
        };
        out.push((p, v));
    }
    let idx = |s: &str| s.parse::<usize>().unwrap_or(0);
    if let Some(i) = b.strip_prefix("type:") {
        let i = idx(i) % out.len();
        out[i].1 = if c.get("seed").u64() % 2 == 0 { py.None().into_bound(py) } else { "abc".to_object(py).into_bound(py) };
    }
    if b.starts_with("neg:") || b.starts_with("frac:") {
        let ints: Vec<usize> = (0..out.len()).filter(|&i| is_int_param(out[i].0)).collect();
        if !ints.is_empty() {
            let i = ints[idx(&b[b.find(':').unwrap() + 1..]) % ints.len()];
            out[i].1 = if b.starts_with("neg") { (-3i64).to_object(py).into_bound(py) } else { 1000.5f64.to_object(py).into_bound(py) };
        }
    }
    Ok(out)
}

thread_local! {
    /// The standard output is full on this (then only) session thread.
    static FULL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Makes one call in the interpreter and judges it.
fn call(py: Python<'_>, s: &Arc<Sess>, c: &V) -> R {
    let f = c.get("f").s();
    let b = bad(c);
    let harness = |e: PyErr| Fail::Violation { class: "harness".into(), msg: format!("{f}: building the arguments: {e}") };
    let m = py.import_bound("komunikilo").map_err(harness)?;
    let fun = match m.getattr(f) {
        Ok(x) => x,
        Err(e) => vio!("missing", "{f} is not in the module: {e}"),
    };
    let mut a = args(py, s, c).map_err(harness)?;
    if b == "missing" {
        a.remove(0);
        if a.is_empty() || c.get("kw").b() {
            // nothing left, or keywords: the first one stays missing
        } else {
            // shifting positions would only be another wrong call: pass the rest by name
        }
    }
    if b == "extra" {
        a.push(("nonsense", 1.to_object(py).into_bound(py)));
    }
    let by_name = c.get("kw").b() || b == "missing" || b == "extra" || (f == "ssca" && a.len() < 4);
    let kw = PyDict::new_bound(py);
    let mut pos = vec![];
    for (i, (n, v)) in a.iter().enumerate() {
        if by_name && (i > 0 || b == "missing") {
            kw.set_item(n, v).map_err(harness)?;
        } else {
            pos.push(v.clone());
        }
    }
    let pos = PyTuple::new_bound(py, pos);
    let refs: Vec<isize> = a.iter().map(|x| x.1.get_refcnt()).collect();
    // the standard output is full while this call runs
    let full = c.get("stdout").s() == "full";
    let saved = if full {
        s.ctx.fault("stdout_full", 0);
        unsafe {
            let sv = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 20);
            let fd = libc::open(c"/dev/full".as_ptr(), libc::O_WRONLY);
            libc::dup2(fd, 1);
            libc::close(fd);
            sv
        }
    } else {
        -1
    };
    // a call made while an enclosing call has filled the standard output meets it full as well
    let outer = FULL.get();
    let full_here = outer || full;
    FULL.set(full_here);
    let session = py.import_bound("ksim_session").map_err(harness)?;
    let r = session.getattr("run").and_then(|run| run.call1((fun, &pos, &kw)));
    let r: Result<Bound<'_, PyAny>, String> = match r.and_then(|r| Ok((r.get_item(0)?.extract::<bool>()?, r.get_item(1)?))) {
        Ok((true, v)) => Ok(v),
        Ok((false, e)) => Err(e.to_string()),
        Err(e) => vio!("interpreter", "{f}: the exception could not be caught in Python: {e}"),
    };
    FULL.set(outer);
    if full {
        unsafe {
            libc::dup2(saved, 1);
            libc::close(saved);
        }
    }
    if let Some(e) = PyErr::take(py) {
        vio!("interpreter", "{f}: an exception is still set after the call: {e}");
    }
    let out = match (r, b) {
        (Ok(_), b) if !b.is_empty() => vio!("accepted", "{f} with a wrong argument ({b}) returned normally"),
        (Err(e), b) if !b.is_empty() => {
            s.ctx.fault(if b.starts_with("raise") { "failing_argument" } else { "rejected_call" }, b.len() as u64);
            s.ctx.log(1);
            drop(e);
            Ok(())
        }
        (Err(e), _) if full_here => {
            s.ctx.probe("call_failed_with_stdout");
            drop(e);
            Ok(())
        }
        (Err(e), _) => vio!("raised", "{f} raised {e} for valid arguments ({})", short(c)),
        (Ok(r), _) => {
            let v = read(f, &r)?;
            match &v {
                Val::Reals(x) => s.ctx.logs(x.iter().map(|x| x.to_bits())),
                Val::Cplx(x) | Val::Grid(_, _, x) => s.ctx.logf(x),
                Val::Bits(x) => s.ctx.logb(x),
                Val::Num(x) => s.ctx.log(x.to_bits()),
            }
            match s.refs.get(&key(c)) {
                Some(w) => check(c, &v, w).map_err(|e| match e {
                    Fail::Violation { class, msg } => Fail::Violation { class, msg: format!("{msg} ({})", short(c)) },
                    e => e,
                })?,
                None => vio!("harness", "{f}: no reference"),
            }
            let mut k = s.kept.lock().unwrap_or_else(|e| e.into_inner());
            if k.len() < 40 {
                k.push((c.clone(), r.unbind(), v));
            }
            Ok(())
        }
    };
    // the arguments are not kept
    for ((n, x), &before) in a.iter().zip(&refs) {
        let now = x.get_refcnt();
        if now != before && !x.is_none() && !x.is_instance_of::<pyo3::types::PyInt>() && !x.is_instance_of::<pyo3::types::PyString>() && !x.is_instance_of::<PyBool>() {
            vio!("interpreter", "{f}: argument {n} has {now} references after the call, {before} before ({b})");
        }
        if let Ok(arr) = x.downcast::<PyArray2<C>>() {
            if f.ends_with("_sxf") && arr.try_readwrite().is_err() {
                vio!("interpreter", "{f}: its array is still borrowed after the call ({b})");
            }
        }
    }
    out
}

fn key(c: &V) -> String {
    let mut k = c.clone();
    for f in ["as", "re", "re_at", "yield", "kw", "stdout", "bad"] {
        k.set(f, V::Null);
    }
    k.dump()
}
fn short(c: &V) -> String {
    c.dump().chars().take(300).collect()
}

/// A Python thread making calls one after another.
fn thread(s: &Arc<Sess>, calls: &[V]) -> R {
    for c in calls {
        Python::with_gil(|py| call(py, s, c))?;
        if let Some(f) = s.fail.lock().unwrap_or_else(|e| e.into_inner()).take() {
            return Err(f);
        }
        s.ctx.items(1);
        sched::step_here();
    }
    Ok(())
}

fn each<'a>(calls: &'a [V], out: &mut Vec<&'a V>) {
    for c in calls {
        if c.has("fork") {
            each(c.get("fork").a(), out);
        } else {
            out.push(c);
            if c.has("re") {
                out.push(c.get("re"));
            }
        }
    }
}

// ---- generation ---------------------------------------------------------------------------
fn gen_call(r: &mut Rng, nested: bool, slow: bool) -> V {
    let f: &str = match r.below(20) {
        0..=9 => r.pick(TX).0,
        10..=12 => r.pick(RX).0,
        13..=15 => r.pick(NUM),
        16 if slow => r.pick(SLOW),
        16..=17 => "ssca",
        _ => r.pick(RANDOM),
    };
    let mut c = obj! {"f" => f, "seed" => r.below(1 << 40)};
    let mut bads: Vec<String> = vec!["missing".into(), "extra".into(), format!("type:{}", r.us(0, 5))];
    if params(f).iter().any(|p| is_int_param(p)) && f != "ssca" {
        bads.push(format!("neg:{}", r.us(0, 5)));
        bads.push(format!("frac:{}", r.us(0, 5)));
    }
    if let Some(k) = kind_of(f) {
        let carrier = if f == "rx_qpsk" || f == "rx_ofdm" { Carrier::Quad } else { Carrier::Any };
        let mut scv = loop {
            let v = gen(r, k, carrier);
            match Sc::parse(&v) {
                Ok(sc) if !sc.is_ofdm() || !sc.data_carriers().is_empty() => break v,
                _ => {}
            }
        };
        if !scv.has("sr") || f == "tx_csk" || f == "tx_dcsk" || f == "tx_baseband_bpsk" {
            scv.set("sr", r.logus(1, 5000));
            scv.set("sps", r.logus(1, 30));
        }
        if f == "tx_cdma_bpsk" {
            let (sr, spc) = (scv.get("sr").u().min(100_000), r.us(2, 6));
            scv.set("sr", sr);
            scv.set("sps", 16 * spc);
            scv.set("key", "0101010101010101");
            scv.set("fc", r.uf(0.0, (sr * 16 * spc / 2) as f64));
        }
        let sc = Sc::parse(&scv).expect("generator");
        let (ui, uo) = (sc.unit_in().max(1), sc.unit_out().max(1));
        let tx = f.starts_with("tx");
        let n = if tx { (r.logus(1, 300) + ui - 1).min((3000 / uo.max(sc.sps)).max(1) * ui) } else { r.logus(1, 2000) };
        c.set("n", if r.chance(0.05) { 0 } else { n });
        if sc.sr > 1 && f != "rx_bpsk" && f != "rx_qpsk" && f != "tx_qpsk" && f != "tx_baseband_bpsk" && sc.fs() < 1 << 30 {
            bads.push("assert:ratio".into());
        }
        if f != "tx_baseband_bpsk" {
            bads.push("assert:zero".into());
        }
        if matches!(f, "tx_bpsk" | "tx_cdma_bpsk" | "tx_fh_ofdm_dcsk" | "tx_bfsk" | "tx_fh_css") && sc.fs() >= 4 {
            bads.push("assert:fc".into());
        }
        c.set("sc", scv);
    } else {
        match f {
            "chirp" => {
                let (rate, len) = (r.logus(1, 500), r.logus(1, 600));
                let top = (rate * len) as f64 / 2.0;
                c.set("rate", rate);
                c.set("len", len);
                c.set("f0", r.uf(0.0, top));
                c.set("f1", r.uf(0.0, top));
            }
            "ssca" | "max_cut_detector" | "dcs_detector" => {
                let (mut n, mut np) = (4096, 64);
                if f == "ssca" && !slow {
                    np = 1 << r.us(1, 4);
                    n = np << r.us(1, 4);
                    c.set("sn", n);
                    c.set("snp", np);
                    bads.push("assert:dims".into());
                }
                if f == "ssca" {
                    c.set("map", r.bit());
                }
                bads.push("short".into());
                bads.push("short".into());
                c.set("n", n + np + if r.bit() { 0 } else { r.us(0, 50) });
            }
            "max_cut_detector_sxf" | "dcs_detector_sxf" => {
                c.set("rows", r.logus(1, 40));
                c.set("cols", r.logus(1, 40));
                bads.push("assert:dtype".into());
                bads.push("assert:ndim".into());
            }
            _ => {
                c.set("n", r.logus(1, 2000));
                c.set("amp", 10f64.powf(r.uf(-3.0, 3.0)));
                if f == "awgn" || f == "pure_awgn" {
                    c.set("sigma", *r.pick(&[0.0, 1.0, 0.3]));
                    bads.push("assert:nan".into());
                    bads.push("assert:inf".into());
                }
            }
        }
    }
    let has_seq = params(f).iter().any(|p| is_seq_param(p));
    if f.ends_with("_sxf") {
        c.set("as", *r.pick(&["c", "fortran", "strided", "reversed"]));
    }
    if has_seq && c.get("n").u() > 0 {
        c.set("as", *r.pick(&["list", "list", "tuple", "np", "seq", "seq"]));
        bads.push(format!("elem:{}", r.us(0, c.get("n").u())));
        bads.push(format!("raise:{}", r.us(0, c.get("n").u())));
        if c.get("as").s() == "seq" {
            c.set("yield", r.logus(1, 50));
            if !nested && r.chance(0.4) {
                c.set("re", gen_call(r, true, false));
                c.set("re_at", r.us(0, c.get("n").u()));
            }
        }
    }
    c.set("kw", r.chance(0.25));
    if r.chance(0.3) {
        let b = r.pick(&bads).clone();
        if b == "short" {
            let (n, np, _) = ssca_dims(&c);
            c.set("n", r.us(0, n + np - 2));
        }
        c.set("bad", b);
    }
    if f == "tx_fh_ofdm_dcsk" && r.chance(0.3) {
        c.set("stdout", "full");
    }
    c
}

impl Prop for P {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn budget(&self) -> Budget {
        Budget { quick: 12_000, thorough: 80_000, batch: 100 }
    }
    fn python(&self) -> bool {
        true
    }
    fn rule(&self) -> &'static str {
        "a session of Python calls over every exported function on one to three Python threads under the seeded scheduler: lists, tuples, arrays and custom sequences that yield to other threads, call back into the module or raise part-way; rejected arguments, library panics, a full standard output and forked children; every result compared with the library alone or the definition, and looked at again at the end; non-trivial: a call was rejected, failed, nested or interleaved"
    }
    fn components(&self) -> Vec<(&'static str, &'static str)> {
        vec![
            ("komunikilo Python module, pyo3, CPython, numpy", "real, embedded"),
            ("thread schedule, entropy, clock, argument sequences, standard output", "simulated"),
            ("library reference", "real code, each call in a process of its own"),
            ("detector and SSCA reference", "their definitions"),
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["results fit in memory", "Python threads alternate where Python code runs (between calls and inside argument sequences): the module never releases the interpreter lock inside a call"]
    }
    fn gen(&self, r: &mut Rng, k: u64, _th: bool) -> V {
        let nt = match r.below(4) { 0 | 1 => 1, 2 => 2, _ => 3 };
        let slow = k % 25 == 0;
        let threads: Vec<V> = (0..nt)
            .map(|t| {
                let m = r.us(2, if nt == 1 { 12 } else { 6 });
                let mut calls: Vec<V> = vec![];
                for i in 0..m {
                    // often the same call again, or with one parameter changed
                    let mut c = if !calls.is_empty() && r.chance(0.3) {
                        let mut c: V = calls[r.us(0, calls.len() - 1)].clone();
                        if !c.has("fork") && r.bit() && !c.get("bad").s().starts_with("short") {
                            c.set("bad", V::Null);
                        }
                        if !c.has("fork") && r.chance(0.4) {
                            nudge(r, &mut c);
                        }
                        if !c.has("fork") && r.bit() {
                            c.set("seed", r.below(1 << 40));
                        }
                        c
                    } else {
                        gen_call(r, false, slow && i == 0 && t == 0)
                    };
                    if nt > 1 {
                        c.set("stdout", V::Null);
                    } else if r.chance(0.06) && !c.has("fork") {
                        c = obj! {"fork" => (0..r.us(1, 3)).map(|_| gen_call(r, false, false)).collect::<Vec<_>>()};
                    }
                    calls.push(c);
                }
                V::Arr(calls)
            })
            .collect();
        obj! {"threads" => threads, "sched" => obj!{"seed" => r.below(1 << 50), "burst" => *r.pick(&[0.0, 1.0, 5.0, 40.0])}}
    }
    fn run(&self, plan: &V, ctx: &Ctx) -> R {
        if plan.get("threads").a().iter().any(|t| t.a().iter().any(|c| c.has("fork"))) {
            crate::procs::in_copy(ctx, |c| session(plan, c))
        } else {
            session(plan, ctx)
        }
    }
}

fn session(plan: &V, ctx: &Ctx) -> R {
        let ts = plan.get("threads").a();
        need!(!ts.is_empty() && ts.len() <= 6);
        let mut all = vec![];
        for t in ts {
            need!(t.a().len() <= 40);
            need!(ts.len() == 1 || t.a().iter().all(|c| !c.has("fork") && c.get("stdout").s().is_empty()));
            each(t.a(), &mut all);
        }
        let mut refs = HashMap::new();
        for c in all {
            valid(c)?;
            if bad(c).is_empty() && !refs.contains_key(&key(c)) {
                refs.insert(key(c), want(ctx, c)?);
            }
        }
        Python::with_gil(|py| {
            if py.import_bound("ksim_session").is_err() {
                pyo3::types::PyModule::from_code_bound(py, CLASSES, "ksim_session.py", "ksim_session").expect("session module");
            }
        });
        let s = Arc::new(Sess { ctx: ctx.clone(), refs, fail: Mutex::new(None), kept: Mutex::new(vec![]) });
        let out: Arc<Mutex<Vec<R>>> = Arc::new(Mutex::new(vec![]));
        if ts.len() == 1 {
            let mut kids = 1;
            for c in ts[0].a() {
                if c.has("fork") {
                    kids += 1;
                    ctx.fault("fork", kids);
                    let calls = c.get("fork").a();
                    let r = forked(ctx, kids, |_| match thread(&s, calls).and_then(|_| recheck(&s)) {
                        Ok(()) => vec![0],
                        Err(Fail::Violation { class, msg }) => format!("\x01{class}\0{msg}").into_bytes(),
                        Err(Fail::Invalid(m)) => format!("\x02{m}").into_bytes(),
                    });
                    match r {
                        Ok(b) if b == [0] => {}
                        Ok(b) if b[0] == 1 => {
                            let t = String::from_utf8_lossy(&b[1..]).to_string();
                            let (class, m) = t.split_once('\0').unwrap_or(("panic", &t));
                            vio!(class, "in a forked child: {m}");
                        }
                        Ok(b) => invalid!("{}", String::from_utf8_lossy(&b)),
                        Err(e) => vio!("abort", "forked child making calls: {e}"),
                    }
                } else {
                    thread(&s, std::slice::from_ref(c))?;
                }
            }
        } else {
            let mut tasks: Vec<sched::Task> = vec![];
            for t in ts {
                let (s, out, calls) = (s.clone(), out.clone(), t.a().to_vec());
                tasks.push(Box::new(move |_| {
                    let r = thread(&s, &calls);
                    out.lock().unwrap_or_else(|e| e.into_inner()).push(r);
                }));
            }
            ctx.fault("python_threads", ts.len() as u64);
            let o = sched::run(ctx, plan.get("sched"), 1_000_000, tasks);
            for p in o.panics.iter().flatten() {
                vio!("panic", "Python thread: {p}");
            }
            if let Some(d) = o.dead {
                vio!("stuck", "{d}");
            }
            for r in std::mem::take(&mut *out.lock().unwrap_or_else(|e| e.into_inner())) {
                r?;
            }
        }
        ctx.time(plan.get("threads").a().len() as f64 * 1e-3);
        recheck(&s)
}

/// Results handed out earlier must not have changed, and the interpreter must still work.
fn recheck(s: &Arc<Sess>) -> R {
    let kept = std::mem::take(&mut *s.kept.lock().unwrap_or_else(|e| e.into_inner()));
    Python::with_gil(|py| {
        for (c, o, v) in &kept {
            let f = c.get("f").s();
            let now = read(f, o.bind(py))?;
            if format!("{now:?}") != format!("{v:?}") {
                vio!("changed", "{f}: its result changed after later calls ({})", short(c));
            }
        }
        drop(kept);
        match py.eval_bound("sum(x * x for x in range(10))", None, None).and_then(|x| x.extract::<i64>()) {
            Ok(285) => Ok(()),
            r => vio!("interpreter", "the interpreter is harmed: {r:?}"),
        }
    })
}
