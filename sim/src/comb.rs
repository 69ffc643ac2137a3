//! The stream combinators under test behind one interface, with their list definitions.
use crate::core::R;
use crate::env::{Forward, Strm};
use crate::json::V;
use crate::rng::Rng;
use komunikilo::iter::Iter;

pub type Fs = Box<dyn Strm<Item = f64>>;
pub type Vs = Box<dyn Strm<Item = Vec<f64>>>;

pub const COMBS: &[&str] = &["chunks", "wchunks", "inflate", "integrate", "nintegrate", "dump", "ndump", "scale", "take", "conv", "nonv"];

#[derive(Clone, Debug)]
pub struct Cb {
    pub k: String,
    pub n: usize,
    pub filt: Vec<f64>,
    pub a: f64,
}
fn fan(x: f64) -> [f64; 3] {
    [x, 1.0 - 0.5 * x, -3.0 * x]
}

impl Cb {
    pub fn parse(v: &V) -> R<Cb> {
        let c = Cb { k: v.get("k").s().to_string(), n: v.get("n").u(), filt: v.get("filt").a().iter().map(|x| x.f()).collect(), a: v.get("a").f() };
        need!(COMBS.contains(&c.k.as_str()));
        need!(c.n <= 1 << 20);
        if c.k == "conv" || c.k == "nonv" {
            need!(!c.filt.is_empty());
        } else if c.k != "inflate" {
            need!(c.n >= 1);
        }
        Ok(c)
    }
    pub fn gen(r: &mut Rng, k: &str, maxn: usize) -> V {
        let mut v = obj! {"k" => k};
        match k {
            "conv" | "nonv" => {
                let l = match r.below(4) {
                    0 => 1,
                    1 => r.us(2, 3),
                    _ => r.logus(1, maxn.min(60)),
                };
                v.set("filt", (0..l).map(|_| (r.uf(-4.0, 4.0) * 8.0).round() / 8.0).collect::<Vec<f64>>());
            }
            "scale" => {
                v.set("a", match r.below(5) { 0 => 0.0, 1 => -1.0, _ => r.uf(-10.0, 10.0) });
                v.set("n", 1);
            }
            "inflate" => v.set("n", match r.below(6) { 0 => 0, 1 => 1, _ => r.logus(1, maxn) }),
            _ => v.set("n", match r.below(6) { 0 => 1, 1 => 2, _ => r.logus(1, maxn) }),
        }
        v
    }
    /// (items in, outputs out) of one unit.
    pub fn units(&self) -> (usize, usize) {
        match self.k.as_str() {
            "chunks" | "wchunks" | "dump" | "ndump" | "take" => (self.n, 1),
            "inflate" => (1, self.n.max(1)),
            _ => (1, 1),
        }
    }
    pub fn build(&self, s: Fs) -> Vs {
        let n = self.n;
        match self.k.as_str() {
            "chunks" => Box::new(s.chunks(n)),
            "wchunks" => Box::new(s.wchunks(n)),
            "inflate" => Box::new(s.inflate(n).fwd(|x| vec![x])),
            "integrate" => Box::new(s.integrate().fwd(|x| vec![x])),
            "nintegrate" => Box::new(s.map(fan).nintegrate().fwd(|x| x.to_vec())),
            "dump" => Box::new(s.integrate_and_dump(n).fwd(|x| vec![x])),
            "ndump" => Box::new(s.map(fan).nintegrate_and_dump(n).fwd(|x| x.to_vec())),
            "scale" => Box::new(s.scale(self.a).fwd(|x| vec![x])),
            "take" => Box::new(s.take_every(n).fwd(|x| vec![x])),
            "conv" => Box::new(s.convolve(self.filt.clone()).fwd(|x| vec![x])),
            "nonv" => Box::new(s.map(fan).nonvolve(self.filt.clone()).fwd(|x| x.to_vec())),
            k => panic!("harness: combinator {k}"),
        }
    }
    /// Outputs for the items `x`; with `end`, followed by the end of the source.
    pub fn model(&self, x: &[f64], end: bool) -> Vec<Vec<f64>> {
        let n = self.n;
        let sum = |v: &[f64]| v.iter().sum::<f64>();
        let row = |v: &[f64], j: usize| v.iter().map(|&x| fan(x)[j]).collect::<Vec<f64>>();
        match self.k.as_str() {
            "chunks" => x.chunks(n).filter(|c| end || c.len() == n).map(|c| c.to_vec()).collect(),
            "wchunks" => {
                let mut o: Vec<Vec<f64>> = x.chunks_exact(n).map(|c| c.to_vec()).collect();
                if end {
                    let rest = &x[x.len() / n * n..];
                    if !rest.is_empty() {
                        let mut c = rest.to_vec();
                        c.resize(n, 0.0);
                        o.push(c);
                    }
                }
                o
            }
            "inflate" => x.iter().flat_map(|&v| std::iter::repeat(vec![v]).take(n)).collect(),
            "integrate" => running(x).into_iter().map(|v| vec![v]).collect(),
            "nintegrate" => {
                let rows: Vec<Vec<f64>> = (0..3).map(|j| running(&row(x, j))).collect();
                (0..x.len()).map(|i| rows.iter().map(|r| r[i]).collect()).collect()
            }
            "dump" => x.chunks_exact(n).map(|c| vec![sum(c)]).collect(),
            "ndump" => x.chunks_exact(n).map(|c| (0..3).map(|j| sum(&row(c, j))).collect()).collect(),
            "scale" => x.iter().map(|&v| vec![v * self.a]).collect(),
            "take" => x.iter().step_by(n).map(|&v| vec![v]).collect(),
            "conv" => conv(x, &self.filt, end).into_iter().map(|v| vec![v]).collect(),
            "nonv" => {
                let rows: Vec<Vec<f64>> = (0..3).map(|j| conv(&row(x, j), &self.filt, end)).collect();
                (0..rows[0].len()).map(|i| rows.iter().map(|r| r[i]).collect()).collect()
            }
            k => panic!("harness: combinator {k}"),
        }
    }
    /// How far each output may be from its definition: rounding of its own items only.
    pub fn tolerance(&self, x: &[f64], end: bool) -> Vec<f64> {
        let n = self.n;
        let abs = |v: &[f64]| v.iter().map(|&x| if x.is_finite() { x.abs() } else { 0.0 }).sum::<f64>();
        let m = match self.k.as_str() {
            "dump" => x.chunks_exact(n).map(|c| abs(c)).collect(),
            "ndump" => x.chunks_exact(n).map(|c| 3.0 * (abs(c) + n as f64)).collect(),
            "integrate" | "nintegrate" => {
                let mut s = 0.0;
                x.iter().map(|&v| { s += if v.is_finite() { v.abs() } else { 0.0 }; if self.k == "integrate" { s } else { 3.0 * (s + x.len() as f64) } }).collect()
            }
            "scale" => x.iter().map(|&v| (v * self.a).abs()).collect(),
            "conv" | "nonv" => {
                let h = &self.filt;
                let len = if x.is_empty() { 0 } else if end { x.len() + h.len() - 1 } else { x.len() };
                let f = |v: f64| if self.k == "conv" { v.abs() } else { 3.0 * v.abs() + 1.0 };
                let dull = h.iter().any(|&t| t == 0.0);
                (0..len).map(|i| (0..h.len()).filter(|&k| i >= k && i - k < x.len()).map(|k| {
                    let v = x[i - k];
                    // a tap of zero need not be applied to an infinite item
                    if v.is_finite() { f(v) * h[k].abs() } else if dull { f64::INFINITY } else { 0.0 }
                }).sum()).collect()
            }
            _ => return vec![0.0; self.model(x, end).len()],
        };
        let m: Vec<f64> = m;
        m.into_iter().map(|t| if t.is_finite() { 1e-9 * t } else { f64::INFINITY }).collect()
    }
    /// wchunks emits one all-padding block when the source ends on a block boundary.
    pub fn pad_block(&self) -> bool {
        self.k == "wchunks"
    }
}

/// Running sums (compensated).
fn running(x: &[f64]) -> Vec<f64> {
    if x.iter().any(|v| !v.is_finite()) {
        let mut s = 0.0;
        return x.iter().map(|&v| { s += v; s }).collect();
    }
    let (mut s, mut c) = (0.0f64, 0.0f64);
    x.iter()
        .map(|&v| {
            let t = s + v;
            c += if s.abs() >= v.abs() { (s - t) + v } else { (v - t) + s };
            s = t;
            s + c
        })
        .collect()
}

fn conv(x: &[f64], h: &[f64], end: bool) -> Vec<f64> {
    let len = if x.is_empty() { 0 } else if end { x.len() + h.len() - 1 } else { x.len() };
    (0..len).map(|i| (0..h.len()).filter(|&k| i >= k && i - k < x.len()).map(|k| x[i - k] * h[k]).sum()).collect()
}
