//! The modems under test behind one interface, and independent closed-form models of their waveforms.
use crate::core::R;
use crate::env::{Forward, Strm};
use crate::json::{bits_of, V};
use crate::rng::Rng;
use komunikilo::iter::Iter;
use num_complex::Complex;
use std::f64::consts::PI;

pub type C = Complex<f64>;
pub type Bits = Box<dyn Strm<Item = bool>>;
pub type Sig = Box<dyn Strm<Item = C>>;

#[derive(Clone, Debug)]
pub struct Sc {
    pub k: String,
    pub sr: usize,
    pub sps: usize,
    pub fc: f64,
    pub key: &'static [bool],
    pub sub: usize,
    pub pil: usize,
    pub lo: f64,
    pub hi: f64,
    pub nf: usize,
}

fn cr(x: f64) -> C {
    C::new(x, 0.0)
}

/// All kinds with a transmitter.
pub const TX_KINDS: &[&str] = &[
    "bpsk_bb", "bpsk", "qpsk_bb", "qpsk", "cdma_bb", "cdma_bpsk", "cdma_qpsk", "coded", "ofdm_bb", "ofdm_qpsk",
    "fh_bpsk", "fh_css", "bfsk", "mfsk", "fsk", "fmfsk", "fm", "csk", "dcsk", "fhod_bb", "fhod1", "fhod2",
];
/// Kinds whose receiver is public.
pub const RX_KINDS: &[&str] = &[
    "bpsk_bb", "bpsk", "qpsk_bb", "qpsk", "cdma_bb", "cdma_bpsk", "cdma_qpsk", "coded", "ofdm_bb", "ofdm_qpsk",
    "fh_bpsk", "fmfsk", "dcsk", "fhod_bb",
];

impl Sc {
    pub fn parse(v: &V) -> R<Sc> {
        let key: Vec<bool> = bits_of(v.get("key"));
        let sc = Sc {
            k: v.get("k").s().to_string(),
            sr: v.get("sr").u(),
            sps: v.get("sps").u(),
            fc: v.get("fc").f(),
            key: Box::leak(key.into_boxed_slice()),
            sub: v.get("sub").u(),
            pil: v.get("pil").u(),
            lo: v.get("lo").f(),
            hi: v.get("hi").f(),
            nf: v.get("nf").u(),
        };
        sc.valid()?;
        Ok(sc)
    }
    pub fn fs(&self) -> usize {
        self.sr * self.sps
    }
    fn fsf(&self) -> f64 {
        self.fs() as f64
    }
    pub fn is_ofdm(&self) -> bool {
        self.k.starts_with("ofdm")
    }
    pub fn is_cdma(&self) -> bool {
        self.k.starts_with("cdma") || self.k == "coded"
    }
    pub fn is_fhod(&self) -> bool {
        self.k.starts_with("fhod")
    }
    pub fn hops(&self) -> bool {
        matches!(self.k.as_str(), "fh_bpsk" | "fh_css" | "fhod1")
    }
    /// Real-valued passband/baseband stream (the library's type is f64)?
    pub fn real(&self) -> bool {
        !matches!(self.k.as_str(), "bpsk_bb" | "qpsk_bb" | "ofdm_bb" | "fhod_bb" | "cdma_bb")
    }
    pub fn has_rx(&self) -> bool {
        RX_KINDS.contains(&self.k.as_str())
    }

    pub fn valid(&self) -> R {
        need!(TX_KINDS.contains(&self.k.as_str()));
        let k = self.k.as_str();
        if !matches!(k, "bpsk_bb" | "qpsk_bb" | "cdma_bb" | "ofdm_bb" | "csk" | "dcsk" | "fhod_bb") {
            need!(self.sr >= 1 && self.sps >= 1 && self.fs() <= 1 << 40);
            need!(self.fc >= 0.0 && self.fc.is_finite());
            need!((self.fs() / 2) as f64 >= self.fc);
        }
        if self.is_cdma() {
            need!(!self.key.is_empty());
            if k != "cdma_bb" {
                need!(self.sps % self.key.len() == 0);
                need!(self.fs() / 2 >= self.key.len() * self.sr);
            }
        }
        if self.is_ofdm() {
            need!(self.pil >= 1 && self.sub >= 2 && self.pil < self.sub && self.sub <= 4096);
        }
        if self.hops() || matches!(k, "bfsk" | "mfsk" | "fsk") {
            let top = (self.fs() / 2) as f64;
            need!(self.lo >= 0.0 && self.hi >= 0.0 && top >= self.hi && top >= self.lo);
            need!(self.hi >= self.lo || !self.hops());
        }
        if k == "fm" {
            need!(self.lo.abs() <= 1e4 && self.hi.abs() <= 1e4);
        }
        if self.hops() {
            need!(self.nf >= 1);
        }
        Ok(())
    }

    /// Bits per symbol/block.
    pub fn unit_in(&self) -> usize {
        match self.k.as_str() {
            "qpsk_bb" | "qpsk" | "cdma_qpsk" => 2,
            "coded" => 56,
            "ofdm_bb" | "ofdm_qpsk" => 2 * self.data_carriers().len(),
            "fhod_bb" | "fhod1" | "fhod2" => 7,
            _ => 1,
        }
    }
    /// Samples per symbol/block.
    pub fn unit_out(&self) -> usize {
        match self.k.as_str() {
            "bpsk_bb" | "qpsk_bb" | "csk" => 1,
            "dcsk" => 2,
            "cdma_bb" => self.key.len(),
            "coded" => 96 * self.sps,
            "ofdm_bb" => self.sub + self.sub / 4,
            "ofdm_qpsk" => (self.sub + self.sub / 4) * self.sps,
            "fhod_bb" => 10,
            "fhod1" | "fhod2" => 10 * self.sps,
            _ => self.sps,
        }
    }
    /// Samples per second of the produced stream (for the simulated clock).
    pub fn rate(&self) -> f64 {
        if self.fs() > 0 { self.fs() as f64 } else { 1e6 }
    }

    pub fn tx(&self, src: Bits) -> Sig {
        let src = crate::env::said(src);
        let (fs, sr, fc, key) = (self.fs(), self.sr, self.fc, self.key);
        use komunikilo::*;
        match self.k.as_str() {
            "bpsk_bb" => Box::new(bpsk::tx_baseband_bpsk_signal(src)),
            "bpsk" => Box::new(bpsk::tx_bpsk_signal(src, fs, sr, fc).fwd(cr)),
            "qpsk_bb" => Box::new(qpsk::tx_baseband_qpsk_signal(src)),
            "qpsk" => Box::new(qpsk::tx_qpsk_signal(src, fs, sr, fc).fwd(cr)),
            "cdma_bb" => Box::new(cdma::tx_baseband_cdma(src, key).fwd(|b| cr(if b { 1.0 } else { -1.0 }))),
            "cdma_bpsk" => Box::new(cdma::tx_cdma_bpsk_signal(src, fs, sr, fc, key).fwd(cr)),
            "cdma_qpsk" => Box::new(cdma::tx_cdma_qpsk_signal(src, fs, sr, fc, key).fwd(cr)),
            "coded" => Box::new(cdma::tx_coded_cdma_bpsk_signal(src, fs, sr, fc, key).fwd(cr)),
            "ofdm_bb" => Box::new(ofdm::tx_baseband_ofdm_signal(qpsk::tx_baseband_qpsk_signal(src), self.sub, self.pil)),
            "ofdm_qpsk" => Box::new(ofdm::tx_ofdm_qpsk_signal(src, self.sub, self.pil, fs, sr, fc).fwd(cr)),
            "fh_bpsk" => Box::new(fh::tx_fh_bpsk_signal(src, self.lo, self.hi, self.nf, fs, sr).fwd(cr)),
            "fh_css" => Box::new(fh_css::tx_fh_css_signal(src, fs, sr, self.lo, self.hi, self.nf).fwd(cr)),
            "bfsk" => Box::new(fsk::tx_bfsk_signal(src, fs, sr, self.lo, self.hi).fwd(cr)),
            "mfsk" => Box::new(fsk::tx_mfsk_signal(src, fs, sr, self.lo, self.hi, 2).fwd(cr)),
            "fsk" => {
                let freqs: &'static [f64] = Box::leak(vec![self.hi, self.lo].into_boxed_slice());
                Box::new(fsk::tx_fsk_signal(src, fs, sr, freqs).fwd(cr))
            }
            "fmfsk" => Box::new(fm::tx_fsk(src, fs, sr, fc).fwd(cr)),
            "fm" => {
                let (one, zero) = self.levels();
                Box::new(fm::tx_fm(src.map(move |b| if b { one } else { zero }), fs, sr, fc).fwd(cr))
            }
            "csk" => Box::new(csk::tx_baseband_csk(src).fwd(cr)),
            "dcsk" => Box::new(dcsk::tx_baseband_dcsk(src).fwd(cr)),
            "fhod_bb" => Box::new(fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal(src)),
            "fhod1" => Box::new(fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal(src, self.lo, self.hi, self.nf, fs, sr).fwd(cr)),
            "fhod2" => Box::new(fh_ofdm_dcsk::tx_fh_ofdm_dcsk_signal_2(src, fs, sr, fc).fwd(cr)),
            k => panic!("harness: no tx {k}"),
        }
    }

    pub fn rx(&self, sig: Sig) -> Bits {
        let sig = crate::env::said(sig);
        let (fs, sr, fc, key) = (self.fs(), self.sr, self.fc, self.key);
        use komunikilo::*;
        match self.k.as_str() {
            "bpsk_bb" => Box::new(bpsk::rx_baseband_bpsk_signal(sig)),
            "bpsk" => Box::new(bpsk::rx_bpsk_signal(sig.map(|c| c.re), fs, sr, fc)),
            "qpsk_bb" => Box::new(qpsk::rx_baseband_qpsk_signal(sig)),
            "qpsk" => Box::new(qpsk::rx_qpsk_signal(sig.map(|c| c.re), fs, sr, fc)),
            "cdma_bb" => Box::new(cdma::rx_baseband_cdma(sig.map(|c| c.re > 0.0), key)),
            "cdma_bpsk" => Box::new(cdma::rx_cdma_bpsk_signal(sig.map(|c| c.re), fs, sr, fc, key)),
            "cdma_qpsk" => Box::new(cdma::rx_cdma_qpsk_signal(sig.map(|c| c.re), fs, sr, fc, key)),
            "coded" => Box::new(cdma::rx_coded_cdma_bpsk_signal(sig.map(|c| c.re), fs, sr, fc, key)),
            "ofdm_bb" => Box::new(qpsk::rx_baseband_qpsk_signal(ofdm::rx_baseband_ofdm_signal(sig, self.sub, self.pil))),
            "ofdm_qpsk" => Box::new(ofdm::rx_ofdm_qpsk_signal(sig.map(|c| c.re), self.sub, self.pil, fs, sr, fc)),
            "fh_bpsk" => Box::new(fh::rx_fh_bpsk_signal(sig.map(|c| c.re), self.lo, self.hi, self.nf, fs, sr)),
            "fmfsk" => Box::new(fm::rx_fsk(sig.map(|c| c.re), fs, sr, fc)),
            "dcsk" => Box::new(dcsk::rx_baseband_dcsk(sig.map(|c| c.re))),
            "fhod_bb" => Box::new(fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal(sig)),
            k => panic!("harness: no rx {k}"),
        }
    }

    /// The OFDM subcarriers that carry data, in order (guards split between the two edges, DC unused).
    pub fn data_carriers(&self) -> Vec<usize> {
        let m = self.sub / 2;
        let back = (self.pil - 1) / 2;
        let front = self.pil - 1 - back;
        (front..self.sub - back).filter(|&c| c != m).collect()
    }

    /// Does the scheme have a closed-form model here? (Hop order is inferred, not modelled.)
    pub fn modelled(&self) -> bool {
        !self.is_fhod()
    }

    /// Waveform for `bits` followed by the end of input. For hopping schemes `hops` gives the hop of
    /// each symbol.
    pub fn model(&self, bits: &[bool], hops: Option<&[f64]>) -> Vec<C> {
        let (fs, sps, fc) = (self.fsf(), self.sps, self.fc);
        let nrz = |b: bool| if b { 1.0 } else { -1.0 };
        let w = |f: f64, i: usize| 2.0 * PI * f * (i as f64 / fs);
        let mut out: Vec<C> = vec![];
        match self.k.as_str() {
            "bpsk_bb" => out.extend(bits.iter().map(|&b| cr(nrz(b)))),
            "qpsk_bb" => out.extend(qpsk_syms(bits)),
            "bpsk" | "cdma_bpsk" => bpsk_model(bits, sps, self.key, self.k != "bpsk", |i| w(fc, i), &mut out),
            "coded" => {
                let b = coded_bits(bits);
                bpsk_model(&b, sps, self.key, true, |i| w(fc, i), &mut out)
            }
            "qpsk" | "cdma_qpsk" => {
                let n = bits.len() / 2;
                for s in 0..n {
                    let (a, b) = (nrz(bits[2 * s]), nrz(bits[2 * s + 1]));
                    for j in 0..sps {
                        let p = w(fc, s * sps + j);
                        let chip = if self.k == "cdma_qpsk" { nrz(self.key[j / (sps / self.key.len())]) } else { 1.0 };
                        out.push(cr((a * p.cos() - b * p.sin()) * chip));
                    }
                }
            }
            "cdma_bb" => {
                for &b in bits {
                    out.extend(self.key.iter().map(|&k| cr(if b ^ k { 1.0 } else { -1.0 })));
                }
            }
            "ofdm_bb" => out = self.ofdm_model(&qpsk_syms(bits)),
            "ofdm_qpsk" => {
                let bb = self.ofdm_model(&qpsk_syms(bits));
                for (n, s) in bb.iter().enumerate() {
                    for j in 0..sps {
                        let p = w(fc, n * sps + j);
                        out.push(cr(s.re * p.cos() - s.im * p.sin()));
                    }
                }
            }
            "fh_bpsk" => {
                for (s, &b) in bits.iter().enumerate() {
                    let f = hops.unwrap()[s];
                    out.extend((0..sps).map(|j| cr(nrz(b) * w(f, j).cos())));
                }
            }
            "fh_css" => {
                for (s, &b) in bits.iter().enumerate() {
                    out.extend(self.css_symbol(b, hops.unwrap()[s]));
                }
            }
            "bfsk" | "mfsk" | "fsk" | "fmfsk" => {
                for (s, &b) in bits.iter().enumerate() {
                    let f = self.tone(b);
                    out.extend((0..sps).map(|j| cr(w(f, s * sps + j).cos())));
                }
            }
            "fm" => {
                let mut acc = 0.0;
                for (s, &b) in bits.iter().enumerate() {
                    for j in 0..sps {
                        acc += if b { self.levels().0 } else { self.levels().1 };
                        out.push(cr((w(fc, s * sps + j) + 0.05 * acc).cos()));
                    }
                }
            }
            "csk" => {
                // the chaos streams themselves are judged by C08
                let (a, b) = crate::props::c08::csk_streams(bits.len()).unwrap_or_default();
                out.extend(bits.iter().zip(a.into_iter().zip(b)).map(|(&bit, (x, y))| cr(if bit { x } else { y })));
            }
            "dcsk" => {
                let a = crate::props::c08::dcsk_refs(bits.len()).unwrap_or_default();
                for (&bit, x) in bits.iter().zip(a) {
                    out.push(cr(x));
                    out.push(cr(x * nrz(bit)));
                }
            }
            k => panic!("harness: no model {k}"),
        }
        out
    }
    /// The two message values FM is fed.
    pub fn levels(&self) -> (f64, f64) {
        if self.lo == 0.0 && self.hi == 0.0 { (1.0, -0.5) } else { (self.hi, self.lo) }
    }
    pub fn tone(&self, b: bool) -> f64 {
        if self.k == "fmfsk" {
            let sep = 0.05 * self.fc;
            if b { self.fc + sep / 2.0 } else { self.fc - sep / 2.0 }
        } else if b {
            self.hi
        } else {
            self.lo
        }
    }
    pub fn hop_set(&self) -> Vec<f64> {
        let step = (self.hi - self.lo) / self.nf as f64;
        (0..self.nf).map(|i| self.lo + step * i as f64).collect()
    }
    pub fn css_symbol(&self, b: bool, hop: f64) -> Vec<C> {
        self.css_iter(b, hop).collect()
    }
    pub fn css_iter(&self, b: bool, hop: f64) -> impl Iterator<Item = C> + '_ {
        let bw = (self.hi - self.lo) / self.nf as f64;
        let (f0, f1) = if b { (hop - bw / 2.0, hop + bw / 2.0) } else { (hop + bw / 2.0, hop - bw / 2.0) };
        let t = 1.0 / self.sr as f64;
        let k = (f1 - f0) / t;
        (0..self.sps)
            .map(move |i| {
                let ti = i as f64 / self.fsf();
                cr((2.0 * PI * (f0 + k * ti / 2.0) * ti).cos())
            })
    }
    pub fn ofdm_model(&self, syms: &[C]) -> Vec<C> {
        let n = self.sub;
        let cp = n / 4;
        let dc = self.data_carriers();
        let tw: Vec<C> = (0..n).map(|i| C::from_polar(1.0, 2.0 * PI * i as f64 / n as f64)).collect();
        let mut out = vec![];
        for chunk in syms.chunks(dc.len()) {
            let mut t = vec![C::new(0.0, 0.0); n];
            for (j, tv) in t.iter_mut().enumerate() {
                for (&c, &x) in dc.iter().zip(chunk) {
                    // carrier c sits at frequency c - n/2
                    let idx = ((c + n - n / 2) % n) * j % n;
                    *tv += x * tw[idx];
                }
                *tv /= n as f64;
            }
            out.extend_from_slice(&t[n - cp..]);
            out.extend_from_slice(&t);
        }
        out
    }
}

pub fn qpsk_syms(bits: &[bool]) -> Vec<C> {
    let a = 2f64.sqrt();
    bits.chunks_exact(2).map(|b| C::new(if b[0] { a } else { -a }, if b[1] { a } else { -a })).collect()
}

fn bpsk_model(bits: &[bool], sps: usize, key: &[bool], spread: bool, w: impl Fn(usize) -> f64, out: &mut Vec<C>) {
    for (s, &b) in bits.iter().enumerate() {
        for j in 0..sps {
            let mut v = if b { 1.0 } else { -1.0 };
            if spread && !key[j / (sps / key.len())] {
                v = -v;
            }
            out.push(cr(v * w(s * sps + j).cos()));
        }
    }
}

// ---- Reed-Solomon (255-field, 0x11d, roots a^0..a^4) reference encoder ----------------------
fn gf_mul(mut a: u8, mut b: u8) -> u8 {
    let mut p = 0;
    while b != 0 {
        if b & 1 != 0 {
            p ^= a;
        }
        let h = a & 0x80;
        a <<= 1;
        if h != 0 {
            a ^= 0x1d;
        }
        b >>= 1;
    }
    p
}
pub fn rs_encode(data: &[u8], ecc: usize) -> Vec<u8> {
    let mut g = vec![1u8];
    let mut root = 1u8;
    for _ in 0..ecc {
        let mut n = vec![0u8; g.len() + 1];
        for (i, &c) in g.iter().enumerate() {
            n[i] ^= c;
            n[i + 1] ^= gf_mul(c, root);
        }
        g = n;
        root = gf_mul(root, 2);
    }
    let mut rem = data.to_vec();
    rem.extend(vec![0u8; ecc]);
    for i in 0..data.len() {
        let c = rem[i];
        if c != 0 {
            for (j, &gj) in g.iter().enumerate() {
                rem[i + j] ^= gf_mul(gj, c);
            }
        }
    }
    let mut out = data.to_vec();
    out.extend_from_slice(&rem[data.len()..]);
    out
}
/// Bits on the air of the coded link: bytes LSB first, 7 data + 5 check bytes per frame.
pub fn coded_bits(bits: &[bool]) -> Vec<bool> {
    let bytes: Vec<u8> = bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, &b)| a | (b as u8) << i)).collect();
    bytes.chunks(7).flat_map(|f| rs_encode(f, 5)).flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}

// ---- generation ----------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
pub enum Carrier {
    /// Any carrier from 0 to fs/2.
    Any,
    /// Whole half-cycles per symbol, sin and cos both with energy (needs sps >= 3).
    Quad,
    /// Equal energy in every chip: whole half-cycles per chip, or 0.
    Chip,
    ChipQuad,
}

/// Random carrier such that `len` samples hold a whole number of half cycles.
fn half_cycles(r: &mut Rng, fs: usize, len: usize, quad: bool) -> f64 {
    // 2 fc len / fs = m  ->  fc = m fs / (2 len), m in [0, len]
    let m = if quad {
        if len < 3 {
            return f64::NAN;
        }
        r.us(1, len - 1)
    } else if r.chance(0.15) {
        0
    } else {
        r.us(1, len.max(1))
    };
    // integers mod len other than 0 keep sin and cos orthogonal with equal energy
    m as f64 * fs as f64 / (2.0 * len as f64)
}

pub fn gen_key(r: &mut Rng, n: usize) -> String {
    match r.below(4) {
        0 => {
            // a Walsh row, computed here (Sylvester parity)
            let l = n.next_power_of_two();
            let row = r.us(0, l - 1);
            (0..n).map(|c| if (row & c).count_ones() % 2 == 0 { '1' } else { '0' }).collect()
        }
        _ => (0..n).map(|_| if r.bit() { '1' } else { '0' }).collect(),
    }
}

/// Random valid scheme parameters for a kind.
pub fn gen(r: &mut Rng, kind: &str, carrier: Carrier) -> V {
    loop {
        let v = gen_any(r, kind, carrier);
        if Sc::parse(&v).is_ok() {
            return v;
        }
    }
}

fn gen_any(r: &mut Rng, kind: &str, carrier: Carrier) -> V {
    let mut v = obj! {"k" => kind};
    let passband = !matches!(kind, "bpsk_bb" | "qpsk_bb" | "cdma_bb" | "ofdm_bb" | "csk" | "dcsk" | "fhod_bb");
    let mut klen = 1;
    // now and then far from the usual sizes
    let huge = r.chance(0.012);
    if kind.starts_with("cdma") || kind == "coded" {
        klen = match r.below(10) {
            _ if huge && r.bit() => if r.bit() { 1 << r.us(7, 10) } else { r.logus(65, 1500) },
            0 => 1,
            1 => 2,
            2 => 3,
            3..=5 => 1 << r.us(1, 6),
            _ => r.logus(1, 48),
        };
        v.set("key", gen_key(r, klen));
    }
    if kind.starts_with("ofdm") {
        let sub = match r.below(8) {
            _ if huge && r.chance(0.7) => if r.bit() { 1 << r.us(8, 12) } else { r.logus(81, 5000) },
            0 => r.us(2, 6),
            1 => 64,
            2 => *r.pick(&[7usize, 9, 15, 21, 33, 63]),
            3 => *r.pick(&[12usize, 48, 60, 100, 128]),
            _ => r.us(4, 80),
        };
        v.set("sub", sub);
        let maxp = (sub - 1).max(1);
        let pil = match r.below(4) {
            0 => 1,
            1 => maxp,
            2 => (sub / 5).max(1),
            _ => r.us(1, maxp),
        };
        v.set("pil", pil.min(maxp));
    }
    if passband {
        let need_sps = match carrier {
            Carrier::Quad | Carrier::ChipQuad => 3,
            _ => 1,
        };
        let sps = match kind {
            "cdma_bpsk" | "cdma_qpsk" | "coded" => {
                let spc = match r.below(4) { _ if huge && klen <= 64 => r.logus(13, 100), 0 => 2, 1 => 3, _ => r.logus(2, 12) }.max(need_sps);
                spc * klen
            }
            k if k.starts_with("ofdm") || k.starts_with("fhod") => r.logus(1, if huge && v.get("sub").u() <= 80 { 300 } else { 12 }).max(need_sps),
            "fmfsk" => r.logus(2, if huge { 9000 } else { 200 }),
            _ => match r.below(6) {
                _ if huge && r.chance(0.8) => r.logus(201, 9000),
                0 => r.us(1, 3),
                _ => r.logus(1, 200),
            }
            .max(need_sps),
        };
        let sr = match r.below(5) {
            0 => 1,
            1 => *r.pick(&[900usize, 1000, 2500, 4800]),
            2 => r.logus(1, if huge { 1 << 28 } else { 1 << 20 }),
            _ => r.logus(1, 20000),
        };
        let fs = sr * sps;
        v.set("sps", sps);
        v.set("sr", sr);
        let top = (fs / 2) as f64;
        let any = |r: &mut Rng| match r.below(10) {
            0 => 0.0,
            1 => top,
            2 => fs as f64 / 4.0,
            3 => (r.uf(0.0, top) / sr as f64).floor() * sr as f64,
            4 => r.uf(0.0, top).floor(),
            _ => r.uf(0.0, top),
        };
        let chip = sps / klen;
        let fc = match carrier {
            Carrier::Any => any(r),
            Carrier::Quad => half_cycles(r, fs, sps, true),
            Carrier::Chip => half_cycles(r, fs, chip, false),
            Carrier::ChipQuad => half_cycles(r, fs, chip, true),
        };
        v.set("fc", fc.clamp(0.0, top));
        if matches!(kind, "fh_bpsk" | "fh_css" | "fhod1") {
            let a = (r.uf(0.0, 0.3) * fs as f64).min(top);
            let b = a + r.uf(0.05, 1.0) * (top - a).max(0.0);
            v.set("lo", if r.chance(0.5) { a.floor() } else { a });
            v.set("hi", if r.chance(0.5) { b.ceil().min(top) } else { b.min(top) });
            v.set("nf", match r.below(5) { _ if huge => r.logus(65, 1200), 0 => r.us(1, 3), _ => r.logus(1, 64) });
        }
        if kind == "fm" && r.bit() {
            // sixteenths: their sums are exact in any order
            v.set("lo", if r.bit() { r.uf(-320.0, 320.0).round() / 16.0 } else { 0.0 });
            v.set("hi", if r.bit() { r.uf(-320.0, 320.0).round() / 16.0 } else { r.uf(-1000.0, 1000.0).round() });
        }
        if matches!(kind, "bfsk" | "mfsk" | "fsk") {
            let (mut a, mut b) = (any(r).min(top), any(r).min(top));
            // the "high" tone may be the lower one
            if a > b && r.chance(0.8) {
                std::mem::swap(&mut a, &mut b);
            }
            v.set("lo", a);
            v.set("hi", b);
        }
    }
    v
}
