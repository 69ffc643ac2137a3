//! Simulated environment of a stream: sources that end, stall or fail, the channel, and readers.
use crate::core::{Ctx, Injected};
use crate::json::V;
use crate::rng::Rng;
use crate::schemes::C;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Eof,
    Panic,
}

/// Shared observation of a source: items pulled, polls after the end, whether it was dropped.
#[derive(Clone, Default)]
pub struct Probe {
    pub pulled: Rc<Cell<usize>>,
    pub ended: Rc<Cell<bool>>,
    pub after_end: Rc<Cell<usize>>,
    pub dropped: Rc<Cell<bool>>,
}

/// A source of items that ends or fails after the given items.
pub struct Src<T> {
    items: Arc<Vec<T>>,
    len: usize,
    end: End,
    hint: u64,
    stepping: bool,
    pub probe: Probe,
}
impl<T: Clone> Src<T> {
    pub fn new(items: Arc<Vec<T>>, len: usize, end: End) -> (Src<T>, Probe) {
        let p = Probe::default();
        let hint = match says() { 0 => 1, 1 => 0, m => m };
        (Src { items, len, end, hint, stepping: false, probe: p.clone() }, p)
    }
    /// Every pull is a point where the scheduler may run another task.
    pub fn stepping(mut self) -> Self {
        self.stepping = true;
        self
    }
    /// What `size_hint` says: 0 nothing, 1 the exact count, 2 bounds around it, 3 a lower bound only, 4 endless.
    pub fn hinted(mut self, mode: u64) -> Self {
        self.hint = mode;
        self
    }
}
impl<T: Clone> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.stepping {
            crate::sched::step_here();
        }
        let i = self.probe.pulled.get();
        if i < self.len {
            self.probe.pulled.set(i + 1);
            return Some(self.items[i].clone());
        }
        if self.probe.ended.get() {
            self.probe.after_end.set(self.probe.after_end.get() + 1);
        }
        self.probe.ended.set(true);
        match self.end {
            End::Eof => None,
            End::Panic => std::panic::panic_any(Injected),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.len.saturating_sub(self.probe.pulled.get());
        // a source about to fail had more to come
        let left = if self.end == End::Panic { left + 1000 } else { left };
        hint(self.hint, left)
    }
}
pub fn hint(mode: u64, left: usize) -> (usize, Option<usize>) {
    match mode {
        1 => (left, Some(left)),
        2 => (left / 2, Some(left * 2 + 3)),
        3 => (left, None),
        4 => (usize::MAX, None),
        _ => (0, None),
    }
}
impl<T> Drop for Src<T> {
    fn drop(&mut self) {
        self.probe.dropped.set(true);
    }
}

/// A stream whose concrete type is kept, so that readers which consume it from the inside
/// (for_each, sum, count, last, extend) reach the code's own `fold` where it has one.
pub trait Strm: Iterator {
    fn drain_into(self: Box<Self>, sink: &mut dyn FnMut(Self::Item));
    fn last_of(self: Box<Self>) -> Option<Self::Item>;
    fn count_of(self: Box<Self>) -> usize;
}
impl<I: Iterator> Strm for I {
    fn drain_into(self: Box<Self>, sink: &mut dyn FnMut(I::Item)) {
        (*self).for_each(sink)
    }
    fn last_of(self: Box<Self>) -> Option<I::Item> {
        (*self).last()
    }
    fn count_of(self: Box<Self>) -> usize {
        (*self).count()
    }
}
/// A conversion of the items that leaves the stream's own ways of being read (nth, fold, last, count)
/// reachable: `Map` would replace them by its own.
pub struct Fwd<I, F>(I, F);
pub trait Forward: Iterator + Sized {
    fn fwd<B, F: FnMut(Self::Item) -> B>(self, f: F) -> Fwd<Self, F> {
        Fwd(self, f)
    }
}
impl<I: Iterator> Forward for I {}
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Fwd<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        self.0.next().map(&mut self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<B> {
        self.0.nth(n).map(&mut self.1)
    }
    fn fold<A, G: FnMut(A, B) -> A>(self, init: A, mut g: G) -> A {
        let mut f = self.1;
        self.0.fold(init, |a, x| g(a, f(x)))
    }
    fn last(self) -> Option<B> {
        let mut f = self.1;
        self.0.last().map(&mut f)
    }
    fn count(self) -> usize {
        self.0.count()
    }
}
/// Thrown by a folding reader that has read enough.
struct Enough;

thread_local! {
    /// How readers of this run consume streams: None = item by item; Some(n) = n items one by one,
    /// the rest from the inside (`fold`).
    static READ: Cell<Option<usize>> = const { Cell::new(None) };
}
pub fn set_reader(r: Option<usize>) {
    READ.with(|c| c.set(r));
}
pub fn reader() -> Option<usize> {
    READ.with(|c| c.get())
}

thread_local! {
    /// What the sources of this run say about how much they hold (0 = what they are), see `hint`.
    static SAYS: Cell<u64> = const { Cell::new(0) };
}
pub fn set_says(m: u64) {
    SAYS.with(|c| c.set(m));
}
pub fn says() -> u64 {
    SAYS.with(|c| c.get())
}
/// A source that says less (but nothing wrong) about how much it holds than it could: 1 nothing, 2 wide bounds, 3 a lower bound.
pub struct Said<T>(Box<dyn Strm<Item = T>>, u64);
pub fn said<T: 'static>(b: Box<dyn Strm<Item = T>>) -> Box<dyn Strm<Item = T>> {
    match says() {
        0 => b,
        m => Box::new(Said(b, m)),
    }
}
impl<T> Iterator for Said<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.0.size_hint();
        match self.1 {
            1 => (0, None),
            2 => (lo / 2, hi.and_then(|h| h.checked_mul(2)).and_then(|h| h.checked_add(3))),
            _ => (lo, None),
        }
    }
}

/// Feeds at most `cap` items to `sink`, the first `one` of them read one by one and the rest by `fold`;
/// returns whether the stream ended.
pub fn drain<T>(mut it: Box<dyn Strm<Item = T> + '_>, one: usize, cap: usize, sink: &mut dyn FnMut(T)) -> bool {
    let mut n = 0;
    while n < one {
        if n == cap {
            return false;
        }
        match it.next() {
            Some(x) => sink(x),
            None => return true,
        }
        n += 1;
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        it.drain_into(&mut |x| {
            if n == cap {
                std::panic::resume_unwind(Box::new(Enough));
            }
            sink(x);
            n += 1;
        })
    }));
    match r {
        Ok(()) => true,
        Err(e) if e.is::<Enough>() => false,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// Collects at most `cap` items (an endless stream must not hang the simulator), the way this run's
/// readers read.
pub fn take<'a, I: Iterator + 'a>(it: I, cap: usize) -> Vec<I::Item> {
    take_box(Box::new(it), cap)
}
pub fn take_box<T>(mut it: Box<dyn Strm<Item = T> + '_>, cap: usize) -> Vec<T> {
    let mut v = Vec::new();
    if let Some(one) = reader() {
        drain(it, one, cap, &mut |x| v.push(x));
        return v;
    }
    while v.len() < cap {
        match it.next() {
            Some(x) => v.push(x),
            None => break,
        }
    }
    v
}

/// Reads with a polling pattern and returns (index, item) of what was delivered, up to `cap` indexes.
/// Pattern entries: positive n = n plain reads, negative n = skip n-1 and read one (`nth`), 0 = size_hint.
pub fn read_pattern<T>(it: &mut dyn Iterator<Item = T>, pat: &[i64], cap: usize, sink: &mut dyn FnMut(usize, T)) -> (usize, bool, Vec<(usize, usize, Option<usize>)>) {
    let mut idx = 0;
    let mut hints = vec![];
    let pat: Vec<i64> = if pat.iter().all(|&p| p == 0) { vec![1] } else { pat.to_vec() };
    loop {
        for &p in &pat {
            if p == 0 {
                let (a, b) = it.size_hint();
                if hints.len() < 4000 {
                    hints.push((idx, a, b));
                }
            } else if p > 0 {
                for _ in 0..p {
                    if idx >= cap {
                        return (idx, false, hints);
                    }
                    match it.next() {
                        Some(x) => {
                            sink(idx, x);
                            idx += 1;
                        }
                        None => return (idx, true, hints),
                    }
                }
            } else {
                let n = (-p) as usize;
                if idx + n >= cap {
                    // finish with plain reads
                    while idx < cap {
                        match it.next() {
                            Some(x) => {
                                sink(idx, x);
                                idx += 1;
                            }
                            None => return (idx, true, hints),
                        }
                    }
                    return (idx, false, hints);
                }
                match it.nth(n - 1) {
                    Some(x) => {
                        sink(idx + n - 1, x);
                        idx += n;
                    }
                    // the end lies somewhere in the skipped stretch
                    None => return (usize::MAX, true, hints),
                }
            }
        }
    }
}

// ---- channel faults ----------------------------------------------------------------------
/// Applies a fault list to a signal; returns which samples a destructive fault touched.
/// Fault objects: {"t":kind, "at":first sample, "n":samples, "a":amplitude/gain, "seed":…}
pub fn apply_faults(ctx: &Ctx, faults: &[V], x: &mut [C], complex: bool) -> Vec<bool> {
    let mut touched = vec![false; x.len()];
    for f in faults {
        let kind = f.get("t").s();
        let at = f.get("at").u().min(x.len());
        let n = f.get("n").u().min(x.len() - at);
        if n == 0 {
            continue;
        }
        let a = f.get("a").f();
        let mut r = Rng::new(f.get("seed").u64());
        let name: &'static str = match kind {
            "burst" => "noise_burst",
            "erase" => "erasure",
            "dc" => "dc_step",
            "clip" => "clipping",
            "spike" => "spike",
            "inf" => "nonfinite_sample",
            "flip" => "inversion",
            "gain" => "gain",
            "tone" => "jammer_tone",
            _ => continue,
        };
        ctx.fault(name, at as u64);
        for i in at..at + n {
            let s = &mut x[i];
            match kind {
                "burst" => {
                    s.re += a * r.gauss();
                    if complex {
                        s.im += a * r.gauss();
                    }
                    touched[i] = true;
                }
                "erase" => {
                    *s = C::new(0.0, 0.0);
                    touched[i] = true;
                }
                "dc" => {
                    s.re += a;
                    touched[i] = true;
                }
                "clip" => {
                    s.re = s.re.clamp(-a.abs(), a.abs());
                    s.im = s.im.clamp(-a.abs(), a.abs());
                    touched[i] = true;
                }
                "spike" => {
                    s.re += if r.bit() { a } else { -a };
                    touched[i] = true;
                }
                "inf" => {
                    s.re = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                    touched[i] = true;
                }
                "flip" => {
                    *s = -*s;
                    touched[i] = true;
                }
                "gain" => *s *= a,
                "tone" => {
                    let p = 2.0 * std::f64::consts::PI * f.get("f").f() * i as f64;
                    *s += if complex { C::from_polar(a, p) } else { C::new(a * p.cos(), 0.0) };
                    touched[i] = true;
                }
                _ => {}
            }
        }
    }
    touched
}

/// A gain that starts or ends inside a symbol damages that symbol.
pub fn gain_edges(faults: &[V], unit: usize, touched: &mut [bool]) {
    for f in faults.iter().filter(|f| f.get("t").s() == "gain") {
        let at = f.get("at").u().min(touched.len());
        let e = at.saturating_add(f.get("n").u()).min(touched.len());
        for edge in [at, e] {
            if edge % unit != 0 && edge < touched.len() {
                touched[edge] = true;
            }
        }
    }
}

/// The whole reception at another level (plan key "level": a power of ten), which no decision may depend on.
pub fn level(ctx: &Ctx, plan: &V, x: &mut [C]) -> crate::core::R {
    if plan.has("level") {
        let e = plan.get("level").f();
        need!(e.abs() <= 140.0);
        ctx.fault("level", 0);
        let a = 10f64.powf(e);
        for v in x.iter_mut() {
            *v *= a;
        }
    }
    Ok(())
}

/// A random destructive/benign fault somewhere in [0, len).
pub fn gen_fault(r: &mut Rng, len: usize, unit: usize, kinds: &[&str]) -> V {
    let t = *r.pick(kinds);
    let unit = unit.max(1);
    let (at, n) = match r.below(6) {
        0 => (r.us(0, len.saturating_sub(1)), 1),
        1 => {
            let u = r.us(0, len / unit) * unit;
            (u, unit)
        }
        2 => {
            // straddles a symbol boundary
            let u = r.us(0, len / unit) * unit;
            (u.saturating_sub(1), 2)
        }
        3 => (r.us(0, len), r.logus(1, unit * 3 + 1)),
        4 => (0, r.logus(1, unit + 1)),
        _ => (r.us(0, len), r.logus(1, len.max(1))),
    };
    let a = match t {
        "gain" => 10f64.powf(r.uf(-6.0, 6.0)),
        "clip" => r.uf(0.0, 1.0),
        "spike" => 10f64.powf(r.uf(0.0, 12.0)),
        _ => 10f64.powf(r.uf(-2.0, 4.0)),
    };
    let mut v = obj! {"t" => t, "at" => at, "n" => n};
    if !matches!(t, "erase" | "inf" | "flip") {
        v.set("a", a);
    }
    if matches!(t, "burst" | "spike" | "inf") {
        v.set("seed", r.below(1 << 40));
    }
    if t == "tone" {
        v.set("f", r.uf(0.0, 0.5));
    }
    v
}

pub fn close(a: C, b: C, tol: f64) -> bool {
    let d = (a - b).norm();
    d <= tol * (1.0 + b.norm())
}
