//! Run context: event log hash, fault counters, probes, verdicts, simulated clock and entropy.
use getrandom::{FailPlan, SimEntropy};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone)]
pub enum Fail {
    Violation { class: String, msg: String },
    /// The plan is outside the property's domain (only the shrinker produces these).
    Invalid(String),
}
pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! vio {
    ($class:expr, $($a:tt)*) => { return Err($crate::core::Fail::Violation { class: $class.to_string(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! invalid {
    ($($a:tt)*) => { return Err($crate::core::Fail::Invalid(format!($($a)*))) };
}
/// Plan must satisfy this to be in the property's domain.
#[macro_export]
macro_rules! need {
    ($c:expr) => { if !($c) { return Err($crate::core::Fail::Invalid(stringify!($c).to_string())); } };
}

#[derive(Default)]
pub struct Shared {
    pub log: u64,
    pub log_n: u64,
    pub sig: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub items: u64,
    pub sim_s: f64,
    pub switches: u64,
    pub trace: Option<Vec<String>>,
    pub sched_out: Vec<(u32, u32)>,
}

#[derive(Clone)]
pub struct Ctx {
    pub sh: Arc<Mutex<Shared>>,
    pub entropy: Arc<Mutex<SimEntropy>>,
    pub tier_thorough: bool,
}

impl Ctx {
    pub fn new(entropy_seed: u64, trace: bool) -> Ctx {
        let sh = Shared { log: 0xcbf29ce484222325, sig: 0x100, trace: if trace { Some(vec![]) } else { None }, ..Default::default() };
        Ctx { sh: Arc::new(Mutex::new(sh)), entropy: SimEntropy::new(entropy_seed, FailPlan::Never), tier_thorough: false }
    }
    fn g(&self) -> std::sync::MutexGuard<'_, Shared> {
        self.sh.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// Adds a value to the event log (hash).
    pub fn log(&self, v: u64) {
        let mut g = self.g();
        g.log = (g.log ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
        g.log_n += 1;
    }
    pub fn logs(&self, vs: impl Iterator<Item = u64>) {
        let mut g = self.g();
        for v in vs {
            g.log = (g.log ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
            g.log_n += 1;
        }
    }
    pub fn logf(&self, v: &[num_complex::Complex<f64>]) {
        self.logs(v.iter().flat_map(|c| [c.re.to_bits(), c.im.to_bits()]));
    }
    pub fn logb(&self, v: &[bool]) {
        self.logs(v.chunks(64).map(|c| c.iter().enumerate().fold(c.len() as u64, |a, (i, &b)| a ^ ((b as u64) << i))));
    }
    /// A fault (or environment event) that really happened at a place.
    pub fn fault_n(&self, kind: &'static str, n: u64) {
        if n > 0 {
            *self.g().faults.entry(kind).or_insert(0) += n;
        }
    }
    pub fn fault(&self, kind: &'static str, at: u64) {
        let mut g = self.g();
        *g.faults.entry(kind).or_insert(0) += 1;
        let h = kind.bytes().fold(at.wrapping_mul(0x9E3779B97F4A7C15), |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3));
        g.sig = (g.sig ^ h).wrapping_mul(0x100000001b3).rotate_left(17);
        if let Some(t) = g.trace.as_mut() {
            if t.len() < 5000 {
                t.push(format!("fault {kind} at {at}"));
            }
        }
    }
    pub fn probe(&self, name: &'static str) {
        *self.g().probes.entry(name).or_insert(0) += 1;
    }
    pub fn sig(&self, v: u64) {
        let mut g = self.g();
        g.sig = (g.sig ^ v).wrapping_mul(0x100000001b3).rotate_left(17);
    }
    pub fn trace(&self, f: impl FnOnce() -> String) {
        let mut g = self.g();
        if g.trace.is_some() {
            let s = f();
            let t = g.trace.as_mut().unwrap();
            if t.len() < 5000 {
                t.push(s);
            }
        }
    }
    pub fn items(&self, n: usize) {
        self.g().items += n as u64;
    }
    pub fn time(&self, s: f64) {
        if s.is_finite() && s > 0.0 {
            self.g().sim_s += s;
        }
    }
}

// ---- panics ------------------------------------------------------------------------------
/// Payload of panics the simulator injects.
pub struct Injected;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().downcast_ref::<Injected>().is_some() {
            "injected".into()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::thread::current().name() == Some("main") {
            eprintln!("harness panic: {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
#[derive(Debug)]
pub enum Caught {
    Injected,
    Panic(String),
}
/// Runs code under test, separating injected panics from real ones.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.downcast_ref::<Injected>().is_some() {
                Err(Caught::Injected)
            } else {
                Err(Caught::Panic(last_panic()))
            }
        }
    }
}

// ---- simulated clock ---------------------------------------------------------------------
thread_local! {
    /// Simulated nanoseconds seen by code reading a clock on this thread; None: real clock.
    static SIM_CLOCK: Cell<Option<u64>> = const { Cell::new(None) };
    /// Seeded state of a clock that jumps between readings (0: it stands still), and the readings taken.
    static CLOCK_JUMPS: Cell<u64> = const { Cell::new(0) };
    static CLOCK_READS: Cell<u64> = const { Cell::new(0) };
}
/// Time passes between any two readings of this thread's clock: nothing, a little, hours, months;
/// the wall clock may also be set back.
pub fn sim_clock_jumps(seed: Option<u64>) {
    CLOCK_JUMPS.with(|c| c.set(seed.map_or(0, |s| crate::rng::mix(s) | 1)));
    CLOCK_READS.with(|c| c.set(0));
}
pub fn clock_reads() -> u64 {
    CLOCK_READS.with(|c| c.get())
}
pub fn sim_clock_set(ns: Option<u64>) {
    SIM_CLOCK.with(|c| c.set(ns));
}
/// Interposes libc's clock for everything linked into this binary: simulated threads see a
/// simulated clock that stands still between scheduler events.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if let Ok(Some(mut ns)) = SIM_CLOCK.try_with(|c| c.get()) {
        let j = CLOCK_JUMPS.with(|c| c.get());
        if j != 0 {
            let x = crate::rng::mix(j);
            CLOCK_JUMPS.with(|c| c.set(x | 1));
            CLOCK_READS.with(|c| c.set(c.get() + 1));
            let y = crate::rng::mix(x ^ 0xC10C);
            ns += match x >> 60 {
                0..=4 => 0,
                5..=8 => y % 1_000_000,
                9..=11 => y % 10_000_000_000,
                12..=14 => y % 86_400_000_000_000,
                _ => y % 10_000_000_000_000_000,
            };
            SIM_CLOCK.with(|c| c.set(Some(ns)));
            if clk == libc::CLOCK_REALTIME && x >> 58 & 3 == 3 {
                ns = ns.saturating_sub(y % 100_000_000_000_000);
            }
        }
        (*ts).tv_sec = (1_700_000_000 + ns / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (ns % 1_000_000_000) as libc::c_long;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int
}

// ---- counting allocator ------------------------------------------------------------------
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}
/// Live heap bytes allocated by this thread.
pub fn live_bytes() -> i64 {
    LIVE.with(|c| c.get())
}

/// Prepares the calling thread to run code under test.
pub fn enter_sim(ctx: &Ctx) {
    getrandom::sim_install(Some(ctx.entropy.clone()));
    sim_clock_set(Some(0));
}
