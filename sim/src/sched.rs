//! The task scheduler: every simulated task is an OS thread, but exactly one runs at a time and a
//! seeded (or explicitly given) schedule decides which.
use crate::core::{enter_sim, guard, Caught, Ctx};
use crate::json::V;
use crate::rng::Rng;
use std::collections::VecDeque;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ts {
    Ready,
    Blocked,
    Sleeping(u64),
    Done,
}

struct St {
    cur: usize,
    st: Vec<Ts>,
    forced: Option<VecDeque<(u32, u32)>>,
    rng: Rng,
    mean_burst: f64,
    left: u64,
    out: Vec<(u32, u32)>,
    steps: u64,
    max_steps: u64,
    dead: Option<&'static str>,
    now_ns: u64,
    switches: u64,
}

struct Inner {
    m: Mutex<St>,
    cv: Vec<Condvar>,
    done: Condvar,
}

/// A task's handle on the scheduler.
#[derive(Clone)]
pub struct Tc {
    pub id: usize,
    inner: Arc<Inner>,
}

pub struct Outcome {
    pub dead: Option<&'static str>,
    pub panics: Vec<Option<String>>,
    pub steps: u64,
    pub now_ns: u64,
}

impl St {
    /// Chooses who runs next; None when nobody can.
    fn pick(&mut self, by_step: bool) -> Option<usize> {
        if !by_step {
            // The segment ended by blocking or finishing: count that as one step, so a forced replay
            // does not preempt the task before it gets there.
            if let Some(l) = self.out.last_mut() {
                l.1 += 1;
            }
        }
        let mut ready: Vec<usize> = (0..self.st.len()).filter(|&i| self.st[i] == Ts::Ready).collect();
        if ready.is_empty() {
            // Nothing runnable: jump the clock to the next sleeper.
            let t = self.st.iter().filter_map(|s| if let Ts::Sleeping(t) = s { Some(*t) } else { None }).min()?;
            self.now_ns = self.now_ns.max(t);
            for s in self.st.iter_mut() {
                if matches!(s, Ts::Sleeping(u) if *u <= self.now_ns) {
                    *s = Ts::Ready;
                }
            }
            ready = (0..self.st.len()).filter(|&i| self.st[i] == Ts::Ready).collect();
        }
        let (task, burst) = match self.forced.as_mut() {
            Some(f) => match f.pop_front() {
                Some((t, n)) => {
                    let t = t as usize;
                    let t = if ready.contains(&t) { t } else { ready[t % ready.len()] };
                    (t, n.max(1) as u64)
                }
                None => (ready[0], u64::MAX),
            },
            None => {
                let t = *self.rng.pick(&ready);
                let b = (1.0 - (1.0 - self.rng.f()).ln() * self.mean_burst) as u64;
                (t, b.max(1))
            }
        };
        self.left = burst;
        match self.out.last() {
            Some(l) if by_step && l.0 == task as u32 => {}
            _ => self.out.push((task as u32, 0)),
        }
        Some(task)
    }
}

impl Tc {
    fn lock(&self) -> std::sync::MutexGuard<'_, St> {
        self.inner.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// A point where another task may run. Returns false when the run is being torn down.
    pub fn step(&self) -> bool {
        let mut g = self.lock();
        if g.dead.is_some() {
            return false;
        }
        g.steps += 1;
        if let Some(l) = g.out.last_mut() {
            l.1 += 1;
        }
        if g.steps > g.max_steps {
            self.kill(&mut g, "step-limit");
            return false;
        }
        g.left = g.left.saturating_sub(1);
        if g.left > 0 {
            return true;
        }
        self.switch(g, true)
    }
    /// Waits until some other task calls `wake`.
    pub fn block(&self) -> bool {
        let mut g = self.lock();
        if g.dead.is_some() {
            return false;
        }
        g.st[self.id] = Ts::Blocked;
        self.switch(g, false)
    }
    pub fn wake(&self) {
        let mut g = self.lock();
        for s in g.st.iter_mut() {
            if *s == Ts::Blocked {
                *s = Ts::Ready;
            }
        }
    }
    pub fn sleep(&self, ns: u64) -> bool {
        let mut g = self.lock();
        if g.dead.is_some() {
            return false;
        }
        g.st[self.id] = Ts::Sleeping(g.now_ns + ns);
        self.switch(g, false)
    }
    pub fn now_ns(&self) -> u64 {
        self.lock().now_ns
    }
    fn kill(&self, g: &mut std::sync::MutexGuard<'_, St>, why: &'static str) {
        g.dead = Some(why);
        for s in g.st.iter_mut() {
            if *s != Ts::Done {
                *s = Ts::Ready;
            }
        }
        for c in &self.inner.cv {
            c.notify_all();
        }
        self.inner.done.notify_all();
    }
    fn switch(&self, mut g: std::sync::MutexGuard<'_, St>, by_step: bool) -> bool {
        match g.pick(by_step) {
            Some(n) => {
                if n != self.id {
                    g.cur = n;
                    g.switches += 1;
                    self.inner.cv[n].notify_all();
                    while g.cur != self.id && g.dead.is_none() {
                        g = self.inner.cv[self.id].wait(g).unwrap_or_else(|e| e.into_inner());
                    }
                }
                let ns = g.now_ns;
                let alive = g.dead.is_none();
                drop(g);
                crate::core::sim_clock_set(Some(ns));
                alive
            }
            None => {
                self.kill(&mut g, "deadlock");
                false
            }
        }
    }
    fn finish(&self) {
        let mut g = self.lock();
        g.st[self.id] = Ts::Done;
        if g.st.iter().all(|s| *s == Ts::Done) {
            self.inner.done.notify_all();
            return;
        }
        if g.dead.is_some() {
            return;
        }
        match g.pick(false) {
            Some(n) => {
                g.cur = n;
                g.switches += 1;
                self.inner.cv[n].notify_all();
            }
            None => self.kill(&mut g, "deadlock"),
        }
    }
}

thread_local! {
    static HERE: std::cell::RefCell<Option<Tc>> = const { std::cell::RefCell::new(None) };
}
/// A scheduling point of whatever simulated task is running on this thread (a no-op outside one).
pub fn step_here() {
    let tc = HERE.with(|h| h.borrow().clone());
    if let Some(tc) = tc {
        if !tc.step() && !std::thread::panicking() {
            std::panic::panic_any(crate::core::Injected);
        }
    }
}

pub type Task = Box<dyn FnOnce(Tc) + Send>;

/// Wrapper that carries values which are not `Send` across the baton (only one thread runs at a time).
pub struct Mv<T>(pub T);
unsafe impl<T> Send for Mv<T> {}
unsafe impl<T> Sync for Mv<T> {}
impl<T> Mv<T> {
    pub fn take(self) -> T {
        self.0
    }
}

/// Plan fields: "sched": {"seed":…, "burst":mean, "segs":[[task,steps],…] (replay only)}.
pub fn run(ctx: &Ctx, sched: &V, max_steps: u64, tasks: Vec<Task>) -> Outcome {
    let n = tasks.len();
    let forced = if sched.has("segs") {
        Some(sched.get("segs").a().iter().map(|s| (s.a().first().map_or(0, |v| v.u()) as u32, s.a().get(1).map_or(1, |v| v.u()) as u32)).collect())
    } else {
        None
    };
    let mut st = St {
        cur: usize::MAX,
        st: vec![Ts::Ready; n],
        forced,
        rng: Rng::new(sched.get("seed").u64() ^ 0x5c4ed),
        mean_burst: sched.get("burst").f().max(0.0),
        left: 0,
        out: vec![],
        steps: 0,
        max_steps,
        dead: None,
        now_ns: 0,
        switches: 0,
    };
    let mut outc = Outcome { dead: None, panics: (0..n).map(|_| None).collect(), steps: 0, now_ns: 0 };
    if n == 0 {
        return outc;
    }
    st.cur = st.pick(true).unwrap();
    let inner = Arc::new(Inner { m: Mutex::new(st), cv: (0..n).map(|_| Condvar::new()).collect(), done: Condvar::new() });
    let mut handles = vec![];
    for (id, t) in tasks.into_iter().enumerate() {
        let tc = Tc { id, inner: inner.clone() };
        let ctx = ctx.clone();
        let reader = crate::env::reader();
        let says = crate::env::says();
        handles.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    crate::env::set_reader(reader);
                    crate::env::set_says(says);
                    {
                        let mut g = tc.lock();
                        while g.cur != tc.id && g.dead.is_none() {
                            g = tc.inner.cv[tc.id].wait(g).unwrap_or_else(|e| e.into_inner());
                        }
                        if g.dead.is_some() {
                            drop(g);
                            tc.finish();
                            return None;
                        }
                    }
                    enter_sim(&ctx);
                    let t2 = tc.clone();
                    HERE.with(|h| *h.borrow_mut() = Some(tc.clone()));
                    let r = guard(move || t(t2));
                    let p = match r {
                        Ok(()) => None,
                        Err(Caught::Injected) => Some("injected".to_string()),
                        Err(Caught::Panic(m)) => Some(m),
                    };
                    HERE.with(|h| *h.borrow_mut() = None);
                    crate::core::sim_clock_set(None);
                    tc.finish();
                    p
                })
                .expect("spawn"),
        );
    }
    for (i, h) in handles.into_iter().enumerate() {
        outc.panics[i] = h.join().unwrap_or(Some("thread died".into()));
    }
    let g = inner.m.lock().unwrap_or_else(|e| e.into_inner());
    outc.dead = g.dead;
    outc.steps = g.steps;
    outc.now_ns = g.now_ns;
    {
        let mut s = ctx.sh.lock().unwrap_or_else(|e| e.into_inner());
        s.switches += g.switches;
        s.sched_out.extend(g.out.iter().cloned());
        let mut h = s.sig;
        for &(t, k) in &s.sched_out {
            h = (h ^ ((t as u64) << 32 | k as u64)).wrapping_mul(0x100000001b3).rotate_left(17);
        }
        s.sig = h;
        s.sim_s += g.now_ns as f64 * 1e-9;
    }
    outc
}
