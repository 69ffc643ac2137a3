//! ksim: deterministic simulation of the Komunikilo library.
//!   ksim check <ID>            explore (VERIF_SEED, VERIF_TIER), confirm, minimise, write evidence
//!   ksim replay <file>         re-execute a replay file exactly
//!   ksim exec                  plan on stdin -> result on stdout (one fresh process)
//!   ksim worker …              a batch of runs (internal)
//!   ksim plan <ID> <k>         print the plan of run k
//!   ksim determinism <ID> <n>  run n seeds twice in different processes and compare event logs
#[macro_use]
mod json;
#[macro_use]
mod core;
mod comb;
mod env;
mod procs;
mod props;
mod py;
mod rng;
mod sched;
mod schemes;
mod shrink;
mod stats;

use crate::core::{Ctx, Fail};
use json::V;
use props::Prop;
use rng::{mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: crate::core::Counting = crate::core::Counting;

fn prop(id: &str) -> Box<dyn Prop> {
    match props::all().into_iter().find(|p| p.id() == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn run_seed(seed: u64, id: &str, k: u64) -> u64 {
    let h = id.bytes().fold(0xcbf29ce484222325u64, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3));
    mix(mix(seed) ^ h ^ mix(k.wrapping_mul(0xD1B54A32D192ED03)))
}
fn plan_of(p: &dyn Prop, seed: u64, k: u64, thorough: bool) -> V {
    let s = run_seed(seed, p.id(), k);
    let mut r = Rng::new(s);
    let mut plan = p.gen(&mut r, k, thorough);
    plan.set("_ent", s & ((1 << 52) - 1));
    // a quarter of the runs have readers that consume streams from the inside
    let mut r = Rng::new(mix(s ^ 0x5EED));
    if r.chance(0.25) {
        plan.set("_fold", match r.below(3) { 0 => 0, 1 => r.us(0, 3), _ => r.logus(1, 500) });
    }
    // a third of the runs have sources that say less about their length than they could
    if r.chance(0.35) {
        plan.set("_says", r.us(1, 3));
    }
    // a third of the runs without a scheduler and without CPython (which aborts) have a clock that jumps
    if r.chance(0.35) && !matches!(p.id(), "C11" | "C13" | "C17" | "C18") && !(matches!(p.id(), "C12" | "C14") && ["\"py", "\"pure"].iter().any(|t| plan.dump().contains(t))) {
        plan.set("_clk", s >> 11 & ((1 << 50) - 1));
    }
    plan
}

/// Executes one plan on a fresh thread (fresh thread-locals) and returns the result object.
fn execute(p: &dyn Prop, plan: &V, trace: bool, thorough: bool) -> V {
    let mut ctx = Ctx::new(plan.get("_ent").u64(), trace);
    ctx.tier_thorough = thorough;
    let c2 = ctx.clone();
    let t0 = Instant::now();
    let res = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                crate::core::enter_sim(&c2);
                crate::env::set_reader(plan.has("_fold").then(|| plan.get("_fold").u()));
                crate::env::set_says(plan.get("_says").u64());
                crate::core::sim_clock_jumps(plan.has("_clk").then(|| plan.get("_clk").u64()));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run(plan, &c2)));
                crate::core::sim_clock_set(None);
                c2.fault_n("clock_jump", crate::core::clock_reads());
                if plan.has("_clk") {
                    c2.probe("jumping_clock");
                }
                crate::core::sim_clock_jumps(None);
                match r {
                    Ok(r) => r,
                    Err(_) => Err(Fail::Violation { class: "panic".into(), msg: format!("uncaught panic: {}", crate::core::last_panic()) }),
                }
            })
            .unwrap()
            .join()
            .unwrap_or(Err(Fail::Violation { class: "thread-died".into(), msg: "run thread died".into() }))
    });
    let ms = t0.elapsed().as_secs_f64() * 1e3;
    let sh = ctx.sh.lock().unwrap_or_else(|e| e.into_inner());
    let mut o = obj! {"log" => format!("{:016x}", sh.log), "log_n" => sh.log_n, "sig" => format!("{:016x}", sh.sig), "items" => sh.items, "sim_s" => sh.sim_s, "sw" => sh.switches, "ms" => (ms * 100.0).round() / 100.0};
    let map = |m: &BTreeMap<&'static str, u64>| V::Obj(m.iter().map(|(k, v)| (k.to_string(), V::from(*v))).collect());
    o.set("faults", map(&sh.faults));
    o.set("probes", map(&sh.probes));
    if trace {
        o.set("trace", sh.trace.clone().unwrap_or_default().into_iter().map(V::from).collect::<Vec<_>>());
    }
    match res {
        Ok(()) => o.set("r", "ok"),
        Err(Fail::Invalid(m)) => {
            o.set("r", "invalid");
            o.set("msg", m);
        }
        Err(Fail::Violation { class, msg }) => {
            o.set("r", "violation");
            o.set("class", class);
            o.set("msg", msg.chars().take(1500).collect::<String>());
            if !sh.sched_out.is_empty() && sh.sched_out.len() < 200_000 {
                o.set("segs", V::Arr(sh.sched_out.iter().map(|&(a, b)| V::from(vec![a as i64, b as i64])).collect()));
            }
        }
    }
    o
}

/// Protocol output: the original stdout; fd 1 is pointed at /dev/null (code under test prints).
fn steal_stdout() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10);
        let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(nul, 1);
        libc::close(nul);
        std::fs::File::from_raw_fd(fd)
    }
}
/// Brings process-wide state that is set up on first use (rand's fork handler) to where it stays.
fn settle() {
    let _ = std::thread::spawn(|| komunikilo::awgn(std::iter::repeat(0.0).take(1), 1.0).count()).join();
}
fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    match cmd {
        "check" => std::process::exit(check(&a[2], seed, thorough)),
        "worker" => {
            // worker <id> <seed> <thorough> <from> <to>
            let p = prop(&a[2]);
            let (seed, th) = (a[3].parse().unwrap(), a[4] == "1");
            let (from, to): (u64, u64) = (a[5].parse().unwrap(), a[6].parse().unwrap());
            let mut out = steal_stdout();
            limit_memory();
            crate::core::install_panic_hook();
            settle();
            if p.python() {
                crate::props::py_init();
            }
            for k in from..to {
                let plan = plan_of(&*p, seed, k, th);
                let _ = writeln!(out, "S {k}");
                let res = execute(&*p, &plan, false, th);
                if writeln!(out, "R {k} {}", res.dump()).is_err() {
                    break;
                }
            }
            std::process::exit(0);
        }
        "exec" => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            let v = V::parse(&s).expect("plan json");
            let p = prop(v.get("property").s());
            let mut out = steal_stdout();
            limit_memory();
            crate::core::install_panic_hook();
            settle();
            if p.python() {
                crate::props::py_init();
            }
            let res = execute(&*p, v.get("plan"), v.get("trace").b(), v.get("thorough").b());
            let _ = writeln!(out, "{}", res.dump());
            std::process::exit(0);
        }
        "plan" => {
            let p = prop(&a[2]);
            println!("{}", plan_of(&*p, seed, a[3].parse().unwrap(), thorough).pretty());
        }
        "replay" => std::process::exit(replay(&a[2])),
        "determinism" => std::process::exit(determinism(&a[2], a[3].parse().unwrap(), seed, thorough)),
        "list" => {
            for p in props::all() {
                println!("{}", p.id());
            }
        }
        _ => {
            eprintln!("usage: ksim check <ID> | replay <file> | determinism <ID> <n> | plan <ID> <k>");
            std::process::exit(2);
        }
    }
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

/// Runs a plan in a fresh process. None: the process died or hung (class says how).
fn exec_plan(id: &str, plan: &V, trace: bool, thorough: bool, limit: Duration) -> V {
    let req = obj! {"property" => id, "plan" => plan.clone(), "trace" => trace, "thorough" => thorough};
    let mut ch = Command::new(exe()).arg("exec").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn exec");
    let mut stdin = ch.stdin.take().unwrap();
    let text = req.dump();
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let mut so = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    let out = rx.recv_timeout(limit);
    let _ = ch.kill();
    let st = ch.wait();
    let _ = w.join();
    match out {
        Ok(s) => V::parse(s.trim()).unwrap_or_else(|_| obj! {"r" => "violation", "class" => "abort", "msg" => format!("the process died: {st:?}")}),
        Err(_) => obj! {"r" => "violation", "class" => "hang", "msg" => format!("no result within {limit:?}")},
    }
}

#[derive(Default)]
struct Stats {
    runs: u64,
    invalid: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    sigs: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    items: u64,
    sim_s: f64,
    switches: u64,
    run_ms: f64,
    slowest: (f64, u64),
    known: BTreeMap<String, u64>,
    logs: BTreeMap<u64, String>,
    bad: Vec<(u64, u64, V)>, // (run, batch start, result)
}

fn add_map(dst: &mut BTreeMap<String, u64>, v: &V) {
    if let V::Obj(m) = v {
        for (k, n) in m {
            *dst.entry(k.clone()).or_insert(0) += n.i() as u64;
        }
    }
}

struct Known {
    id: String,
    class: String,
    matches: String,
    text: String,
}
/// Lines "finding: property=<id> class=<class> match=<text of the message> :: <what fails>".
fn known_findings(root: &std::path::Path) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let (head, text) = r.split_once(" :: ").unwrap_or((r, ""));
                let f = |k: &str| head.split_once(k).map(|x| x.1).unwrap_or("").to_string();
                let id = f("property=").split(' ').next().unwrap_or("").to_string();
                let class = f("class=").split(' ').next().unwrap_or("").to_string();
                out.push(Known { id, class, matches: f("match="), text: text.to_string() });
            }
        }
    }
    out
}

fn root() -> std::path::PathBuf {
    // <root>/sim/target/release/ksim
    exe().ancestors().nth(4).map(|p| p.to_path_buf()).unwrap_or_else(|| ".".into())
}

fn check(id: &str, seed: u64, thorough: bool) -> i32 {
    let p = prop(id);
    let b = p.budget();
    let mut runs = if thorough { b.thorough } else { b.quick };
    if let Some(n) = std::env::var("KSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = n;
    }
    let wall = Duration::from_secs_f64(std::env::var("KSIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500.0 } else { 240.0 }));
    let jobs: usize = std::env::var("KSIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let run_limit = Duration::from_secs(if thorough { 120 } else { 60 });
    let t0 = Instant::now();
    println!("{id}: VERIF_SEED={seed} tier={} runs={runs}", if thorough { "thorough" } else { "quick" });
    let known: Vec<Known> = known_findings(&root()).into_iter().filter(|k| k.id == id).collect();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let harness_err: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..jobs {
            s.spawn(|| loop {
                if stop.load(Ordering::SeqCst) || t0.elapsed() > wall {
                    return;
                }
                let from = next.fetch_add(b.batch, Ordering::SeqCst);
                if from >= runs {
                    return;
                }
                let to = (from + b.batch).min(runs);
                let mut k0 = from;
                while k0 < to {
                    if stop.load(Ordering::SeqCst) || t0.elapsed() > wall {
                        return;
                    }
                    match batch(&*p, seed, thorough, k0, to, run_limit, &stats, &known, &stop) {
                        Ok(n) => k0 = n,
                        Err(e) => {
                            *harness_err.lock().unwrap() = Some(e);
                            stop.store(true, Ordering::SeqCst);
                            return;
                        }
                    }
                }
            });
        }
    });
    if let Some(e) = harness_err.into_inner().unwrap() {
        eprintln!("harness error: {e}");
        return 2;
    }
    let mut st = stats.into_inner().unwrap();
    let explore_s = t0.elapsed().as_secs_f64();
    st.bad.sort_by_key(|b| b.0);
    let mut code = 0;
    let mut nondet = 0u64;
    let mut rechecked = 0u64;
    let mut violation = V::Null;
    if let Some((k, batch_from, res)) = st.bad.first().cloned() {
        let path = report(&*p, seed, thorough, k, batch_from, &res, run_limit);
        println!("violation class {}: {}", res.get("class").s(), res.get("msg").s());
        println!("VIOLATION property={id} replay={path}");
        violation = obj! {"run" => k, "class" => res.get("class").s(), "msg" => res.get("msg").s(), "replay" => path};
        code = 1;
    } else {
        // Determinism self-check: some runs again, each in a fresh process, in another order.
        let ks: Vec<u64> = st.logs.keys().cloned().collect();
        let n = if thorough { 96 } else { 24 }.min(ks.len());
        let mut r = Rng::new(mix(seed ^ 0xdede));
        let pick: Vec<u64> = (0..n).map(|_| *r.pick(&ks)).collect();
        let q = Mutex::new(pick);
        let res = Mutex::new((0u64, 0u64));
        std::thread::scope(|s| {
            for _ in 0..jobs {
                s.spawn(|| loop {
                    let Some(k) = q.lock().unwrap().pop() else { return };
                    let plan = plan_of(&*p, seed, k, thorough);
                    let o = exec_plan(id, &plan, false, thorough, run_limit);
                    let mut g = res.lock().unwrap();
                    g.0 += 1;
                    if o.get("log").s() != st.logs[&k] {
                        g.1 += 1;
                        eprintln!("warning: run {k} did not repeat exactly (log {} then {})", st.logs[&k], o.dump());
                    }
                });
            }
        });
        let g = res.into_inner().unwrap();
        rechecked = g.0;
        nondet = g.1;
    }
    for kf in &known {
        let n = st.known.get(&kf.text).cloned().unwrap_or(0);
        println!("KNOWN-FINDING: property={id} {} (met in {n} runs)", kf.text);
    }
    let wall_s = t0.elapsed().as_secs_f64();
    // ---- evidence -----------------------------------------------------------------------------
    let samples: Vec<V> = (0..runs.min(3))
        .map(|i| {
            let k = i * (runs / 3).max(1);
            let mut pl = plan_of(&*p, seed, k, thorough);
            let d = pl.dump();
            if d.len() > 1500 {
                pl = V::Str(format!("{}…", d.chars().take(1500).collect::<String>()));
            }
            obj! {"run" => k, "plan" => pl}
        })
        .collect();
    let mut comps = BTreeMap::new();
    for (c, k) in p.components() {
        comps.insert(c.to_string(), V::from(k));
    }
    let tomap = |m: &BTreeMap<String, u64>| V::Obj(m.iter().map(|(k, v)| (k.clone(), V::from(*v))).collect());
    let cov = obj! {
        "evaluations" => st.runs,
        "distinct_nontrivial" => st.nontrivial.len(),
        "rule" => format!("{}. Distinct: different (fault sequence with positions, scheme shape, schedule) signatures among runs in which at least one fault or task switch happened.", p.rule()),
        "samples" => samples,
        "planned_runs" => runs,
        "invalid_plans" => st.invalid,
        "distinct_signatures" => st.sigs.len(),
        "faults_injected" => tomap(&st.faults),
        "probes" => tomap(&st.probes),
        "items_through_code_under_test" => st.items,
        "task_switches" => st.switches,
        "simulated_seconds" => st.sim_s,
        "runs_per_hour" => (st.runs as f64 / explore_s * 3600.0).round(),
        "seeds_per_hour" => (st.runs as f64 / explore_s * 3600.0).round(),
        "slowest_run_ms" => st.slowest.0,
        "determinism_reruns" => rechecked,
        "determinism_mismatches" => nondet,
        "components" => V::Obj(comps),
        "violation" => violation,
    };
    let ev = obj! {
        "property" => id, "tier" => if thorough { "thorough" } else { "quick" }, "seed" => V::Int((seed & 0x7fff_ffff_ffff_ffff) as i64),
        "level" => "exploration", "coverage" => cov, "wall_s" => (wall_s * 100.0).round() / 100.0, "violations" => st.bad.len(),
        "assumptions" => p.assumptions().into_iter().map(V::from).collect::<Vec<_>>(),
    };
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), ev.pretty()) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{id}: {} runs, {} distinct non-trivial, {:.3} simulated s, {} items, {} switches, {:.1} s; faults {}; probes {}; determinism {}/{}; slowest run {} {:.0} ms",
        st.runs, st.nontrivial.len(), st.sim_s, st.items, st.switches, wall_s, tomap(&st.faults).dump(), tomap(&st.probes).dump(), rechecked - nondet, rechecked, st.slowest.1, st.slowest.0
    );
    if code == 0 && st.runs == 0 {
        eprintln!("no run completed");
        return 2;
    }
    if code == 0 && nondet > 0 && std::env::var("KSIM_STRICT").is_ok() {
        return 2;
    }
    code
}

/// Runs [from, to) in one worker process; returns where to continue.
#[allow(clippy::too_many_arguments)]
fn batch(p: &dyn Prop, seed: u64, th: bool, from: u64, to: u64, limit: Duration, stats: &Mutex<Stats>, known: &[Known], stop: &AtomicBool) -> Result<u64, String> {
    let mut ch = Command::new(exe())
        .args(["worker", p.id(), &seed.to_string(), if th { "1" } else { "0" }, &from.to_string(), &to.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(if std::env::var("KSIM_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .map_err(|e| e.to_string())?;
    let so = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    let mut cur: Option<u64> = None;
    let mut done = from;
    let bad = |k: u64, o: V| {
        let mut g = stats.lock().unwrap();
        g.runs += 1;
        g.bad.push((k, from, o));
        stop.store(true, Ordering::SeqCst);
    };
    loop {
        match rx.recv_timeout(limit) {
            Ok(l) => {
                if let Some(k) = l.strip_prefix("S ") {
                    cur = k.parse().ok();
                } else if let Some(r) = l.strip_prefix("R ") {
                    let (k, j) = r.split_once(' ').ok_or("protocol")?;
                    let k: u64 = k.parse().map_err(|_| "protocol")?;
                    let o = V::parse(j)?;
                    done = k + 1;
                    cur = None;
                    let mut g = stats.lock().unwrap();
                    match o.get("r").s() {
                        "invalid" => {
                            g.invalid += 1;
                            if std::env::var("KSIM_STDERR").is_ok() {
                                eprintln!("invalid plan in run {k}: {}", o.get("msg").s());
                            }
                            continue;
                        }
                        "violation" => {
                            let msg = o.get("msg").s().to_string();
                            if let Some(kf) = known.iter().find(|f| f.class == o.get("class").s() && msg.contains(&f.matches)) {
                                *g.known.entry(kf.text.clone()).or_insert(0) += 1;
                            } else {
                                drop(g);
                                bad(k, o);
                                let _ = ch.kill();
                                let _ = ch.wait();
                                return Ok(u64::MAX);
                            }
                        }
                        _ => {}
                    }
                    g.runs += 1;
                    add_map(&mut g.faults, o.get("faults"));
                    add_map(&mut g.probes, o.get("probes"));
                    let sig = u64::from_str_radix(o.get("sig").s(), 16).unwrap_or(0);
                    g.sigs.insert(sig);
                    let any = matches!(o.get("faults"), V::Obj(m) if !m.is_empty()) || o.get("sw").i() > 0;
                    if any {
                        g.nontrivial.insert(sig);
                    }
                    g.items += o.get("items").i() as u64;
                    g.sim_s += o.get("sim_s").f();
                    g.switches += o.get("sw").i() as u64;
                    let ms = o.get("ms").f();
                    g.run_ms += ms;
                    if ms > g.slowest.0 {
                        g.slowest = (ms, k);
                    }
                    let l = o.get("log").s().to_string();
                    if k % 7 == 0 {
                        g.logs.insert(k, l);
                    }
                    if stop.load(Ordering::SeqCst) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        return Ok(u64::MAX);
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let _ = ch.kill();
                let _ = ch.wait();
                match cur {
                    Some(k) => {
                        bad(k, obj! {"r" => "violation", "class" => "hang", "msg" => format!("run did not finish within {limit:?}")});
                        return Ok(u64::MAX);
                    }
                    None => return Err("worker silent outside a run".into()),
                }
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                let st = ch.wait().map_err(|e| e.to_string())?;
                if let Some(k) = cur {
                    bad(k, obj! {"r" => "violation", "class" => "abort", "msg" => format!("the process running the code under test died: {st}")});
                    return Ok(u64::MAX);
                }
                if done >= to {
                    return Ok(to);
                }
                return Err(format!("worker ended early ({st}) at run {done}"));
            }
        }
    }
}

/// Confirms a violation in a fresh process, minimises it and writes the replay file.
fn report(p: &dyn Prop, seed: u64, th: bool, k: u64, batch_from: u64, res: &V, limit: Duration) -> String {
    let id = p.id();
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-seed{seed}-run{k}.json"));
    let class = res.get("class").s().to_string();
    let mut plan = plan_of(p, seed, k, th);
    let orig = plan.clone();
    let with_segs = |mut pl: V, r: &V| -> V {
        if r.has("segs") {
            let mut sc = pl.get("sched").clone();
            if !matches!(sc, V::Obj(_)) {
                sc = obj! {};
            }
            sc.set("segs", r.get("segs").clone());
            pl.set("sched", sc);
        }
        pl
    };
    let mut kind = "plan";
    let mut conf = exec_plan(id, &plan, false, th, limit);
    if conf.get("class").s() != class {
        conf = exec_plan(id, &plan, false, th, limit);
    }
    let mut attempts = 0;
    let mut accepted = 0;
    if conf.get("class").s() == class {
        let lim = limit.min(Duration::from_secs(20));
        let explicit = with_segs(plan.clone(), &conf);
        if explicit != plan {
            let c = exec_plan(id, &explicit, false, th, lim);
            if c.get("class").s() == class {
                plan = explicit;
                conf = c;
            }
        }
        let t0 = Instant::now();
        let budget = Duration::from_secs(if class == "hang" { 0 } else { 40 });
        let mut best = shrink::size(&plan);
        'outer: loop {
            let mut cands: Vec<(f64, V)> = shrink::candidates(&plan).into_iter().map(|c| (shrink::size(&c), c)).filter(|c| c.0 < best - 1e-9).collect();
            if cands.len() > 600 {
                cands.truncate(600);
            }
            // boldest first, eight at a time
            for group in cands.chunks(8) {
                if t0.elapsed() > budget || attempts > 1500 {
                    break 'outer;
                }
                let rs: Vec<V> = std::thread::scope(|s| {
                    let h: Vec<_> = group.iter().map(|(_, c)| s.spawn(move || exec_plan(id, c, false, th, lim))).collect();
                    h.into_iter().map(|h| h.join().unwrap()).collect()
                });
                attempts += group.len();
                let mut hit: Option<usize> = None;
                for (i, r) in rs.iter().enumerate() {
                    if r.get("class").s() == class && hit.map_or(true, |h| group[i].0 < group[h].0) {
                        hit = Some(i);
                    }
                }
                if let Some(i) = hit {
                    plan = group[i].1.clone();
                    best = group[i].0;
                    conf = rs[i].clone();
                    accepted += 1;
                    continue 'outer;
                }
            }
            break;
        }
    } else {
        // The run depends on what its process did before: replay the whole batch up to it.
        kind = "batch";
    }
    let traced = if kind == "plan" { exec_plan(id, &plan, true, th, limit) } else { V::Null };
    let out = obj! {
        "property" => id, "kind" => kind, "seed" => V::from(seed), "tier" => if th { "thorough" } else { "quick" }, "run" => k,
        "batch_from" => batch_from, "class" => class, "msg" => if kind == "plan" { conf.get("msg").s() } else { res.get("msg").s() },
        "log" => conf.get("log").s(), "plan" => plan, "original_plan" => orig, "shrink_attempts" => attempts as u64, "shrink_steps" => accepted as u64,
        "trace" => traced.get("trace").clone(),
    };
    let _ = std::fs::write(&path, out.pretty());
    path.display().to_string()
}

fn replay(file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let v = match V::parse(&s) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let id = v.get("property").s();
    let th = v.get("tier").s() == "thorough";
    let p = prop(id);
    let limit = Duration::from_secs(120);
    let (res, plan) = if v.get("kind").s() == "batch" {
        let st = Mutex::new(Stats::default());
        let stop = AtomicBool::new(false);
        let _ = batch(&*p, v.get("seed").u64(), th, v.get("batch_from").u64(), v.get("run").u64() + 1, limit, &st, &[], &stop);
        let st = st.into_inner().unwrap();
        let r = st.bad.first().map(|b| b.2.clone()).unwrap_or(obj! {"r" => "ok"});
        (r, V::Null)
    } else {
        (exec_plan(id, v.get("plan"), true, th, limit), v.get("plan").clone())
    };
    if plan.has("bits") || plan != V::Null {
        println!("plan: {}", plan.dump());
    }
    for t in res.get("trace").a() {
        println!("  {}", t.s());
    }
    println!("result: {} {} {}", res.get("r").s(), res.get("class").s(), res.get("msg").s());
    println!("event log: {} (recorded {})", res.get("log").s(), v.get("log").s());
    if res.get("r").s() == "violation" {
        if res.get("class").s() == v.get("class").s() {
            println!("VIOLATION property={id} replay={file}");
        } else {
            println!("VIOLATION property={id} replay={file} (class differs from the recorded {})", v.get("class").s());
        }
        1
    } else {
        0
    }
}

fn determinism(id: &str, n: u64, seed: u64, th: bool) -> i32 {
    let p = prop(id);
    let bad = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= n {
                    return;
                }
                let plan = plan_of(&*p, seed, k, th);
                let a = exec_plan(id, &plan, false, th, Duration::from_secs(120));
                let b = exec_plan(id, &plan, false, th, Duration::from_secs(120));
                if a.get("log").s() != b.get("log").s() || a.get("sig").s() != b.get("sig").s() || a.get("r").s() != b.get("r").s() {
                    bad.fetch_add(1, Ordering::SeqCst);
                    println!("run {k}: {} / {}", a.dump(), b.dump());
                }
            });
        }
    });
    println!("{id}: {n} runs twice in separate processes, {} differ", bad.load(Ordering::SeqCst));
    (bad.load(Ordering::SeqCst) > 0) as i32
}
