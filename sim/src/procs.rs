//! Simulated processes: real forks whose entropy, clock and output the simulator owns.
use crate::core::{enter_sim, Ctx, Fail, Shared, R};
use crate::json::V;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

/// Runs `f` in a forked child and returns the bytes it produced, or how the child died.
/// The child's entropy is that of the process path `path`.
pub fn forked(ctx: &Ctx, path: u64, f: impl FnOnce(&Ctx) -> Vec<u8>) -> Result<Vec<u8>, String> {
    spawn(ctx, path, false, f)
}

/// `unseen`: the copy is the simulator's own and no fork handler of the code under test runs for it.
fn spawn(ctx: &Ctx, path: u64, unseen: bool, f: impl FnOnce(&Ctx) -> Vec<u8>) -> Result<Vec<u8>, String> {
    let mut fd = [0i32; 2];
    unsafe {
        if libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            return Err("pipe".into());
        }
        let pid = if unseen { libc::syscall(libc::SYS_fork) as libc::pid_t } else { libc::fork() };
        if pid < 0 {
            libc::close(fd[0]);
            libc::close(fd[1]);
            return Err("fork".into());
        }
        if pid == 0 {
            libc::close(fd[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                ctx.entropy.lock().unwrap_or_else(|e| e.into_inner()).process = path;
                enter_sim(ctx);
                f(ctx)
            }));
            let code = match r {
                Ok(v) => {
                    let mut w = std::fs::File::from_raw_fd(fd[1]);
                    match w.write_all(&v) {
                        Ok(()) => 0,
                        Err(_) => 3,
                    }
                }
                Err(_) => 4,
            };
            libc::_exit(code);
        }
        libc::close(fd[1]);
        let mut out = vec![];
        let mut r = std::fs::File::from_raw_fd(fd[0]);
        let _ = r.read_to_end(&mut out);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {
            if *libc::__errno_location() != libc::EINTR {
                return Err("waitpid".into());
            }
        }
        if st != 0 {
            let how = if libc::WIFSIGNALED(st) { format!("killed by signal {}", libc::WTERMSIG(st)) } else { format!("exit status {}", libc::WEXITSTATUS(st)) };
            return Err(how);
        }
        Ok(out)
    }
}

/// Runs `f` in a copy of this process that the code under test cannot notice.
pub fn aside(ctx: &Ctx, f: impl FnOnce(&Ctx) -> Vec<u8>) -> Result<Vec<u8>, String> {
    spawn(ctx, 0, true, f)
}

/// Runs a simulation in a throw-away copy of this process, whose counters come back with the result:
/// whatever it does to process-wide state (rand counts forks) cannot reach the next run.
pub fn isolated(ctx: &Ctx, f: impl FnOnce(&Ctx) -> V) -> Result<V, String> {
    let bytes = spawn(ctx, 0, true, |c| {
        {
            let mut g = c.sh.lock().unwrap_or_else(|e| e.into_inner());
            let trace = g.trace.is_some();
            *g = Shared { log: g.log, log_n: g.log_n, sig: g.sig, trace: if trace { Some(vec![]) } else { None }, ..Default::default() };
        }
        let v = f(c);
        let g = c.sh.lock().unwrap_or_else(|e| e.into_inner());
        let map = |m: &std::collections::BTreeMap<&'static str, u64>| V::Obj(m.iter().map(|(k, v)| (k.to_string(), V::from(*v))).collect());
        let mut o = obj! {"v" => v, "log" => g.log as i64, "log_n" => g.log_n, "sig" => g.sig as i64, "items" => g.items, "sim_s" => g.sim_s, "sw" => g.switches};
        o.set("faults", map(&g.faults));
        o.set("probes", map(&g.probes));
        o.set("segs", V::Arr(g.sched_out.iter().map(|&(a, b)| V::from(vec![a as i64, b as i64])).collect()));
        if let Some(t) = &g.trace {
            o.set("trace", t.iter().cloned().map(V::from).collect::<Vec<_>>());
        }
        o.dump().into_bytes()
    })?;
    let o = V::parse(&String::from_utf8_lossy(&bytes)).map_err(|e| format!("child output: {e}"))?;
    let mut g = ctx.sh.lock().unwrap_or_else(|e| e.into_inner());
    g.log = o.get("log").i() as u64;
    g.log_n = o.get("log_n").u64();
    g.sig = o.get("sig").i() as u64;
    g.items += o.get("items").u64();
    g.sim_s += o.get("sim_s").f();
    g.switches += o.get("sw").u64();
    for (name, which) in [("faults", 0), ("probes", 1)] {
        if let V::Obj(m) = o.get(name) {
            for (k, v) in m {
                let k: &'static str = intern(k);
                *(if which == 0 { &mut g.faults } else { &mut g.probes }).entry(k).or_insert(0) += v.u64();
            }
        }
    }
    g.sched_out.extend(o.get("segs").a().iter().map(|s| (s.a()[0].u() as u32, s.a()[1].u() as u32)));
    if let Some(t) = g.trace.as_mut() {
        t.extend(o.get("trace").a().iter().map(|s| s.s().to_string()));
    }
    Ok(o.get("v").clone())
}

/// As `isolated`, for a whole run.
pub fn in_copy(ctx: &Ctx, f: impl FnOnce(&Ctx) -> R) -> R {
    let r = isolated(ctx, |c| match f(c) {
        Ok(()) => V::from("ok"),
        Err(Fail::Violation { class, msg }) => obj! {"class" => class, "msg" => msg},
        Err(Fail::Invalid(m)) => obj! {"invalid" => m},
    });
    match r {
        Err(e) => vio!("abort", "the process: {e}"),
        Ok(v) if v.has("class") => vio!(v.get("class").s(), "{}", v.get("msg").s()),
        Ok(v) if v.has("invalid") => invalid!("{}", v.get("invalid").s()),
        Ok(_) => Ok(()),
    }
}

fn intern(s: &str) -> &'static str {
    use std::collections::BTreeSet;
    use std::sync::Mutex;
    static T: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut g = T.lock().unwrap();
    if let Some(x) = g.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    g.insert(l);
    l
}
