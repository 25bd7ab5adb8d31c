//! What one simulated run reports, and running a plan in a forked child process.
use crate::digests::{Shared, HASH};
use crate::plan::Plan;
use crate::rng::{hash_bytes, mix};
use crate::simrt::{self, SchedCfg, SimCrash};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::unix::io::FromRawFd;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// (class, what)
    pub violations: Vec<(String, String)>,
    /// (finding, what)
    pub known: Vec<(String, String)>,
    pub probes: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub stats: BTreeMap<String, u64>,
    pub devs: Vec<(u64, u32)>,
    pub trace: Vec<String>,
    /// The run said nothing about the property (its set-up failed for another reason).
    pub void: Option<String>,
}
impl Outcome {
    pub fn classes(&self) -> Vec<String> {
        self.violations.iter().map(|v| v.0.clone()).collect()
    }
}

pub struct Ctx {
    pub o: Outcome,
    pub history: u64,
    pub panic: String,
    fd: i32,
}
impl Ctx {
    pub fn detached() -> Ctx {
        Ctx { o: Outcome::default(), history: 0, panic: String::new(), fd: -1 }
    }
}
pub static CTX: Shared<Option<Ctx>> = Shared::new(None);
pub fn ctx() -> &'static mut Ctx {
    CTX.get().as_mut().expect("run context")
}

pub fn violation(class: &str, what: impl Into<String>) {
    let _q = simrt::Busy::new();
    let what = what.into();
    event(&format!("VIOLATION {class}: {what}"));
    if ctx().o.violations.len() < 20 {
        ctx().o.violations.push((class.into(), what));
    }
}
pub fn known(finding: &str, what: impl Into<String>) {
    let _q = simrt::Busy::new();
    ctx().o.known.push((finding.into(), what.into()));
}
pub fn void(why: impl Into<String>) {
    let _q = simrt::Busy::new();
    let why = why.into();
    event(&format!("void: {why}"));
    if ctx().o.void.is_none() {
        ctx().o.void = Some(why);
    }
}
pub fn probe(name: &str) {
    probe_n(name, 1)
}
pub fn probe_n(name: &str, n: u64) {
    let _q = simrt::Busy::new();
    *ctx().o.probes.entry(name.replace(' ', "-")).or_insert(0) += n;
}
pub fn fault(name: &str) {
    fault_n(name, 1)
}
pub fn fault_n(name: &str, n: u64) {
    let _q = simrt::Busy::new();
    *ctx().o.faults.entry(name.replace(' ', "-")).or_insert(0) += n;
}
/// One line of the recorded history.
pub fn event(what: &str) {
    let _q = simrt::Busy::new();
    let c = ctx();
    if !simrt::in_sim() {
        return;
    }
    let line = format!("{:>10} us  thread {:<3} {}", simrt::now() / 1000, simrt::tid(), what);
    c.history = mix(&[c.history, hash_bytes(line.as_bytes())]);
    if c.o.trace.len() < 400 {
        c.o.trace.push(line);
    }
}

fn clean(s: &str) -> String {
    s.replace(['\n', '\t', '\r'], " ")
}
/// Sends everything to the parent and ends the process.
pub fn finish() -> ! {
    let st = simrt::stats();
    let c = ctx();
    let h = HASH.get();
    for (k, v) in [
        ("steps", st.steps),
        ("switches", st.switches),
        ("preemptions", st.preemptions),
        ("threads", st.threads),
        ("ops", st.ops),
        ("fine", st.fine),
        ("atomics", st.atomics),
        ("sim_us", st.sim_ns / 1000),
        ("schedule", st.hash),
        ("history", c.history),
        ("futex_waits", st.futex_waits),
        ("digests", h.total),
    ] {
        c.o.stats.insert(k.into(), v);
    }
    if st.crashes_fired > 0 {
        c.o.faults.insert("crash".into(), st.crashes_fired);
    }
    if simrt::handed_back() > 0 {
        c.o.faults.insert("memory-reused".into(), simrt::handed_back());
    }
    if h.unusable > 0 {
        c.o.faults.insert("unusable-digest".into(), h.unusable);
    }
    let mut s = String::new();
    let o = &c.o;
    for v in &o.violations {
        s += &format!("V\t{}\t{}\n", v.0, clean(&v.1));
    }
    for v in &o.known {
        s += &format!("K\t{}\t{}\n", v.0, clean(&v.1));
    }
    for (t, m) in [("P", &o.probes), ("F", &o.faults), ("S", &o.stats)] {
        for (k, v) in m {
            s += &format!("{t}\t{k}\t{v}\n");
        }
    }
    if let Some(v) = &o.void {
        s += &format!("X\t{}\n", clean(v));
    }
    if st.recorded.len() < 200_000 {
        for d in &st.recorded {
            s += &format!("D\t{}\t{}\n", d.0, d.1);
        }
    }
    for t in &o.trace {
        s += &format!("T\t{}\n", clean(t));
    }
    s += "END\n";
    let b = s.as_bytes();
    let mut off = 0;
    while off < b.len() {
        let n = unsafe { libc::write(c.fd, b[off..].as_ptr() as *const _, b.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
    unsafe { libc::_exit(0) }
}
fn on_fatal(what: &str) -> ! {
    violation(what, format!("simulated process stopped: {what}"));
    finish()
}

fn parse(text: &str) -> Option<Outcome> {
    if !text.ends_with("END\n") {
        return None;
    }
    let mut o = Outcome::default();
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        let n = || f.get(2).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        match f[0] {
            "V" => o.violations.push((f[1].into(), f[2].into())),
            "K" => o.known.push((f[1].into(), f[2].into())),
            "P" => {
                o.probes.insert(f[1].into(), n());
            }
            "F" => {
                o.faults.insert(f[1].into(), n());
            }
            "S" => {
                o.stats.insert(f[1].into(), n());
            }
            "X" => o.void = Some(f[1].into()),
            "D" => o.devs.push((f[1].parse().ok()?, n() as u32)),
            "T" => o.trace.push(f[1].into()),
            _ => {}
        }
    }
    Some(o)
}

pub struct Child {
    pid: i32,
    file: std::fs::File,
    buf: Vec<u8>,
    started: Instant,
}
pub const WALL_LIMIT: Duration = Duration::from_secs(150);
const CPU_LIMIT: u64 = 100;

/// Starts the plan in a child process. The caller must be single-threaded.
pub fn spawn(plan: &Plan, run: fn(&Plan)) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
        // The plan decides the size of the process-wide thread pool.
        std::env::set_var("RAYON_NUM_THREADS", plan.threads.max(1).to_string());
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = |r, v| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                libc::setrlimit(r, &l);
            };
            lim(libc::RLIMIT_CPU, CPU_LIMIT);
            lim(libc::RLIMIT_AS, 3 << 30);
            lim(libc::RLIMIT_CORE, 0);
            child(plan, run, fds[1]);
        }
        libc::close(fds[1]);
        libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK);
        Child { pid, file: std::fs::File::from_raw_fd(fds[0]), buf: vec![], started: Instant::now() }
    }
}
fn child(plan: &Plan, run: fn(&Plan), fd: i32) -> ! {
    *CTX.get() = Some(Ctx { o: Outcome::default(), history: 0, panic: String::new(), fd });
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<SimCrash>() {
            return;
        }
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("RIPP_SIM_BACKTRACE").is_ok() {
            eprintln!("panic: {msg} ({at})\n{}", std::backtrace::Backtrace::force_capture());
        }
        ctx().panic = format!("{msg} ({at})");
    }));
    simrt::FATAL.store(on_fatal as *const () as usize, std::sync::atomic::Ordering::SeqCst);
    HASH.get().hostile = plan.hostile;
    if plan.scenario == "sequential" {
        crate::props::ask_sequential(plan);
    }
    simrt::set_memory(plan.memory as u32);
    simrt::init(
        SchedCfg { seed: plan.sched_seed, mode: plan.mode.clone(), deviations: plan.devs.clone(), max_steps: 60_000_000, fine: plan.fine as u32, crashes: vec![] },
        mix(&[plan.seed, 0x05eed]),
    );
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(plan)));
    if r.is_err() {
        let p = ctx().panic.clone();
        if p.contains("harness:") {
            eprintln!("{p}");
            unsafe { libc::_exit(98) }
        }
        violation("harness-panic", p);
    }
    finish()
}

impl Child {
    /// Result, once the child has ended.
    pub fn poll(&mut self) -> Option<Outcome> {
        let mut tmp = [0u8; 65536];
        loop {
            match self.file.read(&mut tmp) {
                Ok(0) => break,
                Ok(n) => self.buf.extend_from_slice(&tmp[..n]),
                Err(_) => {
                    if self.started.elapsed() > WALL_LIMIT {
                        unsafe { libc::kill(self.pid, libc::SIGKILL) };
                        self.reap();
                        return Some(died("killed", "exceeded its time limit"));
                    }
                    return None;
                }
            }
        }
        let st = self.reap();
        let text = String::from_utf8_lossy(&self.buf).to_string();
        Some(match parse(&text) {
            Some(o) => o,
            None if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 98 => died("harness-panic", "harness assertion"),
            None if libc::WIFSIGNALED(st) => died("killed", &format!("process ended by signal {} (out of memory, stack or time)", libc::WTERMSIG(st))),
            None => died("killed", &format!("process ended with status {st}")),
        })
    }
    fn reap(&self) -> i32 {
        let mut st = 0;
        unsafe { libc::waitpid(self.pid, &mut st, 0) };
        st
    }
    pub fn fd(&self) -> i32 {
        use std::os::unix::io::AsRawFd;
        self.file.as_raw_fd()
    }
}
fn died(class: &str, what: &str) -> Outcome {
    Outcome { violations: vec![(class.into(), what.into())], ..Default::default() }
}
pub fn wait_any(children: &[&Child]) {
    let mut p: Vec<libc::pollfd> = children.iter().map(|c| libc::pollfd { fd: c.fd(), events: libc::POLLIN, revents: 0 }).collect();
    unsafe { libc::poll(p.as_mut_ptr(), p.len() as u64, 500) };
}
/// Runs one plan to its end.
pub fn run_one(plan: &Plan, run: fn(&Plan)) -> Outcome {
    let mut c = spawn(plan, run);
    loop {
        if let Some(o) = c.poll() {
            return o;
        }
        wait_any(&[&c]);
    }
}
