//! Simulation runtime: decides which thread runs.
//!
//! Every thread of a simulated process (the nodes, and every worker thread that the *unmodified*
//! rayon-core starts for them) is a real OS thread that is parked except when the seeded scheduler
//! hands it the baton. The seam is the C library: this executable defines `pthread_create`,
//! `pthread_join`, `syscall` (std and rayon reach the futex through it), `sched_yield`,
//! `clock_gettime`, `nanosleep` and `getrandom`, and for simulated threads answers them from the
//! simulation: thread creation registers a new simulated thread, futex waits and wakes block and
//! unblock simulated threads, clocks read simulated time, `getrandom` reads the seed. Further
//! scheduling points (`yield_point`) are placed in the group, pairing, digest, random-source and
//! stream seams. One seed therefore decides the complete interleaving.
//!
//! All state below is only touched by the thread that holds the baton (or before any exists).
use crate::rng::SRng;
use std::arch::asm;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};

pub const NONE: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Runnable,
    /// Blocked on a key; the deadline is in simulated nanoseconds.
    Blocked(u64, u64),
    Done,
}

struct Th {
    sem: Box<AtomicU32>,
    st: St,
    timed_out: bool,
    prio: u64,
    pthread: usize,
    spins: u32,
    node: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    /// Preempt with mean gap `g` scheduling points, next thread uniformly random.
    Random { gap: u32 },
    /// Priority based (PCT): strict random priorities with `d` priority change points.
    Pct { d: u32, horizon: u32 },
    /// Never preempt.
    Sequential,
    /// Thread number `victim` only runs when nothing else can.
    Starve { victim: u32, gap: u32 },
    /// Follow the recorded deviations from the default (non-preemptive) policy.
    Replay,
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    pub seed: u64,
    pub mode: Mode,
    pub deviations: Vec<(u64, u32)>,
    pub max_steps: u64,
    /// Mean number of allocations of library code between scheduling points (0: they are none).
    pub fine: u32,
    /// Abort (panic with `SimCrash`) whatever runs at these seam-operation numbers.
    pub crashes: Vec<u64>,
}

/// Panic payload of an injected abort.
pub struct SimCrash;

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub threads: u64,
    pub ops: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub fine: u64,
    pub atomics: u64,
    pub crashes_fired: u64,
    pub recorded: Vec<(u64, u32)>,
}

struct Sim {
    threads: Vec<Th>,
    cur: u32,
    /// What the machine says about its processors.
    cpus: usize,
    clock: u64,
    rng: SRng,
    os_rng: SRng,
    cfg: SchedCfg,
    dev: BTreeMap<u64, u32>,
    countdown: u32,
    changes: Vec<u64>,
    stats: Stats,
    crashes: Vec<u64>,
    next_crash: usize,
    /// Earliest deadline of a blocked thread.
    next_deadline: u64,
    fine_rng: SRng,
    fine_left: u32,
    /// Numbers the wake-ups within one step.
    wake_step: u64,
    wake_seq: u64,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut SIM: *mut Sim = std::ptr::null_mut();
static KEY: AtomicU32 = AtomicU32::new(u32::MAX);

thread_local! {
    static TID: Cell<u32> = const { Cell::new(NONE) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    /// Inside library code, where allocations are scheduling points too.
    static FINE: Cell<bool> = const { Cell::new(false) };
    /// Started by the library (or not yet declared otherwise): library code from its first seam on
    /// (not before: the standard library's start-up code allocates according to stack addresses).
    static FRESH: Cell<bool> = const { Cell::new(false) };
    /// Inside this file.
    static BUSY: Cell<u32> = const { Cell::new(0) };
}

#[allow(static_mut_refs)]
fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

/// Is the calling thread a simulated one?
pub fn in_sim() -> bool {
    TID.with(|t| t.get()) != NONE
}
pub fn tid() -> u32 {
    TID.with(|t| t.get())
}

/// What a run that cannot continue reports (deadlock, step cap). Never returns.
pub static FATAL: AtomicUsize = AtomicUsize::new(0);
fn fatal(what: &str) -> ! {
    let f = FATAL.load(SeqCst);
    if f != 0 {
        let f: fn(&str) -> ! = unsafe { std::mem::transmute(f) };
        f(what)
    }
    unsafe { libc::_exit(99) }
}

unsafe fn raw_syscall(n: c_long, a: [c_long; 6]) -> c_long {
    let ret: c_long;
    asm!("syscall", inlateout("rax") n => ret,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
fn raw_wait(a: &AtomicU32, v: u32) {
    unsafe { raw_syscall(libc::SYS_futex, [a.as_ptr() as c_long, 128, v as c_long, 0, 0, 0]) };
}
fn raw_wake(a: &AtomicU32) {
    unsafe { raw_syscall(libc::SYS_futex, [a.as_ptr() as c_long, 129, 1, 0, 0, 0]) };
}

extern "C" fn on_thread_exit(v: *mut c_void) {
    // Runs after the thread's TLS destructors: the thread is finished for the simulation.
    let t = v as usize as u32 - 1;
    let _b = Busy::new();
    let s = sim();
    s.threads[t as usize].st = St::Done;
    wake_key(JOIN | t as u64, usize::MAX);
    TID.with(|c| c.set(NONE));
    step(s);
    let next = s.pick_next(None);
    s.hand_over(next);
}

const JOIN: u64 = 1 << 63;
const APP: u64 = 1 << 62;
const SLEEP: u64 = 1 << 61;
const FOREVER: u64 = u64::MAX;

/// Starts the simulation with the calling thread as simulated thread 0.
pub fn init(cfg: SchedCfg, os_seed: u64) {
    let mut rng = SRng::new(cfg.seed);
    let dev = cfg.deviations.iter().cloned().collect();
    let mut changes = vec![];
    if let Mode::Pct { d, horizon } = cfg.mode {
        for _ in 0..d {
            changes.push(rng.below(horizon.max(1) as usize) as u64);
        }
        changes.sort();
    }
    let prio = rng.u64() | 1 << 63;
    let mut crashes = cfg.crashes.clone();
    crashes.sort();
    let s = Box::new(Sim {
        threads: vec![Th { sem: Box::new(AtomicU32::new(0)), st: St::Runnable, timed_out: false, prio,
            pthread: unsafe { libc::pthread_self() } as usize, spins: 0, node: 0 }],
        cur: 0,
        clock: 1_000_000,
        rng,
        os_rng: SRng::new(os_seed),
        cfg,
        dev,
        countdown: 1,
        changes,
        stats: Stats { threads: 1, hash: 0xcbf2_9ce4_8422_2325, ..Default::default() },
        crashes,
        next_crash: 0,
        next_deadline: FOREVER,
        cpus: [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24, 64][(os_seed >> 7) as usize % 13],
        fine_rng: SRng::new(os_seed ^ 0xf19e),
        fine_left: 1,
        wake_step: 0,
        wake_seq: 0,
    });
    unsafe {
        if KEY.load(SeqCst) == u32::MAX {
            let mut k: libc::pthread_key_t = 0;
            libc::pthread_key_create(&mut k, Some(std::mem::transmute(on_thread_exit as *const ())));
            KEY.store(k, SeqCst);
        }
        SIM = Box::into_raw(s);
    }
    TID.with(|t| t.set(0));
    ACTIVE.store(true, SeqCst);
    sim().draw_gap();
}

impl Sim {
    fn draw_gap(&mut self) {
        self.countdown = match self.cfg.mode {
            Mode::Random { gap } | Mode::Starve { gap, .. } => {
                if gap <= 1 { 1 } else { 1 + self.rng.below(2 * gap as usize - 1) as u32 }
            }
            Mode::Pct { .. } | Mode::Replay => 1,
            Mode::Sequential => u32::MAX,
        };
    }

    /// Timeouts take effect at the very step that reaches them, under every policy.
    fn expire(&mut self) {
        if self.clock < self.next_deadline {
            return;
        }
        self.next_deadline = FOREVER;
        for t in self.threads.iter_mut() {
            if let St::Blocked(_, d) = t.st {
                if d <= self.clock {
                    t.st = St::Runnable;
                    t.timed_out = true;
                } else {
                    self.next_deadline = self.next_deadline.min(d);
                }
            }
        }
    }

    fn runnable(&self) -> Vec<u32> {
        (0..self.threads.len() as u32).filter(|i| self.threads[*i as usize].st == St::Runnable).collect()
    }

    /// The thread the non-preemptive policy runs: the current one if it can, else the next runnable.
    fn default_choice(&self, cur: Option<u32>, run: &[u32]) -> u32 {
        if let Some(c) = cur {
            if run.contains(&c) {
                return c;
            }
        }
        *run.iter().find(|t| **t > self.cur).unwrap_or(&run[0])
    }

    /// Decides who runs next. `cur` is the calling thread if it may continue.
    fn pick_next(&mut self, cur: Option<u32>) -> u32 {
        self.expire();
        let mut run = self.runnable();
        if run.is_empty() {
            // Nothing can run: simulated time jumps to the next deadline.
            let d = self.threads.iter().filter_map(|t| match t.st { St::Blocked(_, d) if d != FOREVER => Some(d), _ => None }).min();
            match d {
                Some(d) => {
                    self.clock = d;
                    self.expire();
                    run = self.runnable();
                }
                None => fatal("deadlock"),
            }
        }
        let default = self.default_choice(cur, &run);
        let choice = if run.len() == 1 {
            run[0]
        } else {
            match self.cfg.mode {
                Mode::Random { .. } => run[self.rng.below(run.len())],
                Mode::Sequential => default,
                Mode::Starve { victim, .. } => {
                    let others: Vec<u32> = run.iter().cloned().filter(|t| *t != victim).collect();
                    if others.is_empty() { run[0] } else { others[self.rng.below(others.len())] }
                }
                Mode::Pct { .. } => {
                    *run.iter().max_by_key(|t| self.threads[**t as usize].prio).unwrap()
                }
                Mode::Replay => match self.dev.get(&self.stats.steps) {
                    Some(t) if run.contains(t) => *t,
                    _ => default,
                },
            }
        };
        if choice != default {
            self.stats.recorded.push((self.stats.steps, choice));
        }
        choice
    }

    fn hand_over(&mut self, next: u32) {
        self.cur = next;
        self.stats.switches += 1;
        let h = &mut self.stats.hash;
        for b in [self.stats.steps, next as u64] {
            *h = (*h ^ b).wrapping_mul(0x100_0000_01b3);
        }
        let sem = &*self.threads[next as usize].sem as *const AtomicU32;
        let sem = unsafe { &*sem };
        sem.store(1, SeqCst);
        raw_wake(sem);
    }

    fn switch_to(&mut self, me: u32, next: u32) {
        if next == me {
            return;
        }
        let sem = &*self.threads[me as usize].sem as *const AtomicU32;
        self.hand_over(next);
        wait_sem(unsafe { &*sem });
    }
}

fn wait_sem(sem: &AtomicU32) {
    while sem.swap(0, SeqCst) == 0 {
        raw_wait(sem, 0);
    }
}

fn step(s: &mut Sim) {
    s.stats.steps += 1;
    s.clock += 1_000;
    s.expire();
    if s.stats.steps > s.cfg.max_steps {
        fatal("step-cap");
    }
}

/// A scheduling point: the scheduler may run another thread here.
pub fn yield_point() {
    let me = tid();
    if me == NONE || QUIET.with(|q| q.get()) > 0 {
        return;
    }
    if FRESH.with(|f| f.replace(false)) {
        FINE.with(|f| f.set(true));
    }
    let _b = Busy::new();
    let s = sim();
    step(s);
    if let Mode::Pct { .. } = s.cfg.mode {
        while !s.changes.is_empty() && s.changes[0] <= s.stats.steps {
            s.changes.remove(0);
            let low = s.changes.len() as u64 + 1;
            s.threads[me as usize].prio = low;
        }
    }
    s.countdown = s.countdown.saturating_sub(1);
    if s.countdown == 0 {
        s.draw_gap();
        let next = s.pick_next(Some(me));
        if next != me {
            s.stats.preemptions += 1;
        }
        s.switch_to(me, next);
    }
}

/// A scheduling point inside a seam operation (group operation, pairing, hash, random source):
/// besides switching threads, an injected abort may strike here.
pub fn op_point() {
    let me = tid();
    if me == NONE || QUIET.with(|q| q.get()) > 0 {
        return;
    }
    yield_point();
    let s = sim();
    s.stats.ops += 1;
    if s.next_crash < s.crashes.len() && s.stats.ops >= s.crashes[s.next_crash] {
        s.next_crash += 1;
        s.stats.crashes_fired += 1;
        std::panic::resume_unwind(Box::new(SimCrash));
    }
}

/// The allocator seam: every allocation of library code counts, and one in `fine` is
/// a scheduling point, so that threads also switch between the seams proper.
use std::alloc::GlobalAlloc as _;
pub struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_point();
        if l.size() < LARGE || !managed() {
            return std::alloc::System.alloc(l);
        }
        let mut p = take_kept(l);
        if p.is_null() {
            p = std::alloc::System.alloc(l);
        }
        if !p.is_null() {
            // What a fresh block holds is nobody's business: it holds rubbish.
            std::ptr::write_bytes(p, 0xA7, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        alloc_point();
        if l.size() >= LARGE && managed() {
            let p = take_kept(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
                return p;
            }
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        // No scheduling point: which of two threads releases a shared block last may be decided
        // while one of them is already leaving the simulation.
        if l.size() >= LARGE && managed() {
            std::ptr::write_bytes(p, 0x5C, l.size());
            keep(p, l);
        } else {
            std::alloc::System.dealloc(p, l);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        alloc_point();
        std::alloc::System.realloc(p, l, n)
    }
}
/// What becomes of the larger blocks that library code releases: 0, as the system's allocator
/// has it; 1, their addresses do not come back soon; 2, the next block of that size on
/// the same thread is the one released last.
static MEMORY: AtomicU32 = AtomicU32::new(0);
static HANDED_BACK: AtomicUsize = AtomicUsize::new(0);
const LARGE: usize = 256;
const KEPT_BYTES: usize = 16 << 20;
pub fn handed_back() -> u64 {
    HANDED_BACK.load(SeqCst) as u64
}
pub fn set_memory(mode: u32) {
    MEMORY.store(mode, SeqCst);
}
struct Kept {
    ring: [(usize, usize, usize); 256],
    at: usize,
    bytes: usize,
}
thread_local! {
    static KEPT: std::cell::UnsafeCell<Kept> = const { std::cell::UnsafeCell::new(Kept { ring: [(0, 0, 0); 256], at: 0, bytes: 0 }) };
}
#[inline]
fn managed() -> bool {
    MEMORY.load(Relaxed) != 0 && FINE.try_with(|f| f.get()).unwrap_or(false) && TID.try_with(|t| t.get()).unwrap_or(NONE) != NONE && BUSY.try_with(|q| q.get()).unwrap_or(1) == 0
}
/// Keeps a released block; the oldest ones make room.
unsafe fn keep(p: *mut u8, l: std::alloc::Layout) {
    let done = KEPT.try_with(|k| {
        let k = &mut *k.get();
        let n = k.ring.len();
        let drop_at = |k: &mut Kept, i: usize| {
            let (p, size, align) = k.ring[i];
            if p != 0 {
                k.ring[i] = (0, 0, 0);
                k.bytes -= size;
                std::alloc::System.dealloc(p as *mut u8, std::alloc::Layout::from_size_align_unchecked(size, align));
            }
        };
        let at = k.at;
        drop_at(k, at);
        let mut old = (at + 1) % n;
        while k.bytes > 0 && k.bytes + l.size() > KEPT_BYTES && old != at {
            drop_at(k, old);
            old = (old + 1) % n;
        }
        k.ring[at] = (p as usize, l.size(), l.align());
        k.bytes += l.size();
        k.at = (at + 1) % n;
    });
    if done.is_err() {
        std::alloc::System.dealloc(p, l);
    }
}
unsafe fn take_kept(l: std::alloc::Layout) -> *mut u8 {
    if MEMORY.load(Relaxed) != 2 {
        return std::ptr::null_mut();
    }
    KEPT.try_with(|k| {
        let k = &mut *k.get();
        let n = k.ring.len();
        for d in 1..=n {
            let i = (k.at + n - d) % n;
            let (p, size, align) = k.ring[i];
            if p != 0 && size == l.size() && align == l.align() {
                k.ring[i] = (0, 0, 0);
                k.bytes -= size;
                HANDED_BACK.fetch_add(1, Relaxed);
                return p as *mut u8;
            }
        }
        std::ptr::null_mut()
    })
    .unwrap_or(std::ptr::null_mut())
}
#[inline]
fn alloc_point() {
    if FINE.try_with(|f| f.get()).unwrap_or(false) {
        fine_point();
    }
}
/// The seam below locks and atomics: every atomic operation of library code.
pub fn atomic_point() {
    if !FINE.with(|f| f.get()) || tid() == NONE || BUSY.with(|q| q.get()) > 0 || QUIET.with(|q| q.get()) > 0 {
        return;
    }
    // What follows has atomic operations of its own.
    let _b = Busy::new();
    if !std::thread::panicking() && sim().cfg.fine > 0 {
        sim().stats.atomics += 1;
        yield_point();
    }
}
#[cold]
fn fine_point() {
    if tid() == NONE || BUSY.with(|q| q.get()) > 0 || QUIET.with(|q| q.get()) > 0 {
        return;
    }
    let _b = Busy::new();
    let s = sim();
    if s.cfg.fine == 0 || std::thread::panicking() {
        return;
    }
    s.fine_left -= 1;
    if s.fine_left == 0 {
        s.fine_left = 1 + s.fine_rng.below(2 * s.cfg.fine as usize - 1) as u32;
        s.stats.fine += 1;
        yield_point();
    }
}
/// While one exists allocations of the thread are no scheduling points.
pub struct Busy;
impl Busy {
    pub fn new() -> Busy {
        BUSY.with(|q| q.set(q.get() + 1));
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.with(|q| q.set(q.get() - 1));
    }
}
/// Marks the calling thread as one of the harness's: only `fine` sections of it are library code.
pub fn harness_thread() {
    FRESH.with(|f| f.set(false));
    FINE.with(|f| f.set(false));
}
/// Runs library code.
pub fn fine<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            FINE.with(|f| f.set(self.0));
        }
    }
    let _g = G(FINE.with(|f| f.replace(true)));
    f()
}

/// Runs `f` without scheduling points and without injected aborts (oracles, bookkeeping).
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            QUIET.with(|q| q.set(q.get() - 1));
        }
    }
    QUIET.with(|q| q.set(q.get() + 1));
    let _g = G;
    f()
}

pub fn is_quiet() -> bool {
    QUIET.with(|q| q.get()) > 0
}

fn block(key: u64, deadline: u64) -> bool {
    let _b = Busy::new();
    let me = tid();
    let s = sim();
    step(s);
    s.threads[me as usize].st = St::Blocked(key, deadline);
    s.threads[me as usize].timed_out = false;
    s.next_deadline = s.next_deadline.min(deadline);
    let next = s.pick_next(None);
    s.draw_gap();
    s.switch_to(me, next);
    !sim().threads[me as usize].timed_out
}

fn wake_key(key: u64, n: usize) -> usize {
    let _b = Busy::new();
    let s = sim();
    let mut w: Vec<usize> = s.threads.iter().enumerate()
        .filter(|(_, t)| matches!(t.st, St::Blocked(k, _) if k == key)).map(|(i, _)| i).collect();
    let mut woken = 0;
    while woken < n && !w.is_empty() {
        let i = if matches!(s.cfg.mode, Mode::Replay | Mode::Sequential) { 0 } else { s.rng.below(w.len()) };
        // Recorded like any other scheduling decision, so that a replay wakes the same thread.
        s.wake_seq = if s.wake_step == s.stats.steps { s.wake_seq + 1 } else { 0 };
        s.wake_step = s.stats.steps;
        let key = s.stats.steps | 1 << 62 | (s.wake_seq & 0x3fff) << 48;
        let i = if s.cfg.mode == Mode::Replay { s.dev.get(&key).map(|x| (*x as usize).min(w.len() - 1)).unwrap_or(0) } else { i };
        if i != 0 {
            s.stats.recorded.push((key, i as u32));
        }
        let t = w.remove(i);
        s.threads[t].st = St::Runnable;
        s.threads[t].timed_out = false;
        woken += 1;
    }
    woken
}

/// Simulated time in nanoseconds.
pub fn now() -> u64 {
    sim().clock
}
/// Blocks the calling simulated thread until `wake(key)` or the deadline. True if woken.
pub fn wait(key: u32, deadline: Option<u64>) -> bool {
    block(APP | key as u64, deadline.unwrap_or(FOREVER))
}
pub fn wake(key: u32) {
    wake_key(APP | key as u64, usize::MAX);
}
pub fn sleep(ns: u64) {
    let d = now() + ns;
    block(SLEEP | tid() as u64, d);
}
/// Tags the calling thread with a node number (only used in reports).
pub fn set_node(n: u32) {
    sim().threads[tid() as usize].node = n;
}
pub fn stats() -> Stats {
    let s = sim();
    let mut st = s.stats.clone();
    st.sim_ns = s.clock - 1_000_000;
    st
}
/// Injects aborts at seam-operation numbers counted from now.
pub fn arm_crashes(at: &[u64]) {
    let s = sim();
    s.crashes = at.iter().map(|x| s.stats.ops + x).collect();
    s.crashes.sort();
    s.next_crash = 0;
}
pub fn disarm_crashes() {
    sim().crashes.clear();
}
pub fn ops() -> u64 {
    sim().stats.ops
}
pub fn steps() -> u64 {
    sim().stats.steps
}

// ---------------------------------------------------------------------------------------------
// The C library seam
// ---------------------------------------------------------------------------------------------

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a1: c_long, a2: c_long, a3: c_long, a4: c_long, a5: c_long, a6: c_long) -> c_long {
    if in_sim() {
        if n == libc::SYS_futex {
            return sim_futex(a1, a2, a3, a4);
        }
        if n == libc::SYS_getrandom {
            return getrandom(a1 as *mut c_void, a2 as usize, a3 as u32) as c_long;
        }
    }
    let r = raw_syscall(n, [a1, a2, a3, a4, a5, a6]);
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        return -1;
    }
    r
}

unsafe fn sim_futex(addr: c_long, op: c_long, val: c_long, timeout: c_long) -> c_long {
    let cmd = op & 0x7f;
    let abs = cmd == 9;
    match cmd {
        0 | 9 => {
            let a = &*(addr as *const AtomicU32);
            if a.load(SeqCst) != val as u32 {
                yield_point();
                set_errno(libc::EAGAIN);
                return -1;
            }
            sim().stats.futex_waits += 1;
            let deadline = if timeout == 0 {
                FOREVER
            } else {
                let ts = &*(timeout as *const libc::timespec);
                let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                if abs { ns } else { now() + ns }
            };
            if block(addr as u64, deadline) {
                0
            } else {
                set_errno(libc::ETIMEDOUT);
                -1
            }
        }
        1 | 10 => {
            sim().stats.futex_wakes += 1;
            let n = wake_key(addr as u64, val as u32 as usize);
            yield_point();
            n as c_long
        }
        _ => fatal("unsupported-futex-operation"),
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_sim() {
        let me = tid();
        let _b = Busy::new();
        let s = sim();
        s.threads[me as usize].spins += 1;
        if s.threads[me as usize].spins >= 48 {
            // A spinning thread must let the others make progress under every policy.
            s.threads[me as usize].spins = 0;
            s.threads[me as usize].prio = s.rng.u64() >> 33;
            if QUIET.with(|q| q.get()) == 0 {
                step(s);
                s.draw_gap();
                let run: Vec<u32> = { s.expire(); s.runnable() };
                if run.len() > 1 {
                    let default = *run.iter().find(|t| **t > me).unwrap_or(&run[0]);
                    s.switch_to(me, default);
                }
            }
            return 0;
        }
        yield_point();
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, [0; 6]) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: usize, mask: *mut libc::cpu_set_t) -> c_int {
    std::ptr::write_bytes(mask as *mut u8, 0, size);
    if in_sim() {
        for i in 0..sim().cpus.min(size * 8) {
            *(mask as *mut u8).add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw_syscall(libc::SYS_sched_getaffinity, [pid as c_long, size as c_long, mask as c_long, 0, 0, 0]);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: u32) -> isize {
    if in_sim() {
        use ark_std::rand::RngCore;
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        sim().os_rng.fill_bytes(b);
        return len as isize;
    }
    let r = raw_syscall(libc::SYS_getrandom, [buf as c_long, len as c_long, _flags as c_long, 0, 0, 0]);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if in_sim() && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_MONOTONIC) {
        let base: u64 = if clk == libc::CLOCK_REALTIME { 1_700_000_000 } else { 0 };
        let n = sim().clock;
        (*ts).tv_sec = (base + n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw_syscall(libc::SYS_clock_gettime, [clk as c_long, ts as c_long, 0, 0, 0, 0]);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if in_sim() {
        sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    let r = raw_syscall(libc::SYS_nanosleep, [req as c_long, rem as c_long, 0, 0, 0, 0]);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if in_sim() {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags & 1 != 0 {
            let n = now();
            let abs = if clk == libc::CLOCK_REALTIME { ns.saturating_sub(1_700_000_000_000_000_000) } else { ns };
            sleep(abs.saturating_sub(n));
        } else {
            sleep(ns);
        }
        return 0;
    }
    -(raw_syscall(libc::SYS_clock_nanosleep, [clk as c_long, flags as c_long, req as c_long, rem as c_long, 0, 0])) as c_int
}

type CreateFn = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;

unsafe fn next_symbol(cache: &AtomicUsize, name: &[u8]) -> usize {
    let p = cache.load(Relaxed);
    if p != 0 {
        return p;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize;
    cache.store(p, Relaxed);
    p
}

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: u32,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    let sem = {
        // Only reads the boxed semaphore's address, published before this thread was created.
        let a = SEMS.with(st.tid);
        unsafe { &*a }
    };
    wait_sem(sem);
    TID.with(|t| t.set(st.tid));
    FRESH.with(|f| f.set(true));
    unsafe { libc::pthread_setspecific(KEY.load(SeqCst), (st.tid as usize + 1) as *const c_void) };
    (st.f)(st.arg)
}

/// Semaphore addresses by thread number, readable without the baton.
struct Sems([AtomicUsize; 1024]);
static SEMS: Sems = Sems([const { AtomicUsize::new(0) }; 1024]);
impl Sems {
    fn with(&self, t: u32) -> *const AtomicU32 {
        self.0[t as usize].load(SeqCst) as *const AtomicU32
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, f: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let real: CreateFn = std::mem::transmute(next_symbol(&REAL, b"pthread_create\0"));
    if !in_sim() {
        return real(th, attr, f, arg);
    }
    let _b = Busy::new();
    let s = sim();
    let t = s.threads.len() as u32;
    if t as usize >= SEMS.0.len() {
        fatal("too-many-threads");
    }
    let prio = s.rng.u64() | 1 << 63;
    let sem = Box::new(AtomicU32::new(0));
    SEMS.0[t as usize].store(&*sem as *const _ as usize, SeqCst);
    let node = s.threads[tid() as usize].node;
    s.threads.push(Th { sem, st: St::Runnable, timed_out: false, prio, pthread: 0, spins: 0, node });
    s.stats.threads += 1;
    let st = Box::into_raw(Box::new(Start { f, arg, tid: t }));
    let r = real(th, attr, trampoline, st as *mut c_void);
    if r != 0 {
        drop(Box::from_raw(st));
        s.threads[t as usize].st = St::Done;
        return r;
    }
    s.threads[t as usize].pthread = *th as usize;
    yield_point();
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let real: JoinFn = std::mem::transmute(next_symbol(&REAL, b"pthread_join\0"));
    if in_sim() {
        let _b = Busy::new();
        let s = sim();
        // Handles are reused once a detached thread (a pool worker) is gone: the newest owner counts.
        if let Some(t) = s.threads.iter().rposition(|t| t.pthread == th as usize) {
            while sim().threads[t].st != St::Done {
                block(JOIN | t as u64, FOREVER);
            }
        }
    }
    real(th, ret)
}
