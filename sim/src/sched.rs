//! The scheduler: real threads, one running at a time, and every decision
//! about who runs next taken here from a seeded stream (or from a list).
//!
//! The seam is the C library: `pthread_create`, `pthread_join`, `syscall`
//! (futex, used by std's Mutex, Condvar, park and channels), `sched_yield`,
//! sleeping and clocks are defined in this binary and so replace the library's
//! for everything linked into it. Additional scheduling points are the edges of
//! the instrumented code (SanitizerCoverage), allocations and file operations.
#![allow(static_mut_refs)]
use crate::rng::Rng;
use core::arch::asm;
use core::cell::Cell;
use core::sync::atomic::{AtomicU32, Ordering};
use libc::{c_int, c_long, c_void};

pub const MAXT: usize = 1024;
const NONE: u32 = u32::MAX;
pub const MAXREC: usize = 1 << 18;
pub const MAXGUARD: usize = 1 << 16;

thread_local! {
    static TID: Cell<u32> = const { Cell::new(NONE) };
    /// the harness, not the code under test, is running on this thread
    static HARNESS: Cell<bool> = const { Cell::new(true) };
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked,
    /// waits until nothing else can run
    Drain,
    Done,
}

struct Th {
    st: St,
    go: AtomicU32,
    addr: usize,
    seq: u64,
    deadline: u64,
    timed_out: bool,
    prio: u64,
    call: u32,
    owner: u32,
    pthread: libc::pthread_t,
    nd: usize,
    dtors: [(usize, usize); 16],
}

const TH0: Th = Th {
    st: St::Done,
    go: AtomicU32::new(0),
    addr: 0,
    seq: 0,
    deadline: 0,
    timed_out: false,
    prio: 0,
    call: 0,
    owner: 0,
    pthread: 0,
    nd: 0,
    dtors: [(0, 0); 16],
};

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// keep running, lowest id when blocked
    Def,
    /// random walk with this mean number of steps between decisions
    Rw(u64),
    /// PCT with this many priority changes over this many steps
    Pct(u64, u64),
    /// starve: 0 the workers, 1 the callers, 2.. the n-th created thread
    Starve(u64, u64),
    /// round robin
    Rr(u64),
    /// newest thread first
    Lifo,
    /// decisions of a recorded run that differ from `Def`: (step, kind, value)
    Explicit(Vec<(u64, u8, u32)>),
}

impl Policy {
    pub fn to_str(&self) -> String {
        match self {
            Policy::Def => "def".into(),
            Policy::Rw(m) => format!("rw:{m}"),
            Policy::Pct(d, n) => format!("pct:{d}:{n}"),
            Policy::Starve(w, m) => format!("starve:{w}:{m}"),
            Policy::Rr(q) => format!("rr:{q}"),
            Policy::Lifo => "lifo".into(),
            Policy::Explicit(v) => {
                let s: Vec<String> = v.iter().map(|(a, k, b)| format!("{a}.{}{b}", *k as char)).collect();
                format!("explicit:{}", s.join(","))
            }
        }
    }
    pub fn parse(s: &str) -> Option<Policy> {
        let f: Vec<&str> = s.split(':').collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok());
        Some(match f[0] {
            "def" => Policy::Def,
            "rw" => Policy::Rw(n(1)?),
            "pct" => Policy::Pct(n(1)?, n(2)?),
            "starve" => Policy::Starve(n(1)?, n(2)?),
            "rr" => Policy::Rr(n(1)?),
            "lifo" => Policy::Lifo,
            "explicit" => {
                let mut v = vec![];
                for e in f.get(1)?.split(',').filter(|x| !x.is_empty()) {
                    let (a, b) = e.split_once('.')?;
                    v.push((a.parse().ok()?, b.as_bytes()[0], b.get(1..)?.parse().ok()?));
                }
                Policy::Explicit(v)
            }
            _ => return None,
        })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Policy::Def => "run-to-block",
            Policy::Rw(_) => "random-walk",
            Policy::Pct(..) => "pct",
            Policy::Starve(..) => "starvation",
            Policy::Rr(_) => "round-robin",
            Policy::Lifo => "newest-first",
            Policy::Explicit(_) => "explicit",
        }
    }
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub steps: u64,
    pub decisions: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub spawned: u64,
    pub spawn_failed: u64,
    pub spurious: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub yields: u64,
    pub timeouts: u64,
    pub hash: u64,
    pub leaked: u64,
}

pub struct Cfg {
    pub policy: Policy,
    pub seed: u64,
    pub max_step: u64,
    pub spurious: bool,
    pub spawn_fail: Vec<u64>,
}

struct Sim {
    active: bool,
    cur: usize,
    n: usize,
    live: [u16; MAXT],
    nlive: usize,
    step: u64,
    next_point: u64,
    max_step: u64,
    seq: u64,
    now_skew: u64,
    rng: Option<Rng>,
    pol: Pol,
    spurious: bool,
    nfail: usize,
    fails: [u64; 64],
    st: Stats,
    nrec: usize,
    nexp: usize,
    iexp: usize,
    lowprio: u64,
    nchange: usize,
    ichange: usize,
    change: [u64; 32],
    call_alive: [u32; MAXT],
    call_peak: [u32; MAXT],
    call_done: [bool; MAXT],
    call_late: [u64; MAXT],
    late: bool,
    call1_spawns: u64,
    nrand: u64,
    ncall: u32,
    last_guard: u32,
}

#[derive(Clone, Copy, PartialEq)]
enum Pol {
    Def,
    Rw(u64),
    Pct,
    Starve(u64, u64),
    Rr(u64),
    Lifo,
    Explicit,
}

static mut S: Sim = Sim {
    active: false,
    cur: 0,
    n: 0,
    live: [0; MAXT],
    nlive: 0,
    step: 0,
    next_point: 0,
    max_step: 0,
    seq: 0,
    now_skew: 0,
    rng: None,
    pol: Pol::Def,
    spurious: false,
    nfail: 0,
    fails: [0; 64],
    st: Stats {
        steps: 0,
        decisions: 0,
        switches: 0,
        preemptions: 0,
        spawned: 0,
        spawn_failed: 0,
        spurious: 0,
        futex_waits: 0,
        futex_wakes: 0,
        yields: 0,
        timeouts: 0,
        hash: 0,
        leaked: 0,
    },
    nrec: 0,
    nexp: 0,
    iexp: 0,
    lowprio: 0,
    nchange: 0,
    ichange: 0,
    change: [0; 32],
    call_alive: [0; MAXT],
    call_peak: [0; MAXT],
    call_done: [false; MAXT],
    call_late: [0; MAXT],
    late: false,
    call1_spawns: 0,
    nrand: 0,
    ncall: 0,
    last_guard: 0,
};
static mut TH: [Th; MAXT] = [TH0; MAXT];
static mut REC: [(u64, u8, u32); MAXREC] = [(0, 0, 0); MAXREC];
static mut EXP: [(u64, u8, u32); MAXREC] = [(0, 0, 0); MAXREC];
pub static mut GUARD_HITS: [u32; MAXGUARD] = [0; MAXGUARD];
static NGUARD: AtomicU32 = AtomicU32::new(0);

/// Called for a failure the run cannot continue from (deadlock, no progress).
pub static mut FATAL: fn(&str, &str) = |_, _| std::process::abort();

// ---------------------------------------------------------------- raw calls

#[inline]
pub unsafe fn sys(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: isize) -> c_long {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r as c_long
    }
}

unsafe fn wait_go(t: usize) {
    loop {
        if TH[t].go.swap(0, Ordering::AcqRel) == 1 {
            return;
        }
        sys(libc::SYS_futex, TH[t].go.as_ptr() as usize, 128, 0, 0, 0, 0);
    }
}

unsafe fn give(t: usize) {
    TH[t].go.store(1, Ordering::Release);
    sys(libc::SYS_futex, TH[t].go.as_ptr() as usize, 129, 1, 0, 0, 0);
}

macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static mut P: usize = 0;
        if P == 0 {
            P = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr().cast()) as usize;
        }
        core::mem::transmute::<usize, $ty>(P)
    }};
}

// ---------------------------------------------------------------- decisions

#[inline]
fn tid() -> u32 {
    TID.with(Cell::get)
}

#[inline]
pub fn in_sim() -> bool {
    tid() != NONE
}

#[inline]
pub fn in_harness() -> bool {
    HARNESS.with(Cell::get)
}

/// Mark the code run by `f` as code under test (allocations are accounted to
/// it and are scheduling points).
pub fn as_sut<R>(f: impl FnOnce() -> R) -> R {
    let h = HARNESS.with(|h| h.replace(false));
    let r = f();
    HARNESS.with(|x| x.set(h));
    r
}

pub fn as_harness<R>(f: impl FnOnce() -> R) -> R {
    let h = HARNESS.with(|h| h.replace(true));
    let r = f();
    HARNESS.with(|x| x.set(h));
    r
}

fn now() -> u64 {
    unsafe { 1_000_000_000_000 + S.step * 100 + S.now_skew }
}

pub fn sim_ns() -> u64 {
    now() - 1_000_000_000_000
}

pub fn steps() -> u64 {
    unsafe { S.step }
}

unsafe fn rnd() -> &'static mut Rng {
    S.rng.as_mut().unwrap()
}

unsafe fn geometric(mean: u64) -> u64 {
    // exponential by halving, integer only
    let mut v = 1 + rnd().below(mean.max(1));
    while rnd().below(2) == 0 && v < mean * 16 {
        v += rnd().below(mean.max(1));
    }
    v
}

unsafe fn set_next_point() {
    S.next_point = match S.pol {
        Pol::Def | Pol::Lifo => u64::MAX,
        Pol::Rw(m) | Pol::Starve(_, m) => S.step + geometric(m),
        Pol::Rr(q) => S.step + q,
        Pol::Pct => {
            if S.ichange < S.nchange {
                S.change[S.ichange].max(S.step + 1)
            } else {
                u64::MAX
            }
        }
        Pol::Explicit => {
            while S.iexp < S.nexp && EXP[S.iexp].0 <= S.step {
                S.iexp += 1;
            }
            if S.iexp < S.nexp {
                EXP[S.iexp].0
            } else {
                u64::MAX
            }
        }
    }
    .min(S.max_step);
}

unsafe fn record(kind: u8, v: u32) {
    if S.nrec < MAXREC {
        REC[S.nrec] = (S.step, kind, v);
    }
    S.nrec += 1;
}

unsafe fn expected(kind: u8) -> Option<u32> {
    let mut i = S.iexp;
    while i > 0 && EXP[i - 1].0 >= S.step {
        i -= 1;
    }
    while i < S.nexp && EXP[i].0 <= S.step {
        if EXP[i].0 == S.step && EXP[i].1 == kind {
            return Some(EXP[i].2);
        }
        i += 1;
    }
    None
}

unsafe fn mark_ready(t: usize) {
    TH[t].st = St::Ready;
    TH[t].addr = 0;
}

unsafe fn victim(t: usize, w: u64) -> bool {
    match w {
        0 => TH[t].owner != t as u32,
        1 => TH[t].owner == t as u32,
        n => t as u64 == n,
    }
}

/// The run ends here. The message is made after the simulation is switched off,
/// since allocations are scheduling points.
unsafe fn die(kind: &str, msg: core::fmt::Arguments) {
    S.active = false;
    HARNESS.with(|x| x.set(true));
    FATAL(kind, &msg.to_string());
}

/// Who runs next. `me`: the running thread may continue; `yielding`: it asked
/// not to.
unsafe fn decide(me: bool, yielding: bool) -> usize {
    S.step += 1;
    if S.step >= S.max_step {
        die("no-progress", format_args!("no end after {} steps", S.step));
    }
    S.st.decisions += 1;
    // timers and spurious wake-ups
    for i in 0..S.nlive {
        let t = S.live[i] as usize;
        if TH[t].st == St::Blocked && TH[t].deadline != 0 && TH[t].deadline <= now() {
            TH[t].timed_out = true;
            S.st.timeouts += 1;
            mark_ready(t);
        }
    }
    let sp = if S.pol == Pol::Explicit {
        expected(b'p')
    } else if S.spurious && rnd().below(50) == 0 {
        let k = (0..S.nlive).filter(|i| spurious_ok(S.live[*i] as usize)).count();
        if k == 0 {
            None
        } else {
            let mut j = rnd().below(k as u64) as usize;
            let mut pick = None;
            for i in 0..S.nlive {
                let t = S.live[i] as usize;
                if spurious_ok(t) {
                    if j == 0 {
                        pick = Some(t as u32);
                        break;
                    }
                    j -= 1;
                }
            }
            pick
        }
    } else {
        None
    };
    if let Some(t) = sp {
        let t = t as usize;
        if t < S.n && spurious_ok(t) {
            record(b'p', t as u32);
            S.st.spurious += 1;
            mark_ready(t);
        }
    }
    loop {
        let mut ready = [0u16; MAXT];
        let mut k = 0;
        for i in 0..S.nlive {
            let t = S.live[i];
            if TH[t as usize].st == St::Ready && !(yielding && t as usize == S.cur) {
                ready[k] = t;
                k += 1;
            }
        }
        if k == 0 && yielding {
            return S.cur;
        }
        if k == 0 {
            // let time pass
            let mut dl = u64::MAX;
            let mut who = usize::MAX;
            for i in 0..S.nlive {
                let t = S.live[i] as usize;
                if TH[t].st == St::Blocked && TH[t].deadline != 0 && TH[t].deadline < dl {
                    dl = TH[t].deadline;
                    who = t;
                }
            }
            if who != usize::MAX {
                S.now_skew += dl.saturating_sub(now());
                TH[who].timed_out = true;
                S.st.timeouts += 1;
                mark_ready(who);
                continue;
            }
            for i in 0..S.nlive {
                let t = S.live[i] as usize;
                if TH[t].st == St::Drain {
                    return t;
                }
            }
            die("deadlock", format_args!("{} threads, all blocked, at step {}", S.nlive, S.step));
        }
        let r = &ready[..k];
        let def = if me && !yielding {
            S.cur
        } else if yielding {
            // next one in order
            *r.iter().find(|t| **t as usize > S.cur).unwrap_or(&r[0]) as usize
        } else {
            r[0] as usize
        };
        let c = match S.pol {
            Pol::Def => def,
            Pol::Lifo => {
                if me && !yielding {
                    S.cur
                } else {
                    r[k - 1] as usize
                }
            }
            Pol::Rw(_) => r[rnd().below(k as u64) as usize] as usize,
            Pol::Rr(_) => *r.iter().find(|t| **t as usize > S.cur).unwrap_or(&r[0]) as usize,
            Pol::Starve(w, _) => {
                let nv = r.iter().filter(|t| !victim(**t as usize, w)).count();
                if nv == 0 || yielding {
                    r[rnd().below(k as u64) as usize] as usize
                } else {
                    let mut j = rnd().below(nv as u64);
                    let mut c = def;
                    for t in r {
                        if !victim(*t as usize, w) {
                            if j == 0 {
                                c = *t as usize;
                                break;
                            }
                            j -= 1;
                        }
                    }
                    c
                }
            }
            Pol::Pct => {
                if yielding || (S.ichange < S.nchange && S.change[S.ichange] <= S.step) {
                    if !yielding {
                        S.ichange += 1;
                    }
                    S.lowprio -= 1;
                    TH[S.cur].prio = S.lowprio;
                }
                let mut c = r[0] as usize;
                for t in r {
                    if TH[*t as usize].prio > TH[c].prio {
                        c = *t as usize;
                    }
                }
                c
            }
            Pol::Explicit => match expected(b's') {
                Some(t) if r.contains(&(t as u16)) => t as usize,
                _ => def,
            },
        };
        if c != def {
            record(b's', c as u32);
        }
        return c;
    }
}

unsafe fn spurious_ok(t: usize) -> bool {
    TH[t].st == St::Blocked && TH[t].addr != 0 && TH[t].addr < JOINKEY
}

unsafe fn go_to(next: usize, me: usize) {
    if next == me {
        return;
    }
    S.st.switches += 1;
    S.st.hash = crate::rng::mix(S.st.hash ^ (next as u64) << 32 ^ u64::from(S.last_guard));
    S.cur = next;
    give(next);
    wait_go(me);
    S.late = S.call_done[TH[me].call as usize];
}

/// A point at which the running thread may lose the processor.
unsafe fn point(always: bool) {
    let t = tid();
    if t == NONE || !S.active {
        return;
    }
    let due = S.step + 1 >= S.next_point;
    let go = due
        || match S.pol {
            Pol::Rw(_) | Pol::Starve(..) => always && rnd().below(3) == 0,
            Pol::Pct | Pol::Rr(_) => always,
            Pol::Def | Pol::Lifo | Pol::Explicit => false,
        };
    if !go {
        S.step += 1;
        return;
    }
    let me = t as usize;
    let n = decide(true, false);
    if n != me {
        S.st.preemptions += 1;
        go_to(n, me);
    }
    set_next_point();
}

/// Scheduling point for the other seams (allocator, files, log).
pub fn sync_point() {
    unsafe {
        if tid() != NONE && S.active {
            point(true);
        }
    }
}

#[inline]
pub fn light_point() {
    unsafe {
        if tid() != NONE && S.active {
            S.step += 1;
            if S.step >= S.next_point {
                S.step -= 1;
                point(false);
            }
        }
    }
}

unsafe fn block(addr: usize, deadline: u64) -> bool {
    let me = tid() as usize;
    TH[me].st = St::Blocked;
    TH[me].addr = addr;
    TH[me].deadline = deadline;
    TH[me].timed_out = false;
    S.seq += 1;
    TH[me].seq = S.seq;
    let n = decide(false, false);
    go_to(n, me);
    set_next_point();
    TH[me].deadline = 0;
    TH[me].timed_out
}

unsafe fn wake(addr: usize, max: usize) -> usize {
    let mut woken = 0;
    while woken < max {
        // waiters, oldest first
        let mut c = [0u16; MAXT];
        let mut k = 0;
        for i in 0..S.nlive {
            let t = S.live[i];
            if TH[t as usize].st == St::Blocked && TH[t as usize].addr == addr {
                c[k] = t;
                k += 1;
            }
        }
        if k == 0 {
            break;
        }
        let c = &mut c[..k];
        c.sort_unstable_by_key(|t| TH[*t as usize].seq);
        let mut j = 0;
        if k > max - woken {
            S.step += 1;
            match S.pol {
                Pol::Def | Pol::Lifo => {}
                Pol::Explicit => j = expected(b'w').map_or(0, |x| (x as usize).min(k - 1)),
                _ => j = rnd().below(k as u64) as usize,
            }
            if j != 0 {
                record(b'w', j as u32);
            }
            if S.step >= S.next_point {
                set_next_point();
            }
        }
        mark_ready(c[j] as usize);
        woken += 1;
    }
    woken
}

// ------------------------------------------------------------------- running

/// Run `f` as thread 0 of a fresh simulation.
pub fn run<R>(cfg: &Cfg, f: impl FnOnce() -> R) -> (R, Stats) {
    unsafe {
        assert!(!S.active && tid() == NONE);
        for t in 0..S.n {
            TH[t].st = St::Done;
            TH[t].nd = 0;
        }
        S.n = 1;
        S.nlive = 1;
        S.live[0] = 0;
        S.cur = 0;
        S.step = 0;
        S.seq = 0;
        S.now_skew = 0;
        S.max_step = cfg.max_step;
        S.spurious = cfg.spurious;
        S.nfail = cfg.spawn_fail.len().min(64);
        for i in 0..S.nfail {
            S.fails[i] = cfg.spawn_fail[i];
        }
        S.st = Stats::default();
        S.nrec = 0;
        S.iexp = 0;
        S.nexp = 0;
        S.ncall = 0;
        S.call1_spawns = 0;
        S.nrand = 0;
        S.call_alive = [0; MAXT];
        S.call_peak = [0; MAXT];
        S.call_done = [false; MAXT];
        S.call_late = [0; MAXT];
        S.late = false;
        S.lowprio = 1 << 20;
        S.ichange = 0;
        S.nchange = 0;
        S.last_guard = 0;
        let mut rng = Rng::new(cfg.seed);
        S.pol = match &cfg.policy {
            Policy::Def => Pol::Def,
            Policy::Rw(m) => Pol::Rw(*m),
            Policy::Starve(w, m) => Pol::Starve(*w, *m),
            Policy::Rr(q) => Pol::Rr((*q).max(1)),
            Policy::Lifo => Pol::Lifo,
            Policy::Pct(d, n) => {
                S.nchange = (*d as usize).min(32);
                for i in 0..S.nchange {
                    S.change[i] = 1 + rng.below((*n).max(1));
                }
                S.change[..S.nchange].sort_unstable();
                Pol::Pct
            }
            Policy::Explicit(v) => {
                S.nexp = v.len().min(MAXREC);
                EXP[..S.nexp].copy_from_slice(&v[..S.nexp]);
                Pol::Explicit
            }
        };
        S.rng = Some(rng);
        let th = &mut TH[0];
        th.st = St::Ready;
        th.owner = 0;
        th.call = 0;
        th.prio = (1 << 32) + rnd().below(1 << 30);
        th.addr = 0;
        th.nd = 0;
        th.go.store(0, Ordering::Release);
        set_next_point();
        TID.with(|x| x.set(0));
        S.active = true;
        let r = f();
        S.st.leaked = drain() as u64;
        S.active = false;
        TID.with(|x| x.set(NONE));
        S.st.steps = S.step;
        (r, S.st)
    }
}

/// Let everything else run until it ends or blocks; number of threads that
/// are blocked for good. Only for thread 0, with no other caller running.
pub fn drain() -> usize {
    unsafe {
        let me = tid() as usize;
        TH[me].st = St::Drain;
        let n = decide(false, false);
        go_to(n, me);
        TH[me].st = St::Ready;
        set_next_point();
        S.nlive - 1
    }
}

/// The decisions of the last run that differ from the default policy.
pub fn recorded() -> Option<Vec<(u64, u8, u32)>> {
    unsafe {
        if S.nrec > MAXREC {
            None
        } else {
            Some(REC[..S.nrec].to_vec())
        }
    }
}

/// Declare the running thread a caller of the API (not a worker).
pub fn become_caller() {
    unsafe {
        let t = tid() as usize;
        TH[t].owner = t as u32;
    }
}

/// Begin an API call: threads created from now on by this thread (or by its
/// descendants) belong to it.
pub fn call_begin() -> u32 {
    unsafe {
        let t = tid();
        S.ncall += 1;
        let c = S.ncall.min(MAXT as u32 - 1);
        S.call_alive[c as usize] = 0;
        S.call_peak[c as usize] = 0;
        S.call_done[c as usize] = false;
        if t != NONE {
            TH[t as usize].call = c;
        }
        c
    }
}

/// End of the API call: the most threads of it that were alive at once.
pub fn call_end(c: u32) -> u32 {
    unsafe {
        let t = tid();
        if t != NONE {
            TH[t as usize].call = 0;
        }
        S.call_done[c as usize] = true;
        S.late = false;
        S.call_peak[c as usize]
    }
}

/// Edges of the decoder's own code run for this call after it returned.
pub fn late(c: u32) -> u64 {
    unsafe { S.call_late[c as usize] }
}

/// The running thread was created by the code under test.
pub fn is_worker() -> bool {
    unsafe {
        let t = tid() as usize;
        TH[t].owner != t as u32
    }
}

// ------------------------------------------------------------ coverage edges

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NGUARD.fetch_add(1, Ordering::Relaxed) + 1;
        }
        p = p.add(1);
    }
}

pub fn guards() -> usize {
    NGUARD.load(Ordering::Relaxed) as usize
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if TID.with(Cell::get) == NONE {
        return;
    }
    let g = *g;
    GUARD_HITS[g as usize & (MAXGUARD - 1)] = GUARD_HITS[g as usize & (MAXGUARD - 1)].saturating_add(1);
    if S.late {
        S.call_late[TH[S.cur].call as usize] += 1;
    }
    if S.step + 1 >= S.next_point {
        S.last_guard = g;
        point(false);
    } else {
        S.step += 1;
    }
}

/// Instrumented code that is not the decoder.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc() {
    if TID.with(Cell::get) == NONE {
        return;
    }
    if S.step + 1 >= S.next_point {
        S.last_guard = 0;
        point(false);
    } else {
        S.step += 1;
    }
}

// ------------------------------------------------------------------- threads

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: u32,
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let s = core::ptr::read(p as *mut Start);
        libc::free(p);
        let me = s.tid as usize;
        TID.with(|x| x.set(s.tid));
        HARNESS.with(|x| x.set(false));
        wait_go(me);
        S.late = S.call_done[TH[me].call as usize];
        set_next_point();
        let r = (s.f)(s.arg);
        // thread-local destructors, under the scheduler
        while TH[me].nd > 0 {
            TH[me].nd -= 1;
            let (d, o) = TH[me].dtors[TH[me].nd];
            let d: extern "C" fn(*mut c_void) = core::mem::transmute(d);
            d(o as *mut c_void);
        }
        for _ in 0..4 {
            for i in 0..NKEY {
                let (k, d) = KEYS[i];
                let v = libc::pthread_getspecific(k);
                if !v.is_null() {
                    libc::pthread_setspecific(k, core::ptr::null());
                    d(v);
                }
            }
        }
        TH[me].st = St::Done;
        let c = TH[me].call as usize;
        if c != 0 {
            S.call_alive[c] -= 1;
        }
        let i = S.live[..S.nlive].iter().position(|t| *t as usize == me).unwrap();
        S.live.copy_within(i + 1..S.nlive, i);
        S.nlive -= 1;
        wake(JOINKEY + me, usize::MAX);
        let n = decide(false, false);
        S.st.switches += 1;
        S.st.hash = crate::rng::mix(S.st.hash ^ (n as u64) << 32 ^ 7);
        S.cur = n;
        TID.with(|x| x.set(NONE));
        give(n);
        r
    }
}

const JOINKEY: usize = 1 << 60;
const GAP: usize = 64 << 10;
const SLOT: usize = (2 << 20) + (64 << 10) + GAP;
static mut STACKS: usize = 0;

/// Address space for the stacks, before anything is forked.
pub fn reserve_stacks() {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            MAXT * SLOT,
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        STACKS = p as usize;
    }
}

type CreateFn = unsafe extern "C" fn(
    *mut libc::pthread_t,
    *const libc::pthread_attr_t,
    extern "C" fn(*mut c_void) -> *mut c_void,
    *mut c_void,
) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real = real!("pthread_create", CreateFn);
    let t = tid();
    if t == NONE || !S.active {
        return real(out, attr, f, arg);
    }
    let parent = t as usize;
    let ord = S.call1_spawns;
    if TH[parent].call == 1 {
        S.call1_spawns += 1;
    }
    if TH[parent].call == 1 && S.fails[..S.nfail].contains(&ord) {
        S.st.spawn_failed += 1;
        point(true);
        return libc::EAGAIN;
    }
    let me = S.n;
    if me >= MAXT {
        die("too-many-threads", format_args!("{MAXT} threads created"));
    }
    let p = libc::malloc(core::mem::size_of::<Start>()) as *mut Start;
    core::ptr::write(p, Start { f, arg, tid: me as u32 });
    let th = &mut TH[me];
    th.go.store(0, Ordering::Release);
    th.st = St::Ready;
    th.addr = 0;
    th.deadline = 0;
    th.nd = 0;
    th.owner = TH[parent].owner;
    th.call = TH[parent].call;
    th.prio = (1 << 32) + rnd().below(1 << 30);
    // every thread has a stack, and so thread-local storage, at an address of
    // its own: std keeps threads in a map ordered by address
    let mut size = 0;
    let mut at: libc::pthread_attr_t = core::mem::zeroed();
    let own = !attr.is_null() && libc::pthread_attr_getstacksize(attr, &mut size) == 0 && size <= SLOT - GAP;
    let r = if own {
        let lo = STACKS + me * SLOT + GAP;
        sys(libc::SYS_mprotect, lo, SLOT - GAP, (libc::PROT_READ | libc::PROT_WRITE) as usize, 0, 0, 0);
        libc::pthread_attr_init(&mut at);
        libc::pthread_attr_setstack(&mut at, lo as *mut c_void, SLOT - GAP);
        let r = real(out, &at, trampoline, p.cast());
        libc::pthread_attr_destroy(&mut at);
        r
    } else {
        real(out, attr, trampoline, p.cast())
    };
    if r != 0 {
        libc::free(p.cast());
        return r;
    }
    S.n += 1;
    TH[me].pthread = *out;
    S.live[S.nlive] = me as u16;
    S.nlive += 1;
    S.st.spawned += 1;
    let c = TH[me].call as usize;
    if c != 0 {
        S.call_alive[c] += 1;
        S.call_peak[c] = S.call_peak[c].max(S.call_alive[c]);
    }
    point(true);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, v: *mut *mut c_void) -> c_int {
    let real = real!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    if tid() != NONE && S.active {
        if let Some(t) = (0..S.n).rev().find(|t| TH[*t].pthread == th) {
            point(true);
            while TH[t].st != St::Done {
                block(JOINKEY + t, 0);
            }
        }
    }
    real(th, v)
}

type KeyDtor = unsafe extern "C" fn(*mut c_void);
static mut KEYS: [(libc::pthread_key_t, KeyDtor); 64] = [(0, nothing); 64];
static mut NKEY: usize = 0;
unsafe extern "C" fn nothing(_: *mut c_void) {}

/// Destructors of thread-specific values: run by the trampoline, not by the
/// C library when the thread is out of the scheduler's control.
#[no_mangle]
pub unsafe extern "C" fn pthread_key_create(k: *mut libc::pthread_key_t, d: Option<KeyDtor>) -> c_int {
    let r = real!("pthread_key_create", unsafe extern "C" fn(*mut libc::pthread_key_t, Option<KeyDtor>) -> c_int)(k, d);
    if let (0, Some(d), true) = (r, d, NKEY < 64) {
        KEYS[NKEY] = (*k, d);
        NKEY += 1;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(d: *mut c_void, o: *mut c_void, dso: *mut c_void) -> c_int {
    let t = tid();
    if t != NONE && t != 0 && TH[t as usize].nd < 16 {
        let th = &mut TH[t as usize];
        th.dtors[th.nd] = (d as usize, o as usize);
        th.nd += 1;
        return 0;
    }
    real!("__cxa_thread_atexit_impl", unsafe extern "C" fn(*mut c_void, *mut c_void, *mut c_void) -> c_int)(d, o, dso)
}

// --------------------------------------------------------------------- futex

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if tid() != NONE && S.active {
        if n == libc::SYS_futex {
            return futex(a, b, c, d, f);
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b, c as u32) as c_long;
        }
    }
    ret(sys(n, a, b, c, d, e, f))
}

unsafe fn futex(addr: usize, op: usize, val: usize, timeout: usize, val3: usize) -> c_long {
    let cmd = op & 127;
    match cmd {
        0 | 9 => {
            point(true);
            let w = &*(addr as *const AtomicU32);
            if w.load(Ordering::SeqCst) != val as u32 {
                return ret(-(libc::EAGAIN as isize));
            }
            let mut dl = 0;
            if timeout != 0 {
                let ts = &*(timeout as *const libc::timespec);
                let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                dl = if cmd == 9 { ns } else { now() + ns }.max(1);
            }
            S.st.futex_waits += 1;
            let _ = val3;
            if block(addr, dl) {
                return ret(-(libc::ETIMEDOUT as isize));
            }
            0
        }
        1 | 10 => {
            S.st.futex_wakes += 1;
            let k = wake(addr, val.min(MAXT));
            point(true);
            k as c_long
        }
        _ => {
            die("harness", format_args!("futex operation {op} is not simulated"));
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if tid() != NONE && S.active {
        S.st.yields += 1;
        let me = tid() as usize;
        let n = decide(true, true);
        go_to(n, me);
        set_next_point();
        return 0;
    }
    sys(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

// --------------------------------------------------------------------- clock

unsafe fn sleep_ns(ns: u64) {
    block(JOINKEY + MAXT + tid() as usize, now() + ns.max(1));
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if tid() != NONE && S.active {
        sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    ret(sys(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: c_int,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if tid() != NONE && S.active {
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        sleep_ns(if flags & 1 != 0 { ns.saturating_sub(now()) } else { ns });
        return 0;
    }
    -sys(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if tid() != NONE && S.active {
        let n = now();
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(sys(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: usize, flags: u32) -> isize {
    if tid() != NONE && S.active {
        for i in 0..n {
            S.nrand += 1;
            *(p as *mut u8).add(i) = crate::rng::mix(S.nrand) as u8;
        }
        return n as isize;
    }
    ret(sys(libc::SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0)) as isize
}

/// The gap below a stack given out above is its guard (std wants one).
#[no_mangle]
pub unsafe extern "C" fn pthread_getattr_np(t: libc::pthread_t, a: *mut libc::pthread_attr_t) -> c_int {
    let r = real!("pthread_getattr_np", unsafe extern "C" fn(libc::pthread_t, *mut libc::pthread_attr_t) -> c_int)(t, a);
    let mut g = 0;
    if r == 0 && libc::pthread_attr_getguardsize(a, &mut g) == 0 && g == 0 {
        let set = real!("pthread_attr_setguardsize", unsafe extern "C" fn(*mut libc::pthread_attr_t, usize) -> c_int);
        set(a, 4096);
    }
    r
}
