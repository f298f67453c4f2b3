//! The supervisor: splits the seeds over processes, minimises what fails,
//! writes the evidence.
#![allow(static_mut_refs)]
use crate::exec::{hash, Dec, Enc, Summary};
use crate::judge::{self, map_shared};
use crate::plan::{Act, Plan};
use crate::props::{generate, judge, Verdict};
use crate::rng::{derive, mix};
use crate::shrink::shrink;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const REGION: usize = 256 << 20;

fn home() -> String {
    std::env::var("SIM_HOME").unwrap_or_else(|_| "/verif".into())
}

fn envu(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok())
}

/// (runs, wall seconds at most)
fn budget(prop: &str, thorough: bool) -> (u64, f64) {
    let quick = match prop {
        "C11" => 22_000,
        "C03" => 28_000,
        "C06" => 100_000,
        "C05" | "C09" | "C16" => 36_000,
        "C07" | "C12" | "C14" | "C18" | "C22" => 64_000,
        _ => 48_000,
    };
    let (r, s) = if thorough { (quick * 25, 840.0) } else { (quick, 75.0) };
    (envu("SIM_RUNS").unwrap_or(r), envu("SIM_SECS").map_or(s, |x| x as f64))
}

#[derive(Default)]
struct Tally {
    n: BTreeMap<String, u64>,
    inter: BTreeSet<u64>,
    cases: BTreeSet<u64>,
    samples: Vec<String>,
    bad: Vec<(u64, String, String, String)>,
    notes: BTreeSet<String>,
}

impl Tally {
    fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            *self.n.entry(k.to_string()).or_default() += v;
        }
    }
    fn encode(&self) -> Vec<u8> {
        let mut e = Enc::default();
        e.u(self.n.len() as u64);
        for (k, v) in &self.n {
            e.b(k.as_bytes());
            e.u(*v);
        }
        for s in [&self.inter, &self.cases] {
            e.u(s.len() as u64);
            for v in s {
                e.u(*v);
            }
        }
        e.u(self.samples.len() as u64);
        for s in &self.samples {
            e.b(s.as_bytes());
        }
        e.u(self.bad.len() as u64);
        for (i, k, m, p) in &self.bad {
            e.u(*i);
            e.b(k.as_bytes());
            e.b(m.as_bytes());
            e.b(p.as_bytes());
        }
        e.u(self.notes.len() as u64);
        for s in &self.notes {
            e.b(s.as_bytes());
        }
        e.0
    }
    fn merge(&mut self, b: &[u8]) {
        let mut d = Dec(b);
        for _ in 0..d.u() {
            let k = d.s();
            let v = d.u();
            self.add(&k, v);
        }
        for _ in 0..d.u() {
            self.inter.insert(d.u());
        }
        for _ in 0..d.u() {
            self.cases.insert(d.u());
        }
        for _ in 0..d.u() {
            let s = d.s();
            self.samples.push(s);
        }
        for _ in 0..d.u() {
            let i = d.u();
            self.bad.push((i, d.s(), d.s(), d.s()));
        }
        for _ in 0..d.u() {
            self.notes.insert(d.s());
        }
    }
    fn get(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }

    fn record(&mut self, p: &Plan, v: &Verdict) {
        let s = &v.sum;
        self.add("runs", 1);
        self.add("checks", v.checks);
        self.add("refs", v.refs);
        self.add("steps", s.steps);
        self.add("ref_steps", v.ref_steps);
        self.add("sim_ns", s.sim_ns);
        self.add("switches", s.switches);
        self.add("preemptions", s.preemptions);
        self.add("spawned", s.spawned);
        self.add("futex_waits", s.waits);
        self.add("quarantined", s.quarantined);
        self.add(&format!("policy/{}", p.sched.name()), 1);
        if let Some(m) = &v.inconclusive {
            self.add("inconclusive", 1);
            if m.starts_with("harness") {
                self.add("harness_errors", 1);
            }
            if self.notes.len() < 5 {
                self.notes.insert(m.clone());
            }
        }
        let mut faults = 0;
        for i in &p.imgs {
            for o in &i.ops {
                self.add(&format!("fault/stored data: {}", o.kind()), 1);
                faults += 1;
            }
        }
        for c in &s.calls {
            self.add(&format!("outcome/{}", ["decode_buffer", "decode_file", "read_headers"][c.kind as usize].to_string() + match c.class as u8 {
                b'O' => " ok",
                b'E' => " error",
                _ => " panic",
            }), 1);
            for f in &c.fired {
                if f != "full-read" {
                    self.add(&format!("fault/file: {f}"), 1);
                    faults += 1;
                }
            }
        }
        for st in p.callers.iter().flatten() {
            if st.away {
                self.add("fault/caller: decoder moved to another thread", 1);
            }
            if let Act::Limits(..) | Act::Threads(_) | Act::SetCs(_) | Act::Rgba = st.act {
                self.add("fault/caller: option changed between calls", 1);
            }
        }
        self.add("fault/threads: creation refused", s.spawn_failed);
        self.add("fault/threads: spurious wake-up", s.spurious);
        self.add("fault/threads: preemption", s.preemptions);
        if let crate::sched::Policy::Starve(..) = p.sched {
            self.add("fault/threads: starved thread class", 1);
        }
        match if crate::cpu::works() { p.par("cpu") } else { 0 } {
            0 => {}
            1 => self.add("fault/processor: no AVX", 1),
            _ => self.add("fault/processor: no AVX, SSSE3 or SSE4.1", 1),
        }
        if p.quar {
            self.add("fault/memory: freed blocks poisoned", s.quarantined);
        }
        faults += s.spawn_failed + s.spurious;
        self.inter.insert(s.hash);
        if v.checks > 0 && (s.preemptions > 0 || faults > 0) {
            self.cases.insert(mix(hash(p.to_text().as_bytes()) ^ s.hash));
        }
    }
}

fn cpus() -> Vec<usize> {
    unsafe {
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        libc::sched_getaffinity(0, core::mem::size_of::<libc::cpu_set_t>(), &mut set);
        let v: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if v.is_empty() {
            vec![0]
        } else {
            v
        }
    }
}

fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, core::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

/// Known findings: property, kind of violation and a part of its text.
struct Known {
    prop: String,
    kind: String,
    part: String,
    what: String,
}

fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", home())).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            // finding: property=<id> kind=<kind> match="<part>" <what fails>
            let r = l.strip_prefix("finding: ")?;
            let (prop, r) = r.strip_prefix("property=")?.split_once(' ')?;
            let (kind, r) = r.strip_prefix("kind=")?.split_once(' ')?;
            let (part, what) = r.strip_prefix("match=\"")?.split_once("\" ")?;
            Some(Known { prop: prop.into(), kind: kind.into(), part: part.into(), what: what.into() })
        })
        .collect()
}

pub fn signature(s: &Summary) -> Vec<u64> {
    let mut v = vec![s.steps, s.switches, s.hash, s.preemptions];
    for c in &s.calls {
        v.extend([c.class, c.hash, c.len, c.steps, c.peak_threads]);
    }
    v
}

fn shard(prop: &str, seed: u64, k: usize, n: usize, runs: u64, until: Instant, stop: &AtomicU64) -> Tally {
    let mut t = Tally::default();
    let known = known();
    let mut i = k as u64;
    while i < runs {
        if stop.load(Ordering::Relaxed) != 0 || Instant::now() > until {
            break;
        }
        let p = generate(prop, derive(seed, i, 7));
        let v = judge(&p);
        t.record(&p, &v);
        if t.samples.len() < 1 && v.checks > 0 && v.sum.preemptions > 0 {
            t.samples.push(p.to_text());
        }
        if let Some((kind, msg)) = &v.bad {
            if let Some(f) = known.iter().find(|f| f.prop == prop && f.kind == *kind && msg.contains(&f.part)) {
                t.add(&format!("known/{}", f.what), 1);
            } else {
                let again = judge(&p);
                if again.bad.as_ref().map(|b| &b.0) == Some(kind) {
                    t.bad.push((i, kind.clone(), msg.clone(), p.to_text()));
                    stop.store(1, Ordering::Relaxed);
                    break;
                }
                t.add("unrepeatable", 1);
                t.notes.insert(format!("not repeatable: {kind}: {msg}"));
            }
        } else if i % 61 == 3 && v.inconclusive.is_none() {
            // one seed, one execution
            let w = judge(&p);
            t.add("determinism_rechecks", 1);
            if signature(&w.sum) != signature(&v.sum) {
                t.add("determinism_mismatches", 1);
                if t.notes.len() < 9 {
                    t.notes.insert(format!("two executions of run {i} differ"));
                }
            }
        }
        i += n as u64;
    }
    t
}

fn explore(prop: &str, seed: u64, runs: u64, secs: f64, workers: Option<usize>) -> Tally {
    let cpus = cpus();
    let n = workers.unwrap_or(cpus.len().min(16));
    let until = Instant::now() + Duration::from_secs_f64(secs);
    let stop = unsafe { &*(map_shared(4096) as *const AtomicU64) };
    let regions: Vec<*mut u8> = (0..n).map(|_| map_shared(REGION)).collect();
    let mut pids = vec![];
    for k in 0..n {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                pin(cpus[k % cpus.len()]);
                judge::AREA = map_shared(judge::ARENA);
                let t = shard(prop, seed, k, n, runs, until, stop).encode();
                let t = if t.len() + 64 > REGION { Tally::default().encode() } else { t };
                core::ptr::copy_nonoverlapping(t.as_ptr(), regions[k].add(64), t.len());
                *(regions[k] as *mut u64).add(1) = t.len() as u64;
                *(regions[k] as *mut u64) = 1;
                libc::_exit(0);
            }
        }
        pids.push(pid);
    }
    let mut t = Tally::default();
    for (k, pid) in pids.into_iter().enumerate() {
        unsafe {
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
            if *(regions[k] as *const u64) == 1 {
                let l = *(regions[k] as *const u64).add(1) as usize;
                t.merge(core::slice::from_raw_parts(regions[k].add(64), l));
            } else {
                t.add("shards_lost", 1);
            }
            libc::munmap(regions[k].cast(), REGION);
        }
    }
    t
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn obj(v: &[(String, u64)]) -> String {
    let s: Vec<String> = v.iter().map(|(k, n)| format!("{}: {n}", esc(k))).collect();
    format!("{{{}}}", s.join(", "))
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed = envu("VERIF_SEED").unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    if !crate::props::ALL.contains(&prop) {
        eprintln!("no such property: {prop}");
        return 2;
    }
    let (runs, secs) = budget(prop, thorough);
    println!("property {prop} seed {seed} tier {tier}: up to {runs} simulated runs");
    let t = explore(prop, seed, runs, secs, None);
    let explored = t0.elapsed().as_secs_f64();
    for (k, n) in &t.n {
        if let Some(w) = k.strip_prefix("known/") {
            println!("KNOWN-FINDING: property={prop} {w} ({n} runs)");
        }
    }
    let mut code = 0;
    let mut first = None;
    if let Some((i, kind, msg, text)) = t.bad.iter().min_by_key(|b| b.0) {
        println!("run {i} (seed {seed}): {kind}: {msg}");
        let p = Plan::parse(text).expect("plan");
        let budget = if thorough { 120.0 } else { 40.0 };
        let (small, tries) = shrink(&p, kind, budget);
        let dir = format!("{}/replays", home());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed}-{i}.plan");
        let write = |p: &Plan, note: &str| {
            let v = judge(p);
            let m = v.bad.map_or(String::new(), |b| format!("{}: {}", b.0, b.1));
            let head = format!(
                "# property {prop}, VERIF_SEED {seed}, run {i}{note}\n# {m}\n# {} steps, {} switches; replay: /verif/check.sh replay {path}\n",
                v.sum.steps, v.sum.switches
            );
            let _ = std::fs::write(&path, head + &p.to_text());
        };
        write(&small, &format!(", minimised in {tries} attempts"));
        if !replays(&path) {
            write(&p, "");
            if !replays(&path) {
                eprintln!("harness error: {path} does not reproduce in a fresh process");
            }
        }
        let v = judge(&Plan::parse(&std::fs::read_to_string(&path).unwrap_or_default()).unwrap_or(p));
        if let Some((k, m)) = v.bad {
            println!("minimised: {k}: {m}");
        }
        println!("VIOLATION property={prop} replay={path}");
        first = Some(path);
        code = 1;
    }
    evidence(prop, seed, &tier, &t, explored, t0.elapsed().as_secs_f64(), first.is_some());
    let r = t.get("runs");
    println!(
        "{r} runs, {} oracle checks, {} distinct interleavings, {} distinct non-trivial cases, {} inconclusive, {:.1} s",
        t.get("checks"),
        t.inter.len(),
        t.cases.len(),
        t.get("inconclusive"),
        t0.elapsed().as_secs_f64()
    );
    for n in &t.notes {
        println!("note: {n}");
    }
    if code == 0
        && (r == 0 || t.get("checks") == 0 || t.get("harness_errors") * 5 > r || t.get("inconclusive") * 2 > r || t.get("shards_lost") > 0)
    {
        eprintln!(
            "no verdict: {r} runs, {} inconclusive, {} harness errors, {} shards lost",
            t.get("inconclusive"),
            t.get("harness_errors"),
            t.get("shards_lost")
        );
        return 3;
    }
    code
}

fn replays(path: &str) -> bool {
    std::process::Command::new("/proc/self/exe")
        .args(["replay", path])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map_or(false, |s| s.code() == Some(1))
}

fn evidence(prop: &str, seed: u64, tier: &str, t: &Tally, explored: f64, wall: f64, bad: bool) {
    let pick = |pre: &str| -> Vec<(String, u64)> {
        t.n.iter().filter_map(|(k, v)| k.strip_prefix(pre).map(|k| (k.to_string(), *v))).collect()
    };
    let runs = t.get("runs");
    let guards = crate::sched::guards();
    let edges = (0..=guards.min(crate::sched::MAXGUARD - 1)).filter(|i| unsafe { *judge::EDGES.add(*i) != 0 }).count();
    let samples: Vec<String> = t.samples.iter().take(3).map(|s| esc(s)).collect();
    let mut notes: Vec<String> = t.notes.iter().map(|s| esc(s)).collect();
    notes.truncate(10);
    let level = if prop == "C05" || prop == "C14" { "exploration" } else { "exploration" };
    let j = format!(
        r#"{{
 "property": {}, "tier": {}, "seed": {seed}, "level": "{level}",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {},
  "rule": "A case is a plan drawn from the seed (images, stored-data faults, file faults, calls, thread counts, schedule, memory contents) run once in a process of its own under the simulator. It is non-trivial if at least one oracle comparison was made in it and a fault fired or a thread was preempted; two cases are distinct if plan text or interleaving hash differ.",
  "samples": [{}],
  "oracle_comparisons": {},
  "reference_runs": {},
  "runs_per_hour": {:.0}, "seeds_per_hour": {:.0},
  "simulated_seconds": {:.3}, "scheduling_points": {},
  "thread_switches": {}, "preemptions": {}, "threads_created": {}, "blocking_waits": {},
  "distinct_interleavings": {}, "interleaving_measure": "hash over the sequence of (thread switched to, edge at which a preemption happened)",
  "schedule_policies": {},
  "faults_fired": {},
  "outcomes": {},
  "edges_reached": {{"decoder": {edges}, "decoder_total": {guards}}},
  "determinism": {{"executions_repeated": {}, "differences": {}, "unrepeatable_alarms": {}}},
  "inconclusive_runs": {}, "notes": [{}],
  "known_findings": {},
  "components": {{
   "real": ["zune-jpeg (all of /repo/src, release build with edge instrumentation)", "scoped_threadpool", "std: threads, Mutex, Condvar, channels, fs::read, collections", "log macros"],
   "simulated": ["thread scheduling and blocking (pthread_create, pthread_join, futex, sched_yield)", "clock and sleeping", "file operations (open, read, fstat, statx, close) for the files decoded", "heap contents, accounting and reuse", "random numbers of the system", "the processor features that run-time detection finds (AVX2, SSE4.1)", "the caller's logger"],
   "stubbed_out": []
  }}
 }},
 "assumptions": ["Threads are interleaved at edges of the compiled decoder and thread pool, allocations, locks, channel operations and file operations; weak-memory reorderings are not simulated", "x86-64; processors with fewer features than this machine are simulated, not ones with more"],
 "wall_s": {wall:.2}, "violations": {}
}}
"#,
        esc(prop),
        esc(tier),
        t.cases.len(),
        samples.join(", "),
        t.get("checks"),
        t.get("refs"),
        runs as f64 / explored.max(0.01) * 3600.0,
        runs as f64 / explored.max(0.01) * 3600.0,
        t.get("sim_ns") as f64 / 1e9,
        t.get("steps"),
        t.get("switches"),
        t.get("preemptions"),
        t.get("spawned"),
        t.get("futex_waits"),
        t.inter.len(),
        obj(&pick("policy/")),
        obj(&pick("fault/")),
        obj(&pick("outcome/")),
        t.get("determinism_rechecks"),
        t.get("determinism_mismatches"),
        t.get("unrepeatable"),
        t.get("inconclusive"),
        notes.join(", "),
        obj(&pick("known/")),
        u8::from(bad),
    );
    let dir = format!("{}/evidence", home());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{prop}.json"), j);
}

/// Every property, several seeds, executed by different numbers of worker
/// processes: the executions have to be the same.
pub fn selftest(n: u64) -> i32 {
    let mut diff = 0;
    let mut total = 0;
    for prop in crate::props::ALL {
        for seed in [envu("VERIF_SEED").unwrap_or(1), 77] {
            let mut sets = vec![];
            for w in [1, 3, 8] {
                let t = explore(prop, seed, n, 600.0, Some(w));
                sets.push((t.get("steps"), t.get("switches"), t.get("checks"), t.cases, t.inter));
                total += n;
            }
            if sets.windows(2).any(|w| w[0] != w[1]) {
                println!("{prop} seed {seed}: executions differ between process counts");
                diff += 1;
            }
        }
    }
    println!("selftest: {total} executions, {diff} differing groups");
    i32::from(diff > 0)
}

/// All properties in turn until one fails, in this process.
pub fn hunt(n: u64) -> i32 {
    let seed = envu("VERIF_SEED").unwrap_or(1);
    for i in 0..n {
        for prop in crate::props::ALL {
            if let Some((k, m)) = judge(&generate(prop, derive(seed, i, 7))).bad {
                println!("{prop} run {i}: {k}: {m}");
                return 1;
            }
        }
    }
    println!("nothing in {n} runs of every property");
    0
}

/// What fails and how often, without stopping.
pub fn survey(prop: &str, n: u64) {
    let seed = envu("VERIF_SEED").unwrap_or(1);
    let mut m: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let (mut steps, mut worst) = (0.0f64, 0.0f64);
    let t0 = Instant::now();
    for i in 0..n {
        let p = generate(prop, derive(seed, i, 7));
        let v = judge(&p);
        let k = match (&v.bad, &v.inconclusive) {
            (Some((k, m)), _) => format!("BAD {k}: {m}"),
            (_, Some(m)) => format!("inconclusive {m}"),
            _ => "fine".into(),
        };
        let mut q = String::new();
        for c in k.chars() {
            if !c.is_ascii_digit() {
                q.push(c);
            } else if !q.ends_with('#') {
                q.push('#');
            }
        }
        let e = m.entry(q).or_insert((0, i));
        e.0 += 1;
        for c in &v.sum.calls {
            // steps of callers at the same time count for each other
            if p.callers.len() > 1 || crate::props::changing(&p, c) {
                continue;
            }
            let b = crate::props::step_bound(&p.imgs[c.img as usize].bytes(), &c.opts);
            if c.steps > b {
                println!("run {i}: {} steps for a bound of {b}, action {} of caller {}", c.steps, c.step, c.caller);
            }
            steps = steps.max(c.steps as f64 / b as f64);
            worst = worst.max(c.mem as f64 / crate::props::mem_bound(&c.opts, p.imgs[c.img as usize].bytes().len() as u64) as f64);
        }
    }
    for (k, (c, i)) in &m {
        println!("{c:7} first {i}: {k}");
    }
    println!("largest part of step bound {steps:.4}, of memory bound {worst:.4}; {:.1} runs/s", n as f64 / t0.elapsed().as_secs_f64());
}
