//! Carries out a plan inside the simulation and sums up what was observable.
#![allow(static_mut_refs, deprecated)]
use crate::plan::{Act, Opts, Plan, Step, SPACES};
use crate::rng::mix;
use crate::sched::{self, as_harness, as_sut, Cfg, Policy};
use crate::{disk, heap};
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};
use zune_jpeg::{ColorSpace, Decoder, ZuneJpegOptions};

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64 ^ b.len() as u64;
    let mut c = b.chunks_exact(8);
    for w in &mut c {
        h = (h ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 29;
    }
    for w in c.remainder() {
        h = (h ^ u64::from(*w)).wrapping_mul(0x9FB2_1C65_1E98_DF25);
        h ^= h >> 29;
    }
    mix(h)
}

/// One call of the API, as seen from outside.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Call {
    pub caller: u64,
    pub step: u64,
    /// 0 decode buffer, 1 decode file, 2 read headers
    pub kind: u64,
    pub img: u64,
    /// b'O' pixels or headers, b'E' error, b'P' panic
    pub class: u64,
    pub len: u64,
    pub hash: u64,
    /// hash of the same buffer at the end of the run
    pub final_hash: u64,
    /// width, height, components, progressive
    pub info: Option<[u64; 5]>,
    pub w: u64,
    pub h: u64,
    pub cs: u64,
    pub opts: Opts,
    /// most threads of this call alive at once
    pub peak_threads: u64,
    pub steps: u64,
    pub mem: u64,
    /// instrumented edges run on behalf of this call after it returned
    pub late: u64,
    pub io_failed: u64,
    pub fired: Vec<String>,
    pub delivered: Vec<u8>,
    pub data: Vec<u8>,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Summary {
    pub calls: Vec<Call>,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub spawned: u64,
    pub spawn_failed: u64,
    pub spurious: u64,
    pub waits: u64,
    pub hash: u64,
    pub leaked: u64,
    pub quarantined: u64,
    /// bytes held, and threads not ended, at each drain
    pub marks: Vec<(u64, u64)>,
    pub panics: Vec<String>,
    /// number of panics on threads other than a calling one
    pub worker_panics: u64,
    /// bytes held once everything was dropped
    pub end_live: u64,
    pub rec: Option<Vec<(u64, u8, u32)>>,
}

// -------------------------------------------------------------- wire format

#[derive(Default)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn u(&mut self, v: u64) {
        self.0.extend(v.to_le_bytes());
    }
    pub fn b(&mut self, v: &[u8]) {
        self.u(v.len() as u64);
        self.0.extend(v);
    }
}
pub struct Dec<'a>(pub &'a [u8]);
impl Dec<'_> {
    pub fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    pub fn b(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
    pub fn s(&mut self) -> String {
        String::from_utf8_lossy(&self.b()).into_owned()
    }
}

impl Summary {
    pub fn encode(&self) -> Vec<u8> {
        let mut e = Enc::default();
        for v in [
            self.steps, self.sim_ns, self.switches, self.preemptions, self.spawned, self.spawn_failed, self.spurious,
            self.waits, self.hash, self.leaked, self.quarantined, self.end_live, self.worker_panics,
        ] {
            e.u(v);
        }
        e.u(self.marks.len() as u64);
        for m in &self.marks {
            e.u(m.0);
            e.u(m.1);
        }
        e.u(self.panics.len() as u64);
        for p in &self.panics {
            e.b(p.as_bytes());
        }
        match &self.rec {
            None => e.u(u64::MAX),
            Some(r) => {
                e.u(r.len() as u64);
                for (a, b, c) in r {
                    e.u(*a);
                    e.u(u64::from(*b) << 32 | u64::from(*c));
                }
            }
        }
        e.u(self.calls.len() as u64);
        for c in &self.calls {
            for v in [
                c.caller, c.step, c.kind, c.img, c.class, c.len, c.hash, c.final_hash, c.w, c.h, c.cs, c.peak_threads,
                c.steps, c.mem, c.late, c.io_failed,
            ] {
                e.u(v);
            }
            match c.info {
                None => e.u(0),
                Some(i) => {
                    e.u(1);
                    for v in i {
                        e.u(v);
                    }
                }
            }
            let o = &c.opts;
            for v in [
                u64::from(o.threads), u64::from(o.cs), u64::from(o.mw), u64::from(o.mh), o.ms as u64,
                u64::from(o.strict), u64::from(o.simd),
            ] {
                e.u(v);
            }
            e.u(c.fired.len() as u64);
            for f in &c.fired {
                e.b(f.as_bytes());
            }
            e.b(&c.delivered);
            e.b(&c.data);
            e.b(c.msg.as_bytes());
        }
        e.0
    }
    pub fn decode(b: &[u8]) -> Summary {
        let mut d = Dec(b);
        let mut s = Summary {
            steps: d.u(),
            sim_ns: d.u(),
            switches: d.u(),
            preemptions: d.u(),
            spawned: d.u(),
            spawn_failed: d.u(),
            spurious: d.u(),
            waits: d.u(),
            hash: d.u(),
            leaked: d.u(),
            quarantined: d.u(),
            end_live: d.u(),
            worker_panics: d.u(),
            ..Summary::default()
        };
        for _ in 0..d.u() {
            s.marks.push((d.u(), d.u()));
        }
        for _ in 0..d.u() {
            s.panics.push(d.s());
        }
        let n = d.u();
        if n != u64::MAX {
            let mut r = vec![];
            for _ in 0..n {
                let a = d.u();
                let b = d.u();
                r.push((a, (b >> 32) as u8, b as u32));
            }
            s.rec = Some(r);
        }
        for _ in 0..d.u() {
            let mut c = Call {
                caller: d.u(),
                step: d.u(),
                kind: d.u(),
                img: d.u(),
                class: d.u(),
                len: d.u(),
                hash: d.u(),
                final_hash: d.u(),
                w: d.u(),
                h: d.u(),
                cs: d.u(),
                peak_threads: d.u(),
                steps: d.u(),
                mem: d.u(),
                late: d.u(),
                io_failed: d.u(),
                ..Call::default()
            };
            if d.u() == 1 {
                c.info = Some([d.u(), d.u(), d.u(), d.u(), d.u()]);
            }
            c.opts = Opts {
                threads: d.u() as u32,
                cs: d.u() as u8,
                mw: d.u() as u16,
                mh: d.u() as u16,
                ms: d.u() as usize,
                strict: d.u() == 1,
                simd: d.u() == 1,
            };
            for _ in 0..d.u() {
                c.fired.push(d.s());
            }
            c.delivered = d.b();
            c.data = d.b();
            c.msg = d.s();
            s.calls.push(c);
        }
        s
    }
}

// ----------------------------------------------------------------- the seams

struct Sink;
static SINK: Sink = Sink;
static mut LOGGED: u64 = 0;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // a caller's logger: takes time, may be where a thread loses the processor
        as_harness(|| {
            let s = format!("{} {}", r.level(), r.args());
            unsafe { LOGGED = mix(LOGGED ^ hash(s.as_bytes())) };
        });
        sched::sync_point();
    }
    fn flush(&self) {}
}

static mut PANICS: Vec<String> = Vec::new();
static mut WORKER_PANICS: u64 = 0;

/// Once per process, before anything is forked.
pub fn install() {
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Off);
    std::panic::set_hook(Box::new(|i| {
        as_harness(|| unsafe {
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let at = i.location().map_or(String::new(), |l| {
                let f = l.file();
                let f = f.find("/src/").map_or(f, |k| &f[k + 1..]);
                format!(" at {f}:{}", l.line())
            });
            let w = sched::in_sim() && sched::is_worker();
            if w {
                WORKER_PANICS += 1;
            }
            let m: String = m.chars().take(200).collect();
            PANICS.push(format!("{}: {m}{at}", if w { "worker" } else { "caller" }));
        });
    }));
}

pub fn cs_code(c: ColorSpace) -> u64 {
    SPACES.iter().position(|x| x.1 == c).map_or(99, |x| x as u64)
}

pub fn make_opts(o: &Opts) -> ZuneJpegOptions {
    ZuneJpegOptions::new()
        .set_num_threads(NonZeroU32::new(o.threads.max(1)).unwrap())
        .set_out_colorspace(SPACES[o.cs as usize].1)
        .set_max_width(o.mw)
        .set_max_height(o.mh)
        .set_max_scans(o.ms)
        .set_strict_mode(o.strict)
        .set_use_unsafe(o.simd)
}

struct Caller {
    dec: Option<Decoder>,
    opts: Opts,
    id: u64,
    calls: Vec<(Call, Option<Vec<u8>>, u32)>,
}

struct Shared<'a> {
    plan: &'a Plan,
    bytes: &'a [Vec<u8>],
    marks: Vec<(u64, u64)>,
}

struct Wrap<T>(T);
unsafe impl<T> Send for Wrap<T> {}

fn call(c: &mut Caller, sh: &mut Shared, step: u64, act: &Act) {
    let mut r = Call { caller: c.id, step, opts: c.opts, ..Call::default() };
    let d = c.dec.get_or_insert_with(|| as_sut(Decoder::new));
    let mut fileno = None;
    let path;
    let id = sched::call_begin();
    let (live0, step0) = (heap::live(), sched::steps());
    heap::reset_peak();
    let res: Result<Result<Option<Vec<u8>>, _>, _> = match act {
        Act::Buf(i) => {
            r.img = *i as u64;
            as_sut(|| catch_unwind(AssertUnwindSafe(|| d.decode_buffer(&sh.bytes[*i]).map(Some))))
        }
        Act::File(i, io) => {
            r.kind = 1;
            r.img = *i as u64;
            let f = disk::create(sh.bytes[*i].clone(), io.clone());
            fileno = Some(f.0);
            path = f.1;
            as_sut(|| catch_unwind(AssertUnwindSafe(|| d.decode_file(path.as_str()).map(Some))))
        }
        Act::Hdr(i) => {
            r.kind = 2;
            r.img = *i as u64;
            as_sut(|| catch_unwind(AssertUnwindSafe(|| d.read_headers(&sh.bytes[*i]).map(|_| None))))
        }
        _ => unreachable!(),
    };
    r.peak_threads = u64::from(sched::call_end(id));
    r.steps = sched::steps() - step0;
    r.mem = heap::peak().saturating_sub(live0);
    let mut keep = None;
    match res {
        Ok(Ok(p)) => {
            r.class = u64::from(b'O');
            r.w = u64::from(d.width());
            r.h = u64::from(d.height());
            r.cs = cs_code(d.get_output_colorspace());
            r.info = as_sut(|| d.info()).map(|i| {
                let prog = format!("{:?}", i.sof).contains("Progressive");
                [u64::from(i.width), u64::from(i.height), u64::from(i.components), u64::from(prog), u64::from(i.pixel_density)]
            });
            if let Some(p) = p {
                r.len = p.len() as u64;
                r.hash = hash(&p);
                if sh.plan.par("free") == 1 {
                    r.final_hash = r.hash;
                } else {
                    keep = Some(p);
                }
            }
        }
        Ok(Err(e)) => {
            r.class = u64::from(b'E');
            let m = as_sut(|| format!("{e:?}"));
            r.msg = String::from_utf8_lossy(m.as_bytes()).into_owned();
            as_sut(|| drop((e, m)));
        }
        Err(p) => {
            r.class = u64::from(b'P');
            drop(p);
        }
    }
    if let Some(f) = fileno {
        let f = disk::file(f);
        r.delivered = f.delivered.clone();
        r.io_failed = u64::from(f.failed);
        r.fired = f.fired.iter().map(|s| (*s).to_string()).collect();
    }
    c.calls.push((r, keep, id));
}

fn perform(c: &mut Caller, sh: &mut Shared, i: usize, s: &Step) {
    match &s.act {
        Act::New(o) => {
            let old = c.dec.take();
            as_sut(|| drop(old));
            c.opts = *o;
            c.dec = Some(as_sut(|| Decoder::new_with_options(make_opts(o))));
        }
        Act::SetCs(n) => {
            if let Some(d) = &mut c.dec {
                as_sut(|| d.set_output_colorspace(SPACES[*n as usize].1));
                c.opts.cs = *n;
            }
        }
        Act::Rgba => {
            if let Some(d) = &mut c.dec {
                as_sut(|| d.rgba());
                c.opts.cs = 3;
            }
        }
        Act::Threads(n) => {
            if let Some(d) = &mut c.dec {
                let set = as_sut(|| catch_unwind(AssertUnwindSafe(|| d.set_num_threads(*n as usize).is_ok())));
                if matches!(set, Ok(true)) && *n > 0 {
                    c.opts.threads = *n as u32;
                }
            }
        }
        Act::Limits(w, h) => {
            if let Some(d) = &mut c.dec {
                as_sut(|| d.set_limits(*w, *h));
                c.opts.mw = *w;
                c.opts.mh = *h;
            }
        }
        Act::Drop => {
            let old = c.dec.take();
            as_sut(|| drop(old));
        }
        Act::Drain => {
            let left = sched::drain() as u64;
            sh.marks.push((heap::live(), left));
        }
        Act::Buf(_) | Act::File(..) | Act::Hdr(_) => call(c, sh, i as u64, &s.act),
    }
}

fn caller(plan: &Plan, n: usize, sh: &mut Shared) -> Caller {
    let mut c = Caller { dec: None, opts: Opts::default(), id: n as u64, calls: vec![] };
    for (i, s) in plan.callers[n].iter().enumerate() {
        if s.away {
            // hand the decoder to another thread, which gives it back
            // SAFETY: joined below, and nothing here touches them meanwhile
            let at = (&raw mut c as usize, sh as *mut Shared as usize, s as *const Step as usize);
            std::thread::spawn(move || {
                sched::become_caller();
                as_harness(|| {
                    let (c, sh, st) = unsafe {
                        (&mut *(at.0 as *mut Caller), &mut *(at.1 as *mut Shared), &*(at.2 as *const Step))
                    };
                    perform(c, sh, i, st);
                });
            })
            .join()
            .unwrap();
        } else {
            perform(&mut c, sh, i, s);
        }
    }
    c
}

/// Run the plan. `keep`: return pixels too.
pub fn exec(plan: &Plan, bytes: &[Vec<u8>], keep: bool, record: bool, max_step: u64) -> Summary {
    log::set_max_level(match plan.log {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Warn,
        _ => log::LevelFilter::Trace,
    });
    heap::configure(plan.fill, plan.quar);
    disk::reset();
    unsafe {
        PANICS.clear();
        WORKER_PANICS = 0;
    }
    let cfg = Cfg {
        policy: plan.sched.clone(),
        seed: plan.sseed,
        max_step,
        spurious: plan.spurious,
        spawn_fail: plan.fails.clone(),
    };
    let ((mut callers, marks, ns), st) = sched::run(&cfg, || {
        let mut sh = Shared { plan, bytes, marks: vec![] };
        let n = plan.callers.len();
        let mut v: Vec<Caller> = vec![];
        if n == 1 {
            sched::become_caller();
            v.push(caller(plan, 0, &mut sh));
        } else {
            let mut hs = vec![];
            for i in 0..n {
                let at = &raw const sh as usize;
                // SAFETY: joined below
                hs.push(std::thread::spawn(move || {
                    sched::become_caller();
                    as_harness(|| {
                        let s: &Shared<'static> = unsafe { &*(at as *const Shared<'static>) };
                        let mut own = Shared { plan: s.plan, bytes: s.bytes, marks: vec![] };
                        Wrap(caller(own.plan, i, &mut own))
                    })
                }));
            }
            for h in hs {
                v.push(h.join().unwrap().0);
            }
        }
        // the decoders go away; everything they started must settle
        for c in &mut v {
            let d = c.dec.take();
            as_sut(|| drop(d));
        }
        let left = sched::drain() as u64;
        sh.marks.push((heap::live(), left));
        (v, sh.marks, sched::sim_ns())
    });
    let mut s = Summary {
        steps: st.steps,
        sim_ns: ns,
        switches: st.switches,
        preemptions: st.preemptions,
        spawned: st.spawned,
        spawn_failed: st.spawn_failed,
        spurious: st.spurious,
        waits: st.futex_waits,
        hash: st.hash,
        leaked: st.leaked,
        marks,
        ..Summary::default()
    };
    for c in &mut callers {
        for (mut r, p, id) in c.calls.drain(..) {
            if let Some(p) = p {
                r.final_hash = hash(&p);
                if keep {
                    r.data = p.clone();
                }
                drop(p);
            }
            r.late = sched::late(id);
            s.calls.push(r);
        }
    }
    heap::flush();
    s.end_live = heap::live();
    unsafe {
        s.panics = PANICS.clone();
        s.worker_panics = WORKER_PANICS;
        s.quarantined = heap::QUARANTINED;
    }
    if record {
        s.rec = sched::recorded();
    }
    s
}

/// The small reference: a fresh decoder, one worker, no faults, nothing else
/// running, run to completion in order.
pub fn reference_plan(opts: &Opts, hdr: bool, img: crate::plan::Img) -> Plan {
    let o = Opts { threads: 1, ..*opts };
    Plan {
        prop: "REF".into(),
        fill: 0x5555_aaaa_1234_9876,
        quar: false,
        log: 0,
        imgs: vec![img],
        callers: vec![vec![
            Step { act: Act::New(o), away: false },
            Step { act: if hdr { Act::Hdr(0) } else { Act::Buf(0) }, away: false },
        ]],
        sched: Policy::Def,
        sseed: 1,
        spurious: false,
        fails: vec![],
        p: Default::default(),
    }
}
