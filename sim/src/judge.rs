//! Runs plans in processes of their own and decides whether the property of
//! the plan held.
#![allow(static_mut_refs)]
use crate::exec::{exec, hash, reference_plan, Call, Summary};
use crate::plan::{Opts, Plan};
use crate::sched::{self, MAXGUARD};
use std::collections::BTreeMap;

pub const ARENA: usize = 512 << 20;

/// memory shared with the processes of the runs
pub static mut AREA: *mut u8 = core::ptr::null_mut();
pub static mut EDGES: *mut u8 = core::ptr::null_mut();

pub fn map_shared(n: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        p.cast()
    }
}

#[derive(Clone, Debug)]
pub struct Death {
    pub kind: String,
    pub msg: String,
}

fn fatal(kind: &str, msg: &str) {
    unsafe {
        let h = AREA as *mut u64;
        *h.add(1) = kind.len() as u64;
        *h.add(2) = msg.len() as u64;
        core::ptr::copy_nonoverlapping(kind.as_ptr(), AREA.add(64), kind.len());
        core::ptr::copy_nonoverlapping(msg.as_ptr(), AREA.add(64 + kind.len()), msg.len());
        *h = 2;
        save_edges();
        libc::_exit(77);
    }
}

unsafe fn save_edges() {
    if !EDGES.is_null() {
        for i in 0..(sched::guards() + 1).min(MAXGUARD) {
            if sched::GUARD_HITS[i] != 0 && *EDGES.add(i) == 0 {
                *EDGES.add(i) = 1;
            }
        }
    }
}

fn signal_name(s: i32) -> String {
    match s {
        libc::SIGSEGV => "SIGSEGV".into(),
        libc::SIGABRT => "SIGABRT".into(),
        libc::SIGBUS => "SIGBUS".into(),
        libc::SIGILL => "SIGILL".into(),
        libc::SIGFPE => "SIGFPE".into(),
        n => format!("signal {n}"),
    }
}

/// `f` in a process of its own; what it returned or how it died.
pub fn isolated(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, Death> {
    unsafe {
        let h = AREA as *mut u64;
        *h = 0;
        let pid = libc::fork();
        if pid < 0 {
            return Err(Death { kind: "harness".into(), msg: "fork failed".into() });
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(null, 2);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let cpu = libc::rlimit { rlim_cur: 100, rlim_max: 110 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            libc::alarm(200);
            sched::FATAL = fatal;
            let v = f();
            if v.len() + 64 > ARENA {
                fatal("harness", "result too large");
            }
            core::ptr::copy_nonoverlapping(v.as_ptr(), AREA.add(64), v.len());
            *h.add(1) = v.len() as u64;
            *h = 1;
            save_edges();
            libc::_exit(0);
        }
        let mut st = 0;
        loop {
            let r = libc::waitpid(pid, &mut st, 0);
            if r == pid || (r < 0 && *libc::__errno_location() != libc::EINTR) {
                break;
            }
        }
        let n = *h.add(1) as usize;
        match *h {
            1 => Ok(core::slice::from_raw_parts(AREA.add(64), n).to_vec()),
            2 => {
                let m = *h.add(2) as usize;
                let k = core::slice::from_raw_parts(AREA.add(64), n);
                let m = core::slice::from_raw_parts(AREA.add(64 + n), m);
                Err(Death {
                    kind: String::from_utf8_lossy(k).into_owned(),
                    msg: String::from_utf8_lossy(m).into_owned(),
                })
            }
            _ => {
                if libc::WIFSIGNALED(st) {
                    let s = libc::WTERMSIG(st);
                    let kind = match s {
                        libc::SIGXCPU | libc::SIGALRM => "hang",
                        libc::SIGKILL | libc::SIGTERM | libc::SIGINT | libc::SIGHUP => "harness",
                        _ => "crash",
                    };
                    Err(Death { kind: kind.into(), msg: format!("the process was killed by {}", signal_name(s)) })
                } else {
                    Err(Death { kind: "crash".into(), msg: format!("the process exited with {}", libc::WEXITSTATUS(st)) })
                }
            }
        }
    }
}

pub const MAX_STEP: u64 = 600_000_000;

pub fn run_plan(p: &Plan, bytes: &[Vec<u8>], keep: bool, record: bool, max_step: u64) -> Result<Summary, Death> {
    isolated(|| exec(p, bytes, keep, record, max_step).encode()).map(|b| Summary::decode(&b))
}

#[derive(Default)]
pub struct Refs {
    m: BTreeMap<(u64, Opts, bool), Result<Call, Death>>,
    pub runs: u64,
    pub steps: u64,
}

impl Refs {
    pub fn get(&mut self, bytes: &[u8], o: &Opts, hdr: bool, keep: bool) -> &Result<Call, Death> {
        let o1 = Opts { threads: 1, ..*o };
        let k = (hash(bytes), o1, hdr);
        if !self.m.contains_key(&k) {
            let img = crate::plan::Img { spec: crate::jpeg::ImgSpec::from_line(DUMMY).unwrap(), ops: vec![] };
            let p = reference_plan(o, hdr, img);
            let r = run_plan(&p, &[bytes.to_vec()], keep, false, MAX_STEP);
            self.runs += 1;
            let r = r.map(|mut s| {
                self.steps += s.steps;
                s.calls.remove(0)
            });
            self.m.insert(k, r);
        }
        &self.m[&k]
    }
}

const DUMMY: &str = "w=8 h=8 gray=1 hs=1 vs=1 prog=0 ri=0 style=0 seed=0 q=1 huff=0 script=0 extra=0 layout=0";

pub const O: u64 = b'O' as u64;
pub const E: u64 = b'E' as u64;
pub const P: u64 = b'P' as u64;

fn cname(c: u64) -> &'static str {
    match c {
        O => "a result",
        E => "an error",
        P => "a panic",
        _ => "nothing",
    }
}

/// How the outcome of a call differs from the reference, if it does.
pub fn differs(c: &Call, r: &Call) -> Option<(&'static str, String)> {
    if (c.class == O) != (r.class == O) {
        return Some(("class", format!("{} where alone, fresh and undisturbed it is {}", cname(c.class), cname(r.class))));
    }
    if c.class != O {
        return None;
    }
    if (c.w, c.h, c.cs, c.info) != (r.w, r.h, r.cs, r.info) {
        return Some((
            "metadata",
            format!("{}x{} colour space {} {:?} instead of {}x{} colour space {} {:?}", c.w, c.h, c.cs, c.info, r.w, r.h, r.cs, r.info),
        ));
    }
    if c.len != r.len {
        return Some(("length", format!("{} bytes of pixels instead of {}", c.len, r.len)));
    }
    if c.hash != r.hash {
        return Some(("pixels", "other pixels than when alone, fresh and undisturbed".into()));
    }
    None
}
