//! The file seam: `open`, `read`, `stat` and friends for paths under /simfs.
//!
//! Such a path names an anonymous in-memory file; what each call returns is
//! decided by a script. Everything else passes through.
#![allow(static_mut_refs)]
use crate::sched::{self, sys};
use libc::{c_char, c_int, c_void};

#[derive(Clone, Debug, PartialEq)]
pub enum Io {
    /// open fails
    Open(i32),
    /// stat fails
    Stat(i32),
    /// stat reports this size
    Size(u64),
    /// a read as long as asked for
    Full,
    /// a read of at most n bytes
    Short(usize),
    /// a read fails
    Err(i32),
    /// another process truncates the file first
    Trunc(usize),
    /// another process appends n bytes first
    Grow(usize),
    /// another process overwrites the byte at this position first
    Poke(usize, u8),
}

impl Io {
    pub fn to_str(&self) -> String {
        match self {
            Io::Open(e) => format!("o{e}"),
            Io::Stat(e) => format!("s{e}"),
            Io::Size(n) => format!("z{n}"),
            Io::Full => "f".into(),
            Io::Short(n) => format!("h{n}"),
            Io::Err(e) => format!("e{e}"),
            Io::Trunc(n) => format!("t{n}"),
            Io::Grow(n) => format!("g{n}"),
            Io::Poke(p, b) => format!("k{p}.{b}"),
        }
    }
    pub fn parse(s: &str) -> Option<Io> {
        let r = s.get(1..)?;
        Some(match s.as_bytes().first()? {
            b'o' => Io::Open(r.parse().ok()?),
            b's' => Io::Stat(r.parse().ok()?),
            b'z' => Io::Size(r.parse().ok()?),
            b'f' => Io::Full,
            b'h' => Io::Short(r.parse().ok()?),
            b'e' => Io::Err(r.parse().ok()?),
            b't' => Io::Trunc(r.parse().ok()?),
            b'g' => Io::Grow(r.parse().ok()?),
            b'k' => {
                let (a, b) = r.split_once('.')?;
                Io::Poke(a.parse().ok()?, b.parse().ok()?)
            }
            _ => return None,
        })
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Io::Open(4) => "open-interrupted",
            Io::Open(_) => "open-failure",
            Io::Stat(_) => "stat-failure",
            Io::Size(_) => "wrong-size-hint",
            Io::Full => "full-read",
            Io::Short(_) => "short-read",
            Io::Err(4) => "read-interrupted",
            Io::Err(_) => "read-failure",
            Io::Trunc(_) => "file-shrinks",
            Io::Grow(_) => "file-grows",
            Io::Poke(..) => "file-modified",
        }
    }
}

/// What happened to one file.
#[derive(Default, Clone)]
pub struct File {
    pub script: Vec<Io>,
    content: Vec<u8>,
    fds: Vec<c_int>,
    /// bytes handed out, by position
    pub delivered: Vec<u8>,
    /// a hard error was returned to the code under test
    pub failed: bool,
    pub eof: bool,
    pub fired: Vec<&'static str>,
    pub opened: u32,
    pub closed: u32,
    next: usize,
}

static mut FILES: Vec<File> = Vec::new();
static mut DELAY: u64 = 0;

pub fn reset() {
    unsafe { FILES.clear() }
}

/// Create a file; its path.
pub fn create(content: Vec<u8>, script: Vec<Io>) -> (usize, String) {
    unsafe {
        FILES.push(File { content, script, ..File::default() });
        (FILES.len() - 1, format!("/simfs/{}", FILES.len() - 1))
    }
}

pub fn file(i: usize) -> &'static File {
    unsafe { &FILES[i] }
}

unsafe fn find_path(p: *const c_char) -> Option<usize> {
    if !sched::in_sim() {
        return None;
    }
    let s = core::ffi::CStr::from_ptr(p).to_bytes();
    let n = s.strip_prefix(b"/simfs/")?;
    let n: usize = core::str::from_utf8(n).ok()?.parse().ok()?;
    (n < FILES.len()).then_some(n)
}

unsafe fn find_fd(fd: c_int) -> Option<usize> {
    if !sched::in_sim() {
        return None;
    }
    (0..FILES.len()).find(|i| FILES[*i].fds.contains(&fd))
}

unsafe fn fail(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        fail(-r as i32)
    } else {
        r
    }
}

impl File {
    fn note(&mut self, i: &Io) {
        self.fired.push(i.kind());
        // device latency, in simulated time
        unsafe { DELAY += 1 };
    }
}

unsafe fn do_open(i: usize) -> isize {
    sched::sync_point();
    sched::as_harness(|| {
        let f = &mut FILES[i];
        // `open` entries are consumed in order
        if let Some(k) = f.script.iter().position(|x| matches!(x, Io::Open(_))) {
            let Io::Open(e) = f.script.remove(k) else { unreachable!() };
            if f.next > k {
                f.next -= 1;
            }
            f.note(&Io::Open(e));
            if e != libc::EINTR {
                f.failed = true;
            }
            return fail(e);
        }
        let fd = sys(libc::SYS_memfd_create, c"simfs".as_ptr() as usize, 1, 0, 0, 0, 0);
        if fd < 0 {
            return ret(fd);
        }
        let mut at = 0;
        while at < f.content.len() {
            let r = sys(libc::SYS_pwrite64, fd as usize, f.content.as_ptr().add(at) as usize, f.content.len() - at, at, 0, 0);
            if r <= 0 {
                return fail(libc::EIO);
            }
            at += r as usize;
        }
        f.fds.push(fd as c_int);
        f.opened += 1;
        fd
    })
}

unsafe fn do_read(i: usize, fd: c_int, buf: *mut c_void, n: usize, pos: Option<i64>) -> isize {
    sched::sync_point();
    sched::as_harness(|| {
        let f = &mut FILES[i];
        let at = match pos {
            Some(p) => p as usize,
            None => sys(libc::SYS_lseek, fd as usize, 0, 1, 0, 0, 0) as usize,
        };
        let mut want = n;
        if n > 0 {
            while let Some(a) = f.script.get(f.next).cloned() {
                if matches!(a, Io::Open(_) | Io::Stat(_) | Io::Size(_)) {
                    f.next += 1;
                    continue;
                }
                f.next += 1;
                f.note(&a);
                match a {
                    Io::Full => break,
                    Io::Short(k) => {
                        want = want.min(k.max(1));
                        break;
                    }
                    Io::Err(e) => {
                        if e != libc::EINTR {
                            f.failed = true;
                        }
                        return fail(e);
                    }
                    Io::Trunc(k) => {
                        sys(libc::SYS_ftruncate, fd as usize, k, 0, 0, 0, 0);
                    }
                    Io::Grow(k) => {
                        let end = sys(libc::SYS_lseek, fd as usize, 0, 2, 0, 0, 0) as usize;
                        sys(libc::SYS_lseek, fd as usize, at, 0, 0, 0, 0);
                        let b: Vec<u8> = (0..k).map(|x| crate::rng::mix((end + x) as u64) as u8).collect();
                        sys(libc::SYS_pwrite64, fd as usize, b.as_ptr() as usize, k, end, 0, 0);
                    }
                    Io::Poke(p, b) => {
                        let end = sys(libc::SYS_lseek, fd as usize, 0, 2, 0, 0, 0) as usize;
                        sys(libc::SYS_lseek, fd as usize, at, 0, 0, 0, 0);
                        if p < end {
                            sys(libc::SYS_pwrite64, fd as usize, &b as *const u8 as usize, 1, p, 0, 0);
                        }
                    }
                    _ => {}
                }
            }
        }
        let r = match pos {
            Some(p) => sys(libc::SYS_pread64, fd as usize, buf as usize, want, p as usize, 0, 0),
            None => sys(libc::SYS_read, fd as usize, buf as usize, want, 0, 0, 0),
        };
        if r > 0 {
            let r = r as usize;
            if f.delivered.len() < at + r {
                f.delivered.resize(at + r, 0);
            }
            f.delivered[at..at + r].copy_from_slice(core::slice::from_raw_parts(buf as *const u8, r));
        } else if r == 0 && n > 0 {
            f.eof = true;
        }
        ret(r)
    })
}

unsafe fn stat_script(i: usize) -> Option<Io> {
    let f = &mut FILES[i];
    let k = f.script.iter().position(|x| matches!(x, Io::Stat(_) | Io::Size(_)))?;
    let a = f.script[k].clone();
    if let Io::Stat(_) = a {
        f.script.remove(k);
        if f.next > k {
            f.next -= 1;
        }
    }
    f.note(&a);
    Some(a)
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    if let Some(i) = find_path(p) {
        return do_open(i) as c_int;
    }
    ret(sys(libc::SYS_openat, libc::AT_FDCWD as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    open64(p, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if let Some(i) = find_fd(fd) {
        return do_read(i, fd, b, n, None);
    }
    ret(sys(libc::SYS_read, fd as usize, b as usize, n, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, at: i64) -> isize {
    if let Some(i) = find_fd(fd) {
        return do_read(i, fd, b, n, Some(at));
    }
    ret(sys(libc::SYS_pread64, fd as usize, b as usize, n, at as usize, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
    if find_fd(fd).is_some() {
        for k in 0..n as usize {
            let e = &*v.add(k);
            if e.iov_len > 0 {
                return read(fd, e.iov_base, e.iov_len);
            }
        }
        return 0;
    }
    ret(sys(libc::SYS_readv, fd as usize, v as usize, n as usize, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(i) = find_fd(fd) {
        sched::sync_point();
        sched::as_harness(|| {
            FILES[i].closed += 1;
            FILES[i].fds.retain(|x| *x != fd);
        });
    }
    ret(sys(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, s: *mut libc::stat64) -> c_int {
    let mut size = None;
    if let Some(i) = find_fd(fd) {
        sched::sync_point();
        match sched::as_harness(|| stat_script(i)) {
            Some(Io::Stat(e)) => return fail(e) as c_int,
            Some(Io::Size(n)) => size = Some(n),
            _ => {}
        }
    }
    let r = ret(sys(libc::SYS_fstat, fd as usize, s as usize, 0, 0, 0, 0)) as c_int;
    if let (0, Some(n)) = (r, size) {
        (*s).st_size = n as i64;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: u32, s: *mut libc::statx) -> c_int {
    let mut size = None;
    let i = if p.is_null() || s.is_null() {
        None
    } else if *p == 0 {
        find_fd(fd)
    } else {
        find_path(p)
    };
    if let Some(i) = i {
        sched::sync_point();
        match sched::as_harness(|| stat_script(i)) {
            Some(Io::Stat(e)) => return fail(e) as c_int,
            Some(Io::Size(n)) => size = Some(n),
            _ => {}
        }
        if *p != 0 {
            // by name
            core::ptr::write_bytes(s, 0, 1);
            (*s).stx_mask = mask;
            (*s).stx_mode = 0o100_644;
            (*s).stx_size = size.unwrap_or(FILES[i].content.len() as u64);
            return 0;
        }
    }
    let r = ret(sys(libc::SYS_statx, fd as usize, p as usize, flags as usize, mask as usize, s as usize, 0)) as c_int;
    if let (0, Some(n)) = (r, size) {
        (*s).stx_size = n;
    }
    r
}
