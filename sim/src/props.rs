//! The properties: for each the workload and faults that are drawn, and the
//! oracle that judges what happened.
use crate::damage::{random_ops, random_segment, Op};
use crate::disk::Io;
use crate::jpeg::{random_spec, Built, ImgSpec};
use crate::judge::{differs, run_plan, Death, Refs, E, MAX_STEP, O, P};
use crate::exec::{Call, Summary};
use crate::plan::{Act, Img, Opts, Plan, Step, SPACES};
use crate::rng::{derive, Rng};
use crate::sched::Policy;

pub const ALL: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22",
];

// ---------------------------------------------------------------- generation

fn sched(r: &mut Rng) -> Policy {
    match r.below(20) {
        0 => Policy::Def,
        1 => Policy::Lifo,
        2 | 3 => Policy::Rr(r.pick(&[37, 150, 700, 3000])),
        4..=7 => Policy::Pct(r.range(1, 5), r.pick(&[500, 3000, 20000, 100_000])),
        8..=10 => Policy::Starve(r.pick(&[0, 0, 1, 1, 2, 3]), r.pick(&[60, 400, 2000])),
        11 => Policy::Rw(r.pick(&[3, 8])),
        _ => Policy::Rw(r.pick(&[25, 90, 300, 300, 1000, 4000])),
    }
}

fn pixels(r: &mut Rng) -> u32 {
    match r.below(20) {
        0..=9 => 1500,
        10..=16 => 5000,
        17 | 18 => 16000,
        _ => 45000,
    }
}

fn intact(r: &mut Rng) -> Img {
    let n = pixels(r);
    Img { spec: random_spec(r, n), ops: vec![] }
}

/// Any size the format allows.
fn wide(r: &mut Rng) -> Img {
    let mut i = intact(r);
    if r.pct(2) {
        let s = &mut i.spec;
        (s.w, s.h) = (r.range(600, 65535) as u32, r.range(1, 20) as u32);
        if s.w * s.h > 200_000 {
            s.h = 1 + s.h % 3;
        }
        if r.pct(50) {
            (s.w, s.h) = (s.h, s.w);
        }
        s.style = r.pick(&[0, 1, 2, 4]);
    }
    i
}

/// Nearly the same file: what a decoder could take for the one it saw before.
fn relative(r: &mut Rng, i: &Img) -> Img {
    let n = pixels(r);
    let other = random_spec(r, n);
    let mut i = Img { spec: i.spec.clone(), ops: if r.pct(50) { i.ops.clone() } else { vec![] } };
    let s = &mut i.spec;
    for _ in 0..r.pick(&[0, 1, 1, 1, 2]) {
        match r.below(10) {
            0 | 1 => s.seed = other.seed,
            2 => s.style = other.style,
            3 => s.w = if s.w > 1 { s.w - 1 } else { 2 },
            4 => s.h = if s.h > 1 { s.h - 1 } else { 2 },
            5 => (s.gray, s.hs, s.vs) = (!s.gray, 1, 1),
            6 => (s.hs, s.vs, s.gray) = (other.hs, other.vs, other.gray),
            7 => (s.prog, s.script) = (!s.prog, other.script),
            8 => (s.ri, s.huff) = (other.ri, other.huff),
            _ => (s.q, s.layout) = (other.q, other.layout),
        }
    }
    if r.pct(30) {
        scribble(r, &mut i);
    }
    i
}

/// Images for one decoder, or for decoders next to each other.
fn album(r: &mut Rng) -> Vec<Img> {
    let mut v: Vec<Img> = vec![];
    for k in 0..r.range(1, 3) {
        let i = if k > 0 && r.pct(40) {
            relative(r, &v[0])
        } else if r.pct(20) {
            damaged(r)
        } else {
            any_image(r)
        };
        v.push(i);
    }
    v
}

/// Large segments in front of everything else: the file does not fit a buffer.
fn pad(r: &mut Rng, i: &mut Img) {
    for _ in 0..r.range(1, 3) {
        i.ops.push(random_segment(r, 2));
    }
}

fn any_size(o: Opts) -> Opts {
    Opts { mw: 65535, mh: 65535, ms: 64, ..o }
}

fn damaged(r: &mut Rng) -> Img {
    let mut i = intact(r);
    damage(r, &mut i);
    i
}

fn damage(r: &mut Rng, i: &mut Img) {
    let other = Img { spec: random_spec(r, 3000), ops: vec![] }.built();
    let b = i.built();
    i.ops.extend(random_ops(r, &b, &other));
    while i.ops.len() < 8 && r.pct(25) {
        // a further fault, placed on the file as it was
        i.ops.extend(random_ops(r, &b, &other));
    }
}

/// corruption of entropy-coded data: the decode often goes on
fn scribble(r: &mut Rng, i: &mut Img) {
    scribble_late(r, i, 0);
}

/// Only in the last part of it: the rest has less chances to fail.
fn scribble_late(r: &mut Rng, i: &mut Img, per_cent: usize) {
    let b = i.built();
    let v: Vec<(usize, usize)> = b.segs("ECS").map(|s| (s.start, s.end)).collect();
    let (s, e) = v[r.below(v.len() as u64) as usize];
    if e <= s {
        return;
    }
    let s = s + (e - 1 - s) * per_cent / 100;
    for _ in 0..r.range(1, 3) {
        let p = r.range(s as u64, e as u64 - 1) as usize;
        i.ops.push(match r.below(8) {
            0..=2 => Op::Flip(p, r.below(8) as u8),
            3 => Op::Set(p, r.next() as u8),
            4 => Op::Fill(p, r.range(1, 40) as usize, r.pick(&[0, 0x55])),
            5 => Op::Trunc(p),
            6 => Op::Cut(p, r.range(1, 30) as usize),
            _ => Op::Ins(p, vec![0xFF, r.pick(&[0xD9, 0xD0, 0xD3, 0xD7, 0xDA, 0x01])]),
        });
    }
}

/// Bits and bytes in the data of a scan or two; no markers come or go.
fn scribble_scan(r: &mut Rng, i: &mut Img, per_cent: usize) {
    let b = i.built();
    for _ in 0..r.pick(&[1, 1, 2]) {
        let c = &b.rows[r.below(b.rows.len() as u64) as usize];
        let from = c.start + (c.end - c.start) * per_cent / 100;
        for _ in 0..r.range(1, 3) {
            let p = r.range(from as u64, (c.end - 1).max(from) as u64) as usize;
            let v = r.next() as u8;
            if p < c.end && p > 0 && b.bytes[p] != 0xFF && b.bytes[p - 1] != 0xFF && v != 0xFF {
                i.ops.push(if r.pct(60) && b.bytes[p].count_zeros() != 1 { Op::Flip(p, r.below(8) as u8) } else { Op::Set(p, v) });
            }
        }
    }
}

/// A progressive image whose last scan is repeated.
fn many_scans(r: &mut Rng, i: &mut Img, big: bool) {
    let s = &mut i.spec;
    s.prog = true;
    s.style = 0;
    s.ri = 0;
    if big {
        (s.w, s.h) = (r.pick(&[256, 300, 400, 512]), r.pick(&[256, 300, 400, 512]));
        s.script = r.pick(&[0, 2]) + 4 * r.range(20, 64) as u32;
    } else {
        s.script = r.below(4) as u32 + 4 * r.range(1, 80) as u32;
    }
    i.ops.clear();
}

fn any_image(r: &mut Rng) -> Img {
    let mut i = if r.pct(50) { intact(r) } else { wide(r) };
    match r.below(10) {
        0 => damage(r, &mut i),
        1..=3 => scribble(r, &mut i),
        _ => {}
    }
    i
}

fn threads(r: &mut Rng) -> u32 {
    if r.below(150) == 0 {
        return r.pick(&[64, 65, 100, 200]);
    }
    r.pick(&[1, 2, 2, 3, 4, 4, 5, 7, 8, 16, 33])
}

fn opts(r: &mut Rng) -> Opts {
    Opts {
        threads: threads(r),
        cs: r.pick(&[0, 0, 0, 0, 1, 2, 3, 4]),
        mw: 1024,
        mh: 1024,
        ms: if r.pct(3) { r.pick(&[1, 2, 4, 9, 65, 1000]) } else { 64 },
        strict: r.pct(10),
        simd: r.pct(65),
    }
}

fn step(act: Act) -> Step {
    Step { act, away: false }
}

fn blank(prop: &str, r: &mut Rng) -> Plan {
    Plan {
        prop: prop.into(),
        fill: r.next(),
        quar: r.pct(30),
        log: r.pick(&[0, 0, 0, 1, 5]),
        imgs: vec![],
        callers: vec![],
        sched: sched(r),
        sseed: r.next() >> 8,
        spurious: r.pct(25),
        fails: vec![],
        p: Default::default(),
    }
}

fn benign_io(r: &mut Rng, n: usize) -> Vec<Io> {
    let mut v = vec![];
    for _ in 0..r.pick(&[0, 0, 0, 1, 3]) {
        v.push(Io::Open(libc::EINTR));
    }
    match r.below(6) {
        0 => v.push(Io::Stat(r.pick(&[libc::EIO, libc::EACCES, libc::ENOENT, libc::EOVERFLOW]))),
        1 => v.push(Io::Size(r.pick(&[0, 1, 2, n as u64 / 2, n as u64 - 1, n as u64 + 1, n as u64 * 2, 1 << 20, 16 << 20]))),
        _ => {}
    }
    let style = r.below(6);
    let k = match style {
        0 => 0,
        1 => 40,
        _ => r.range(1, 12),
    };
    for _ in 0..k {
        v.push(match (style, r.below(10)) {
            (1, _) => Io::Short(r.range(1, 3) as usize),
            (_, 0..=2) => Io::Err(libc::EINTR),
            (_, 3..=7) => Io::Short(r.pick(&[1, 2, 3, 13, 64, 500, 4096, 31, 33])),
            _ => Io::Full,
        });
    }
    v
}

fn changing_io(r: &mut Rng, n: usize) -> Vec<Io> {
    let mut v = benign_io(r, n);
    for _ in 0..r.range(1, 2) {
        let at = r.below(v.len() as u64 + 1) as usize;
        let p = r.below(n as u64) as usize;
        v.insert(
            at,
            match r.below(3) {
                0 => Io::Trunc(p),
                1 => Io::Grow(r.pick(&[1, 7, 32, 33, 600, 9000])),
                _ => Io::Poke(p, r.next() as u8),
            },
        );
    }
    v
}

fn failing_io(r: &mut Rng, n: usize) -> Vec<Io> {
    let mut v = benign_io(r, n);
    if r.pct(30) {
        let e = r.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EISDIR, libc::ELOOP, libc::EIO, libc::ENOMEM, libc::EPERM, libc::ENXIO]);
        let at = v.iter().take_while(|x| matches!(x, Io::Open(_))).count();
        v.insert(at, Io::Open(e));
        return v;
    }
    let e = r.pick(&[libc::EIO, libc::EIO, libc::EISDIR, libc::ENOMEM, libc::EBADF, libc::EAGAIN, libc::ESTALE, libc::ETIMEDOUT, libc::EINVAL]);
    // somewhere in the file, or only once all of it was read
    match r.below(4) {
        0 => {
            let at = r.below(v.len() as u64 + 1) as usize;
            v.insert(at, Io::Err(e));
        }
        1 => v.extend([Io::Short(r.range(1, n as u64) as usize), Io::Err(e)]),
        2 => v.extend([Io::Full, Io::Err(e)]),
        _ => v.extend([Io::Short(n), Io::Short(1), Io::Full, Io::Err(e)]),
    }
    v
}

fn decode_act(r: &mut Rng, i: usize, n: usize) -> Act {
    match r.below(10) {
        0 | 1 => Act::File(i, benign_io(r, n)),
        2 => Act::Hdr(i),
        _ => Act::Buf(i),
    }
}

/// A mixed sequence of calls on one decoder.
fn session(r: &mut Rng, imgs: &[Img], len: u64, moves: bool) -> Vec<Step> {
    let mut v = vec![step(Act::New(opts(r)))];
    for _ in 0..len {
        let i = r.below(imgs.len() as u64) as usize;
        let n = imgs[i].bytes().len().max(2);
        let a = match r.below(20) {
            0 => Act::SetCs(r.below(5) as u8),
            1 => Act::Rgba,
            2 => Act::Threads(r.pick(&[0, 1, 2, 5])),
            3 => Act::Limits(r.pick(&[1024, 1024, 60, 8]), r.pick(&[1024, 1024, 60, 8])),
            4 => Act::File(i, failing_io(r, n)),
            5 => Act::File(i, changing_io(r, n)),
            6 if r.pct(30) => Act::New(opts(r)),
            _ => decode_act(r, i, n),
        };
        let away = moves && r.pct(20);
        v.push(Step { act: a, away });
    }
    // and a plain decode at the end
    v.push(step(Act::Buf(r.below(imgs.len() as u64) as usize)));
    v
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let tag = prop.bytes().fold(0u64, |a, b| a * 131 + u64::from(b));
    let mut rng = Rng::new(derive(seed, tag, 0x51));
    let r = &mut rng;
    let mut p = blank(prop, r);
    match prop {
        "C01" => {
            p.imgs.push(any_image(r));
            let o = opts(r);
            let mut c = vec![];
            for _ in 0..r.range(2, 3) {
                c.push(step(Act::New(Opts { threads: threads(r), ..o })));
                c.push(step(Act::Buf(0)));
            }
            p.callers.push(c);
        }
        "C02" => {
            let mut i = intact(r);
            match r.below(10) {
                0 => damage(r, &mut i),
                1..=5 => scribble(r, &mut i),
                _ => {}
            }
            p.imgs.push(i);
            p.quar = r.pct(80);
            let mut c = vec![];
            for _ in 0..r.range(1, 2) {
                c.push(step(Act::New(opts(r))));
                c.push(step(if r.pct(15) { Act::File(0, benign_io(r, 500)) } else { Act::Buf(0) }));
                if r.pct(40) {
                    c.push(step(Act::Drop));
                }
            }
            p.callers.push(c);
        }
        "C03" => {
            let n = r.range(1, 3);
            for _ in 0..n {
                let mut i = if r.pct(25) { damaged(r) } else { intact(r) };
                if r.pct(30) && i.ops.is_empty() {
                    scribble(r, &mut i);
                }
                p.imgs.push(i);
            }
            p.p.insert("free".into(), 1);
            p.quar = false;
            let reuse = r.pct(35);
            p.p.insert("reuse".into(), i64::from(reuse));
            let o = opts(r);
            let mut round = vec![];
            if !reuse {
                round.push(step(Act::New(o)));
            }
            for k in 0..n as usize {
                round.push(step(match r.below(8) {
                    0 => Act::File(k, failing_io(r, 400)),
                    1 => Act::Hdr(k),
                    2 => Act::File(k, benign_io(r, 400)),
                    _ => Act::Buf(k),
                }));
            }
            if !reuse {
                round.push(step(Act::Drop));
            }
            round.push(step(Act::Drain));
            let mut c = vec![];
            if reuse {
                c.push(step(Act::New(o)));
            }
            for _ in 0..4 {
                c.extend(round.clone());
            }
            p.callers.push(c);
        }
        "C04" => {
            let mut i = any_image(r);
            if r.pct(12) {
                pad(r, &mut i);
            }
            let n = i.bytes().len().max(2);
            p.imgs.push(i);
            let mut c = vec![step(Act::New(opts(r)))];
            for _ in 0..r.range(1, 3) {
                let io = if r.pct(35) { changing_io(r, n) } else { benign_io(r, n) };
                c.push(step(Act::File(0, io)));
            }
            p.callers.push(c);
        }
        "C05" => {
            for _ in 0..r.range(1, 2) {
                p.imgs.push(any_image(r));
            }
            if r.pct(10) {
                pad(r, &mut p.imgs[0]);
            }
            let mut c = vec![step(Act::New(opts(r)))];
            let k = p.imgs.len() as u64;
            if r.pct(50) {
                c.push(step(Act::Buf(r.below(k) as usize)));
            }
            for _ in 0..r.range(1, 3) {
                let i = r.below(k) as usize;
                let n = p.imgs[i].bytes().len().max(2);
                c.push(step(Act::File(i, failing_io(r, n))));
                if r.pct(60) {
                    let i = r.below(k) as usize;
                    let n = p.imgs[i].bytes().len().max(2);
                    c.push(step(decode_act(r, i, n)));
                }
            }
            c.push(step(Act::Buf(r.below(k) as usize)));
            p.callers.push(c);
        }
        "C06" => {
            let mut i = intact(r);
            if r.pct(80) {
                damage(r, &mut i);
            }
            if r.pct(30) {
                scribble(r, &mut i);
            }
            let n = i.bytes().len().max(2);
            p.imgs.push(i);
            let mut o = opts(r);
            if r.pct(30) {
                // sizes that damaged headers can claim
                o.mw = r.pick(&[4096, 1024, 300, 65535]);
                o.mh = if o.mw == 65535 { 64 } else { r.pick(&[512, 300, 2048]) };
                if r.pct(30) {
                    core::mem::swap(&mut o.mw, &mut o.mh);
                }
            }
            o.threads = r.pick(&[1, 2, 2, 3, 4]);
            o.ms = r.pick(&[64, 64, 5, 1]);
            let mut c = vec![step(Act::New(o))];
            if r.pct(1) {
                // numbers that do not fit
                c.push(step(Act::Threads(r.pick(&[0, 1 << 32, (1 << 32) | 3, 1 << 63, 3]))));
            }
            c.push(step(match r.below(12) {
                0 => Act::Hdr(0),
                1 => Act::File(0, benign_io(r, n)),
                _ => Act::Buf(0),
            }));
            p.callers.push(c);
        }
        "C07" => {
            let mut i = intact(r);
            if r.pct(5) {
                let big = r.pct(30);
                many_scans(r, &mut i, big);
            }
            if r.pct(75) {
                damage(r, &mut i);
            }
            if r.pct(30) {
                scribble(r, &mut i);
            }
            let n = i.bytes().len().max(2);
            p.imgs.push(i);
            let mut o = opts(r);
            o.mw = r.pick(&[1024, 512, 300, 700]);
            o.mh = r.pick(&[1024, 512, 300, 700]);
            if r.pct(60) {
                p.spurious = true;
            }
            if r.pct(40) {
                p.sched = Policy::Starve(r.pick(&[0, 1, 2, 3]), r.pick(&[20, 100, 1000]));
            }
            p.callers.push(vec![
                step(Act::New(o)),
                step(match r.below(12) {
                    0 => Act::Hdr(0),
                    1 => Act::File(0, benign_io(r, n)),
                    _ => Act::Buf(0),
                }),
            ]);
        }
        "C08" => {
            let mut i = intact(r);
            match r.below(10) {
                0 | 1 => damage(r, &mut i),
                2 | 3 => scribble(r, &mut i),
                _ => {}
            }
            if i.ops.is_empty() && r.pct(6) {
                // the extremes of the format
                let s = &mut i.spec;
                let big = r.pick(&[65535u32, 65534, 65529, 65528, 65520, 32768, 32767, 16385, 16384, 65521]);
                let small = r.pick(&[1u32, 2, 7, 8, 9, 16]);
                if r.pct(50) {
                    (s.w, s.h) = (big, small);
                } else {
                    (s.w, s.h) = (small, big);
                }
                s.style = r.below(2) as u32;
            }
            let n = i.bytes().len().max(2);
            p.imgs.push(i);
            let mut o = opts(r);
            o.mw = 65535;
            o.mh = 65535;
            if !p.imgs[0].ops.is_empty() {
                (o.mw, o.mh) = (1024, 1024);
            }
            let mut c = vec![step(Act::New(o))];
            if r.pct(15) {
                c.push(step(Act::SetCs(r.below(5) as u8)));
            }
            c.push(step(match r.below(8) {
                0 => Act::File(0, benign_io(r, n)),
                1 => Act::Hdr(0),
                _ => Act::Buf(0),
            }));
            p.callers.push(c);
        }
        "C09" => {
            let mut i = intact(r);
            let mode = r.below(10);
            let mut o = opts(r);
            let near = |r: &mut Rng, v: u32| -> u16 {
                match r.below(9) {
                    0 | 1 => v.saturating_sub(1),
                    2 | 3 => v,
                    4 => v + 1,
                    5 => v / 2,
                    6 => v.saturating_sub(r.range(1, 9) as u32),
                    7 => v + r.range(1, 9) as u32,
                    _ => 16384,
                }
                .clamp(1, 65535) as u16
            };
            o.mw = if r.pct(60) { near(r, i.spec.w) } else { 16384 };
            o.mh = if r.pct(60) { near(r, i.spec.h) } else { 16384 };
            if mode < 4 {
                i.spec.prog = true;
                i.spec.script = r.below(4) as u32;
                let n = i.built().segs("SOS").count() as i64;
                o.ms = (n + r.pick(&[-2i64, -1, -1, 0, 0, 1, 5])).max(1) as usize;
            }
            if mode == 4 || mode == 5 && r.pct(30) {
                // many scans that hold next to nothing
                many_scans(r, &mut i, mode == 4);
                let n = i.built().segs("SOS").count() as i64;
                o.ms = (n + r.pick(&[-1i64, -1, 0, 0, 1, 1000])).max(1) as usize;
                if r.pct(30) {
                    o.ms = 64;
                }
                o.mw = r.pick(&[i.spec.w as u16, 512, 513, 600]);
                o.mh = r.pick(&[i.spec.h as u16, 512, 513, 600]);
            }
            if mode >= 7 {
                // the header claims something else than the file holds
                let s = i.built().segs("SOF").next().unwrap().clone();
                let v = r.pick(&[1000u32, 1024, 2047, 2048, 2049, 4097, 16383, 16384, 16385, 30000, 60000, 65535]);
                let u = r.pick(&[16u32, 100, 1000, 2048, 16384, 40000, 65535]);
                i.ops.push(Op::Over(s.start + 5, vec![(v >> 8) as u8, v as u8]));
                if r.pct(70) {
                    i.ops.push(Op::Over(s.start + 7, vec![(u >> 8) as u8, u as u8]));
                }
                let w = u32::from(be16(&i.bytes(), s.start + 7));
                let (nw, nh) = (near(r, w).min(2048), near(r, v).min(2048));
                o.mw = r.pick(&[1024, 2048, nw]);
                o.mh = r.pick(&[1024, 2047, nh]);
                if r.pct(30) {
                    damage(r, &mut i);
                }
            }
            // nothing set at all: the limits the documentation promises
            let stock = mode == 6 && r.pct(40);
            if stock {
                i = intact(r);
                let s = &mut i.spec;
                if r.pct(40) {
                    many_scans(r, &mut i, true);
                } else {
                    (s.w, s.h) = (r.pick(&[16383u32, 16384, 16384, 16385, 16392, 10000, 20000]), r.range(1, 4) as u32);
                    if r.pct(50) {
                        (s.w, s.h) = (s.h, s.w);
                    }
                    s.style = r.pick(&[0, 1, 2, 4]);
                }
                o = Opts::default();
            }
            let n = i.bytes().len().max(2);
            p.imgs.push(i);
            let a = match r.below(8) {
                0 => Act::Hdr(0),
                1 => Act::File(0, benign_io(r, n)),
                _ => Act::Buf(0),
            };
            let c = if stock {
                vec![step(a)]
            } else if r.pct(25) {
                let (w, h) = (o.mw, o.mh);
                let o = Opts { mw: r.pick(&[1, 16384, 65535]), mh: r.pick(&[1, 16384, 65535]), ..o };
                vec![step(Act::New(o)), step(Act::Limits(w, h)), step(a)]
            } else {
                vec![step(Act::New(o)), step(a)]
            };
            p.callers.push(c);
        }
        "C10" => {
            p.imgs = album(r);
            let n = if r.pct(4) { r.range(8, 20) } else { r.range(1, 5) };
            let s = session(r, &p.imgs, n, true);
            p.callers.push(s);
        }
        "C11" => {
            p.imgs = album(r);
            p.quar = r.pct(50);
            for _ in 0..r.range(2, 4) {
                let n = r.range(0, 2);
                let s = session(r, &p.imgs, n, true);
                p.callers.push(s);
            }
        }
        "C12" => {
            let mut i = intact(r);
            let many = r.pct(40);
            if many {
                i.spec.prog |= r.pct(60);
                i.spec.script = i.spec.script.max(1);
            } else {
                i.spec.prog = false;
                i.spec.script = 0;
                i.spec.layout &= !128;
            }
            if i.spec.style == 0 {
                i.spec.style = r.pick(&[5, 1, 1]);
            }
            i.spec.h = i.spec.h.max(r.range(16, 200) as u32);
            while i.spec.w * i.spec.h > 40000 {
                i.spec.w = (i.spec.w / 2).max(1);
            }
            let late = r.pick(&[0, 40, 60, 80, 95]);
            if many {
                scribble_scan(r, &mut i, late);
            } else {
                scribble_late(r, &mut i, late);
            }
            if !many && r.pct(20) {
                let b = i.built();
                let s = b.segs("ECS").next().unwrap().clone();
                let from = s.start + (s.end - 1 - s.start) * late / 100;
                let at = r.range(from as u64, s.end as u64 - 1) as usize;
                i.ops.push(Op::Over(at, crate::damage::forged(r)));
            }
            p.imgs.push(i);
            let o = opts(r);
            p.callers.push(vec![step(Act::New(o)), step(Act::Buf(0))]);
        }
        "C22" => {
            let mut i = intact(r);
            i.spec.h = i.spec.h.max(r.range(40, 300) as u32);
            while i.spec.w * i.spec.h > 40000 {
                i.spec.w = (i.spec.w / 2).max(1);
            }
            if i.spec.style == 0 {
                i.spec.style = r.pick(&[5, 1, 1]);
            }
            let row = i.spec.w.div_ceil(8 * i.spec.hs);
            i.spec.ri = r.pick(&[1, 2, 3, 5, 7, 10, row, row, 2 * row, row + 1, 3 * row / 2]).max(1);
            if r.pct(40) {
                i.spec.huff = 1;
            }
            scribble_scan(r, &mut i, 0);
            let n = i.bytes().len().max(2);
            p.imgs.push(i);
            let o = opts(r);
            p.callers.push(vec![step(Act::New(o)), step(if r.pct(20) { Act::File(0, benign_io(r, n)) } else { Act::Buf(0) })]);
        }
        "C13" => {
            for _ in 0..r.range(1, 2) {
                let mut i = intact(r);
                match r.below(10) {
                    0 | 1 => damage(r, &mut i),
                    2..=5 => scribble(r, &mut i),
                    _ => {}
                }
                p.imgs.push(i);
            }
            p.quar = r.pct(50);
            let n = r.range(0, 2);
            let mut c = session(r, &p.imgs, n, false);
            c.retain(|s| !matches!(s.act, Act::Drain));
            p.callers.push(c);
        }
        "C14" => {
            p.imgs.push(any_image(r));
            if r.pct(70) {
                p.imgs[0].ops.clear();
            }
            let o = opts(r);
            let t = u64::from(o.threads);
            match r.below(6) {
                0 => p.fails = (0..t.min(64)).collect(),
                1 => p.fails = vec![0],
                2 => p.fails = vec![t - 1],
                3 => p.fails = vec![r.below(t)],
                _ => p.fails = (0..t.min(64)).filter(|_| r.pct(40)).collect(),
            }
            let mut c = vec![step(Act::New(o))];
            let file = r.pct(20);
            let a = |r: &mut Rng| if file { Act::File(0, benign_io(r, 500)) } else { Act::Buf(0) };
            c.push(step(a(r)));
            c.push(step(Act::Drain));
            if r.pct(40) {
                c.push(step(Act::New(o)));
            }
            c.push(step(a(r)));
            p.callers.push(c);
        }
        "C15" => {
            let mut i = intact(r);
            match r.below(10) {
                0..=4 => damage(r, &mut i),
                5 | 6 => scribble(r, &mut i),
                _ => {}
            }
            // the same file, damaged only behind the first scan header
            let mut j = Img { spec: i.spec.clone(), ops: vec![] };
            let b = j.built();
            let (sos, mut at) = b.segs("SOS").next().map(|s| (s.start, s.end)).unwrap();
            let mut n = b.bytes.len();
            if r.pct(8) {
                // more headers in front than one read of a buffered file, or than 64 KiB
                let mut places: Vec<usize> = b.map.iter().filter(|s| s.end <= sos).map(|s| s.end).collect();
                places = (0..r.range(1, 4)).map(|_| r.pick(&places)).collect();
                places.sort_unstable_by(|a, b| b.cmp(a));
                let mut l = 0;
                for q in places {
                    let o = random_segment(r, q);
                    if let Op::Seg(_, _, k, _) = o {
                        l += k + 4;
                    }
                    j.ops.push(o);
                }
                if r.pct(80) {
                    // the intact file too
                    i = j.clone();
                }
                at += l;
                n += l;
            }
            for _ in 0..r.range(1, 3) {
                let q = r.range(at as u64, n as u64 - 1) as usize;
                j.ops.push(match r.below(6) {
                    0 => Op::Trunc(if r.pct(40) { at } else { q }),
                    1 => Op::Flip(q, r.below(8) as u8),
                    2 => Op::Fill(q, 300, r.next() as u8),
                    3 => Op::Cut(q, 50),
                    4 => Op::Ins(q, crate::damage::forged(r)),
                    _ => Op::Over(q, crate::damage::forged(r)),
                });
            }
            p.imgs.push(i);
            p.imgs.push(j);
            let mut o = opts(r);
            if r.pct(20) {
                o.mw = r.pick(&[40, 100, 8]);
            }
            let mut c = vec![];
            for a in [Act::Hdr(0), Act::Buf(0), Act::Hdr(1)] {
                c.push(step(Act::New(o)));
                c.push(step(a));
            }
            p.callers.push(c);
        }
        "C16" => {
            let mut i = intact(r);
            let b = i.built();
            let sos = b.segs("SOS").next().unwrap().start;
            let bounds: Vec<usize> =
                b.map.iter().filter(|s| s.end <= sos).map(|s| s.end).collect();
            let mode = r.below(4);
            let k = r.range(1, 3);
            let mut places: Vec<usize> = (0..k).map(|_| r.pick(&bounds)).collect();
            // from the back, so that the earlier positions stay valid
            places.sort_unstable_by(|a, b| b.cmp(a));
            places.dedup();
            let stray = mode >= 2;
            for at in places {
                i.ops.push(if stray {
                    let n = r.pick(&[1, 2, 3, 4, 5, 9, 40, 300]);
                    Op::Ins(at, (0..n).map(|_| (r.next() as u8).min(0xFE)).collect())
                } else {
                    random_segment(r, at)
                });
            }
            // only for the strict-against-lenient comparison
            let mut j = Img { spec: i.spec.clone(), ops: vec![] };
            if r.pct(60) {
                damage(r, &mut j);
            } else {
                scribble(r, &mut j);
            }
            p.p.insert("stray".into(), i64::from(stray));
            p.imgs.push(i);
            p.imgs.push(j);
            let o = opts(r);
            let mut c = vec![];
            for (im, strict) in [(0, false), (0, true), (1, false), (1, true)] {
                c.push(step(Act::New(Opts { strict, ..o })));
                c.push(step(Act::Buf(im)));
            }
            p.callers.push(c);
        }
        "C17" => {
            for _ in 0..r.range(1, 2) {
                p.imgs.push(wide(r));
            }
            let mut c = vec![step(Act::New(any_size(opts(r))))];
            for k in 0..p.imgs.len() {
                let n = p.imgs[k].bytes().len();
                c.push(step(if r.pct(20) { Act::File(k, benign_io(r, n)) } else { Act::Buf(k) }));
            }
            p.callers.push(c);
        }
        "C18" => {
            let mut i = wide(r);
            if r.pct(30) {
                scribble(r, &mut i);
            }
            let o = if i.ops.is_empty() { any_size(opts(r)) } else { opts(r) };
            p.imgs.push(i);
            let mut c = vec![];
            let first = r.pct(50);
            for simd in [first, !first] {
                c.push(step(Act::New(Opts { threads: threads(r), simd, ..o })));
                c.push(step(Act::Buf(0)));
            }
            p.callers.push(c);
        }
        "C19" => {
            let mut i = intact(r);
            if r.pct(30) {
                scribble(r, &mut i);
            }
            i.spec.gray &= r.pct(20);
            p.imgs.push(i);
            let o = opts(r);
            let mut c = vec![];
            let mut order = [0u8, 1, 2, 3, 4];
            for i in (1..5).rev() {
                order.swap(i, r.below(i as u64 + 1) as usize);
            }
            let reuse = r.pct(40);
            for (k, cs) in order.into_iter().enumerate() {
                if k == 0 || !reuse {
                    c.push(step(Act::New(Opts { threads: threads(r), cs, ..o })));
                } else if cs == 3 && r.pct(50) {
                    c.push(step(Act::Rgba));
                } else {
                    c.push(step(Act::SetCs(cs)));
                }
                c.push(step(Act::Buf(0)));
            }
            p.callers.push(c);
        }
        "C20" | "C21" => {
            for _ in 0..r.range(1, 2) {
                let mut i = wide(r);
                if prop == "C21" {
                    i.spec.prog = true;
                    i.spec.upto = r.range(1, 60) as u32;
                }
                if r.below(200) == 0 {
                    // as many blocks as one end-of-band run can span
                    let s = &mut i.spec;
                    (s.w, s.h) = (r.range(900, 1700) as u32, r.range(900, 1500) as u32);
                    (s.prog, s.style) = (true, r.pick(&[0, 0, 4]));
                    (s.hs, s.vs) = if s.gray { (1, 1) } else { (s.hs, s.vs) };
                    s.ri = 0;
                }
                if r.pct(40) && i.spec.ri == 0 {
                    i.spec.ri = r.range(1, 24) as u32;
                }
                p.imgs.push(i);
            }
            let mut c = vec![step(Act::New(any_size(opts(r))))];
            for k in 0..p.imgs.len() {
                let n = p.imgs[k].bytes().len();
                c.push(step(if r.pct(25) { Act::File(k, benign_io(r, n)) } else { Act::Buf(k) }));
            }
            p.callers.push(c);
        }
        _ => panic!("no such property: {prop}"),
    }
    if matches!(prop, "C17" | "C20" | "C21") && p.imgs.iter().any(|i| i.spec.gray && i.spec.hs * i.spec.vs > 1) {
        // strict mode refuses these
        for s in p.callers.iter_mut().flatten() {
            if let Act::New(o) = &mut s.act {
                o.strict = false;
            }
        }
    }
    // the simulator has room for 1024 threads in one run
    let n = p.callers.iter().flatten().filter(|s| matches!(s.act, Act::Buf(_) | Act::File(..))).count();
    if n > 4 {
        for s in p.callers.iter_mut().flatten() {
            if let Act::New(o) = &mut s.act {
                o.threads = o.threads.min(65);
            }
        }
    }
    // images with a long side need room for it, and no more: damage may make both sides long
    let (w, h) = p.imgs.iter().fold((0, 0), |(w, h), i| (w.max(i.spec.w), h.max(i.spec.h)));
    if prop != "C09" && w.max(h) > 1024 {
        for s in p.callers.iter_mut().flatten() {
            if let Act::New(o) = &mut s.act {
                (o.mw, o.mh) = (o.mw.max(w as _), o.mh.max(h as _));
            }
        }
    }
    // an older processor
    if r.pct(match prop {
        "C06" | "C13" | "C17" | "C18" | "C19" => 30,
        _ => 12,
    }) {
        p.p.insert("cpu".into(), r.range(1, 2) as i64);
    }
    p
}

// -------------------------------------------------------------------- oracle

#[derive(Default)]
pub struct Verdict {
    /// kind and text of the violation
    pub bad: Option<(String, String)>,
    /// the run could not be judged (the code under test died in a way that is another property's matter)
    pub inconclusive: Option<String>,
    pub sum: Summary,
    pub refs: u64,
    pub ref_steps: u64,
    /// comparisons made
    pub checks: u64,
}

fn be16(b: &[u8], i: usize) -> u16 {
    u16::from_be_bytes([b.get(i).copied().unwrap_or(0), b.get(i + 1).copied().unwrap_or(0)])
}

/// First frame header of a file made of clean segments: width, height, components.
fn walk_sof(b: &[u8]) -> Option<(u64, u64, u64, bool, u64)> {
    if b.len() < 4 || b[0] != 0xFF || b[1] != 0xD8 {
        return None;
    }
    let mut i = 2;
    loop {
        if *b.get(i)? != 0xFF {
            return None;
        }
        let m = *b.get(i + 1)?;
        match m {
            0xC0 | 0xC2 => {
                b.get(i + 9)?;
                return Some((u64::from(be16(b, i + 7)), u64::from(be16(b, i + 5)), u64::from(b[i + 9]), m == 0xC2, u64::from(b[i + 4])));
            }
            0xC4 | 0xDB | 0xDD | 0xE0..=0xEF | 0xFE => {
                let l = usize::from(be16(b, i + 2));
                if l < 2 {
                    return None;
                }
                i += 2 + l;
            }
            _ => return None,
        }
    }
}

const CHANNELS: [u64; 5] = [3, 1, 3, 4, 4];

fn bounds_blocks(b: &[u8], o: &Opts) -> (u64, u64) {
    // what the image declares: the largest frame within the limits, and the number of scans
    let mut blocks = 1;
    let mut scans = 1;
    for i in 0..b.len().saturating_sub(1) {
        if b[i] == 0xFF && matches!(b[i + 1], 0xC0 | 0xC2) {
            let (h, w) = (be16(b, i + 5), be16(b, i + 7));
            if w <= o.mw && h <= o.mh {
                blocks = blocks.max((u64::from(w) / 8 + 4) * (u64::from(h) / 8 + 4) * 3);
            }
        }
        if b[i] == 0xFF && b[i + 1] == 0xDA {
            scans += 1;
        }
    }
    (blocks, scans.min(o.ms as u64 + 1))
}

pub fn step_bound(b: &[u8], o: &Opts) -> u64 {
    let (blocks, scans) = bounds_blocks(b, o);
    150_000 + 100 * b.len() as u64 + 500 * blocks + 120 * blocks * scans + 4_000 * u64::from(o.threads)
}

/// Bytes a decode may hold at once.
pub fn mem_bound(o: &Opts, input: u64) -> u64 {
    let area = (u64::from(o.mw) + 128) * (u64::from(o.mh) + 64);
    (4 << 20) + 40 * area + 8 * input + 65536 * u64::from(o.threads)
}

fn act_of<'a>(p: &'a Plan, c: &Call) -> &'a Act {
    &p.callers[c.caller as usize][c.step as usize].act
}

fn is_changing(io: &[Io]) -> bool {
    io.iter().any(|x| matches!(x, Io::Trunc(_) | Io::Grow(_) | Io::Poke(..)))
}

/// Whether the call did not see the image as it is written down.
pub fn changing(p: &Plan, c: &Call) -> bool {
    matches!(act_of(p, c), Act::File(_, io) if is_changing(io) || io.iter().any(|x| matches!(x, Io::Size(_))))
}

fn describe(p: &Plan, c: &Call) -> String {
    format!(
        "{} of image {} (caller {}, action {}, {} threads, {})",
        ["decode_buffer", "decode_file", "read_headers"][c.kind as usize],
        c.img,
        c.caller,
        c.step,
        c.opts.threads,
        SPACES[c.opts.cs as usize].0
    ) + if p.sched == Policy::Def { "" } else { " under the given schedule" }
}

/// The bytes the call's result is about.
fn input_of<'a>(p: &Plan, c: &'a Call, bytes: &'a [Vec<u8>]) -> &'a [u8] {
    match act_of(p, c) {
        Act::File(_, io) if is_changing(io) => &c.delivered,
        _ => &bytes[c.img as usize],
    }
}

pub fn judge(p: &Plan) -> Verdict {
    judge_rec(p, false)
}

pub fn judge_rec(p: &Plan, record: bool) -> Verdict {
    crate::cpu::set(p.par("cpu"));
    let bytes: Vec<Vec<u8>> = p.imgs.iter().map(Img::bytes).collect();
    let keep = matches!(p.prop.as_str(), "C12" | "C17" | "C19" | "C22");
    let mut v = Verdict::default();
    let prop = p.prop.as_str();
    let max_step = if prop == "C07" {
        p.callers
            .iter()
            .flatten()
            .scan(Opts::default(), |o, s| {
                if let Act::New(n) = &s.act {
                    *o = *n;
                }
                Some((*o, s))
            })
            .map(|(o, s)| match &s.act {
                Act::Buf(i) | Act::Hdr(i) | Act::File(i, _) => step_bound(&bytes[*i], &o),
                _ => 0,
            })
            .sum::<u64>()
            + 100_000
    } else {
        MAX_STEP
    };
    let sum = match run_plan(p, &bytes, keep, record, max_step) {
        Ok(s) => s,
        Err(d) => {
            death(p, &bytes, d, &mut v);
            return v;
        }
    };
    v.sum = sum;
    let s = v.sum.clone();
    let mut refs = Refs::default();
    let mut bad: Option<(String, String)> = None;
    let mut checks = 0;
    let mut flag = |k: &str, m: String| {
        if bad.is_none() {
            bad = Some((k.to_string(), m));
        }
    };
    // same as the reference
    let mut same = |c: &Call, checks: &mut u64, incon: &mut Option<String>| -> Option<(String, String)> {
        let inp = input_of(p, c, &bytes);
        match refs.get(inp, &c.opts, c.kind == 2, false) {
            Ok(r) => {
                *checks += 1;
                differs(c, r).map(|(k, m)| (k.to_string(), format!("{}: {m}", describe(p, c))))
            }
            Err(d) => {
                *incon = Some(format!("reference: {} {}", d.kind, d.msg));
                None
            }
        }
    };
    let mut incon = None;
    if s.leaked > 0 && matches!(prop, "C02" | "C03" | "C14") {
        flag("thread-leak", format!("{} threads never end", s.leaked));
    }
    match prop {
        "C01" | "C10" | "C11" => {
            for c in &s.calls {
                if c.io_failed == 1 {
                    continue;
                }
                if let Some((k, m)) = same(c, &mut checks, &mut incon) {
                    flag(&k, m);
                }
            }
        }
        "C02" => {
            for c in &s.calls {
                checks += 2;
                if c.final_hash != c.hash {
                    flag("late-write", format!("{}: the returned pixels changed after the call returned", describe(p, c)));
                }
                if c.late > 250 {
                    flag("late-work", format!("{}: {} steps of work on the image after the call returned", describe(p, c), c.late));
                }
                if let Some((k, m)) = same(c, &mut checks, &mut incon) {
                    flag(&k, m);
                }
            }
        }
        "C03" => {
            for c in &s.calls {
                checks += 1;
                if c.peak_threads > u64::from(c.opts.threads) {
                    flag("threads", format!("{}: {} worker threads alive at once", describe(p, c), c.peak_threads));
                }
            }
            // one mark per round, then one after everything was dropped
            let m = &s.marks;
            let rounds = m.len().saturating_sub(1);
            checks += m.len() as u64;
            if let Some(l) = m.last() {
                if l.1 > 0 {
                    flag("thread-leak", format!("{} threads still there after the decoder was dropped", l.1));
                }
            }
            for (i, (_, left)) in m.iter().enumerate().take(rounds) {
                if p.par("reuse") == 0 && *left > 0 {
                    flag("thread-leak", format!("{left} threads still there after round {i}, its decoder dropped"));
                }
            }
            if rounds >= 3 {
                let g: Vec<i64> = m[..rounds].windows(2).map(|w| w[1].0 as i64 - w[0].0 as i64).collect();
                let t: Vec<i64> = m[..rounds].windows(2).map(|w| w[1].1 as i64 - w[0].1 as i64).collect();
                // the first round may fill caches; a leak shows in every later one
                if g[1..].iter().all(|x| *x > 0) {
                    flag("memory-leak", format!("each repetition of the same calls leaves {:?} bytes more behind", &g[1..]));
                }
                if t[1..].iter().all(|x| *x > 0) {
                    flag("thread-leak", format!("each repetition of the same calls leaves {:?} threads more behind", &t[1..]));
                }
            }
        }
        "C04" => {
            for c in &s.calls {
                if c.io_failed == 1 {
                    continue;
                }
                if let Some((k, m)) = same(c, &mut checks, &mut incon) {
                    flag(&k, m);
                }
            }
        }
        "C05" => {
            for c in &s.calls {
                if c.io_failed == 1 {
                    checks += 1;
                    if c.class != E {
                        flag(
                            "swallowed",
                            format!("{}: a file operation failed and the call ended with {}", describe(p, c), if c.class == O { "pixels" } else { "a panic" }),
                        );
                    }
                } else if let Some((k, m)) = same(c, &mut checks, &mut incon) {
                    flag(&k, m);
                }
            }
        }
        "C06" => {
            for c in &s.calls {
                checks += 1;
                if c.class == P {
                    flag("panic", format!("{}: {}", describe(p, c), s.panics.first().cloned().unwrap_or_default()));
                }
            }
            if s.worker_panics > 0 {
                flag("panic", format!("a worker thread panicked: {}", s.panics.first().cloned().unwrap_or_default()));
            }
            if let Some(m) = s.panics.first() {
                flag("panic", format!("while setting options: {m}"));
            }
        }
        "C07" => {
            for c in &s.calls {
                checks += 1;
                let b = step_bound(&bytes[c.img as usize], &c.opts);
                if c.steps > b {
                    flag("work", format!("{}: {} steps, bound {b}", describe(p, c), c.steps));
                }
            }
        }
        "C08" => {
            for c in &s.calls {
                if c.class != O {
                    continue;
                }
                checks += 1;
                let Some(i) = c.info else {
                    flag("metadata", format!("{}: no image information after success", describe(p, c)));
                    continue;
                };
                if i[0] != c.w || i[1] != c.h {
                    flag("metadata", format!("{}: info says {}x{}, the decoder {}x{}", describe(p, c), i[0], i[1], c.w, c.h));
                }
                let ch = CHANNELS.get(c.cs as usize).copied().unwrap_or(0);
                if c.kind != 2 && c.len != c.w * c.h * ch {
                    flag("length", format!("{}: {} bytes for {}x{}x{ch}", describe(p, c), c.len, c.w, c.h));
                }
                let want = if i[2] == 1 { 1 } else { u64::from(c.opts.cs) };
                if c.cs != want {
                    flag("format", format!("{}: colour space {} reported, {} expected", describe(p, c), c.cs, want));
                }
                if let Some((w, h, n, prog, bits)) = walk_sof(&bytes[c.img as usize]) {
                    if (prog, bits) != (i[3] == 1, i[4]) {
                        flag(
                            "header",
                            format!("{}: progressive {}, {} bits reported, the frame header says {prog}, {bits}", describe(p, c), i[3] == 1, i[4]),
                        );
                    }
                    if (w, h, n) != (c.w, c.h, i[2]) {
                        flag(
                            "header",
                            format!("{}: {}x{} with {} components reported, the frame header says {w}x{h} with {n}", describe(p, c), c.w, c.h, i[2]),
                        );
                    }
                }
            }
        }
        "C09" => {
            for c in &s.calls {
                let i = &p.imgs[c.img as usize];
                let b = &bytes[c.img as usize];
                checks += 1;
                // a file may claim to be larger than it is
                let said = match act_of(p, c) {
                    Act::File(_, io) => io.iter().map(|x| if let Io::Size(n) = x { *n } else { 0 }).max().unwrap_or(0),
                    _ => 0,
                };
                let lim = mem_bound(&c.opts, b.len() as u64 + said);
                if c.mem > lim {
                    flag("memory", format!("{}: {} bytes held, bound {lim} for limits {}x{}", describe(p, c), c.mem, c.opts.mw, c.opts.mh));
                }
                if c.class == O && (c.w > u64::from(c.opts.mw) || c.h > u64::from(c.opts.mh)) {
                    flag("limit", format!("{}: {}x{} accepted with limits {}x{}", describe(p, c), c.w, c.h, c.opts.mw, c.opts.mh));
                }
                if let Some((w, h, ..)) = walk_sof(b) {
                    if c.class == O && (w > u64::from(c.opts.mw) || h > u64::from(c.opts.mh)) {
                        flag("limit", format!("{}: {w}x{h} accepted with limits {}x{}", describe(p, c), c.opts.mw, c.opts.mh));
                    }
                }
                let n = if c.kind == 2 { 1 } else { i.built().segs("SOS").count() };
                if i.ops.is_empty() {
                    if c.class == O && n > c.opts.ms {
                        flag("scans", format!("{}: {n} scans accepted with a limit of {}", describe(p, c), c.opts.ms));
                    }
                    let fits = i.spec.w <= u32::from(c.opts.mw) && i.spec.h <= u32::from(c.opts.mh) && n <= c.opts.ms;
                    if fits {
                        let wide = Opts { mw: 65535, mh: 65535, ms: 100_000, ..c.opts };
                        match refs_get(&mut Refs::default(), b, &wide, c.kind == 2) {
                            Ok(r) => {
                                checks += 1;
                                if let Some((k, m)) = differs(c, &r) {
                                    flag(&format!("within-{k}"), format!("{} within its limits: {m}", describe(p, c)));
                                }
                            }
                            Err(d) => incon = Some(format!("reference: {} {}", d.kind, d.msg)),
                        }
                    }
                }
            }
        }
        "C12" => {
            for c in &s.calls {
                if c.class != O {
                    continue;
                }
                let i = &p.imgs[c.img as usize];
                let b = i.built();
                if let Some(rows) = safe_rows(i, &b) {
                    match Refs::default().get(&b.bytes, &c.opts, false, true) {
                        Ok(r) if r.class == O && r.len == c.len => {
                            let ch = c.len / (c.w * c.h).max(1);
                            let n = (rows.min(c.h) * c.w * ch) as usize;
                            if n > 0 {
                                checks += 1;
                            }
                            if let Some(k) = (0..n).find(|k| r.data[*k] != c.data[*k]) {
                                let y = k as u64 / (c.w * ch);
                                flag("spread", format!("{}: row {y} changed, damage lies behind the data of the first {rows} rows", describe(p, c)));
                            }
                        }
                        Ok(_) => {}
                        Err(d) => incon = Some(format!("reference: {} {}", d.kind, d.msg)),
                    }
                }
            }
        }
        "C22" => {
            for c in &s.calls {
                if c.class != O {
                    continue;
                }
                let i = &p.imgs[c.img as usize];
                let b = i.built();
                let Some((strip, spared)) = spared_strips(i, &b) else { continue };
                match Refs::default().get(&b.bytes, &c.opts, false, true) {
                    Ok(r) if r.class == O && r.len == c.len => {
                        let row = (c.len / c.h.max(1)).max(1);
                        if spared.contains(&true) {
                            checks += 1;
                        }
                        let other = |k: &u64| spared[(k / row / strip) as usize] && r.data[*k as usize] != c.data[*k as usize];
                        if let Some(k) = (0..c.len).find(other) {
                            flag("not-contained", format!("{}: row {} changed, no damaged restart interval has a part in it", describe(p, c), k / row));
                        }
                    }
                    Ok(_) => {}
                    Err(d) => incon = Some(format!("reference: {} {}", d.kind, d.msg)),
                }
            }
        }
        "C13" => {
            let mut q = p.clone();
            q.fill = !p.fill;
            match run_plan(&q, &bytes, false, false, MAX_STEP) {
                Ok(t) => {
                    v.refs += 1;
                    for (a, b) in s.calls.iter().zip(&t.calls) {
                        checks += 1;
                        if let Some((k, _)) = differs(a, b) {
                            flag(&format!("stale-{k}"), format!("{}: the result depends on what fresh memory contains", describe(p, a)));
                        }
                    }
                }
                Err(d) => {
                    death(&q, &bytes, d, &mut v);
                    return v;
                }
            }
        }
        "C14" => {
            if s.worker_panics > 0 {
                flag("panic", format!("a worker thread panicked: {}", s.panics.first().cloned().unwrap_or_default()));
            }
            for (i, m) in s.marks.iter().enumerate() {
                checks += 1;
                if m.1 > u64::from(s.calls.first().map_or(0, |c| c.opts.threads)) {
                    flag("thread-leak", format!("{} threads there at mark {i}", m.1));
                }
            }
            if let Some(m) = s.marks.last() {
                if m.1 > 0 {
                    flag("thread-leak", format!("{} threads left behind", m.1));
                }
            }
            for (i, c) in s.calls.iter().enumerate() {
                if i == 0 && s.spawn_failed > 0 {
                    // may fail, in the calling thread; may not be wrong
                    checks += 1;
                    if c.class == O {
                        if let Some((k, m)) = same(c, &mut checks, &mut incon) {
                            flag(&k, m);
                        }
                    }
                } else if let Some((k, m)) = same(c, &mut checks, &mut incon) {
                    flag(&k, m);
                }
            }
        }
        "C15" => {
            if let [h, d, after] = &s.calls[..] {
                checks += 2;
                if d.class == O {
                    if h.class != O {
                        flag("refused", "an image that decodes is refused by read_headers".into());
                    } else if (h.w, h.h, h.cs, h.info) != (d.w, d.h, d.cs, d.info) {
                        flag(
                            "metadata",
                            format!(
                                "read_headers reports {}x{} colour space {} {:?}, the decode {}x{} colour space {} {:?}",
                                h.w, h.h, h.cs, h.info, d.w, d.h, d.cs, d.info
                            ),
                        );
                    }
                }
                // image 1 intact, headers only
                let b = p.imgs[1].built();
                let segs: Vec<Op> = p.imgs[1].ops.iter().filter(|o| matches!(o, Op::Seg(..))).cloned().collect();
                let whole = crate::damage::apply_all(&b.bytes, &segs);
                let end = b.segs("SOS").next().map_or(0, |s| s.end) + whole.len() - b.bytes.len();
                if bytes[1].len() >= end && bytes[1][..end] == whole[..end] {
                    match refs_get(&mut Refs::default(), &whole, &after.opts, true) {
                        Ok(r) => {
                            checks += 1;
                            if let Some((k, m)) = differs(after, &r) {
                                flag(&format!("after-{k}"), format!("read_headers depends on bytes behind the scan header: {m}"));
                            }
                        }
                        Err(d) => incon = Some(format!("reference: {} {}", d.kind, d.msg)),
                    }
                }
            }
        }
        "C16" => {
            if let [a, b, c, d] = &s.calls[..] {
                let base = p.imgs[0].built().bytes;
                match refs_get(&mut Refs::default(), &base, &a.opts, false) {
                    Ok(r) => {
                        checks += 1;
                        if let Some((k, m)) = differs(a, &r) {
                            flag(&format!("lenient-{k}"), format!("with foreign bytes between the headers: {m}"));
                        }
                    }
                    Err(d) => incon = Some(format!("reference: {} {}", d.kind, d.msg)),
                }
                let stray = p.imgs[0].ops.iter().any(|o| matches!(o, Op::Ins(_, v) if v.len() >= 4 && !v.contains(&0xFF)));
                checks += 1;
                if stray && b.class == O {
                    flag("strict", "four or more stray bytes between headers accepted in strict mode".into());
                }
                if p.par("stray") == 0 && p.imgs[0].ops.iter().all(|o| matches!(o, Op::Seg(..))) {
                    match refs_get(&mut Refs::default(), &base, &b.opts, false) {
                        Ok(r) => {
                            checks += 1;
                            if let Some((k, m)) = differs(b, &r) {
                                flag(&format!("strict-segment-{k}"), format!("strict mode, with more segments between the headers: {m}"));
                            }
                        }
                        Err(d) => incon = Some(format!("reference: {} {}", d.kind, d.msg)),
                    }
                }
                for (l, st) in [(a, b), (c, d)] {
                    checks += 1;
                    if st.class == O {
                        if let Some((k, m)) = differs(st, l) {
                            flag(&format!("strict-{k}"), format!("strict mode gives a result that lenient mode does not: {m}"));
                        }
                    }
                }
            }
        }
        "C17" => {
            for c in &s.calls {
                let i = &p.imgs[c.img as usize];
                checks += 1;
                if c.class != O {
                    flag("refused", format!("{}: an intact image does not decode: {}", describe(p, c), c.msg));
                } else if (c.w, c.h) != (u64::from(i.spec.w), u64::from(i.spec.h)) || c.data.len() as u64 % (c.w * c.h).max(1) != 0 || c.data.is_empty() {
                    flag("shape", format!("{}: {} bytes, {}x{} for an image of {}x{}", describe(p, c), c.data.len(), c.w, c.h, i.spec.w, i.spec.h));
                } else if let Some((x, y, k, got, lo, hi)) = crate::model::first_wrong(&i.spec, c.cs, &c.data) {
                    flag("sample", format!("{}: channel {k} of pixel ({x}, {y}) is {got}, the coefficients allow {lo:.2} to {hi:.2}", describe(p, c)));
                }
            }
        }
        "C18" => {
            if let [a, b] = &s.calls[..] {
                checks += 1;
                if let Some((k, _)) = differs(a, b) {
                    flag(&format!("simd-{k}"), format!("{}: SIMD and portable code give different results", describe(p, a)));
                }
            }
        }
        "C19" => {
            let get = |cs: u8| s.calls.iter().find(|c| c.opts.cs == cs && c.class == O);
            if let Some(bad) = s.calls.iter().find(|c| (c.class == O) != (s.calls[0].class == O)) {
                flag("class", format!("{}: whether the image decodes depends on the colour space", describe(p, bad)));
            }
            if let (Some(rgb), Some(gray), Some(ycc), Some(rgba), Some(rgbx)) = (get(0), get(1), get(2), get(3), get(4)) {
                checks += 4;
                let n = (rgb.w * rgb.h) as usize;
                if s.calls.iter().any(|c| (c.w, c.h) != (rgb.w, rgb.h) || c.len as usize != n * CHANNELS.get(c.cs as usize).map_or(0, |x| *x as usize)) {
                    flag("shape", "sizes differ between colour spaces".into());
                } else if rgb.cs == 1 {
                    // one component: always delivered as it is
                    if let Some(c) = s.calls.iter().find(|c| c.data != gray.data) {
                        flag("gray", format!("{}: other samples than in grayscale", describe(p, c)));
                    }
                } else {
                    let at = |i: usize| (i as u64 % rgb.w, i as u64 / rgb.w);
                    for i in 0..n {
                        let (px, yc) = (&rgb.data[3 * i..3 * i + 3], &ycc.data[3 * i..3 * i + 3]);
                        let (pa, pb) = (&rgba.data[4 * i..4 * i + 4], &rgbx.data[4 * i..4 * i + 4]);
                        if gray.data[i] != yc[0] {
                            flag("gray", format!("pixel {:?}: {} in grayscale, luma {}", at(i), gray.data[i], yc[0]));
                        }
                        if pa[..3] != px[..3] || pa[3] != 255 {
                            flag("rgba", format!("pixel {:?}: {pa:?} in RGBA, {px:?} in RGB", at(i)));
                        }
                        if pb[..3] != px[..3] {
                            flag("rgbx", format!("pixel {:?}: {pb:?} in RGBX, {px:?} in RGB", at(i)));
                        }
                        let e = crate::model::rgb(f64::from(yc[0]), f64::from(yc[1]), f64::from(yc[2]));
                        if (0..3).any(|k| (e[k].clamp(0.0, 255.0) - f64::from(px[k])).abs() > 3.0) {
                            flag("conversion", format!("pixel {:?}: {px:?} in RGB for {yc:?} in YCbCr", at(i)));
                        }
                    }
                }
            }
        }
        "C20" | "C21" => {
            for c in &s.calls {
                checks += 1;
                if c.class != O {
                    flag("refused", format!("{}: an intact image does not decode: {}", describe(p, c), c.msg));
                    continue;
                }
                let plain = ImgSpec { prog: false, ri: 0, huff: 0, extra: 0, ..p.imgs[c.img as usize].spec.clone() };
                // which tables there are is part of the picture, and so is what its scans carry
                let plain = if plain.upto == 0 {
                    ImgSpec { layout: plain.layout & 256, script: 0, ..plain }
                } else {
                    ImgSpec { layout: plain.layout & (256 | 128), ..plain }
                };
                match refs_get(&mut Refs::default(), &crate::jpeg::build(&plain).bytes, &c.opts, false) {
                    Ok(r) => {
                        checks += 1;
                        if let Some((k, m)) = differs(&Call { info: r.info, ..c.clone() }, &r) {
                            flag(&format!("packaged-{k}"), format!("{}: the same picture stored plainly gives something else: {m}", describe(p, c)));
                        }
                    }
                    Err(d) => incon = Some(format!("reference: {} {}", d.kind, d.msg)),
                }
            }
        }
        _ => {}
    }
    v.bad = bad;
    v.checks = checks;
    v.inconclusive = incon;
    v.refs += refs.runs;
    v.ref_steps += refs.steps;
    v
}

fn refs_get(r: &mut Refs, b: &[u8], o: &Opts, hdr: bool) -> Result<Call, Death> {
    r.get(b, o, hdr, false).clone()
}

/// Rows whose data, with that of the strip they are processed in, ends well
/// before the first damaged byte.
fn safe_rows(i: &Img, b: &Built) -> Option<u64> {
    let got = crate::damage::apply_all(&b.bytes, &i.ops);
    let first = (0..b.bytes.len()).find(|k| got.get(*k) != Some(&b.bytes[*k])).unwrap_or(b.bytes.len());
    let many = b.rows.len() > 1;
    // where the markers are, other than restart markers
    let marks = |v: &[u8]| (0..v.len() - 1).filter(|k| v[*k] == 0xFF && v[*k + 1] != 0).collect::<Vec<_>>();
    if first < b.rows.first()?.start || many && (got.len() != b.bytes.len() || marks(&got) != marks(&b.bytes)) {
        return None;
    }
    if many {
        // only the data of scans may differ: what a header says holds for all rows
        let data = |k: &usize| b.rows.iter().any(|s| (s.start..s.end).contains(k));
        if !(0..got.len()).filter(|k| got[*k] != b.bytes[*k]).all(|k| data(&k)) {
            return None;
        }
    }
    // rows of every scan complete before its damage
    let strip = 16 * if i.spec.gray { 1 } else { u64::from(i.spec.vs) };
    b.rows
        .iter()
        .filter_map(|s| {
            let from = s.start.max(first);
            let hit = if many { (from..s.end).find(|k| got[*k] != b.bytes[*k])? } else { first };
            let n = s.at.len();
            let done = (0..n).filter(|r| if r + 1 < n { s.at[r + 1] + 1 } else { s.end } <= hit).count() as u64;
            Some(done * s.px / strip * strip)
        })
        .min()
}

/// Strips of rows that no damaged restart interval has a part in: their size,
/// and which of them, or nothing if the damage is not of that kind.
fn spared_strips(i: &Img, b: &Built) -> Option<(u64, Vec<bool>)> {
    let got = crate::damage::apply_all(&b.bytes, &i.ops);
    let marks = |v: &[u8]| (0..v.len() - 1).filter(|k| v[*k] == 0xFF && v[*k + 1] != 0).collect::<Vec<_>>();
    if got.len() != b.bytes.len() || marks(&got) != marks(&b.bytes) {
        return None;
    }
    let bad: Vec<usize> = (0..got.len()).filter(|k| got[*k] != b.bytes[*k]).collect();
    let strip = 16 * if i.spec.gray { 1 } else { u64::from(i.spec.vs) };
    let n = u64::from(i.spec.h).div_ceil(strip);
    let mut spared = vec![true; n as usize];
    // picture rows hit so far, and the components
    let mut hit: Vec<(u64, u64, usize)> = vec![];
    let mut seen = 0;
    for s in &b.rows {
        let here: Vec<usize> = bad.iter().copied().filter(|k| (s.start..s.end).contains(k)).collect();
        seen += here.len();
        // where its intervals end
        let mut ends: Vec<usize> = b.segs("RST").map(|x| x.start).filter(|x| (s.start..s.end).contains(x)).collect();
        ends.push(s.end);
        let rows = s.at.len() as u64;
        let mut now = vec![];
        for (j, end) in ends.iter().enumerate() {
            let start = if j == 0 { s.start } else { ends[j - 1] };
            let (from, to) = if s.ri == 0 {
                (0, rows * s.px)
            } else {
                let j = j as u64;
                (j * s.ri / s.nx * s.px, (((j + 1) * s.ri).min(rows * s.nx) - 1) / s.nx * s.px + s.px)
            };
            // refinements follow what there is
            let after = i.spec.prog && hit.iter().any(|(a, z, c)| s.comps.contains(c) && *a < to && from < *z);
            if after || here.iter().any(|k| (start..*end).contains(k)) {
                now.extend(s.comps.iter().map(|c| (from, to, *c)));
            }
        }
        hit.extend(now);
    }
    if seen != bad.len() {
        return None;
    }
    for (a, z, _) in hit {
        for k in 0..n {
            if a < (k + 1) * strip && k * strip < z {
                spared[k as usize] = false;
            }
        }
    }
    Some((strip, spared))
}

/// The process of the run did not survive.
fn death(p: &Plan, bytes: &[Vec<u8>], d: Death, v: &mut Verdict) {
    let prop = p.prop.as_str();
    let k = d.kind.as_str();
    if k == "harness" {
        v.inconclusive = Some(format!("harness: {}", d.msg));
        return;
    }
    let own = match prop {
        "C06" => k != "memory",
        "C07" => matches!(k, "deadlock" | "no-progress" | "hang"),
        "C09" => k == "memory",
        "C13" => k == "heap",
        // intact images: there is no excuse
        "C17" | "C20" | "C21" => k != "memory",
        // the call has to come back, if the input on its own does not break the decoder
        "C01" | "C02" | "C03" | "C04" | "C05" | "C10" | "C11" | "C14" => die_alone(p, bytes, |_| true).0 == 0,
        // two answers to compare, and for one of them the decoder dies
        "C15" | "C18" | "C19" => {
            let (n, all) = die_alone(p, bytes, |_| true);
            k != "memory" && n < all
        }
        // the intact image with something in between
        "C16" if k == "memory" => false,
        "C16" => die_alone(p, bytes, |i| i == 0).0 > 0 || die_alone(p, bytes, |_| true).0 == 0,
        _ => false,
    };
    let m = format!("{}: {}", d.kind, d.msg);
    if own {
        v.bad = Some((d.kind, m));
    } else {
        v.inconclusive = Some(m);
    }
}

/// How many of the calls on these images kill a fresh decoder that does nothing else, and of how many.
fn die_alone(p: &Plan, bytes: &[Vec<u8>], which: impl Fn(usize) -> bool) -> (usize, usize) {
    let mut refs = Refs::default();
    let (mut n, mut all) = (0, 0);
    for c in &p.callers {
        let mut o = Opts::default();
        for s in c {
            match &s.act {
                Act::New(n) => o = *n,
                Act::SetCs(n) => o.cs = *n,
                Act::Rgba => o.cs = 3,
                Act::Limits(w, h) => (o.mw, o.mh) = (*w, *h),
                Act::Buf(i) | Act::Hdr(i) | Act::File(i, _) if which(*i) => {
                    all += 1;
                    n += usize::from(refs.get(&bytes[*i], &o, matches!(s.act, Act::Hdr(_)), false).is_err());
                }
                _ => {}
            }
        }
    }
    (n, all)
}
