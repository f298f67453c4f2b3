//! Stored-data faults: what a disk, a cache or an interrupted copy does to the
//! bytes of a file between the writer and the decoder.
//!
//! Each generator draws from the seeded stream and yields primitive operations
//! on the byte string, so that a fault list can be printed, replayed and
//! minimised without the generator.
use crate::jpeg::{Built, Seg};
use crate::rng::{derive, Rng};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// bit flip
    Flip(usize, u8),
    /// byte overwritten
    Set(usize, u8),
    /// run of one value (zeroed or 0xFF sector)
    Fill(usize, usize, u8),
    /// lost bytes: the rest moves up
    Cut(usize, usize),
    /// foreign bytes inserted
    Ins(usize, Vec<u8>),
    /// region overwritten with foreign bytes (torn write over an older file)
    Over(usize, Vec<u8>),
    /// region replaced by another region of the same file (misdirected write)
    Copy(usize, usize, usize),
    /// end of file lost
    Trunc(usize),
    /// a whole segment of somebody else's put in: position, marker, length of the body, what is in it
    Seg(usize, u8, usize, u64),
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::Flip(..) => "bit-flip",
            Op::Set(..) => "byte-corruption",
            Op::Fill(..) => "zeroed-or-erased-run",
            Op::Cut(..) => "lost-bytes",
            Op::Ins(..) => "inserted-bytes",
            Op::Over(..) => "torn-write",
            Op::Copy(..) => "misdirected-write",
            Op::Trunc(..) => "truncation",
            Op::Seg(..) => "foreign-segment",
        }
    }
    pub fn apply(&self, d: &mut Vec<u8>) {
        let n = d.len();
        match self {
            Op::Flip(p, b) => {
                if *p < n {
                    d[*p] ^= 1 << (b & 7)
                }
            }
            Op::Set(p, v) => {
                if *p < n {
                    d[*p] = *v
                }
            }
            Op::Fill(p, l, v) => {
                for i in *p..(p + l).min(n) {
                    d[i] = *v
                }
            }
            Op::Cut(p, l) => {
                if *p < n {
                    d.drain(*p..(p + l).min(n));
                }
            }
            Op::Ins(p, b) => {
                let p = (*p).min(n);
                d.splice(p..p, b.iter().copied());
            }
            Op::Over(p, b) => {
                for (i, v) in b.iter().enumerate() {
                    if p + i < n {
                        d[p + i] = *v
                    }
                }
            }
            Op::Copy(s, t, l) => {
                let v: Vec<u8> = d.iter().skip(*s).take(*l).copied().collect();
                for (i, x) in v.into_iter().enumerate() {
                    if t + i < n {
                        d[t + i] = x
                    }
                }
            }
            Op::Trunc(l) => d.truncate(*l),
            Op::Seg(p, m, l, seed) => {
                let p = (*p).min(n);
                d.splice(p..p, foreign_segment(*m, *l, *seed));
            }
        }
    }
    pub fn to_str(&self) -> String {
        match self {
            Op::Flip(p, b) => format!("flip:{p}:{b}"),
            Op::Set(p, v) => format!("set:{p}:{v}"),
            Op::Fill(p, l, v) => format!("fill:{p}:{l}:{v}"),
            Op::Cut(p, l) => format!("cut:{p}:{l}"),
            Op::Ins(p, b) => format!("ins:{p}:{}", hex(b)),
            Op::Over(p, b) => format!("over:{p}:{}", hex(b)),
            Op::Copy(s, t, l) => format!("copy:{s}:{t}:{l}"),
            Op::Trunc(l) => format!("trunc:{l}"),
            Op::Seg(p, m, l, seed) => format!("seg:{p}:{m}:{l}:{seed}"),
        }
    }
    pub fn parse(s: &str) -> Option<Op> {
        let f: Vec<&str> = s.split(':').collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<usize>().ok());
        Some(match f[0] {
            "flip" => Op::Flip(n(1)?, n(2)? as u8),
            "set" => Op::Set(n(1)?, n(2)? as u8),
            "fill" => Op::Fill(n(1)?, n(2)?, n(3)? as u8),
            "cut" => Op::Cut(n(1)?, n(2)?),
            "ins" => Op::Ins(n(1)?, unhex(f.get(2)?)?),
            "over" => Op::Over(n(1)?, unhex(f.get(2)?)?),
            "copy" => Op::Copy(n(1)?, n(2)?, n(3)?),
            "trunc" => Op::Trunc(n(1)?),
            "seg" => Op::Seg(n(1)?, n(2)? as u8, n(3)?.min(65533), f.get(4)?.parse().ok()?),
            _ => return None,
        })
    }
}

/// An application or comment segment: noise, a well-known signature in front,
/// or something that looks like headers at any place.
fn foreign_segment(marker: u8, n: usize, seed: u64) -> Vec<u8> {
    let r = &mut Rng::new(derive(seed, 0x5E6, n as u64));
    let mut v = vec![0xFF, marker];
    v.extend(be16(n + 2));
    let mut b: Vec<u8> = (0..n).map(|_| if r.pct(20) { 0xFF } else { r.next() as u8 }).collect();
    if r.pct(60) {
        let s: &[u8] = r.pick(&[
            &b"Exif\0\0MM\0*\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06\0\0"[..],
            &b"Exif\0\0II*\0\x08\0\0\0"[..],
            &b"http://ns.adobe.com/xap/1.0/\0"[..],
            &b"JFIF\0\x01\x02\0\0\x01\0\x01\0\0"[..],
            &b"JFXX\0\x10\xFF\xD8\xFF\xDB"[..],
            &b"ICC_PROFILE\0\x01\x01"[..],
            &b"ICC_PROFILE\0\x02\x01"[..],
            &b"MPF\0MM\0*"[..],
            &b"Adobe\0\x64\0\0\0\0\x01"[..],
            &b"Adobe\0\x64\0\0\0\0\x02"[..],
            &b"Ducky\0\x01\0\x04\0\0\0\x3c\0\0"[..],
            &b"Photoshop 3.0\x008BIM"[..],
            &[0xFF, 0xD8, 0xFF, 0xC0, 0, 11, 8, 0, 8, 0, 8, 1, 1, 0x11, 0][..],
            &[0xFF, 0xDA, 0, 8, 1, 1, 0, 0, 63, 0][..],
            &[0xFF, 0xDD, 0, 4, 0, 1][..],
            &[0xFF, 0xD9][..],
        ]);
        let l = s.len().min(n);
        let at = if r.pct(60) { 0 } else { r.below((n - l) as u64 + 1) as usize };
        b[at..at + l].copy_from_slice(&s[..l]);
    }
    v.extend(b);
    v
}

/// A segment that is nobody's business, with a length drawn from all sizes there are.
pub fn random_segment(r: &mut Rng, at: usize) -> Op {
    let n = match r.below(12) {
        0 => 0,
        1 => 65533,
        2 => 65533 - r.below(40),
        3 => r.range(0x7FF0, 0x8010),
        4 => r.range(0x8000, 65000),
        5 | 6 => r.range(200, 3000),
        _ => r.range(1, 60),
    } as usize;
    let m = r.pick(&[0xE0, 0xE1, 0xE2, 0xE3, 0xE5, 0xEC, 0xED, 0xEE, 0xEF, 0xFE]);
    Op::Seg(at, m, n, r.below(1 << 32))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

pub fn apply_all(bytes: &[u8], ops: &[Op]) -> Vec<u8> {
    let mut d = bytes.to_vec();
    for o in ops {
        o.apply(&mut d);
    }
    d
}

const HOT: [u8; 24] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 0x0F, 0x10, 0x11, 0x12, 0x21, 0x22, 0x24, 0x3F, 0x40, 0x41, 0x7F, 0x80, 0xD9, 0xFE, 0xFF,
];

fn seg_of<'a>(rng: &mut Rng, b: &'a Built, kinds: &[&str]) -> Option<&'a Seg> {
    let v: Vec<&Seg> = b.map.iter().filter(|s| kinds.contains(&s.kind)).collect();
    if v.is_empty() {
        None
    } else {
        Some(v[rng.below(v.len() as u64) as usize])
    }
}

fn be16(v: usize) -> [u8; 2] {
    (v as u16).to_be_bytes()
}

/// A frame header, plausible or not, with a consistent length.
fn forged_sof(rng: &mut Rng) -> Vec<u8> {
    let n = rng.pick(&[0usize, 1, 1, 2, 3, 3, 3, 4, 4, 5, 8]);
    let mut v = vec![0xFF, rng.pick(&[0xC0, 0xC0, 0xC2, 0xC2, 0xC1, 0xC3, 0xC9, 0xCA])];
    v.extend(be16(8 + 3 * n));
    v.push(8);
    let dim = |r: &mut Rng| r.pick(&[0usize, 1, 7, 8, 9, 16, 17, 33, 64, 129, 300, 1000]);
    v.extend(be16(dim(rng)));
    v.extend(be16(dim(rng)));
    v.push(n as u8);
    for i in 0..n {
        let id = if rng.pct(70) { i as u8 + 1 } else { rng.below(5) as u8 };
        let samp = rng.pick(&[0x11, 0x11, 0x11, 0x21, 0x12, 0x22, 0x41, 0x14, 0x00, 0x31, 0x88]);
        v.extend([id, samp, rng.pick(&[0, 0, 0, 1, 1, 2, 3, 4])]);
    }
    v
}

fn forged_sos(rng: &mut Rng) -> Vec<u8> {
    let n = rng.pick(&[0usize, 1, 1, 2, 3, 3, 4, 5]);
    let mut v = vec![0xFF, 0xDA];
    v.extend(be16(6 + 2 * n));
    v.push(n as u8);
    for i in 0..n {
        let id = if rng.pct(60) { i as u8 + 1 } else { rng.below(6) as u8 };
        v.extend([id, rng.pick(&[0x00, 0x00, 0x11, 0x01, 0x10, 0x22, 0x33, 0x44, 0xFF])]);
    }
    let (ss, se) = rng.pick(&[(0u8, 63u8), (0, 0), (1, 5), (6, 63), (63, 63), (5, 1), (64, 64), (0, 5), (1, 63)]);
    v.extend([ss, se, rng.pick(&[0x00, 0x01, 0x10, 0x21, 0x0D, 0xD0, 0x0E, 0xE0, 0xFF])]);
    v
}

fn forged_dht(rng: &mut Rng) -> Vec<u8> {
    let mut b = vec![rng.pick(&[0x00, 0x01, 0x10, 0x11, 0x02, 0x13, 0x04, 0x20])];
    let mut counts = [0u8; 16];
    match rng.below(5) {
        0 => {}
        1 => counts[rng.below(16) as usize] = rng.pick(&[1, 2, 3, 16, 200, 255]),
        2 => {
            for c in &mut counts {
                *c = rng.below(3) as u8
            }
        }
        3 => counts[7] = 255,
        _ => counts[15] = rng.below(160) as u8,
    }
    let sum: usize = counts.iter().map(|x| *x as usize).sum();
    b.extend(counts);
    for _ in 0..sum.min(300) {
        b.push(if rng.pct(50) { rng.below(16) as u8 } else { rng.next() as u8 });
    }
    let len = (b.len() + 2) as i64 + if rng.pct(80) { 0 } else { rng.range(0, 40) as i64 - 20 };
    let mut v = vec![0xFF, 0xC4];
    v.extend(be16(len.max(0) as usize));
    v.extend(b);
    v
}

fn forged_dqt(rng: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..rng.range(0, 3) {
        let p = rng.pick(&[0u8, 0, 0, 0, 1, 2, 15]);
        b.push(p << 4 | rng.pick(&[0, 1, 2, 3, 4, 15]));
        for _ in 0..64 * (usize::from(p == 1) + 1) {
            b.push(rng.pick(&[0, 1, 16, 99, 255]));
        }
    }
    if rng.pct(20) {
        b.truncate(rng.below(b.len() as u64 + 1) as usize);
    }
    let mut v = vec![0xFF, 0xDB];
    v.extend(be16(b.len() + 2));
    v.extend(b);
    v
}

fn forged_misc(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![0xFF, 0xDD, 0, 4, rng.pick(&[0, 0, 1, 0xFF]), rng.pick(&[0, 1, 2, 3, 5, 0xFF])],
        1 => vec![0xFF, 0xD9],
        2 => vec![0xFF, 0xD8],
        3 => vec![0xFF, 0xD0 + rng.below(8) as u8],
        4 => {
            let n = rng.pick(&[0usize, 1, 2, 3, 20, 300, 65535]);
            let mut v = vec![0xFF, rng.pick(&[0xE0, 0xE1, 0xEF, 0xFE, 0xDC, 0xCC, 0xF7, 0x01, 0xC8])];
            v.extend(be16(n));
            v.extend(std::iter::repeat(0x55).take(n.saturating_sub(2).min(300)));
            v
        }
        5 => vec![0xFF, rng.next() as u8],
        6 => vec![0xFF; rng.range(1, 6) as usize],
        _ => (0..rng.range(1, 12)).map(|_| rng.next() as u8 & 0x7F).collect(),
    }
}

pub fn forged(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => forged_sof(rng),
        1 => forged_sos(rng),
        2 => forged_dht(rng),
        3 => forged_dqt(rng),
        _ => forged_misc(rng),
    }
}

/// A header field: its byte, shift and width in bits, and the largest value that means something.
fn edge_field(rng: &mut Rng, b: &Built) -> (usize, u32, u32, u16) {
    let kinds: &[&str] = rng.pick(&[&["SOF"][..], &["SOS"][..], &["DHT"][..], &["DQT"][..]]);
    let s = seg_of(rng, b, kinds).unwrap();
    let d = &b.bytes;
    let at = s.start + 4;
    match s.kind {
        "SOF" => {
            let c = at + 6 + 3 * rng.below(u64::from(d[at + 5]).max(1)) as usize;
            rng.pick(&[(at, 0, 8, 8), (at + 5, 0, 8, 3), (c, 0, 8, 3), (c + 1, 0, 4, 2), (c + 1, 4, 4, 2), (c + 1, 0, 4, 4), (c + 2, 0, 8, 3), (c + 2, 0, 8, 3)])
        }
        "SOS" => {
            let n = d[at] as usize;
            let c = at + 1 + 2 * rng.below(n.max(1) as u64) as usize;
            let e = at + 1 + 2 * n;
            rng.pick(&[(at, 0, 8, 3), (c, 0, 8, 3), (c + 1, 0, 4, 3), (c + 1, 4, 4, 3), (e, 0, 8, 63), (e + 1, 0, 8, 63), (e + 2, 0, 4, 13), (e + 2, 4, 4, 13)])
        }
        kind => {
            // one of the tables of the segment
            let mut t = vec![];
            let mut p = at;
            while p < s.end {
                t.push(p);
                p += if kind == "DQT" { 65 + 64 * usize::from(d[p] >> 4 != 0) } else { 17 + d.iter().skip(p + 1).take(16).map(|x| *x as usize).sum::<usize>() };
            }
            let p = t[rng.below(t.len() as u64) as usize];
            if kind == "DHT" && rng.pct(30) {
                return (p + 1 + rng.below(16) as usize, 0, 8, 16);
            }
            (p, rng.pick(&[0, 0, 4]), 4, rng.pick(&[1, 3, 3]))
        }
    }
}

/// One fault on an intact file. `other` is an unrelated file (source of torn
/// and misdirected writes).
pub fn random_ops(rng: &mut Rng, b: &Built, other: &Built) -> Vec<Op> {
    let n = b.bytes.len();
    let hdr = ["APP", "DQT", "SOF", "DRI", "DHT", "SOS", "EOI", "SOI"];
    let pos = |r: &mut Rng| r.below(n as u64) as usize;
    match rng.below(27) {
        0 => vec![Op::Flip(pos(rng), rng.below(8) as u8)],
        1 => vec![Op::Set(pos(rng), rng.next() as u8)],
        // aimed at header bytes
        2 | 3 => {
            let s = seg_of(rng, b, &hdr).unwrap();
            let p = rng.range(s.start as u64, s.end as u64 - 1) as usize;
            vec![Op::Flip(p, rng.below(8) as u8)]
        }
        4 | 5 => {
            let kinds: &[&str] = rng.pick(&[&["SOF"][..], &["SOS"][..], &["DHT"][..], &["DQT"][..], &["DRI", "SOF"][..]]);
            let s = seg_of(rng, b, kinds).unwrap();
            let hi = (s.end - 1).min(s.start + 24);
            let p = rng.range(s.start as u64 + 1, hi as u64) as usize;
            vec![Op::Set(p, rng.pick(&HOT))]
        }
        // one segment forged in place, length consistent
        6 | 7 => {
            let (k, v) = match rng.below(4) {
                0 | 1 => ("SOF", forged_sof(rng)),
                2 => ("SOS", forged_sos(rng)),
                _ => ("DHT", forged_dht(rng)),
            };
            let s = seg_of(rng, b, &[k]).unwrap();
            vec![Op::Cut(s.start, s.end - s.start), Op::Ins(s.start, v)]
        }
        // component count changed, length kept consistent
        8 => {
            let s = seg_of(rng, b, &["SOF"]).unwrap();
            let c = b.bytes[s.start + 9] as usize;
            let m = rng.pick(&[1usize, 2, 3, 4, 5, 6]);
            let mut ops = vec![Op::Over(s.start + 2, be16(8 + 3 * m).to_vec()), Op::Set(s.start + 9, m as u8)];
            if m < c {
                ops.push(Op::Cut(s.start + 10 + 3 * m, 3 * (c - m)));
            } else {
                let mut v = vec![];
                for i in c..m {
                    let id = rng.pick(&[1 + (i % 3) as u8, 3, 1, 2]);
                    v.extend([id, rng.pick(&[0x11, 0x11, 0x22, 0x21]), rng.below(2) as u8]);
                }
                ops.push(Op::Ins(s.start + 10 + 3 * c, v));
            }
            ops
        }
        // sampling, identifiers, table selectors of one component
        9 => {
            let s = seg_of(rng, b, &["SOF"]).unwrap();
            let c = rng.below(u64::from(b.bytes[s.start + 9])) as usize;
            let p = s.start + 10 + 3 * c;
            vec![match rng.below(3) {
                0 => Op::Set(p, rng.below(6) as u8),
                1 => Op::Set(p + 1, rng.pick(&[0x11, 0x12, 0x21, 0x22, 0x14, 0x41, 0x44, 0x42, 0x24, 0x00, 0x31, 0x13, 0x81, 0x18])),
                _ => Op::Set(p + 2, rng.below(6) as u8),
            }]
        }
        // dimensions
        10 => {
            let s = seg_of(rng, b, &["SOF"]).unwrap();
            let v = rng.pick(&[0usize, 1, 2, 7, 8, 9, 15, 16, 17, 31, 40, 100, 255, 256, 257, 511, 700]);
            vec![Op::Over(s.start + rng.pick(&[5usize, 7]), be16(v).to_vec())]
        }
        // segment lost, duplicated, moved
        11 => {
            let s = seg_of(rng, b, &hdr).unwrap();
            vec![Op::Cut(s.start, s.end - s.start)]
        }
        12 => {
            let s = seg_of(rng, b, &hdr).unwrap();
            let t = seg_of(rng, b, &hdr).unwrap();
            vec![Op::Ins(t.start, b.bytes[s.start..s.end].to_vec())]
        }
        13 => {
            let s = seg_of(rng, b, &hdr).unwrap().clone();
            let t = seg_of(rng, b, &hdr).unwrap();
            let v = b.bytes[s.start..s.end].to_vec();
            let l = v.len();
            let at = if t.start > s.start { t.start.max(s.end) - l } else { t.start };
            vec![Op::Cut(s.start, l), Op::Ins(at, v)]
        }
        // something else's segment between headers or inside entropy-coded data
        14 => {
            let s = seg_of(rng, b, &hdr).unwrap();
            vec![Op::Ins(s.start, forged(rng))]
        }
        15 | 16 => {
            let s = seg_of(rng, b, &["ECS"]).unwrap();
            let v = if rng.pct(30) {
                let o = seg_of(rng, other, &["SOF", "SOS", "DHT", "DQT"]).unwrap();
                other.bytes[o.start..o.end].to_vec()
            } else {
                forged(rng)
            };
            let p = rng.range(s.start as u64, s.end as u64) as usize;
            vec![if rng.pct(50) { Op::Ins(p, v) } else { Op::Over(p, v) }]
        }
        17 => vec![Op::Trunc(if rng.pct(40) {
            let s = &b.map[rng.below(b.map.len() as u64) as usize];
            (s.start + rng.below(6) as usize).min(n)
        } else {
            pos(rng)
        })],
        18 => {
            let l = rng.pick(&[1usize, 4, 16, 64, 512]);
            vec![Op::Fill(pos(rng), l, rng.pick(&[0, 0, 0xFF]))]
        }
        19 => vec![Op::Cut(pos(rng), rng.pick(&[1usize, 2, 7, 64, 512]))],
        // torn: prefix or suffix of this file over an older, unrelated one
        20 => {
            let g = rng.pick(&[16usize, 64, 128, 512]);
            let blocks = n.div_ceil(g);
            let k = rng.below(blocks as u64 + 1) as usize;
            let at = k * g;
            if at >= n {
                vec![Op::Trunc(at.min(n))]
            } else {
                let l = if rng.pct(50) { n - at } else { g };
                let v: Vec<u8> = other.bytes.iter().skip(at).take(l.min(4096)).copied().collect();
                vec![Op::Over(at, v)]
            }
        }
        21 => vec![Op::Copy(pos(rng), pos(rng), rng.pick(&[16usize, 64, 128, 512]))],
        // one field on, or one step over, the edge of what it may be
        22 | 23 => {
            let (at, shift, bits, max) = edge_field(rng, b);
            let top = (1u16 << bits) - 1;
            let v = rng.pick(&[0, max, max + 1, max + 1, max + 2, top]).min(top);
            let keep = b.bytes[at] & !((top << shift) as u8);
            vec![Op::Set(at, keep | (v << shift) as u8)]
        }
        // a segment made a different one, or its length wrong by a little
        24 => {
            let s = seg_of(rng, b, &["APP", "DQT", "SOF", "DRI", "DHT", "SOS"]).unwrap();
            let m = rng.pick(&[0x00u8, 0x01, 0x4F, 0xBF, 0xC1, 0xC5, 0xC8, 0xCC, 0xD8, 0xDC, 0xDE, 0xE0, 0xE1, 0xEE, 0xF0, 0xFD, 0xFE]);
            let l = i64::from(b.bytes[s.start + 2]) << 8 | i64::from(b.bytes[s.start + 3]);
            let mut ops = vec![];
            let both = rng.below(3);
            if both != 0 {
                ops.push(Op::Set(s.start + 1, m))
            }
            if both != 1 {
                let n = rng.pick(&[0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 13, 14, 15, 16, 17, 18, l - 2, l - 1, l + 1, l + 2]);
                ops.push(Op::Over(s.start + 2, be16(n.clamp(0, 65535) as usize).to_vec()))
            }
            ops
        }
        // other identifiers, sampling factors and tables for all components, scans to match
        _ => {
            let s = seg_of(rng, b, &["SOF"]).unwrap();
            let n = b.bytes[s.start + 9] as usize;
            let m = rng.pick(&[n, n, 1, 3]);
            let mut ids = [1u8, 2, 3];
            for i in (1..3).rev() {
                ids.swap(i, rng.below(i as u64 + 1) as usize);
            }
            if rng.pct(30) {
                ids[rng.below(3) as usize] = rng.pick(&[0, 1, 2, 3, 4]);
            }
            let mut v = vec![];
            for id in &ids[..m] {
                v.extend([*id, rng.pick(&[0x11, 0x11, 0x11, 0x21, 0x12, 0x22]), rng.pick(&[0, 0, 1])]);
            }
            let mut ops = vec![
                Op::Over(s.start + 2, be16(8 + 3 * m).to_vec()),
                Op::Set(s.start + 9, m as u8),
                Op::Cut(s.start + 10, 3 * n),
                Op::Ins(s.start + 10, v),
            ];
            let d = 3 * (m as i64 - n as i64);
            // all scans behind the frame header: same number of components unless that is impossible
            let mut moved = d;
            for t in b.map.iter().filter(|t| t.kind == "SOS" && t.start > s.start) {
                let c = b.bytes[t.start + 4] as usize;
                let k = if rng.pct(70) { c.min(m) } else { rng.range(1, m as u64) as usize };
                let first = rng.below(m as u64) as usize;
                let at = (t.start as i64 + moved) as usize;
                let mut v = vec![];
                for j in 0..k {
                    let id = if rng.pct(85) { ids[(first + j) % m] } else { rng.below(4) as u8 };
                    v.extend([id, b.bytes[t.start + 6]]);
                }
                ops.push(Op::Over(at + 2, be16(6 + 2 * k).to_vec()));
                ops.push(Op::Set(at + 4, k as u8));
                ops.push(Op::Cut(at + 5, 2 * c));
                ops.push(Op::Ins(at + 5, v));
                moved += 2 * (k as i64 - c as i64);
            }
            ops
        }
    }
}
