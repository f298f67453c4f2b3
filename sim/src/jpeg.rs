//! Workload generator: writes random JPEG streams from a small specification.
//!
//! The generator works on quantized coefficients, so it knows every byte it
//! emits; `map` names the byte range of each segment so that faults can be
//! aimed at one (inside a header, inside entropy-coded data, on a marker).
use crate::rng::{derive, Rng};

pub const ZIGZAG: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
    13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59,
    52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

#[derive(Clone, Debug, PartialEq)]
pub struct ImgSpec {
    pub w: u32,
    pub h: u32,
    pub gray: bool,
    pub hs: u32,
    pub vs: u32,
    pub prog: bool,
    /// restart interval in MCUs, 0: none
    pub ri: u32,
    /// coefficient content: 0 flat, 1 dc walk, 2 sparse ac, 3 dense ac, 4 spikes, 5 per-row unique
    pub style: u32,
    pub seed: u64,
    pub q: u32,
    /// 0: optimal tables, 1: flat tables, 2: skewed tables with 16-bit codes
    pub huff: u32,
    /// progressive scan script; otherwise 0: one scan, 1-3: components in separate scans
    pub script: u32,
    /// extra APPn/COM segments
    pub extra: u32,
    /// bit 0: all DQT in one segment; bit 1: all DHT in one segment; bit 2: permuted table slots;
    /// bit 3: fill bytes (0xFF) before markers; bit 4: Huffman tables of the first scan before
    /// the frame header; bit 5: progressive: other segments, restart intervals that change and
    /// quantization tables between the scans; bit 6: quantization tables behind the frame header;
    /// bit 7: random scan script; bit 8: every component has tables of its own, in
    /// all four slots; bit 9: data behind the end of the image; bit 10: other tables and restart
    /// intervals first, replaced by the real ones later; bit 11: DRI before the frame header;
    /// bit 12: Huffman tables for all scans in front of the first
    pub layout: u32,
    /// progressive: the image ends early, this chooses after which scan (0: complete); what the
    /// other scans would have carried is not part of the picture, so the same picture stored in
    /// sequential mode has this value too (and then one scan)
    pub upto: u32,
}

impl ImgSpec {
    pub fn to_line(&self) -> String {
        format!(
            "w={} h={} gray={} hs={} vs={} prog={} ri={} style={} seed={} q={} huff={} script={} extra={} layout={} upto={}",
            self.w, self.h, u8::from(self.gray), self.hs, self.vs, u8::from(self.prog), self.ri, self.style,
            self.seed, self.q, self.huff, self.script, self.extra, self.layout, self.upto
        )
    }
    pub fn from_line(s: &str) -> Option<ImgSpec> {
        let mut m = std::collections::BTreeMap::new();
        for kv in s.split_whitespace() {
            let (k, v) = kv.split_once('=')?;
            m.insert(k, v.parse::<u64>().ok()?);
        }
        let g = |k: &str| m.get(k).copied();
        Some(ImgSpec {
            w: g("w")? as u32,
            h: g("h")? as u32,
            gray: g("gray")? != 0,
            hs: g("hs")? as u32,
            vs: g("vs")? as u32,
            prog: g("prog")? != 0,
            ri: g("ri")? as u32,
            style: g("style")? as u32,
            seed: g("seed")?,
            q: g("q")? as u32,
            huff: g("huff")? as u32,
            script: g("script")? as u32,
            extra: g("extra")? as u32,
            layout: g("layout")? as u32,
            upto: g("upto").unwrap_or(0) as u32,
        })
    }
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub kind: &'static str,
    /// of the marker itself, behind fill bytes
    pub start: usize,
    pub end: usize,
}

pub struct ScanRows {
    pub start: usize,
    pub end: usize,
    pub comps: Vec<usize>,
    /// picture rows per row of MCUs, and MCUs per row
    pub px: u64,
    pub nx: u64,
    /// restart interval
    pub ri: u64,
    /// where each row of MCUs starts
    pub at: Vec<usize>,
}

pub struct Built {
    pub bytes: Vec<u8>,
    pub map: Vec<Seg>,
    /// what is where in the scans
    pub rows: Vec<ScanRows>,
}

impl Built {
    pub fn segs<'a>(&'a self, kind: &'a str) -> impl Iterator<Item = &'a Seg> {
        self.map.iter().filter(move |s| s.kind == kind)
    }
}

struct BitW {
    out: Vec<u8>,
    acc: u32,
    n: u32,
}

impl BitW {
    fn put(&mut self, v: u32, n: u32) {
        for i in (0..n).rev() {
            self.acc = (self.acc << 1) | ((v >> i) & 1);
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                if self.acc as u8 == 0xFF {
                    self.out.push(0);
                }
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn flush(&mut self) {
        while self.n != 0 {
            self.put(1, 1);
        }
    }
}

#[derive(Clone)]
struct Huff {
    bits: [u8; 17],
    vals: Vec<u8>,
    code: [u32; 256],
    len: [u32; 256],
}

impl Huff {
    fn from_freq(freq: &[u64; 256]) -> Huff {
        // JPEG Annex K.2
        let mut f: Vec<u64> = freq.to_vec();
        f.push(1); // reserve the all-ones code
        let mut codesize = vec![0u32; 257];
        let mut others = vec![-1i32; 257];
        loop {
            let mut c1 = -1i32;
            let mut v = u64::MAX;
            for i in 0..257 {
                if f[i] != 0 && f[i] <= v {
                    v = f[i];
                    c1 = i as i32;
                }
            }
            let mut c2 = -1i32;
            v = u64::MAX;
            for i in 0..257 {
                if f[i] != 0 && f[i] <= v && i as i32 != c1 {
                    v = f[i];
                    c2 = i as i32;
                }
            }
            if c2 < 0 {
                break;
            }
            f[c1 as usize] += f[c2 as usize];
            f[c2 as usize] = 0;
            let mut c = c1;
            loop {
                codesize[c as usize] += 1;
                if others[c as usize] < 0 {
                    break;
                }
                c = others[c as usize];
            }
            others[c as usize] = c2;
            let mut c = c2;
            loop {
                codesize[c as usize] += 1;
                if others[c as usize] < 0 {
                    break;
                }
                c = others[c as usize];
            }
        }
        let mut bits = [0u32; 300];
        for i in 0..257 {
            if codesize[i] > 0 {
                bits[codesize[i] as usize] += 1;
            }
        }
        let mut i = 299;
        while i > 16 {
            while bits[i] > 0 {
                let mut j = i - 2;
                while bits[j] == 0 {
                    j -= 1;
                }
                bits[i] -= 2;
                bits[i - 1] += 1;
                bits[j + 1] += 2;
                bits[j] -= 1;
            }
            i -= 1;
        }
        let mut i = 16;
        while i > 0 && bits[i] == 0 {
            i -= 1;
        }
        bits[i] -= 1;
        let mut b = [0u8; 17];
        for i in 1..=16 {
            b[i] = bits[i] as u8;
        }
        let mut vals = vec![];
        for i in 1..=260u32 {
            for j in 0..256 {
                if codesize[j] == i {
                    vals.push(j as u8);
                }
            }
        }
        Huff::from_bits(b, vals)
    }
    fn from_bits(bits: [u8; 17], vals: Vec<u8>) -> Huff {
        let mut h = Huff { bits, vals, code: [0; 256], len: [0; 256] };
        let mut code = 0;
        let mut k = 0;
        for l in 1..=16 {
            for _ in 0..bits[l] {
                h.code[h.vals[k] as usize] = code;
                h.len[h.vals[k] as usize] = l as u32;
                code += 1;
                k += 1;
            }
            code <<= 1;
        }
        h
    }
    fn put(&self, w: &mut BitW, sym: u8) {
        debug_assert!(self.len[sym as usize] > 0);
        w.put(self.code[sym as usize], self.len[sym as usize]);
    }
}

/// One entropy-coded item: a symbol for a table and raw bits, or a restart.
#[derive(Clone, Copy)]
enum Tok {
    Sym { table: u8, sym: u8 },
    Bits { v: u32, n: u8 },
    Rst(u8),
    Row,
}

fn cat(v: i32) -> u32 {
    32 - v.unsigned_abs().leading_zeros()
}
fn vbits(v: i32, n: u32) -> u32 {
    if v >= 0 {
        v as u32
    } else {
        (v - 1) as u32 & ((1 << n) - 1)
    }
}

pub struct Comp {
    pub hs: u32,
    pub vs: u32,
    /// blocks per line/column, padded to whole MCUs
    pub bw: usize,
    pub bh: usize,
    /// blocks per line/column, unpadded
    pub uw: usize,
    pub uh: usize,
    pub blocks: Vec<[i16; 64]>, // zig-zag order
}

fn content(spec: &ImgSpec, ci: usize, bx: usize, by: usize, walk: &mut i32, rng: &mut Rng) -> [i16; 64] {
    let mut b = [0i16; 64];
    let lim = (900 / spec.q.max(1)).max(2) as i32;
    let aclim = (400 / spec.q.max(1)).clamp(2, 600) as i64;
    let dc = match spec.style {
        0 => {
            if ci == 0 {
                (spec.seed % 7) as i32 - 3
            } else {
                0
            }
        }
        1 => {
            *walk = (*walk + rng.below(41) as i32 - 20).clamp(-lim, lim);
            *walk
        }
        5 => {
            let h = derive(spec.seed, (by as u64) << 20 | bx as u64, ci as u64);
            (h % (2 * lim as u64 + 1)) as i32 - lim
        }
        6 => {
            let l = 1023 / i32::from(quant(spec, qindex(spec, ci), 0));
            [l, -l, 0, rng.below(2 * l as u64 + 1) as i32 - l][rng.below(4) as usize]
        }
        _ => {
            *walk = (*walk + rng.below(201) as i32 - 100).clamp(-lim, lim);
            *walk
        }
    };
    b[0] = dc.clamp(-1023, 1023) as i16;
    if spec.style == 7 {
        shaped(&mut b, aclim, rng);
        return b;
    }
    let n = match spec.style {
        0 | 1 => 0,
        2 => rng.below(6),
        3 => rng.below(64),
        4 => rng.below(3),
        6 => rng.below(24),
        _ => rng.below(4),
    };
    for _ in 0..n {
        let k = match spec.style {
            2 => 1 + rng.below(15),
            4 | 6 => 1 + rng.below(63),
            _ => {
                if rng.pct(70) {
                    1 + rng.below(12)
                } else {
                    1 + rng.below(63)
                }
            }
        } as usize;
        let l = if spec.style == 6 { 1023 / i64::from(quant(spec, qindex(spec, ci), k as u32)) } else if spec.style == 4 { aclim } else { (aclim / (1 + k as i64)).max(2) };
        b[k] = (rng.below(2 * l as u64 + 1) as i64 - l).clamp(-1023, 1023) as i16;
    }
    b
}

/// Coefficients in one part of the block only (a row, a column, a corner, every second one), or
/// everywhere: what short cuts of inverse transforms look at.
fn shaped(b: &mut [i16; 64], aclim: i64, rng: &mut Rng) {
    let part = rng.below(9);
    let (u, v) = (rng.below(8) as usize, rng.below(8) as usize);
    let sparse = rng.pct(40);
    let big = rng.pct(20);
    for k in 1..64 {
        let (x, y) = (ZIGZAG[k] % 8, ZIGZAG[k] / 8);
        let inside = match part {
            0 => y == v,
            1 => x == u,
            2 => x < u && y < v,
            3 => x >= u && y >= v,
            4 => y == 0,
            5 => x == 0,
            6 => (x + y) % 2 == 1,
            7 => k == 63 || k == 1,
            _ => true,
        };
        if inside && !(sparse && rng.pct(60)) {
            let l = if big { aclim / 4 } else { aclim / (4 + 2 * k as i64) }.max(1);
            let a = (rng.below(l as u64) + 1) as i16;
            b[k] = if rng.pct(50) { a } else { -a };
        }
    }
}

pub fn make_components(spec: &ImgSpec) -> Vec<Comp> {
    let (hm, vm) = (spec.hs, spec.vs);
    let mcux = spec.w.div_ceil(8 * hm) as usize;
    let mcuy = spec.h.div_ceil(8 * vm) as usize;
    let n = if spec.gray { 1 } else { 3 };
    let mut rng = Rng::new(derive(spec.seed, 0xC0, 1));
    let cut = if spec.upto > 0 { script(spec) } else { vec![] };
    (0..n)
        .map(|ci| {
            let (hs, vs) = if ci == 0 { (hm, vm) } else { (1, 1) };
            let bw = mcux * hs as usize;
            let bh = mcuy * vs as usize;
            let uw = (spec.w * hs).div_ceil(8 * hm) as usize;
            let uh = (spec.h * vs).div_ceil(8 * vm) as usize;
            let mut walk = 0;
            let mut blocks = Vec::with_capacity(bw * bh);
            for by in 0..bh {
                for bx in 0..bw {
                    blocks.push(content(spec, ci, bx, by, &mut walk, &mut rng));
                }
            }
            if spec.upto > 0 {
                // only what the scans carry
                for k in 0..64u32 {
                    let al = cut.iter().filter(|s| s.comps.contains(&ci) && (s.ss..=s.se).contains(&k)).map(|s| s.al).min();
                    for b in &mut blocks {
                        let v = &mut b[k as usize];
                        *v = match al {
                            None => 0,
                            Some(al) if k == 0 => *v >> al << al,
                            Some(al) => (point(*v, al) << al) as i16,
                        };
                    }
                }
            }
            Comp { hs, vs, bw, bh, uw, uh, blocks }
        })
        .collect()
}

/// Entry `k` (zig-zag) of the quantization table of luma (0) or chroma (1).
pub fn quant(spec: &ImgSpec, q: usize, k: u32) -> u8 {
    (spec.q + q as u32 + (k * ((spec.seed + q as u64 / 2) % 3) as u32) / 8).clamp(1, 255) as u8
}

/// Which quantization table component `c` uses.
pub fn qindex(spec: &ImgSpec, c: usize) -> usize {
    if spec.layout & 256 != 0 {
        c
    } else {
        usize::from(c > 0)
    }
}

#[derive(Clone)]
struct Scan {
    comps: Vec<usize>,
    ss: u32,
    se: u32,
    ah: u32,
    al: u32,
}

fn script(spec: &ImgSpec) -> Vec<Scan> {
    let n = if spec.gray { 1 } else { 3 };
    let all: Vec<usize> = (0..n).collect();
    let sc = |comps: &[usize], ss, se, ah, al| Scan { comps: comps.to_vec(), ss, se, ah, al };
    let mut v = vec![];
    if spec.layout & 128 != 0 {
        v = random_script(spec);
    } else { match spec.script % 4 {
        0 => {
            v.push(sc(&all, 0, 0, 0, 0));
            for c in 0..n {
                v.push(sc(&[c], 1, 63, 0, 0));
            }
        }
        1 => {
            v.push(sc(&all, 0, 0, 0, 1));
            v.push(sc(&[0], 1, 5, 0, 2));
            for c in (1..n).rev() {
                v.push(sc(&[c], 1, 63, 0, 1));
            }
            v.push(sc(&[0], 6, 63, 0, 2));
            v.push(sc(&[0], 1, 63, 2, 1));
            v.push(sc(&all, 0, 0, 1, 0));
            for c in (0..n).rev() {
                v.push(sc(&[c], 1, 63, 1, 0));
            }
        }
        2 => {
            for c in 0..n {
                v.push(sc(&[c], 0, 0, 0, 0));
            }
            for c in 0..n {
                let s = 2 + (spec.seed >> (c * 5)) as u32 % 40;
                v.push(sc(&[c], 1, s, 0, 0));
                v.push(sc(&[c], s + 1, 63, 0, 0));
            }
        }
        _ => {
            let al = 1 + (spec.seed % 3) as u32;
            v.push(sc(&all, 0, 0, 0, al));
            for c in 0..n {
                v.push(sc(&[c], 1, 63, 0, al));
            }
            for a in (0..al).rev() {
                for c in 0..n {
                    v.push(sc(&[c], 1, 63, a + 1, a));
                }
                v.push(sc(&all, 0, 0, a + 1, a));
            }
        }
    } }
    if spec.upto > 0 {
        // the DC part is always there
        let dc = 1 + v.iter().rposition(|s| s.ss == 0 && s.ah == 0).unwrap();
        if v.len() > dc {
            v.truncate(dc + spec.upto as usize % (v.len() - dc));
        }
    }
    // the last scan again and again
    let last = v.len() - 1;
    for _ in 0..spec.script / 4 {
        let Scan { comps, ss, se, ah, al } = &v[last];
        let again = sc(comps, *ss, *se, *ah, *al);
        v.push(again);
    }
    v
}

/// Any order of scans that G.1.1 allows.
fn random_script(spec: &ImgSpec) -> Vec<Scan> {
    let mut r = Rng::new(derive(spec.seed, 0x5C, 2));
    let n = if spec.gray { 1 } else { 3 };
    let sc = |comps: &[usize], ss, se, ah, al| Scan { comps: comps.to_vec(), ss, se, ah, al };
    let mut v = vec![];
    // the DC part, refined at once or later
    let groups: Vec<Vec<usize>> = match r.below(if n == 1 { 1 } else { 4 }) {
        0 => vec![(0..n).collect()],
        1 => vec![vec![0], vec![1], vec![2]],
        2 => vec![vec![0], vec![1, 2]],
        _ => vec![vec![0, 2], vec![1]],
    };
    let mut chains: Vec<Vec<Scan>> = vec![];
    for g in groups {
        let al = [0, 0, 1, 2, 3][r.below(5) as usize];
        v.push(sc(&g, 0, 0, 0, al));
        chains.push((0..al).rev().map(|a| sc(&g, 0, 0, a + 1, a)).collect());
    }
    // and the AC bands of every component, each with refinements of its own
    for c in 0..n {
        let mut ss = 1;
        while ss < 64 {
            let se = if r.pct(40) { 63 } else { (ss + r.below(30) as u32).min(63) };
            let al = [0, 0, 1, 1, 2, 3][r.below(6) as usize];
            let mut chain = vec![sc(&[c], ss, se, 0, al)];
            chain.extend((0..al).rev().map(|a| sc(&[c], ss, se, a + 1, a)));
            chains.push(chain);
            ss = se + 1;
        }
    }
    chains.retain(|c| !c.is_empty());
    while !chains.is_empty() {
        let k = r.below(chains.len() as u64) as usize;
        v.push(chains[k].remove(0));
        chains.retain(|c| !c.is_empty());
    }
    if v.len() > 60 {
        // more than a reader accepts by default
        return random_script(&ImgSpec { seed: derive(spec.seed, 1, 1), ..spec.clone() });
    }
    v
}

fn baseline_block(t: &mut Vec<Tok>, b: &[i16; 64], pred: &mut i32, table: u8) {
    let d = i32::from(b[0]) - *pred;
    *pred = i32::from(b[0]);
    let dct = table;
    let act = 4 + table;
    let s = cat(d);
    t.push(Tok::Sym { table: dct, sym: s as u8 });
    if s > 0 {
        t.push(Tok::Bits { v: vbits(d, s), n: s as u8 });
    }
    let mut run = 0;
    let last = (1..64).rev().find(|&k| b[k] != 0).unwrap_or(0);
    for k in 1..=last {
        let v = i32::from(b[k]);
        if v == 0 {
            run += 1;
            continue;
        }
        while run > 15 {
            t.push(Tok::Sym { table: act, sym: 0xF0 });
            run -= 16;
        }
        let s = cat(v);
        t.push(Tok::Sym { table: act, sym: (run << 4 | s) as u8 });
        t.push(Tok::Bits { v: vbits(v, s), n: s as u8 });
        run = 0;
    }
    if last < 63 {
        t.push(Tok::Sym { table: act, sym: 0 });
    }
}

fn point(v: i16, al: u32) -> i32 {
    let v = i32::from(v);
    if v >= 0 {
        v >> al
    } else {
        -((-v) >> al)
    }
}

struct Prog<'a> {
    t: &'a mut Vec<Tok>,
    eobrun: u32,
    corr: Vec<u8>,
    table: u8,
    maxrun: u32,
    /// rows that started while a run was open
    rows: u32,
}

impl Prog<'_> {
    fn flush_eob(&mut self) {
        if self.eobrun > 0 {
            let n = 31 - self.eobrun.leading_zeros();
            self.t.push(Tok::Sym { table: self.table, sym: (n << 4) as u8 });
            if n > 0 {
                self.t.push(Tok::Bits { v: self.eobrun & ((1 << n) - 1), n: n as u8 });
            }
            self.eobrun = 0;
            let c = std::mem::take(&mut self.corr);
            for b in c {
                self.t.push(Tok::Bits { v: u32::from(b), n: 1 });
            }
        }
        for _ in 0..std::mem::take(&mut self.rows) {
            self.t.push(Tok::Row);
        }
    }
    fn ac_first(&mut self, b: &[i16; 64], s: &Scan) {
        let mut run = 0;
        for k in s.ss..=s.se {
            let v = point(b[k as usize], s.al);
            if v == 0 {
                run += 1;
                continue;
            }
            self.flush_eob();
            while run > 15 {
                self.t.push(Tok::Sym { table: self.table, sym: 0xF0 });
                run -= 16;
            }
            let c = cat(v);
            self.t.push(Tok::Sym { table: self.table, sym: (run << 4 | c) as u8 });
            self.t.push(Tok::Bits { v: vbits(v, c), n: c as u8 });
            run = 0;
        }
        if run > 0 {
            self.eobrun += 1;
            if self.eobrun >= self.maxrun {
                self.flush_eob();
            }
        }
    }
    fn ac_refine(&mut self, b: &[i16; 64], s: &Scan) {
        let av: Vec<u32> = (0..64).map(|k| (i32::from(b[k]).unsigned_abs()) >> s.al).collect();
        let mut eob = 0;
        for k in s.ss..=s.se {
            if av[k as usize] == 1 {
                eob = k;
            }
        }
        let mut run = 0;
        let mut corr: Vec<u8> = vec![];
        for k in s.ss..=s.se {
            let a = av[k as usize];
            if a == 0 {
                run += 1;
                continue;
            }
            while run > 15 && k <= eob {
                self.flush_eob();
                self.t.push(Tok::Sym { table: self.table, sym: 0xF0 });
                run -= 16;
                for c in corr.drain(..) {
                    self.t.push(Tok::Bits { v: u32::from(c), n: 1 });
                }
            }
            if a > 1 {
                corr.push((a & 1) as u8);
                continue;
            }
            self.flush_eob();
            self.t.push(Tok::Sym { table: self.table, sym: (run << 4 | 1) as u8 });
            self.t.push(Tok::Bits { v: u32::from(b[k as usize] >= 0), n: 1 });
            for c in corr.drain(..) {
                self.t.push(Tok::Bits { v: u32::from(c), n: 1 });
            }
            run = 0;
        }
        if run > 0 || !corr.is_empty() {
            self.eobrun += 1;
            self.corr.extend(corr);
            if self.eobrun >= self.maxrun || self.corr.len() > 900 {
                self.flush_eob();
            }
        }
    }
}

fn tokens_prog(spec: &ImgSpec, comps: &[Comp], s: &Scan, ri: u32) -> Vec<Tok> {
    let mut t = vec![];
    let mut preds = vec![0i32; comps.len()];
    let mut rst = 0u8;
    let mut left = ri;
    let interleaved = s.comps.len() > 1;
    let (nx, ny) = if interleaved {
        (spec.w.div_ceil(8 * spec.hs) as usize, spec.h.div_ceil(8 * spec.vs) as usize)
    } else {
        (comps[s.comps[0]].uw, comps[s.comps[0]].uh)
    };
    let table = 4 + qindex(spec, s.comps[0]) as u8;
    let maxrun = match spec.seed % 3 {
        0 => 1,
        1 => 7,
        _ => 0x7FFF,
    };
    let mut p = Prog { t: &mut t, eobrun: 0, corr: vec![], table, maxrun, rows: 0 };
    for y in 0..ny {
        if p.eobrun > 0 {
            p.rows += 1;
        } else {
            p.t.push(Tok::Row);
        }
        for x in 0..nx {
            if ri > 0 && left == 0 {
                p.flush_eob();
                p.t.push(Tok::Rst(rst));
                rst = (rst + 1) & 7;
                left = ri;
                preds.iter_mut().for_each(|v| *v = 0);
            }
            left = left.wrapping_sub(1);
            for &ci in &s.comps {
                let c = &comps[ci];
                let (bh, bv) = if interleaved { (c.hs as usize, c.vs as usize) } else { (1, 1) };
                for v in 0..bv {
                    for h in 0..bh {
                        let b = &c.blocks[(y * bv + v) * c.bw + x * bh + h];
                        if s.ss == 0 {
                            if s.ah == 0 {
                                let dc = i32::from(b[0]) >> s.al;
                                let d = dc - preds[ci];
                                preds[ci] = dc;
                                let n = cat(d);
                                p.t.push(Tok::Sym { table: qindex(spec, ci) as u8, sym: n as u8 });
                                if n > 0 {
                                    p.t.push(Tok::Bits { v: vbits(d, n), n: n as u8 });
                                }
                            } else {
                                let bit = (i32::from(b[0]) >> s.al) & 1;
                                p.t.push(Tok::Bits { v: bit as u32, n: 1 });
                            }
                        } else if s.ah == 0 {
                            p.ac_first(b, s);
                        } else {
                            p.ac_refine(b, s);
                        }
                    }
                }
            }
        }
    }
    p.flush_eob();
    t
}

fn tokens_baseline(spec: &ImgSpec, comps: &[Comp], s: &Scan, ri: u32) -> Vec<Tok> {
    let mut t = vec![];
    let mut preds = vec![0i32; comps.len()];
    let mut rst = 0u8;
    let mut left = ri;
    let mcux = spec.w.div_ceil(8 * spec.hs) as usize;
    let mcuy = spec.h.div_ceil(8 * spec.vs) as usize;
    // a one-component scan is never interleaved: its MCU is one block
    let (nx, ny, single) =
        if let [c] = s.comps[..] { (comps[c].uw, comps[c].uh, true) } else { (mcux, mcuy, false) };
    for y in 0..ny {
        t.push(Tok::Row);
        for x in 0..nx {
            if ri > 0 && left == 0 {
                t.push(Tok::Rst(rst));
                rst = (rst + 1) & 7;
                left = ri;
                preds.iter_mut().for_each(|v| *v = 0);
            }
            left = left.wrapping_sub(1);
            for &ci in &s.comps {
                let c = &comps[ci];
                let (bh, bv) = if single { (1, 1) } else { (c.hs as usize, c.vs as usize) };
                for v in 0..bv {
                    for h in 0..bh {
                        let b = &c.blocks[(y * bv + v) * c.bw + x * bh + h];
                        baseline_block(&mut t, b, &mut preds[ci], qindex(spec, ci) as u8);
                    }
                }
            }
        }
    }
    t
}

fn tables_for(spec: &ImgSpec, toks: &[Tok]) -> Vec<(u8, Huff)> {
    let mut freq = vec![[0u64; 256]; 8];
    let mut used = [false; 8];
    for t in toks {
        if let Tok::Sym { table, sym } = t {
            freq[*table as usize][*sym as usize] += 1;
            used[*table as usize] = true;
        }
    }
    let mut v = vec![];
    for tb in 0..8u8 {
        if !used[tb as usize] {
            continue;
        }
        let f = &mut freq[tb as usize];
        match spec.huff {
            1 => {
                // every plausible symbol, flat
                let top = if tb < 4 { 12 } else { 256 };
                for s in 0..top {
                    if tb < 4 || f[s] > 0 || (s & 15) <= 10 {
                        f[s] = 1;
                    }
                }
            }
            2 => {
                // skew: halves at every step, so codes reach 16 bits
                let syms: Vec<usize> = (0..256).filter(|&s| f[s] > 0).collect();
                let mut order = syms.clone();
                let mut r = Rng::new(derive(spec.seed, 77, u64::from(tb)));
                for i in (1..order.len()).rev() {
                    order.swap(i, r.below(i as u64 + 1) as usize);
                }
                let mut fr = 1u64 << 40;
                for s in order {
                    f[s] = fr.max(1);
                    fr >>= 1;
                }
            }
            _ => {}
        }
        v.push((tb, Huff::from_freq(f)));
    }
    v
}

fn emit(toks: &[Tok], tables: &[(u8, Huff)], base: usize, rows: Option<&mut Vec<usize>>, map: &mut Vec<Seg>, fill: Fill) -> Vec<u8> {
    let mut lut: [Option<&Huff>; 8] = [None; 8];
    for (t, h) in tables {
        lut[*t as usize] = Some(h);
    }
    let mut w = BitW { out: vec![], acc: 0, n: 0 };
    let mut r = vec![];
    for t in toks {
        match t {
            Tok::Sym { table, sym } => lut[*table as usize].unwrap().put(&mut w, *sym),
            Tok::Bits { v, n } => w.put(*v, u32::from(*n)),
            Tok::Rst(n) => {
                w.flush();
                let fill = Fill::at(fill, u64::from(*n));
                for _ in 0..fill.get() {
                    w.out.push(0xFF);
                }
                map.push(Seg { kind: "RST", start: base + w.out.len(), end: base + w.out.len() + 2 });
                w.out.push(0xFF);
                w.out.push(0xD0 + n);
            }
            Tok::Row => r.push(base + w.out.len()),
        }
    }
    w.flush();
    if let Some(x) = rows {
        *x = r;
    }
    w.out
}

/// Fill bytes before markers, if there are any.
#[derive(Clone, Copy)]
struct Fill(Option<u64>);

impl Fill {
    fn at(self, n: u64) -> Fill {
        Fill(self.0.map(|s| derive(s, n, 9)))
    }
    fn get(self) -> usize {
        self.0.map_or(0, |s| [0, 0, 1, 2, 7][(s % 5) as usize])
    }
}

fn seg(out: &mut Vec<u8>, map: &mut Vec<Seg>, kind: &'static str, marker: u8, body: &[u8], fill: Fill) {
    for _ in 0..fill.at(out.len() as u64).get() {
        out.push(0xFF);
    }
    let start = out.len();
    out.push(0xFF);
    out.push(marker);
    out.extend(((body.len() + 2) as u16).to_be_bytes());
    out.extend(body);
    map.push(Seg { kind, start, end: out.len() });
}

fn write_dht(out: &mut Vec<u8>, map: &mut Vec<Seg>, tables: &[(u8, Huff)], slot: &dyn Fn(u8) -> u8, joined: bool, fill: Fill) {
    let mut all = vec![];
    for (t, h) in tables {
        let mut b = vec![(t >> 2) << 4 | slot(*t)];
        b.extend(&h.bits[1..]);
        b.extend(&h.vals);
        if joined {
            all.extend(b);
        } else {
            seg(out, map, "DHT", 0xC4, &b, fill);
        }
    }
    if joined && !all.is_empty() {
        seg(out, map, "DHT", 0xC4, &all, fill);
    }
}

pub fn build(spec: &ImgSpec) -> Built {
    let comps = make_components(spec);
    let mut out = vec![0xFF, 0xD8];
    let mut map = vec![Seg { kind: "SOI", start: 0, end: 2 }];
    let mut rng = Rng::new(derive(spec.seed, 3, 3));
    let fill = Fill((spec.layout & 8 != 0).then_some(derive(spec.seed, 3, 4)));
    let jd = spec.layout & 2 != 0;
    let dht_first = spec.layout & 16 != 0;
    let between = spec.layout & 32 != 0;
    let dqt_late = spec.layout & 64 != 0;
    let stale = spec.layout & 1024 != 0;
    let dri_first = spec.layout & 2048 != 0;
    if spec.extra & 1 != 0 {
        seg(&mut out, &mut map, "APP", 0xE0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0", Fill(None));
    }
    let app = |out: &mut Vec<u8>, map: &mut Vec<Seg>, rng: &mut Rng, m: u8| {
        let n = rng.below(40) as usize;
        let b: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
        seg(out, map, "APP", m, &b, fill);
    };
    for i in 0..(spec.extra >> 1) {
        app(&mut out, &mut map, &mut rng, [0xFE, 0xE1, 0xEE, 0xE2][(i & 3) as usize]);
    }
    // quantization
    let nq = if spec.gray { 1 } else { 1 + qindex(spec, 2) };
    let qslot = |q: usize| if spec.layout & 4 != 0 { [2u8, 1, 3][q] } else { q as u8 };
    let dqt = |out: &mut Vec<u8>, map: &mut Vec<Seg>, which: &[usize]| {
        let mut joined = vec![];
        for &q in which {
            let mut b = vec![qslot(q)];
            for k in 0..64u32 {
                b.push(quant(spec, q, k));
            }
            if spec.layout & 1 != 0 {
                joined.extend(b);
            } else {
                seg(out, map, "DQT", 0xDB, &b, fill);
            }
        }
        if !joined.is_empty() {
            seg(out, map, "DQT", 0xDB, &joined, fill);
        }
    };
    let all_q: Vec<usize> = (0..nq).collect();
    let dri = |out: &mut Vec<u8>, map: &mut Vec<Seg>, v: u32| seg(out, map, "DRI", 0xDD, &(v as u16).to_be_bytes(), fill);
    if stale {
        // what comes last counts
        for &q in &all_q {
            let mut b = vec![qslot(q)];
            b.extend((0..64).map(|_| rng.range(1, 255) as u8));
            seg(&mut out, &mut map, "DQT", 0xDB, &b, fill);
        }
        let mut f = [0u64; 256];
        for k in 0..9 {
            f[k] = 1 + k as u64;
        }
        let h: Vec<(u8, Huff)> = (0..8).filter(|_| rng.pct(70)).map(|t| (t, Huff::from_freq(&f))).collect();
        write_dht(&mut out, &mut map, &h, &|t| t & 3, jd, fill);
        if spec.ri > 0 {
            dri(&mut out, &mut map, spec.ri ^ 5);
        }
    }
    if !dqt_late {
        dqt(&mut out, &mut map, &all_q);
    }
    // the scans
    struct Part {
        scan: Scan,
        toks: Vec<Tok>,
        tables: Vec<(u8, Huff)>,
        ri: u32,
    }
    let part = |scan: Scan, k: usize| {
        let ri = if between && spec.ri > 0 { [spec.ri, 0, 1, (spec.ri * 2 + 1).min(65535)][k % 4] } else { spec.ri };
        let toks = if spec.prog { tokens_prog(spec, &comps, &scan, ri) } else { tokens_baseline(spec, &comps, &scan, ri) };
        let tables = tables_for(spec, &toks);
        Part { scan, toks, tables, ri }
    };
    let mut parts: Vec<Part> = if spec.prog {
        script(spec).into_iter().enumerate().map(|(k, s)| part(s, k)).collect()
    } else {
        let any = spec.layout & 128 != 0;
        let sets: &[&[usize]] = match (spec.gray, spec.script) {
            (true, _) => &[&[0]],
            _ if spec.upto > 0 => &[&[0, 1, 2]],
            _ if any => match derive(spec.seed, 0x5C, 3) % 8 {
                0 => &[&[2], &[0], &[1]],
                1 => &[&[2], &[1], &[0]],
                2 => &[&[1], &[2], &[0]],
                3 => &[&[0, 1], &[2]],
                4 => &[&[2], &[0, 1]],
                5 => &[&[1, 2], &[0]],
                6 => &[&[0], &[2], &[1]],
                _ => &[&[0, 2], &[1]],
            },
            (_, 0) => &[&[0, 1, 2]],
            (_, 1) => &[&[0], &[1], &[2]],
            (_, 2) => &[&[0], &[1, 2]],
            _ => &[&[1], &[0, 2]],
        };
        let scan = |c: &[usize]| Scan { comps: c.to_vec(), ss: 0, se: 63, ah: 0, al: 0 };
        sets.iter().enumerate().map(|(k, c)| part(scan(c), k)).collect()
    };
    // the same tables for all scans, sent once
    let shared = spec.layout & 4096 != 0;
    if shared {
        let all: Vec<Tok> = parts.iter().flat_map(|p| p.toks.iter().copied()).collect();
        let t = tables_for(spec, &all);
        for p in &mut parts {
            p.tables = t.clone();
        }
    }
    let parts = parts;
    let slot = |t: u8| match (spec.layout & 4 != 0, spec.layout & 256 != 0) {
        (true, true) => [1u8, 2, 0, 3, 3, 0, 1, 2][t as usize],
        (true, false) => [1u8, 2, 0, 3][t as usize & 3],
        _ => t & 3,
    };
    if dht_first {
        write_dht(&mut out, &mut map, &parts[0].tables, &slot, jd, fill);
    }
    if dri_first {
        dri(&mut out, &mut map, spec.ri);
    }
    let mut sof = vec![8];
    sof.extend((spec.h as u16).to_be_bytes());
    sof.extend((spec.w as u16).to_be_bytes());
    sof.push(comps.len() as u8);
    for (i, c) in comps.iter().enumerate() {
        sof.extend([i as u8 + 1, (c.hs << 4 | c.vs) as u8, qslot(qindex(spec, i))]);
    }
    seg(&mut out, &mut map, "SOF", if spec.prog { 0xC2 } else { 0xC0 }, &sof, fill);
    if spec.ri > 0 && !dri_first {
        dri(&mut out, &mut map, spec.ri);
    }
    // tables of components that come in a later scan can wait
    let chroma_later = between && !parts[0].scan.comps.iter().any(|c| *c != 0) && nq > 1;
    if dqt_late {
        dqt(&mut out, &mut map, if chroma_later { &[0] } else { &all_q });
    }
    let mut rows = vec![];
    let mut seen_chroma = !(chroma_later && dqt_late);
    for (k, p) in parts.iter().enumerate() {
        if between && k > 0 {
            let m = [0xFEu8, 0xE1, 0xEE, 0xE2, 0xED, 0xFE][rng.below(6) as usize];
            app(&mut out, &mut map, &mut rng, m);
            if !seen_chroma && p.scan.comps.iter().any(|c| *c != 0) {
                dqt(&mut out, &mut map, &all_q[1..]);
                seen_chroma = true;
            }
            if p.ri != parts[k - 1].ri {
                dri(&mut out, &mut map, p.ri);
            }
        }
        if k > 0 && !shared || k == 0 && !dht_first {
            write_dht(&mut out, &mut map, &p.tables, &slot, jd, fill);
        }
        let s = &p.scan;
        let mut b = vec![s.comps.len() as u8];
        for &c in &s.comps {
            let t = qindex(spec, c) as u8;
            b.extend([c as u8 + 1, slot(t) << 4 | slot(4 + t)]);
        }
        b.extend([s.ss as u8, s.se as u8, (s.ah << 4 | s.al) as u8]);
        seg(&mut out, &mut map, "SOS", 0xDA, &b, fill);
        let start = out.len();
        let mut at = vec![];
        let d = emit(&p.toks, &p.tables, start, Some(&mut at), &mut map, fill);
        out.extend(d);
        let (px, nx) = match s.comps[..] {
            [c] => (8 * spec.vs / comps[c].vs, comps[c].uw as u64),
            _ => (8 * spec.vs, u64::from(spec.w.div_ceil(8 * spec.hs))),
        };
        rows.push(ScanRows { start, end: out.len(), comps: s.comps.clone(), px: u64::from(px), nx, ri: u64::from(p.ri), at });
        map.push(Seg { kind: "ECS", start, end: out.len() });
    }
    for _ in 0..fill.at(out.len() as u64).get() {
        out.push(0xFF);
    }
    let start = out.len();
    out.extend([0xFF, 0xD9]);
    map.push(Seg { kind: "EOI", start, end: out.len() });
    if spec.layout & 512 != 0 {
        let start = out.len();
        match rng.below(4) {
            0 => out.extend(vec![0; rng.range(1, 5000) as usize]),
            1 => {
                let n = rng.range(1, 300) as usize;
                out.extend((0..n).map(|_| rng.next() as u8));
            }
            2 => {
                // another image, a preview for instance
                let other = ImgSpec { w: 24, h: 17, layout: 0, seed: spec.seed + 1, prog: !spec.prog, script: 0, ..spec.clone() };
                out.extend(build(&other).bytes);
            }
            _ => out.extend([0xFF, 0xDA, 0, 8, 1, 1, 0, 0, 63, 0, 0xFF, 0xD9]),
        }
        map.push(Seg { kind: "TAIL", start, end: out.len() });
    }
    Built { bytes: out, map, rows }
}

/// Random specification, swarm style. `maxpix` bounds the pixel count.
pub fn random_spec(rng: &mut Rng, maxpix: u32) -> ImgSpec {
    let gray = rng.pct(20);
    let (hs, vs) = if gray && rng.pct(70) { (1, 1) } else { rng.pick(&[(1, 1), (1, 1), (2, 1), (1, 2), (2, 2)]) };
    let prog = rng.pct(35);
    let shape = rng.below(10);
    let (mut w, mut h) = match shape {
        0 => (rng.range(1, 16), rng.range(1, 16)),
        1 | 2 => (rng.range(8, 40), rng.range(60, 400)),
        3 => (rng.range(100, 600), rng.range(1, 40)),
        4 => (8 * rng.range(1, 20), 8 * rng.range(1, 20)),
        5 => (16 * rng.range(1, 12), 16 * rng.range(1, 16)),
        _ => (rng.range(1, 200), rng.range(1, 200)),
    };
    while w * h > u64::from(maxpix) {
        if w > h {
            w = (w / 2).max(1);
        } else {
            h = (h / 2).max(1);
        }
    }
    let ri = if rng.pct(30) { rng.pick(&[1u32, 2, 3, 5, 8, 16, 40]) } else { 0 };
    let ri = if ri > 0 && rng.pct(30) {
        // a row, the whole picture, or more
        let row = (w as u32).div_ceil(8 * hs);
        let all = row * (h as u32).div_ceil(8 * vs);
        rng.pick(&[row, 2 * row, all - 1, all, all + 1, 255, 256, 257, all / 2, 300, 512, 1000, 65535]).max(1)
    } else {
        ri
    };
    ImgSpec {
        w: w as u32,
        h: h as u32,
        gray,
        hs,
        vs,
        prog,
        ri,
        style: rng.below(8) as u32,
        seed: rng.next() >> 16,
        q: rng.pick(&[1, 2, 4, 8, 16, 40]),
        huff: rng.below(3) as u32,
        script: if prog || rng.pct(10) { rng.below(4) as u32 } else { 0 },
        extra: rng.below(6) as u32,
        layout: rng.below(8) as u32
            | if rng.pct(40) { (rng.below(16) as u32) << 3 } else { 0 }
            | if rng.pct(40) { (rng.below(64) as u32) << 7 } else { 0 },
        upto: 0,
    }
}
