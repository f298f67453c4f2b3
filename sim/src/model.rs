//! Executable reference model: which samples a picture has, computed from the
//! quantized coefficients the encoder wrote, in floating point and without any
//! of the decoder's code.
use crate::jpeg::{make_components, qindex, quant, ImgSpec, ZIGZAG};
use std::f64::consts::PI;

/// How far a sample may be from the exact inverse transform. Constants of twelve bits
/// show where the coefficients are as large as they can be.
pub fn tolerance(s: &ImgSpec) -> f64 {
    if s.style == 6 {
        5.0
    } else {
        2.0
    }
}

pub struct Plane {
    pub w: usize,
    pub h: usize,
    /// columns and rows that belong to the picture
    tw: usize,
    th: usize,
    /// sub-sampling against the picture
    sx: usize,
    sy: usize,
    pub v: Vec<f64>,
}

impl Plane {
    fn at(&self, x: usize, y: usize) -> f64 {
        self.v[y * self.w + x]
    }
    /// The values a conforming decoder may give the sample for pixel (x, y):
    /// between the samples around it, where they are fewer than pixels.
    pub fn range(&self, x: usize, y: usize) -> (f64, f64) {
        let span = |p: usize, s: usize, t: usize, n: usize| -> ([usize; 3], usize) {
            if s == 1 {
                return ([p; 3], 1);
            }
            let c = p / s;
            let o = if p % s == 0 { c.saturating_sub(1) } else { c + 1 };
            // beyond the picture: its last sample, or what the padding holds
            ([c, o.min(n - 1), o.min(t - 1)], 3)
        };
        let (xs, nx) = span(x, self.sx, self.tw, self.w);
        let (ys, ny) = span(y, self.sy, self.th, self.h);
        let (mut lo, mut hi) = (f64::MAX, f64::MIN);
        for &yy in &ys[..ny] {
            for &xx in &xs[..nx] {
                let e = self.at(xx, yy);
                lo = lo.min(e);
                hi = hi.max(e);
            }
        }
        (lo, hi)
    }
}

pub fn planes(s: &ImgSpec) -> Vec<Plane> {
    let mut ct = [[0f64; 8]; 8];
    for (x, r) in ct.iter_mut().enumerate() {
        for (u, c) in r.iter_mut().enumerate() {
            let k = if u == 0 { 0.5f64.sqrt() } else { 1.0 };
            *c = ((2 * x + 1) as f64 * u as f64 * PI / 16.0).cos() * 0.5 * k;
        }
    }
    let comps = make_components(s);
    comps
        .iter()
        .enumerate()
        .map(|(ci, c)| {
            let sx = (s.hs / c.hs) as usize;
            let sy = (s.vs / c.vs) as usize;
            let mut p = Plane {
                w: c.bw * 8,
                h: c.bh * 8,
                tw: (s.w as usize).div_ceil(sx),
                th: (s.h as usize).div_ceil(sy),
                sx,
                sy,
                v: vec![0.0; c.bw * c.bh * 64],
            };
            for by in 0..c.bh {
                for bx in 0..c.bw {
                    let b = &c.blocks[by * c.bw + bx];
                    let mut f = [[0f64; 8]; 8];
                    for k in 0..64 {
                        let n = ZIGZAG[k];
                        f[n / 8][n % 8] = f64::from(b[k]) * f64::from(quant(s, qindex(s, ci), k as u32));
                    }
                    let mut t = [[0f64; 8]; 8];
                    for v in 0..8 {
                        for x in 0..8 {
                            t[v][x] = (0..8).map(|u| ct[x][u] * f[v][u]).sum();
                        }
                    }
                    for y in 0..8 {
                        for x in 0..8 {
                            let e: f64 = (0..8).map(|v| ct[y][v] * t[v][x]).sum();
                            p.v[(by * 8 + y) * p.w + bx * 8 + x] = (e + 128.0).clamp(0.0, 255.0);
                        }
                    }
                }
            }
            p
        })
        .collect()
}

/// Red, green and blue for luma and chroma, not clamped.
pub fn rgb(y: f64, cb: f64, cr: f64) -> [f64; 3] {
    let (b, r) = (cb - 128.0, cr - 128.0);
    [y + 1.402 * r, y - 0.344_136_286 * b - 0.714_136_286 * r, y + 1.772 * b]
}

/// First sample of the output that no conforming decoder gives: its position,
/// channel, value and the range allowed. `cs` as in SPACES.
pub fn first_wrong(s: &ImgSpec, cs: u64, data: &[u8]) -> Option<(usize, usize, usize, u8, f64, f64)> {
    let tol = tolerance(s);
    let pl = planes(s);
    let (w, h) = (s.w as usize, s.h as usize);
    let nc = data.len() / (w * h);
    for y in 0..h {
        for x in 0..w {
            let px = &data[(y * w + x) * nc..][..nc];
            let r: Vec<(f64, f64)> = pl.iter().map(|p| p.range(x, y)).collect();
            let want: Vec<(f64, f64)> = match cs {
                1 | 2 => r[..nc].iter().map(|(a, b)| (a - tol, b + tol)).collect(),
                _ => {
                    let (lo, hi) = (
                        |i: usize| r[i].0.max(0.0),
                        |i: usize| r[i].1.min(255.0),
                    );
                    let a = rgb(lo(0), lo(1), lo(2));
                    let b = rgb(hi(0), hi(1), hi(2));
                    let g0 = rgb(lo(0), hi(1), hi(2))[1];
                    let g1 = rgb(hi(0), lo(1), lo(2))[1];
                    // deviations of luma and chroma, and rounding
                    let t = [tol * 2.402 + 1.0, tol * 2.06 + 1.0, tol * 2.772 + 1.0];
                    let mut v = vec![(a[0] - t[0], b[0] + t[0]), (g0 - t[1], g1 + t[1]), (a[2] - t[2], b[2] + t[2])];
                    if nc == 4 {
                        v.push((255.0, 255.0));
                    }
                    v
                }
            };
            for c in 0..nc {
                let g = f64::from(px[c]);
                if g < want[c].0.min(255.0) || g > want[c].1.max(0.0) {
                    return Some((x, y, c, px[c], want[c].0, want[c].1));
                }
            }
        }
    }
    None
}
