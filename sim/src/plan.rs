//! A plan is everything that decides one simulated run: the images and what
//! happened to them on disk, what each caller does, which files fail how, the
//! schedule, the contents of fresh memory. It prints as text: that text is the
//! replay file.
use crate::damage::{apply_all, Op};
use crate::disk::Io;
use crate::jpeg::{build, Built, ImgSpec};
use crate::sched::Policy;
use std::collections::BTreeMap;
use zune_jpeg::ColorSpace;

pub const SPACES: [(&str, ColorSpace); 5] = [
    ("rgb", ColorSpace::RGB),
    ("gray", ColorSpace::GRAYSCALE),
    ("ycbcr", ColorSpace::YCbCr),
    ("rgba", ColorSpace::RGBA),
    ("rgbx", ColorSpace::RGBX),
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Opts {
    pub threads: u32,
    /// index into SPACES
    pub cs: u8,
    pub mw: u16,
    pub mh: u16,
    pub ms: usize,
    pub strict: bool,
    pub simd: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { threads: 4, cs: 0, mw: 1 << 14, mh: 1 << 14, ms: 64, strict: false, simd: true }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    New(Opts),
    Buf(usize),
    File(usize, Vec<Io>),
    Hdr(usize),
    SetCs(u8),
    Rgba,
    Threads(u64),
    Limits(u16, u16),
    Drop,
    /// let all worker threads settle
    Drain,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub act: Act,
    /// carried out on a thread of its own, to which the decoder is moved
    pub away: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Img {
    pub spec: ImgSpec,
    pub ops: Vec<Op>,
}

impl Img {
    pub fn built(&self) -> Built {
        build(&self.spec)
    }
    pub fn bytes(&self) -> Vec<u8> {
        apply_all(&build(&self.spec).bytes, &self.ops)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub fill: u64,
    pub quar: bool,
    pub log: u8,
    pub imgs: Vec<Img>,
    pub callers: Vec<Vec<Step>>,
    pub sched: Policy,
    pub sseed: u64,
    pub spurious: bool,
    pub fails: Vec<u64>,
    /// further parameters of the property's oracle
    pub p: BTreeMap<String, i64>,
}

impl Act {
    fn to_str(&self) -> String {
        match self {
            Act::New(o) => format!(
                "new t={} cs={} mw={} mh={} ms={} strict={} simd={}",
                o.threads, SPACES[o.cs as usize].0, o.mw, o.mh, o.ms, u8::from(o.strict), u8::from(o.simd)
            ),
            Act::Buf(i) => format!("buf {i}"),
            Act::File(i, s) => {
                let v: Vec<String> = s.iter().map(Io::to_str).collect();
                format!("file {i} io={}", v.join(","))
            }
            Act::Hdr(i) => format!("hdr {i}"),
            Act::SetCs(c) => format!("setcs {}", SPACES[*c as usize].0),
            Act::Rgba => "rgba".into(),
            Act::Threads(n) => format!("threads {n}"),
            Act::Limits(w, h) => format!("limits {w} {h}"),
            Act::Drop => "drop".into(),
            Act::Drain => "drain".into(),
        }
    }
    fn parse(s: &str) -> Option<Act> {
        let f: Vec<&str> = s.split_whitespace().collect();
        let cs = |n: &str| SPACES.iter().position(|x| x.0 == n).map(|x| x as u8);
        Some(match *f.first()? {
            "new" => {
                let mut o = Opts::default();
                for kv in &f[1..] {
                    let (k, v) = kv.split_once('=')?;
                    match k {
                        "t" => o.threads = v.parse().ok()?,
                        "cs" => o.cs = cs(v)?,
                        "mw" => o.mw = v.parse().ok()?,
                        "mh" => o.mh = v.parse().ok()?,
                        "ms" => o.ms = v.parse().ok()?,
                        "strict" => o.strict = v == "1",
                        "simd" => o.simd = v == "1",
                        _ => return None,
                    }
                }
                Act::New(o)
            }
            "buf" => Act::Buf(f.get(1)?.parse().ok()?),
            "file" => {
                let s = f.get(2)?.strip_prefix("io=")?;
                let v: Option<Vec<Io>> = s.split(',').filter(|x| !x.is_empty()).map(Io::parse).collect();
                Act::File(f.get(1)?.parse().ok()?, v?)
            }
            "hdr" => Act::Hdr(f.get(1)?.parse().ok()?),
            "setcs" => Act::SetCs(cs(f.get(1)?)?),
            "rgba" => Act::Rgba,
            "threads" => Act::Threads(f.get(1)?.parse().ok()?),
            "limits" => Act::Limits(f.get(1)?.parse().ok()?, f.get(2)?.parse().ok()?),
            "drop" => Act::Drop,
            "drain" => Act::Drain,
            _ => return None,
        })
    }
}

impl Plan {
    pub fn to_text(&self) -> String {
        let mut s = String::from("zune-sim-plan 1\n");
        s += &format!("prop {}\n", self.prop);
        s += &format!("heap fill={} quarantine={}\n", self.fill, u8::from(self.quar));
        s += &format!("log {}\n", self.log);
        for i in &self.imgs {
            s += &format!("img {}\n", i.spec.to_line());
            for o in &i.ops {
                s += &format!("fault {}\n", o.to_str());
            }
        }
        for c in &self.callers {
            s += "caller\n";
            for a in &c[..] {
                s += &format!("{} {}\n", if a.away { "away" } else { "do" }, a.act.to_str());
            }
        }
        s += &format!("sched {}\n", self.sched.to_str());
        s += &format!("schedseed {}\n", self.sseed);
        s += &format!("spurious {}\n", u8::from(self.spurious));
        let v: Vec<String> = self.fails.iter().map(u64::to_string).collect();
        s += &format!("spawnfail {}\n", v.join(","));
        for (k, v) in &self.p {
            s += &format!("param {k} {v}\n");
        }
        s += "end\n";
        s
    }
    pub fn parse(t: &str) -> Option<Plan> {
        let mut p = Plan {
            prop: String::new(),
            fill: 0,
            quar: false,
            log: 0,
            imgs: vec![],
            callers: vec![],
            sched: Policy::Def,
            sseed: 0,
            spurious: false,
            fails: vec![],
            p: BTreeMap::new(),
        };
        let mut head = false;
        for l in t.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "zune-sim-plan" => head = true,
                "prop" => p.prop = r.into(),
                "heap" => {
                    for kv in r.split_whitespace() {
                        let (a, b) = kv.split_once('=')?;
                        match a {
                            "fill" => p.fill = b.parse().ok()?,
                            _ => p.quar = b == "1",
                        }
                    }
                }
                "log" => p.log = r.parse().ok()?,
                "img" => p.imgs.push(Img { spec: ImgSpec::from_line(r)?, ops: vec![] }),
                "fault" => p.imgs.last_mut()?.ops.push(Op::parse(r)?),
                "caller" => p.callers.push(vec![]),
                "do" | "away" => p.callers.last_mut()?.push(Step { act: Act::parse(r)?, away: k == "away" }),
                "sched" => p.sched = Policy::parse(r)?,
                "schedseed" => p.sseed = r.parse().ok()?,
                "spurious" => p.spurious = r == "1",
                "spawnfail" => {
                    p.fails = r.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect::<Option<_>>()?
                }
                "param" => {
                    let (a, b) = r.split_once(' ')?;
                    p.p.insert(a.into(), b.parse().ok()?);
                }
                "end" => return head.then_some(p),
                _ => return None,
            }
        }
        None
    }
    pub fn par(&self, k: &str) -> i64 {
        self.p.get(k).copied().unwrap_or(0)
    }
    /// Images every action refers to exist.
    pub fn valid(&self) -> bool {
        self.callers.iter().flatten().all(|s| match &s.act {
            Act::Buf(i) | Act::File(i, _) | Act::Hdr(i) => *i < self.imgs.len(),
            _ => true,
        })
    }
}
