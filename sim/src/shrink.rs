//! Minimises a failing plan while it keeps failing in the same way.
use crate::plan::{Act, Opts, Plan};
use crate::props::{judge, judge_rec, Verdict};
use crate::sched::Policy;
use std::time::Instant;

pub struct Shrinker {
    kind: String,
    until: Instant,
    pub tries: u64,
}

fn kind_of(v: &Verdict) -> Option<&str> {
    v.bad.as_ref().map(|b| b.0.as_str())
}

impl Shrinker {
    fn fails(&mut self, p: &Plan) -> bool {
        self.tries += 1;
        p.valid() && kind_of(&judge(p)) == Some(&self.kind)
    }
    fn over(&self) -> bool {
        Instant::now() > self.until
    }
    /// Keep the candidate if it still fails.
    fn attempt(&mut self, cur: &mut Plan, f: impl FnOnce(&mut Plan)) -> bool {
        if self.over() {
            return false;
        }
        let mut c = cur.clone();
        f(&mut c);
        if c == *cur || !self.fails(&c) {
            return false;
        }
        *cur = c;
        true
    }
}

/// Remove as many elements of a list as possible.
fn ddmin<T: Clone>(s: &mut Shrinker, cur: &mut Plan, get: impl Fn(&Plan) -> Vec<T>, set: impl Fn(&mut Plan, Vec<T>)) {
    let mut chunk = get(cur).len();
    while chunk >= 1 && !s.over() {
        let mut i = 0;
        while i < get(cur).len() && !s.over() {
            let v = get(cur);
            let mut w = v[..i].to_vec();
            w.extend_from_slice(&v[(i + chunk).min(v.len())..]);
            if !s.attempt(cur, |p| set(p, w)) {
                i += chunk;
            }
        }
        chunk /= 2;
    }
}

pub fn shrink(p: &Plan, kind: &str, secs: f64) -> (Plan, u64) {
    let mut s = Shrinker {
        kind: kind.into(),
        until: Instant::now() + std::time::Duration::from_secs_f64(secs),
        tries: 0,
    };
    let mut cur = p.clone();
    for _round in 0..3 {
        let before = cur.clone();
        s.attempt(&mut cur, |p| p.sched = Policy::Def);
        s.attempt(&mut cur, |p| p.spurious = false);
        s.attempt(&mut cur, |p| p.log = 0);
        s.attempt(&mut cur, |p| {
            p.p.remove("cpu");
        });
        s.attempt(&mut cur, |p| p.quar = false);
        s.attempt(&mut cur, |p| p.fill = 0x1111_1111_1111_1111);
        ddmin(&mut s, &mut cur, |p| p.fails.clone(), |p, v| p.fails = v);
        // fewer callers, fewer actions
        let mut i = 0;
        while i < cur.callers.len() {
            if cur.callers.len() < 2 || !s.attempt(&mut cur, |p| {
                p.callers.remove(i);
            }) {
                i += 1;
            }
        }
        for i in 0..cur.callers.len() {
            if cur.prop != "C15" && cur.prop != "C16" {
                ddmin(&mut s, &mut cur, |p| p.callers[i].clone(), |p, v| p.callers[i] = v);
            }
            for k in 0..cur.callers[i].len() {
                s.attempt(&mut cur, |p| p.callers[i][k].away = false);
                if let Act::File(n, _) = cur.callers[i][k].act {
                    s.attempt(&mut cur, |p| p.callers[i][k].act = Act::Buf(n));
                    let get = |p: &Plan| match &p.callers[i][k].act {
                        Act::File(_, v) => v.clone(),
                        _ => vec![],
                    };
                    ddmin(&mut s, &mut cur, get, |p, v| {
                        if let Act::File(n, _) = p.callers[i][k].act {
                            p.callers[i][k].act = Act::File(n, v);
                        }
                    });
                }
                if let Act::New(o) = cur.callers[i][k].act {
                    let d = Opts::default();
                    let c = [
                        Opts { threads: 1, ..o },
                        Opts { threads: 2, ..o },
                        Opts { threads: o.threads / 2 + 1, ..o },
                        Opts { cs: d.cs, ..o },
                        Opts { strict: false, ..o },
                        Opts { simd: true, ..o },
                        Opts { mw: d.mw, mh: d.mh, ..o },
                        Opts { ms: d.ms, ..o },
                    ];
                    for o in c {
                        s.attempt(&mut cur, |p| {
                            if let Act::New(q) = &mut p.callers[i][k].act {
                                let n = Opts {
                                    threads: q.threads.min(o.threads),
                                    cs: if o.cs == d.cs { d.cs } else { q.cs },
                                    strict: q.strict && o.strict,
                                    simd: q.simd || o.simd,
                                    mw: if o.mw == d.mw { d.mw } else { q.mw },
                                    mh: if o.mh == d.mh { d.mh } else { q.mh },
                                    ms: if o.ms == d.ms { d.ms } else { q.ms },
                                };
                                *q = n;
                            }
                        });
                    }
                }
            }
        }
        // less damage, simpler images
        for i in 0..cur.imgs.len() {
            ddmin(&mut s, &mut cur, |p| p.imgs[i].ops.clone(), |p, v| p.imgs[i].ops = v);
            for _ in 0..8 {
                let mut any = false;
                any |= s.attempt(&mut cur, |p| p.imgs[i].spec.h = (p.imgs[i].spec.h / 2).max(1));
                any |= s.attempt(&mut cur, |p| p.imgs[i].spec.w = (p.imgs[i].spec.w / 2).max(1));
                if !any {
                    break;
                }
            }
            s.attempt(&mut cur, |p| {
                p.imgs[i].spec.prog = false;
                p.imgs[i].spec.upto = 0;
            });
            s.attempt(&mut cur, |p| p.imgs[i].spec.upto = 1);
            s.attempt(&mut cur, |p| {
                p.imgs[i].spec.gray = true;
                p.imgs[i].spec.hs = 1;
                p.imgs[i].spec.vs = 1;
            });
            s.attempt(&mut cur, |p| {
                p.imgs[i].spec.hs = 1;
                p.imgs[i].spec.vs = 1;
            });
            s.attempt(&mut cur, |p| p.imgs[i].spec.ri = 0);
            s.attempt(&mut cur, |p| p.imgs[i].spec.extra = 0);
            s.attempt(&mut cur, |p| p.imgs[i].spec.layout = 0);
            s.attempt(&mut cur, |p| p.imgs[i].spec.huff = 0);
            s.attempt(&mut cur, |p| p.imgs[i].spec.style = 0);
            s.attempt(&mut cur, |p| p.imgs[i].spec.q = 1);
            s.attempt(&mut cur, |p| p.imgs[i].spec.script = 0);
        }
        if cur == before || s.over() {
            break;
        }
    }
    // the schedule as a list of the decisions that matter
    if !matches!(cur.sched, Policy::Def | Policy::Explicit(_)) {
        let v = judge_rec(&cur, true);
        if kind_of(&v) == Some(kind) {
            if let Some(rec) = v.sum.rec {
                let mut c = cur.clone();
                c.sched = Policy::Explicit(rec);
                c.spurious = false;
                if s.fails(&c) {
                    cur = c;
                }
            }
        }
    }
    if matches!(cur.sched, Policy::Explicit(_)) {
        let get = |p: &Plan| match &p.sched {
            Policy::Explicit(v) => v.clone(),
            _ => vec![],
        };
        s.until += std::time::Duration::from_secs(10);
        ddmin(&mut s, &mut cur, get, |p, v| p.sched = Policy::Explicit(v));
    }
    (cur, s.tries)
}
