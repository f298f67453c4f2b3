//! The processor seam: what run-time feature detection finds. std caches the
//! answer in one static; its place is read from our own symbol table, and the
//! bit of each feature is found by clearing bits and asking.
#![allow(static_mut_refs)]
use std::arch::is_x86_feature_detected;

static mut CACHE: *mut u64 = core::ptr::null_mut();
static mut ORIG: [u64; 3] = [0; 3];
/// word and bit of avx2, avx, sse4.1, ssse3
static mut BITS: [Option<(usize, u32)>; 4] = [None; 4];

fn detected(k: usize) -> bool {
    match k {
        0 => is_x86_feature_detected!("avx2"),
        1 => is_x86_feature_detected!("avx"),
        2 => is_x86_feature_detected!("sse4.1"),
        _ => is_x86_feature_detected!("ssse3"),
    }
}

/// Value of the symbol whose name contains both parts, from a 64-bit ELF file.
fn symbol(elf: &[u8], a: &str, b: &str) -> Option<u64> {
    let u = |o: usize, n: usize| -> Option<u64> {
        let mut v = [0; 8];
        v[..n].copy_from_slice(elf.get(o..o.checked_add(n)?)?);
        Some(u64::from_le_bytes(v))
    };
    if elf.get(..5)? != b"\x7fELF\x02" {
        return None;
    }
    let (sh, size, num) = (u(0x28, 8)? as usize, u(0x3A, 2)? as usize, u(0x3C, 2)? as usize);
    for i in 0..num {
        let s = sh + i * size;
        if u(s + 4, 4)? != 2 {
            continue;
        }
        let (off, len, link) = (u(s + 0x18, 8)? as usize, u(s + 0x20, 8)? as usize, u(s + 0x28, 4)? as usize);
        let names = u(sh + link * size + 0x18, 8)? as usize;
        for y in (off..off + len).step_by(24) {
            // an object, not a function
            if elf.get(y + 4)? & 15 != 1 {
                continue;
            }
            let n = names + u(y, 4)? as usize;
            let e = n + elf.get(n..)?.iter().position(|c| *c == 0)?;
            let name = core::str::from_utf8(&elf[n..e]).unwrap_or("");
            if name.contains(a) && name.contains(b) {
                return u(y + 8, 8);
            }
        }
    }
    None
}

/// Where the executable was loaded.
fn base() -> Option<u64> {
    let m = std::fs::read_to_string("/proc/self/maps").ok()?;
    let exe = std::fs::read_link("/proc/self/exe").ok()?;
    let l = m.lines().find(|l| l.ends_with(exe.to_str().unwrap_or("?")))?;
    u64::from_str_radix(l.split('-').next()?, 16).ok()
}

pub fn install() {
    for k in 0..4 {
        detected(k);
    }
    let Ok(elf) = std::fs::read("/proc/self/exe") else { return };
    let Some(v) = symbol(&elf, "std_detect", "5CACHE") else { return };
    let pie = elf.get(16) == Some(&3);
    let Some(at) = (if pie { base().map(|b| b + v) } else { Some(v) }) else { return };
    unsafe {
        let c = at as *mut u64;
        let words = [c.read_volatile(), c.add(1).read_volatile(), c.add(2).read_volatile()];
        // an initialised cache has the top bit of every word set
        if words.iter().any(|w| w >> 63 != 1) {
            return;
        }
        for k in 0..4 {
            if !detected(k) {
                continue;
            }
            'find: for w in 0..3 {
                for bit in 0..63 {
                    if words[w] >> bit & 1 == 1 {
                        c.add(w).write_volatile(words[w] & !(1 << bit));
                        let gone = !detected(k);
                        c.add(w).write_volatile(words[w]);
                        if gone {
                            BITS[k] = Some((w, bit));
                            break 'find;
                        }
                    }
                }
            }
        }
        CACHE = c;
        ORIG = words;
    }
}

/// 0: everything this machine has, 1: no AVX, 2: no SSE4.1 either
pub fn set(level: i64) {
    unsafe {
        if CACHE.is_null() {
            return;
        }
        let mut w = ORIG;
        let without = match level {
            0 => 0,
            1 => 2,
            _ => 4,
        };
        for b in BITS[..without].iter().flatten() {
            w[b.0] &= !(1 << b.1);
        }
        for (i, w) in w.into_iter().enumerate() {
            CACHE.add(i).write_volatile(w);
        }
    }
}

pub fn works() -> bool {
    unsafe { !CACHE.is_null() && BITS[0].is_some() && BITS[2].is_some() }
}
