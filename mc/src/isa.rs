//! Choose which of the library's instruction-set paths runs, in one binary: the results of
//! `is_x86_feature_detected!` are cached in a static of std_detect; clearing bits in it makes the
//! library believe that the processor lacks a feature.  Verified through the macro itself.
#[cfg(target_arch = "x86_64")]
pub use x86::*;
#[cfg(not(target_arch = "x86_64"))]
pub use other::*;

#[cfg(not(target_arch = "x86_64"))]
mod other {
    pub fn in_effect() -> &'static str {
        if cfg!(target_arch = "aarch64") { "neon" } else { "scalar" }
    }
    pub fn limit(level: &str) -> Result<(), String> {
        if level == "best" { Ok(()) } else { Err(format!("unknown instruction set {level}")) }
    }
}

#[cfg(target_arch = "x86_64")]
mod x86 {
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

fn symbol_address(pred: impl Fn(&str) -> bool) -> Option<usize> {
    let d = std::fs::read("/proc/self/exe").ok()?;
    let u16_ = |o: usize| Some(u16::from_le_bytes(d.get(o..o + 2)?.try_into().ok()?) as usize);
    let u32_ = |o: usize| Some(u32::from_le_bytes(d.get(o..o + 4)?.try_into().ok()?) as usize);
    let u64_ = |o: usize| Some(u64::from_le_bytes(d.get(o..o + 8)?.try_into().ok()?) as usize);
    let (shoff, shentsize, shnum) = (u64_(0x28)?, u16_(0x3A)?, u16_(0x3C)?);
    let mut found = None;
    let mut me = None;
    for i in 0..shnum {
        let h = shoff + i * shentsize;
        if u32_(h + 4)? != 2 {
            continue; // SHT_SYMTAB
        }
        let (off, size, link) = (u64_(h + 0x18)?, u64_(h + 0x20)?, u32_(h + 0x28)?);
        let stroff = u64_(shoff + link * shentsize + 0x18)?;
        for s in 0..size / 24 {
            let e = off + s * 24;
            let n = stroff + u32_(e)?;
            let len = d[n..].iter().position(|&b| b == 0)?;
            let name = std::str::from_utf8(&d[n..n + len]).unwrap_or("");
            let value = u64_(e + 8)?;
            if name == "mc_isa_anchor" {
                me = Some(value);
            } else if pred(name) {
                found = Some((value, u64_(e + 16)?));
            }
        }
    }
    let (v, _) = found?;
    Some((mc_isa_anchor as *const () as usize).wrapping_sub(me?).wrapping_add(v))
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn mc_isa_anchor() {}

fn avx512() -> bool {
    is_x86_feature_detected!("avx512f")
}
fn avx2() -> bool {
    is_x86_feature_detected!("avx2")
}
fn fma() -> bool {
    is_x86_feature_detected!("fma")
}

pub fn in_effect() -> &'static str {
    if cfg!(feature = "unstable") && avx512() && is_x86_feature_detected!("avx512bw") {
        "avx512"
    } else if avx2() && fma() {
        "avx2"
    } else {
        "scalar"
    }
}

/// Err: the cache could not be found or does not have the expected effect.
pub fn limit(level: &str) -> Result<(), String> {
    let off: Vec<fn() -> bool> = match level {
        "avx512" | "best" => vec![],
        "avx2" => vec![avx512],
        "scalar" => vec![avx512, avx2, fma],
        _ => return Err(format!("unknown instruction set {level}")),
    };
    for f in off {
        if !f() {
            continue;
        }
        let a = symbol_address(|n| n.contains("std_detect") && n.contains("cache") && n.contains("CACHE"))
            .ok_or("std_detect's cache was not found")?;
        // two words are enough for x86; each holds 63 features and the "initialised" bit
        let mut done = false;
        'search: for w in 0..2 {
            let word = unsafe { &*((a + w * 8) as *const AtomicUsize) };
            for b in 0..63 {
                let v = word.load(Relaxed);
                if v & (1 << b) == 0 {
                    continue;
                }
                word.store(v & !(1 << b), Relaxed);
                if !f() {
                    done = true;
                    break 'search;
                }
                word.store(v, Relaxed);
            }
        }
        if !done {
            return Err(format!("no bit of the cache turns the feature off ({level})"));
        }
    }
    Ok(())
}
}
