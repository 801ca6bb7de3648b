//! The operations, and the scenarios built from them.
use crate::Scenario;
use ezk_image::resize::{FilterType, ResizeAlg, Resizer};
use ezk_image::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use PixelFormat::*;

pub static CPUS: AtomicUsize = AtomicUsize::new(1);
/// The library's question for the number of CPUs, answered by the explorer
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: libc::pid_t, size: usize, set: *mut libc::cpu_set_t) -> i32 {
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for i in 0..CPUS.load(SeqCst).min(size * 8) {
        *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
    }
    0
}

pub fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) ^ 0x5851_F42D
}
fn hash(mut h: u64, b: &[u8]) -> u64 {
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100_0000_01B3);
    }
    h
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Single,
    Multi,
    Copy,
    Nearest,
    Bilinear,
}
#[derive(Clone, Debug)]
pub struct Op {
    tag: &'static str,
    mode: Mode,
    sf: PixelFormat,
    sc: ColorInfo,
    df: PixelFormat,
    dc: ColorInfo,
    w: usize,
    h: usize,
    dw: usize,
    dh: usize,
    crop: bool,
    /// Bytes between the rows of the source and the destination
    pad: [usize; 2],
    /// Resize with a clone of the same resizer as the others instead of a resizer of its own
    clone: bool,
    seed: u64,
    /// The operation whose result alone is the expected one
    pub alone: usize,
}
impl Op {
    pub fn name(&self) -> String {
        let pad = if self.pad == [0; 2] { String::new() } else { format!(", rows padded by {:?}", self.pad) };
        format!("{} (content {}{pad}; {:?} {:?} {}x{} -> {:?} {}x{})", self.tag, self.seed, self.mode, self.sf, self.w, self.h, self.df, self.dw, self.dh)
    }
}

fn bits(f: PixelFormat) -> u32 {
    match f {
        I010 | I210 | I410 => 10,
        I012 | I212 | I412 => 12,
        _ => 8,
    }
}
/// Results carry their kind in the low bits: 0 success, 1 error, 2 panic
pub fn verdict(a: u64, b: u64) -> String {
    let k = |x: u64| if x == u64::MAX { "a crash" } else { ["success", "an error", "a panic", "?"][(x & 3) as usize] };
    if k(a) == k(b) {
        format!("{} with different data", k(a))
    } else {
        format!("{} instead of {}", k(a), k(b))
    }
}

pub struct Work {
    op: &'static Op,
    resizer: Option<Resizer>,
    // u16 for the alignment
    src: Vec<u16>,
    dst: Vec<u16>,
}
const BILINEAR: ResizeAlg = ResizeAlg::Convolution(FilterType::Bilinear);
thread_local! {
    static ORIGINALS: [Resizer; 2] = [Resizer::new(ResizeAlg::Nearest), Resizer::new(BILINEAR)];
}
fn as_bytes(v: &[u16], n: usize) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v.as_ptr().cast(), n) }
}
fn as_bytes_mut(v: &mut [u16], n: usize) -> &mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr().cast(), n) }
}
/// Strides and size of an image in one buffer
fn shape(f: PixelFormat, w: usize, h: usize, pad: usize) -> (Vec<usize>, usize) {
    let s: Vec<usize> = f.packed_strides(w).iter().map(|s| s + pad).collect();
    let rows = |i| if i > 0 && matches!(f, I420 | I010 | I012 | NV12) { h / 2 } else { h };
    let n = s.iter().enumerate().map(|(i, s)| s * rows(i)).sum();
    (s, n)
}
impl Work {
    pub fn new(op: &'static Op) -> Self {
        let (_, ns) = shape(op.sf, op.w, op.h, op.pad[0]);
        let (_, nd) = shape(op.df, op.dw, op.dh, op.pad[1]);
        let mut src = vec![0u16; ns / 2 + 1];
        let mut x = op.seed.wrapping_mul(0x9E37_79B9) + 12345;
        let mut next = || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        if bits(op.sf) > 8 {
            src.iter_mut().for_each(|s| *s = (next() as u16) & ((1 << bits(op.sf)) - 1));
        } else {
            as_bytes_mut(&mut src, ns).iter_mut().for_each(|s| *s = next() as u8);
        }
        let resizer = match op.mode {
            Mode::Nearest if op.clone => Some(ORIGINALS.with(|r| r[0].clone())),
            Mode::Bilinear if op.clone => Some(ORIGINALS.with(|r| r[1].clone())),
            _ => None,
        };
        Work { op, resizer, src, dst: vec![0x5A5A; nd / 2 + 1] }
    }
    pub fn dst_range(&self) -> std::ops::Range<usize> {
        let p = self.dst.as_ptr() as usize;
        p..p + self.dst.len() * 2
    }
    /// Result of the operation and its destination as one number
    pub fn run(&mut self) -> u64 {
        let op = self.op;
        let (ss, ns) = shape(op.sf, op.w, op.h, op.pad[0]);
        let (ds, nd) = shape(op.df, op.dw, op.dh, op.pad[1]);
        let before = self.src.clone();
        let (src, dst, clone) = (&self.src, &mut self.dst, &mut self.resizer);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let s = Image::from_buffer(op.sf, as_bytes(src, ns), Some(ss), op.w, op.h, op.sc).unwrap();
            let mut d = Image::from_buffer(op.df, as_bytes_mut(dst, nd), Some(ds), op.dw, op.dh, op.dc).unwrap();
            let s: Box<dyn ImageRef> = if op.crop {
                Box::new(Cropped::new(s, Window { x: 2, y: 2, width: op.dw, height: op.dh }).unwrap())
            } else {
                Box::new(s)
            };
            match op.mode {
                Mode::Single => convert(&*s, &mut d).map_err(|e| format!("{e:?}")),
                Mode::Multi => convert_multi_thread(&*s, &mut d).map_err(|e| format!("{e:?}")),
                Mode::Copy => copy(&*s, &mut d).map_err(|e| format!("{e:?}")),
                Mode::Nearest => clone.get_or_insert_with(|| Resizer::new(ResizeAlg::Nearest)).resize(&*s, &mut d).map_err(|e| format!("{e:?}")),
                Mode::Bilinear => clone.get_or_insert_with(|| Resizer::new(BILINEAR)).resize(&*s, &mut d).map_err(|e| format!("{e:?}")),
            }
        }));
        let mut h = hash(0xcbf2_9ce4_8422_2325, as_bytes(&self.dst, self.dst.len() * 2));
        h = hash(h, &[(before != self.src) as u8]);
        let k = match r {
            Ok(Ok(())) => 0,
            Ok(Err(e)) => {
                h = hash(h, e.as_bytes());
                1
            }
            Err(_) => 2,
        };
        (h & !3) | k
    }
}

const SRGB709: RgbColorInfo = RgbColorInfo { transfer: ColorTransfer::SRGB, primaries: ColorPrimaries::BT709 };
fn yuv(space: ColorSpace, full_range: bool, transfer: ColorTransfer, primaries: ColorPrimaries) -> ColorInfo {
    ColorInfo::YUV(YuvColorInfo { transfer, primaries, space, full_range })
}

pub fn alphabet(prop: &str, _thorough: bool) -> Vec<Op> {
    use ColorPrimaries as P;
    use ColorSpace as S;
    use ColorTransfer as T;
    let rgb = ColorInfo::RGB(SRGB709);
    let y709 = yuv(S::BT709, true, T::SRGB, P::BT709);
    let base = Op {
        tag: "base",
        mode: Mode::Single,
        sf: RGB,
        sc: rgb,
        df: I444,
        dc: y709,
        w: 2,
        h: 2,
        dw: 2,
        dh: 2,
        crop: false,
        pad: [0; 2],
        clone: false,
        seed: 1,
        alone: 0,
    };
    let mut v = vec![];
    if prop == "C18" {
        let b = || base.clone();
        v = vec![
            b(),
            Op { tag: "space", dc: yuv(S::BT601, true, T::SRGB, P::BT709), ..b() },
            Op { tag: "range", dc: yuv(S::BT709, false, T::SRGB, P::BT709), ..b() },
            Op { tag: "transfer", dc: yuv(S::BT709, true, T::Linear, P::BT709), ..b() },
            Op { tag: "primaries", dc: yuv(S::BT709, true, T::SRGB, P::BT2020), ..b() },
            Op { tag: "12 bits", df: I412, ..b() },
            Op { tag: "subsampled", df: I420, ..b() },
            Op { tag: "BGR", sf: BGR, ..b() },
            Op { tag: "wide", w: 40, dw: 40, h: 4, dh: 4, ..b() },
            Op { tag: "content", seed: 7, ..b() },
            Op { tag: "back", sf: I444, sc: y709, df: RGB, dc: rgb, ..b() },
            Op { tag: "10 bits back, limited", sf: I010, sc: yuv(S::BT709, false, T::SRGB, P::BT709), df: RGBA, dc: rgb, ..b() },
            Op { tag: "ICtCp", dc: yuv(S::ICtCpPQ, false, T::BT2100PQ, P::BT2020), ..b() },
            Op { tag: "error", dc: rgb, ..b() },
            Op { tag: "copy", mode: Mode::Copy, sf: NV12, df: NV12, sc: y709, dc: y709, ..b() },
            Op { tag: "copy out of padded rows", mode: Mode::Copy, sf: RGB, df: RGB, sc: rgb, dc: rgb, h: 4, dh: 4, pad: [6, 0], ..b() },
            Op { tag: "copy into padded rows", mode: Mode::Copy, sf: I010, df: I010, sc: y709, dc: y709, pad: [0, 4], ..b() },
            Op { tag: "same format and color", sf: I422, df: I422, sc: y709, dc: y709, w: 4, dw: 4, pad: [2, 2], ..b() },
            Op { tag: "padded rows", w: 4, dw: 4, pad: [4, 2], ..b() },
            Op { tag: "nearest", mode: Mode::Nearest, sf: I420, df: I420, sc: y709, dc: y709, w: 6, h: 6, dw: 4, dh: 2, ..b() },
            Op { tag: "bilinear", mode: Mode::Bilinear, sf: NV12, df: NV12, sc: y709, dc: y709, w: 4, h: 4, dw: 6, dh: 2, ..b() },
            Op { tag: "crop", crop: true, sf: I420, sc: y709, df: RGB, dc: rgb, w: 8, h: 6, dw: 4, dh: 2, ..b() },
            Op { tag: "threads", mode: Mode::Multi, sf: I010, sc: y709, df: I420, dc: yuv(S::BT601, true, T::SRGB, P::BT709), w: 2, h: 6, dw: 2, dh: 6, ..b() },
        ];
        // all work on different content, those that differ in the colors only on the same one
        for (i, o) in v.iter_mut().enumerate().skip(5).filter(|(_, o)| o.seed == 1) {
            o.seed = 100 + i as u64;
        }
    }
    if prop == "C09" {
        let sizes: &[(usize, usize)] = &[(2, 4), (2, 6), (34, 4)];
        let kinds: [(&'static str, PixelFormat, ColorInfo, PixelFormat, ColorInfo); 8] = [
            ("range", I420, y709, I420, yuv(S::BT709, false, T::SRGB, P::BT709)),
            ("RGB to I420", RGB, rgb, I420, y709),
            ("NV12 to RGBA", NV12, y709, RGBA, rgb),
            ("transfer", I010, y709, YUYV, yuv(S::BT601, false, T::BT2100PQ, P::BT2020)),
            ("I422 to I412", I422, y709, I412, y709),
            ("copy", I444, y709, I444, y709),
            ("invalid color", RGB, rgb, I444, rgb),
            ("invalid source color", NV12, rgb, RGB, rgb),
        ];
        for (tag, sf, sc, df, dc) in kinds {
            for &(w, h) in sizes {
                v.push(Op { tag, mode: Mode::Multi, sf, sc, df, dc, w, h, dw: w, dh: h, ..base.clone() });
            }
        }
        v.push(Op { tag: "sizes", mode: Mode::Multi, dw: 4, ..base.clone() });
        v.push(Op { tag: "odd", mode: Mode::Multi, h: 3, dh: 3, ..base.clone() });
    }
    // the same operations on other content
    if prop == "C18" {
        for i in 0..v.len() {
            v.push(Op { seed: v[i].seed + 1000, ..v[i].clone() });
        }
        // everything a conversion depends on: colors and formats of both sides
        let m = || Op { tag: "one of many", ..base.clone() };
        let ts = [T::Linear, T::Gamma22, T::Gamma28, T::SRGB, T::SDR, T::BT2100PQ, T::BT2100HLG];
        for transfer in ts {
            for primaries in [P::ST240, P::BT709, P::BT2020] {
                let c = yuv(S::BT709, true, transfer, primaries);
                v.push(Op { dc: c, ..m() });
                v.push(Op { sc: ColorInfo::RGB(RgbColorInfo { transfer, primaries }), ..m() });
                v.push(Op { sf: I444, sc: c, df: RGB, dc: rgb, ..m() });
            }
        }
        for space in [S::BT601, S::BT709, S::BT2020, S::ICtCpPQ, S::ICtCpHLG] {
            for range in [false, true] {
                let c = yuv(space, range, T::SRGB, P::BT2020);
                v.push(Op { dc: c, ..m() });
                v.push(Op { sf: I444, sc: c, df: RGB, dc: rgb, ..m() });
            }
        }
        for f in PixelFormat::variants() {
            let c = if matches!(f, RGB | BGR | RGBA | BGRA) { ColorInfo::RGB(RgbColorInfo { transfer: T::Linear, ..SRGB709 }) } else { y709 };
            v.push(Op { df: f, dc: c, ..m() });
            v.push(Op { sf: f, sc: c, df: RGB, dc: rgb, ..m() });
            v.push(Op { sf: f, sc: c, df: f, dc: c, mode: Mode::Copy, ..m() });
            v.push(Op { sf: f, sc: c, df: f, dc: c, mode: Mode::Nearest, dw: 4, ..m() });
        }
    }
    if prop == "C18" {
        // clones of one resizer
        let m = |f, mode, w, h, dw, dh, seed| {
            let c = if f == RGB { rgb } else { y709 };
            let clone = !matches!(mode, Mode::Copy);
            Op { tag: "clone of a resizer", mode, sf: f, sc: c, df: f, dc: c, w, h, dw, dh, clone, seed, ..base.clone() }
        };
        for seed in [3, 4] {
            v.push(m(I420, Mode::Nearest, 6, 6, 4, 2, seed));
            v.push(m(RGB, Mode::Nearest, 3, 3, 5, 4, seed));
            v.push(m(NV12, Mode::Bilinear, 4, 4, 6, 2, seed));
            v.push(m(RGB, Mode::Bilinear, 5, 3, 2, 2, seed));
            v.push(m(I410, Mode::Bilinear, 2, 4, 3, 3, seed));
        }
    }
    // multi-threaded conversion has to do what the single-threaded one does
    let n = v.len();
    for i in 0..n {
        v[i].alone = i;
        if v[i].mode == Mode::Multi {
            v[i].alone = v.len();
            let a = v.len();
            v.push(Op { mode: Mode::Single, alone: a, ..v[i].clone() });
        }
    }
    v
}

pub fn scenarios(prop: &str, ops: &[Op], thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    if prop == "C18" {
        // without the single-threaded twins, which are only there to compare with
        let many = ops.iter().position(|o| o.tag == "one of many").unwrap();
        let clones = ops.iter().position(|o| o.clone).unwrap();
        let end = ops.iter().position(|o| ops.iter().any(|p| p.mode == Mode::Multi && std::ptr::eq(&ops[p.alone], o))).unwrap_or(ops.len());
        // and without those on other content
        let (twin, n, all) = (many / 2, many / 2, clones);
        let two = |prefix, threads, bound| Scenario { prefix, threads, cpus: 2, rayon: 2, watch: false, bound };
        for a in 0..n {
            for b in a..n {
                // a conversion by several threads has too many points for three delays in the quick tier
                let multi = ops[a].mode == Mode::Multi || ops[b].mode == Mode::Multi;
                let bound = if multi && !thorough { 2 } else { 3 };
                v.push(two(vec![], vec![vec![a], vec![b + if a == b { twin } else { 0 }]], bound));
            }
        }
        for a in 0..n {
            // again and again
            v.push(two(vec![a], vec![vec![a + twin, a], vec![a]], 1));
            v.push(two(vec![], vec![vec![a, a + twin, a]], 0));
            // long histories: one operation many times, everything in turn
            v.push(two(vec![a; 300], vec![vec![a + twin]], 0));
            let turn: Vec<usize> = (0..6 * n).map(|i| (a + i * (1 + i / (2 * n) * 2)) % (2 * n)).collect();
            v.push(two(turn, vec![vec![a]], 0));
            // a crowd
            if ops[a].mode != Mode::Multi {
                for k in [5usize, 9, 17] {
                    let each = |i: usize| vec![if i % 2 == 0 { a } else { a + twin }];
                    v.push(two(vec![], (0..k).map(each).collect(), 1));
                }
            }
        }
        for a in clones..end {
            for b in a..end {
                v.push(two(vec![], vec![vec![a], vec![b]], if thorough { 2 } else { 1 }));
                v.push(two(vec![a], vec![vec![b], vec![a]], if thorough { 1 } else { 0 }));
                v.push(two(vec![], vec![vec![a], vec![b], vec![a], vec![b]], if thorough { 1 } else { 0 }));
            }
        }
        // every one after every other one, and all in several orders
        for a in many..all {
            for b in many..all {
                v.push(two(vec![], vec![vec![a, b]], 0));
            }
        }
        for step in [1, 5, 7, 11, 29] {
            let turn: Vec<usize> = (0..4 * (all - many)).map(|i| many + i * step % (all - many)).collect();
            for a in (many..all).step_by(if thorough { 1 } else { 3 }) {
                v.push(two(turn.clone(), vec![vec![a]], 0));
                v.push(two(turn.iter().rev().copied().collect(), vec![vec![a]], 0));
            }
        }
        for k in [8usize, 16] {
            for a in 0..n {
                v.push(two(vec![], (0..k).map(|i| vec![(a + i) % (n - 1)]).collect(), 1));
            }
        }
        for a in 0..n {
            for b in 0..n {
                v.push(two(vec![a], vec![vec![b], vec![a]], if thorough { 2 } else { 1 }));
                v.push(two(vec![], vec![vec![a, b], vec![b, a]], if thorough { 2 } else { 1 }));
            }
        }
        for a in 0..n {
            for b in 0..n {
                for c in 0..n {
                    v.push(two(vec![], vec![vec![a, b, c]], 0));
                    if thorough {
                        for d in 0..n {
                            v.push(two(vec![], vec![vec![a, b, c, d]], 0));
                        }
                        v.push(two(vec![], vec![vec![a], vec![b], vec![c]], 1));
                    }
                }
            }
        }
    }
    if prop == "C09" {
        let n = ops.iter().filter(|o| o.mode == Mode::Multi).count();
        for a in 0..n {
            for (cpus, rayon) in [(2, 2), (3, 2), (2, 1), (3, 3), (8, 3), (1, 2)] {
                v.push(Scenario { prefix: vec![], threads: vec![vec![a]], cpus, rayon, watch: true, bound: if thorough { 3 } else { 2 } });
            }
            for b in a..n {
                v.push(Scenario { prefix: vec![], threads: vec![vec![a], vec![b]], cpus: 2, rayon: 2, watch: false, bound: if thorough { 2 } else { 1 } });
            }
        }
    }
    v
}
