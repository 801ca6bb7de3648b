//! Calls into the library, and the alphabets shared by the property scenarios.
use crate::explore::*;
use crate::img::*;
use crate::mem::Flush;
use ezk_image::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use PixelFormat::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Single,
    /// convert_multi_thread on a machine with that many cores
    Multi(usize),
    Copy,
}

thread_local! {
    /// number of CPUs the calling thread pretends to have (0: the real number)
    pub static CPUS: Cell<usize> = const { Cell::new(0) };
    static POOLS: RefCell<HashMap<usize, &'static rayon::ThreadPool>> = RefCell::new(HashMap::new());
}

/// The library asks the operating system for the number of CPUs; this is that question, answered
/// by the explorer.
#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: usize, set: *mut libc::cpu_set_t) -> i32 {
    let n = CPUS.try_with(|c| c.get()).unwrap_or(0);
    if n == 0 {
        let r = libc::syscall(libc::SYS_sched_getaffinity, pid as libc::c_long, size, set);
        if r < 0 {
            return -1;
        }
        let r = r as usize;
        if r < size {
            std::ptr::write_bytes((set as *mut u8).add(r), 0, size - r);
        }
        return 0;
    }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for i in 0..n.min(size * 8) {
        *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
    }
    0
}

pub fn pool(k: usize) -> &'static rayon::ThreadPool {
    POOLS.with(|p| {
        *p.borrow_mut()
            .entry(k)
            .or_insert_with(|| Box::leak(Box::new(rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap())))
    })
}
/// Run `f` inside a rayon pool of `k` threads on a machine that reports `k` CPUs.
pub fn with_cpus<R: Send>(k: usize, f: impl FnOnce() -> R + Send) -> R {
    pool(k).install(|| {
        struct Reset;
        impl Drop for Reset {
            fn drop(&mut self) {
                CPUS.with(|c| c.set(0))
            }
        }
        let _r = Reset;
        CPUS.with(|c| c.set(k));
        f()
    })
}
pub struct Sendable<T>(pub T);
unsafe impl<T> Send for Sendable<T> {}
impl<T> Sendable<T> {
    pub fn get(self) -> T {
        self.0
    }
}

pub fn err_name(e: &ConvertError) -> String {
    match e {
        ConvertError::OddImageDimensions => "OddImageDimensions".into(),
        ConvertError::MismatchedImageSize => "MismatchedImageSize".into(),
        ConvertError::InvalidColorInfo => "InvalidColorInfo".into(),
        e => format!("{e:?}"),
    }
}

pub fn convert_dyn(mode: Mode, s: &dyn ImageRef, d: &mut dyn ImageMut) -> Result<(), String> {
    match mode {
        Mode::Single => convert(s, d),
        Mode::Copy => copy(s, d),
        Mode::Multi(k) => {
            let a = Sendable((s, d));
            with_cpus(k, move || {
                let (s, d) = a.get();
                convert_multi_thread(s, d)
            })
        }
    }
    .map_err(|e| err_name(&e))
}

/// One operation. Outer `Err`: the library panicked (or refused to build the image views);
/// inner `Err`: name of the error it returned.
pub fn run(
    ctx: &mut Ctx,
    mode: Mode,
    s: &Placed,
    sc: ColorInfo,
    d: &Placed,
    dc: ColorInfo,
) -> Result<Result<(), String>, String> {
    ctx.call(|| s.with_ref(sc, |s| d.with_mut(dc, |d| convert_dyn(mode, s, d))))
        .and_then(|r| r.and_then(|r| r))
}

/// Like `run` for requests that must succeed; reports anything else as a failure.
pub fn must(
    ctx: &mut Ctx,
    what: &str,
    mode: Mode,
    s: &Placed,
    sc: ColorInfo,
    d: &Placed,
    dc: ColorInfo,
) -> bool {
    match run(ctx, mode, s, sc, d, dc) {
        Ok(Ok(())) => true,
        Ok(Err(e)) => {
            ctx.fail(format!("{what}:error"), format!("{mode:?} {} -> {}: valid request refused: {e}", head(s), head(d)));
            false
        }
        Err(p) => {
            ctx.fail(format!("{what}:panic"), format!("{mode:?} {} -> {}: {p}", head(s), head(d)));
            false
        }
    }
}
pub fn head(p: &Placed) -> String {
    format!("{:?} {}x{} {:?}", p.f, p.w, p.h, p.kind)
}

/// Simplest possible conversion of a logical image: packed planes, single threaded.
pub fn conv_img(ctx: &mut Ctx, what: &str, src: &Img, sc: ColorInfo, df: PixelFormat, dc: ColorInfo) -> Option<Img> {
    let mut s = place(ctx.arena, src.f, src.w, src.h, &PACKED);
    s.store(src);
    let d = place(ctx.arena, df, src.w, src.h, &PACKED);
    must(ctx, what, Mode::Single, &s, sc, &d, dc).then(|| d.load())
}

// ---- alphabets -------------------------------------------------------------------------------
const fn lay(name: &'static str, pad: [usize; 3], flush: Flush, kind: Kind) -> Layout {
    Layout { name, pad, flush, mis: 0, excess: 0, full_last: true, kind, order: Order::Apart, fill: 0xA5 }
}
/// Ways to present an image.  The first ones are the simplest.
pub const SRC_LAYOUTS: [Layout; 19] = [
    lay("packed,end-guarded", [0; 3], Flush::Right, Kind::Raw),
    lay("packed,start-guarded", [0; 3], Flush::Left, Kind::Raw),
    lay("padded rows", [6, 2, 4], Flush::Right, Kind::Planes),
    Layout { mis: 1, ..lay("odd strides, misaligned", [3, 5, 7], Flush::Left, Kind::Planes) },
    Layout { full_last: false, fill: 0xFF, ..lay("short last row", [32, 2, 10], Flush::Right, Kind::Raw) },
    Layout { excess: 9, mis: 3, ..lay("excess bytes", [0; 3], Flush::Left, Kind::Raw) },
    Layout { excess: 150, ..lay("excess rows", [2, 8, 2], Flush::Right, Kind::Planes) },
    lay("one buffer", [4, 2, 6], Flush::Right, Kind::Whole),
    Layout { fill: 0, ..lay("reference", [0, 2, 4], Flush::Left, Kind::Ref) },
    lay("window", [0; 3], Flush::Right, Kind::Crop(2, 2, 2, 2)),
    Layout { fill: 0xFF, ..lay("window at bottom right", [0; 3], Flush::Right, Kind::Crop(2, 2, 0, 0)) },
    Layout { full_last: false, ..lay("window at bottom right, short last row", [2, 6, 4], Flush::Right, Kind::Crop(4, 2, 0, 0)) },
    lay("window at top left", [8, 2, 2], Flush::Left, Kind::Crop(0, 0, 6, 2)),
    lay("window of window", [0, 2, 0], Flush::Right, Kind::Crop2(6, 4, 2, 2)),
    Layout { order: Order::VFirst, ..lay("V before U", [0; 3], Flush::Right, Kind::Planes) },
    Layout { order: Order::Reverse, full_last: false, ..lay("planes in reverse order", [0, 2, 2], Flush::Left, Kind::Raw) },
    lay("superfluous plane", [0, 4, 4], Flush::Right, Kind::Extra),
    lay("window at odd position", [2; 3], Flush::Right, Kind::Crop(3, 1, 2, 1)),
    Layout { order: Order::Beside, ..lay("chroma rows side by side", [0, 2, 0], Flush::Right, Kind::Planes) },
];
/// Those that a destination may have as well
pub const LAYOUTS: &[Layout] = SRC_LAYOUTS.split_at(18).0;

pub fn pair(i: usize) -> (PixelFormat, PixelFormat) {
    (FORMATS[i / 15], FORMATS[i % 15])
}
/// A second, non-default color of the same family, differing in everything that may differ.
pub fn other_color(f: PixelFormat) -> ColorInfo {
    if is_rgb(f) {
        rgbc(ColorTransfer::SRGB, ColorPrimaries::BT2020)
    } else {
        yuvc(ColorTransfer::SDR, ColorPrimaries::BT2020, ColorSpace::BT2020, false)
    }
}
/// Color infos that select every code path of reader, converter and writer (not every constant).
pub fn path_colors(f: PixelFormat) -> Vec<ColorInfo> {
    use ColorPrimaries::*;
    use ColorTransfer::*;
    if is_rgb(f) {
        vec![rgbc(Linear, BT709), rgbc(SRGB, BT2020)]
    } else {
        vec![
            yuvc(Linear, BT709, ColorSpace::BT709, true),
            yuvc(Linear, BT709, ColorSpace::BT601, false),
            yuvc(SDR, BT2020, ColorSpace::BT2020, false),
            yuvc(BT2100PQ, BT2020, ColorSpace::ICtCpPQ, false),
            yuvc(BT2100HLG, BT2020, ColorSpace::ICtCpHLG, true),
        ]
    }
}
/// Even widths covering every combination of 0..2 full vectors (16 and 32 pixel steps) and every
/// remainder.
pub fn widths() -> Vec<usize> {
    (1..=35).map(|i| i * 2).collect()
}
pub const FEW_WIDTHS: [usize; 10] = [2, 4, 14, 16, 18, 30, 32, 34, 48, 66];
pub const ALL_MODES: [Mode; 4] = [Mode::Single, Mode::Multi(2), Mode::Multi(3), Mode::Copy];
pub const HAS_420: [PixelFormat; 4] = [I420, I010, I012, NV12];

pub fn img_diff(a: &Img, b: &Img) -> Option<String> {
    for p in 0..a.planes.len() {
        if let Some(i) = a.planes[p].iter().zip(&b.planes[p]).position(|(x, y)| x != y) {
            let n = a.cols(p).max(1);
            return Some(format!(
                "plane {p} column {} row {}: {} != {}",
                i % n,
                i / n,
                a.planes[p][i],
                b.planes[p][i]
            ));
        }
    }
    None
}
/// largest absolute difference, per plane position
pub fn max_diff(a: &Img, b: &Img) -> (u16, String) {
    let mut m = 0;
    let mut s = String::new();
    for p in 0..a.planes.len() {
        for (i, (x, y)) in a.planes[p].iter().zip(&b.planes[p]).enumerate() {
            if x.abs_diff(*y) > m {
                m = x.abs_diff(*y);
                let n = a.cols(p).max(1);
                s = format!("plane {p} column {} row {}: {x} != {y}", i % n, i / n);
            }
        }
    }
    (m, s)
}
