//! C16 resizing, C17 a reused resizer.
use super::sc;
use crate::explore::*;
use crate::img::*;
use crate::ops::*;
use ezk_image::resize::{FilterType, ResizeAlg, ResizeError, Resizer};
use ezk_image::*;
use PixelFormat::*;

pub const ALGS: [ResizeAlg; 10] = [
    ResizeAlg::Nearest,
    ResizeAlg::Convolution(FilterType::Bilinear),
    ResizeAlg::Convolution(FilterType::Lanczos3),
    ResizeAlg::Interpolation(FilterType::CatmullRom),
    ResizeAlg::SuperSampling(FilterType::Hamming, 2),
    ResizeAlg::Convolution(FilterType::Box),
    ResizeAlg::Convolution(FilterType::Mitchell),
    ResizeAlg::Interpolation(FilterType::Bilinear),
    ResizeAlg::SuperSampling(FilterType::Box, 3),
    ResizeAlg::Convolution(FilterType::Gaussian),
];

/// What the chosen algorithm yields for one plane: the scaling library called directly on the
/// packed samples of that plane, in the plane's own pixel units.
fn scale_plane(alg: ResizeAlg, f: PixelFormat, p: usize, src: &[u16], s: (usize, usize), d: (usize, usize)) -> Vec<u16> {
    use fir::PixelType as T;
    let (unit, ty) = match f {
        RGB | BGR => (3, T::U8x3),
        RGBA | BGRA | YUYV => (4, T::U8x4),
        NV12 if p == 1 => (2, T::U8x2),
        _ if bytes(f) == 2 => (1, T::U16),
        _ => (1, T::U8),
    };
    let b = bytes(f);
    let n = d.0 * d.1;
    // 16 bit buffers have to be aligned
    let mut sb = vec![0u16; (src.len() * b).div_ceil(2).max(1)];
    let mut db = vec![0u16; (n * b).div_ceil(2).max(1)];
    let view = |v: &mut Vec<u16>, len: usize| unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr().cast::<u8>(), len) };
    let sv = view(&mut sb, src.len() * b);
    if b == 1 {
        sv.iter_mut().zip(src).for_each(|(a, v)| *a = *v as u8);
    } else {
        sv.chunks_exact_mut(2).zip(src).for_each(|(a, v)| a.copy_from_slice(&v.to_ne_bytes()));
    }
    let dv = view(&mut db, n * b);
    if s.0 > 0 && s.1 > 0 && d.0 > 0 && d.1 > 0 {
        let si = fir::images::ImageRef::new((s.0 / unit) as u32, s.1 as u32, sv, ty).expect("ENGINE: source view");
        let mut di = fir::images::Image::from_slice_u8((d.0 / unit) as u32, d.1 as u32, dv, ty).expect("ENGINE: destination view");
        let o = fir::ResizeOptions { algorithm: alg, cropping: fir::SrcCropping::None, mul_div_alpha: false };
        fir::Resizer::new().resize(&si, &mut di, Some(&o)).expect("ENGINE: resize");
    }
    if b == 1 {
        dv.iter().map(|v| *v as u16).collect()
    } else {
        dv.chunks_exact(2).map(|v| u16::from_ne_bytes([v[0], v[1]])).collect()
    }
}
fn oracle(alg: ResizeAlg, src: &Img, w: usize, h: usize) -> Img {
    let f = src.f;
    let (gs, gd) = (geom(f, src.w, src.h), geom(f, w, h));
    let mut o = Img::new(f, w, h);
    for p in 0..gs.len() {
        o.planes[p] = scale_plane(alg, f, p, &src.planes[p], gs[p], gd[p]);
    }
    o
}
fn resize(ctx: &mut Ctx, r: &mut Resizer, s: &Placed, d: &Placed, k: usize) -> Result<Result<(), ResizeError>, String> {
    let (sc, dc) = (default_color(s.f), other_color(d.f));
    let r = Sendable(r);
    ctx.call(|| {
        s.with_ref(sc, |s| {
            d.with_mut(dc, |d| {
                let a = Sendable((s, d, r));
                pool(k).install(move || {
                    let (s, d, r) = a.get();
                    r.get().resize(s, d)
                })
            })
        })
    })
    .and_then(|r| r.and_then(|r| r))
}

pub fn c16() -> Vec<Scenario> {
    vec![
        sc("sizes", sizes),
        sc("odd sizes", odd_sizes),
        sc("layouts", layouts),
        sc("algorithms", algorithms),
        sc("same size", same_size),
        sc("constant", constant),
        sc("nearest", nearest),
        sc("different formats", formats),
        sc("empty images", empty),
        sc("unaligned samples", unaligned), sc("large images", super::large::c16)]
}
fn plan(ctx: &mut Ctx, sig: &str, alg: ResizeAlg, src: &Img, sl: &Layout, w: usize, h: usize, dl: &Layout) -> Option<Img> {
    let f = src.f;
    let what = format!("resize {f:?} {}x{} ({}) -> {w}x{h} ({}) {alg:?}", src.w, src.h, sl.name, dl.name);
    let mut s = place(ctx.arena, f, src.w, src.h, sl);
    s.store(src);
    s.snapshot();
    let mut d = place(ctx.arena, f, w, h, dl);
    d.dirty(0x96);
    ctx.stats.compared += 1;
    match resize(ctx, &mut Resizer::new(alg), &s, &d, 2) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => {
            ctx.fail(format!("{sig}:error"), format!("{what}: {e:?}"));
            return None;
        }
        Err(e) => {
            ctx.fail(format!("{sig}:panic"), format!("{what}: {e}"));
            return None;
        }
    }
    if let Err(e) = d.surroundings(dl.fill) {
        ctx.fail(format!("{sig}:surroundings"), format!("{what}: {e}"));
        return None;
    }
    if let Err(e) = s.unchanged() {
        ctx.fail(format!("{sig}:source"), format!("{what}: source {e}"));
        return None;
    }
    let got = d.load();
    ctx.state(got.hash(hash_bytes(0, what.as_bytes())));
    ctx.stats.samples_checked += got.planes.iter().map(|p| p.len() as u64).sum::<u64>();
    Some(got)
}
pub(super) fn exact(ctx: &mut Ctx, sig: &str, alg: ResizeAlg, src: &Img, sl: &Layout, w: usize, h: usize, dl: &Layout) {
    let Some(got) = plan(ctx, sig, alg, src, sl, w, h, dl) else { return };
    let want = oracle(alg, src, w, h);
    if let Some(x) = img_diff(&got, &want) {
        ctx.fail(sig, format!("resize {:?} {}x{} ({}) -> {w}x{h} ({}) {alg:?}: {x} (resized / scaled plane)", src.f, src.w, src.h, sl.name, dl.name));
    }
}
fn sizes(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let m: Vec<usize> = if ctx.thorough { (1..=12).map(|i| 2 * i).collect() } else { vec![2, 4, 6, 8, 16, 18, 34] };
    let (w, h) = (*ctx.pick("width", &m), *ctx.pick("height", &m));
    let (dw, dh) = (*ctx.pick("destination width", &m), *ctx.pick("destination height", &m));
    let alg = *ctx.pick("algorithm", if ctx.deep { &ALGS[..4] } else { &ALGS[..2] });
    if !ctx.thorough && (h > 8 || dh > 8) && (w > 8 || dw > 8) {
        return;
    }
    ctx.note(|| format!("{f:?} {w}x{h} -> {dw}x{dh} {alg:?}"));
    let src = Img::new(f, w, h).fill(noise(f, 121));
    exact(ctx, "sizes", alg, &src, &PACKED, dw, dh, &PACKED);
}
/// Images with an odd number of rows or columns (interleaved chroma has no half pairs).
pub(super) fn odd_ok(f: PixelFormat, w: usize) -> bool {
    w % 2 == 0 || !matches!(f, NV12 | YUYV)
}
fn odd_sizes(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let m: &[usize] = &[1, 2, 3, 5, 8, 9, 17, 33];
    let (w, h) = (*ctx.pick("width", m), *ctx.pick("height", m));
    let (dw, dh) = (*ctx.pick("destination width", m), *ctx.pick("destination height", m));
    let alg = *ctx.pick("algorithm", if ctx.deep { &ALGS[..4] } else { &ALGS[..2] });
    let l = ctx.pick("layout", &[PACKED, LAYOUTS[10].clone()]).clone();
    let (sx, sy) = sub(f);
    // (from a single odd row or column there is no chroma to scale)
    if !odd_ok(f, w) || !odd_ok(f, dw) || w < sx || h < sy {
        return;
    }
    ctx.note(|| format!("{f:?} {w}x{h} ({}) -> {dw}x{dh} {alg:?}", l.name));
    let src = Img::new(f, w, h).fill(noise(f, 127));
    exact(ctx, "sizes", alg, &src, &l, dw, dh, &l);
}
fn layouts(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let sl = ctx.pick("source layout", &SRC_LAYOUTS).clone();
    let dl = ctx.pick("destination layout", LAYOUTS).clone();
    let sz: &[(usize, usize)] = if ctx.thorough { &[(2, 2), (4, 6), (18, 4), (34, 10), (66, 2)] } else { &[(4, 6), (18, 4)] };
    let (w, h) = *ctx.pick("source size", sz);
    let (dw, dh) = *ctx.pick("destination size", sz);
    let alg = *ctx.pick("algorithm", if ctx.thorough { &ALGS[..4] } else { &ALGS[..2] });
    if bytes(f) == 2 && (super::memory::unaligned16(&sl) || super::memory::unaligned16(&dl)) {
        return;
    }
    ctx.note(|| format!("{f:?} {w}x{h} ({}) -> {dw}x{dh} ({}) {alg:?}", sl.name, dl.name));
    let src = Img::new(f, w, h).fill(noise(f, 122));
    exact(ctx, "layouts", alg, &src, &sl, dw, dh, &dl);
}
fn algorithms(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let alg = *ctx.pick("algorithm", &ALGS);
    let sz: &[(usize, usize)] = &[(4, 4), (16, 10), (50, 6), (64, 64)];
    let (w, h) = *ctx.pick("source size", sz);
    let (dw, dh) = *ctx.pick("destination size", sz);
    let sl = ctx.pick("source layout", &[PACKED, LAYOUTS[2].clone(), LAYOUTS[6].clone()]).clone();
    let k = ctx.choose("content", if ctx.thorough { 8 } else { 1 });
    ctx.note(|| format!("{f:?} {w}x{h} ({}) -> {dw}x{dh} {alg:?}", sl.name));
    let src = Img::new(f, w, h).fill(noise(f, 123 + k as u64));
    exact(ctx, "algorithms", alg, &src, &sl, dw, dh, &PACKED);
}
fn same_size(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let sl = ctx.pick("source layout", &SRC_LAYOUTS).clone();
    let dl = ctx.pick("destination layout", LAYOUTS).clone();
    let (w, h) = *ctx.pick("size", &[(2usize, 2usize), (4, 6), (18, 4), (34, 10), (1, 1), (5, 3), (3, 4), (6, 5)]);
    let alg = *ctx.pick("algorithm", if ctx.deep { &ALGS[..] } else { &ALGS[..4] });
    if !odd_ok(f, w) {
        return;
    }
    if bytes(f) == 2 && (super::memory::unaligned16(&sl) || super::memory::unaligned16(&dl)) {
        return;
    }
    ctx.note(|| format!("{f:?} {w}x{h} ({}) -> same size ({}) {alg:?}", sl.name, dl.name));
    let src = Img::new(f, w, h).fill(noise(f, 124));
    let Some(got) = plan(ctx, "same", alg, &src, &sl, w, h, &dl) else { return };
    if let Some(x) = img_diff(&got, &src) {
        ctx.fail("same", format!("resize {f:?} {w}x{h} ({}) to its own size ({}) with {alg:?}: {x}", sl.name, dl.name));
    }
}
fn constant(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let alg = *ctx.pick("algorithm", &ALGS);
    let sz: &[(usize, usize)] = &[(2, 2), (6, 4), (18, 10), (34, 6)];
    let (w, h) = *ctx.pick("source size", sz);
    let (dw, dh) = *ctx.pick("destination size", sz);
    let v = *ctx.pick("value", &[0usize, 1, 2]);
    let m = max(f);
    // a different constant per component
    let mut src = Img::new(f, w, h);
    let val = |c: usize| match v {
        0 => m,
        1 => m / 4 * c as u16,
        _ => m / 3 + 31 * c as u16,
    };
    for y in 0..h {
        for x in 0..w {
            for c in 0..ncomp(f) {
                src.set(x, y, c, val(c));
            }
        }
    }
    ctx.note(|| format!("constant {f:?} {w}x{h} -> {dw}x{dh} {alg:?}"));
    // YUYV is scaled in units of two pixels: the two luma samples of a unit never mix, but stay
    // constant here
    let Some(got) = plan(ctx, "constant", alg, &src, &PACKED, dw, dh, &LAYOUTS[2]) else { return };
    for y in 0..dh {
        for x in 0..dw {
            for c in 0..ncomp(f) {
                if got.get(x, y, c) != val(c) {
                    return ctx.fail("constant", format!("constant {f:?} {w}x{h} -> {dw}x{dh} {alg:?}: component {c} is {} at {x},{y}, was {}", got.get(x, y, c), val(c)));
                }
            }
        }
    }
}
fn nearest(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let sl = ctx.pick("source layout", &[LAYOUTS[6].clone(), LAYOUTS[2].clone(), LAYOUTS[10].clone(), PACKED]).clone();
    let m: Vec<usize> = if ctx.thorough { vec![2, 4, 6, 10, 18, 34] } else { vec![2, 6, 18] };
    let (w, h) = (*ctx.pick("width", &m), *ctx.pick("height", &m));
    let (dw, dh) = (*ctx.pick("destination width", &m), *ctx.pick("destination height", &m));
    let src = Img::new(f, w, h).fill(noise(f, 125));
    ctx.note(|| format!("nearest {f:?} {w}x{h} ({}) -> {dw}x{dh}", sl.name));
    let Some(got) = plan(ctx, "nearest", ResizeAlg::Nearest, &src, &sl, dw, dh, &PACKED) else { return };
    for p in 0..got.planes.len() {
        for (i, v) in got.planes[p].iter().enumerate() {
            if !src.planes[p].contains(v) {
                return ctx.fail("nearest", format!("nearest {f:?} {w}x{h} ({}) -> {dw}x{dh}: plane {p} sample {i} = {v} is not in that plane of the source", sl.name));
            }
        }
    }
}
fn formats(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let alg = *ctx.pick("algorithm", &ALGS[..2]);
    let (w, h) = *ctx.pick("source size", &[(4usize, 4usize), (18, 2), (0, 0)]);
    let (dw, dh) = *ctx.pick("destination size", &[(4usize, 4usize), (8, 2), (0, 2)]);
    if sf == df {
        return;
    }
    ctx.note(|| format!("resize {sf:?} {w}x{h} -> {df:?} {dw}x{dh}"));
    let s = place(ctx.arena, sf, w, h, &PACKED);
    let mut d = place(ctx.arena, df, dw, dh, &LAYOUTS[2]);
    d.dirty(0x96);
    d.snapshot();
    ctx.stats.compared += 1;
    ctx.state(mix(mix(sf as u64, df as u64), (w * 100 + dw) as u64));
    let (a, b) = (s.raw(default_color(sf)), d.raw(default_color(df)));
    let mut b = b;
    match ctx.call(|| Resizer::new(alg).resize(&a, &mut b)) {
        Ok(Err(ResizeError::DifferentFormats(x, y))) if (x, y) == (sf, df) => {}
        r => return ctx.fail("formats", format!("resize {sf:?} -> {df:?}: {r:?}")),
    }
    if let Err(e) = d.unchanged() {
        ctx.fail("formats", format!("resize {sf:?} -> {df:?}: destination {e}"));
    }
}
/// Images without any pixel: nothing to do.
fn empty(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let alg = *ctx.pick("algorithm", &ALGS[..5]);
    let sz: &[(usize, usize)] = &[(4, 4), (0, 4), (4, 0), (0, 0)];
    let (w, h) = *ctx.pick("source size", sz);
    let (dw, dh) = *ctx.pick("destination size", sz);
    let crop = ctx.flag("window of a larger image");
    if w * h * dw * dh > 0 {
        return;
    }
    ctx.note(|| format!("{f:?} {w}x{h} -> {dw}x{dh} {alg:?}, windows {crop}"));
    let l = Layout { kind: if crop { Kind::Crop(2, 2, 2, 2) } else { Kind::Raw }, ..PACKED };
    let s = place(ctx.arena, f, w, h, &l);
    let mut d = place(ctx.arena, f, dw, dh, &l);
    d.dirty(0x96);
    d.snapshot();
    ctx.stats.compared += 1;
    ctx.state(mix(mix(f as u64, (w * 8 + h) as u64), (dw * 8 + dh) as u64));
    let what = format!("resize {f:?} {w}x{h} -> {dw}x{dh} {alg:?} (windows: {crop})");
    match resize(ctx, &mut Resizer::new(alg), &s, &d, 2) {
        Ok(Ok(())) => {}
        r => return ctx.fail("empty", format!("{what}: {r:?}")),
    }
    if let Err(e) = d.unchanged() {
        ctx.fail("empty", format!("{what}: destination {e}"));
    }
}
/// 16-bit samples at odd addresses
fn unaligned(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &[I010, I012, I210, I212, I410, I412]);
    let which = ctx.choose("which", 3);
    let how = ctx.choose("how", 2);
    let (dw, dh) = *ctx.pick("destination size", &[(4usize, 6usize), (18, 4)]);
    let l = if how == 0 { Layout { mis: 1, ..PACKED } } else { Layout { pad: [1, 3, 5], ..PACKED } };
    let sl = if which != 1 { l.clone() } else { PACKED };
    let dl = if which != 0 { l } else { PACKED };
    ctx.note(|| format!("{f:?} 6x4 -> {dw}x{dh}, 16-bit samples at odd addresses"));
    let src = Img::new(f, 6, 4).fill(noise(f, 126));
    exact(ctx, "unaligned", ResizeAlg::Convolution(FilterType::Bilinear), &src, &sl, dw, dh, &dl);
}

// ---- C17 -------------------------------------------------------------------------------------
pub fn c17() -> Vec<Scenario> {
    vec![sc("sequences", sequences), sc("clones", clones), sc("same images again", again), sc("pairs of formats", c17_pairs), sc("large images", super::large::c17), sc("padded images", c17_padded)]
}
#[derive(Clone, Copy, Debug)]
pub(super) struct Op {
    pub(super) f: PixelFormat,
    pub(super) s: (usize, usize),
    pub(super) d: (usize, usize),
    /// destination of another format: fails
    pub(super) wrong: Option<PixelFormat>,
}
const OPS: [Op; 9] = [
    Op { f: I420, s: (8, 8), d: (6, 10), wrong: None },
    Op { f: RGBA, s: (6, 4), d: (10, 8), wrong: None },
    Op { f: I412, s: (10, 4), d: (4, 6), wrong: None },
    Op { f: NV12, s: (18, 6), d: (34, 4), wrong: None },
    Op { f: RGB, s: (34, 2), d: (6, 6), wrong: None },
    Op { f: YUYV, s: (8, 2), d: (12, 4), wrong: None },
    Op { f: I420, s: (2, 2), d: (20, 14), wrong: None },
    Op { f: I420, s: (4, 4), d: (4, 4), wrong: Some(NV12) },
    Op { f: I444, s: (16, 16), d: (16, 16), wrong: None },
];
const REUSE_ALGS: [ResizeAlg; 5] = [
    ResizeAlg::Convolution(FilterType::Bilinear),
    ResizeAlg::Nearest,
    ResizeAlg::Convolution(FilterType::Lanczos3),
    ResizeAlg::SuperSampling(FilterType::Box, 2),
    ResizeAlg::Interpolation(FilterType::Hamming),
];
/// Sequences over shapes of the same area, with rows packed or padded.
fn c17_padded(ctx: &mut Ctx) {
    const SHAPES: [(usize, usize); 6] = [(8, 8), (4, 16), (16, 4), (2, 32), (6, 10), (10, 6)];
    let alg = *ctx.pick("algorithm", &REUSE_ALGS[..if ctx.deep { 5 } else { 2 }]);
    let fs = *ctx.pick("formats", &[(RGB, RGB), (I420, I420), (NV12, I444), (I410, I412)]);
    let layouts = [PACKED, Layout { pad: [6, 2, 4], ..PACKED }, Layout { pad: [12, 12, 12], kind: Kind::Crop(2, 2, 2, 2), ..PACKED }];
    let mut calls = vec![];
    for i in 0..3 {
        let f = if i == 1 { fs.1 } else { fs.0 };
        let s = *ctx.pick("shape", &SHAPES);
        let l = ctx.pick("layout", &layouts).clone();
        // the destination's shape alternates
        let d = SHAPES[(s.0 + i) % SHAPES.len()];
        let m = layouts[i % 2].clone();
        calls.push((Op { f, s, d, wrong: None }, l, m));
    }
    ctx.note(|| format!("{alg:?} {:?}", calls.iter().map(|(o, l, m)| (o, l.pad, l.kind, m.pad)).collect::<Vec<_>>()));
    let mut r = Resizer::new(alg);
    for (i, (op, l, m)) in calls.iter().enumerate() {
        let what = || format!("{alg:?} call {i} of {:?}", calls.iter().map(|(o, l, m)| (o, l.pad, l.kind, m.pad)).collect::<Vec<_>>());
        if !step_in(ctx, &mut r, alg, *op, (l, m), 190 + i as u64, &what) {
            return;
        }
    }
    let h = calls.iter().fold(0, |h, (o, l, m)| hash_bytes(h, format!("{o:?}{:?}{:?}", l.pad, m.pad).as_bytes()));
    ctx.state(h);
}
/// One call with `r`, compared with a fresh resizer and with the plane-wise oracle.
pub(super) fn step(ctx: &mut Ctx, r: &mut Resizer, alg: ResizeAlg, op: Op, seed: u64, what: &dyn Fn() -> String) -> bool {
    step_in(ctx, r, alg, op, (&PACKED, &PACKED), seed, what)
}
fn step_in(ctx: &mut Ctx, r: &mut Resizer, alg: ResizeAlg, op: Op, l: (&Layout, &Layout), seed: u64, what: &dyn Fn() -> String) -> bool {
    ctx.arena.reset();
    let src = Img::new(op.f, op.s.0, op.s.1).fill(noise(op.f, seed));
    let mut s = place(ctx.arena, op.f, op.s.0, op.s.1, l.0);
    s.store(&src);
    let df = op.wrong.unwrap_or(op.f);
    let mut a = place(ctx.arena, df, op.d.0, op.d.1, l.1);
    let mut b = place(ctx.arena, df, op.d.0, op.d.1, l.1);
    a.dirty(0x11);
    b.dirty(0x11);
    let ra = resize(ctx, r, &s, &a, 2);
    let rb = resize(ctx, &mut Resizer::new(alg), &s, &b, 2);
    ctx.stats.compared += 1;
    let same = match (&ra, &rb) {
        (Ok(x), Ok(y)) => x == y,
        _ => false,
    };
    if !same {
        ctx.fail("result", format!("{}: reused {ra:?}, fresh {rb:?}", what()));
        return false;
    }
    let (ia, ib) = (a.load(), b.load());
    if let Some(x) = img_diff(&ia, &ib) {
        ctx.fail("bytes", format!("{}: reused / fresh resizer: {x}", what()));
        return false;
    }
    if op.wrong.is_none() {
        if let Some(x) = img_diff(&ia, &oracle(alg, &src, op.d.0, op.d.1)) {
            ctx.fail("bytes", format!("{}: {x} (resized / scaled plane)", what()));
            return false;
        }
    }
    true
}
fn sequences(ctx: &mut Ctx) {
    let n = if ctx.thorough { 5 } else { 4 };
    let alg = *ctx.pick("algorithm", if ctx.deep { &REUSE_ALGS[..3] } else { &REUSE_ALGS[..2] });
    // quick: 4 calls; thorough: 5 calls
    let mut ops = vec![];
    for _ in 0..n {
        ops.push(*ctx.pick("call", &OPS[..if ctx.thorough { 9 } else { 8 }]));
    }
    ctx.note(|| format!("{alg:?} {ops:?}"));
    let mut r = Resizer::new(alg);
    let mut h = 0;
    for (i, op) in ops.iter().enumerate() {
        h = hash_bytes(h, format!("{op:?}").as_bytes());
        ctx.state(mix(h, i as u64));
        if !step(ctx, &mut r, alg, *op, 130 + i as u64, &|| format!("{alg:?}, call {i} of {ops:?}")) {
            return;
        }
    }
}
/// Calls alternate between a resizer and clones of it.
fn clones(ctx: &mut Ctx) {
    let alg = *ctx.pick("algorithm", &REUSE_ALGS[..if ctx.deep { 5 } else { 2 }]);
    let n = if ctx.deep { 4 } else { 3 };
    let mut rs = vec![Resizer::new(alg)];
    let mut hist = vec![];
    for i in 0..n {
        // clone some resizer first?
        let c = ctx.choose("clone", rs.len() + 1);
        if c < rs.len() {
            let k = rs[c].clone();
            rs.push(k);
        }
        let w = ctx.choose("resizer", rs.len());
        let op = *ctx.pick("call", &OPS[..if ctx.deep { 5 } else { 4 }]);
        hist.push((c, w, op));
        ctx.state(hash_bytes(0, format!("{hist:?}").as_bytes()));
        let mut r = rs.swap_remove(w);
        let ok = step(ctx, &mut r, alg, op, 140 + i as u64, &|| format!("{alg:?}, (clone, resizer, call) {hist:?}"));
        rs.push(r);
        if !ok {
            return;
        }
    }
    ctx.note(|| format!("{alg:?} (clone, resizer, call) {hist:?}"));
}
/// The same call repeated gives the same bytes.
fn again(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let alg = *ctx.pick("algorithm", &ALGS);
    let sz: &[(usize, usize)] = &[(4, 4), (16, 10), (50, 6)];
    let s = *ctx.pick("source size", sz);
    let d = *ctx.pick("destination size", sz);
    ctx.note(|| format!("{f:?} {s:?} -> {d:?} {alg:?} three times"));
    ctx.state(hash_bytes(f as u64, format!("{s:?}{d:?}{alg:?}").as_bytes()));
    let mut r = Resizer::new(alg);
    for i in 0..3 {
        // same size twice with other content, then the first content again
        if !step(ctx, &mut r, alg, Op { f, s, d, wrong: None }, 150 + (i % 2), &|| format!("{alg:?} {f:?} {s:?} -> {d:?}, call {i}")) {
            return;
        }
    }
}
/// Every ordered pair of formats through one resizer, both growing and shrinking.
fn c17_pairs(ctx: &mut Ctx) {
    let (a, b) = pair(ctx.choose("pair", 225));
    let alg = *ctx.pick("algorithm", &REUSE_ALGS);
    let grow = ctx.flag("growing first");
    let (s, d) = if grow { ((4, 4), (18, 10)) } else { ((18, 10), (4, 4)) };
    ctx.note(|| format!("{alg:?} {a:?} {s:?} -> {d:?}, then {b:?} {d:?} -> {s:?}, then {a:?}"));
    ctx.state(hash_bytes(0, format!("{a:?}{b:?}{alg:?}{grow}").as_bytes()));
    let mut r = Resizer::new(alg);
    for (i, op) in [Op { f: a, s, d, wrong: None }, Op { f: b, s: d, d: s, wrong: None }, Op { f: a, s, d, wrong: None }].into_iter().enumerate() {
        if !step(ctx, &mut r, alg, op, 160 + i as u64, &|| format!("{alg:?} {a:?} {s:?} -> {d:?} / {b:?}, call {i}")) {
            return;
        }
    }
}
