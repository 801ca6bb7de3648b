//! C01 sizes, strides and inferred planes; C02 image construction.
use super::sc;
use crate::explore::*;
use crate::img::*;
use crate::mem::Flush;
use ezk_image::*;
use PixelFormat::*;

pub fn c01() -> Vec<Scenario> {
    vec![
        sc("sizes", sizes),
        sc("huge sizes", huge),
        sc("infer", infer_planes),
        sc("infer small buffer", infer_small),
        sc("blank", blank),
        sc("format list", format_list),
    ]
}

/// documented size of every plane in bytes: (stride, rows)
fn doc(f: PixelFormat, w: usize, h: usize) -> Vec<(usize, usize)> {
    geom(f, w, h).iter().map(|(c, r)| (c * bytes(f), *r)).collect()
}

fn sizes(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let n = if ctx.thorough { 300 } else { 100 };
    let w = ctx.choose("width", n);
    let (f_, w_) = (f, w);
    ctx.note(|| format!("{f_:?} width {w_}, heights 0..{n}"));
    let d0 = doc(f, w, 1);
    let strides: Vec<usize> = d0.iter().map(|x| x.0).collect();
    match ctx.call(|| (f.packed_strides(w), f.bits_per_component())) {
        Ok((s, b)) => {
            if s != strides {
                ctx.fail("strides", format!("packed_strides({f:?}, {w}) = {s:?}, documented layout has {strides:?}"));
            }
            if b != bits(f) as usize {
                ctx.fail("bits", format!("bits_per_component({f:?}) = {b}"));
            }
        }
        Err(p) => ctx.fail("strides:panic", format!("packed_strides({f:?}, {w}): {p}")),
    }
    for h in 0..n {
        let want: usize = doc(f, w, h).iter().map(|(s, r)| s * r).sum();
        ctx.state(mix(mix(f as u64, w as u64), h as u64));
        ctx.stats.compared += 1;
        match ctx.call(|| f.buffer_size(w, h)) {
            Ok(g) if g == want => {}
            Ok(g) => return ctx.fail("size", format!("buffer_size({f:?}, {w}, {h}) = {g}, documented layout needs {want}")),
            Err(p) => return ctx.fail("size:panic", format!("buffer_size({f:?}, {w}, {h}): {p}")),
        }
    }
}

const B: usize = usize::MAX;
const HUGE: [usize; 31] = [
    0, 1, 2, 3, 4, 5, 1920, 1 << 16, 1 << 31, (1 << 32) - 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2,
    1 << 33, 1 << 40, B / 12, B / 6, B / 4 - 1, B / 4, B / 4 + 1, B / 3, B / 3 + 1, B / 2 - 1, B / 2, B / 2 + 1,
    B / 2 + 2, B - 3, B - 2, B - 1, B,
];

fn huge(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let w = *ctx.pick("width", &HUGE);
    let h = *ctx.pick("height", &HUGE);
    ctx.note(|| format!("{f:?} {w}x{h}"));
    ctx.state(mix(mix(f as u64, w as u64), h as u64));
    // exact plane geometry in wide arithmetic
    let cols: Vec<(u128, u128)> = match nplanes(f) {
        _ if matches!(f, RGB | BGR) => vec![(w as u128 * 3, h as u128)],
        _ if matches!(f, RGBA | BGRA) => vec![(w as u128 * 4, h as u128)],
        _ if f == YUYV => vec![(w as u128 * 2, h as u128)],
        2 => vec![(w as u128, h as u128), (w as u128, h as u128 / 2)],
        _ => {
            let (sx, sy) = sub(f);
            let c = (w as u128 / sx as u128, h as u128 / sy as u128);
            vec![(w as u128, h as u128), c, c]
        }
    };
    let b = bytes(f) as u128;
    let rows_fit = cols.iter().all(|(c, _)| c * b <= B as u128);
    let total: u128 = cols.iter().fold(0u128, |a, (c, r)| a.saturating_add((c * b).saturating_mul(*r)));
    ctx.stats.compared += 2;
    if let Ok(g) = ctx.call(|| f.buffer_size(w, h)) {
        if g as u128 != total {
            ctx.fail("size-overflow", format!("buffer_size({f:?}, {w}, {h}) = {g}, exact size is {total}"));
        }
    } else if total <= B as u128 && rows_fit {
        ctx.fail("size-refused", format!("buffer_size({f:?}, {w}, {h}) panicked although {total} bytes fit"));
    }
    if let Ok(s) = ctx.call(|| f.packed_strides(w)) {
        if s.len() != cols.len() || s.iter().zip(&cols).any(|(g, c)| *g as u128 != c.0 * b) {
            ctx.fail("stride-overflow", format!("packed_strides({f:?}, {w}) = {s:?}, exact {cols:?} x {b}"));
        }
    } else if rows_fit {
        ctx.fail("stride-refused", format!("packed_strides({f:?}, {w}) panicked although the rows fit"));
    }
}

fn infer_any<S: AnySlice>(which: usize, f: PixelFormat, buf: S, w: usize, h: usize, st: Option<&[usize]>) -> Vec<S> {
    if which == 0 {
        return infer(f, buf, w, h, st).collect();
    }
    match f {
        I420 => infer_i420(buf, w, h, st).into(),
        I422 => infer_i422(buf, w, h, st).into(),
        I444 => infer_i444(buf, w, h, st).into(),
        I010 | I012 => infer_i01x(buf, w, h, st).into(),
        I210 | I212 => infer_i21x(buf, w, h, st).into(),
        I410 | I412 => infer_i41x(buf, w, h, st).into(),
        NV12 => infer_nv12(buf, w, h, st).into(),
        _ => infer(f, buf, w, h, st).collect(),
    }
}

fn infer_planes(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let which = ctx.choose("function", 2);
    let mutable = ctx.flag("mutable");
    let n = if ctx.thorough { 40 } else { 14 };
    let w = 1 + ctx.choose("width", n);
    let h = 1 + ctx.choose("height", n);
    let pads: &[Option<[usize; 3]>] =
        &[None, Some([0; 3]), Some([1, 0, 0]), Some([0, 1, 0]), Some([0, 0, 1]), Some([7, 3, 5]), Some([2, 64, 9])];
    let pad = *ctx.pick("padding", pads);
    let extra = *ctx.pick("extra bytes", &[0usize, 1, 1000]);
    ctx.note(|| format!("{f:?} {w}x{h} padding {pad:?} extra {extra} mutable {mutable}"));
    let d = doc(f, w, h);
    let strides: Vec<usize> = d.iter().enumerate().map(|(i, x)| x.0 + pad.map_or(0, |p| p[i])).collect();
    let total: usize = strides.iter().zip(&d).map(|(s, x)| s * x.1).sum();
    let b = ctx.arena.take(total + extra, Flush::Right, 0, 0);
    let st = pad.map(|_| &strides[..]);
    let r: Result<Vec<(usize, usize)>, String> = if mutable {
        ctx.call(|| infer_any(which, f, b.slice_mut(), w, h, st).iter().map(|s| (s.as_ptr() as usize, s.len())).collect())
    } else {
        ctx.call(|| infer_any(which, f, b.slice(), w, h, st).iter().map(|s| (s.as_ptr() as usize, s.len())).collect())
    };
    ctx.stats.compared += 1;
    let p = match r {
        Ok(p) => p,
        Err(p) => return ctx.fail("infer:panic", format!("infer({f:?}, {} bytes, {w}x{h}, {st:?}): {p}", total + extra)),
    };
    ctx.state(mix(mix(mix(f as u64, w as u64), h as u64), strides.iter().fold(0, |a, s| mix(a, *s as u64))));
    if p.len() != d.len() {
        return ctx.fail("infer:count", format!("infer({f:?}) returned {} planes", p.len()));
    }
    let mut off = 0;
    for (i, (ptr, len)) in p.iter().enumerate() {
        let want = strides[i] * d[i].1;
        let last = i + 1 == d.len();
        // the last plane may or may not include the bytes after it
        if *ptr - b.ptr as usize != off || !(*len == want || last && *len == want + extra) {
            return ctx.fail(
                "infer:place",
                format!(
                    "infer({f:?}, {w}x{h}, {st:?}): plane {i} at {}+{len}, expected {off}+{want}",
                    (*ptr).wrapping_sub(b.ptr as usize) as isize
                ),
            );
        }
        off += want;
    }
}

/// A buffer that cannot hold the planes must not be split into planes that look complete.
fn infer_small(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS[..10]);
    let which = ctx.choose("function", 2);
    let w = *ctx.pick("width", &[2usize, 4, 6, 16]);
    let h = *ctx.pick("height", &[2usize, 4, 6]);
    let d = doc(f, w, h);
    let total: usize = d.iter().map(|x| x.0 * x.1).sum();
    let missing = 1 + ctx.choose("missing", total);
    ctx.note(|| format!("{f:?} {w}x{h} in {} of {total} bytes", total - missing));
    let b = ctx.arena.take(total - missing, Flush::Right, 0, 0);
    let r = ctx.call(|| infer_any(which, f, b.slice(), w, h, None).iter().map(|s| s.len()).collect::<Vec<_>>());
    ctx.stats.compared += 1;
    ctx.state(mix(mix(mix(f as u64, w as u64), h as u64), missing as u64));
    if let Ok(p) = r {
        let sum: usize = p.iter().sum();
        if sum > total - missing {
            ctx.fail("infer:small", format!("infer({f:?}, {w}x{h}) made planes of {p:?} bytes from {} bytes", total - missing));
        }
    }
}

fn blank(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let w = ctx.choose("width", 40);
    let h = ctx.choose("height", 20);
    let c = default_color(f);
    ctx.note(|| format!("blank {f:?} {w}x{h}"));
    ctx.state(mix(mix(f as u64, w as u64), h as u64));
    let d = doc(f, w, h);
    let r = ctx.call(|| {
        let mut i = Image::blank(f, w, h, c);
        let a = (i.format(), i.width(), i.height(), i.color());
        let p: Vec<(usize, usize, bool)> = i.planes().map(|(p, s)| (p.len(), s, p.iter().all(|b| *b == 0))).collect();
        let q: Vec<(usize, usize)> = i.planes_mut().map(|(p, s)| (p.len(), s)).collect();
        let b = i.bounds_check().is_ok();
        (a, p, q, b)
    });
    ctx.stats.compared += 1;
    match r {
        Err(p) => ctx.fail("blank:panic", format!("blank({f:?}, {w}, {h}): {p}")),
        Ok((a, p, q, b)) => {
            let want: Vec<(usize, usize, bool)> = d.iter().map(|(s, r)| (s * r, *s, true)).collect();
            let wq: Vec<(usize, usize)> = d.iter().map(|(s, r)| (s * r, *s)).collect();
            if a != (f, w, h, c) || p != want || q != wq || !b {
                ctx.fail("blank", format!("blank({f:?}, {w}, {h}): {a:?} planes {p:?} {q:?} bounds {b}"));
            }
        }
    }
}

fn format_list(ctx: &mut Ctx) {
    ctx.note(|| "PixelFormat::variants()".into());
    let r = ctx.call(|| PixelFormat::variants().into_iter().collect::<Vec<_>>());
    ctx.stats.compared += 1;
    match r {
        Ok(v) => {
            let mut a = v.clone();
            a.sort();
            a.dedup();
            if a.len() != 15 || v.len() != 15 {
                ctx.fail("variants", format!("variants() = {v:?}"));
            }
        }
        Err(p) => ctx.fail("variants:panic", p),
    }
}

// ---- C02 -------------------------------------------------------------------------------------
pub fn c02() -> Vec<Scenario> {
    vec![
        sc("planes", planes),
        sc("two deviations", planes2),
        sc("one buffer", buffer),
        sc("stride counts", counts),
        sc("views", views),
        sc("huge", huge_geometry),
    ]
}

#[derive(Debug, PartialEq, Clone)]
enum Problem {
    Dimensions,
    Planes,
    Stride(usize),
    Size(usize),
    Other(String),
}
fn problem(e: &ImageError) -> Problem {
    match e {
        ImageError::InvalidDimensions => Problem::Dimensions,
        ImageError::BoundsCheck(b) => bproblem(b),
        #[allow(unreachable_patterns)]
        e => Problem::Other(format!("{e:?}")),
    }
}
fn bproblem(b: &BoundsCheckError) -> Problem {
    match b {
        BoundsCheckError::InvalidNumberOfPlanes(_) => Problem::Planes,
        BoundsCheckError::InvalidStride { plane, .. } => Problem::Stride(*plane),
        BoundsCheckError::InvalidPlaneSize { plane, .. } => Problem::Size(*plane),
        #[allow(unreachable_patterns)]
        e => Problem::Other(format!("{e:?}")),
    }
}
/// A reported problem whose numbers have to be the actual ones too.
fn named(e: &BoundsCheckError, d: &[(usize, usize)], g: &[(usize, usize)]) -> Problem {
    let ok = match e {
        BoundsCheckError::InvalidNumberOfPlanes(n) => n.expected == d.len() && n.got == g.len().min(d.len()),
        BoundsCheckError::InvalidStride { plane, minimum, got } => {
            *plane < d.len() && *minimum == d[*plane].0 && *got == g[*plane].1
        }
        BoundsCheckError::InvalidPlaneSize { plane, minimum, got } => {
            *plane < d.len() && *minimum == need(g[*plane].1, d[*plane].0, d[*plane].1) && *got == g[*plane].0
        }
        #[allow(unreachable_patterns)]
        _ => true,
    };
    if ok { bproblem(e) } else { Problem::Other(format!("{e:?}")) }
}
/// needed bytes of a plane when only the visible part of the last row counts
fn need(stride: usize, packed: usize, rows: usize) -> usize {
    if rows == 0 {
        0
    } else {
        stride * (rows - 1) + packed
    }
}
/// All actual problems of the geometry; empty: must be accepted.
fn problems(f: PixelFormat, w: usize, h: usize, planes: &[(usize, usize)]) -> Vec<Problem> {
    let mut v = vec![];
    if w == 0 || h == 0 {
        v.push(Problem::Dimensions);
    }
    let d = doc(f, w, h);
    if planes.len() < d.len() {
        v.push(Problem::Planes);
    }
    for (i, (len, stride)) in planes.iter().enumerate().take(d.len()) {
        if *stride < d[i].0 {
            v.push(Problem::Stride(i));
        }
        if *len < need(*stride, d[i].0, d[i].1) {
            v.push(Problem::Size(i));
        }
    }
    v
}

fn judge(
    ctx: &mut Ctx,
    what: &str,
    r: Result<Result<Vec<(usize, usize, usize)>, Problem>, String>,
    want: &[Problem],
    planes: &[(usize, usize, usize)],
) {
    ctx.stats.compared += 1;
    match r {
        Err(p) => ctx.fail("construct:panic", format!("{what}: {p}")),
        Ok(Ok(got)) => {
            if !want.is_empty() {
                ctx.fail("construct:accepted", format!("{what}: accepted, but {want:?}"));
            } else if got != planes {
                ctx.fail("construct:planes", format!("{what}: planes (pointer, length, stride) {got:?} instead of {planes:?}"));
            }
        }
        Ok(Err(p)) => {
            if want.is_empty() {
                ctx.fail("construct:refused", format!("{what}: refused with {p:?}, but the geometry fits"));
            } else if !want.contains(&p) {
                ctx.fail("construct:wrong-error", format!("{what}: reported {p:?}, actual problems {want:?}"));
            }
        }
    }
}

const DIMS: [usize; 9] = [0, 1, 2, 3, 4, 5, 6, 8, 16];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dev {
    Keep,
    StrideZero,
    StrideMinusOne,
    StridePlusOne,
    StrideDouble,
    LenZero,
    LenMinusOne,
    LenPlusOne,
    LenMinusRow,
    LenVisibleOnly,
    LenVisibleMinusOne,
    LenHalf,
}
use Dev::*;
const DEVS: [Dev; 12] = [
    Keep, StrideZero, StrideMinusOne, StridePlusOne, StrideDouble, LenZero, LenMinusOne, LenPlusOne, LenMinusRow,
    LenVisibleOnly, LenVisibleMinusOne, LenHalf,
];
/// (length, stride) of a plane whose fitting geometry is (packed, rows) with row padding `pad`
fn deviate(dev: Dev, packed: usize, rows: usize, pad: usize) -> (usize, usize) {
    let s = packed + pad;
    let n = s * rows;
    match dev {
        Keep => (n, s),
        StrideZero => (n, 0),
        StrideMinusOne => (n, packed.saturating_sub(1)),
        StridePlusOne => (n, s + 1),
        StrideDouble => (n, 2 * s),
        LenZero => (0, s),
        LenMinusOne => (n.saturating_sub(1), s),
        LenPlusOne => (n + 1, s),
        LenMinusRow => (n.saturating_sub(s), s),
        LenVisibleOnly => (need(s, packed, rows), s),
        LenVisibleMinusOne => (need(s, packed, rows).saturating_sub(1), s),
        LenHalf => (n / 2, s),
    }
}

fn build_planes(ctx: &mut Ctx, f: PixelFormat, w: usize, h: usize, g: &[(usize, usize)], how: usize, pass_strides: bool) {
    // g: (length, stride) per plane
    let c = other_color(f);
    let bufs: Vec<_> = g.iter().map(|(n, _)| ctx.arena.take(*n, Flush::Right, 0, 0)).collect();
    let strides: Vec<usize> = g.iter().map(|x| x.1).collect();
    let st = pass_strides.then(|| strides.clone());
    let want = problems(f, w, h, g);
    let n = nplanes(f).min(g.len());
    let pl: Vec<(usize, usize, usize)> = (0..n).map(|i| (bufs[i].ptr as usize, bufs[i].len, strides[i])).collect();
    let what = format!("{} {f:?} {w}x{h} (length, stride) {g:?}", ["from_planes(&[u8])", "from_planes(&mut [u8])", "ImageRef::bounds_check"][how]);
    ctx.note(|| what.clone());
    ctx.state(mix(mix(mix(f as u64, w as u64), h as u64), g.iter().fold(how as u64, |a, x| mix(mix(a, x.0 as u64), x.1 as u64))));
    let d = doc(f, w, h);
    let problem = |e: &ImageError| match e {
        ImageError::BoundsCheck(b) => named(b, &d, g),
        e => problem(e),
    };
    let look = |i: &dyn ImageRef| -> Result<Vec<(usize, usize, usize)>, Problem> {
        if i.format() != f || i.width() != w || i.height() != h || i.color() != c {
            return Err(Problem::Other(format!("reports {:?} {}x{} {:?}", i.format(), i.width(), i.height(), i.color())));
        }
        Ok(i.planes().take(n).map(|(p, s)| (p.as_ptr() as usize, p.len(), s)).collect())
    };
    let r = match how {
        0 => ctx.call(|| {
            Image::from_planes(f, bufs.iter().map(|b| b.slice()).collect(), st, w, h, c)
                .map_err(|e| problem(&e))
                .and_then(|i| look(&i))
        }),
        1 => ctx.call(|| {
            Image::from_planes(f, bufs.iter().map(|b| b.slice_mut()).collect(), st, w, h, c)
                .map_err(|e| problem(&e))
                .and_then(|mut i| {
                    let m: Vec<_> = i.planes_mut().take(n).map(|(p, s)| (p.as_ptr() as usize, p.len(), s)).collect();
                    let r = look(&i)?;
                    if r != m {
                        return Err(Problem::Other(format!("planes_mut {m:?} differs from planes {r:?}")));
                    }
                    Ok(r)
                })
        }),
        _ => {
            let raw = Raw { f, w, h, color: c, planes: bufs.iter().copied().zip(strides.iter().copied()).collect() };
            ctx.call(|| match raw.bounds_check() {
                Ok(()) => look(&raw),
                Err(e) => Err(named(&e, &d, g)),
            })
        }
    };
    if how == 2 && (w == 0 || h == 0) {
        // an empty image has no samples that could be missing: only "no panic" is demanded
        ctx.stats.compared += 1;
        if let Err(p) = r {
            ctx.fail("construct:panic", format!("{what}: {p}"));
        }
        return;
    }
    judge(ctx, &what, r, &want, &pl);
}
use crate::ops::other_color;

/// One plane deviates from a fitting geometry (with and without row padding).
fn planes(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let how = ctx.choose("constructor", 3);
    let w = *ctx.pick("width", &DIMS);
    let h = *ctx.pick("height", &DIMS);
    let d = doc(f, w, h);
    let p = ctx.choose("plane", d.len());
    let dev = *ctx.pick("deviation", &DEVS);
    let pad = *ctx.pick("padding", &[0usize, 1, 6, 32]);
    let strides = pad != 0 || dev != Keep || ctx.flag("explicit strides");
    let g: Vec<(usize, usize)> = d
        .iter()
        .enumerate()
        .map(|(i, (s, r))| deviate(if i == p { dev } else { Keep }, *s, *r, pad))
        .collect();
    build_planes(ctx, f, w, h, &g, how, strides);
}

/// Two planes deviate at once.
fn planes2(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS[..10]);
    let how = ctx.choose("constructor", 3);
    let (w, h) = *ctx.pick("size", &[(2usize, 2usize), (4, 4), (6, 2), (3, 5), (16, 6)]);
    let d = doc(f, w, h);
    let p = ctx.choose("plane", d.len());
    let q = ctx.choose("other plane", d.len());
    let a = *ctx.pick("deviation", &DEVS);
    let b = *ctx.pick("other deviation", &DEVS);
    let g: Vec<(usize, usize)> = d
        .iter()
        .enumerate()
        .map(|(i, (s, r))| deviate(if i == p { a } else if i == q { b } else { Keep }, *s, *r, 2))
        .collect();
    build_planes(ctx, f, w, h, &g, how, true);
}

/// from_buffer: every buffer length around the needed one, explicit strides deviating.
fn buffer(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let owned = ctx.choose("buffer type", 3);
    let w = *ctx.pick("width", &DIMS);
    let h = *ctx.pick("height", &DIMS[..7]);
    let d = doc(f, w, h);
    let p = ctx.choose("plane", d.len());
    let ds = *ctx.pick("stride", &[Keep, StrideZero, StrideMinusOne, StridePlusOne]);
    let pad = *ctx.pick("padding", &[0usize, 3, 16]);
    let explicit = pad != 0 || ds != Keep || ctx.flag("explicit strides");
    let strides: Vec<usize> =
        d.iter().enumerate().map(|(i, (s, r))| deviate(if i == p { ds } else { Keep }, *s, *r, pad).1).collect();
    let n = d.len();
    // the planes follow each other at their strides; the last one needs its visible part only
    let full: usize = (0..n).map(|i| strides[i] * d[i].1).sum();
    let min: usize = full - strides[n - 1] * d[n - 1].1 + need(strides[n - 1], d[n - 1].0, d[n - 1].1);
    let mut lens = vec![full, full + 1, full + 77, min, 0, 1];
    for k in 1..4 {
        lens.push(min.saturating_sub(k));
    }
    lens.push(full / 2);
    let mut cut = 0;
    for i in 0..n {
        cut += strides[i] * d[i].1;
        lens.push(cut);
        lens.push(cut.saturating_sub(1));
    }
    let len = *ctx.pick("length", &lens);
    let c = default_color(f);
    let b = ctx.arena.take(len, Flush::Right, 0, 0);
    let st = explicit.then(|| strides.clone());
    let what = format!("from_buffer({f:?}, {len} bytes, strides {st:?}, {w}x{h})");
    ctx.note(|| what.clone());
    ctx.state(mix(mix(mix(f as u64, w as u64), h as u64), strides.iter().fold(len as u64, |a, x| mix(a, *x as u64))));
    // what is missing: the first plane that does not fit and all following ones
    let mut want = vec![];
    if w == 0 || h == 0 {
        want.push(Problem::Dimensions);
    }
    let mut off = 0;
    let mut pl = vec![];
    let mut either = false;
    let void = (0..n).all(|i| i == 0 || d[i].0 * d[i].1 == 0);
    for i in 0..n {
        if strides[i] < d[i].0 {
            want.push(Problem::Stride(i));
        }
        let nd = if i + 1 < n { strides[i] * d[i].1 } else { need(strides[i], d[i].0, d[i].1) };
        if off + nd > len {
            // planes without any samples (chroma of 1 pixel wide images) need no bytes
            let fits = void && (i > 0 || need(strides[i], d[i].0, d[i].1) <= len);
            if fits {
                either = true
            } else {
                want.push(Problem::Size(i));
            }
        }
        pl.push((b.ptr as usize + off, strides[i]));
        off += strides[i] * d[i].1;
    }
    type R = Result<Vec<(usize, usize, usize)>, Problem>;
    let look = |i: &dyn ImageRef| -> R {
        if i.format() != f || i.width() != w || i.height() != h || i.color() != c {
            return Err(Problem::Other(format!("reports {:?} {}x{} {:?}", i.format(), i.width(), i.height(), i.color())));
        }
        Ok(i.planes().map(|(p, s)| (p.as_ptr() as usize, p.len(), s)).collect())
    };
    let r = match owned {
        0 => ctx.call(|| Image::from_buffer(f, b.slice(), st, w, h, c).map_err(|e| problem(&e)).and_then(|i| look(&i))),
        1 => ctx.call(|| {
            Image::from_buffer(f, b.slice_mut(), st, w, h, c).map_err(|e| problem(&e)).and_then(|mut i| {
                let m: Vec<_> = i.planes_mut().map(|(p, s)| (p.as_ptr() as usize, p.len(), s)).collect();
                let r = look(&i)?;
                if m != r {
                    return Err(Problem::Other(format!("planes_mut {m:?} differs from planes {r:?}")));
                }
                Ok(r)
            })
        }),
        _ => {
            // an owned buffer lives elsewhere
            let v = b.slice().to_vec();
            let base = v.as_ptr() as usize;
            let at = b.ptr as usize;
            ctx.call(move || {
                let mut i = Image::from_buffer(f, v, st, w, h, c).map_err(|e| problem(&e))?;
                let k = i.planes_mut().count();
                let r = look(&i)?;
                if k != r.len() {
                    return Err(Problem::Other("planes_mut count".into()));
                }
                Ok(r.into_iter().map(|(p, l, s)| (p.wrapping_sub(base).wrapping_add(at), l, s)).collect())
            })
        }
    };
    ctx.stats.compared += 1;
    match r {
        Err(p) => ctx.fail("buffer:panic", format!("{what}: {p}")),
        Ok(Err(p)) => {
            if want.is_empty() && either {
            } else if want.is_empty() {
                ctx.fail("buffer:refused", format!("{what}: refused with {p:?}, but the geometry fits"));
            } else if !want.contains(&p) {
                ctx.fail("buffer:wrong-error", format!("{what}: reported {p:?}, actual problems {want:?}"));
            }
        }
        Ok(Ok(got)) => {
            if !want.is_empty() {
                return ctx.fail("buffer:accepted", format!("{what}: accepted, but {want:?}"));
            }
            let ok = got.len() == n
                && (0..n).all(|i| {
                    let (p, l, s) = got[i];
                    (void && i > 0 || p == pl[i].0)
                        && s == pl[i].1
                        && l >= need(s, d[i].0, d[i].1)
                        && p + l <= b.ptr as usize + len
                        && (void || i + 1 == n || l == s * d[i].1)
                });
            if !ok {
                ctx.fail("buffer:planes", format!("{what}: planes {got:?}, expected (pointer, stride) {pl:?}"));
            }
        }
    }
}

/// Too few or too many planes and strides.
fn counts(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let (w, h) = *ctx.pick("size", &[(2usize, 2usize), (4, 2), (5, 3), (16, 8)]);
    let d = doc(f, w, h);
    let n = d.len();
    let np = ctx.choose("planes", n + 2);
    let ns = ctx.choose("strides", n + 3); // the last one: no strides given
    let whole = ctx.flag("one buffer");
    let c = default_color(f);
    // what a superfluous stride holds does not matter
    let junk = [d[n - 1].0, 0, 1, usize::MAX][ctx.choose("superfluous stride", if ns == n + 1 { 4 } else { 1 })];
    let st: Option<Vec<usize>> =
        if ns == n + 2 { None } else { Some((0..ns).map(|i| if i < n { d[i].0 } else { junk }).collect()) };
    let nst = st.as_ref().map_or(n, |s| s.len());
    let what = format!("{f:?} {w}x{h} with {np} planes, strides {st:?}, one buffer {whole}");
    ctx.note(|| what.clone());
    ctx.state(mix(mix(mix(f as u64, np as u64), ns as u64), mix(junk as u64, w as u64 * 2 + whole as u64)));
    let bufs: Vec<_> = (0..np).map(|i| { let (s, r) = d[i.min(n - 1)]; ctx.arena.take(s * r, Flush::Right, 0, 0) }).collect();
    let total = d.iter().map(|x| x.0 * x.1).sum();
    let one = ctx.arena.take(total, Flush::Right, 0, 0);
    let ok = nst >= n && (whole || np >= n);
    let look = |i: &dyn ImageRef| -> Vec<(usize, usize)> { i.planes().take(n).map(|(p, s)| (p.as_ptr() as usize, s)).collect() };
    let r: Result<Result<Vec<(usize, usize)>, Problem>, String> = ctx.call(|| {
        if whole {
            Image::from_buffer(f, one.slice(), st, w, h, c).map_err(|e| problem(&e)).map(|i| look(&i))
        } else {
            let p = bufs.iter().map(|b| b.slice()).collect();
            Image::from_planes(f, p, st, w, h, c).map_err(|e| problem(&e)).map(|i| look(&i))
        }
    });
    ctx.stats.compared += 1;
    let mut off = 0;
    let want: Vec<(usize, usize)> = (0..n)
        .map(|i| {
            let at = if whole { one.ptr as usize + off } else { bufs.get(i).map_or(0, |b| b.ptr as usize) };
            off += d[i].0 * d[i].1;
            (at, d[i].0)
        })
        .collect();
    match r {
        Err(p) => ctx.fail("counts:panic", format!("{what}: {p}")),
        Ok(Ok(k)) if ok && k == want => {}
        Ok(Err(Problem::Planes)) if !ok => {}
        Ok(x) => ctx.fail("counts", format!("{what}: (address, stride) {x:?}, expected {want:?}")),
    }
}

/// Views of valid images pass their own bounds check and report what they show.
fn views(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let l = ctx.pick("layout", crate::ops::LAYOUTS).clone();
    let w = 2 * (1 + ctx.choose("width", 6));
    let h = 2 * (1 + ctx.choose("height", 3));
    let c = other_color(f);
    let p = place(ctx.arena, f, w, h, &l);
    ctx.note(|| format!("{f:?} {w}x{h} {}", l.name));
    ctx.state(mix(mix(mix(f as u64, w as u64), h as u64), hash_bytes(0, l.name.as_bytes())));
    ctx.stats.compared += 1;
    let g = geom(f, w, h);
    let bp = bytes(f);
    let check = move |i: &dyn ImageRef| -> Result<(), String> {
        if (i.format(), i.width(), i.height(), i.color()) != (f, w, h, c) {
            return Err(format!("reports {:?} {}x{} {:?}", i.format(), i.width(), i.height(), i.color()));
        }
        i.bounds_check().map_err(|e| format!("bounds_check: {e:?}"))?;
        let v: Vec<(usize, usize)> = i.planes().take(g.len()).map(|(p, s)| (p.len(), s)).collect();
        if v.len() != g.len() || v.iter().zip(&g).any(|((l, s), (c, r))| *s < c * bp || *l < need(*s, c * bp, *r)) {
            return Err(format!("planes {v:?} for {g:?}"));
        }
        Ok(())
    };
    let ck = check.clone();
    match ctx.call(|| p.with_ref(c, |i| ck(i))).and_then(|r| r.and_then(|r| r)) {
        Ok(()) => {}
        Err(e) => return ctx.fail("view", format!("{f:?} {w}x{h} {}: {e}", l.name)),
    }
    if let Err(e) = ctx.call(|| p.with_mut(c, |i| check(i))).and_then(|r| r.and_then(|r| r)) {
        ctx.fail("view-mut", format!("{f:?} {w}x{h} {}: {e}", l.name))
    }
}

/// Sizes beyond the address space are refused.
fn huge_geometry(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let w = *ctx.pick("width", &HUGE[1..]);
    let h = *ctx.pick("height", &HUGE[1..]);
    let how = ctx.choose("constructor", 3);
    let st = *ctx.pick("stride", &[None, Some(0usize), Some(4096), Some(1 << 32), Some(B / 2 + 1), Some(B)]);
    let n = nplanes(f);
    let len = 8192 - 64;
    let bufs: Vec<_> = (0..n).map(|_| ctx.arena.take(len, Flush::Right, 0, 0)).collect();
    let c = default_color(f);
    ctx.note(|| format!("{f:?} {w}x{h} strides {st:?} in {len} byte planes"));
    ctx.state(mix(mix(mix(f as u64, w as u64), h as u64), st.unwrap_or(7) as u64 * 3 + how as u64));
    let strides = st.map(|s| vec![s; n]);
    let r = ctx.call(|| match how {
        0 => Image::from_planes(f, bufs.iter().map(|b| b.slice()).collect(), strides, w, h, c).map(|_| ()).map_err(|_| ()),
        1 => Image::from_buffer(f, bufs[0].slice(), strides, w, h, c).map(|_| ()).map_err(|_| ()),
        _ => f
            .bounds_check(bufs.iter().map(|b| (b.slice(), st.unwrap_or(len))), w, h)
            .map_err(|_| ()),
    });
    ctx.stats.compared += 1;
    // exact arithmetic: does every plane fit?
    let (sx, sy) = sub(f);
    let b = bytes(f) as u128;
    let (w1, h1) = (w as u128, h as u128);
    let cols: Vec<(u128, u128)> = match f {
        RGBA | BGRA => vec![(4 * w1, h1)],
        RGB | BGR => vec![(3 * w1, h1)],
        YUYV => vec![(2 * w1, h1)],
        NV12 => vec![(w1, h1), (w1, h1 / 2)],
        _ => vec![(w1, h1), (w1 / sx as u128, h1 / sy as u128), (w1 / sx as u128, h1 / sy as u128)],
    };
    let stride = |p: u128| st.map_or(if how == 2 { len as u128 } else { p }, |s| s as u128);
    let nd = |p: u128, r: u128| if r == 0 { 0 } else { stride(p).saturating_mul(r - 1).saturating_add(p) };
    let fits_plane = cols.iter().all(|(c, r)| stride(c * b) >= c * b && nd(c * b, *r) <= len as u128);
    let k = cols.len();
    // planes without any samples need no bytes
    let void = cols[1..].iter().all(|(c, r)| c * r == 0);
    let tot = cols[..k - 1].iter().fold(0u128, |a, (c, r)| a.saturating_add(stride(c * b).saturating_mul(*r)));
    let fits_buf = cols.iter().all(|(c, _)| stride(c * b) >= c * b)
        && tot.saturating_add(nd(cols[k - 1].0 * b, cols[k - 1].1)) <= len as u128;
    let fits = if how == 1 { fits_buf } else { fits_plane };
    // a panic is a refusal too when the sizes overflow
    let over = cols.iter().any(|(c, r)| c * b > B as u128 || stride(c * b).saturating_mul(*r) > B as u128)
        || tot > B as u128;
    match r {
        Ok(_) if how == 1 && void && fits_plane => {}
        Ok(Ok(())) if !fits => ctx.fail("huge:accepted", format!("{f:?} {w}x{h} strides {st:?} accepted in {len} byte planes (constructor {how})")),
        Ok(Err(())) if fits => ctx.fail("huge:refused", format!("{f:?} {w}x{h} strides {st:?} refused (constructor {how})")),
        Err(p) if !over => ctx.fail("huge:panic", format!("{f:?} {w}x{h} strides {st:?} (constructor {how}): {p}")),
        _ => {}
    }
}
