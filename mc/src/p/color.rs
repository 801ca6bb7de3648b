//! The properties about sample values: C06 C07 C08 C11 C12 C13 C14 C15 C20 C21.
use super::{sc, slow};
use crate::explore::*;
use crate::img::*;
use crate::model::*;
use crate::ops::*;
use ezk_image::*;
use PixelFormat::*;

pub(super) const RGBS: [PixelFormat; 4] = [RGB, BGR, RGBA, BGRA];
pub(super) const YUVS: [PixelFormat; 11] = [I420, I422, I444, I010, I012, I210, I212, I410, I412, NV12, YUYV];
pub(super) const SUBSAMPLED: [PixelFormat; 8] = [I420, I422, I010, I012, I210, I212, NV12, YUYV];

pub(super) fn cname(c: ColorInfo) -> String {
    match c {
        ColorInfo::RGB(c) => format!("[{:?} {:?}]", c.transfer, c.primaries),
        ColorInfo::YUV(c) => {
            format!("[{:?} {:?} {:?} {}]", c.transfer, c.primaries, c.space, if c.full_range { "full" } else { "limited" })
        }
    }
}

/// Compare a converted image with the reference model.
pub(super) fn against(ctx: &mut Ctx, sig: &str, m: &Model, src: &Img, sc: ColorInfo, got: &Img, dc: ColorInfo) -> bool {
    let want = m.expect(src);
    let mx = max(got.f);
    ctx.stats.compared += 1;
    for p in 0..want.len() {
        ctx.stats.samples_checked += want[p].len() as u64;
        for (i, (g, w)) in got.planes[p].iter().zip(&want[p]).enumerate() {
            let d = dev(*g, *w, mx);
            if d > ctx.stats.max_dev {
                ctx.stats.max_dev = d;
            }
            if *g > mx || d > 0.5 + 2e-3 {
                let n = got.cols(p);
                ctx.fail(
                    sig,
                    format!(
                        "{:?} {} -> {:?} {} {}x{}: plane {p} column {} row {} is {g}, the equations give {:.3}..{:.3}; source {}",
                        src.f, cname(sc), got.f, cname(dc), src.w, src.h, i % n, i / n, w.lo, w.hi, around(src, got.f, p, i % n, i / n)
                    ),
                );
                return false;
            }
        }
    }
    true
}
/// the source pixels a destination sample depends on
fn around(src: &Img, df: PixelFormat, p: usize, col: usize, row: usize) -> String {
    let (sx, sy) = sub(df);
    for y in 0..src.h {
        for x in 0..src.w {
            for c in 0..ncomp(df) {
                if (c == 0 || c == 3 || x % sx == 0 && y % sy == 0) && comp(df, x, y, c) == (p, col, row) {
                    let (nx, ny) = if c == 0 || c == 3 { (1, 1) } else { (sx, sy) };
                    let mut v = vec![];
                    for yy in y..y + ny {
                        for xx in x..x + nx {
                            v.push([src.get(xx, yy, 0), src.get(xx, yy, 1), src.get(xx, yy, 2)]);
                        }
                    }
                    return format!("component {c} of pixels {v:?} at {x},{y}");
                }
            }
        }
    }
    String::new()
}
/// Convert and compare with the model.
pub(super) fn conv_model(ctx: &mut Ctx, sig: &str, src: &Img, sc: ColorInfo, df: PixelFormat, dc: ColorInfo) -> Option<Img> {
    let got = conv_img(ctx, sig, src, sc, df, dc)?;
    ctx.state(got.hash(mix(df as u64, hash_bytes(0, cname(dc).as_bytes()))));
    if src.f == df && sc == dc {
        if let Some(d) = img_diff(&got, src) {
            ctx.fail(sig, format!("{:?} {}: copy differs: {d}", df, cname(sc)));
            return None;
        }
        return Some(got);
    }
    let m = Model::new(src.f, sc, df, dc);
    against(ctx, sig, &m, src, sc, &got, dc).then_some(got)
}

/// Image whose pixels enumerate `v` (components), row by row; blocks of the chroma grid are
/// uniform when `uniform`.
pub(super) fn from_triples(f: PixelFormat, w: usize, v: &[[u16; 3]], uniform: bool) -> Img {
    let (sx, sy) = if uniform { (2, 2) } else { (1, 1) };
    let cells = w / sx;
    let rows = v.len().div_ceil(cells) * sy;
    let h = (rows + 1) & !1;
    let mut img = Img::new(f, w, h);
    for y in 0..h {
        for x in 0..w {
            let i = (y / sy) * cells + x / sx;
            let t = v[i % v.len()];
            for c in 0..3 {
                img.set(x, y, c, t[c]);
            }
            if ncomp(f) == 4 {
                img.set(x, y, 3, ((i * 37 + x) % 256) as u16);
            }
        }
    }
    img
}
fn grid(levels: &[[u16; 32]; 3], n: [usize; 3]) -> Vec<[u16; 3]> {
    let mut v = vec![];
    for a in 0..n[0] {
        for b in 0..n[1] {
            for c in 0..n[2] {
                v.push([levels[0][a], levels[1][b], levels[2][c]]);
            }
        }
    }
    v
}
/// Code values of interest of component `c` (range ends, midpoints and neighbours), `fine` more.
pub(super) fn levels(f: PixelFormat, c: usize, fine: bool) -> Vec<u16> {
    let b = bits(f);
    let k = 1u32 << (b - 8);
    let m = (1u32 << b) - 1;
    let mut v: Vec<u32> = if is_rgb(f) {
        vec![0, 1, 10, 11, 21, 64, 127, 128, 129, 192, 254, 255]
    } else if c == 0 {
        vec![0, 15 * k, 16 * k, 16 * k + 1, 33 * k, 81 * k, 125 * k, 128 * k, 192 * k, 235 * k - 1, 235 * k, 236 * k, m]
    } else {
        vec![0, 16 * k, 90 * k, 127 * k, 128 * k - 1, 128 * k, 128 * k + 1, 129 * k, 175 * k, 240 * k, 241 * k, m]
    };
    if fine {
        v.extend((0..16).map(|i| (i * m + 7) / 15));
    }
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x.min(m) as u16).collect()
}
fn level_grid(f: PixelFormat, fine: bool) -> Vec<[u16; 3]> {
    let mut l = [[0u16; 32]; 3];
    let mut n = [0; 3];
    for c in 0..3 {
        let v = levels(f, c, fine);
        n[c] = v.len().min(32);
        l[c][..n[c]].copy_from_slice(&v[..n[c]]);
    }
    grid(&l, n)
}
/// all corners of the cube and of the nominal cube
pub(super) fn corners(f: PixelFormat) -> Vec<[u16; 3]> {
    let m = max(f);
    let k = 1u16 << (bits(f) - 8);
    let l: Vec<Vec<u16>> = (0..3)
        .map(|c| {
            if is_rgb(f) {
                vec![0, 1, 128, 254, 255]
            } else if c == 0 {
                vec![0, 16 * k, 128 * k, 235 * k, m]
            } else {
                vec![0, 16 * k, 128 * k, 240 * k, m]
            }
        })
        .collect();
    let mut v = vec![];
    for a in &l[0] {
        for b in &l[1] {
            for c in &l[2] {
                v.push([*a, *b, *c]);
            }
        }
    }
    v
}

// ---- C06 -------------------------------------------------------------------------------------
pub fn c06() -> Vec<Scenario> {
    vec![
        sc("every value at every position", c06_values),
        sc("every size", c06_sizes),
        sc("every color", c06_colors),
        sc("RGB reordering", c06_reorder),
        sc("RGB reordering, color kinds", c06_kinds), sc("large images", super::large::c06), sc("RGB reordering, large images", super::large::c06_reorder)]
}
pub(super) fn lossless(ctx: &mut Ctx, mode: Mode, src: &Img, c: ColorInfo, l: &Layout) {
    let mut s = place(ctx.arena, src.f, src.w, src.h, l);
    s.store(src);
    let d = place(ctx.arena, src.f, src.w, src.h, &PACKED);
    if !must(ctx, "same", mode, &s, c, &d, c) {
        return;
    }
    let got = d.load();
    ctx.stats.compared += 1;
    ctx.stats.samples_checked += got.planes.iter().map(|p| p.len() as u64).sum::<u64>();
    ctx.state(got.hash(src.f as u64));
    if let Some(x) = img_diff(&got, src) {
        ctx.fail("same", format!("{mode:?} {:?} {}x{} {}: {x}", src.f, src.w, src.h, cname(c)));
    }
}
/// Sample i of the image (in plane order) holds value (i*step + v); over all v every sample takes
/// every value.
fn c06_values(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2), Mode::Copy]);
    let (w, h) = *ctx.pick("size", if ctx.thorough { &[(66usize, 4usize), (38, 2), (32, 2), (2, 2)][..] } else { &[(66, 4), (38, 2)] });
    let m = max(f) as usize + 1;
    let v = ctx.choose("value", if ctx.thorough || m == 256 || mode == Mode::Single { m } else { 64 });
    let step = 7;
    ctx.note(|| format!("{mode:?} {f:?} {w}x{h}, values from {v}"));
    let src = Img::new(f, w, h).fill(|p, c, r| ((v + p * 91 + (c + r * 67) * step) % m) as u16);
    lossless(ctx, mode, &src, default_color(f), &PACKED);
}
fn c06_sizes(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let w = *ctx.pick("width", &widths());
    let h = 2 * (1 + ctx.choose("height", 5));
    let mode = *ctx.pick("mode", &ALL_MODES);
    let l = ctx.pick("layout", LAYOUTS).clone();
    ctx.note(|| format!("{mode:?} {f:?} {w}x{h} {}", l.name));
    let src = Img::new(f, w, h).fill(noise(f, 41));
    lossless(ctx, mode, &src, default_color(f), &l);
}
fn c06_colors(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let mut cs = all_colors(is_rgb(f));
    // color information of the other kind does not prevent copying
    cs.extend(all_colors(!is_rgb(f)));
    let c = *ctx.pick("color", &cs);
    let mode = *ctx.pick("mode", &ALL_MODES);
    ctx.note(|| format!("{mode:?} {f:?} {}", cname(c)));
    let src = Img::new(f, 38, 4).fill(noise(f, 42));
    lossless(ctx, mode, &src, c, &PACKED);
}
pub(super) fn reorder(ctx: &mut Ctx, mode: Mode, src: &Img, scol: ColorInfo, df: PixelFormat, dcol: ColorInfo) {
    let mut s = place(ctx.arena, src.f, src.w, src.h, &PACKED);
    s.store(src);
    let d = place(ctx.arena, df, src.w, src.h, &PACKED);
    if !must(ctx, "reorder", mode, &s, scol, &d, dcol) {
        return;
    }
    let got = d.load();
    ctx.stats.compared += 1;
    ctx.state(got.hash(df as u64));
    for y in 0..src.h {
        for x in 0..src.w {
            for c in 0..3 {
                ctx.stats.samples_checked += 1;
                if got.get(x, y, c) != src.get(x, y, c) {
                    return ctx.fail(
                        "reorder",
                        format!(
                            "{mode:?} {:?} {} -> {df:?} {} {}x{}: component {c} at {x},{y} is {}, was {}",
                            src.f, cname(scol), cname(dcol), src.w, src.h, got.get(x, y, c), src.get(x, y, c)
                        ),
                    );
                }
            }
        }
    }
}
fn c06_reorder(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &RGBS);
    let df = *ctx.pick("destination", &RGBS);
    let w = *ctx.pick("width", &widths());
    let v = ctx.choose("value", if ctx.thorough || FEW_WIDTHS.contains(&w) { 256 } else { 16 });
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2)]);
    ctx.note(|| format!("{mode:?} {sf:?} -> {df:?} width {w}, values from {v}"));
    let src = Img::new(sf, w, 4).fill(|_, c, r| ((v + c * 7 + r * 61) % 256) as u16);
    let c = default_color(sf);
    reorder(ctx, mode, &src, c, df, c);
}
/// RGB formats use transfer and primaries of either kind of color information.
fn c06_kinds(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &RGBS);
    let df = *ctx.pick("destination", &RGBS);
    let t = *ctx.pick("transfer", &TRANSFERS);
    let p = *ctx.pick("primaries", &PRIMARIES);
    let kinds = [
        rgbc(t, p),
        yuvc(t, p, ColorSpace::BT709, true),
        yuvc(t, p, ColorSpace::BT601, false),
        yuvc(t, p, ColorSpace::ICtCpPQ, false),
    ];
    let a = *ctx.pick("source color", &kinds);
    let b = *ctx.pick("destination color", &kinds);
    ctx.note(|| format!("{sf:?} {} -> {df:?} {}", cname(a), cname(b)));
    let src = Img::new(sf, 38, 2).fill(noise(sf, 43));
    reorder(ctx, Mode::Single, &src, a, df, b);
}

// ---- C07 -------------------------------------------------------------------------------------
pub fn c07() -> Vec<Scenario> {
    vec![
        sc("every pair of formats", c07_pairs),
        sc("RGB to every YUV color", c07_rgb_yuv),
        sc("every YUV color to RGB", c07_yuv_rgb),
        sc("transfer and primaries", c07_tp),
        sc("every YUV color to YUV", c07_yuv_yuv),
        sc("every value of each component", c07_values),
        sc("RGB images described by YUV colors", c07_kinds),
        slow("complete cubes", c07_cube),
        sc("large images", super::large::c07),
    ]
}
fn contents(f: PixelFormat, which: usize) -> Img {
    match which {
        0 => Img::new(f, 66, 4).fill(noise(f, 51)),
        1 => Img::new(f, 70, 2).fill(midtone(f, 52)),
        _ => from_triples(f, 50, &corners(f), true),
    }
}
fn c07_pairs(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let scol = *ctx.pick("source color", &path_colors(sf));
    let dcol = *ctx.pick("destination color", &path_colors(df));
    let k = ctx.choose("content", 3);
    ctx.note(|| format!("{sf:?} {} -> {df:?} {}, content {k}", cname(scol), cname(dcol)));
    conv_model(ctx, "pairs", &contents(sf, k), scol, df, dcol);
}
fn c07_rgb_yuv(ctx: &mut Ctx) {
    let cs = all_colors(false);
    let dcol = *ctx.pick("color", &cs);
    let df = *ctx.pick("destination", if ctx.thorough { &YUVS[..] } else { &[I444, I412, I410, NV12] });
    let sf = *ctx.pick("source", if ctx.thorough { &RGBS[..] } else { &[RGBA] });
    ctx.note(|| format!("{sf:?} -> {df:?} {}", cname(dcol)));
    let same = rgbc(dcol.transfer(), dcol.primaries());
    let src = from_triples(sf, 50, &level_grid(sf, ctx.deep || df == I444 || df == I412 && sf == RGBA), sub(df) != (1, 1));
    conv_model(ctx, "rgb-yuv", &src, same, df, dcol);
}
fn c07_yuv_rgb(ctx: &mut Ctx) {
    let cs = all_colors(false);
    let scol = *ctx.pick("color", &cs);
    let sf = *ctx.pick("source", if ctx.thorough { &YUVS[..] } else { &[I444, I412, I410, YUYV] });
    let df = *ctx.pick("destination", if ctx.thorough { &RGBS[..] } else { &[BGR] });
    ctx.note(|| format!("{sf:?} {} -> {df:?}", cname(scol)));
    let same = rgbc(scol.transfer(), scol.primaries());
    let src = from_triples(sf, 50, &level_grid(sf, ctx.deep || sub(sf) == (1, 1) && df == BGR), sub(sf) != (1, 1));
    conv_model(ctx, "yuv-rgb", &src, scol, df, same);
}
fn c07_tp(ctx: &mut Ctx) {
    let cs = all_colors(true);
    let a = *ctx.pick("source color", &cs);
    let b = *ctx.pick("destination color", &cs);
    let (sf, df) = *ctx.pick("formats", if ctx.thorough { &[(RGB, BGRA), (BGRA, RGB), (RGBA, RGBA), (BGR, BGR)][..] } else { &[(RGB, BGRA)] });
    ctx.note(|| format!("{sf:?} {} -> {df:?} {}", cname(a), cname(b)));
    let src = from_triples(sf, 50, &level_grid(sf, ctx.thorough), false);
    conv_model(ctx, "transfer-primaries", &src, a, df, b);
}
fn c07_yuv_yuv(ctx: &mut Ctx) {
    let cs = all_colors(false);
    let a = *ctx.pick("source color", &cs);
    let few = path_colors(I444);
    let (sf, df) = *ctx.pick("formats", &[(I412, I444), (I410, I420), (NV12, I212), (I422, I412)]);
    let b = *ctx.pick("destination color", if ctx.deep || sf == I412 { &cs } else { &few });
    ctx.note(|| format!("{sf:?} {} -> {df:?} {}", cname(a), cname(b)));
    let src = Img::new(sf, 54, 4).fill(noise(sf, 53));
    conv_model(ctx, "yuv-yuv", &src, a, df, b);
}
/// One component takes every value it has, the others a few levels.
fn c07_values(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &FORMATS);
    let scol = *ctx.pick("source color", &path_colors(sf));
    let df = *ctx.pick("destination", if ctx.deep { &FORMATS[..] } else { &[RGB, I412, NV12] });
    let k = ctx.choose("component", 3);
    let fine = ctx.deep;
    let dcol = if sf == df { other_color(df) } else { default_color(df) };
    ctx.note(|| format!("{sf:?} {} -> {df:?} {}, every value of component {k}", cname(scol), cname(dcol)));
    if scol == dcol && sf == df {
        return;
    }
    let m = max(sf);
    let at = |e: u16| (m as u32 * e as u32 / 8) as u16;
    let pairs: Vec<[u16; 2]> = if fine {
        (0..25).map(|i| [at([0, 2, 4, 6, 8][i / 5]), at([0, 2, 4, 6, 8][i % 5])]).collect()
    } else {
        vec![[m / 2 + 1, m / 2 + 1], [at(5), at(2)], [at(1), at(7)], [at(8), at(0)]]
    };
    let mut v = vec![];
    for p in pairs {
        for x in 0..=m {
            let mut t = [p[0], p[1], p[1]];
            t[if k == 0 { 1 } else { 0 }] = p[0];
            t[k] = x;
            v.push(t);
        }
    }
    let src = from_triples(sf, 66, &v, sub(sf) != (1, 1) || sub(df) != (1, 1));
    conv_model(ctx, "values", &src, scol, df, dcol);
}
/// An RGB image may carry a YUV description: only its transfer and primaries mean anything.
fn c07_kinds(ctx: &mut Ctx) {
    let (sf, df) = *ctx.pick("formats", &[(RGB, BGRA), (BGRA, RGB), (RGBA, I444), (I444, RGB), (NV12, BGR), (BGR, I412), (I410, RGBA)]);
    let space = *ctx.pick("space", &SPACES);
    let full = ctx.flag("full range");
    let (t, p) = (*ctx.pick("transfer", &TRANSFERS), *ctx.pick("primaries", &PRIMARIES));
    let same = ctx.flag("same transfer and primaries");
    let which = ctx.choose("described by a YUV color", 3);
    let (t2, p2) = if same { (t, p) } else { (ColorTransfer::Gamma28, ColorPrimaries::BT709) };
    let col = |f: PixelFormat, yuv: bool, t, p, d| {
        if !is_rgb(f) {
            yuvc(t, p, ColorSpace::BT709, !full)
        } else if yuv {
            yuvc(t, p, if d { SPACES[(space as usize + 1) % SPACES.len()] } else { space }, full)
        } else {
            rgbc(t, p)
        }
    };
    let a = col(sf, which != 1, t, p, false);
    let b = col(df, which != 0, t2, p2, true);
    if is_rgb(sf) != is_rgb(df) && which != 2 {
        return;
    }
    ctx.note(|| format!("{sf:?} {} -> {df:?} {}", cname(a), cname(b)));
    let src = from_triples(sf, 50, &level_grid(sf, ctx.deep), sub(sf) != (1, 1));
    conv_model(ctx, "kinds", &src, a, df, b);
}
/// Every 8-bit triple (thorough), or every 16th in two of the components (quick), 256x256 pixels
/// per execution.
fn c07_cube(ctx: &mut Ctx) {
    let a = ctx.choose("first component", 256);
    if !ctx.thorough && a % 16 != 15 && a % 16 != 0 {
        return;
    }
    let to_yuv = ctx.flag("to YUV");
    let space = *ctx.pick("space", if ctx.thorough { &SPACES[..] } else { &SPACES[..3] });
    let full = ctx.flag("full range");
    let yc = yuvc(ColorTransfer::SDR, ColorPrimaries::BT709, space, full);
    let rc = rgbc(ColorTransfer::SDR, ColorPrimaries::BT709);
    let (sf, scol, df, dcol) = if to_yuv { (RGB, rc, I444, yc) } else { (I444, yc, RGB, rc) };
    ctx.note(|| format!("{sf:?} {} -> {df:?} {}, first component {a}", cname(scol), cname(dcol)));
    let step = if ctx.thorough { 1 } else { 5 };
    let mut v = vec![];
    for b in (0..256).step_by(step) {
        for c in (0..256).step_by(step) {
            v.push([a as u16, b, c]);
        }
    }
    let src = from_triples(sf, if ctx.thorough { 256 } else { 52 }, &v, false);
    conv_model(ctx, "cube", &src, scol, df, dcol);
}

// ---- C08 -------------------------------------------------------------------------------------
pub fn c08() -> Vec<Scenario> {
    vec![sc("tiles of every width", c08_tiles), sc("windows of every width", c08_windows), sc("equal blocks", c08_equal), sc("large images", super::large::c08)]
}
/// May differ by one step at 8 bits where approximated functions are involved.
fn slack(sf: PixelFormat, sc: ColorInfo, df: PixelFormat, dc: ColorInfo) -> u16 {
    if sf == df && sc == dc || Model::new(sf, sc, df, dc).is_linear() {
        0
    } else {
        1 << (bits(df) - 8)
    }
}
/// `part` is the conversion of `src` on its own, it must equal the window of `whole` at `x`,`y`.
/// More than one step (at 8 bits) apart only where the equations amplify the rounding of single
/// precision that much: then both must be roundings the reference model allows.
#[allow(clippy::too_many_arguments)]
pub(super) fn c08_compare(ctx: &mut Ctx, whole: &Img, part: &Img, x: usize, y: usize, src: &Img, sc: ColorInfo, dc: ColorInfo) -> bool {
    ctx.stats.compared += 1;
    let tol = slack(src.f, sc, part.f, dc);
    let win = whole.window(x, y, part.w, part.h);
    let mut want: Option<Vec<Vec<Iv>>> = None;
    for p in 0..part.planes.len() {
        for i in 0..part.planes[p].len() {
            let (a, b) = (win.planes[p][i], part.planes[p][i]);
            if a.abs_diff(b) <= tol {
                continue;
            }
            // exact arithmetic is promised for copies only; otherwise both may be roundings of a value
            // close to a tie
            if src.f != part.f || sc != dc {
                let m = want.get_or_insert_with(|| Model::new(src.f, sc, part.f, dc).expect(src));
                if accept(a, m[p][i], max(part.f)) && accept(b, m[p][i], max(part.f)) {
                    ctx.count("ill-conditioned samples judged by the model", 1);
                    continue;
                }
            }
            let n = part.cols(p);
            ctx.fail(
                "position",
                format!(
                    "{:?} {} -> {:?} {}: plane {p} column {} row {} of the window {}x{} at {x},{y} of {}x{} is {a}, converted alone it is {b}; source {}",
                    src.f, cname(sc), part.f, cname(dc), i % n, i / n, part.w, part.h, whole.w, whole.h, around(src, part.f, p, i % n, i / n)
                ),
            );
            return false;
        }
    }
    true
}
pub(super) fn colors3(f: PixelFormat) -> Vec<ColorInfo> {
    let v = path_colors(f);
    if is_rgb(f) {
        v
    } else {
        vec![v[0], v[2], v[3], v[4]]
    }
}
fn c08_tiles(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let scol = *ctx.pick("source color", &if ctx.thorough { colors3(sf) } else { colors3(sf)[..2].to_vec() });
    let dcol = *ctx.pick("destination color", &if ctx.thorough { colors3(df) } else { colors3(df)[..1].to_vec() });
    let w = *ctx.pick("width", &widths());
    let seed = ctx.choose("content", if ctx.thorough { 4 } else { 1 });
    let h = 4;
    let src = Img::new(sf, w, h).fill(noise(sf, 61 + seed as u64));
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x{h} against its 2x2 tiles", cname(scol), cname(dcol)));
    let Some(whole) = conv_img(ctx, "convert", &src, scol, df, dcol) else { return };
    ctx.state(whole.hash(df as u64));
    let mut s = place(ctx.arena, sf, 2, 2, &PACKED);
    let d = place(ctx.arena, df, 2, 2, &PACKED);
    for y in (0..h).step_by(2) {
        for x in (0..w).step_by(2) {
            let tile = src.window(x, y, 2, 2);
            s.store(&tile);
            if !must(ctx, "convert", Mode::Single, &s, scol, &d, dcol) {
                return;
            }
            let part = d.load();
            if !c08_compare(ctx, &whole, &part, x, y, &tile, scol, dcol) {
                return;
            }
        }
    }
}
fn c08_windows(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let scol = *ctx.pick("source color", &colors3(sf));
    let dcol = *ctx.pick("destination color", &colors3(df));
    let ww = *ctx.pick("window width", if ctx.thorough { &[2usize, 4, 8, 14, 16, 18, 24, 30, 32, 34, 48, 50, 64][..] } else { &[16, 18, 34] });
    let w = 70;
    let src = Img::new(sf, w, 2).fill(midtone(sf, 71));
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x2 against its windows of width {ww}", cname(scol), cname(dcol)));
    let Some(whole) = conv_img(ctx, "convert", &src, scol, df, dcol) else { return };
    ctx.state(whole.hash(df as u64));
    let mut s = place(ctx.arena, sf, ww, 2, &PACKED);
    let d = place(ctx.arena, df, ww, 2, &PACKED);
    for x in (0..=w - ww).step_by(if ctx.thorough { 2 } else { 6 }) {
        let tile = src.window(x, 0, ww, 2);
        s.store(&tile);
        if !must(ctx, "convert", Mode::Single, &s, scol, &d, dcol) {
            return;
        }
        let part = d.load();
        if !c08_compare(ctx, &whole, &part, x, 0, &tile, scol, dcol) {
            return;
        }
    }
}
/// An image made of one repeated 2x2 block converts to a repeated block.
fn c08_equal(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let scol = *ctx.pick("source color", &path_colors(sf));
    let dcol = *ctx.pick("destination color", &path_colors(df));
    let n = if ctx.thorough { 64 } else { 6 };
    let k = ctx.choose("block", n) as u64;
    let (w, h) = (70, 4);
    let b = Img::new(sf, 2, 2).fill(noise(sf, 81 + k));
    let mut src = Img::new(sf, w, h);
    for y in 0..h {
        for x in 0..w {
            for c in 0..ncomp(sf) {
                src.set(x, y, c, b.get(x % 2, y % 2, c));
            }
        }
    }
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} block {k}", cname(scol), cname(dcol)));
    let Some(whole) = conv_img(ctx, "convert", &src, scol, df, dcol) else { return };
    ctx.state(whole.hash(df as u64));
    let first = whole.window(0, 0, 2, 2);
    for y in (0..h).step_by(2) {
        for x in (0..w).step_by(2) {
            if !c08_compare(ctx, &whole, &first, x, y, &b, scol, dcol) {
                return;
            }
        }
    }
}

// ---- C11 -------------------------------------------------------------------------------------
pub fn c11() -> Vec<Scenario> {
    vec![
        sc("one pixel", c11_impulse),
        sc("all blocks over an alphabet", c11_blocks),
        sc("upsampling", c11_up),
        sc("between subsampled formats", c11_between),
        sc("only its own block", c11_own), sc("large images", super::large::c11)]
}
fn sub_colors(f: PixelFormat) -> Vec<ColorInfo> {
    path_colors(f)
}
/// Grey image with a single colored pixel.
fn c11_impulse(ctx: &mut Ctx) {
    let w = *ctx.pick("width", &[2usize, 16, 18, 32, 34, 48, 66]);
    let df = *ctx.pick("destination", &SUBSAMPLED);
    let sf = *ctx.pick("source", if ctx.thorough { &[RGB, RGBA, BGR, BGRA, I444, I412][..] } else { &[RGB, BGRA, I412] });
    let dcol = *ctx.pick("color", &sub_colors(df));
    let i = ctx.choose("pixel", w * 2);
    let pixel = *ctx.pick("value", if ctx.thorough { &[[1u16, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0]][..] } else { &[[1, 0, 0], [0, 0, 1]] });
    let mut src = Img::new(sf, w, 2);
    let m = max(sf) / 2;
    for y in 0..2 {
        for x in 0..w {
            for c in 0..3 {
                src.set(x, y, c, m);
            }
        }
    }
    for c in 0..3 {
        src.set(i % w, i / w, c, m + pixel[c] * (m / 2));
    }
    let scol = if is_rgb(sf) { rgbc(dcol.transfer(), dcol.primaries()) } else { dcol };
    ctx.note(|| format!("{sf:?} -> {df:?} {} {w}x2, colored pixel {i}", cname(dcol)));
    conv_model(ctx, "impulse", &src, scol, df, dcol);
}
/// All 4-pixel blocks over an alphabet of colors, 7^4 (quick 5^4) blocks per image.
fn c11_blocks(ctx: &mut Ctx) {
    let df = *ctx.pick("destination", &SUBSAMPLED);
    let dcol = *ctx.pick("color", &sub_colors(df));
    let sf = *ctx.pick("source", if ctx.thorough { &[RGB, RGBA, BGR, BGRA, I444, I410][..] } else { &[RGB, I444] });
    let w = *ctx.pick("width", &[2usize, 34, 66, 80]);
    let full: [[u16; 3]; 7] = [[0, 0, 0], [255, 0, 0], [0, 0, 255], [10, 200, 90], [255, 255, 255], [0, 255, 0], [129, 77, 3]];
    let al = &full[..if ctx.thorough { 7 } else { 4 }];
    let k = al.len();
    let shift = ctx.choose("shift", if ctx.thorough { 8 } else { 2 });
    // a 2-wide image would exceed the buffers, use a slice of the enumeration
    let n = k.pow(4);
    let cells = w / 2;
    let rows = n.div_ceil(cells).min(48);
    let per = rows * cells;
    let parts = n.div_ceil(per);
    let part = ctx.choose("part", parts);
    let mut src = Img::new(sf, w, rows * 2);
    let s = 1u16 << (bits(sf) - 8);
    for b in 0..per {
        let mut v = (part * per + b + shift) % n;
        for q in 0..4 {
            let t = al[v % k];
            v /= k;
            let (x, y) = ((b % cells) * 2 + q % 2, (b / cells) * 2 + q / 2);
            for c in 0..3 {
                src.set(x, y, c, t[c] * s);
            }
        }
    }
    let scol = if is_rgb(sf) { rgbc(dcol.transfer(), dcol.primaries()) } else { default_color(sf) };
    ctx.note(|| format!("{sf:?} -> {df:?} {} {w}x{}, blocks from {}", cname(dcol), rows * 2, part * per));
    conv_model(ctx, "blocks", &src, scol, df, dcol);
}
fn c11_up(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &SUBSAMPLED);
    let w = *ctx.pick("width", &widths());
    let scol = *ctx.pick("color", &sub_colors(sf));
    let df = *ctx.pick("destination", if ctx.thorough { &[RGB, RGBA, BGR, BGRA, I444, I410, I412][..] } else { &[RGB, BGRA, I444, I412] });
    let k = ctx.choose("content", 2);
    let src = if k == 0 { Img::new(sf, w, 4).fill(noise(sf, 91)) } else { Img::new(sf, w, 4).fill(midtone(sf, 92)) };
    let dcol = if is_rgb(df) { rgbc(scol.transfer(), scol.primaries()) } else { default_color(df) };
    ctx.note(|| format!("{sf:?} {} -> {df:?} {w}x4", cname(scol)));
    conv_model(ctx, "up", &src, scol, df, dcol);
}
fn c11_between(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &SUBSAMPLED);
    let df = *ctx.pick("destination", &SUBSAMPLED);
    let scol = *ctx.pick("color", &sub_colors(sf));
    let w = *ctx.pick("width", if ctx.thorough { &FEW_WIDTHS[..] } else { &[2, 34, 66] });
    // same matrix: chroma passes through
    ctx.note(|| format!("{sf:?} -> {df:?} {} {w}x4", cname(scol)));
    let src = Img::new(sf, w, 4).fill(midtone(sf, 93));
    let other = match scol {
        ColorInfo::YUV(c) => ColorInfo::YUV(YuvColorInfo { full_range: !c.full_range, ..c }),
        c => c,
    };
    conv_model(ctx, "between", &src, scol, df, other);
}
/// Changing one pixel changes nothing outside its chroma block.
fn c11_own(ctx: &mut Ctx) {
    let df = *ctx.pick("destination", &FORMATS);
    let sf = *ctx.pick("source", &FORMATS);
    let dcol = *ctx.pick("color", &path_colors(df));
    let w = *ctx.pick("width", if ctx.thorough { &[2usize, 18, 34, 66][..] } else { &[34] });
    let h = 4;
    let scol = if is_rgb(sf) { rgbc(dcol.transfer(), dcol.primaries()) } else { default_color(sf) };
    ctx.note(|| format!("{sf:?} -> {df:?} {} {w}x{h}, one pixel changed", cname(dcol)));
    let base = Img::new(sf, w, h).fill(midtone(sf, 94));
    let Some(a) = conv_img(ctx, "own", &base, scol, df, dcol) else { return };
    let (bx, by) = {
        let (a, b) = (sub(sf), sub(df));
        (a.0.max(b.0), a.1.max(b.1))
    };
    let mut s = place(ctx.arena, sf, w, h, &PACKED);
    let d = place(ctx.arena, df, w, h, &PACKED);
    for y in 0..h {
        for x in 0..w {
            let mut t = base.clone();
            for c in 0..3 {
                let v = t.get(x, y, c);
                t.set(x, y, c, v ^ (max(sf) / 2 + 1));
            }
            s.store(&t);
            if !must(ctx, "own", Mode::Single, &s, scol, &d, dcol) {
                return;
            }
            let b = d.load();
            ctx.stats.compared += 1;
            for yy in 0..h {
                for xx in 0..w {
                    if xx / bx == x / bx && yy / by == y / by {
                        continue;
                    }
                    for c in 0..ncomp(df) {
                        if a.get(xx, yy, c) != b.get(xx, yy, c) {
                            return ctx.fail(
                                "own",
                                format!("{sf:?} -> {df:?} {} {w}x{h}: changing pixel {x},{y} changes component {c} of {xx},{yy}", cname(dcol)),
                            );
                        }
                    }
                }
            }
        }
    }
    ctx.state(a.hash(df as u64));
}

// ---- C12 -------------------------------------------------------------------------------------
pub fn c12() -> Vec<Scenario> {
    vec![
        sc("corners everywhere", c12_corners),
        sc("one extreme pixel", c12_one),
        sc("out of gamut", c12_gamut),
        sc("extreme values, every YUV color", c12_yuv),
        sc("samples beyond the range", c12_beyond),
        sc("large images", super::large::c12)]
}
fn c12_corners(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let scol = *ctx.pick("source color", &path_colors(sf));
    let dcol = *ctx.pick("destination color", &path_colors(df));
    let w = *ctx.pick("width", if ctx.thorough { &FEW_WIDTHS[..] } else { &[50] });
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} width {w}, all corners", cname(scol), cname(dcol)));
    let v = corners(sf);
    let rows = v.len().div_ceil(w / 2);
    let src = from_triples(sf, w, &v[..v.len().min(rows * (w / 2))], true);
    conv_model(ctx, "corners", &src, scol, df, dcol);
}
/// 16 bit words that the format's bit depth does not reach, up to all bits set
fn c12_beyond(ctx: &mut Ctx) {
    let sf = *ctx.pick("source format", &[I010, I012, I210, I212, I410, I412]);
    let df = *ctx.pick("destination format", &FORMATS);
    // (64 times the range overflows single precision in the exponential of HLG)
    let mut scols = path_colors(sf);
    scols.retain(|c| c.transfer() != ColorTransfer::BT2100HLG);
    let scol = *ctx.pick("source color", &scols);
    let dcol = *ctx.pick("destination color", &path_colors(df));
    let w = *ctx.pick("width", if ctx.thorough { &FEW_WIDTHS[..] } else { &[50] });
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} width {w}, words beyond the range", cname(scol), cname(dcol)));
    let m = max(sf);
    let l = [0, m / 2, m, m + 1, 0x7fff, 0x8000, 0xffff];
    let mut v = vec![];
    for a in l {
        for b in l {
            for c in l {
                v.push([a, b, c]);
            }
        }
    }
    let rows = v.len().div_ceil(w / 2);
    let src = from_triples(sf, w, &v[..v.len().min(rows * (w / 2))], true);
    if sf == df && scol == dcol {
        let Some(got) = conv_img(ctx, "beyond", &src, scol, df, dcol) else { return };
        let want = Img { planes: src.planes.iter().map(|p| p.iter().map(|s| (*s).min(m)).collect()).collect(), ..src.clone() };
        if let Some(d) = img_diff(&got, &want) {
            ctx.fail("beyond", format!("{df:?} {}: {d} (stored / saturated source)", cname(scol)));
        }
        return;
    }
    conv_model(ctx, "beyond", &src, scol, df, dcol);
}
/// one extreme pixel among mid-tone pixels, at every position
fn c12_one(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    if is_rgb(sf) {
        return;
    }
    let w = *ctx.pick("width", if ctx.thorough { &[2usize, 18, 34, 66][..] } else { &[50] });
    let x0 = ctx.choose("x", w / 2);
    let ext = *ctx.pick("extreme", if ctx.thorough { &[[1u16, 1, 1], [0, 0, 0], [1, 0, 1], [1, 1, 0], [0, 1, 1], [0, 0, 1]][..] } else { &[[1, 1, 1], [0, 0, 0]] });
    let c = yuvc(ColorTransfer::Linear, ColorPrimaries::BT709, ColorSpace::BT2020, false);
    let dcol = default_color(df);
    let mut src = Img::new(sf, w, 2).fill(|_, _, _| max(sf) / 2);
    for q in 0..4 {
        for k in 0..3 {
            src.set(x0 * 2 + q % 2, q / 2, k, ext[k] * max(sf));
        }
    }
    ctx.note(|| format!("{sf:?} -> {df:?} {w}x2, extreme {ext:?} at {x0}"));
    conv_model(ctx, "one", &src, c, df, dcol);
}
fn c12_gamut(ctx: &mut Ctx) {
    let cs = all_colors(true);
    let a = *ctx.pick("source color", &cs);
    let b = *ctx.pick("destination color", &cs);
    let df = *ctx.pick("destination", if ctx.thorough { &FORMATS[..] } else { &[RGB, RGBA, I412] });
    ctx.note(|| format!("RGBA {} -> {df:?} {}, corners", cname(a), cname(b)));
    let dcol = if is_rgb(df) { b } else { yuvc(b.transfer(), b.primaries(), ColorSpace::BT709, true) };
    let src = from_triples(RGBA, 50, &corners(RGBA), true);
    conv_model(ctx, "gamut", &src, a, df, dcol);
}
fn c12_yuv(ctx: &mut Ctx) {
    let cs = all_colors(false);
    let a = *ctx.pick("source color", &cs);
    let dc = [rgbc(ColorTransfer::Linear, ColorPrimaries::ST240), rgbc(ColorTransfer::SRGB, ColorPrimaries::BT709), rgbc(ColorTransfer::BT2100PQ, ColorPrimaries::BT2020)];
    let b = *ctx.pick("destination transfer/primaries", &dc);
    let (sf, df) = *ctx.pick("formats", &[(I444, RGB), (I412, RGBA), (NV12, I012), (YUYV, I210), (I410, I444)]);
    let dcol = if is_rgb(df) { b } else { yuvc(b.transfer(), b.primaries(), ColorSpace::BT601, false) };
    ctx.note(|| format!("{sf:?} {} -> {df:?} {}, corners", cname(a), cname(dcol)));
    let src = from_triples(sf, 50, &corners(sf), true);
    conv_model(ctx, "yuv", &src, a, df, dcol);
}

// ---- C13 -------------------------------------------------------------------------------------
pub fn c13() -> Vec<Scenario> {
    vec![
        sc("published formulas", c13_formula),
        sc("inverse", c13_inverse),
        sc("sample ramps", c13_ramp),
        sc("end points", c13_ends),
        slow("every single precision number", c13_all),
    ]
}
/// nominal peak of the linear side
fn peak(t: ColorTransfer) -> f32 {
    if t == ColorTransfer::BT2100PQ {
        10000.0
    } else {
        1.0
    }
}
fn c13_point(ctx: &mut Ctx, t: ColorTransfer, x: f32, prev: &mut [f32; 2]) -> bool {
    let pk = peak(t);
    // x is a fraction of the nominal peak
    let lin = x * pk;
    let s = t.linear_to_scaled(lin);
    let l = t.scaled_to_linear(x);
    ctx.stats.samples_checked += 2;
    let es = enc_iv(t, iv(lin as f64));
    let el = dec_iv(t, iv(x as f64));
    if !s.is_finite() || !l.is_finite() {
        ctx.fail("finite", format!("{t:?} at {x}: linear_to_scaled {s}, scaled_to_linear {l}"));
        return false;
    }
    let tol = 1e-6;
    if (s as f64) < es.lo - tol || s as f64 > es.hi + tol {
        ctx.fail("formula", format!("{t:?}.linear_to_scaled({lin}) = {s}, formula {:.9}..{:.9}", es.lo, es.hi));
        return false;
    }
    let tol = 2e-6 * el.hi.abs() + 1e-9 * pk as f64;
    if (l as f64) < el.lo - tol || l as f64 > el.hi + tol {
        ctx.fail("formula", format!("{t:?}.scaled_to_linear({x}) = {l}, formula {:.9}..{:.9}", el.lo, el.hi));
        return false;
    }
    // not decreasing, beyond the rounding of the published joint and of single precision
    let joint = 2e-4;
    let (ws, wl) = ((es.hi - es.lo) as f32 + 4e-6, (el.hi - el.lo) as f32 + 4e-6 * l.abs() + 1e-9 * pk);
    if s < prev[0] - ws && !(t == ColorTransfer::SDR && (0.0178..0.0183).contains(&x) && s > prev[0] - joint)
        || l < prev[1] - wl && !(t == ColorTransfer::SDR && (0.0808..0.0825).contains(&x) && l > prev[1] - joint)
    {
        ctx.fail("monotone", format!("{t:?} at {x}: scaled {s} after {}, linear {l} after {}", prev[0], prev[1]));
        return false;
    }
    prev[0] = s.max(prev[0]);
    prev[1] = l.max(prev[1]);
    true
}
fn c13_formula(ctx: &mut Ctx) {
    let t = *ctx.pick("transfer", &TRANSFERS);
    let dens = [255u32, 1023, 4095, 65535, 1 << 20];
    let n = dens[ctx.choose("denominator", dens.len())];
    ctx.note(|| format!("{t:?}, all k/{n}"));
    let mut prev = [-1.0; 2];
    ctx.stats.transitions += 2 * n as u64;
    for k in 0..=n {
        if k % 64 == 0 {
            ctx.state(mix(mix(t as u64, n as u64), k as u64));
        }
        if !c13_point(ctx, t, k as f32 / n as f32, &mut prev) {
            return;
        }
    }
    ctx.stats.compared += 1;
}
fn c13_inverse(ctx: &mut Ctx) {
    let t = *ctx.pick("transfer", &TRANSFERS);
    let dens = [255u32, 1023, 4095, 65535, 1 << 20];
    let n = dens[ctx.choose("denominator", dens.len())];
    ctx.note(|| format!("{t:?}, there and back, all k/{n}"));
    ctx.stats.transitions += 4 * n as u64;
    for k in 0..=n {
        let x = k as f32 / n as f32;
        let a = t.linear_to_scaled(t.scaled_to_linear(x));
        // 12-bit accuracy: half a step.  The published constants of BT.709 (rounded to three digits)
        // do not meet exactly at the joint of the two segments: 4.5 * 0.018 = 0.081 but
        // 1.099 * 0.018^0.45 - 0.099 = 0.08124, so values in between come back shifted by that gap.
        let joint = |lo: f32, hi: f32| t == ezk_image::ColorTransfer::SDR && (lo..hi).contains(&x);
        let tol = if joint(0.0806, 0.0827) { 3e-4 } else { 0.5 / 4095.0 };
        if !((a - x).abs() <= tol) {
            return ctx.fail("inverse", format!("{t:?}: scaled {x} -> linear -> scaled {a}"));
        }
        let pk = peak(t);
        let b = t.scaled_to_linear(t.linear_to_scaled(x * pk)) / pk;
        if !((b - x).abs() <= 0.5 / 4095.0) {
            return ctx.fail("inverse", format!("{t:?}: linear {x} (of peak {pk}) -> scaled -> linear {b}"));
        }
        ctx.stats.samples_checked += 2;
    }
    ctx.stats.compared += 1;
}
fn c13_ends(ctx: &mut Ctx) {
    let t = *ctx.pick("transfer", &TRANSFERS);
    let pk = peak(t);
    ctx.stats.compared += 4;
    ctx.stats.transitions += 4;
    let v = [
        ("scaled_to_linear(0)", t.scaled_to_linear(0.0) / pk, 0.0),
        ("linear_to_scaled(0)", t.linear_to_scaled(0.0), 0.0),
        ("scaled_to_linear(1)/peak", t.scaled_to_linear(1.0) / pk, 1.0),
        ("linear_to_scaled(peak)", t.linear_to_scaled(pk), 1.0),
    ];
    for (n, g, w) in v {
        if !((g - w).abs() <= 2e-5f32) {
            ctx.fail("ends", format!("{t:?}.{n} = {g}, expected {w}"));
        }
    }
}
/// The vectorised functions are only reachable through conversions: every 12-bit (10-bit, 8-bit)
/// grey level through each ordered pair of transfers.
fn c13_ramp(ctx: &mut Ctx) {
    let a = *ctx.pick("source transfer", &TRANSFERS);
    let b = *ctx.pick("destination transfer", &TRANSFERS);
    let (sf, df) = *ctx.pick("formats", &[(I412, I412), (I410, I410), (RGB, RGB), (I412, RGBA)]);
    let m = max(sf) as usize + 1;
    let w = *ctx.pick("width", &[64usize, 18]);
    let n = m.min(w * 60);
    let part = ctx.choose("part", m.div_ceil(n));
    ctx.note(|| format!("{sf:?} -> {df:?}, {a:?} -> {b:?}, all grey levels, width {w}"));
    let c = |f: PixelFormat, t| if is_rgb(f) { rgbc(t, ColorPrimaries::BT709) } else { yuvc(t, ColorPrimaries::BT709, ColorSpace::BT709, true) };
    let v: Vec<[u16; 3]> = (0..n)
        .map(|i| {
            let y = ((part * n + i).min(m - 1)) as u16;
            if is_rgb(sf) {
                [y, y, y]
            } else {
                let g = max(sf) / 2 + 1;
                [y, g, g]
            }
        })
        .collect();
    let src = from_triples(sf, w, &v, false);
    conv_model(ctx, "ramp", &src, c(sf, a), df, c(df, b));
}
/// thorough: every f32 in [0, 1]; quick: every 61st
fn c13_all(ctx: &mut Ctx) {
    const ONE: u32 = 0x3f80_0000;
    const PARTS: u32 = 256;
    let part = ctx.choose("part", PARTS as usize) as u32;
    let t = *ctx.pick("transfer", &TRANSFERS[1..]);
    let step = if ctx.thorough { 1 } else { 61 };
    let per = ONE / PARTS + 1;
    let (lo, hi) = (part * per, ((part + 1) * per).min(ONE + 1));
    ctx.note(|| format!("{t:?}, single precision numbers {lo:#x}..{hi:#x} step {step}"));
    let mut prev = [-1.0; 2];
    let mut b = lo;
    while b < hi {
        if !c13_point(ctx, t, f32::from_bits(b), &mut prev) {
            return;
        }
        b += step;
        ctx.stats.transitions += 2;
    }
    ctx.state(mix(mix(t as u64, part as u64), 99));
    ctx.stats.compared += 1;
}

// ---- C14 -------------------------------------------------------------------------------------
pub fn c14() -> Vec<Scenario> {
    vec![
        sc("matrices", c14_matrices),
        sc("conversion", c14_convert),
        sc("greys", c14_greys),
        sc("chains", c14_chains), sc("large images", super::large::c14)]
}
fn c14_matrices(ctx: &mut Ctx) {
    let p = *ctx.pick("primaries", &PRIMARIES);
    ctx.note(|| format!("{p:?}"));
    ctx.stats.transitions += 2;
    ctx.stats.compared += 4;
    ctx.state(p as u64);
    let tr = |m: &[[f32; 3]; 3]| {
        // the crate stores columns
        let mut o = [[0.0f64; 3]; 3];
        for i in 0..3 {
            for j in 0..3 {
                o[j][i] = m[i][j] as f64;
            }
        }
        o
    };
    let fw = tr(p.rgb_to_xyz_mat());
    let bw = tr(p.xyz_to_rgb_mat());
    let want = rgb_to_xyz(p);
    let inv = inv3(&want);
    let id = mul3(&bw, &fw);
    for i in 0..3 {
        for j in 0..3 {
            if (fw[i][j] - want[i][j]).abs() > 2e-6 {
                return ctx.fail("matrix", format!("{p:?} RGB->XYZ [{i}][{j}] = {}, from the chromaticities {}", fw[i][j], want[i][j]));
            }
            if (bw[i][j] - inv[i][j]).abs() > 6e-6 {
                return ctx.fail("matrix", format!("{p:?} XYZ->RGB [{i}][{j}] = {}, from the chromaticities {}", bw[i][j], inv[i][j]));
            }
            let e = if i == j { 1.0 } else { 0.0 };
            if (id[i][j] - e).abs() > 4e-6 {
                return ctx.fail("inverse", format!("{p:?}: XYZ->RGB * RGB->XYZ [{i}][{j}] = {}", id[i][j]));
            }
        }
    }
    let white: Vec<f64> = (0..3).map(|i| fw[i].iter().sum()).collect();
    let d65 = [D65.0 / D65.1, 1.0, (1.0 - D65.0 - D65.1) / D65.1];
    for i in 0..3 {
        if (white[i] - d65[i]).abs() > 3e-6 {
            return ctx.fail("white", format!("{p:?}: white maps to {white:?}, D65 is {d65:?}"));
        }
    }
}
fn c14_convert(ctx: &mut Ctx) {
    let a = *ctx.pick("source primaries", &PRIMARIES);
    let b = *ctx.pick("destination primaries", &PRIMARIES);
    let t = *ctx.pick("transfer", &TRANSFERS);
    let r = ctx.choose("red", if ctx.thorough { 86 } else { 18 });
    let r = (r * if ctx.thorough { 3 } else { 15 }) as u16;
    let step = if ctx.thorough { 3 } else { 15 };
    let mut v = vec![];
    for g in (0..256).step_by(step) {
        for bl in (0..256).step_by(step) {
            v.push([r, g, bl]);
        }
    }
    ctx.note(|| format!("{a:?} -> {b:?} with {t:?}, red {r}"));
    let src = from_triples(RGB, 100, &v, false);
    conv_model(ctx, "convert", &src, rgbc(t, a), RGB, rgbc(t, b));
}
fn c14_greys(ctx: &mut Ctx) {
    let a = *ctx.pick("source primaries", &PRIMARIES);
    let b = *ctx.pick("destination primaries", &PRIMARIES);
    let t = *ctx.pick("transfer", &TRANSFERS);
    let (sf, df) = *ctx.pick("formats", &[(RGB, RGB), (RGBA, BGRA), (BGRA, BGR), (BGR, RGBA)]);
    let w = *ctx.pick("width", &[32usize, 18, 2]);
    ctx.note(|| format!("{sf:?} {a:?} -> {df:?} {b:?} with {t:?}, all greys, width {w}"));
    let v: Vec<[u16; 3]> = (0..256).map(|i| [i; 3]).collect();
    let src = from_triples(sf, w, &v, false);
    let Some(got) = conv_img(ctx, "greys", &src, rgbc(t, a), df, rgbc(t, b)) else { return };
    ctx.state(got.hash(0));
    ctx.stats.compared += 1;
    for y in 0..src.h {
        for x in 0..w {
            for c in 0..3 {
                if got.get(x, y, c) != src.get(x, y, c) {
                    return ctx.fail(
                        "greys",
                        format!("{sf:?} {a:?} -> {df:?} {b:?} with {t:?}: grey {} becomes {} in component {c} at {x},{y}", src.get(x, y, c), got.get(x, y, c)),
                    );
                }
            }
        }
    }
}
/// Chains of primaries ending where they began; intermediate images at 12 bits.
fn c14_chains(ctx: &mut Ctx) {
    let n = ctx.choose("length", if ctx.thorough { 4 } else { 2 }) + 2;
    let mut ps = vec![];
    for _ in 0..n {
        ps.push(*ctx.pick("primaries", &PRIMARIES));
    }
    let t = *ctx.pick("transfer", &[ColorTransfer::Linear, ColorTransfer::Gamma22, ColorTransfer::SRGB, ColorTransfer::SDR, ColorTransfer::BT2100HLG]);
    ctx.note(|| format!("{t:?} {ps:?} and back"));
    let mut v = vec![];
    for r in (0..256).step_by(51) {
        for g in (0..256).step_by(51) {
            for b in (0..256).step_by(51) {
                v.push([r as u16, g, b]);
            }
        }
    }
    let src = from_triples(RGB, 36, &v, false);
    let yc = |p| yuvc(t, p, ColorSpace::BT709, true);
    // stage values: RGB8 -> I412 (same primaries) -> ... -> RGB8
    let Some(mut cur) = conv_img(ctx, "chain", &src, rgbc(t, ps[0]), I412, yc(ps[0])) else { return };
    for i in 1..n {
        let Some(x) = conv_img(ctx, "chain", &cur, yc(ps[i - 1]), I412, yc(ps[i])) else { return };
        cur = x;
    }
    let Some(out) = conv_img(ctx, "chain", &cur, yc(ps[n - 1]), RGB, rgbc(t, ps[0])) else { return };
    ctx.state(out.hash(n as u64));
    ctx.stats.compared += 1;
    let mats: Vec<([[f64; 3]; 3], [[f64; 3]; 3])> =
        (0..n).map(|i| (rgb_to_xyz(ps[if i == 0 { 0 } else { i - 1 }]), inv3(&rgb_to_xyz(ps[i])))).collect();
    'px: for (i, t3) in v.iter().enumerate() {
        let (x, y) = (i % 36, i / 36);
        // in gamut at every stage? (with a margin for the 12-bit rounding of earlier stages)
        let mut l = t3.map(|k| dec(t, k as f64 / 255.0));
        let l0 = l;
        let mut minl: f64 = 1.0;
        for (i, m) in mats.iter().enumerate().skip(1) {
            let _ = i;
            let xyz: Vec<f64> = (0..3).map(|r| (0..3).map(|c| m.0[r][c] * l[c]).sum()).collect();
            l = [0, 1, 2].map(|r| (0..3).map(|c| m.1[r][c] * xyz[c]).sum());
            for k in l {
                if !(0.0..=1.0).contains(&k) {
                    continue 'px;
                }
                minl = minl.min(k);
            }
        }
        // the last step back to the first primaries
        for c in 0..3 {
            // bound: every stage rounds each YUV component to 12 bits (error 0.5/4095 in Y, times
            // the matrix gain in R, G, B), is amplified by at most the product of the row sums
            let got = out.get(x, y, c) as f64 / 255.0;
            let want = t3[c] as f64 / 255.0;
            let stage = 0.5 / 4095.0 * (1.0 + 1.8556) * 1.02;
            // error in linear light: slope of the decoding function over the stage's error
            let dl = |e: f64| (dec(t, (e + stage).min(1.5)) - dec(t, (e - stage).max(0.0))).abs();
            let gain = 2.6; // largest absolute row sum of any primaries-to-primaries matrix
            let mut err = 0.0;
            for k in 0..n {
                let _ = k;
                err = (err + dl(1.0).max(dl(enc(t, l0[c])))) * if n > 2 { gain } else { 2.6 };
            }
            let lo = enc(t, (l0[c] - err).max(0.0)).min(want) - stage - 0.502 / 255.0;
            let hi = enc(t, l0[c] + err).max(want) + stage + 0.502 / 255.0;
            ctx.stats.samples_checked += 1;
            if got < lo || got > hi {
                return ctx.fail("chain", format!("{t:?} {ps:?} and back: {t3:?} returns {} in component {c}", out.get(x, y, c)));
            }
        }
    }
}

// ---- C15 -------------------------------------------------------------------------------------
pub fn c15() -> Vec<Scenario> {
    vec![slow("there and back", c15_trip), sc("every YUV color", c15_colors), sc("large images", super::large::c15)]
}
/// Is `got` explained by rounding the YUV samples once (and the RGB sample once)?
pub(super) fn c15_bound(m: &Conv, bits_: u32, rgb: [u16; 3]) -> [Iv; 3] {
    let v = rgb.map(|k| iv(k as f64 / 255.0).widen(1e-7));
    let yuv = m.to_yuv(v);
    let mx = ((1u32 << bits_) - 1) as f64;
    let mut q = yuv;
    for i in 0..3 {
        let (o, k) = quant(bits_, m.s.full_range, i > 0);
        // the stored code is within half a step of the value, clipped to the sample range
        let code = yuv[i].mul(k).addf(o).widen(0.502);
        let code = Iv { lo: code.lo.clamp(0.0, mx), hi: code.hi.clamp(0.0, mx) };
        q[i] = code.addf(-o).mul(1.0 / k);
    }
    m.to_rgb(q).map(|x| x.mul(255.0))
}
pub(super) fn c15_run(ctx: &mut Ctx, sig: &str, rf: PixelFormat, yf: PixelFormat, yc: ColorInfo, v: &[[u16; 3]], w: usize) {
    let ColorInfo::YUV(y) = yc else { return };
    let rc = rgbc(y.transfer, y.primaries);
    let src = from_triples(rf, w, v, sub(yf) != (1, 1));
    let Some(a) = conv_img(ctx, sig, &src, rc, yf, yc) else { return };
    let Some(b) = conv_img(ctx, sig, &a, yc, rf, rc) else { return };
    ctx.state(b.hash(mix(yf as u64, hash_bytes(0, cname(yc).as_bytes()))));
    ctx.stats.compared += 1;
    let m = Conv::new(y);
    let mut last = ([0xffff; 3], [iv(0.0); 3]);
    for yy in 0..src.h {
        for x in 0..w {
            let t = [src.get(x, yy, 0), src.get(x, yy, 1), src.get(x, yy, 2)];
            if t != last.0 {
                last = (t, c15_bound(&m, bits(yf), t));
            }
            for c in 0..3 {
                ctx.stats.samples_checked += 1;
                let g = b.get(x, yy, c);
                if !accept(g, last.1[c], 255) {
                    return ctx.fail(
                        sig,
                        format!("{rf:?} -> {yf:?} {} -> {rf:?}: {t:?} returns component {c} = {g}, quantization explains {:.2}..{:.2}", cname(yc), last.1[c].lo, last.1[c].hi),
                    );
                }
            }
        }
    }
}
fn c15_trip(ctx: &mut Ctx) {
    let step = if ctx.thorough { 1 } else { 3 };
    let r = ctx.choose("red", 255 / step + 1);
    let r = (r * step) as u16;
    let space = *ctx.pick("space", &SPACES);
    let full = ctx.flag("full range");
    let yf = *ctx.pick("format", &[I444, I412, I410]);
    if ctx.thorough && kr_kb(space).is_none() && r % 4 != 3 && r != 0 {
        return;
    }
    let mut v = vec![];
    for g in (0..256).step_by(step) {
        for b in (0..256).step_by(step) {
            v.push([r, g, b]);
        }
    }
    ctx.note(|| format!("RGB -> {yf:?} {space:?} full {full} -> RGB, red {r}"));
    c15_run(ctx, "trip", RGB, yf, yuvc(ColorTransfer::SDR, ColorPrimaries::BT709, space, full), &v, if ctx.thorough { 256 } else { 86 });
}
fn c15_colors(ctx: &mut Ctx) {
    let cs = all_colors(false);
    let yc = *ctx.pick("color", &cs);
    let yf = *ctx.pick("format", &YUVS);
    let rf = *ctx.pick("RGB format", if ctx.thorough { &RGBS[..] } else { &[BGRA] });
    let w = *ctx.pick("width", if ctx.thorough { &[2usize, 34, 66][..] } else { &[34] });
    let n = if ctx.thorough { 17 } else { 51 };
    let mut v = vec![];
    for r in (0..256u16).step_by(n) {
        for g in (0..256).step_by(n) {
            for b in (0..256).step_by(n) {
                v.push([r, g, b]);
            }
        }
    }
    if w == 2 {
        v.truncate(40);
    }
    ctx.note(|| format!("{rf:?} -> {yf:?} {} -> {rf:?} width {w}", cname(yc)));
    c15_run(ctx, "colors", rf, yf, yc, &v, w);
}

// ---- C20 -------------------------------------------------------------------------------------
pub fn c20() -> Vec<Scenario> {
    vec![sc("carried", c20_carry), sc("opaque", c20_opaque), sc("no influence", c20_influence), sc("two alpha values", c20_two), sc("large images", super::large::c20)]
}
const ALPHA: [PixelFormat; 2] = [RGBA, BGRA];
fn c20_carry(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &ALPHA);
    let df = *ctx.pick("destination", &ALPHA);
    let a = *ctx.pick("source color", &all_colors(true));
    let b = *ctx.pick("destination color", &all_colors(true));
    let few = ctx.thorough || (a.transfer() == ColorTransfer::Linear || a == b);
    let w = *ctx.pick("width", if few { &FEW_WIDTHS[..] } else { &[34] });
    let v = ctx.choose("alpha", if few && a == b || ctx.thorough { 8 } else { 2 });
    let src = Img::new(sf, w, 4);
    let mut src = src.fill(noise(sf, 101));
    for y in 0..4 {
        for x in 0..w {
            src.set(x, y, 3, ((v * 32 + x * 5 + y * w * 5) % 256) as u16);
        }
    }
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x4, alpha from {}", cname(a), cname(b), v * 32));
    let Some(got) = conv_img(ctx, "carry", &src, a, df, b) else { return };
    ctx.state(got.hash(df as u64));
    ctx.stats.compared += 1;
    for y in 0..4 {
        for x in 0..w {
            ctx.stats.samples_checked += 1;
            if got.get(x, y, 3) != src.get(x, y, 3) {
                return ctx.fail(
                    "carry",
                    format!("{sf:?} {} -> {df:?} {} {w}x4: alpha {} at {x},{y} becomes {}", cname(a), cname(b), src.get(x, y, 3), got.get(x, y, 3)),
                );
            }
        }
    }
}
fn c20_opaque(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &FORMATS);
    if ncomp(sf) == 4 {
        return;
    }
    let df = *ctx.pick("destination", &ALPHA);
    let a = *ctx.pick("source color", &path_colors(sf));
    let b = *ctx.pick("destination color", &path_colors(df));
    let w = *ctx.pick("width", &widths());
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2)]);
    ctx.note(|| format!("{mode:?} {sf:?} {} -> {df:?} {} {w}x4", cname(a), cname(b)));
    let src = Img::new(sf, w, 4).fill(noise(sf, 102));
    let mut s = place(ctx.arena, sf, w, 4, &PACKED);
    s.store(&src);
    let d = place(ctx.arena, df, w, 4, &PACKED);
    if !must(ctx, "opaque", mode, &s, a, &d, b) {
        return;
    }
    let got = d.load();
    ctx.state(got.hash(df as u64));
    ctx.stats.compared += 1;
    for y in 0..4 {
        for x in 0..w {
            ctx.stats.samples_checked += 1;
            if got.get(x, y, 3) != 255 {
                return ctx.fail("opaque", format!("{mode:?} {sf:?} {} -> {df:?} {} {w}x4: alpha {} at {x},{y}", cname(a), cname(b), got.get(x, y, 3)));
            }
        }
    }
}
/// One alpha value everywhere except for one pixel, block, row or column.
fn c20_two(ctx: &mut Ctx) {
    const VALUES: [u16; 5] = [0, 255, 254, 1, 128];
    let sf = *ctx.pick("source", &ALPHA);
    let df = *ctx.pick("destination", &ALPHA);
    let (a, b) = *ctx.pick(
        "colors",
        &[
            (default_color(sf), default_color(df)),
            (default_color(sf), rgbc(ColorTransfer::Linear, ColorPrimaries::BT709)),
            (rgbc(ColorTransfer::SRGB, ColorPrimaries::BT2020), rgbc(ColorTransfer::SRGB, ColorPrimaries::BT709)),
        ],
    );
    let (w, h) = *ctx.pick("size", &[(2usize, 2usize), (2, 6), (6, 4), (36, 6)]);
    let (most, one) = (*ctx.pick("alpha", &VALUES), *ctx.pick("other alpha", &VALUES));
    let kind = *ctx.pick("where", &["pixel", "block", "row", "column", "pixels from here on", "blocks of rows from here on"]);
    let grey = ctx.flag("grey");
    if most == one {
        return;
    }
    let n = match kind {
        "pixel" | "pixels from here on" => w * h,
        "block" => w * h / 4,
        "row" => h,
        "column" => w,
        _ => h / 2,
    };
    let k = ctx.choose("which", n);
    let hit = |x: usize, y: usize| match kind {
        "pixel" => k == y * w + x,
        "pixels from here on" => y * w + x >= k,
        "block" => k == y / 2 * (w / 2) + x / 2,
        "row" => k == y,
        "column" => k == x,
        _ => y / 2 >= k,
    };
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x{h}, alpha {most}, {kind} {k} {one}", cname(a), cname(b)));
    let mut src = Img::new(sf, w, h).fill(noise(sf, 104));
    if grey {
        src = src.fill(|_, _, _| 0x40);
    }
    let fill = |src: &mut Img, f: &dyn Fn(usize, usize) -> u16| {
        for y in 0..h {
            for x in 0..w {
                src.set(x, y, 3, f(x, y));
            }
        }
    };
    fill(&mut src, &|x, y| if hit(x, y) { one } else { most });
    let Some(got) = conv_img(ctx, "carry", &src, a, df, b) else { return };
    fill(&mut src, &|_, _| 77);
    let Some(plain) = conv_img(ctx, "carry", &src, a, df, b) else { return };
    ctx.state(got.hash(df as u64));
    ctx.stats.compared += 1;
    for y in 0..h {
        for x in 0..w {
            ctx.stats.samples_checked += 4;
            let want = if hit(x, y) { one } else { most };
            let head = || format!("{sf:?} {} -> {df:?} {} {w}x{h}, alpha {most}, {kind} {k} {one}: at {x},{y}", cname(a), cname(b));
            if got.get(x, y, 3) != want {
                return ctx.fail("carry", format!("{} alpha {want} becomes {}", head(), got.get(x, y, 3)));
            }
            for c in 0..3 {
                if got.get(x, y, c) != plain.get(x, y, c) {
                    return ctx.fail("influence", format!("{} component {c} is {}, with another alpha {}", head(), got.get(x, y, c), plain.get(x, y, c)));
                }
            }
        }
    }
}
/// Same colors, different alpha: same destination colors.
fn c20_influence(ctx: &mut Ctx) {
    let df = *ctx.pick("destination", &FORMATS);
    let sf = *ctx.pick("source", &ALPHA);
    let a = *ctx.pick("source color", &path_colors(sf));
    let b = *ctx.pick("destination color", &path_colors(df));
    let w = *ctx.pick("width", &FEW_WIDTHS);
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x4, alpha varied", cname(a), cname(b)));
    let base = Img::new(sf, w, 4).fill(noise(sf, 103));
    let mut out: Vec<Img> = vec![];
    for k in 0..5usize {
        let mut t = base.clone();
        for y in 0..4 {
            for x in 0..w {
                t.set(x, y, 3, [0, 255, 128, (x * 7 + y) as u16 % 256, if (x + y) % 2 == 0 { 0 } else { 255 }][k]);
            }
        }
        let Some(mut g) = conv_img(ctx, "influence", &t, a, df, b) else { return };
        if ncomp(df) == 4 {
            for y in 0..4 {
                for x in 0..w {
                    g.set(x, y, 3, 0);
                }
            }
        }
        ctx.stats.compared += 1;
        out.push(g);
        if let Some(x) = img_diff(&out[0], &out[k]) {
            return ctx.fail("influence", format!("{sf:?} {} -> {df:?} {} {w}x4: colors depend on alpha: {x}", cname(a), cname(b)));
        }
    }
    ctx.state(out[0].hash(df as u64));
}

// ---- C21 -------------------------------------------------------------------------------------
pub fn c21() -> Vec<Scenario> {
    vec![sc("greys to YUV", c21_to), sc("neutral YUV to RGB", c21_from), sc("nominal levels", c21_levels), sc("beyond the nominal levels", c21_beyond), sc("large images", super::large::c21)]
}
/// A neutral pixel keeps mid-scale chroma.  ICtCp's published (rounded) constants leave a small
/// residue, so there a tolerance relative to the range applies.
fn c21_to(ctx: &mut Ctx) {
    let cs = all_colors(false);
    let yc = *ctx.pick("color", &cs);
    let df = *ctx.pick("destination", &YUVS);
    let sf = *ctx.pick("source", if ctx.thorough { &RGBS[..] } else { &[RGB] });
    let w = *ctx.pick("width", if ctx.thorough { &[2usize, 16, 34, 66][..] } else { &[34] });
    ctx.note(|| format!("all greys {sf:?} -> {df:?} {} width {w}", cname(yc)));
    let v: Vec<[u16; 3]> = (0..256).map(|i| [i; 3]).collect();
    greys_to(ctx, sf, df, yc, &v, w);
}
pub(super) fn greys_to(ctx: &mut Ctx, sf: PixelFormat, df: PixelFormat, yc: ColorInfo, v: &[[u16; 3]], w: usize) {
    let ColorInfo::YUV(y) = yc else { return };
    let src = from_triples(sf, w, v, sub(df) != (1, 1));
    let Some(got) = conv_img(ctx, "greys", &src, rgbc(y.transfer, y.primaries), df, yc) else { return };
    ctx.state(got.hash(hash_bytes(df as u64, cname(yc).as_bytes())));
    ctx.stats.compared += 1;
    let mid = (1u16 << (bits(df) - 1)) as i32;
    let matrix = kr_kb(y.space).is_some();
    let tol = if matrix { 0 } else { 1i32 << (bits(df) - 8) };
    let (o, k) = quant(bits(df), y.full_range, false);
    for yy in 0..src.h {
        for x in 0..w {
            ctx.stats.samples_checked += 3;
            let g = src.get(x, yy, 0);
            let l = got.get(x, yy, 0);
            for c in 1..3 {
                let u = got.get(x, yy, c) as i32;
                if (u - mid).abs() > tol {
                    return ctx.fail("greys", format!("{sf:?} -> {df:?} {}: grey {g} has chroma {u} at {x},{yy}, neutral is {mid}", cname(yc)));
                }
            }
            let want = o + k * g as f64 / 255.0;
            if matrix && (l as f64 - want).abs() > 0.502 {
                return ctx.fail("greys", format!("{sf:?} -> {df:?} {}: grey {g} has luma {l} at {x},{yy}, scaled {want:.3}", cname(yc)));
            }
        }
    }
}
fn c21_from(ctx: &mut Ctx) {
    let cs = all_colors(false);
    let yc = *ctx.pick("color", &cs);
    let sf = *ctx.pick("source", &YUVS);
    let df = *ctx.pick("destination", if ctx.thorough { &RGBS[..] } else { &[BGRA] });
    let w = *ctx.pick("width", if ctx.thorough { &[2usize, 18, 66][..] } else { &[66] });
    ctx.note(|| format!("all neutral samples {sf:?} {} -> {df:?} width {w}", cname(yc)));
    let m = max(sf) as usize + 1;
    let mid = 1u16 << (bits(sf) - 1);
    let n = m.min(w * 30);
    for part in 0..m.div_ceil(n) {
        let v: Vec<[u16; 3]> = (0..n).map(|i| [(part * n + i).min(m - 1) as u16, mid, mid]).collect();
        ctx.arena.reset();
        if !neutral_from(ctx, sf, yc, df, &v, w) {
            return;
        }
    }
}
pub(super) fn neutral_from(ctx: &mut Ctx, sf: PixelFormat, yc: ColorInfo, df: PixelFormat, v: &[[u16; 3]], w: usize) -> bool {
    let ColorInfo::YUV(y) = yc else { return false };
    let matrix = kr_kb(y.space).is_some();
    let src = from_triples(sf, w, v, sub(sf) != (1, 1));
    let Some(got) = conv_img(ctx, "neutral", &src, yc, df, rgbc(y.transfer, y.primaries)) else { return false };
    ctx.state(got.hash(hash_bytes(sf as u64, cname(yc).as_bytes())));
    ctx.stats.compared += 1;
    for yy in 0..src.h {
        for x in 0..w {
            ctx.stats.samples_checked += 3;
            let t = [got.get(x, yy, 0), got.get(x, yy, 1), got.get(x, yy, 2)];
            let (lo, hi) = (*t.iter().min().unwrap(), *t.iter().max().unwrap());
            if hi - lo > if matrix { 0 } else { 1 } {
                ctx.fail("neutral", format!("{sf:?} {} -> {df:?}: neutral luma {} becomes {t:?} at {x},{yy}", cname(yc), src.get(x, yy, 0)));
                return false;
            }
        }
    }
    true
}
/// Black and white at every position.
fn c21_levels(ctx: &mut Ctx) {
    let w = *ctx.pick("width", &widths());
    let df = *ctx.pick("destination", &YUVS);
    let space = *ctx.pick("space", &SPACES);
    let full = ctx.flag("full range");
    let white = ctx.flag("white");
    let sf = *ctx.pick("source", if ctx.thorough { &RGBS[..] } else { &[RGB, RGBA] });
    // ICtCp is defined on the transfer of its own standard
    let t = if kr_kb(space).is_some() { ColorTransfer::SDR } else { ictcp_transfer(space) };
    let p = if kr_kb(space).is_some() { ColorPrimaries::BT709 } else { ColorPrimaries::BT2020 };
    let yc = yuvc(t, p, space, full);
    ctx.note(|| format!("{} {sf:?} -> {df:?} {} width {w}", if white { "white" } else { "black" }, cname(yc)));
    let src = Img::new(sf, w, 2).fill(|_, _, _| if white { 255 } else { 0 });
    let Some(got) = conv_img(ctx, "levels", &src, rgbc(t, p), df, yc) else { return };
    ctx.state(got.hash(hash_bytes(df as u64, cname(yc).as_bytes())));
    ctx.stats.compared += 1;
    let s = 1u16 << (bits(df) - 8);
    let want = match (full, white) {
        (true, true) => max(df),
        (true, false) => 0,
        (false, true) => 235 * s,
        (false, false) => 16 * s,
    };
    let tol = if kr_kb(space).is_some() { 0 } else { s };
    for y in 0..2 {
        for x in 0..w {
            for (c, want) in [(0, want), (1, 128 * s), (2, 128 * s)] {
                let g = got.get(x, y, c);
                if g.abs_diff(want) > if c == 0 && kr_kb(space).is_none() { s / 2 } else { tol } {
                    return ctx.fail("levels", format!("{} {sf:?} -> {df:?} {}: component {c} is {g} at {x},{y}, nominal {want}", if white { "white" } else { "black" }, cname(yc)));
                }
            }
        }
    }
}
/// Luma at or beyond the nominal end points is black or white.
fn c21_beyond(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &YUVS);
    let space = *ctx.pick("space", &SPACES[..3]);
    let full = ctx.flag("full range");
    let df = *ctx.pick("destination", &RGBS);
    let w = *ctx.pick("width", &FEW_WIDTHS);
    let s = 1u16 << (bits(sf) - 8);
    let (lo, hi) = if full { (0, max(sf)) } else { (16 * s, 235 * s) };
    let cases: [(u16, u16); 6] = [(lo, 0), (lo / 2, 0), (0, 0), (hi, 255), ((hi + max(sf)) / 2, 255), (max(sf), 255)];
    let (l, want) = *ctx.pick("luma", &cases);
    let t = *ctx.pick("transfer", &[ColorTransfer::Linear, ColorTransfer::SRGB]);
    let yc = yuvc(t, ColorPrimaries::BT709, space, full);
    ctx.note(|| format!("luma {l} {sf:?} {} -> {df:?} width {w}", cname(yc)));
    let mut src = Img::new(sf, w, 2);
    for y in 0..2 {
        for x in 0..w {
            for (c, v) in [(0, l), (1, 128 * s), (2, 128 * s)] {
                src.set(x, y, c, v);
            }
        }
    }
    let Some(got) = conv_img(ctx, "beyond", &src, yc, df, rgbc(t, ColorPrimaries::BT709)) else { return };
    ctx.state(got.hash(hash_bytes(df as u64, cname(yc).as_bytes())));
    ctx.stats.compared += 1;
    for y in 0..2 {
        for x in 0..w {
            for c in 0..3 {
                if got.get(x, y, c) != want {
                    return ctx.fail("beyond", format!("luma {l} {sf:?} {} -> {df:?}: component {c} is {} at {x},{y}", cname(yc), got.get(x, y, c)));
                }
            }
        }
    }
}
