//! Small scenarios for the explorer running as a 64-bit ARM program under an interpreter (Miri),
//! which is how the library's NEON path is explored on this machine.  Images are a few vectors
//! wide; the judgements are those of the full-size scenarios.
use super::color::*;
use super::memory::{outside, same, two_dst};
use super::sc;
use crate::explore::*;
use crate::img::*;
use crate::mem::Flush;
use crate::ops::*;
use ezk_image::*;
use PixelFormat::*;

/// 0 to 3 steps of two vectors, with and without a remainder.
const W: [usize; 5] = [2, 8, 10, 18, 24];

pub fn small(id: &str) -> Vec<Scenario> {
    match id {
        "C03" => vec![sc("every pair", c03), sc("layouts", c03_layouts)],
        "C04" => vec![sc("every pair", c04)],
        "C05" => vec![sc("every pair", c05)],
        "C06" => vec![sc("copies", c06), sc("RGB reordering", c06_reorder)],
        "C07" => vec![sc("every pair of formats", c07), sc("RGB to every YUV color", c07_rgb_yuv), sc("every YUV color to RGB", c07_yuv_rgb), sc("transfer and primaries", c07_tp)],
        "C08" => vec![sc("tiles", c08)],
        "C10" => vec![sc("windows", c10)],
        "C11" => vec![sc("one pixel", c11), sc("between subsampled formats", c11_between)],
        "C12" => vec![sc("corners", c12), sc("out of gamut", c12_gamut)],
        "C13" => vec![sc("ramps", c13)],
        "C14" => vec![sc("primaries", c14)],
        "C15" => vec![sc("there and back", c15)],
        "C20" => vec![sc("carried", c20), sc("opaque", c20_opaque)],
        "C21" => vec![sc("greys to YUV", c21), sc("neutral YUV to RGB", c21_from)],
        _ => vec![],
    }
}
/// the i-th color of a format, all of them selected over the indices
fn col(f: PixelFormat, i: usize) -> ColorInfo {
    let v = path_colors(f);
    v[i % v.len()]
}
fn few<T: Copy>(v: &[T], deep: bool, step: usize) -> Vec<T> {
    if deep {
        v.to_vec()
    } else {
        v.iter().copied().step_by(step).collect()
    }
}

fn c03(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let w = *ctx.pick("width", if ctx.deep { &W[..] } else { &W[2..3] });
    let flush = *ctx.pick("guard", &[Flush::Left, Flush::Right]);
    ctx.note(|| format!("{sf:?} -> {df:?} {w}x2, guard {flush:?}"));
    let l = Layout { flush, ..PACKED };
    let mut s = place(ctx.arena, sf, w, 2, &l);
    s.store(&Img::new(sf, w, 2).fill(noise(sf, 3)));
    let d = place(ctx.arena, df, w, 2, &l);
    ctx.state(mix(mix(sf as u64, df as u64), w as u64));
    must(ctx, "convert", Mode::Single, &s, default_color(sf), &d, default_color(df));
    outside(ctx, &s, &d);
}
fn c03_layouts(ctx: &mut Ctx) {
    let i = ctx.choose("format", 15);
    let k = ctx.choose("layout", if ctx.deep { 14 } else { 5 });
    let (sf, df) = (FORMATS[i], FORMATS[(i * 4 + 3 + k) % 15]);
    let (sl, dl) = (&LAYOUTS[k], &LAYOUTS[(k * 5 + 4) % 18]);
    ctx.note(|| format!("{sf:?} ({}) -> {df:?} ({}) 10x4", sl.name, dl.name));
    let mut s = place(ctx.arena, sf, 10, 4, sl);
    s.store(&Img::new(sf, 10, 4).fill(noise(sf, 4)));
    let d = place(ctx.arena, df, 10, 4, dl);
    let dc = if sf == df { other_color(df) } else { default_color(df) };
    ctx.state(mix(mix(sf as u64, df as u64), k as u64));
    must(ctx, "convert", Mode::Single, &s, default_color(sf), &d, dc);
    outside(ctx, &s, &d);
}
fn c04(ctx: &mut Ctx) {
    let i = ctx.choose("pair", 225);
    let (sf, df) = pair(i);
    let w = *ctx.pick("width", if ctx.deep { &W[..] } else { &W[2..3] });
    let n = if ctx.deep { 5 } else { 1 };
    let k = ctx.choose("layout", n);
    let (sl, dl) = (&LAYOUTS[(k * 3 + 2) % 18], &LAYOUTS[(k * 3 + 3) % 18]);
    ctx.note(|| format!("{sf:?} ({}) -> {df:?} ({}) {w}x2", sl.name, dl.name));
    two_dst(ctx, Mode::Single, sf, sl, default_color(sf), df, dl, other_color(df), w, 2);
}
fn c05(ctx: &mut Ctx) {
    let i = ctx.choose("pair", 225);
    let (sf, df) = pair(i);
    let n = if ctx.deep { 14 } else { 1 };
    let k = ctx.choose("layout", n);
    let (sl, dl) = (&LAYOUTS[(k + i) % 18], &LAYOUTS[(k * 3 + i + 4) % 18]);
    ctx.note(|| format!("{sf:?} ({}) -> {df:?} ({}) 10x2", sl.name, dl.name));
    let src = Img::new(sf, 10, 2).fill(noise(sf, 21));
    same(ctx, Mode::Single, &src, default_color(sf), df, other_color(df), sl, dl);
}
fn c06(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let w = *ctx.pick("width", &W);
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Copy]);
    ctx.note(|| format!("{mode:?} {f:?} {w}x4"));
    let src = Img::new(f, w, 4).fill(noise(f, 41));
    lossless(ctx, mode, &src, default_color(f), &PACKED);
}
fn c06_reorder(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &RGBS);
    let df = *ctx.pick("destination", &RGBS);
    let w = *ctx.pick("width", &W);
    let v = ctx.choose("values", if ctx.deep { 8 } else { 2 });
    ctx.note(|| format!("{sf:?} -> {df:?} {w}x4, values from {v}"));
    let src = Img::new(sf, w, 4).fill(|_, c, r| ((v * 32 + c * 7 + r * 61) % 256) as u16);
    let c = default_color(sf);
    reorder(ctx, Mode::Single, &src, c, df, c);
}
fn c07(ctx: &mut Ctx) {
    let i = ctx.choose("pair", 225);
    let (sf, df) = pair(i);
    let n = if ctx.deep { 10 } else { 1 };
    let k = ctx.choose("colors", n);
    let (a, b) = (col(sf, k + i), col(df, (k + i) / 2 + k));
    if sf == df && a == b {
        return;
    }
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} 18x2", cname(a), cname(b)));
    conv_model(ctx, "pairs", &Img::new(sf, 18, 2).fill(noise(sf, 51 + k as u64)), a, df, b);
}
/// content of the color sweeps: mid-tones and, at some places, extremes
fn sweep(f: PixelFormat) -> Img {
    let a = Img::new(f, 18, 2).fill(noise(f, 57));
    let m = Img::new(f, 18, 2).fill(midtone(f, 58));
    Img::new(f, 18, 2).fill(|p, c, r| {
        let n = a.cols(p);
        if c % 3 == 1 { a.planes[p][r * n + c] } else { m.planes[p][r * n + c] }
    })
}
fn c07_rgb_yuv(ctx: &mut Ctx) {
    let cs = few(&all_colors(false), ctx.deep, 11);
    let k = ctx.choose("color", cs.len());
    let c = cs[k];
    let df = *ctx.pick("destination", if ctx.deep { &[I444, I412, NV12, I010, YUYV][..] } else { &[I412] });
    let sf = RGBS[k % 4];
    ctx.note(|| format!("{sf:?} -> {df:?} {}", cname(c)));
    conv_model(ctx, "rgb-yuv", &sweep(sf), rgbc(c.transfer(), c.primaries()), df, c);
}
fn c07_yuv_rgb(ctx: &mut Ctx) {
    let cs = few(&all_colors(false), ctx.deep, 11);
    let k = ctx.choose("color", cs.len());
    let c = cs[k];
    let sf = *ctx.pick("source", if ctx.deep { &[I444, I412, NV12, I010, YUYV][..] } else { &[I412] });
    let df = RGBS[k % 4];
    ctx.note(|| format!("{sf:?} {} -> {df:?}", cname(c)));
    conv_model(ctx, "yuv-rgb", &sweep(sf), c, df, rgbc(c.transfer(), c.primaries()));
}
fn c07_tp(ctx: &mut Ctx) {
    let cs = all_colors(true);
    let i = ctx.choose("source color", cs.len());
    let n = if ctx.deep { cs.len() } else { 3 };
    let j = ctx.choose("destination color", n);
    let (a, b) = (cs[i], cs[(i * 5 + j * 7 + 1) % cs.len()]);
    ctx.note(|| format!("RGB {} -> BGRA {}", cname(a), cname(b)));
    conv_model(ctx, "transfer-primaries", &sweep(RGB), a, BGRA, b);
}
fn c08(ctx: &mut Ctx) {
    let i = ctx.choose("pair", 225);
    let (sf, df) = pair(i);
    let w = *ctx.pick("width", if ctx.deep { &W[1..] } else { &W[2..3] });
    let (a, b) = (col(sf, i), col(df, i / 2));
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x2 against its 2x2 tiles", cname(a), cname(b)));
    let src = Img::new(sf, w, 2).fill(noise(sf, 61));
    let Some(whole) = conv_img(ctx, "convert", &src, a, df, b) else { return };
    ctx.state(whole.hash(df as u64));
    for x in (0..w).step_by(2) {
        let tile = src.window(x, 0, 2, 2);
        let Some(part) = conv_img(ctx, "convert", &tile, a, df, b) else { return };
        if !c08_compare(ctx, &whole, &part, x, 0, &tile, a, b) {
            return;
        }
    }
}
fn c10(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let k = ctx.choose("other format", if ctx.deep { 15 } else { 3 });
    let of = FORMATS[(f as usize + k * 4 + 1) % 15];
    let into = ctx.flag("into");
    let (l, t, r, b) = *ctx.pick("margins", &[(2usize, 2usize, 2usize, 2usize), (4, 2, 0, 0), (0, 0, 6, 2)]);
    let win = Layout { kind: Kind::Crop(l, t, r, b), ..PACKED };
    let (sf, sl, df, dl) = if into { (of, &PACKED, f, &win) } else { (f, &win, of, &PACKED) };
    ctx.note(|| format!("{sf:?} {:?} -> {df:?} {:?} 10x2", sl.kind, dl.kind));
    let src = Img::new(sf, 10, 2).fill(noise(sf, 22));
    same(ctx, Mode::Single, &src, default_color(sf), df, other_color(df), sl, dl);
    let mut s = place(ctx.arena, sf, 10, 2, sl);
    s.store(&src);
    let d = place(ctx.arena, df, 10, 2, dl);
    if must(ctx, "convert", Mode::Single, &s, default_color(sf), &d, other_color(df)) {
        if let Err(e) = d.surroundings(dl.fill) {
            ctx.fail("surroundings", format!("{} -> {} ({:?}): {e}", head(&s), head(&d), dl.kind));
        }
    }
}
fn c11(ctx: &mut Ctx) {
    let df = *ctx.pick("destination", &SUBSAMPLED);
    let sf = *ctx.pick("source", &[RGB, BGRA, I412]);
    let i = ctx.choose("pixel", if ctx.deep { 20 } else { 5 });
    let c = *ctx.pick("color", if ctx.deep { path_colors(df) } else { path_colors(df)[..1].to_vec() }.as_slice());
    let i = if ctx.deep { i } else { [0, 7, 9, 12, 19][i] };
    let scol = if is_rgb(sf) { rgbc(c.transfer(), c.primaries()) } else { default_color(sf) };
    ctx.note(|| format!("{sf:?} -> {df:?} {} 10x2, colored pixel {i}", cname(c)));
    let m = max(sf) / 2;
    let mut src = Img::new(sf, 10, 2).fill(|_, _, _| m);
    src.set(i % 10, i / 10, 0, m + m / 2);
    src.set(i % 10, i / 10, 2, m / 3);
    conv_model(ctx, "impulse", &src, scol, df, c);
}
fn c11_between(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &SUBSAMPLED);
    let df = *ctx.pick("destination", &SUBSAMPLED);
    let w = *ctx.pick("width", if ctx.deep { &W[..] } else { &W[2..3] });
    let c = |full| yuvc(ColorTransfer::SDR, ColorPrimaries::BT709, ColorSpace::BT709, full);
    ctx.note(|| format!("{sf:?} -> {df:?} {w}x4"));
    conv_model(ctx, "between", &Img::new(sf, w, 4).fill(midtone(sf, 93)), c(true), df, c(false));
}
fn c12(ctx: &mut Ctx) {
    let i = ctx.choose("pair", 225);
    let (sf, df) = pair(i);
    let n = if ctx.deep { 5 } else { 1 };
    let k = ctx.choose("colors", n);
    let (a, b) = (col(sf, i + k), col(df, i / 2 + k / 2));
    if sf == df && a == b {
        return;
    }
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} corners", cname(a), cname(b)));
    // the eight corners, one level inside each, and the centre
    let m = max(sf);
    let mut v: Vec<[u16; 3]> = (0..8u16).map(|q| [m * (q & 1), m * (q >> 1 & 1), m * (q >> 2)]).collect();
    v.push([m / 2; 3]);
    let src = from_triples(sf, 18, &v, true);
    conv_model(ctx, "corners", &src, a, df, b);
}
fn c12_gamut(ctx: &mut Ctx) {
    let cs = all_colors(true);
    let i = ctx.choose("source color", cs.len());
    let n = if ctx.deep { cs.len() } else { 3 };
    let j = ctx.choose("destination color", n);
    let df = *ctx.pick("destination", if ctx.deep { &[BGRA, I412][..] } else { &[BGRA] });
    let (a, b) = (cs[i], cs[(i * 5 + j * 7 + 1) % cs.len()]);
    let b = if is_rgb(df) { b } else { yuvc(b.transfer(), b.primaries(), ColorSpace::BT709, true) };
    ctx.note(|| format!("RGBA {} -> {df:?} {}, corners", cname(a), cname(b)));
    let v: Vec<[u16; 3]> = (0..8u16).map(|q| [255 * (q & 1), 255 * (q >> 1 & 1), 255 * (q >> 2)]).collect();
    conv_model(ctx, "gamut", &from_triples(RGBA, 8, &v, false), a, df, b);
}
fn c13(ctx: &mut Ctx) {
    let a = *ctx.pick("source transfer", &TRANSFERS);
    let b = *ctx.pick("destination transfer", &TRANSFERS);
    let n = if ctx.deep { 8 } else { 1 };
    let k = ctx.choose("part", n);
    ctx.note(|| format!("RGB {a:?} -> I412 {b:?}, 32 grey levels"));
    let v: Vec<[u16; 3]> = (0..32).map(|i| [(i * 8 + k) as u16 + (i as u16 == 31) as u16 * (7 - k as u16); 3]).collect();
    let src = from_triples(RGB, 16, &v, false);
    let p = ColorPrimaries::BT709;
    conv_model(ctx, "ramp", &src, rgbc(a, p), I412, yuvc(b, p, ColorSpace::BT709, true));
}
fn c14(ctx: &mut Ctx) {
    let a = *ctx.pick("source primaries", &PRIMARIES);
    let b = *ctx.pick("destination primaries", &PRIMARIES);
    let t = *ctx.pick("transfer", &TRANSFERS);
    let n = if ctx.deep { 6 } else { 1 };
    let r = ctx.choose("red", n) as u16 * 51;
    let r = if ctx.deep { r } else { 153 };
    ctx.note(|| format!("{a:?} -> {b:?} with {t:?}, red {r}"));
    let mut v = vec![[0; 3], [255; 3], [r; 3]];
    for g in (0..256).step_by(51) {
        v.push([r, g, 255 - g]);
        v.push([r, g, g / 2]);
    }
    conv_model(ctx, "convert", &from_triples(RGB, 10, &v, false), rgbc(t, a), RGB, rgbc(t, b));
}
fn c15(ctx: &mut Ctx) {
    let cs = few(&all_colors(false), ctx.deep, 11);
    let yc = *ctx.pick("color", &cs);
    let yf = *ctx.pick("format", if ctx.deep { &YUVS[..] } else { &[I444, I412, NV12] });
    ctx.note(|| format!("RGBA -> {yf:?} {} -> RGBA", cname(yc)));
    let v: Vec<[u16; 3]> = (0..9u16).map(|i| [i * 31, 255 - i * 29, (i * 113) % 256]).collect();
    c15_run(ctx, "colors", RGBA, yf, yc, &v, 18);
}
fn c20(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &[RGBA, BGRA]);
    let df = *ctx.pick("destination", &[RGBA, BGRA]);
    let cs = few(&all_colors(true), ctx.deep, 5);
    let a = *ctx.pick("source color", &cs);
    let b = *ctx.pick("destination color", &cs);
    let w = *ctx.pick("width", if ctx.deep { &W[..] } else { &W[3..4] });
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x2", cname(a), cname(b)));
    let src = Img::new(sf, w, 2).fill(noise(sf, 101));
    let Some(got) = conv_img(ctx, "carry", &src, a, df, b) else { return };
    ctx.state(got.hash(df as u64));
    ctx.stats.compared += 1;
    for (x, y) in (0..w * 2).map(|i| (i % w, i / w)) {
        ctx.stats.samples_checked += 1;
        if got.get(x, y, 3) != src.get(x, y, 3) {
            return ctx.fail("carry", format!("{sf:?} {} -> {df:?} {} {w}x2: alpha {} at {x},{y} becomes {}", cname(a), cname(b), src.get(x, y, 3), got.get(x, y, 3)));
        }
    }
}
fn c20_opaque(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &[RGB, BGR, I420, I422, I444, I010, I012, I210, I212, I410, I412, NV12, YUYV]);
    let df = *ctx.pick("destination", &[RGBA, BGRA]);
    let w = *ctx.pick("width", &W);
    ctx.note(|| format!("{sf:?} -> {df:?} {w}x2"));
    let src = Img::new(sf, w, 2).fill(noise(sf, 102));
    let Some(got) = conv_img(ctx, "opaque", &src, default_color(sf), df, other_color(df)) else { return };
    ctx.state(got.hash(df as u64));
    ctx.stats.compared += 1;
    for (x, y) in (0..w * 2).map(|i| (i % w, i / w)) {
        ctx.stats.samples_checked += 1;
        if got.get(x, y, 3) != 255 {
            return ctx.fail("opaque", format!("{sf:?} -> {df:?} {w}x2: alpha {} at {x},{y}", got.get(x, y, 3)));
        }
    }
}
fn c21(ctx: &mut Ctx) {
    let cs = few(&all_colors(false), ctx.deep, 11);
    let yc = *ctx.pick("color", &cs);
    let df = *ctx.pick("destination", if ctx.deep { &YUVS[..] } else { &[I444, I412, YUYV] });
    ctx.note(|| format!("16 greys RGB -> {df:?} {}", cname(yc)));
    let v: Vec<[u16; 3]> = (0..16).map(|i| [i * 17; 3]).collect();
    greys_to(ctx, RGB, df, yc, &v, 16);
}
fn c21_from(ctx: &mut Ctx) {
    let cs = few(&all_colors(false), ctx.deep, 11);
    let yc = *ctx.pick("color", &cs);
    let sf = *ctx.pick("source", if ctx.deep { &YUVS[..] } else { &[I444, I412, YUYV] });
    ctx.note(|| format!("16 neutral samples {sf:?} {} -> BGRA", cname(yc)));
    let m = max(sf) as usize;
    let v: Vec<[u16; 3]> = (0..16).map(|i| [(m * i / 15) as u16, max(sf) / 2 + 1, max(sf) / 2 + 1]).collect();
    neutral_from(ctx, sf, yc, BGRA, &v, 16);
}
