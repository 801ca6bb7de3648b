//! C19 invalid requests are rejected with the right error and without side effects.
use super::sc;
use crate::explore::*;
use crate::img::*;
use crate::ops::*;
use ezk_image::*;
use PixelFormat::*;

pub fn c19() -> Vec<Scenario> {
    vec![sc("sizes", sizes), sc("colors", colors), sc("layouts", layouts), sc("valid requests", valid), sc("large images", super::large::c19), sc("sizes a power of two apart", apart)]
}

/// Which of the published errors may be returned; empty: the request is valid.
fn expected(mode: Mode, sf: PixelFormat, ss: (usize, usize), sc: ColorInfo, df: PixelFormat, ds: (usize, usize), dc: ColorInfo) -> Vec<&'static str> {
    let mut v = vec![];
    if ss != ds {
        v.push("MismatchedImageSize");
    }
    if (ss.0 | ss.1 | ds.0 | ds.1) % 2 == 1 {
        v.push("OddImageDimensions");
    }
    let copied = mode == Mode::Copy || sf == df && sc == dc;
    let bad = |f, c: ColorInfo| !is_rgb(f) && matches!(c, ColorInfo::RGB(_));
    if !copied && (bad(sf, sc) || bad(df, dc)) {
        v.push("InvalidColorInfo");
    }
    v
}
fn kinds(f: PixelFormat) -> [ColorInfo; 4] {
    [
        default_color(f),
        other_color(f),
        rgbc(ColorTransfer::Linear, ColorPrimaries::BT709),
        yuvc(ColorTransfer::BT2100PQ, ColorPrimaries::BT2020, ColorSpace::ICtCpPQ, false),
    ]
}
pub(super) fn judge(ctx: &mut Ctx, mode: Mode, s: &mut Placed, sc: ColorInfo, d: &mut Placed, dc: ColorInfo) {
    let want = expected(mode, s.f, (s.w, s.h), sc, d.f, (d.w, d.h), dc);
    let empty = s.w == 0 || s.h == 0;
    d.dirty(0x69);
    s.snapshot();
    d.snapshot();
    let what = format!("{mode:?} {} {sc:?} -> {} {dc:?}", head(s), head(d));
    ctx.stats.compared += 1;
    ctx.state(hash_bytes(0, what.as_bytes()));
    let r = match run(ctx, mode, s, sc, d, dc) {
        Ok(r) => r,
        Err(e) => return ctx.fail("panic", format!("{what}: {e}")),
    };
    match &r {
        // nothing is converted in an empty window, its colors need not be looked at
        Ok(()) if want.is_empty() || empty && want == ["InvalidColorInfo"] => {
            if !empty {
                return;
            }
        }
        Ok(()) => return ctx.fail("accepted", format!("{what}: succeeded, expected one of {want:?}")),
        Err(e) if want.is_empty() => return ctx.fail("refused", format!("{what}: refused with {e}")),
        Err(e) if !want.contains(&e.as_str()) => return ctx.fail("error", format!("{what}: {e}, expected one of {want:?}")),
        // sizes are checked before anything else
        Err(e) if e == "InvalidColorInfo" && want[0] != *e => return ctx.fail("error", format!("{what}: {e}, expected one of {want:?}")),
        Err(_) => {}
    }
    if let Err(e) = d.unchanged() {
        return ctx.fail("side-effect", format!("{what}: {r:?}, but destination {e}"));
    }
    if let Err(e) = s.unchanged() {
        ctx.fail("side-effect", format!("{what}: {r:?}, but source {e}"));
    }
}
fn sizes(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let n = if ctx.thorough { 6 } else { 4 };
    let (w, h) = (ctx.choose("width", n), ctx.choose("height", n));
    let (dw, dh) = (ctx.choose("destination width", n), ctx.choose("destination height", n));
    let mode = *ctx.pick("mode", &ALL_MODES);
    if mode == Mode::Copy && sf != df || mode == Mode::Multi(3) && !ctx.thorough {
        return;
    }
    let same = ctx.flag("same color");
    if same && sf != df {
        return;
    }
    ctx.note(|| format!("{mode:?} {sf:?} {w}x{h} -> {df:?} {dw}x{dh}"));
    let mut s = place(ctx.arena, sf, w, h, &PACKED);
    let mut d = place(ctx.arena, df, dw, dh, &PACKED);
    judge(ctx, mode, &mut s, default_color(sf), &mut d, if same { default_color(df) } else { other_color(df) });
}
fn colors(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let scol = *ctx.pick("source color", &kinds(sf));
    let dcol = *ctx.pick("destination color", &kinds(df));
    let mode = *ctx.pick("mode", &ALL_MODES);
    let (s0, d0) = *ctx.pick("sizes", &[((4usize, 6usize), (4usize, 6usize)), ((4, 6), (4, 4)), ((3, 6), (3, 6)), ((0, 2), (0, 2)), ((2, 0), (2, 0)), ((34, 2), (34, 2))]);
    if mode == Mode::Copy && sf != df {
        return;
    }
    ctx.note(|| format!("{mode:?} {sf:?} {scol:?} {s0:?} -> {df:?} {dcol:?} {d0:?}"));
    let mut s = place(ctx.arena, sf, s0.0, s0.1, &PACKED);
    let mut d = place(ctx.arena, df, d0.0, d0.1, &PACKED);
    judge(ctx, mode, &mut s, scol, &mut d, dcol);
}
/// The same verdict whatever the images are made of.
fn layouts(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let sl = ctx.pick("source layout", &SRC_LAYOUTS).clone();
    let dl = ctx.pick("destination layout", LAYOUTS).clone();
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2), Mode::Copy]);
    let (s0, d0) = *ctx.pick("sizes", &[((4usize, 6usize), (4usize, 6usize)), ((4, 6), (4, 4)), ((4, 4), (6, 4)), ((3, 4), (3, 4)), ((4, 3), (4, 3)), ((4, 3), (4, 4))]);
    let bad = ctx.flag("color does not fit");
    if mode == Mode::Copy && sf != df || bad && is_rgb(df) || bad && s0 != d0 {
        return;
    }
    // construction from one buffer needs planes of whole chroma rows
    ctx.note(|| format!("{mode:?} {sf:?} ({}) {s0:?} -> {df:?} ({}) {d0:?}", sl.name, dl.name));
    let mut s = place(ctx.arena, sf, s0.0, s0.1, &sl);
    let mut d = place(ctx.arena, df, d0.0, d0.1, &dl);
    let dcol = if bad { rgbc(ColorTransfer::SRGB, ColorPrimaries::BT709) } else { other_color(df) };
    judge(ctx, mode, &mut s, default_color(sf), &mut d, dcol);
}
/// Sizes that agree in all bits but one.
fn apart(ctx: &mut Ctx) {
    let (sf, df) = *ctx.pick("formats", &[(RGB, BGR), (RGB, I420), (I010, RGB), (NV12, NV12), (I444, YUYV)]);
    let bit = ctx.choose("bit", if ctx.deep { 23 } else { 20 }) + 1;
    let (w, h) = *ctx.pick("size", &[(2usize, 2usize), (4, 2), (64, 6)]);
    let tall = ctx.flag("height");
    let other = if tall { (w, h + (1 << bit)) } else { (w + (1 << bit), h) };
    let down = ctx.flag("larger source");
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2), Mode::Copy]);
    if mode == Mode::Copy && sf != df || other.0 * other.1 > (1 << 22) + 128 {
        return;
    }
    let (s0, d0) = if down { (other, (w, h)) } else { ((w, h), other) };
    ctx.note(|| format!("{mode:?} {sf:?} {s0:?} -> {df:?} {d0:?}"));
    let mut s = place(ctx.arena, sf, s0.0, s0.1, &PACKED);
    let mut d = place(ctx.arena, df, d0.0, d0.1, &PACKED);
    judge(ctx, mode, &mut s, default_color(sf), &mut d, other_color(df));
}
/// Every color configuration is a valid request.
fn valid(ctx: &mut Ctx) {
    let cs = all_colors(false);
    let c = *ctx.pick("color", &cs);
    let f = *ctx.pick("format", &FORMATS);
    let to = ctx.flag("as destination");
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2)]);
    let of = *ctx.pick("other format", &[RGB, RGBA, I420, I412, YUYV]);
    ctx.note(|| format!("{mode:?} {f:?} {c:?} with {of:?}, as destination {to}"));
    let (sf, scol, df, dcol) = if to { (of, other_color(of), f, c) } else { (f, c, of, other_color(of)) };
    let mut s = place(ctx.arena, sf, 4, 4, &PACKED);
    let mut d = place(ctx.arena, df, 4, 4, &PACKED);
    judge(ctx, mode, &mut s, scol, &mut d, dcol);
}
