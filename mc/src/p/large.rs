//! Images larger than the small scopes of the other scenarios: many vectors per row, many rows,
//! offsets beyond 8 and 16 bits.  The content is tiled from a palette of 2x2 blocks, so that the
//! oracle only has to be evaluated once per block and holds for every occurrence of it.
use super::color::*;
use super::memory::*;
use super::{errors, resize, threads};
use crate::explore::*;
use crate::img::*;
use crate::mem::Flush;
use crate::model::*;
use crate::ops::*;
use ::ezk_image::resize::{FilterType, ResizeAlg, Resizer};
use ezk_image::*;
use PixelFormat::*;

pub const LARGE: [(usize, usize); 15] = [
    (128, 2),
    (256, 4),
    (642, 2),
    (1024, 4),
    (1280, 2),
    (1922, 2),
    (4098, 2),
    (2, 258),
    (2, 1026),
    (18, 514),
    (34, 130),
    (130, 66),
    (300, 300),
    (65538, 2),
    (2, 65538),
];
/// without the extreme aspect ratios
const MODERATE: [(usize, usize); 8] = [(128, 2), (256, 4), (642, 2), (1922, 2), (4098, 2), (2, 258), (18, 514), (34, 130)];

/// Several million pixels, with pairs of formats that contain every format on both sides.
const HUGE: [(usize, usize); 4] = [(2050, 1030), (4098, 1026), (1030, 4098), (8194, 514)];
fn huge_pair(deep: bool, sf: PixelFormat, df: PixelFormat) -> bool {
    let of = |f| FORMATS.iter().position(|x| *x == f).unwrap();
    let (i, j) = (of(sf), of(df));
    j == (4 * i + 2) % 15 || deep && (j == (7 * i + 5) % 15 || j == (2 * i + 11) % 15 || i == j)
}
fn size_if(ctx: &mut Ctx, list: &[(usize, usize)], huge: bool) -> (usize, usize) {
    let huge = match (huge, ctx.deep) {
        (false, _) => 0,
        (_, false) => 1,
        _ => HUGE.len(),
    };
    let i = ctx.choose("size", list.len() + huge);
    if i < list.len() {
        list[i]
    } else {
        HUGE[i - list.len()]
    }
}
fn size_of(ctx: &mut Ctx, list: &[(usize, usize)], sf: PixelFormat, df: PixelFormat) -> (usize, usize) {
    let huge = huge_pair(ctx.deep, sf, df);
    size_if(ctx, list, huge)
}
fn size(ctx: &mut Ctx, sf: PixelFormat, df: PixelFormat) -> (usize, usize) {
    size_of(ctx, &LARGE, sf, df)
}
fn is_huge(w: usize, h: usize) -> bool {
    w * h > 1 << 20
}
/// the most different layouts on both sides
const LAYOUT_PAIRS: [(usize, usize); 6] = [(0, 3), (4, 1), (2, 10), (11, 2), (7, 7), (13, 8)];

// ---- tiled content ---------------------------------------------------------------------------
pub struct Tiled {
    pub img: Img,
    /// palette image, n blocks side by side
    pub pal: Img,
    idx: Vec<u16>,
}
/// Every block of the palette occurs at changing positions relative to any power of two.
pub fn tile(pal: Img, w: usize, h: usize) -> Tiled {
    let n = pal.w / 2;
    let f = pal.f;
    let mut img = Img::new(f, w, h);
    let mut idx = vec![];
    for y in 0..h / 2 {
        for x in 0..w / 2 {
            let i = (x + 7 * y + x / 61 * 3) % n;
            idx.push(i as u16);
            for q in 0..4 {
                for c in 0..ncomp(f) {
                    img.set(2 * x + q % 2, 2 * y + q / 2, c, pal.get(2 * i + q % 2, q / 2, c));
                }
            }
        }
    }
    Tiled { img, pal, idx }
}
/// `ok(sample, plane position in the palette's conversion)` for every sample of `got`.
fn each_sample(t: &Tiled, got: &Img, mut ok: impl FnMut(u16, usize, usize) -> bool) -> Option<(usize, usize, usize)> {
    let f = got.f;
    let g = geom(f, t.pal.w, 2);
    let (sx, sy) = sub(f);
    for by in 0..got.h / 2 {
        for bx in 0..got.w / 2 {
            let i = t.idx[by * (got.w / 2) + bx] as usize;
            for q in 0..4 {
                let (dx, dy) = (q % 2, q / 2);
                for c in 0..ncomp(f) {
                    if (c == 1 || c == 2) && (dx % sx != 0 || dy % sy != 0) {
                        continue;
                    }
                    let (p, cx, cy) = comp(f, 2 * i + dx, dy, c);
                    if !ok(got.get(2 * bx + dx, 2 * by + dy, c), p, cy * g[p].0 + cx) {
                        return Some((2 * bx + dx, 2 * by + dy, c));
                    }
                }
            }
        }
    }
    None
}
/// Convert the tiled image and judge every sample by the reference model of its block.
fn tiled_model(ctx: &mut Ctx, sig: &str, mode: Mode, t: &Tiled, sc: ColorInfo, df: PixelFormat, dc: ColorInfo) -> Option<Img> {
    let (w, h) = (t.img.w, t.img.h);
    let got = tiled_convert(ctx, mode, t, sc, df, dc)?;
    let want = Model::new(t.img.f, sc, df, dc).expect(&t.pal);
    let mx = max(df);
    ctx.stats.compared += 1;
    ctx.stats.samples_checked += got.planes.iter().map(|p| p.len() as u64).sum::<u64>();
    if let Some((x, y, c)) = each_sample(t, &got, |g, p, i| g <= mx && accept(g, want[p][i], mx)) {
        let i = t.idx[y / 2 * (w / 2) + x / 2] as usize;
        ctx.fail(
            sig,
            format!(
                "{mode:?} {:?} {} -> {df:?} {} {w}x{h}: component {c} at {x},{y} is {}, source block {}",
                t.img.f,
                cname(sc),
                cname(dc),
                got.get(x, y, c),
                t.pal.window(2 * i, 0, 2, 2).short()
            ),
        );
        return None;
    }
    Some(got)
}
fn tiled_convert(ctx: &mut Ctx, mode: Mode, t: &Tiled, sc: ColorInfo, df: PixelFormat, dc: ColorInfo) -> Option<Img> {
    let (w, h) = (t.img.w, t.img.h);
    let mut s = place(ctx.arena, t.img.f, w, h, &PACKED);
    s.store(&t.img);
    let d = place(ctx.arena, df, w, h, &PACKED);
    if !must(ctx, "convert", mode, &s, sc, &d, dc) {
        return None;
    }
    let got = d.load();
    ctx.state(got.hash(mix(df as u64, hash_bytes(w as u64, cname(dc).as_bytes()))));
    Some(got)
}
fn noisy(f: PixelFormat, n: usize, seed: u64) -> Img {
    Img::new(f, 2 * n, 2).fill(noise(f, seed))
}
/// one uniform 2x2 block per triple
fn uniform(f: PixelFormat, v: &[[u16; 3]]) -> Img {
    let mut p = Img::new(f, 2 * v.len(), 2);
    for (i, t) in v.iter().enumerate() {
        for q in 0..4 {
            for c in 0..3 {
                p.set(2 * i + q % 2, q / 2, c, t[c]);
            }
            if ncomp(f) == 4 {
                p.set(2 * i + q % 2, q / 2, 3, (i * 53 + q * 71) as u16 % 256);
            }
        }
    }
    p
}
fn two_colors(f: PixelFormat) -> [ColorInfo; 2] {
    [default_color(f), other_color(f)]
}

// ---- the scenarios ---------------------------------------------------------------------------
pub fn c03(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let (w, h) = size(ctx, sf, df);
    let flush = *ctx.pick("guard", &[Flush::Right, Flush::Left]);
    let mode = *ctx.pick("mode", &ALL_MODES);
    if mode == Mode::Copy && sf != df || mode == Mode::Multi(2) {
        return;
    }
    let l = Layout { flush, ..PACKED };
    ctx.note(|| format!("{mode:?} {sf:?} -> {df:?} {w}x{h}, guard {flush:?}"));
    key(ctx, &[sf as u64, df as u64, w as u64, h as u64, flush as u64]);
    let s = place(ctx.arena, sf, w, h, &l);
    let d = place(ctx.arena, df, w, h, &l);
    must(ctx, "convert", mode, &s, default_color(sf), &d, default_color(df));
    outside(ctx, &s, &d);
}
pub fn c04(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let (w, h) = size(ctx, sf, df);
    let (a, b) = *ctx.pick("layouts", if ctx.deep { &LAYOUT_PAIRS[..] } else { &LAYOUT_PAIRS[..2] });
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(3), Mode::Copy]);
    if mode == Mode::Copy && sf != df || mode == Mode::Multi(3) && !ctx.deep && b == 1 {
        return;
    }
    ctx.note(|| format!("{mode:?} {sf:?} ({}) -> {df:?} ({}) {w}x{h}", LAYOUTS[a].name, LAYOUTS[b].name));
    two_dst(ctx, mode, sf, &LAYOUTS[a], default_color(sf), df, &LAYOUTS[b], default_color(df), w, h);
}
pub fn c05(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let (w, h) = size(ctx, sf, df);
    let (a, b) = *ctx.pick("layouts", if ctx.deep { &LAYOUT_PAIRS[..] } else { &LAYOUT_PAIRS[1..4] });
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Copy]);
    if mode == Mode::Copy && sf != df {
        return;
    }
    ctx.note(|| format!("{mode:?} {sf:?} ({}) -> {df:?} ({}) {w}x{h}", LAYOUTS[a].name, LAYOUTS[b].name));
    let src = tile(noisy(sf, 30, 201), w, h).img;
    same(ctx, mode, &src, default_color(sf), df, default_color(df), &LAYOUTS[a], &LAYOUTS[b]);
}
/// Row padding far larger than the row.
pub fn c05_far(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let pads = [64usize, 192, 256, 1000, 4096, 8192, 65536];
    let pad = *ctx.pick("padding", &pads);
    let which = ctx.choose("side", 3);
    let (w, h) = *ctx.pick("size", &[(2usize, 4usize), (34, 6), (64, 2)]);
    let even = [pad, pad / 2, pad / 2];
    let l = Layout { pad: *ctx.pick("planes", &[even, [pad; 3], [pad, 0, pad + 2]]), ..PACKED };
    let (sl, dl) = match which {
        0 => (l, PACKED),
        1 => (PACKED, l),
        _ => (l.clone(), l),
    };
    ctx.note(|| format!("{sf:?} padding {:?} -> {df:?} padding {:?} {w}x{h}", sl.pad, dl.pad));
    let src = Img::new(sf, w, h).fill(noise(sf, 203));
    same(ctx, Mode::Single, &src, default_color(sf), df, default_color(df), &sl, &dl);
}
pub fn c06(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let (w, h) = size_if(ctx, &LARGE, true);
    let l = *ctx.pick("layout", &[0usize, 2, 3, 4, 7, 11]);
    let mode = *ctx.pick("mode", &ALL_MODES);
    ctx.note(|| format!("{mode:?} {f:?} {w}x{h} {}", LAYOUTS[l].name));
    let src = Img::new(f, w, h).fill(noise(f, 204));
    lossless(ctx, mode, &src, default_color(f), &LAYOUTS[l]);
}
pub fn c06_reorder(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &RGBS);
    let df = *ctx.pick("destination", &RGBS);
    let (w, h) = size_if(ctx, &LARGE, true);
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(3)]);
    ctx.note(|| format!("{mode:?} {sf:?} -> {df:?} {w}x{h}"));
    let src = Img::new(sf, w, h).fill(noise(sf, 205));
    reorder(ctx, mode, &src, default_color(sf), df, default_color(df));
}
pub fn c07(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let a = *ctx.pick("source color", &two_colors(sf));
    let b = *ctx.pick("destination color", &two_colors(df));
    let (w, h) = size_of(ctx, if ctx.deep { &LARGE } else { &MODERATE }, sf, df);
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x{h}", cname(a), cname(b)));
    if sf == df && a == b {
        return;
    }
    tiled_model(ctx, "large", Mode::Single, &tile(noisy(sf, 61, 206), w, h), a, df, b);
}
pub fn c08(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let (w, h) = size_of(ctx, if ctx.deep { &LARGE } else { &LARGE[..13] }, sf, df);
    let a = *ctx.pick("source color", &if ctx.deep { colors3(sf) } else { vec![default_color(sf)] });
    let b = *ctx.pick("destination color", &colors3(df)[..if ctx.deep { colors3(df).len() } else { 2 }]);
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x{h} against its blocks", cname(a), cname(b)));
    let n = 23;
    let t = tile(noisy(sf, n, 207), w, h);
    let Some(got) = tiled_convert(ctx, Mode::Single, &t, a, df, b) else { return };
    // every block converted on its own
    let mut all = Img::new(df, 2 * n, 2);
    let mut parts = vec![];
    for i in 0..n {
        ctx.arena.reset();
        let block = t.pal.window(2 * i, 0, 2, 2);
        let Some(p) = conv_img(ctx, "convert", &block, a, df, b) else { return };
        for q in 0..4 {
            for c in 0..ncomp(df) {
                all.set(2 * i + q % 2, q / 2, c, p.get(q % 2, q / 2, c));
            }
        }
        parts.push((block, p));
    }
    ctx.stats.compared += 1;
    ctx.stats.samples_checked += got.planes.iter().map(|p| p.len() as u64).sum::<u64>();
    let mut seen = std::collections::HashSet::new();
    // different samples go through the tolerant comparison, each kind once
    let mut odd = vec![];
    let mut pos = 0usize;
    each_sample(&t, &got, |g, p, i| {
        if g != all.planes[p][i] && seen.insert((p, i, g)) {
            odd.push(pos);
        }
        pos += 1;
        true
    });
    let per_block: usize = {
        let (sx, sy) = sub(df);
        4 + 2 * (4 / (sx * sy)) + if ncomp(df) == 4 { 4 } else { 0 }
    };
    for o in odd {
        let b_ = o / per_block;
        let (x, y) = (b_ % (w / 2) * 2, b_ / (w / 2) * 2);
        let (block, part) = &parts[t.idx[b_] as usize];
        if !c08_compare(ctx, &got, part, x, y, block, a, b) {
            return;
        }
    }
}
pub fn c09(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let (w, h) = size(ctx, sf, df);
    let k = *ctx.pick("cores", if ctx.deep { &[2usize, 3, 5, 8, 16, 64, 200][..] } else { &[3, 64] });
    ctx.note(|| format!("{sf:?} -> {df:?} {w}x{h} with {k} cores"));
    let src = tile(noisy(sf, 61, 208), w, h).img;
    threads::both(ctx, &src, default_color(sf), &PACKED, df, other_color(df), &LAYOUTS[2], k);
}
/// Many rows and many cores.
pub fn c09_rows(ctx: &mut Ctx) {
    let h = 2 * (1 + ctx.choose("height", if ctx.deep { 140 } else { 70 }));
    let k = *ctx.pick("cores", &[2usize, 3, 4, 6, 7, 8, 12, 16, 24, 31, 32, 48, 64, 96, 128, 200, 256]);
    let (sf, df) = *ctx.pick("formats", &[(I420, RGB), (RGB, NV12), (I444, I420), (YUYV, RGBA), (I012, I412), (I422, I422), (NV12, NV12)]);
    ctx.note(|| format!("{sf:?} -> {df:?} 18x{h} with {k} cores"));
    let src = tile(noisy(sf, 61, 209), 18, h).img;
    threads::both(ctx, &src, default_color(sf), &PACKED, df, other_color(df), &PACKED, k);
}
/// Every number of cores, few rows; many rows on many cores.
pub fn c09_cores(ctx: &mut Ctx) {
    let (sf, df) = *ctx.pick("formats", &[(I420, RGB), (I412, I010), (BGRA, YUYV)]);
    let (h, k) = if ctx.flag("many rows") {
        (*ctx.pick("height", &[260usize, 510, 512, 514, 1030, 2050, 4098]), *ctx.pick("cores", &[2usize, 3, 5, 9, 17, 33, 65, 129, 255, 256, 257, 511, 512, 513, 1023]))
    } else {
        (2 * (1 + ctx.choose("height", if ctx.deep { 140 } else { 70 })), 1 + ctx.choose("cores", if ctx.deep { 280 } else { 140 }))
    };
    ctx.note(|| format!("{sf:?} -> {df:?} 2x{h} with {k} cores"));
    let src = Img::new(sf, 2, h).fill(noise(sf, 210));
    threads::both(ctx, &src, default_color(sf), &PACKED, df, other_color(df), &PACKED, k);
}
pub fn c10(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let of = *ctx.pick("other format", &FORMATS);
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(3), Mode::Copy]);
    if mode == Mode::Copy && of != f || !ctx.deep && mode == Mode::Multi(3) && of != f && of != RGBA {
        return;
    }
    // parent, window
    let v = [
        ((300, 200), (256, 128, 34, 70)),
        ((300, 200), (298, 198, 2, 2)),
        ((300, 200), (0, 100, 300, 2)),
        ((4098, 2), (2046, 0, 2052, 2)),
        ((4098, 2), (4064, 0, 34, 2)),
        ((2, 1026), (0, 512, 2, 514)),
        ((66, 300), (32, 256, 34, 44)),
        ((65538, 2), (65504, 0, 34, 2)),
        ((2, 65538), (0, 65534, 2, 4)),
        ((302, 258), (44, 2, 258, 256)),
        ((2050, 1030), (514, 6, 1502, 1020)),
    ];
    let n = if ctx.deep { v.len() - 1 } else { 7 };
    let huge = huge_pair(ctx.deep, f, of) as usize;
    let i = ctx.choose("window", n + huge);
    let ((pw, ph), (x, y, w, h)) = v[if i == n { v.len() - 1 } else { i }];
    let into = ctx.flag("into");
    let pads = [[0usize; 3], [6, 2, 4]];
    let l = Layout { pad: *ctx.pick("padding", &pads), ..PACKED };
    let win = Window { x, y, width: w, height: h };
    let what = format!("{mode:?} {} {win:?} of {f:?} {pw}x{ph} pad {:?}, other image {of:?}", if into { "into" } else { "from" }, l.pad);
    ctx.note(|| what.clone());
    let (fc, oc) = (default_color(f), if mode == Mode::Copy { default_color(f) } else { other_color(of) });
    let back = tile(noisy(f, 61, 210), pw, ph).img;
    let mut p = place(ctx.arena, f, pw, ph, &l);
    p.store(&back);
    let raw = p.raw(fc);
    let src = if into { Img::new(of, w, h).fill(noise(of, 211)) } else { back.window(x, y, w, h) };
    let want = match (mode, into) {
        (Mode::Copy, _) => Some(src.clone()),
        (_, true) => conv_img(ctx, "convert", &src, oc, f, fc),
        _ => conv_img(ctx, "convert", &src, fc, of, oc),
    };
    let Some(want) = want else { return };
    let mut o = place(ctx.arena, of, w, h, &PACKED);
    if into {
        o.store(&src);
    }
    let mut oraw = o.raw(oc);
    let r = ctx.call(|| match raw.crop(win) {
        Ok(mut c) if into => convert_dyn(mode, &oraw, &mut c),
        Ok(c) => convert_dyn(mode, &c, &mut oraw),
        Err(e) => Err(format!("{e:?}")),
    });
    ctx.stats.compared += 1;
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return ctx.fail("large:error", format!("{what}: {e}")),
        Err(e) => return ctx.fail("large:panic", format!("{what}: {e}")),
    }
    let (got, want) = if into {
        let mut all = back.clone();
        for yy in 0..h {
            for xx in 0..w {
                for c in 0..ncomp(f) {
                    all.set(x + xx, y + yy, c, want.get(xx, yy, c));
                }
            }
        }
        (p.load(), all)
    } else {
        (o.load(), want)
    };
    ctx.state(got.hash(mix(x as u64, y as u64)));
    if let Some(d) = img_diff(&got, &want) {
        return ctx.fail("large", format!("{what}: {d}"));
    }
    if let Err(e) = p.surroundings(l.fill) {
        ctx.fail("large:surroundings", format!("{what}: {e}"));
    }
}
pub fn c11(ctx: &mut Ctx) {
    let df = *ctx.pick("destination", &SUBSAMPLED);
    let sf = *ctx.pick("source", &FORMATS);
    let c = *ctx.pick("color", &path_colors(df)[..3]);
    let (w, h) = size(ctx, sf, df);
    let sc = if is_rgb(sf) { rgbc(c.transfer(), c.primaries()) } else { yuvc(c.transfer(), c.primaries(), ColorSpace::BT601, true) };
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x{h}", cname(sc), cname(c)));
    // blocks of four strongly different pixels
    let pal = Img::new(sf, 80, 2).fill(|p, x, y| [0, 255, 40, 180, 128, 16, 235, 90][(p * 3 + x * 5 + y * 3 + x / 7) % 8] * (max(sf) / 255).max(1));
    tiled_model(ctx, "large", Mode::Single, &tile(pal, w, h), sc, df, c);
}
pub fn c12(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let (w, h) = size_of(ctx, if ctx.deep { &LARGE } else { &MODERATE }, sf, df);
    let a = *ctx.pick("source color", &if ctx.deep { path_colors(sf) } else { two_colors(sf).to_vec() });
    let b = *ctx.pick("destination color", &if ctx.deep { path_colors(df) } else { two_colors(df).to_vec() });
    ctx.note(|| format!("{sf:?} {} -> {df:?} {} {w}x{h}, corners", cname(a), cname(b)));
    if sf == df && a == b {
        return;
    }
    tiled_model(ctx, "large", Mode::Single, &tile(uniform(sf, &corners(sf)), w, h), a, df, b);
}
pub fn c14(ctx: &mut Ctx) {
    let (sf, df) = *ctx.pick("formats", &[(RGB, RGB), (RGBA, BGRA), (BGRA, BGR), (BGR, RGBA), (I444, I444), (NV12, RGB), (RGB, I420)]);
    let (a, b) = (*ctx.pick("source primaries", &PRIMARIES), *ctx.pick("destination primaries", &PRIMARIES));
    let t = *ctx.pick("transfer", &[ColorTransfer::Linear, ColorTransfer::SDR]);
    let (w, h) = size_if(ctx, &LARGE, a != b && t == ColorTransfer::SDR);
    let c = |f: PixelFormat, p| if is_rgb(f) { rgbc(t, p) } else { yuvc(t, p, ColorSpace::BT709, true) };
    ctx.note(|| format!("{sf:?} {a:?} -> {df:?} {b:?} with {t:?} {w}x{h}, greys and colors"));
    if sf == df && a == b {
        return;
    }
    let mid = max(sf) / 2 + 1;
    let mut v: Vec<[u16; 3]> = (0..=16u16).map(|i| { let g = (i * 16).min(255); if is_rgb(sf) { [g; 3] } else { [g, mid, mid] } }).collect();
    v.extend((0..30u16).map(|i| [i * 37 % 256, i * 101 % 256, i * 59 % 256]));
    tiled_model(ctx, "large", Mode::Single, &tile(uniform(sf, &v), w, h), c(sf, a), df, c(df, b));
}
pub fn c15(ctx: &mut Ctx) {
    let rf = *ctx.pick("RGB format", &RGBS);
    let yf = *ctx.pick("format", &YUVS);
    let yc = *ctx.pick("color", &path_colors(yf));
    let huge = huge_pair(ctx.deep, rf, yf) && yc == path_colors(yf)[0];
    let (w, h) = size_if(ctx, if ctx.deep { &LARGE } else { &MODERATE }, huge);
    let ColorInfo::YUV(y) = yc else { return };
    let rc = rgbc(y.transfer, y.primaries);
    ctx.note(|| format!("{rf:?} -> {yf:?} {} -> {rf:?} {w}x{h}", cname(yc)));
    let v: Vec<[u16; 3]> = (0..61u16).map(|i| [i * 67 % 256, i * 131 % 256, i * 29 % 256]).collect();
    let t = tile(uniform(rf, &v), w, h);
    let Some(a) = conv_img(ctx, "large", &t.img, rc, yf, yc) else { return };
    let Some(b) = conv_img(ctx, "large", &a, yc, rf, rc) else { return };
    ctx.state(b.hash(mix(yf as u64, hash_bytes(0, cname(yc).as_bytes()))));
    ctx.stats.compared += 1;
    let m = Conv::new(y);
    let want: Vec<[Iv; 3]> = v.iter().map(|t| c15_bound(&m, bits(yf), *t)).collect();
    for yy in 0..h {
        for x in 0..w {
            let i = t.idx[yy / 2 * (w / 2) + x / 2] as usize;
            for c in 0..3 {
                ctx.stats.samples_checked += 1;
                let g = b.get(x, yy, c);
                if !accept(g, want[i][c], 255) {
                    return ctx.fail("large", format!("{rf:?} -> {yf:?} {} -> {rf:?} {w}x{h}: {:?} at {x},{yy} returns component {c} = {g}", cname(yc), v[i]));
                }
            }
        }
    }
}
const BIG_ALGS: [ResizeAlg; 4] = [
    ResizeAlg::Nearest,
    ResizeAlg::Convolution(FilterType::Bilinear),
    ResizeAlg::Interpolation(FilterType::CatmullRom),
    ResizeAlg::SuperSampling(FilterType::Hamming, 2),
];
pub fn c16(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let alg = *ctx.pick("algorithm", &BIG_ALGS);
    let sz: &[(usize, usize)] = &[(4, 4), (300, 200), (1024, 4), (2, 1026), (640, 36), (130, 258), (2050, 1030)];
    let (w, h) = *ctx.pick("source size", sz);
    let (dw, dh) = *ctx.pick("destination size", sz);
    let (a, b) = *ctx.pick("layouts", &[(0usize, 0usize), (2, 10), (11, 6)]);
    if is_huge(w, h) || is_huge(dw, dh) {
        if a != 0 || alg != BIG_ALGS[1] || (w, h) == (dw, dh) {
            return;
        }
    }
    ctx.note(|| format!("{f:?} {w}x{h} ({}) -> {dw}x{dh} ({}) {alg:?}", LAYOUTS[a].name, LAYOUTS[b].name));
    let src = Img::new(f, w, h).fill(noise(f, 212));
    resize::exact(ctx, "large", alg, &src, &LAYOUTS[a], dw, dh, &LAYOUTS[b]);
}
/// Sequences that contain large images.
pub fn c17(ctx: &mut Ctx) {
    let alg = *ctx.pick("algorithm", &BIG_ALGS[..if ctx.deep { 4 } else { 2 }]);
    let op = |f, s, d| resize::Op { f, s, d, wrong: None };
    let ops = [
        op(I420, (300, 200), (130, 66)),
        op(RGBA, (8, 8), (6, 4)),
        op(I412, (34, 258), (258, 34)),
        op(I420, (8, 8), (300, 200)),
        op(NV12, (1024, 4), (4, 130)),
        op(RGB, (130, 66), (130, 66)),
        op(I420, (200, 300), (66, 130)),
    ];
    let n = if ctx.deep { 4 } else { 3 };
    let mut seq = vec![];
    for _ in 0..n {
        seq.push(*ctx.pick("call", &ops));
    }
    ctx.note(|| format!("{alg:?} {seq:?}"));
    let mut r = Resizer::new(alg);
    let mut h = 1;
    for (i, op) in seq.iter().enumerate() {
        h = hash_bytes(h, format!("{op:?}").as_bytes());
        ctx.state(mix(h, i as u64));
        if !resize::step(ctx, &mut r, alg, *op, 213 + i as u64, &|| format!("{alg:?}, call {i} of {seq:?}")) {
            return;
        }
    }
}
/// Sizes that differ a little or only in shape.
pub fn c19(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let (w, h) = *ctx.pick("size", &[(16usize, 16usize), (32, 4), (64, 6), (128, 2), (256, 8), (300, 200), (1920, 2), (2, 1080), (4098, 2)]);
    let d = *ctx.pick(
        "other size",
        &[
            (w, h),
            (h, w),
            (2 * w, h / 2),
            (w / 2, 2 * h),
            (w + 2, h),
            (w - 2, h),
            (w, h + 2),
            (w, h - 2),
            (w + 2, h - 2),
            (w + 1, h),
            (w, h + 1),
            (w - 1, h - 1),
            (w + 64, h),
            (w, h + 64),
            (0, h),
            (w, 0),
        ],
    );
    let both = ctx.flag("both odd");
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2), Mode::Copy]);
    if mode == Mode::Copy && sf != df || both && d.0 % 2 == 0 && d.1 % 2 == 0 {
        return;
    }
    let s0 = if both { d } else { (w, h) };
    let same = sf == df && ctx.flag("same color");
    ctx.note(|| format!("{mode:?} {sf:?} {s0:?} -> {df:?} {d:?}"));
    let mut s = place(ctx.arena, sf, s0.0, s0.1, &PACKED);
    let mut t = place(ctx.arena, df, d.0, d.1, &PACKED);
    errors::judge(ctx, mode, &mut s, default_color(sf), &mut t, if same { default_color(df) } else { other_color(df) });
}
pub fn c20(ctx: &mut Ctx) {
    let sf = *ctx.pick("source", &FORMATS);
    let df = *ctx.pick("destination", &[RGBA, BGRA]);
    let (w, h) = size(ctx, sf, df);
    let a = *ctx.pick("source color", &two_colors(sf));
    let b = *ctx.pick("destination color", &two_colors(df));
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(3)]);
    ctx.note(|| format!("{mode:?} {sf:?} {} -> {df:?} {} {w}x{h}, alpha", cname(a), cname(b)));
    let t = tile(noisy(sf, 61, 214), w, h);
    let Some(got) = tiled_convert(ctx, mode, &t, a, df, b) else { return };
    ctx.stats.compared += 1;
    for y in 0..h {
        for x in 0..w {
            ctx.stats.samples_checked += 1;
            let want = if ncomp(sf) == 4 { t.img.get(x, y, 3) } else { 255 };
            if got.get(x, y, 3) != want {
                return ctx.fail("large", format!("{mode:?} {sf:?} {} -> {df:?} {} {w}x{h}: alpha {} at {x},{y}, expected {want}", cname(a), cname(b), got.get(x, y, 3)));
            }
        }
    }
}
/// Greys, in both directions.
pub fn c21(ctx: &mut Ctx) {
    let yf = *ctx.pick("format", &YUVS);
    let rf = *ctx.pick("RGB format", &RGBS);
    let huge = huge_pair(ctx.deep, rf, yf) || huge_pair(ctx.deep, yf, rf);
    let (w, h) = size_if(ctx, if ctx.deep { &LARGE } else { &MODERATE }, huge);
    let space = *ctx.pick("space", &SPACES[..3]);
    let full = ctx.flag("full range");
    let to = ctx.flag("to YUV");
    let yc = yuvc(ColorTransfer::SDR, ColorPrimaries::BT709, space, full);
    let rc = rgbc(ColorTransfer::SDR, ColorPrimaries::BT709);
    ctx.note(|| format!("greys {yf:?} {} {rf:?} {w}x{h} to YUV {to}", cname(yc)));
    let mid = max(yf) / 2 + 1;
    let s = 1u16 << (bits(yf) - 8);
    let v: Vec<[u16; 3]> = (0..=60u16).map(|i| { let g = (i * 17 / 4).min(255); if to { [g; 3] } else { [(g * s).min(max(yf)), mid, mid] } }).collect();
    let t = tile(uniform(if to { rf } else { yf }, &v), w, h);
    let (sc, df, dc) = if to { (rc, yf, yc) } else { (yc, rf, rc) };
    let Some(got) = tiled_convert(ctx, Mode::Single, &t, sc, df, dc) else { return };
    ctx.stats.compared += 1;
    let (o, k) = quant(bits(yf), full, false);
    for y in 0..h {
        for x in 0..w {
            ctx.stats.samples_checked += 3;
            let g = t.img.get(x, y, 0);
            let r = [got.get(x, y, 0), got.get(x, y, 1), got.get(x, y, 2)];
            let ok = if to {
                r[1] == mid && r[2] == mid && (r[0] as f64 - (o + k * g as f64 / 255.0)).abs() <= 0.502
            } else {
                let l = ((g as f64 - o) / k * 255.0).clamp(0.0, 255.0);
                r[0] == r[1] && r[1] == r[2] && (r[0] as f64 - l).abs() <= 0.502
            };
            if !ok {
                return ctx.fail("large", format!("{:?} {} -> {df:?} {} {w}x{h}: grey {g} at {x},{y} becomes {r:?}", t.img.f, cname(sc), cname(dc)));
            }
        }
    }
}
