//! C03 memory safety, C04 nothing else is written, C05 layout independence, C10 cropping.
use super::sc;
use crate::explore::*;
use crate::img::*;
use crate::mem::Flush;
use crate::ops::*;
use ezk_image::resize::{FilterType, ResizeAlg, Resizer};
use ezk_image::*;
use PixelFormat::*;

pub(super) fn key(ctx: &mut Ctx, a: &[u64]) {
    let mut h = 0;
    for v in a {
        h = mix(h, *v);
    }
    ctx.state(h);
}

// ---- C03 -------------------------------------------------------------------------------------
pub fn c03() -> Vec<Scenario> {
    vec![
        sc("every pair and size", c03_sizes),
        sc("layouts", c03_layouts),
        sc("odd and empty sizes", c03_odd),
        sc("deficient planes", c03_deficient),
        sc("deficient planes, resize", c03_deficient_resize),
        sc("resize", c03_resize),
        sc("crop windows", c03_crop),
        sc("all thread counts", c03_threads),
        sc("safe inference", c03_infer), sc("large images", super::large::c03)]
}

/// Reads behind and in front of the planes fault; writes are additionally compared.
fn c03_sizes(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let w = *ctx.pick("width", &widths());
    let h = 2 * (1 + ctx.choose("height", if ctx.thorough { 4 } else { 2 }));
    let flush = *ctx.pick("guard", &[Flush::Right, Flush::Left]);
    let mis = if ctx.thorough { ctx.choose("misalignment", 4) } else { 0 };
    let pcs = path_colors(df);
    let dc = *ctx.pick("color", if ctx.thorough { &pcs } else { &pcs[..1] });
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Copy]);
    if mode == Mode::Copy && sf != df {
        return;
    }
    let l = Layout { flush, mis: if flush == Flush::Left { mis } else { 0 }, ..PACKED };
    let mut s = place(ctx.arena, sf, w, h, &l);
    s.store(&Img::new(sf, w, h).fill(noise(sf, 3)));
    let d = place(ctx.arena, df, w, h, &l);
    ctx.note(|| format!("{mode:?} {sf:?} -> {df:?} {w}x{h}, guard {flush:?} {dc:?}"));
    key(ctx, &[sf as u64, df as u64, w as u64, h as u64, flush as u64, mis as u64]);
    s.snapshot();
    let sc = if mode == Mode::Copy { dc } else { default_color(sf) };
    must(ctx, "convert", mode, &s, sc, &d, dc);
    outside(ctx, &s, &d);
}
pub(super) fn outside(ctx: &mut Ctx, s: &Placed, d: &Placed) {
    ctx.stats.compared += 1;
    for (n, p) in [("source", s), ("destination", d)] {
        for b in &p.bufs {
            if let Some(o) = b.stray() {
                ctx.fail("stray-write", format!("{} -> {}: byte at {o} relative to a {} byte plane of the {n} written", head(s), head(d), b.len));
            }
        }
    }
}

fn c03_layouts(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let sl = ctx.pick("source layout", &SRC_LAYOUTS).clone();
    let dl = ctx.pick("destination layout", LAYOUTS).clone();
    let w = *ctx.pick("width", if ctx.thorough { &FEW_WIDTHS[..] } else { &[2, 18, 34] });
    let h = *ctx.pick("height", &[2usize, 6]);
    let mode = *ctx.pick("mode", &ALL_MODES);
    if mode == Mode::Copy && sf != df || mode == Mode::Multi(3) && h == 2 {
        return;
    }
    let mut s = place(ctx.arena, sf, w, h, &sl);
    s.store(&Img::new(sf, w, h).fill(noise(sf, 4)));
    let d = place(ctx.arena, df, w, h, &dl);
    ctx.note(|| format!("{mode:?} {sf:?} ({}) -> {df:?} ({}) {w}x{h}", sl.name, dl.name));
    key(ctx, &[sf as u64, df as u64, w as u64, h as u64, hash_bytes(1, sl.name.as_bytes()), hash_bytes(2, dl.name.as_bytes())]);
    must(ctx, "convert", mode, &s, default_color(sf), &d, default_color(df));
    outside(ctx, &s, &d);
}

fn c03_odd(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let w = ctx.choose("width", 4);
    let h = ctx.choose("height", 4);
    let dw = ctx.choose("other width", 4);
    let dh = ctx.choose("other height", 4);
    let mode = *ctx.pick("mode", &ALL_MODES);
    if mode == Mode::Copy && sf != df {
        return;
    }
    let s = place(ctx.arena, sf, w, h, &PACKED);
    let d = place(ctx.arena, df, dw, dh, &PACKED);
    ctx.note(|| format!("{mode:?} {sf:?} {w}x{h} -> {df:?} {dw}x{dh}"));
    key(ctx, &[sf as u64, df as u64, w as u64, h as u64, dw as u64, dh as u64]);
    if let Err(p) = run(ctx, mode, &s, default_color(sf), &d, default_color(df)) {
        ctx.fail("odd:panic", format!("{mode:?} {sf:?} {w}x{h} -> {df:?} {dw}x{dh}: {p}"));
    }
    outside(ctx, &s, &d);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lack {
    Plane,
    AllPlanes,
    Bytes(usize),
    Row,
    Everything,
    StrideZero,
    StrideSmall,
    StrideHuge,
    StrideOverflow,
}
const LACKS: [Lack; 12] = [
    Lack::Plane,
    Lack::AllPlanes,
    Lack::Bytes(1),
    Lack::Bytes(2),
    Lack::Bytes(3),
    Lack::Bytes(16),
    Lack::Row,
    Lack::Everything,
    Lack::StrideZero,
    Lack::StrideSmall,
    Lack::StrideHuge,
    Lack::StrideOverflow,
];
/// Make plane `p` of a user image deficient; false if that is not possible.
fn lack(r: &mut Raw, p: usize, l: Lack) -> bool {
    match l {
        Lack::AllPlanes => r.planes.clear(),
        Lack::Plane => {
            r.planes.remove(p);
        }
        _ => {
            let (b, s) = &mut r.planes[p];
            // guard page directly behind the shortened plane
            let cut = |b: &mut crate::mem::Buf, n: usize| {
                let n = n.min(b.len);
                b.ptr = unsafe { b.ptr.add(n) };
                b.len -= n;
                n > 0
            };
            match l {
                Lack::Bytes(n) => return cut(b, n),
                Lack::Row => return cut(b, *s),
                Lack::Everything => return cut(b, usize::MAX),
                Lack::StrideZero => *s = 0,
                Lack::StrideSmall => *s -= 1,
                Lack::StrideHuge => *s += 1 << 20,
                Lack::StrideOverflow => *s = usize::MAX,
                _ => {}
            }
        }
    }
    true
}

/// User implementations of the traits whose planes do not fit: refused, never a fault or a panic.
fn c03_deficient(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let dst = ctx.flag("destination deficient");
    let bad = if dst { df } else { sf };
    let p = ctx.choose("plane", nplanes(bad));
    let l = *ctx.pick("lack", &LACKS);
    let (w, h) = *ctx.pick("size", &[(2usize, 2usize), (34, 4)]);
    let mode = *ctx.pick("mode", &ALL_MODES);
    let same = ctx.flag("same color");
    if mode == Mode::Copy && sf != df || same && (sf != df || mode == Mode::Copy) {
        return;
    }
    let sp = place(ctx.arena, sf, w, h, &PACKED);
    let dp = place(ctx.arena, df, w, h, &PACKED);
    let mut s = sp.raw(default_color(sf));
    let mut d = dp.raw(if same { default_color(df) } else { other_color(df) });
    if !lack(if dst { &mut d } else { &mut s }, p, l) {
        return;
    }
    // a one-row plane has no second row at the stride
    let rows = geom(bad, w, h)[p].1;
    let harmless = matches!(l, Lack::StrideHuge) && rows == 1;
    ctx.note(|| format!("{mode:?} {sf:?} -> {df:?} {w}x{h}, {} plane {p} {l:?}", if dst { "destination" } else { "source" }));
    key(ctx, &[sf as u64, df as u64, w as u64, h as u64, p as u64, hash_bytes(dst as u64, format!("{l:?}{mode:?}").as_bytes())]);
    ctx.stats.compared += 1;
    let what = format!("{mode:?} {sf:?} -> {df:?} {w}x{h} with {} plane {p} {l:?}", if dst { "destination" } else { "source" });
    match ctx.call(|| convert_dyn(mode, &s, &mut d)) {
        // a stride that overflows may be refused by a panic, like everywhere else
        Err(e) if l != Lack::StrideOverflow => ctx.fail("deficient:panic", format!("{what}: {e}")),
        Ok(Ok(())) if !(harmless || l == Lack::StrideOverflow && rows == 1) => {
            ctx.fail("deficient:accepted", format!("{what}: accepted"))
        }
        Ok(Err(e)) if harmless => ctx.fail("deficient:refused", format!("{what}: {e}")),
        _ => {}
    }
    outside(ctx, &sp, &dp);
}

const ALGS: [ResizeAlg; 4] = [
    ResizeAlg::Nearest,
    ResizeAlg::Convolution(FilterType::Bilinear),
    ResizeAlg::Interpolation(FilterType::Bilinear),
    ResizeAlg::SuperSampling(FilterType::Bilinear, 2),
];

/// The resizer may refuse deficient images in any way, but not touch memory outside.
fn c03_deficient_resize(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let dst = ctx.flag("destination deficient");
    let p = ctx.choose("plane", nplanes(f));
    let l = *ctx.pick("lack", &LACKS[..10]);
    let (w, h) = *ctx.pick("size", &[(2usize, 2usize), (18, 4)]);
    let alg = *ctx.pick("algorithm", &ALGS);
    let sp = place(ctx.arena, f, w, h, &PACKED);
    let dp = place(ctx.arena, f, 2 * w, h, &PACKED);
    let mut s = sp.raw(default_color(f));
    let mut d = dp.raw(default_color(f));
    if !lack(if dst { &mut d } else { &mut s }, p, l) {
        return;
    }
    ctx.note(|| format!("resize {f:?} {w}x{h} -> {}x{h} {alg:?}, {} plane {p} {l:?}", 2 * w, if dst { "destination" } else { "source" }));
    key(ctx, &[f as u64, p as u64, hash_bytes(dst as u64, format!("{l:?}{alg:?}{w}").as_bytes())]);
    let _ = ctx.call(|| {
        let a = Sendable((&s as &dyn ImageRef, &mut d as &mut dyn ImageMut));
        pool(1).install(move || {
            let (s, d) = a.get();
            Resizer::new(alg).resize(s, d)
        })
    });
    outside(ctx, &sp, &dp);
}

fn c03_resize(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let sl = ctx.pick("source layout", &SRC_LAYOUTS).clone();
    let dl = ctx.pick("destination layout", LAYOUTS).clone();
    let sz: &[(usize, usize)] = &[(2, 2), (4, 6), (18, 4), (34, 10), (5, 3)];
    let (w, h) = *ctx.pick("source size", sz);
    let (dw, dh) = *ctx.pick("destination size", sz);
    let alg = *ctx.pick("algorithm", if ctx.thorough { &ALGS[..] } else { &ALGS[..2] });
    if bytes(f) == 2 && (unaligned16(&sl) || unaligned16(&dl)) || !super::resize::odd_ok(f, w) || !super::resize::odd_ok(f, dw) {
        return;
    }
    let mut s = place(ctx.arena, f, w, h, &sl);
    s.store(&Img::new(f, w, h).fill(noise(f, 4)));
    let d = place(ctx.arena, f, dw, dh, &dl);
    ctx.note(|| format!("resize {f:?} {w}x{h} ({}) -> {dw}x{dh} ({}) {alg:?}", sl.name, dl.name));
    key(ctx, &[f as u64, w as u64, h as u64, dw as u64, dh as u64, hash_bytes(1, sl.name.as_bytes()), hash_bytes(2, dl.name.as_bytes())]);
    if let Err(p) = resize_placed(ctx, alg, &s, &d) {
        ctx.fail("resize:panic", format!("resize {f:?} {w}x{h} ({}) -> {dw}x{dh} ({}) {alg:?}: {p}", sl.name, dl.name));
    }
    outside(ctx, &s, &d);
}
/// 16-bit samples that are not 2-byte aligned
pub fn unaligned16(l: &Layout) -> bool {
    l.mis % 2 == 1 || l.pad.iter().any(|p| p % 2 == 1) || l.excess % 2 == 1 && l.flush == Flush::Right
}
pub fn resize_placed(ctx: &mut Ctx, alg: ResizeAlg, s: &Placed, d: &Placed) -> Result<(), String> {
    let (sc, dc) = (default_color(s.f), default_color(d.f));
    ctx.call(|| {
        s.with_ref(sc, |s| {
            d.with_mut(dc, |d| {
                let a = Sendable((s, d));
                pool(1).install(move || {
                    let (s, d) = a.get();
                    Resizer::new(alg).resize(s, d).map_err(|e| format!("{e:?}"))
                })
            })
        })
    })
    .and_then(|r| r.and_then(|r| r).and_then(|r| r))
}

/// Every window of small images, also unaligned ones: never a fault or a panic.
fn c03_crop(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let (pw, ph) = *ctx.pick("parent", &[(6usize, 4usize), (4, 6), (3, 3), (36, 4), (5, 2)]);
    let big = pw > 8;
    let x = if big { *ctx.pick("x", &[0usize, 1, 2, 3, 34]) } else { ctx.choose("x", pw + 2) };
    let y = ctx.choose("y", ph + 2);
    let w = if big { *ctx.pick("w", &[0usize, 1, 2, 32, 33, 34, 36]) } else { ctx.choose("w", pw + 2) };
    let h = ctx.choose("h", ph + 2);
    let flush = *ctx.pick("guard", &[Flush::Right, Flush::Left]);
    let short = ctx.flag("short last row");
    let as_dst = ctx.flag("destination");
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2), Mode::Copy]);
    let l = Layout { flush, pad: if short { [6, 2, 4] } else { [0; 3] }, full_last: !short, ..PACKED };
    let p = place(ctx.arena, f, pw, ph, &l);
    let of = if mode == Mode::Copy { f } else { *ctx.pick("other format", &[RGBA, I420, I412]) };
    let o = place(ctx.arena, of, w, h, &Layout { flush, ..PACKED });
    let win = Window { x, y, width: w, height: h };
    let raw = p.raw(default_color(f));
    let mut other = o.raw(other_color(of));
    ctx.note(|| format!("{mode:?} window {win:?} of {f:?} {pw}x{ph}, other image {of:?}, as destination {as_dst}"));
    key(ctx, &[f as u64, pw as u64, ph as u64, x as u64, y as u64, w as u64, h as u64, flush as u64 * 4 + short as u64 * 2 + as_dst as u64]);
    let r = ctx.call(|| match raw.crop(win) {
        Err(_) => Ok(()),
        Ok(mut c) => {
            if as_dst {
                convert_dyn(mode, &other, &mut c)
            } else {
                convert_dyn(mode, &c, &mut other)
            }
        }
    });
    if let Err(e) = r {
        ctx.fail("crop:panic", format!("{mode:?} window {win:?} of {f:?} {pw}x{ph} with {of:?}, as destination {as_dst}: {e}"));
    }
    outside(ctx, &p, &o);
}

fn c03_threads(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let h = *ctx.pick("height", &[0usize, 2, 4, 6, 10, 16]);
    let k = *ctx.pick("cores", &[1usize, 2, 3, 5, 8, 64]);
    let (w, l) = ctx.pick("layout", &[(4usize, LAYOUTS[0].clone()), (34, LAYOUTS[1].clone()), (18, LAYOUTS[4].clone()), (0, LAYOUTS[0].clone())]).clone();
    let s = place(ctx.arena, sf, w, h, &l);
    let d = place(ctx.arena, df, w, h, &l);
    ctx.note(|| format!("{k} cores {sf:?} -> {df:?} {w}x{h} {}", l.name));
    key(ctx, &[sf as u64, df as u64, w as u64, h as u64, k as u64]);
    // the pool stays small, only the number of parts grows
    let (sc, dc) = (default_color(sf), default_color(df));
    let r = ctx.call(|| {
        s.with_ref(sc, |s| {
            d.with_mut(dc, |d| {
                let a = Sendable((s, d));
                pool(2).install(move || {
                    let (s, d) = a.get();
                    CPUS.with(|c| c.set(k));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| convert_multi_thread(s, d)));
                    CPUS.with(|c| c.set(0));
                    match r {
                        Ok(r) => r.map_err(|e| err_name(&e)),
                        Err(e) => std::panic::resume_unwind(e),
                    }
                })
            })
        })
    });
    match r.and_then(|r| r.and_then(|r| r)) {
        Ok(Ok(())) => {}
        x => ctx.fail("threads", format!("{k} cores {sf:?} -> {df:?} {w}x{h} {}: {x:?}", l.name)),
    }
    outside(ctx, &s, &d);
}

/// `infer` on too small buffers: a panic is documented, reading outside is not.
fn c03_infer(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let (w, h) = *ctx.pick("size", &[(2usize, 2usize), (4, 4), (18, 6)]);
    let total = f.buffer_size(w, h);
    let have = *ctx.pick("bytes", &[0, 1, total / 2, total - 1, total]);
    let b = ctx.arena.take(have, Flush::Right, 0, 0);
    ctx.note(|| format!("infer {f:?} {w}x{h} in {have} bytes"));
    key(ctx, &[f as u64, w as u64, h as u64, have as u64]);
    let r = ctx.call(|| infer(f, b.slice(), w, h, None).map(|s| (s.as_ptr() as usize, s.len())).collect::<Vec<_>>());
    ctx.stats.compared += 1;
    if let Ok(v) = r {
        let lo = b.ptr as usize;
        if v.iter().any(|(p, l)| *l > 0 && (*p < lo || p + l > lo + have)) {
            ctx.fail("infer:outside", format!("infer({f:?}, {have} bytes, {w}x{h}) returned planes outside the buffer"));
        }
    }
}

// ---- C04 -------------------------------------------------------------------------------------
pub fn c04() -> Vec<Scenario> {
    vec![
        sc("every pair and size", c04_sizes),
        sc("layouts", c04_layouts),
        sc("colors", c04_colors),
        sc("resize", c04_resize), sc("large images", super::large::c04)]
}

/// One operation executed onto two destinations with different prior content.
pub(super) fn two_dst(ctx: &mut Ctx, mode: Mode, sf: PixelFormat, sl: &Layout, sc: ColorInfo, df: PixelFormat, dl: &Layout, dc: ColorInfo, w: usize, h: usize) {
    let mut s = place(ctx.arena, sf, w, h, sl);
    s.store(&Img::new(sf, w, h).fill(noise(sf, 11)));
    s.snapshot();
    let mut out: Vec<Img> = vec![];
    for (fill, before) in [(0xA5u8, 0x5Au8), (0x3C, 0xC3)] {
        let l = Layout { fill, ..dl.clone() };
        let mut d = place(ctx.arena, df, w, h, &l);
        d.dirty(before);
        if !must(ctx, "convert", mode, &s, sc, &d, dc) {
            return;
        }
        ctx.stats.compared += 2;
        if let Err(e) = d.surroundings(fill) {
            return ctx.fail("surroundings", format!("{mode:?} {} -> {} ({}): {e}", head(&s), head(&d), dl.name));
        }
        if let Err(e) = s.unchanged() {
            return ctx.fail("source", format!("{mode:?} {} -> {}: source {e}", head(&s), head(&d)));
        }
        out.push(d.load());
    }
    ctx.state(out[0].hash(df as u64));
    if let Some(x) = img_diff(&out[0], &out[1]) {
        ctx.fail("unwritten", format!("{mode:?} {sf:?} ({}) -> {df:?} ({}) {w}x{h}: depends on the old destination: {x}", sl.name, dl.name));
    }
}

fn c04_sizes(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let w = *ctx.pick("width", &widths());
    let h = *ctx.pick("height", if ctx.thorough { &[2usize, 4, 6, 14] } else { &[2usize, 6] });
    let mode = *ctx.pick("mode", &ALL_MODES);
    if mode == Mode::Copy && sf != df {
        return;
    }
    ctx.note(|| format!("{mode:?} {sf:?} -> {df:?} {w}x{h}"));
    two_dst(ctx, mode, sf, &LAYOUTS[0], default_color(sf), df, &LAYOUTS[3], default_color(df), w, h);
}
fn c04_layouts(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let sl = ctx.pick("source layout", &SRC_LAYOUTS).clone();
    let dl = ctx.pick("destination layout", LAYOUTS).clone();
    let w = *ctx.pick("width", if ctx.thorough { &FEW_WIDTHS[..] } else { &[2, 34] });
    let h = *ctx.pick("height", &[2usize, 4]);
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2), Mode::Copy]);
    if mode == Mode::Copy && sf != df || mode == Mode::Multi(2) && h == 2 {
        return;
    }
    ctx.note(|| format!("{mode:?} {sf:?} ({}) -> {df:?} ({}) {w}x{h}", sl.name, dl.name));
    two_dst(ctx, mode, sf, &sl, default_color(sf), df, &dl, default_color(df), w, h);
}
fn c04_colors(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let sc = *ctx.pick("source color", &path_colors(sf));
    let dc = *ctx.pick("destination color", &path_colors(df));
    let w = *ctx.pick("width", if ctx.thorough { &FEW_WIDTHS[..] } else { &[2, 34] });
    ctx.note(|| format!("{sf:?} {sc:?} -> {df:?} {dc:?} {w}x4"));
    two_dst(ctx, Mode::Single, sf, &LAYOUTS[2], sc, df, &LAYOUTS[3], dc, w, 4);
}
fn c04_resize(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let sl = ctx.pick("source layout", &SRC_LAYOUTS).clone();
    let dl = ctx.pick("destination layout", LAYOUTS).clone();
    let sz: &[(usize, usize)] = &[(2, 2), (4, 6), (18, 4), (34, 10), (5, 3)];
    let (w, h) = *ctx.pick("source size", sz);
    let (dw, dh) = *ctx.pick("destination size", sz);
    let alg = *ctx.pick("algorithm", if ctx.thorough { &ALGS[..] } else { &ALGS[..2] });
    if bytes(f) == 2 && (unaligned16(&sl) || unaligned16(&dl)) || !super::resize::odd_ok(f, w) || !super::resize::odd_ok(f, dw) {
        return;
    }
    ctx.note(|| format!("resize {f:?} {w}x{h} ({}) -> {dw}x{dh} ({}) {alg:?}", sl.name, dl.name));
    let mut s = place(ctx.arena, f, w, h, &sl);
    s.store(&Img::new(f, w, h).fill(noise(f, 12)));
    s.snapshot();
    let mut out: Vec<Img> = vec![];
    for (fill, before) in [(0xA5u8, 0x5Au8), (0x3C, 0xC3)] {
        let l = Layout { fill, ..dl.clone() };
        let mut d = place(ctx.arena, f, dw, dh, &l);
        d.dirty(before);
        let what = format!("resize {f:?} {w}x{h} ({}) -> {dw}x{dh} ({}) {alg:?}", sl.name, dl.name);
        if let Err(p) = resize_placed(ctx, alg, &s, &d) {
            return ctx.fail("resize:panic", format!("{what}: {p}"));
        }
        ctx.stats.compared += 2;
        if let Err(e) = d.surroundings(fill) {
            return ctx.fail("surroundings", format!("{what}: {e}"));
        }
        if let Err(e) = s.unchanged() {
            return ctx.fail("source", format!("{what}: source {e}"));
        }
        out.push(d.load());
    }
    ctx.state(out[0].hash(f as u64));
    if let Some(x) = img_diff(&out[0], &out[1]) {
        ctx.fail("unwritten", format!("resize {f:?} {w}x{h} ({}) -> {dw}x{dh} ({}) {alg:?}: depends on the old destination: {x}", sl.name, dl.name));
    }
}

// ---- C05 -------------------------------------------------------------------------------------
pub fn c05() -> Vec<Scenario> {
    vec![
        sc("layouts", c05_layouts),
        sc("colors", c05_colors),
        sc("strides per plane", c05_strides),
        sc("alignment", c05_align),
        sc("resize", c05_resize), sc("large images", super::large::c05), sc("large strides", super::large::c05_far)]
}

pub(super) fn same(ctx: &mut Ctx, mode: Mode, src: &Img, sc: ColorInfo, df: PixelFormat, dc: ColorInfo, sl: &Layout, dl: &Layout) {
    let Some(base) = (if mode == Mode::Copy {
        Some(src.clone())
    } else {
        conv_img(ctx, "convert", src, sc, df, dc)
    }) else {
        return;
    };
    let mut s = place(ctx.arena, src.f, src.w, src.h, sl);
    s.store(src);
    let d = place(ctx.arena, df, src.w, src.h, dl);
    if !must(ctx, "convert", mode, &s, sc, &d, dc) {
        return;
    }
    let got = d.load();
    ctx.stats.compared += 1;
    ctx.state(got.hash(hash_bytes(hash_bytes(df as u64, sl.name.as_bytes()), dl.name.as_bytes())));
    if let Some(x) = img_diff(&got, &base) {
        ctx.fail("layout", format!("{mode:?} {} ({}) -> {} ({}) differs from the packed result: {x}", head(&s), sl.name, head(&d), dl.name));
    }
}
fn c05_layouts(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let sl = ctx.pick("source layout", &SRC_LAYOUTS).clone();
    let dl = ctx.pick("destination layout", LAYOUTS).clone();
    let w = *ctx.pick("width", if ctx.thorough { &FEW_WIDTHS[..] } else { &[2, 18, 34] });
    let h = *ctx.pick("height", &[2usize, 6]);
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2), Mode::Copy]);
    if mode == Mode::Copy && sf != df || mode == Mode::Multi(2) && h == 2 {
        return;
    }
    ctx.note(|| format!("{mode:?} {sf:?} ({}) -> {df:?} ({}) {w}x{h}", sl.name, dl.name));
    let src = Img::new(sf, w, h).fill(noise(sf, 21));
    same(ctx, mode, &src, default_color(sf), df, default_color(df), &sl, &dl);
}
fn c05_colors(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let sc = *ctx.pick("source color", &path_colors(sf));
    let dc = *ctx.pick("destination color", &path_colors(df));
    let sl = ctx.pick("source layout", if ctx.thorough { &LAYOUTS[..] } else { &LAYOUTS[10..12] }).clone();
    let dl = ctx.pick("destination layout", if ctx.thorough { &LAYOUTS[..] } else { &LAYOUTS[3..5] }).clone();
    ctx.note(|| format!("{sf:?} {sc:?} ({}) -> {df:?} {dc:?} ({})", sl.name, dl.name));
    let src = Img::new(sf, 38, 4).fill(noise(sf, 22));
    same(ctx, Mode::Single, &src, sc, df, dc, &sl, &dl);
}
/// Every combination of small paddings on the three planes.
fn c05_strides(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let pads = [0usize, 1, 2, 35];
    let dst = ctx.flag("destination");
    let n = nplanes(if dst { df } else { sf });
    let mut pad = [0; 3];
    for p in pad.iter_mut().take(n) {
        *p = *ctx.pick("padding", &pads);
    }
    let full_last = ctx.flag("full last row");
    let w = *ctx.pick("width", if ctx.thorough { &FEW_WIDTHS[..] } else { &[4, 34] });
    let h = *ctx.pick("height", &[4usize, 6]);
    let l = Layout { pad, full_last, ..PACKED };
    ctx.note(|| format!("{sf:?} -> {df:?} {w}x{h}, {} row padding {pad:?}", if dst { "destination" } else { "source" }));
    let src = Img::new(sf, w, h).fill(noise(sf, 23));
    let (sl, dl) = if dst { (PACKED, l) } else { (l, PACKED) };
    same(ctx, Mode::Single, &src, default_color(sf), df, default_color(df), &sl, &dl);
}
fn c05_align(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let a = ctx.choose("source misalignment", if ctx.thorough { 65 } else { 17 });
    let b = *ctx.pick("destination misalignment", &[0usize, 1, 3, 8, 16, 31]);
    let w = *ctx.pick("width", &[16usize, 34]);
    ctx.note(|| format!("{sf:?} at {a} -> {df:?} at {b}, {w}x2"));
    let src = Img::new(sf, w, 2).fill(noise(sf, 24));
    let sl = Layout { mis: a, flush: Flush::Left, ..PACKED };
    let dl = Layout { mis: b, flush: Flush::Left, ..PACKED };
    same(ctx, Mode::Single, &src, default_color(sf), df, default_color(df), &sl, &dl);
}
fn c05_resize(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let sl = ctx.pick("source layout", &SRC_LAYOUTS).clone();
    let dl = ctx.pick("destination layout", LAYOUTS).clone();
    let sz: &[(usize, usize)] = &[(2, 2), (4, 6), (18, 4), (34, 10), (5, 3)];
    let (w, h) = *ctx.pick("source size", sz);
    let (dw, dh) = *ctx.pick("destination size", sz);
    let alg = *ctx.pick("algorithm", if ctx.thorough { &ALGS[..] } else { &ALGS[..2] });
    if bytes(f) == 2 && (unaligned16(&sl) || unaligned16(&dl)) || !super::resize::odd_ok(f, w) || !super::resize::odd_ok(f, dw) {
        return;
    }
    let what = format!("resize {f:?} {w}x{h} ({}) -> {dw}x{dh} ({}) {alg:?}", sl.name, dl.name);
    ctx.note(|| what.clone());
    let src = Img::new(f, w, h).fill(noise(f, 25));
    let mut out = vec![];
    for (sl, dl) in [(&PACKED, &PACKED), (&sl, &dl)] {
        let mut s = place(ctx.arena, f, w, h, sl);
        s.store(&src);
        let d = place(ctx.arena, f, dw, dh, dl);
        if let Err(p) = resize_placed(ctx, alg, &s, &d) {
            return ctx.fail("resize:panic", format!("{what}: {p}"));
        }
        out.push(d.load());
    }
    ctx.stats.compared += 1;
    ctx.state(out[1].hash(hash_bytes(0, what.as_bytes())));
    if let Some(x) = img_diff(&out[1], &out[0]) {
        ctx.fail("layout", format!("{what} differs from the packed result: {x}"));
    }
}

// ---- C10 -------------------------------------------------------------------------------------
pub fn c10() -> Vec<Scenario> {
    vec![
        sc("acceptance", c10_accept),
        sc("deficient parent", c10_deficient),
        sc("samples of a window", c10_samples),
        sc("convert from a window", c10_from),
        sc("convert into a window", c10_into),
        sc("windows of windows", c10_nested),
        sc("resize", c10_resize), sc("large images", super::large::c10)]
}

const EDGE: [usize; 8] =
    [0, 1, 2, 1 << 31, 1 << 32, usize::MAX / 2, usize::MAX - 1, usize::MAX];
fn c10_accept(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let pw = 1 + ctx.choose("parent width", 5);
    let ph = 1 + ctx.choose("parent height", 5);
    let mut v: Vec<usize> = (0..=7).collect();
    v.extend(&EDGE[3..]);
    v.extend([usize::MAX - 2, usize::MAX - 3, usize::MAX - 4]);
    let x = *ctx.pick("x", &v);
    let w = *ctx.pick("w", &v);
    // one axis at a time exhaustively, the other over a few cases; then swapped
    let (y, h) = *ctx.pick("y,h", &[(0usize, 1usize), (0, 0), (ph, 0), (ph, 1), (0, ph), (0, ph + 1), (1, ph), (ph - 1, 1), (usize::MAX, 1), (1, usize::MAX), (usize::MAX, usize::MAX), (2, usize::MAX - 1)]);
    let swap = ctx.flag("swap axes");
    let (pw, ph, x, y, w, h) = if swap { (ph, pw, y, x, h, w) } else { (pw, ph, x, y, w, h) };
    let win = Window { x, y, width: w, height: h };
    ctx.note(|| format!("{win:?} of {f:?} {pw}x{ph}"));
    key(ctx, &[f as u64, pw as u64, ph as u64, x as u64, y as u64, w as u64, h as u64]);
    ctx.stats.compared += 1;
    let p = place(ctx.arena, f, pw, ph, &PACKED);
    let raw = p.raw(other_color(f));
    let inside = x.checked_add(w).is_some_and(|r| r <= pw) && y.checked_add(h).is_some_and(|b| b <= ph);
    let r = ctx.call(|| match raw.crop(win) {
        Ok(c) => {
            let geo = (c.format(), c.width(), c.height(), c.color());
            let b = c.bounds_check().map_err(|e| format!("{e:?}"));
            let inner = c.into_inner();
            Ok((geo, b, (inner.width(), inner.height())))
        }
        Err(CropError::WindowSizeOutOfBounds) => Err("out"),
        Err(CropError::BoundsCheck(_)) => Err("bounds"),
        #[allow(unreachable_patterns)]
        Err(_) => Err("other"),
    });
    match r {
        Err(e) => ctx.fail("accept:panic", format!("{win:?} of {f:?} {pw}x{ph}: {e}")),
        Ok(Ok((geo, b, inner))) => {
            if !inside {
                ctx.fail("accept:outside", format!("{win:?} of {f:?} {pw}x{ph} accepted"));
            } else if geo != (f, w, h, other_color(f)) || inner != (pw, ph) {
                ctx.fail("accept:geometry", format!("{win:?} of {f:?} {pw}x{ph} reports {geo:?}, parent {inner:?}"));
            } else if let (Err(e), true) = (&b, aligned(f, x, y) && w > 0 && h > 0) {
                ctx.fail("accept:bounds", format!("{win:?} of {f:?} {pw}x{ph} fails its own bounds check: {e}"));
            }
        }
        Ok(Err(e)) => {
            if inside || e != "out" {
                ctx.fail("accept:refused", format!("{win:?} of {f:?} {pw}x{ph}: {e}, inside: {inside}"));
            }
        }
    }
}
fn aligned(f: PixelFormat, x: usize, y: usize) -> bool {
    let (sx, sy) = sub(f);
    x % sx == 0 && y % sy == 0
}
fn c10_deficient(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let p = ctx.choose("plane", nplanes(f));
    let l = *ctx.pick("lack", &LACKS[..10]);
    let (w, h) = *ctx.pick("size", &[(2usize, 2usize), (6, 4)]);
    let sp = place(ctx.arena, f, w, h, &PACKED);
    let mut s = sp.raw(default_color(f));
    if !lack(&mut s, p, l) {
        return;
    }
    ctx.note(|| format!("crop of {f:?} {w}x{h} with plane {p} {l:?}"));
    key(ctx, &[f as u64, p as u64, w as u64, hash_bytes(0, format!("{l:?}").as_bytes())]);
    ctx.stats.compared += 1;
    let win = Window { x: 0, y: 0, width: 2, height: 2 };
    let r = ctx.call(|| s.crop(win).map(|_| ()).map_err(|e| matches!(e, CropError::BoundsCheck(_))));
    match r {
        Ok(Err(true)) => {}
        x => ctx.fail("deficient", format!("crop of {f:?} {w}x{h} with plane {p} {l:?}: {x:?}")),
    }
}

/// Parent sizes and windows: all chroma aligned windows with even sizes.
fn choose_window(ctx: &mut Ctx, f: PixelFormat, odd: bool) -> (usize, usize, usize, usize, usize, usize) {
    // without subsampling a window may have any size
    let k = if odd && sub(f) == (1, 1) { 1 } else { 2 };
    let (pw, ph) = *ctx.pick("parent", &[(6usize, 6usize), (8, 4), (38, 4), (70, 2), (7, 5)]);
    let (sx, sy) = sub(f);
    let xs: Vec<usize> = if pw < 10 { (0..pw / sx).map(|i| i * sx).collect() } else { vec![0, 2, 4, 18, 36].into_iter().filter(|x| *x < pw).collect() };
    let x = *ctx.pick("x", &xs);
    let ys: Vec<usize> = (0..ph).filter(|y| y % sy == 0).collect();
    let y = *ctx.pick("y", &ys);
    let ws: Vec<usize> = if pw < 10 {
        (1..=(pw - x) / k).map(|i| k * i).collect()
    } else {
        let m = (pw - x) & !1;
        let mut v = vec![m, 2.min(m), 32.min(m), 16.min(m), 34.min(m)];
        if k == 1 {
            v.extend([1, 17.min(m), pw - x]);
        }
        v.sort();
        v.dedup();
        v.retain(|x| *x > 0);
        v
    };
    if ws.is_empty() {
        return (pw, ph, x, y, 0, 0);
    }
    let w = *ctx.pick("w", &ws);
    let hs: Vec<usize> = (1..=(ph - y) / k).map(|i| k * i).collect();
    if hs.is_empty() {
        return (pw, ph, x, y, 0, 0);
    }
    let h = *ctx.pick("h", &hs);
    (pw, ph, x, y, w, h)
}
fn parent_layout(ctx: &mut Ctx) -> Layout {
    let v = [
        PACKED,
        Layout { pad: [6, 2, 4], ..PACKED },
        Layout { pad: [3, 5, 7], full_last: false, ..PACKED },
        Layout { pad: [32, 0, 8], flush: Flush::Left, excess: 41, mis: 1, ..PACKED },
    ];
    ctx.pick("parent layout", &v).clone()
}

/// The planes of the cropped image show exactly the parent's samples.
fn c10_samples(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let l = parent_layout(ctx);
    let mutable = ctx.flag("mutable");
    let (pw, ph, x, y, w, h) = choose_window(ctx, f, true);
    if w == 0 {
        return;
    }
    let win = Window { x, y, width: w, height: h };
    let mut p = place(ctx.arena, f, pw, ph, &l);
    let src = Img::new(f, pw, ph).fill(noise(f, 31));
    p.store(&src);
    ctx.note(|| format!("{win:?} of {f:?} {pw}x{ph} pad {:?}", l.pad));
    let want = src.window(x, y, w, h);
    let raw = p.raw(other_color(f));
    let bp = bytes(f);
    let r = ctx.call(|| {
        let mut c = raw.crop(win).map_err(|e| format!("{e:?}"))?;
        let g = geom(f, w, h);
        let read = |i: usize, (s, st): (&[u8], usize)| -> Result<Vec<u16>, String> {
            let (cols, rows) = g[i];
            let mut v = vec![];
            for r in 0..rows {
                for k in 0..cols {
                    let o = r * st + k * bp;
                    let b = s.get(o..o + bp).ok_or(format!("plane {i} ends before row {r} sample {k}"))?;
                    v.push(if bp == 1 { b[0] as u16 } else { u16::from_ne_bytes([b[0], b[1]]) });
                }
            }
            Ok(v)
        };
        let mut o = Img::new(f, w, h);
        let mut n = 0;
        if mutable {
            for (i, (s, st)) in c.planes_mut().enumerate() {
                o.planes[i] = read(i, (s, st))?;
                n += 1;
            }
        } else {
            for (i, pl) in c.planes().enumerate() {
                o.planes[i] = read(i, pl)?;
                n += 1;
            }
        }
        if n != g.len() {
            return Err(format!("{n} planes"));
        }
        Ok::<_, String>(o)
    });
    ctx.stats.compared += 1;
    ctx.state(want.hash(mix(x as u64, y as u64)));
    match r {
        Ok(Ok(o)) => {
            if let Some(d) = img_diff(&o, &want) {
                ctx.fail("samples", format!("{win:?} of {f:?} {pw}x{ph} shows other samples: {d}"));
            }
        }
        Ok(Err(e)) => ctx.fail("samples:error", format!("{win:?} of {f:?} {pw}x{ph}: {e}")),
        Err(e) => ctx.fail("samples:panic", format!("{win:?} of {f:?} {pw}x{ph}: {e}")),
    }
}

fn crop_op(ctx: &mut Ctx, into: bool) {
    let f = *ctx.pick("format", &FORMATS);
    let of = *ctx.pick("other format", &FORMATS);
    let mode = *ctx.pick("mode", &[Mode::Single, Mode::Multi(2), Mode::Copy]);
    if mode == Mode::Copy && of != f {
        return;
    }
    let l = parent_layout(ctx);
    let (pw, ph, x, y, w, h) = choose_window(ctx, f, false);
    if w == 0 || !ctx.thorough && pw == 70 && of != RGBA && of != I412 {
        return;
    }
    let win = Window { x, y, width: w, height: h };
    let (fc, oc) = (default_color(f), if mode == Mode::Copy { default_color(f) } else { other_color(of) });
    let what = format!("{mode:?} {} {win:?} of {f:?} {pw}x{ph} pad {:?}, other image {of:?}", if into { "into" } else { "from" }, l.pad);
    ctx.note(|| what.clone());
    let back = Img::new(f, pw, ph).fill(noise(f, 32));
    let mut p = place(ctx.arena, f, pw, ph, &l);
    p.store(&back);
    let raw = p.raw(fc);
    if into {
        let src = Img::new(of, w, h).fill(noise(of, 33));
        let want = if mode == Mode::Copy { Some(src.clone()) } else { conv_img(ctx, "convert", &src, oc, f, fc) };
        let Some(want) = want else { return };
        let mut s = place(ctx.arena, of, w, h, &PACKED);
        s.store(&src);
        s.snapshot();
        let sraw = s.raw(oc);
        let r = ctx.call(|| match raw.crop(win) {
            Ok(mut c) => convert_dyn(mode, &sraw, &mut c),
            Err(e) => Err(format!("{e:?}")),
        });
        ctx.stats.compared += 2;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return ctx.fail("into:error", format!("{what}: {e}")),
            Err(e) => return ctx.fail("into:panic", format!("{what}: {e}")),
        }
        let mut all = back.clone();
        for yy in 0..h {
            for xx in 0..w {
                for c in 0..ncomp(f) {
                    all.set(x + xx, y + yy, c, want.get(xx, yy, c));
                }
            }
        }
        ctx.state(all.hash(mix(x as u64, y as u64)));
        if let Some(d) = img_diff(&p.load(), &all) {
            return ctx.fail("into", format!("{what}: parent afterwards: {d}"));
        }
        if let Err(e) = p.surroundings(l.fill) {
            return ctx.fail("into:surroundings", format!("{what}: {e}"));
        }
        if let Err(e) = s.unchanged() {
            ctx.fail("into:source", format!("{what}: {e}"));
        }
    } else {
        let src = back.window(x, y, w, h);
        let want = if mode == Mode::Copy { Some(src) } else { conv_img(ctx, "convert", &src, fc, of, oc) };
        let Some(want) = want else { return };
        p.snapshot();
        let d = place(ctx.arena, of, w, h, &Layout { pad: [2, 6, 4], ..PACKED });
        let mut draw = d.raw(oc);
        let r = ctx.call(|| match raw.crop(win) {
            Ok(c) => convert_dyn(mode, &c, &mut draw),
            Err(e) => Err(format!("{e:?}")),
        });
        ctx.stats.compared += 2;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return ctx.fail("from:error", format!("{what}: {e}")),
            Err(e) => return ctx.fail("from:panic", format!("{what}: {e}")),
        }
        let got = d.load();
        ctx.state(got.hash(mix(x as u64, y as u64)));
        if let Some(x) = img_diff(&got, &want) {
            return ctx.fail("from", format!("{what}: {x}"));
        }
        if let Err(e) = d.surroundings(0xA5) {
            return ctx.fail("from:surroundings", format!("{what}: {e}"));
        }
        if let Err(e) = p.unchanged() {
            ctx.fail("from:source", format!("{what}: {e}"));
        }
    }
}
fn c10_from(ctx: &mut Ctx) {
    crop_op(ctx, false)
}
fn c10_into(ctx: &mut Ctx) {
    crop_op(ctx, true)
}

/// crop(crop(i, a), b) == crop(i, a+b), for both from and into.
fn c10_nested(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let into = ctx.flag("into");
    let l = parent_layout(ctx);
    let (sx, sy) = sub(f);
    let (pw, ph) = (8usize, 8usize);
    let x1 = ctx.choose("x", 4 / sx) * sx;
    let y1 = ctx.choose("y", 4 / sy) * sy;
    let w1 = *ctx.pick("w", &[pw - x1, 4]);
    let h1 = *ctx.pick("h", &[ph - y1, 4]);
    let x2 = ctx.choose("inner x", 4 / sx) * sx;
    let y2 = ctx.choose("inner y", 4 / sy) * sy;
    let rest = |a: usize, b: usize| (a.saturating_sub(b)) & !1;
    let w2 = rest(w1, x2);
    let h2 = rest(h1, y2);
    if w2 == 0 || h2 == 0 {
        return;
    }
    let three = ctx.flag("third window");
    let a = Window { x: x1, y: y1, width: w1, height: h1 };
    let b = Window { x: x2, y: y2, width: w2, height: h2 };
    let what = format!("{b:?} of {a:?} of {f:?} {pw}x{ph} pad {:?} into {into}", l.pad);
    ctx.note(|| what.clone());
    let back = Img::new(f, pw, ph).fill(noise(f, 34));
    let mut p = place(ctx.arena, f, pw, ph, &l);
    p.store(&back);
    let c = default_color(f);
    let raw = p.raw(c);
    let of = RGBA;
    let oc = other_color(of);
    let full = Window { x: 0, y: 0, width: w2, height: h2 };
    let (src, want) = if into {
        let s = Img::new(of, w2, h2).fill(noise(of, 35));
        let Some(w) = conv_img(ctx, "convert", &s, oc, f, c) else { return };
        (s, w)
    } else {
        let s = back.window(x1 + x2, y1 + y2, w2, h2);
        let Some(w) = conv_img(ctx, "convert", &s, c, of, oc) else { return };
        (s, w)
    };
    let mut o = place(ctx.arena, of, w2, h2, &PACKED);
    if into {
        o.store(&src);
    }
    let mut oraw = o.raw(oc);
    let r = ctx.call(|| -> Result<(), String> {
        let e = |e: CropError| format!("{e:?}");
        let c = raw.crop(a).map_err(e)?.crop(b).map_err(e)?;
        if three {
            let mut c = c.crop(full).map_err(e)?;
            if into { convert_dyn(Mode::Single, &oraw, &mut c) } else { convert_dyn(Mode::Single, &c, &mut oraw) }
        } else {
            let mut c = c;
            if into { convert_dyn(Mode::Single, &oraw, &mut c) } else { convert_dyn(Mode::Single, &c, &mut oraw) }
        }
    });
    ctx.stats.compared += 1;
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return ctx.fail("nested:error", format!("{what}: {e}")),
        Err(e) => return ctx.fail("nested:panic", format!("{what}: {e}")),
    }
    let (got, want) = if into {
        let mut all = back.clone();
        for yy in 0..h2 {
            for xx in 0..w2 {
                for k in 0..ncomp(f) {
                    all.set(x1 + x2 + xx, y1 + y2 + yy, k, want.get(xx, yy, k));
                }
            }
        }
        (p.load(), all)
    } else {
        (o.load(), want)
    };
    ctx.state(got.hash(into as u64));
    if let Some(d) = img_diff(&got, &want) {
        ctx.fail("nested", format!("{what}: {d}"));
    }
    if let Err(e) = p.surroundings(l.fill) {
        ctx.fail("nested:surroundings", format!("{what}: {e}"));
    }
}

fn c10_resize(ctx: &mut Ctx) {
    let f = *ctx.pick("format", &FORMATS);
    let into = ctx.flag("into");
    let l = parent_layout(ctx);
    if bytes(f) == 2 && unaligned16(&l) {
        return;
    }
    let alg = *ctx.pick("algorithm", if ctx.thorough { &ALGS[..] } else { &ALGS[..2] });
    let (pw, ph, x, y, w, h) = choose_window(ctx, f, true);
    if w == 0 {
        return;
    }
    let (ow, oh) = *ctx.pick("other size", &[(2usize, 2usize), (10, 8)]);
    let win = Window { x, y, width: w, height: h };
    let what = format!("resize {alg:?} {} {win:?} of {f:?} {pw}x{ph} pad {:?}, other image {ow}x{oh}", if into { "into" } else { "from" }, l.pad);
    ctx.note(|| what.clone());
    let c = default_color(f);
    let back = Img::new(f, pw, ph).fill(noise(f, 36));
    let src = if into { Img::new(f, ow, oh).fill(noise(f, 37)) } else { back.window(x, y, w, h) };
    // reference: the same resize between packed images
    let mut s0 = place(ctx.arena, f, src.w, src.h, &PACKED);
    s0.store(&src);
    let d0 = if into { place(ctx.arena, f, w, h, &PACKED) } else { place(ctx.arena, f, ow, oh, &PACKED) };
    if let Err(e) = resize_placed(ctx, alg, &s0, &d0) {
        return ctx.fail("resize:panic", format!("{what} (packed reference): {e}"));
    }
    let want = d0.load();
    let mut p = place(ctx.arena, f, pw, ph, &l);
    p.store(&back);
    let mut o = place(ctx.arena, f, ow, oh, &PACKED);
    if into {
        o.store(&src);
    }
    let raw = p.raw(c);
    let mut oraw = o.raw(c);
    let r = ctx.call(|| -> Result<(), String> {
        let mut c = raw.crop(win).map_err(|e| format!("{e:?}"))?;
        let a: Sendable<(&dyn ImageRef, &mut dyn ImageMut)> =
            if into { Sendable((&oraw, &mut c)) } else { Sendable((&c, &mut oraw)) };
        pool(1).install(move || {
            let (s, d) = a.get();
            Resizer::new(alg).resize(s, d).map_err(|e| format!("{e:?}"))
        })
    });
    ctx.stats.compared += 1;
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return ctx.fail("resize:error", format!("{what}: {e}")),
        Err(e) => return ctx.fail("resize:panic", format!("{what}: {e}")),
    }
    let (got, want) = if into {
        let mut all = back.clone();
        for yy in 0..h {
            for xx in 0..w {
                for k in 0..ncomp(f) {
                    all.set(x + xx, y + yy, k, want.get(xx, yy, k));
                }
            }
        }
        (p.load(), all)
    } else {
        (o.load(), want)
    };
    ctx.state(got.hash(into as u64));
    if let Some(d) = img_diff(&got, &want) {
        ctx.fail("resize", format!("{what}: {d}"));
    }
    if let Err(e) = p.surroundings(l.fill) {
        ctx.fail("resize:surroundings", format!("{what}: {e}"));
    }
}
