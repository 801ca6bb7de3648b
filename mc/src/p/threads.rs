//! C09 multi-threaded conversion equals single-threaded conversion: every way to split the rows.
//! (The interleavings of the parts are explored by the controlled scheduler, see /verif/sched.)
use super::sc;
use crate::explore::*;
use crate::img::*;
use crate::ops::*;
use ezk_image::*;
use PixelFormat::*;

pub fn c09() -> Vec<Scenario> {
    vec![
        sc("heights and cores", heights),
        sc("colors", colors),
        sc("layouts", layouts),
        sc("sizes and errors", errors),
        sc("deficient planes", deficient), sc("large images", super::large::c09), sc("many rows and cores", super::large::c09_rows), sc("every number of cores", super::large::c09_cores)]
}
const CORES: [usize; 8] = [2, 3, 1, 4, 5, 7, 8, 64];

/// `convert_multi_thread` on a machine with `k` cores; the pool has at most 4 threads.
fn multi(s: &dyn ImageRef, d: &mut dyn ImageMut, k: usize) -> Result<(), String> {
    let a = Sendable((s, d));
    pool(k.min(4)).install(move || {
        let (s, d) = a.get();
        struct Reset;
        impl Drop for Reset {
            fn drop(&mut self) {
                CPUS.with(|c| c.set(0))
            }
        }
        let _r = Reset;
        CPUS.with(|c| c.set(k));
        convert_multi_thread(s, d).map_err(|e| err_name(&e))
    })
}
pub(super) fn both(ctx: &mut Ctx, src: &Img, scol: ColorInfo, sl: &Layout, df: PixelFormat, dcol: ColorInfo, dl: &Layout, k: usize) {
    let mut s = place(ctx.arena, src.f, src.w, src.h, sl);
    s.store(src);
    let mut a = place(ctx.arena, df, src.w, src.h, dl);
    let mut b = place(ctx.arena, df, src.w, src.h, dl);
    a.dirty(0x5A);
    b.dirty(0x5A);
    let ra = ctx.call(|| s.with_ref(scol, |s| a.with_mut(dcol, |d| convert(s, d).map_err(|e| err_name(&e)))));
    let rb = ctx.call(|| s.with_ref(scol, |s| b.with_mut(dcol, |d| multi(s, d, k))));
    verdict(ctx, &s, &a, &b, ra.and_then(|r| r.and_then(|r| r)), rb.and_then(|r| r.and_then(|r| r)), k);
}
fn verdict(ctx: &mut Ctx, s: &Placed, a: &Placed, b: &Placed, ra: Result<Result<(), String>, String>, rb: Result<Result<(), String>, String>, k: usize) {
    let what = format!("{} -> {} with {k} cores", head(s), head(a));
    ctx.stats.compared += 1;
    let ra = match ra {
        Ok(r) => r,
        // reported by C03/C19
        Err(e) => return ctx.fail("single:panic", format!("{what}: single-threaded conversion: {e}")),
    };
    let rb = match rb {
        Ok(r) => r,
        Err(e) => return ctx.fail("multi:panic", format!("{what}: {e}")),
    };
    if ra != rb {
        return ctx.fail("result", format!("{what}: single-threaded {ra:?}, multi-threaded {rb:?}"));
    }
    for (x, y) in a.bufs.iter().zip(&b.bufs) {
        if let Some(i) = x.slice().iter().zip(y.slice()).position(|(x, y)| x != y) {
            return ctx.fail("bytes", format!("{what}: destination byte {i}: single {} multi {}", x.slice()[i], y.slice()[i]));
        }
        if let Some(o) = y.stray() {
            return ctx.fail("stray", format!("{what}: byte at {o} relative to a plane written"));
        }
    }
    ctx.state(b.bufs.iter().fold(mix(k as u64, a.f as u64), |h, b| hash_bytes(h, b.slice())));
}

fn heights(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let h = 2 * ctx.choose("height", if ctx.thorough { 20 } else { 9 });
    let k = *ctx.pick("cores", &CORES);
    let w = *ctx.pick("width", if ctx.thorough { &FEW_WIDTHS[..] } else { &[2, 34] });
    ctx.note(|| format!("{sf:?} -> {df:?} {w}x{h} with {k} cores"));
    let src = Img::new(sf, w, h).fill(noise(sf, 111));
    both(ctx, &src, default_color(sf), &PACKED, df, other_color(df), if h == 0 { &PACKED } else { &LAYOUTS[3] }, k);
}
fn colors(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let a = *ctx.pick("source color", &path_colors(sf));
    let b = *ctx.pick("destination color", &path_colors(df));
    let k = *ctx.pick("cores", &[2usize, 3]);
    ctx.note(|| format!("{sf:?} {a:?} -> {df:?} {b:?} with {k} cores"));
    let src = Img::new(sf, 38, 10).fill(noise(sf, 112));
    both(ctx, &src, a, &PACKED, df, b, &PACKED, k);
}
fn layouts(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let sl = ctx.pick("source layout", &SRC_LAYOUTS).clone();
    let dl = ctx.pick("destination layout", LAYOUTS).clone();
    let k = *ctx.pick("cores", if ctx.thorough { &[2usize, 3, 8][..] } else { &[3] });
    let h = *ctx.pick("height", if ctx.thorough { &[2usize, 4, 6, 8, 14][..] } else { &[8] });
    ctx.note(|| format!("{sf:?} ({}) -> {df:?} ({}) 18x{h} with {k} cores", sl.name, dl.name));
    let src = Img::new(sf, 18, h).fill(noise(sf, 113));
    both(ctx, &src, default_color(sf), &sl, df, other_color(df), &dl, k);
}
/// Every pair of small sizes (zero, odd, different), every kind of color information.
fn errors(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let sz = if ctx.thorough { 5 } else { 3 };
    let (w, h) = (ctx.choose("width", sz), ctx.choose("height", sz));
    let (dw, dh) = (ctx.choose("destination width", sz), ctx.choose("destination height", sz));
    let kinds = [default_color(sf), default_color(if is_rgb(sf) { I420 } else { RGB })];
    let scol = *ctx.pick("source color", &kinds);
    let kinds = [other_color(df), default_color(if is_rgb(df) { I420 } else { RGB }), default_color(df)];
    let dcol = *ctx.pick("destination color", &kinds);
    let k = *ctx.pick("cores", &[2usize, 1]);
    ctx.note(|| format!("{sf:?} {w}x{h} {scol:?} -> {df:?} {dw}x{dh} {dcol:?} with {k} cores"));
    let s = place(ctx.arena, sf, w, h, &PACKED);
    let mut a = place(ctx.arena, df, dw, dh, &PACKED);
    let mut b = place(ctx.arena, df, dw, dh, &PACKED);
    a.dirty(0x77);
    b.dirty(0x77);
    let ra = ctx.call(|| s.with_ref(scol, |s| a.with_mut(dcol, |d| convert(s, d).map_err(|e| err_name(&e)))));
    let rb = ctx.call(|| s.with_ref(scol, |s| b.with_mut(dcol, |d| multi(s, d, k))));
    verdict(ctx, &s, &a, &b, ra.and_then(|r| r.and_then(|r| r)), rb.and_then(|r| r.and_then(|r| r)), k);
}
/// Images of the user whose planes do not fit: the same error from both.
fn deficient(ctx: &mut Ctx) {
    let (sf, df) = pair(ctx.choose("pair", 225));
    let dst = ctx.flag("destination");
    let bad = if dst { df } else { sf };
    let p = ctx.choose("plane", nplanes(bad));
    let lack = ctx.choose("lack", 4);
    let h = *ctx.pick("height", &[2usize, 8]);
    let k = *ctx.pick("cores", &[2usize, 3]);
    let sp = place(ctx.arena, sf, 18, h, &PACKED);
    let ap = place(ctx.arena, df, 18, h, &PACKED);
    let bp = place(ctx.arena, df, 18, h, &PACKED);
    let mut s = sp.raw(default_color(sf));
    let mut a = ap.raw(other_color(df));
    let mut b = bp.raw(other_color(df));
    let cut = |r: &mut Raw| match lack {
        0 => {
            r.planes.remove(p);
        }
        1 => r.planes[p].0.len -= 1,
        2 => r.planes[p].0.len = 0,
        _ => r.planes[p].1 -= 1,
    };
    if dst {
        cut(&mut a);
        cut(&mut b);
    } else {
        cut(&mut s);
    }
    ctx.note(|| format!("{sf:?} -> {df:?} 18x{h} with {k} cores, {} plane {p} deficient ({lack})", if dst { "destination" } else { "source" }));
    let ra = ctx.call(|| convert(&s, &mut a).map_err(|e| err_name(&e)));
    let rb = ctx.call(|| multi(&s, &mut b, k));
    verdict(ctx, &sp, &ap, &bp, ra, rb, k);
}
