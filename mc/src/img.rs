//! Independent description of the pixel formats, logical images, and the ways a logical image can
//! be laid out in memory and presented to the library.
use crate::explore::{hash_bytes, mix};
use crate::mem::{not_all, Arena, Buf, Flush};
use ezk_image::*;
use PixelFormat::*;

pub const FORMATS: [PixelFormat; 15] = [
    I420, I422, I444, I010, I012, I210, I212, I410, I412, NV12, YUYV, RGBA, BGRA, RGB, BGR,
];

/// Samples per row / rows of every plane, in samples (not bytes).
pub fn geom(f: PixelFormat, w: usize, h: usize) -> Vec<(usize, usize)> {
    match f {
        I420 | I010 | I012 => vec![(w, h), (w / 2, h / 2), (w / 2, h / 2)],
        I422 | I210 | I212 => vec![(w, h), (w / 2, h), (w / 2, h)],
        I444 | I410 | I412 => vec![(w, h), (w, h), (w, h)],
        NV12 => vec![(w, h), (w, h / 2)],
        YUYV => vec![(2 * w, h)],
        RGBA | BGRA => vec![(4 * w, h)],
        RGB | BGR => vec![(3 * w, h)],
    }
}
pub fn nplanes(f: PixelFormat) -> usize {
    match f {
        NV12 => 2,
        YUYV | RGBA | BGRA | RGB | BGR => 1,
        _ => 3,
    }
}
pub fn bits(f: PixelFormat) -> u32 {
    match f {
        I010 | I210 | I410 => 10,
        I012 | I212 | I412 => 12,
        _ => 8,
    }
}
pub fn bytes(f: PixelFormat) -> usize {
    if bits(f) > 8 {
        2
    } else {
        1
    }
}
pub fn max(f: PixelFormat) -> u16 {
    ((1u32 << bits(f)) - 1) as u16
}
pub fn is_rgb(f: PixelFormat) -> bool {
    matches!(f, RGB | BGR | RGBA | BGRA)
}
/// (horizontal, vertical) chroma subsampling
pub fn sub(f: PixelFormat) -> (usize, usize) {
    match f {
        I420 | I010 | I012 | NV12 => (2, 2),
        I422 | I210 | I212 | YUYV => (2, 1),
        _ => (1, 1),
    }
}
/// Position of component c (Y,U,V or R,G,B,A) of pixel x,y: (plane, column in samples, row)
pub fn comp(f: PixelFormat, x: usize, y: usize, c: usize) -> (usize, usize, usize) {
    match f {
        I420 | I010 | I012 if c > 0 => (c, x / 2, y / 2),
        I422 | I210 | I212 if c > 0 => (c, x / 2, y),
        I444 | I410 | I412 if c > 0 => (c, x, y),
        NV12 if c > 0 => (1, (x / 2) * 2 + (c - 1), y / 2),
        YUYV => (0, if c == 0 { 2 * x } else { (x / 2) * 4 + 2 * c - 1 }, y),
        RGBA => (0, 4 * x + c, y),
        BGRA => (0, 4 * x + [2, 1, 0, 3][c], y),
        RGB => (0, 3 * x + c, y),
        BGR => (0, 3 * x + [2, 1, 0][c], y),
        _ => (0, x, y),
    }
}
pub fn ncomp(f: PixelFormat) -> usize {
    if matches!(f, RGBA | BGRA) {
        4
    } else {
        3
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Img {
    pub f: PixelFormat,
    pub w: usize,
    pub h: usize,
    pub planes: Vec<Vec<u16>>,
}

impl Img {
    pub fn new(f: PixelFormat, w: usize, h: usize) -> Self {
        Self {
            f,
            w,
            h,
            planes: geom(f, w, h).iter().map(|(c, r)| vec![0; c * r]).collect(),
        }
    }
    pub fn cols(&self, p: usize) -> usize {
        geom(self.f, self.w, self.h)[p].0
    }
    /// Fill every sample by position (plane, column, row).
    pub fn fill(mut self, g: impl Fn(usize, usize, usize) -> u16) -> Self {
        let ge = geom(self.f, self.w, self.h);
        for (p, (c, _)) in ge.iter().enumerate() {
            for (i, s) in self.planes[p].iter_mut().enumerate() {
                *s = g(p, i % c, i / c);
            }
        }
        self
    }
    pub fn get(&self, x: usize, y: usize, c: usize) -> u16 {
        let (p, cx, cy) = comp(self.f, x, y, c);
        self.planes[p][cy * self.cols(p) + cx]
    }
    pub fn set(&mut self, x: usize, y: usize, c: usize, v: u16) {
        let (p, cx, cy) = comp(self.f, x, y, c);
        let n = self.cols(p);
        self.planes[p][cy * n + cx] = v;
    }
    /// The chroma aligned window x,y,w,h
    pub fn window(&self, x: usize, y: usize, w: usize, h: usize) -> Img {
        let mut o = Img::new(self.f, w, h);
        for yy in 0..h {
            for xx in 0..w {
                for c in 0..ncomp(self.f) {
                    o.set(xx, yy, c, self.get(x + xx, y + yy, c));
                }
            }
        }
        o
    }
    pub fn hash(&self, mut h: u64) -> u64 {
        for p in &self.planes {
            h = hash_bytes(h, unsafe { std::slice::from_raw_parts(p.as_ptr().cast(), p.len() * 2) });
        }
        h
    }
    pub fn short(&self) -> String {
        let p: Vec<String> = self
            .planes
            .iter()
            .map(|p| {
                let n = p.len().min(12);
                format!("{:?}{}", &p[..n], if n < p.len() { ".." } else { "" })
            })
            .collect();
        format!("{:?} {}x{} {}", self.f, self.w, self.h, p.join(" "))
    }
}

/// Deterministic content with no structure the code could rely on.
pub fn noise(f: PixelFormat, seed: u64) -> impl Fn(usize, usize, usize) -> u16 {
    let m = max(f) as u64 + 1;
    move |p, c, r| (mix(mix(mix(seed, p as u64 + 1), c as u64 + 1), r as u64 + 1) % m) as u16
}
/// A second content generator giving mid-tone values (no clipping anywhere)
pub fn midtone(f: PixelFormat, seed: u64) -> impl Fn(usize, usize, usize) -> u16 {
    let m = max(f) as u64 + 1;
    let g = noise(f, seed);
    move |p, c, r| (m * 3 / 8 + g(p, c, r) as u64 / 4) as u16
}

/// How the samples of an image lie in memory.
#[derive(Clone, Debug)]
pub struct Layout {
    pub name: &'static str,
    /// extra bytes per row and plane
    pub pad: [usize; 3],
    pub flush: Flush,
    pub mis: usize,
    /// bytes after the last needed byte that still belong to the plane
    pub excess: usize,
    /// whether the last row is followed by its padding
    pub full_last: bool,
    pub kind: Kind,
    pub order: Order,
    /// pattern for everything that is not a visible sample
    pub fill: u8,
}
/// Where the planes lie relative to each other.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Order {
    /// in separate guarded buffers
    Apart,
    /// contiguous, but V directly in front of U (like YV12)
    VFirst,
    /// contiguous, the last plane first
    Reverse,
    /// the rows of the planes after the first lie side by side (overlapping slices: source only)
    Beside,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// user implementation of the image traits
    Raw,
    /// the same with a superfluous plane
    Extra,
    /// Image::from_planes
    Planes,
    /// Image::from_buffer
    Whole,
    /// &Image / &mut Image
    Ref,
    /// window of a larger Image (chroma aligned): left, top, right, bottom margin in pixels
    Crop(usize, usize, usize, usize),
    /// window of a window
    Crop2(usize, usize, usize, usize),
}
pub const PACKED: Layout = Layout {
    name: "packed",
    pad: [0; 3],
    flush: Flush::Right,
    mis: 0,
    excess: 0,
    full_last: true,
    kind: Kind::Raw,
    order: Order::Apart,
    fill: 0xA5,
};

/// A user implementation of the image traits over raw planes.
pub struct Raw {
    pub f: PixelFormat,
    pub w: usize,
    pub h: usize,
    pub color: ColorInfo,
    pub planes: Vec<(Buf, usize)>,
}
unsafe impl ImageRef for Raw {
    fn format(&self) -> PixelFormat {
        self.f
    }
    fn width(&self) -> usize {
        self.w
    }
    fn height(&self) -> usize {
        self.h
    }
    fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
        Box::new(self.planes.iter().map(|(b, s)| (b.slice(), *s)))
    }
    fn color(&self) -> ColorInfo {
        self.color
    }
}
unsafe impl ImageMut for Raw {
    fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
        Box::new(self.planes.iter().map(|(b, s)| (b.slice_mut(), *s)))
    }
}

/// A logical image placed in guarded memory.
pub struct Placed {
    pub f: PixelFormat,
    pub w: usize,
    pub h: usize,
    /// size of the stored (parent) image and window offset in it
    pub pw: usize,
    pub ph: usize,
    pub ox: usize,
    pub oy: usize,
    pub kind: Kind,
    pub bufs: Vec<Buf>,
    /// per plane: buffer, offset of the parent's first byte, stride, plane length
    pub planes: Vec<(usize, usize, usize, usize)>,
    before: Vec<Vec<u8>>,
}

pub fn place(a: &mut Arena, f: PixelFormat, w: usize, h: usize, l: &Layout) -> Placed {
    let (ox, oy, pw, ph) = match l.kind {
        Kind::Crop(x, y, r, b) | Kind::Crop2(x, y, r, b) => {
            // windows start on the chroma grid
            let (sx, sy) = sub(f);
            let (x, y) = (x - x % sx, y - y % sy);
            (x, y, x + w + r, y + h + b)
        }
        _ => (0, 0, w, h),
    };
    let bp = bytes(f);
    let g = geom(f, pw, ph);
    let mut planes = vec![];
    let mut bufs = vec![];
    let dims: Vec<(usize, usize, usize)> = g
        .iter()
        .enumerate()
        .map(|(i, (c, r))| {
            let packed = c * bp;
            let stride = packed + l.pad[i];
            let need = if *r == 0 {
                0
            } else if l.full_last {
                stride * r
            } else {
                stride * (r - 1) + packed
            };
            (stride, need, *r)
        })
        .collect();
    if l.kind == Kind::Whole {
        let n = dims.len();
        let mut off = 0;
        for (i, (stride, need, r)) in dims.iter().enumerate() {
            let len = if i + 1 < n { stride * r } else { need + l.excess };
            planes.push((0, off, *stride, len));
            off += len;
        }
        bufs.push(a.take(off, l.flush, l.mis, l.fill));
    } else if l.order != Order::Apart {
        // all planes in one buffer
        let n = dims.len();
        let len = |i: usize| dims[i].1 + l.excess;
        let mut at = vec![(0, 0, 0); n];
        let mut off = 0;
        if l.order == Order::Beside && n > 1 {
            // the first plane, then the rows of all others next to each other
            let (stride, need, _) = dims[0];
            at[0] = (0, stride, need + l.excess);
            off = need + l.excess;
            let packed = |i: usize| g[i].0 * bp;
            let width: usize = (1..n).map(packed).sum::<usize>() + l.pad[1];
            let mut x = off;
            for i in 1..n {
                let r = dims[i].2;
                let need = if r == 0 { 0 } else { width * (r - 1) + packed(i) };
                at[i] = (x, width, need);
                x += packed(i);
            }
            off += (1..n).map(|i| dims[i].2 * width).max().unwrap();
        } else {
            let mut seq: Vec<usize> = (0..n).collect();
            match l.order {
                Order::VFirst if n == 3 => seq.swap(1, 2),
                _ => seq.reverse(),
            }
            for i in seq {
                at[i] = (off, dims[i].0, len(i));
                off += len(i);
            }
        }
        planes.extend(at.iter().map(|(o, s, n)| (0, *o, *s, *n)));
        bufs.push(a.take(off, l.flush, l.mis, l.fill));
    } else {
        for (i, (stride, need, _)) in dims.iter().enumerate() {
            bufs.push(a.take(need + l.excess, l.flush, l.mis, l.fill));
            planes.push((i, 0, *stride, need + l.excess));
        }
    }
    Placed { f, w, h, pw, ph, ox, oy, kind: l.kind, bufs, planes, before: vec![] }
}

impl Placed {
    /// For each plane of the window: (pointer to first sample, stride, bytes per row, rows)
    fn rows(&self) -> Vec<(usize, usize, usize, usize, usize)> {
        let bp = bytes(self.f);
        let og = geom(self.f, self.ox, self.oy);
        let g = geom(self.f, self.w, self.h);
        (0..g.len())
            .map(|p| {
                let (b, off, stride, _) = self.planes[p];
                (b, off + og[p].1 * stride + og[p].0 * bp, stride, g[p].0 * bp, g[p].1)
            })
            .collect()
    }
    pub fn store(&mut self, img: &Img) {
        assert!((img.f, img.w, img.h) == (self.f, self.w, self.h), "ENGINE: store geometry");
        let bp = bytes(self.f);
        for (p, (b, start, stride, n, r)) in self.rows().into_iter().enumerate() {
            let s = self.bufs[b].slice_mut();
            let cols = n / bp;
            for y in 0..r {
                let row = &mut s[start + y * stride..][..n];
                let src = &img.planes[p][y * cols..][..cols];
                if bp == 1 {
                    for (d, v) in row.iter_mut().zip(src) {
                        *d = *v as u8;
                    }
                } else {
                    for (d, v) in row.chunks_exact_mut(2).zip(src) {
                        d.copy_from_slice(&v.to_ne_bytes());
                    }
                }
            }
        }
    }
    pub fn load(&self) -> Img {
        let bp = bytes(self.f);
        let mut o = Img::new(self.f, self.w, self.h);
        for (p, (b, start, stride, n, r)) in self.rows().into_iter().enumerate() {
            let s = self.bufs[b].slice();
            for y in 0..r {
                let row = &s[start + y * stride..][..n];
                let d = &mut o.planes[p][y * (n / bp)..][..n / bp];
                if bp == 1 {
                    for (d, v) in d.iter_mut().zip(row) {
                        *d = *v as u16;
                    }
                } else {
                    for (d, v) in d.iter_mut().zip(row.chunks_exact(2)) {
                        *d = u16::from_ne_bytes([v[0], v[1]]);
                    }
                }
            }
        }
        o
    }
    /// Fill all visible samples' bytes with a pattern (prior destination content).
    pub fn dirty(&mut self, v: u8) {
        for (b, start, stride, n, r) in self.rows() {
            let s = self.bufs[b].slice_mut();
            for y in 0..r {
                s[start + y * stride..][..n].fill(v);
            }
        }
    }
    /// Remember all bytes; `unchanged` compares later.
    pub fn snapshot(&mut self) {
        self.before = self.bufs.iter().map(|b| b.slice().to_vec()).collect();
    }
    pub fn unchanged(&self) -> Result<(), String> {
        for (i, b) in self.bufs.iter().enumerate() {
            if let Some(o) = b.stray() {
                return Err(format!("buffer {i}: byte at offset {o} (buffer has {}) changed", b.len));
            }
            if let Some(o) = b.slice().iter().zip(&self.before[i]).position(|(a, b)| a != b) {
                return Err(format!("buffer {i}: byte {o} changed"));
            }
        }
        Ok(())
    }
    /// All bytes outside the visible samples must still hold the fill pattern.
    /// (Call only when the surroundings were never stored to.)
    pub fn surroundings(&self, fill: u8) -> Result<(), String> {
        let rows = self.rows();
        for (i, b) in self.bufs.iter().enumerate() {
            if let Some(o) = b.stray() {
                return Err(format!("byte at offset {o} relative to buffer {i} (len {}) was written", b.len));
            }
            // collect visible ranges in this buffer, in order
            let mut pos = 0;
            let s = b.slice();
            let mut mine: Vec<_> = rows.iter().filter(|x| x.0 == i).collect();
            mine.sort_by_key(|x| (x.1, x.3));
            for (_, start, stride, n, r) in mine {
                for y in 0..*r {
                    let st = start + y * stride;
                    if let Some(o) = not_all(&s[pos..st], fill) {
                        return Err(format!("byte {} of buffer {i} outside the visible samples was written", pos + o));
                    }
                    pos = st + n;
                }
            }
            if let Some(o) = not_all(&s[pos..], fill) {
                return Err(format!("byte {} of buffer {i} outside the visible samples was written", pos + o));
            }
        }
        Ok(())
    }
    pub fn raw(&self, color: ColorInfo) -> Raw {
        Raw {
            f: self.f,
            w: self.pw,
            h: self.ph,
            color,
            planes: self
                .planes
                .iter()
                .map(|(b, off, stride, len)| {
                    let bb = self.bufs[*b];
                    (Buf { ptr: unsafe { bb.ptr.add(*off) }, len: *len, ..bb }, *stride)
                })
                .collect(),
        }
    }
    /// One more plane than the format has; it must not matter.
    fn extra(&self, color: ColorInfo) -> Raw {
        let mut r = self.raw(color);
        let b = *r.planes.last().unwrap();
        r.planes.push((Buf { len: 0, ..b.0 }, 0));
        r
    }
    fn strides(&self) -> Vec<usize> {
        self.planes.iter().map(|p| p.2).collect()
    }
    /// Present as an immutable image.  `Err` when the library refuses to build it.
    pub fn with_ref<R>(&self, color: ColorInfo, f: impl FnOnce(&dyn ImageRef) -> R) -> Result<R, String> {
        let win = Window { x: self.ox, y: self.oy, width: self.w, height: self.h };
        match self.kind {
            Kind::Raw => Ok(f(&self.raw(color))),
            Kind::Extra => Ok(f(&self.extra(color))),
            Kind::Whole => {
                let i = Image::from_buffer(self.f, self.bufs[0].slice(), Some(self.strides()), self.w, self.h, color)
                    .map_err(|e| format!("from_buffer: {e:?}"))?;
                Ok(f(&i))
            }
            Kind::Planes | Kind::Ref => {
                let p = self.raw(color).planes.iter().map(|(b, _)| b.slice()).collect();
                let i = Image::from_planes(self.f, p, Some(self.strides()), self.w, self.h, color)
                    .map_err(|e| format!("from_planes: {e:?}"))?;
                Ok(if self.kind == Kind::Ref { f(&&i) } else { f(&i) })
            }
            Kind::Crop(..) => {
                let c = self.raw(color).crop(win).map_err(|e| format!("crop: {e:?}"))?;
                Ok(f(&c))
            }
            Kind::Crop2(..) => {
                let (w1, w2) = self.nested();
                let c = self.raw(color).crop(w1).map_err(|e| format!("crop: {e:?}"))?;
                let c = c.crop(w2).map_err(|e| format!("crop of crop: {e:?}"))?;
                Ok(f(&c))
            }
        }
    }
    pub fn with_mut<R>(&self, color: ColorInfo, f: impl FnOnce(&mut dyn ImageMut) -> R) -> Result<R, String> {
        let win = Window { x: self.ox, y: self.oy, width: self.w, height: self.h };
        match self.kind {
            Kind::Raw => Ok(f(&mut self.raw(color))),
            Kind::Extra => Ok(f(&mut self.extra(color))),
            Kind::Whole => {
                let mut i =
                    Image::from_buffer(self.f, self.bufs[0].slice_mut(), Some(self.strides()), self.w, self.h, color)
                        .map_err(|e| format!("from_buffer: {e:?}"))?;
                Ok(f(&mut i))
            }
            Kind::Planes | Kind::Ref => {
                let p = self.raw(color).planes.iter().map(|(b, _)| b.slice_mut()).collect();
                let mut i = Image::from_planes(self.f, p, Some(self.strides()), self.w, self.h, color)
                    .map_err(|e| format!("from_planes: {e:?}"))?;
                Ok(if self.kind == Kind::Ref { f(&mut &mut i) } else { f(&mut i) })
            }
            Kind::Crop(..) => {
                let mut c = self.raw(color).crop(win).map_err(|e| format!("crop: {e:?}"))?;
                Ok(f(&mut c))
            }
            Kind::Crop2(..) => {
                let (w1, w2) = self.nested();
                let c = self.raw(color).crop(w1).map_err(|e| format!("crop: {e:?}"))?;
                let mut c = c.crop(w2).map_err(|e| format!("crop of crop: {e:?}"))?;
                Ok(f(&mut c))
            }
        }
    }
    /// Two nested windows whose composition is the wanted window.
    fn nested(&self) -> (Window, Window) {
        let x1 = (self.ox / 2) & !1;
        let y1 = (self.oy / 2) & !1;
        let w1 = Window { x: x1, y: y1, width: self.pw - x1, height: self.ph - y1 };
        (w1, Window { x: self.ox - x1, y: self.oy - y1, width: self.w, height: self.h })
    }
}

pub const TRANSFERS: [ColorTransfer; 7] = [
    ColorTransfer::Linear,
    ColorTransfer::Gamma22,
    ColorTransfer::Gamma28,
    ColorTransfer::SRGB,
    ColorTransfer::SDR,
    ColorTransfer::BT2100PQ,
    ColorTransfer::BT2100HLG,
];
pub const PRIMARIES: [ColorPrimaries; 3] = [ColorPrimaries::ST240, ColorPrimaries::BT709, ColorPrimaries::BT2020];
pub const SPACES: [ColorSpace; 5] = [
    ColorSpace::BT709,
    ColorSpace::BT601,
    ColorSpace::BT2020,
    ColorSpace::ICtCpPQ,
    ColorSpace::ICtCpHLG,
];
pub fn rgbc(transfer: ColorTransfer, primaries: ColorPrimaries) -> ColorInfo {
    ColorInfo::RGB(RgbColorInfo { transfer, primaries })
}
pub fn yuvc(transfer: ColorTransfer, primaries: ColorPrimaries, space: ColorSpace, full_range: bool) -> ColorInfo {
    ColorInfo::YUV(YuvColorInfo { transfer, primaries, space, full_range })
}
/// Simple default color for a format
pub fn default_color(f: PixelFormat) -> ColorInfo {
    if is_rgb(f) {
        rgbc(ColorTransfer::Linear, ColorPrimaries::BT709)
    } else {
        yuvc(ColorTransfer::Linear, ColorPrimaries::BT709, ColorSpace::BT709, true)
    }
}
/// All color infos valid for a format family (RGB formats accept either kind)
pub fn all_colors(rgb: bool) -> Vec<ColorInfo> {
    let mut v = vec![];
    for t in TRANSFERS {
        for p in PRIMARIES {
            if rgb {
                v.push(rgbc(t, p));
            } else {
                for s in SPACES {
                    for r in [true, false] {
                        v.push(yuvc(t, p, s, r));
                    }
                }
            }
        }
    }
    v
}
