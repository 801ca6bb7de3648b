//! Reference model: the published colour equations in f64 interval arithmetic.
//!
//! Every quantity is an interval that contains the exact value and everything single precision
//! arithmetic of the same formula may produce (a few ulps per stage).  A sample of the
//! implementation is accepted iff it is the rounding of some value of the interval.  Where the
//! formulas are well conditioned the interval is ~1e-4 of a step wide, i.e. the check is exact
//! rounding; it widens only where the published functions themselves amplify rounding noise
//! (e.g. PQ close to black).
use crate::img::*;
use ezk_image::*;

#[derive(Clone, Copy, Debug)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
}
pub fn iv(x: f64) -> Iv {
    Iv { lo: x, hi: x }
}
pub const REL: f64 = 8.0e-7;
impl Iv {
    pub fn abs(self) -> f64 {
        self.lo.abs().max(self.hi.abs())
    }
    pub fn widen(self, e: f64) -> Iv {
        Iv { lo: self.lo - e, hi: self.hi + e }
    }
    pub fn add(self, o: Iv) -> Iv {
        Iv { lo: self.lo + o.lo, hi: self.hi + o.hi }
    }
    pub fn mul(self, c: f64) -> Iv {
        if c >= 0.0 {
            Iv { lo: self.lo * c, hi: self.hi * c }
        } else {
            Iv { lo: self.hi * c, hi: self.lo * c }
        }
    }
    pub fn addf(self, c: f64) -> Iv {
        self.add(iv(c))
    }
    pub fn hull(self, o: Iv) -> Iv {
        Iv { lo: self.lo.min(o.lo), hi: self.hi.max(o.hi) }
    }
    pub fn max0(self) -> Iv {
        Iv { lo: self.lo.max(0.0), hi: self.hi.max(0.0) }
    }
    pub fn width(self) -> f64 {
        self.hi - self.lo
    }
}
/// Linear combination with single precision slack.
pub fn lin<const N: usize>(c: [f64; N], v: [Iv; N]) -> Iv {
    let mut r = iv(0.0);
    let (mut lo, mut hi) = (0.0, 0.0);
    for i in 0..N {
        if c[i] == 0.0 {
            continue;
        }
        let t = v[i].mul(c[i]);
        r = r.add(t);
        // a bound may be infinite (PQ beyond its pole)
        lo += if t.lo.is_finite() { t.lo.abs() } else { 0.0 };
        hi += if t.hi.is_finite() { t.hi.abs() } else { 0.0 };
    }
    let m = if r.lo.is_finite() && r.hi.is_finite() { lo.max(hi) } else { 0.0 };
    // inf - inf: anything
    let lo = if r.lo.is_nan() { f64::NEG_INFINITY } else { r.lo - m.max(lo) * REL };
    let hi = if r.hi.is_nan() { f64::INFINITY } else { r.hi + m.max(hi) * REL };
    Iv { lo, hi }
}
fn mat(m: &[[f64; 3]; 3], v: [Iv; 3]) -> [Iv; 3] {
    [lin(m[0], v), lin(m[1], v), lin(m[2], v)]
}
pub fn inv3(m: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let d = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = ((j + 1) % 3, (j + 2) % 3);
            let (c, e) = ((i + 1) % 3, (i + 2) % 3);
            o[i][j] = (m[a][c] * m[b][e] - m[a][e] * m[b][c]) / d;
        }
    }
    o
}
pub fn mul3(a: &[[f64; 3]; 3], b: &[[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let mut o = [[0.0; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    o
}

// ---- primaries -------------------------------------------------------------------------------
pub fn chromaticities(p: ColorPrimaries) -> [(f64, f64); 3] {
    match p {
        // SMPTE ST 240M
        ColorPrimaries::ST240 => [(0.630, 0.340), (0.310, 0.595), (0.155, 0.070)],
        // ITU-R BT.709-6
        ColorPrimaries::BT709 => [(0.640, 0.330), (0.300, 0.600), (0.150, 0.060)],
        // ITU-R BT.2020-2
        ColorPrimaries::BT2020 => [(0.708, 0.292), (0.170, 0.797), (0.131, 0.046)],
    }
}
pub const D65: (f64, f64) = (0.3127, 0.3290);
/// RGB -> XYZ, rows are X, Y, Z
pub fn rgb_to_xyz(p: ColorPrimaries) -> [[f64; 3]; 3] {
    let c = chromaticities(p);
    let col = |(x, y): (f64, f64)| [x, y, 1.0 - x - y];
    let (r, g, b) = (col(c[0]), col(c[1]), col(c[2]));
    let m = [[r[0], g[0], b[0]], [r[1], g[1], b[1]], [r[2], g[2], b[2]]];
    let w = [D65.0 / D65.1, 1.0, (1.0 - D65.0 - D65.1) / D65.1];
    let i = inv3(&m);
    let s: Vec<f64> = (0..3).map(|k| (0..3).map(|j| i[k][j] * w[j]).sum()).collect();
    let mut o = m;
    for row in o.iter_mut() {
        for k in 0..3 {
            row[k] *= s[k];
        }
    }
    o
}

// ---- transfer functions ----------------------------------------------------------------------
/// relative error bound of a single precision x^y (exp(y*ln x) with polynomial exp/ln)
fn pow_rel(x: f64, y: f64) -> f64 {
    let l = if x > 0.0 { (y * x.ln()).abs() } else { 0.0 };
    4e-7 * (1.0 + l)
}
fn powf(x: f64, y: f64) -> f64 {
    if x <= 0.0 {
        0.0
    } else {
        x.powf(y)
    }
}
fn mono(v: Iv, f: impl Fn(f64) -> (f64, f64)) -> Iv {
    let a = f(v.lo);
    let b = f(v.hi);
    Iv { lo: a.0 - a.1, hi: b.0 + b.1 }
}
const M1: f64 = 2610.0 / 16384.0;
const M2: f64 = 2523.0 / 4096.0 * 128.0;
const C1: f64 = 3424.0 / 4096.0;
const C2: f64 = 2413.0 / 4096.0 * 32.0;
const C3: f64 = 2392.0 / 4096.0 * 32.0;
const HA: f64 = 0.17883277;
const HB: f64 = 1.0 - 4.0 * HA;

/// Scene/display linear -> non-linear, point value
pub fn enc(t: ColorTransfer, x: f64) -> f64 {
    match t {
        ColorTransfer::Linear => x,
        ColorTransfer::Gamma22 => powf(x, 1.0 / 2.2),
        ColorTransfer::Gamma28 => powf(x, 1.0 / 2.8),
        ColorTransfer::SRGB => {
            if x <= 0.0031308 {
                12.92 * x
            } else {
                1.055 * x.powf(1.0 / 2.4) - 0.055
            }
        }
        ColorTransfer::SDR => {
            if x < SDR_BETA {
                4.5 * x
            } else {
                1.099 * x.powf(0.45) - 0.099
            }
        }
        ColorTransfer::BT2100PQ => {
            let y = powf(x.clamp(0.0, 1e200) / 10000.0, M1);
            ((C1 + C2 * y) / (1.0 + C3 * y)).powf(M2)
        }
        ColorTransfer::BT2100HLG => {
            let x = x.max(0.0);
            if x <= 1.0 / 12.0 {
                (3.0 * x).sqrt()
            } else {
                HA * (12.0 * x - HB).ln() + hc()
            }
        }
    }
}
pub const SDR_BETA: f64 = 0.018053968510807;
fn hc() -> f64 {
    0.5 - HA * (4.0 * HA).ln()
}
/// non-linear -> linear, point value
pub fn dec(t: ColorTransfer, x: f64) -> f64 {
    match t {
        ColorTransfer::Linear => x,
        ColorTransfer::Gamma22 => powf(x, 2.2),
        ColorTransfer::Gamma28 => powf(x, 2.8),
        ColorTransfer::SRGB => {
            if x <= 0.04045 {
                x / 12.92
            } else {
                ((x + 0.055) / 1.055).powf(2.4)
            }
        }
        ColorTransfer::SDR => {
            if x < 4.5 * SDR_BETA {
                x / 4.5
            } else {
                ((x + 0.099) / 1.099).powf(1.0 / 0.45)
            }
        }
        ColorTransfer::BT2100PQ => {
            let e = powf(x.max(0.0), 1.0 / M2);
            let a = (e - C1).max(0.0);
            let b = C2 - C3 * e;
            if b <= 1e-9 {
                return f64::INFINITY;
            }
            10000.0 * (a / b).powf(1.0 / M1)
        }
        ColorTransfer::BT2100HLG => {
            let x = x.max(0.0);
            if x <= 0.5 {
                x * x / 3.0
            } else {
                (((x - hc()) / HA).exp() + HB) / 12.0
            }
        }
    }
}
pub fn enc_iv(t: ColorTransfer, v: Iv) -> Iv {
    let r = match t {
        ColorTransfer::Linear => v,
        ColorTransfer::Gamma22 => mono(v, |x| (enc(t, x), enc(t, x) * pow_rel(x, 1.0 / 2.2))),
        ColorTransfer::Gamma28 => mono(v, |x| (enc(t, x), enc(t, x) * pow_rel(x, 1.0 / 2.8))),
        ColorTransfer::SRGB => mono(v, |x| (enc(t, x), (enc(t, x).abs() + 0.055) * pow_rel(x.max(0.003), 1.0 / 2.4))),
        ColorTransfer::SDR => mono(v, |x| {
            // the published joint (0.018 .. 0.0180539) is rounded: accept either segment there
            let e = if x > 0.0178 && x < 0.0183 { 3e-4 } else { 0.0 };
            (enc(t, x), (enc(t, x).abs() + 0.1) * pow_rel(x.max(0.01), 0.45) + e)
        }),
        ColorTransfer::BT2100PQ => mono(v, |x| {
            let x = x.clamp(0.0, 1e200);
            let y = powf(x / 10000.0, M1);
            // relative error of y, of the quotient, amplified by the exponent M2
            let ry = pow_rel(x.max(1e-30) / 10000.0, M1) + 2e-7;
            let num = C1 + C2 * y;
            let q = num / (1.0 + C3 * y);
            let dq = (ry * C2 * y + 1e-6 * C2) / num * (1.0 - C3 * q / C2).abs() + 3e-7;
            let e = enc(t, x);
            (e, e * (dq * M2 + pow_rel(q, M2)))
        }),
        ColorTransfer::BT2100HLG => mono(v, |x| (enc(t, x), 1e-6 * (1.0 + enc(t, x).min(1e30)))),
    };
    Iv { lo: r.lo, hi: r.hi }
}
const POLE: f64 = 2e-3;
pub fn dec_iv(t: ColorTransfer, v: Iv) -> Iv {
    match t {
        ColorTransfer::Linear => v,
        ColorTransfer::Gamma22 => mono(v, |x| (dec(t, x), dec(t, x) * pow_rel(x, 2.2) + 1e-30)),
        ColorTransfer::Gamma28 => mono(v, |x| (dec(t, x), dec(t, x) * pow_rel(x, 2.8) + 1e-30)),
        ColorTransfer::SRGB => {
            let f = |x: f64| (dec(t, x), dec(t, x).abs() * (pow_rel(((x + 0.055) / 1.055).max(0.05), 2.4) + 1e-6));
            mono(v, f).widen(if v.lo < 0.0406 && v.hi > 0.0403 { 1e-6 } else { 0.0 })
        }
        ColorTransfer::SDR => {
            let f = |x: f64| {
                let e = if x > 0.0808 && x < 0.0825 { 8e-5 } else { 0.0 };
                (dec(t, x), dec(t, x).abs() * (pow_rel(((x + 0.099) / 1.099).max(0.1), 1.0 / 0.45) + 1e-6) + e)
            };
            mono(v, f)
        }
        ColorTransfer::BT2100PQ => {
            let root = |x: f64, s: f64| {
                let x = x.max(0.0);
                powf(x, 1.0 / M2) * (1.0 + s * pow_rel(x.max(1e-30), 1.0 / M2)) + s * 2e-7
            };
            let lin = |e: f64, b: f64| 10000.0 * ((e - C1).max(0.0) / b).powf(1.0 / M1);
            let den = |e: f64| C2 - C3 * e;
            // the function has a pole close to 2.0: from there on any large value is fine
            let (l, h) = (root(v.lo, -1.0), root(v.hi, 1.0));
            Iv {
                lo: lin(l.min(C2 / C3), den(l).max(POLE)) * (1.0 - 5e-6),
                hi: if den(h) < POLE { f64::INFINITY } else { lin(h, den(h)) * (1.0 + 5e-6) },
            }
        }
        ColorTransfer::BT2100HLG => mono(v, |x| {
            let c = dec(t, x);
            (c, c * (pow_rel(x.max(1e-30), 2.0) + 4e-7 * (1.0 + ((x - hc()) / HA).abs())) + 1e-30)
        }),
    }
}

// ---- YUV spaces ------------------------------------------------------------------------------
pub fn kr_kb(s: ColorSpace) -> Option<(f64, f64)> {
    match s {
        ColorSpace::BT601 => Some((0.299, 0.114)),
        ColorSpace::BT709 => Some((0.2126, 0.0722)),
        ColorSpace::BT2020 => Some((0.2627, 0.0593)),
        _ => None,
    }
}
/// XYZ -> LMS including the ICtCp crosstalk (Dolby, "What is ICtCp")
pub const XYZ_LMS: [[f64; 3]; 3] =
    [[0.3593, 0.6976, -0.0359], [-0.1921, 1.1005, 0.0754], [0.0071, 0.0748, 0.8433]];
pub fn lms_ictcp(hlg: bool) -> [[f64; 3]; 3] {
    // ITU-R BT.2100-2 table 7
    if hlg {
        [
            [0.5, 0.5, 0.0],
            [3625.0 / 4096.0, -7465.0 / 4096.0, 3840.0 / 4096.0],
            [9500.0 / 4096.0, -9212.0 / 4096.0, -288.0 / 4096.0],
        ]
    } else {
        [
            [0.5, 0.5, 0.0],
            [6610.0 / 4096.0, -13613.0 / 4096.0, 7003.0 / 4096.0],
            [17933.0 / 4096.0, -17390.0 / 4096.0, -543.0 / 4096.0],
        ]
    }
}
pub fn ictcp_transfer(s: ColorSpace) -> ColorTransfer {
    if s == ColorSpace::ICtCpHLG {
        ColorTransfer::BT2100HLG
    } else {
        ColorTransfer::BT2100PQ
    }
}
pub struct Conv {
    pub s: YuvColorInfo,
    to_xyz: [[f64; 3]; 3],
    from_xyz: [[f64; 3]; 3],
    lms_xyz: [[f64; 3]; 3],
    ictcp: [[f64; 3]; 3],
    ictcp_inv: [[f64; 3]; 3],
}
impl Conv {
    pub fn new(s: YuvColorInfo) -> Self {
        let to_xyz = rgb_to_xyz(s.primaries);
        let ictcp = lms_ictcp(s.space == ColorSpace::ICtCpHLG);
        Self {
            s,
            to_xyz,
            from_xyz: inv3(&to_xyz),
            lms_xyz: inv3(&XYZ_LMS),
            ictcp,
            ictcp_inv: inv3(&ictcp),
        }
    }
    /// y in 0..1, u,v in -0.5..0.5 to non-linear RGB
    pub fn to_rgb(&self, yuv: [Iv; 3]) -> [Iv; 3] {
        if let Some((kr, kb)) = kr_kb(self.s.space) {
            let kg = 1.0 - kr - kb;
            let rv = 2.0 * (1.0 - kr);
            let bu = 2.0 * (1.0 - kb);
            return [
                lin([1.0, rv], [yuv[0], yuv[2]]),
                lin([1.0, -kb / kg * bu, -kr / kg * rv], yuv),
                lin([1.0, bu], [yuv[0], yuv[1]]),
            ];
        }
        let t = ictcp_transfer(self.s.space);
        let lms = mat(&self.ictcp_inv, yuv).map(|v| dec_iv(t, v));
        let xyz = mat(&self.lms_xyz, lms);
        mat(&self.from_xyz, xyz).map(|v| enc_iv(self.s.transfer, v))
    }
    pub fn to_yuv(&self, rgb: [Iv; 3]) -> [Iv; 3] {
        if let Some((kr, kb)) = kr_kb(self.s.space) {
            let kg = 1.0 - kr - kb;
            let (a, b) = (0.5 / (1.0 - kb), 0.5 / (1.0 - kr));
            return [
                lin([kr, kg, kb], rgb),
                lin([-kr * a, -kg * a, 0.5], rgb),
                lin([0.5, -kg * b, -kb * b], rgb),
            ];
        }
        let t = ictcp_transfer(self.s.space);
        let l = rgb.map(|v| dec_iv(self.s.transfer, v));
        let lms = mat(&XYZ_LMS, mat(&self.to_xyz, l)).map(|v| enc_iv(t, v));
        mat(&self.ictcp, lms)
    }
    pub fn is_matrix(&self) -> bool {
        kr_kb(self.s.space).is_some()
    }
}

// ---- quantisation ----------------------------------------------------------------------------
/// (offset, scale) in code values: code = offset + scale * value
pub fn quant(bits: u32, full: bool, chroma: bool) -> (f64, f64) {
    let k = (1u32 << (bits - 8)) as f64;
    let m = ((1u32 << bits) - 1) as f64;
    match (full, chroma) {
        (true, false) => (0.0, m),
        (true, true) => (128.0 * k, m),
        (false, false) => (16.0 * k, 219.0 * k),
        (false, true) => (128.0 * k, 224.0 * k),
    }
}
/// Is `got` the rounding (to nearest, any tie) of a value in `v`, clipped to 0..max?
pub fn accept(got: u16, v: Iv, max: u16) -> bool {
    dev(got, v, max) <= 0.5 + 2e-3
}
/// distance of `got` from the (clipped) interval
pub fn dev(got: u16, v: Iv, max: u16) -> f64 {
    let m = max as f64;
    let lo = v.lo.clamp(0.0, m);
    let hi = v.hi.clamp(0.0, m);
    let g = got as f64;
    if v.lo.is_nan() || v.hi.is_nan() {
        return 0.0;
    }
    if g < lo {
        lo - g
    } else if g > hi {
        g - hi
    } else {
        0.0
    }
}

/// The complete conversion pipeline for colour: what every destination sample must be.
pub struct Model {
    pub sf: PixelFormat,
    pub df: PixelFormat,
    sc: ColorInfo,
    dc: ColorInfo,
    sconv: Option<Conv>,
    dconv: Option<Conv>,
    tp: Option<([[f64; 3]; 3], [[f64; 3]; 3])>,
}
impl Model {
    pub fn new(sf: PixelFormat, sc: ColorInfo, df: PixelFormat, dc: ColorInfo) -> Self {
        let conv = |f: PixelFormat, c: ColorInfo| {
            if is_rgb(f) {
                None
            } else if let ColorInfo::YUV(y) = c {
                Some(Conv::new(y))
            } else {
                panic!("ENGINE: model without yuv color")
            }
        };
        let tp = (sc.transfer() != dc.transfer() || sc.primaries() != dc.primaries())
            .then(|| (rgb_to_xyz(sc.primaries()), inv3(&rgb_to_xyz(dc.primaries()))));
        Self { sf, df, sc, dc, sconv: conv(sf, sc), dconv: conv(df, dc), tp }
    }
    /// no transcendental function involved
    pub fn is_linear(&self) -> bool {
        let lin = |t| t == ColorTransfer::Linear;
        self.sconv.as_ref().is_none_or(|c| c.is_matrix())
            && self.dconv.as_ref().is_none_or(|c| c.is_matrix())
            && (self.tp.is_none() || (lin(self.sc.transfer()) && lin(self.dc.transfer())))
    }
    /// source sample triple (Y,U,V or R,G,B code values) to destination non-linear RGB
    pub fn rgb(&self, s: [u16; 3]) -> [Iv; 3] {
        let b = bits(self.sf);
        let m = ((1u32 << b) - 1) as f64;
        let rgb = match &self.sconv {
            None => s.map(|v| iv(v as f64 / m).widen(1e-7)),
            Some(c) => {
                let mut v = [iv(0.0); 3];
                for i in 0..3 {
                    let (o, k) = quant(b, c.s.full_range, i > 0);
                    v[i] = iv((s[i] as f64 - o) / k).widen(3e-7);
                }
                c.to_rgb(v)
            }
        };
        match &self.tp {
            None => rgb,
            Some((a, z)) => {
                let l = rgb.map(|v| dec_iv(self.sc.transfer(), v));
                mat(z, mat(a, l)).map(|v| enc_iv(self.dc.transfer(), v))
            }
        }
    }
    /// destination code values (before clipping) of one pixel, chroma not yet averaged
    pub fn codes(&self, rgb: [Iv; 3]) -> [Iv; 3] {
        let b = bits(self.df);
        let m = ((1u32 << b) - 1) as f64;
        match &self.dconv {
            None => rgb.map(|v| v.mul(m)),
            Some(c) => {
                let y = c.to_yuv(rgb);
                let mut o = y;
                for i in 0..3 {
                    let (off, k) = quant(b, c.s.full_range, i > 0);
                    o[i] = y[i].mul(k).addf(off).widen(m * 3e-7);
                }
                o
            }
        }
    }
    /// Expected (interval) samples of every component of the destination image, indexed like
    /// `Img::planes`.
    pub fn expect(&self, src: &Img) -> Vec<Vec<Iv>> {
        let (w, h) = (src.w, src.h);
        let g = geom(self.df, w, h);
        let mut out: Vec<Vec<Iv>> = g.iter().map(|(c, r)| vec![iv(f64::NAN); c * r]).collect();
        let px: Vec<[Iv; 3]> = (0..w * h)
            .map(|i| {
                let (x, y) = (i % w, i / w);
                self.codes(self.rgb([src.get(x, y, 0), src.get(x, y, 1), src.get(x, y, 2)]))
            })
            .collect();
        let mut put = |x: usize, y: usize, c: usize, v: Iv| {
            let (p, cx, cy) = comp(self.df, x, y, c);
            out[p][cy * g[p].0 + cx] = v;
        };
        let (sx, sy) = sub(self.df);
        for y in 0..h {
            for x in 0..w {
                let v = px[y * w + x];
                put(x, y, 0, v[0]);
                if x % sx == 0 && y % sy == 0 {
                    for c in 1..3 {
                        let mut a = iv(0.0);
                        for dy in 0..sy {
                            for dx in 0..sx {
                                a = a.add(px[(y + dy) * w + x + dx][c]);
                            }
                        }
                        let m = max(self.df) as f64;
                        put(x, y, c, a.mul(1.0 / (sx * sy) as f64).widen(m * 1e-7));
                    }
                }
                if ncomp(self.df) == 4 {
                    let a = if ncomp(self.sf) == 4 { src.get(x, y, 3) } else { 255 };
                    put(x, y, 3, iv(a as f64));
                }
            }
        }
        out
    }
}
