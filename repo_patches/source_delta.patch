From 0c776fe91706a36fe70b2ef20e0d10391f6f1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 01/17] fix: crop windows reaching the right, bottom or a 16
 bit plane's edge

Cropped computed the offset into 16 bit planes as (y * stride + x) * 2 and
required (and sliced) complete rows, so that windows with x > 0 which end
with the parent image panicked. The last row of a plane only has to hold
its visible part.
---
 src/crop.rs         | 10 ++++++----
 src/pixel_format.rs |  7 +++++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/crop.rs b/src/crop.rs
index a43448b..58f4ea5 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -92,12 +92,14 @@ fn crop_planes<'a, S: AnySlice + 'a>(
                 let x = plane_desc.width_op.op(window.x);
                 let y = plane_desc.height_op.op(window.y);
 
-                // First trim the bytes byte "in front" of the window
-                let split_at = (y * stride + x) * plane_desc.bytes_per_primitive;
+                // First trim the bytes byte "in front" of the window (which may be empty)
+                let split_at =
+                    (y * stride + x * plane_desc.bytes_per_primitive).min(slice.slice_len());
                 let (_, slice) = slice.slice_split_at(split_at);
 
-                // Trim the bytes at the end of the window
-                let split_at = plane_desc.height_op.op(window.height) * stride;
+                // Trim the bytes at the end of the window, the last row may end with the parent image
+                let split_at =
+                    (plane_desc.height_op.op(window.height) * stride).min(slice.slice_len());
                 let (slice, _) = slice.slice_split_at(split_at);
 
                 (slice, stride)
diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index e7203a2..e68bf23 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -112,8 +112,11 @@ impl PixelFormat {
                     });
                 }
 
-                // Ensure slice is large enough
-                let min_len = stride.strict_mul_(plane.height_op.op(height));
+                // Ensure slice is large enough, the last row only has to hold its visible part
+                let min_len = match plane.height_op.op(height).checked_sub(1) {
+                    Some(rows) => stride.strict_mul_(rows).strict_add_(min_stride),
+                    None => 0,
+                };
 
                 if min_len > slice.len() {
                     return Err(BoundsCheckError::InvalidPlaneSize {
-- 
2.43.0


From 8ee29878f05d5c222d37b2e285121a36cd289edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 02/17] fix: copy must not touch rows beyond the image's height

Planes may be larger than the image, copying all of their rows overwrote
data which is not part of the destination image. Also handles planes whose
last row is short and planes without columns.
---
 src/copy.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/copy.rs b/src/copy.rs
index de1a71a..9402d4a 100644
--- a/src/copy.rs
+++ b/src/copy.rs
@@ -18,11 +18,11 @@ pub(crate) fn copy_impl(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<()
     {
         let n = desc.width_op.op(src.width()) * desc.bytes_per_primitive;
 
-        let src_rows = src_plane.chunks_exact(src_stride);
-        let dst_rows = dst_plane.chunks_exact_mut(dst_stride);
+        for y in 0..desc.height_op.op(src.height()) {
+            let src_row = &src_plane[y * src_stride..][..n];
+            let dst_row = &mut dst_plane[y * dst_stride..][..n];
 
-        for (src_row, dst_row) in src_rows.zip(dst_rows) {
-            dst_row[..n].copy_from_slice(&src_row[..n]);
+            dst_row.copy_from_slice(src_row);
         }
     }
 
-- 
2.43.0


From 5dd348fdebac1fe9bf8ba26dc09a5f953696b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:33 +0000
Subject: [PATCH 03/17] fix: convert_multi_thread panics on empty images and
 invalid planes

Empty windows divided by zero, missing or short planes panicked instead of
returning the error convert returns.
---
 src/multi_thread.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index 91e9bcb..4a1e279 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -4,7 +4,7 @@ use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterato
 
 use crate::{
     convert, convert_same_color_and_pixel_format, plane_decs::PlaneDesc, verify_input_windows,
-    AnySlice, ConvertError, Image, ImageMut, ImageRef, StrictApi,
+    AnySlice, ConvertError, Image, ImageMut, ImageRef, ImageRefExt, StrictApi,
 };
 
 /// Parallelizes [`convert`] using as many threads as there are CPU cores.
@@ -27,6 +27,11 @@ pub fn convert_multi_thread(
     let width = src.width();
     let height = src.height();
 
+    // Nothing to split, let convert handle empty and invalid images
+    if width == 0 || height == 0 || src.bounds_check().is_err() || dst.bounds_check().is_err() {
+        return convert(src, dst);
+    }
+
     let src_format = src.format();
     let dst_format = dst.format();
 
@@ -106,7 +111,10 @@ pub(crate) fn split_planes<S: AnySlice>(
         let mut out = vec![];
 
         for (plane_desc, (slice, stride)) in plane_decs.iter().zip(&mut planes) {
-            let split_at = stride.strict_mul_(plane_desc.height_op.op(h));
+            // The last row of the plane may be shorter than the stride
+            let split_at = stride
+                .strict_mul_(plane_desc.height_op.op(h))
+                .min(slice.slice_len());
 
             let (prev, rem) = take(slice).slice_split_at(split_at);
             *slice = rem;
-- 
2.43.0


From c2d59f8b0821ee31e1f11905000e1db457d705b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 04/17] fix: Image::from_buffer panics instead of returning an
 error

A buffer which is too small or a wrong number of strides panicked while
inferring the planes, before the bounds check could report it.
---
 src/image.rs | 65 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 07ef233..03187a6 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1,4 +1,7 @@
-use crate::{infer, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat};
+use crate::{
+    AnySlice, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat, StrictApi,
+};
+use std::mem::take;
 
 /// Basic wrapper around any image, implementing the [`ImageRef`] and [`ImageMut`] trait
 #[derive(Debug, Clone)]
@@ -96,6 +99,34 @@ where
     }
 }
 
+/// Split a buffer into the planes of an image
+///
+/// Unlike [`infer`](crate::infer) this never panics if there are too few strides or the buffer is too small, the missing
+/// (parts of) planes are caught by the bounds check.
+fn split_buffer<'a, S: AnySlice + 'a>(
+    format: PixelFormat,
+    mut buffer: S,
+    height: usize,
+    strides: &'a [usize],
+) -> impl Iterator<Item = (S, usize)> + 'a {
+    format
+        .plane_desc()
+        .iter()
+        .zip(strides)
+        .map(move |(plane_desc, &stride)| {
+            let split_at = plane_desc
+                .height_op
+                .op(height)
+                .strict_mul_(stride)
+                .min(buffer.slice_len());
+
+            let (plane, remaining) = take(&mut buffer).slice_split_at(split_at);
+            buffer = remaining;
+
+            (plane, stride)
+        })
+}
+
 unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
     fn format(&self) -> PixelFormat {
         self.format
@@ -109,16 +140,12 @@ unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
 
     fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
         match &self.buffer {
-            Buffer::Whole(buffer) => Box::new(
-                infer(
-                    self.format,
-                    buffer.as_ref(),
-                    self.width,
-                    self.height,
-                    Some(&self.strides),
-                )
-                .zip(self.strides.iter().copied()),
-            ),
+            Buffer::Whole(buffer) => Box::new(split_buffer(
+                self.format,
+                buffer.as_ref(),
+                self.height,
+                &self.strides,
+            )),
             Buffer::Split(planes) => Box::new(
                 planes
                     .iter()
@@ -135,16 +162,12 @@ unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
 unsafe impl<S: AsRef<[u8]> + AsMut<[u8]>> ImageMut for Image<S> {
     fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
         match &mut self.buffer {
-            Buffer::Whole(buffer) => Box::new(
-                infer(
-                    self.format,
-                    buffer.as_mut(),
-                    self.width,
-                    self.height,
-                    Some(&self.strides),
-                )
-                .zip(self.strides.iter().copied()),
-            ),
+            Buffer::Whole(buffer) => Box::new(split_buffer(
+                self.format,
+                buffer.as_mut(),
+                self.height,
+                &self.strides,
+            )),
             Buffer::Split(planes) => Box::new(
                 planes
                     .iter_mut()
-- 
2.43.0


From 3080efd98a841f3301d301063352aed1b0f6539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 05/17] fix: resize uses the image's height instead of its
 planes' lengths

Planes may be larger than the image, or end with the visible part of their
last row, in which case too many or too few rows were resized. A stride of
zero divided by zero.
---
 src/resize.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/resize.rs b/src/resize.rs
index 624ce29..2c88623 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -58,6 +58,9 @@ impl Resizer {
         let src_width = src.width();
         let dst_width = dst.width();
 
+        let src_height = src.height();
+        let dst_height = dst.height();
+
         let src_planes: Vec<(&[u8], usize)> = src.planes().collect();
         let dst_planes: Vec<(&mut [u8], usize)> = dst.planes_mut().collect();
 
@@ -78,8 +81,8 @@ impl Resizer {
                     let dst_fir_width = plane_desc.width_op.op(dst_width)
                         / (plane_desc.pixel_type.size() / plane_desc.bytes_per_primitive);
 
-                    let src_height = src_plane.len() / src_stride;
-                    let dst_height = dst_plane.len() / dst_stride;
+                    let src_height = plane_desc.height_op.op(src_height);
+                    let dst_height = plane_desc.height_op.op(dst_height);
 
                     let src = FirAdapterIntoImageView {
                         pixel_type: plane_desc.pixel_type,
@@ -209,7 +212,8 @@ unsafe impl<T: AsRef<[u8]> + Send + Sync, P: InnerPixel> fir::ImageView
     fn iter_rows(&self, start_row: u32) -> impl Iterator<Item = &[Self::Pixel]> {
         self.plane
             .as_ref()
-            .chunks_exact(self.stride)
+            .chunks(self.stride.max(1))
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &row[..self.width * P::pixel_type().size()];
@@ -231,7 +235,8 @@ unsafe impl<T: AsRef<[u8]> + AsMut<[u8]> + Send + Sync, P: InnerPixel> fir::Imag
     fn iter_rows_mut(&mut self, start_row: u32) -> impl Iterator<Item = &mut [Self::Pixel]> {
         self.plane
             .as_mut()
-            .chunks_exact_mut(self.stride)
+            .chunks_mut(self.stride.max(1))
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &mut row[..self.width * P::pixel_type().size()];
-- 
2.43.0


From 21fd23185802208fc91d3d043dc1a171a4fabdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:09 +0000
Subject: [PATCH 06/17] fix: reading 4:4:4 images with different strides per
 plane

The second row of the U and V planes was read using the Y plane's stride,
also reading out of bounds when that is larger.
---
 src/formats/i444/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formats/i444/read.rs b/src/formats/i444/read.rs
index e495f0d..944b2cc 100644
--- a/src/formats/i444/read.rs
+++ b/src/formats/i444/read.rs
@@ -45,10 +45,10 @@ impl<P: Primitive> I444Src for I444Reader<'_, P> {
         let y10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
 
         let u00_offset = (y * self.u_stride) + x * P::SIZE;
-        let u10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let u10_offset = ((y + 1) * self.u_stride) + x * P::SIZE;
 
         let v00_offset = (y * self.v_stride) + x * P::SIZE;
-        let v10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let v10_offset = ((y + 1) * self.v_stride) + x * P::SIZE;
 
         // Load Y pixels
         let y00 = P::load::<V>(&self.y[y00_offset..]);
-- 
2.43.0


From ed7958f79e8a667f2a3a6cfa8f083d580b19863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 07/17] fix: BT.2020 luma coefficient of green

0.322 is 1 - 0.678, the three coefficients must add up to 1.
---
 src/color/space.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index 286f6e6..d3a06ad 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -290,7 +290,7 @@ macro_rules! make_matrices {
 make_matrices! {
     BT601_YUV_TO_RGB, BT601_RGB_TO_YUV: 0.299,  0.587,  0.114;
     BT709_YUV_TO_RGB, BT709_RGB_TO_YUV: 0.2126, 0.7152, 0.0722;
-    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.322, 0.0593;
+    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.678, 0.0593;
 }
 
 type BT2100ConvertFn<V> = unsafe fn(ColorTransfer, &[[f32; 3]; 3], V, V, V) -> (V, V, V);
-- 
2.43.0


From 3e0fde83c6f9bd331d0648fd7c54f3da8b70f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 08/17] fix: ICtCp chroma of 4:2:0 images

Average the chroma of the four pixels of a block, instead of three times
the upper left pixel's and the one V::LEN pixels further right.
---
 src/color/space.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index d3a06ad..0b34480 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -337,8 +337,12 @@ unsafe fn bt2100_rgbx4_to_yx4_uv<V: Vector>(
     let yuv10 = f(transfer, rgb_to_xyz, r[2], g[2], b[2]);
     let yuv11 = f(transfer, rgb_to_xyz, r[3], g[3], b[3]);
 
-    let u = yuv00.1.vadd(yuv01.1).vadd(yuv00.1).vadd(yuv00.1);
-    let v = yuv00.2.vadd(yuv01.2).vadd(yuv00.2).vadd(yuv00.2);
+    // Add the upper and lower pixels, then the left and right ones
+    let (u0, u1) = yuv00.1.vadd(yuv10.1).unzip(yuv01.1.vadd(yuv11.1));
+    let (v0, v1) = yuv00.2.vadd(yuv10.2).unzip(yuv01.2.vadd(yuv11.2));
+
+    let u = u0.vadd(u1);
+    let v = v0.vadd(v1);
 
     let u = u.vdivf(4.0);
     let v = v.vdivf(4.0);
-- 
2.43.0


From 24ded62643341bb3a13b2ecda8796cdbc1d621e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 09/17] fix: gamma transfer of negative (out of gamut)
 components

The power of a negative number is NaN, which then spreads to the other
components. Clip to zero like PQ and HLG do.
---
 src/color/transfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 319602c..68c62a5 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -114,12 +114,12 @@ mod gamma {
 
     #[inline(always)]
     pub(super) unsafe fn linear_to_scaled<const GAMMA: u32, V: Vector>(i: V) -> V {
-        i.vpowf(1.0 / (GAMMA as f32 / 10.0))
+        i.vmaxf(0.0).vpowf(1.0 / (GAMMA as f32 / 10.0))
     }
 
     #[inline(always)]
     pub(super) unsafe fn scaled_to_linear<const GAMMA: u32, V: Vector>(i: V) -> V {
-        i.vpowf(GAMMA as f32 / 10.0)
+        i.vmaxf(0.0).vpowf(GAMMA as f32 / 10.0)
     }
 }
 
-- 
2.43.0


From 32176ca6f210456d4ddd11322aa0f6e3a5788bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 10/17] fix: constant of the SDR transfer function

0.099 is used by the inverse function and the comment's formula apart from
the typo.
---
 src/color/transfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 68c62a5..4c99b05 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -177,7 +177,7 @@ mod sdr {
         let a = i.vdivf(4.5);
 
         // b = ((i + 0.0993) / 1.099).powf(1.0 / 0.45)
-        let b = i.vaddf(0.0993).vdivf(1.099).vpowf(1.0 / 0.45);
+        let b = i.vaddf(0.099).vdivf(1.099).vpowf(1.0 / 0.45);
 
         V::select(a, b, mask)
     }
-- 
2.43.0


From e4dc2d885664614183b31c122154dbad26a268a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 11/17] fix: PQ transfer of values far above the nominal peak

The denominator of the EOTF becomes negative for (out of gamut) values
above 1.995, the resulting NaN turned bright pixels black.
---
 src/color/transfer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 4c99b05..8944c8d 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -219,7 +219,8 @@ pub(crate) mod bt2100_pq {
         let epow1dm2 = i.vpowf(1.0 / M2);
 
         let a = epow1dm2.vsubf(C1).vmaxf(0.0);
-        let b = V::splat(C2).vsub(epow1dm2.vmulf(C3));
+        // Reaches zero for values close to 2.0, avoid producing NaN beyond that point
+        let b = V::splat(C2).vsub(epow1dm2.vmulf(C3)).vmaxf(1e-3);
 
         a.vdiv(b).vpowf(1.0 / M1).vmulf(L)
     }
-- 
2.43.0


From fd354a287c6adda5f29ccc9a9697eb3c8de380ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 12/17] fix: red primary of SMPTE ST 240

The matrices were generated with red at (0.630, 0.329), mixing it up with
the white point's y (the standard says (0.630, 0.340)).
---
 src/color/primaries.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/color/primaries.rs b/src/color/primaries.rs
index 3c12bfa..26ff851 100644
--- a/src/color/primaries.rs
+++ b/src/color/primaries.rs
@@ -73,14 +73,14 @@ pub(crate) unsafe fn xyz_to_rgb<V: Vector>(bw: &[[f32; 3]; 3], x: V, y: V, z: V)
 
 mod generated_consts {
     pub(super) const ST240_RGB_TO_XYZ: [[f32; 3]; 3] = [
-        [0.39031416, 0.20383073, 0.025401404],
-        [0.3700937, 0.71034116, 0.11341577],
-        [0.19004808, 0.08582816, 0.95024043],
+        [0.3935209, 0.21237636, 0.018739091],
+        [0.36525807, 0.7010599, 0.111933924],
+        [0.19167694, 0.08656378, 0.95838475],
     ];
     pub(super) const ST240_XYZ_TO_RGB: [[f32; 3]; 3] = [
-        [3.506003, -1.0092703, 0.026740361],
-        [-1.7397907, 1.9292052, -0.18375263],
-        [-0.5440582, 0.027603257, 1.0636142],
+        [3.5060034, -1.0690476, 0.056306593],
+        [-1.7397907, 1.9777789, -0.19697565],
+        [-0.54405826, 0.03517142, 1.0499524],
     ];
 
     pub(super) const BT709_RGB_TO_XYZ: [[f32; 3]; 3] = [
-- 
2.43.0


From 60e8e8f89af032407466b70ac56a4aced7915e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 13/17] fix: scalar writes truncate instead of rounding

The SIMD implementations round to the nearest integer, so the pixels right
of the last full vector were darker than their neighbours.
---
 src/vector/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index cdbd172..3e62b96 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -236,44 +236,46 @@ unsafe impl Vector for f32 {
 
     #[inline(always)]
     unsafe fn write_u8(self, ptr: *mut u8) {
-        ptr.write(self as u8)
+        ptr.write(self.round_ties_even() as u8)
     }
     #[inline(always)]
     unsafe fn write_u8_2x(v0: Self, v1: Self, ptr: *mut u8) {
-        ptr.cast::<[u8; 2]>().write_unaligned([v0 as u8, v1 as u8]);
+        ptr.cast::<[u8; 2]>()
+            .write_unaligned([v0.round_ties_even() as u8, v1.round_ties_even() as u8]);
     }
     #[inline(always)]
     unsafe fn write_u16(self, ptr: *mut u8) {
-        ptr.cast::<u16>().write_unaligned(self as u16);
+        ptr.cast::<u16>()
+            .write_unaligned(self.round_ties_even() as u16);
     }
     #[inline(always)]
     unsafe fn write_u16_2x(v0: Self, v1: Self, ptr: *mut u8) {
         ptr.cast::<[u16; 2]>()
-            .write_unaligned([v0 as u16, v1 as u16]);
+            .write_unaligned([v0.round_ties_even() as u16, v1.round_ties_even() as u16]);
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_3x_2x_u8(this: [[Self; 3]; 2], ptr: *mut u8) {
         ptr.cast::<[[u8; 3]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u8)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u8)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_3x_2x_u16(this: [[Self; 3]; 2], ptr: *mut u8) {
         ptr.cast::<[[u16; 3]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u16)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u16)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_4x_2x_u8(this: [[Self; 4]; 2], ptr: *mut u8) {
         ptr.cast::<[[u8; 4]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u8)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u8)));
     }
 
     #[inline(always)]
     unsafe fn write_interleaved_4x_2x_u16(this: [[Self; 4]; 2], ptr: *mut u8) {
         ptr.cast::<[[u16; 4]; 2]>()
-            .write_unaligned(this.map(|f| f.map(|f| f as u16)));
+            .write_unaligned(this.map(|f| f.map(|f| f.round_ties_even() as u16)));
     }
 
     #[inline(always)]
-- 
2.43.0


From 428a972a6aa010d46a9a755e0539640f20345faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:18 +0000
Subject: [PATCH 14/17] fix: saturate samples outside of the destination's
 range

10 and 12 bit samples were only limited to 16 bit. Additionally the AVX-512
implementation wrapped around instead of saturating, and AVX2 turned
anything above 32767 into zero when packing to 8 bit.
---
 src/formats/i420/write.rs | 12 ++++++------
 src/formats/i422/write.rs | 16 ++++++++--------
 src/formats/i444/write.rs | 28 ++++++++++++++--------------
 src/formats/nv12/write.rs | 12 ++++++------
 src/formats/rgb/write.rs  |  6 +++---
 src/formats/rgba/write.rs |  8 ++++----
 src/formats/yuyv/write.rs | 16 ++++++++--------
 src/vector/avx2.rs        |  5 +++++
 src/vector/avx512.rs      |  5 +++++
 src/vector/mod.rs         | 16 ++++++++++++++++
 src/vector/neon.rs        |  4 ++++
 11 files changed, 79 insertions(+), 49 deletions(-)

diff --git a/src/formats/i420/write.rs b/src/formats/i420/write.rs
index dec3cef..25a3e9b 100644
--- a/src/formats/i420/write.rs
+++ b/src/formats/i420/write.rs
@@ -74,13 +74,13 @@ where
             v,
         } = self.i420_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
+        let y00 = y00.quantize(self.max_value);
+        let y01 = y01.quantize(self.max_value);
+        let y10 = y10.quantize(self.max_value);
+        let y11 = y11.quantize(self.max_value);
 
-        let u = u.vmulf(self.max_value);
-        let v = v.vmulf(self.max_value);
+        let u = u.quantize(self.max_value);
+        let v = v.quantize(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/i422/write.rs b/src/formats/i422/write.rs
index 6cee11b..1cea45a 100644
--- a/src/formats/i422/write.rs
+++ b/src/formats/i422/write.rs
@@ -76,14 +76,14 @@ where
             v1,
         } = self.i422_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u0 = u0.vmulf(self.max_value);
-        let u1 = u1.vmulf(self.max_value);
-        let v0 = v0.vmulf(self.max_value);
-        let v1 = v1.vmulf(self.max_value);
+        let y00 = y00.quantize(self.max_value);
+        let y01 = y01.quantize(self.max_value);
+        let y10 = y10.quantize(self.max_value);
+        let y11 = y11.quantize(self.max_value);
+        let u0 = u0.quantize(self.max_value);
+        let u1 = u1.quantize(self.max_value);
+        let v0 = v0.quantize(self.max_value);
+        let v1 = v1.quantize(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/i444/write.rs b/src/formats/i444/write.rs
index c685fb7..c9f2f84 100644
--- a/src/formats/i444/write.rs
+++ b/src/formats/i444/write.rs
@@ -74,20 +74,20 @@ where
             px11,
         } = block;
 
-        let y00 = px00.y.vmulf(self.max_value);
-        let y01 = px01.y.vmulf(self.max_value);
-        let y10 = px10.y.vmulf(self.max_value);
-        let y11 = px11.y.vmulf(self.max_value);
-
-        let u00 = px00.u.vmulf(self.max_value);
-        let u01 = px01.u.vmulf(self.max_value);
-        let u10 = px10.u.vmulf(self.max_value);
-        let u11 = px11.u.vmulf(self.max_value);
-
-        let v00 = px00.v.vmulf(self.max_value);
-        let v01 = px01.v.vmulf(self.max_value);
-        let v10 = px10.v.vmulf(self.max_value);
-        let v11 = px11.v.vmulf(self.max_value);
+        let y00 = px00.y.quantize(self.max_value);
+        let y01 = px01.y.quantize(self.max_value);
+        let y10 = px10.y.quantize(self.max_value);
+        let y11 = px11.y.quantize(self.max_value);
+
+        let u00 = px00.u.quantize(self.max_value);
+        let u01 = px01.u.quantize(self.max_value);
+        let u10 = px10.u.quantize(self.max_value);
+        let u11 = px11.u.quantize(self.max_value);
+
+        let v00 = px00.v.quantize(self.max_value);
+        let v01 = px01.v.quantize(self.max_value);
+        let v10 = px10.v.quantize(self.max_value);
+        let v11 = px11.v.quantize(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/nv12/write.rs b/src/formats/nv12/write.rs
index 2132080..dae012e 100644
--- a/src/formats/nv12/write.rs
+++ b/src/formats/nv12/write.rs
@@ -70,12 +70,12 @@ where
             v,
         } = self.i420_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u = u.vmulf(self.max_value);
-        let v = v.vmulf(self.max_value);
+        let y00 = y00.quantize(self.max_value);
+        let y01 = y01.quantize(self.max_value);
+        let y10 = y10.quantize(self.max_value);
+        let y11 = y11.quantize(self.max_value);
+        let u = u.quantize(self.max_value);
+        let v = v.quantize(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/rgb/write.rs b/src/formats/rgb/write.rs
index 7ee55fe..a336a93 100644
--- a/src/formats/rgb/write.rs
+++ b/src/formats/rgb/write.rs
@@ -84,9 +84,9 @@ unsafe fn multiply_and_reverse<const REVERSE: bool, V: Vector>(
     px: RgbaPixel<V>,
     max_value: f32,
 ) -> [V; 3] {
-    let r = px.r.vmulf(max_value);
-    let g = px.g.vmulf(max_value);
-    let b = px.b.vmulf(max_value);
+    let r = px.r.quantize(max_value);
+    let g = px.g.quantize(max_value);
+    let b = px.b.quantize(max_value);
 
     if REVERSE {
         [b, g, r]
diff --git a/src/formats/rgba/write.rs b/src/formats/rgba/write.rs
index 3550615..8ad5bd1 100644
--- a/src/formats/rgba/write.rs
+++ b/src/formats/rgba/write.rs
@@ -85,10 +85,10 @@ unsafe fn multiply_and_reverse<const REVERSE: bool, V: Vector>(
     px: RgbaPixel<V>,
     max_value: f32,
 ) -> [V; 4] {
-    let r = px.r.vmulf(max_value);
-    let g = px.g.vmulf(max_value);
-    let b = px.b.vmulf(max_value);
-    let a = px.a.vmulf(max_value);
+    let r = px.r.quantize(max_value);
+    let g = px.g.quantize(max_value);
+    let b = px.b.quantize(max_value);
+    let a = px.a.quantize(max_value);
 
     if REVERSE {
         [b, g, r, a]
diff --git a/src/formats/yuyv/write.rs b/src/formats/yuyv/write.rs
index ad18abd..7b13faa 100644
--- a/src/formats/yuyv/write.rs
+++ b/src/formats/yuyv/write.rs
@@ -76,14 +76,14 @@ where
             v1,
         } = self.i422_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u0 = u0.vmulf(self.max_value);
-        let u1 = u1.vmulf(self.max_value);
-        let v0 = v0.vmulf(self.max_value);
-        let v1 = v1.vmulf(self.max_value);
+        let y00 = y00.quantize(self.max_value);
+        let y01 = y01.quantize(self.max_value);
+        let y10 = y10.quantize(self.max_value);
+        let y11 = y11.quantize(self.max_value);
+        let u0 = u0.quantize(self.max_value);
+        let u1 = u1.quantize(self.max_value);
+        let v0 = v0.quantize(self.max_value);
+        let v1 = v1.quantize(self.max_value);
 
         let offset0 = y * self.yuyv_stride + x * 2 * P::SIZE;
         let offset1 = (y + 1) * self.yuyv_stride + x * 2 * P::SIZE;
diff --git a/src/vector/avx2.rs b/src/vector/avx2.rs
index 4d9fcf4..dfe3789 100644
--- a/src/vector/avx2.rs
+++ b/src/vector/avx2.rs
@@ -36,6 +36,11 @@ unsafe impl Vector for __m256 {
         _mm256_max_ps(self, other)
     }
 
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        _mm256_min_ps(self, other)
+    }
+
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
         _mm256_cmp_ps(self, other, _CMP_LT_OQ)
diff --git a/src/vector/avx512.rs b/src/vector/avx512.rs
index 24ee33b..b97218f 100644
--- a/src/vector/avx512.rs
+++ b/src/vector/avx512.rs
@@ -36,6 +36,11 @@ unsafe impl Vector for __m512 {
         _mm512_max_ps(self, other)
     }
 
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        _mm512_min_ps(self, other)
+    }
+
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
         _mm512_cmp_ps_mask(self, other, _CMP_LT_OQ)
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index 3e62b96..dbd2728 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -52,6 +52,17 @@ pub(crate) unsafe trait Vector: Debug + Copy + 'static {
         self.vmax(Self::splat(other))
     }
 
+    unsafe fn vmin(self, other: Self) -> Self;
+    unsafe fn vminf(self, other: f32) -> Self {
+        self.vmin(Self::splat(other))
+    }
+
+    /// Scale from 0..=1 to 0..=max_value, saturating everything outside that range
+    #[inline(always)]
+    unsafe fn quantize(self, max_value: f32) -> Self {
+        self.vmulf(max_value).vmaxf(0.0).vminf(max_value)
+    }
+
     /// Compare all element in self to other and return a mask with the results a < b
     unsafe fn lt(self, other: Self) -> Self::Mask;
     unsafe fn ltf(self, other: f32) -> Self::Mask {
@@ -158,6 +169,11 @@ unsafe impl Vector for f32 {
         self.max(other)
     }
 
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        self.min(other)
+    }
+
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
         self < other
diff --git a/src/vector/neon.rs b/src/vector/neon.rs
index 720e74c..03e10af 100644
--- a/src/vector/neon.rs
+++ b/src/vector/neon.rs
@@ -32,6 +32,10 @@ unsafe impl Vector for float32x4_t {
     unsafe fn vmax(self, other: Self) -> Self {
         vmaxq_f32(self, other)
     }
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        vminq_f32(self, other)
+    }
 
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
-- 
2.43.0


From 8e21a6cbe7330e8a82f7b3c0a04d4a1665721572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 15/17] fix: YUV quantization levels of 10 and 12 bit and full
 range images

The nominal levels were calculated as fractions of 255 for every bit depth,
10 bit limited range white ended up at 943 instead of 940 and the chroma
center at 513.5 instead of 512. With full range the chroma center was at
127.5 instead of 128, so that neutral chroma tinted the image.
---
 src/formats/i420/from_rgb.rs | 34 ++++++-------------
 src/formats/i420/to_rgb.rs   | 51 +++++++++-------------------
 src/formats/i422/from_rgb.rs | 34 +++++++------------
 src/formats/i422/to_rgb.rs   | 65 +++++++++++-------------------------
 src/formats/i444/from_rgb.rs | 30 ++++++-----------
 src/formats/i444/to_rgb.rs   | 35 +++++--------------
 src/formats/mod.rs           | 62 ++++++++++++++++++++++++++++++++++
 src/lib.rs                   | 27 ++++++++++-----
 8 files changed, 157 insertions(+), 181 deletions(-)

diff --git a/src/formats/i420/from_rgb.rs b/src/formats/i420/from_rgb.rs
index 9f23462..1ee6065 100644
--- a/src/formats/i420/from_rgb.rs
+++ b/src/formats/i420/from_rgb.rs
@@ -1,6 +1,7 @@
 use super::{I420Block, I420Src};
 use crate::color::ColorInfo;
 use crate::formats::rgba::{RgbaBlock, RgbaSrc};
+use crate::formats::YuvRange;
 use crate::vector::Vector;
 use crate::{ColorSpace, ColorTransfer, ConvertError};
 
@@ -9,11 +10,11 @@ pub(crate) struct RgbToI420<S> {
     space: ColorSpace,
     transfer: ColorTransfer,
     rgb_to_xyz: &'static [[f32; 3]; 3],
-    full_range: bool,
+    range: YuvRange,
 }
 
 impl<S: RgbaSrc> RgbToI420<S> {
-    pub(crate) fn new(color: &ColorInfo, rgba_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, rgba_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -23,7 +24,7 @@ impl<S: RgbaSrc> RgbToI420<S> {
             space: yuv.space,
             transfer: yuv.transfer,
             rgb_to_xyz: yuv.primaries.rgb_to_xyz_mat(),
-            full_range: yuv.full_range,
+            range: YuvRange::new(yuv.full_range, bits),
         })
     }
 }
@@ -46,28 +47,13 @@ impl<S: RgbaSrc> I420Src for RgbToI420<S> {
             [px00.b, px01.b, px10.b, px11.b],
         );
 
-        // U & V scales from -0.5..=0.5, so bring that up into 0..=1
-        let u = u.vaddf(0.5);
-        let v = v.vaddf(0.5);
+        let y00 = self.range.y_to_sample(y00);
+        let y01 = self.range.y_to_sample(y01);
+        let y10 = self.range.y_to_sample(y10);
+        let y11 = self.range.y_to_sample(y11);
 
-        let (y00, y01, y10, y11, u, v) = if self.full_range {
-            (y00, y01, y10, y11, u, v)
-        } else {
-            let v16 = V::splat(16.0 / 255.0);
-
-            let y_scale = V::splat(219.0 / 255.0);
-            let uv_scale = V::splat(224.0 / 255.0);
-
-            let y00 = v16.vadd(y00.vmul(y_scale));
-            let y01 = v16.vadd(y01.vmul(y_scale));
-            let y10 = v16.vadd(y10.vmul(y_scale));
-            let y11 = v16.vadd(y11.vmul(y_scale));
-
-            let u = v16.vadd(u.vmul(uv_scale));
-            let v = v16.vadd(v.vmul(uv_scale));
-
-            (y00, y01, y10, y11, u, v)
-        };
+        let u = self.range.uv_to_sample(u);
+        let v = self.range.uv_to_sample(v);
 
         I420Block {
             y00,
diff --git a/src/formats/i420/to_rgb.rs b/src/formats/i420/to_rgb.rs
index 7a4575a..9a1ed7a 100644
--- a/src/formats/i420/to_rgb.rs
+++ b/src/formats/i420/to_rgb.rs
@@ -1,5 +1,6 @@
 use super::{I420Block, I420Src};
 use crate::formats::rgba::{RgbaBlock, RgbaPixel, RgbaSrc};
+use crate::formats::YuvRange;
 use crate::vector::Vector;
 use crate::{ColorInfo, ColorSpace, ColorTransfer, ConvertError};
 
@@ -9,11 +10,11 @@ pub(crate) struct I420ToRgb<S> {
     space: ColorSpace,
     transfer: ColorTransfer,
     xyz_to_rgb: &'static [[f32; 3]; 3],
-    full_range: bool,
+    range: YuvRange,
 }
 
 impl<S: I420Src> I420ToRgb<S> {
-    pub(crate) fn new(color: &ColorInfo, i420_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, i420_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -23,7 +24,7 @@ impl<S: I420Src> I420ToRgb<S> {
             space: yuv.space,
             transfer: yuv.transfer,
             xyz_to_rgb: yuv.primaries.xyz_to_rgb_mat(),
-            full_range: yuv.full_range,
+            range: YuvRange::new(yuv.full_range, bits),
         })
     }
 }
@@ -32,41 +33,21 @@ impl<S: I420Src> RgbaSrc for I420ToRgb<S> {
     #[inline(always)]
     unsafe fn read<V: Vector>(&mut self, x: usize, y: usize) -> RgbaBlock<V> {
         let I420Block {
-            mut y00,
-            mut y01,
-            mut y10,
-            mut y11,
-            mut u,
-            mut v,
+            y00,
+            y01,
+            y10,
+            y11,
+            u,
+            v,
         } = self.i420_src.read::<V>(x, y);
 
-        // If the YUV components don't use the full range of u8 scale them to the full range
-        // Y  16..=235 -> 0..255 Y  = (1.164 * (Y  - 16))
-        // UV 16..=240 -> 0..255 UV = (1.138 * (UV - 16))
-        if !self.full_range {
-            let v16 = V::splat(16.0 / 255.0);
-            let y_scale = V::splat(255.0 / 219.0);
-            let uv_scale = V::splat(255.0 / 224.0);
+        let y00 = self.range.y_from_sample(y00);
+        let y01 = self.range.y_from_sample(y01);
+        let y10 = self.range.y_from_sample(y10);
+        let y11 = self.range.y_from_sample(y11);
 
-            y00 = y00.vsub(v16);
-            y01 = y01.vsub(v16);
-            y10 = y10.vsub(v16);
-            y11 = y11.vsub(v16);
-
-            y00 = y00.vmul(y_scale);
-            y01 = y01.vmul(y_scale);
-            y10 = y10.vmul(y_scale);
-            y11 = y11.vmul(y_scale);
-
-            u = u.vsub(v16);
-            v = v.vsub(v16);
-
-            u = u.vmul(uv_scale);
-            v = v.vmul(uv_scale);
-        }
-
-        u = u.vsubf(0.5);
-        v = v.vsubf(0.5);
+        let u = self.range.uv_from_sample(u);
+        let v = self.range.uv_from_sample(v);
 
         let [[r00, g00, b00], [r01, g01, b01], [r10, g10, b10], [r11, g11, b11]] = self
             .space
diff --git a/src/formats/i422/from_rgb.rs b/src/formats/i422/from_rgb.rs
index 5a07efb..154c673 100644
--- a/src/formats/i422/from_rgb.rs
+++ b/src/formats/i422/from_rgb.rs
@@ -1,5 +1,6 @@
 use super::{I422Block, I422Src};
 use crate::formats::rgba::{RgbaBlock, RgbaPixel, RgbaSrc};
+use crate::formats::YuvRange;
 use crate::vector::Vector;
 use crate::{ColorInfo, ColorSpace, ColorTransfer, ConvertError};
 
@@ -8,11 +9,11 @@ pub(crate) struct RgbToI422<S> {
     space: ColorSpace,
     transfer: ColorTransfer,
     rgb_to_xyz: &'static [[f32; 3]; 3],
-    full_range: bool,
+    range: YuvRange,
 }
 
 impl<S: RgbaSrc> RgbToI422<S> {
-    pub(crate) fn new(color: &ColorInfo, rgba_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, rgba_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -22,7 +23,7 @@ impl<S: RgbaSrc> RgbToI422<S> {
             space: yuv.space,
             transfer: yuv.transfer,
             rgb_to_xyz: yuv.primaries.rgb_to_xyz_mat(),
-            full_range: yuv.full_range,
+            range: YuvRange::new(yuv.full_range, bits),
         })
     }
 
@@ -32,36 +33,25 @@ impl<S: RgbaSrc> RgbToI422<S> {
         px0: RgbaPixel<V>,
         px1: RgbaPixel<V>,
     ) -> ([V; 2], V, V) {
-        let (mut y0, u0, v0) =
+        let (y0, u0, v0) =
             self.space
                 .rgb_to_yuv(self.transfer, self.rgb_to_xyz, px0.r, px0.g, px0.b);
 
-        let (mut y1, u1, v1) =
+        let (y1, u1, v1) =
             self.space
                 .rgb_to_yuv(self.transfer, self.rgb_to_xyz, px1.r, px1.g, px1.b);
 
         let (u0, u1) = u0.unzip(u1);
         let (v0, v1) = v0.unzip(v1);
 
-        let mut u = u0.vadd(u1).vdivf(2.0);
-        let mut v = v0.vadd(v1).vdivf(2.0);
+        let u = u0.vadd(u1).vdivf(2.0);
+        let v = v0.vadd(v1).vdivf(2.0);
 
-        // U & V scales from -0.5..=0.5, so bring that up into 0..=1
-        u = u.vaddf(0.5);
-        v = v.vaddf(0.5);
+        let y0 = self.range.y_to_sample(y0);
+        let y1 = self.range.y_to_sample(y1);
 
-        if !self.full_range {
-            let v16 = V::splat(16.0 / 255.0);
-
-            let y_scale = V::splat(219.0 / 255.0);
-            let uv_scale = V::splat(224.0 / 255.0);
-
-            y0 = v16.vadd(y0.vmul(y_scale));
-            y1 = v16.vadd(y1.vmul(y_scale));
-
-            u = v16.vadd(u.vmul(uv_scale));
-            v = v16.vadd(v.vmul(uv_scale));
-        }
+        let u = self.range.uv_to_sample(u);
+        let v = self.range.uv_to_sample(v);
 
         ([y0, y1], u, v)
     }
diff --git a/src/formats/i422/to_rgb.rs b/src/formats/i422/to_rgb.rs
index 11697e0..57f273a 100644
--- a/src/formats/i422/to_rgb.rs
+++ b/src/formats/i422/to_rgb.rs
@@ -1,5 +1,6 @@
 use super::{I422Block, I422Src};
 use crate::formats::rgba::{RgbaBlock, RgbaPixel, RgbaSrc};
+use crate::formats::YuvRange;
 use crate::vector::Vector;
 use crate::{ColorInfo, ColorSpace, ColorTransfer, ConvertError};
 
@@ -9,11 +10,11 @@ pub(crate) struct I422ToRgb<S> {
     space: ColorSpace,
     transfer: ColorTransfer,
     xyz_to_rgb: &'static [[f32; 3]; 3],
-    full_range: bool,
+    range: YuvRange,
 }
 
 impl<S: I422Src> I422ToRgb<S> {
-    pub(crate) fn new(color: &ColorInfo, i422_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, i422_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -23,7 +24,7 @@ impl<S: I422Src> I422ToRgb<S> {
             space: yuv.space,
             transfer: yuv.transfer,
             xyz_to_rgb: yuv.primaries.xyz_to_rgb_mat(),
-            full_range: yuv.full_range,
+            range: YuvRange::new(yuv.full_range, bits),
         })
     }
 }
@@ -32,51 +33,25 @@ impl<S: I422Src> RgbaSrc for I422ToRgb<S> {
     #[inline(always)]
     unsafe fn read<V: Vector>(&mut self, x: usize, y: usize) -> RgbaBlock<V> {
         let I422Block {
-            mut y00,
-            mut y01,
-            mut y10,
-            mut y11,
-            mut u0,
-            mut u1,
-            mut v0,
-            mut v1,
+            y00,
+            y01,
+            y10,
+            y11,
+            u0,
+            u1,
+            v0,
+            v1,
         } = self.i422_src.read::<V>(x, y);
 
-        // If the YUV components don't use the full range of u8 scale them to the full range
-        // Y  16..=235 -> 0..255 Y  = (1.164 * (Y  - 16))
-        // UV 16..=240 -> 0..255 UV = (1.138 * (UV - 16))
-        if !self.full_range {
-            let v16 = V::splat(16.0 / 255.0);
-            let y_scale = V::splat(255.0 / 219.0);
-            let uv_scale = V::splat(255.0 / 224.0);
+        let y00 = self.range.y_from_sample(y00);
+        let y01 = self.range.y_from_sample(y01);
+        let y10 = self.range.y_from_sample(y10);
+        let y11 = self.range.y_from_sample(y11);
 
-            y00 = y00.vsub(v16);
-            y01 = y01.vsub(v16);
-            y10 = y10.vsub(v16);
-            y11 = y11.vsub(v16);
-
-            y00 = y00.vmul(y_scale);
-            y01 = y01.vmul(y_scale);
-            y10 = y10.vmul(y_scale);
-            y11 = y11.vmul(y_scale);
-
-            u0 = u0.vsub(v16);
-            u1 = u1.vsub(v16);
-
-            v0 = v0.vsub(v16);
-            v1 = v1.vsub(v16);
-
-            u0 = u0.vmul(uv_scale);
-            u1 = u1.vmul(uv_scale);
-
-            v0 = v0.vmul(uv_scale);
-            v1 = v1.vmul(uv_scale);
-        }
-
-        u0 = u0.vsubf(0.5);
-        u1 = u1.vsubf(0.5);
-        v0 = v0.vsubf(0.5);
-        v1 = v1.vsubf(0.5);
+        let u0 = self.range.uv_from_sample(u0);
+        let u1 = self.range.uv_from_sample(u1);
+        let v0 = self.range.uv_from_sample(v0);
+        let v1 = self.range.uv_from_sample(v1);
 
         let (u0_left, u0_right) = u0.zip(u0);
         let (v0_left, v0_right) = v0.zip(v0);
diff --git a/src/formats/i444/from_rgb.rs b/src/formats/i444/from_rgb.rs
index 152454e..860da35 100644
--- a/src/formats/i444/from_rgb.rs
+++ b/src/formats/i444/from_rgb.rs
@@ -2,6 +2,7 @@ use super::{I444Block, I444Src};
 use crate::color::ColorInfo;
 use crate::formats::i444::I444Pixel;
 use crate::formats::rgba::{RgbaPixel, RgbaSrc};
+use crate::formats::YuvRange;
 use crate::vector::Vector;
 use crate::{ColorSpace, ColorTransfer, ConvertError};
 
@@ -10,11 +11,11 @@ pub(crate) struct RgbToI444<S> {
     space: ColorSpace,
     transfer: ColorTransfer,
     rgb_to_xyz: &'static [[f32; 3]; 3],
-    full_range: bool,
+    range: YuvRange,
 }
 
 impl<S: RgbaSrc> RgbToI444<S> {
-    pub(crate) fn new(color: &ColorInfo, rgba_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, rgba_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -24,31 +25,20 @@ impl<S: RgbaSrc> RgbToI444<S> {
             space: yuv.space,
             transfer: yuv.transfer,
             rgb_to_xyz: yuv.primaries.rgb_to_xyz_mat(),
-            full_range: yuv.full_range,
+            range: YuvRange::new(yuv.full_range, bits),
         })
     }
 
     #[inline(always)]
     unsafe fn convert_rgb_to_yuv<V: Vector>(&self, px: RgbaPixel<V>) -> I444Pixel<V> {
-        let (mut y, mut u, mut v) =
-            self.space
-                .rgb_to_yuv(self.transfer, self.rgb_to_xyz, px.r, px.g, px.b);
+        let (y, u, v) = self
+            .space
+            .rgb_to_yuv(self.transfer, self.rgb_to_xyz, px.r, px.g, px.b);
 
-        // U & V scales from -0.5..=0.5, so bring that up into 0..=1
-        u = u.vaddf(0.5);
-        v = v.vaddf(0.5);
+        let y = self.range.y_to_sample(y);
 
-        if !self.full_range {
-            let v16 = V::splat(16.0 / 255.0);
-
-            let y_scale = V::splat(219.0 / 255.0);
-            let uv_scale = V::splat(224.0 / 255.0);
-
-            y = v16.vadd(y.vmul(y_scale));
-
-            u = v16.vadd(u.vmul(uv_scale));
-            v = v16.vadd(v.vmul(uv_scale));
-        }
+        let u = self.range.uv_to_sample(u);
+        let v = self.range.uv_to_sample(v);
 
         I444Pixel { y, u, v }
     }
diff --git a/src/formats/i444/to_rgb.rs b/src/formats/i444/to_rgb.rs
index a8d3982..a711fc1 100644
--- a/src/formats/i444/to_rgb.rs
+++ b/src/formats/i444/to_rgb.rs
@@ -1,6 +1,7 @@
 use super::{I444Block, I444Pixel, I444Src};
 use crate::color::ColorInfo;
 use crate::formats::rgba::{RgbaBlock, RgbaPixel, RgbaSrc};
+use crate::formats::YuvRange;
 use crate::vector::Vector;
 use crate::{ColorSpace, ColorTransfer, ConvertError};
 
@@ -10,11 +11,11 @@ pub(crate) struct I444ToRgb<S> {
     space: ColorSpace,
     transfer: ColorTransfer,
     xyz_to_rgb: &'static [[f32; 3]; 3],
-    full_range: bool,
+    range: YuvRange,
 }
 
 impl<S: I444Src> I444ToRgb<S> {
-    pub(crate) fn new(color: &ColorInfo, i444_src: S) -> Result<Self, ConvertError> {
+    pub(crate) fn new(color: &ColorInfo, bits: usize, i444_src: S) -> Result<Self, ConvertError> {
         let ColorInfo::YUV(yuv) = color else {
             return Err(ConvertError::InvalidColorInfo);
         };
@@ -24,38 +25,18 @@ impl<S: I444Src> I444ToRgb<S> {
             space: yuv.space,
             transfer: yuv.transfer,
             xyz_to_rgb: yuv.primaries.xyz_to_rgb_mat(),
-            full_range: yuv.full_range,
+            range: YuvRange::new(yuv.full_range, bits),
         })
     }
 
     #[inline(always)]
     unsafe fn convert_yuv_to_rgb<V: Vector>(&self, px: I444Pixel<V>) -> RgbaPixel<V> {
-        let I444Pixel {
-            mut y,
-            mut u,
-            mut v,
-        } = px;
+        let I444Pixel { y, u, v } = px;
 
-        // If the YUV components don't use the full range of u8 scale them to the full range
-        // Y  16..=235 -> 0..255 Y  = (1.164 * (Y  - 16))
-        // UV 16..=240 -> 0..255 UV = (1.138 * (UV - 16))
-        if !self.full_range {
-            let v16 = V::splat(16.0 / 255.0);
-            let y_scale = V::splat(255.0 / 219.0);
-            let uv_scale = V::splat(255.0 / 224.0);
+        let y = self.range.y_from_sample(y);
 
-            y = y.vsub(v16);
-            y = y.vmul(y_scale);
-
-            u = u.vsub(v16);
-            v = v.vsub(v16);
-
-            u = u.vmul(uv_scale);
-            v = v.vmul(uv_scale);
-        }
-
-        u = u.vsubf(0.5);
-        v = v.vsubf(0.5);
+        let u = self.range.uv_from_sample(u);
+        let v = self.range.uv_from_sample(v);
 
         let (r, g, b) = self
             .space
diff --git a/src/formats/mod.rs b/src/formats/mod.rs
index 3c41cb8..b52a36b 100644
--- a/src/formats/mod.rs
+++ b/src/formats/mod.rs
@@ -1,3 +1,5 @@
+use crate::vector::Vector;
+
 #[macro_use]
 mod rgba;
 mod dyn_rgba_src;
@@ -25,3 +27,63 @@ pub(crate) use yuyv::*;
 fn max_value_for_bits(bits: usize) -> f32 {
     ((1 << bits) - 1) as f32
 }
+
+/// Quantization of YUV samples, relative to the maximum value of the bit depth
+#[derive(Clone, Copy)]
+pub(crate) struct YuvRange {
+    y_offset: f32,
+    y_scale: f32,
+
+    /// Sample value of U & V being zero
+    uv_offset: f32,
+    uv_scale: f32,
+}
+
+impl YuvRange {
+    pub(crate) fn new(full_range: bool, bits: usize) -> Self {
+        // The nominal levels are given for 8 bit samples, further bits are less significant
+        let level = (1 << (bits - 8)) as f32 / max_value_for_bits(bits);
+
+        if full_range {
+            Self {
+                y_offset: 0.0,
+                y_scale: 1.0,
+                uv_offset: 128.0 * level,
+                uv_scale: 1.0,
+            }
+        } else {
+            // Y  16..=235
+            // UV 16..=240
+            Self {
+                y_offset: 16.0 * level,
+                y_scale: 219.0 * level,
+                uv_offset: 128.0 * level,
+                uv_scale: 224.0 * level,
+            }
+        }
+    }
+
+    /// Scale a Y sample to 0..=1
+    #[inline(always)]
+    unsafe fn y_from_sample<V: Vector>(&self, y: V) -> V {
+        y.vsubf(self.y_offset).vdivf(self.y_scale)
+    }
+
+    /// Scale an U or V sample to -0.5..=0.5
+    #[inline(always)]
+    unsafe fn uv_from_sample<V: Vector>(&self, uv: V) -> V {
+        uv.vsubf(self.uv_offset).vdivf(self.uv_scale)
+    }
+
+    /// Scale Y from 0..=1 to a sample
+    #[inline(always)]
+    unsafe fn y_to_sample<V: Vector>(&self, y: V) -> V {
+        y.vmulf(self.y_scale).vaddf(self.y_offset)
+    }
+
+    /// Scale U or V from -0.5..=0.5 to a sample
+    #[inline(always)]
+    unsafe fn uv_to_sample<V: Vector>(&self, uv: V) -> V {
+        uv.vmulf(self.uv_scale).vaddf(self.uv_offset)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 9118cbd..006a407 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -125,39 +125,49 @@ fn read_any_to_rgba<'a>(
 ) -> Result<Box<dyn DynRgbaReader + 'a>, ConvertError> {
     use PixelFormat::*;
 
+    let bits = src.format().bits_per_component();
+
     match src.format() {
         I420 => Ok(Box::new(I420ToRgb::new(
             &src.color(),
+            bits,
             I420Reader::<u8>::new(src)?,
         )?)),
         I422 => Ok(Box::new(I422ToRgb::new(
             &src.color(),
+            bits,
             I422Reader::<u8>::new(src)?,
         )?)),
         I444 => Ok(Box::new(I444ToRgb::new(
             &src.color(),
+            bits,
             I444Reader::<u8>::new(src)?,
         )?)),
 
         I010 | I012 => Ok(Box::new(I420ToRgb::new(
             &src.color(),
+            bits,
             I420Reader::<u16>::new(src)?,
         )?)),
         I210 | I212 => Ok(Box::new(I422ToRgb::new(
             &src.color(),
+            bits,
             I422Reader::<u16>::new(src)?,
         )?)),
         I410 | I412 => Ok(Box::new(I444ToRgb::new(
             &src.color(),
+            bits,
             I444Reader::<u16>::new(src)?,
         )?)),
 
         NV12 => Ok(Box::new(I420ToRgb::new(
             &src.color(),
+            bits,
             NV12Reader::<u8>::new(src)?,
         )?)),
         YUYV => Ok(Box::new(I422ToRgb::new(
             &src.color(),
+            bits,
             YUYVReader::<u8>::new(src)?,
         )?)),
 
@@ -173,18 +183,19 @@ fn rgba_to_any(dst: &mut dyn ImageMut, reader: impl RgbaSrc) -> Result<(), Conve
     use PixelFormat::*;
 
     let dst_color = dst.color();
+    let bits = dst.format().bits_per_component();
 
     match dst.format() {
-        I420 => I420Writer::<u8, _>::write(dst, RgbToI420::new(&dst_color, reader)?),
-        I422 => I422Writer::<u8, _>::write(dst, RgbToI422::new(&dst_color, reader)?),
-        I444 => I444Writer::<u8, _>::write(dst, RgbToI444::new(&dst_color, reader)?),
+        I420 => I420Writer::<u8, _>::write(dst, RgbToI420::new(&dst_color, bits, reader)?),
+        I422 => I422Writer::<u8, _>::write(dst, RgbToI422::new(&dst_color, bits, reader)?),
+        I444 => I444Writer::<u8, _>::write(dst, RgbToI444::new(&dst_color, bits, reader)?),
 
-        I010 | I012 => I420Writer::<u16, _>::write(dst, RgbToI420::new(&dst_color, reader)?),
-        I210 | I212 => I422Writer::<u16, _>::write(dst, RgbToI422::new(&dst_color, reader)?),
-        I410 | I412 => I444Writer::<u16, _>::write(dst, RgbToI444::new(&dst_color, reader)?),
+        I010 | I012 => I420Writer::<u16, _>::write(dst, RgbToI420::new(&dst_color, bits, reader)?),
+        I210 | I212 => I422Writer::<u16, _>::write(dst, RgbToI422::new(&dst_color, bits, reader)?),
+        I410 | I412 => I444Writer::<u16, _>::write(dst, RgbToI444::new(&dst_color, bits, reader)?),
 
-        NV12 => NV12Writer::<u8, _>::write(dst, RgbToI420::new(&dst_color, reader)?),
-        YUYV => YUYVWriter::<u8, _>::write(dst, RgbToI422::new(&dst_color, reader)?),
+        NV12 => NV12Writer::<u8, _>::write(dst, RgbToI420::new(&dst_color, bits, reader)?),
+        YUYV => YUYVWriter::<u8, _>::write(dst, RgbToI422::new(&dst_color, bits, reader)?),
 
         RGBA => RgbaWriter::<false, u8, _>::write(dst, reader),
         BGRA => RgbaWriter::<true, u8, _>::write(dst, reader),
-- 
2.43.0


From b0284810c8f53fed690bb560608ec055107c2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 16/17] fix: NEON code stores samples rounded to nearest, not
 truncated

As the AVX2, AVX-512 and scalar code does.
---
 src/vector/neon.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vector/neon.rs b/src/vector/neon.rs
index 03e10af..b1f5e62 100644
--- a/src/vector/neon.rs
+++ b/src/vector/neon.rs
@@ -264,11 +264,11 @@ unsafe impl Vector for float32x4_t {
 
 #[inline(always)]
 unsafe fn float32x4x2_to_u8x8(l: float32x4_t, h: float32x4_t) -> [u8; 8] {
-    let l = vcvtq_u32_f32(l);
+    let l = vcvtnq_u32_f32(l);
     let l = vminq_u32(l, vdupq_n_u32(u8::MAX as u32));
     let l = vmovn_u32(l);
 
-    let h = vcvtq_u32_f32(h);
+    let h = vcvtnq_u32_f32(h);
     let h = vminq_u32(h, vdupq_n_u32(u8::MAX as u32));
     let h = vmovn_u32(h);
 
@@ -279,11 +279,11 @@ unsafe fn float32x4x2_to_u8x8(l: float32x4_t, h: float32x4_t) -> [u8; 8] {
 
 #[inline(always)]
 unsafe fn float32x4x2_to_u16x8(l: float32x4_t, h: float32x4_t) -> [u16; 8] {
-    let l = vcvtq_u32_f32(l);
+    let l = vcvtnq_u32_f32(l);
     let l = vminq_u32(l, vdupq_n_u32(u16::MAX as u32));
     let l = vmovn_u32(l);
 
-    let h = vcvtq_u32_f32(h);
+    let h = vcvtnq_u32_f32(h);
     let h = vminq_u32(h, vdupq_n_u32(u16::MAX as u32));
     let h = vmovn_u32(h);
 
@@ -292,7 +292,7 @@ unsafe fn float32x4x2_to_u16x8(l: float32x4_t, h: float32x4_t) -> [u16; 8] {
 
 #[inline(always)]
 unsafe fn float32x4_to_u8x4(i: float32x4_t) -> [u8; 4] {
-    let i = vcvtq_u32_f32(i);
+    let i = vcvtnq_u32_f32(i);
     let i = vminq_u32(i, vdupq_n_u32(255));
     let i = vmovn_u32(i);
 
@@ -305,7 +305,7 @@ unsafe fn float32x4_to_u8x4(i: float32x4_t) -> [u8; 4] {
 
 #[inline(always)]
 unsafe fn float32x4_to_u16x4(i: float32x4_t) -> [u16; 4] {
-    let i = vcvtq_u32_f32(i);
+    let i = vcvtnq_u32_f32(i);
     let i = vminq_u32(i, vdupq_n_u32(u16::MAX as u32));
     let i = vmovn_u32(i);
 
-- 
2.43.0


From 1beeba866bd1db56817e3f77ecfb177abf39a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 17/17] fix: NEON comparisons compared absolute values

vcaltq/vcaleq compare magnitudes, so negative (out of gamut) components took
the power segment of the SRGB and SDR transfer functions.
---
 src/vector/neon.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector/neon.rs b/src/vector/neon.rs
index b1f5e62..ccc6e03 100644
--- a/src/vector/neon.rs
+++ b/src/vector/neon.rs
@@ -39,11 +39,11 @@ unsafe impl Vector for float32x4_t {
 
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
-        vcaltq_f32(self, other)
+        vcltq_f32(self, other)
     }
     #[inline(always)]
     unsafe fn le(self, other: Self) -> Self::Mask {
-        vcaleq_f32(self, other)
+        vcleq_f32(self, other)
     }
     #[inline(always)]
     unsafe fn select(a: Self, b: Self, mask: Self::Mask) -> Self {
-- 
2.43.0

