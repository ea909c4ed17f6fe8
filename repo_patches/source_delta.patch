From 795a1ca45424997a620ad5c1422bc9693222b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 1/9] fix: only cache control register values after they have
 been written

If the write failed, the driver used the access pattern and resolution
correction of a configuration the camera never received.
---
 mlx9064x/src/driver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/driver.rs b/mlx9064x/src/driver.rs
index 2bd10e1..c848e51 100644
--- a/mlx9064x/src/driver.rs
+++ b/mlx9064x/src/driver.rs
@@ -161,8 +161,9 @@ where
     }
 
     fn set_control_register(&mut self, register: ControlRegister) -> Result<(), Error<I2C>> {
-        self.update_control_register(&register);
         register.to_i2c(&mut self.bus, self.address)?;
+        // Only cache the new values once the camera has them
+        self.update_control_register(&register);
         Ok(())
     }
 
-- 
2.43.0


From 3a414772d746351658d8e9b8d19fb39c205a13d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 2/9] fix: keep the fractional part of alpha_PTAT on the
 MLX90640

The value is the raw four bits divided by four (plus eight), but the
division was done on integers.
---
 mlx9064x/src/mlx90640/eeprom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index b0ec12d..991f6eb 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -261,7 +261,7 @@ impl Mlx90640Calibration {
         // alpha_PTAT and offset compensation correction scales
         let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
-        let alpha_ptat = alpha_ptat / 4 + 8;
+        let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
@@ -380,7 +380,7 @@ impl Mlx90640Calibration {
             k_v_ptat,
             k_t_ptat,
             v_ptat_25: v_ptat_25.into(),
-            alpha_ptat: alpha_ptat.into(),
+            alpha_ptat,
             gain: gain.into(),
             k_s_ta,
             corner_temperatures,
-- 
2.43.0


From 62c17486b900f2d25a51b72df02704e2a6b796c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 3/9] fix: use all 16 bits of the MLX90641 offset average

The average is stored across two words and is a 16-bit signed value, but
it was sign extended from 11 bits.
---
 mlx9064x/src/mlx90641/eeprom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 44da0cb..b5d2d1f 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -345,7 +345,7 @@ impl PerPixelCalibration {
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
         let offset_scale = 2i16.pow(offset_scale as u32);
         let offset_average_bytes = get_combined_word(&mut buf)?;
-        let offset_average = i16_from_i11(&offset_average_bytes[..]);
+        let offset_average = i16::from_be_bytes(offset_average_bytes);
         // the next two words are reserved.
         buf.advance(WORD_SIZE * 2);
         let k_ta_average = get_hamming_i16(&mut buf)?;
-- 
2.43.0


From 23b842a88fd201c09e52af2e1da10c8de43b5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 4/9] fix: refuse EEPROM dumps that are too short instead of
 panicking

The MLX90640 check compared a number of words with a number of bytes, and
the MLX90641 had no check.
---
 mlx9064x/src/mlx90640/eeprom.rs | 3 ++-
 mlx9064x/src/mlx90641/eeprom.rs | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 991f6eb..dbdd7e3 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -250,7 +250,8 @@ impl Mlx90640Calibration {
     /// The buffer must cover *all* of the EEPROM.
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
-        let eeprom_length = usize::from(EepromAddress::End - EepromAddress::Base);
+        // The addresses count words (and are inclusive), the buffer is in bytes.
+        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
         if buf.len() < eeprom_length {
             return Err(LibraryError::Other(
                 "Not enough space left in buffer to be a full EEPROM dump",
diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index b5d2d1f..c464687 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -84,6 +84,13 @@ pub struct Mlx90641Calibration {
 impl Mlx90641Calibration {
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
+        // The addresses count words (and are inclusive), the buffer is in bytes.
+        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
+        if buf.len() < eeprom_length {
+            return Err(LibraryError::Other(
+                "Not enough space left in buffer to be a full EEPROM dump",
+            ));
+        }
         // Much like the MLX90640 implementation, this is a mess of a function as the data is
         // scattered across the EEPROM.
         // Skip past the per-pixel values
-- 
2.43.0


From 353877f6dcf689461d522980e221c4a209aee281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 5/9] fix: avoid integer overflow when calculating delta V

The difference between the measured and reference supply voltages doesn't
always fit in an i16.
---
 mlx9064x/src/calculations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 75bd682..7b0b0a6 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -159,7 +159,7 @@ const KELVINS_TO_CELSIUS: f32 = 273.15;
 /// while $V_{DD_{pix}}$ (`v_dd_pixel`) is read from the camera's RAM.
 #[doc = include_str!("katex.html")]
 pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i16) -> f32 {
-    f32::from(v_dd_pixel - calibration.v_dd_25()) / f32::from(calibration.k_v_dd())
+    (f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25())) / f32::from(calibration.k_v_dd())
 }
 
 /// Calculate $V_{DD}$
-- 
2.43.0


From 66ace340d0a500ec5892705a4a380faacf55791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 6/9] fix: only apply the resolution correction to the measured
 V_DD

As documented (and in the datasheets) the correction factor scales
V_DD_pix, not the difference to V_DD_25.
---
 mlx9064x/src/calculations.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 7b0b0a6..904a8b7 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -172,7 +172,9 @@ pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i
 /// \begin{align*}
 /// V\_{DD} &= \frac{\text{Resolution}\_\text{corr} \* V\_{DD\_{pix}} - V\_{DD\_{25}}}{K\_{V\_{DD}}} +
 ///          V\_{DD\_0}\newline
-///         &= \text{Resolution}\_\text{corr} * \Delta V + V\_{DD\_0}
+///         &= \text{Resolution}\_\text{corr} * \Delta V +
+///          \left(\text{Resolution}\_\text{corr} - 1\right) * \frac{V\_{DD\_{25}}}{K\_{V\_{DD}}} +
+///          V\_{DD\_0}
 /// \end{align*}
 ///
 /// $V_{DD_{0}}$ is retrieved from the `calibration` argument, while $\Delta V$ (`delta_v`) is the
@@ -187,7 +189,12 @@ pub fn v_dd<'a, Clb: CalibrationData<'a>>(
     resolution_correction: f32,
     delta_v: f32,
 ) -> f32 {
-    delta_v * resolution_correction + calibration.v_dd_0()
+    // The resolution correction only applies to the measured voltage, while delta_v also includes
+    // the reference voltage.
+    let v_dd_25 = f32::from(calibration.v_dd_25()) / f32::from(calibration.k_v_dd());
+    delta_v * resolution_correction
+        + (resolution_correction - 1f32) * v_dd_25
+        + calibration.v_dd_0()
 }
 
 /// Calculate $V\_{PTAT\_{art}}$
-- 
2.43.0


From 1b19ad72c95ea7e8a55d33b8bf5327c14a9547a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 7/9] fix: avoid overflow in the MLX90640 pixel calibration

Scaled row, column and pixel values don't always fit in 16 bits, and the
reference sensitivity is unsigned. Offsets that cannot be represented are
now reported as invalid data.
---
 mlx9064x/src/mlx90640/eeprom.rs | 51 +++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index dbdd7e3..74a92a8 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -86,30 +86,37 @@ impl Mlx90640Calibration {
     ///
     /// Remainder data will be added in afterwards. This function is used for both offset and
     /// sensitivity (alpha) arrays. The given buffer must be at the word containing the column, row
-    /// and remainder scaling factors.
+    /// and remainder scaling factors. The average value following that word is signed for the
+    /// offsets, but unsigned for the sensitivities. The scaled values can exceed 16 bits, so the
+    /// calculations are done with 32 bits.
     /// The calculated array, the remainder scaling factor, and the value occupying the 4 bits
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
-    ) -> ([i16; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
+        signed_average: bool,
+    ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
-        let offset_average = data.get_i16();
+        let offset_average = if signed_average {
+            i32::from(data.get_i16())
+        } else {
+            i32::from(data.get_u16())
+        };
         let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
         for row_chunks in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH * VALUES_PER_DATA_ROW)
         {
             let rows_coefficients = word_to_i4s(data);
-            // Create a nice lazy iterator that converts the values to i16, scales them, and
+            // Create a nice lazy iterator that converts the values to i32, scales them, and
             // reverses that order of the data (because the data is laid out backwards in the
             // EEPROM).
             let rows_coefficients = rows_coefficients
                 .into_iter()
                 //let rows_coefficients = core::array::IntoIter::new(rows_coefficients)
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << row_scale)
                 .rev();
             for (row, coefficient) in row_chunks
@@ -128,7 +135,7 @@ impl Mlx90640Calibration {
             let column_coefficients = column_coefficients
                 .iter()
                 .copied()
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << column_scale)
                 .rev();
             for row in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH) {
@@ -183,7 +190,7 @@ impl Mlx90640Calibration {
     /// this value is chosen from four values, determined by if the row and column indices are even
     /// or odd. The rest of the calculation is performed later, with the rest of the per-pixel
     /// calculations.
-    fn generate_k_ta_pixels(data: &mut &[u8]) -> impl Iterator<Item = i16> {
+    fn generate_k_ta_pixels(data: &mut &[u8]) -> impl Iterator<Item = i32> {
         let source_data: ArrayVec<i8, 4> = (0..4).map(|_| data.get_i8()).collect();
         let source_data = source_data.into_inner().unwrap();
         Self::repeat_chessboard(source_data)
@@ -260,13 +267,14 @@ impl Mlx90640Calibration {
         // Skip the first 16 words, they're irrelevant
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
-        let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+        let (mut offset_sums, offset_correction_remainder_scale, alpha_ptat) =
+            Self::calculate_bulk_pixel_calibration(&mut buf, true);
         let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, false);
+        // These sums are small enough to be represented exactly as an f32
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
-            alpha_pixels.into_iter().map(f32::from).collect();
+            alpha_pixels.into_iter().map(|alpha| alpha as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
         let mut alpha_pixels = alpha_pixels.into_inner().unwrap();
         // Calculate the actual alpha scaling value from the exponent value. The alpha scaling
@@ -338,7 +346,7 @@ impl Mlx90640Calibration {
         let mut outlier_pixels = FlagArray::default();
         // Calculate the rest of the per-pixel data using the remainder/k_ta data
         let mut k_ta_pixels = [0f32; Mlx90640::NUM_PIXELS];
-        offset_reference_pixels
+        offset_sums
             .iter_mut()
             .zip(alpha_pixels.iter_mut())
             .zip(lazy_k_ta_pixels)
@@ -354,26 +362,31 @@ impl Mlx90640Calibration {
                         failed.set(true);
                     } else {
                         // Normal dance to extend the sign bit from an i6 to an i8
-                        let offset_remainder = i16::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
+                        let offset_remainder = i32::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
                         *offset += offset_remainder << offset_correction_remainder_scale;
                         // alpha is going to be a little weird: not only is there the i6-shift-dance,
                         // but there's an extra shift right by 4 to drop the k_ta and outlier bits.
-                        let alpha_remainder = (i16::from_be_bytes([high & 0x03, low]) << 6) >> 10;
-                        *alpha += f32::from(alpha_remainder << alpha_correction_remainder_scale);
+                        let alpha_remainder =
+                            i32::from((i16::from_be_bytes([high & 0x03, low]) << 6) >> 10);
+                        *alpha += (alpha_remainder << alpha_correction_remainder_scale) as f32;
                         *alpha /= alpha_scale;
                         // To try to keep floating point errors down as long as possible, do all the
                         // operations for the numerator as ints, then convert to floats for the final
                         // division.
-                        let k_ta_remainder = i16::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
-                        let k_ta_numerator =
-                            f32::from(k_ta_rc + (k_ta_remainder << k_ta_scale2_exp));
-                        *k_ta = k_ta_numerator / k_ta_scale1;
+                        let k_ta_remainder = i32::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
+                        let k_ta_numerator: i32 = k_ta_rc + (k_ta_remainder << k_ta_scale2_exp);
+                        *k_ta = k_ta_numerator as f32 / k_ta_scale1;
                         // If the last bit of the low byte is set, this is an outlier (or deviant)
                         // pixel.
                         outlier.set(is_bit_set(low, 0))
                     }
                 },
             );
+        let mut offset_reference_pixels = [0i16; Mlx90640::NUM_PIXELS];
+        for (offset, sum) in offset_reference_pixels.iter_mut().zip(offset_sums) {
+            *offset = i16::try_from(sum)
+                .map_err(|_| LibraryError::InvalidData("Pixel offset is out of range"))?;
+        }
         Ok(Self {
             k_v_dd,
             v_dd_25,
-- 
2.43.0


From ac80944604ccec5bee26f5fe8f4b9ca70587479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 8/9] fix: avoid overflow in the MLX90641 pixel offset
 calculation

Large offset scales overflowed 16-bit arithmetic; offsets that cannot be
represented are now reported as invalid data.
---
 mlx9064x/src/mlx90641/eeprom.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index c464687..c1bf5d9 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -350,7 +350,8 @@ impl PerPixelCalibration {
         buf.advance(EepromAddress::OffsetCompensationScale.offset_from_base() * WORD_SIZE);
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
-        let offset_scale = 2i16.pow(offset_scale as u32);
+        // A scale that doesn't fit can only be used with offsets of 0.
+        let offset_scale = 2i32.checked_pow(u32::from(offset_scale));
         let offset_average_bytes = get_combined_word(&mut buf)?;
         let offset_average = i16::from_be_bytes(offset_average_bytes);
         // the next two words are reserved.
@@ -370,6 +371,17 @@ impl PerPixelCalibration {
             let numerator = f32::from(raw_value) * scale2 + f32::from(avg);
             numerator / scale1
         };
+        let offset_fn = |raw_value: i16| {
+            let delta = match (raw_value, offset_scale) {
+                (0, _) => Some(0),
+                (_, Some(scale)) => i32::from(raw_value).checked_mul(scale),
+                (_, None) => None,
+            };
+            delta
+                .and_then(|delta| delta.checked_add(i32::from(offset_average)))
+                .and_then(|offset| i16::try_from(offset).ok())
+                .ok_or(LibraryError::InvalidData("Pixel offset is out of range"))
+        };
         // Create slices covering each of the per-pixel data regions
         let offsets_0 = &data[(EepromAddress::PixelOffsetSubpage0Start.offset_from_base()
             * WORD_SIZE)
@@ -435,16 +447,8 @@ impl PerPixelCalibration {
                 k_ta_pixels.push(Default::default());
                 k_v_pixels.push(Default::default());
             } else {
-                // NOTE: There's a chance this will overflow, if offset_scale is too large
-                let offset_delta_0 = offset_0_raw * offset_scale;
-                let offset_delta_1 = offset_1_raw * offset_scale;
-                // The contents of the offset pixels are initialized to offset_average
-                offset_reference_pixels
-                    .0
-                    .push(offset_average + offset_delta_0);
-                offset_reference_pixels
-                    .1
-                    .push(offset_average + offset_delta_1);
+                offset_reference_pixels.0.push(offset_fn(offset_0_raw)?);
+                offset_reference_pixels.1.push(offset_fn(offset_1_raw)?);
                 // The datasheet is a little hard to read for this, but alpha_EE is divided by
                 // (2^{11} - 1) = 2047
                 alpha_pixels.push((f32::from(alpha_raw) / 2047f32) * alpha_reference);
-- 
2.43.0


From 03c55d2da448720ed6668ef48bd8e83f453c85dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 9/9] fix: preserve the reserved bits of the I2C configuration
 register

As documented for registers, writing one back must keep the values of
reserved bits, but they were always written as 0.
---
 mlx9064x/src/register.rs | 42 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/register.rs b/mlx9064x/src/register.rs
index 65e9016..e73b341 100644
--- a/mlx9064x/src/register.rs
+++ b/mlx9064x/src/register.rs
@@ -1,5 +1,6 @@
 //! Types for interacting with Melexis camera registers.
 
+use core::cmp::Ordering;
 use core::convert::{TryFrom, TryInto};
 use core::time::Duration;
 
@@ -423,16 +424,30 @@ impl From<ControlRegister> for [u8; 2] {
 }
 
 /// Represents the possible states of the I²C configuration register (0x800F).
-#[derive(Clone, Copy, Debug, Eq, PartialEq, PartialOrd, Ord)]
+#[derive(Clone, Copy, Debug)]
 pub struct I2cRegister {
     fast_mode_plus: bool,
 
     i2c_threshold_halved: bool,
 
     sda_current_limiter: bool,
+
+    /// The value of the bits not covered by one of the flags.
+    reserved: u16,
 }
 
 impl I2cRegister {
+    const FLAGS_MASK: u16 = 0x0007;
+
+    /// The documented flags, used for comparing registers.
+    fn flags(&self) -> (bool, bool, bool) {
+        (
+            self.fast_mode_plus,
+            self.i2c_threshold_halved,
+            self.sda_current_limiter,
+        )
+    }
+
     /// Check if I²C Fast Mode+ enabled.
     ///
     /// Defaults to enabled.
@@ -476,10 +491,32 @@ impl Default for I2cRegister {
             fast_mode_plus: true,
             i2c_threshold_halved: false,
             sda_current_limiter: true,
+            reserved: 0,
         }
     }
 }
 
+impl PartialEq for I2cRegister {
+    /// This method only compares non-reserved bits between two registers.
+    fn eq(&self, other: &Self) -> bool {
+        self.flags() == other.flags()
+    }
+}
+
+impl Eq for I2cRegister {}
+
+impl PartialOrd for I2cRegister {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for I2cRegister {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.flags().cmp(&other.flags())
+    }
+}
+
 impl Register for I2cRegister {
     fn write_mask() -> [u8; 2] {
         // the fourth bit is documented, but it is "reserved" at 0. It *isn't* documented to always
@@ -509,13 +546,14 @@ impl<'a> From<&'a [u8]> for I2cRegister {
             fast_mode_plus,
             i2c_threshold_halved,
             sda_current_limiter,
+            reserved: raw & !Self::FLAGS_MASK,
         }
     }
 }
 
 impl From<I2cRegister> for [u8; 2] {
     fn from(register: I2cRegister) -> Self {
-        let mut raw = 0u16;
+        let mut raw = register.reserved;
         // And here we translate back to "not disabled" land.
         if !register.fast_mode_plus {
             raw |= 0x0001;
-- 
2.43.0

