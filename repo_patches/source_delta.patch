From 1fb44747d0226b6d6b49002de47f48fe99c642a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 1/8] fix: only cache control register values once they are
 written

A failed write left the driver using an access pattern and resolution
correction the camera was never set to.
---
 mlx9064x/src/driver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/driver.rs b/mlx9064x/src/driver.rs
index 2bd10e1..c59e15f 100644
--- a/mlx9064x/src/driver.rs
+++ b/mlx9064x/src/driver.rs
@@ -161,8 +161,9 @@ where
     }
 
     fn set_control_register(&mut self, register: ControlRegister) -> Result<(), Error<I2C>> {
-        self.update_control_register(&register);
         register.to_i2c(&mut self.bus, self.address)?;
+        // Only update the cached values once the camera has actually accepted the new settings.
+        self.update_control_register(&register);
         Ok(())
     }
 
-- 
2.43.0


From 32248f7b464a4935c03d6db839ab43718c4ed14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 2/8] fix: avoid integer overflow in delta_v

The difference of two 16-bit values does not always fit in 16 bits.
---
 mlx9064x/src/calculations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 75bd682..7b0b0a6 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -159,7 +159,7 @@ const KELVINS_TO_CELSIUS: f32 = 273.15;
 /// while $V_{DD_{pix}}$ (`v_dd_pixel`) is read from the camera's RAM.
 #[doc = include_str!("katex.html")]
 pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i16) -> f32 {
-    f32::from(v_dd_pixel - calibration.v_dd_25()) / f32::from(calibration.k_v_dd())
+    (f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25())) / f32::from(calibration.k_v_dd())
 }
 
 /// Calculate $V_{DD}$
-- 
2.43.0


From 45d09cb84cbf0c08d87bcb8aa1dd506bd27f3538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 3/8] fix: reject short MLX90640 EEPROM dumps

The length check compared a byte count to a word count, so a buffer
of only part of the EEPROM panicked instead of returning an error.
---
 mlx9064x/src/mlx90640/eeprom.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index b0ec12d..c3265e0 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -250,7 +250,8 @@ impl Mlx90640Calibration {
     /// The buffer must cover *all* of the EEPROM.
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
-        let eeprom_length = usize::from(EepromAddress::End - EepromAddress::Base);
+        // The addresses are inclusive, and each address is a word.
+        let eeprom_length = usize::from(EepromAddress::End - EepromAddress::Base + 1) * WORD_SIZE;
         if buf.len() < eeprom_length {
             return Err(LibraryError::Other(
                 "Not enough space left in buffer to be a full EEPROM dump",
-- 
2.43.0


From f64630a711b86dc4728fa63380ef27f54fb1c1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 4/8] fix: reject short MLX90641 EEPROM dumps

A buffer of only part of the EEPROM panicked instead of returning an
error.
---
 mlx9064x/src/mlx90641/eeprom.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 44da0cb..60c918b 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -84,6 +84,13 @@ pub struct Mlx90641Calibration {
 impl Mlx90641Calibration {
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
+        // The addresses are inclusive, and each address is a word.
+        let eeprom_length = usize::from(EepromAddress::End - EepromAddress::Base + 1) * WORD_SIZE;
+        if buf.len() < eeprom_length {
+            return Err(LibraryError::Other(
+                "Not enough space left in buffer to be a full EEPROM dump",
+            ));
+        }
         // Much like the MLX90640 implementation, this is a mess of a function as the data is
         // scattered across the EEPROM.
         // Skip past the per-pixel values
-- 
2.43.0


From c866035d587d074d1d8b0efc05814e483f7aa54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 5/8] fix: use all 16 bits of the MLX90641 average offset

The value is split over two words because it is 16 bits wide, but all
except the lower 11 bits were thrown away.
---
 mlx9064x/src/mlx90641/eeprom.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 60c918b..9e30625 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -351,8 +351,7 @@ impl PerPixelCalibration {
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
         let offset_scale = 2i16.pow(offset_scale as u32);
-        let offset_average_bytes = get_combined_word(&mut buf)?;
-        let offset_average = i16_from_i11(&offset_average_bytes[..]);
+        let offset_average = i16::from_be_bytes(get_combined_word(&mut buf)?);
         // the next two words are reserved.
         buf.advance(WORD_SIZE * 2);
         let k_ta_average = get_hamming_i16(&mut buf)?;
-- 
2.43.0


From 78977feada8ecab45da0b61a06d12cc4e8e7f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 6/8] fix: report MLX90641 pixel offsets that are out of range

A large offset scale panicked (or wrapped around in release builds)
instead of returning an error.
---
 mlx9064x/src/mlx90641/eeprom.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 9e30625..71c03a6 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -350,8 +350,14 @@ impl PerPixelCalibration {
         buf.advance(EepromAddress::OffsetCompensationScale.offset_from_base() * WORD_SIZE);
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
-        let offset_scale = 2i16.pow(offset_scale as u32);
+        // Shifting any non-zero value by 16 or more places is already too large for a 16-bit offset.
+        let offset_scale = offset_scale.min(16);
         let offset_average = i16::from_be_bytes(get_combined_word(&mut buf)?);
+        let scale_offset = |raw_offset: i16| {
+            let offset = i32::from(offset_average) + (i32::from(raw_offset) << offset_scale);
+            i16::try_from(offset)
+                .map_err(|_| LibraryError::InvalidData("Pixel offset does not fit in 16 bits"))
+        };
         // the next two words are reserved.
         buf.advance(WORD_SIZE * 2);
         let k_ta_average = get_hamming_i16(&mut buf)?;
@@ -434,16 +440,8 @@ impl PerPixelCalibration {
                 k_ta_pixels.push(Default::default());
                 k_v_pixels.push(Default::default());
             } else {
-                // NOTE: There's a chance this will overflow, if offset_scale is too large
-                let offset_delta_0 = offset_0_raw * offset_scale;
-                let offset_delta_1 = offset_1_raw * offset_scale;
-                // The contents of the offset pixels are initialized to offset_average
-                offset_reference_pixels
-                    .0
-                    .push(offset_average + offset_delta_0);
-                offset_reference_pixels
-                    .1
-                    .push(offset_average + offset_delta_1);
+                offset_reference_pixels.0.push(scale_offset(offset_0_raw)?);
+                offset_reference_pixels.1.push(scale_offset(offset_1_raw)?);
                 // The datasheet is a little hard to read for this, but alpha_EE is divided by
                 // (2^{11} - 1) = 2047
                 alpha_pixels.push((f32::from(alpha_raw) / 2047f32) * alpha_reference);
-- 
2.43.0


From 1b432b892fe91f0449cca256f45e676efa8a64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 7/8] fix: do not overflow while scaling MLX90640 pixel
 calibration data

Large scales silently dropped bits or panicked. Sensitivity and K_Ta
values are calculated without overflow now, and an offset that is out of
range is reported as an error.
---
 mlx9064x/src/mlx90640/eeprom.rs | 34 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index c3265e0..6e474ac 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -91,25 +91,26 @@ impl Mlx90640Calibration {
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
-    ) -> ([i16; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
+    ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
-        let offset_average = data.get_i16();
+        // The scaled coefficients do not always fit in 16 bits.
+        let offset_average = i32::from(data.get_i16());
         let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
         for row_chunks in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH * VALUES_PER_DATA_ROW)
         {
             let rows_coefficients = word_to_i4s(data);
-            // Create a nice lazy iterator that converts the values to i16, scales them, and
+            // Create a nice lazy iterator that converts the values to i32, scales them, and
             // reverses that order of the data (because the data is laid out backwards in the
             // EEPROM).
             let rows_coefficients = rows_coefficients
                 .into_iter()
                 //let rows_coefficients = core::array::IntoIter::new(rows_coefficients)
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << row_scale)
                 .rev();
             for (row, coefficient) in row_chunks
@@ -128,7 +129,7 @@ impl Mlx90640Calibration {
             let column_coefficients = column_coefficients
                 .iter()
                 .copied()
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << column_scale)
                 .rev();
             for row in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH) {
@@ -260,13 +261,13 @@ impl Mlx90640Calibration {
         // Skip the first 16 words, they're irrelevant
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
-        let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
+        let (mut offset_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_ptat = alpha_ptat / 4 + 8;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
-            alpha_pixels.into_iter().map(f32::from).collect();
+            alpha_pixels.into_iter().map(|alpha| alpha as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
         let mut alpha_pixels = alpha_pixels.into_inner().unwrap();
         // Calculate the actual alpha scaling value from the exponent value. The alpha scaling
@@ -338,7 +339,7 @@ impl Mlx90640Calibration {
         let mut outlier_pixels = FlagArray::default();
         // Calculate the rest of the per-pixel data using the remainder/k_ta data
         let mut k_ta_pixels = [0f32; Mlx90640::NUM_PIXELS];
-        offset_reference_pixels
+        offset_pixels
             .iter_mut()
             .zip(alpha_pixels.iter_mut())
             .zip(lazy_k_ta_pixels)
@@ -354,26 +355,33 @@ impl Mlx90640Calibration {
                         failed.set(true);
                     } else {
                         // Normal dance to extend the sign bit from an i6 to an i8
-                        let offset_remainder = i16::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
+                        let offset_remainder = i32::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
                         *offset += offset_remainder << offset_correction_remainder_scale;
                         // alpha is going to be a little weird: not only is there the i6-shift-dance,
                         // but there's an extra shift right by 4 to drop the k_ta and outlier bits.
                         let alpha_remainder = (i16::from_be_bytes([high & 0x03, low]) << 6) >> 10;
-                        *alpha += f32::from(alpha_remainder << alpha_correction_remainder_scale);
+                        let alpha_remainder =
+                            i32::from(alpha_remainder) << alpha_correction_remainder_scale;
+                        *alpha += alpha_remainder as f32;
                         *alpha /= alpha_scale;
                         // To try to keep floating point errors down as long as possible, do all the
                         // operations for the numerator as ints, then convert to floats for the final
                         // division.
-                        let k_ta_remainder = i16::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
+                        let k_ta_remainder = i32::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
                         let k_ta_numerator =
-                            f32::from(k_ta_rc + (k_ta_remainder << k_ta_scale2_exp));
-                        *k_ta = k_ta_numerator / k_ta_scale1;
+                            i32::from(k_ta_rc) + (k_ta_remainder << k_ta_scale2_exp);
+                        *k_ta = k_ta_numerator as f32 / k_ta_scale1;
                         // If the last bit of the low byte is set, this is an outlier (or deviant)
                         // pixel.
                         outlier.set(is_bit_set(low, 0))
                     }
                 },
             );
+        let mut offset_reference_pixels = [0i16; Mlx90640::NUM_PIXELS];
+        for (dest, offset) in offset_reference_pixels.iter_mut().zip(offset_pixels) {
+            *dest = i16::try_from(offset)
+                .map_err(|_| LibraryError::InvalidData("Pixel offset does not fit in 16 bits"))?;
+        }
         Ok(Self {
             k_v_dd,
             v_dd_25,
-- 
2.43.0


From c85fb296e2ec1b08f46507fbea3987dfa4fd8d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 8/8] fix: preserve the reserved bits of the I2C configuration
 register

Reading, changing, then writing the register back cleared every bit
without a documented meaning.
---
 mlx9064x/src/register.rs | 44 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/register.rs b/mlx9064x/src/register.rs
index 65e9016..97de46b 100644
--- a/mlx9064x/src/register.rs
+++ b/mlx9064x/src/register.rs
@@ -1,5 +1,6 @@
 //! Types for interacting with Melexis camera registers.
 
+use core::cmp::Ordering;
 use core::convert::{TryFrom, TryInto};
 use core::time::Duration;
 
@@ -423,16 +424,33 @@ impl From<ControlRegister> for [u8; 2] {
 }
 
 /// Represents the possible states of the I²C configuration register (0x800F).
-#[derive(Clone, Copy, Debug, Eq, PartialEq, PartialOrd, Ord)]
+///
+/// Reserved bits are preserved when writing a register back to the camera, but are ignored when
+/// comparing registers.
+#[derive(Clone, Copy, Debug)]
 pub struct I2cRegister {
     fast_mode_plus: bool,
 
     i2c_threshold_halved: bool,
 
     sda_current_limiter: bool,
+
+    /// The bits without a documented meaning, as they were read from the camera.
+    reserved: u16,
 }
 
 impl I2cRegister {
+    const RESERVED_MASK: u16 = 0xFFF8;
+
+    /// The values of all of the non-reserved fields.
+    fn fields(&self) -> (bool, bool, bool) {
+        (
+            self.fast_mode_plus,
+            self.i2c_threshold_halved,
+            self.sda_current_limiter,
+        )
+    }
+
     /// Check if I²C Fast Mode+ enabled.
     ///
     /// Defaults to enabled.
@@ -476,10 +494,31 @@ impl Default for I2cRegister {
             fast_mode_plus: true,
             i2c_threshold_halved: false,
             sda_current_limiter: true,
+            reserved: 0,
         }
     }
 }
 
+impl PartialEq for I2cRegister {
+    fn eq(&self, other: &Self) -> bool {
+        self.fields() == other.fields()
+    }
+}
+
+impl Eq for I2cRegister {}
+
+impl PartialOrd for I2cRegister {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for I2cRegister {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.fields().cmp(&other.fields())
+    }
+}
+
 impl Register for I2cRegister {
     fn write_mask() -> [u8; 2] {
         // the fourth bit is documented, but it is "reserved" at 0. It *isn't* documented to always
@@ -509,13 +548,14 @@ impl<'a> From<&'a [u8]> for I2cRegister {
             fast_mode_plus,
             i2c_threshold_halved,
             sda_current_limiter,
+            reserved: raw & Self::RESERVED_MASK,
         }
     }
 }
 
 impl From<I2cRegister> for [u8; 2] {
     fn from(register: I2cRegister) -> Self {
-        let mut raw = 0u16;
+        let mut raw = register.reserved;
         // And here we translate back to "not disabled" land.
         if !register.fast_mode_plus {
             raw |= 0x0001;
-- 
2.43.0

