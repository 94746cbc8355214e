From 1285043caff5054f2a5673d86fd9c3462f573b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 01/15] fix: address every coefficient of a non-square
 embedding domain exactly once

The domain's dim() is (rows, columns); the column of an offset is its remainder by the number of columns.
---
 lib/sia/rust/embedding/src/io/steganography.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/embedding/src/io/steganography.rs b/lib/sia/rust/embedding/src/io/steganography.rs
index 76cddb5..bdbbafe 100644
--- a/lib/sia/rust/embedding/src/io/steganography.rs
+++ b/lib/sia/rust/embedding/src/io/steganography.rs
@@ -19,8 +19,8 @@ pub fn get_capacity(width: usize, height: usize) -> usize {
     ((width * height) as f64 / 8.).floor() as usize
 }
 
-fn get_column_and_row(offset: usize, width: usize, height: usize) -> (usize, usize) {
-    let column = offset % width;
+fn get_column_and_row(offset: usize, _width: usize, height: usize) -> (usize, usize) {
+    let column = offset % height;
     let row = (offset as f64 / height as f64).floor() as usize;
     (column, row)
 }
-- 
2.43.0


From d2c3394433472fa2a899910117eb1f9409ba6aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 02/15] fix: strip the length header when decoding with no LDPC
 code

encode() writes the header for every length, decode() returned it as data.
---
 lib/sia/rust/encoding/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 3fd5811..02bc83e 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -110,7 +110,11 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
     // let code_option = get_code_for_decode(bits_length);
     let code_option = get_code_by_codeword_length(codeword_length);
     match code_option {
-        None => bytes.clone(),
+        None => {
+            // not coded: the length header and the data follow each other directly
+            let bytes_length = bytes_to_u16(bytes[0], bytes[1]) as usize;
+            Vec::from(&bytes[2..bytes_length + 2])
+        }
         Some(code) => {
             let mut decoded_bytes = vec![];
             let code_words = bytes.chunks(code.n() / 8);
-- 
2.43.0


From 71b01db1c69b582c85d7d139cbfddf1bfacd0c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 03/15] fix: ignore the bytes after the last whole codeword
 when decoding

A domain whose capacity is not a multiple of the codeword length made the decoder panic.
---
 lib/sia/rust/encoding/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 02bc83e..a7dbaa2 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -117,7 +117,7 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
         }
         Some(code) => {
             let mut decoded_bytes = vec![];
-            let code_words = bytes.chunks(code.n() / 8);
+            let code_words = bytes.chunks_exact(code.n() / 8);
             println!("use LDPC code: ({:?}, {:?})", code.k(), code.n());
             println!("codewords to be decoded: {:?}", code_words.len());
 
-- 
2.43.0


From 7c540e0e1b7b1e0173348fd25255edbc6b0b929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 04/15] fix: refuse to encode more bytes than the length header
 can describe

The length was silently truncated to 16 bits and decode() returned other data.
---
 lib/sia/rust/encoding/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index a7dbaa2..ec24ecd 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -49,6 +49,10 @@ fn get_code_for_decode(length: usize) -> Option<LDPCCode> {
 }
 
 pub fn encode(input: Vec<u8>, codeword_length: usize) -> Vec<u8> {
+    if input.len() > u16::MAX as usize {
+        panic!("too long data: {:?}", input.len());
+    }
+
     // Prepend input data with amount of bytes
     let bytes_length = input.len() as u16;
     let (length_byte1, length_byte2) = u16_to_bytes(bytes_length);
-- 
2.43.0


From dcf2dbc4716fa3831e412cfa76cc6c27a8aba934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 05/15] fix: deserialize empty data

serialize() writes a bare two byte header for it, which was rejected as too short.
---
 lib/sia/rust/embedding/src/io/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/embedding/src/io/data.rs b/lib/sia/rust/embedding/src/io/data.rs
index 921eec4..0c6bbec 100644
--- a/lib/sia/rust/embedding/src/io/data.rs
+++ b/lib/sia/rust/embedding/src/io/data.rs
@@ -29,7 +29,7 @@ impl Data {
 pub fn deserialize(bytes: &Vec<u8>) -> Data {
     println!("serialized data bytes: {:?}", bytes);
     let length = bytes.len();
-    if length < 3 {
+    if length < 2 {
         panic!("too short data");
     }
 
-- 
2.43.0


From 268e4c9166020f5b308e66c386a2c392be4cb31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 06/15] fix: report malformed hexadecimal strings as errors

An odd length or a multi-byte character made decode_hex panic, and a plus sign was accepted as a digit.
---
 lib/sia/rust/utils/src/format.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/sia/rust/utils/src/format.rs b/lib/sia/rust/utils/src/format.rs
index d89c5e1..259a84b 100644
--- a/lib/sia/rust/utils/src/format.rs
+++ b/lib/sia/rust/utils/src/format.rs
@@ -1,9 +1,15 @@
 use std::{fmt::Write, num::ParseIntError};
 
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, ParseIntError> {
-    (0..s.len())
-        .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
+    s.as_bytes()
+        .chunks(2)
+        .map(|pair| match std::str::from_utf8(pair) {
+            Ok(digits) if pair.len() == 2 && !digits.starts_with('+') => {
+                u8::from_str_radix(digits, 16)
+            }
+            // half of a byte or of a character: not hexadecimal digits
+            _ => u8::from_str_radix("?", 16),
+        })
         .collect()
 }
 
-- 
2.43.0


From ec85447be52bed202c696f683093db852b360c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 07/15] fix: correct quantized features by whole steps

Adding the step to the noised feature and quantizing the sum again can round across a step boundary.
---
 .../rust/three-bit-quantization/src/lib.rs    | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/sia/rust/three-bit-quantization/src/lib.rs b/lib/sia/rust/three-bit-quantization/src/lib.rs
index 8e4dc21..63be0b6 100644
--- a/lib/sia/rust/three-bit-quantization/src/lib.rs
+++ b/lib/sia/rust/three-bit-quantization/src/lib.rs
@@ -110,15 +110,14 @@ pub fn three_bit_dequantization(
         .map(|chunk| chunk)
         .collect();
 
-    let restored_features = given_perturbation_vector
+    given_perturbation_vector
         .chunks(3)
         .enumerate()
         .map(|(i, given_perturbation_bits)| {
             let calculated_perturbation_bits =
                 *calculated_perturbation_vector_chunks.get(i).unwrap();
 
-            let noised_feature: f64 = *(*noised_features).get(i).unwrap();
-            //let noised_quantized_feature: i64 = *(*noised_quantized_features).get(i).unwrap();
+            let noised_quantized_feature: i64 = *noised_quantized_features.get(i).unwrap();
 
             let given_bit1 = given_perturbation_bits.get(0).unwrap().as_u8();
             let given_bit2 = given_perturbation_bits.get(1).unwrap().as_u8();
@@ -150,24 +149,22 @@ pub fn three_bit_dequantization(
 
             /*println!(
                 "data: {:?}, {:?}, a: {:?}",
-                noised_feature, noised_quantized_feature, a
+                noised_features.get(i), noised_quantized_feature, a
             );*/
 
             if a == 0 && given_bit3 == 0 {
-                noised_feature + step
+                noised_quantized_feature + 1
             } else if a == 0 && given_bit3 == 1 && calculated_bit3 == 1 {
-                noised_feature + step
+                noised_quantized_feature + 1
             } else if a == 1 && given_bit3 == 1 {
-                noised_feature - step
+                noised_quantized_feature - 1
             } else if a == 1 && given_bit3 == 0 && calculated_bit3 == 0 {
-                noised_feature - step
+                noised_quantized_feature - 1
             } else {
-                noised_feature
+                noised_quantized_feature
             }
         })
-        .collect();
-
-    quantize(&restored_features, step)
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 01f45477d604727c2e583ea57223763d5c0b6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 08/15] fix: compute Zernike moments of non-square images

The polynomials were sampled on a square as wide as the image is high: wide images panicked, tall ones used the wrong weights.
---
 lib/sia/rust/zernike/src/calc.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/sia/rust/zernike/src/calc.rs b/lib/sia/rust/zernike/src/calc.rs
index 37f2b5c..fabc6b7 100644
--- a/lib/sia/rust/zernike/src/calc.rs
+++ b/lib/sia/rust/zernike/src/calc.rs
@@ -12,15 +12,15 @@ pub fn calculate_zernike_image_moment(
 ) -> Complex<f64> {
     let (width, height) = image.dim();
 
-    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, width).into_raw_vec();
+    // polynomials are defined on the square that encloses the image
+    let zernike_matrix = get_zernike_matrix(order, index as isize, width.max(height));
 
     let integral =
         image
-            .iter()
-            .enumerate()
-            .fold(Complex::new(0., 0.), |accumulator, (i, &next)| {
+            .indexed_iter()
+            .fold(Complex::new(0., 0.), |accumulator, (position, &next)| {
                 let next_pixel = next as f64;
-                let zernike_multiplier = zernike_matrix_vector.get(i).unwrap();
+                let zernike_multiplier = zernike_matrix[position];
 
                 return accumulator + zernike_multiplier * next_pixel;
             });
-- 
2.43.0


From 26941202c673ccdad36f42b322844e3249c72909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 09/15] hooks: expose internals to the verification harness
 under cfg(sia_verif)

---
 lib/sia/rust/embedding/src/lib.rs      |  9 +++++++++
 lib/sia/rust/image-features/src/lib.rs | 10 ++++++++++
 lib/sia/rust/watermarking/src/lib.rs   |  7 +++++++
 3 files changed, 26 insertions(+)

diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index b070bcf..df41a55 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -8,6 +8,15 @@ use crate::io::data::{deserialize, Data};
 mod haar;
 mod io;
 
+/// Internal items made visible to the verification harness (--cfg sia_verif).
+#[cfg(sia_verif)]
+pub mod verif {
+    pub use crate::haar::dwt_2d;
+    pub use crate::io::data::{deserialize, Data};
+    pub use crate::io::steganography::get_capacity;
+    pub use crate::io::{read, write};
+}
+
 fn get_domain_capacity(domain_width: usize, domain_height: usize) -> usize {
     let capacity = io::steganography::get_capacity(domain_width, domain_height);
     println!("domain capacity: {:?} bytes", capacity);
diff --git a/lib/sia/rust/image-features/src/lib.rs b/lib/sia/rust/image-features/src/lib.rs
index 9bbb1a4..be1a798 100644
--- a/lib/sia/rust/image-features/src/lib.rs
+++ b/lib/sia/rust/image-features/src/lib.rs
@@ -6,11 +6,21 @@ use zernike::ZernikeFeaturesCalculator;
 
 pub mod feature_types;
 
+/// Lets the verification harness (--cfg sia_verif) supply the features of an image.
+#[cfg(sia_verif)]
+pub mod verif {
+    pub static mut FEATURES: Option<fn(&ndarray::Array2<u8>, usize) -> Vec<f64>> = None;
+}
+
 pub fn calculate_features(
     image: &Array2<u8>,
     features_type: FeaturesType,
     features_amount: usize,
 ) -> Vec<f64> {
+    #[cfg(sia_verif)]
+    if let Some(supplied) = unsafe { verif::FEATURES } {
+        return supplied(image, features_amount);
+    }
     match features_type {
         FeaturesType::MomentsZernike => {
             let zernike_features = ZernikeFeaturesCalculator {};
diff --git a/lib/sia/rust/watermarking/src/lib.rs b/lib/sia/rust/watermarking/src/lib.rs
index 581e3ce..049bced 100644
--- a/lib/sia/rust/watermarking/src/lib.rs
+++ b/lib/sia/rust/watermarking/src/lib.rs
@@ -3,6 +3,13 @@ extern crate core;
 mod process;
 mod watermark;
 
+/// Internal items made visible to the verification harness (--cfg sia_verif).
+#[cfg(sia_verif)]
+pub mod verif {
+    pub use crate::process::{authenticate_channel, watermark_channel};
+    pub use crate::watermark::{deserialize, Watermark};
+}
+
 use crate::process::watermark_channel;
 use image::{
     imageops, DynamicImage, GenericImage, GenericImageView, ImageBuffer, Luma, Pixel, Rgba,
-- 
2.43.0


From 177cc39d8e945b417948ce68f79d15d70fe4d0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:23 +0000
Subject: [PATCH 10/15] fix: let the pseudo-random seed wrap around

---
 lib/sia/rust/utils/src/pseudo_random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/utils/src/pseudo_random.rs b/lib/sia/rust/utils/src/pseudo_random.rs
index 94d6b4a..45cc91c 100644
--- a/lib/sia/rust/utils/src/pseudo_random.rs
+++ b/lib/sia/rust/utils/src/pseudo_random.rs
@@ -18,7 +18,7 @@ impl Generate for PseudoRandom {
     }
 
     fn generate_unit(&mut self) -> f64 {
-        self.seed += 1;
+        self.seed = self.seed.wrapping_add(1);
         let a = self.seed as f64 * 15485863.;
         (a * a * a % 2038074743.) as f64 / 2038074743.
     }
-- 
2.43.0


From 4e6fecd964874f14fde8ab328ef67314a928ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 11/15] fix: decode damaged bytes without reaching beyond them

---
 lib/sia/rust/encoding/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index ec24ecd..640241b 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -116,8 +116,11 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
     match code_option {
         None => {
             // not coded: the length header and the data follow each other directly
+            if bytes.len() < 2 {
+                return vec![];
+            }
             let bytes_length = bytes_to_u16(bytes[0], bytes[1]) as usize;
-            Vec::from(&bytes[2..bytes_length + 2])
+            Vec::from(&bytes[2..bytes.len().min(bytes_length + 2)])
         }
         Some(code) => {
             let mut decoded_bytes = vec![];
@@ -137,13 +140,18 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
                 decoded_bytes.append(&mut decoded_word_bytes);
             }
 
+            if decoded_bytes.len() < 2 {
+                return vec![];
+            }
+
             // Get data bytes length
             let bytes_length = bytes_to_u16(decoded_bytes[0], decoded_bytes[1]) as usize;
 
             println!("expected data bytes length: {:?}", bytes_length);
 
-            // Return decoded data
-            let decoded_bytes = Vec::from(&decoded_bytes[2..bytes_length + 2]);
+            // Return decoded data, a damaged length must not reach beyond it
+            let data_end = decoded_bytes.len().min(bytes_length + 2);
+            let decoded_bytes = Vec::from(&decoded_bytes[2..data_end]);
 
             //println!("decoded bytes: {:?}", decoded_bytes);
             decoded_bytes
-- 
2.43.0


From a28a5c262206b284c286b54a3d6301b6f0dd738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 12/15] fix: read a damaged data frame without reaching beyond
 it

---
 lib/sia/rust/embedding/src/io/data.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/embedding/src/io/data.rs b/lib/sia/rust/embedding/src/io/data.rs
index 0c6bbec..b5dc248 100644
--- a/lib/sia/rust/embedding/src/io/data.rs
+++ b/lib/sia/rust/embedding/src/io/data.rs
@@ -30,7 +30,7 @@ pub fn deserialize(bytes: &Vec<u8>) -> Data {
     println!("serialized data bytes: {:?}", bytes);
     let length = bytes.len();
     if length < 2 {
-        panic!("too short data");
+        return Data::new(vec![]);
     }
 
     let data_length_bytes = &bytes[0..2];
@@ -40,7 +40,8 @@ pub fn deserialize(bytes: &Vec<u8>) -> Data {
     println!("data length: {:?}", data_length);
 
     let data_start = 2;
-    let data_end = data_start + data_length as usize;
+    // a damaged length must not reach beyond the data
+    let data_end = length.min(data_start + data_length as usize);
     println!("data bytes: ({:?} - {:?})", data_start, data_end);
 
     let data_bytes: Vec<u8> = bytes[data_start..data_end].to_vec();
-- 
2.43.0


From e6cea77b7f858d166954148eb228c72896789864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 13/15] fix: read a damaged watermark record without reaching
 beyond it

---
 lib/sia/rust/watermarking/src/watermark.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/sia/rust/watermarking/src/watermark.rs b/lib/sia/rust/watermarking/src/watermark.rs
index 1bb5df4..097aad2 100644
--- a/lib/sia/rust/watermarking/src/watermark.rs
+++ b/lib/sia/rust/watermarking/src/watermark.rs
@@ -53,30 +53,31 @@ impl Watermark {
 pub fn deserialize(bytes: &Vec<u8>) -> Watermark {
     let length = bytes.len();
     if length < 3 {
-        panic!("too short data");
+        return Watermark::new(BitVec::new(), vec![], String::new());
     }
 
     let perturbation_vector_length = *bytes.get(0).unwrap() as usize;
     let signature_length = *bytes.get(1).unwrap() as usize;
     let text_length = *bytes.get(2).unwrap() as usize;
 
+    // damaged lengths must not reach beyond the data
     let p_start = 3;
-    let p_end = p_start + (perturbation_vector_length as f64 / 8.).ceil() as usize;
+    let p_end = length.min(p_start + (perturbation_vector_length as f64 / 8.).ceil() as usize);
     // println!("p: ({:?} - {:?})", p_start, p_end);
 
     let s_start = p_end;
-    let s_end = s_start + signature_length;
+    let s_end = length.min(s_start + signature_length);
     // println!("s: ({:?} - {:?})", s_start, s_end);
 
     let t_start = s_end;
-    let t_end = t_start + text_length;
+    let t_end = length.min(t_start + text_length);
     // println!("t: ({:?} - {:?})", t_start, t_end);
 
     let p: BitVec<u8> =
         perturbation_vector_from_bytes(&bytes[p_start..p_end].to_vec(), perturbation_vector_length);
     let s: Vec<u8> = bytes[s_start..s_end].to_vec();
 
-    let t: String = String::from_utf8(bytes[t_start..t_end].to_vec()).unwrap();
+    let t: String = String::from_utf8_lossy(&bytes[t_start..t_end]).into_owned();
 
     Watermark::new(p, s, t)
 }
-- 
2.43.0


From 1b67ede36a1983298b186e116a2590296593e5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 14/15] fix: a malformed signature does not verify

---
 lib/sia/rust/signature/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index 1b418d6..b694091 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -34,8 +34,11 @@ pub fn verify(data: &Vec<u8>, signature: &Vec<u8>, public_key: &str) -> bool {
 
     let verifier = DSVerifier { verify_key };
 
-    let sig = Signature::from_bytes(signature.as_slice()).unwrap();
-    verifier.verify(data.as_slice(), &sig).is_ok()
+    match Signature::from_bytes(signature.as_slice()) {
+        Ok(sig) => verifier.verify(data.as_slice(), &sig).is_ok(),
+        // not even the form of a signature
+        Err(_) => false,
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3e4e53dafe902a420f24f684512d938d260407b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:46 +0000
Subject: [PATCH 15/15] fix: ignore the bits beyond the features when
 dequantizing

---
 lib/sia/rust/three-bit-quantization/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sia/rust/three-bit-quantization/src/lib.rs b/lib/sia/rust/three-bit-quantization/src/lib.rs
index 63be0b6..5f99261 100644
--- a/lib/sia/rust/three-bit-quantization/src/lib.rs
+++ b/lib/sia/rust/three-bit-quantization/src/lib.rs
@@ -110,8 +110,10 @@ pub fn three_bit_dequantization(
         .map(|chunk| chunk)
         .collect();
 
+    // a damaged vector may hold any number of bits: only whole triples of known features count
     given_perturbation_vector
-        .chunks(3)
+        .chunks_exact(3)
+        .take(noised_features.len())
         .enumerate()
         .map(|(i, given_perturbation_bits)| {
             let calculated_perturbation_bits =
-- 
2.43.0

